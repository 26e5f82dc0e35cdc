// Deterministic simulator core: choices/tape, virtual time, fibers, scheduler, memory arena, trace, violations.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>
#include <regex>
#include <map>
#include <set>
#include <csetjmp>

namespace sim {

typedef int64_t ns;
static const ns US = 1000, MS = 1000000, SEC = 1000000000LL, NEVER = INT64_MAX;

// ---- choices -------------------------------------------------------------------------------------------------
// Every nondeterministic decision of a run is one of these kinds. Value 0 is always the benign default.
#define SIM_KINDS(X) \
 X(CFG) X(PLAN) X(DATA) X(SCHED) X(STALL) X(PREEMPT) X(LATENCY) X(SEGMENT) X(SHORTRECV) X(SHORTSEND) X(CONNECT) X(DNS) \
 X(NEMESIS) X(MALLOC) X(SPURIOUS) X(MAYCANCEL) X(THREADFAIL) X(SOCKFAIL) X(FILEFAIL) X(FORKFAIL) X(KILL) X(RAND) X(UART) \
 X(FPGA) X(DIRORDER) X(CLOCK) X(SHORTWRITE) X(WAKEORDER) X(ACTOR)
enum Kind {
#define X(n) K_##n,
SIM_KINDS(X)
#undef X
K_MAX };
extern const char * const kindName[K_MAX];

struct TapeEntry { uint32_t kind; uint64_t idx; uint64_t val; };
typedef std::vector<TapeEntry> Tape;

uint64_t choose64(Kind k, uint64_t n);
inline uint32_t choose(Kind k, uint32_t n) { return (uint32_t)choose64(k, n); }  // uniform 0..n-1 (default 0)
bool fault(Kind k, const char * what);             // biased coin with this run's rate for this kind; counted when it fires
extern std::string propAlias;
bool coin(Kind k, uint32_t num, uint32_t den);     // coin with probability num/den, default false
uint32_t biased(Kind k, uint32_t n, uint32_t num, uint32_t den); // 0 with prob 1-num/den, else uniform 1..n-1
int64_t range(Kind k, int64_t lo, int64_t hi);     // uniform lo..hi, default lo
uint64_t logrange(Kind k, uint64_t lo, uint64_t hi); // roughly log-uniform, default lo
void setRate(Kind k, uint32_t per65536);
uint32_t rate(Kind k);
extern bool faultsEnabled;                         // false: fault() never fires any more (scheduling stays random)
void countFault(const char * what, uint64_t n = 1);
void probe(const char * what);                     // reach probe: a rare condition was hit
void stateSig(uint64_t sig);                       // abstract state reached

// ---- time & events ---------------------------------------------------------------------------------------------
extern ns now;              // monotonic simulated time
extern ns wallOffset;       // CLOCK_REALTIME = now + wallOffset
inline ns wall() { return now + wallOffset; }
extern uint64_t seqno;      // global step sequence number
void at(ns t, std::function<void()> fn);
inline void after(ns d, std::function<void()> fn) { at(now + d, fn); }
void clockJump(ns delta);

// ---- trace -----------------------------------------------------------------------------------------------------
extern bool verbose;
void trf(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
#define tr(...) do { if (sim::verbose) sim::trf(__VA_ARGS__); } while (0)
void th(uint64_t code, uint64_t a = 0, uint64_t b = 0);                 // trace hash
void thData(const void * p, size_t n);

// ---- violations ------------------------------------------------------------------------------------------------
// cls: stable class id, e.g. "stream.torn". tags: comma separated properties it breaks ("*" = every property).
void violation(const char * cls, const char * tags, const char * fmt, ...) __attribute__((format(printf, 3, 4)));
bool violated();
void dumpFibers(const char * when);

// ---- fibers ----------------------------------------------------------------------------------------------------
enum FState { F_FREE, F_RUNNABLE, F_BLOCKED, F_DONE };
enum BlockKind { B_NONE, B_MUTEX, B_COND, B_SLEEP, B_RECV, B_SEND, B_CONNECT, B_DNS, B_JOIN, B_SIGWAIT, B_POLL, B_FILE, B_WAITPID, B_STALL, B_OTHER, B_MAX };
extern const char * const blockName[B_MAX];
struct Fiber {
	int id;                  // slot
	uint32_t serial;         // creation number within the run (stable id)
	FState state;
	void * sp;
	char * stackLo, * stackHi;
	std::string name;
	void * (*entry)(void *); void * arg; void * ret;
	std::function<void()> hostEntry;
	bool detached;
	// blocking
	BlockKind bk; const void * key; ns deadline; ns deadlineRt; int wakeCode; bool cancellable; ns blockedSince; uint64_t blockGen;
	// cancellation
	bool cancelPending, cancelEnabled, cancelling; void * cleanup;
	int err;                 // errno
	uint64_t accesses, nextPreempt, preemptDraws; uint64_t accSinceSys;
	ns spinStart; uint32_t spinCount; uint64_t syscalls;
	int prio;
	std::vector<void *> held; // mutexes held
	std::vector<char> tls;
	uint64_t sigmask;
	void * user;
};
enum { MAXF = 48 };
extern Fiber fibers[MAXF];
extern Fiber * cur;          // current fiber or null (scheduler/world)
enum { WAKE_NORMAL = 0, WAKE_TIMEOUT = 1, WAKE_CANCEL = 2, WAKE_SPURIOUS = 3 };

Fiber * spawn(const char * name, void * (*entry)(void *), void * arg);   // null if no slot
Fiber * spawnHost(const char * name, std::function<void()> fn);
int block(BlockKind bk, const void * key, ns deadline, ns deadlineRt, bool cancellable);
void wake(Fiber * f, int code);
int wakeAll(BlockKind bk, const void * key);
int wakeOne(BlockKind bk, const void * key);
void yieldPoint(const char * what); // every simulated system/library call enters here
void fiberExit(void * ret) __attribute__((noreturn));
void testCancel();
void cancelFiber(Fiber * f);
int sleepFor(ns d, bool cancellable, BlockKind bk = B_SLEEP);
extern void (*onFiberExit)(Fiber *);
void unpoisonStack(Fiber * f);

// ---- run control -----------------------------------------------------------------------------------------------
extern bool stopRun;
extern uint32_t endFiber; extern std::string endThread;   // who ended the process
bool stallsOn();                  // this run stalls threads for up to 400 ms while faults are enabled
void endRun();
extern uint64_t steps, maxSteps, switches;
enum EndHow { END_EXIT, END_ABORT, END_KILLED, END_EXEC };
void processEnd(EndHow how, int status) __attribute__((noreturn));   // from a fiber
void killProcess(EndHow how, int status);                            // from world/event context
extern std::function<void(EndHow, int)> onProcessEnd;                // world callback, fibers are already gone
extern std::function<void()> onDeadlock;                             // no event and no runnable fiber
int forkCurrent(int pid);          // returns 0 in the child branch, pid in the parent
void childExit(int status) __attribute__((noreturn));
extern int childDepth;
extern int lastChildStatus;
extern std::vector<std::function<std::function<void()>()>> snapshotHooks;  // save state, return a restore function
extern std::function<void(const char *)> onChildHang;

// ---- memory ----------------------------------------------------------------------------------------------------
static const uintptr_t ARENA_BASE = 0x10000000000ULL, ARENA_SIZE = 1024ULL << 20;
static const uintptr_t STACK_BASE = 0x11000000000ULL, STACK_SIZE = 256 << 10, STACK_STRIDE = 320 << 10;
static const uintptr_t SHADOW_OFF = 0x7fff8000ULL;
void memInit();
void * arenaAlloc(size_t n, size_t align = 16, bool isMap = false);
void arenaFree(void * p, bool isMap = false);
size_t arenaUsable(void * p);
uintptr_t arenaBlock(void * p);    // start of the live block p points into, or 0
inline bool inArena(uintptr_t a) { return a - ARENA_BASE < ARENA_SIZE; }
extern size_t arenaLive, arenaBlocks;
void checkRange(const void * p, size_t n, bool write, const char * what);
void snapshotSutInit();            // once at program start
void restoreSut();                 // pristine SUT data
extern char * sutDataLo, * sutDataHi, * sutBssLo, * sutBssHi;
void hook(uintptr_t a, size_t n, bool write);
extern void (*mmioHook)(uintptr_t a, size_t n, bool write);
extern uintptr_t mmioLo, mmioHi;
extern uint64_t hookCount;

// ---- run driver ------------------------------------------------------------------------------------------------
struct Result {
	bool violated; std::string cls, tags, msg; uint64_t hash, schedHash; Tape tape; ns simTime; uint64_t steps, switches;
	std::vector<std::string> other;
};
struct RunSpec { std::string scenario; std::string property; uint64_t seed; bool replay; Tape tape; };
Result runOnce(const RunSpec & spec, const std::function<void()> & setup);
extern std::map<std::string, uint64_t> faultCounts, probeCounts;   // accumulated over runs of this process
extern std::set<uint64_t> stateSigs;
extern std::string traceText;
extern const RunSpec * curSpec;
extern std::vector<std::pair<std::string, std::regex>> knownFindings; // recorded genuine defects: class and pattern of the message
extern std::vector<std::function<void()>> resetHooks;   // called at the start of each run
bool propWanted(const char * tags);
}
