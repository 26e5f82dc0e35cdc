#include "core.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <algorithm>
#include <queue>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <link.h>

namespace sim {

const char * const kindName[K_MAX] = {
#define X(n) #n,
SIM_KINDS(X)
#undef X
};
const char * const blockName[B_MAX] = { "none", "mutex", "cond", "sleep", "recv", "send", "connect", "dns", "join", "sigwait", "poll", "file", "waitpid", "stall", "other" };

// ================================================================================================ choices
static inline uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
struct Stream { uint64_t s[2]; uint64_t idx; };
static Stream streams[K_MAX];
static uint32_t rates[K_MAX];
static bool replaying;
static Tape recTape;
static std::vector<std::pair<uint64_t, uint64_t>> rep[K_MAX]; // sorted by idx
static size_t repPos[K_MAX];
bool faultsEnabled = true;
const RunSpec * curSpec;
std::map<std::string, uint64_t> faultCounts, probeCounts;
std::set<uint64_t> stateSigs;
static std::map<std::string, uint64_t> faultRun; static std::map<const char *, uint64_t> probeRun;

static uint64_t rnd(Kind k)
{
	Stream & t = streams[k];
	uint64_t s1 = t.s[0], s0 = t.s[1];
	uint64_t r = s0 + s1;
	t.s[0] = s0; s1 ^= s1 << 23;
	t.s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
	return r;
}

static void initStreams(uint64_t seed)
{
	for (int k = 0; k < K_MAX; ++k) {
		streams[k].s[0] = mix(seed * 1000003 + k * 7919 + 1); streams[k].s[1] = mix(streams[k].s[0] ^ 0x1234567); streams[k].idx = 0;
		if (!streams[k].s[0] && !streams[k].s[1]) streams[k].s[0] = 1;
		rates[k] = 0; rep[k].clear(); repPos[k] = 0;
	}
}

// one decision with its own index: value from tape (default 0) or from the generator
template<typename F> static uint64_t decide(Kind k, uint64_t max, F gen)
{
	uint64_t i = streams[k].idx++;
	uint64_t v;
	if (replaying) {
		auto & r = rep[k]; size_t & p = repPos[k];
		while (p < r.size() && r[p].first < i) ++p;
		v = p < r.size() && r[p].first == i ? r[p].second : 0;
		if (v > max) v = max;
	} else {
		v = gen();
		if (v) recTape.push_back({(uint32_t)k, i, v});
	}
	return v;
}

uint64_t choose64(Kind k, uint64_t n)
{
	if (n <= 1) return 0;
	return decide(k, n - 1, [&] { return rnd(k) % n; });
}
bool coin(Kind k, uint32_t num, uint32_t den)
{
	return decide(k, 1, [&] { return (uint64_t)(rnd(k) % den < num); });
}
bool fault(Kind k, const char * what)
{
	if (!faultsEnabled || !rates[k]) return false;
	bool f = coin(k, rates[k], 65536);
	if (f) { countFault(what); th(0xfa000000 + k, streams[k].idx); }
	return f;
}
uint32_t biased(Kind k, uint32_t n, uint32_t num, uint32_t den)
{
	if (n <= 1) return 0;
	return decide(k, n - 1, [&]() -> uint64_t { return rnd(k) % den < num ? 1 + rnd(k) % (n - 1) : 0; });
}
int64_t range(Kind k, int64_t lo, int64_t hi) { if (hi <= lo) return lo; return lo + (int64_t)choose64(k, (uint64_t)(hi - lo) + 1); }
uint64_t logrange(Kind k, uint64_t lo, uint64_t hi)
{
	if (hi <= lo) return lo;
	return lo + decide(k, hi - lo, [&]() -> uint64_t {
		uint64_t span = hi - lo; int bits = 64 - __builtin_clzll(span);
		int b = (int)(rnd(k) % (bits + 1));
		uint64_t m = b >= 64 ? ~0ULL : ((1ULL << b) - 1);
		uint64_t v = m ? rnd(k) & m : 0; if (b) v |= 1ULL << (b - 1);
		return v > span ? rnd(k) % (span + 1) : v;
	});
}
void setRate(Kind k, uint32_t r) { rates[k] = r; }
uint32_t rate(Kind k) { return rates[k]; }
void countFault(const char * what, uint64_t n) { faultRun[what] += n; tr("FAULT %s", what); }
void probe(const char * what) { ++probeRun[what]; }
static std::vector<uint64_t> sigRun;
void stateSig(uint64_t s) { if (stateSigs.size() < 2000000) stateSigs.insert(s); }

// ================================================================================================ trace
bool verbose;
std::string traceText;
static uint64_t hashv, schedHash;
void th(uint64_t c, uint64_t a, uint64_t b)
{
	hashv = (hashv ^ c) * 0x9E3779B97F4A7C15ULL; hashv ^= hashv >> 29;
	hashv = (hashv ^ a) * 0xBF58476D1CE4E5B9ULL; hashv ^= hashv >> 32;
	hashv = (hashv ^ b) * 0x94D049BB133111EBULL; hashv ^= hashv >> 31;
}
void thData(const void * p, size_t n)
{
	const uint8_t * b = (const uint8_t *)p; uint64_t h = 1469598103934665603ULL;
	for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ULL;
	th(0xda7a, h, n);
}
void trf(const char * fmt, ...)
{
	if (!verbose || traceText.size() > (8u << 20)) return;
	char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	char h[96]; snprintf(h, sizeof h, "%11.6f %-8.8s ", now / 1e9, cur ? cur->name.c_str() : "-");
	traceText += h; traceText += b; traceText += '\n';
}

// ================================================================================================ violations
static Result * res;
bool stopRun;
std::string propAlias; // every violation of this scenario also counts for this property
static bool tagMatch(const std::string & tags, const std::string & prop)
{
	if (tags == "*" || prop.empty() || prop == "*" || prop == propAlias) return true;
	size_t p = 0;
	while (p < tags.size()) { size_t q = tags.find(',', p); if (q == std::string::npos) q = tags.size(); std::string t = tags.substr(p, q - p); if (t == prop || t == "*") return true; p = q + 1; }
	return false;
}
bool propWanted(const char * tags) { return tagMatch(tags, curSpec ? curSpec->property : ""); }
void dumpFibers(const char * when)
{
	if (!verbose) return;
	for (auto & f : fibers) if (f.state != F_FREE && f.state != F_DONE) tr("  [%s] %-9s %s%s since %.6f%s", when, f.name.c_str(), f.state == F_RUNNABLE ? "runnable" : "blocked in ", f.state == F_RUNNABLE ? "" : blockName[f.bk], f.blockedSince / 1e9, f.held.empty() ? "" : " holding a mutex");
}
std::vector<std::pair<std::string, std::regex>> knownFindings;
void violation(const char * cls, const char * tags, const char * fmt, ...)
{
	char b[4000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	tr("VIOLATION %s [%s] %s", cls, tags, b);
	if (!res || res->violated) return;
	for (auto & k : knownFindings) if (k.first == cls && std::regex_search(b, k.second)) { probe("recorded finding seen"); return; }
	if (!tagMatch(tags, curSpec->property)) {
		if (res->other.size() < 8) res->other.push_back(std::string(cls) + " [" + tags + "] " + b);
		return;
	}
	res->violated = true; res->cls = cls; res->tags = tags; res->msg = b;
	th(0x71071071);
	for (const char * p = cls; *p; ++p) th(0xc, *p);
	stopRun = true;
}
bool violated() { return res && res->violated; }

// ================================================================================================ time & events
ns now, wallOffset;
uint64_t seqno;
struct Ev { ns t; uint64_t n; std::function<void()> fn; };
struct EvCmp { bool operator()(const Ev * a, const Ev * b) const { return a->t != b->t ? a->t > b->t : a->n > b->n; } };
static std::priority_queue<Ev *, std::vector<Ev *>, EvCmp> events;
static uint64_t evNo;
void at(ns t, std::function<void()> fn) { if (t < now) t = now; events.push(new Ev{t, evNo++, std::move(fn)}); }
void clockJump(ns d) { wallOffset += d; tr("clock jump %+.3f s", d / 1e9); th(0xc10c, (uint64_t)d); }

// ================================================================================================ fibers
Fiber fibers[MAXF];
Fiber * cur;
static void * schedSp;
static uint32_t nextSerial;
uint64_t steps, maxSteps, switches;
int childDepth, lastChildStatus;
static sigjmp_buf schedJmp; static bool schedJmpValid;
void (*onFiberExit)(Fiber *);
std::function<void(EndHow, int)> onProcessEnd;
std::function<void()> onDeadlock;
std::function<void(const char *)> onChildHang;
std::vector<std::function<void()>> resetHooks;

asm(R"(
.text
.type sim_switch,@function
sim_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size sim_switch,.-sim_switch
)");
extern "C" void sim_switch(void ** save, void * load) asm("sim_switch");

// thread-local storage block of this executable (for __thread variables of the code under test)
static char * tlsLo; static size_t tlsLen; static std::vector<char> tlsInit;
static int tlsCb(struct dl_phdr_info * i, size_t, void * d)
{
	if (*(int *)d) return 0; // first entry is the main program
	*(int *)d = 1;
	for (int k = 0; k < i->dlpi_phnum; ++k)
		if (i->dlpi_phdr[k].p_type == PT_TLS) {
			size_t al = i->dlpi_phdr[k].p_align ? i->dlpi_phdr[k].p_align : 1, sz = i->dlpi_phdr[k].p_memsz;
			char * fs; asm("mov %%fs:0, %0" : "=r"(fs));
			tlsLen = (sz + al - 1) / al * al; tlsLo = fs - tlsLen;
		}
	return 0;
}
static void tlsSetup() { int d = 0; dl_iterate_phdr(tlsCb, &d); if (tlsLen) tlsInit.assign(tlsLo, tlsLo + tlsLen); }

static void samplePreempt(Fiber * f);

static void fiberMain()
{
	Fiber * f = cur;
	if (tlsLen) memcpy(tlsLo, f->tls.data(), tlsLen);
	void * r = nullptr;
	if (f->hostEntry) f->hostEntry(); else r = f->entry(f->arg);
	fiberExit(r);
}

static Fiber * newFiber(const char * name)
{
	for (int i = 0; i < MAXF; ++i) {
		Fiber & f = fibers[i];
		if (f.state != F_FREE) continue;
		f.id = i; f.serial = nextSerial++; f.state = F_RUNNABLE; f.name = name;
		f.entry = nullptr; f.arg = f.ret = nullptr; f.hostEntry = nullptr; f.detached = false;
		f.bk = B_NONE; f.key = nullptr; f.deadline = f.deadlineRt = NEVER; f.wakeCode = 0; f.cancellable = false;
		f.cancelPending = f.cancelling = false; f.cancelEnabled = true; f.cleanup = nullptr; f.err = 0;
		f.accesses = f.accSinceSys = f.preemptDraws = 0; f.spinStart = 0; f.spinCount = 0; f.syscalls = 0; f.held.clear(); f.sigmask = 0; f.user = nullptr;
		f.prio = 0;
		f.stackLo = (char *)(STACK_BASE + i * STACK_STRIDE + (STACK_STRIDE - STACK_SIZE)); f.stackHi = f.stackLo + STACK_SIZE;
		f.tls = tlsInit;
		memset(f.stackLo, 0xa5, STACK_SIZE); // what a thread finds on its stack is the same in every run
		unpoisonStack(&f);
		void ** sp = (void **)f.stackHi;
		*--sp = nullptr; *--sp = nullptr; *--sp = nullptr; // rsp = 8 (mod 16) at function entry
		*--sp = (void *)fiberMain;
		for (int k = 0; k < 6; ++k) *--sp = nullptr;
		f.sp = sp;
		samplePreempt(&f);
		return &f;
	}
	return nullptr;
}
Fiber * spawn(const char * name, void * (*entry)(void *), void * arg)
{
	Fiber * f = newFiber(name);
	if (f) { f->entry = entry; f->arg = arg; f->prio = choose(K_WAKEORDER, 1000); if (cur) f->sigmask = cur->sigmask; }
	return f;
}
Fiber * spawnHost(const char * name, std::function<void()> fn)
{
	Fiber * f = newFiber(name);
	if (f) { f->hostEntry = std::move(fn); f->prio = choose(K_WAKEORDER, 1000); }
	return f;
}

// Preemption points are identified by (fiber serial, number of memory accesses), so that a tape entry stays meaningful
// when other entries are removed.
static uint32_t preemptMean; // mean accesses between preemptions, 0 = off
static void samplePreempt(Fiber * f)
{
	f->nextPreempt = ~0ULL;
	if (replaying) {
		uint64_t lo = ((uint64_t)f->serial << 40) | f->accesses, hi = (uint64_t)(f->serial + 1) << 40;
		auto & r = rep[K_PREEMPT];
		auto it = std::upper_bound(r.begin(), r.end(), std::make_pair((uint64_t)lo, (uint64_t)~0ULL));
		if (it != r.end() && it->first < hi) f->nextPreempt = it->first & ((1ULL << 40) - 1);
	} else if (preemptMean) {
		uint64_t h = mix(streams[K_PREEMPT].s[0] ^ mix(f->serial * 77777ULL + f->preemptDraws++));
		// geometric-like: mixture of short and long distances
		uint64_t d = 1 + h % (2ULL * preemptMean);
		if ((h >> 48) % 4 == 0) d = 1 + (h >> 8) % 40;
		f->nextPreempt = f->accesses + d;
	}
}

static void toScheduler()
{
	Fiber * f = cur;
	if (tlsLen) { memcpy(f->tls.data(), tlsLo, tlsLen); }
	sim_switch(&f->sp, schedSp);
	// resumed (cur was set by the scheduler)
	if (tlsLen) memcpy(tlsLo, cur->tls.data(), tlsLen);
}

enum Req { R_NONE, R_FORK, R_CHILDEXIT, R_PROCEND };
static Req req; static int reqArg; static EndHow reqHow;
static bool doPreemptNow;

static uint32_t schedMode, schedNum, stallNum;

void wake(Fiber * f, int code)
{
	if (f->state != F_BLOCKED) return;
	f->state = F_RUNNABLE; f->wakeCode = code;
	th(0x3a4e, f->serial, code);
}
int wakeAll(BlockKind bk, const void * key)
{
	int n = 0;
	for (auto & f : fibers) if (f.state == F_BLOCKED && f.bk == bk && f.key == key) { wake(&f, WAKE_NORMAL); ++n; }
	return n;
}
int wakeOne(BlockKind bk, const void * key)
{
	Fiber * c[MAXF]; int n = 0;
	for (auto & f : fibers) if (f.state == F_BLOCKED && f.bk == bk && f.key == key) c[n++] = &f;
	if (!n) return 0;
	std::sort(c, c + n, [](Fiber * a, Fiber * b) { return a->blockedSince != b->blockedSince ? a->blockedSince < b->blockedSince : a->serial < b->serial; });
	wake(c[choose(K_WAKEORDER, n)], WAKE_NORMAL);
	return 1;
}

int block(BlockKind bk, const void * key, ns deadline, ns deadlineRt, bool cancellable)
{
	Fiber * f = cur;
	if (cancellable && f->cancelPending && f->cancelEnabled && !f->cancelling) return WAKE_CANCEL;
	f->state = F_BLOCKED; f->bk = bk; f->key = key; f->deadline = deadline; f->deadlineRt = deadlineRt;
	f->cancellable = cancellable; f->blockedSince = now; f->spinCount = 0; ++f->blockGen;
	th(0xb10c + bk, f->serial, now);
	toScheduler();
	f->bk = B_NONE; f->key = nullptr; f->deadline = f->deadlineRt = NEVER;
	return f->wakeCode;
}

int sleepFor(ns d, bool cancellable, BlockKind bk)
{
	return block(bk, nullptr, d >= NEVER - now ? NEVER : now + d, NEVER, cancellable);
}

extern "C" void sim_unwind_start(Fiber * f); // sys.cc
void testCancel()
{
	Fiber * f = cur;
	if (f->cancelPending && f->cancelEnabled && !f->cancelling) {
		f->cancelling = true;
		tr("thread cancelled");
		th(0xcace1, f->serial);
		sim_unwind_start(f);
	}
}
void cancelFiber(Fiber * f)
{
	f->cancelPending = true;
	if (f->state == F_BLOCKED && f->cancellable && f->cancelEnabled && !f->cancelling) wake(f, WAKE_CANCEL);
}

static const uint32_t SPIN_LIMIT = 60000;
void yieldPoint(const char * what)
{
	Fiber * f = cur;
	if (!f) return;
	if (stopRun && !childDepth) { f->state = F_BLOCKED; f->bk = B_OTHER; f->key = &stopRun; f->deadline = f->deadlineRt = NEVER; f->cancellable = false; toScheduler(); return; }
	++steps; ++seqno; ++f->syscalls; now += US; f->accSinceSys = 0;
	th(0x5ca11, f->serial, (uint64_t)(uintptr_t)what & 0 );
	if (now - f->spinStart > SEC) { f->spinStart = now; f->spinCount = 0; }
	if (++f->spinCount > SPIN_LIMIT) {
		if (childDepth) { tr("child spins"); if (onChildHang) onChildHang("spin"); childExit(255); }
		violation("hang.spin", "*", "thread %s made %u calls within one simulated second without waiting (now in %s): it spins without progress", f->name.c_str(), SPIN_LIMIT, what);
	}
	if (childDepth) return;
	if (stallNum && faultsEnabled && coin(K_STALL, stallNum, 65536)) {
		ns d = (ns)logrange(K_STALL, 1000, 400 * MS);
		countFault("thread-stall"); sleepFor(d, false, B_STALL);
		return;
	}
	toScheduler();
}

void fiberExit(void * ret)
{
	Fiber * f = cur;
	f->ret = ret;
	if (childDepth) { tr("the only thread of the child exits"); childExit(0); }
	if (onFiberExit) onFiberExit(f);
	f->state = F_DONE;
	th(0xe417, f->serial);
	tr("thread exits");
	wakeAll(B_JOIN, f);
	if (f->detached) f->state = F_FREE;
	f->hostEntry = nullptr;
	toScheduler();
	abort();
}

uint32_t endFiber; std::string endThread;
void processEnd(EndHow how, int status)
{
	endFiber = cur->serial; endThread = cur->name;
	if (childDepth) childExit(status);
	req = R_PROCEND; reqHow = how; reqArg = status;
	cur->state = F_DONE;
	toScheduler();
	abort();
}
static void dropFibers()
{
	for (auto & f : fibers) { if (f.state != F_FREE) { f.state = F_FREE; f.hostEntry = nullptr; } f.held.clear(); }
}
void killProcess(EndHow how, int status)
{
	if (cur) { fprintf(stderr, "killProcess from fiber\n"); _exit(99); }
	dropFibers();
	if (onProcessEnd) onProcessEnd(how, status);
}

// ---- fork: snapshot, run the child to its end, restore, continue as parent --------------------------------------------
struct Snap {
	Fiber * f; void * sp; std::string stack; std::vector<char> tls; std::vector<char> data, bss; std::string arena, shadow, stackShadow;
	std::vector<std::function<void()>> restore; bool cancelPending, cancelEnabled, cancelling; void * cleanup; int err; std::vector<void *> held; uint64_t sigmask; int pid;
};
static std::vector<Snap *> snaps;
std::vector<std::function<std::function<void()>()>> snapshotHooks;
static uintptr_t arenaTop;
char * sutDataLo, * sutDataHi, * sutBssLo, * sutBssHi;
static inline uint8_t * shadow(uintptr_t a) { return (uint8_t *)((a >> 3) + SHADOW_OFF); }
struct Blk; 
static std::function<void()> saveArenaMeta();

static void takeSnap(int pid)
{
	Snap * s = new Snap; Fiber * f = cur;
	s->f = f; s->sp = f->sp; s->stack.assign((char *)f->sp, f->stackHi - (char *)f->sp); s->tls = f->tls;
	s->data.assign(sutDataLo, sutDataHi); s->bss.assign(sutBssLo, sutBssHi);
	s->arena.assign((char *)ARENA_BASE, arenaTop - ARENA_BASE);
	s->shadow.assign((char *)shadow(ARENA_BASE), (arenaTop - ARENA_BASE) / 8);
	s->stackShadow.assign((char *)shadow((uintptr_t)f->stackLo), STACK_SIZE / 8);
	s->cancelPending = f->cancelPending; s->cancelEnabled = f->cancelEnabled; s->cancelling = f->cancelling; s->cleanup = f->cleanup; s->err = f->err; s->held = f->held; s->sigmask = f->sigmask; s->pid = pid;
	s->restore.push_back(saveArenaMeta());
	for (auto & h : snapshotHooks) s->restore.push_back(h());
	snaps.push_back(s);
	++childDepth;
	f->wakeCode = 0; f->spinCount = 0;
	tr("fork: child %d runs", pid);
}
static void endSnap(int status)
{
	Snap * s = snaps.back(); snaps.pop_back(); Fiber * f = s->f;
	--childDepth;
	memcpy(s->sp, s->stack.data(), s->stack.size());
	memcpy(sutDataLo, s->data.data(), s->data.size()); memcpy(sutBssLo, s->bss.data(), s->bss.size());
	for (auto & r : s->restore) r();
	memcpy((char *)ARENA_BASE, s->arena.data(), s->arena.size());
	memcpy((char *)shadow(ARENA_BASE), s->shadow.data(), s->shadow.size());
	memcpy((char *)shadow((uintptr_t)f->stackLo), s->stackShadow.data(), s->stackShadow.size());
	f->sp = s->sp; f->tls = s->tls; f->cancelPending = s->cancelPending; f->cancelEnabled = s->cancelEnabled; f->cancelling = s->cancelling; f->cleanup = s->cleanup; f->err = s->err; f->held = s->held; f->sigmask = s->sigmask;
	f->state = F_RUNNABLE; f->wakeCode = s->pid; f->spinCount = 0; f->bk = B_NONE; f->deadline = f->deadlineRt = NEVER;
	lastChildStatus = status;
	tr("child %d ended with status %d, parent continues", s->pid, status);
	delete s;
}
int forkCurrent(int pid)
{
	req = R_FORK; reqArg = pid;
	toScheduler();
	return cur->wakeCode;
}
void childExit(int status)
{
	req = R_CHILDEXIT; reqArg = status;
	toScheduler();
	abort();
}

// ---- scheduler ---------------------------------------------------------------------------------------------------------
static Fiber * lastRun;
static void switchTo(Fiber * f)
{
	cur = f;
	if (f != lastRun) { ++switches; schedHash = (schedHash ^ f->serial) * 0x9E3779B97F4A7C15ULL; schedHash ^= schedHash >> 31; }
	lastRun = f;
	if (sigsetjmp(schedJmp, 0) == 0) {
		schedJmpValid = true;
		sim_switch(&schedSp, f->sp);
	} else {
		// crashed: fiber is gone
		f->state = F_DONE;
	}
	schedJmpValid = false;
	cur = nullptr;
}

static Fiber * pick(Fiber ** r, int n)
{
	if (n == 1) return r[0];
	std::sort(r, r + n, [](Fiber * a, Fiber * b) { return a->serial < b->serial; });
	// rotate: the current one first
	int c = -1;
	for (int i = 0; i < n; ++i) if (r[i] == lastRun) c = i;
	if (c > 0) std::rotate(r, r + c, r + n);
	if (doPreemptNow && c >= 0) { return r[1 + choose(K_SCHED, n - 1)]; }
	switch (schedMode) {
	case 1: return r[choose(K_SCHED, n)];
	case 2: { // priorities, changed now and then
		Fiber * b = r[0];
		for (int i = 1; i < n; ++i) if (r[i]->prio > b->prio) b = r[i];
		if (coin(K_SCHED, 1, 64)) b->prio = choose(K_SCHED, 1000);
		return b; }
	default: return r[biased(K_SCHED, n, schedNum, 256)];
	}
}

static void runLoop()
{
	lastRun = nullptr;
	while (!stopRun) {
		if (steps > maxSteps) { violation("hang.steps", "*", "run exceeded %llu simulated calls: no progress towards the end of the scenario", (unsigned long long)maxSteps); break; }
		// due events and deadlines
		while (!events.empty() && events.top()->t <= now && !stopRun) {
			Ev * e = events.top(); events.pop();
			++seqno; th(0xe4e47, now);
			e->fn(); delete e;
		}
		if (stopRun) break;
		Fiber * r[MAXF]; int n = 0; ns next = events.empty() ? NEVER : events.top()->t;
		for (auto & f : fibers) {
			if (f.state == F_BLOCKED) {
				ns d = f.deadline;
				if (f.deadlineRt != NEVER) { ns x = f.deadlineRt - wallOffset; if (x < d) d = x; }
				if (d <= now) wake(&f, WAKE_TIMEOUT);
				else if (d < next) next = d;
			}
			if (f.state == F_RUNNABLE) r[n++] = &f;
		}
		if (!n) {
			if (next == NEVER) { if (onDeadlock) onDeadlock(); else violation("hang.deadlock", "*", "nothing can happen any more"); break; }
			now = next; continue;
		}
		Fiber * f = pick(r, n);
		doPreemptNow = false;
		th(0x5ced, f->serial, now);
		switchTo(f);
		// requests
		bool first = true;
		while (req != R_NONE) {
			Req q = req; req = R_NONE;
			if (q == R_FORK) { cur = f; takeSnap(reqArg); cur = nullptr; switchTo(f); }
			else if (q == R_CHILDEXIT) { endSnap(reqArg); switchTo(f); }
			else if (q == R_PROCEND) { EndHow h = reqHow; int st = reqArg; dropFibers(); if (onProcessEnd) onProcessEnd(h, st); }
			(void)first;
		}
		// a child may block: it can only be woken by its own deadlines, otherwise it hangs
		while (childDepth) {
			if (f->state == F_RUNNABLE) switchTo(f);
			else if (f->state == F_BLOCKED) {
				ns d = f->deadline; if (f->deadlineRt != NEVER && f->deadlineRt - wallOffset < d) d = f->deadlineRt - wallOffset;
				if (d == NEVER) { if (onChildHang) onChildHang(blockName[f->bk]); endSnap(255); switchTo(f); }
				else { wake(f, WAKE_TIMEOUT); switchTo(f); } // child time passes in no time for the parent
			} else { endSnap(139); switchTo(f); }
			while (req != R_NONE) {
				Req q = req; req = R_NONE;
				if (q == R_FORK) { cur = f; takeSnap(reqArg); cur = nullptr; switchTo(f); }
				else if (q == R_CHILDEXIT) { endSnap(reqArg); switchTo(f); }
				else if (q == R_PROCEND) { EndHow h = reqHow; int st = reqArg; dropFibers(); if (onProcessEnd) onProcessEnd(h, st); }
			}
		}
	}
}
void endRun() { stopRun = true; }
bool stallsOn() { return stallNum != 0; }

// ================================================================================================ memory
static uintptr_t arenaHigh;
size_t arenaLive, arenaBlocks;
struct BlkInfo { size_t n; bool live, map; };
static std::map<uintptr_t, BlkInfo> blks;
static std::function<void()> saveArenaMeta()
{
	auto b = blks; auto t = arenaTop; auto l = arenaLive, c = arenaBlocks;
	return [=] { blks = b; arenaTop = t; arenaLive = l; arenaBlocks = c; };
}
static void mapAt(uintptr_t a, size_t n, int prot)
{
	void * p = mmap((void *)a, n, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (p != (void *)a) { fprintf(stderr, "sim: cannot map %lx: %p\n", (unsigned long)a, p); _exit(98); }
}
static bool memReady;
void memInit()
{
	if (memReady) return;
	memReady = true;
	mapAt(ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE);
	mapAt((uintptr_t)shadow(ARENA_BASE) & ~4095ULL, ARENA_SIZE / 8, PROT_READ | PROT_WRITE);
	mapAt(STACK_BASE, MAXF * STACK_STRIDE, PROT_NONE);
	for (int i = 0; i < MAXF; ++i) mprotect((void *)(STACK_BASE + i * STACK_STRIDE + STACK_STRIDE - STACK_SIZE), STACK_SIZE, PROT_READ | PROT_WRITE);
	mapAt((uintptr_t)shadow(STACK_BASE) & ~4095ULL, (MAXF * STACK_STRIDE / 8 + 8191) & ~4095ULL, PROT_READ | PROT_WRITE);
	mapAt(((uintptr_t)shadow(0x400000)) & ~4095ULL, 16 << 20, PROT_READ | PROT_WRITE); // globals of the executable
	arenaTop = arenaHigh = ARENA_BASE;
}
static void memReset()
{
	if (arenaTop > arenaHigh) arenaHigh = arenaTop;
	size_t n = arenaHigh - ARENA_BASE;
	if (n > (4 << 20)) { madvise((void *)ARENA_BASE, ARENA_SIZE, MADV_DONTNEED); madvise((void *)((uintptr_t)shadow(ARENA_BASE) & ~4095ULL), ARENA_SIZE / 8, MADV_DONTNEED); }
	arenaTop = arenaHigh = ARENA_BASE; blks.clear(); arenaLive = arenaBlocks = 0;
	memset(shadow(ARENA_BASE), 0xfa, 4096);
}
static void poison(uintptr_t a, size_t n, uint8_t v) { memset(shadow(a), v, n / 8); }
void * arenaAlloc(size_t n, size_t align, bool isMap)
{
	if (align < 16) align = 16;
	uintptr_t p = (arenaTop + 32 + align - 1) & ~(align - 1);
	size_t r = (n + 15) & ~15UL;
	if (p + r + 64 > ARENA_BASE + ARENA_SIZE) return nullptr;
	poison(arenaTop, p - arenaTop, 0xfa);
	poison(p, r + 32, 0xfa);
	memset(shadow(p), 0, n / 8);
	if (n % 8) *shadow(p + (n & ~7UL)) = n % 8;
	arenaTop = p + r + 32;
	memset((void *)p, 0xbe, r);
	blks[p] = { n, true, isMap }; arenaLive += n; ++arenaBlocks;
	return (void *)p;
}
static const char * describe(uintptr_t a, char * buf, size_t len)
{
	auto it = blks.upper_bound(a + 64);
	while (it != blks.begin()) {
		--it;
		if (it->first <= a + 64) {
			long off = (long)(a - it->first);
			snprintf(buf, len, "%ld bytes %s a %zu byte block%s", off < 0 ? -off : off < (long)it->second.n ? off : off - (long)it->second.n, off < 0 ? "before" : off < (long)it->second.n ? "into" : "after", it->second.n, it->second.live ? "" : " that was released");
			return buf;
		}
	}
	return "wild address";
}
void arenaFree(void * q, bool isMap)
{
	uintptr_t p = (uintptr_t)q;
	auto it = blks.find(p);
	if (it == blks.end() || it->second.map != isMap) { violation("mem.badfree", "*", "release of a pointer that is not a live allocation"); return; }
	if (!it->second.live) { violation("mem.doublefree", "*", "block of %zu bytes released twice", it->second.n); return; }
	it->second.live = false; arenaLive -= it->second.n; --arenaBlocks;
	poison(p, (it->second.n + 15) & ~15UL, 0xfd);
}
uintptr_t arenaBlock(void * q) { auto it = blks.upper_bound((uintptr_t)q); if (it == blks.begin()) return 0; --it; return it->second.live && (uintptr_t)q - it->first < it->second.n ? it->first : 0; }
size_t arenaUsable(void * q) { auto it = blks.find((uintptr_t)q); return it == blks.end() || !it->second.live ? 0 : it->second.n; }

static bool shadowBad(uintptr_t a, size_t n)
{
	uintptr_t e = a + n;
	for (uintptr_t g = a & ~7UL; g < e; g += 8) {
		int8_t s = (int8_t)*shadow(g);
		if (!s) continue;
		if (s < 0) return true;
		uintptr_t last = e - 1 < g + 7 ? e - 1 : g + 7;
		if ((last & 7) >= (uintptr_t)s) return true;
	}
	return false;
}
void memFault(uintptr_t a, size_t n, bool write, const char * what)
{
	char d[200] = "";
	const char * w = inArena(a) ? describe(a, d, sizeof d) : "outside its variable";
	if (childDepth) return;
	violation("mem.invalid", "*", "%s of %zu bytes (%s, thread %s): %s", write ? "write" : "read", n, what, cur ? cur->name.c_str() : "-", w);
	if (stopRun && cur) { cur->state = F_DONE; toScheduler(); }
}
static bool shadowed(uintptr_t a)
{
	return inArena(a)
#ifdef SIM_KASAN
		|| (cur && a - (uintptr_t)cur->stackLo < STACK_SIZE) || (a >= 0x400000 && a < 0x400000 + (16 << 20) * 8ULL)
#endif
	;
}
void checkRange(const void * p, size_t n, bool write, const char * what)
{
	if (!n || !cur) return;
	uintptr_t a = (uintptr_t)p;
	if (shadowed(a) && shadowBad(a, n)) memFault(a, n, write, what);
}
void unpoisonStack(Fiber * f) { memset(shadow((uintptr_t)f->stackLo), 0, STACK_SIZE / 8); }

void (*mmioHook)(uintptr_t a, size_t n, bool write);
uintptr_t mmioLo, mmioHi;
uint64_t hookCount;
static const uint64_t ACC_LIMIT = 80000000;
void hook(uintptr_t a, size_t n, bool write)
{
	Fiber * f = cur;
	if (__builtin_expect(!f, 0)) return;
	++hookCount;
	if (inArena(a)) {
		int8_t s = (int8_t)*shadow(a);
		if (__builtin_expect(s != 0 || ((a & 7) + n > 8), 0) && shadowBad(a, n)) memFault(a, n, write, "instrumented access");
	}
	bool mmio = __builtin_expect(a - mmioLo < mmioHi - mmioLo, 0) && mmioHook;
	if (__builtin_expect(++f->accSinceSys > ACC_LIMIT, 0)) {
		if (childDepth) { if (onChildHang) onChildHang("cpu"); childExit(255); }
		violation("hang.cpu", "*", "thread %s computes without end", f->name.c_str());
		f->state = F_DONE; toScheduler();
	}
	if (__builtin_expect(++f->accesses >= f->nextPreempt, 0)) {
		if (childDepth) { f->nextPreempt = f->accesses + 1000; if (mmio) mmioHook(a, n, write); return; }
		if (!replaying) recTape.push_back({K_PREEMPT, ((uint64_t)f->serial << 40) | f->accesses, 1});
		samplePreempt(f);
		countFault("preempt");
		doPreemptNow = true;
		if (stallNum && faultsEnabled && coin(K_STALL, 1, 8)) { ns d = (ns)logrange(K_STALL, 1000, 400 * MS); countFault("thread-stall"); sleepFor(d, false, B_STALL); }
		else toScheduler();
	}
	if (mmio) mmioHook(a, n, write); // device registers: nobody else runs between this and the access itself
}

// ================================================================================================ SUT data
extern "C" char __start_sut_data[] __attribute__((weak)), __stop_sut_data[] __attribute__((weak));
extern "C" char __start_sut_bss[] __attribute__((weak)), __stop_sut_bss[] __attribute__((weak));
static std::vector<char> pristineData, pristineBss;
void snapshotSutInit()
{
	sutDataLo = __start_sut_data; sutDataHi = __stop_sut_data; sutBssLo = __start_sut_bss; sutBssHi = __stop_sut_bss;
	pristineData.assign(sutDataLo, sutDataHi); pristineBss.assign(sutBssLo, sutBssHi);
	tlsSetup();
}
void restoreSut()
{
	if (pristineData.size()) memcpy(sutDataLo, pristineData.data(), pristineData.size());
	if (pristineBss.size()) memcpy(sutBssLo, pristineBss.data(), pristineBss.size());
	if (tlsLen) memcpy(tlsLo, tlsInit.data(), tlsLen);
}

// ================================================================================================ crash handling
static void onSignal(int sig, siginfo_t * si, void *)
{
	if (schedJmpValid && cur) {
		Fiber * f = cur; (void)f;
		if (childDepth) { siglongjmp(schedJmp, sig); }
		const char * n = sig == SIGSEGV ? "segmentation fault" : sig == SIGFPE ? "arithmetic fault" : sig == SIGILL ? "illegal instruction" : sig == SIGBUS ? "bus error" : sig == SIGPROF ? "no progress in real time" : "abort";
		bool so = si && si->si_addr && (uintptr_t)si->si_addr >= (uintptr_t)f->stackLo - (STACK_STRIDE - STACK_SIZE) && (uintptr_t)si->si_addr < (uintptr_t)f->stackLo;
		if (sig == SIGPROF) violation("hang.realtime", "*", "thread %s computes without end", f->name.c_str());
		else violation(so ? "crash.stack" : "crash.signal", "*", "%s in thread %s%s", so ? "stack overflow" : n, f->name.c_str(), si && (uintptr_t)si->si_addr < 4096 ? " (null pointer)" : "");
		siglongjmp(schedJmp, sig);
	}
	if (sig == SIGPROF) return;
	const char m[] = "sim: internal crash\n"; if (write(2, m, sizeof m - 1)) {}
	signal(sig, SIG_DFL); raise(sig);
}
static void installSignals()
{
	static bool done; if (done) return; done = true;
	static char alt[1 << 16]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF }) sigaction(s, &sa, nullptr);
}

// ================================================================================================ run
Result runOnce(const RunSpec & spec, const std::function<void()> & setup)
{
	memInit(); installSignals();
	Result R; R.violated = false; R.hash = R.schedHash = 0; R.simTime = 0; R.steps = R.switches = 0;
	res = &R; curSpec = &spec; stopRun = false; childDepth = 0; req = R_NONE;
	while (!events.empty()) { delete events.top(); events.pop(); }
	dropFibers(); nextSerial = 0; cur = nullptr; evNo = 0; seqno = 0; steps = switches = 0; maxSteps = 3000000; hookCount = 0;
	now = SEC; wallOffset = 1500000000LL * SEC; hashv = 0x1234; schedHash = 0; faultsEnabled = true; doPreemptNow = false;
	faultRun.clear(); probeRun.clear(); traceText.clear(); recTape.clear();
	propAlias.clear(); onProcessEnd = nullptr; onDeadlock = nullptr; onFiberExit = nullptr; onChildHang = nullptr; mmioHook = nullptr; mmioLo = mmioHi = 0;
	for (auto s : snaps) delete s;
	snaps.clear();
	memReset();
	initStreams(spec.seed); replaying = spec.replay;
	if (replaying) for (auto & e : spec.tape) if (e.kind < K_MAX) rep[e.kind].push_back({e.idx, e.val});
	for (auto & r : rep) std::sort(r.begin(), r.end());
	restoreSut();
	for (auto & h : resetHooks) h();
	// scheduling style of this run
	schedMode = choose(K_CFG, 3);
	schedNum = (uint32_t[]){4, 24, 96, 160}[choose(K_CFG, 4)];
	preemptMean = (uint32_t[]){0, 20000, 4000, 700, 120}[choose(K_CFG, 5)];
	stallNum = (uint32_t[]){0, 0, 8, 60}[choose(K_CFG, 4)];
	setup();
	struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 60; setitimer(ITIMER_PROF, &it, nullptr);
	runLoop();
	memset(&it, 0, sizeof it); setitimer(ITIMER_PROF, &it, nullptr);
	dropFibers();
	th(0xe4d, now, steps);
	R.hash = hashv; R.schedHash = schedHash; R.simTime = now - SEC; R.steps = steps; R.switches = switches; R.tape = recTape;
	if (replaying) R.tape = spec.tape;
	for (auto & e : faultRun) faultCounts[e.first] += e.second;
	for (auto & e : probeRun) probeCounts[e.first] += e.second;
	res = nullptr;
	return R;
}
}
