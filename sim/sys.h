// Simulated operating system: descriptors, TCP, files, process, log capture. World side API used by scenarios.
#pragma once
#include "core.h"
#include <memory>
#include <deque>
#include <sys/types.h>

namespace sim {
typedef std::vector<uint8_t> Bytes;

// ---- descriptors -------------------------------------------------------------------------------------------------
struct OFile {
	int refs = 0; std::string kind, path;
	virtual ~OFile() {}
	virtual ssize_t read(void *, size_t) ;
	virtual ssize_t write(const void *, size_t);
	virtual int ioctl(unsigned long, void *);
	virtual void release() {}      // last reference dropped
	virtual int pollEvents() { return 5; } // POLLIN|POLLOUT
};
typedef std::shared_ptr<OFile> OFileP;
int newFd(OFileP f, bool cloexec);
OFile * fdGet(int fd);
size_t openFds();
std::string openFdList();
extern uint64_t fdPeak;
extern std::function<OFileP(const std::string & path, int flags)> openDevice;   // scenario supplied device files

extern std::function<void *(OFile *, size_t, off_t)> mmapDevice;   // device memory
extern std::function<bool(void *, size_t)> munmapDevice;
OFileP openTty(struct Endpoint * e, const std::string & path, int flags);   // serial line whose other end is e's peer

// ---- TCP ---------------------------------------------------------------------------------------------------------
struct Conn;
struct Peer {                       // remote application
	virtual ~Peer() {}
	virtual void onAccept(Conn *) {}
	virtual void onData(Conn *, const uint8_t *, size_t) {}
	virtual void onFin(Conn *) {}
	virtual void onClosed(Conn *) {} // conn is dead for the remote side (reset/timeouts)
};
enum EpMode { EP_UP, EP_REFUSE, EP_DROP, EP_NETUNREACH, EP_HOSTUNREACH };
struct Endpoint { std::string ip; int family; Peer * peer; EpMode mode = EP_UP; int port = 0; bool partitioned = false; bool stalled = false; ns latLo = 1 * MS, latHi = 20 * MS; size_t sndbuf = 65536, rcvwnd = 65536; ns deadAfter = 40 * SEC; uint64_t attempts = 0; unsigned ttySpeed = 0; /* serial line: speed the peer uses (Bxxx) */ bool ttyParity = false; /* odd parity */ std::vector<Conn *> conns; };
struct SendRec { ns t; uint64_t seq; uint32_t fiber; size_t off, want; ssize_t ret; ns t0; uint64_t seq0; ns w; /* wall */ };
struct RecvRec { ns t; uint64_t seq; size_t off, len; uint64_t next; /* seq of the next receive call (0: none yet) */ ns nextT; };
struct Conn : std::enable_shared_from_this<Conn> {
	int id; Endpoint * ep; int port; ns connectStart, established = -1; uint64_t estSeq = 0; int proc;
	bool open = false;               // handshake done (as seen by the sensor)
	bool accepted = false;           // remote has it
	// sensor -> remote
	std::string up; size_t upDelivered = 0; std::vector<SendRec> sends; bool upFin = false, upFinDone = false, pumpScheduled = false;
	bool remoteReads = true, remoteDead = false /* remote forgot the connection */, remoteClosed = false;
	ns unackedSince = -1;
	size_t sndbuf = 65536; size_t rcvwnd = 65536; size_t remoteUnread = 0;
	// remote -> sensor
	std::string down; size_t downArrived = 0, downRead = 0; ns lastArrival = 0; bool finArrived = false; std::vector<RecvRec> recvs;
	std::deque<std::pair<ns, size_t>> inflight; bool finInFlight = false; ns finAt = 0;
	size_t chunkMax = 0; // segments
	std::vector<size_t> segEnds;
	int err = 0; bool errReported = false, dead = false; ns deadAt = -1; uint64_t deadSeq = 0;
	bool shutRd = false, shutWr = false, closedLocal = false; ns closedAt = -1; uint64_t closeSeq = 0;
	ns finReadAt = -1; uint64_t finReadSeq = 0, errSeenSeq = 0, firstRecv = 0;
	bool epGone() const { return remoteDead; }
	// remote side operations
	void rsend(const void * p, size_t n);
	void rclose();      // graceful close by remote application
	void rreset();      // RST from remote
	void rdie();        // remote host vanished without a trace
};
typedef std::shared_ptr<Conn> ConnP;
struct DnsRec { std::vector<std::pair<int, std::string>> addrs; int fail = 0; /* EAI_* */ ns lat = 5 * MS; bool hang = false; uint64_t lookups = 0; };
extern std::map<std::string, DnsRec> dns;
extern std::vector<std::unique_ptr<Endpoint>> endpoints;
Endpoint * addEndpoint(const std::string & ip, int family, int port, Peer * peer);
extern std::vector<ConnP> conns;
struct ConnectRec { ns t; uint64_t seq; std::string ip; int family, port; int result; uint32_t fiber; int conn; ns end; bool cancelled; };
struct LookupRec { ns t; uint64_t seq; std::string host; int rc; uint32_t fiber; size_t n; std::vector<std::string> addrs; ns end; size_t ignored = 0; };
extern std::vector<ConnectRec> connectLog;
struct RandRec { uint64_t seq; uint32_t fiber; int v; };
extern std::vector<RandRec> randLog; extern std::vector<std::pair<uint64_t, uint32_t>> sockFailLog;
extern std::vector<LookupRec> lookupLog;
extern ns connectTimeout;
void pathChanged(Endpoint * e);     // after changing partitioned / stalled / mode
extern std::function<void(Conn *, const char * what)> onConnEvent;   // "established","send","recv","close","dead"

// ---- files -------------------------------------------------------------------------------------------------------
struct Inode { bool dir = false; std::string data; int dtype = 8; bool unreadable = false; int mode = 0644; };
typedef std::shared_ptr<Inode> InodeP;
extern std::map<std::string, InodeP> fs;
void fsMkdirs(const std::string & path);
void fsPut(const std::string & path, const std::string & data);
bool fsHas(const std::string & path);
extern std::function<int(const char * op, const std::string & path)> fsFaultFilter;  // return errno to inject
extern std::function<void(const char * op, const std::string & path)> onFsOp;
extern int diskFullAfter;           // -1: unlimited; else bytes left on disk

// ---- process -----------------------------------------------------------------------------------------------------
struct Cred { uint32_t uid = 0, gid = 0; size_t groups = 3; }; extern Cred cred; extern int userDb;   // who the process runs as
void startProcess(const std::vector<std::string> & argv);
void startProcessHost(std::function<void()> mainFn);
void sendSignal(int sig);           // from world
bool mainInSigwait();
extern int procNo;
extern int curPid;
extern bool procAlive;
extern std::vector<std::string> logLines;
extern std::function<void(const std::string &)> onLogLine;
extern std::string lastEmerg;
struct ExecRec { ns t; uint64_t seq; std::string path; std::vector<std::string> argv; int env; int depth; bool session; std::string cwd; std::vector<std::string> leakedFds; int umask; uint32_t fiber; int pid, parentPid; bool stdinNull; int outcome; };
extern std::vector<ExecRec> execs;
extern std::function<int(const ExecRec &)> execOutcome;  // child: exit status of the spawned program (or -errno if exec fails)
extern uint64_t forks, forkFails;
extern std::vector<uint64_t> forkFailSeq;     // when fork() or daemon() failed
size_t zombieCount();                          // ended children nobody waited for
extern std::vector<std::string> unmodelled;
void sysKill(); // kernel side cleanup of the process (called by onProcessEnd handlers)
struct ThreadInfo { uint32_t serial; std::string name; };
std::string liveThreads(Fiber * except);
extern std::string liveAtExit, fdsAtExit; extern size_t openAtExit;   // what was left when main returned
struct MallocFail { std::set<uint32_t> fibers; uint64_t n; uint32_t fiber; uint64_t seq; bool inConnect; };
extern MallocFail mallocFail;      // last injected allocation failure of this process
extern bool everWaited;            // this process reached its wait for SIGINT (start-up is over)
extern uint64_t threadFails, sockFails, fileFails;   // of this process
extern bool sigpipeDefault;
extern int macMode;               // 0 ok, 1 ioctl fails, 2 both fail, 3 the interface is no Ethernet one for ioctl
extern std::string macAddr;       // "b8:27:eb:12:34:56"
extern uint64_t mutexOps;
bool lockHeldBy(const void * m, uint32_t * owner);
}
