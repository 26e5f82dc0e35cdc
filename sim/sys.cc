// Simulated C library / kernel interface of the code under test. Every function sim_X replaces X in the sensor's objects.
#include "sys.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <strings.h>
#include <cerrno>
#include <ctime>
#include <csignal>
#include <algorithm>
#include <pthread.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <netdb.h>
#include <poll.h>
#include <pwd.h>
#include <grp.h>
#include <termios.h>
#include <getopt.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/ioctl.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <net/if.h>

using namespace sim;
extern "C" int sut_main(int, char **) __attribute__((weak));

namespace sim {
// ================================================================================================ state
struct FdEnt { OFileP f; bool cloexec; };
static std::map<int, FdEnt> fds;
static std::vector<OFileP> allFiles;
uint64_t fdPeak;
std::map<std::string, DnsRec> dns;
std::vector<std::unique_ptr<Endpoint>> endpoints;
std::vector<ConnP> conns;
std::vector<ConnectRec> connectLog; std::vector<RandRec> randLog; std::vector<std::pair<uint64_t, uint32_t>> sockFailLog;
std::vector<LookupRec> lookupLog;
ns connectTimeout = 20 * SEC;
std::function<void(Conn *, const char *)> onConnEvent;
std::map<std::string, InodeP> fs;
std::function<int(const char *, const std::string &)> fsFaultFilter;
std::function<void(const char *, const std::string &)> onFsOp;
int diskFullAfter = -1;
std::function<OFileP(const std::string &, int)> openDevice;
std::function<void *(OFile *, size_t, off_t)> mmapDevice;
std::function<bool(void *, size_t)> munmapDevice;
std::vector<uint64_t> forkFailSeq;
int procNo, curPid; static int nextPid; bool procAlive;
std::vector<std::string> logLines;
std::function<void(const std::string &)> onLogLine;
std::string lastEmerg;
std::vector<ExecRec> execs;
std::function<int(const ExecRec &)> execOutcome;
uint64_t forks, forkFails, mutexOps;
std::vector<std::string> unmodelled;
bool sigpipeDefault = true;
std::string liveAtExit, fdsAtExit; size_t openAtExit;
Cred cred; int userDb; MallocFail mallocFail; bool everWaited; uint64_t threadFails, sockFails, fileFails;
int macMode; std::string macAddr;
static std::string cwd; static bool session; static mode_t umaskv; static int childPid;
static std::map<int, int> zombies; static std::set<int> execed; // children that became another program: they run for a while
static uint64_t pendingSigs;
struct Atfork { void (*a)(), (*b)(), (*c)(); };
static std::vector<Atfork> atforks;
static std::vector<void (*)()> atexits;
struct SFile { OFileP of; std::string path, wbuf, rdata; size_t rpos = 0; bool w = false, r = false, err = false, eof = false, closed = false, std = false; int mode = 0; size_t lineStart = 0; };
static std::vector<std::unique_ptr<SFile>> sfiles;
static SFile stdoutF, stderrF, stdinF;
static std::string stdoutLine;

static inline int fail(int e) { if (cur) cur->err = e; return -1; }
static inline void CP(const char * n) { yieldPoint(n); testCancel(); }
static void mayCancel(const char * n)
{
	yieldPoint(n);
	if (cur && cur->cancelPending && cur->cancelEnabled && !cur->cancelling && coin(K_MAYCANCEL, 1, 2)) testCancel();
}

// ================================================================================================ descriptors
ssize_t OFile::read(void *, size_t) { return fail(EINVAL); }
ssize_t OFile::write(const void *, size_t) { return fail(EINVAL); }
int OFile::ioctl(unsigned long, void *) { return fail(ENOTTY); }
static bool stdinClosed;
int newFd(OFileP f, bool ce)
{
	int n = stdinClosed ? 0 : 1; // 0..2 are the standard streams; who closes 0 gets it again
	if (n || fds.count(0)) n = 3;
	while (fds.count(n)) ++n;
	f->refs++; fds[n] = { f, ce }; allFiles.push_back(f);
	size_t open = fds.size(); if (open > fdPeak) fdPeak = open;
	th(0xfd0, n);
	return n;
}
OFile * fdGet(int fd) { auto i = fds.find(fd); return i == fds.end() ? nullptr : i->second.f.get(); }
size_t openFds() { return fds.size(); }
std::string openFdList() { std::string s; for (auto & f : fds) s += std::to_string(f.first) + ":" + f.second.f->kind + (f.second.f->path.empty() ? "" : "(" + f.second.f->path + ")") + " "; return s; }
static void unref(OFile * f) { if (--f->refs == 0) f->release(); }
static void badFd(int fd, const char * op)
{
	if (fd >= 0 && !childDepth) violation("fd.closed", "C21,C26", "%s on descriptor %d, which is not open (thread %s)", op, fd, cur->name.c_str());
}
static void childNet(const char * what)
{
	if (childDepth) violation("fork.childfeeds", "C27,C01,C02", "a spawned copy of the daemon goes on working as the daemon: it calls %s (thread %s)", what, cur->name.c_str());
}

// ================================================================================================ TCP
Endpoint * addEndpoint(const std::string & ip, int family, int port, Peer * peer)
{
	auto e = std::make_unique<Endpoint>(); e->ip = ip; e->family = family; e->port = port; e->peer = peer;
	endpoints.push_back(std::move(e)); return endpoints.back().get();
}
static ns lat(Endpoint * e) { return range(K_LATENCY, e->latLo, e->latHi); }
static bool pathOk(Conn * c) { return !c->ep->partitioned; }
static void ev(Conn * c, const char * w) { if (onConnEvent) onConnEvent(c, w); }
static void connDead(Conn * c, int err)
{
	if (c->dead) return;
	c->dead = true; c->err = err; c->deadAt = now; c->deadSeq = ++seqno;
	tr("conn %d dead: %s", c->id, strerror(err)); th(0xdead, c->id, err);
	wakeAll(B_RECV, c); wakeAll(B_SEND, c);
	ev(c, "dead");
}
static void remoteGone(Conn * c) // remote side learns that the connection is over
{
	if (c->remoteDead || !c->accepted) { c->remoteDead = true; return; }
	c->remoteDead = true; c->ep->peer->onClosed(c);
}
static void pump(Conn * c);
static void deliver(Conn * c)
{
	c->pumpScheduled = false;
	if (c->dead || !c->accepted) return;
	if (!pathOk(c)) {
		if (c->upDelivered < c->up.size() && c->unackedSince < 0) {
			c->unackedSince = now; ns since = now; ConnP k = c->shared_from_this();
			after(c->ep->deadAfter, [k, since] { if (k->unackedSince == since && !k->dead && k->upDelivered < k->up.size()) { countFault("tcp-timeout"); connDead(k.get(), ETIMEDOUT); } });
		}
		return;
	}
	c->unackedSince = -1;
	if (c->upDelivered < c->up.size()) {
		if (c->remoteDead || c->remoteClosed) { // segment hits a closed or forgotten connection: RST comes back
			ConnP k = c->shared_from_this();
			after(lat(c->ep), [k] { if (!k->closedLocal) connDead(k.get(), ECONNRESET); });
			c->upDelivered = c->up.size(); wakeAll(B_SEND, c);
			return;
		}
		if (c->ep->stalled || !c->remoteReads) {
			size_t room = c->rcvwnd > c->remoteUnread ? c->rcvwnd - c->remoteUnread : 0, n = std::min(room, c->up.size() - c->upDelivered);
			c->upDelivered += n; c->remoteUnread += n;
			if (n) wakeAll(B_SEND, c);
			return;
		}
		size_t unread = c->remoteUnread; c->remoteUnread = 0;
		size_t from = c->upDelivered - unread, to = c->up.size(); c->upDelivered = to;
		wakeAll(B_SEND, c);
		th(0xde11, c->id, to);
		std::string s = c->up.substr(from, to - from);
		c->ep->peer->onData(c, (const uint8_t *)s.data(), s.size());
	} else if (c->remoteUnread && !c->ep->stalled && c->remoteReads) {
		std::string s = c->up.substr(c->upDelivered - c->remoteUnread, c->remoteUnread); c->remoteUnread = 0;
		if (!c->remoteDead) c->ep->peer->onData(c, (const uint8_t *)s.data(), s.size());
	}
	if (c->upFin && !c->upFinDone && c->upDelivered == c->up.size() && !c->remoteUnread) { c->upFinDone = true; if (!c->remoteDead) c->ep->peer->onFin(c); }
}
static void pump(Conn * c)
{
	if (c->pumpScheduled || c->dead || !c->accepted) return;
	if (c->upDelivered == c->up.size() && !c->remoteUnread && (!c->upFin || c->upFinDone)) return;
	c->pumpScheduled = true; ConnP k = c->shared_from_this();
	after(lat(c->ep), [k] { deliver(k.get()); });
}
static void arrive(Conn * c)
{
	if (c->dead) return;
	if (c->closedLocal) { // data for a closed socket: RST to the remote
		if (!c->inflight.empty()) { c->inflight.clear(); remoteGone(c); }
		return;
	}
	bool w = false;
	while (!c->inflight.empty() && c->inflight.front().first <= now && pathOk(c)) { c->downArrived = c->inflight.front().second; c->inflight.pop_front(); w = true; }
	if (c->inflight.empty() && c->finInFlight && c->finAt <= now && pathOk(c)) { c->finInFlight = false; c->finArrived = true; w = true; }
	if (w) { th(0xa441, c->id, c->downArrived); wakeAll(B_RECV, c); wakeAll(B_POLL, nullptr); }
}
void Conn::rsend(const void * p, size_t n)
{
	if (remoteClosed || remoteDead || !n) return;
	down.append((const char *)p, n);
	ns t = std::max(lastArrival, now + lat(ep)); lastArrival = t;
	ConnP k = shared_from_this();
	size_t base = down.size() - n, off = 0;
	while (off < n) {
		size_t m = n - off;
		if (m > 1 && coin(K_SEGMENT, 1, 3)) { m = 1 + (size_t)logrange(K_SEGMENT, 0, m - 1); ns d = (ns)logrange(K_SEGMENT, 0, 20 * MS); off += m; segEnds.push_back(base + off); inflight.push_back({t, base + off}); at(t, [k] { arrive(k.get()); }); t += d; lastArrival = t; continue; }
		off += m; segEnds.push_back(base + off); inflight.push_back({t, base + off}); at(t, [k] { arrive(k.get()); });
	}
}
void Conn::rclose()
{
	if (remoteClosed || remoteDead) return;
	pump(this); remoteClosed = true; finInFlight = true; finAt = std::max(lastArrival, now + lat(ep)); lastArrival = finAt;
	ConnP k = shared_from_this(); at(finAt, [k] { arrive(k.get()); });
}
void Conn::rreset()
{
	if (remoteDead) return;
	remoteDead = true; ConnP k = shared_from_this();
	ns t = std::max(lastArrival, now + lat(ep));
	std::function<void()> f = [k] { if (!k->closedLocal && pathOk(k.get())) { arrive(k.get()); connDead(k.get(), ECONNRESET); } };
	at(t, f); pump(this);
}
void Conn::rdie() { remoteDead = true; inflight.clear(); finInFlight = false; pump(this); /* window probes go on */ }
void pathChanged(Endpoint * e)
{
	for (auto & c : e->conns) if (!c->dead) {
		ConnP k = c->shared_from_this();
		if (pathOk(c)) after(lat(e), [k] { arrive(k.get()); });
		if (pathOk(c)) { c->unackedSince = -1; c->pumpScheduled = false; }
		pump(c);
	}
}

struct SockFile : OFile {
	ConnP c; int family; bool connecting = false;
	SockFile() { kind = "socket"; }
	void release() override
	{
		if (!c) return;
		if (procAlive) recvEntry();
		c->closedLocal = true; c->closedAt = now; c->closeSeq = ++seqno;
		tr("conn %d closed by the sensor", c->id); th(0xc105e, c->id);
		ev(c.get(), "close");
		if (!c->open || c->dead) { return; }
		ConnP k = c;
		if (c->downArrived > c->downRead) { c->dead = true; c->deadAt = now; if (pathOk(c.get())) after(lat(c->ep), [k] { remoteGone(k.get()); }); }
		else { c->upFin = true; pump(c.get()); }
	}
	ssize_t read(void * b, size_t n) override { return recvFn(b, n, 0, "read"); }
	ssize_t write(const void * b, size_t n) override { return sendFn(b, n, 0, "write"); }
	int pollEvents() override
	{
		int e = 0; if (!c || !c->open) return POLLHUP;
		if (c->downArrived > c->downRead || c->finArrived || c->dead || c->shutRd) e |= POLLIN;
		if (c->dead || c->shutWr || c->sndbuf > c->up.size() - c->upDelivered) e |= POLLOUT;
		if (c->dead) e |= POLLERR | POLLHUP;
		return e;
	}
	void recvEntry() { if (c && !c->firstRecv) c->firstRecv = ++seqno; if (c && !c->recvs.empty() && !c->recvs.back().next) { c->recvs.back().next = ++seqno; c->recvs.back().nextT = now; } }
	ssize_t recvFn(void * b, size_t n, int flags, const char *)
	{
		if (!c || !c->open) return fail(ENOTCONN);
		checkRange(b, n, true, "recv");
		recvEntry();
		if (!n) return 0;
		while (true) {
			size_t av = c->downArrived - c->downRead;
			if (av) {
				size_t m = std::min(n, av);
				if (m > 1 && rate(K_SHORTRECV) && coin(K_SHORTRECV, rate(K_SHORTRECV), 65536)) { m = 1 + (size_t)logrange(K_SHORTRECV, 0, m - 1); countFault("short-recv"); }
				memcpy(b, c->down.data() + c->downRead, m);
				c->recvs.push_back({now, ++seqno, c->downRead, m, 0, 0});
				if (cur) cur->spinCount = 0; c->downRead += m; th(0x4ec5, c->id, c->downRead);
				ev(c.get(), "recv");
				return m;
			}
			if (c->shutRd) return 0;
			if (c->dead) {
				if (c->err && !c->errReported) { c->errReported = true; c->errSeenSeq = ++seqno; ev(c.get(), "err"); return fail(c->err); }
				return 0;
			}
			if (c->finArrived) { if (c->finReadAt < 0) { c->finReadAt = now; c->finReadSeq = ++seqno; } ev(c.get(), "eof"); return 0; }
			if (flags & MSG_DONTWAIT) return fail(EAGAIN);
			++refs;
			int w = block(B_RECV, c.get(), NEVER, NEVER, true);
			if (w == WAKE_CANCEL) { unref(this); testCancel(); continue; }
			unref(this);
		}
	}
	ssize_t sendFn(const void * b, size_t n, int flags, const char *)
	{
		if (!c || !c->open) { return fail(c ? EPIPE : ENOTCONN); }
		checkRange(b, n, false, "send");
		if (!n) return 0;
		size_t copied = 0, off0 = c->up.size(); ns t0 = now; uint64_t seq0 = ++seqno;
		int e = 0;
		while (true) {
			if (c->shutWr) { e = EPIPE; break; }
			if (c->dead) { if (c->err && !c->errReported && !copied) { c->errReported = true; e = c->err == ECONNRESET && c->finArrived ? EPIPE : c->err; } else e = EPIPE; break; }
			size_t q = c->up.size() - c->upDelivered, fr = c->sndbuf > q ? c->sndbuf - q : 0;
			if (fr) {
				size_t m = std::min(fr, n - copied);
				c->up.append((const char *)b + copied, m); copied += m; if (cur) cur->spinCount = 0; th(0x5e4d, c->id, c->up.size()); thData((const char *)b + copied - m, m);
				pump(c.get());
				if (copied == n) break;
			}
			if (flags & MSG_DONTWAIT) { if (!copied) e = EAGAIN; break; }
			if (copied && fault(K_SHORTSEND, "short-send")) break;
			probe("send blocked on a full socket buffer");
			size_t i = c->sends.size(); c->sends.push_back({now, ++seqno, cur->serial, off0, n, (ssize_t)copied, t0, seq0, wall()}); // partially accepted
			++refs;
			int w = block(B_SEND, c.get(), NEVER, NEVER, true);
			if (w == WAKE_CANCEL) { unref(this); if (copied) probe("send cancelled after a part was accepted"); testCancel(); c->sends.resize(i); continue; }
			unref(this);
			c->sends.resize(std::min(i, c->sends.size()));
		}
		ssize_t r = copied ? (ssize_t)copied : -1;
		c->sends.push_back({now, ++seqno, cur->serial, off0, n, r, t0, seq0, wall()});
		if (r < 0) {
			cur->err = e;
			if (e == EPIPE && !(flags & MSG_NOSIGNAL) && sigpipeDefault && !childDepth) {
				violation("net.sigpipe", "C05,C26,C10", "a write to a broken connection raised SIGPIPE and killed the process (thread %s)", cur->name.c_str());
				processEnd(END_KILLED, 13);
			}
		}
		ev(c.get(), "send");
		return r;
	}
};
struct TtyFile : SockFile {   // a serial line: never ends, errors are device errors
	int flags; struct termios tio;
	TtyFile() { kind = "tty"; memset(&tio, 0, sizeof tio); tio.c_cc[VMIN] = 1; tio.c_ispeed = tio.c_ospeed = B9600; tio.c_iflag = ICRNL | IXON; tio.c_oflag = OPOST | ONLCR; tio.c_cflag = CS8 | CREAD | HUPCL; tio.c_lflag = ISIG | ICANON | ECHO | ECHOE | ECHOK | IEXTEN; } // what the kernel starts with
	ssize_t read(void * b, size_t n) override
	{
		checkRange(b, n, true, "read"); if (!n) return 0;
		recvEntry();
		while (true) {
			if (c->downArrived > c->downRead) {
				if (c->ep->ttySpeed && tio.c_ispeed != c->ep->ttySpeed) violation("uart.speed", "C10,C19", "%s is read at the wrong speed (%u instead of %u)", path.c_str(), (unsigned)tio.c_ispeed, c->ep->ttySpeed);
				if ((tio.c_lflag & (ICANON | ISIG | ECHO)) || (tio.c_iflag & (ISTRIP | INLCR | IGNCR | ICRNL | IXON | IXOFF | PARMRK)) || (tio.c_cflag & CSIZE) != CS8 || !(tio.c_cflag & CREAD) || (c->ep->ttySpeed && ((tio.c_cflag & PARENB) != 0) != c->ep->ttyParity) || (c->ep->ttyParity && !(tio.c_cflag & PARODD)))
					violation("uart.mode", "C10,C19", "%s is read in a mode that alters or withholds data", path.c_str());
				return recvFn(b, n, 0, "read");
			}
			if (c->dead || c->finArrived) { if (c->finReadAt < 0) { c->finReadAt = now; c->finReadSeq = ++seqno; } ev(c.get(), "err"); return fail(EIO); }
			if (flags & O_NONBLOCK) return fail(EAGAIN);
			++refs;
			int w = block(B_RECV, c.get(), NEVER, NEVER, true);
			unref(this); if (w == WAKE_CANCEL) testCancel();
		}
	}
	ssize_t write(const void * b, size_t n) override
	{
		checkRange(b, n, false, "write"); if (!n) return 0;
		if ((tio.c_oflag & OPOST) && (tio.c_oflag & ONLCR) && memchr(b, 10, n)) violation("uart.mode", "C08,C10,C19", "%s is written in a mode that alters data", path.c_str());
		ns t0 = now; uint64_t seq0 = ++seqno; size_t off = c->up.size();
		if (verbose) tr("conn %d: written %02x... %c%s", c->id, *(const uint8_t *)b, ((const char *)b)[n - 1], c->dead || c->finArrived ? " in vain" : "");
		if (c->dead || c->finArrived) { c->sends.push_back({now, ++seqno, cur->serial, off, n, -1, t0, seq0, wall()}); return fail(EIO); }
		c->up.append((const char *)b, n); thData((const char *)b, n); pump(c.get());
		c->sends.push_back({now, ++seqno, cur->serial, off, n, (ssize_t)n, t0, seq0, wall()}); ev(c.get(), "send");
		return n;
	}
	int ioctl(unsigned long rq, void * a) override
	{
		if (c->dead || c->finArrived) return fail(EIO);
		switch (rq) {
		case TCGETS: checkRange(a, sizeof tio, true, "tcgetattr"); memcpy(a, &tio, sizeof tio); return 0;
		case TCSETS: checkRange(a, sizeof tio, false, "tcsetattr"); memcpy(&tio, a, sizeof tio); return 0;
		case TCFLSH: if ((long)a != TCOFLUSH) { size_t k = c->downArrived - c->downRead; c->down.erase(c->downRead, k); c->downArrived -= k; for (auto & i : c->inflight) i.second -= k; } return 0;
		default: return 0;
		}
	}
};
OFileP openTty(Endpoint * e, const std::string & path, int flags)
{
	++e->attempts;
	if (e->mode != EP_UP) { cur->err = e->mode == EP_REFUSE ? ENOENT : e->mode == EP_DROP ? EBUSY : e->mode == EP_NETUNREACH ? EACCES : EIO; return nullptr; }
	auto f = std::make_shared<TtyFile>(); f->path = path; f->flags = flags;
	auto c = std::make_shared<Conn>(); c->id = (int)conns.size(); c->ep = e; c->port = 0; c->connectStart = c->established = now; c->estSeq = ++seqno; c->open = true; c->proc = procNo; c->sndbuf = c->rcvwnd = 1 << 20;
	conns.push_back(c); e->conns.push_back(c.get()); f->c = c;
	tr("conn %d is the serial line %s", c->id, path.c_str()); th(0x771, c->id);
	c->accepted = true; after(0, [c] { if (!c->closedLocal) c->ep->peer->onAccept(c.get()); });
	ev(c.get(), "established");
	return f;
}
struct PlainFile : OFile {
	InodeP ino; size_t off = 0; int flags = 0;
	PlainFile() { kind = "file"; }
	ssize_t read(void * b, size_t n) override
	{
		int e = fsFaultFilter ? fsFaultFilter("read", path) : 0; if (e) return fail(e);
		checkRange(b, n, true, "read");
		size_t av = off < ino->data.size() ? ino->data.size() - off : 0, m = std::min(n, av);
		if (m > 1 && rate(K_SHORTRECV) && coin(K_SHORTRECV, rate(K_SHORTRECV), 65536)) m = 1 + (size_t)logrange(K_SHORTRECV, 0, m - 1);
		memcpy(b, ino->data.data() + off, m); off += m; return m;
	}
	ssize_t write(const void * b, size_t n) override
	{
		checkRange(b, n, false, "write");
		if (onFsOp) onFsOp("write", path);
		int e = fsFaultFilter ? fsFaultFilter("write", path) : 0;
		size_t m = n;
		if (e) { countFault("file-write-error"); m = n ? (size_t)choose(K_SHORTWRITE, (uint32_t)n) : 0; if (!m) return fail(e); }
		if (diskFullAfter >= 0) { if ((int)m > diskFullAfter) { m = diskFullAfter; countFault("disk-full"); } diskFullAfter -= m; if (!m && n) return fail(ENOSPC); }
		if (flags & O_APPEND) off = ino->data.size();
		if (ino->data.size() < off + m) ino->data.resize(off + m);
		memcpy(&ino->data[off], b, m); off += m;
		thData(b, m);
		return m;
	}
};

// ================================================================================================ files
void fsMkdirs(const std::string & p)
{
	for (size_t i = 1; i <= p.size(); ++i) if (i == p.size() || p[i] == '/') { std::string d = p.substr(0, i); if (!fs.count(d)) { auto n = std::make_shared<Inode>(); n->dir = true; n->dtype = DT_DIR; fs[d] = n; } }
}
void fsPut(const std::string & p, const std::string & d)
{
	auto n = std::make_shared<Inode>(); n->data = d; fs[p] = n;
}
bool fsHas(const std::string & p) { return fs.count(p) != 0; }
static std::string norm(const char * p) { std::string s = p; if (s.empty() || s[0] != '/') s = (cwd == "/" ? "" : cwd) + "/" + s; std::string o; for (char c : s) { if (c == '/' && !o.empty() && o.back() == '/') continue; o += c; } while (o.size() > 1 && o.back() == '/') o.pop_back(); return o; }
static std::string parent(const std::string & p) { size_t i = p.rfind('/'); return i == 0 ? "/" : p.substr(0, i); }
static InodeP lookup(const std::string & p) { auto i = fs.find(p); return i == fs.end() ? nullptr : i->second; }
static int openCommon(const std::string & p, int flags, OFileP * out)
{
	if (onFsOp) onFsOp(flags & O_TRUNC ? "truncate" : "open", p);
	int e = fsFaultFilter ? fsFaultFilter("open", p) : 0;
	if (e) { countFault("file-open-error"); return e; }
	if (openDevice) { cur->err = 0; OFileP d = openDevice(p, flags); if (d) { *out = d; return 0; } if (cur->err) return cur->err; }
	InodeP n = lookup(p);
	if (p == "/dev/null") { auto f = std::make_shared<OFile>(); f->kind = "null"; f->path = p; *out = f; return 0; }
	if (!n) {
		if (!(flags & O_CREAT)) return ENOENT;
		InodeP d = lookup(parent(p)); if (!d) return ENOENT; if (!d->dir) return ENOTDIR;
		if (diskFullAfter == 0) return ENOSPC;
		n = std::make_shared<Inode>(); fs[p] = n;
	} else {
		if ((flags & (O_CREAT | O_EXCL)) == (O_CREAT | O_EXCL)) return EEXIST;
		if (n->dir) { if ((flags & O_ACCMODE) != O_RDONLY) return EISDIR; }
		if (n->unreadable) return EACCES;
	}
	if (flags & O_TRUNC) n->data.clear();
	auto f = std::make_shared<PlainFile>(); f->ino = n; f->path = p; f->flags = flags; *out = f;
	return 0;
}

// ================================================================================================ process
static void procReset()
{
	for (auto & f : fds) { OFile * o = f.second.f.get(); unref(o); }
	fds.clear(); sfiles.clear(); atforks.clear(); atexits.clear(); pendingSigs = 0; stdoutLine.clear();
	zombies.clear(); execed.clear(); umaskv = 022; stdinClosed = session = false; mallocFail = MallocFail(); everWaited = false; threadFails = sockFails = fileFails = 0; cwd = "/root"; lastEmerg.clear(); cred = Cred();
	optind = 0;
}
size_t zombieCount() { return zombies.size(); }
void sysKill() { procAlive = false; procReset(); }
static void exitProcess(int rc);
static void spawnMain(std::function<void()> fn)
{
	procReset(); restoreSut(); ++procNo; curPid = ++nextPid; procAlive = true;
	Fiber * f = spawnHost("main", std::move(fn)); f->user = (void *)1;
}
void startProcess(const std::vector<std::string> & argv)
{
	spawnMain([argv] {
		char ** av = (char **)arenaAlloc(sizeof(char *) * (argv.size() + 1));
		for (size_t i = 0; i < argv.size(); ++i) { av[i] = (char *)arenaAlloc(argv[i].size() + 1); memcpy(av[i], argv[i].c_str(), argv[i].size() + 1); }
		av[argv.size()] = nullptr;
		int n = (int)argv.size(); // the vectors must not live on this stack beyond the call
		int rc = sut_main(n, av);
		exitProcess(rc);
	});
}
void startProcessHost(std::function<void()> fn) { spawnMain([fn] { fn(); exitProcess(0); }); }
static Fiber * mainFiber() { for (auto & f : fibers) if (f.state != F_FREE && f.user == (void *)1) return &f; return nullptr; }
bool mainInSigwait() { Fiber * m = mainFiber(); return m && m->state == F_BLOCKED && m->bk == B_SIGWAIT; }
void sendSignal(int sig)
{
	uint64_t b = 1ULL << sig;
	Fiber * m = mainFiber();
	th(0x516, sig);
	std::vector<Fiber *> fs_; if (m) fs_.push_back(m);
	for (auto & f : fibers) if (&f != m && f.state != F_FREE && f.state != F_DONE) fs_.push_back(&f);
	for (auto f : fs_) if (f->state == F_BLOCKED && f->bk == B_SIGWAIT && ((uint64_t)(uintptr_t)f->key & b)) { f->err = sig; wake(f, WAKE_NORMAL); return; }
	for (auto f : fs_) if (f->state != F_DONE && !(f->sigmask & b)) { tr("signal %d terminates the process", sig); probe("signal killed the process before it waited for it"); killProcess(END_KILLED, sig); return; }
	pendingSigs |= b;
}
std::string liveThreads(Fiber * ex)
{
	std::string s;
	for (auto & f : fibers) if (f.state != F_FREE && f.state != F_DONE && &f != ex) s += f.name + "(" + blockName[f.state == F_BLOCKED ? f.bk : B_NONE] + ") ";
	return s;
}
static void flushAll() { if (!stdoutLine.empty()) { std::string l = stdoutLine; stdoutLine.clear(); logLines.push_back(l); if (onLogLine) onLogLine(l); } }

static bool lineEnd(const char * s, size_t n)
{
	bool nl = false;
	for (size_t i = 0; i < n; ++i) {
		if (s[i] == '\n') {
			nl = true; std::string l; l.swap(stdoutLine);
			if (l.compare(0, 7, "[EMERG]") == 0) lastEmerg = l;
			tr("LOG %s", l.c_str());
			logLines.push_back(l); if (onLogLine && !childDepth) onLogLine(l);
		} else if (stdoutLine.size() < 100000) stdoutLine += s[i];
	}
	return nl;
}

static void resetSys()
{
	for (auto & f : fds) f.second.f->refs = 0;
	fds.clear(); allFiles.clear(); fdPeak = 0; dns.clear(); endpoints.clear(); conns.clear(); connectLog.clear(); randLog.clear(); sockFailLog.clear(); lookupLog.clear(); connectTimeout = 20 * SEC;
	onConnEvent = nullptr; fs.clear(); fsFaultFilter = nullptr; onFsOp = nullptr; diskFullAfter = -1; openDevice = nullptr; mmapDevice = nullptr; munmapDevice = nullptr; userDb = 0; forkFailSeq.clear(); procNo = 0; curPid = 0; nextPid = 1000; procAlive = false;
	logLines.clear(); onLogLine = nullptr; lastEmerg.clear(); execs.clear(); execOutcome = nullptr; forks = forkFails = mutexOps = 0; macMode = 0; macAddr = "b8:27:eb:12:34:56"; childPid = 0; sigpipeDefault = true;
	procReset();
	fsMkdirs("/tmp");
	stdoutF = SFile(); stderrF = SFile(); stdinF = SFile(); stdoutF.std = stderrF.std = true; stdoutF.w = stderrF.w = true; stdoutF.path = "stdout"; stderrF.path = "stderr";
	onFiberExit = [](Fiber * f) {
		if (!f->held.empty()) violation("lock.leaked", "C15,C05,C26", "thread %s ended while it held %zu lock(s)", f->name.c_str(), f->held.size());
	};
	onChildHang = [](const char * where) { violation("fork.childhang", "C27,C26", "a spawned child never executes its program: it hangs in %s (thread %s)", where, cur ? cur->name.c_str() : "forking"); };
}
static bool regReset = [] { resetHooks.push_back(resetSys); snapshotHooks.push_back([]() -> std::function<void()> {
	auto f = fds; auto at = atforks; auto cw = cwd; bool se = session, si = stdinClosed; auto um = umaskv; int cp = childPid, pid = curPid; auto line = stdoutLine; auto z = zombies;
	for (auto & x : fds) x.second.f->refs++;
	return [=] { for (auto & x : fds) unref(x.second.f.get()); fds = f; atforks = at; cwd = cw; session = se; stdinClosed = si; umaskv = um; childPid = cp; curPid = pid; stdoutLine = line; zombies = z; }; });
	return true; }();

static void exitProcess(int rc)
{
	if (!childDepth) {
		liveAtExit = liveThreads(cur); fdsAtExit = openFdList(); openAtExit = openFds();
		for (size_t i = atexits.size(); i--;) atexits[i]();
		flushAll();
	}
	processEnd(END_EXIT, rc);
}
bool lockHeldBy(const void * m, uint32_t * owner) { const uint32_t * w = (const uint32_t *)m; if (owner) *owner = w[2] - 1; return w[0] != 0; }
}

// ==================================================================================================================
// C interface
// ==================================================================================================================
static OFile * need(int fd, const char * op) { OFile * f = fdGet(fd); if (!f) { badFd(fd, op); fail(EBADF); } return f; }
static SockFile * needSock(int fd, const char * op) { OFile * f = need(fd, op); if (!f) return nullptr; SockFile * s = dynamic_cast<SockFile *>(f); if (!s) fail(ENOTSOCK); return s; }

static pthread_t handleOf(Fiber * f) { return (pthread_t)(((uint64_t)f->serial + 1) << 8 | f->id); }
static Fiber * fiberOf(pthread_t t, const char * op)
{
	unsigned id = t & 0xff; uint64_t s = (t >> 8) - 1;
	if (id < MAXF && fibers[id].state != F_FREE && fibers[id].serial == s) return &fibers[id];
	violation("thread.badhandle", "C15,C26", "%s on a thread that does not exist (any more)", op);
	return nullptr;
}

namespace sim {
extern "C" void sim_unwind_start(Fiber * f)
{
	__pthread_unwind_buf_t * b = (__pthread_unwind_buf_t *)f->cleanup;
	f->cancelling = true;
	unpoisonStack(f);
	if (!b) fiberExit(f->ret ? f->ret : PTHREAD_CANCELED);
	siglongjmp((__jmp_buf_tag *)b->__cancel_jmp_buf, 1);
}
}

extern "C" {
// ---- errno -------------------------------------------------------------------------------------------------------
int * sim___errno_location() { static int dummy; return cur ? &cur->err : &dummy; }

// ---- memory ------------------------------------------------------------------------------------------------------
static bool mallocFault()
{
	if (!fault(K_MALLOC, "malloc-failure")) return false;
	++mallocFail.n; mallocFail.fibers.insert(cur->serial); mallocFail.fiber = cur->serial; mallocFail.seq = ++seqno;
	return true;
}
void * sim_malloc(size_t n)
{
	yieldPoint("malloc");
	if (!childDepth && mallocFault()) { fail(ENOMEM); return nullptr; }
	void * p = n > (1ULL << 40) ? nullptr : arenaAlloc(n);
	if (!p) fail(ENOMEM);
	return p;
}
void sim_free(void * p) { if (p) { yieldPoint("free"); arenaFree(p); } }
void * sim_calloc(size_t a, size_t b) { void * p = b && a > SIZE_MAX / b ? (fail(ENOMEM), nullptr) : sim_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void * sim_realloc(void * p, size_t n)
{
	if (!p) return sim_malloc(n);
	size_t o = arenaUsable(p); void * q = sim_malloc(n);
	if (!q) return nullptr;
	memcpy(q, p, std::min(o, n)); arenaFree(p); return q;
}
int sim_posix_memalign(void ** r, size_t al, size_t n) { yieldPoint("malloc"); if (mallocFault()) return ENOMEM; *r = arenaAlloc(n, al); return *r ? 0 : ENOMEM; }
void * sim_aligned_alloc(size_t al, size_t n) { void * p; int r = sim_posix_memalign(&p, al, n); if (r) { fail(r); return nullptr; } return p; }
void * sim_reallocarray(void * p, size_t a, size_t b) { if (b && a > SIZE_MAX / b) { fail(ENOMEM); return nullptr; } return sim_realloc(p, a * b); }

// ---- checked memory and string functions ---------------------------------------------------------------------------
void * sim_memcpy(void * d, const void * s, size_t n) { checkRange(s, n, false, "memcpy"); checkRange(d, n, true, "memcpy"); return memmove(d, s, n); }
void * sim_mempcpy(void * d, const void * s, size_t n) { sim_memcpy(d, s, n); return (char *)d + n; }
void * sim_memmove(void * d, const void * s, size_t n) { checkRange(s, n, false, "memmove"); checkRange(d, n, true, "memmove"); return memmove(d, s, n); }
void * sim_memset(void * d, int c, size_t n) { checkRange(d, n, true, "memset"); return memset(d, c, n); }
int sim_memcmp(const void * a, const void * b, size_t n) { checkRange(a, n, false, "memcmp"); checkRange(b, n, false, "memcmp"); return memcmp(a, b, n); }
void * sim_memchr(const void * a, int c, size_t n)
{
	// memchr may stop at the first match: only the bytes up to it need to be valid
	const char * p = n ? (const char *)memchr(a, c, n) : nullptr;
	checkRange(a, p ? p - (const char *)a + 1 : n, false, "memchr");
	return (void *)p;
}
void * sim_memrchr(const void * a, int c, size_t n) { checkRange(a, n, false, "memrchr"); return (void *)memrchr(a, c, n); }
void * sim_memccpy(void * d, const void * s, int c, size_t n) { const char * p = n ? (const char *)memchr(s, c, n) : nullptr; size_t m = p ? p - (const char *)s + 1 : n; checkRange(s, m, false, "memccpy"); checkRange(d, m, true, "memccpy"); return memccpy(d, s, c, n); }
static size_t slen(const char * s, const char * w) { size_t n = strlen(s); checkRange(s, n + 1, false, w); return n; }
size_t sim_strlen(const char * s) { return slen(s, "strlen"); }
size_t sim_strnlen(const char * s, size_t m) { size_t n = strnlen(s, m); checkRange(s, n < m ? n + 1 : m, false, "strnlen"); return n; }
char * sim_strcpy(char * d, const char * s) { size_t n = slen(s, "strcpy"); checkRange(d, n + 1, true, "strcpy"); return (char *)memmove(d, s, n + 1) ? d : d; }
char * sim_stpcpy(char * d, const char * s) { size_t n = slen(s, "stpcpy"); checkRange(d, n + 1, true, "stpcpy"); memmove(d, s, n + 1); return d + n; }
char * sim_strncpy(char * d, const char * s, size_t m) { size_t n = strnlen(s, m); checkRange(s, n < m ? n + 1 : m, false, "strncpy"); checkRange(d, m, true, "strncpy"); return strncpy(d, s, m); }
char * sim_strcat(char * d, const char * s) { size_t a = slen(d, "strcat"), n = slen(s, "strcat"); checkRange(d + a, n + 1, true, "strcat"); memmove(d + a, s, n + 1); return d; }
char * sim_strncat(char * d, const char * s, size_t m) { size_t a = slen(d, "strncat"), n = strnlen(s, m); checkRange(s, n < m ? n + 1 : m, false, "strncat"); checkRange(d + a, n + 1, true, "strncat"); memmove(d + a, s, n); d[a + n] = 0; return d; }
int sim_strcmp(const char * a, const char * b) { slen(a, "strcmp"); slen(b, "strcmp"); return strcmp(a, b); }
static void chkn(const char * a, size_t m, const char * w) { size_t n = strnlen(a, m); checkRange(a, n < m ? n + 1 : m, false, w); }
// strn*cmp stop at the first difference: only check up to there
static size_t diffn(const char * a, const char * b, size_t n, bool ci) { size_t i = 0; for (; i < n; ++i) { int x = (unsigned char)a[i], y = (unsigned char)b[i]; if (ci) { x = tolower(x); y = tolower(y); } if (x != y || !x) { ++i; break; } } return i; }
int sim_strncmp(const char * a, const char * b, size_t n) { size_t k = diffn(a, b, n, false); checkRange(a, k, false, "strncmp"); checkRange(b, k, false, "strncmp"); return strncmp(a, b, n); }
int sim_strcasecmp(const char * a, const char * b) { slen(a, "strcasecmp"); slen(b, "strcasecmp"); return strcasecmp(a, b); }
int sim_strncasecmp(const char * a, const char * b, size_t n) { size_t k = diffn(a, b, n, true); checkRange(a, k, false, "strncasecmp"); checkRange(b, k, false, "strncasecmp"); return strncasecmp(a, b, n); }
char * sim_strchr(const char * s, int c) { slen(s, "strchr"); return (char *)strchr(s, c); }
char * sim_strrchr(const char * s, int c) { slen(s, "strrchr"); return (char *)strrchr(s, c); }
char * sim_strstr(const char * a, const char * b) { slen(a, "strstr"); slen(b, "strstr"); return (char *)strstr(a, b); }
char * sim_strdup(const char * s) { size_t n = slen(s, "strdup"); char * p = (char *)sim_malloc(n + 1); if (p) memcpy(p, s, n + 1); return p; }
char * sim_strndup(const char * s, size_t m) { size_t n = strnlen(s, m); char * p = (char *)sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
unsigned long sim_strtoul(const char * s, char ** e, int b) { slen(s, "strtoul"); errno = 0; unsigned long r = strtoul(s, e, b); if (errno && cur) cur->err = errno; return r; }
long sim_strtol(const char * s, char ** e, int b) { slen(s, "strtol"); errno = 0; long r = strtol(s, e, b); if (errno && cur) cur->err = errno; return r; }
double sim_strtod(const char * s, char ** e) { slen(s, "strtod"); errno = 0; double r = strtod(s, e); if (errno && cur) cur->err = errno; return r; }
int sim_atoi(const char * s) { slen(s, "atoi"); return atoi(s); }

// ---- stdio -------------------------------------------------------------------------------------------------------
FILE * sim_stdout = (FILE *)&stdoutF;
FILE * sim_stderr = (FILE *)&stderrF;
FILE * sim_stdin = (FILE *)&stdinF;
static int fflushReal(SFile * f)
{
	if (f->std) return 0;
	while (!f->wbuf.empty()) {
		ssize_t n = f->of->write(f->wbuf.data(), f->wbuf.size());
		if (n < 0) { f->err = true; f->wbuf.clear(); return -1; }
		f->wbuf.erase(0, n);
	}
	return 0;
}
static SFile * fileOf(FILE * fp, const char * op)
{
	SFile * f = (SFile *)fp;
	if (f == &stdoutF || f == &stderrF || f == &stdinF) return f;
	for (auto & s : sfiles) if (s.get() == f) { if (f->closed) { violation("stdio.closed", "C21,C26", "%s on a closed stream", op); return nullptr; } return f; }
	violation("stdio.bad", "C26", "%s on something that is not a stream", op);
	return nullptr;
}
static int fput(FILE * fp, const char * s, size_t n, const char * op)
{
	SFile * f = fileOf(fp, op);
	if (!f) return -1;
	if (f->std) { lineEnd(s, n); return (int)n; }
	if (!f->w) { fail(EBADF); return -1; }
	f->wbuf.append(s, n);
	if (f->wbuf.size() >= 4096 && fflushReal(f)) return -1;
	return (int)n;
}
static int fmt(char ** out, const char * f, va_list ap)
{
	slen(f, "format");
	va_list a2; va_copy(a2, ap); int n = vsnprintf(nullptr, 0, f, a2); va_end(a2);
	*out = (char *)malloc(n + 1); vsnprintf(*out, n + 1, f, ap); return n;
}
int sim_vfprintf(FILE * fp, const char * f, va_list ap)
{
	mayCancel("fprintf");
	char * b; int n = fmt(&b, f, ap); int r = fput(fp, b, n, "fprintf"); free(b); return r < 0 ? -1 : n;
}
int sim_fprintf(FILE * fp, const char * f, ...) { va_list ap; va_start(ap, f); int r = sim_vfprintf(fp, f, ap); va_end(ap); return r; }
int sim_printf(const char * f, ...) { va_list ap; va_start(ap, f); int r = sim_vfprintf(sim_stdout, f, ap); va_end(ap); return r; }
int sim_vprintf(const char * f, va_list ap) { return sim_vfprintf(sim_stdout, f, ap); }
int sim_putchar(int c) { mayCancel("putchar"); char ch = c; return fput(sim_stdout, &ch, 1, "putchar") < 0 ? EOF : (unsigned char)c; }
int sim_putc(int c, FILE * fp) { mayCancel("putc"); char ch = c; return fput(fp, &ch, 1, "putc") < 0 ? EOF : (unsigned char)c; }
int sim_fputc(int c, FILE * fp) { return sim_putc(c, fp); }
int sim_puts(const char * s) { mayCancel("puts"); size_t n = slen(s, "puts"); char * b = (char *)malloc(n + 1); memcpy(b, s, n); b[n] = '\n'; fput(sim_stdout, b, n + 1, "puts"); free(b); return 1; }
int sim_fputs(const char * s, FILE * fp) { mayCancel("fputs"); return fput(fp, s, slen(s, "fputs"), "fputs") < 0 ? EOF : 1; }
size_t sim_fwrite(const void * p, size_t a, size_t b, FILE * fp) { mayCancel("fwrite"); checkRange(p, a * b, false, "fwrite"); return fput(fp, (const char *)p, a * b, "fwrite") < 0 ? 0 : b; }
int sim_vsnprintf(char * d, size_t n, const char * f, va_list ap)
{
	char * b; int r = fmt(&b, f, ap); size_t m = n ? std::min((size_t)r + 1, n) : 0;
	if (m) { checkRange(d, m, true, "snprintf"); memcpy(d, b, m); d[m - 1] = 0; }
	free(b); return r;
}
int sim_snprintf(char * d, size_t n, const char * f, ...) { va_list ap; va_start(ap, f); int r = sim_vsnprintf(d, n, f, ap); va_end(ap); return r; }
int sim_vsprintf(char * d, const char * f, va_list ap) { return sim_vsnprintf(d, 1 << 30, f, ap); }
int sim_sprintf(char * d, const char * f, ...) { va_list ap; va_start(ap, f); int r = sim_vsnprintf(d, 1 << 30, f, ap); va_end(ap); return r; }
int sim_asprintf(char ** d, const char * f, ...) { va_list ap; va_start(ap, f); char * b; int n = fmt(&b, f, ap); va_end(ap); *d = (char *)sim_malloc(n + 1); if (*d) memcpy(*d, b, n + 1); free(b); return *d ? n : -1; }
void sim_setlinebuf(FILE *) {}
int sim_setvbuf(FILE *, char *, int, size_t) { return 0; }
int sim_fflush(FILE * fp)
{
	CP("fflush");
	if (!fp) return 0;
	SFile * f = fileOf(fp, "fflush"); return f ? (fflushReal(f) ? EOF : 0) : EOF;
}
static FILE * mkFile(OFileP of, const std::string & p, bool r, bool w)
{
	auto s = std::make_unique<SFile>(); s->of = of; s->path = p; s->r = r; s->w = w;
	if (r) if (auto pf = dynamic_cast<PlainFile *>(of.get())) s->rdata = pf->ino->data;
	sfiles.push_back(std::move(s)); return (FILE *)sfiles.back().get();
}
FILE * sim_fopen(const char * path, const char * mode)
{
	mayCancel("fopen"); slen(path, "fopen");
	bool w = strpbrk(mode, "wa+"), r = strpbrk(mode, "r+"); int fl = (w ? (r ? O_RDWR : O_WRONLY) : O_RDONLY) | (strchr(mode, 'w') ? O_CREAT | O_TRUNC : 0) | (strchr(mode, 'a') ? O_CREAT | O_APPEND : 0);
	OFileP of; int e = openCommon(norm(path), fl, &of);
	if (!e && w) if (auto pf = dynamic_cast<PlainFile *>(of.get())) if (pf->ino->dir) e = EISDIR;
	if (e) { fail(e); return nullptr; }
	int fd = newFd(of, strchr(mode, 'e') != nullptr); (void)fd;
	return mkFile(of, norm(path), r, w);
}
static int fdOf(OFile * o) { for (auto & f : fds) if (f.second.f.get() == o) return f.first; return -1; }
FILE * sim_fdopen(int fd, const char * mode)
{
	yieldPoint("fdopen"); OFile * o = need(fd, "fdopen"); if (!o) return nullptr;
	return mkFile(fds[fd].f, o->path, strpbrk(mode, "r+"), strpbrk(mode, "wa+"));
}
int sim_fileno(FILE * fp) { SFile * f = fileOf(fp, "fileno"); if (!f) return -1; if (f->std) return f == &stdoutF ? 1 : 2; return fdOf(f->of.get()); }
int sim_fclose(FILE * fp)
{
	mayCancel("fclose");
	SFile * f = fileOf(fp, "fclose"); if (!f || f->std) return 0;
	int r = f->w ? fflushReal(f) : 0;
	if (f->err) r = -1; // glibc reports only errors of the final flush, but an earlier lost write also left the flag
	int fd = fdOf(f->of.get());
	if (onFsOp && f->w) onFsOp("close", f->path);
	if (fsFaultFilter && f->w && !r) { int e = fsFaultFilter("close", f->path); if (e) { countFault("file-close-error"); r = fail(e); } }
	if (fd >= 0) { OFileP o = fds[fd].f; fds.erase(fd); unref(o.get()); }
	f->closed = true;
	return r ? EOF : 0;
}
int sim_ferror(FILE * fp) { SFile * f = fileOf(fp, "ferror"); return f && f->err; }
int sim_feof(FILE * fp) { SFile * f = fileOf(fp, "feof"); return f && f->eof; }
void sim_clearerr(FILE * fp) { SFile * f = fileOf(fp, "clearerr"); if (f) f->err = f->eof = false; }
size_t sim_fread(void * p, size_t a, size_t b, FILE * fp)
{
	mayCancel("fread"); SFile * f = fileOf(fp, "fread"); if (!f || !a) return 0;
	int e = fsFaultFilter ? fsFaultFilter("read", f->path) : 0; if (e) { f->err = true; fail(e); return 0; }
	if (auto pf = dynamic_cast<PlainFile *>(f->of.get())) { if (pf->ino->dir) { f->err = true; fail(EISDIR); return 0; } f->rdata = pf->ino->data; }
	size_t av = f->rdata.size() > f->rpos ? f->rdata.size() - f->rpos : 0, n = std::min(av, a * b);
	checkRange(p, n, true, "fread"); memcpy(p, f->rdata.data() + f->rpos, n); f->rpos += n; if (n < a * b) f->eof = true;
	return n / a;
}
char * sim_fgets(char * d, int n, FILE * fp)
{
	mayCancel("fgets"); SFile * f = fileOf(fp, "fgets"); if (!f || n <= 0) return nullptr;
	int e = fsFaultFilter ? fsFaultFilter("read", f->path) : 0; if (e) { f->err = true; fail(e); return nullptr; }
	int i = 0; while (i < n - 1 && f->rpos < f->rdata.size()) { char c = f->rdata[f->rpos++]; d[i++] = c; if (c == '\n') break; }
	if (!i) { f->eof = true; return nullptr; }
	checkRange(d, i + 1, true, "fgets"); d[i] = 0; return d;
}
int sim_fgetc(FILE * fp) { mayCancel("fgetc"); SFile * f = fileOf(fp, "fgetc"); if (!f || f->rpos >= f->rdata.size()) { if (f) f->eof = true; return EOF; } return (unsigned char)f->rdata[f->rpos++]; }
int sim_getc(FILE * fp) { return sim_fgetc(fp); }
int sim_fscanf(FILE * fp, const char * fm, ...)
{
	mayCancel("fscanf"); SFile * f = fileOf(fp, "fscanf"); if (!f) return EOF;
	int e = fsFaultFilter ? fsFaultFilter("read", f->path) : 0; if (e) { f->err = true; fail(e); return EOF; }
	std::string rest = f->rdata.substr(std::min(f->rpos, f->rdata.size())); f->rpos = f->rdata.size();
	va_list ap; va_start(ap, fm); int r = vsscanf(rest.c_str(), fm, ap); va_end(ap); return r;
}
int sim___isoc99_fscanf(FILE * fp, const char * fm, ...)
{
	mayCancel("fscanf"); SFile * f = fileOf(fp, "fscanf"); if (!f) return EOF;
	int e = fsFaultFilter ? fsFaultFilter("read", f->path) : 0; if (e) { f->err = true; fail(e); return EOF; }
	std::string rest = f->rdata.substr(std::min(f->rpos, f->rdata.size())); f->rpos = f->rdata.size();
	va_list ap; va_start(ap, fm); int r = vsscanf(rest.c_str(), fm, ap); va_end(ap); return r;
}
int sim_fseek(FILE * fp, long o, int wh) { SFile * f = fileOf(fp, "fseek"); if (!f) return -1; if (f->w) fflushReal(f); long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long)f->rpos : (long)f->rdata.size(); f->rpos = b + o; f->eof = false; return 0; }
long sim_ftell(FILE * fp) { SFile * f = fileOf(fp, "ftell"); return f ? (long)f->rpos : -1; }
void sim_rewind(FILE * fp) { sim_fseek(fp, 0, SEEK_SET); }
void sim_perror(const char * s) { sim_fprintf(sim_stderr, "%s: %s\n", s, strerror(cur->err)); }

// ---- time --------------------------------------------------------------------------------------------------------
int sim_clock_gettime(clockid_t c, struct timespec * ts)
{
	yieldPoint("clock_gettime"); ns t = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? wall() : now;
	checkRange(ts, sizeof *ts, true, "clock_gettime"); ts->tv_sec = t / SEC; ts->tv_nsec = t % SEC; return 0;
}
int sim_gettimeofday(struct timeval * tv, void *) { yieldPoint("gettimeofday"); tv->tv_sec = wall() / SEC; tv->tv_usec = wall() % SEC / 1000; return 0; }
time_t sim_time(time_t * t) { yieldPoint("time"); time_t r = wall() / SEC; if (t) *t = r; return r; }
unsigned sim_sleep(unsigned s) { CP("sleep"); if (sleepFor((ns)s * SEC, true) == WAKE_CANCEL) testCancel(); return 0; }
int sim_usleep(useconds_t u) { CP("usleep"); if (sleepFor((ns)u * US, true) == WAKE_CANCEL) testCancel(); return 0; }
int sim_nanosleep(const struct timespec * t, struct timespec *) { CP("nanosleep"); if (sleepFor(t->tv_sec * SEC + t->tv_nsec, true) == WAKE_CANCEL) testCancel(); return 0; }
int sim_clock_nanosleep(clockid_t c, int fl, const struct timespec * t, struct timespec *)
{
	CP("clock_nanosleep"); ns x = t->tv_sec * SEC + t->tv_nsec; int w;
	if (!(fl & TIMER_ABSTIME)) w = sleepFor(x, true);
	else if (c == CLOCK_REALTIME) w = block(B_SLEEP, nullptr, NEVER, x, true);
	else w = block(B_SLEEP, nullptr, x, NEVER, true);
	if (w == WAKE_CANCEL) testCancel();
	return 0;
}
char * sim_ctime_r(const time_t * t, char * b) { checkRange(b, 26, true, "ctime_r"); struct tm tm; gmtime_r(t, &tm); asctime_r(&tm, b); return b; }
struct tm * sim_localtime_r(const time_t * t, struct tm * tm) { return gmtime_r(t, tm); }
int sim_rand() { yieldPoint("rand"); int v = (int)choose(K_RAND, 0x7fffffff); if (v > 0x79000000) v = v & 1 ? RAND_MAX : RAND_MAX - 1; if (cur) randLog.push_back({++seqno, cur->serial, v}); return v; }
long sim_random() { return sim_rand(); }
int sim_rand_r(unsigned *) { return sim_rand(); }
void sim_srand(unsigned) {}
void sim_srandom(unsigned) {}

// ---- threads -----------------------------------------------------------------------------------------------------
int sim_pthread_create(pthread_t * t, const pthread_attr_t *, void * (*fn)(void *), void * arg)
{
	yieldPoint("pthread_create"); childNet("pthread_create");
	if (fault(K_THREADFAIL, "thread-create-failure")) { ++threadFails; return EAGAIN; }
	Fiber * f = spawn("thread", fn, arg); if (!f) return EAGAIN;
	*t = handleOf(f); tr("new thread #%u", f->serial);
	return 0;
}
int sim_pthread_setname_np(pthread_t t, const char * n) { yieldPoint("setname"); slen(n, "setname"); unsigned id = t & 0xff; if (id < MAXF && fibers[id].state != F_FREE && fibers[id].serial == (t >> 8) - 1) fibers[id].name = n; return 0; }
pthread_t sim_pthread_self() { return handleOf(cur); }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
static int joinCommon(pthread_t t, void ** ret, ns dl, ns dlRt)
{
	Fiber * f = fiberOf(t, "join"); if (!f) return ESRCH;
	if (f == cur) return EDEADLK;
	while (f->state != F_DONE) {
		int w = block(B_JOIN, f, dl, dlRt, true);
		if (w == WAKE_CANCEL) { testCancel(); continue; }
		if (w == WAKE_TIMEOUT && f->state != F_DONE) return ETIMEDOUT;
	}
	if (ret) *ret = f->ret;
	f->state = F_FREE; return 0;
}
int sim_pthread_join(pthread_t t, void ** r) { CP("pthread_join"); return joinCommon(t, r, NEVER, NEVER); }
int sim_pthread_timedjoin_np(pthread_t t, void ** r, const struct timespec * ts) { CP("pthread_timedjoin_np"); if (!ts) return joinCommon(t, r, NEVER, NEVER); ns d = ts->tv_sec * SEC + ts->tv_nsec; return joinCommon(t, r, NEVER, d); }
int sim_pthread_clockjoin_np(pthread_t t, void ** r, clockid_t c, const struct timespec * ts) { CP("pthread_clockjoin_np"); ns d = ts ? ts->tv_sec * SEC + ts->tv_nsec : NEVER; return c == CLOCK_REALTIME ? joinCommon(t, r, NEVER, d) : joinCommon(t, r, d, NEVER); }
int sim_pthread_tryjoin_np(pthread_t t, void ** r) { yieldPoint("tryjoin"); Fiber * f = fiberOf(t, "tryjoin"); if (!f) return ESRCH; if (f->state != F_DONE) return EBUSY; if (r) *r = f->ret; f->state = F_FREE; return 0; }
int sim_pthread_detach(pthread_t t) { yieldPoint("pthread_detach"); Fiber * f = fiberOf(t, "detach"); if (!f) return ESRCH; if (f->state == F_DONE) f->state = F_FREE; else f->detached = true; return 0; }
int sim_pthread_cancel(pthread_t t) { yieldPoint("pthread_cancel"); Fiber * f = fiberOf(t, "cancel"); if (!f) return ESRCH; tr("cancel thread %s", f->name.c_str()); th(0xcacc, f->serial); cancelFiber(f); return 0; }
int sim_pthread_setcancelstate(int s, int * o) { yieldPoint("setcancelstate"); if (o) *o = cur->cancelEnabled ? PTHREAD_CANCEL_ENABLE : PTHREAD_CANCEL_DISABLE; cur->cancelEnabled = s == PTHREAD_CANCEL_ENABLE; return 0; }
int sim_pthread_setcanceltype(int, int * o) { if (o) *o = PTHREAD_CANCEL_DEFERRED; return 0; }
void sim_pthread_testcancel() { yieldPoint("testcancel"); testCancel(); }
void sim_pthread_exit(void * v) { yieldPoint("pthread_exit"); cur->ret = v; sim_unwind_start(cur); fiberExit(v); }
void sim___pthread_register_cancel(__pthread_unwind_buf_t * b) { b->__pad[0] = cur->cleanup; cur->cleanup = b; }
void sim___pthread_unregister_cancel(__pthread_unwind_buf_t * b) { cur->cleanup = b->__pad[0]; }
void sim___pthread_unwind_next(__pthread_unwind_buf_t * b) { cur->cleanup = b->__pad[0]; sim_unwind_start(cur); abort(); }

// mutex layout: [0] lock, [1] count, [2] owner serial + 1, [4] kind (as in glibc)
static inline int mkind(uint32_t * m) { return m[4] & 3; }
static void mtake(uint32_t * m) { m[0] = 1; m[2] = cur->serial + 1; m[1] = 1; cur->held.push_back(m); ++mutexOps; }
static int mxlock(pthread_mutex_t * mx, ns dl, ns dlRt)
{
	uint32_t * m = (uint32_t *)mx; checkRange(m, sizeof *mx, true, "mutex");
	while (m[0]) {
		if (m[2] == cur->serial + 1) {
			if (mkind(m) == PTHREAD_MUTEX_RECURSIVE) { ++m[1]; return 0; }
			if (mkind(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
			if (!childDepth) violation("lock.self", "*", "thread %s locks a mutex it already holds: deadlock", cur->name.c_str());
		}
		int w = block(B_MUTEX, m, dl, dlRt, false);
		if (w == WAKE_TIMEOUT && m[0]) return ETIMEDOUT;
	}
	mtake(m); return 0;
}
static void mrelease(uint32_t * m)
{
	auto & h = cur->held; for (size_t i = h.size(); i--;) if (h[i] == m) { h.erase(h.begin() + i); break; }
	m[0] = m[1] = m[2] = 0; wakeOne(B_MUTEX, m);
}
int sim_pthread_mutex_lock(pthread_mutex_t * m) { yieldPoint("mutex_lock"); return mxlock(m, NEVER, NEVER); }
int sim_pthread_mutex_timedlock(pthread_mutex_t * m, const struct timespec * ts) { yieldPoint("mutex_timedlock"); return mxlock(m, NEVER, ts->tv_sec * SEC + ts->tv_nsec); }
int sim_pthread_mutex_trylock(pthread_mutex_t * mx) { yieldPoint("mutex_trylock"); uint32_t * m = (uint32_t *)mx; if (m[0]) { if (mkind(m) == PTHREAD_MUTEX_RECURSIVE && m[2] == cur->serial + 1) { ++m[1]; return 0; } return EBUSY; } mtake(m); return 0; }
int sim_pthread_mutex_unlock(pthread_mutex_t * mx)
{
	yieldPoint("mutex_unlock");
	uint32_t * m = (uint32_t *)mx; checkRange(m, sizeof *mx, true, "mutex");
	if (!m[0] || m[2] != cur->serial + 1) {
		if (mkind(m) == PTHREAD_MUTEX_ERRORCHECK) return EPERM;
		if (!childDepth) { violation("lock.notowner", "*", "thread %s unlocks a mutex it does not hold", cur->name.c_str()); }
		m[0] = m[1] = m[2] = 0; for (auto & f : fibers) for (size_t i = f.held.size(); i--;) if (f.held[i] == m) f.held.erase(f.held.begin() + i);
		wakeOne(B_MUTEX, m);
		return 0;
	}
	if (mkind(m) == PTHREAD_MUTEX_RECURSIVE && m[1] > 1) { --m[1]; return 0; }
	mrelease(m);
	return 0;
}
int sim_pthread_mutex_init(pthread_mutex_t * m, const pthread_mutexattr_t * a) { yieldPoint("mutex_init"); sim_memset(m, 0, sizeof *m); if (a) ((uint32_t *)m)[4] = *(const uint32_t *)a & 3; return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t * mx) { yieldPoint("mutex_destroy"); uint32_t * m = (uint32_t *)mx; return m[0] ? EBUSY : 0; }
int sim_pthread_mutexattr_init(pthread_mutexattr_t * a) { memset(a, 0, sizeof *a); return 0; }
int sim_pthread_mutexattr_settype(pthread_mutexattr_t * a, int k) { *(uint32_t *)a = k; return 0; }
int sim_pthread_mutexattr_destroy(pthread_mutexattr_t *) { return 0; }
// condition variable: word [10] holds the clock
static int cwait(pthread_cond_t * c, pthread_mutex_t * mx, ns dl, ns dlRt, bool timed)
{
	uint32_t * m = (uint32_t *)mx; checkRange(c, sizeof *c, true, "cond");
	if (!m[0] || m[2] != cur->serial + 1) violation("lock.condnotheld", "*", "thread %s waits on a condition without holding the lock", cur->name.c_str());
	ns t = dlRt != NEVER ? dlRt - wallOffset : dl;
	if (timed && t <= now) { // already expired: still releases and retakes the lock
		mrelease(m); yieldPoint("cond"); while (m[0]) block(B_MUTEX, m, NEVER, NEVER, false); mtake(m); return ETIMEDOUT;
	}
	mrelease(m);
	if (rate(K_SPURIOUS) && fault(K_SPURIOUS, "spurious-wakeup")) {
		Fiber * f = cur; uint64_t g = f->blockGen + 1; uint32_t s = f->serial;
		after((ns)logrange(K_SPURIOUS, 1000, 2 * SEC), [f, g, s] { if (f->serial == s && f->state == F_BLOCKED && f->blockGen == g) wake(f, WAKE_SPURIOUS); });
	}
	int w = block(B_COND, c, dl, dlRt, true);
	while (m[0]) block(B_MUTEX, m, NEVER, NEVER, false);
	mtake(m);
	if (w == WAKE_CANCEL) testCancel();
	return w == WAKE_TIMEOUT ? ETIMEDOUT : 0;
}
int sim_pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) { CP("cond_wait"); return cwait(c, m, NEVER, NEVER, false); }
int sim_pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * ts)
{
	CP("cond_timedwait");
	if (ts->tv_nsec < 0 || ts->tv_nsec >= SEC) return EINVAL;
	ns t = ts->tv_sec * SEC + ts->tv_nsec;
	return ((uint32_t *)c)[10] == 1 ? cwait(c, m, t, NEVER, true) : cwait(c, m, NEVER, t, true);
}
int sim_pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const struct timespec * ts) { CP("cond_clockwait"); ns t = ts->tv_sec * SEC + ts->tv_nsec; return k == CLOCK_MONOTONIC ? cwait(c, m, t, NEVER, true) : cwait(c, m, NEVER, t, true); }
int sim_pthread_cond_signal(pthread_cond_t * c) { yieldPoint("cond_signal"); checkRange(c, sizeof *c, true, "cond"); wakeOne(B_COND, c); return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t * c) { yieldPoint("cond_broadcast"); checkRange(c, sizeof *c, true, "cond"); wakeAll(B_COND, c); return 0; }
int sim_pthread_cond_init(pthread_cond_t * c, const pthread_condattr_t * a) { sim_memset(c, 0, sizeof *c); if (a) ((uint32_t *)c)[10] = *(const uint32_t *)a; return 0; }
int sim_pthread_cond_destroy(pthread_cond_t *) { return 0; }
int sim_pthread_condattr_init(pthread_condattr_t * a) { *(uint32_t *)a = 0; return 0; }
int sim_pthread_condattr_setclock(pthread_condattr_t * a, clockid_t c) { *(uint32_t *)a = c == CLOCK_MONOTONIC; return 0; }
int sim_pthread_condattr_destroy(pthread_condattr_t *) { return 0; }
int sim_pthread_attr_init(pthread_attr_t * a) { memset(a, 0, sizeof *a); return 0; }
int sim_pthread_attr_destroy(pthread_attr_t *) { return 0; }
int sim_pthread_attr_setdetachstate(pthread_attr_t *, int) { return 0; }
int sim_pthread_attr_setstacksize(pthread_attr_t *, size_t) { return 0; }
int sim_pthread_once(pthread_once_t * o, void (*f)()) { yieldPoint("once"); if (*o == 0) { *o = 1; f(); *o = 2; wakeAll(B_OTHER, o); } while (*o == 1) block(B_OTHER, o, NEVER, NEVER, false); return 0; }
int sim_pthread_atfork(void (*a)(), void (*b)(), void (*c)()) { yieldPoint("atfork"); atforks.push_back({a, b, c}); return 0; }
int sim___register_atfork(void (*a)(), void (*b)(), void (*c)(), void *) { return sim_pthread_atfork(a, b, c); }
int sim_sched_yield() { yieldPoint("sched_yield"); return 0; }

// ---- signals -----------------------------------------------------------------------------------------------------
int sim_sigemptyset(sigset_t * s) { memset(s, 0, sizeof *s); return 0; }
int sim_sigfillset(sigset_t * s) { memset(s, 0xff, sizeof *s); return 0; }
int sim_sigaddset(sigset_t * s, int n) { *(uint64_t *)s |= 1ULL << n; return 0; }
int sim_sigdelset(sigset_t * s, int n) { *(uint64_t *)s &= ~(1ULL << n); return 0; }
int sim_sigismember(const sigset_t * s, int n) { return *(const uint64_t *)s >> n & 1; }
int sim_pthread_sigmask(int how, const sigset_t * s, sigset_t * o)
{
	yieldPoint("sigmask");
	if (o) { memset(o, 0, sizeof *o); *(uint64_t *)o = cur->sigmask; }
	if (s) { uint64_t v = *(const uint64_t *)s; cur->sigmask = how == SIG_BLOCK ? cur->sigmask | v : how == SIG_UNBLOCK ? cur->sigmask & ~v : v; }
	uint64_t p = pendingSigs & ~cur->sigmask;
	if (p) processEnd(END_KILLED, __builtin_ctzll(p));
	return 0;
}
int sim_sigprocmask(int how, const sigset_t * s, sigset_t * o) { return sim_pthread_sigmask(how, s, o); }
int sim_sigwait(const sigset_t * s, int * sig)
{
	everWaited = true; CP("sigwait"); uint64_t m = *(const uint64_t *)s;
	while (true) {
		uint64_t p = pendingSigs & m; if (p) { int n = __builtin_ctzll(p); pendingSigs &= ~(1ULL << n); *sig = n; return 0; }
		cur->err = 0; int w = block(B_SIGWAIT, (void *)(uintptr_t)m, NEVER, NEVER, true);
		if (w == WAKE_CANCEL) testCancel();
		if (cur->err) { *sig = cur->err; cur->err = 0; return 0; }
	}
}
int sim_sigwaitinfo(const sigset_t * s, siginfo_t *) { int n = 0; sim_sigwait(s, &n); return n; }
int sim_pause() { CP("pause"); while (true) { if (block(B_SLEEP, nullptr, NEVER, NEVER, true) == WAKE_CANCEL) testCancel(); } }
static bool sigIgn[65];
int sim_sigaction(int s, const struct sigaction * a, struct sigaction *) { yieldPoint("sigaction"); if (a && s == SIGPIPE) sigpipeDefault = a->sa_handler != SIG_IGN; return 0; }
void (*sim_signal(int s, void (*h)(int)))(int) { yieldPoint("signal"); if (s == SIGPIPE) sigpipeDefault = h != SIG_IGN; return SIG_DFL; }
int sim_raise(int s) { yieldPoint("raise"); processEnd(s == SIGABRT ? END_ABORT : END_KILLED, s); }
int sim_kill(pid_t, int s) { yieldPoint("kill"); tr("kill(%d)", s); return 0; }

// ---- sockets -----------------------------------------------------------------------------------------------------
int sim_socket(int fam, int type, int)
{
	yieldPoint("socket"); childNet("socket");
	if (fault(K_SOCKFAIL, "socket-failure") && ++sockFails) { if (cur) sockFailLog.push_back({++seqno, cur->serial}); return fail((int[]){EMFILE, ENOBUFS, ENFILE}[choose(K_SOCKFAIL, 3)]); }
	if (fam != AF_INET && fam != AF_INET6) return fail(EAFNOSUPPORT);
	auto s = std::make_shared<SockFile>(); s->family = fam;
	return newFd(s, type & SOCK_CLOEXEC);
}
static std::string ipOf(const struct sockaddr * a, int * port)
{
	char b[INET6_ADDRSTRLEN] = "?";
	if (a->sa_family == AF_INET) { inet_ntop(AF_INET, &((sockaddr_in *)a)->sin_addr, b, sizeof b); *port = ntohs(((sockaddr_in *)a)->sin_port); }
	else if (a->sa_family == AF_INET6) { inet_ntop(AF_INET6, &((sockaddr_in6 *)a)->sin6_addr, b, sizeof b); *port = ntohs(((sockaddr_in6 *)a)->sin6_port); }
	return b;
}
int sim_connect(int fd, const struct sockaddr * a, socklen_t l)
{
	CP("connect"); childNet("connect");
	SockFile * s = needSock(fd, "connect"); if (!s) return -1;
	checkRange(a, l, false, "connect");
	if (a->sa_family != s->family) { probe("connect with another address family"); return fail(EAFNOSUPPORT); }
	if (l < (a->sa_family == AF_INET ? sizeof(sockaddr_in) : (socklen_t)24)) { probe("connect with a short address"); return fail(EINVAL); }
	int port = 0; std::string ip = ipOf(a, &port); Endpoint * e = nullptr;
	for (auto & x : endpoints) if (x->ip == ip && (x->port == port || x->port == 0)) e = x.get();
	size_t li = connectLog.size(); connectLog.push_back({now, ++seqno, ip, a->sa_family, port, -1, cur->serial, -1, -1, false});
	tr("connect to %s:%d", ip.c_str(), port); th(0xc0, port);
	if (s->c) return fail(s->c->open ? EISCONN : EALREADY);
	if (e) ++e->attempts;
	ns start = now; int res = 0; int shift = 0;
	++s->refs;
	#define WAITC(d) do { if (block(B_CONNECT, s, now + (d), NEVER, true) == WAKE_CANCEL) { connectLog[li].cancelled = true; connectLog[li].end = now; probe("cancelled while connecting"); unref(s); testCancel(); ++s->refs; } } while (0)
	if (fault(K_CONNECT, "connect-failure")) {
		int k = choose(K_CONNECT, 4);
		if (k == 0) { WAITC(5 * MS); res = ECONNREFUSED; }
		else if (k == 1) { res = ENETUNREACH; }
		else if (k == 2) { WAITC(connectTimeout); res = ETIMEDOUT; }
		else { WAITC(3 * SEC); res = EHOSTUNREACH; }
	}
	else if (!e) { WAITC(2 * MS); res = ECONNREFUSED; }
	else while (true) {
		if (e->mode == EP_NETUNREACH) { res = ENETUNREACH; break; }
		if (e->mode == EP_HOSTUNREACH) { WAITC(3 * SEC); if (e->mode == EP_HOSTUNREACH) { res = EHOSTUNREACH; break; } continue; }
		if (!e->partitioned && e->mode != EP_DROP) {
			ns d = lat(e); WAITC(2 * d);
			if (e->mode == EP_REFUSE) { res = ECONNREFUSED; break; }
			if (e->mode == EP_UP && !e->partitioned) break;
			continue;
		}
		ns nx = std::min((ns)1 << shift, (ns)2) * SEC; if (shift < 10) ++shift;  // SYN retransmission
		if (now + nx - start > connectTimeout) { WAITC(std::max((ns)0, start + connectTimeout - now)); res = ETIMEDOUT; break; }
		WAITC(nx);
	}
	unref(s);
	connectLog[li].result = res; connectLog[li].end = now;
	th(0xc0e, res, now);
	if (res) { tr("connect to %s:%d failed: %s", ip.c_str(), port, strerror(res)); return fail(res); }
	auto c = std::make_shared<Conn>(); c->id = (int)conns.size(); c->ep = e; c->port = port; c->connectStart = start; c->established = now; c->estSeq = ++seqno; c->open = true; c->proc = procNo; c->sndbuf = e->sndbuf; c->rcvwnd = e->rcvwnd;
	conns.push_back(c); e->conns.push_back(c.get()); s->c = c; s->path = ip + ":" + std::to_string(port) + " #" + std::to_string(c->id); connectLog[li].conn = c->id;
	tr("conn %d established with %s:%d", c->id, ip.c_str(), port);
	after(lat(e), [c] { if (c->accepted) return; c->accepted = true; if (!c->remoteDead) c->ep->peer->onAccept(c.get()); pump(c.get()); });
	ev(c.get(), "established");
	return 0;
}
ssize_t sim_recv(int fd, void * b, size_t n, int fl) { CP("recv"); childNet("recv"); SockFile * s = needSock(fd, "recv"); return s ? s->recvFn(b, n, fl, "recv") : -1; }
ssize_t sim_send(int fd, const void * b, size_t n, int fl) { CP("send"); childNet("send"); SockFile * s = needSock(fd, "send"); return s ? s->sendFn(b, n, fl, "send") : -1; }
ssize_t sim_recvfrom(int fd, void * b, size_t n, int fl, struct sockaddr *, socklen_t *) { return sim_recv(fd, b, n, fl); }
ssize_t sim_sendto(int fd, const void * b, size_t n, int fl, const struct sockaddr *, socklen_t) { return sim_send(fd, b, n, fl); }
static std::string gather(const struct iovec * v, int n) { std::string s; for (int i = 0; i < n; ++i) { checkRange(v[i].iov_base, v[i].iov_len, false, "iov"); s.append((char *)v[i].iov_base, v[i].iov_len); } return s; }
ssize_t sim_sendmsg(int fd, const struct msghdr * m, int fl)
{
	CP("sendmsg"); childNet("sendmsg"); SockFile * s = needSock(fd, "sendmsg"); if (!s) return -1;
	std::string d = gather(m->msg_iov, (int)m->msg_iovlen); char * b = (char *)arenaAlloc(d.size()); memcpy(b, d.data(), d.size()); size_t n = d.size(); d = std::string(); return s->sendFn(b, n, fl, "sendmsg");
}
ssize_t sim_writev(int fd, const struct iovec * v, int k) { struct msghdr m; memset(&m, 0, sizeof m); m.msg_iov = (struct iovec *)v; m.msg_iovlen = k; return sim_sendmsg(fd, &m, 0); }
int sim_shutdown(int fd, int how)
{
	yieldPoint("shutdown"); SockFile * s = needSock(fd, "shutdown"); if (!s) return -1;
	if (!s->c || !s->c->open) return fail(ENOTCONN);
	Conn * c = s->c.get(); tr("shutdown conn %d", c->id); th(0x5d, c->id);
	if (childDepth) childNet("shutdown");
	if (how != SHUT_WR) { c->shutRd = true; wakeAll(B_RECV, c); }
	if (how != SHUT_RD) { c->shutWr = true; c->upFin = true; wakeAll(B_SEND, c); pump(c); }
	ev(c, "shutdown");
	if (c->dead) return fail(ENOTCONN);
	return 0;
}
int sim_setsockopt(int fd, int, int, const void *, socklen_t) { yieldPoint("setsockopt"); return needSock(fd, "setsockopt") ? 0 : -1; }
int sim_getsockopt(int fd, int, int o, void * v, socklen_t *) { yieldPoint("getsockopt"); SockFile * s = needSock(fd, "getsockopt"); if (!s) return -1; if (o == SO_ERROR) *(int *)v = s->c ? s->c->err : 0; else *(int *)v = 0; return 0; }
int sim_fcntl(int fd, int cmd, ...) { yieldPoint("fcntl"); va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); if (!need(fd, "fcntl")) return -1; if (cmd == F_SETFD) { fds[fd].cloexec = a & FD_CLOEXEC; return 0; } if (cmd == F_GETFD) return fds[fd].cloexec; return 0; }
static void addrFill(struct addrinfo * ai, int fam, const std::string & ip)
{
	memset(ai, 0, sizeof *ai); ai->ai_family = fam; ai->ai_socktype = SOCK_STREAM; ai->ai_protocol = IPPROTO_TCP;
	sockaddr_in6 sa; memset(&sa, 0, sizeof sa); socklen_t l;
	if (fam == AF_INET6) { sa.sin6_family = AF_INET6; inet_pton(AF_INET6, ip.c_str(), &sa.sin6_addr); l = sizeof(sockaddr_in6); }
	else { sockaddr_in * s4 = (sockaddr_in *)&sa; s4->sin_family = fam; inet_pton(AF_INET, ip.c_str(), &s4->sin_addr); l = sizeof(sockaddr_in); }
	ai->ai_addrlen = l; ai->ai_addr = (sockaddr *)arenaAlloc(l); memcpy(ai->ai_addr, &sa, l);
}
int sim_getaddrinfo(const char * host, const char *, const struct addrinfo * h, struct addrinfo ** out)
{
	yieldPoint("getaddrinfo"); childNet("getaddrinfo");
	bool canc = cur->cancelEnabled;
	if (canc && cur->cancelPending && coin(K_MAYCANCEL, 1, 2)) testCancel();
	slen(host, "getaddrinfo");
	LookupRec r{now, ++seqno, host, 0, cur->serial, 0, {}, -1};
	size_t li = lookupLog.size(); lookupLog.push_back(r); r = LookupRec();
	int rc = 0; ns l = 2 * MS; bool hang = false;
	in_addr v4; in6_addr v6; bool num4 = inet_pton(AF_INET, host, &v4) == 1, num6 = inet_pton(AF_INET6, host, &v6) == 1;
	auto it = dns.find(host); DnsRec * d = it == dns.end() ? nullptr : &it->second;
	if (d) { ++d->lookups; l = d->lat; hang = d->hang; }
	if (!num4 && !num6) {
		if (fault(K_DNS, "dns-failure")) { rc = (int[]){EAI_AGAIN, EAI_NONAME, EAI_FAIL, EAI_SYSTEM, EAI_MEMORY}[choose(K_DNS, 5)]; if (rc == EAI_AGAIN) l = range(K_DNS, 1, 10) * SEC; }
		else if (hang) { l = 10 * SEC; rc = EAI_AGAIN; }
		// glibc really polls here, which is a cancellation point; it may also complete first
		if (block(B_DNS, nullptr, now + l, NEVER, true) == WAKE_CANCEL) { lookupLog[li].end = now; probe("cancelled in name lookup"); testCancel(); }
		if (d && !rc && d->fail) rc = d->fail;
		if (!d && !rc) rc = EAI_NONAME;
	}
	lookupLog[li].rc = rc; lookupLog[li].end = now;
	if (rc) { if (rc == EAI_SYSTEM) cur->err = EIO; return rc; }
	struct addrinfo * first = nullptr, ** nx = &first;
	int fam = h ? h->ai_family : AF_UNSPEC;
	auto add = [&](int f, const std::string & ip) { if (fam != AF_UNSPEC && f != fam) { lookupLog[li].ignored += ip.find("unsupported") == std::string::npos; return; } *nx = (struct addrinfo *)arenaAlloc(sizeof **nx); addrFill(*nx, f, ip); nx = &(*nx)->ai_next; ++lookupLog[li].n; lookupLog[li].addrs.push_back(ip); };
	if (num4) add(AF_INET, host); else if (num6) add(AF_INET6, host);
	else for (auto & a : d->addrs) add(a.first, a.second);
	if (!first) { lookupLog[li].rc = EAI_NONAME; return EAI_NONAME; }
	*out = first; return 0;
}
void sim_freeaddrinfo(struct addrinfo * a) { yieldPoint("freeaddrinfo"); while (a) { checkRange(a, sizeof *a, false, "freeaddrinfo"); struct addrinfo * n = a->ai_next; arenaFree(a->ai_addr); arenaFree(a); a = n; } }
int sim_poll(struct pollfd * p, nfds_t n, int to)
{
	CP("poll"); ns dl = to < 0 ? NEVER : now + to * MS;
	while (true) {
		int k = 0;
		for (nfds_t i = 0; i < n; ++i) { p[i].revents = 0; if (p[i].fd < 0) continue; OFile * f = fdGet(p[i].fd); if (!f) { p[i].revents = POLLNVAL; ++k; badFd(p[i].fd, "poll"); continue; } int e = f->pollEvents(); p[i].revents = e & (p[i].events | POLLERR | POLLHUP); if (p[i].revents) ++k; }
		if (k) return k;
		if (now >= dl) return 0;
		ns step = std::min(dl, now + 20 * MS);
		int w = block(B_POLL, nullptr, step, NEVER, true); if (w == WAKE_CANCEL) testCancel();
	}
}
int sim_select(int nf, fd_set * r, fd_set * w, fd_set *, struct timeval * tv)
{
	CP("select"); ns dl = tv ? now + tv->tv_sec * SEC + tv->tv_usec * US : NEVER;
	while (true) {
		int k = 0; fd_set ro, wo; FD_ZERO(&ro); FD_ZERO(&wo);
		for (int i = 0; i < nf; ++i) { OFile * f = fdGet(i); bool a = r && FD_ISSET(i, r), b = w && FD_ISSET(i, w); if (!a && !b) continue; if (!f) { badFd(i, "select"); return fail(EBADF); } int e = f->pollEvents(); if (a && (e & (POLLIN | POLLHUP))) { FD_SET(i, &ro); ++k; } if (b && (e & (POLLOUT | POLLERR))) { FD_SET(i, &wo); ++k; } }
		if (k || now >= dl) { if (r) *r = ro; if (w) *w = wo; return k; }
		if (block(B_POLL, nullptr, std::min(dl, now + 20 * MS), NEVER, true) == WAKE_CANCEL) testCancel();
	}
}

// ---- files -------------------------------------------------------------------------------------------------------
int sim_open(const char * p, int fl, ...)
{
	CP("open"); slen(p, "open"); OFileP f; int e = openCommon(norm(p), fl, &f); if (e) return fail(e);
	return newFd(f, fl & O_CLOEXEC);
}
int sim_open64(const char * p, int fl, ...) { return sim_open(p, fl); }
int sim_openat(int, const char * p, int fl, ...)
{
	CP("openat"); OFileP f; int e = openCommon(norm(p), fl, &f); if (e) return fail(e);
	return newFd(f, fl & O_CLOEXEC);
}
int sim_creat(const char * p, mode_t) { return sim_open(p, O_CREAT | O_WRONLY | O_TRUNC); }
int sim_close(int fd)
{
	CP("close");
	auto i = fds.find(fd);
	if (i == fds.end()) { if (fd >= 0 && fd <= 2) { stdinClosed |= fd == 0; return 0; } if (fd >= 0 && !childDepth) violation("fd.doubleclose", "C21,C26", "descriptor %d is closed but is not open (thread %s)", fd, cur->name.c_str()); return fail(EBADF); }
	OFileP o = i->second.f; fds.erase(i); th(0xfdc, fd);
	OFile * p = o.get(); o.reset(); unref(p);
	return 0;
}
ssize_t sim_read(int fd, void * b, size_t n) { CP("read"); OFile * f = need(fd, "read"); if (!f) return -1; if (dynamic_cast<SockFile *>(f)) childNet("read"); return f->read(b, n); }
ssize_t sim_write(int fd, const void * b, size_t n) { CP("write"); if (fd == 1 || fd == 2) { lineEnd((const char *)b, n); return n; } OFile * f = need(fd, "write"); if (!f) return -1; if (dynamic_cast<SockFile *>(f)) childNet("write"); return f->write(b, n); }
ssize_t sim_pwrite(int fd, const void * b, size_t n, off_t o) { CP("pwrite"); OFile * f = need(fd, "pwrite"); if (!f) return -1; if (auto p = dynamic_cast<PlainFile *>(f)) { size_t s = p->off; p->off = o; ssize_t r = p->write(b, n); p->off = s; return r; } return fail(ESPIPE); }
ssize_t sim_pread(int fd, void * b, size_t n, off_t o) { CP("pread"); OFile * f = need(fd, "pread"); if (!f) return -1; if (auto p = dynamic_cast<PlainFile *>(f)) { size_t s = p->off; p->off = o; ssize_t r = p->read(b, n); p->off = s; return r; } return fail(ESPIPE); }
off_t sim_lseek(int fd, off_t o, int wh) { yieldPoint("lseek"); OFile * f = need(fd, "lseek"); if (!f) return -1; auto p = dynamic_cast<PlainFile *>(f); if (!p) return fail(ESPIPE); p->off = wh == SEEK_SET ? o : wh == SEEK_CUR ? p->off + o : p->ino->data.size() + o; return p->off; }
int sim_fsync(int fd) { CP("fsync"); OFile * f = need(fd, "fsync"); if (!f) return -1; if (onFsOp) onFsOp("fsync", f->path); int e = fsFaultFilter ? fsFaultFilter("fsync", f->path) : 0; if (e) { countFault("fsync-error"); return fail(e); } return 0; }
int sim_fdatasync(int fd) { return sim_fsync(fd); }
void sim_sync() { yieldPoint("sync"); }
int sim_ftruncate(int fd, off_t n) { yieldPoint("ftruncate"); OFile * f = need(fd, "ftruncate"); if (!f) return -1; auto p = dynamic_cast<PlainFile *>(f); if (!p) return fail(EINVAL); if (onFsOp) onFsOp("truncate", f->path); p->ino->data.resize(n); return 0; }
static int fillStat(InodeP n, struct stat * st) { checkRange(st, sizeof *st, true, "stat"); memset(st, 0, sizeof *st); st->st_mode = (n->dir ? S_IFDIR : S_IFREG) | n->mode; st->st_size = n->data.size(); return 0; }
int sim_fstat(int fd, struct stat * st)
{
	yieldPoint("fstat"); OFile * f = need(fd, "fstat"); if (!f) return -1;
	int e = fsFaultFilter ? fsFaultFilter("stat", f->path) : 0; if (e) { countFault("stat-error"); return fail(e); }
	if (auto p = dynamic_cast<PlainFile *>(f)) return fillStat(p->ino, st);
	memset(st, 0, sizeof *st); st->st_mode = S_IFCHR; return 0;
}
int sim_stat(const char * p, struct stat * st) { yieldPoint("stat"); std::string s = norm(p); int e = fsFaultFilter ? fsFaultFilter("stat", s) : 0; if (e) { countFault("stat-error"); return fail(e); } InodeP n = lookup(s); return n ? fillStat(n, st) : fail(ENOENT); }
int sim_lstat(const char * p, struct stat * st) { return sim_stat(p, st); }
int sim_access(const char * p, int) { yieldPoint("access"); return lookup(norm(p)) ? 0 : fail(ENOENT); }
int sim_mkdir(const char * p, mode_t) { yieldPoint("mkdir"); std::string s = norm(p); if (onFsOp) onFsOp("mkdir", s); int e = fsFaultFilter ? fsFaultFilter("mkdir", s) : 0; if (e) { countFault("mkdir-error"); return fail(e); } if (lookup(s)) return fail(EEXIST); InodeP d = lookup(parent(s)); if (!d && parent(s) != "/") return fail(ENOENT); auto n = std::make_shared<Inode>(); n->dir = true; n->dtype = DT_DIR; n->mode = 0755; fs[s] = n; return 0; }
int sim_unlink(const char * p) { yieldPoint("unlink"); std::string s = norm(p); if (onFsOp) onFsOp("unlink", s); int e = fsFaultFilter ? fsFaultFilter("unlink", s) : 0; if (e) return fail(e); if (!fs.erase(s)) return fail(ENOENT); return 0; }
int sim_remove(const char * p) { return sim_unlink(p); }
int sim_rename(const char * a, const char * b)
{
	yieldPoint("rename"); std::string x = norm(a), y = norm(b); if (onFsOp) onFsOp("rename", y);
	int e = fsFaultFilter ? fsFaultFilter("rename", y) : 0; if (e) { countFault("rename-error"); return fail(e); }
	InodeP n = lookup(x); if (!n) return fail(ENOENT);
	fs.erase(x); fs[y] = n; th(0x4e4a); return 0;
}
int sim_mkstemp(char * t) { yieldPoint("mkstemp"); size_t n = strlen(t); if (n < 6) return fail(EINVAL); memcpy(t + n - 6, "a1b2c3", 6); return sim_open(t, O_RDWR | O_CREAT | O_EXCL); }
int sim_mkostemp(char * t, int) { return sim_mkstemp(t); }
mode_t sim_umask(mode_t m) { mode_t o = umaskv; umaskv = m & 0777; return o; }
int sim_fchmod(int fd, mode_t) { return need(fd, "fchmod") ? 0 : -1; }
int sim_chdir(const char * p) { yieldPoint("chdir"); cwd = norm(p); return 0; }
struct dirent * sim_readdir(DIR *);
int sim_scandir(const char * p, struct dirent *** out, int (*filt)(const struct dirent *), int (*cmp)(const struct dirent **, const struct dirent **))
{
	CP("scandir"); std::string * d = new std::string(norm(p));
	int e = fsFaultFilter ? fsFaultFilter("opendir", *d) : 0; InodeP n = lookup(*d);
	if (!e) e = !n ? ENOENT : !n->dir ? ENOTDIR : n->unreadable ? EACCES : 0;
	if (e) { if (fsFaultFilter && n) countFault("opendir-error"); delete d; return fail(e); }
	std::vector<std::pair<std::string, int>> * names = new std::vector<std::pair<std::string, int>>;
	for (auto & f : fs) if (parent(f.first) == *d && f.first != *d) names->push_back({ f.first.substr(f.first.rfind('/') + 1), f.second->dtype });
	names->push_back({".", DT_DIR}); names->push_back({"..", DT_DIR});
	for (size_t i = names->size(); i > 1; --i) std::swap((*names)[i - 1], (*names)[choose(K_DIRORDER, (uint32_t)i)]);
	struct dirent ** v = (struct dirent **)arenaAlloc(sizeof *v * (names->size() + 1)); int k = 0;
	for (auto & x : *names) {
		struct dirent * de = (struct dirent *)arenaAlloc(sizeof *de); memset(de, 0, sizeof *de); de->d_type = x.second; snprintf(de->d_name, sizeof de->d_name, "%s", x.first.c_str()); de->d_reclen = sizeof *de;
		if (filt && !filt(de)) { arenaFree(de); continue; }
		v[k++] = de;
	}
	delete names; delete d;
	if (cmp) for (int i = 1; i < k; ++i) for (int j = i; j > 0; --j) { const struct dirent * a = v[j - 1], * b = v[j]; if (cmp(&a, &b) > 0) std::swap(v[j - 1], v[j]); else break; }
	*out = v; return k;
}
int sim_alphasort(const struct dirent ** a, const struct dirent ** b) { return strcmp((*a)->d_name, (*b)->d_name); }
struct SDir { std::vector<std::pair<std::string, int>> names; size_t i = 0; struct dirent de; };
DIR * sim_opendir(const char * p)
{
	yieldPoint("opendir"); std::string d = norm(p); InodeP n = lookup(d); int e = fsFaultFilter ? fsFaultFilter("opendir", d) : 0; if (!e) e = !n ? ENOENT : !n->dir ? ENOTDIR : n->unreadable ? EACCES : 0; if (e) { fail(e); return nullptr; }
	SDir * s = new SDir; for (auto & f : fs) if (parent(f.first) == d && f.first != d) s->names.push_back({ f.first.substr(f.first.rfind('/') + 1), f.second->dtype });
	for (size_t i = s->names.size(); i > 1; --i) std::swap(s->names[i - 1], s->names[choose(K_DIRORDER, (uint32_t)i)]);
	return (DIR *)s;
}
struct dirent * sim_readdir(DIR * dp) { yieldPoint("readdir"); SDir * s = (SDir *)dp; if (s->i >= s->names.size()) return nullptr; memset(&s->de, 0, sizeof s->de); s->de.d_type = s->names[s->i].second; snprintf(s->de.d_name, sizeof s->de.d_name, "%s", s->names[s->i].first.c_str()); ++s->i; return &s->de; }
int sim_closedir(DIR * dp) { yieldPoint("closedir"); delete (SDir *)dp; return 0; }
struct MapDev { void * base; size_t len; };
void * sim_mmap(void *, size_t len, int, int, int fd, off_t off)
{
	yieldPoint("mmap");
	OFile * f = fd >= 0 ? need(fd, "mmap") : nullptr; if (fd >= 0 && !f) return MAP_FAILED;
	if (!len) { fail(EINVAL); return MAP_FAILED; }
	int e = f && fsFaultFilter ? fsFaultFilter("mmap", f->path) : 0; if (e) { countFault("mmap-error"); fail(e); return MAP_FAILED; }
	if (f && mmapDevice) { void * p = mmapDevice(f, len, off); if (p) return p; }
	auto pf = dynamic_cast<PlainFile *>(f); if (!pf) { fail(ENODEV); return MAP_FAILED; }
	if (pf->ino->dir) { fail(ENODEV); return MAP_FAILED; }
	size_t r = (len + 4095) & ~4095UL; char * p = (char *)arenaAlloc(r, 4096, true); memset(p, 0, r);
	size_t av = (size_t)off < pf->ino->data.size() ? pf->ino->data.size() - off : 0; memcpy(p, pf->ino->data.data() + (av ? off : 0), std::min(av, len));
	return p;
}
void * sim_mmap64(void * a, size_t len, int p, int f, int fd, off_t off) { return sim_mmap(a, len, p, f, fd, off); }
int sim_munmap(void * p, size_t n) { yieldPoint("munmap"); if (p == MAP_FAILED || ((uintptr_t)p & 4095)) return fail(EINVAL); if (munmapDevice && munmapDevice(p, n)) return 0; if (inArena((uintptr_t)p)) arenaFree(p, true); return 0; }
int sim_ioctl(int fd, unsigned long rq, ...)
{
	yieldPoint("ioctl"); va_list ap; va_start(ap, rq); void * a = va_arg(ap, void *); va_end(ap);
	OFile * f = need(fd, "ioctl"); if (!f) return -1;
	if (rq == SIOCGIFHWADDR) {
		if (macMode && macMode != 3) { countFault("mac-ioctl-failure"); return fail(ENODEV); }
		struct ifreq * r = (struct ifreq *)a; checkRange(r, sizeof *r, true, "ioctl"); unsigned m[6]; sscanf(macAddr.c_str(), "%x:%x:%x:%x:%x:%x", m, m + 1, m + 2, m + 3, m + 4, m + 5);
		r->ifr_hwaddr.sa_family = 1; // ARPHRD_ETHER
		for (int i = 0; i < 6; ++i) r->ifr_hwaddr.sa_data[i] = (char)m[i];
		if (macMode == 3) { countFault("mac-not-ethernet"); r->ifr_hwaddr.sa_family = 512; for (int i = 0; i < 6; ++i) r->ifr_hwaddr.sa_data[i] ^= 0x55; } // e.g. a point-to-point interface
		return 0;
	}
	return f->ioctl(rq, a);
}
int sim_tcgetattr(int fd, struct termios * t) { yieldPoint("tcgetattr"); OFile * f = need(fd, "tcgetattr"); if (!f) return -1; return f->ioctl(TCGETS, t); }
int sim_tcsetattr(int fd, int, const struct termios * t) { yieldPoint("tcsetattr"); OFile * f = need(fd, "tcsetattr"); if (!f) return -1; return f->ioctl(TCSETS, (void *)t); }
int sim_tcflush(int fd, int q) { yieldPoint("tcflush"); OFile * f = need(fd, "tcflush"); if (!f) return -1; return f->ioctl(TCFLSH, (void *)(long)q); }
int sim_tcdrain(int fd) { CP("tcdrain"); OFile * f = need(fd, "tcdrain"); if (!f) return -1; return f->ioctl(TCSBRK, (void *)1); }
int sim_cfsetispeed(struct termios * t, speed_t s) { t->c_ispeed = s; return 0; }
int sim_cfsetospeed(struct termios * t, speed_t s) { t->c_ospeed = s; return 0; }
int sim_isatty(int) { return 0; }

// ---- process -----------------------------------------------------------------------------------------------------
int sim_fork()
{
	yieldPoint("fork"); ++forks;
	if (fault(K_FORKFAIL, "fork-failure")) { ++forkFails; forkFailSeq.push_back(++seqno); return fail(choose(K_FORKFAIL, 2) ? ENOMEM : EAGAIN); }
	for (size_t i = atforks.size(); i--;) if (atforks[i].a) atforks[i].a();
	int pid = ++nextPid;
	bool first = childDepth == 0; (void)first;
	int r = forkCurrent(pid);
	if (r == 0) {
		curPid = pid; zombies.clear(); // the child is the only thread
		for (size_t i = 0; i < atforks.size(); ++i) if (atforks[i].c) atforks[i].c();
		return 0;
	}
	zombies[pid] = lastChildStatus;
	for (size_t i = 0; i < atforks.size(); ++i) if (atforks[i].b) atforks[i].b();
	return r;
}
int sim_vfork() { return sim_fork(); }
int sim_waitpid(int pid, int * st, int fl)
{
	CP("waitpid");
	auto i = pid > 0 ? zombies.find(pid) : zombies.begin();
	if (i == zombies.end()) return fail(ECHILD);
	int p = i->first;
	if (execed.count(p) || choose(K_LATENCY, 4)) { // the child needs some time until it ends
		if (fl & WNOHANG) return 0;
		if (!childDepth && block(B_SLEEP, nullptr, now + (execed.count(p) ? 60 * SEC : choose(K_LATENCY, 20) * MS), NEVER, true) == WAKE_CANCEL) testCancel();
		i = zombies.find(p); if (i == zombies.end()) return fail(ECHILD);
	}
	if (st) *st = i->second < 256 ? i->second << 8 : i->second - 256; // 256 and above: killed by a signal
	zombies.erase(i); execed.erase(p); return p;
}
int sim_wait(int * st) { return sim_waitpid(-1, st, 0); }
int sim_daemon(int nochdir, int)
{
	yieldPoint("daemon");
	if (fault(K_FORKFAIL, "daemon-failure")) { forkFailSeq.push_back(++seqno); return fail(EAGAIN); }
	session = true; if (!nochdir) cwd = "/";
	if (!childDepth) { violation("fork.daemonself", "C27", "the daemon itself detaches instead of a spawned child"); }
	return 0;
}
int sim_setsid() { yieldPoint("setsid"); session = true; return curPid; }
int sim_getpid() { return curPid; }
int sim_getppid() { return 1; }
static int doExec(const char * path, char * const argv[], char * const envp[])
{
	slen(path, "execve");
	ExecRec * r = new ExecRec; r->t = now; r->seq = ++seqno; r->path = path; r->depth = childDepth; r->session = session; r->cwd = cwd; r->umask = umaskv; r->fiber = cur->serial; r->pid = curPid; r->parentPid = 0; r->env = 0;
	for (int i = 0; argv && argv[i]; ++i) { slen(argv[i], "execve"); r->argv.push_back(argv[i]); }
	for (int i = 0; envp && envp[i]; ++i) ++r->env;
	auto z = fds.find(0); r->stdinNull = z != fds.end() && z->second.f->kind == "null";
	for (auto & f : fds) if (f.first > 2 && !f.second.cloexec) r->leakedFds.push_back(std::to_string(f.first) + ":" + f.second.f->kind + " " + f.second.f->path);
	tr("EXEC %s depth %d", path, childDepth); th(0xe4ec, childDepth, r->argv.size());
	int rc = execOutcome ? execOutcome(*r) : 0;
	r->outcome = rc; execs.push_back(*r); delete r;
	if (rc < 0) { countFault("exec-failure"); return fail(-rc); }
	execed.insert(curPid);
	if (childDepth) childExit(rc);
	processEnd(END_EXEC, 0);
}
int sim_execve(const char * path, char * const argv[], char * const envp[]) { yieldPoint("execve"); return doExec(path, argv, envp); }
int sim_execv(const char * path, char * const argv[]) { yieldPoint("execv"); return doExec(path, argv, nullptr); }
int sim_execvp(const char * path, char * const argv[]) { yieldPoint("execvp"); return doExec(path, argv, nullptr); }
int sim_system(const char * c) { yieldPoint("system"); char * const av[] = { (char *)"/bin/sh", (char *)"-c", (char *)c, nullptr }; ExecRec r; r.t = now; r.path = "system"; for (int i = 0; av[i]; ++i) r.argv.push_back(av[i]); r.depth = 1; execs.push_back(r); return 0; }
void sim__Exit(int c) { if (childDepth) childExit(c & 0xff); processEnd(END_EXIT, c); }
void sim__exit(int c) { sim__Exit(c); }
void sim_exit(int c) { yieldPoint("exit"); if (childDepth) childExit(c & 0xff); exitProcess(c); abort(); }
int sim_atexit(void (*f)()) { atexits.push_back(f); return 0; }
void sim_abort() { if (childDepth) childExit(256 + 6); flushAll(); th(0xab047); processEnd(END_ABORT, 6); }
void sim___assert_fail(const char * e, const char * f, unsigned l, const char * fn)
{
	if (childDepth) childExit(134);
	const char * b = strrchr(f, '/');
	violation("crash.assert", "*", "assertion '%s' failed in %s (%s:%u), thread %s", e, fn, b ? b + 1 : f, l, cur->name.c_str());
	processEnd(END_ABORT, 6);
}
void sim___stack_chk_fail() { if (childDepth) childExit(134); violation("mem.stacksmash", "*", "stack buffer overflow detected, thread %s", cur->name.c_str()); processEnd(END_ABORT, 6); }
int sim_getuid() { return cred.uid; }
int sim_geteuid() { return cred.uid; }
int sim_getgid() { return cred.gid; }
int sim_getegid() { return cred.gid; }
int sim_setuid(uid_t u) { yieldPoint("setuid"); if (cred.uid && u != cred.uid) return fail(EPERM); cred.uid = u; th(0x51d, u); return 0; }
int sim_setgid(gid_t g) { yieldPoint("setgid"); if (cred.uid && g != cred.gid) return fail(EPERM); cred.gid = g; th(0x51e, g); return 0; }
int sim_setgroups(size_t n, const gid_t *) { yieldPoint("setgroups"); if (cred.uid) return fail(EPERM); cred.groups = n; return 0; }
static char * dbStr(char *& b, size_t & n, const char * s) { size_t l = strlen(s) + 1; if (l > n) return nullptr; memcpy(b, s, l); char * r = b; b += l; n -= l; return r; }
// userDb: 0 the name is not known, 1 known, 2 the data base fails
int sim_getpwnam_r(const char * nm, struct passwd * p, char * b, size_t n, struct passwd ** r)
{
	yieldPoint("getpwnam_r"); *r = nullptr; slen(nm, "getpwnam_r"); if (userDb == 2) return EIO; if (!userDb) return 0; checkRange(b, n, true, "getpwnam_r"); memset(p, 0, sizeof *p);
	p->pw_name = dbStr(b, n, nm); if (p->pw_name) p->pw_dir = dbStr(b, n, "/nonexistent"); if (!p->pw_name || !p->pw_dir) return ERANGE; p->pw_uid = 1234; p->pw_gid = 2345; *r = p; return 0;
}
int sim_getgrnam_r(const char * nm, struct group * g, char * b, size_t n, struct group ** r)
{
	yieldPoint("getgrnam_r"); *r = nullptr; slen(nm, "getgrnam_r"); if (userDb == 2) return EIO; if (!userDb || userDb == 3) return 0; checkRange(b, n, true, "getgrnam_r"); memset(g, 0, sizeof *g);
	if (!(g->gr_name = dbStr(b, n, nm))) return ERANGE; g->gr_gid = 3456; *r = g; return 0;
}
char * sim_getenv(const char *) { return nullptr; }
unsigned sim_if_nametoindex(const char *) { return 1; }

// ---- compiler runtimes -----------------------------------------------------------------------------------------------
#define RD(n) void __tsan_read##n(void * a) { hook((uintptr_t)a, n, false); } void __tsan_write##n(void * a) { hook((uintptr_t)a, n, true); } \
 void __tsan_unaligned_read##n(void * a) { hook((uintptr_t)a, n, false); } void __tsan_unaligned_write##n(void * a) { hook((uintptr_t)a, n, true); } \
 void __tsan_volatile_read##n(void * a) { hook((uintptr_t)a, n, false); } void __tsan_volatile_write##n(void * a) { hook((uintptr_t)a, n, true); } \
 void __tsan_unaligned_volatile_read##n(void * a) { hook((uintptr_t)a, n, false); } void __tsan_unaligned_volatile_write##n(void * a) { hook((uintptr_t)a, n, true); } \
 void __tsan_read_write##n(void * a) { hook((uintptr_t)a, n, true); } void __tsan_unaligned_read_write##n(void * a) { hook((uintptr_t)a, n, true); }
RD(1) RD(2) RD(4) RD(8) RD(16)
void __tsan_read_range(void * a, size_t n) { hook((uintptr_t)a, 1, false); checkRange(a, n, false, "range read"); }
void __tsan_write_range(void * a, size_t n) { hook((uintptr_t)a, 1, true); checkRange(a, n, true, "range write"); }
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void ** a, void *) { hook((uintptr_t)a, 8, true); }
void __tsan_vptr_read(void ** a) { hook((uintptr_t)a, 8, false); }
#define AT(n, T) \
 T __tsan_atomic##n##_load(const volatile T * a, int) { hook((uintptr_t)a, n / 8, false); return *a; } \
 void __tsan_atomic##n##_store(volatile T * a, T v, int) { hook((uintptr_t)a, n / 8, true); *a = v; } \
 T __tsan_atomic##n##_exchange(volatile T * a, T v, int) { hook((uintptr_t)a, n / 8, true); T o = *a; *a = v; return o; } \
 T __tsan_atomic##n##_fetch_add(volatile T * a, T v, int) { hook((uintptr_t)a, n / 8, true); T o = *a; *a = o + v; return o; } \
 T __tsan_atomic##n##_fetch_sub(volatile T * a, T v, int) { hook((uintptr_t)a, n / 8, true); T o = *a; *a = o - v; return o; } \
 T __tsan_atomic##n##_fetch_and(volatile T * a, T v, int) { hook((uintptr_t)a, n / 8, true); T o = *a; *a = o & v; return o; } \
 T __tsan_atomic##n##_fetch_or(volatile T * a, T v, int) { hook((uintptr_t)a, n / 8, true); T o = *a; *a = o | v; return o; } \
 T __tsan_atomic##n##_fetch_xor(volatile T * a, T v, int) { hook((uintptr_t)a, n / 8, true); T o = *a; *a = o ^ v; return o; } \
 bool __tsan_atomic##n##_compare_exchange_strong(volatile T * a, T * e, T v, int, int) { hook((uintptr_t)a, n / 8, true); if (*a == *e) { *a = v; return true; } *e = *a; return false; } \
 bool __tsan_atomic##n##_compare_exchange_weak(volatile T * a, T * e, T v, int, int) { hook((uintptr_t)a, n / 8, true); if (*a == *e) { *a = v; return true; } *e = *a; return false; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
// kernel address sanitizer interface
#define KA(n) void __asan_load##n##_noabort(uintptr_t a) { hook(a, n, false); checkRange((void *)a, n, false, "load"); } void __asan_store##n##_noabort(uintptr_t a) { hook(a, n, true); checkRange((void *)a, n, true, "store"); } \
 void __asan_load##n(uintptr_t a) { hook(a, n, false); checkRange((void *)a, n, false, "load"); } void __asan_store##n(uintptr_t a) { hook(a, n, true); checkRange((void *)a, n, true, "store"); }
KA(1) KA(2) KA(4) KA(8) KA(16)
void __asan_loadN_noabort(uintptr_t a, size_t n) { hook(a, 1, false); checkRange((void *)a, n, false, "load"); }
void __asan_storeN_noabort(uintptr_t a, size_t n) { hook(a, 1, true); checkRange((void *)a, n, true, "store"); }
void __asan_loadN(uintptr_t a, size_t n) { __asan_loadN_noabort(a, n); }
void __asan_storeN(uintptr_t a, size_t n) { __asan_storeN_noabort(a, n); }
void __asan_handle_no_return() { if (cur) unpoisonStack(cur); }
struct AsanGlobal { uintptr_t beg; size_t size, sizeRz; const char * name, * mod; unsigned long dyn; void * loc; unsigned long odr; };
void __asan_register_globals(AsanGlobal * g, size_t n)
{
	memInit();
	for (size_t i = 0; i < n; ++i) {
		uint8_t * sh = (uint8_t *)((g[i].beg >> 3) + SHADOW_OFF); size_t full = g[i].size / 8, tot = g[i].sizeRz / 8;
		memset(sh, 0, full); size_t k = full; if (g[i].size % 8) sh[k++] = g[i].size % 8;
		if (k < tot) memset(sh + k, 0xf9, tot - k);
	}
}
void __asan_unregister_globals(AsanGlobal *, size_t) {}
void __asan_before_dynamic_init(const char *) {}
void __asan_after_dynamic_init() {}
void __asan_set_shadow_00(uint8_t * p, size_t n) { memset(p, 0, n); }
void __asan_poison_stack_memory(uintptr_t a, size_t n) { uint8_t * s = (uint8_t *)((a >> 3) + SHADOW_OFF); memset(s, 0xf8, n / 8); if (n % 8) s[n / 8] = n % 8; }
void __asan_unpoison_stack_memory(uintptr_t a, size_t n) { uint8_t * s = (uint8_t *)((a >> 3) + SHADOW_OFF); memset(s, 0, (n + 7) / 8); }
void __asan_init() {}
void __asan_version_mismatch_check_v8() {}
}
