// The embeddable libraries (src/gplib and src/radarcape/lib): a host program with up to three threads makes arbitrary
// histories of API calls while the collector, its network and name service fail.
#include "world.h"
#include "config.h"
#include <cmath>
#include <cerrno>
#include <cstdio>
#include <netdb.h>
#include <ostream>
#include <streambuf>
#include <sys/socket.h>
#if defined(P_RCLIB)
typedef enum { GpsTimeInvalid, UsingCpuTime, UsingGpsTime } GpsTimeStatus_t;
enum MessageType_T { MessageType_Unknown = 0, MessageType_Max = 255 };
namespace OpenSky { void init(); void configure(); void setLogStreams(std::ostream &, std::ostream &); void enable(); void disable(); void setGpsTimeStatus(const GpsTimeStatus_t); void setGpsPosition(double, double, double); void output_message(const unsigned char * const, const enum MessageType_T); }
enum { RCLIB = 1 };
#else
enum OPENSKY_DEVICE_TYPE { OPENSKY_DEVICE_TYPE_INVALID = 0, OPENSKY_DEVICE_TYPE_MAX = 15 };
namespace OpenSky { void init(); void configure(OPENSKY_DEVICE_TYPE, uint32_t); void setLogStreams(std::ostream &, std::ostream &); void enable(); void disable(); void setGpsPosition(double, double, double); void unsetGpsPosition(); void submitFrame(std::uint64_t, bool, bool, std::int8_t, const uint8_t *, std::size_t); }
enum { RCLIB = 0 };
#endif

namespace sim {
struct Ev { uint64_t s0, s1; int64_t v; bool certain; };   // something that sets a value at an unknown point of [s0,s1]
typedef std::vector<Ev> Evs;
// values that can be in force at some point of [a,b]
static std::set<int64_t> possible(const Evs & E, uint64_t a, uint64_t b)
{
	std::set<int64_t> r;
	for (size_t i = 0; i < E.size(); ++i) {
		if (E[i].s0 > b) continue; bool gone = false;
		for (size_t k = 0; k < E.size() && !gone; ++k) if (k != i && E[k].certain && E[k].s0 > E[i].s1 && E[k].s1 < a) gone = true;
		if (!gone) r.insert(E[i].v);
	}
	return r;
}
struct Sub { uint64_t s0, s1; ns t0, t1; std::string wire; int df; bool modeS, accept; /* by its form */ };
struct Period { uint64_t e0, e1, d0 = INF, d1 = INF; ns te0, te1, td0 = NEVER, td1 = NEVER; bool failed = false; bool last = false; };
struct Pos { double a, b, c; };
struct GpsCall { uint64_t s0, s1 = INF; ns t0, t1 = NEVER; int pos; /* index or -1 */ int fix; /* 0,1,-1 unchanged */ };
struct Coll : Peer { void onAccept(Conn *) override; void onFin(Conn * c) override { ConnP k = c->shared_from_this(); after((ns)logrange(K_ACTOR, 1, 2000) * MS, [k] { if (!k->dead) k->rclose(); }); } };
struct LogBuf : std::streambuf {
	std::string line; bool err;
	LogBuf(bool e) : err(e) {}
	int overflow(int c) override; std::streamsize xsputn(const char * s, std::streamsize n) override { for (std::streamsize i = 0; i < n; ++i) overflow((unsigned char)s[i]); return n; }
	int sync() override { return 0; }
};
struct Lib {
	std::string profile; Coll coll; std::vector<Endpoint *> eps; LogBuf out{false}, err{true}; std::ostream os{&out}, es{&err};
	std::vector<Sub> subs; std::map<std::string, size_t> byWire; std::vector<Period> per; Evs type, serial, sync, gpsStat; std::vector<Pos> poss; std::vector<GpsCall> gps;
	bool inited = false, broken = false, configured = false, enabled = false, healed = false, ended = false, finishing = false, mayAbort = false, feedStop = false, feedDone = false, gpsDone = false, gpsThread = false; uint32_t seed = 0; uint64_t counter = 0;
	std::map<int, ns> shutAt; ns faultEnd = NEVER; uint32_t nemOps = 0; ns nemMean = SEC; uint32_t tbMean = 0, tbGarbage = 0, feedMean = 300, burst = 3; size_t baseBlocks = 0, hostBlocks = 0, fdsMax = 0; int calls = 0; ns opMean = SEC; bool calmHost = false;
	std::string emerg; int cycles = 0;
};
static Lib * L;
static uint32_t pick(std::initializer_list<uint32_t> l, Kind k = K_PLAN) { return l.begin()[choose(k, (uint32_t)l.size())]; }
static bool prof(const char * n) { return L->profile == n; }
int LogBuf::overflow(int c)
{
	if (c == EOF) return 0;
	if (c != '\n') { line += (char)c; return c; }
	tr("LOG %s", line.c_str()); logLines.push_back(line);
	if (line.compare(0, 7, "[EMERG]") == 0) L->emerg = line;
	bool bad = line.compare(0, 7, "[ERROR]") == 0 || line.compare(0, 7, "[EMERG]") == 0;
	if (line.compare(0, 1, "[") || bad != err) violation("log.line", "C23", "log line on the wrong stream or without level: %s", line.c_str());
	line.clear(); yieldPoint("log stream"); return c;
}

// ---- collector ------------------------------------------------------------------------------------------------------
static std::string pkt(unsigned type, const std::string & pay, int len = -1) { unsigned l = len < 0 ? (unsigned)pay.size() + 4 : (unsigned)len; std::string s; s += (char)(type >> 8); s += (char)type; s += (char)(l >> 8); s += (char)l; return s + pay; }
static std::string rnd(size_t n) { std::string s; while (n--) s += (char)choose(K_ACTOR, 256); return s; }
static std::string traffic()
{
	if (choose(K_ACTOR, 100) < L->tbGarbage) switch (choose(K_ACTOR, 5)) {
	case 0: return rnd(1 + choose(K_ACTOR, 30)); case 1: return pkt(choose(K_ACTOR, 12), "", choose(K_ACTOR, 4)); case 2: return pkt(choose(K_ACTOR, 12), rnd(8), 129 + choose(K_ACTOR, 65000));
	case 3: { std::string s = pkt(4, rnd(2)); s.resize(1 + choose(K_ACTOR, (uint32_t)s.size() - 1)); return s; } default: return pkt(choose(K_ACTOR, 65536), rnd(124));
	}
	switch (choose(K_ACTOR, 7)) {
	case 4: return pkt(choose(K_ACTOR, 4), rnd(choose(K_ACTOR, 2) ? 6 : 0)); case 5: return pkt(5 + choose(K_ACTOR, 300), rnd(choose(K_ACTOR, 60))); case 6: return pkt(4, rnd((uint32_t[]){0, 1, 3, 4}[choose(K_ACTOR, 4)]));
	default: { std::string p; p += (char)(uint8_t[]){1, 2, 3, 2, 1, 0x80, 0x82, 0}[choose(K_ACTOR, 8)]; p += (char)choose(K_ACTOR, 4); return pkt(4, p); }
	}
}
static void tbActor(Conn * c)
{
	if (!L->tbMean) return; ConnP k = c->shared_from_this();
	after((ns)logrange(K_ACTOR, L->tbMean / 8 + 1, (uint64_t)L->tbMean * 4) * MS, [k] { if (k->dead || k->remoteDead || k->remoteClosed || L->healed) return; std::string s; for (int n = 1 + (int)biased(K_ACTOR, 5, 1, 4); n--;) s += traffic(); k->rsend(s.data(), s.size()); tbActor(k.get()); });
}
void Coll::onAccept(Conn * c) { tbActor(c); }
enum { N_RESET, N_CLOSE, N_DIE, N_PART, N_STALL, N_MODE, N_DNSFAIL, N_DNSHANG, N_MAX };
static const char * HOST = "collector.opensky-network.org";
static void eachConn(std::function<void(Conn *)> fn) { for (auto & c : conns) if (!c->dead && !c->closedLocal) fn(c.get()); }
static void nemesisAct(int op)
{
	ns d = (ns)logrange(K_NEMESIS, 20, 40000) * MS; if (now + d > L->faultEnd) d = std::max((ns)MS, L->faultEnd - now); auto & E = L->eps;
	switch (op) {
	case N_RESET: eachConn([](Conn * c) { c->rreset(); }); countFault("collector-reset"); break;
	case N_CLOSE: eachConn([](Conn * c) { c->rclose(); }); countFault("collector-close"); break;
	case N_DIE: eachConn([](Conn * c) { c->rdie(); }); countFault("collector-silent-death"); break;
	case N_PART: for (auto e : E) { e->partitioned = true; pathChanged(e); after(d, [e] { e->partitioned = false; pathChanged(e); }); } countFault("collector-partition"); break;
	case N_STALL: for (auto e : E) { e->stalled = true; pathChanged(e); after(d, [e] { e->stalled = false; pathChanged(e); }); } countFault("collector-stall"); break;
	case N_MODE: { EpMode m = (EpMode)(1 + choose(K_NEMESIS, 4)); for (auto e : E) { e->mode = m; pathChanged(e); after(d, [e] { e->mode = EP_UP; pathChanged(e); }); } if (choose(K_NEMESIS, 2)) eachConn([](Conn * c) { c->rreset(); }); countFault("collector-unreachable"); break; }
	case N_DNSFAIL: dns[HOST].fail = EAI_AGAIN; after(d, [] { dns[HOST].fail = 0; }); eachConn([](Conn * c) { c->rreset(); }); countFault("dns-outage"); break;
	case N_DNSHANG: dns[HOST].hang = true; after(d, [] { dns[HOST].hang = false; }); eachConn([](Conn * c) { c->rreset(); }); countFault("dns-hang"); break;
	}
}
static void nemesis()
{
	after((ns)logrange(K_NEMESIS, L->nemMean / 20 / MS + 1, L->nemMean * 3 / MS) * MS, [] {
		if (L->healed) return; std::vector<int> ops; for (int i = 0; i < N_MAX; ++i) if (L->nemOps >> i & 1) ops.push_back(i);
		if (!ops.empty()) { uint32_t k = choose(K_NEMESIS, (uint32_t)ops.size() + 1); if (k) { tr("nemesis %d", ops[k - 1]); th(0x4e, ops[k - 1]); nemesisAct(ops[k - 1]); } }
		nemesis();
	});
}

// ---- host program -----------------------------------------------------------------------------------------------------
static void apiEnter(const char * what) { ++seqno; ++L->calls; th(0xa91, (uint64_t)what[0] << 8 | what[3]); tr("API %s", what); yieldPoint("api"); }
static void feedOne()
{
	Sub s; s.t0 = now; bool live = L->finishing; uint32_t df = choose(K_DATA, 100) < 75 || live ? 17 + (choose(K_DATA, 4) == 3) : choose(K_DATA, 32);
	size_t len = live || choose(K_DATA, 10) < 8 ? (choose(K_DATA, 3) == 2 ? 7 : 14) : (size_t[]){0, 1, 2, 6, 8, 13, 15, 21}[choose(K_DATA, 8)]; bool esc = choose(K_DATA, 4) == 3;
	std::string p(std::max(len, (size_t)14), 0); for (auto & x : p) x = esc && choose(K_DATA, 2) ? 0x1a : (char)choose(K_DATA, 256);
	p[0] = (char)(df << 3 | (p[0] & 7)); uint64_t id = ++L->counter; p[2] = (char)(id >> 16); p[3] = (char)(id >> 8); p[4] = (char)id;
	std::string body; s.df = df;
#if defined(P_RCLIB)
	std::string hd; for (int i = 0; i < 7; ++i) hd += esc && choose(K_DATA, 2) ? 0x1a : (char)choose(K_DATA, 256);
	int type = live ? 0x32 + choose(K_DATA, 2) : choose(K_DATA, 12) < 10 ? 0x31 + choose(K_DATA, 3) : (int)choose(K_DATA, 64); size_t n = type == 0x31 ? 2 : type == 0x32 ? 7 : 14;
	body = hd + p.substr(0, n); s.accept = type == 0x32 || type == 0x33; s.modeS = s.accept; s.wire = std::string("\x1a") + (char)type + escape(body);
	++L->hostBlocks; unsigned char * m = (unsigned char *)arenaAlloc(7 + n); memcpy(m, body.data(), 7 + n);
	apiEnter("submit"); s.s0 = seqno; L->byWire[s.wire] = L->subs.size(); size_t si = L->subs.size(); L->subs.push_back(s); L->subs[si].s1 = INF; L->subs[si].t1 = NEVER;
	OpenSky::output_message(m, (enum MessageType_T)type);
	arenaFree(m); --L->hostBlocks;
#else
	uint64_t ts = choose(K_DATA, 3) == 2 ? (uint64_t)choose64(K_DATA, UINT64_MAX) : (uint64_t)choose64(K_DATA, 604800ULL * 1000000000); if (choose(K_DATA, 8) == 7) ts = ts / 1000000000 * 1000000000 + (choose(K_DATA, 2) ? 999999999 : 0); if (choose(K_DATA, 16) == 15) ts = 86399999999999ULL + choose(K_DATA, 2); if (choose(K_DATA, 16) == 15) { uint64_t sec = 0x1a1a; ts = sec * 1000000000ULL + 0x1a1a1a1a; }
	bool utc = live || choose(K_DATA, 8) != 7, syn = choose(K_DATA, 4) != 3; int8_t rssi = esc ? 0x1a : (int8_t)choose(K_DATA, 256);
	uint64_t sod = (ts / 1000000000ULL) % 86400, nsec = ts % 1000000000ULL, ml = sod << 30 | nsec; for (int i = 40; i >= 0; i -= 8) body += (char)(ml >> i); body += (char)rssi; body += p.substr(0, len);
	s.accept = utc && (len == 7 || len == 14); s.modeS = true; s.wire = std::string("\x1a") + (len == 7 ? '2' : '3') + escape(body);
	++L->hostBlocks; uint8_t * m = (uint8_t *)arenaAlloc(std::max(len, (size_t)1)); memcpy(m, p.data(), len);
	apiEnter("submit"); s.s0 = seqno; L->byWire[s.wire] = L->subs.size(); size_t si = L->subs.size(); L->subs.push_back(s); L->subs[si].s1 = INF; L->subs[si].t1 = NEVER;
	OpenSky::submitFrame(ts, utc, syn, rssi, m, len);
	arenaFree(m); --L->hostBlocks;
#endif
	L->subs[si].s1 = ++seqno; L->subs[si].t1 = now;
	if (now - s.t0 > (stallsOn() ? 4 : 1) * SEC) violation("lib.slowsubmit", "C23,C24", "submitting a frame takes %.1f s", (now - s.t0) / 1e9);
}
static void * feeder(void *)
{
	while (!L->feedStop) {
		ns mean = L->finishing ? 200 : L->feedMean; sleepFor((ns)logrange(K_ACTOR, mean / 6 + 1, (uint64_t)mean * 3) * MS, false);
		if (L->feedStop) break;
		int n = 1 + (int)biased(K_ACTOR, std::max(2u, L->burst), 1, 3); if (choose(K_ACTOR, 60) == 59 && !L->finishing) { n = (int)logrange(K_ACTOR, 3, 260); probe("frame burst"); }
		while (n-- && !L->feedStop) feedOne();
	}
	L->feedDone = true; return nullptr;
}
static void gpsCall()
{
	GpsCall g; g.t0 = now; g.pos = -1; g.fix = -1; int what = choose(K_PLAN, 5); size_t gi = L->gps.size();
	auto coord = [](int64_t m) { return range(K_DATA, -m, m) / 1e6; };
	if (what < 3) {
		Pos p = { coord(90000000), coord(180000000), coord(9000000000LL) }; if (choose(K_DATA, 12) == 11 && !L->poss.empty()) p = L->poss.back();
		g.pos = (int)L->poss.size(); L->poss.push_back(p); if (!RCLIB) g.fix = 1;
		apiEnter("position"); g.s0 = seqno; L->gps.push_back(g); OpenSky::setGpsPosition(p.a, p.b, p.c);
	} else {
#if defined(P_RCLIB)
		int st = choose(K_PLAN, 5); if (st > 2) st = 2; g.fix = st == 2; apiEnter("status"); g.s0 = seqno; L->gps.push_back(g); size_t ei = L->sync.size(); L->sync.push_back({g.s0, INF, st != 0, true}); L->gpsStat.push_back({g.s0, INF, st, true}); size_t gj = L->gpsStat.size() - 1;
		OpenSky::setGpsTimeStatus((GpsTimeStatus_t)st); L->sync[ei].s1 = L->gpsStat[gj].s1 = seqno + 1;
#else
		g.fix = 0; apiEnter("unset"); g.s0 = seqno; L->gps.push_back(g); OpenSky::unsetGpsPosition();
#endif
	}
	L->gps[gi].s1 = ++seqno; L->gps[gi].t1 = now;
	if (now - g.t0 > 5 * SEC) probe("position call blocked");
}
static void * gpsMain(void *)
{
	while (!L->feedStop) { sleepFor((ns)logrange(K_ACTOR, 1, 20000) * MS, false); if (L->feedStop) break; if (!L->finishing || choose(K_PLAN, 2)) gpsCall(); }
	L->gpsDone = true; return nullptr;
}
static void doConfigure()
{
	apiEnter("configure"); uint64_t s0 = seqno;
#if defined(P_RCLIB)
	OpenSky::configure();
#else
	int t = 1 + choose(K_PLAN, 9); uint32_t s = (uint32_t)range(K_PLAN, 0, 0x7fffffff); if (choose(K_PLAN, 4) == 3) s = 0x1a1a1a1a; if (choose(K_PLAN, 8) == 7) s = 0xffffffff;
	if (L->configured) probe("configuration changed");
	size_t a = L->type.size(), b = L->serial.size(); L->type.push_back({s0, INF, t, true}); L->serial.push_back({s0, INF, (int64_t)s, true});
	OpenSky::configure((OPENSKY_DEVICE_TYPE)t, s);
	L->type[a].s1 = L->serial[b].s1 = seqno + 1;
#endif
	L->configured = true; ++seqno;
}
static std::string strangers() { std::string s; for (auto & f : fibers) if (f.state != F_FREE && &f != cur && f.name.compare(0, 5, "host-")) s += f.name + " "; return s; }
static void doEnable()
{
	if (L->enabled) probe("enabled twice");
	uint64_t tf = threadFails; apiEnter("enable"); Period p; p.e0 = seqno; p.te0 = now; p.e1 = INF; p.te1 = NEVER; size_t pi = L->per.size();
	if (L->enabled) { OpenSky::enable(); ++seqno; return; }   // no effect
	L->per.push_back(p); size_t i0 = L->sync.size(); L->sync.push_back({p.e0, p.e0, 0, true}); 
	if (RCLIB) for (auto v : possible(L->gpsStat, p.e0, INF)) L->sync.push_back({p.e0 + 1, INF, v != 0, true}); else L->sync.push_back({p.e0 + 1, INF, 1, true});
	size_t i1 = L->sync.size();
	OpenSky::enable();
	L->per[pi].e1 = ++seqno; L->per[pi].te1 = now; for (size_t i = i0 + 1; i < i1; ++i) L->sync[i].s1 = L->per[pi].e1; if (threadFails != tf || L->broken) { L->per[pi].failed = true; L->per[pi].d0 = L->per[pi].d1 = L->per[pi].e1; L->per[pi].td0 = L->per[pi].td1 = now; probe("enable failed"); std::string left = strangers(); if (!left.empty()) violation("stop.threads", "C15,C23", "enabling fails, but threads keep running: %s", left.c_str()); return; }
	if (L->per[pi].te1 - p.te0 > 10 * SEC) violation("lib.slowenable", "C23", "enabling takes %.1f s", (now - p.te0) / 1e9);
	L->enabled = true;
}
static void doDisable()
{
	apiEnter("disable"); uint64_t d0 = seqno; ns t0 = now; bool was = L->enabled;
	for (auto & p : L->per) if (p.d0 == INF) { p.d0 = d0; p.td0 = t0; }
	OpenSky::disable();
	uint64_t d1 = ++seqno; for (auto & p : L->per) if (p.d0 == d0) { p.d1 = d1; p.td1 = now; }
	L->enabled = false; ++L->cycles; if (was) probe("disabled");
	if (violated()) return;
	if (now - t0 > (stallsOn() ? 12 : 6) * SEC) violation("stop.slow", "C15,C23", "disabling the feeder takes %.1f s", (now - t0) / 1e9);
	std::string left = strangers(); if (!left.empty()) violation("stop.threads", "C15,C23", "after disabling threads are still running: %s", left.c_str());
	// a call of another host thread may be just about to give up
	for (int i = 0; i < 20 && openFds(); ++i) { bool busy = false; for (auto & g : L->gps) busy |= g.s1 == INF; if (!busy) break; sleepFor(100 * MS, false); }
	if (openFds()) violation("fd.leftover", "C15,C21,C23", "after disabling descriptors are still open: %s", openFdList().c_str());
	bool idle = true; for (auto & g : L->gps) idle &= g.s1 != INF; for (auto & s : L->subs) idle &= s.s1 != INF;
	if (idle && was) { size_t n = arenaBlocks - L->hostBlocks; if (!L->baseBlocks) L->baseBlocks = n; else if (n > L->baseBlocks) violation("lib.leak", "C23,C15", "disabled again, %zu blocks of memory are in use instead of %zu", n, L->baseBlocks); }
}
static Conn * openConn() { Conn * r = nullptr; for (auto & c : conns) if (!c->dead && !c->closedLocal && c->open && !L->shutAt.count(c->id)) r = c.get(); return r; }
static void waitLive(const char * when)
{
	L->finishing = true; if (L->enabled && choose(K_PLAN, 2)) doDisable();
	if (L->broken) return; if (!L->enabled) doEnable(); if (!L->enabled) { violation("lib.noenable", "C23,C15", "the feeder cannot be enabled although nothing fails any more"); return; }
	ns t0 = now; sleepFor(75 * SEC, false); if (violated()) return;
	Conn * c = openConn(); if (!c) { violation("recover.offline", "C05,C15,C23", "%s, the feeder is enabled for %.0f s, but not connected", when, (now - t0) / 1e9); return; }
	UpParse p = parseUp(c); uint64_t n = 0; ns last = 0; for (auto & m : p.msgs) if (m.type == '2' || m.type == '3') { ++n; last = m.t1; }
	(void)n; (void)last; probe("alive at the end");
}
static void heal()
{
	L->healed = true; faultsEnabled = false; tr("=== faults end"); for (int k = 0; k < K_MAX; ++k) setRate((Kind)k, 0);
	for (auto & e : endpoints) { e->mode = EP_UP; e->partitioned = e->stalled = false; e->sndbuf = e->rcvwnd = 65536; e->latHi = std::min(e->latHi, 40 * MS); e->latLo = std::min(e->latLo, e->latHi); for (auto c : e->conns) c->sndbuf = c->rcvwnd = 65536; pathChanged(e.get()); }
	for (auto & d : dns) { d.second.fail = 0; d.second.hang = false; }
}
static void analyse();
static void host()
{
	OpenSky::setLogStreams(L->os, L->es);
	if (choose(K_PLAN, 4) == 3) { L->inited = false; }
	apiEnter("init"); OpenSky::init(); L->inited = true; if (mallocFail.n) { L->broken = true; probe("initialisation failed"); } if (violated()) return;
	if (RCLIB) { L->configured = true; if (choose(K_PLAN, 3) == 2) doConfigure(); } else doConfigure();
	Fiber * f = spawn("host-feed", feeder, nullptr); (void)f; if (L->gpsThread) spawn("host-gps", gpsMain, nullptr); else L->gpsDone = true;
	int ops = 5 + (int)choose(K_PLAN, prof("cycle") ? 60 : 25);
	while (ops-- && now < L->faultEnd && !violated()) {
		sleepFor((ns)logrange(K_LATENCY, 1, (uint64_t)(L->opMean / MS) * 4) * MS, false);
		switch (choose(K_PLAN, 10)) {
		case 0: case 1: case 2: L->enabled && choose(K_PLAN, 8) != 7 ? doDisable() : doEnable(); break;
		case 3: if (L->enabled && choose(K_PLAN, 2)) { doDisable(); if (!violated() && choose(K_PLAN, 2)) doEnable(); } else if (!L->enabled) doEnable(); break;
		case 4: doDisable(); break;
		case 5: if (!L->enabled || choose(K_PLAN, 4) == 3) doConfigure(); break;
		case 6: if (!L->gpsThread) gpsCall(); break;
		case 7: if (!L->gpsThread) gpsCall(); break;
		default: if (!L->enabled) doEnable(); else sleepFor((ns)logrange(K_LATENCY, 10, 30000) * MS, false); break;
		}
	}
	if (violated()) return;
	heal(); sleepFor((stallsOn() ? 3 : 1) * SEC, false);
	if (choose(K_PLAN, 2) && L->enabled) { } 
	waitLive("after all faults ended"); if (violated()) return;
	doDisable(); if (violated()) return;
	sleepFor((ns)logrange(K_LATENCY, 1, 20000) * MS, false);
	if (choose(K_PLAN, 2)) { doEnable(); sleepFor(15 * SEC, false); if (!L->broken && !openConn() && !violated()) violation("recover.offline", "C05,C15,C23", "enabled again, the feeder does not connect within 15 s"); doDisable(); }
	L->feedStop = true; while ((!L->feedDone || !L->gpsDone) && now < L->faultEnd + 400 * SEC) sleepFor(SEC, false);
	if (!L->feedDone || !L->gpsDone) violation("lib.stuck", "C23", "a call of the host program does not return: %s", liveThreads(cur).c_str());
	probe("history completed");
}

// ---- oracle -------------------------------------------------------------------------------------------------------------
static ns over(const Conn * c) { ns e = NEVER; if (c->dead) e = std::min(e, c->deadAt); if (c->closedLocal) e = std::min(e, c->closedAt); auto i = L->shutAt.find(c->id); if (i != L->shutAt.end()) e = std::min(e, i->second); if (c->finReadAt >= 0) e = std::min(e, c->finReadAt); return e; }
static bool pending(const Conn * c, uint32_t fiber, ns a, ns b) { for (auto & s : c->sends) if (s.t0 < b && (s.t > a || s.ret < (ssize_t)s.want) && (s.fiber != fiber || s.t - s.t0 > 100 * MS)) return true; return false; }
static const Period * periodAt(uint64_t a) { for (auto & p : L->per) if (p.e0 < a && a < p.d1) return &p; return nullptr; }
struct Up { Conn * c; UpParse p; uint32_t relay = 0; const UpMsg * login = nullptr; uint64_t hi = INF; };
static void analyse()
{
	std::vector<Up> U; for (auto & c : conns) { Up u; u.c = c.get(); u.p = parseUp(c.get()); U.push_back(u); }
	// nothing happens while the feeder is switched off
	for (auto & u : U) { for (auto & s : u.c->sends) if (s.ret > 0 && !periodAt(s.seq)) { violation("lib.disabled", "C23,C15", "%zd bytes are sent although the feeder is not enabled", s.ret); break; } }
	for (auto & r : connectLog) if (!periodAt(r.seq)) violation("lib.disabled", "C23,C15", "a connection is attempted although the feeder is not enabled");
	for (auto & r : lookupLog) { if (!periodAt(r.seq)) violation("lib.disabled", "C23,C15", "a name is looked up although the feeder is not enabled"); if (r.host != HOST) violation("addr.host", "C22,C23", "host '%s' is looked up", r.host.c_str()); }
	for (auto & r : connectLog) if (r.port != 10004) violation("addr.port", "C22,C23", "a connection to port %d is attempted", r.port);
	Evs ext{{0, 0, 1, true}}, syn{{0, 0, 1, true}}; Evs sync = L->sync; sync.push_back({0, 0, 0, true});
	for (auto & u : U) for (auto & p : refTb(u.c)) if (p.type == 4 && p.payload.size() == 2) {
		int m = (uint8_t)p.payload[0], v = (uint8_t)p.payload[1]; bool certain = p.seq1 != INF; for (auto & r : u.c->recvs) if (r.seq == p.seq0) certain = r.next != 0;
		uint64_t s1 = p.seq1; for (auto & q : L->per) if (q.e0 < p.seq0 && p.seq0 < q.d1) s1 = std::min(s1, q.d1);
		if (m & 1) syn.push_back({p.seq0, s1, v & 1, certain}); if (m & 2) ext.push_back({p.seq0, s1, v >> 1 & 1, certain}); if (m & 0x80) sync.push_back({p.seq0, s1, 0, certain});
		probe("filter reconfigured");
	}
	// messages
	std::vector<std::pair<const UpMsg *, size_t>> sent; std::map<size_t, int> times;
	for (auto & u : U) {
		Conn * c = u.c; if (u.p.bad) violation("up.bad", "C01,C23", "connection %d: %s", c->id, u.p.err.c_str());
		for (size_t i = 0; i + 1 < u.p.msgs.size(); ++i) if (!u.p.msgs[i].complete) violation("up.torn", "C01", "connection %d: a message is cut short but the connection goes on", c->id);
		size_t s0 = 0; for (auto & m : u.p.msgs) if (m.complete) { int w = 0; uint32_t x = 0; while (s0 < c->sends.size() && (c->sends[s0].ret <= 0 || c->sends[s0].off + c->sends[s0].ret <= m.off)) ++s0; for (size_t i = s0; i < c->sends.size(); ++i) { auto & s = c->sends[i]; if (s.ret > 0 && s.off >= m.end) break; if (s.ret > 0 && s.off + s.ret > m.off) { if (!w || s.fiber != x) ++w; x = s.fiber; } } if (w > 1) violation("up.interleaved", "C01", "connection %d: a message of type %02x is put together by several threads", c->id, m.type); }
		int st = 0; uint64_t prev = c->estSeq; bool relayPos = false; int nHost = 0, nEarly = 0; const UpMsg * serialMsg = nullptr; size_t firstData = 0;
		for (size_t i = 0; i < u.p.msgs.size(); ++i) {
			auto & m = u.p.msgs[i]; if (!m.complete) break;
			if (st == 0 && m.type != 65 || st == 1 && m.type != '5' || st == 2 && m.type != '7' && m.type != '6' && m.type != '2' && m.type != '3') { violation("login.grammar", "C04,C23", "connection %d: message %zu (type %02x) is not allowed here", c->id, i, m.type); return; }
			if (st == 0) { u.relay = m.fiber; unsigned x, y, z; sscanf(PACKAGE_VERSION, "%u.%u.%u", &x, &y, &z); uint32_t t = be32(m.body.data());
				auto ok = RCLIB ? std::set<int64_t>{4} : possible(L->type, c->estSeq, m.seq0);
				if (!ok.count(t) || be32(m.body.data() + 4) != x || be32(m.body.data() + 8) != y || be32(m.body.data() + 12) != z) violation("login.device", "C04,C23", "connection %d: wrong device identification (type %u)", c->id, t); st = 1; }
			else if (st == 1) { uint32_t v = be32(m.body.data()); auto ok = RCLIB ? std::set<int64_t>{(int64_t)L->seed} : possible(L->serial, prev, m.seq0); if (!ok.count(v)) violation("login.serial", "C04,C12,C23", "connection %d: serial number %u is announced, which is not the configured one", c->id, v); st = 2; u.login = &m; serialMsg = &m; }
			else if (m.type == '7' && m.fiber == u.relay && !firstData) u.login = &m;
			else if (m.type != '7' && !firstData) firstData = i;
			if (m.type == '2' || m.type == '3') {
				auto it = L->byWire.find(m.raw); if (it == L->byWire.end()) { violation("lib.invented", "C23,C02,C09", "connection %d: a frame is sent that was not submitted like this: %s", c->id, hex(m.raw).c_str()); return; }
				sent.push_back({&m, it->second}); if (times[it->second]++) violation("lib.twice", "C23,C02", "connection %d: a submitted frame is sent twice", c->id);
			}
			if (m.type == '6' && m.fiber != u.relay) violation("up.keepalive", "C06", "a keep-alive comes from another thread");
			if (m.fiber == u.relay) prev = m.seq1;
		}
		if (u.login) for (auto & x : U) for (auto & s : x.c->sends) if (s.fiber == u.relay && s.seq0 > u.login->seq1) u.hi = std::min(u.hi, s.seq0);
		// positions
		uint64_t relayPrev = c->estSeq; uint64_t relayEnd = 0;
		for (auto & m : u.p.msgs) if (m.complete) {
			if (m.type != '7') { if (m.fiber == u.relay && m.type == '5') relayPrev = m.seq1; continue; }
			bool relay = m.fiber == u.relay; Pos p = { beDouble(m.body.data()), beDouble(m.body.data() + 8), beDouble(m.body.data() + 16) }; bool known = false, ok = false;
			Evs pe, fe{{0, 0, 0, true}}; for (auto & g : L->gps) { if (g.pos >= 0) pe.push_back({g.s0, g.s1, g.pos, true}); if (g.fix >= 0) fe.push_back({g.s0, g.s1, g.fix, true}); }
			uint64_t a = relayPrev, b = m.seq0; if (!relay) for (auto & g : L->gps) if (g.s0 < m.seq0 && m.seq0 < g.s1) { a = g.s0; }
			for (auto k : possible(pe, a, b)) { Pos & q = L->poss[k]; if (!memcmp(&q, &p, sizeof p)) ok = true; }
			for (auto & q : L->poss) if (!memcmp(&q, &p, sizeof p)) known = true;
			if (!ok) violation(known ? "pos.stale" : "pos.invented", "C14,C23", "connection %d: position %.6f %.6f %.3f is sent, which %s", c->id, p.a, p.b, p.c, known ? "is not the current one" : "was never set");
			if (!possible(fe, a, b).count(1)) violation("pos.nofix", "C14,C23", "connection %d: a position is sent although the host says it is not valid", c->id);
			if (relay) { if (relayPos) violation("pos.repeated", "C14,C23", "connection %d: the position is sent twice", c->id); relayPos = true; relayEnd = m.seq1; }
			else { if (serialMsg && m.seq0 < u.hi && !nEarly) nEarly = 1; else ++nHost; if (relayPos && relayEnd < m.seq0) violation("pos.repeated", "C14,C23", "connection %d: a position is sent although one was sent at the login", c->id); probe("deferred position sent"); }
		}
		if (nHost > 1) violation("pos.repeated", "C14,C23", "connection %d: the position is sent %d times", c->id, nHost + nEarly);
		if (u.login && !relayPos && !nHost && !nEarly && serialMsg) {
			ns ov = over(c); int pos = -1, fix = 0; bool busy = false; const Period * P = periodAt(c->estSeq);
			for (auto & g : L->gps) {
				if (g.s1 < serialMsg->seq0) { if (g.pos >= 0) pos = g.pos; if (g.fix >= 0) fix = g.fix; continue; }
				if (g.s0 < u.hi) { busy = true; break; }                 // around the login
			}
			ns lim = (stallsOn() ? 6 : 2) * SEC;
			if (!busy && pos >= 0 && fix && u.login->t1 + lim < std::min(ov, P ? P->td0 : NEVER) && u.login->t1 + lim < now && !pending(c, 0, u.login->t1, u.login->t1 + lim)) violation("pos.missing", "C14,C23", "connection %d: a valid position is known, but none is sent with the login", c->id);
			if (!busy) { bool done = false; for (auto & g : L->gps) if (g.s0 > u.hi && !done) { if (g.pos >= 0) pos = g.pos; if (g.fix >= 0) fix = g.fix; if (pos >= 0 && fix) { done = true; if (g.t1 != NEVER && g.t1 + 50 * MS < std::min(ov, P ? P->td0 : NEVER) && !pending(c, 0, g.t0, g.t1)) violation("pos.missing", "C14,C23", "connection %d: a position becomes valid at %.3f s, after the login without one, but it is not sent", c->id, g.t0 / 1e9); } } }
		}
		// keep-alive
		if (u.login) { ns T = 1500 * MS, sl = (stallsOn() && !L->healed ? 3000 : stallsOn() ? 3000 : 600) * MS, ov = over(c), last = u.login->t1; const Period * P = periodAt(c->estSeq); if (P) ov = std::min(ov, P->td0); ov = std::min(ov, now);
			auto chk = [&](ns a, ns b) { if (b - a > T + sl && !pending(c, u.relay, a, b)) violation("keepalive.late", "C06,C23,C15", "connection %d: nothing sent for %.3f s", c->id, (b - a) / 1e9); };
			bool cut = false; for (auto & s : c->sends) if (s.fiber == u.relay && s.seq0 > u.login->seq1) { if (s.t0 >= ov) break; chk(last, s.t0); last = s.t; if (s.ret < (ssize_t)s.want) { cut = true; break; } } if (!cut && last < ov) chk(last, ov); }
	}
	// order, enabled periods, filter
	std::sort(sent.begin(), sent.end(), [](auto & a, auto & b) { return a.first->seq0 < b.first->seq0; });
	for (size_t i = 1; i < sent.size(); ++i) if (sent[i].second < sent[i - 1].second) { violation("lib.order", "C23,C02", "frames are not sent in the order of their submission"); break; }
	auto verdict = [&](const Sub & s, bool & may, bool & must) {
		may = must = false; if (!s.accept) return; bool drop = false, es = s.df == 17 || s.df == 18; auto E = possible(ext, s.s0, s.s1), S = possible(syn, s.s0, s.s1), Y = possible(sync, s.s0, s.s1);
		for (auto e : E) for (auto x : S) for (auto y : Y) { bool pass = (!x || y) && (!e || es); (pass ? may : drop) = true; }
		must = may && !drop;
	};
	auto enabledAll = [&](const Sub & s) { if (s.s1 == INF) return false; for (auto & p : L->per) if (!p.failed && p.e1 < s.s0 && s.s1 < p.d0) return true; return false; };
	std::map<size_t, const UpMsg *> sentBy; for (auto & x : sent) sentBy[x.second] = x.first;
	for (auto & x : sent) {
		Sub & s = L->subs[x.second]; bool may, must; verdict(s, may, must);
		if (!s.accept) violation("lib.form", "C23", "a submission that is to be ignored (length, type or timing) is sent");
		else if (!may) violation("lib.filter", "C23,C08", "a frame of type %d is sent although the filter does not allow it", s.df);
		bool en = false; const Period * pp = nullptr; for (auto & p : L->per) if (p.e0 < s.s1 && s.s0 < p.d1) { en = true; pp = &p; } (void)pp;
		if (!en) violation("lib.notenabled", "C23", "a frame submitted while the feeder was disabled is sent");
		// since the last enabling that completed before it was sent
		for (auto & p : L->per) if (p.e1 < x.first->seq0 && s.s1 < p.e0) { violation("lib.oldframe", "C23,C15", "a frame submitted before the feeder was enabled is sent"); break; }
		// without history the queue is emptied at each login
		for (auto & u : U) for (auto & m : u.p.msgs) if (&m == x.first && u.login && s.s1 < u.login->seq0 && s.s1 != INF) violation("lib.flush", "C03,C23", "connection %d: a frame submitted before the login is sent", u.c->id);
	}
	// completeness
	for (auto & u : U) if (u.login) {
		Conn * c = u.c; const Period * P = periodAt(c->estSeq); if (!P) continue; ns ov = std::min(std::min(over(c), P->td0), now); ns sl = (stallsOn() ? 3000 : 700) * MS;
		std::vector<size_t> mine; for (auto & m : u.p.msgs) if (m.complete && (m.type == '2' || m.type == '3')) mine.push_back(L->byWire[m.raw]); size_t lastSent = mine.empty() ? 0 : mine.back(); bool any = !mine.empty();
		size_t need = 0;
		for (size_t i = 0; i < L->subs.size(); ++i) {
			Sub & s = L->subs[i]; if (s.s0 < u.hi || s.t0 < u.login->t1 + sl && !(any && i > mine.front())) continue; if (s.t1 == NEVER || s.s1 > P->d0 || s.t1 > ov) break;
			bool may, must; verdict(s, may, must); if (!must || !enabledAll(s)) continue; if (sentBy.count(i)) continue;
			// overflow: the queue holds 200 frames
			size_t q = 0; for (size_t k = i; k < L->subs.size() && L->subs[k].t0 < s.t1 + 60 * SEC; ++k) if (L->subs[k].accept) ++q; size_t before = 0; for (size_t k = i; k-- > 0 && L->subs[k].t1 > s.t0 - 60 * SEC;) if (L->subs[k].accept) ++before; if (q + before > 150 && pending(c, 0, s.t0 - 60 * SEC, s.t1 + 60 * SEC)) continue; if (q > 150) continue;
			if (any && i < lastSent) { violation("lib.lost", "C23,C02", "connection %d: a frame submitted at %.3f s is left out although later ones are sent", c->id, s.t0 / 1e9); break; }
			if (s.t1 + sl < ov && !pending(c, 0, s.t0, s.t1 + sl)) { violation("lib.notsent", "C23,C05,C15", "connection %d: a frame submitted at %.3f s is not sent until %.3f s although the connection is fine", c->id, s.t0 / 1e9, ov / 1e9); break; }
		}
		(void)need; if (any) probe("frames sent"); if (mine.size() > 20) probe("many frames sent");
	}
	// reconnecting
	for (auto & p : L->per) if (!p.failed) {
		ns end = std::min(p.td0, now); std::vector<ns> t; for (auto & r : lookupLog) if (r.seq > p.e0 && r.seq < p.d1) t.push_back(r.t);
		if (t.empty() && end - p.te1 > (stallsOn() ? 8 : 2) * SEC) violation("lib.dead", "C23,C15,C05", "enabled for %.1f s, no connection is attempted", (end - p.te1) / 1e9);
	}
}
}
using namespace sim;
void scenarioSetup(const std::string & profile)
{
	delete L; L = new Lib; L->profile = profile;
	bool calm = choose(K_PLAN, 5) == 4; L->gpsThread = choose(K_PLAN, 2); L->opMean = pick({1000, 100, 5000, 20000}) * MS; if (prof("cycle")) L->opMean = pick({50, 300, 2000, 10}) * MS;
	L->feedMean = pick({300, 50, 2000}); L->burst = pick({3, 10, 40}); L->tbMean = pick({2000, 0, 500, 20000}); L->tbGarbage = pick({0, 20, 60}); L->nemMean = pick({3000, 1000, 15000}) * MS;
	for (int i = 0; i < N_MAX; ++i) if (choose(K_PLAN, 2)) L->nemOps |= 1u << i; if (calm) L->nemOps = 0;
	int n = 1 + choose(K_PLAN, 3); DnsRec d; for (int i = 0; i < n; ++i) { bool six = choose(K_PLAN, 3) == 2; char ip[40]; snprintf(ip, sizeof ip, six ? "2001:db8::%d" : "192.0.2.%d", 10 + i); Endpoint * e = addEndpoint(ip, six ? AF_INET6 : AF_INET, 10004, &L->coll); e->sndbuf = pick({65536, 600, 4096}); e->rcvwnd = pick({65536, 1000, 8192}); e->latHi = pick({20, 200, 1500}) * MS; L->eps.push_back(e); d.addrs.push_back({e->family, e->ip}); }
	dns[HOST] = d;
	setRate(K_SHORTRECV, pick({0, 0, 5000, 30000})); setRate(K_SHORTSEND, pick({0, 8000, 40000})); setRate(K_SPURIOUS, pick({0, 0, 500, 4000})); setRate(K_CONNECT, calm ? 0 : pick({0, 0, 6000, 25000})); setRate(K_DNS, calm ? 0 : pick({0, 0, 4000, 15000}));
	if (prof("oom")) { setRate(K_MALLOC, pick({0, 0, 1500, 6000})); setRate(K_THREADFAIL, pick({0, 8000, 20000})); setRate(K_SOCKFAIL, pick({0, 4000, 20000})); }
	if (RCLIB) {
		unsigned m[6]; for (auto & x : m) x = choose(K_PLAN, 3) == 2 ? 0x1a : choose(K_PLAN, 256); char a[40]; snprintf(a, sizeof a, "%02x:%02x:%02x:%02x:%02x:%02x", m[0], m[1], m[2], m[3], m[4], m[5]); macAddr = a; L->seed = (m[2] << 24 | m[3] << 16 | m[4] << 8 | m[5]) & 0x7fffffff;
		macMode = choose(K_PLAN, 4) == 3 ? 1 : 0; if (choose(K_PLAN, 24) == 23) { macMode = 2; L->mayAbort = true; } if (macMode != 2) { fsMkdirs("/sys/class/net/eth0"); fsPut("/sys/class/net/eth0/address", macAddr + "\n"); }
		L->gpsStat.push_back({0, 0, 0, true});
	}
	L->faultEnd = (60 + (ns)choose(K_PLAN, 240)) * SEC;
	onConnEvent = [](Conn * c, const char * what) { if (!strcmp(what, "shutdown") && !L->shutAt.count(c->id)) L->shutAt[c->id] = now; };
	onDeadlock = [] { violation("deadlock", "*", "nothing can happen any more; threads: %s", liveThreads(nullptr).c_str()); endRun(); };
	onProcessEnd = [](EndHow how, int st) {
		uint64_t mf = mallocFail.n; std::string live = liveAtExit; sysKill();
		if (how == END_ABORT) {
			if (L->mayAbort && L->emerg.find("No serial number") != std::string::npos) probe("no serial number available");
			else if (mf && !L->emerg.empty()) probe("documented abort without memory");
			else violation("lib.abort", "C23,C26,C15", "the library ends the host program: %s (thread %s)", L->emerg.empty() ? "without a message" : L->emerg.c_str(), endThread.c_str());
		} else if (how == END_EXIT) { if (!live.empty() && !violated()) violation("stop.threads", "C15,C23", "threads are left: %s", live.c_str()); }
		else violation("proc.killed", "C26,C23", "the host program is killed by signal %d", st);
		if (!violated()) analyse();
		endRun();
	};
	after(3600 * SEC, [] { violation("lib.hang", "C23,C15", "the host program does not finish: %s", liveThreads(nullptr).c_str()); endRun(); });
	if (L->nemOps) nemesis();
	startProcessHost(host);
}
const char * scenarioComponents()
{
	return RCLIB ? "{\"real\":[\"radarcape/lib/opensky.cc\",\"radarcape/lib/log_lib.cc\",\"core/{network,relay,buffer,login,gps,filter,tb,beast}.c\",\"util/{net_common,component,serial_eth,...}.c\"],\"stub\":[\"host program (three threads of the harness)\",\"collector\",\"libc, pthreads, sockets, resolver, clock\"]}"
		: "{\"real\":[\"gplib/opensky.cc\",\"gplib/log_lib.cc\",\"core/{network,relay,buffer,login,gps,filter,tb,beast}.c\",\"util/{net_common,component,...}.c\"],\"stub\":[\"host program (three threads of the harness)\",\"collector\",\"libc, pthreads, sockets, resolver, clock\"]}";
}
