// Whole-daemon scenarios: the sensor's complete program between a simulated collector and a simulated receiver.
#include "world.h"
#include "config.h"
#include <cmath>
#include <netdb.h>
#include <cerrno>
#include <cstdio>
#include <csignal>
#include <strings.h>
#include <fcntl.h>
#include <termios.h>
#include <sys/socket.h>

namespace sim {
#if defined(P_DONATED)
enum { DEVTYPE = 6 };
#elif defined(P_KIT)
enum { DEVTYPE = 7 };
#elif defined(P_RCNET)
enum { DEVTYPE = 3 };
#elif defined(P_RC)
enum { DEVTYPE = 2 };
#else
enum { DEVTYPE = 5 };
#endif
#if defined(P_RCNET) || defined(P_RC)
enum { RADARCAPE = 1 };
#else
enum { RADARCAPE = 0 };
#endif
#if defined(P_RC)
enum { UART = 1 };
#else
enum { UART = 0 };
#endif
#if defined(P_DONATED) || defined(P_RC)
enum { RSHELL = 1 };
#else
enum { RSHELL = 0 };
#endif
static const char * STATE = "/var/lib/openskyd/conf.d", * ETC = "/etc/openskyd";

struct Cfg {                         // effective configuration according to the documentation
	std::string host = "collector.opensky-network.org", inHost = "localhost", user, gpsHost = "localhost", devTypeStr;
	int port = 10004, inPort = RADARCAPE ? 10003 : 30005, gpsPort = 10685;
	uint32_t timeout = 1500, statB = 200, dynB = 1000, dynI = 1080, gcInt = 120, gcLevel = 2, statInt = 600;
	bool history = false, gc = false, statEn = true, ext = true, sync = RADARCAPE, crc = true, fec = true;
	bool hasSerial = false, serialInFile = false; uint32_t serial = 0; bool hasPos = false; double lat = 0, lon = 0, alt = 0; uint32_t devType = DEVTYPE;
	size_t capacity(bool dyn) const { return statB + (history && dyn ? (size_t)dynB * dynI : 0); }
};
struct Life {                        // one process of the daemon
	int no; ns t0, t1 = NEVER; uint64_t seq0, seq1 = INF; EndHow how = END_EXIT; int status = 0; bool ended = false, killed = false; ns sigT = NEVER; uint64_t sigSeq = INF;
	std::string emerg; std::vector<Stat> reports; uint64_t mallocs = 0, socks = 0; bool intInStart = false;
};
struct Assign { uint32_t val; uint64_t seq0, seq1; int proc; ns t; int conn; };
struct Session { std::string in; size_t pos = 0; bool bad = false, dev = false, ser = false, done = false; int reqs = 0; uint64_t msgs = 0; };
struct Feed;
struct Collector : Peer { void onAccept(Conn *) override; void onData(Conn *, const uint8_t *, size_t) override; void onFin(Conn *) override; void onClosed(Conn *) override; std::map<int, Session> ss; };
struct Receiver : Peer { void onAccept(Conn *) override; void onFin(Conn *) override; };
struct GpsPeer : Peer { void onAccept(Conn *) override; void onFin(Conn *c) override { c->rclose(); } };

struct Feed {
	std::string profile; Cfg cfg; Collector coll; Receiver recv; GpsPeer gps; std::vector<Endpoint *> cEp, rEp, gEp; uint32_t gpsMean = 1000, gpsJunk = 0, gpsBad = 20, gpsMove = 20; std::string gpsLast;
	std::vector<Life> lives; StatParser stat; FrameGen gen; std::vector<std::string> argv;
	std::map<int, uint64_t> shutSeq; std::map<int, ns> shutAt;
	ns faultEnd = 0, checkAt = 0, liveStart = NEVER, quietStart = NEVER, stopT = NEVER; bool healed = false, stopping = false, quiet = false, ended = false, earlyStop = false, replacedLate = false; int cycles = 0; size_t blk0 = 0;
	std::vector<std::pair<ns, ns>> jumps; std::vector<ns> jumpAt; bool inconsistent = false, mustAbort = false, fsFaults = false;
	// plan
	uint32_t nemOps = 0; ns nemMean = SEC; uint32_t tbMean = 0 /* ms, 0: none */, tbGarbage = 0, inMean = 500 /* ms */, inBurst = 4, inJunk = 0 /* of 100 */, df17 = 80, serialPolicy = 0; bool unsolicited = false, statusFrames = true;
	uint32_t serialBase = 0, serialsGiven = 0; int unanswered = 0;
	std::map<int, std::pair<size_t, ns>> stall; std::map<int, ns> loginSeen;
	uint32_t manage = 0 /* share of management commands, of 100 */; uint64_t regularFds = 2; bool checkAddr = false; std::string cName; bool noRecv = false, strictIdle = false; ns stopSlack = 0;
	Life & life() { return lives.back(); }
};
static Feed * W;
static uint32_t pick(std::initializer_list<uint32_t> l, Kind k = K_PLAN) { return l.begin()[choose(k, (uint32_t)l.size())]; }
static bool pct(Kind k, uint32_t p) { return coin(k, p, 100); }
static bool prof(const char * n) { return W->profile == n; }
static bool isColl(const Conn * c) { return c->ep->peer == &W->coll; }
static bool isRecv(const Conn * c) { return c->ep->peer == &W->recv; }
static bool isGps(const Conn * c) { return c->ep->peer == &W->gps; }
static ns jumpedBetween(ns a, ns b) { ns s = 0; for (auto & j : W->jumps) if (j.first > a && j.first <= b) s += j.second; return s; }

// ================================================================================================ collector
static std::string tbPkt(unsigned type, const std::string & pay, int len = -1)
{
	unsigned l = len < 0 ? (unsigned)pay.size() + 4 : (unsigned)len; std::string s;
	s += (char)(type >> 8); s += (char)type; s += (char)(l >> 8); s += (char)l; return s + pay;
}
static std::string rnd(Kind k, size_t n) { std::string s; while (n--) s += (char)choose(k, 256); return s; }
static std::string serialPkt(uint32_t v) { std::string p; for (int i = 24; i >= 0; i -= 8) p += (char)(v >> i); return tbPkt(5, p); }
static uint32_t nextSerial() { ++W->serialsGiven; uint32_t b = W->serialBase + W->serialsGiven; return W->serialsGiven % 5 == 3 ? 0x1a1a0000u + W->serialsGiven : b; }
static std::string tbTraffic()
{
	std::string s;
	uint32_t k = choose(K_ACTOR, 100);
	if (k < W->tbGarbage) {
		switch (choose(K_ACTOR, 6)) {
		case 0: return rnd(K_ACTOR, 1 + choose(K_ACTOR, 30));
		case 1: return tbPkt(choose(K_ACTOR, 12), "", choose(K_ACTOR, 4));                                      // length < 4
		case 2: return tbPkt(choose(K_ACTOR, 12), rnd(K_ACTOR, 8), 129 + choose(K_ACTOR, 65000));                // length > 128
		case 3: { s = tbPkt(4, rnd(K_ACTOR, 2)); s.resize(1 + choose(K_ACTOR, (uint32_t)s.size() - 1)); return s; } // cut
		case 4: return tbPkt(choose(K_ACTOR, 65536), rnd(K_ACTOR, 124));                                          // maximum length
		default: { s = tbPkt(choose(K_ACTOR, 6), rnd(K_ACTOR, choose(K_ACTOR, 12))); break; }                      // wrong sizes
		}
		return s;
	}
	if (RSHELL && W->manage && !W->healed && choose(K_ACTOR, 100) < W->manage) {
		switch (choose(K_ACTOR, UART ? 6 : 1)) { case 1: return tbPkt(1, ""); case 2: return tbPkt(2, ""); case 3: return tbPkt(3, ""); }
		return tbPkt(0, rnd(K_ACTOR, 6));
	}
	switch (choose(K_ACTOR, 8)) {
	case 0: case 1: case 2: case 3: { std::string p; p += (char)(uint8_t[]){1, 2, 3, 2, 1, 0x80, 0x82, 0}[choose(K_ACTOR, 8)]; p += (char)choose(K_ACTOR, 4); if (choose(K_ACTOR, 4) == 3) p[1] = (char)choose(K_ACTOR, 256); return tbPkt(4, p); }
	case 4: return tbPkt(6 + choose(K_ACTOR, 300), rnd(K_ACTOR, choose(K_ACTOR, 60)));                       // unknown type
	case 5: return tbPkt(4, rnd(K_ACTOR, (uint32_t[]){0, 1, 3, 4}[choose(K_ACTOR, 4)]));                      // wrong size
	case 6: if (choose(K_ACTOR, 2)) return RSHELL && choose(K_ACTOR, 2) ? tbPkt(0, rnd(K_ACTOR, 5 + 2 * choose(K_ACTOR, 2))) : tbPkt(0, rnd(K_ACTOR, 6)); return tbPkt(1 + choose(K_ACTOR, RADARCAPE ? 0 + 1 : 3), rnd(K_ACTOR, 3)); // not supported by the feeder
	default: if (W->unsolicited && choose(K_ACTOR, 3) == 0) return serialPkt(nextSerial()); return tbPkt(65535 - choose(K_ACTOR, 1000), "");
	}
}
static void tbActor(Conn * c)
{
	if (!W->tbMean || c->dead || c->remoteDead || c->remoteClosed || W->quiet) return;
	ConnP k = c->shared_from_this();
	after((ns)logrange(K_ACTOR, W->tbMean / 8 + 1, (uint64_t)W->tbMean * 4) * MS, [k] {
		if (k->dead || k->remoteDead || k->remoteClosed || W->quiet) return;
		std::string s; for (int n = 1 + (int)biased(K_ACTOR, 6, 1, 4); n--;) s += tbTraffic();
		k->rsend(s.data(), s.size()); tbActor(k.get());
	});
}
void Collector::onAccept(Conn * c) { ss[c->id]; tbActor(c); }
static void serialAsked(Conn * c)
{
	Session & s = W->coll.ss[c->id]; ++s.reqs; ConnP k = c->shared_from_this(); W->unanswered++;
	ns d = (ns)logrange(K_ACTOR, 1, 2000) * MS; bool dup = false;
	if (!W->healed) switch (W->serialPolicy ? choose(K_ACTOR, W->serialPolicy + 1) : 0) {
	case 1: d = range(K_ACTOR, 5, 75) * SEC; break;               // late
	case 2: return;                                              // never
	case 3: dup = true; break;
	case 4: c->rclose(); return;
	case 5: c->rreset(); return;
	case 6: d = (ns)logrange(K_ACTOR, 1, 50) * MS; { after(d, [k] { if (!k->dead && !k->remoteDead) { std::string p = serialPkt(nextSerial()); k->rsend(p.data(), p.size()); } }); ns e = (ns)logrange(K_ACTOR, 1, 60) * MS; after(e, [k] { if (!k->dead) choose(K_ACTOR, 2) ? k->rreset() : k->rclose(); }); } return;   // answer and connection loss race
	case 7: d = 58 * SEC + (ns)choose(K_ACTOR, 4000) * MS; break;   // just around the minute
	}
	after(d, [k, dup] { if (k->dead || k->remoteDead || k->remoteClosed) return; uint32_t v = nextSerial(); std::string p = serialPkt(v); if (dup) p += choose(K_ACTOR, 2) ? serialPkt(v) : serialPkt(nextSerial()); k->rsend(p.data(), p.size()); });
}
void Collector::onData(Conn * c, const uint8_t * b, size_t n)
{
	Session & s = ss[c->id]; s.in.append((const char *)b, n);
	while (!s.bad && s.in.size() - s.pos >= 2) {
		uint8_t t = s.in[s.pos + 1]; int len = upLen(t); if ((uint8_t)s.in[s.pos] != 0x1a || len < 0) { s.bad = true; break; }
		size_t q = s.pos + 2; int got = 0; bool ok = true;
		while (got < len) { if (q >= s.in.size()) { ok = false; break; } if ((uint8_t)s.in[q] == 0x1a) { if (q + 1 >= s.in.size()) { ok = false; break; } q += 2; } else ++q; ++got; }
		if (!ok) break;
		s.pos = q; ++s.msgs;
		if (t == 65) s.dev = true; else if (t == 66) serialAsked(c); else if (t == '5') { s.ser = true; if (W->cfg.user.empty()) s.done = true; } else if (t == 67) s.done = true;
	}
}
void Collector::onFin(Conn * c) { ConnP k = c->shared_from_this(); after((ns)logrange(K_ACTOR, 1, 2000) * MS, [k] { if (!k->dead) k->rclose(); }); }
void Collector::onClosed(Conn *) {}

// ================================================================================================ receiver
static void recvActor(Conn * c)
{
	ConnP k = c->shared_from_this();
	uint32_t mean = W->liveStart != NEVER && now >= W->liveStart ? std::min(W->inMean, 400u) : W->inMean;
	after((ns)logrange(K_ACTOR, mean / 6 + 1, (uint64_t)mean * 3) * MS, [k] {
		if (k->dead || k->remoteDead || k->remoteClosed) return;
		if (!W->quiet) {
			bool live = W->liveStart != NEVER && now >= W->liveStart; std::string s;
			for (int n = 1 + (int)biased(K_ACTOR, std::max(2u, W->inBurst), 1, 3); n--;) {
				if (W->inJunk && choose(K_DATA, 100) < W->inJunk) s += W->gen.junk();
				if (W->statusFrames && choose(K_ACTOR, 12) == 11) s += W->gen.status(choose(K_ACTOR, 4) != 3);
				s += W->gen.any(live ? 95 : W->df17);
			}
			k->rsend(s.data(), s.size());
		}
		recvActor(k.get());
	});
}
void Receiver::onAccept(Conn * c)
{
	if (choose(K_ACTOR, 3) == 2) { // the connection begins in the middle of a frame
		std::string s = W->gen.any(80); if (choose(K_ACTOR, 2)) { s.clear(); for (int n = 1 + choose(K_ACTOR, 25); n--;) s += (char)choose(K_DATA, 256); } else s = s.substr(1 + choose(K_ACTOR, (uint32_t)s.size() - 1));
		c->rsend(s.data(), s.size()); probe("receiver connection begins within a frame");
	}
	if (W->statusFrames && choose(K_ACTOR, 2)) { std::string s = W->gen.status(true); c->rsend(s.data(), s.size()); }
	recvActor(c);
}
void Receiver::onFin(Conn * c) { c->rclose(); }

// ================================================================================================ nemesis
enum { N_CRESET, N_CCLOSE, N_CDIE, N_CPART, N_CSTALL, N_CMODE, N_DNSFAIL, N_DNSHANG, N_IRESET, N_ICLOSE, N_IMODE, N_IPART, N_CLOCK, N_KILL, N_MALLOC, N_SOCK, N_BURST, N_IDNS, N_GRESET, N_GCLOSE, N_GMODE, N_GPART, N_MAX };
static void eachConn(bool coll, std::function<void(Conn *)> fn) { for (auto & c : conns) if (!c->dead && !c->closedLocal && (coll ? isColl(c.get()) : isRecv(c.get()))) fn(c.get()); }
static void cutShort(Conn * c, const std::string & s) // the last data of a connection is incomplete
{
	c->rsend(s.data(), s.size()); ConnP k = c->shared_from_this(); ns d = (ns)logrange(K_NEMESIS, 1, 500) * MS; if (now + d > W->faultEnd) { c->rreset(); return; }
	after(d, [k] { if (!k->dead && !k->closedLocal) k->rreset(); });
}
static std::string gpsPos(bool good);
static bool nemesisAct(int op)
{
	ns d = (ns)logrange(K_NEMESIS, 20, 60000) * MS; auto & E = W->cEp; auto & R = W->rEp;
	if (now + d > W->faultEnd) d = std::max((ns)MS, W->faultEnd - now);
	switch (op) {
	case N_CRESET: eachConn(true, [](Conn * c) { if (choose(K_NEMESIS, 4) == 3) { std::string s = tbPkt(choose(K_NEMESIS, 2) ? 4 : choose(K_NEMESIS, 12), rnd(K_ACTOR, 2)); s.resize(1 + choose(K_NEMESIS, (uint32_t)s.size() - 1)); cutShort(c, s); } else c->rreset(); }); countFault("collector-reset"); break;
	case N_CCLOSE: eachConn(true, [](Conn * c) { c->rclose(); }); countFault("collector-close"); break;
	case N_CDIE: eachConn(true, [](Conn * c) { c->rdie(); }); countFault("collector-silent-death"); break;
	case N_CPART: for (auto e : E) { e->partitioned = true; pathChanged(e); after(d, [e] { e->partitioned = false; pathChanged(e); }); } countFault("collector-partition"); break;
	case N_CSTALL: for (auto e : E) { e->stalled = true; pathChanged(e); after(d, [e] { e->stalled = false; pathChanged(e); }); } countFault("collector-stall"); break;
	case N_CMODE: { EpMode m = (EpMode)(1 + choose(K_NEMESIS, 4)); for (auto e : E) if (choose(K_NEMESIS, 4) != 3) { e->mode = m; pathChanged(e); after(d, [e] { e->mode = EP_UP; pathChanged(e); }); } if (choose(K_NEMESIS, 2)) eachConn(true, [](Conn * c) { choose(K_NEMESIS, 2) ? c->rreset() : c->rclose(); }); countFault("collector-unreachable"); break; }
	case N_DNSFAIL: { std::string h = W->cName; dns[h].fail = (int[]){EAI_AGAIN, EAI_NONAME, EAI_FAIL, EAI_MEMORY}[choose(K_NEMESIS, 4)]; after(d, [h] { dns[h].fail = 0; }); eachConn(true, [](Conn * c) { c->rreset(); }); countFault("dns-outage"); break; }
	case N_DNSHANG: { std::string h = W->cName; dns[h].hang = true; after(d, [h] { dns[h].hang = false; }); eachConn(true, [](Conn * c) { c->rreset(); }); countFault("dns-hang"); break; }
	case N_IRESET: eachConn(false, [](Conn * c) { if (choose(K_NEMESIS, 2)) { std::string s = W->gen.any(95); s.resize(1 + choose(K_NEMESIS, (uint32_t)s.size() - 1)); cutShort(c, s); probe("receiver connection is reset within a frame"); } else c->rreset(); }); countFault("receiver-reset"); break;
	case N_ICLOSE: eachConn(false, [](Conn * c) { if (choose(K_NEMESIS, 3)) { std::string s = W->gen.any(95); s.resize(1 + choose(K_NEMESIS, (uint32_t)s.size() - 1)); c->rsend(s.data(), s.size()); probe("receiver connection ends within a frame"); } c->rclose(); }); countFault("receiver-close"); break;
	case N_IMODE: { EpMode m = (EpMode)(1 + choose(K_NEMESIS, 4)); for (auto e : R) { e->mode = m; pathChanged(e); after(d, [e] { e->mode = EP_UP; pathChanged(e); }); } if (choose(K_NEMESIS, 2)) eachConn(false, [](Conn * c) { choose(K_NEMESIS, 2) ? c->rreset() : c->rclose(); }); countFault("receiver-unreachable"); break; }
	case N_IPART: for (auto e : R) { e->partitioned = true; pathChanged(e); after(d, [e] { e->partitioned = false; pathChanged(e); }); } countFault("receiver-partition"); break;
	case N_CLOCK: { ns j = (ns)logrange(K_CLOCK, 10, 7200 * 1000) * MS; if (wall() < 4000000000 * SEC && choose(K_CLOCK, 6) == 5) j = (ns)logrange(K_CLOCK, 7200, 500000000) * SEC; W->jumps.push_back({now, j}); clockJump(j); countFault("clock-jump"); break; }
	case N_KILL: if (procAlive && !W->stopping) { countFault("process-kill"); W->life().killed = true; killProcess(END_KILLED, SIGKILL); } break;
	case N_MALLOC: { setRate(K_MALLOC, 65536 / (1 + choose(K_NEMESIS, 8))); ns b = (ns)logrange(K_NEMESIS, 1, 2000) * MS; after(b, [] { setRate(K_MALLOC, 0); }); break; }
	case N_SOCK: { setRate(K_SOCKFAIL, 65536 / (1 + choose(K_NEMESIS, 3))); after(d, [] { setRate(K_SOCKFAIL, 0); }); eachConn(choose(K_NEMESIS, 2), [](Conn * c) { c->rreset(); }); break; }
	case N_BURST: eachConn(false, [](Conn * c) { std::string s; for (int n = (int)logrange(K_NEMESIS, 3, 150); n--;) s += W->gen.any(95); c->rsend(s.data(), s.size()); }); countFault("frame-burst"); break;
	case N_IDNS: dns[W->cfg.inHost].fail = EAI_AGAIN; after(d, [] { dns[W->cfg.inHost].fail = 0; }); countFault("dns-outage"); break;
	case N_GRESET: for (auto & c : conns) if (isGps(c.get()) && !c->dead && !c->closedLocal) { if (choose(K_NEMESIS, 2)) { std::string s = gpsPos(true); s.resize(1 + choose(K_NEMESIS, (uint32_t)s.size() - 1)); cutShort(c.get(), s); } else c->rreset(); } if (!W->gEp.empty()) countFault("gps-reset"); break;
	case N_GCLOSE: for (auto & c : conns) if (isGps(c.get()) && !c->dead && !c->closedLocal) c->rclose(); if (!W->gEp.empty()) countFault("gps-close"); break;
	case N_GMODE: { EpMode m = (EpMode)(1 + choose(K_NEMESIS, 4)); for (auto e : W->gEp) { e->mode = m; pathChanged(e); after(d, [e] { e->mode = EP_UP; pathChanged(e); }); countFault("gps-unreachable"); } if (choose(K_NEMESIS, 3)) for (auto & c : conns) if (isGps(c.get()) && !c->dead && !c->closedLocal) c->rclose(); break; }
	case N_GPART: for (auto e : W->gEp) { e->partitioned = true; pathChanged(e); after(d, [e] { e->partitioned = false; pathChanged(e); }); countFault("gps-partition"); } break;
	}
	return true;
}
static void nemesis()
{
	after((ns)logrange(K_NEMESIS, W->nemMean / 20 / MS + 1, W->nemMean * 3 / MS) * MS, [] {
		if (W->healed) return;
		std::vector<int> ops; for (int i = 0; i < N_MAX; ++i) if (W->nemOps >> i & 1) ops.push_back(i);
		if (!ops.empty()) { uint32_t k = choose(K_NEMESIS, (uint32_t)ops.size() + 1); if (k) { int op = ops[k - 1]; tr("nemesis %d", op); th(0x4e, op); nemesisAct(op); } }
		nemesis();
	});
}

// Profile addr: which addresses of a host accept connections, and which the name server returns, changes all the time.
static void addrSweep(std::string host, std::vector<Endpoint *> E, ns mean)
{
	auto & L = dns[host].addrs; size_t n = E.size(); uint32_t pat = choose(K_NEMESIS, 5); size_t one = choose(K_NEMESIS, (uint32_t)n);
	for (size_t i = 0; i < n; ++i) {
		bool up = pat == 0 || (pat == 2 || pat == 3 ? i == one : pat == 4 && choose(K_NEMESIS, 2));   // 1: none
		E[i]->mode = up ? EP_UP : (EpMode[]){EP_REFUSE, EP_REFUSE, EP_REFUSE, EP_NETUNREACH, EP_HOSTUNREACH, EP_DROP}[choose(K_NEMESIS, 6)]; pathChanged(E[i]);
	}
	if (pat) { for (auto & c : conns) if (!c->dead && !c->closedLocal && std::find(E.begin(), E.end(), c->ep) != E.end()) choose(K_NEMESIS, 2) ? c->rreset() : c->rclose(); countFault(pat == 1 ? "all-addresses-down" : "some-addresses-down"); }
	if (choose(K_NEMESIS, 3) == 2) { // the name server changes its answer
		L.clear(); for (auto e : E) if (choose(K_NEMESIS, 4)) L.push_back({e->family, e->ip});
		if (L.empty()) L.push_back({E[one]->family, E[one]->ip});
		for (int k = choose(K_NEMESIS, 3); k--;) { static const int fams[] = { 4 /* IPX */, 5 /* AppleTalk */, 9 /* X.25 */ }; L.insert(L.begin() + choose(K_NEMESIS, (uint32_t)L.size() + 1), { fams[k], "unsupported-" + std::to_string(k) }); countFault("unknown-address-family"); }
		countFault("addresses-changed");
	}
	after((ns)logrange(K_NEMESIS, mean / 10 / MS + 1, mean * 3 / MS) * MS, [host, E, mean] { if (!W->healed && !W->ended) addrSweep(host, E, mean); });
}

// ================================================================================================ life cycle
static void analyse();
static void finish() { if (W->ended) return; W->ended = true; if (!violated() || !stopRun) analyse(); endRun(); }
static void rcStart(); static bool rcEnded(EndHow, bool); static bool rcUnconfigured(); static void rcTick(); static void rcAtRest();
// Order in which the daemon says it initialises, starts, stops and destroys its parts. Lines of several threads may be mixed up, thus a missing one proves nothing.
struct PartOrder { std::set<std::string> init, start, stop, des; };
static PartOrder PO;
static const std::map<std::string, std::vector<std::string>> & partDeps()
{
	static std::map<std::string, std::vector<std::string>> m;
	if (m.empty()) { m = { {"RELAY", {"NET", "BUF"}}, {"RECV", {"BUF", "RC", "FILTER"}}, {"TB", {"NET"}}, {"WD", {"GPIO"}}, {"FPGA", {"GPIO"}} }; if (!RADARCAPE) m["SERIAL"] = {"TB"}; if (RADARCAPE) m["GPS"] = {"NET"}; for (const char * x : { "NET", "BUF", "FILTER", "RC", "GPIO", "STAT", "POS", "DEVTYPE", "SERIAL", "GPS" }) m[x]; }
	return m;
}
static void partLine(const std::string & l)
{
	static const char * const verbs[] = { "Initialize ", "Start ", "Stopping ", "Destruct " };
	for (int v = 0; v < 4; ++v) {
		size_t p = l.find(verbs[v]); if (p == std::string::npos) continue;
		p += strlen(verbs[v]); size_t e = p; while (e < l.size() && l[e] >= 'A' && l[e] <= 'Z') ++e; std::string n = l.substr(p, e - p);
		if ((e < l.size() && l[e] != '[') || !partDeps().count(n)) continue;
		std::set<std::string> & mine = v == 0 ? PO.init : v == 1 ? PO.start : v == 2 ? PO.stop : PO.des;
		th(0xc16, v, n.size()); probe(v == 0 ? "parts initialised" : v == 1 ? "parts started" : v == 2 ? "parts stopped" : "parts destroyed");
		if (v == 0 && mine.count(n)) violation("comp.twice", "C16", "%s is initialised twice", n.c_str());
		if (v == 2 && mine.count(n)) { probe("deferred stop of a part"); continue; }
		for (auto & d : partDeps().at(n)) {
			if (v == 0 && !PO.init.count(d)) violation("comp.order", "C16", "%s is initialised before %s, which it needs", n.c_str(), d.c_str());
			if (v == 1 && !PO.start.count(d) && d != "BUF") violation("comp.order", "C16", "%s is started before %s, which it needs", n.c_str(), d.c_str());
			if (v == 2 && PO.stop.count(d)) violation("comp.order", "C16", "%s is stopped after %s, which it needs", n.c_str(), d.c_str());
			if (v == 3 && PO.des.count(d)) violation("comp.order", "C16", "%s is destroyed after %s, which it needs", n.c_str(), d.c_str());
		}
		if (v == 3 && mine.count(n)) violation("comp.twice", "C16", "%s is destroyed twice", n.c_str());
		mine.insert(n);
	}
}
static void startLife()
{
	PO = PartOrder();
	rcStart();
	Life l; l.no = procNo + 1; l.t0 = now; l.seq0 = ++seqno; W->lives.push_back(l); W->stat = StatParser(); W->stall.clear();
	W->blk0 = arenaBlocks; startProcess(W->argv); W->lives.back().no = procNo;
	tr("=== process %d started", procNo);
}
static void stopNow();
static void processEnded(EndHow how, int status)
{
	Life & l = W->life(); l.t1 = now; l.seq1 = ++seqno; l.how = how; l.status = status; l.ended = true; l.emerg = lastEmerg; l.reports = W->stat.reports; l.mallocs = mallocFail.n; l.socks = sockFails;
	tr("=== process %d ended: %s status %d thread %s %s", l.no, how == END_EXIT ? "exit" : how == END_ABORT ? "abort" : how == END_KILLED ? "killed" : "exec", status, endThread.c_str(), l.emerg.c_str());
	if (W->mustAbort && everWaited) violation("cfg.accepted", "C25", "an inconsistent configuration is accepted");
	bool stopped = W->stopping; std::string left = liveAtExit, fdl = fdsAtExit; size_t no = openAtExit; bool started = everWaited;
	auto fm = mallocFail.fibers; uint32_t ef = endFiber; uint64_t mfn = mallocFail.n, tf = threadFails, ff = fileFails; std::string th = endThread; bool fpgaBad = rcEnded(how, started), fpgaOpen = !started && rcUnconfigured();
	size_t blocks = arenaBlocks; sysKill();
	if (how == END_EXIT) {
		size_t argv = W->argv.size() + 1; // allocated by the simulator
		if (blocks > W->blk0 + argv + 6) violation("mem.leak", "C21,C26", "%zu blocks of memory are still allocated when the daemon has stopped", blocks - W->blk0 - argv);
		if (!stopped) violation("proc.exit", "C26,C05,C15", "the daemon ended by itself (status %d)", status);
		else {
			if (status != 0) violation("stop.status", "C15", "the daemon was asked to stop and exits with status %d", status);
			if (!left.empty()) violation("stop.threads", "C15", "the daemon exits although threads are still running: %s", left.c_str());
			if (no) violation("fd.leftover", "C21,C15", "after stopping, descriptors are still open: %s", fdl.c_str());
		}
	} else if (how == END_ABORT) {
		bool ok = false;
		if (l.emerg.empty()) { violation("proc.abort", "*", "the daemon aborts without a reason (thread %s)", th.c_str()); }
		else {
			if (!started) ok = W->inconsistent || mfn || tf || ff || fpgaBad;
			else {
				if (mfn && fm.count(ef)) ok = true;                                  // out of memory while connecting
				if (ff && l.emerg.find("erial") != std::string::npos) ok = true;   // the serial number cannot be stored
			}
			if (ok) { countFault("allowed-abort"); probe(started ? "documented abort while running" : "documented abort at start"); }
			else violation("proc.emerg", fpgaOpen ? "C26,C05,C20" : "C26,C05,C13", "the daemon gives up without one of the documented reasons: %s (thread %s)", l.emerg.c_str(), th.c_str());
		}
	} else if (how == END_KILLED) {
		if (!l.killed) violation("proc.killed", "C26", "the daemon is killed by signal %d", status);
	}
	if (how == END_EXEC) { // the daemon replaced itself
		W->stopping = false; probe("daemon replaced itself"); if (W->healed) W->replacedLate = true; // what must have recovered by now starts again
		after(choose(K_ACTOR, 30) * MS, [stopped] { if (W->ended || procAlive) return; startLife(); if (stopped) stopNow(); }); return;
	}
	if (W->inconsistent && how == END_ABORT) { finish(); return; }
	if (violated() && stopRun) return;
	if (stopped) {
		W->stopping = false;
		if (W->cycles-- <= 0 || W->healed) { finish(); return; }
	}
	ns d = (ns)logrange(K_KILL, 500, 5000) * MS;
	after(d, [] { if (!W->ended && !procAlive) startLife(); });
}
static void stopNow()
{
	if (W->ended || W->stopping) return;
	if (!procAlive || !mainInSigwait()) {
		if (W->healed && (!procAlive || now - W->life().t0 > 15 * SEC) && now > W->faultEnd + 20 * SEC) { violation("stop.notwaiting", "C15,C05", "the daemon does not react to a stop request: main thread is not waiting for it"); finish(); return; }
		after(100 * MS, stopNow); return;
	}
	W->stopping = true; W->life().sigT = now; W->life().sigSeq = ++seqno; int no = W->life().no;
	tr("=== SIGINT"); dumpFibers("SIGINT"); probe("stop requested"); sendSignal(SIGINT);
	after((stallsOn() ? 30 : 15) * SEC + W->stopSlack, [no] {
		if (W->ended || !procAlive || W->life().no != no) return;
		violation("stop.hang", "C15", "a stop request is not completed within 15 s; threads: %s", liveThreads(nullptr).c_str());
		finish();
	});
}
static Conn * openColl() { Conn * r = nullptr; for (auto & c : conns) if (isColl(c.get()) && c->proc == procNo && !c->dead && !c->closedLocal && !W->shutSeq.count(c->id)) r = c.get(); return r; }
static Conn * openRecv() { Conn * r = nullptr; for (auto & c : conns) if (isRecv(c.get()) && c->proc == procNo && !c->dead && !c->closedLocal) r = c.get(); return r; }
static bool loggedIn(Conn * c)
{
	UpParse u = parseUp(c); bool d = false, s = false, us = W->cfg.user.empty();
	for (auto & m : u.msgs) if (m.complete) { if (m.type == 65) d = true; if (m.type == '5') s = true; if (m.type == 67) us = true; }
	return d && s && us;
}
static void heal()
{
	W->healed = true; faultsEnabled = false; tr("=== faults end");
	for (int k = 0; k < K_MAX; ++k) setRate((Kind)k, 0);
	for (auto & e : endpoints) { e->mode = EP_UP; e->partitioned = e->stalled = false; e->sndbuf = e->rcvwnd = 65536; e->latHi = std::min(e->latHi, 40 * MS); e->latLo = std::min(e->latLo, e->latHi); for (auto c : e->conns) c->sndbuf = c->rcvwnd = 65536; pathChanged(e.get()); }
	for (auto & d : dns) { d.second.fail = 0; d.second.hang = false; }
	fsFaultFilter = nullptr; diskFullAfter = -1;
}
static void beginLive()
{
	W->liveStart = now; tr("=== live phase"); dumpFibers("live");
	if (!procAlive) { violation("recover.dead", "C05,C26", "after all faults ended the daemon does not stay up: %s", W->life().emerg.c_str()); finish(); return; }
	Conn * c = openColl(), * r = openRecv();
	if (!c) violation("recover.offline", "C05,C13", "%.0f s after all faults ended the sensor is not connected to the collector", (now - W->faultEnd) / 1e9);
	else if (!loggedIn(c)) violation("recover.nologin", "C05,C13", "%.0f s after all faults ended the sensor is connected but not logged in", (now - W->faultEnd) / 1e9);
	if (!r && !W->noRecv) violation("recover.noinput", "C10", "%.0f s after all faults ended the sensor is not connected to the receiver", (now - W->faultEnd) / 1e9);
	if (!W->gEp.empty()) { bool g = false; for (auto & k : conns) if (isGps(k.get()) && k->proc == procNo && !k->dead && !k->closedLocal) g = true; if (!g) violation("recover.nogps", "C19", "%.0f s after all faults ended the sensor is not connected to the GPS receiver", (now - W->faultEnd) / 1e9); }
	if (r && W->statusFrames) { std::string s = W->gen.status(true); r->rsend(s.data(), s.size()); }
}
static void tick()
{
	after(SEC, [] { if (!W->ended) tick(); });
	if (!procAlive) return;
	if (W->mustAbort && everWaited) violation("cfg.accepted", "C25", "an inconsistent configuration is accepted");
	rcTick();
	uint64_t sig = 0; for (auto & f : fibers) if (f.state == F_BLOCKED) { uint64_t x = 0; for (char ch : f.name) x = x * 31 + ch; sig += (x * 64 + f.bk * 2 + !f.held.empty()) * 0x9e3779b97f4a7c15ULL; }
	Conn * c = openColl(); sig = sig * 31 + (c ? 1 + (c->ep->stalled ? 2 : 0) + (c->ep->partitioned ? 4 : 0) : 0); sig = sig * 31 + (openRecv() != nullptr) + 2 * W->healed + 4 * W->stopping; stateSig(sig);
	if (openFds() > 8) violation("fd.growth", "C21,C10", "%zu descriptors are open: %s", openFds(), openFdList().c_str());
	if (!W->stopping) for (auto & k : conns) if ((isRecv(k.get()) || (isColl(k.get()) && !W->shutAt.count(k->id) && everWaited)) && k->proc == procNo && !k->closedLocal && !k->dead) {
		auto & s = W->stall[k->id];
		if (k->downArrived == k->downRead || s.first != k->downRead || s.second == 0) { s = { k->downRead, k->downArrived == k->downRead ? 0 : now }; }
		else if (now - s.second > (stallsOn() && !W->healed ? 6 : 3) * SEC && isColl(k.get())) { violation("commands.stalled", "C24,C07", "commands from the collector have been waiting unread for %.1f s (connection %d)", (now - s.second) / 1e9, k->id); s.second = 0; }
		else if (now - s.second > (stallsOn() && !W->healed ? 6 : 3) * SEC) { violation("input.stalled", "C24,C10", "data from the receiver has been waiting unread for %.1f s (connection %d)", (now - s.second) / 1e9, k->id); s.second = 0; }
	}
}
static void beginQuiet()
{
	W->quiet = true; W->quietStart = now; tr("=== quiet");
	after(2500 * MS, [] {
		if (W->ended || !procAlive || W->replacedLate) return;
		if (openFds() != W->regularFds) violation("fd.leak", "C21,C10", "in the steady state %llu descriptors are needed, but %zu are open: %s", (unsigned long long)W->regularFds, openFds(), openFdList().c_str());
		rcAtRest();
	});
}

// ================================================================================================ oracles
#include "oracle_feed.h"

// ================================================================================================ set-up
static std::string fmtd(double d) { char b[40]; snprintf(b, sizeof b, "%.6f", d); return b; }
#include "scen_config.h"
static void writeConfigFpga(std::vector<std::pair<std::string, std::string>> &);
static void emitConfig(CfgMap & s, const std::string & path)
{
	if (!prof("config")) { fsPut(path, confFile(s)); return; }
	// corrections the documentation announces, and inconsistent settings
	Cfg & c = W->cfg; auto raw = [&](const char * sec, const char * key, const char * v) { for (auto & k : s[sec]) if (k.first == key) k.second = v; };
	if (c.statB == 2 && choose(K_PLAN, 2)) raw("BUFFER", "StaticBacklog", choose(K_PLAN, 2) ? "1" : "0");
	if (c.dynB == 1 && choose(K_PLAN, 2)) raw("BUFFER", "DynamicBacklog", "0");
	if (c.gcInt == 1 && choose(K_PLAN, 2)) raw("BUFFER", "GCInterval", "0");
	if (c.gcLevel == 1 && choose(K_PLAN, 2)) raw("BUFFER", "GCLevel", "0");
	if (c.statInt == 1) raw("STATISTICS", "Interval", "0");
	if (!c.history && choose(K_PLAN, 2)) raw("BUFFER", "GC", "true");
	if (c.timeout == 1500 && choose(K_PLAN, 6) == 5) raw("NETWORK", "Timeout", "0");
	if (choose(K_PLAN, 16) == 15) {
		W->mustAbort = W->inconsistent = true;
		switch (choose(K_PLAN, RADARCAPE ? 1 : 6)) {
		case 0: raw("NETWORK", "Port", "0"); break; case 1: raw("INPUT", "port", "0"); break; case 2: raw("GPS", "Latitude", "90.001"); break;
		case 3: raw("GPS", "Longitude", "-180.5"); break; case 4: s["GPS"].erase(s["GPS"].begin() + choose(K_PLAN, 3)); break; case 5: raw("GPS", "Latitude", "-1e9"); break;
		}
	}
	scatterConfig(s);
}
static void writeConfigRc()
{
	Cfg & c = W->cfg; std::map<std::string, std::vector<std::pair<std::string, std::string>>> s;
	auto b = [](bool x) { return std::string(x ? "true" : "false"); }; auto u = [](uint64_t x) { return std::to_string(x); };
	s["NETWORK"] = {{"Host", c.host}, {"Port", u(c.port)}, {"Timeout", u(c.timeout)}};
	s["INPUT"] = {{"fec", b(c.fec)}}; if (!UART) { s["INPUT"].push_back({"host", c.inHost}); s["INPUT"].push_back({"port", u(c.inPort)}); s["GPS"] = {{"Host", c.gpsHost}, {"Port", u(c.gpsPort)}}; }
	s["BUFFER"] = {{"StaticBacklog", u(c.statB)}, {"DynamicBacklog", u(c.dynB)}, {"DynamicIncrements", u(c.dynI)}, {"History", b(c.history)}, {"GC", b(c.gc)}, {"GCInterval", u(c.gcInt)}, {"GCLevel", u(c.gcLevel)}};
	s["FILTER"] = {{"CRC", b(c.crc)}, {"ModeSExtSquitterOnly", b(c.ext)}, {"SyncFilter", b(c.sync)}};
	s["STATISTICS"] = {{"Enabled", b(c.statEn)}, {"Interval", u(c.statInt)}};
	if (UART) writeConfigFpga(s["FPGA"]);
	if (c.serialInFile) s["DEVICE"] = {{"serial", u(c.serial)}};
	if (macMode != 2) { fsMkdirs("/sys/class/net/eth0"); fsPut("/sys/class/net/eth0/address", macAddr + "\n"); }
	else if (choose(K_PLAN, 2)) { fsMkdirs("/sys/class/net/eth0"); static const char * BAD[] = { "", "\n", "b8:27:eb\n", "b8:27:eb:12:34\n", "b8:27:eb:12:34:\n", "none\n", "b8-27-eb-12-34-56\n" }; fsPut("/sys/class/net/eth0/address", BAD[choose(K_PLAN, 7)]); countFault("mac-unparsable"); }
	emitConfig(s, std::string(ETC) + "/openskyd.conf");
}
static void writeConfig()
{
	if (RADARCAPE) { writeConfigRc(); return; }
	Cfg & c = W->cfg; std::map<std::string, std::vector<std::pair<std::string, std::string>>> s;
	auto b = [](bool x) { return std::string(x ? "true" : "false"); }; auto u = [](uint64_t x) { return std::to_string(x); };
	s["NETWORK"] = {{"Host", c.host}, {"Port", u(c.port)}, {"Timeout", u(c.timeout)}};
	s["INPUT"] = {{"host", c.inHost}, {"port", u(c.inPort)}};
	s["BUFFER"] = {{"StaticBacklog", u(c.statB)}, {"DynamicBacklog", u(c.dynB)}, {"DynamicIncrements", u(c.dynI)}, {"History", b(c.history)}, {"GC", b(c.gc)}, {"GCInterval", u(c.gcInt)}, {"GCLevel", u(c.gcLevel)}};
	s["FILTER"] = {{"CRC", b(c.crc)}, {"ModeSExtSquitterOnly", b(c.ext)}, {"SyncFilter", b(c.sync)}};
	s["STATISTICS"] = {{"Enabled", b(c.statEn)}, {"Interval", u(c.statInt)}};
	if (!c.user.empty()) s["IDENT"] = {{"Username", c.user}};
	s["GPS"] = {{"Latitude", fmtd(c.lat)}, {"Longitude", fmtd(c.lon)}, {"Altitude", fmtd(c.alt)}};
	if (c.hasSerial) s["Device"].push_back({"serial", u(c.serial)});
	if (!c.devTypeStr.empty()) s["Device"].push_back({"Type", c.devTypeStr});
	emitConfig(s, std::string(ETC) + "/conf.d/10-debconf.conf");
}
static void planConfig()
{
	Cfg & c = W->cfg;
	c.lat = range(K_PLAN, -90000000, 90000000) / 1e6; c.lon = range(K_PLAN, -180000000, 180000000) / 1e6; c.alt = range(K_PLAN, -500000, 9000000) / 1e3; c.hasPos = true;
	switch (choose(K_PLAN, 24)) { case 20: c.lat = 90; break; case 21: c.lat = -90; break; case 22: c.lon = 180; break; case 23: c.lon = -180; break; }
	c.lat = strtod(fmtd(c.lat).c_str(), 0); c.lon = strtod(fmtd(c.lon).c_str(), 0); c.alt = strtod(fmtd(c.alt).c_str(), 0);
	if (choose(K_PLAN, 2)) { int n = 1 + choose(K_PLAN, 44); if (n > 39) n = 39; bool sub = choose(K_PLAN, 12) == 11; while (n--) c.user += (char)(sub && choose(K_PLAN, 2) ? 0x1a : "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-.@"[choose(K_PLAN, 46)]); }
	c.hasSerial = !(prof("serial") || choose(K_PLAN, 4) == 3); c.serial = (uint32_t)range(K_PLAN, 1, 0x7fffffff); if (choose(K_PLAN, 5) == 4) c.serial = 0x1a1a1a1a;
	c.timeout = pick({1500, 500, 1000, 3000, 5000, 700});
	c.statB = pick({200, 2, 3, 5, 10, 40}); c.dynB = pick({1000, 1, 2, 3, 10, 50}); c.dynI = pick({1080, 0, 1, 2, 5});
	c.history = prof("history") || choose(K_PLAN, 3) == 2;
	if (prof("overload")) { c.statB = pick({2, 3, 5, 10, 20}); c.dynB = pick({1, 2, 5, 10}); c.dynI = pick({0, 1, 2, 5}); c.history = choose(K_PLAN, 2); }
	c.gc = c.history && choose(K_PLAN, 2); c.gcInt = pick({120, 1, 3, 10, 20}); c.gcLevel = pick({2, 1, 3, 10});
	c.ext = choose(K_PLAN, 2) == 0; c.sync = choose(K_PLAN, 4) == 3;
	c.statInt = pick({600, 5, 13, 30, 2}); if (prof("stats")) c.statInt = pick({5, 3, 7, 10}); c.statEn = prof("stats") || choose(K_PLAN, 6) != 5;
#if !defined(P_DONATED) && !defined(P_KIT) && !defined(P_RC) && !defined(P_RCNET)
	switch (choose(K_PLAN, 8)) { case 4: c.devTypeStr = "hptoa"; c.devType = 8; break; case 5: c.devTypeStr = "OpenSky"; c.devType = 8; break; case 6: c.devTypeStr = "HPTOA"; c.devType = 8; break; case 7: c.devTypeStr = (const char *[]){"default", "open", "hpto", "hptoa2", "openskyd", "xhptoa", "opensky hptoa"}[choose(K_PLAN, 7)]; break; }
#endif
	if (RADARCAPE) {
		c.hasPos = false; c.user.clear(); c.serialInFile = choose(K_PLAN, 2); c.sync = choose(K_PLAN, 3) != 2; c.crc = choose(K_PLAN, 2) == 0; c.fec = choose(K_PLAN, 2) == 0; c.hasSerial = true;
		unsigned m[6]; for (auto & x : m) x = choose(K_PLAN, 3) == 2 ? 0x1a : choose(K_PLAN, 256); char a[40]; snprintf(a, sizeof a, "%02x:%02x:%02x:%02x:%02x:%02x", m[0], m[1], m[2], m[3], m[4], m[5]); macAddr = a;
		if (!c.serialInFile) c.serial = (m[2] << 24 | m[3] << 16 | m[4] << 8 | m[5]) & 0x7fffffff;
		macMode = choose(K_PLAN, 4) == 3 ? choose(K_PLAN, 2) ? 3 : 1 : 0; if (!c.serialInFile && choose(K_PLAN, 24) == 23) { macMode = 2; W->inconsistent = true; }
	}
	if (prof("config")) { c.statB = pick({200, 2, 2, 5}); c.dynB = pick({1000, 1, 1, 3}); c.gcInt = pick({120, 1, 1, 3}); c.gcLevel = pick({2, 1, 1, 3}); c.statInt = pick({600, 1, 5, 13}); }
	if (prof("idle")) { c.timeout = pick({1500, 400, 1000, 2500, 8000, 300}); c.sync = false; }
}
static void swarmRate(Kind k, std::initializer_list<uint32_t> l) { setRate(k, l.begin()[choose(K_PLAN, (uint32_t)l.size())]); }
static void planFaults()
{
	bool calm = choose(K_PLAN, 8) == 0;
	uint32_t ops = 0; for (int i = 0; i < N_MAX; ++i) if (choose(K_PLAN, 3) == 2) ops |= 1u << i;
	if (choose(K_PLAN, 3)) ops &= ~(1u << N_KILL);
	if (choose(K_PLAN, 3)) ops &= ~(1u << N_CLOCK);
	if (choose(K_PLAN, 4)) ops &= ~(1u << N_MALLOC);
	if (prof("oom")) ops |= 1u << N_MALLOC;
	if (prof("serial")) { ops |= (1u << N_CRESET) | (1u << N_KILL); }
	if (prof("history") || prof("overload")) ops |= (1u << (N_CRESET + choose(K_PLAN, 6)));
	if (prof("idle") || prof("stats")) { if (choose(K_PLAN, 2)) ops &= (1u << N_CRESET | 1u << N_CSTALL | 1u << N_CCLOSE | 1u << N_BURST); }
	W->nemOps = calm ? 0 : ops;
	W->nemMean = (ns)pick({8000, 1000, 3000, 20000, 400}) * MS;
	if (prof("stats") && W->inMean == 60000) { W->nemOps &= 1u << N_CRESET | 1u << N_CCLOSE; if (!calm) { W->nemOps |= 1u << N_CRESET; W->nemMean = pick({2000, 5000}) * MS; } } // several connections are lost before the idle sender notices
	swarmRate(K_SHORTRECV, {0, 0, 5000, 30000}); swarmRate(K_SHORTSEND, {0, 8000, 40000});
	swarmRate(K_SPURIOUS, {0, 0, 500, 4000});
	swarmRate(K_CONNECT, {0, 0, 6000, 25000}); swarmRate(K_DNS, {0, 0, 4000, 15000});
	if (prof("oom")) { swarmRate(K_MALLOC, {0, 2000, 10000}); swarmRate(K_THREADFAIL, {0, 0, 3000}); swarmRate(K_SOCKFAIL, {0, 4000, 20000}); }
	if (calm) for (Kind k : { K_CONNECT, K_DNS, K_MALLOC, K_THREADFAIL, K_SOCKFAIL }) setRate(k, 0);
	if ((prof("serial") || prof("oom")) && choose(K_PLAN, 2)) {
		W->fsFaults = true; uint32_t p = pick({5, 15, 40});
		fsFaultFilter = [p](const char * op, const std::string & path) -> int {
			if (path.compare(0, strlen(STATE), STATE) || !faultsEnabled || !everWaited) return 0;
			if (!coin(K_FILEFAIL, p, 100)) return 0;
			++fileFails; countFault((std::string("file-") + op).c_str()); return (int[]){EIO, ENOSPC, EACCES, EROFS}[choose(K_FILEFAIL, 4)];
		};
	}
}
static void planTraffic()
{
	W->inMean = pick({500, 100, 1500, 5000}); W->inBurst = pick({4, 1, 20, 40}); W->df17 = pick({80, 50, 95}); W->inJunk = pick({0, 0, 5}); W->statusFrames = choose(K_PLAN, 4) != 3; W->gen.escBias = pick({0, 1, 3});
	W->tbMean = pick({0, 5000, 1000, 20000}); W->tbGarbage = pick({0, 0, 10});
	W->serialPolicy = pick({0, 3, 7}); W->unsolicited = false; W->serialBase = (uint32_t)range(K_PLAN, 1, 1000000) * 100;
	if (prof("garbage")) { W->inJunk = pick({20, 40, 60}); W->tbGarbage = pick({30, 60}); W->tbMean = pick({500, 2000}); W->inMean = pick({100, 300}); }
	if (prof("talkback")) { W->tbMean = pick({100, 400, 1500}); W->tbGarbage = pick({0, 10, 40}); }
	if (prof("overload")) { W->inMean = pick({20, 60, 200}); W->inBurst = pick({10, 40, 80}); W->cfg.ext = false; W->df17 = 95; }
	if (prof("idle")) { W->inMean = pick({3000, 10000, 60000}); W->inBurst = pick({1, 3}); }
	if (prof("serial")) { W->serialPolicy = pick({7, 3, 0}); W->unsolicited = choose(K_PLAN, 2); if (W->unsolicited) W->tbMean = pick({1000, 5000}); W->inMean = pick({1500, 500}); }
	if (prof("stats")) { W->inMean = pick({50, 200, 500}); if (choose(K_PLAN, 4) == 3) { W->inMean = 60000; W->inBurst = 1; W->cfg.timeout = pick({8000, 20000, 4000}); } }
	if (prof("addr")) { W->inMean = pick({5000, 20000}); W->inBurst = 2; W->tbMean = 0; }
}
#include "rc_dev.h"
#include "setup_extra.h"
static void planWorld()
{
	Cfg & c = W->cfg;
	int n = 1 + choose(K_PLAN, 3);
	if (prof("addr")) { n = 1 + choose(K_PLAN, 6); if (choose(K_PLAN, 8) == 7) c.host = choose(K_PLAN, 2) ? "192.0.2.1" : "2001:db8::1"; if (!RADARCAPE && choose(K_PLAN, 3) == 2) c.inHost = "receiver.local"; }
	for (int i = 0; i < n; ++i) {
		bool six = choose(K_PLAN, 4) == 3; if (!i && c.host[0] == '2') six = true; else if (!i && c.host[0] == '1') six = false; std::string ip = six ? "2001:db8::" + std::to_string(i + 1) : "192.0.2." + std::to_string(i + 1);
		Endpoint * e = addEndpoint(ip, six ? AF_INET6 : AF_INET, c.port, &W->coll); W->cEp.push_back(e); dns[c.host].addrs.push_back({e->family, ip});
	}
	W->cName = c.host; dns[c.host].lat = (ns)pick({5, 50, 800}) * MS;
	if (RADARCAPE && !UART) {
		if (choose(K_PLAN, 2)) c.gpsHost = "gps.local"; if (choose(K_PLAN, 2)) c.gpsPort = 10686; if (choose(K_PLAN, 2)) c.inHost = "receiver.local";
		Endpoint * e = addEndpoint("127.0.0.2", AF_INET, c.gpsPort, &W->gps); W->gEp.push_back(e); e->latLo = MS; e->latHi = 10 * MS; dns[c.gpsHost].lat = MS; W->regularFds = 3;
		dns[c.gpsHost].addrs.push_back({AF_INET, "127.0.0.2"});
	}
	if (UART) rcWorld();
	else {
		Endpoint * r = addEndpoint("127.0.0.1", AF_INET, c.inPort, &W->recv); W->rEp.push_back(r); dns[c.inHost].addrs.push_back({AF_INET, "127.0.0.1"}); dns[c.inHost].lat = MS;
		r->latLo = 100 * US; r->latHi = 2 * MS;
		if (prof("addr") && (!RADARCAPE || c.gpsHost != c.inHost) && c.inHost.find_first_not_of("0123456789.") != std::string::npos) for (int i = choose(K_PLAN, 3); i--;) { bool six = choose(K_PLAN, 2); std::string ip = six ? "fd00::" + std::to_string(i + 1) : "10.0.0." + std::to_string(i + 1); r = addEndpoint(ip, six ? AF_INET6 : AF_INET, c.inPort, &W->recv); W->rEp.push_back(r); dns[c.inHost].addrs.push_back({r->family, ip}); r->latHi = 5 * MS; }
	}
	ns lo = (ns)pick({1, 10, 80}) * MS; size_t sb = pick({65536, 4096, 512, 128}), rw = pick({65536, 2048, 256});
	for (auto e : W->cEp) { e->latLo = lo; e->latHi = lo * pick({1, 3, 10}); e->sndbuf = sb; e->rcvwnd = rw; e->deadAfter = (ns)pick({40, 15, 90}) * SEC; }
}
}
using namespace sim;
void scenarioSetup(const std::string & profile)
{
	delete W; W = new Feed; W->profile = profile; W->argv = { "openskyd" };
	fsMkdirs("/var/lib"); fsMkdirs("/etc/openskyd/conf.d"); fsMkdirs("/var/run");
	if (prof("save")) { saveSetup(); return; }
	if (prof("config")) propAlias = "C25";
	if (choose(K_PLAN, 2)) fsMkdirs(STATE);
	planConfig(); planTraffic(); setupExtraBefore(); planWorld(); planFaults(); setupExtra(); writeConfig(); setupConfigFiles();
	onLogLine = [](const std::string & l) { W->stat.line(l); partLine(l); };
	onConnEvent = [](Conn * c, const char * w) {
		if (!strcmp(w, "shutdown") && !W->shutSeq.count(c->id)) { W->shutSeq[c->id] = seqno; W->shutAt[c->id] = now; }
	};
	onProcessEnd = processEnded;
	onDeadlock = [] { violation("deadlock", "*", "nothing can happen any more; threads: %s", liveThreads(nullptr).c_str()); finish(); };
	ns fault = range(K_PLAN, 15, prof("fpga") ? 20 : prof("shutdown") ? 60 : prof("serial") ? 150 : 90) * SEC;
	if (prof("addr")) { fault = range(K_PLAN, 60, 1200) * SEC; ns mean = (ns)pick({60, 15, 300, 2000}) * SEC; auto E = W->cEp, R = W->rEp; std::string h = W->cfg.host, ih = W->cfg.inHost; if (choose(K_PLAN, 3)) W->nemOps &= 1u << N_DNSFAIL | 1u << N_DNSHANG | 1u << N_SOCK | 1u << N_CDIE; W->nemMean *= 10; after(SEC, [=] { addrSweep(h, E, mean); }); if (!R.empty() && (!RADARCAPE || W->cfg.gpsHost != ih) && choose(K_PLAN, 2)) after(SEC, [=] { addrSweep(ih, R, mean); }); }
	W->faultEnd = now + fault;
	W->earlyStop = prof("shutdown") || prof("fpga") || choose(K_PLAN, 10) == 9;
	if (W->earlyStop) { W->cycles = prof("fpga") ? 12 : prof("shutdown") ? 2 : 0; for (int i = 0; i <= W->cycles; ++i) after((ns)logrange(K_PLAN, 5, fault / MS) * MS, stopNow); }
	ns R = 45 * SEC + 2 * (ns)W->cfg.timeout * MS + (W->cfg.hasSerial ? 0 : 90 * SEC) + W->stopSlack;
	startLife(); tick(); nemesis();
	at(W->faultEnd, [R] {
		if (W->ended) return;
		heal();
		after(R, [] {
			if (W->ended) return;
			if (W->stopping || W->replacedLate) { finish(); return; }
			beginLive(); if (W->ended || stopRun) return;
			after((ns)range(K_PLAN, 8, 20) * SEC, [] {
				if (W->ended) return;
				if (W->replacedLate) { finish(); return; }
				beginQuiet();
				ns q = 4 * SEC + (W->cfg.statEn && W->cfg.statInt <= 30 ? W->cfg.statInt * SEC : 0);
				after(q, [] { if (W->ended) return; if (W->replacedLate) { finish(); return; } W->stopT = now; stopNow(); });
			});
		});
	});
}
const char * scenarioComponents()
{
	static std::string s = std::string("{\"real\":[\"") + (RADARCAPE ? "radarcape/main.c" : "dump1090/*.c") + "\",\"core/*.c\",\"util/*.c\",\"radarcape/rc-parser.c\",\"" + (UART ? "radarcape/uart.c, fpga.c, watchdog.c, gpio.c, tb-*.c" : "radarcape/network.c") + "\"" + (RADARCAPE ? ",\"trimble/*.c\"" : "") + "],\"stub\":[\"libc, pthreads, clock, signals, processes\",\"TCP, resolver\",\"file system\",\"collector, receiver\"" + (RADARCAPE ? ",\"GPS receiver\"" : "") + (UART ? ",\"serial lines, GPIO registers, FPGA, programs executed\"" : ",\"programs executed\"") + "]}";
	return s.c_str();
}
