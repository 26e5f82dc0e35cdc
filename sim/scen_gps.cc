// Position keeping (src/core/gps.c) on its own: a position source, an embedding program and the login of successive
// sessions use it at the same time, over a connection which comes and goes. The history of calls and transmissions must be
// one a simple sequential model can explain (linearizability).
#include "world.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
extern "C" {
void GPS_reset(); void GPS_resetNeedFlag(); void GPS_setPositionWithFix(double, double, double); void GPS_setPosition(double, double, double); void GPS_setHasFix(bool); bool GPS_sendPosition();
bool NET_send(const void * buf, size_t len);
}
namespace sim {
enum { RESET, SETPF, SETP, FIX, SEND };
static const char * NAME[] = { "reset", "set position with fix", "set position", "set fix", "send position" };
struct Pos { double d[3] = {0, 0, 0}; bool is(const Pos & o) const { return !memcmp(d, o.d, sizeof d); } };
struct Tx { Pos p; bool ok, done; };
struct Op { int kind; Pos p; bool fix = false, ret = false, ended = false; uint64_t a, b = ~0ULL; std::vector<Tx> tx; };
struct World { std::vector<Op> h[3]; Op * cur[3] = {}; Fiber * f[3] = {}; int n[3] = {}; bool up = false, done = false, slow = false; uint32_t values = 0; bool cancelled = false; bool fin[3] = {}; };
static World * G;
#define V(cls, ...) violation(cls, "C14", __VA_ARGS__)
static int self() { for (int i = 0; i < 3; ++i) if (G->f[i] == cur) return i; return -1; }
static std::string show(const Pos & p) { char b[120]; snprintf(b, sizeof b, "%g/%g/%g", p.d[0], p.d[1], p.d[2]); return b; }
}
using namespace sim;
extern "C" bool NET_send(const void * buf, size_t len)
{
	int me = self(); const uint8_t * b = (const uint8_t *)buf; std::string body; bool bad = len < 2 || b[0] != 0x1a || b[1] != '7';
	for (size_t i = 2; i < len && !bad; ++i) { body += (char)b[i]; if (b[i] == 0x1a) { if (i + 1 >= len || b[i + 1] != 0x1a) bad = true; ++i; } }
	if (bad || body.size() != 24) { V("gps.message", "a malformed position message of %zu bytes is sent", len); return false; }
	Tx t{ {}, false, false }; for (int k = 0; k < 3; ++k) { uint64_t x = 0; for (int j = 0; j < 8; ++j) x = x << 8 | (uint8_t)body[k * 8 + j]; memcpy(&t.p.d[k], &x, 8); }
	if (me < 0 || !G->cur[me]) { V("gps.uncalled", "a position is sent by nobody"); return false; }
	Op * o = G->cur[me]; o->tx.push_back(t); tr("NET_send %s", show(t.p).c_str()); size_t at = o->tx.size() - 1;
	yieldPoint("NET_send"); bool up = G->up;
	if (up && G->slow && choose(K_PLAN, 3) == 2) { sleepFor((ns)logrange(K_LATENCY, 1, 3000) * MS, true); testCancel(); up = G->up; }
	if (!up) countFault("connection-down");
	o->tx[at].ok = up; o->tx[at].done = true; ++seqno; return up;
}
namespace sim {
static Pos newPos()
{
	Pos p; ++G->values; static const double S[] = { 0.0, -0.0, 90, -180, 1e300, 5e-324 };
	for (int k = 0; k < 3; ++k) switch (choose(K_DATA, 4)) { case 0: p.d[k] = G->values * 3 + k; break; case 1: p.d[k] = S[choose(K_DATA, 6)]; break; default: { uint64_t x = 0; for (int j = 0; j < 8; ++j) x = x << 8 | (choose(K_DATA, 3) == 0 ? 0x1a : choose(K_DATA, 256)); memcpy(&p.d[k], &x, 8); if (p.d[k] != p.d[k]) p.d[k] = k; } }
	return p;
}
static void call(int me, int kind)
{
	G->h[me].push_back({}); Op & o = G->h[me].back(); o.kind = kind; o.p = kind == SETPF || kind == SETP ? newPos() : Pos(); o.fix = kind == FIX && choose(K_DATA, 3); o.a = ++seqno; G->cur[me] = &o;
	tr("%s %s %d", NAME[kind], show(o.p).c_str(), o.fix);
	switch (kind) { case RESET: GPS_reset(); break; case SETPF: GPS_setPositionWithFix(o.p.d[0], o.p.d[1], o.p.d[2]); break; case SETP: GPS_setPosition(o.p.d[0], o.p.d[1], o.p.d[2]); break; case FIX: GPS_setHasFix(o.fix); break; case SEND: o.ret = GPS_sendPosition(); break; }
	o.b = ++seqno; o.ended = true; G->cur[me] = nullptr; th(0xc7, kind, o.tx.size()); stateSig((uint64_t)kind * 131 + o.tx.size() * 17 + o.ret * 7 + G->up + 1009 * (G->h[0].size() + 31 * G->h[1].size() + 977 * G->h[2].size()));
}
static void pause_() { if (choose(K_PLAN, 2)) sleepFor((ns)logrange(K_ACTOR, 1, 4000) * MS, true); testCancel(); yieldPoint("between"); }
template <int I> static void * actor(void *)
{
	G->f[I] = cur; 
	for (int i = 0; i < G->n[I]; ++i) {
		pause_();
		if (I == 0) call(0, choose(K_PLAN, 8) == 7 ? SETPF : SEND);
		else { static const int K[] = { SETPF, SETP, FIX, RESET, SETPF, SETP, FIX, SEND }; int k = K[choose(K_PLAN, I == 1 ? 7 : 8)]; call(I, k); }
	}
	G->fin[I] = true; return nullptr;
}
// ---- sequential model
struct St { bool pos = false, fix = false, need = false; Pos p; };
static std::string key(const int * ix, const St & s, int u) { std::string k((const char *)ix, 3 * sizeof *ix); k += (char)(s.pos | s.fix << 1 | s.need << 2 | u << 3); if (s.pos) k.append((const char *)s.p.d, sizeof s.p.d); return k; }
static std::set<std::string> * seen; static size_t deepest; static std::string deepText;
static bool explain(int * ix, const St & s, int depth)
{
	bool all = true; uint64_t first = ~0ULL; for (int t = 0; t < 3; ++t) if (ix[t] < (int)G->h[t].size()) { const Op & o = G->h[t][ix[t]]; if (o.ended || !o.tx.empty()) all = false; first = std::min(first, o.b); }
	if (all) return true;
	if (!seen->insert(key(ix, s, 0)).second) return false;
	for (int t = 0; t < 3; ++t) if (ix[t] < (int)G->h[t].size()) {
		const Op & o = G->h[t][ix[t]]; if (o.a > first) continue; // something else ended before this one began
		St n = s; bool send = false;
		switch (o.kind) { case RESET: n.pos = n.fix = false; break; case SETPF: n.pos = n.fix = true; n.p = o.p; break; case SETP: n.pos = true; n.p = o.p; break; case FIX: n.fix = o.fix; break; case SEND: break; }
		send = o.kind == SEND ? n.pos && n.fix : o.kind != RESET && n.need && n.pos && n.fix;
		if (o.tx.size() != (size_t)send && (o.ended || o.tx.size() > (size_t)send)) continue;
		if (!o.tx.empty() && !o.tx[0].p.is(n.p)) continue;
		bool ok = !o.tx.empty() && o.tx[0].ok, sure = o.ended;
		if (o.kind == SEND) { if (o.ended && o.ret != (send ? ok : true)) continue; n.need = !send; } else if (send) n.need = !ok;
		++ix[t]; if ((size_t)depth > deepest) deepest = depth;
		bool r = explain(ix, n, depth + 1);
		// the login that failed is repeated by the next session; what a cancelled call left behind is open
		if (!r && ((send && !ok && o.kind == SEND) || !sure)) { n.need = !n.need; r = explain(ix, n, depth + 1); }
		--ix[t]; if (r) return true;
	}
	return false;
}
static void judge()
{
	std::set<std::string> m; seen = &m; int ix[3] = {}; deepest = 0;
	for (auto & h : G->h) for (auto & o : h) if (o.tx.size() > 1) { V("gps.twice", "one call (%s) sends the position %zu times", NAME[o.kind], o.tx.size()); return; }
	if (explain(ix, St(), 1)) return;
	std::vector<std::pair<uint64_t, std::string>> L; for (int t = 0; t < 3; ++t) for (auto & o : G->h[t]) { char b[200]; snprintf(b, sizeof b, "%d:%s%s%s%s", t, NAME[o.kind], o.kind == FIX ? o.fix ? " yes" : " no" : o.kind == SETPF || o.kind == SETP ? (" " + show(o.p)).c_str() : "", o.tx.empty() ? "" : (" sends " + show(o.tx[0].p) + (o.tx[0].ok ? "" : " (fails)")).c_str(), o.kind == SEND && o.ended ? o.ret ? " = true" : " = false" : !o.ended ? " (cancelled)" : ""); L.push_back({o.a, b}); }
	std::sort(L.begin(), L.end()); std::string s; for (size_t i = 0; i < L.size(); ++i) s += (i ? "; " : "") + L[i].second;
	V("gps.history", "no sequential behaviour explains these %zu calls: %s", L.size(), s.substr(0, 900).c_str());
}
static void driver()
{
	GPS_reset(); GPS_resetNeedFlag();
	int th = 1 + choose(K_PLAN, 3); static void * (*const A[])(void *) = { actor<0>, actor<1>, actor<2> }; Fiber * f[3] = {};
	int first = th == 1 ? 2 : 0; for (int i = first; i < (th == 1 ? 3 : th); ++i) { G->n[i] = 2 + choose(K_PLAN, th == 1 ? 40 : 12); for (auto & h : G->h) h.reserve(64); f[i] = spawn(i == 0 ? "login" : i == 1 ? "position" : "host", A[i], nullptr); }
	if (choose(K_PLAN, 4) == 3 && f[1]) { sleepFor((ns)logrange(K_ACTOR, 1, 8000) * MS, false); if (!G->fin[1] && f[1]->state != F_DONE) { G->cancelled = true; countFault("cancelled"); cancelFiber(f[1]); } }
	for (int w = 0; w < 600; ++w) { bool busy = false; for (int i = 0; i < 3; ++i) if (f[i] && !G->fin[i] && !(i == 1 && G->cancelled)) busy = true; if (!busy) break; sleepFor(SEC, false); if (w == 599) { V("gps.hang", "a call never returns"); return; } }
	if (G->cancelled) { sleepFor(5 * SEC, false); if (!G->fin[1] && f[1]->state != F_DONE) { V("gps.hang", "the cancelled thread does not end"); return; } }
	// whatever happened, a position owed to a session is delivered when there is one
	G->up = true; G->slow = false; G->f[0] = cur; if (choose(K_PLAN, 2)) { call(0, RESET); call(0, SEND); } call(0, SETPF); call(0, SEND);
	judge(); probe(G->cancelled ? "history with a cancelled caller explained" : "history explained"); G->done = true;
}
static void flip() { G->up = !G->up; if (!G->done) after((ns)logrange(K_NEMESIS, 1, 5000) * MS, flip); }
}
void scenarioSetup(const std::string &)
{
	delete G; G = new World; G->up = choose(K_PLAN, 2); G->slow = choose(K_PLAN, 2);
	onDeadlock = [] { violation("deadlock", "*", "nothing can happen any more; threads: %s", liveThreads(nullptr).c_str()); endRun(); };
	onProcessEnd = [](EndHow how, int) { std::string em = lastEmerg; sysKill(); if (how == END_ABORT) violation("gps.abort", "C14", "the program gives up: %s", em.c_str()); endRun(); };
	after(3600 * SEC, [] { violation("gps.hang", "C14", "a call never returns"); endRun(); });
	if (choose(K_PLAN, 3)) after((ns)logrange(K_NEMESIS, 1, 5000) * MS, flip);
	startProcessHost(driver);
}
const char * scenarioComponents() { return "{\"real\":[\"core/gps.c\",\"core/beast.c\",\"util/*.c\"],\"stub\":[\"NET_send (connection that comes and goes)\",\"callers (login, position source, host program)\",\"libc, pthreads, clock\"]}"; }
