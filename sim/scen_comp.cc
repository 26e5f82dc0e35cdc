// Component framework (src/util/component.c) driven with random component graphs: order of construction, start, stop and
// destruction, roll-back after failures, threads which are slow to end, deferred stops.
#include "world.h"
#include <cstdio>
#include <cstdlib>
extern "C" {
struct CFG_Section_;
struct Component { const char * description; void (*onRegister)(); bool (*onConstruct)(); void (*onDestruct)(); void (*main)(); bool (*onStart)(); bool (*onStop)(bool); void (*onReset)(); bool * enabled; bool * start; const void * config; const Component * dependencies[]; };
void COMP_setSilent(bool s); void COMP_register(const struct Component * comp); void COMP_unregisterAll(); void COMP_fixup(); bool COMP_initAll(); void COMP_destructAll(); bool COMP_startAll(); void COMP_stopAll(); void COMP_resetAll();
}
namespace sim {
enum { NC = 14 };
enum { THREAD, SELF, PASSIVE };
struct Comp {
	Component * c = nullptr; bool * flags = nullptr; std::string name; std::vector<int> deps; int kind = THREAD; bool hasCon, hasDes, hasReset, hasStop; bool wanted = false; // in the closure of what is registered
	int registered = 0, destroyed = 0; bool constructed = false, started = false; int resets = 0;
	int blocker = -1; bool asked = false; // this self-managed component can only stop when blocker is stopped; stop was requested
	bool failCon = false, failStart = false; ns slow = 0; ns runs = 0; uint32_t thread = 0; int created = 0;
	bool enabled() const { return !c->enabled || *c->enabled; }
	bool toStart() const { return enabled() && (!c->start || *c->start); }
};
struct CompWorld {
	std::vector<Comp> v; std::string expectAbort; bool ended = false; std::vector<int> conOrder, startOrder; const char * phase = ""; int round = 0; bool conFailed = false, startFailed = false; int failedComp = -1; std::string log; int nextCon = -1; std::vector<int> order; bool done = false;
};
static CompWorld * Q;
#define V(cls, ...) violation(cls, "C16", __VA_ARGS__)
static Comp & K(int i) { return Q->v[i]; }
static Fiber * threadOf(int i) { for (auto & f : fibers) if (f.state != F_FREE && (void *)f.entry == (void *)K(i).c->main) return &f; return nullptr; }
static bool alive(int i) { Fiber * f = threadOf(i); return f && f->state != F_DONE; }
static bool isStarted(int i) { return K(i).kind == THREAD ? threadOf(i) != nullptr : K(i).kind == SELF ? K(i).started : true; }
static bool isStopped(int i) { return K(i).kind == THREAD ? !threadOf(i) : K(i).kind == SELF ? !K(i).started : true; }
static void ev(const char * what, int i) { ++seqno; th(0xc0, (uint64_t)what[0] << 8 | what[1], i); tr("%s %s", what, K(i).name.c_str()); stateSig((uint64_t)what[0] * 31 + i * 7 + Q->startOrder.size() * 131 + Q->conOrder.size() * 1009 + (uint64_t)Q->failedComp * 7919); yieldPoint("callback"); }
static void compRegister(int i) { ev("register", i); if (K(i).registered++) V("comp.twice", "component %s is registered twice", K(i).name.c_str()); }
static bool compConstruct(int i)
{
	ev("construct", i); Comp & c = K(i);
	if (strcmp(Q->phase, "init")) V("comp.phase", "component %s is constructed during %s", c.name.c_str(), Q->phase);
	if (!c.enabled()) V("comp.disabled", "disabled component %s is constructed", c.name.c_str());
	if (c.constructed) V("comp.twice", "component %s is constructed twice", c.name.c_str());
	if (Q->conFailed) V("comp.half", "component %s is constructed although %s failed before", c.name.c_str(), K(Q->failedComp).name.c_str());
	for (int d : c.deps) if (!K(d).constructed && K(d).hasCon) V("comp.order", "component %s is constructed before %s, which it depends on", c.name.c_str(), K(d).name.c_str());
	if (choose(K_PLAN, 4) == 3) sleepFor((ns)choose(K_LATENCY, 2000) * MS, false);
	if (c.failCon) { Q->conFailed = true; Q->failedComp = i; countFault("construct-fail"); return false; }
	c.constructed = true; Q->conOrder.push_back(i); return true;
}
static void compDestruct(int i)
{
	ev("destruct", i); Comp & c = K(i);
	if (strcmp(Q->phase, "destruct") && !(Q->conFailed && !strcmp(Q->phase, "init"))) V("comp.phase", "component %s is destroyed during %s", c.name.c_str(), Q->phase);
	if (c.hasCon ? !c.constructed : c.destroyed++ != 0) V("comp.twice", "component %s is destroyed although it is not constructed", c.name.c_str());
	if (c.kind != PASSIVE && !isStopped(i)) V("comp.order", "component %s is destroyed while it runs", c.name.c_str());
	for (auto & o : Q->v) for (int d : o.deps) if (d == i && o.constructed && o.hasDes) V("comp.order", "component %s is destroyed before %s, which depends on it", c.name.c_str(), o.name.c_str());
	// components without a destructor are not seen
	if (!c.hasCon) return;
	while (!Q->conOrder.empty() && !K(Q->conOrder.back()).hasDes) { K(Q->conOrder.back()).constructed = false; Q->conOrder.pop_back(); }
	if (Q->conOrder.empty() || Q->conOrder.back() != i) V("comp.order", "component %s is destroyed, but %s was constructed last", c.name.c_str(), Q->conOrder.empty() ? "none" : K(Q->conOrder.back()).name.c_str());
	for (size_t k = 0; k < Q->conOrder.size(); ++k) if (Q->conOrder[k] == i) { Q->conOrder.erase(Q->conOrder.begin() + k); break; }
	c.constructed = false;
}
static void checkStart(int i)
{
	Comp & c = K(i);
	if (!c.toStart()) V("comp.disabled", "component %s is started although that is switched off", c.name.c_str());
	if (!c.constructed && c.hasCon) V("comp.order", "component %s is started, but not constructed", c.name.c_str());
	for (int d : c.deps) if (K(d).toStart() && !isStarted(d)) V("comp.order", "component %s is started before %s, which it depends on", c.name.c_str(), K(d).name.c_str());
}
static bool compStart(int i)
{
	ev("start", i); Comp & c = K(i);
	if (strcmp(Q->phase, "start")) V("comp.phase", "component %s is started during %s", c.name.c_str(), Q->phase);
	if (c.started) V("comp.twice", "component %s is started twice", c.name.c_str());
	if (Q->startFailed) V("comp.half", "component %s is started although %s failed before", c.name.c_str(), K(Q->failedComp).name.c_str());
	checkStart(i);
	if (c.failStart) { Q->startFailed = true; Q->failedComp = i; countFault("start-fail"); return false; }
	c.started = true; Q->startOrder.push_back(i); return true;
}
static bool compStop(int i, bool deferred)
{
	ev("stop", i); Comp & c = K(i);
	if (strcmp(Q->phase, "stop") && strcmp(Q->phase, "start")) V("comp.phase", "component %s is stopped during %s", c.name.c_str(), Q->phase);
	if (!c.started) V("comp.twice", "component %s is stopped although it does not run", c.name.c_str());
	if (c.asked != deferred) V("comp.deferred", "component %s is told that its stop is %sdeferred", c.name.c_str(), deferred ? "" : "not ");
	// whoever depends on it has been stopped, or could not be stopped yet
	for (auto & o : Q->v) for (int d : o.deps) if (d == i) { int k = (int)(&o - &Q->v[0]); if (o.toStart() && o.kind != PASSIVE && !isStopped(k)) { Fiber * f = o.kind == THREAD ? threadOf(k) : nullptr; if (o.kind == SELF ? !o.asked : !(f->cancelPending || f->cancelling || f->state == F_DONE)) V("comp.order", "component %s is stopped before %s, which depends on it", c.name.c_str(), o.name.c_str()); } }
	c.asked = true;
	if (c.blocker >= 0 && !isStopped(c.blocker)) { probe("component could not stop yet"); return false; }
	if (choose(K_PLAN, 4) == 3) sleepFor((ns)choose(K_LATENCY, 1500) * MS, false);
	c.started = false; c.asked = false; for (size_t k = 0; k < Q->startOrder.size(); ++k) if (Q->startOrder[k] == i) { Q->startOrder.erase(Q->startOrder.begin() + k); break; }
	return true;
}
static void compReset(int i) { ev("reset", i); if (strcmp(Q->phase, "reset")) V("comp.phase", "component %s is reset during %s", K(i).name.c_str(), Q->phase); ++K(i).resets; }
static void compMain(int i)
{
	ev("main", i); Comp & c = K(i); ns r = c.runs;
	if (!c.toStart()) V("comp.disabled", "component %s runs although that is switched off", c.name.c_str());
	if (!c.constructed && c.hasCon) V("comp.order", "component %s runs, but is not constructed", c.name.c_str());
	if (strcmp(Q->phase, "start") == 0 && !Q->startFailed) checkStart(i);
	ns end = r ? now + r : NEVER;
	while (now < end) {
		ns d = (ns)logrange(K_LATENCY, 1, 3000) * MS;
		if (c.slow && choose(K_PLAN, 2)) { cur->cancelEnabled = false; sleepFor(MS + (ns)choose64(K_LATENCY, c.slow), false); cur->cancelEnabled = true; }
		else sleepFor(d, true);
		testCancel();
		yieldPoint("loop");
	}
	probe("component ended by itself");
}
template <int I> struct F_ { static void reg() { compRegister(I); } static bool con() { return compConstruct(I); } static void des() { compDestruct(I); } static void main() { compMain(I); } static bool start() { return compStart(I); } static bool stop(bool d) { return compStop(I, d); } static void reset() { compReset(I); } };
struct Fn { void (*reg)(); bool (*con)(); void (*des)(); void (*main)(); bool (*start)(); bool (*stop)(bool); void (*reset)(); };
template <int... I> static std::vector<Fn> fns(std::integer_sequence<int, I...>) { return { Fn{ F_<I>::reg, F_<I>::con, F_<I>::des, F_<I>::main, F_<I>::start, F_<I>::stop, F_<I>::reset }... }; }
static const std::vector<Fn> FN = fns(std::make_integer_sequence<int, NC>());

static void roundPlan()
{
	for (auto & c : Q->v) {
		c.destroyed = 0; if (c.c->enabled) *c.c->enabled = choose(K_PLAN, 6) != 5;
		if (c.c->start) *c.c->start = choose(K_PLAN, 3) != 2;
		c.failCon = c.hasCon && choose(K_PLAN, 30) == 29; c.failStart = c.kind == SELF && choose(K_PLAN, 30) == 29;
		c.slow = choose(K_PLAN, 4) == 3 ? (ns)(1 + choose(K_PLAN, 1900)) * MS : 0; c.runs = choose(K_PLAN, 8) == 7 ? (ns)logrange(K_PLAN, 1, 20000) * MS : 0; c.asked = false;
		c.blocker = -1;
	}
	// who can only stop when another one, further down, has been stopped
	for (size_t i = 0; i < Q->v.size(); ++i) if (K(i).kind == SELF && choose(K_PLAN, 6) == 5) { int b = choose(K_PLAN, (uint32_t)Q->v.size()); if (b < (int)i && K(b).kind != PASSIVE && K(b).wanted && K(b).toStart()) K(i).blocker = b; } // no cycles: indices are topologically sorted
}
static void driver()
{
	std::vector<Comp> & v = Q->v; int n = (int)v.size();
	COMP_setSilent(choose(K_PLAN, 2));
	std::vector<int> reg = Q->order;
	Q->phase = "register"; for (int i : reg) COMP_register(v[i].c);
	if (choose(K_PLAN, 40) == 39) { Q->expectAbort = "already registered"; COMP_register(v[reg[choose(K_PLAN, (uint32_t)reg.size())]].c); }
	if (!Q->expectAbort.empty() && Q->expectAbort != "Cycle") V("comp.accepted", "a component is registered twice without complaint");
	COMP_fixup();
	if (!Q->expectAbort.empty()) V("comp.accepted", "circular dependencies are accepted");
	for (auto & c : v) if ((c.registered == 1) != c.wanted) V("comp.closure", "component %s is registered %d times", c.name.c_str(), c.registered);
	int rounds = 1 + choose(K_PLAN, 4);
	for (Q->round = 0; Q->round < rounds; ++Q->round) {
		Q->phase = "plan"; roundPlan(); Q->conFailed = false; Q->startFailed = false; Q->failedComp = -1;
		std::string need; for (auto & c : v) if (c.wanted && c.enabled()) for (int d : c.deps) if (!v[d].enabled()) need = c.name;
		if (!need.empty() && choose(K_PLAN, 4)) { for (auto & c : v) if (c.wanted && c.c->enabled) *c.c->enabled = true; need = ""; }
		if (!need.empty()) Q->expectAbort = "which is disabled";
		Q->phase = "init"; bool ok = COMP_initAll(); Q->phase = "check";
		if (!need.empty()) { V("comp.accepted", "component %s is initialised although it depends on a disabled component", need.c_str()); return; }
		if (ok == Q->conFailed) V("comp.report", "initialisation is reported as %s, but %s", ok ? "successful" : "failed", Q->conFailed ? "a component failed" : "none failed");
		for (auto & c : v) if (c.hasDes || ok) { bool want = ok && c.wanted && c.enabled(); if (c.hasCon && c.constructed != want && !(c.constructed && !c.hasDes)) V("comp.half", "component %s is %sconstructed after initialisation %s", c.name.c_str(), c.constructed ? "" : "not ", ok ? "succeeded" : "failed"); }
		if (!ok) { probe("initialisation rolled back"); for (auto & c : v) c.constructed = false; Q->conOrder.clear(); if (choose(K_PLAN, 2)) { Q->phase = "destruct"; COMP_destructAll(); } continue; }
		int cyc = 1 + choose(K_PLAN, 3);
		for (int k = 0; k < cyc; ++k) {
			Q->startFailed = false; Q->failedComp = -1; if (k) for (auto & c : v) { c.failStart = c.kind == SELF && choose(K_PLAN, 30) == 29; c.asked = false; }
			uint64_t tf = threadFails; ns t0 = now; size_t slow = 0; for (auto & c : v) slow += c.wanted;
			Q->phase = "start"; bool st = COMP_startAll(); Q->phase = "check"; bool failed = Q->startFailed || threadFails != tf;
			if (st == failed) V("comp.report", "starting is reported as %s, but %s", st ? "successful" : "failed", failed ? "a component failed" : "none failed");
			if (st) {
				for (int i = 0; i < n; ++i) { Comp & c = v[i]; if (c.kind == PASSIVE) continue; bool want = c.wanted && c.toStart(); if (isStarted(i) != want) V("comp.half", "component %s is %srunning after the start", c.name.c_str(), want ? "not " : ""); }
				if (choose(K_PLAN, 3)) sleepFor((ns)logrange(K_LATENCY, 1, 30000) * MS, false);
				if (choose(K_PLAN, 3) == 2) { for (auto & c : v) c.resets = 0; Q->phase = "reset"; COMP_resetAll(); for (auto & c : v) if (c.resets != (c.hasReset && c.wanted)) V("comp.reset", "component %s is reset %d times", c.name.c_str(), c.resets); }
				Q->phase = "stop"; t0 = now; COMP_stopAll(); Q->phase = "check";
			} else probe("start rolled back");
			for (int i = 0; i < n; ++i) if (v[i].kind != PASSIVE && !isStopped(i)) V("comp.running", "component %s still runs after %s", v[i].name.c_str(), st ? "stopping" : "a failed start");
			if (now - t0 > (ns)(slow * 3 + 2) * SEC + (stallsOn() ? 20 * SEC : 0)) V("comp.slow", "stopping %zu components takes %.1f s", slow, (now - t0) / 1e9);
			if (violated()) return;
			if (!st && choose(K_PLAN, 2)) break;
		}
		Q->phase = "destruct"; COMP_destructAll(); Q->phase = "check";
		for (auto & c : v) if (c.constructed && c.hasDes) V("comp.half", "component %s is not destroyed", c.name.c_str());
		for (auto & c : v) c.constructed = false; Q->conOrder.clear();
		if (violated()) return;
	}
	Q->phase = "unregister"; COMP_unregisterAll(); 
	if (arenaBlocks > 2 * (size_t)n + 40) V("comp.leak", "%zu blocks of memory are left", arenaBlocks);
	Q->done = true; sleepFor(5 * SEC, false);
	probe("all rounds completed");
}
}
using namespace sim;
void scenarioSetup(const std::string & profile)
{
	delete Q; Q = new CompWorld; 
	int n = 1 + choose(K_PLAN, NC); Q->v.resize(n); bool cyc = choose(K_PLAN, 20) == 19; uint32_t dens = 1 + choose(K_PLAN, 5);
	std::vector<int> perm(n); for (int i = 0; i < n; ++i) perm[i] = i; for (int i = n - 1; i > 0; --i) std::swap(perm[i], perm[choose(K_PLAN, i + 1)]);
	for (int i = 0; i < n; ++i) {
		Comp & c = Q->v[i]; c.name = std::string(1, 'A' + i); if (choose(K_PLAN, 30) == 29) c.name += std::string(40 + choose(K_PLAN, 60), 'x'); c.kind = choose(K_PLAN, 3);
		for (int j = 0; j < i; ++j) if (choose(K_PLAN, 8) < dens) c.deps.push_back(j);
		if (cyc && i && choose(K_PLAN, 3) == 2) Q->v[choose(K_PLAN, i)].deps.push_back(i);
		c.hasCon = choose(K_PLAN, 4) != 3; c.hasDes = choose(K_PLAN, 4) != 3; c.hasReset = choose(K_PLAN, 3) == 2; c.hasStop = c.kind == SELF;
	}
	for (int i = 0; i < n; ++i) { // descriptors live in sensor memory
		Comp & c = Q->v[i]; const Fn & f = FN[i]; 
		if (c.deps.size() > 1) for (size_t k = c.deps.size() - 1; k > 0; --k) std::swap(c.deps[k], c.deps[choose(K_PLAN, (uint32_t)k + 1)]);
		c.c = (Component *)arenaAlloc(sizeof(Component) + sizeof(void *) * (c.deps.size() + 1)); c.flags = (bool *)arenaAlloc(2); char * d = (char *)arenaAlloc(c.name.size() + 1); strcpy(d, c.name.c_str());
		memset((void *)c.c, 0, sizeof(Component)); c.c->description = d; c.c->onRegister = f.reg; if (c.hasCon) c.c->onConstruct = f.con; if (c.hasDes) c.c->onDestruct = f.des; if (c.hasReset) c.c->onReset = f.reset;
		if (c.kind == THREAD) c.c->main = f.main; if (c.kind == SELF) { c.c->onStart = f.start; c.c->onStop = f.stop; if (choose(K_PLAN, 3) == 2) c.c->main = f.main; }
		c.flags[0] = c.flags[1] = true; if (choose(K_PLAN, 3) == 2) c.c->enabled = &c.flags[0]; if (choose(K_PLAN, 3) == 2) c.c->start = &c.flags[1];
	}
	for (int i = 0; i < n; ++i) { size_t k = 0; for (int d : Q->v[i].deps) Q->v[i].c->dependencies[k++] = Q->v[d].c; Q->v[i].c->dependencies[k] = nullptr; }
	for (int i : perm) if (choose(K_PLAN, 2) || (i == perm[0])) Q->order.push_back(i);
	std::vector<int> todo = Q->order; while (!todo.empty()) { int i = todo.back(); todo.pop_back(); if (Q->v[i].wanted) continue; Q->v[i].wanted = true; for (int d : Q->v[i].deps) todo.push_back(d); }
	// circular?
	if (cyc) { std::vector<int> st(n); std::function<bool(int)> dfs = [&](int i) { if (st[i] == 1) return true; if (st[i] == 2) return false; st[i] = 1; for (int d : Q->v[i].deps) if (dfs(d)) return true; st[i] = 2; return false; }; for (int i : Q->order) if (dfs(i)) Q->expectAbort = "Cycle"; }
	setRate(K_THREADFAIL, choose(K_CFG, 3) == 2 ? 3000 : 0); setRate(K_MALLOC, choose(K_CFG, 12) == 11 ? 2000 : 0);
	onDeadlock = [] { violation("deadlock", "*", "nothing can happen any more; threads: %s", liveThreads(nullptr).c_str()); endRun(); };
	onProcessEnd = [](EndHow how, int st) {
		std::string em = lastEmerg; uint64_t mf = mallocFail.n; std::string live = liveAtExit; sysKill();
		if (how == END_ABORT) { if (Q->expectAbort.empty() ? !mf : em.find(Q->expectAbort) == std::string::npos && !mf) violation("comp.abort", "C16", "the program gives up: %s", em.c_str()); else probe(mf ? "out of memory" : "inconsistent components refused"); }
		else if (!live.empty() && !violated()) violation("comp.running", "C16", "threads are left: %s", live.c_str());
		endRun();
	};
	after(3600 * SEC, [] { violation("comp.hang", "C16", "the program does not finish (phase %s)", Q->phase); endRun(); });
	startProcessHost(driver);
}
const char * scenarioComponents() { return "{\"real\":[\"util/component.c\",\"util/cfgfile.c\",\"util/log.c\",\"util/threads.h\"],\"stub\":[\"random components (callbacks and threads of the harness)\",\"libc, pthreads, clock\"]}"; }
