// The frame buffer (src/core/buffer.c) alone: `serial` random histories of calls against an exact reference model;
// `threads` and `oom` a producer, a consumer and others (flush, garbage collection, statistics) at the same time, the
// history is judged afterwards by intervals.
#include "world.h"
#include <cstdio>
#include <cstdlib>
#include <deque>
extern "C" {
struct Component; extern const Component BUF_comp;
void COMP_setSilent(bool s); void COMP_register(const Component * comp); void COMP_unregisterAll(); void COMP_fixup(); bool COMP_initAll(); void COMP_destructAll(); bool COMP_startAll(); void COMP_stopAll(); void COMP_resetAll();
void CFG_loadDefaults(); void CFG_setInteger(const char *, const char *, uint32_t); void CFG_setBoolean(const char *, const char *, bool);
struct BUFFER_Statistics { uint64_t queueSize, maxQueueSize, discardedCur, discardedAll, discardedMax, poolSize, dynPools, dynPoolsAll, dynPoolsMax, uncollectedPools, flushes, GCruns; };
struct OPENSKY_RawFrame;
void BUF_flush(); void BUF_flushUnlessHistoryEnabled(); void BUF_runGC();
OPENSKY_RawFrame * BUF_newFrame(); void BUF_commitFrame(OPENSKY_RawFrame *); void BUF_abortFrame(OPENSKY_RawFrame *);
const OPENSKY_RawFrame * BUF_getFrame(); const OPENSKY_RawFrame * BUF_getFrameTimeout(uint_fast32_t); void BUF_releaseFrame(const OPENSKY_RawFrame *); void BUF_putFrame(const OPENSKY_RawFrame *);
void BUFFER_getStatistics(BUFFER_Statistics *);
}
namespace sim {
struct Enq { uint64_t id, s0, s1 = INF; ns t1 = NEVER; bool got = false; };             // committed or put back
struct Get { uint64_t id; size_t enq; uint64_t s0, s1; ns t0, t1; uint64_t r0 = INF, r1 = INF; bool put = false; };
struct NewCall { uint64_t s0, s1; bool mf; };
struct Iv { uint64_t s0, s1; };
struct BufWorld {
	std::string profile; uint32_t stat = 2, dyn = 1, inc = 1; bool hist = true, gc = false; uint32_t gcInt = 1, gcLevel = 1; bool done = false, stop = false, ended = false; size_t liveInit = 0, blocks0 = 0, live0 = 0, statBytes = 0; int round = 0;
	// history of the threads
	std::vector<Enq> enq; std::vector<Get> gets; std::vector<NewCall> news; std::vector<Iv> flushes; uint64_t nextId = 1; void * newPtr = nullptr; void * curPtr = nullptr; uint64_t curId = 0; bool prodDone = false, consDone = false, consCancel = false, draining = false; int aux = 0; uint64_t resets = 0; ns prodMean = MS, consMean = MS, auxMean = MS; uint32_t ops = 0, auxMix = 0;
	std::map<uint64_t, size_t> lastEnq; size_t cap() const { return stat + (hist ? (size_t)inc * dyn : 0); }
	// memory measured
	size_t D = 0; uint32_t mallocRate = 0;
};
static BufWorld * B;
#define V(cls, tags, ...) violation(cls, tags, __VA_ARGS__)
static uint32_t pick(std::initializer_list<uint32_t> l, Kind k = K_PLAN) { return l.begin()[choose(k, (uint32_t)l.size())]; }
// frames of 1 to 46 bytes with contents that depend on their number
struct Raw { size_t len; uint8_t raw[46]; };
static void fill(Raw * r, uint64_t id, bool slow) { r->len = 8 + id % 39; for (size_t i = 0; i < r->len; ++i) { r->raw[i] = i < 8 ? (uint8_t)(id >> 8 * i) : (uint8_t)(id * 131 + i * 7); if (slow && i == 20) yieldPoint("produce"); } }
static bool check(const Raw * r, uint64_t & id) { id = 0; for (int i = 7; i >= 0; --i) id = id << 8 | r->raw[i]; if (r->len != 8 + id % 39) return false; for (size_t i = 8; i < r->len; ++i) if (r->raw[i] != (uint8_t)(id * 131 + i * 7)) return false; return true; }
static void op(const char * what, uint64_t v = 0) { ++seqno; th(0xbf0, (uint64_t)what[0] << 8 | what[1], v); tr("%s %lu", what, (unsigned long)v); }
static size_t used() { return arenaLive - B->live0; }
static void bound(const char * when)
{
	size_t per = (B->statBytes + B->stat - 1) / B->stat, max = B->liveInit + (B->hist ? B->inc * (B->dyn * per + 512) : 0) + 256;
	if (arenaLive > max) V("buf.bound", "C11", "%zu bytes are allocated %s, the configured pools need at most %zu", arenaLive - B->live0, when, max - B->live0);
}
static bool initBuf()
{
	B->stat = pick({2, 3, 4, 6, 10, 40}); B->dyn = pick({1, 2, 3, 5, 8, 20}); B->inc = pick({0, 1, 2, 3, 6, 12}); B->hist = choose(K_PLAN, 5) != 4; B->gcInt = pick({1, 2, 5}); B->gcLevel = pick({1, 2, 3, 10});
	B->gc = B->hist && B->profile != "serial" && choose(K_PLAN, 2);
	CFG_setInteger("BUFFER", "StaticBacklog", B->stat); CFG_setInteger("BUFFER", "DynamicBacklog", B->dyn); CFG_setInteger("BUFFER", "DynamicIncrements", B->inc); CFG_setBoolean("BUFFER", "History", B->hist);
	CFG_setBoolean("BUFFER", "GC", B->gc); CFG_setInteger("BUFFER", "GCInterval", B->gcInt); CFG_setInteger("BUFFER", "GCLevel", B->gcLevel);
	tr("config static %u dynamic %u x %u history %d gc %d interval %u level %u", B->stat, B->inc, B->dyn, B->hist, B->gc, B->gcInt, B->gcLevel);
	B->live0 = arenaLive; B->blocks0 = arenaBlocks; uint64_t mf = mallocFail.n; bool ok = COMP_initAll();
	if (ok == (mallocFail.n != mf)) V("buf.report", "C11,C16", "initialisation is reported as %s", ok ? "successful" : "failed");
	if (!ok && arenaLive != B->live0) V("buf.leak", "C11", "%zu bytes are left after a failed initialisation", used());
	B->liveInit = arenaLive; B->statBytes = arenaLive - B->live0; B->D = 0; return ok;
}
static void finishBuf() { COMP_destructAll(); if (arenaLive != B->live0 || arenaBlocks != B->blocks0) V("buf.leak", "C11", "%zu bytes in %zu blocks are left after the buffer was destroyed", used(), arenaBlocks - B->blocks0); }

// ---- one thread, exact model ------------------------------------------------------------------------------------------
struct Model { std::deque<uint64_t> q; std::map<uint64_t, uintptr_t> slot; uint64_t nw = 0, cur = 0, nextId = 1; size_t pools = 0; uintptr_t statBlk = 0; BUFFER_Statistics s; };
static size_t inUse(Model & m) { return m.q.size() + (m.nw != 0) + (m.cur != 0); }
static void exactStats(Model & m)
{
	BUFFER_Statistics s; memset(&s, 0xee, sizeof s); BUFFER_getStatistics(&s); size_t total = B->stat + m.pools * B->dyn;
#define S(f, v) if (s.f != (uint64_t)(v)) V("buf.stats", "C17,C11", "statistics: " #f " is %lu instead of %lu", (unsigned long)s.f, (unsigned long)(v))
	S(queueSize, m.q.size()); S(maxQueueSize, m.s.maxQueueSize); S(discardedCur, m.s.discardedCur); S(discardedAll, m.s.discardedAll); S(discardedMax, m.s.discardedMax); S(dynPools, m.pools); S(dynPoolsAll, m.s.dynPoolsAll); S(dynPoolsMax, m.s.dynPoolsMax); S(flushes, m.s.flushes); S(GCruns, m.s.GCruns);
	if (s.poolSize > total - inUse(m)) V("buf.stats", "C17,C11", "statistics: %lu frames are in the pool, only %zu can be free", (unsigned long)s.poolSize, total - inUse(m));
}
static uint64_t dropOldest(Model & m) { uint64_t id = m.q.front(); m.q.pop_front(); m.slot.erase(id); return id; }
static void serialRound(Model & m)
{
	m.q.clear(); m.slot.clear(); m.nw = m.cur = 0; m.pools = 0; Raw * nw = nullptr; const Raw * cu = nullptr; uint32_t n = 20 + (uint32_t)logrange(K_PLAN, 1, 1200); uint32_t bias = choose(K_PLAN, 4), gcShare = pick({1, 1, 3, 8}), flShare = pick({1, 0, 3});
	for (uint32_t i = 0; i < n && !violated(); ++i) {
		if (choose(K_PLAN, 400) == 399) bias = choose(K_PLAN, 4);
		uint32_t w[11] = { 30, 6, 20u + (bias == 1 ? 40 : 0), 2, 30u - (bias == 2 ? 25 : 0), bias == 3 ? 20u : 3, 2, flShare, 1, gcShare, 3 }, sum = 0; for (auto x : w) sum += x; uint32_t r = choose(K_PLAN, sum); int o = 0; while (r >= w[o]) r -= w[o++];
		switch (o) {
		case 0: if (!m.nw) { // new frame
			size_t before = arenaLive, free = B->stat + m.pools * B->dyn - inUse(m); uint64_t mf = mallocFail.n; ns t = now; nw = (Raw *)BUF_newFrame(); uint64_t id = m.nextId++; op("new", id);
			if (now - t > 10 * MS && !stallsOn()) V("buf.wait", "C11,C24", "asking for a new frame waits");
			bool failed = mallocFail.n != mf, grew = arenaLive > before; m.s.discardedCur = free || grew ? 0 : m.s.discardedCur;
			if (free) { if (arenaLive != before || failed) V("buf.grow", "C11", "memory is allocated although %zu frames are free", free); }
			else if (grew) { if (m.pools >= (B->hist ? B->inc : 0)) V("buf.bound", "C11", "more than %u dynamic pools are created", B->hist ? B->inc : 0); if (B->D && arenaLive - before != B->D) V("buf.grow", "C11", "a pool of a different size (%zu instead of %zu) is created", arenaLive - before, B->D); B->D = arenaLive - before; ++m.pools; ++m.s.dynPoolsAll; if (m.pools > m.s.dynPoolsMax) m.s.dynPoolsMax = m.pools; probe("dynamic pool created"); }
			else {
				if (arenaLive != before) V("buf.leak", "C11", "%zd bytes change although no pool was created", (ssize_t)(arenaLive - before));
				if (!failed && m.pools < (B->hist ? B->inc : 0)) V("buf.grow", "C11,C03", "a frame is dropped although another pool is allowed");
				if (m.q.empty()) { V("buf.slot", "C11", "a frame is made up"); break; }
				dropOldest(m); ++m.s.discardedCur; ++m.s.discardedAll; if (m.s.discardedCur > m.s.discardedMax) m.s.discardedMax = m.s.discardedCur; probe(failed ? "frame dropped: no memory" : "frame dropped: buffer full");
			}
			uintptr_t blk = arenaBlock(nw); if (!blk) { V("buf.slot", "C11", "a frame outside of the pools is handed out"); break; }
			for (auto & s : m.slot) if (s.second == (uintptr_t)nw) { V("buf.slot", "C11", "a frame that is in use is handed out again"); break; }
			if (!m.statBlk) m.statBlk = blk; m.nw = id; m.slot[id] = (uintptr_t)nw; fill(nw, id, false); stateSig((uint64_t)m.q.size() << 20 | m.pools << 8 | (m.cur != 0) | (free ? 2 : 0)); } break;
		case 1: case 2: if (m.nw) { uint64_t id; if (!check(nw, id) || id != m.nw) V("buf.content", "C11,C02", "a frame changes while it is produced");
			BUF_commitFrame((OPENSKY_RawFrame *)nw); op("commit", m.nw); m.q.push_back(m.nw); m.nw = 0; if (m.q.size() > m.s.maxQueueSize) m.s.maxQueueSize = m.q.size(); } break;
		case 3: if (m.nw) { BUF_abortFrame((OPENSKY_RawFrame *)nw); op("abort", m.nw); m.slot.erase(m.nw); m.nw = 0; } break;
		case 4: if (!m.cur) {
			bool tmo = m.q.empty() || choose(K_PLAN, 2); uint32_t ms = tmo ? pick({0, 1, 10, 999, 1000, 1001, 60000}) : 0;
			if (tmo && m.q.empty() && choose(K_PLAN, 4) == 3) { ns w = wall(); sleepFor((2 * SEC - US - (w + ms % 1000 * MS) % SEC) % SEC, false); probe("timeout ends at a full second"); } // the clock reading takes 1 us
			ns t = now; cu = (const Raw *)(tmo ? BUF_getFrameTimeout(ms) : BUF_getFrame()); op("get", cu != nullptr);
			if (m.q.empty()) { if (cu) V("buf.made", "C11,C02", "a frame is returned from the empty queue"); else if (now - t < (ns)ms * MS || now - t > (ns)ms * MS + 5 * SEC) V("buf.timeout", "C11,C06", "a timeout of %u ms takes %.3f s", ms, (now - t) / 1e9); cu = nullptr; break; }
			if (!cu) { V("buf.timeout", "C11,C06", "no frame is returned although %zu are queued", m.q.size()); break; }
			uint64_t id; if (!check(cu, id)) { V("buf.content", "C11,C02", "a frame with a wrong content is returned"); break; }
			if (id != m.q.front()) { V("buf.order", "C11,C02", "frame %lu is returned, but frame %lu is the oldest of the queue", (unsigned long)id, (unsigned long)m.q.front()); break; }
			m.q.pop_front(); m.cur = id; if (now - t > 10 * MS && !stallsOn()) V("buf.wait", "C11", "getting a frame that is there waits"); } break;
		case 5: if (m.cur) { uint64_t id; if (!check(cu, id) || id != m.cur) V("buf.content", "C11,C02", "a frame changes while the consumer has it"); BUF_putFrame((const OPENSKY_RawFrame *)cu); op("put", m.cur); m.q.push_front(m.cur); if (m.q.size() > m.s.maxQueueSize) m.s.maxQueueSize = m.q.size(); m.cur = 0; probe("put back"); } break;
		case 6: sleepFor((ns)logrange(K_LATENCY, 1, 5000) * MS, false); [[fallthrough]];
		case 10: if (m.cur) { uint64_t id; if (!check(cu, id) || id != m.cur) V("buf.content", "C11,C02", "a frame changes while the consumer has it"); BUF_releaseFrame((const OPENSKY_RawFrame *)cu); op("release", m.cur); m.slot.erase(m.cur); m.cur = 0; } break;
		case 7: { bool un = choose(K_PLAN, 2); un ? BUF_flushUnlessHistoryEnabled() : BUF_flush(); op("flush", un); if (!un || !B->hist) { while (!m.q.empty()) dropOldest(m); ++m.s.flushes; } } break;
		case 8: { op("reset"); if (choose(K_PLAN, 2)) { COMP_resetAll(); memset(&m.s, 0, sizeof m.s); } else exactStats(m); } break;
		case 9: { std::set<uintptr_t> used; for (auto & s : m.slot) { uintptr_t b = arenaBlock((void *)s.second); if (b != m.statBlk) used.insert(b); }
			size_t live = arenaLive; BUF_runGC(); op("gc", m.pools); ++m.s.GCruns; size_t want = B->liveInit + used.size() * B->D; 
			if (arenaLive != want) V("buf.gc", "C11", "after garbage collection %zu bytes are allocated (before: %zu), the static pool and %zu dynamic pools in use need %zu", arenaLive, live, used.size(), want);
			if (m.pools != used.size()) probe("pools released"); else if (m.pools) probe("pools kept"); m.pools = used.size(); } break;
		}
		if (o == 4 || o == 7) { exactStats(m); }
	}
	if (m.nw) { if (choose(K_PLAN, 2)) BUF_abortFrame((OPENSKY_RawFrame *)nw); else { BUF_commitFrame((OPENSKY_RawFrame *)nw); if (m.q.size() + 1 > m.s.maxQueueSize) m.s.maxQueueSize = m.q.size() + 1; } m.nw = 0; }
	if (m.cur) { BUF_releaseFrame((const OPENSKY_RawFrame *)cu); m.cur = 0; }
}
static void serialDriver()
{
	COMP_setSilent(true); COMP_register(&BUF_comp); COMP_fixup(); CFG_loadDefaults(); setRate(K_MALLOC, B->mallocRate); Model m; memset(&m.s, 0, sizeof m.s); int rounds = 1 + choose(K_PLAN, 4);
	for (B->round = 0; B->round < rounds && !violated(); ++B->round) {
		if (!initBuf()) { probe("initialisation failed"); continue; }
		m.statBlk = 0; serialRound(m); if (violated()) break; finishBuf();
	}
	COMP_unregisterAll(); B->done = true;
}

// ---- threads ------------------------------------------------------------------------------------------------------------
static ns slack() { return stallsOn() ? 8 * SEC : 1500 * MS; }
static void think(ns mean) { if (!mean) return; if (choose(K_ACTOR, 4)) sleepFor((ns)logrange(K_ACTOR, mean / 20 / US + 1, mean * 3 / US) * US, false); }
static void * producer(void *)
{
	uint32_t burst = pick({1, 4, 20, 100});
	for (uint32_t i = 0; i < B->ops && !B->stop; ++i) {
		if (i % burst == 0) think(B->prodMean * burst);
		NewCall c; c.s0 = ++seqno; uint64_t n0 = mallocFail.n; ns t0 = now; yieldPoint("new"); Raw * r = (Raw *)BUF_newFrame(); c.s1 = ++seqno; c.mf = mallocFail.n != n0; B->news.push_back(c); op("new", B->nextId);
		if (now - t0 > slack()) V("buf.wait", "C11,C24", "asking for a new frame takes %.1f s", (now - t0) / 1e9);
		if (r == B->curPtr && r) V("buf.slot", "C11", "the frame the consumer has is handed out to the producer");
		B->newPtr = r; uint64_t id = B->nextId++; fill(r, id, true); if (choose(K_ACTOR, 8) == 7) think(B->prodMean);
		uint64_t x; if (!check(r, x) || x != id) V("buf.content", "C11,C02", "a frame changes while it is produced");
		B->newPtr = nullptr;
		if (choose(K_ACTOR, 10) == 9) { op("abort", id); BUF_abortFrame((OPENSKY_RawFrame *)r); }
		else { op("commit", id); Enq e; e.id = id; e.s0 = ++seqno; size_t k = B->enq.size(); B->enq.push_back(e); B->lastEnq[id] = k; BUF_commitFrame((OPENSKY_RawFrame *)r); B->enq[k].s1 = ++seqno; B->enq[k].t1 = now; }
		bound("by the producer"); stateSig((uint64_t)(B->enq.size() - B->gets.size()) << 8 | (B->curPtr != nullptr));
		if (violated()) break;
	}
	B->prodDone = true; return nullptr;
}
static void consumed(const Raw * r, uint64_t s0, ns t0)
{
	uint64_t id; B->curPtr = (void *)r; if ((void *)r == B->newPtr) V("buf.slot", "C11", "the frame the producer has is handed out to the consumer");
	if (!check(r, id)) { V("buf.content", "C11,C02", "a frame with a wrong content is returned: %s", hex(r, 30).c_str()); return; }
	auto it = B->lastEnq.find(id); if (it == B->lastEnq.end()) { V("buf.made", "C11,C02", "frame %lu is returned, which was not committed", (unsigned long)id); return; }
	Enq & e = B->enq[it->second]; if (e.got) { V("buf.twice", "C11,C02", "frame %lu is returned twice", (unsigned long)id); return; }
	e.got = true; Get g; g.id = id; g.enq = it->second; g.s0 = s0; g.t0 = t0; g.s1 = ++seqno; g.t1 = now; op("got", id);
	ns avail = std::max(t0, e.t1); if (e.t1 != NEVER && now - avail > slack()) V("buf.wakeup", "C11,C24", "frame %lu is there, but the consumer gets it %.1f s later", (unsigned long)id, (now - avail) / 1e9);
	size_t gi = B->gets.size(); B->gets.push_back(g);
	think(choose(K_ACTOR, 3) ? 0 : B->consMean); uint64_t x; if (!check(r, x) || x != id) V("buf.content", "C11,C02", "a frame changes while the consumer has it");
	B->curPtr = nullptr; bool put = choose(K_ACTOR, 12) == 11; B->gets[gi].put = put; B->gets[gi].r0 = ++seqno;
	if (put) { op("put", id); Enq q; q.id = id; q.s0 = seqno; size_t k = B->enq.size(); B->enq.push_back(q); B->lastEnq[id] = k; BUF_putFrame((const OPENSKY_RawFrame *)r); B->enq[k].s1 = ++seqno; B->enq[k].t1 = now; probe("put back"); }
	else { op("release", id); BUF_releaseFrame((const OPENSKY_RawFrame *)r); }
	B->gets[gi].r1 = ++seqno; bound("by the consumer");
}
struct NullGet { uint64_t s0, s1; ns late; };
static std::vector<NullGet> nullGets;
static void * consumer(void *)
{
	for (int idle = 0; !violated(); ) {
		think(choose(K_ACTOR, 6) ? 0 : B->consMean);
		bool wait = !B->prodDone && choose(K_ACTOR, 2); uint64_t s0 = ++seqno; ns t0 = now; uint32_t ms = pick({10, 0, 1, 200, 999, 1000, 3000}, K_ACTOR); yieldPoint("get");
		const Raw * r = (const Raw *)(wait ? BUF_getFrame() : BUF_getFrameTimeout(ms));
		if (r) { consumed(r, s0, t0); idle = 0; }
		else {
			if (wait) V("buf.made", "C11", "waiting for a frame returns without one");
			if (now - t0 < (ns)ms * MS || now - t0 > (ns)ms * MS + slack()) V("buf.timeout", "C11,C06", "a timeout of %u ms takes %.3f s", ms, (now - t0) / 1e9);
			nullGets.push_back({s0, ++seqno, now - slack()});
			if (B->prodDone && ++idle > 2) break;
		}
		if (cur->cancelPending) return nullptr; // as a cancelled thread would, having given its frame back
	}
	B->consDone = true; return nullptr;
}
static void * others(void *)
{
	while (!B->stop && !violated()) {
		think(B->auxMean); if (B->stop) break; uint32_t w = choose(K_ACTOR, 8);
		if (w < 2 && (B->auxMix & 1)) { Iv i; i.s0 = ++seqno; size_t k = B->flushes.size(); bool un = choose(K_ACTOR, 2) && B->hist; if (!un) B->flushes.push_back({i.s0, INF}); un ? BUF_flushUnlessHistoryEnabled() : BUF_flush(); if (!un) B->flushes[k].s1 = ++seqno; op("flush", un); }
		else if (w < 4 && (B->auxMix & 2)) { op("gc"); BUF_runGC(); op("gc done"); }
		else if (w < 7) { BUFFER_Statistics s; uint64_t f0 = 0; uint64_t r0 = B->resets; for (auto & f : B->flushes) f0 += f.s1 != INF; memset(&s, 0xee, sizeof s); yieldPoint("stats"); BUFFER_getStatistics(&s); op("stats");
			if (s.queueSize + s.poolSize > B->cap()) V("buf.stats", "C17,C11", "statistics: %lu frames are in the queue and %lu are free, at most %zu can exist", (unsigned long)s.queueSize, (unsigned long)s.poolSize, B->cap());
			if (s.dynPools > (B->hist ? B->inc : 0)) V("buf.stats", "C17,C11", "statistics: %lu dynamic pools", (unsigned long)s.dynPools);
			if (!r0 && !B->resets && (s.flushes < f0 || s.flushes > B->flushes.size())) V("buf.stats", "C17,C11", "statistics: %lu flushes", (unsigned long)s.flushes); }
		else if (B->auxMix & 4) { ++B->resets; COMP_resetAll(); op("reset"); }
		bound("by another thread");
	}
	--B->aux; return nullptr;
}
static void reap(Fiber * f) { if (f && f->state == F_DONE) f->state = F_FREE; }
static void judge()
{
	auto & E = B->enq; uint64_t end = seqno; size_t lost = 0, flushed = 0; uint64_t last = 0; size_t lastEnq = 0; bool lastPut = false;
	for (auto & g : B->gets) { // first in, first out
		if (lastPut && g.id == last) ; else if (g.id <= last) V("buf.order", "C11,C02", "frame %lu is returned after frame %lu", (unsigned long)g.id, (unsigned long)last);
		last = g.id; lastPut = g.put; (void)lastEnq;
	}
	for (auto & n : nullGets) for (auto & g : B->gets) if ((E[g.enq].s1 < n.s0 || E[g.enq].t1 < n.late) && g.s0 > n.s1) { V("buf.timeout", "C11,C06", "no frame is returned although frame %lu is queued", (unsigned long)g.id); break; }
	// what was not returned has been dropped for a reason
	auto gone = [&](const Enq & e, size_t i, uint64_t by) { // certainly not in the buffer any more at <by>
		for (auto & g : B->gets) if (g.enq == i) return g.r1 < by && !g.put ? true : g.put && g.r1 < by; // its put-back is an entry of its own
		for (auto & f : B->flushes) if (e.s1 < f.s0 && f.s1 < by) return true;
		return false; };
	std::map<size_t, bool> fullMemo; auto full = [&](size_t k) { auto it = fullMemo.find(k); if (it != fullMemo.end()) return it->second; NewCall & c = B->news[k]; size_t n = 0; for (size_t i = 0; i < E.size(); ++i) if (E[i].s0 <= c.s1 && !gone(E[i], i, c.s0)) ++n; return fullMemo[k] = c.mf || n >= B->cap(); };
	for (size_t i = 0; i < E.size() && !violated(); ++i) if (!E[i].got) {
		++lost; uint64_t to = end; for (auto & g : B->gets) if (g.s0 > E[i].s0 && g.id > E[i].id) { to = g.s1; break; }
		bool ok = false; for (auto & f : B->flushes) if (f.s1 >= E[i].s0 && f.s0 <= to) ok = true; if (ok) { ++flushed; continue; }
		for (size_t k = 0; k < B->news.size() && !ok; ++k) if (B->news[k].s1 >= E[i].s0 && B->news[k].s0 <= to && full(k)) ok = true;
		if (!ok) V("buf.lost", "C11,C03", "frame %lu is lost although the buffer was neither full nor flushed", (unsigned long)E[i].id);
	}
	BUFFER_Statistics s; BUFFER_getStatistics(&s);
	if (s.queueSize) V("buf.lost", "C11", "%lu frames are in the queue, but the consumer gets none", (unsigned long)s.queueSize);
	if (!B->resets && s.discardedAll > lost) V("buf.stats", "C17,C11", "statistics: %lu frames are discarded, only %zu are missing", (unsigned long)s.discardedAll, lost);
	if (!B->resets && s.discardedAll < lost - flushed) V("buf.stats", "C17,C11", "statistics: %lu frames are discarded, %zu are missing", (unsigned long)s.discardedAll, lost);
	if (lost > flushed) probe("frames dropped: buffer full"); if (flushed) probe("frames flushed");
}
static void threadsDriver()
{
	COMP_setSilent(true); COMP_register(&BUF_comp); COMP_fixup(); CFG_loadDefaults(); setRate(K_MALLOC, B->mallocRate); int rounds = 1 + choose(K_PLAN, 2);
	for (B->round = 0; B->round < rounds && !violated(); ++B->round) {
		if (!initBuf()) { probe("initialisation failed"); continue; }
		COMP_resetAll(); if (!COMP_startAll()) { V("buf.report", "C11,C16", "the garbage collector cannot be started"); break; }
		B->enq.clear(); B->gets.clear(); B->news.clear(); B->flushes.clear(); nullGets.clear(); B->lastEnq.clear(); B->resets = 0; B->stop = B->prodDone = B->consDone = false; B->newPtr = B->curPtr = nullptr; 
		B->prodMean = pick({1000, 100, 10000, 20}) * US; B->consMean = pick({1000, 100, 10000, 100000}) * US; B->auxMean = pick({5, 1, 50, 1000}) * MS; B->ops = 30 + (uint32_t)logrange(K_PLAN, 1, 500); B->auxMix = choose(K_PLAN, 8);
		Fiber * p = spawn("producer", producer, nullptr), * o[2] = {}; Fiber * c = spawn("consumer", consumer, nullptr); B->aux = 1 + choose(K_PLAN, 2); for (int i = 0, k = B->aux; i < k; ++i) o[i] = spawn("other", others, nullptr);
		bool cancels = choose(K_PLAN, 2); ns t0 = now;
		while (!B->prodDone && !violated()) {
			sleepFor((ns)logrange(K_LATENCY, 1, 500) * MS, false);
			if (cancels && choose(K_PLAN, 3) == 2 && !B->prodDone && !B->consDone) { cancelFiber(c); ns t = now; while (c->state != F_DONE && now - t < 20 * SEC) sleepFor(10 * MS, false); if (c->state != F_DONE) { V("buf.stuck", "C11,C15", "the consumer does not end"); break; } probe("consumer cancelled"); reap(c); c = spawn("consumer", consumer, nullptr); }
			if (now - t0 > 1200 * SEC) { V("buf.stuck", "C11,C24", "the producer does not come to its end"); break; }
		}
		if (violated()) break;
		// wake a consumer that waits without timeout, if the last frame is gone already
		ns t1 = now; while (!B->consDone && now - t1 < 400 * SEC) { sleepFor(500 * MS, false); if (c->state == F_DONE) break; if (c->state == F_BLOCKED && c->bk == B_COND && c->deadline == NEVER && c->deadlineRt == NEVER) { sleepFor(slack(), false); if (c->state == F_BLOCKED && c->bk == B_COND && c->deadline == NEVER && c->deadlineRt == NEVER) { BUFFER_Statistics s; BUFFER_getStatistics(&s); if (s.queueSize) { V("buf.wakeup", "C11,C24", "%lu frames are queued, but the consumer waits", (unsigned long)s.queueSize); break; } cancelFiber(c); sleepFor(2 * SEC + slack(), false); if (c->state != F_DONE) break; reap(c); c = spawn("consumer", consumer, nullptr); } } }
		B->stop = true; ns t2 = now; while (B->aux && now - t2 < 60 * SEC) sleepFor(50 * MS, false);
		if (c->state != F_DONE || B->aux) { V("buf.stuck", "C11,C24", "threads do not come to their end: %s", liveThreads(cur).c_str()); break; }
		reap(p); reap(c); reap(o[0]); reap(o[1]); judge(); if (violated()) break;
		// an idle buffer
		if (B->gc) { size_t k = 0; BUFFER_Statistics s; BUFFER_getStatistics(&s); k = s.dynPools; sleepFor((2 * B->gcInt + 1) * SEC + slack(), false); if (k * B->dyn >= B->gcLevel && arenaLive != B->liveInit) { BUFFER_getStatistics(&s); if (s.dynPools * B->dyn >= B->gcLevel) V("buf.gc", "C11", "the buffer is empty, but %zu bytes are still allocated after two garbage collection intervals", arenaLive - B->liveInit); } }
		BUF_runGC(); if (arenaLive != B->liveInit) V("buf.gc", "C11", "the buffer is empty, but %zu bytes are still allocated after garbage collection", arenaLive - B->liveInit);
		COMP_stopAll(); finishBuf(); probe("round completed");
	}
	if (!violated()) COMP_unregisterAll();
	B->done = true;
}
}
using namespace sim;
void scenarioSetup(const std::string & profile)
{
	delete B; B = new BufWorld; B->profile = profile; nullGets.clear(); bool serial = profile == "serial";
	B->mallocRate = profile == "oom" ? pick({6000, 20000, 50000}, K_CFG) : serial ? pick({0, 0, 3000, 25000}, K_CFG) : 0;
	if (!serial) setRate(K_SPURIOUS, pick({0, 500, 4000}, K_CFG));
	onDeadlock = [] { violation("deadlock", "*", "nothing can happen any more; threads: %s", liveThreads(nullptr).c_str()); endRun(); };
	onProcessEnd = [](EndHow how, int st) {
		std::string em = lastEmerg; uint64_t mf = mallocFail.n; std::string live = liveAtExit; sysKill();
		if (violated()) ;
		else if (how == END_ABORT) { if (B->round || !mf || B->liveInit) violation("buf.abort", "C11,C26,C06", "the program gives up: %s", em.c_str()); else probe("out of memory before the start"); }
		else if (!B->done) violation("buf.abort", "C11,C26,C06", "the program ends early: %s", em.c_str());
		else if (!live.empty()) violation("buf.running", "C11,C15", "threads are left: %s", live.c_str());
		endRun();
	};
	after(4000 * SEC, [] { violation("buf.hang", "C11,C06", "the program does not finish: %s", liveThreads(nullptr).c_str()); endRun(); });
	startProcessHost(serial ? serialDriver : threadsDriver);
}
const char * scenarioComponents() { return "{\"real\":[\"core/buffer.c\",\"util/list.h\",\"util/component.c\",\"util/cfgfile.c\",\"util/log.c\"],\"stub\":[\"producer, consumer and maintenance threads of the harness\",\"libc, pthreads, clock, allocator\"]}"; }
