// The two stream parsers on their own (`frames`: src/radarcape/rc-parser.c with the real filter configuration, `tsip`:
// src/trimble/trimble_parser.c): a receiving thread takes frames off successive connections which deliver arbitrary bytes in
// arbitrary pieces, end anywhere and are given up anywhere. Every decoded field of every frame is compared with a reference
// decoder, including those no part of the sensor passes on.
#include "world.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
extern "C" {
struct OPENSKY_DecodedFrame { int frameType; uint64_t mlat; int8_t siglevel; size_t payloadLen; uint8_t payload[14]; };
struct OPENSKY_RawFrame { size_t rawLen; uint8_t raw[46]; };
struct RC_PARSER_Statistics { uint64_t outOfSync, frameTypeUnknown; };
struct FILTER_Configuration { bool crc, sync, extSquitter; };
extern FILTER_Configuration FILTER_cfg;
void INPUT_connect(); void INPUT_disconnect(); void INPUT_reconfigure(); bool INPUT_getFrame(OPENSKY_RawFrame *, OPENSKY_DecodedFrame *);
void RC_PARSER_getStatistics(RC_PARSER_Statistics *); void FILTER_setModeSExtSquitter(bool);
void TRIMBLE_PARSER_init(); void TRIMBLE_PARSER_connect(); void TRIMBLE_PARSER_disconnect(); size_t TRIMBLE_PARSER_getFrame(uint8_t *, size_t);
void * sim_malloc(size_t); void sim_free(void *);
}
namespace sim {
struct Want { size_t end; std::string body, raw; uint8_t type; uint64_t mlat; uint8_t sig; };
struct World {
	bool tsip = false, done = false, stop = false, ended = false; int conns = 0, left = 0; bool up = false; int id = 0;
	std::string data; size_t got = 0, lastAt = 0; bool eof = false; int afterEof = 0; std::vector<Want> want; size_t next = 0; size_t cap = 1024; std::string wr; size_t written = 0; bool slow = false; uint32_t fail = 0, chunk = 0;
	uint64_t oos = 0, unk = 0, coos = 0, cunk = 0; bool exact = true; FrameGen gen; Fiber * f = nullptr; int flt = -1; uint64_t fltSeq = 0; size_t total = 0;
};
static World * G;
#define TAG (G->tsip ? "C19" : "C09")
#define V(cls, ...) violation(cls, TAG, __VA_ARGS__)
static std::string tsipFrame(const std::string & body) { std::string s = "\x10"; for (size_t i = 0; i < body.size(); ++i) { s += body[i]; if (i && body[i] == 0x10) s += body[i]; } return s + "\x10\x03"; }
static std::string rnd_(Kind k, uint32_t n) { std::string s; while (n--) s += (char)choose(k, 256); return s; }
static std::string alphabet(const char * a, uint32_t n, uint32_t len) { std::string s; while (len--) { uint32_t k = choose(K_DATA, n + 1); s += k == n ? (char)choose(K_DATA, 256) : a[k]; } return s; }
static std::string stream()
{
	std::string s; size_t mode = choose(K_DATA, 5), max = choose(K_DATA, 8) ? logrange(K_DATA, 1, 900) : 0;
	while (s.size() < max) {
		if (!G->tsip) { if (mode == 4) s += alphabet("\x1a\x1a\x1a\x1a" "1234", 8, 1 + choose(K_DATA, 40)); else if (mode && choose(K_DATA, 4) == 3) s += G->gen.junk(); else if (choose(K_DATA, 8) == 7) s += G->gen.status(choose(K_DATA, 2)); else { std::string f = G->gen.any(50); if (choose(K_DATA, 4) == 3) { std::string b; b += "\x1a"; b += f[1]; size_t n = f[1] == '1' ? 9 : f[1] == '2' ? 14 : 21; std::string p; for (size_t i = 0; i < n; ++i) p += choose(K_DATA, 3) ? 0x1a : (char)choose(K_DATA, 256); f = b + escape(p); } s += f; } }
		else if (mode == 4) s += alphabet("\x10\x10\x10\x03\x03\x8f\xac\x46", 8, 1 + choose(K_DATA, 40));
		else { std::string b; uint32_t n = choose(K_DATA, 4) == 3 ? (uint32_t)(G->cap - 4 + choose(K_DATA, 9)) : choose(K_DATA, 3) ? 1 + choose(K_DATA, 40) : 69; if ((int)n < 1) n = 1; b += "\x8f\x46\xac\x55"[choose(K_DATA, 4)]; bool clean = choose(K_DATA, 3) == 2; while (b.size() < n) b += clean ? choose(K_DATA, 64) ? (char)(0x20 + choose(K_DATA, 200)) : 0x10 : choose(K_DATA, 5) ? (char)choose(K_DATA, 256) : "\x10\x03"[choose(K_DATA, 2)]; std::string f = tsipFrame(b);
			if (mode && choose(K_DATA, 4) == 3) switch (choose(K_DATA, 4)) { case 0: f.resize(1 + choose(K_DATA, (uint32_t)f.size() - 1)); break; case 1: f.insert(choose(K_DATA, (uint32_t)f.size()), 1, 0x10); break; case 2: f.erase(choose(K_DATA, (uint32_t)f.size()), 1); break; default: f = rnd_(K_DATA, 1 + choose(K_DATA, 20)); }
			s += f; }
	}
	return s;
}
static void refTsip()
{
	const std::string & d = G->data; size_t p = 0, n = d.size(), cap = G->cap; enum { START, SYNC, TYPE, BODY } st = START; std::string f;
	while (p < n) {
		uint8_t b = d[p];
		switch (st) {
		case START: ++p; st = b == 0x10 ? TYPE : SYNC; break;
		case SYNC: if (b != 0x10) { ++p; break; } if (p + 1 >= n) { p = n; break; } if (d[p + 1] == 0x10 || d[p + 1] == 3) p += 2; else { ++p; st = TYPE; } break;
		case TYPE: ++p; if (b == 3) { st = SYNC; break; } f.assign(1, (char)b); st = BODY; break;
		case BODY:
			if (b != 0x10) { f += (char)b; ++p; if (f.size() >= cap) st = SYNC; break; }
			if (p + 1 >= n) { p = n; break; }
			if (d[p + 1] == 3) { p += 2; Want w; w.end = p; w.body = f; G->want.push_back(w); st = START; }
			else if (d[p + 1] == 0x10) { f += (char)b; p += 2; if (f.size() >= cap) st = SYNC; }
			else { ++p; st = TYPE; }
			break;
		}
	}
}
static void newConn()
{
	G->up = true; ++G->id; G->data = stream(); G->got = G->lastAt = G->next = 0; G->eof = false; G->afterEof = 0; G->want.clear(); G->wr.clear(); G->written = 0; G->flt = -1; G->chunk = choose(K_PLAN, 4);
	if (G->tsip) refTsip();
	else { InStream s; s.data = G->data; InDecode d = refDecode(s); for (auto & f : d.frames) { Want w; w.end = f.end; w.body = f.payload; w.raw = f.raw; w.type = f.type; w.mlat = f.mlat; w.sig = f.sig; G->want.push_back(w); } G->coos = d.outOfSync; G->cunk = d.unknown; }
	G->total += G->want.size(); tr("connection %d: %zu bytes, %zu frames", G->id, G->data.size(), G->want.size());
}
static void inConnect()
{
	if (G->up) G->up = false;
	yieldPoint("connect"); if (G->slow && choose(K_PLAN, 2)) { sleepFor((ns)logrange(K_LATENCY, 1, 3000) * MS, true); testCancel(); }
	newConn();
}
static size_t inRead(uint8_t * buf, size_t len)
{
	if (cur != G->f) { V("parse.reader", "somebody else reads"); return 0; }
	if (len == 0) { V("parse.noroom", "a read of no bytes"); return 0; }
	if (!G->up) { V("parse.notup", "a read without a connection"); return 0; }
	if (G->eof) { if (++G->afterEof > 4) { V("parse.aftereof", "the connection has ended but is read again and again"); endRun(); } return 0; }
	yieldPoint("read"); if (G->slow && choose(K_PLAN, 4) == 3) { sleepFor((ns)logrange(K_LATENCY, 1, 2000) * MS, true); testCancel(); }
	size_t rest = G->data.size() - G->got; G->lastAt = G->got;
	if (!rest) { G->eof = true; ++seqno; countFault("connection-lost"); return 0; }
	size_t n = G->chunk == 0 ? len : G->chunk == 1 ? 1 + choose(K_SHORTRECV, 3) : G->chunk == 2 ? 1 + choose(K_SHORTRECV, (uint32_t)len) : choose(K_SHORTRECV, 2) ? len : 1 + choose(K_SHORTRECV, 30);
	n = std::min(n, std::min(len, rest)); memcpy(buf, G->data.data() + G->got, n); G->got += n; if (n < len) countFault("short-read"); ++seqno; return n;
}
static size_t inWrite(const uint8_t * buf, size_t len)
{
	yieldPoint("write"); if (!G->up) return 0;
	if (G->fail && choose(K_PLAN, 100) < G->fail) { countFault("write-failed"); return 0; }
	G->wr.append((const char *)buf, len); ++G->written; if (!G->tsip && len == 3 && (buf[2] == 'd' || buf[2] == 'D')) { G->flt = buf[2] == 'D'; G->fltSeq = seqno; } ++seqno; return len;
}
}
using namespace sim;
extern "C" {
void RC_INPUT_register() {} void RC_INPUT_init() {} void RC_INPUT_connect() { inConnect(); } void RC_INPUT_disconnect() { G->up = false; } size_t RC_INPUT_read(uint8_t * b, size_t n) { return inRead(b, n); } size_t RC_INPUT_write(uint8_t * b, size_t n) { return inWrite(b, n); }
void TRIMBLE_INPUT_register() {} void TRIMBLE_INPUT_init() {} void TRIMBLE_INPUT_connect() { inConnect(); } void TRIMBLE_INPUT_disconnect() { G->up = false; } size_t TRIMBLE_INPUT_read(uint8_t * b, size_t n) { return inRead(b, n); } size_t TRIMBLE_INPUT_write(const uint8_t * b, size_t n) { return inWrite(b, n); }
}
namespace sim {
// the parser is told to connect and has returned: the receiver is set up
static void checkSetup()
{
	if (!G->up) { V("parse.setup", "not connected after connecting"); return; }
	if (G->got) V("parse.early", "%zu bytes are read before the receiver is set up", G->got);
	if (G->tsip) { if (G->wr != std::string("\x10\x35\x04\x00\x01\x08\x10\x03", 8)) V("parse.setup", "the GPS receiver is set up with %s", hex(G->wr).c_str()); return; }
	std::map<char, char> o; for (size_t i = 0; i + 3 <= G->wr.size(); i += 3) { if (G->wr[i] != 0x1a || G->wr[i + 1] != '1') { V("parse.setup", "an option is set with %s", hex(G->wr.substr(i, 3)).c_str()); return; } o[G->wr[i + 2] | 0x20] = G->wr[i + 2]; }
	if (G->wr.size() % 3) V("parse.setup", "the receiver is set up with %s", hex(G->wr).c_str());
	std::string w = "CEGHjYR"; w += FILTER_cfg.crc ? 'f' : 'F'; for (char c : w) if (o[c | 0x20] != c) { V("parse.setup", "the receiver is used without option %c set (%s)", c, hex(G->wr).c_str()); return; }
	if (!o['d'] || !o['i']) V("parse.setup", "the receiver is used without its filter and error correction set (%s)", hex(G->wr).c_str());
}
struct Guarded { uint8_t * p; size_t n; Guarded(size_t n) : n(n) { p = (uint8_t *)sim_malloc(n + 32); memset(p, 0xa5, n + 32); } bool ok() { for (size_t i = n; i < n + 32; ++i) if (p[i] != 0xa5) return false; return true; } };
static std::string showWant(const Want & w) { return hex(w.body.data(), w.body.size(), 30); }
static bool receive() // one frame; false: the connection has ended
{
	Guarded raw(sizeof(OPENSKY_RawFrame)), dec(sizeof(OPENSKY_DecodedFrame)), buf(G->cap); OPENSKY_RawFrame * r = (OPENSKY_RawFrame *)raw.p; OPENSKY_DecodedFrame * d = (OPENSKY_DecodedFrame *)dec.p; bool ok; size_t len = 0;
	if (G->tsip) { len = TRIMBLE_PARSER_getFrame(buf.p, G->cap); ok = len; } else ok = INPUT_getFrame(r, d);
	++seqno; th(0x9a5, ok, G->got); stateSig((uint64_t)G->next * 64 + G->chunk * 16 + ok + (G->got & 127) * 8192);
	if (!raw.ok() || !dec.ok() || !buf.ok()) V("parse.overrun", "the parser writes beyond the frame");
	if (!ok) {
		if (!G->eof) V("parse.gaveup", "the connection is given up after %zu of %zu bytes", G->got, G->data.size());
		else if (G->next < G->want.size()) V("parse.missed", "frame %zu of %zu is not delivered: %s", G->next + 1, G->want.size(), showWant(G->want[G->next]).c_str());
	} else if (G->next >= G->want.size()) V("parse.invented", "a frame is delivered after all %zu: %s", G->want.size(), (G->tsip ? hex(buf.p, len, 30) : hex(d->payload, 14)).c_str());
	else {
		const Want & w = G->want[G->next++]; const char * what = nullptr; if (w.end > G->got) { V("parse.early", "a frame is delivered before it was received completely"); what = "x"; }
		else if (w.end <= G->lastAt) V("parse.late", "frame %zu was complete after %zu bytes, it is delivered after reading on at %zu", G->next, w.end, G->lastAt);
		if (G->tsip) { if (len > G->cap || len != w.body.size() || memcmp(buf.p, w.body.data(), len)) V("parse.content", "frame %zu is delivered as %s, it is %s", G->next, hex(buf.p, std::min(len, G->cap), 30).c_str(), showWant(w).c_str()); }
		else if (!what) {
			if (d->frameType != w.type) what = "the type"; else if (d->mlat != w.mlat) what = "the timestamp"; else if ((uint8_t)d->siglevel != w.sig) what = "the signal level"; else if (d->payloadLen != w.body.size()) what = "the length"; else if (memcmp(d->payload, w.body.data(), w.body.size())) what = "the payload"; else if (r->rawLen != w.raw.size() || memcmp(r->raw, w.raw.data(), w.raw.size())) what = "the raw frame";
			if (what) V("parse.content", "%s of frame %zu (%s) is wrong: type %d, timestamp %012lx, signal level %02x, %zu bytes %s, raw %s", what, G->next, hex(w.raw).c_str(), d->frameType, (unsigned long)d->mlat, (uint8_t)d->siglevel, d->payloadLen, hex(d->payload, 14).c_str(), hex(r->raw, std::min(r->rawLen, (size_t)46), 60).c_str());
		}
	}
	sim_free(raw.p); sim_free(dec.p); sim_free(buf.p); return ok;
}
static void * receiver(void *)
{
	G->f = cur;
	while (G->left-- > 0) {
		if (G->tsip) TRIMBLE_PARSER_connect(); else INPUT_connect();
		checkSetup(); size_t n = choose(K_PLAN, 6) == 5 ? choose(K_PLAN, 12) : 100000; bool lost = false;
		while (n--) if (!receive()) { lost = true; break; } else if (choose(K_PLAN, 8) == 7) { yieldPoint("between"); testCancel(); }
		if (lost) { G->oos += G->coos; G->unk += G->cunk; }
		if (lost && G->exact && !G->tsip) { RC_PARSER_Statistics s; RC_PARSER_getStatistics(&s); if (s.outOfSync != G->oos || s.frameTypeUnknown != G->unk) violation("parse.stats", "C09,C17", "out of sync %lu times and %lu unknown frames are counted, there were %lu and %lu", s.outOfSync, s.frameTypeUnknown, G->oos, G->unk); else probe("synchronisation statistics agree"); }
		if (!lost) G->exact = false; else probe(G->want.empty() ? "connection without a frame" : "whole connection decoded");
		if (G->tsip) TRIMBLE_PARSER_disconnect(); else INPUT_disconnect();
	}
	G->ended = true; return nullptr;
}
static void * tuner(void *) // another thread switches the filter of the receiver
{
	for (int n = 1 + choose(K_PLAN, 8); n-- && !G->stop;) { if (choose(K_PLAN, 2)) sleepFor((ns)logrange(K_ACTOR, 1, 3000) * MS, false); yieldPoint("filter"); FILTER_setModeSExtSquitter(choose(K_PLAN, 2)); ++seqno; }
	G->done = true; return nullptr;
}
static void driver()
{
	if (G->tsip) TRIMBLE_PARSER_init(); else FILTER_cfg.crc = choose(K_PLAN, 2);
	G->left = 1 + choose(K_PLAN, 5); bool tune = !G->tsip && choose(K_PLAN, 2), halt = choose(K_PLAN, 3) == 2; if (tune) spawn("filter", tuner, nullptr); else G->done = true;
	Fiber * f = spawn("receiver", receiver, nullptr);
	if (halt) {
		sleepFor((ns)logrange(K_ACTOR, 1, 4000) * MS, false);
		if (!G->ended) { countFault("cancelled"); cancelFiber(f); sleepFor(10 * SEC, false); if (!G->ended && f->state != F_DONE) V("parse.hang", "the cancelled receiver does not end"); if (!G->ended) { G->exact = false; if (G->tsip) TRIMBLE_PARSER_disconnect(); else INPUT_disconnect(); G->left = 1 + choose(K_PLAN, 2); spawn("receiver", receiver, nullptr); } }
	}
	for (int w = 0; w < 1200 && (!G->ended || !G->done); ++w) sleepFor(SEC, false);
	if (!G->ended) { V("parse.hang", "the receiver never ends"); return; }
	// what is set last reaches a connected receiver last, whoever sets it
	if (!G->tsip) { G->fail = 0; G->f = cur; INPUT_connect(); checkSetup(); if (G->flt != FILTER_cfg.extSquitter) violation("parse.filter", "C08", "the receiver is connected with its filter set to %d, requested is %d", G->flt, FILTER_cfg.extSquitter); bool e = choose(K_PLAN, 2); FILTER_setModeSExtSquitter(e); if (G->flt != e) violation("parse.filter", "C08", "the receiver is left with its filter at %d, requested is %d", G->flt, e); INPUT_disconnect(); }
}
}
void scenarioSetup(const std::string & profile)
{
	delete G; G = new World; G->tsip = profile == "tsip"; G->slow = choose(K_PLAN, 2); G->fail = choose(K_PLAN, 3) == 2 ? 1 + choose(K_PLAN, 20) : 0; G->gen.escBias = choose(K_PLAN, 3); static const size_t CAP[] = { 1024, 1024, 2, 3, 16, 69, 70, 130 }; G->cap = CAP[choose(K_PLAN, 8)];
	onDeadlock = [] { violation("deadlock", "*", "nothing can happen any more; threads: %s", liveThreads(nullptr).c_str()); endRun(); };
	onProcessEnd = [](EndHow how, int) { std::string em = lastEmerg; sysKill(); if (how == END_ABORT) V("parse.abort", "the program gives up: %s", em.c_str()); endRun(); };
	after(7200 * SEC, [] { V("parse.hang", "a call never returns"); endRun(); });
	startProcessHost(driver);
}
const char * scenarioComponents() { return "{\"real\":[\"radarcape/rc-parser.c\",\"trimble/trimble_parser.c\",\"core/filter.c\",\"util/*.c\"],\"stub\":[\"RC_INPUT_*, TRIMBLE_INPUT_* (connections that deliver arbitrary bytes in arbitrary pieces)\",\"receiving threads\",\"libc, pthreads, clock\"]}"; }
