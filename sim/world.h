// Scenario side: collector and receiver peers, reference decoders, stream oracles shared by the scenarios.
#pragma once
#include "sys.h"
#include <cstring>
#include <algorithm>

namespace sim {
std::string hex(const void * p, size_t n, size_t max = 48);
inline std::string hex(const std::string & s) { return hex(s.data(), s.size()); }
inline uint32_t be32(const void * p) { const uint8_t * b = (const uint8_t *)p; return (uint32_t)b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]; }
double beDouble(const void * p);
std::string escape(const std::string & s);
static const uint64_t INF = UINT64_MAX;

// ---- uplink ------------------------------------------------------------------------------------------------------
struct UpMsg { uint8_t type; size_t off, end; std::string body /* decoded */, raw; bool complete; ns t0, t1; uint64_t seq0, seq1; ns w1; uint32_t fiber; };
struct UpParse { std::vector<UpMsg> msgs; bool bad = false; std::string err; size_t badOff = 0; };
int upLen(uint8_t type);                       // decoded payload length, -1: unknown
UpParse parseUp(const Conn * c);

// ---- receiver stream: reference decoder ---------------------------------------------------------------------------
struct InStream {                              // what one receiver connection delivered
	std::string data; std::vector<RecvRec> recvs; size_t read = 0; uint64_t startSeq = 0, endSeq = INF; ns start = 0, end = NEVER; int id = 0; int proc = 0; uint64_t firstRead = 0, failSeq = 0;
};
InStream inStream(const Conn * c);
struct InFrame { int stream; uint8_t type; std::string raw, payload; uint64_t mlat; uint8_t sig; size_t off, end; ns t; uint64_t seq0, seq1; /* processed within [seq0,seq1] */ ns t1; };
struct InDecode { std::vector<InFrame> frames; uint64_t outOfSync = 0, unknown = 0; };
InDecode refDecode(const InStream & s);

// ---- collector command stream: reference --------------------------------------------------------------------------
struct TbPkt { uint16_t type; std::string payload; uint64_t seq0, seq1; ns t, t1; int conn; };
std::vector<TbPkt> refTb(const Conn * c);      // all complete packets found (types and sizes not yet judged)

// ---- filter reference ---------------------------------------------------------------------------------------------
struct FiltCmd { uint64_t seq0, seq1; int mask, cfg; };
struct FiltCfg { bool ext, sync; };
struct FiltVerdict { bool may, must; bool mayUnsync, mustUnsync; };
std::vector<FiltVerdict> refFilter(const std::vector<InFrame> & f, const std::vector<InStream> & st, const std::vector<FiltCmd> & cmds, FiltCfg cfg);

// ---- traffic generators ---------------------------------------------------------------------------------------------
struct FrameGen {
	uint32_t counter = 0; bool garbage = false; uint32_t escBias = 1; // of 8
	std::string frame(uint8_t type, int df, bool mlat0 = false); // wire bytes
	std::string any(int df17share);           // random aircraft frame of a weighted type
	std::string status(bool valid);
	std::string junk();                        // malformed bytes
};
struct StatLine { long long n; int pct = -1; double r1 = -1, r2 = -1; };
struct Stat { bool mangled = false; std::map<std::string, StatLine> ln; std::map<int, StatLine> dfl; long long secs = -1, started = -1; double usage = -1;  // one printed statistics report
	std::map<std::string, long long> v; bool online = false, overload = false; ns t0, t1; uint64_t seq0, seq1; std::map<int, long long> df;
};
struct StatParser { std::vector<Stat> reports; bool in = false; Stat cur; void line(const std::string & l); };
std::string confFile(const std::map<std::string, std::vector<std::pair<std::string, std::string>>> & sections);
}
void scenarioSetup(const std::string & profile);
const char * scenarioComponents();  // which components ran real / stub (JSON fragment)
