#include "world.h"
#include <cstdio>
namespace sim {
std::string hex(const void * p, size_t n, size_t max)
{
	std::string s; char b[4];
	for (size_t i = 0; i < n && i < max; ++i) { snprintf(b, sizeof b, "%02x", ((const uint8_t *)p)[i]); s += b; }
	if (n > max) s += "...";
	return s;
}
double beDouble(const void * p) { uint64_t v = 0; for (int i = 0; i < 8; ++i) v = v << 8 | ((const uint8_t *)p)[i]; double d; memcpy(&d, &v, 8); return d; }
std::string escape(const std::string & s) { std::string o; for (char c : s) { o += c; if (c == 0x1a) o += c; } return o; }
int upLen(uint8_t t)
{
	switch (t) { case '1': return 9; case '2': return 14; case '3': return 21; case '4': return 21; case '5': return 4; case '6': return 0; case '7': return 24; case 65: return 16; case 66: return 0; case 67: return 40; }
	return -1;
}
UpParse parseUp(const Conn * c)
{
	UpParse r; const std::string & u = c->up; size_t p = 0, si = 0;
	std::vector<const SendRec *> s; for (auto & x : c->sends) if (x.ret > 0) s.push_back(&x);
	auto bad = [&](size_t off, const char * what) { r.bad = true; r.badOff = off; r.err = std::string(what) + " at byte " + std::to_string(off) + ": ..." + hex(u.data() + (off > 8 ? off - 8 : 0), std::min((size_t)40, u.size() - (off > 8 ? off - 8 : 0))); };
	while (p < u.size()) {
		UpMsg m; m.off = p; m.complete = false; m.type = 0;
		if ((uint8_t)u[p] != 0x1a) { bad(p, "a message does not start with the synchronisation byte"); break; }
		size_t q = p + 1;
		if (q < u.size()) {
			m.type = u[q++]; int len = upLen(m.type);
			if (len < 0) { bad(p, "unknown message type"); break; }
			bool e = false;
			while ((int)m.body.size() < len && q < u.size()) {
				uint8_t b = u[q];
				if (b == 0x1a) { if (q + 1 >= u.size()) { q = u.size(); break; } if ((uint8_t)u[q + 1] != 0x1a) { bad(q, "unescaped synchronisation byte inside a message"); e = true; break; } q += 2; m.body += (char)0x1a; }
				else { m.body += (char)b; ++q; }
			}
			if (e) break;
			m.complete = (int)m.body.size() == len;
		}
		m.end = q; m.raw = u.substr(p, q - p);
		while (si < s.size() && s[si]->off + s[si]->ret <= m.off) ++si;
		if (si < s.size()) { m.t0 = s[si]->t0; m.seq0 = s[si]->seq0; m.fiber = s[si]->fiber; } else { m.t0 = now; m.seq0 = seqno; m.fiber = 0; }
		size_t k = si; while (k < s.size() && s[k]->off + s[k]->ret < m.end) ++k;
		if (k < s.size()) { m.t1 = s[k]->t; m.seq1 = s[k]->seq; m.w1 = s[k]->w; } else { m.t1 = now; m.seq1 = seqno; m.w1 = wall(); }
		r.msgs.push_back(m); p = q;
		if (!m.complete) break;
	}
	return r;
}
InStream inStream(const Conn * c)
{
	InStream s; s.data = c->down.substr(0, c->downRead); s.recvs = c->recvs; s.read = c->downRead; s.startSeq = c->estSeq; s.start = c->established; s.id = c->id; s.proc = c->proc; s.firstRead = c->firstRecv; s.failSeq = c->finReadSeq ? c->finReadSeq : c->errSeenSeq;
	if (c->closedLocal) { s.endSeq = c->closeSeq; s.end = c->closedAt; }
	return s;
}
InDecode refDecode(const InStream & s)
{
	InDecode r; const std::string & d = s.data; size_t n = d.size(), p = 0;
	enum { START, SYNC, TYPE, BODY } st = START;
	InFrame f; size_t need = 0, foff = 0; std::string body, raw;
	auto fin = [&](size_t end) {
		f.stream = s.id; f.raw = raw; f.off = foff; f.end = end; f.mlat = 0; for (int i = 0; i < 6; ++i) f.mlat = f.mlat << 8 | (uint8_t)body[i];
		f.sig = body[6]; f.payload = body.substr(7);
		size_t lo = 0, hi = s.recvs.size(); // first record with off+len >= end
		while (lo < hi) { size_t m = (lo + hi) / 2; if (s.recvs[m].off + s.recvs[m].len >= end) hi = m; else lo = m + 1; }
		if (lo < s.recvs.size()) { f.t = s.recvs[lo].t; f.seq0 = s.recvs[lo].seq; f.seq1 = s.recvs[lo].next ? s.recvs[lo].next : s.endSeq; f.t1 = s.recvs[lo].next ? s.recvs[lo].nextT : NEVER; }
		else { f.t = 0; f.seq0 = 0; f.seq1 = INF; f.t1 = NEVER; }
		r.frames.push_back(f);
	};
	while (p < n) {
		uint8_t b = d[p];
		switch (st) {
		case START: foff = p; ++p; if (b == 0x1a) st = TYPE; else { ++r.outOfSync; st = SYNC; } break;
		case SYNC: // search an unescaped 1a; needs one byte of look-ahead
			if (b != 0x1a) { ++p; break; }
			if (p + 1 >= n) { p = n; break; }
			if ((uint8_t)d[p + 1] == 0x1a) p += 2; else { foff = p; ++p; st = TYPE; }
			break;
		case TYPE:
			++p; f.type = b; body.clear(); raw = std::string("\x1a") + (char)b;
			if (b == '1') need = 9; else if (b == '2') need = 14; else if (b == '3' || b == '4') need = 21;
			else { if (b == 0x1a) ++r.outOfSync; else ++r.unknown; st = SYNC; break; }
			st = BODY; break;
		case BODY:
			if (b == 0x1a) {
				if (p + 1 >= n) { p = n; break; }
				if ((uint8_t)d[p + 1] == 0x1a) { body += (char)0x1a; raw += "\x1a\x1a"; p += 2; }
				else { ++r.outOfSync; foff = p; ++p; st = TYPE; break; }
			} else { body += (char)b; raw += (char)b; ++p; }
			if (body.size() == need) { fin(p); st = START; }
			break;
		}
	}
	return r;
}
std::vector<TbPkt> refTb(const Conn * c)
{
	std::vector<TbPkt> out; std::string buf;
	for (auto & r : c->recvs) {
		buf.append(c->down, r.off, r.len);
		while (buf.size() >= 4) {
			unsigned type = (uint8_t)buf[0] << 8 | (uint8_t)buf[1], len = (uint8_t)buf[2] << 8 | (uint8_t)buf[3];
			if (len < 4 || len > 128) { buf.clear(); break; }
			if (buf.size() < len) break;
			out.push_back({(uint16_t)type, buf.substr(4, len - 4), r.seq, r.next ? r.next : c->closedLocal ? c->closeSeq : INF, r.t, r.next ? r.nextT : NEVER, c->id});
			buf.erase(0, len);
		}
	}
	return out;
}
std::vector<FiltVerdict> refFilter(const std::vector<InFrame> & F, const std::vector<InStream> & st, const std::vector<FiltCmd> & cmds, FiltCfg cfg)
{
	std::vector<FiltVerdict> out(F.size());
	int lastStream = -1; long stat = -1;
	for (size_t i = 0; i < F.size(); ++i) {
		const InFrame & f = F[i];
		if (f.stream != lastStream) { lastStream = f.stream; stat = -1; }
		if (f.type == '4' && f.mlat) stat = (long)i;
		// possible values of the two settings
		bool ext[2] = {false, false}, sync[2] = {false, false}; ext[cfg.ext] = sync[cfg.sync] = true;
		for (auto & c : cmds) {
			if (c.seq0 > f.seq1) continue;
			bool before = c.seq1 < f.seq0;
			if (c.mask & 1) { if (before) sync[0] = sync[1] = false; sync[c.cfg & 1] = true; }
			if (c.mask & 2) { if (before) ext[0] = ext[1] = false; ext[c.cfg >> 1 & 1] = true; }
		}
		bool canT = stat >= 0, canF = stat < 0;
		if (stat >= 0) for (auto & c : cmds) if (c.mask & 0x80) {
			const InFrame & s = F[stat];
			bool maybe = c.seq1 > s.seq0 && c.seq0 < f.seq1, sure = c.seq0 > s.seq1 && c.seq1 < f.seq0;
			if (maybe) canF = true;
			if (sure) canT = false;
		}
		bool modeS = f.type == '2' || f.type == '3'; int df = (uint8_t)f.payload[0] >> 3; bool es = df == 17 || df == 18;
		bool mayDrop = false, mayPass = false;
		for (int e = 0; e < 2; ++e) for (int s = 0; s < 2; ++s) for (int y = 0; y < 2; ++y) {
			if (!ext[e] || !sync[s] || (y ? !canT : !canF)) continue;
			bool pass = modeS && (!s || y) && (!e || es);
			(pass ? mayPass : mayDrop) = true;
		}
		out[i].may = mayPass; out[i].must = mayPass && !mayDrop; out[i].mayUnsync = canF; out[i].mustUnsync = canF && !canT;
	}
	return out;
}
std::string FrameGen::frame(uint8_t type, int df, bool mlat0)
{
	size_t len = type == '1' ? 2 : type == '2' ? 7 : 14; std::string b(7 + len, 0);
	uint32_t id = ++counter;
	for (size_t i = 0; i < b.size(); ++i) { uint32_t k = choose(K_DATA, 8 * 256); b[i] = k / 256 < escBias ? 0x1a : (char)k; }
	if (mlat0) { for (int i = 0; i < 6; ++i) b[i] = 0; }
	else { b[0] = (char)(id >> 24) | 0x10; b[1] = (char)(id >> 16); b[2] = (char)(id >> 8); b[3] = (char)id; }
	if (type != '1') { b[7] = (char)(df << 3 | (b[7] & 7)); }
	if (mlat0 || type == '1') {} else { b[b.size() - 1] = (char)(id * 7 + type); }
	return std::string("\x1a") + (char)type + escape(b);
}
std::string FrameGen::any(int share)
{
	int df = (int)choose(K_DATA, 100) < share ? (choose(K_DATA, 4) == 3 ? 18 : 17) : (int)choose(K_DATA, 32);
	switch (choose(K_DATA, 8)) { case 6: return frame('1', 0); case 5: case 7: return frame('2', df); default: return frame('3', df); }
}
std::string FrameGen::status(bool valid) { return frame('4', 0, !valid); }
std::string FrameGen::junk()
{
	std::string s;
	switch (choose(K_DATA, 8)) {
	case 0: for (int n = 1 + choose(K_DATA, 40); n--;) s += (char)choose(K_DATA, 256); break;
	case 1: s = any(80); s.resize(1 + choose(K_DATA, (uint32_t)s.size() - 1)); break;                   // truncated
	case 2: s = any(80); s.insert(2 + choose(K_DATA, (uint32_t)s.size() - 2), 1, 0x1a); break;            // unescaped sync
	case 3: s = std::string(1 + choose(K_DATA, 6), 0x1a); break;
	case 4: s = std::string("\x1a") + (char)choose(K_DATA, 256); for (int n = choose(K_DATA, 24); n--;) s += (char)choose(K_DATA, 256); break; // unknown type
	case 5: s = any(80); for (int n = 1 + choose(K_DATA, 3); n--;) s[choose(K_DATA, (uint32_t)s.size())] = (char)choose(K_DATA, 256); break;
	case 6: s = any(80); s.erase(choose(K_DATA, (uint32_t)s.size()), 1); break;
	case 7: for (int n = 1 + choose(K_DATA, 30); n--;) s += (char)"\x1a\x1a\x1a" "1234"[choose(K_DATA, 7)]; break;
	}
	return s;
}
void StatParser::line(const std::string & l0)
{
	// log messages of other threads may be mixed into the report: "[INFO] [NET]  - 12 frames"
	std::string l = l0;
	if (!l.empty() && l[0] == '[' && l.size() > 10 && l.compare(l.size() - 10, 10, "Statistics") == 0) l = "Statistics";
	if (in) { size_t q = l.rfind(" -  "); if (q != std::string::npos && q != 0 && !(q == 2 && l.compare(0, 2, "  ") == 0)) { cur.mangled = true; l = l.substr(q >= 2 && l.compare(q - 2, 2, "  ") == 0 ? q - 2 : q); } else if (q == std::string::npos && !l.empty() && l[0] == '[') { cur.mangled = true; return; } }
	if (l == "Statistics") { in = true; cur = Stat(); cur.t0 = now; cur.seq0 = seqno; cur.mangled = l0 != l; return; }
	if (!in) return;
	{ size_t q = l.find(" - "); if (q != std::string::npos && q != 0 && q != 2) cur.mangled = true; }
	for (const char * e : { "[DEBUG]", "[INFO]", "[WARN]", "[ERROR]", "[EMERG]" }) if (l.find(e) != std::string::npos) cur.mangled = true;
	long long n; char a[200] = "", name[200] = ""; int pct, used = 0;
	StatLine sl; size_t par = l.rfind(" ("); if (par != std::string::npos && sscanf(l.c_str() + par, " (%lf /s, %lf /s)", &sl.r1, &sl.r2) < 1 && sscanf(l.c_str() + par, " (%lf/s)", &sl.r1) < 1) sl.r1 = -1;
	{ size_t q = l.find('['); if (q != std::string::npos) sscanf(l.c_str() + q, "[%d%%]", &sl.pct); if ((q = l.find("(Usage ")) != std::string::npos) sscanf(l.c_str() + q, "(Usage %lf%%)", &cur.usage); }
	unsigned D, H, M, S; if (sscanf(l.c_str(), " - running since %ud, %uh:%um:%us", &D, &H, &M, &S) == 4) { cur.secs = H < 24 && M < 60 && S < 60 ? ((D * 24ll + H) * 60 + M) * 60 + S : -2; return; }
	if (!l.compare(0, 14, " - started on ")) { struct tm tm; memset(&tm, 0, sizeof tm); if (strptime(l.c_str() + 14, "%a %b %d %H:%M:%S %Y", &tm)) cur.started = timegm(&tm); else cur.started = -2; return; }
	if (sscanf(l.c_str(), "   - %lld [%d%%] type %199s", &n, &pct, name) == 3) { sl.n = n; cur.dfl[atoi(name)] = sl; cur.df[atoi(name)] = n; return; }
	if (l.find("currently online") != std::string::npos) { cur.online = true; return; }
	if (l.find("currently offline") != std::string::npos) { cur.online = false; return; }
	if (l.find("currently in overload") != std::string::npos) { cur.overload = true; return; }
	if (sscanf(l.c_str(), " - %lld%n", &n, &used) == 1) {
		std::string rest = l.substr(used); size_t q;
		if ((q = rest.find("%] ")) != std::string::npos) rest = rest.substr(q + 3); else rest = rest.size() ? rest.substr(1) : rest;
		// "name (x /s..." -> name
		for (const char * e : { " (Usage", " (" }) { size_t k = rest.find(e); if (k != std::string::npos) { std::string t = rest.substr(k); if (t.find("/s") != std::string::npos || t.find("Usage") != std::string::npos) rest = rest.substr(0, k); } }
		cur.v[rest] = n; sl.n = n; cur.ln[rest] = sl; cur.t1 = now; cur.seq1 = seqno;
		if (rest == "bytes received") { reports.push_back(cur); in = false; }
	}
	(void)a;
}
std::string confFile(const std::map<std::string, std::vector<std::pair<std::string, std::string>>> & sections)
{
	std::string s; for (auto & k : sections) { s += "[" + k.first + "]\n"; for (auto & o : k.second) s += o.first + " = " + o.second + "\n"; s += "\n"; } return s;
}
}
