// Parts of the scenarios that only some products have: GPS receiver (included by scen_feeder.cc inside namespace sim).
// ---- GPS receiver: traffic --------------------------------------------------------------------------------------------
static std::string beBytes(double d) { uint64_t v; memcpy(&v, &d, 8); std::string s; for (int i = 56; i >= 0; i -= 8) s += (char)(v >> i); return s; }
static std::string tsip(const std::string & body) { std::string s = "\x10"; s += body[0]; for (size_t i = 1; i < body.size(); ++i) { s += body[i]; if (body[i] == 0x10) s += body[i]; } return s + "\x10\x03"; }
static std::string gpsPos(bool ok)
{
	std::string b(69, 0); b[0] = (char)0x8f; b[1] = (char)0xac; for (int i = 2; i < 69; ++i) b[i] = choose(K_DATA, 6) ? (char)choose(K_DATA, 256) : 0x10;
	char * p = &b[1]; p[1] = 7; p[2] = 0; p[8] = p[9] = 0; p[10] = (char)choose(K_DATA, 256) & ~1; p[11] = (char)choose(K_DATA, 256) & ~0x20; p[12] = 0;
	double la = range(K_DATA, -1570796326, 1570796326) / 1e9, lo = range(K_DATA, -3141592653LL, 3141592653LL) / 1e9, al = range(K_DATA, -500000, 9000000) / 1e3;
	std::string v = W->gpsLast.empty() || pct(K_ACTOR, W->gpsMove) ? beBytes(la) + beBytes(lo) + beBytes(al) : W->gpsLast; if (ok) W->gpsLast = v;
	b.replace(37, 24, v);
	if (!ok) switch (choose(K_ACTOR, 7)) {
	case 0: p[1] = (char)choose(K_DATA, 256); if (p[1] == 7) p[1] = 6; break;
	case 1: p[2] = (char)(1 + choose(K_DATA, 255)); break;
	case 2: p[8 + choose(K_DATA, 2)] = (char)(1 << choose(K_DATA, 8)); break;
	case 3: p[10] |= 1; break;
	case 4: p[11] |= 0x20; break;
	case 5: p[12] = (char)(1 + choose(K_DATA, 255)); break;
	case 6: if (choose(K_DATA, 2)) b.resize(60 + choose(K_DATA, 9)); else b += std::string(1 + choose(K_DATA, 30), (char)choose(K_DATA, 256)); break;
	}
	return tsip(b);
}
static std::string gpsOther() { std::string b; b += (char)(uint8_t[]){0x8f, 0x46, 0x55, 0x8f, 0x41, 0x13}[choose(K_DATA, 6)]; for (int n = choose(K_DATA, 40); n--;) b += choose(K_DATA, 6) ? (char)choose(K_DATA, 256) : 0x10; if (b.size() > 1 && b[0] == (char)0x8f && choose(K_DATA, 2)) b[1] = (char)(uint8_t[]){0xab, 0xa2, 0xac}[choose(K_DATA, 3)]; return tsip(b); }
static std::string gpsJunk()
{
	std::string s; auto cut = [&](std::string x) { x.resize(1 + choose(K_DATA, (uint32_t)x.size() - 1)); return x; };
	switch (choose(K_DATA, 8)) {
	case 0: return rnd(K_DATA, 1 + choose(K_DATA, 60));
	case 1: return cut(gpsPos(true));
	case 2: s = gpsPos(true); s.insert(1 + choose(K_DATA, (uint32_t)s.size() - 2), 1, 0x10); return s;
	case 3: return std::string(1 + choose(K_DATA, 5), 0x10) + (choose(K_DATA, 2) ? "\x03" : "");
	case 4: s = gpsPos(true); s.erase(choose(K_DATA, (uint32_t)s.size()), 1); return s;
	case 5: { std::string b = "\x8f\xac"; for (int n = 900 + choose(K_DATA, 300); n--;) b += choose(K_DATA, 30) ? (char)choose(K_DATA, 256) : 0x10; return tsip(b); }   // around and beyond the largest frame
	case 6: for (int n = 1 + choose(K_DATA, 20); n--;) s += (char)(uint8_t[]){0x10, 0x03, 0x10, 0x8f, 0xac, 0x03}[choose(K_DATA, 6)]; return s;
	default: s = gpsPos(true); s[choose(K_DATA, (uint32_t)s.size())] = (char)choose(K_DATA, 256); return s;
	}
}
static std::string gpsTraffic()
{
	std::string s;
	for (int n = 1 + (int)biased(K_ACTOR, 4, 1, 4); n--;) {
		if (pct(K_DATA, W->gpsJunk)) s += gpsJunk();
		if (choose(K_DATA, 3) == 2) s += gpsOther();
		s += gpsPos(!pct(K_ACTOR, W->gpsBad));
	}
	return s;
}
static void gpsActor(Conn * c)
{
	ConnP k = c->shared_from_this();
	after((ns)logrange(K_ACTOR, W->gpsMean / 4 + 1, (uint64_t)W->gpsMean * 3) * MS, [k] {
		if (k->dead || k->remoteDead || k->remoteClosed) return;
		if (!W->quiet) { std::string s = gpsTraffic(); k->rsend(s.data(), s.size()); }
		gpsActor(k.get());
	});
}
void GpsPeer::onAccept(Conn * c) { if (choose(K_ACTOR, 3) == 2) { std::string s = gpsJunk(); c->rsend(s.data(), s.size()); } gpsActor(c); }

// ---- GPS receiver: reference ------------------------------------------------------------------------------------------
struct PosEv { bool set; double lat, lon, alt; uint64_t seq0, seq1; ns t; };
static void refTrimble(const InStream & s, std::vector<PosEv> & out)
{
	const std::string & d = s.data; size_t p = 0, n = d.size(); enum { START, SYNC, TYPE, BODY } st = START; std::string f;
	auto fin = [&](size_t end) {
		if (f.size() != 69 || f[0] != (char)0x8f || f[1] != (char)0xac) return;
		const uint8_t * b = (const uint8_t *)f.data() + 1;
		if (b[1] != 7 || b[2] || b[8] || b[9] || (b[10] & 1) || (b[11] & 0x20) || b[12]) return;
		PosEv e; e.set = true; e.lat = beDouble(b + 36) * 57.2957795130823208767981548141051703; e.lon = beDouble(b + 44) * 57.2957795130823208767981548141051703; e.alt = beDouble(b + 52);
		size_t lo = 0, hi = s.recvs.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (s.recvs[m].off + s.recvs[m].len >= end) hi = m; else lo = m + 1; }
		if (lo >= s.recvs.size()) return;
		e.seq0 = s.recvs[lo].seq; e.seq1 = s.recvs[lo].next ? s.recvs[lo].next : s.endSeq; e.t = s.recvs[lo].t; out.push_back(e);
	};
	while (p < n) {
		uint8_t b = d[p];
		switch (st) {
		case START: ++p; st = b == 0x10 ? TYPE : SYNC; break;
		case SYNC: if (b != 0x10) { ++p; break; } if (p + 1 >= n) { p = n; break; } if (d[p + 1] == 0x10 || d[p + 1] == 3) p += 2; else { ++p; st = TYPE; } break;
		case TYPE: ++p; if (b == 3) { st = SYNC; break; } f.assign(1, (char)b); st = BODY; break;
		case BODY:
			if (b != 0x10) { f += (char)b; ++p; if (f.size() >= 1024) st = SYNC; break; }
			if (p + 1 >= n) { p = n; break; }
			if (d[p + 1] == 3) { p += 2; fin(p); st = START; }
			else if (d[p + 1] == 0x10) { f += (char)b; p += 2; if (f.size() >= 1024) st = SYNC; }
			else { ++p; st = TYPE; }
			break;
		}
	}
}
static std::vector<InStream> gpsStreams(int proc) { std::vector<InStream> v; for (auto & c : conns) if (isGps(c.get()) && c->proc == proc) v.push_back(inStream(c.get())); return v; }
static void checkGps(Life & l, std::vector<UpConn *> & U)
{
	if (!RADARCAPE) return;
	std::vector<PosEv> E; E.push_back({false, 0, 0, 0, l.seq0, l.seq0, l.t0});
	auto G = gpsStreams(l.no);
	for (size_t gi = 0; gi < G.size(); ++gi) {
		auto & s = G[gi]; uint64_t nextStart = gi + 1 < G.size() ? G[gi + 1].startSeq : INF;
		uint64_t first = s.recvs.empty() ? s.endSeq : s.startSeq; (void)first;
		E.push_back({false, 0, 0, 0, s.startSeq, s.firstRead ? s.firstRead : s.endSeq, s.start}); size_t n0 = E.size();
		refTrimble(s, E); if (l.ended) for (size_t i = n0; i < E.size(); ++i) E[i].seq1 = std::min(E[i].seq1, l.seq1);
		if (s.endSeq != INF) E.push_back({false, 0, 0, 0, s.failSeq ? s.failSeq : s.endSeq, std::max(s.endSeq, nextStart), s.end});
	}
	uint64_t sets = 0; for (auto & e : E) sets += e.set; if (sets) probe("positions received");
	for (auto u : U) {
		Conn * c = u->c; uint64_t relayPrev = c->estSeq; int nRelay = 0, nGps = 0, nEarly = 0; uint64_t relayPosEnd = 0; bool sawLogin = false;
		for (auto & m : u->p.msgs) if (m.complete) {
			if (m.type != '7') { if (m.fiber == u->relay && m.type == '5') { relayPrev = m.seq1; sawLogin = true; } continue; }
			double a = beDouble(m.body.data()), b = beDouble(m.body.data() + 8), d = beDouble(m.body.data() + 16); bool relay = m.fiber == u->relay; bool ok = false; long cand = -1;
			auto same = [](double x, double y) { return memcmp(&x, &y, 8) == 0 || std::fabs(x - y) <= 1e-12 * std::fabs(y); };
			for (size_t k = 0; k < E.size() && !ok; ++k) if (E[k].set && same(a, E[k].lat) && same(b, E[k].lon) && same(d, E[k].alt)) {
				cand = (long)k; if (E[k].seq0 > m.seq0) continue;
				if (!relay) { if (m.seq0 <= E[k].seq1) ok = true; continue; }
				ok = true; for (size_t j = k + 1; j < E.size(); ++j) if (E[j].seq1 < relayPrev) { ok = false; break; }
			}
			if (!ok) violation(cand < 0 ? "pos.invented" : "pos.stale", "C14,C19", "connection %d: position %.7f %.7f %.2f is sent, which %s", c->id, a, b, d, cand < 0 ? "the GPS receiver never reported as valid" : "is not the current one");
			if (!sawLogin) violation("pos.beforelogin", "C04,C14", "connection %d: a position is sent before the device has identified itself", c->id);
			if (relay) { ++nRelay; relayPosEnd = m.seq1; } else { if (m.seq0 < u->loginHi && !nEarly) nEarly = 1; else ++nGps; if (nRelay) violation("pos.repeated", "C14", "connection %d: a position is sent although one was sent at the login", c->id); probe("deferred position sent"); }
		}
		if (nRelay > 1 || nGps > 1) violation("pos.repeated", "C14", "connection %d: the position is sent %d times", c->id, nRelay + nGps + nEarly);
		if (!u->login || nRelay || nGps || nEarly) continue;
		ns over = std::min(std::min(connOver(c), l.sigT), std::min(l.t1, now)), lim = (stallsOn() && c->established < W->faultEnd + 10 * SEC ? 6 : 2) * SEC; if (u->loginT + lim >= over) continue;
		// known before the login, and not reset meanwhile
		uint64_t serialEnd = 0; for (auto & m : u->p.msgs) if (m.complete && m.type == '5') { serialEnd = m.seq0; break; }
		bool sure = false; for (auto & e : E) { if (e.set && e.seq1 < serialEnd) sure = true; if (!e.set && e.seq0 < u->loginHi && e.seq1 > 0) { if (e.seq1 < serialEnd) sure = false; else if (e.seq0 < u->loginHi) sure = false; } if (e.seq0 > u->loginHi) break; }
		if (sure && !pendingOther(c, 0, u->loginT, u->loginT + lim)) violation("pos.missing", "C14", "connection %d: a valid position is known, but none is sent with the login", c->id);
		const PosEv * k = nullptr; for (auto & e : E) if (e.set && e.seq0 > u->loginHi && !k) k = &e;
		if (k && k->t + lim < over && !pendingOther(c, 0, k->t, k->t + lim)) violation("pos.missing", "C14,C19", "connection %d: a position becomes valid at %.3f s, after the login without one, but it is not sent", c->id, k->t / 1e9);
	}
}

static void writeConfigFpga(std::vector<std::pair<std::string, std::string>> & v) { v = {{"File", R->file}, {"Configure", R->configure ? "true" : "false"}}; }
static void setupExtraBefore()
{
	rcSetup();
	if (RSHELL) W->manage = prof("manage") ? pick({50, 80}) : pick({0, 0, 10});
	if (prof("manage")) W->tbMean = pick({500, 2000, 10000});
	if (RADARCAPE) { W->gpsMean = pick({1000, 300, 5000, 100}); W->gpsBad = pick({20, 0, 60, 90}); W->gpsJunk = pick({0, 0, 10}); W->gpsMove = pick({20, 100, 2}); if (prof("gps")) { W->gpsJunk = pick({0, 20, 50}); W->gpsMean = pick({100, 300, 1000}); } if (prof("addr")) W->gpsMean = pick({20000, 60000}); }
}
static void setupExtra()
{
	execOutcome = execModel;
	if (RSHELL) { swarmRate(K_FORKFAIL, {0, 0, 6000}); if (prof("manage")) swarmRate(K_FORKFAIL, {0, 6000, 20000}); }
	if (prof("fpga")) { W->nemOps &= ~(1u << N_CLOCK); W->inMean = 2000; }
	if (prof("refilter")) { W->nemOps |= 1u << N_IRESET; W->nemOps &= ~(1u << N_KILL | 1u << N_CLOCK); W->nemMean = pick({400, 1000, 3000}) * MS; W->tbMean = pick({300, 1000, 100}); W->tbGarbage = 0; W->manage = 0; }
	if (prof("gps")) { W->nemOps |= 1u << N_GRESET | 1u << N_GCLOSE; if (choose(K_PLAN, 2)) W->nemOps |= 1u << N_GMODE | 1u << N_CRESET; }
}
static void setupConfigFiles() {}
static void analyseExtra(std::vector<UpConn> & U) { for (auto & l : W->lives) { std::vector<UpConn *> mine; for (auto & u : U) if (u.c->proc == l.no) mine.push_back(&u); checkGps(l, mine); checkPrograms(l); checkReceiverFilter(l); } }
