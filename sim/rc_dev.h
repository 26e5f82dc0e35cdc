// Stand-alone Radarcape: serial lines, GPIO controllers, FPGA, hardware watchdog; programs started by remote management
// (included by scen_feeder.cc inside namespace sim).
static const char * UART_RX = "/dev/ttyS5", * UART_GPS = "/dev/ttyS2", * FWDIR_ = "/usr/lib/openskyd";
alignas(4096) static uint8_t gpioPage[4][4096];
static const uint64_t gpioBase[4] = { 0x44e07000, 0x4804c000, 0x481ac000, 0x481ae000 };
enum { R_OE = 0x134, R_IN = 0x138, R_CLEAR = 0x190, R_SET = 0x194, WD_PIN = 60 };
struct Pins { int confd, dclk, nstat, data0, nconf; };
static const Pins pinsOf[2] = { { 38, 39, 34, 44, 37 }, { 45, 47, 46, 44, 61 } };
struct Fpga {
	bool inReset = false, err = false, bad = false; ns lowSince = 0, ackAt = NEVER, doneAt = NEVER; uint64_t errBit = INF, n = 0; std::string bits; int badKind = 0;
	bool nstat() const { return !inReset && now >= ackAt && !err; }
	bool confd() const { return !inReset && now >= doneAt; }
};
struct Rc {
	uint32_t out[4], oe[4], ext[4]; int pendC = -1, pendR = 0; bool black = false, configure = true, absolute = false; std::string file = "openskyd.rbf", rbf; int bad = 0; std::set<int> mapped;
	Fpga f; int attempts = 0, badAttempts = 0, touches = 0; ns lastRise = 0, highSince = NEVER, startedAt = NEVER; uint64_t pulses = 0; bool fileMissing = false, tooLong = false; ns needed = 0;
	const Pins & pins() const { return pinsOf[black]; }
};
static Rc * R;
static uint32_t & reg(int c, int off) { return *(uint32_t *)(gpioPage[c] + off); }
static bool pinOut(int p) { return !(R->oe[p >> 5] >> (p & 31) & 1); }
static bool pull(int p) { return p == R->pins().nconf || (R->ext[p >> 5] >> (p & 31) & 1 && p != R->pins().dclk && p != R->pins().data0 && p != WD_PIN); }
static bool level(int p) { return pinOut(p) ? R->out[p >> 5] >> (p & 31) & 1 : pull(p); }
static bool ours(int p, bool dir) { const Pins & q = R->pins(); if (p == WD_PIN) return true; if (!R->configure) return false; return p == q.dclk || p == q.data0 || p == q.nconf || (dir && (p == q.confd || p == q.nstat)); }
static void fpgaEdge(int p, bool v)
{
	Fpga & f = R->f; const Pins & q = R->pins();
	if (everWaited && p != WD_PIN && R->touches++ == 0) violation("fpga.touched", "C20,C18", "pin %d of the FPGA's configuration interface changes while the daemon is running", p);
	if (p == q.nconf && !v) { f.inReset = true; f.err = false; f.ackAt = f.doneAt = NEVER; f.n = 0; f.bits.clear(); f.lowSince = now; }
	if (p == q.nconf && v && f.inReset) {
		if (now - f.lowSince < 2 * US) { probe("FPGA reset pulse too short"); f.inReset = false; return; }
		f.inReset = false; ++R->attempts; f.bad = R->bad > 0 && !W->healed; f.errBit = INF; f.badKind = 0;
		if (f.bad) { --R->bad; ++R->badAttempts; f.badKind = 1 + choose(K_FPGA, 6); countFault("fpga-misbehaviour"); }
		f.ackAt = now + (ns)choose(K_FPGA, 300) * US;
		switch (f.badKind) {
		case 1: f.ackAt = NEVER; probe("FPGA: reset never acknowledged"); break;
		case 2: f.ackAt = now + 40 * MS; probe("FPGA: reset acknowledged too late"); break;
		case 3: f.errBit = choose64(K_FPGA, R->rbf.size() * 8); probe("FPGA: error during transfer"); break;
		case 4: f.errBit = R->rbf.size() * 8 - 1; probe("FPGA: error at the last bit"); break;
		default: probe("FPGA: no completion"); break;
		}
		tr("FPGA attempt %d kind %d ack in %lld us", R->attempts, f.badKind, (long long)(f.ackAt == NEVER ? -1 : (f.ackAt - now) / 1000));
	}
	if (p == q.dclk && v && !f.inReset && f.doneAt == NEVER && !f.err) {
		if (now < f.ackAt) { probe("FPGA clocked before it acknowledged its reset"); return; }
		if (f.n % 8 == 0) f.bits += '\0';
		f.bits.back() |= (char)(level(q.data0) << (f.n % 8)); ++f.n;
		if (f.n - 1 == f.errBit) { f.err = true; return; }
		if (f.n == R->rbf.size() * 8) {
			if (f.bits != R->rbf) { f.err = true; tr("FPGA: wrong bits"); return; }
			if (!f.badKind) { f.doneAt = now + (ns)choose(K_FPGA, 300) * US; if (f.doneAt > now) probe("FPGA completes with a delay"); }
		}
	}
}
static void wdEdge(bool v)
{
	if (v) { R->lastRise = now; R->highSince = now; ++R->pulses; }
	else R->highSince = NEVER;
}
static void gpioChange(int c, uint32_t nout, uint32_t noe)
{
	uint32_t d = (nout ^ R->out[c]), e = noe ^ R->oe[c];
	for (int b = 0; b < 32; ++b) if ((d | e) >> b & 1) {
		int p = c * 32 + b; bool dir = e >> b & 1;
		if (!ours(p, dir)) { violation("gpio.foreign", "C18,C20", "%s of pin %d, which belongs to something else, is changed", dir ? "the direction" : "the output", p); continue; }
		const Pins & q = R->pins(); if (dir && (p == q.confd || p == q.nstat) && R->configure && !(noe >> b & 1)) violation("gpio.drive", "C20", "pin %d is driven by the FPGA and by the daemon", p);
	}
	const Pins & q = R->pins(); int watch[4] = { q.data0, q.nconf, q.dclk, WD_PIN }; bool was[4]; for (int i = 0; i < 4; ++i) was[i] = level(watch[i]);
	R->out[c] = nout; R->oe[c] = noe;
	for (int i = 0; i < 4; ++i) if (level(watch[i]) != was[i]) { th(0x610, watch[i], !was[i]); if (watch[i] == WD_PIN) wdEdge(!was[i]); else fpgaEdge(watch[i], !was[i]); }
}
static void gpioSync() // a register write takes effect
{
	// a read-modify-write of the direction register may be reported as a read only (repeated checks of an address are merged)
	for (int i = 0; i < 4; ++i) if (uint32_t v = reg(i, R_OE); v != R->oe[i] && !(R->pendC == i && R->pendR == R_OE)) gpioChange(i, R->out[i], v);
	if (R->pendC < 0) return;
	int c = R->pendC, r = R->pendR; R->pendC = -1; uint32_t v = reg(c, r);
	if (r == R_SET) gpioChange(c, R->out[c] | v, R->oe[c]); else if (r == R_CLEAR) gpioChange(c, R->out[c] & ~v, R->oe[c]); else gpioChange(c, R->out[c], v);
}
static void gpioHook(uintptr_t a, size_t n, bool write)
{
	int c = (int)(a - (uintptr_t)gpioPage) >> 12, off = (int)(a & 4095);
	gpioSync();
	if (!R->mapped.count(c)) { violation("gpio.unmapped", "C18,C20,C26", "access to an unmapped GPIO controller"); return; }
	if (n != 4 || off & 3 || (off != R_OE && off != R_IN && off != R_CLEAR && off != R_SET)) { violation("gpio.register", "C18,C20", "%s %zu bytes at register 0x%x of a GPIO controller", write ? "writing" : "reading", n, off); return; }
	if (write) { if (off != R_IN) { R->pendC = c; R->pendR = off; } return; }
	if (off == R_OE) reg(c, off) = R->oe[c];
	else if (off != R_IN) reg(c, off) = R->out[c];
	else { uint32_t v = 0; const Pins & q = R->pins(); for (int b = 0; b < 32; ++b) { int p = c * 32 + b; bool l = pinOut(p) ? level(p) : p == q.nstat ? R->f.nstat() : p == q.confd ? R->f.confd() : pull(p); v |= (uint32_t)l << b; } reg(c, off) = v; }
}
struct MemFile : OFile { MemFile() { kind = "mem"; path = "/dev/mem"; } };

// ---- life cycle -------------------------------------------------------------------------------------------------------
static void rcStart()
{
	if (!UART) return;
	R->attempts = R->badAttempts = R->touches = 0; R->pulses = 0; R->lastRise = 0; R->startedAt = NEVER; R->mapped.clear(); R->pendC = -1;
	R->bad = W->healed ? 0 : (int)(uint32_t[]){0, 0, 0, 0, 0, 1, 2, 3}[choose(K_FPGA, 8)]; if (prof("fpga") && !W->healed) R->bad = choose(K_FPGA, 4);
	R->needed = R->lastRise;
}
static bool rcStarted(ns t) { return R->startedAt != NEVER && t >= R->startedAt; }
static void rcCheckConfigured(const char * when)
{
	if (!R->configure) { if (R->attempts) violation("fpga.unwanted", "C20,C25", "the FPGA is programmed although this is disabled"); return; }
	if (!R->f.confd() || R->f.bits != R->rbf) violation("fpga.unconfigured", "C20", "%s although the FPGA is not configured (%llu of %zu bits transferred, completion %s)", when, (unsigned long long)R->f.n, R->rbf.size() * 8, R->f.confd() ? "signalled" : "not signalled");
	if (R->attempts > 3) violation("fpga.attempts", "C20", "%d attempts to program the FPGA", R->attempts);
}
static void rcTick()
{
	if (!UART || !procAlive) return;
	gpioSync();
	ns slack = stallsOn() && !W->healed ? 4 * SEC : 1500 * MS;
	if (R->startedAt == NEVER && everWaited) { R->startedAt = now; rcCheckConfigured("the daemon is running"); }
	if (R->startedAt == NEVER) return;
	if (!W->stopping) {
		ns since = R->pulses ? R->lastRise : R->startedAt, lim = R->pulses ? 30 * SEC + slack : slack + SEC;
		if (now - since > lim) { violation("wd.late", "C18", "the hardware watchdog has not been served for %.1f s", (now - since) / 1e9); R->lastRise = now; ++R->pulses; }
		if (R->highSince != NEVER && now - R->highSince > slack) { violation("wd.stuck", "C18", "the watchdog line is left set for %.1f s", (now - R->highSince) / 1e9); R->highSince = NEVER; }
		if (R->highSince == NEVER && !pinOut(WD_PIN)) violation("wd.input", "C18", "the watchdog line is not an output");
	}
}
static bool rcUnconfigured() { return UART && R->configure && !R->f.confd(); }
// the process ended; returns whether a failing start is justified
static bool rcEnded(EndHow how, bool started)
{
	if (!UART) return false;
	gpioSync();
	if (R->attempts > 3) violation("fpga.attempts", "C20", "%d attempts to program the FPGA", R->attempts);
	if (how == END_EXIT && started) {
		if (R->highSince != NEVER) violation("wd.stuck", "C18", "the watchdog line is left set when the daemon has stopped");
		if (!R->mapped.empty()) violation("gpio.leak", "C21,C16", "the GPIO controllers are still mapped when the daemon has stopped");
	}
	if (R->highSince != NEVER) probe("killed within a watchdog pulse");
	if (started && R->startedAt == NEVER && how == END_EXIT) rcCheckConfigured("the daemon was running");
	return R->configure && R->attempts == 3 && R->badAttempts == 3;
}
static void rcSetup()
{
	if (!UART) return;
	delete R; R = new Rc;
	R->black = true; // FPGA_bbwhite is cleared by --black
	for (int i = 0; i < 4; ++i) { R->out[i] = (uint32_t)choose64(K_PLAN, 1ULL << 32); R->oe[i] = (uint32_t)choose64(K_PLAN, 1ULL << 32); R->ext[i] = (uint32_t)choose64(K_PLAN, 1ULL << 32); }
	R->black = choose(K_PLAN, 2); W->argv = { "/usr/bin/openskyd" }; if (choose(K_PLAN, 3) == 2) W->argv[0] = "openskyd"; if (R->black) W->argv.push_back("--black");
	R->configure = choose(K_PLAN, 6) != 5; R->f.inReset = !level(R->pins().nconf); // the FPGA may have been held in reset before the daemon starts
	size_t n = choose(K_PLAN, 3) == 2 ? 1 + choose(K_PLAN, 300) : 1 + choose(K_PLAN, 24); while (n--) R->rbf += (char)(choose(K_DATA, 8) ? choose(K_DATA, 256) : (uint8_t[]){0, 255}[choose(K_DATA, 2)]);
	std::string at;
	switch (choose(K_PLAN, 8)) {
	case 5: R->file = "fpga/other.rbf"; break;
	case 6: R->file = "/opt/bits/x.rbf"; R->absolute = true; break;
	case 7: switch (choose(K_PLAN, 4)) { case 1: R->fileMissing = true; break; case 2: R->file = std::string(100 + choose(K_PLAN, 3900), 'f'); R->fileMissing = R->tooLong = true; break; case 3: R->file = "/"  + std::string(4000 + choose(K_PLAN, 80), 'g'); R->fileMissing = R->tooLong = true; break; default: break; } break;
	}
	at = R->absolute ? R->file : std::string(FWDIR_) + "/" + R->file;
	if (!R->fileMissing) { fsMkdirs(at.substr(0, at.rfind('/'))); fsPut(at, R->rbf); if (!R->absolute && choose(K_PLAN, 3) == 2) fsPut("/" + R->file, "decoy"); }
	else if (R->configure) W->inconsistent = true;
	mmioLo = (uintptr_t)gpioPage; mmioHi = mmioLo + sizeof gpioPage; mmioHook = gpioHook; memset(gpioPage, 0, sizeof gpioPage); for (int i = 0; i < 4; ++i) reg(i, R_OE) = R->oe[i];
	openDevice = [](const std::string & p, int fl) -> OFileP {
		if (p == UART_RX) return openTty(W->rEp[0], p, fl);
		if (p == UART_GPS) return openTty(W->gEp[0], p, fl);
		if (p == "/dev/mem") { if ((fl & O_ACCMODE) != O_RDWR) violation("gpio.open", "C18", "/dev/mem is not opened for reading and writing"); return std::make_shared<MemFile>(); }
		return nullptr;
	};
	mmapDevice = [](OFile * f, size_t len, off_t off) -> void * {
		if (f->kind != "mem") return nullptr;
		for (int i = 0; i < 4; ++i) if ((uint64_t)off == gpioBase[i] && len <= 4096) { R->mapped.insert(i); return gpioPage[i]; }
		violation("gpio.map", "C18,C20", "memory at 0x%llx is mapped, which is no GPIO controller", (unsigned long long)off); return nullptr;
	};
	munmapDevice = [](void * p, size_t) { for (int i = 0; i < 4; ++i) if (p == gpioPage[i]) { gpioSync(); R->mapped.erase(i); return true; } return false; };
}
static void rcWorld()
{
	Endpoint * e = addEndpoint(UART_RX, 0, 0, &W->recv); e->ttySpeed = B3500000; W->rEp.push_back(e); e->latLo = 50 * US; e->latHi = MS;
	e = addEndpoint(UART_GPS, 0, 0, &W->gps); e->ttySpeed = B115200; e->ttyParity = true; W->gEp.push_back(e); e->latLo = 50 * US; e->latHi = 2 * MS;
	W->regularFds = 3;
}
// ---- receiver options (C08, C25) ---------------------------------------------------------------------------------------
static void rcAtRest()
{
	if (zombieCount()) violation("prog.zombie", "C21,C27", "%zu ended child processes are never reaped", zombieCount());
	if (!UART) return;
	Conn * c = openRecv(); if (!c) return;
	bool ext = W->cfg.ext; uint64_t last = 0; bool known = true;
	for (auto & k : conns) if (isColl(k.get()) && k->proc == procNo) for (auto & p : refTb(k.get())) if (p.type == 4 && p.payload.size() == 2 && p.payload[0] & 2) { if (p.t1 == NEVER) known = false; ext = p.payload[1] & 2; last = p.seq0; }
	std::string o, ref = std::string("C*E") + (W->cfg.crc ? 'f' : 'F') + "GH" + (W->cfg.fec ? 'i' : 'I') + "jYR"; size_t i = 0; char fil = 0;
	for (i = 0; i + 2 < c->up.size(); i += 3) { if ((uint8_t)c->up[i] != 0x1a || c->up[i + 1] != '1') { violation("uart.garbage", "C08", "malformed option sent to the receiver: %s", hex(c->up.substr(i, 12)).c_str()); return; } char ch = c->up[i + 2]; if (ch == 'D' || ch == 'd') fil = ch; o += ch; }
	if (i != c->up.size()) violation("uart.garbage", "C08", "incomplete option sent to the receiver");
	std::string core; for (char ch : o) if (ch != 'D' && ch != 'd') core += ch;
	ref.erase(1, 1); if (core != ref) violation("uart.options", "C25,C10", "the receiver is set up with options %s instead of %s", core.c_str(), ref.c_str());
	if (known && fil != (ext ? 'D' : 'd')) violation("uart.filter", "C08", "the receiver's own filter is set to '%c' although the filter in force is %s", fil, ext ? "extended squitter only" : "all frames");
	if (last) probe("receiver filter changed by the collector");
}
// the option last sent agrees with the filter in force whenever neither a command nor the set-up is under way
static void checkReceiverFilter(Life & l)
{
	if (!UART) return;
	struct Set { ns t0, t1; bool ext; }; std::vector<Set> S; S.push_back({l.t0, l.t0, W->cfg.ext});
	for (auto & k : conns) if (isColl(k.get()) && k->proc == l.no) for (auto & p : refTb(k.get())) if (p.type == 4 && p.payload.size() == 2 && p.payload[0] & 2) S.push_back({p.t, p.t1, (bool)(p.payload[1] & 2)});
	std::stable_sort(S.begin(), S.end(), [](const Set & a, const Set & b) { return a.t0 < b.t0; });
	ns over = std::min(std::min(l.sigT, l.t1), now); int judged = 0;
	for (auto & k : conns) {
		Conn * c = k.get(); if (!isRecv(c) || c->proc != l.no) continue;
		ns end = std::min(over, connOver(c)); for (auto & s : c->sends) if (s.ret < 0) end = std::min(end, s.t0); // the device has failed, which the receiver thread notices next
		std::string o; std::vector<ns> at;
		for (size_t i = 0; i + 2 < c->up.size(); i += 3) if (c->up[i + 2] == 'D' || c->up[i + 2] == 'd' || c->up[i + 2] == 'R') { for (auto & s : c->sends) if (s.off <= i && i < s.off + s.want) { o += c->up[i + 2]; at.push_back(s.t); break; } }
		size_t r = o.find('R'); if (r == std::string::npos || at.size() != o.size()) continue;
		for (size_t i = 0; i < S.size(); ++i) {
			if (S[i].t1 == NEVER) break;
			ns a = std::max(S[i].t1, at[r]), b = std::min(end, i + 1 < S.size() ? S[i + 1].t0 : NEVER); if (a >= b) continue;
			char last = 0; for (size_t j = 0; j < o.size() && at[j] <= a; ++j) if (o[j] != 'R') last = o[j];
			++judged; if (last != (S[i].ext ? 'D' : 'd')) { violation("uart.filter", "C08", "at %.3f s the receiver's own filter is set to '%c' although the filter in force is %s", a / 1e9, last, S[i].ext ? "extended squitter only" : "all frames"); return; }
		}
	}
	if (judged && S.size() > 1) probe("receiver filter judged after a command");
}
// ---- remote management (C27) -------------------------------------------------------------------------------------------
static std::vector<std::vector<std::string>> expectedProgram(const TbPkt & p)
{
	if (!RSHELL) return {};
	if (p.type == 0 && p.payload.size() == 6) { const uint8_t * b = (const uint8_t *)p.payload.data(); char a[40]; snprintf(a, sizeof a, "%u.%u.%u.%u:%u", b[0], b[1], b[2], b[3], b[4] << 8 | b[5]); return {{"/usr/bin/rcc", "-t", ":22", "-r", a, "-n"}}; }
	if (!UART || !p.payload.empty()) return {};
	if (p.type == 1) return {W->argv};
	if (p.type == 2) return {{"/usr/bin/systemctl", "reboot"}};
	if (p.type == 3) return {{"/usr/bin/pacman", "--noconfirm", "--needed", "-Sy", "openskyd", "rcc"}, {"/usr/bin/systemctl", "daemon-reload"}, {"/usr/bin/systemctl", "restart", "openskyd"}};
	return {};
}
static std::string join(const std::vector<std::string> & v) { std::string s; for (auto & x : v) s += (s.empty() ? "" : " ") + x; return s; }
static void checkPrograms(Life & l)
{
	std::vector<TbPkt> cmds; for (auto & c : conns) if (isColl(c.get()) && c->proc == l.no) for (auto & p : refTb(c.get())) if (!expectedProgram(p).empty()) cmds.push_back(p);
	std::stable_sort(cmds.begin(), cmds.end(), [](const TbPkt & a, const TbPkt & b) { return a.seq0 < b.seq0; });
	std::vector<const ExecRec *> X; for (auto & x : execs) if (x.seq >= l.seq0 && x.seq <= l.seq1) X.push_back(&x);
	size_t j = 0; auto failed = [&](uint64_t a, uint64_t b) { for (uint64_t s : forkFailSeq) if (s >= a && s <= b) return true; return false; };
	for (auto & p : cmds) {
		auto E = expectedProgram(p); bool gave = false;
		for (size_t k = 0; k < E.size(); ++k) {
			bool got = j < X.size() && X[j]->argv == E[k] && X[j]->path == E[k][0] && X[j]->seq >= p.seq0 && X[j]->seq <= p.seq1;
			if (!got) {
				if (failed(p.seq0, p.seq1)) { gave = true; if (p.type == 3 && k == 1) continue; break; }
				if (p.t1 == NEVER) { gave = true; break; }
				if (l.sigSeq && p.seq1 >= l.sigSeq) { probe("command given up by a stop"); return; } // a child of a thread about to be cancelled is cancelled with it
				violation("prog.missing", "C27,C07", "connection %d: command %u received at %.3f s does not start \"%s\"%s%s", p.conn, p.type, p.t / 1e9, join(E[k]).c_str(), j < X.size() ? "; next started is " : "", j < X.size() ? join(X[j]->argv).c_str() : ""); return;
			}
			const ExecRec & x = *X[j++]; probe(p.type == 0 ? "remote shell started" : p.type == 1 ? "restart" : p.type == 2 ? "reboot" : "upgrade step");
			if (p.type != 1) {
				if (!x.depth) violation("prog.replaced", "C27", "the daemon itself is replaced by \"%s\"", join(x.argv).c_str());
				if (!x.stdinNull) violation("prog.stdin", "C27", "\"%s\" is started with the daemon's standard input", join(x.argv).c_str());
				if ((p.type == 0 || p.type == 2) && (!x.session || x.cwd != "/")) violation("prog.attached", "C27", "\"%s\" is not detached from the daemon", join(x.argv).c_str());
			} else if (x.depth) violation("prog.copy", "C27", "the daemon is started a second time instead of being replaced");
			else if (x.outcome >= 0) { if (j < X.size()) violation("prog.unexpected", "C27", "a program is started by a daemon which has been replaced: %s", join(X[j]->argv).c_str()); return; }
			if (!x.leakedFds.empty()) violation("prog.leak", "C27,C21", "\"%s\" inherits open files of the daemon: %s", join(x.argv).c_str(), join(x.leakedFds).c_str());
			if (p.type == 3 && k == 0 && x.outcome != 0) { probe("upgrade failed"); break; }
		}
		(void)gave;
	}
	if (j < X.size()) violation("prog.unexpected", "C27", "a program nobody asked for is started: %s", join(X[j]->argv).c_str());
}
static int execModel(const ExecRec & x)
{
	bool self = x.argv == W->argv && x.depth == 0;
	if (!W->healed && fault(K_FORKFAIL, "exec-error")) return -(int[]){ENOENT, EACCES, ENOMEM}[choose(K_FORKFAIL, 3)];
	if (self) return 0;
	bool sys = !W->healed && x.argv.size() > 1 && x.path == "/usr/bin/systemctl" && (x.argv[1] == "restart" || x.argv[1] == "reboot");
	if (sys && choose(K_ACTOR, 3) == 2) { int no = procNo; after((ns)logrange(K_ACTOR, 1, 3000) * MS, [no] { if (procAlive && procNo == no && !W->stopping && !W->ended) { W->life().killed = true; killProcess(END_KILLED, SIGTERM); } }); }
	if (x.path == "/usr/bin/pacman") return (int[]){0, 1, 256 + 9, 127}[choose(K_ACTOR, 4)]; // ended, failed, killed by a signal
	return 0;
}
