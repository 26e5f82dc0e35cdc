// Configuration files: generator, reference reader, and the scenario "save" (included by scen_feeder.cc inside namespace sim).
struct RefOpt { const char * sec, * key; char type /* s i b p d */; std::string def; size_t max; };
static const std::vector<RefOpt> & cfgTable()
{
	static std::vector<RefOpt> t;
	if (t.empty()) {
		t = { {"NETWORK", "Host", 's', "collector.opensky-network.org", 1024}, {"NETWORK", "Port", 'p', "10004", 0}, {"NETWORK", "Timeout", 'i', "1500", 0},
			{"BUFFER", "StaticBacklog", 'i', "200", 0}, {"BUFFER", "DynamicBacklog", 'i', "1000", 0}, {"BUFFER", "DynamicIncrements", 'i', "1080", 0}, {"BUFFER", "History", 'b', "false", 0}, {"BUFFER", "GC", 'b', "false", 0}, {"BUFFER", "GCInterval", 'i', "120", 0}, {"BUFFER", "GCLevel", 'i', "2", 0},
			{"FILTER", "CRC", 'b', "true", 0}, {"FILTER", "ModeSExtSquitterOnly", 'b', "true", 0}, {"FILTER", "SyncFilter", 'b', RADARCAPE ? "true" : "false", 0},
			{"STATISTICS", "Enabled", 'b', "true", 0}, {"STATISTICS", "Interval", 'i', "600", 0} };
		if (!UART) { t.push_back({"INPUT", "host", 's', "localhost", 1024}); t.push_back({"INPUT", "port", 'p', RADARCAPE ? "10003" : "30005", 0}); }
		if (RADARCAPE) {
			t.push_back({"INPUT", "fec", 'b', "true", 0}); t.push_back({"DEVICE", "serial", 'i', "", 0});
			if (!UART) { t.push_back({"GPS", "Host", 's', "localhost", 1024}); t.push_back({"GPS", "Port", 'p', "10685", 0}); }
			else { t.push_back({"FPGA", "File", 's', "openskyd.rbf", 4095}); t.push_back({"FPGA", "Configure", 'b', "true", 0}); }
		} else {
			t.push_back({"Device", "serial", 'i', "", 0}); t.push_back({"IDENT", "Username", 's', "", 39});
			for (const char * k : { "Latitude", "Longitude", "Altitude" }) t.push_back({"GPS", k, 'd', "", 0});
			if (DEVTYPE == 5) t.push_back({"Device", "Type", 's', "", 18});
		}
	}
	return t;
}
static std::string lower(std::string s) { for (auto & c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static bool isSp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static const RefOpt * cfgOpt(const std::string & sec, const std::string & key) { for (auto & o : cfgTable()) if (lower(o.sec) == lower(sec) && lower(o.key) == lower(key)) return &o; return nullptr; }
typedef std::map<std::string, std::string> RefCfg; // "section.key" in lower case -> canonical value; no entry: default / not given
// the value an empty or (where that means the default) an invalid assignment leads to: the one built into the component, which main() of the feeder overrides only at start-up
static std::string resetVal(const RefOpt & o) { if (!RADARCAPE && lower(o.sec) == "input" && lower(o.key) == "port") return "10003"; if (!RADARCAPE && !strcmp(o.key, "SyncFilter")) return "true"; return o.def; }
static std::string cname(const RefOpt & o) { return lower(o.sec) + "." + lower(o.key); }
static bool canon(const RefOpt & o, const std::string & v, std::string & out) // false: not a valid value
{
	switch (o.type) {
	case 's': if (v.size() > o.max) return false; out = v; return true;
	case 'i': case 'p': { if (v.empty() || v.size() > 19) return false; unsigned long n = strtoul(v.c_str(), nullptr, 0); if (o.type == 'p' && (uint32_t)n > 0xffff) return false; out = std::to_string((uint32_t)n); return true; }
	case 'b': { std::string l = lower(v); if (l == "true" || l == "1") out = "true"; else if (l == "false" || l == "0") out = "false"; else return false; return true; }
	default: { if (v.empty() || v.size() > 59) return false; char b[60]; snprintf(b, sizeof b, "%.17g", strtod(v.c_str(), nullptr)); out = b; return true; }
	}
}
// reading one file; an unparsable section header ends the evaluation of the file
static void refConfig(RefCfg & c, const std::string & text, bool errorMeansDefault)
{
	std::string sec; bool known = false; size_t p = 0;
	while (p < text.size()) {
		size_t q = text.find('\n', p); std::string l = text.substr(p, q == std::string::npos ? q : q - p); p = q == std::string::npos ? text.size() : q + 1;
		while (!l.empty() && l[0] == '\r') l.erase(0, 1);
		if (l.empty() || l[0] == ';' || l[0] == '#') continue;
		if (l[0] == '[') {
			size_t k = l.find(']'); if (k == std::string::npos) return;
			std::string rest = l.substr(k + 1); if (!rest.empty() && rest != "\r") return;
			sec = lower(l.substr(1, k - 1)); known = false; for (auto & o : cfgTable()) if (lower(o.sec) == sec) known = true;
			continue;
		}
		size_t e = l.find('='); if (e == std::string::npos || !known) continue;
		std::string key = l.substr(0, e), v = l.substr(e + 1); while (!key.empty() && isSp(key.back())) key.pop_back();
		while (!v.empty() && isSp(v[0])) v.erase(0, 1); if (!v.empty() && v.back() == '\r') v.pop_back();
		const RefOpt * o = cfgOpt(sec, key); if (!o) continue;
		std::string w;
		bool ok = !v.empty() && canon(*o, v, w);
		if (ok) c[cname(*o)] = w; else if (v.empty() || errorMeansDefault) { c.erase(cname(*o)); if (resetVal(*o) != o->def) c[cname(*o)] = resetVal(*o); }
	}
}
static std::string refGet(const RefCfg & c, const RefOpt & o) { auto i = c.find(cname(o)); return i == c.end() ? o.def : i->second; }
static std::string refGet(const RefCfg & c, const char * s, const char * k) { return refGet(c, *cfgOpt(s, k)); }

// ---- generator --------------------------------------------------------------------------------------------------------
static std::string randCase(std::string s) { for (auto & ch : s) if (choose(K_DATA, 3) == 2) { if (ch >= 'a' && ch <= 'z') ch -= 32; else if (ch >= 'A' && ch <= 'Z') ch += 32; } return s; }
static std::string blanks() { return (const char *[]){" ", "", "\t", "  ", " \t ", "\v "}[choose(K_DATA, 6)]; }
static std::string cfgWord(size_t n) { std::string s; while (n--) { static const char set[] = "abcdefghijklmnopqrstuvwxyzABCDXYZ0123456789-_./:=[];#@ %\\\"\xe4\xff"; s += set[choose(K_DATA, sizeof set - 1)]; } while (!s.empty() && isSp(s[0])) s[0] = 'x'; while (!s.empty() && isSp(s.back())) s.back() = 'y'; return s; }
static std::string fmtNum(unsigned long n)
{
	char b[40];
	switch (choose(K_DATA, 8)) {
	case 4: snprintf(b, sizeof b, "0x%lx", n); return b; case 5: snprintf(b, sizeof b, "0%lo", n); return b;
	case 6: return std::to_string(n) + (const char *[]){" ", " ;x", "abc", ".5", "\t"}[choose(K_DATA, 5)]; case 7: return "+" + std::to_string(n);
	default: return std::to_string(n);
	}
}
static std::string fmtVal(const RefOpt & o, const std::string & v)
{
	switch (o.type) {
	case 'i': case 'p': return fmtNum(strtoul(v.c_str(), nullptr, 10));
	case 'b': return randCase(v == "true" ? (choose(K_DATA, 2) ? "1" : "true") : choose(K_DATA, 2) ? "0" : "false");
	case 'd': return choose(K_DATA, 4) == 3 ? v + " deg" : v;
	default: return v;
	}
}
static std::string goodVal(const RefOpt & o)
{
	switch (o.type) {
	case 'p': return std::to_string(1 + choose(K_DATA, 65535));
	case 'i': return std::to_string(choose(K_DATA, 3) ? choose(K_DATA, 3000) : (uint32_t)choose64(K_DATA, 1ULL << 32));
	case 'b': return choose(K_DATA, 2) ? "true" : "false";
	case 'd': return fmtd(range(K_DATA, -90000000, 90000000) / 1e6);
	default: { size_t n = choose(K_DATA, 6) ? 1 + choose(K_DATA, (uint32_t)std::min<size_t>(o.max, 30)) : o.max - choose(K_DATA, 2); return cfgWord(n); }
	}
}
static std::string badVal(const RefOpt & o)
{
	switch (o.type) {
	case 'p': return choose(K_DATA, 2) ? std::to_string(65536 + choose(K_DATA, 100000)) : std::string(20 + choose(K_DATA, 600), '1');
	case 'i': return std::string(20 + choose(K_DATA, 600), '7');
	case 'b': return (const char *[]){"yes", "2", "tru", "truee", "on", "00"}[choose(K_DATA, 6)];
	case 'd': return std::string(60 + choose(K_DATA, 600), '8');
	default: return std::string(o.max + 1 + choose(K_DATA, 600), 'q');
	}
}
struct CfgEv { const RefOpt * o; std::string val; };
struct CfgWriter {
	std::string s; std::string sec; bool crlf;
	CfgWriter() : crlf(choose(K_DATA, 4) == 3) {}
	void eol() { s += crlf != (choose(K_DATA, 12) == 11) ? "\r\n" : "\n"; }
	void noise()
	{
		switch (choose(K_DATA, 10)) {
		case 0: break;
		case 1: s += (choose(K_DATA, 2) ? "; " : "#") + cfgWord(choose(K_DATA, 60)); eol(); break;
		case 2: eol(); break;
		case 3: s += "NoSuchKey" + blanks() + "=" + blanks() + cfgWord(1 + choose(K_DATA, 20)); eol(); break;
		case 4: { std::string w; for (int n = 1 + choose(K_DATA, 20); n--;) w += (char)('a' + choose(K_DATA, 26)); s += w; eol(); break; } // no '='
		case 5: s += " " + std::string(choose(K_DATA, 4), ' '); eol(); break;
		case 6: { const RefOpt & o = cfgTable()[choose(K_DATA, (uint32_t)cfgTable().size())]; s += std::string(" ") + o.key + " = " + goodVal(o); eol(); break; } // not a key: begins with a blank
		case 7: s += "=" + cfgWord(choose(K_DATA, 5)); eol(); break;
		case 8: s += std::string(1 + choose(K_DATA, 700), 'k') + "=" + cfgWord(3); eol(); break;
		case 9: { const RefOpt & o = cfgTable()[choose(K_DATA, (uint32_t)cfgTable().size())]; s += std::string("[") + (choose(K_DATA, 2) ? "X" : "") + o.sec + (choose(K_DATA, 2) ? "2]" : "/]"); eol(); s += std::string(o.key) + "=" + goodVal(o); eol(); sec = "?"; break; } // unknown section
		}
	}
	void put(const CfgEv & e)
	{
		if (choose(K_DATA, 6) == 5) noise();
		if (lower(sec) != lower(e.o->sec) || choose(K_DATA, 12) == 11) { sec = e.o->sec; s += "[" + randCase(sec) + "]"; eol(); if (choose(K_DATA, 10) == 9) { noise(); if (sec == "?") { sec = e.o->sec; s += "[" + sec + "]"; eol(); } } }
		s += randCase(e.o->key) + blanks() + "=" + blanks() + e.val; eol();
	}
	std::string end(bool allowCut = true)
	{
		if (choose(K_DATA, 5) == 4) noise();
		if (choose(K_DATA, 8) == 7) { // an unparsable header: nothing after it counts
			s += (const char *[]){"[BUFFER", "[BUFFER] x", "[", "[]]", "[NETWORK] "}[choose(K_DATA, 5)]; eol();
			for (int n = choose(K_DATA, 4); n--;) { const RefOpt & o = cfgTable()[choose(K_DATA, (uint32_t)cfgTable().size())]; s += std::string("[") + o.sec + "]\n" + o.key + " = " + goodVal(o) + "\n"; }
		}
		else if (choose(K_DATA, 10) == 9) { s += std::string("[") + cfgTable()[choose(K_DATA, (uint32_t)cfgTable().size())].sec + "]"; eol(); }
		if (allowCut && choose(K_DATA, 3) == 2) { while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back(); probe("configuration file without final newline"); }
		return s;
	}
};
static std::vector<CfgEv> decoys(const RefOpt & o, int n, bool bad) { std::vector<CfgEv> v; while (n--) switch (choose(K_DATA, 4)) { case 3: v.push_back({&o, ""}); break; case 2: if (bad) { v.push_back({&o, badVal(o)}); break; } default: v.push_back({&o, fmtVal(o, goodVal(o))}); } return v; }
static std::string randFile() { CfgWriter w; std::vector<CfgEv> v; for (auto & o : cfgTable()) if (choose(K_DATA, 3) == 2) for (auto & e : decoys(o, 1 + choose(K_DATA, 2), true)) v.push_back(e); for (auto & e : v) w.put(e); return w.end(); }

// a set of files whose effective settings are the given ones: every option is overridden in order, cut into files
typedef std::map<std::string, std::vector<std::pair<std::string, std::string>>> CfgMap;
static void scatterConfig(const CfgMap & want)
{
	bool errDef = !RADARCAPE; std::vector<CfgEv> seq, tail; RefCfg target;
	std::vector<std::vector<CfgEv>> per;
	for (auto & o : cfgTable()) {
		const std::string * v = nullptr; for (auto & s : want) for (auto & k : s.second) if (lower(s.first) == lower(o.sec) && lower(k.first) == lower(o.key)) v = &k.second;
		bool ser = !strcmp(o.key, "serial"); std::vector<CfgEv> L; int nd = choose(K_PLAN, 4); if (nd == 3) nd = 1 + choose(K_PLAN, 4);
		if (v && !v->empty()) {
			if (ser) { L = decoys(o, nd, true); L.push_back({&o, fmtVal(o, *v)}); for (auto & e : L) tail.push_back(e); target[cname(o)] = *v; continue; }
			bool isDef = o.def == *v && o.type != 'd', isReset = resetVal(o) == *v && o.type != 'd';
			if (isDef && !isReset && choose(K_PLAN, 2)) {}
			else if (isReset && choose(K_PLAN, 2)) { if (!isDef || choose(K_PLAN, 2)) { L = decoys(o, nd, true); L.push_back({&o, ""}); } else if (errDef && nd) { L = decoys(o, nd, true); L.push_back({&o, badVal(o)}); } if (!isDef) target[cname(o)] = *v; }
			else { L = decoys(o, nd, true); L.push_back({&o, fmtVal(o, *v)}); if (!errDef && choose(K_PLAN, 3) == 2) { L.push_back({&o, badVal(o)}); if (!o.max && o.type == 'b') {} } target[cname(o)] = *v; }
		} else if (!ser && nd && resetVal(o) == o.def) { L = decoys(o, nd, true); L.push_back({&o, ""}); }
		if (!L.empty()) per.push_back(L);
	}
	std::vector<size_t> pos(per.size()); bool grouped = choose(K_PLAN, 2) == 0; size_t left = 0; for (auto & l : per) left += l.size();
	while (left) { size_t i = choose(K_PLAN, (uint32_t)per.size()); while (pos[i] >= per[i].size()) i = (i + 1) % per.size(); seq.push_back(per[i][pos[i]++]); --left; }
	// files
	std::vector<std::string> names; std::string text; int blind = -1; // directory which cannot be read
	if (RADARCAPE) { names = { std::string(ETC) + "/openskyd.conf" }; }
	else {
		int nv = fsHas(STATE) ? choose(K_PLAN, 3) : 0, ne = 1 + choose(K_PLAN, 4);
		if (fsHas(STATE) && W->cfg.hasSerial && choose(K_PLAN, 8) == 7) { blind = choose(K_PLAN, 2); if (blind) { nv = 1 + choose(K_PLAN, 3); ne = 0; } else nv = 0; countFault("unreadable-directory"); }
		for (int d = 0; d < 2; ++d) {
			std::vector<std::pair<unsigned long, std::string>> N; std::set<std::string> used;
			for (int n = d ? ne : nv; n--;) {
				unsigned long k = choose(K_PLAN, 3) ? choose(K_PLAN, 30) : choose(K_PLAN, 3000); std::string f = (choose(K_PLAN, 4) == 3 ? "0" : "") + std::to_string(k) + (const char *[]){"-a", "-b", "", "-debconf", "_x.y", "z"}[choose(K_PLAN, 6)] + ".conf";
				if (f == "05-serial.conf" || !used.insert(f).second) continue;
				N.push_back({k, f});
			}
			if (N.empty() && (d ? blind != 1 : blind == 1)) N.push_back({10, "10-debconf.conf"});
			std::sort(N.begin(), N.end()); for (auto & x : N) names.push_back(std::string(d ? ETC + std::string("/conf.d") : STATE) + "/" + x.second);
			for (size_t i = 1; i < N.size(); ++i) if (N[i].first == N[i - 1].first) probe("configuration files with equal numbers");
		}
	}
	std::vector<std::vector<CfgEv>> per2(names.size()); std::vector<size_t> cuts; for (size_t i = 1; i < names.size(); ++i) cuts.push_back(choose(K_PLAN, (uint32_t)seq.size() + 1)); std::sort(cuts.begin(), cuts.end());
	for (size_t i = 0, f = 0; i < seq.size(); ++i) { while (f < cuts.size() && cuts[f] <= i) ++f; per2[f].push_back(seq[i]); }
	for (auto & e : tail) per2.back().push_back(e);
	RefCfg got;
	for (size_t f = 0; f < names.size(); ++f) {
		auto & v = per2[f]; if (grouped) std::stable_sort(v.begin(), v.end(), [](const CfgEv & a, const CfgEv & b) { return lower(a.o->sec) < lower(b.o->sec); });
		CfgWriter w; if (choose(K_PLAN, 3) == 2) w.noise(); for (auto & e : v) w.put(e);
		std::string t = w.end(); refConfig(got, t, errDef); fsPut(names[f], t); if (choose(K_PLAN, 8) == 7) fs[names[f]]->dtype = 10;
		tr("config %s: %s", names[f].c_str(), hex(t.data(), t.size(), 1500).c_str());
		if (verbose) fprintf(stderr, "---- %s\n%s\n----\n", names[f].c_str(), t.c_str());
	}
	for (auto & o : cfgTable()) { std::string x; if (target.count(cname(o))) canon(o, target[cname(o)], x); else x = o.def; if (refGet(got, o) != x) { fprintf(stderr, "internal: reference configuration differs for %s: %s instead of %s\n", cname(o).c_str(), refGet(got, o).c_str(), x.c_str()); exit(4); } }
	// files which do not count
	if (RADARCAPE) return;
	std::string dir = std::string(ETC) + "/conf.d";
	for (int n = choose(K_PLAN, 4); n--;) {
		std::string d = fsHas(STATE) && choose(K_PLAN, 2) ? STATE : dir;
		switch (choose(K_PLAN, 5)) {
		case 0: fsPut(d + "/a10.conf", randFile()); break;
		case 1: fsPut(d + "/99-x.conf~", randFile()); fsPut(d + "/98.conf.bak", randFile()); break;
		case 2: fsPut(d + "/.97.conf", randFile()); fsPut(d + "/96conf", randFile()); fsPut(d + "/7", randFile()); break;
		case 3: fsMkdirs(d + "/95-dir.conf"); fsPut(d + "/95-dir.conf/10.conf", randFile()); break;
		case 4: fsPut(d + "/94-secret.conf", randFile()); fs[d + "/94-secret.conf"]->unreadable = true; countFault("unreadable-config"); break;
		}
	}
	if (blind >= 0) { std::string d = blind ? dir : STATE; fsPut(d + "/10-debconf.conf", randFile()); fs[d]->unreadable = true; }
	if (choose(K_PLAN, 6) == 5) { probe("directory entries without type"); for (auto & f : fs) if (f.first.find("/conf.d/") != std::string::npos) f.second->dtype = 0; }
}
// ---- saving -----------------------------------------------------------------------------------------------------------
struct Saver { int round = 0, rounds = 1; std::string file, cfgPath, before, text; bool had = false, faulty = false, hit = false, again = false; RefCfg want; bool bad = false; int killAt = -1, ops = 0; };
static Saver * Z;
static void saveRound();
static std::string saveCheck(const std::string & text, const RefCfg & want)
{
	RefCfg got; refConfig(got, text, false); 
	for (auto & o : cfgTable()) {
		if (refGet(got, o) != refGet(want, o)) return std::string("option ") + o.sec + "." + o.key + " is \"" + refGet(got, o).substr(0, 60) + "\" instead of \"" + refGet(want, o).substr(0, 60) + "\"";
		if (!got.count(cname(o)) && !(o.def.empty() || refGet(want, o).empty())) return std::string("option ") + o.sec + "." + o.key + " is not written";
	}
	return "";
}
static void saveEnded(EndHow how, int status)
{
	bool has = fsHas(Z->file) && !fs[Z->file]->dir; std::string nowText = has ? fs[Z->file]->data : ""; bool hit = Z->hit, sockets = !conns.empty(); size_t no = openAtExit; std::string em = lastEmerg; uint64_t mf = mallocFail.n;
	sysKill(); faultsEnabled = true;
	tr("=== saving process ended: how %d status %d %s", how, status, em.c_str());
	bool untouched = has == Z->had && nowText == Z->before; std::string d = has ? saveCheck(nowText, Z->want) : "there is no file";
	if (sockets) violation("save.feeds", "C25", "the daemon communicates although it should only save its configuration");
	if (how == END_KILLED) { if (!untouched && !d.empty()) violation("save.torn", "C25,C12", "killed while saving, the file is neither the old nor the new one: %s", d.c_str()); probe("killed while saving"); }
	else if (Z->bad) { if (how != END_ABORT) violation("cfg.accepted", "C25", "an inconsistent configuration is accepted"); else if (!untouched) violation("save.bad", "C25", "an inconsistent configuration is saved"); }
	else if (how == END_ABORT) { if (!mf) violation("proc.emerg", "C25,C26", "the daemon gives up: %s", em.c_str()); if (!untouched) violation("save.torn", "C25", "saving failed, but the old file is gone"); }
	else if (how == END_EXIT && status == 0) { if (!d.empty()) violation(hit ? "save.unreported" : "save.wrong", "C25", "saving the configuration is reported as successful, but reading it back %s", d.c_str()); else { probe("configuration saved"); if (Z->again && nowText != Z->text) violation("save.unstable", "C25", "saving the saved configuration yields a different file"); Z->text = nowText; } }
	else if (how == END_EXIT) { if (!hit) violation("save.refused", "C25", "saving the configuration fails (status %d) without a reason", status); else { probe("failed save reported"); if (!untouched) violation("save.torn", "C25,C12", "saving failed, but the old file is gone"); } }
	if (how == END_EXIT && no) violation("fd.leftover", "C21,C25", "descriptors are left open: %s", fdsAtExit.c_str());
	if (violated() && stopRun) return;
	bool ok = how == END_EXIT && status == 0 && !Z->bad && d.empty();
	if (Z->round >= Z->rounds) { W->ended = true; endRun(); return; }
	Z->again = ok && choose(K_PLAN, 2); after(MS, saveRound);
}
static void saveRound()
{
	++Z->round; std::string t;
	if (Z->again) { t = Z->text; }
	else { t = randFile(); if (choose(K_PLAN, 6) == 5) t += "\n" + randFile(); }
	Z->want.clear(); bool readable = true;
	fsFaultFilter = nullptr; diskFullAfter = -1;
	if (fs.count(Z->cfgPath)) fs.erase(Z->cfgPath);
	if (choose(K_PLAN, 16) == 15 && !Z->again) { readable = false; if (choose(K_PLAN, 2)) { fsPut(Z->cfgPath, t); fs[Z->cfgPath]->unreadable = true; } } else fsPut(Z->cfgPath, t);
	if (readable) refConfig(Z->want, t, false);
	if (verbose) fprintf(stderr, "---- %s%s\n%s\n----\n", Z->cfgPath.c_str(), readable ? "" : " (unreadable)", t.c_str());
	auto set = [&](const char * s, const char * k, const std::string & v) { Z->want[cname(*cfgOpt(s, k))] = v; };
	Z->bad = false; for (auto & o : cfgTable()) if (o.type == 'p' && refGet(Z->want, o) == "0") Z->bad = true;
	for (auto & o : cfgTable()) if (o.type == 's' && refGet(Z->want, o).empty() && (strcmp(o.sec, "FPGA") || refGet(Z->want, "FPGA", "Configure") == "true")) Z->bad = true;
	// documented corrections
	auto num = [&](const char * s, const char * k) { return strtoul(refGet(Z->want, s, k).c_str(), nullptr, 10); };
	if (num("BUFFER", "StaticBacklog") < 2) set("BUFFER", "StaticBacklog", "2");
	for (const char * k : { "GCInterval", "GCLevel", "DynamicBacklog" }) if (num("BUFFER", k) < 1) set("BUFFER", k, "1");
	if (num("STATISTICS", "Interval") < 1) set("STATISTICS", "Interval", "1");
	if (num("NETWORK", "Timeout") < 1) set("NETWORK", "Timeout", "1500");
	if (refGet(Z->want, "BUFFER", "History") == "false" && refGet(Z->want, "BUFFER", "GC") == "true") set("BUFFER", "GC", "false");
	switch (choose(K_PLAN, 6)) { case 0: default: Z->file = "/root/saved.conf"; break; case 3: Z->file = Z->cfgPath; break; case 4: Z->file = "/nowhere/saved.conf"; break; case 5: Z->file = "/root/dir"; fsMkdirs("/root/dir"); break; }
	fsMkdirs("/root"); if (Z->file == "/root/saved.conf") { if (choose(K_PLAN, 2)) fsPut(Z->file, "old contents"); }
	Z->had = fsHas(Z->file) && !fs[Z->file]->dir; Z->before = Z->had ? fs[Z->file]->data : ""; Z->hit = Z->file == "/nowhere/saved.conf" || Z->file == "/root/dir" || (Z->file == Z->cfgPath && Z->had && fs[Z->file]->unreadable);
	uint32_t p = pick({0, 0, 15, 40});
	fsFaultFilter = [p](const char * op, const std::string & path) -> int {
		if (path.compare(0, Z->file.size(), Z->file) || path == Z->cfgPath || !p) return 0;
		if (!strcmp(op, "unlink") || !coin(K_FILEFAIL, p, 100)) return 0;
		Z->hit = true; countFault((std::string("file-") + op).c_str()); return (int[]){EIO, ENOSPC, EACCES, EROFS}[choose(K_FILEFAIL, 4)];
	};
	if (choose(K_PLAN, 8) == 7) { diskFullAfter = choose(K_FILEFAIL, 900); Z->hit = true; countFault("disk-full"); }
	Z->killAt = choose(K_PLAN, 4) == 3 ? choose(K_PLAN, 8) : -1; Z->ops = 0;
	onFsOp = [](const char * op, const std::string & path) { if (path.compare(0, Z->file.size(), Z->file)) return; if (Z->ops++ == Z->killAt) after(0, [] { if (procAlive) { countFault("process-kill"); killProcess(END_KILLED, SIGKILL); } }); };
	W->argv = { "openskyd" }; if (UART && choose(K_PLAN, 2)) W->argv.push_back("--black"); W->argv.push_back("--save"); W->argv.push_back(Z->file);
	++seqno; startProcess(W->argv); int no = procNo;
	after(20 * SEC, [no] { if (procAlive && procNo == no) { violation("save.hang", "C25,C26", "saving the configuration does not end: %s", liveThreads(nullptr).c_str()); endRun(); } });
}
static void saveSetup()
{
	delete Z; Z = new Saver; Z->cfgPath = std::string(ETC) + "/openskyd.conf"; Z->rounds = 1 + choose(K_PLAN, 6);
	fsMkdirs("/sys/class/net/eth0"); fsPut("/sys/class/net/eth0/address", "02:00:00:00:00:01\n"); 
	onProcessEnd = saveEnded; onDeadlock = [] { violation("deadlock", "*", "nothing can happen any more"); endRun(); };
	after(MS, saveRound);
}
