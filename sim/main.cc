#include <locale>
// Command line driver: seeded search, replay, minimisation.
#include "world.h"
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <fcntl.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <fstream>
#include <sstream>
using namespace sim;
#ifndef PRODUCT_NAME
#define PRODUCT_NAME ""
#endif
static double wallNow() { struct timeval tv; gettimeofday(&tv, nullptr); return tv.tv_sec + tv.tv_usec * 1e-6; }
static uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
static uint64_t mixs(uint64_t h, const std::string & s) { for (char c : s) h = mix(h ^ (uint8_t)c); return h; }
static std::string esc(const std::string & s)
{
	std::string o; char b[8];
	for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
	return o;
}
static int kindOf(const std::string & s) { for (int k = 0; k < K_MAX; ++k) if (s == kindName[k]) return k; return -1; }

struct Replay { std::string product, variant, profile, property, cls, msg; uint64_t seed = 0, hash = 0; Tape tape; ns simTime = 0; bool generate = false; };
static bool loadReplay(const std::string & file, Replay & r)
{
	std::ifstream f(file); if (!f) return false;
	std::string line; 
	while (std::getline(f, line)) {
		if (line.empty() || line[0] == '#') continue;
		std::istringstream s(line); std::string k; s >> k;
		std::string rest = line.size() > k.size() ? line.substr(k.size() + 1) : "";
		if (k == "product") r.product = rest; else if (k == "variant") r.variant = rest; else if (k == "profile") r.profile = rest; else if (k == "property") r.property = rest;
		else if (k == "class") r.cls = rest; else if (k == "message") r.msg = rest;
		else if (k == "seed") r.seed = strtoull(rest.c_str(), 0, 16); else if (k == "hash") r.hash = strtoull(rest.c_str(), 0, 16);
		else if (k == "generate") r.generate = true;
		else if (k == "t") { std::string n; uint64_t i, v; s >> n >> i >> v; int kk = kindOf(n); if (kk < 0) return false; r.tape.push_back({(uint32_t)kk, i, v}); }
	}
	return !r.profile.empty();
}
static void saveReplay(const std::string & file, const Replay & r)
{
	std::string tmp = file + ".tmp"; FILE * f = fopen(tmp.c_str(), "w");
	if (!f) { perror(tmp.c_str()); exit(4); }
	fprintf(f, "# replay with: python3 /verif/check.py replay %s\n", file.c_str());
	fprintf(f, "product %s\nvariant %s\nprofile %s\nproperty %s\nseed %llx\nclass %s\nmessage %s\nhash %llx\n", r.product.c_str(), r.variant.c_str(), r.profile.c_str(), r.property.c_str(), (unsigned long long)r.seed, r.cls.c_str(), r.msg.c_str(), (unsigned long long)r.hash);
	std::map<std::string, int> cnt; for (auto & e : r.tape) ++cnt[kindName[e.kind]];
	fprintf(f, "# %zu recorded decisions differ from the benign default:", r.tape.size()); for (auto & c : cnt) fprintf(f, " %s=%d", c.first.c_str(), c.second); fprintf(f, "\n");
	for (auto & e : r.tape) fprintf(f, "t %s %llu %llu\n", kindName[e.kind], (unsigned long long)e.idx, (unsigned long long)e.val);
	fclose(f); rename(tmp.c_str(), file.c_str());
}
static void loadKnown(const std::string & file) { std::ifstream f(file); std::string l; while (std::getline(f, l)) { size_t t = l.find('\t'); if (t != std::string::npos) knownFindings.push_back({l.substr(0, t), std::regex(l.substr(t + 1))}); } }
static RunSpec spec(const Replay & r, bool replay) { RunSpec s; s.scenario = r.profile; s.property = r.property; s.seed = r.seed; s.replay = replay; if (replay) s.tape = r.tape; return s; }
static Result exec(const RunSpec & s) { return runOnce(s, [&] { scenarioSetup(s.scenario); }); }

int main(int argc, char ** argv)
{
	if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR")) {
		setenv("SIM_NOASLR", "1", 1);
		if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
	}
	setvbuf(stdout, nullptr, _IOLBF, 0);
	{ // the C++ library fills these tables upon first use: no run may depend on whether it is the first one
		auto & f = std::use_facet<std::ctype<char>>(std::locale::classic()); f.widen('\n'); for (int c = 0; c < 256; ++c) f.narrow((char)c, 0);
	}
	snapshotSutInit();
	std::string cmd = argc > 1 ? argv[1] : "";
	std::map<std::string, std::string> o; std::vector<std::string> pos;
	for (int i = 2; i < argc; ++i) { std::string a = argv[i]; if (a.substr(0, 2) == "--") { if (i + 1 < argc && std::string(argv[i + 1]).substr(0, 2) != "--") { o[a.substr(2)] = argv[i + 1]; ++i; } else o[a.substr(2)] = "1"; } else pos.push_back(a); }
	auto num = [&](const char * k, double d) { return o.count(k) ? atof(o[k].c_str()) : d; };
	if (cmd == "components") { printf("%s\n", scenarioComponents()); return 0; }
	if (cmd == "run") {
		std::string profile = o["profile"], prop = o.count("prop") ? o["prop"] : "*", out = o["out"];
		uint64_t seed0 = strtoull(o.count("seed0") ? o["seed0"].c_str() : "1", 0, 10), worker = (uint64_t)num("worker", 0), workers = (uint64_t)num("workers", 1);
		uint64_t runs = (uint64_t)num("runs", 1e9), recheck = (uint64_t)num("recheck", 64); double T = num("time", 10), t0 = wallNow();
		uint64_t base = mixs(mixs(mix(seed0), prop), profile), done = 0, steps_ = 0, sw = 0, rechecked = 0, unrepeated = 0, hk = 0; ns simT = 0;
		bool keepGoing = o.count("keep-going");
		std::set<uint64_t> sched, hashes; std::map<std::string, uint64_t> other; std::map<std::string, std::string> otherEx; std::string samples; int code = 0;
		std::map<std::string, std::pair<uint64_t, std::string>> viol;
		std::string violFile; int curFd = o.count("cur") ? open(o["cur"].c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644) : -1;
		if (o.count("known")) loadKnown(o["known"]);
		for (uint64_t i = worker; done < runs && wallNow() - t0 < T; i += workers) {
			Replay rp; rp.product = o["product"]; rp.variant = o["variant"]; rp.profile = profile; rp.property = prop; rp.seed = o.count("seed") ? strtoull(o["seed"].c_str(), 0, 16) : mix(base + i);
			if (getenv("SIM_TRACE_SEED")) fprintf(stderr, "seed %llx\n", (unsigned long long)rp.seed);
			double rt0 = wallNow();
			if (curFd >= 0) { char b[32]; int n = snprintf(b, sizeof b, "%llx\n", (unsigned long long)rp.seed); if (ftruncate(curFd, 0) || pwrite(curFd, b, n, 0) != n) {} }
			Result r = exec(spec(rp, false)); ++done; steps_ += r.steps; sw += r.switches; hk += hookCount; simT += r.simTime; sched.insert(r.schedHash); hashes.insert(r.hash);
			if (wallNow() - rt0 > 5) fprintf(stderr, "slow run: %s seed %llx %.1f s, %llu steps, sim %.1f s\n", profile.c_str(), (unsigned long long)rp.seed, wallNow() - rt0, (unsigned long long)r.steps, r.simTime / 1e9);
			for (auto & x : r.other) { ++other[x.substr(0, x.find(' '))]; if (!otherEx.count(x.substr(0, x.find(' ')))) { char b[32]; snprintf(b, sizeof b, "%llx ", (unsigned long long)rp.seed); otherEx[x.substr(0, x.find(' '))] = b + x; } }
			if (samples.size() < 900 && done <= 6) { char b[200]; snprintf(b, sizeof b, "%s{\"seed\":\"%llx\",\"sim_s\":%.3f,\"steps\":%llu,\"switches\":%llu,\"decisions\":%zu,\"hash\":\"%llx\"}", samples.empty() ? "" : ",", (unsigned long long)rp.seed, r.simTime / 1e9, (unsigned long long)r.steps, (unsigned long long)r.switches, r.tape.size(), (unsigned long long)r.hash); samples += b; }
			bool chk = r.violated || (recheck && (i / workers) % recheck == recheck / 2);
			if (chk && !keepGoing) {
				Replay q = rp; q.tape = r.tape; ++rechecked;
				auto fc = faultCounts; auto pc = probeCounts;
				Result a = exec(spec(q, true)), b = exec(spec(rp, false));
				faultCounts = fc; probeCounts = pc;
				if (a.hash != r.hash || b.hash != r.hash || a.cls != r.cls || a.violated != r.violated) {
					if (getenv("SIM_DUMPND")) { // both traces, to find the first difference
						verbose = true; exec(spec(rp, false)); std::ofstream("/tmp/nd.gen") << traceText; exec(spec(q, true)); std::ofstream("/tmp/nd.replay") << traceText; verbose = false;
					}
					fprintf(stderr, "sim: NOT DETERMINISTIC profile %s seed %llx hash %llx replay %llx again %llx (%s / %s)\n", profile.c_str(), (unsigned long long)rp.seed, (unsigned long long)r.hash, (unsigned long long)a.hash, (unsigned long long)b.hash, r.cls.c_str(), a.cls.c_str());
					++unrepeated; continue; // this one proves nothing; the search goes on
				}
			}
			if (r.violated) {
				if (keepGoing) { auto & v = viol[r.cls]; if (!v.first++) { char b[64]; snprintf(b, sizeof b, "seed %llx [%s] ", (unsigned long long)rp.seed, r.tags.c_str()); v.second = b + r.msg; } if (o.count("seed")) break; continue; }
				rp.cls = r.cls; rp.msg = r.msg; rp.hash = r.hash; rp.tape = r.tape; violFile = o["viol"]; if (violFile.empty()) violFile = "/tmp/sim-viol.replay";
				saveReplay(violFile, rp); printf("violation %s: %s\n", r.cls.c_str(), r.msg.c_str()); code = 1; break;
			}
			if (o.count("seed")) break;
		}
		if (unrepeated && !code) code = 3;
		for (auto & v : viol) printf("%6llu %s %s\n", (unsigned long long)v.second.first, v.first.c_str(), v.second.second.c_str());
		if (o.count("show")) {
			for (auto & x : otherEx) printf("other %6llu %s\n", (unsigned long long)other[x.first], x.second.c_str());
			printf("runs %llu wall %.1f sim %.0f s steps %llu distinct %zu states %zu\n", (unsigned long long)done, wallNow() - t0, simT / 1e9, (unsigned long long)steps_, hashes.size(), stateSigs.size());
			for (auto & x : faultCounts) printf("  fault %s=%llu\n", x.first.c_str(), (unsigned long long)x.second);
			for (auto & x : probeCounts) printf("  probe %s=%llu\n", x.first.c_str(), (unsigned long long)x.second);
		}
		if (!out.empty()) {
			FILE * f = fopen(out.c_str(), "w"); if (!f) { perror(out.c_str()); return 4; }
			fprintf(f, "{\"profile\":\"%s\",\"runs\":%llu,\"wall\":%.3f,\"sim_s\":%.3f,\"steps\":%llu,\"switches\":%llu,\"accesses\":%llu,\"rechecked\":%llu,\"code\":%d,\"viol\":\"%s\",", profile.c_str(), (unsigned long long)done, wallNow() - t0, simT / 1e9, (unsigned long long)steps_, (unsigned long long)sw, (unsigned long long)hk, (unsigned long long)rechecked, code, esc(violFile).c_str());
			auto mp = [&](const char * n, std::map<std::string, uint64_t> & m) { fprintf(f, "\"%s\":{", n); bool c = false; for (auto & x : m) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", esc(x.first).c_str(), (unsigned long long)x.second); c = true; } fprintf(f, "},"); };
			mp("faults", faultCounts); mp("probes", probeCounts); mp("other", other);
			fprintf(f, "\"samples\":[%s],\"hashes\":[", samples.c_str());
			bool c = false; for (auto h : hashes) { fprintf(f, "%s\"%llx\"", c ? "," : "", (unsigned long long)h); c = true; }
			fprintf(f, "],\"sched\":["); c = false; for (auto h : sched) { fprintf(f, "%s\"%llx\"", c ? "," : "", (unsigned long long)h); c = true; }
			fprintf(f, "],\"states\":["); c = false; for (auto h : stateSigs) { fprintf(f, "%s\"%llx\"", c ? "," : "", (unsigned long long)h); c = true; }
			fprintf(f, "]}\n"); fclose(f);
		}
		return code;
	}
	if (cmd == "replay" || cmd == "minimise") {
		Replay r; if (pos.empty() || !loadReplay(pos[0], r)) { fprintf(stderr, "cannot read replay file\n"); return 4; }
		if (o.count("prop")) r.property = o["prop"];
		if (cmd == "replay") {
			verbose = o.count("verbose");
			Result a = exec(spec(r, !r.generate));
			if (verbose) fputs(traceText.c_str(), stdout);
			printf("replay violated=%d class=%s hash=%llx sim_s=%.3f steps=%llu\n%s\n", a.violated, a.cls.c_str(), (unsigned long long)a.hash, a.simTime / 1e9, (unsigned long long)a.steps, a.msg.c_str());
			if (!a.violated) return 0;
			return a.cls == r.cls && a.hash == r.hash ? 1 : 2;
		}
		double t0 = wallNow(), T = num("time", 10);
		Result a = exec(spec(r, true)); if (!a.violated || a.cls != r.cls) { fprintf(stderr, "does not reproduce\n"); return 2; }
		uint64_t tries = 0; Tape best = r.tape;
		auto test = [&](const Tape & t) { ++tries; Replay q = r; q.tape = t; Result x = exec(spec(q, true)); if (x.violated && x.cls == r.cls) { best = t; return true; } return false; };
		auto keepKind = [&](uint32_t k) { return k == K_RAND; };
		std::vector<int> order = { K_STALL, K_MALLOC, K_SPURIOUS, K_SHORTRECV, K_SHORTSEND, K_SEGMENT, K_WAKEORDER, K_MAYCANCEL, K_THREADFAIL, K_SOCKFAIL, K_FILEFAIL, K_FORKFAIL, K_CLOCK, K_SHORTWRITE, K_DIRORDER, K_CONNECT, K_DNS, K_UART, K_FPGA, K_KILL, K_NEMESIS, K_LATENCY, K_PREEMPT, K_SCHED, K_ACTOR, K_DATA, K_PLAN, K_CFG };
		for (int k : order) { if (wallNow() - t0 > T * 0.4) break; Tape t; for (auto & e : best) if ((int)e.kind != k) t.push_back(e); if (t.size() != best.size()) test(t); }
		// chunked reduction
		for (size_t n = 2; wallNow() - t0 < T; ) {
			size_t len = best.size(), chunk = std::max((size_t)1, len / n); bool red = false;
			for (size_t i = 0; i < best.size() && wallNow() - t0 < T; ) {
				Tape t; bool any = false; for (size_t j = 0; j < best.size(); ++j) { if (j >= i && j < i + chunk && !keepKind(best[j].kind)) { any = true; continue; } t.push_back(best[j]); }
				if (any && test(t)) red = true; else i += chunk;
			}
			if (chunk == 1 && !red) break;
			if (chunk == 1 || !red) n = std::min(best.size() ? best.size() : 1, n * 2);
			if (best.empty()) break;
		}
		Replay q = r; q.tape = best; Result x = exec(spec(q, true)), y = exec(spec(q, true));
		if (!x.violated || x.cls != r.cls || x.hash != y.hash) { fprintf(stderr, "minimised run is unstable\n"); return 3; }
		q.hash = x.hash; q.msg = x.msg; saveReplay(pos.size() > 1 ? pos[1] : pos[0], q);
		printf("minimised %zu -> %zu decisions in %llu runs, sim_s=%.3f\n", r.tape.size(), best.size(), (unsigned long long)tries, x.simTime / 1e9);
		return 0;
	}
	fprintf(stderr, "usage: sim run|replay|minimise|components ...\n"); return 4;
}
