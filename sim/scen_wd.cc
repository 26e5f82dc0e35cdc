// The separate watchdog program of the Radarcape (src/radarcape/wd-main.c) with a model of the GPIO controllers, of its
// privileges and of a hardware that cannot be reached.
#include "world.h"
#include <cerrno>
#include <fcntl.h>
namespace sim {
alignas(4096) static uint8_t gpioPage[4][4096];
static const uint64_t gpioBase[4] = { 0x44e07000, 0x4804c000, 0x481ac000, 0x481ae000 };
enum { R_OE = 0x134, R_IN = 0x138, R_CLEAR = 0x190, R_SET = 0x194, WD_PIN = 60 };
struct Wd { uint32_t out[4], oe[4], ext[4]; std::set<int> mapped; int pendC = -1, pendR = 0; ns started = 0, lastRise = 0, highSince = NEVER; uint64_t pulses = 0; bool usage = false, hwFail = false, killed = false, root = true; int opened = 0, failMap = -1, maps = 0, failOpen = 0; };
static Wd * D;
struct MemFile : OFile { MemFile() { kind = "mem"; path = "/dev/mem"; } };
static uint32_t & reg(int c, int off) { return *(uint32_t *)(gpioPage[c] + off); }
static bool pinOut(int p) { return !(D->oe[p >> 5] >> (p & 31) & 1); }
static bool level(int p) { return pinOut(p) ? D->out[p >> 5] >> (p & 31) & 1 : D->ext[p >> 5] >> (p & 31) & 1; }
static void change(int c, uint32_t nout, uint32_t noe)
{
	uint32_t d = (nout ^ D->out[c]) | (noe ^ D->oe[c]);
	for (int b = 0; b < 32; ++b) if (d >> b & 1 && c * 32 + b != WD_PIN) violation("gpio.foreign", "C18,C20", "%s of pin %d, which belongs to something else, is changed", (noe ^ D->oe[c]) >> b & 1 ? "the direction" : "the output", c * 32 + b);
	bool was = level(WD_PIN); D->out[c] = nout; D->oe[c] = noe; bool is = level(WD_PIN); if (was == is) return; ++seqno; th(0x610, is);
	if (is) {
		ns lim = stallsOn() ? 4 * SEC : 1500 * MS; ns last = D->pulses ? D->lastRise + 30 * SEC : D->started + SEC; if (now > last + lim) violation("wd.late", "C18", "the watchdog is served %.1f s after the last time", (now - D->lastRise) / 1e9);
		if (D->pulses && (!cred.uid || !cred.gid || (D->root && cred.groups))) violation("wd.priv", "C18", "the watchdog program runs with uid %u, gid %u and %zu other groups", cred.uid, cred.gid, cred.groups);
		D->lastRise = D->highSince = now; ++D->pulses; stateSig(D->pulses & 15);
	} else D->highSince = NEVER;
}
static void sync()
{
	for (int i = 0; i < 4; ++i) if (uint32_t v = reg(i, R_OE); v != D->oe[i] && !(D->pendC == i && D->pendR == R_OE)) change(i, D->out[i], v);
	if (D->pendC < 0) return;
	int c = D->pendC, r = D->pendR; D->pendC = -1; uint32_t v = reg(c, r);
	if (r == R_SET) change(c, D->out[c] | v, D->oe[c]); else if (r == R_CLEAR) change(c, D->out[c] & ~v, D->oe[c]); else change(c, D->out[c], v);
}
static void hookGpio(uintptr_t a, size_t n, bool write)
{
	int c = (int)(a - (uintptr_t)gpioPage) >> 12, off = (int)(a & 4095); sync();
	if (!D->mapped.count(c)) { violation("gpio.unmapped", "C18,C26", "access to an unmapped GPIO controller"); return; }
	if (n != 4 || off & 3 || (off != R_OE && off != R_IN && off != R_CLEAR && off != R_SET)) { violation("gpio.register", "C18", "%s %zu bytes at register 0x%x of a GPIO controller", write ? "writing" : "reading", n, off); return; }
	if (write) { if (off != R_IN) { D->pendC = c; D->pendR = off; } return; }
	if (off == R_OE) reg(c, off) = D->oe[c]; else if (off != R_IN) reg(c, off) = D->out[c];
	else { uint32_t v = 0; for (int b = 0; b < 32; ++b) v |= (uint32_t)level(c * 32 + b) << b; reg(c, off) = v; }
}
static void tick()
{
	if (!procAlive) return; sync(); ns lim = stallsOn() ? 4 * SEC : 1500 * MS;
	ns since = D->pulses ? D->lastRise + 30 * SEC : D->started + SEC;
	if (!D->usage && !D->hwFail && now > since + lim) { violation("wd.late", "C18", "the hardware watchdog has not been served for %.1f s", (now - (D->pulses ? D->lastRise : D->started)) / 1e9); return; }
	if (D->highSince != NEVER && now - D->highSince > lim) { violation("wd.stuck", "C18", "the watchdog line is left set for %.1f s", (now - D->highSince) / 1e9); return; }
	if (D->pulses && !pinOut(WD_PIN)) { violation("wd.input", "C18", "the watchdog line is not an output"); return; }
	after(100 * MS + (ns)choose(K_LATENCY, 100) * MS, tick);
}
}
using namespace sim;
void scenarioSetup(const std::string & profile)
{
	delete D; D = new Wd; D->root = choose(K_PLAN, 8) != 7; D->started = now;
	for (int i = 0; i < 4; ++i) { D->out[i] = (uint32_t)choose64(K_PLAN, 1ULL << 32); D->oe[i] = (uint32_t)choose64(K_PLAN, 1ULL << 32); D->ext[i] = (uint32_t)choose64(K_PLAN, 1ULL << 32); }
	D->out[WD_PIN >> 5] &= ~(1u << (WD_PIN & 31)); if (choose(K_PLAN, 4) == 3) D->out[WD_PIN >> 5] |= 1u << (WD_PIN & 31); D->ext[WD_PIN >> 5] &= ~(1u << (WD_PIN & 31));
	memset(gpioPage, 0, sizeof gpioPage); for (int i = 0; i < 4; ++i) reg(i, R_OE) = D->oe[i];
	mmioLo = (uintptr_t)gpioPage; mmioHi = mmioLo + sizeof gpioPage; mmioHook = hookGpio; userDb = choose(K_PLAN, 4); std::vector<std::string> argv = { "/usr/bin/rc-wd" };
	switch (choose(K_PLAN, 12)) { case 11: argv.push_back("--help"); D->usage = true; break; case 10: argv.push_back("-h"); D->usage = true; break; }
	switch (choose(K_PLAN, 8)) { case 7: D->failOpen = (int[]){EACCES, ENOENT, EMFILE}[choose(K_PLAN, 3)]; break; case 6: D->failMap = choose(K_PLAN, 4); break; }
	setRate(K_MALLOC, choose(K_CFG, 3) == 2 ? 20000 : 0);
	openDevice = [](const std::string & p, int fl) -> OFileP {
		if (p != "/dev/mem") return nullptr; ++D->opened;
		int e = D->failOpen ? D->failOpen : cred.uid ? EACCES : 0; if (e) { D->hwFail = true; countFault("gpio-open-failure"); cur->err = e; return nullptr; }
		if ((fl & O_ACCMODE) != O_RDWR) violation("gpio.open", "C18", "/dev/mem is not opened for reading and writing"); return std::make_shared<MemFile>();
	};
	mmapDevice = [](OFile * f, size_t len, off_t off) -> void * {
		if (f->kind != "mem") return nullptr; if (D->maps++ == D->failMap) { D->hwFail = true; countFault("gpio-map-failure"); cur->err = EPERM; return nullptr; }
		for (int i = 0; i < 4; ++i) if ((uint64_t)off == gpioBase[i] && len <= 4096) { D->mapped.insert(i); return gpioPage[i]; }
		violation("gpio.map", "C18", "memory at 0x%llx is mapped, which is no GPIO controller", (unsigned long long)off); return nullptr;
	};
	munmapDevice = [](void * p, size_t) { for (int i = 0; i < 4; ++i) if (p == gpioPage[i]) { sync(); D->mapped.erase(i); return true; } return false; };
	onDeadlock = [] { violation("deadlock", "*", "nothing can happen any more"); endRun(); };
	onProcessEnd = [](EndHow how, int st) {
		sync(); std::string em = lastEmerg; size_t fdsOpen = openFds(); sysKill();
		if (violated()) ;
		else if (how == END_KILLED && D->killed) { if (D->highSince != NEVER) probe("killed within a watchdog pulse"); }
		else if (how != END_EXIT) violation("wd.crash", "C18,C26", "the watchdog program crashes: %s", em.c_str());
		else if (!D->usage && !D->hwFail) violation("wd.ended", "C18", "the watchdog program ends with status %d", st);
		else if (!st) violation("wd.status", "C18", "the watchdog program reports success although it %s", D->usage ? "only prints its usage" : "cannot reach the hardware");
		else if (D->usage && D->opened) violation("wd.usage", "C18", "the hardware is touched although the program is called wrongly");
		else probe(D->usage ? "usage" : "hardware cannot be reached"); (void)fdsOpen;
		endRun();
	};
	if (choose(K_PLAN, 2)) for (int i = 0, n = 1 + choose(K_PLAN, 6); i < n; ++i) at(now + (ns)logrange(K_CLOCK, 1, 300000) * MS, [] { ns j = (ns)logrange(K_CLOCK, 10, 7200 * 1000) * MS; clockJump(choose(K_CLOCK, 2) ? -j : j); countFault("clock-jump"); });
	if (choose(K_PLAN, 4) == 3) at(now + (ns)logrange(K_KILL, 1, 300000) * MS, [] { if (procAlive) { D->killed = true; countFault("kill"); killProcess(END_KILLED, 15); } });
	at(now + 400 * SEC, [] { sync(); if (D->hwFail && !violated()) violation("wd.status", "C18", "the watchdog program continues although it cannot reach the hardware"); if (!D->hwFail && !D->usage) probe("served for 400 s"); if (procAlive && openFds() > 3) violation("fd.leak", "C21", "%zu descriptors are open", openFds()); endRun(); });
	startProcess(argv); if (!D->root) { cred.uid = 1000; cred.gid = 1000; }
	after(200 * MS, tick);
}
const char * scenarioComponents() { return "{\"real\":[\"radarcape/wd-main.c\",\"radarcape/watchdog.c\",\"radarcape/gpio.c\",\"util/*.c\"],\"stub\":[\"GPIO controllers\",\"user data base and credentials\",\"libc, clock\"]}"; }
