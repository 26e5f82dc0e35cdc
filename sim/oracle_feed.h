// Checks over the recorded history of a run (included by scen_feeder.cc inside namespace sim).
struct UpConn { Conn * c; UpParse p; uint32_t relay = 0; bool login = false; uint64_t loginLo = 0, loginHi = INF; ns loginT = NEVER, loginT0 = NEVER; size_t firstAfter = 0; bool has66 = false; };
struct UpFrame { const UpMsg * m; int conn; };
static ns slackMs(ns t) { return stallsOn() && t < W->faultEnd + 2 * SEC ? 3000 * MS : 600 * MS; }
// time at which the connection stopped being usable as far as the sensor can know
static ns connOver(const Conn * c)
{
	ns e = NEVER; if (c->dead) e = std::min(e, c->deadAt); if (c->closedLocal) e = std::min(e, c->closedAt); auto i = W->shutAt.find(c->id); if (i != W->shutAt.end()) e = std::min(e, i->second);
	if (c->finReadAt >= 0) e = std::min(e, c->finReadAt);
	return e;
}
static bool pendingOther(const Conn * c, uint32_t fiber, ns a, ns b) // another send occupied the connection meanwhile
{
	for (auto & s : c->sends) if (s.t0 < b && (s.t > a || s.ret < (ssize_t)s.want) && (s.fiber != fiber || s.t - s.t0 > 100 * MS)) return true;
	return false;
}
static void checkUplink(UpConn & u)
{
	Conn * c = u.c; Life * l = nullptr; for (auto & x : W->lives) if (x.no == c->proc) l = &x;
	u.p = parseUp(c);
	if (u.p.bad) violation("up.bad", "C01", "connection %d to the collector: %s", c->id, u.p.err.c_str());
	// all bytes of one message come from one thread, contiguously
	for (size_t i = 1; i < c->sends.size(); ++i) if (c->sends[i].ret > 0 && c->sends[i - 1].ret > 0 && c->sends[i].off != c->sends[i - 1].off + (size_t)c->sends[i - 1].ret) violation("up.gap", "C01", "connection %d: sent data not contiguous", c->id);
	size_t s0 = 0;
	for (auto & m : u.p.msgs) if (m.complete) {
		int writers = 0; uint32_t w = 0; while (s0 < c->sends.size() && (c->sends[s0].ret <= 0 || c->sends[s0].off + c->sends[s0].ret <= m.off)) ++s0;
		for (size_t si = s0; si < c->sends.size(); ++si) { auto & s = c->sends[si]; if (s.ret > 0 && s.off >= m.end) break; if (s.ret > 0 && s.off < m.end && s.off + s.ret > m.off) { if (!writers || s.fiber != w) ++writers; w = s.fiber; } }
		if (writers > 1) violation("up.interleaved", "C01", "connection %d: a message of type %02x is put together by several threads", c->id, m.type);
	}
	for (size_t i = 0; i + 1 < u.p.msgs.size(); ++i) if (!u.p.msgs[i].complete) violation("up.torn", "C01", "connection %d: a message is cut short but the connection goes on", c->id);
	if (!u.p.bad && !u.p.msgs.empty() && !u.p.msgs.back().complete) {
		bool over = connOver(c) != NEVER || (l && l->ended) || W->ended;
		bool pend = false; for (auto & s : c->sends) if (s.ret < (ssize_t)s.want) pend = true;
		if (!over || (!pend && !(l && l->ended))) violation("up.cut", "C01", "connection %d: the last message (type %02x) is cut short without need: %s", c->id, u.p.msgs.back().type, hex(u.p.msgs.back().raw).c_str());
	}
	// login
	const Cfg & g = W->cfg; int st = 0; const UpMsg * lastLogin = nullptr; int pos = 0;
	std::string user = g.user;
	for (size_t i = 0; i < u.p.msgs.size(); ++i) {
		UpMsg & m = u.p.msgs[i]; if (!m.complete) break;
		if (m.type == '7') { ++pos; continue; }
		bool dataMsg = m.type >= '1' && m.type <= '4'; bool keep = m.type == '6';
		auto bad = [&](const char * what) { violation("login.grammar", "C04", "connection %d: message %zu (type %02x) %s", c->id, i, m.type, what); };
		if (st == 0) { if (m.type != 65) { bad("comes before the device identification"); return; } u.relay = m.fiber; u.loginT0 = m.t0;
			uint32_t t = be32(m.body.data()), a = be32(m.body.data() + 4), b = be32(m.body.data() + 8), d = be32(m.body.data() + 12); unsigned x, y, z; sscanf(PACKAGE_VERSION, "%u.%u.%u", &x, &y, &z);
			if (t != g.devType || a != x || b != y || d != z) violation("login.device", "C04,C25", "connection %d: device identification says type %u version %u.%u.%u instead of type %u version %u.%u.%u", c->id, t, a, b, d, g.devType, x, y, z);
			st = 1; continue; }
		if (m.type == 65) { bad("identifies the device again"); return; }
		if (st == 1) {
			if (m.type == 66) { if (u.has66) violation("serial.twice", "C13,C04", "connection %d: serial number requested twice", c->id); u.has66 = true; if (g.hasSerial) bad("requests a serial number although one is configured"); continue; }
			if (m.type != '5') { bad("comes before the serial number"); return; }
			lastLogin = &m; st = g.user.empty() ? 3 : 2;
			if (st == 3) { u.login = true; }
			continue;
		}
		if (m.type == 66) { bad("requests a serial number after announcing one"); return; }
		if (m.type == '5') { bad("announces the serial number again"); return; }
		if (st == 2) {
			if (m.type != 67) { bad("comes before the user name"); return; }
			std::string want = user; want.resize(40, 0);
			if (m.body != want) violation("login.user", "C04,C25", "connection %d: wrong user name %s", c->id, hex(m.body).c_str());
			lastLogin = &m; st = 3; u.login = true; continue;
		}
		if (m.type == 67) { bad(g.user.empty() ? "sends a user name although none is configured" : "sends the user name again"); return; }
		if (dataMsg || keep) { if (!u.firstAfter) u.firstAfter = i; if (m.type == '1' || m.type == '4') violation("filter.type", "C08", "connection %d: a frame of type %c is forwarded", c->id, m.type); continue; }
	}
	if (!u.login && u.p.bad) violation("login.bad", "C04", "connection %d: the login contains a malformed message: %s", c->id, u.p.err.c_str());
	if (u.login) {
		// the position is part of the login when it is sent by the same thread: the login ends with the last of these
		u.loginLo = lastLogin->seq1; u.loginT = lastLogin->t1;
		for (auto & m : u.p.msgs) if (m.type == '7' && m.complete && m.fiber == u.relay && m.off > lastLogin->off && (!u.firstAfter || m.off < u.p.msgs[u.firstAfter].off)) { u.loginLo = m.seq1; u.loginT = m.t1; }
		u.loginHi = l && l->ended ? l->seq1 : INF;
		for (auto & x : conns) if (isColl(x.get()) && x->proc == c->proc) for (auto & s : x->sends) if (s.fiber == u.relay && s.seq0 > u.loginLo) { u.loginHi = std::min(u.loginHi, s.seq0); break; }
	}
}
static void checkLoginTime(UpConn & u, Life & l)
{
	Conn * c = u.c; ns over = std::min(std::min(connOver(c), l.sigT), l.t1), lim = (stallsOn() && c->established < W->faultEnd ? 10 : 5) * SEC + (ns)W->cfg.timeout * MS; // an idle sender notices a reconnect with its next keep-alive
	if (c->established + lim < over && c->established + lim < now) {
		ns f = u.p.msgs.empty() ? NEVER : u.p.msgs[0].t1;
		if (f > c->established + lim && c->sends.empty()) violation("login.slow", "C05,C13,C04", "connection %d: no device identification within %.0f s after the connection was established", c->id, lim / 1e9);
	}
}
static void checkKeepalive(UpConn & u, Life & l)
{
	if (!u.login) return;
	Conn * c = u.c; ns T = (ns)W->cfg.timeout * MS; ns over = std::min(std::min(connOver(c), l.sigT), std::min(l.t1, now));
	ns last = u.loginT; ns lastW = -1; const UpMsg * prev = nullptr;
	for (auto & m : u.p.msgs) if (m.fiber == u.relay && m.complete) {
		if (m.type == '6') {
			if (prev && m.w1 - prev->w1 < T - 2 * MS) violation("keepalive.early", "C06", "connection %d: keep-alive only %.3f s after the previous message (timeout %.3f s)", c->id, (m.w1 - prev->w1) / 1e9, T / 1e9);
		}
		prev = &m; (void)lastW;
	}
	ns prevEnd = u.loginT;
	auto chk = [&](ns a, ns b, const char * end) {
		ns sl = slackMs(a); if (b - a <= T + sl) return;
		if (pendingOther(c, u.relay, a, b)) return;
		violation("keepalive.late", "C06,C05", "connection %d: nothing sent for %.3f s (timeout %.3f s), until %s", c->id, (b - a) / 1e9, T / 1e9, end);
	};
	for (auto & s : c->sends) if (s.fiber == u.relay && s.seq0 > u.loginLo) { if (s.t0 >= over) break; chk(prevEnd, s.t0, "the next message"); prevEnd = s.t; if (s.ret < (ssize_t)s.want) { prevEnd = NEVER; break; } }
	if (prevEnd != NEVER && prevEnd < over) chk(prevEnd, over, "the end of the connection");
}
// A working connection is given up only when the sensor stops, or after a minute without a serial number.
static void checkDropped(UpConn & u, Life & l)
{
	Conn * c = u.c; ns sh = NEVER; auto i = W->shutAt.find(c->id); if (i != W->shutAt.end()) sh = i->second; if (c->closedLocal) sh = std::min(sh, c->closedAt);
	if (sh == NEVER || c->established < 0) return;
	if ((c->dead && c->deadAt <= sh) || (c->finReadAt >= 0 && c->finReadAt <= sh) || (c->shutWr && c->err)) return;
	if (l.sigT <= sh || l.t1 <= sh || (l.ended && l.how != END_KILLED && l.t1 <= sh + 20 * SEC)) return; // also a start that failed is rolled back
	for (auto & m : u.p.msgs) if (m.type == 66 && m.complete && (sh >= m.t1 + 58 * SEC || jumpedBetween(m.t1 - SEC, sh + SEC))) return;
	violation("conn.dropped", "C05,C07,C06", "connection %d: given up %.3f s after it was established although nothing is wrong with it", c->id, (sh - c->established) / 1e9);
}
static void checkPositions(UpConn & u, Life & l)
{
	if (!W->cfg.hasPos) return;
	Conn * c = u.c; int n = 0; ns first = NEVER;
	for (auto & m : u.p.msgs) if (m.type == '7' && m.complete) {
		double a = beDouble(m.body.data()), b = beDouble(m.body.data() + 8), d = beDouble(m.body.data() + 16);
		if (a != W->cfg.lat || b != W->cfg.lon || d != W->cfg.alt) violation("pos.wrong", "C14,C25", "connection %d: position %.9f %.9f %.3f is sent instead of %.9f %.9f %.3f", c->id, a, b, d, W->cfg.lat, W->cfg.lon, W->cfg.alt);
		++n; first = std::min(first, m.t1);
	}
	if (n > 2) violation("pos.repeated", "C14", "connection %d: the position is sent %d times", c->id, n);
	if (u.login) { ns lim = (stallsOn() && c->established < W->faultEnd ? 6 : 2) * SEC, over = std::min(std::min(connOver(c), l.sigT), std::min(l.t1, now)); if (!n && u.loginT + lim < over && !pendingOther(c, 0, u.loginT, u.loginT + lim)) violation("pos.missing", "C14", "connection %d: no position is sent within %.0f s after the login", c->id, lim / 1e9); }
}
static std::vector<Assign> assigns()
{
	std::vector<Assign> a;
	for (auto & c : conns) if (isColl(c.get())) for (auto & p : refTb(c.get())) if (p.type == 5 && p.payload.size() == 4) a.push_back({be32(p.payload.data()), p.seq0, p.seq1, c->proc, p.t, c->id});
	std::stable_sort(a.begin(), a.end(), [](const Assign & x, const Assign & y) { return x.seq0 < y.seq0; });
	return a;
}
static void checkSerial(std::vector<UpConn> & U)
{
	auto A = assigns(); const Cfg & g = W->cfg; int announced = -1; bool any = false; uint32_t announcedVal = 0; int announcedProc = 0;
	struct Ev { const UpMsg * m; Conn * c; UpConn * u; }; std::vector<Ev> ev;
	for (auto & u : U) for (auto & m : u.p.msgs) if (m.complete && (m.type == '5' || m.type == 66)) ev.push_back({&m, u.c, &u});
	std::sort(ev.begin(), ev.end(), [](const Ev & a, const Ev & b) { return a.m->seq0 < b.m->seq0; });
	for (auto & e : ev) {
		if (e.m->type == 66) {
			if (any) violation("serial.forgotten", "C12", "connection %d (process %d): a serial number is requested although %u was announced before", e.c->id, e.c->proc, announcedVal);
			// an answer leads to a prompt announcement
			Life * l = nullptr; for (auto & x : W->lives) if (x.no == e.c->proc) l = &x;
			ns over = std::min(std::min(connOver(e.c), l ? std::min(l->sigT, l->t1) : NEVER), now); const Assign * first = nullptr;
			for (auto & a : A) if (a.proc == e.c->proc && a.seq0 > e.m->seq0 && !first) first = &a;
			const UpMsg * ann = nullptr; for (auto & m : e.u->p.msgs) if (m.type == '5' && m.off > e.m->off && m.complete) { ann = &m; break; }
			ns lim = stallsOn() && e.m->t1 < W->faultEnd ? 8 * SEC : 1500 * MS;
			bool blocked = pendingOther(e.c, 0, e.m->t1, first ? first->t + lim : e.m->t1);
			if (first && first->t + lim < over && first->conn == e.c->id && !blocked) {
				if (!ann || ann->t1 > first->t + lim) violation("serial.slow", "C13", "connection %d: the collector's answer %u arrived, but the login is not continued within %.1f s", e.c->id, first->val, lim / 1e9);
			}
			if (!first || first->t > e.m->t1 + 70 * SEC) {
				if (over > e.m->t1 + 70 * SEC + jumpedBetween(0, 0) && !ann) violation("serial.hang", "C13", "connection %d: no answer for 70 s, but the sensor neither reconnects nor asks again", e.c->id);
			}
			if (!ann && (!first || first->t > over) && W->shutAt.count(e.c->id) && !(l && l->sigT < over + SEC) && jumpedBetween(e.m->t1 - SEC, over + SEC) == 0) {
				ns sh = W->shutAt[e.c->id]; bool fault = (e.c->dead && e.c->deadAt <= sh) || (e.c->finReadAt >= 0 && e.c->finReadAt <= sh);
				if (!fault && sh < e.m->t1 + 58 * SEC) violation("serial.impatient", "C13", "connection %d: waiting for a serial number is given up after only %.1f s", e.c->id, (sh - e.m->t1) / 1e9);
			}
			continue;
		}
		uint32_t v = be32(e.m->body.data()); int idx = -2;
		if (g.hasSerial && v == g.serial) idx = -1;
		for (size_t i = 0; i < A.size(); ++i) if (A[i].val == v && A[i].seq0 < e.m->seq1) idx = (int)i;
		if (idx == -2) { violation("serial.invented", "C12,C04", "connection %d (process %d): serial number %u is announced, which %s", e.c->id, e.c->proc, v, g.hasSerial ? "is not the configured one" : "the collector never assigned"); continue; }
		if (idx == -1 && any && e.c->proc != announcedProc) any = false; // a number configured by the administrator wins on every start
		if (any && idx < announced) violation("serial.changed", "C12", "connection %d (process %d): serial number %u is announced after %u was announced, although the collector assigned it earlier", e.c->id, e.c->proc, v, announcedVal);
		// a newer assignment that was processed before the login began takes effect with it
		if (idx >= 0) {
			const UpMsg * id = nullptr; for (auto & m : e.u->p.msgs) if (m.type == 65 && m.complete && m.off < e.m->off) id = &m;
			if (id) for (size_t i = (size_t)idx + 1; i < A.size(); ++i) if (A[i].proc == e.c->proc && A[i].val != v && A[i].seq1 < id->seq1)
				{ violation("serial.ignored", "C12,C07", "connection %d: serial number %u is announced although the collector assigned %u %.3f s before the login", e.c->id, v, A[i].val, (e.m->t1 - A[i].t) / 1e9); break; }
		}
		any = true; announced = idx; announcedVal = v; announcedProc = e.c->proc;
	}
}
// "random order": if the same addresses are tried so often that, with random order, each is practically certain (1 - 1e-12) to have been the first one of an attempt.
struct AddrOrder { size_t n = 0; std::set<std::string> first; std::set<int> draws; uint64_t rands = 0; };
static std::map<std::string, AddrOrder> addrOrders;
static void checkOrder()
{
	for (auto & x : addrOrders) {
		AddrOrder & o = x.second; size_t m = (size_t)std::count(x.first.begin(), x.first.end(), ','); double p = (double)m; for (size_t i = 0; i < o.n && p > 1e-13; ++i) p *= 1 - 1.0 / (double)m;
		if (m < 2 || p > 1e-12) continue;
		probe("order of addresses judged");
		if (o.first.size() < m && (!o.rands || o.draws.size() >= 20)) violation("addr.order", "C22", "in %zu attempts to connect to '%s' only %zu of the %zu addresses were ever tried first, the order is not random", o.n, x.first.substr(0, x.first.find('|')).c_str(), o.first.size(), m);
	}
	addrOrders.clear();
}
static void checkReconnect(Life & l)
{
	// every connection attempt resolves the host and tries each address at most once
	struct Att { size_t li; const LookupRec * r; std::vector<const ConnectRec *> c; }; std::map<uint32_t, std::vector<Att>> by;
	for (size_t i = 0; i < lookupLog.size(); ++i) if (lookupLog[i].seq > l.seq0 && lookupLog[i].seq < l.seq1) by[lookupLog[i].fiber].push_back({i, &lookupLog[i], {}});
	for (auto & c : connectLog) if (c.seq > l.seq0 && c.seq < l.seq1) { auto it = by.find(c.fiber); Att * a = nullptr; if (it != by.end()) for (auto & x : it->second) if (x.r->seq < c.seq) a = &x; if (!a) { violation("addr.unresolved", "C22", "a connection to %s is attempted without resolving the host", c.ip.c_str()); continue; } a->c.push_back(&c); }
	for (auto & f : by) for (size_t k = 0; k < f.second.size(); ++k) {
		Att & a = f.second[k]; bool coll = a.r->host == W->cfg.host, in = a.r->host == W->cfg.inHost; if (!coll && !in && a.r->host != W->cfg.gpsHost) { violation("addr.host", "C22,C25", "host '%s' is looked up, which is not configured", a.r->host.c_str()); continue; }
		std::set<std::string> seen; int port = coll ? W->cfg.port : in ? W->cfg.inPort : W->cfg.gpsPort; bool ok = false, cancelled = a.r->end < 0;
		uint64_t nextSeq = k + 1 < f.second.size() ? f.second[k + 1].r->seq : l.seq1; size_t noSock = 0; for (auto & x : sockFailLog) if (x.second == f.first && x.first > a.r->seq && x.first < nextSeq) ++noSock;
		if (!a.c.empty() && !noSock) {
			std::vector<std::string> u; std::string key = a.r->host + "|"; for (auto & ip : a.r->addrs) if (ip.find("unsupported") == std::string::npos) u.push_back(ip); std::sort(u.begin(), u.end()); for (auto & ip : u) key += ip + ",";
			AddrOrder & o = addrOrders[key]; ++o.n; o.first.insert(a.c[0]->ip); for (auto & x : randLog) if (x.fiber == f.first && x.seq > a.r->seq && x.seq < a.c[0]->seq) { ++o.rands; o.draws.insert(x.v); }
		}
		size_t usable = 0; for (auto & ip : a.r->addrs) if (ip.find("unsupported") == std::string::npos) ++usable;
		for (auto c : a.c) {
			if (c->port != port && !(in && c->port == W->cfg.gpsPort && W->cfg.gpsHost == W->cfg.inHost)) violation("addr.port", "C22,C25", "a connection to port %d is attempted instead of %d", c->port, port);
			if (std::find(a.r->addrs.begin(), a.r->addrs.end(), c->ip) == a.r->addrs.end()) violation("addr.invented", "C22", "address %s is tried, which the name server did not return", c->ip.c_str());
			if (!seen.insert(c->ip).second) violation("addr.repeated", "C22", "address %s is tried twice in one attempt", c->ip.c_str());
			if (ok) violation("addr.afterok", "C22", "another address is tried after a connection was established");
			if (c->cancelled || c->end < 0) cancelled = true; if (c->result == 0) ok = true;
		}
		bool interrupted = cancelled || l.sigT != NEVER && f.second.size() == k + 1 || (l.ended && f.second.size() == k + 1);
		if (a.r->ignored && !ok && !interrupted) violation("addr.family", "C22,C05", "an attempt to connect to '%s' failed although %zu of its addresses were not even looked up", a.r->host.c_str(), a.r->ignored);
		if (!a.r->rc && !ok && !interrupted && seen.size() + noSock < usable && k + 1 < f.second.size()) violation("addr.skipped", "C22", "an attempt to connect to '%s' failed although only %zu of %zu addresses were tried", a.r->host.c_str(), seen.size(), usable);
		// failed: repeated after the retry interval
		if (!ok && !cancelled) {
			ns fin = a.c.empty() ? a.r->end : a.c.back()->end; ns nx = k + 1 < f.second.size() ? f.second[k + 1].r->t : NEVER; ns sl = slackMs(fin); ns lim = fin + 10 * SEC + sl;
			if (nx == NEVER ? std::min(std::min(l.sigT, l.t1), now) > lim : nx > lim) violation("addr.noretry", "C22,C05,C10", "after a failed attempt to connect to '%s' there is no new attempt within the retry interval of 10 s", a.r->host.c_str());
			if (nx != NEVER && nx < fin + 9900 * MS) violation("addr.eager", "C22,C05", "after a failed attempt to connect to '%s' the next one follows after %.3f s instead of 10 s", a.r->host.c_str(), (nx - fin) / 1e9);
		}
	}
}
#include "oracle_stats.h"
static void checkInputDropped(Life & l)
{
	// a line to the receivers is given up only because of an error, its end or a stop
	for (auto & k : conns) {
		Conn * c = k.get(); bool rx = isRecv(c); if (c->proc != l.no || !(rx || isGps(c)) || !c->open || !c->closedLocal) continue;
		if (c->dead && c->deadSeq <= c->closeSeq || c->finReadAt >= 0 || c->errSeenSeq || c->err) continue;
		if (l.sigT <= c->closedAt || l.t1 <= c->closedAt || (l.ended && l.how != END_KILLED && l.t1 <= c->closedAt + 20 * SEC)) continue;
		bool bad = false; for (auto & s : c->sends) if (s.ret < (ssize_t)s.want) bad = true;
		if (bad) continue;
		violation("conn.inputdropped", rx ? "C05,C10,C01" : "C05,C19", "connection %d to the %s is given up %.3f s after it was established although nothing is wrong with it", c->id, rx ? "receiver" : "GPS receiver", (c->closedAt - std::max<ns>(c->established, 0)) / 1e9);
	}
}
static void checkLife(Life & l, std::vector<UpConn *> U)
{
	// ---- what the receiver delivered and what the sensor must and may forward
	std::vector<InStream> st; std::vector<InFrame> F; std::vector<FiltCmd> cmds; uint64_t unknown = 0;
	for (auto & c : conns) if (c->proc == l.no && isRecv(c.get())) { InStream s = inStream(c.get()); if (l.ended && s.endSeq > l.seq1) s.endSeq = l.seq1; st.push_back(s); InDecode d = refDecode(s); unknown += d.unknown; for (auto & f : d.frames) F.push_back(f); }
	for (auto & c : conns) if (c->proc == l.no && isColl(c.get())) for (auto & p : refTb(c.get())) if (p.type == 4 && p.payload.size() == 2) cmds.push_back({p.seq0, p.seq1, (uint8_t)p.payload[0], (uint8_t)p.payload[1]});
	auto V = refFilter(F, st, cmds, {W->cfg.ext, W->cfg.sync});
	std::map<std::string, std::vector<size_t>> byRaw; for (size_t i = 0; i < F.size(); ++i) byRaw[F[i].raw].push_back(i);
	// ---- what was sent
	std::vector<long> match(F.size(), -1); struct Sent { long f; const UpMsg * m; int conn; }; std::vector<Sent> S; long last = -1; bool clean = true;
	struct Torn { const UpMsg * m; size_t after; int conn; }; std::vector<Torn> torn;
	for (auto u : U) {
		if (u->p.bad) clean = false;
		for (auto & m : u->p.msgs) {
			if (m.type < '1' || m.type > '4') continue;
			if (!m.complete) {
				if (m.raw.size() >= 10 && W->cfg.history) torn.push_back({&m, S.size(), u->c->id});
				bool any = false; for (size_t i = 0; i < F.size() && !any; ++i) if (F[i].raw.size() >= m.raw.size() && !F[i].raw.compare(0, m.raw.size(), m.raw)) any = true;
				if (!any) violation("feed.invented", "C02,C09,C10", "connection %d: the beginning of a frame the receiver never delivered is sent: %s", u->c->id, hex(m.raw).c_str());
				continue;
			}
			auto it = byRaw.find(m.raw);
			if (it == byRaw.end()) { violation("feed.invented", "C02,C09,C10", "connection %d: a frame is sent which the receiver did not deliver: %s", u->c->id, hex(m.raw).c_str()); clean = false; continue; }
			long f = -1; for (size_t i : it->second) if ((long)i > last && match[i] < 0) { f = (long)i; break; }
			if (f < 0) {
				bool dup = false; for (size_t i : it->second) if (match[i] >= 0) dup = true;
				if (dup) violation("feed.duplicate", "C02,C11", "connection %d: a frame is sent a second time: %s", u->c->id, hex(m.raw).c_str());
				else violation("feed.order", "C02,C11", "connection %d: a frame is sent after one that was received later: %s", u->c->id, hex(m.raw).c_str());
				clean = false; continue;
			}
			match[f] = (long)S.size(); S.push_back({f, &m, u->c->id}); last = f;
			if (!V[f].may) violation("filter.leak", "C08,C07", "connection %d: a frame of type %c, downlink format %d is forwarded although the filter forbids it: %s", u->c->id, F[f].type, (uint8_t)F[f].payload[0] >> 3, hex(m.raw).c_str());
			if (m.seq0 < F[f].seq0) violation("feed.early", "C02", "a frame is sent before it was received");
		}
	}
	if (!clean) return;
	bool noMem = l.mallocs > 0; size_t N = W->cfg.capacity(!noMem);
	auto newerMay = [&](size_t i, uint64_t until) { size_t n = 0; for (size_t j = i + 1; j < F.size() && F[j].seq0 < until; ++j) if (V[j].may) ++n; return n; };
	// ---- torn frames go first (history)
	for (auto & t : torn) {
		if (t.after >= S.size()) continue;
		const Sent & nx = S[t.after]; if (nx.m->raw.size() >= t.m->raw.size() && !nx.m->raw.compare(0, t.m->raw.size(), t.m->raw)) { probe("torn frame repeated"); continue; }
		long fi = -1; for (size_t i = 0; i < F.size(); ++i) if (F[i].raw.size() >= t.m->raw.size() && !F[i].raw.compare(0, t.m->raw.size(), t.m->raw)) fi = (long)i;
		if (fi >= 0 && newerMay(fi, nx.m->seq0) + 2 >= N) continue;
		violation("feed.tornlost", "C02,C03", "connection %d: a frame cut short by the loss of the connection is not the first one on the next connection: %s", t.conn, hex(t.m->raw).c_str());
	}
	// ---- lost frames
	std::vector<std::pair<uint64_t, uint64_t>> flush; if (!W->cfg.history) for (auto u : U) if (u->login) flush.push_back({u->loginLo, u->loginHi});
	bool finalStop = l.no == W->lives.back().no && W->liveStart != NEVER && W->stopT != NEVER && l.t0 < W->liveStart;
	size_t nextMatched = F.size(); uint64_t lost = 0, lostMay = 0; std::vector<size_t> nm(F.size());
	for (size_t i = F.size(); i-- > 0;) { nm[i] = nextMatched; if (match[i] >= 0) nextMatched = i; }
	for (size_t i = 0; i < F.size(); ++i) {
		if (match[i] >= 0) continue;
		if (V[i].may) ++lostMay;
		if (!V[i].must) continue;
		uint64_t until = nm[i] < F.size() ? S[match[nm[i]]].m->seq0 : INF; bool ok = false;
		for (auto & w : flush) if (w.second > F[i].seq0 && w.first < until) ok = true;
		if (ok) { continue; }
		size_t nw = newerMay(i, until == INF ? l.seq1 : until);
		if (nw + 2 >= N) { probe("frame lost to overflow"); continue; }
		if (until == INF) {
			if (l.ended && !finalStop) continue;
			if (finalStop && F[i].t > W->quietStart + 500 * MS) continue;
			if (!finalStop) continue;
		}
		++lost;
		violation("feed.lost", "C03,C08,C11,C09", "process %d: a frame received at %.3f s that passes the filter is never sent although the backlog was neither flushed nor full (%zu newer frames, capacity %zu): %s", l.no, F[i].t / 1e9, nw, N, hex(F[i].raw).c_str());
		break;
	}
	// ---- with history off nothing older than the login is sent
	if (!W->cfg.history) for (auto u : U) if (u->login) for (auto & s : S) if (s.conn == u->c->id && F[s.f].seq1 < u->p.msgs[0].seq0) {
		violation("feed.stale", "C03", "connection %d: a frame received before the login is sent although history is off", u->c->id); break; }
	// ---- promptness while everything is healthy
	if (W->liveStart != NEVER && finalStop) for (size_t i = 0; i < F.size(); ++i) if (match[i] >= 0 && F[i].t >= W->liveStart && F[i].t <= W->quietStart + SEC) {
		const UpMsg & m = *S[match[i]].m;
		if (m.t1 > F[i].t + 2 * SEC) violation("feed.slow", "C03,C05,C24", "a frame received at %.3f s while everything is healthy is sent only at %.3f s", F[i].t / 1e9, m.t1 / 1e9);
	}
	if (finalStop && W->statusFrames) { size_t n = 0; for (auto & s : S) if (F[s.f].t >= W->liveStart) ++n; size_t must = 0; for (size_t i = 0; i < F.size(); ++i) if (V[i].must && F[i].t >= W->liveStart && F[i].t < W->quietStart) ++must; if (must > 5 && !n) violation("feed.stuck", "C03,C05", "%zu frames arrive while everything is healthy, but none is forwarded", must); if (n) probe("live frames forwarded"); }
	checkStats(l, U, F, V, match, finalStop);
}
static void analyseExtra(std::vector<UpConn> & U);
static void analyse()
{
	std::vector<UpConn> U; for (auto & c : conns) if (isColl(c.get())) U.push_back(UpConn{c.get()});
	for (auto & u : U) checkUplink(u);
	if (violated() && stopRun) return;
	checkSerial(U);
	for (auto & l : W->lives) {
		std::vector<UpConn *> mine; for (auto & u : U) if (u.c->proc == l.no) mine.push_back(&u);
		for (auto u : mine) { checkLoginTime(*u, l); checkKeepalive(*u, l); checkPositions(*u, l); checkDropped(*u, l); }
		checkReconnect(l); checkInputDropped(l); checkLife(l, mine);
		if (violated() && stopRun) return;
	}
	checkOrder(); analyseExtra(U);
}
