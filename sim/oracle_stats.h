// what one report says about itself: sums, rates, percentages and the running time
static void checkReport(Life & l, const Stat & r, const Stat * prev)
{
	const Cfg & g = W->cfg; auto v = [&](const char * n) { auto i = r.v.find(n); return i == r.v.end() ? -1 : i->second; };
	ns a = r.t0 - slackMs(r.t0); probe("report checked for itself");
	// ---- running time
	auto wallAt = [&](ns t) { return (long long)((t + wallOffset - jumpedBetween(t, NEVER)) / SEC); };
	if (r.started < wallAt(l.t0) || r.started > wallAt(l.t0 + 3 * SEC + slackMs(l.t0)) + 1) violation("stats.time", "C17", "statistics: started at %lld, really at %lld", r.started, wallAt(l.t0));
	long long hi = (r.t0 - l.t0 + jumpedBetween(l.t0, r.t0)) / SEC + 1, lo = (a - l.t0 - 3 * SEC - slackMs(l.t0)) / SEC - 1;
	if (r.secs < lo || r.secs > hi) { violation("stats.time", "C17", "statistics: running since %lld s, really between %lld and %lld s", r.secs, lo, hi); return; }
	// ---- sums
	long long fr = v("frames received"), n2 = v("Mode-S Short"), n3 = v("Mode-S Long"), sum = v("Mode-A/C") + n2 + n3 + v("status") + v("unknown"), ds = 0; for (auto & x : r.df) ds += x.second;
	if (fr != sum) violation("stats.sum", "C17", "statistics: %lld frames received, but the types add up to %lld", fr, sum);
	if (ds > n2 + n3) violation("stats.sum", "C17", "statistics: %lld Mode-S frames, but the downlink formats add up to %lld", n2 + n3, ds);
	if (v("filtered") > fr || v("Mode-S filtered") > v("filtered")) violation("stats.sum", "C17", "statistics: more frames filtered (%lld, %lld) than received (%lld)", v("filtered"), v("Mode-S filtered"), fr);
	// ---- buffer: frames are either queued, in the pool or in the hands of one of the two threads
	long long q = v("queued messages (current)"), pool = v("messages in pool"), dp = v("dynamic pools (current)"), cap = g.statB + dp * g.dynB, dc = v("discarded messages (current)"), dm = v("discarded messages (in worst overflow situation)"), da = v("discarded messages (overall)");
	if (q + pool > cap || (!g.gc && q + pool < cap - 2)) violation("stats.pool", "C17,C11", "statistics: %lld frames queued and %lld in the pool, but there are %lld frames", q, pool, cap);
	if (q > cap) violation("stats.pool", "C17,C11", "statistics: %lld frames queued with a capacity of %lld", q, cap);
	if (v("queued messages (max)") < q) violation("stats.max", "C17", "statistics: %lld messages are queued, but at most %lld ever were", q, v("queued messages (max)"));
	if (v("dynamic pools (max)") < dp || v("dynamic pools (overall)") < v("dynamic pools (max)")) violation("stats.max", "C17", "statistics: %lld pools, at most %lld, overall %lld", dp, v("dynamic pools (max)"), v("dynamic pools (overall)"));
	if (dc > dm || dm > da) violation("stats.max", "C17", "statistics: %lld discarded now, %lld in the worst situation, %lld overall", dc, dm, da);
	if (prev && !prev->mangled) { auto pv = [&](const char * n) { auto i = prev->v.find(n); return i == prev->v.end() ? 0 : i->second; }; long long more = da - pv("discarded messages (overall)") + pv("discarded messages (current)"), top = std::max(pv("discarded messages (in worst overflow situation)"), more); if (dm > top) violation("stats.max", "C17", "statistics: %lld messages discarded in the worst situation, really at most %lld", dm, top); if (dm < pv("discarded messages (in worst overflow situation)")) violation("stats.backwards", "C17", "statistics: the worst overflow situation goes back to %lld", dm); }
	if (r.overload != (dc > 0)) violation("stats.overload", "C17", "statistics: %sin overload with %lld messages discarded", r.overload ? "" : "not ", dc);
	if (r.usage >= 0 && q + pool > 0 && std::abs(r.usage - 100. * q / (q + pool)) > 0.0051) violation("stats.rate", "C17", "statistics: usage %.2f%% with %lld frames queued and %lld in the pool", r.usage, q, pool);
	// ---- rates
	long long secs = r.secs, d0 = secs, d1 = secs; if (prev) d0 = d1 = secs - prev->secs; else d0 = std::max(0ll, secs - 4 - (slackMs(l.t0) + jumpedBetween(l.t0, l.t0 + 8 * SEC)) / SEC);
	auto line = [&](const std::string & name, const StatLine & x, long long before, long long of) {
		if (secs > 0 && x.r1 >= 0 && std::abs(x.r1 - (double)x.n / secs) > 0.0051) violation("stats.rate", "C17", "statistics: %lld %s in %lld s make %.2f/s", x.n, name.c_str(), secs, x.r1);
		if (x.r2 >= 0 && before >= 0 && d1 > 0) { double a = (double)(x.n - before) / d1, b = (double)(x.n - before) / std::max(1ll, d0); if (x.r2 < a - 0.0051 || x.r2 > b + 0.0051) violation("stats.rate", "C17", "statistics: %lld more %s in %lld s make %.2f/s", x.n - before, name.c_str(), d1, x.r2); }
		if (x.pct >= 0 && of > 0 && std::abs(x.pct - 100. * x.n / of) > 0.501) violation("stats.rate", "C17", "statistics: %lld %s are %d%% of %lld", x.n, name.c_str(), x.pct, of);
	};
	for (auto & x : r.ln) { if (x.first == "seconds online (overall)" && x.second.n > secs + 60) continue; /* right at a transition, see below */ long long b = -1; if (!prev) b = 0; else if (!prev->mangled) { auto i = prev->v.find(x.first); if (i != prev->v.end()) b = i->second; } line(x.first, x.second, b, x.first == "seconds online (overall)" ? secs : fr); }
	for (auto & x : r.dfl) { long long b = -1; if (!prev) b = 0; else if (!prev->mangled) { auto i = prev->df.find(x.first); b = i == prev->df.end() ? 0 : i->second; } line("frames of downlink format " + std::to_string(x.first), x.second, b, n2 + n3); }
}
// what every report must say, between what had happened some time before it and what had happened when it was printed
static void checkRunning(Life & l, const Stat & r, std::vector<UpConn *> & U, std::vector<InFrame> & F, std::vector<FiltVerdict> & V)
{
	const Cfg & g = W->cfg; ns S = slackMs(r.t0), a = r.t0 - 2 * S;
	auto in = [&](const char * n, long long lo, long long hi) {
		auto i = r.v.find(n); if (i == r.v.end()) { if (!r.mangled) violation("stats.line", "C17", "statistics: no line '%s'", n); return; }
		if (i->second < lo || i->second > hi) violation("stats.running", "C17", "statistics at %.3f s: '%s' says %lld, really between %lld and %lld", r.t0 / 1e9, n, i->second, lo, hi);
	};
	// ---- frames
	long long lo[5] = { 0 }, hi[5] = { 0 }, filtLo = 0, filtHi = 0, unLo = 0, unHi = 0;
	for (size_t i = 0; i < F.size(); ++i) { auto & f = F[i]; int k = f.type - '0'; bool can = f.seq0 < r.seq0, must = f.t1 < a && f.seq1 < r.seq0; lo[k] += must; hi[k] += can; filtLo += must && !V[i].may; filtHi += can && !V[i].must; unLo += must && V[i].mustUnsync; unHi += can && V[i].mayUnsync; }
	static const char * nm[] = { "", "Mode-A/C", "Mode-S Short", "Mode-S Long", "status" }; for (int k = 1; k < 5; ++k) in(nm[k], lo[k], hi[k]);
	in("filtered", filtLo, filtHi); in("unsynchronized frames", unLo, unHi);
	// ---- buffer
	in("flushes", 0, g.history ? 0 : (long long)std::count_if(U.begin(), U.end(), [&](UpConn * u) { return u->login && u->loginLo < r.seq0; }));
	in("Garbage Collector runs", 0, g.gc ? (long long)((r.t0 - l.t0) / SEC / g.gcInt + 1) : 0);
	in("dynamic pools (max)", 0, g.history ? g.dynI : 0);
	// ---- network
	long long aLo = 0, aHi = 1; for (auto & x : lookupLog) if (x.host == g.host && x.seq > l.seq0 && x.seq < r.seq0) { ++aHi; aLo += x.t < a; }
	in("connection attempts", aLo, aHi); in("disconnections", aLo - 1, aHi);
	auto c = r.v.find("connection attempts"), d = r.v.find("disconnections");
	if (c != r.v.end() && d != r.v.end() && (d->second > c->second || d->second < c->second - 1)) violation("stats.running", "C17", "statistics: %lld connection attempts and %lld disconnections", c->second, d->second);
	const LookupRec * lastLk = nullptr; bool busy = false, conned = false; for (auto & x : lookupLog) if (x.host == g.host && x.seq > l.seq0 && x.seq < r.seq0) { lastLk = &x; busy |= x.end < 0 || x.end >= a; }
	if (lastLk && !busy) for (auto & x : connectLog) if (x.seq > lastLk->seq && x.seq < r.seq0) for (auto e : W->cEp) if (x.ip == e->ip && x.port == e->port) { busy |= x.end < 0 || x.end >= a; conned |= !x.result; }
	ns attEnd = lastLk ? lastLk->end : 0; if (lastLk) for (auto & x : connectLog) if (x.seq > lastLk->seq && x.seq < r.seq0) for (auto e : W->cEp) if (x.ip == e->ip && x.port == e->port) attEnd = std::max(attEnd, x.end);
	bool waiting = lastLk && !busy && !conned && r.t0 < attEnd + 10 * SEC - 100 * MS; // afterwards the next attempt may be counted already, though the thread making it is stalled
	if (waiting && c != r.v.end() && d != r.v.end() && d->second != c->second) violation("stats.running", "C17", "statistics at %.3f s: %lld connection attempts and %lld disconnections while waiting for the next attempt", r.t0 / 1e9, c->second, d->second);
	long long bsLo = 0, bsHi = 0, brLo = 0, brHi = 0; ns onLo = 0, onHi = 0; bool on = false, off = true; long long nu = 0; bool edge = false; // read without a lock: right at a transition the time online is not consistent
	for (auto u : U) {
		if (u->c->estSeq > r.seq0) continue;
		++nu;
		for (auto & s : u->c->sends) if (s.ret > 0 && s.seq0 < r.seq0) bsHi += s.ret;
		for (auto & m : u->p.msgs) if (m.complete && m.t1 < a) bsLo += (long long)m.raw.size();
		for (auto & x : u->c->recvs) { if (x.seq < r.seq0) brHi += (long long)x.len; if (x.t < a) brLo += (long long)x.len; }
		ns e = connOver(u->c), gone = u->c->closedLocal ? u->c->closedAt : NEVER; auto sh = W->shutAt.find(u->c->id); if (sh != W->shutAt.end()) gone = std::min(gone, sh->second);
		ns est = u->c->established; if ((est > a - S && est < r.t0 + S) || (e > a - S && e < r.t0 + S)) edge = true;
		if (est < a && e > r.t0) on = true;
		if (gone > a) off = false;
		onLo += std::max((ns)0, std::min(e, a) - est - S); ns e2 = gone == NEVER ? r.t0 : std::min(r.t0, gone + S); onHi += e2 - est + jumpedBetween(est - SEC, e2 + SEC);
	}
	in("bytes sent", bsLo - 2 * nu, bsHi); in("bytes received", brLo, brHi);
	if (!edge) in("seconds online (overall)", onLo / SEC - nu, onHi / SEC + nu);
	if (!r.mangled && on && !r.online) violation("stats.running", "C17", "statistics at %.3f s: reported offline while online", r.t0 / 1e9);
	if (!r.mangled && off && r.online) violation("stats.running", "C17", "statistics at %.3f s: reported online while offline", r.t0 / 1e9);
	if (on && c != r.v.end() && d != r.v.end() && d->second != c->second - 1) violation("stats.running", "C17", "statistics at %.3f s: %lld connection attempts and %lld disconnections while online", r.t0 / 1e9, c->second, d->second);
	if (waiting) probe("report while waiting for the next attempt");
	probe(on ? "report while online" : off ? "report while offline" : "report at a transition");
}
// is data for the collector waiting to be accepted most of this time?
static bool sending(Life & l, ns a, ns b)
{
	ns sum = 0; for (auto & c : conns) if (c->proc == l.no && isColl(c.get())) for (auto & s : c->sends) if (s.t0 < b && s.t > a) sum += std::min(s.t, b) - std::max(s.t0, a);
	return sum > (b - a) / 2;
}
static void checkStats(Life & l, std::vector<UpConn *> & U, std::vector<InFrame> & F, std::vector<FiltVerdict> & V, std::vector<long> & match, bool finalStop)
{
	const Cfg & g = W->cfg; auto & R = l.reports; if (&l == &W->lives.back() && !l.ended) return;
	static const char * mono[] = { "frames received", "Mode-A/C", "Mode-S Short", "Mode-S Long", "status", "filtered", "Mode-S filtered", "unsynchronized frames", "queued messages (max)", "discarded messages (overall)", "dynamic pools (overall)", "dynamic pools (max)", "flushes", "uncollected dynamic pools", "Garbage Collector runs", "disconnections", "connection attempts", "bytes sent", "bytes received" };
	if (!g.statEn) { if (!R.empty()) violation("stats.disabled", "C17,C25", "statistics are printed although they are disabled"); return; }
	for (size_t i = 0; i < R.size(); ++i) {
		ns prev = i ? R[i - 1].t0 : l.t0, T = (ns)g.statInt * SEC; ns d = R[i].t0 - prev;
		if (d > T + (i ? 500 * MS : 3 * SEC) + slackMs(prev) + 2 * SEC * (stallsOn() && prev < W->faultEnd) && sending(l, prev + T, R[i].t0)) violation("stats.stalled", "C24", "statistics are printed %.3f s late while the collector does not accept data", (d - T) / 1e9);
		if (d < T - 50 * MS || d > T + (i ? 500 * MS : 3 * SEC) + slackMs(prev) + 2 * SEC * (stallsOn() && prev < W->faultEnd)) violation("stats.interval", "C17,C25", "statistics are printed %.3f s after the previous ones instead of %.0f s", d / 1e9, T / 1e9);
		if (i) for (auto n : mono) if (R[i].v.count(n) && R[i - 1].v.count(n) && R[i].v[n] < R[i - 1].v[n]) violation("stats.backwards", "C17", "statistics: '%s' goes back from %lld to %lld", n, R[i - 1].v[n], R[i].v[n]);
	}
	if (l.ended && l.t1 != NEVER) { ns prev = R.empty() ? l.t0 : R.back().t0, T = (ns)g.statInt * SEC, e = std::min(l.t1, l.sigT); if (e > prev + T + 5 * SEC && sending(l, prev + T, e)) violation("stats.stalled", "C24", "no statistics for %.1f s while the collector does not accept data", (e - prev) / 1e9); if (e > prev + T + 5 * SEC) violation("stats.missing", "C17", "no statistics for %.1f s, interval is %.0f s", (e - prev) / 1e9, T / 1e9); }
	for (size_t i = 0; i < R.size(); ++i) { checkRunning(l, R[i], U, F, V); if (!R[i].mangled) checkReport(l, R[i], i ? &R[i - 1] : nullptr); }
	if (!finalStop || R.empty() || R.back().t0 < W->quietStart + 3 * SEC || R.back().t1 > W->stopT) return;
	Stat & r = R.back(); probe("statistics compared at rest");
	auto eq = [&](const char * n, long long lo, long long hi) {
		if (!r.v.count(n) && r.mangled) return;
		if (!r.v.count(n)) { violation("stats.line", "C17", "statistics: no line '%s'", n); return; }
		long long x = r.v[n]; if (x < lo || x > hi) { if (lo == hi) violation("stats.wrong", "C17", "statistics: '%s' says %lld, really %lld", n, x, lo); else violation("stats.wrong", "C17", "statistics: '%s' says %lld, really between %lld and %lld", n, x, lo, hi); }
	};
	long long n1 = 0, n2 = 0, n3 = 0, n4 = 0, must = 0, may = 0, unLo = 0, unHi = 0, lostMust = 0, lostMay = 0;
	for (size_t i = 0; i < F.size(); ++i) { (F[i].type == '1' ? n1 : F[i].type == '2' ? n2 : F[i].type == '3' ? n3 : n4)++; must += V[i].must; may += V[i].may; unLo += V[i].mustUnsync; unHi += V[i].mayUnsync; if (match[i] < 0) { lostMust += V[i].must; lostMay += V[i].may; } }
	long long tot = n1 + n2 + n3 + n4;
	eq("frames received", tot, tot); eq("Mode-A/C", n1, n1); eq("Mode-S Short", n2, n2); eq("Mode-S Long", n3, n3); eq("status", n4, n4);
	eq("filtered", tot - may, tot - must); eq("unsynchronized frames", unLo, unHi);
	long long dfSum = 0; std::map<int, long long> df; for (auto & f : F) if (f.type == '2' || f.type == '3') df[(uint8_t)f.payload[0] >> 3]++;
	for (auto & x : r.df) { dfSum += x.second; if (x.second > df[x.first]) violation("stats.wrong", "C17", "statistics: %lld frames of downlink format %d reported, really at most %lld", x.second, x.first, df[x.first]); }
	bool sync = g.sync; for (auto & c : conns) if (c->proc == l.no && isColl(c.get())) for (auto & p : refTb(c.get())) if (p.type == 4 && p.payload.size() == 2 && (p.payload[0] & 1) && (p.payload[1] & 1)) sync = true;
	if (!sync) { for (auto & x : df) if (x.second && r.df[x.first] != x.second && !r.mangled) violation("stats.wrong", "C17", "statistics: %lld frames of downlink format %d reported, really %lld", r.df[x.first], x.first, x.second); eq("Mode-S filtered", n2 + n3 - may, n2 + n3 - must); }
	eq("queued messages (current)", 0, 0);
	if (g.history) eq("discarded messages (overall)", lostMust, lostMay); else eq("discarded messages (overall)", 0, lostMay);
	long long pools = r.v["dynamic pools (current)"], cap = g.statB + pools * g.dynB, held = openRecv() || true ? 1 : 0;
	if (g.gc) eq("messages in pool", 0, cap - held); else eq("messages in pool", cap - held, cap - held);
	eq("dynamic pools (current)", 0, g.history ? g.dynI : 0); eq("dynamic pools (max)", pools, g.history ? g.dynI : 0); eq("dynamic pools (overall)", r.v["dynamic pools (max)"], 1LL << 60);
	if (!g.gc) eq("dynamic pools (overall)", pools, pools);
	long long logins = 0, loginsLo = 0; for (auto u : U) if (u->login) { ++logins; bool pos = !g.hasPos && !RADARCAPE; for (auto & m : u->p.msgs) if (m.type == '7' && m.complete && m.fiber == u->relay) pos = true; if (pos || u->firstAfter) ++loginsLo; }
	eq("flushes", g.history ? 0 : loginsLo, g.history ? 0 : logins);
	eq("Garbage Collector runs", 0, g.gc ? (long long)((r.t0 - l.t0) / SEC / g.gcInt + 1) : 0);
	eq("queued messages (max)", may ? 0 : 0, std::min((long long)may, (long long)g.capacity(true)));
	long long att = 0; for (auto & x : lookupLog) if (x.host == g.host && x.seq > l.seq0 && x.seq < r.seq0) ++att;
	eq("connection attempts", att, att); eq("disconnections", att - 1, att - 1);
	long long bs = 0, ball = 0, br = 0; for (auto u : U) { ball += (long long)u->c->up.size(); for (auto & m : u->p.msgs) if (m.complete) bs += (long long)m.raw.size(); br += (long long)u->c->downRead; }
	// keep-alives sent after the report
	long long later = 0; for (auto u : U) for (auto & m : u->p.msgs) if (m.seq0 > r.seq0 || m.seq1 > r.seq0) later += (long long)m.raw.size();
	eq("bytes sent", bs - later - 2, ball); eq("bytes received", br, br);
	if (!r.online) violation("stats.wrong", "C17", "statistics: reported offline while online");
	ns lo = 0, hi = 0; for (auto u : U) { ns e = std::min(connOver(u->c), r.t0), e2 = std::min(u->c->closedLocal ? u->c->closedAt : r.t0, r.t0); auto sh = W->shutAt.find(u->c->id); if (sh != W->shutAt.end()) e2 = std::min(e2, sh->second + SEC); lo += std::max((ns)0, e - u->c->established); hi += e2 - u->c->established + jumpedBetween(u->c->established - SEC, e2 + SEC); }
	if (stallsOn()) hi += (ns)U.size() * SEC;
	eq("seconds online (overall)", lo / SEC - 1 - (long long)U.size(), hi / SEC + 1 + (long long)U.size());
}
