// C08: Time strings.
#include "vh.h"
#include "civil.h"
#include "TimeObj.h"
#include <algorithm>
using namespace civil;
static F get(const Time & t) {
	I o = t.GetTimeType() == Time::TypeFixed ? 1 : 0;
	return F{t.GetYear(), t.GetMonth() - o, t.GetDay() - o, t.GetSecond(), t.GetMicroSecond()};
}
static std::string s(const F & f) { return vh::fmt("%lldy%lldM%lldd%llds%lldu", f.y, f.m, f.d, f.s, f.u); }
static Time mk(const F & f, bool std, Time::TimeType t = Time::TypeFixed) {
	return Time((int)f.y, (int)f.m, (int)f.d, (int)f.s, (int)f.u, std ? Time::CalendarStandard : Time::CalendarNoLeap, t);
}
// what a string means: fixed / span / refused / unspecified
struct Want { int kind; F f; };   // 0 refused, 1 fixed, 2 span, 3 unspecified
static bool num(const std::string & x) { if (x.empty()) return false; for (char c : x) if (c < '0' || c > '9') return false; return true; }
static std::vector<std::string> split(const std::string & x, const std::string & at, std::string & seps) {
	std::vector<std::string> v(1); seps.clear();
	for (char c : x) if (at.find(c) != std::string::npos) { v.push_back(""); seps += c; } else v.back() += c;
	return v;
}
static Want meaning(const std::string & x) {
	if (x.empty()) return {3, {}};
	bool units = false, seps = false;
	for (char c : x) {
		if (c >= '0' && c <= '9') continue;
		if (std::string("yMdhmsu").find(c) != std::string::npos) units = true;
		else if (std::string("- :.").find(c) != std::string::npos) seps = true;
		else return {0, {}};
	}
	if (units && seps) return {0, {}};
	if (units) {
		F f = {0,0,0,0,0}; std::string cur, seen; bool empty = false;
		for (char c : x) {
			if (c >= '0' && c <= '9') { cur += c; continue; }
			if (seen.find(c) != std::string::npos) return {0, {}};
			seen += c;
			if (cur.empty()) { empty = true; continue; }
			I n = atoll(cur.c_str()); cur.clear();
			if (c == 'y') f.y += n; if (c == 'M') f.m += n; if (c == 'd') f.d += n;
			if (c == 'h') f.s += 3600 * n; if (c == 'm') f.s += 60 * n; if (c == 's') f.s += n; if (c == 'u') f.u += n;
		}
		if (!cur.empty()) return {0, {}};
		if (empty) return {3, {}};
		return {2, f};
	}
	// documented fixed forms
	std::string q; std::vector<std::string> p = split(x, "- :.", q);
	for (auto & e : p) if (!num(e)) return {3, {}};
	auto n = [&](size_t i) { return (I)atoll(p[i].c_str()); };
	for (char & c : q) if (c == ' ') c = '-';
	if (q == "-") { if (n(1) < 1) return {3, {}}; return {1, {n(0), n(1) - 1, 0, 0, 0}}; }
	if (q == "--") { if (n(1) < 1 || n(2) < 1) return {3, {}}; return {1, {n(0), n(1) - 1, n(2) - 1, 0, 0}}; }
	if (q == "---") { if (n(1) < 1 || n(2) < 1) return {3, {}}; return {1, {n(0), n(1) - 1, n(2) - 1, n(3), 0}}; }
	if (q == "---::" ) { if (n(1) < 1 || n(2) < 1) return {3, {}}; return {1, {n(0), n(1) - 1, n(2) - 1, 3600 * n(3) + 60 * n(4) + n(5), 0}}; }
	if (q == "---::." ) { if (n(1) < 1 || n(2) < 1 || p[6].size() != 6) return {3, {}}; return {1, {n(0), n(1) - 1, n(2) - 1, 3600 * n(3) + 60 * n(4) + n(5), n(6)}}; }
	if (q == ":") return {1, {0, 0, 0, 3600 * n(0) + 60 * n(1), 0}};
	if (q == "::") return {1, {0, 0, 0, 3600 * n(0) + 60 * n(1) + n(2), 0}};
	if (q == "::.") { if (p[3].size() != 6) return {3, {}}; return {1, {0, 0, 0, 3600 * n(0) + 60 * n(1) + n(2), n(3)}}; }
	return {3, {}};
}
static void check(vh::Ctx & c, const std::string & x, bool std) {
	Want w = meaning(x);
	c.count("evaluations"); if (w.kind != 3) c.count("distinct_nontrivial");
	Time t(std ? Time::CalendarStandard : Time::CalendarNoLeap, Time::TypeFixed);
	t.SetYear(1234); t.SetMonth(5); t.SetDay(6); t.SetSecond(78); t.SetMicroSecond(9);    // old contents must not leak
	bool threw = false;
	try { t.FromFormattedString(x); } catch (Exception &) { threw = true; }
	if (w.kind == 3) return;
	if (w.kind == 0) { if (!threw) c.viol("accepts/" + x, "malformed time '" + x + "' is accepted as " + s(get(t))); return; }
	if (threw) { c.viol("refuses/" + x, "documented time '" + x + "' is refused"); return; }
	if ((t.GetTimeType() == Time::TypeDelta) != (w.kind == 2)) { c.viol("kind/" + x, "'" + x + "' has the wrong kind"); return; }
	F g = get(t);
	if (w.kind == 1) { F f = fields(micros(w.f, std), std); if (!same(f, g)) c.viol("value/" + x, "'" + x + "' is read as " + s(g) + " instead of " + s(f)); }
	else {
		I a = w.f.y * 12 + w.f.m, b = g.y * 12 + g.m, ad = w.f.d * DAY + w.f.s * 1000000 + w.f.u, bd = g.d * DAY + g.s * 1000000 + g.u;
		if (a != b || ad != bd) c.viol("value/" + x, "'" + x + "' is read as " + s(g) + " instead of " + s(w.f));
	}
}

void vh_jobs(vh::Registry & r) {
	bool T = r.thorough;
	// written instants: exact text, and reading it back gives the instant
	for (bool std : {false, true}) for (int blk = 0; blk < 4; blk++) r.add(vh::fmt("write-%d-%d", (int)std, blk), [=](vh::Ctx & c) {
		std::vector<I> ys = {0, 1, 9, 10, 99, 100, 400, 999, 1000, 1900, 1999, 2000, 2004, 9999};
		std::vector<I> sec = {0, 1, 9, 10, 59, 60, 61, 599, 600, 3599, 3600, 3661, 9999, 10000, 36000, 43199, 43200, 86399};
		std::vector<I> mic = {0, 1, 10, 999, 100000, 123456, 999999};
		for (I y : ys) for (I m = 0; m < 12; m++) for (I d = 0; d < mlen(y, m, std); d++) for (size_t k = blk; k < sec.size(); k += 4) for (I u : mic) {
			if (!T && d > 1 && d < mlen(y, m, std) - 2 && d != 9) continue;
			F f = {y, m, d, sec[k], u}; Time t = mk(f, std);
			c.count("evaluations"); c.count("distinct_nontrivial");
			std::string ds = vh::fmt("%04lld-%02lld-%02lld", y, m + 1, d + 1), hs = vh::fmt(" %02lld:%02lld:%02lld", f.s / 3600, f.s / 60 % 60, f.s % 60);
			struct { const char * n; std::string got, want; } w[] = {
				{"date", t.ToDateString(), ds}, {"short", t.ToShortString(), ds + vh::fmt("-%05lld", f.s)},
				{"long", t.ToLongString(), ds + vh::fmt("-%05lld-%06lld", f.s, u)}, {"full", t.ToString(), ds + hs + (u ? vh::fmt(".%06lld", u) : std::string())}};
			for (auto & x : w) if (x.got != x.want) { c.viol(std::string("text/") + x.n, "'" + x.got + "' instead of '" + x.want + "'"); return; }
			try {
				Time a(t.ToLongString(), t.GetCalendarType()); if (!(a == t)) { c.viol("back/long", t.ToLongString() + " reads back as " + s(get(a))); return; }
				Time b(t.GetCalendarType()); b.FromFormattedString(t.ToShortString()); F g = f; g.u = 0; if (!same(get(b), g)) { c.viol("back/short", t.ToShortString() + " reads back as " + s(get(b))); return; }
				Time e(t.GetCalendarType()); e.FromFormattedString(t.ToString()); if (!(e == t)) { c.viol("back/full", t.ToString() + " reads back as " + s(get(e))); return; }
				Time h(t.GetCalendarType()); h.FromFormattedString(t.ToDateString()); g.s = 0; if (!same(get(h), g)) { c.viol("back/date", t.ToDateString() + " reads back as " + s(get(h))); return; }
			} catch (Exception & x) { c.viol("back/throw", t.ToLongString() + ": " + x.ToString()); return; }
		}
		c.sample("instants written and read back");
	});
	// long strings that are not instants are refused
	r.add("long-bad", [=](vh::Ctx & c) {
		for (bool std : {false, true}) for (const char * x : {"", "2000-01-01", "2000-01-01-00000-00000", "2000-01-01-00000-0000000", "2000-13-01-00000-000000", "2000-00-01-00000-000000", "2001-02-29-00000-000000", "2000-02-30-00000-000000", "2000-01-00-00000-000000", "2000-01-32-00000-000000", "2000-04-31-00000-000000", "2000-01-01-86400-000000", "1900-02-29-00000-000000", "2100-02-29-12345-000000"}) {
			c.count("evaluations");
			try { Time t(std::string(x), std ? Time::CalendarStandard : Time::CalendarNoLeap); c.viol(std::string("longbad/") + x, "accepted"); } catch (Exception &) {}
		}
		try { Time t(std::string("2000-02-29-86399-999999"), Time::CalendarStandard); } catch (Exception &) { c.viol("longgood", "leap day refused"); }
		try { Time t(std::string("2000-02-29-86399-999999"), Time::CalendarNoLeap); c.viol("longbad/leap", "accepted"); } catch (Exception &) {}
	});
	// spans: every set of units in every order
	r.add("free", [=](vh::Ctx & c) {
		std::string U = "yMdhmsu"; const char * val[] = {"1", "15", "030", "1500"};
		for (int m = 1; m < 128; m++) {
			std::string us; for (int k = 0; k < 7; k++) if (m >> k & 1) us += U[k];
			std::sort(us.begin(), us.end());
			long n = 0;
			do { if (!T && ++n > 150) break; for (int v = 0; v < 4; v++) { std::string x; for (size_t i = 0; i < us.size(); i++) x += std::string(val[(v + i) % 4]) + us[i]; check(c, x, false); } } while (std::next_permutation(us.begin(), us.end()));
		}
		// and they survive being written
		for (I y : {0,1,12}) for (I m : {0,1,11}) for (I d : {0,1,31,45}) for (I q : {0,1,1500,86399}) for (I u : {0,1,999999}) {
			F f = {y,m,d,q,u}; Time t = mk(f, false, Time::TypeDelta), b(Time::CalendarNoLeap, Time::TypeDelta);
			c.count("evaluations");
			try { b.FromFormattedString(t.ToFreeString()); } catch (Exception & e) { c.viol("freeback", t.ToFreeString() + " refused"); continue; }
			if (!(b == t)) c.viol("freeback", s(f) + " is written " + t.ToFreeString() + " and read back as " + s(get(b)));
		}
		for (const char * x : {"15h", "15h30s", "7y", "1500s", "2y1500u", "200s", "1d12h", "90m", "1M15d", "3600s", "0s"}) check(c, x, false);
	});
	// fixed forms with all values of each field
	r.add("fixed", [=](vh::Ctx & c) {
		for (bool std : {false, true}) {
			for (int y : {0, 1, 400, 1999, 2000}) for (int m = 1; m <= 13; m++) { check(c, vh::fmt("%04d-%02d", y, m), std); check(c, vh::fmt("%d-%d", y, m), std);
				for (int d = 1; d <= 32; d++) { check(c, vh::fmt("%04d-%02d-%02d", y, m, d), std); for (int q : {0, 1, 3600, 86399, 86400, 100000}) check(c, vh::fmt("%04d-%02d-%02d-%05d", y, m, d, q), std);
					for (const char * h : {"00:00:00", "01:02:03", "23:59:59", "23:59:59.999999", "12:34:56.000001", "00:00:00.100000", "24:00:00"}) { check(c, vh::fmt("%04d-%02d-%02d-%s", y, m, d, h), std); check(c, vh::fmt("%04d-%02d-%02d %s", y, m, d, h), std); } } }
			for (int h = 0; h < 24; h++) for (int m = 0; m < 60; m++) { check(c, vh::fmt("%02d:%02d", h, m), std); for (int q : {0, 1, 30, 59}) { check(c, vh::fmt("%02d:%02d:%02d", h, m, q), std); check(c, vh::fmt("%02d:%02d:%02d.%06d", h, m, q, 7 * m + 1), std); } }
		}
	});
	// every short string over an alphabet
	const char al[] = "13-:.yMdhmsux ";
	for (int k = 0; k < (int)sizeof(al) - 1; k++) r.add(vh::fmt("all-%d", k), [=](vh::Ctx & c) {
		int L = T ? 6 : 5; std::string x(1, al[k]);
		std::function<void()> go = [&]() {
			check(c, x, false);
			if ((int)x.size() == L || c.nviol > 20) return;
			for (const char * p = al; *p; p++) { x += *p; go(); x.pop_back(); }
		};
		go();
	});
}
