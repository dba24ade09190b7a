// C07: Time arithmetic, ordering and differences against independent calendar arithmetic.
#include "vh.h"
#include "civil.h"
#include "TimeObj.h"
#include <cmath>
using namespace civil;
static Time mk(const F & f, bool std, Time::TimeType t = Time::TypeFixed) {
	return Time((int)f.y, (int)f.m, (int)f.d, (int)f.s, (int)f.u, std ? Time::CalendarStandard : Time::CalendarNoLeap, t);
}
static F get(const Time & t) {
	I o = t.GetTimeType() == Time::TypeFixed ? 1 : 0;
	return F{t.GetYear(), t.GetMonth() - o, t.GetDay() - o, t.GetSecond(), t.GetMicroSecond()};
}
static std::string s(const F & f) { return vh::fmt("%lldy%lldM%lldd%llds%lldu", f.y, f.m, f.d, f.s, f.u); }
static std::string cal(bool std) { return std ? "standard" : "noleap"; }

static std::vector<F> starts(const std::vector<I> & years, bool std, bool all) {
	std::vector<F> v;
	for (I y : years) for (I m = 0; m < 12; m++) for (I d = 0; d < mlen(y, m, std); d++) {
		if (!all && d != 0 && d != 14 && d < 27) continue;
		for (I q : {0LL, 1LL, 43200LL, 86399LL}) for (I u : {0LL, 1LL, 999999LL}) v.push_back(F{y, m, d, q, u});
	}
	return v;
}
static std::vector<F> deltas(bool thorough) {
	std::vector<F> v;
	for (I x : {1LL, 2LL, 60LL, 200LL, 3600LL, 7200LL, 43200LL, 86399LL, 86400LL, 86401LL, 172800LL, 604800LL, 2419200LL, 2678400LL, 31536000LL, 31622400LL, 100000000LL})
		for (I g : {-1LL, 1LL}) v.push_back(F{0, 0, 0, g * x, 0});
	for (I x : {1LL, 500000LL, 999999LL, 1000000LL, 1000001LL, 1500000LL, 2000000LL, 1999999999LL})
		for (I g : {-1LL, 1LL}) v.push_back(F{0, 0, 0, 0, g * x});
	for (I x : {1LL, 27LL, 28LL, 29LL, 30LL, 31LL, 32LL, 58LL, 59LL, 60LL, 61LL, 90LL, 364LL, 365LL, 366LL, 367LL, 730LL, 1461LL, 36524LL, 36525LL})
		for (I g : {-1LL, 1LL}) v.push_back(F{0, 0, g * x, 0, 0});
	for (I x = 1; x <= (thorough ? 50 : 26); x++) for (I g : {-1LL, 1LL}) v.push_back(F{0, g * x, 0, 0, 0});
	for (I x : {1LL, 2LL, 4LL, 97LL, 100LL, 400LL}) for (I g : {-1LL, 1LL}) v.push_back(F{g * x, 0, 0, 0, 0});
	v.push_back(F{1, 2, 3, 4, 5}); v.push_back(F{0, 0, 0, 86399, 999999}); v.push_back(F{0, 11, 30, 86399, 999999});
	v.push_back(F{0, 1, 31, 0, 0}); v.push_back(F{0, 0, 1, -1, 1}); v.push_back(F{-1, 11, 30, 86399, 999999}); v.push_back(F{0, 0, -1, 1, -1});
	return v;
}

void vh_jobs(vh::Registry & r) {
	bool T = r.thorough;
	std::vector<I> years = {500, 501, 503, 504, 599, 600, 601, 1000, 1600, 1700, 1999, 2000, 2001, 2100, 2400};
	if (T) for (I y = 1890; y < 1912; y++) years.push_back(y);
	for (bool std : {false, true}) for (I y : years)
		r.add(vh::fmt("add-%s-%lld", cal(std).c_str(), y), [=](vh::Ctx & c) {
			std::vector<F> st = starts({y}, std, T || y == 2000 || y == 2001), ds = deltas(T);
			for (const F & a : st) {
				Time t0 = mk(a, std);
				if (!same(get(t0), a)) { c.viol("construct/" + cal(std), "constructing " + s(a) + " gives " + s(get(t0))); return; }
				for (const F & d : ds) {
					c.count("evaluations"); c.count("distinct_nontrivial");
					F want = add(a, d, std);
					try {
						Time t = t0, dt = mk(d, std, Time::TypeDelta);
						if (&(t += dt) != &t) c.viol("chain", "+= does not return the object");
						F g = get(t);
						if (!same(g, want)) { c.viol("add/" + cal(std) + "/" + s(d), s(a) + " plus " + s(d) + " gives " + s(g) + " instead of " + s(want)); if (c.nviol > 5) return; continue; }
						if (t.GetTimeType() != Time::TypeFixed || t.GetCalendarType() != t0.GetCalendarType()) c.viol("kind", "type or calendar changed");
						// the same with the single-unit operations and the constructor
						Time q = t0; int n = (d.y != 0) + (d.m != 0) + (d.d != 0) + (d.s != 0) + (d.u != 0);
						if (n == 1) {
							if (d.y) q.AddYears((int)d.y); if (d.m) q.AddMonths((int)d.m); if (d.d) q.AddDays((int)d.d);
							if (d.s) { Time z = t0; q.AddSeconds((int)d.s); z += (int)d.s; if (!(z == q)) c.viol("addint", "+= int differs from AddSeconds"); }
							if (!d.u && !(q == t)) { c.viol("units/" + cal(std) + "/" + s(d), s(a) + " plus " + s(d) + " by unit gives " + s(get(q)) + " instead of " + s(want)); return; }
						}
						Time k((int)(a.y + d.y), (int)(a.m + d.m), (int)(a.d + d.d), (int)(a.s + d.s), (int)(a.u + d.u), t0.GetCalendarType());
						if (!(k == t)) { c.viol("normal/" + cal(std), "constructing from " + s(a) + "+" + s(d) + " gives " + s(get(k)) + " instead of " + s(want)); return; }
						// order and difference
						I x = micros(a, std), z = micros(want, std);
						if ((t0 < t) != (x < z) || (t0 > t) != (x > z) || (t0 <= t) != (x <= z) || (t0 >= t) != (x >= z) || (t0 == t) != (x == z) || (t < t0) != (z < x)) {
							c.viol("order/" + cal(std), s(a) + " against " + s(want)); return;
						}
						if (t0.IsSameDate(t) != (fdiv(x, DAY) == fdiv(z, DAY))) { c.viol("date/" + cal(std), s(a) + " against " + s(want)); return; }
						if (!std) {
							double diff = t - t0, w = (double)(z - x) * 1e-6;
							if (std::fabs(diff - w) > 1e-12 * std::fabs(w) + 2e-9) { c.viol("minus", vh::fmt("%s minus %s gives %.9f s instead of %.9f s", s(want).c_str(), s(a).c_str(), diff, w)); return; }
							double g0 = t.GetSeconds(), w0 = (double)z * 1e-6;
							if (std::fabs(g0 - w0) > 1e-12 * w0 + 2e-9) { c.viol("seconds", vh::fmt("%s is %.9f s instead of %.9f s", s(want).c_str(), g0, w0)); return; }
						}
						// undoing a fixed span gives the instant back
						if (d.y == 0 && d.m == 0) {
							Time b = t; b += mk(F{0, 0, -d.d, -d.s, -d.u}, std, Time::TypeDelta);
							if (!(b == t0)) { c.viol("undo/" + cal(std), s(a) + " plus and minus " + s(d) + " gives " + s(get(b))); return; }
						}
					} catch (Exception & e) { c.viol("throw/" + cal(std) + "/" + s(d), s(a) + " plus " + s(d) + " throws: " + e.ToString()); if (c.nviol > 5) return; }
				}
			}
			c.sample(vh::fmt("%zu instants of year %lld, %s calendar, x %zu spans", st.size(), y, cal(std).c_str(), ds.size()));
		});
	// every day is followed by the next one, through whole cycles
	for (bool std : {false, true}) r.add("days-" + cal(std), [=](vh::Ctx & c) {
		Time t = mk(F{0, 0, 0, 12345, 678}, std), day = mk(F{0, 0, 1, 0, 0}, std, Time::TypeDelta), b = t;
		I n = T ? 366 * 1300 : 366 * 450;
		for (I k = 0; k < n; k++) {
			c.count("evaluations"); c.count("distinct_nontrivial");
			F w = fields(k * DAY + 12345000678LL, std), g = get(t);
			if (!same(w, g)) { c.viol("days/" + cal(std), vh::fmt("day %lld is %s instead of %s", k, s(g).c_str(), s(w).c_str())); return; }
			Time p = t; t += day;
			if (!(p < t) || t <= p) { c.viol("days-order/" + cal(std), s(w)); return; }
			if (!std && std::fabs((t - p) - 86400.0) > 1e-6) { c.viol("days-minus", s(w)); return; }
		}
	});
	// sequences of small steps: a running clock never drifts
	for (bool std : {false, true}) for (int k = 0; k < 8; k++) r.add(vh::fmt("seq-%s-%d", cal(std).c_str(), k), [=](vh::Ctx & c) {
		std::vector<F> ops = {{0,0,0,1,0},{0,0,0,-1,0},{0,0,0,0,1},{0,0,0,0,-1},{0,0,1,0,0},{0,0,-1,0,0},{0,0,0,86399,999999},{0,0,0,-86400,0},{0,1,0,0,0},{0,-1,0,0,0},{1,0,0,0,0},{-1,0,0,0,0},{0,0,31,0,0},{0,0,-59,0,0},{0,0,0,0,-1000000},{0,-12,0,0,0}};
		std::vector<F> st = {{2000,0,0,0,0},{2000,1,28,86399,999999},{2001,1,27,86399,999999},{1999,11,30,86399,999999},{2000,11,30,0,0},{2100,1,27,1,0},{2004,2,0,0,0},{2000,6,30,0,1}};
		F a = fields(micros(st[k], std), std); int depth = T ? 5 : 4;
		std::function<void(const Time &, const F &, int, std::string)> go = [&](const Time & t, const F & f, int left, std::string path) {
			if (c.nviol) return;
			for (const F & o : ops) {
				Time n = t; F w = add(f, o, std);
				c.count("evaluations"); c.count("distinct_nontrivial");
				try { n += mk(o, std, Time::TypeDelta); }
				catch (Exception & e) { c.viol("seq/" + cal(std), path + s(o) + " throws: " + e.ToString()); return; }
				if (!same(get(n), w)) { c.viol("seq/" + cal(std), s(a) + " then " + path + s(o) + " gives " + s(get(n)) + " instead of " + s(w)); return; }
				if (left > 1) go(n, w, left - 1, path + s(o) + " ");
				if (c.nviol) return;
			}
		};
		go(mk(a, std), a, depth, "");
	});
	// what the calendar or the kind of time does not permit is refused
	r.add("refuse", [=](vh::Ctx & c) {
		auto throws = [&](const char * what, std::function<void()> f) { c.count("evaluations"); try { f(); c.viol(std::string("refuse/") + what, "accepted"); } catch (Exception &) {} };
		Time a = mk(F{2000,0,0,0,0}, false), b = mk(F{2000,0,0,0,0}, true), d = mk(F{0,0,1,0,0}, false, Time::TypeDelta);
		throws("add a fixed time", [&]() { Time t = a; t += a; });
		throws("compare calendars <", [&]() { bool x = a < b; (void)x; });
		throws("compare calendars >", [&]() { bool x = a > b; (void)x; });
		throws("compare kinds <", [&]() { bool x = a < d; (void)x; });
		throws("compare kinds >", [&]() { bool x = a > d; (void)x; });
		throws("no calendar", [&]() { Time t(0,0,0,1,0, Time::CalendarNone); });
		if (a == b || a == d || b == d) c.viol("equal/kinds", "times of different calendars or kinds are equal");
		Time z; if (!z.IsZero()) c.viol("zero", "a new time is not zero");
		for (int k = 0; k < 5; k++) { F f = {k==0,k==1,k==2,k==3,k==4}; c.count("evaluations"); if (mk(f, false).IsZero()) c.viol("zero", s(f) + " is zero"); }
		if (std::string(a.GetCalendarName()) != "noleap" || b.GetCalendarName() != "standard") c.viol("name", "calendar name");
	});
	// spans: fields stay what was asked for, up to carries that are exact
	r.add("span", [=](vh::Ctx & c) {
		for (const F & d : deltas(true)) {
			Time t = mk(d, false, Time::TypeDelta); F g = get(t); c.count("evaluations");
			I w = (d.y * 12 + d.m), x = g.y * 12 + g.m;
			I wd = d.d * DAY + d.s * 1000000 + d.u, xd = g.d * DAY + g.s * 1000000 + g.u;
			if (w != x || wd != xd) c.viol("span/" + s(d), "the span " + s(d) + " became " + s(g));
			if (d.y == 0 && d.m == 0 && wd >= 0 && std::fabs(t.GetSeconds() - wd * 1e-6) > 1e-9 * wd * 1e-6 + 1e-9) c.viol("spansec/" + s(d), vh::fmt("%.9f", t.GetSeconds()));
		}
	});
}
