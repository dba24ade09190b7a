// C09: the model clock and everything periodic happen exactly on schedule.
#include "mini.h"
#include "civil.h"
#include <unistd.h>

typedef civil::I I;
static std::vector<std::string> * tape;
static std::string us(I t) { return vh::fmt("%lld.%06lld", (long long)civil::fdiv(t, 1000000), (long long)(t - civil::fdiv(t, 1000000) * 1000000)); }
static I abs_us(const Time & t) { civil::F f = {t.GetYear(), t.GetMonth() - 1, t.GetDay() - 1, t.GetSecond(), t.GetMicroSecond()}; return civil::micros(f, t.GetCalendarType() == Time::CalendarStandard); }

struct Steps : TimestepScheme {
	Steps(Model & m) : TimestepScheme(m) {}
	int GetComponentDataInstances() const { return 1; }
	int GetTracerDataInstances() const { return 1; }
	void Initialize() { tape->push_back("init-scheme"); }
	void Step(bool f, bool l, const Time & t, double dt) { tape->push_back(vh::fmt("step %d%d %s +%.6f", f, l, us(abs_us(t)).c_str(), dt)); }
};
struct HD : HorizontalDynamics { HD(Model & m) : HorizontalDynamics(m) {} void Initialize() { tape->push_back("init-h"); } };
struct VD : VerticalDynamics { VD(Model & m) : VerticalDynamics(m) {} void Initialize() { tape->push_back("init-v"); } };
struct WF : WorkflowProcess {
	int id;
	WF(Model & m, const Time & f, int i) : WorkflowProcess(m, f), id(i) {}
	void Perform(const Time & t) { tape->push_back(vh::fmt("work%d %s", id, us(abs_us(t)).c_str())); WorkflowProcess::Perform(t); }
};
struct OM : OutputManager {
	int id;
	OM(Grid & g, const Time & f, int n, int i) : OutputManager(g, f, "", vh::fmt("p%d", i), n), id(i) {}
	bool OpenFile(const std::string & s) { tape->push_back(vh::fmt("open%d %s", id, s.c_str())); return true; }
	void CloseFile() { tape->push_back(vh::fmt("close%d", id)); }
	void Output(const Time & t) { tape->push_back(vh::fmt("out%d %s", id, us(abs_us(t)).c_str())); }
};

struct Case {
	bool std; civil::F start; I dt, len;
	I wf[2], of[2]; int per[2];
	std::string name() const {
		return vh::fmt("%s start %lld-%lld-%lld %s dt %s length %s work %s %s output %s/%d %s/%d", std ? "standard" : "noleap", (long long)start.y, (long long)start.m + 1, (long long)start.d + 1,
			us(start.s * 1000000 + start.u).c_str(), us(dt).c_str(), us(len).c_str(), us(wf[0]).c_str(), us(wf[1]).c_str(), us(of[0]).c_str(), per[0], us(of[1]).c_str(), per[1]);
	}
};
static std::string stamp(I t, bool std) { civil::F f = civil::fields(t, std); return vh::fmt("%04lld-%02lld-%02lld-%05lld", (long long)f.y, (long long)f.m + 1, (long long)f.d + 1, (long long)f.s); }

// what must happen, from exact integer time
struct Files { int infile[2] = {0, 0}; bool open[2] = {false, false}; };
static std::vector<std::string> oracle(const Case & c, Files & fs) {
	std::vector<std::string> v = {"init-scheme", "init-h", "init-v"};
	I t0 = civil::micros(c.start, c.std), end = t0 + c.len, t = t0;
	if (c.len <= 0) return v;
	int * infile = fs.infile; bool * open = fs.open; I due[2], wdue[2];
	auto out = [&](int k) {
		if (!open[k]) v.push_back(vh::fmt("open%d /p%d.%s", k, k, stamp(t, c.std).c_str()));
		open[k] = true;
		v.push_back(vh::fmt("out%d %s", k, us(t).c_str()));
		if (++infile[k] == c.per[k]) { v.push_back(vh::fmt("close%d", k)); open[k] = false; infile[k] = 0; }
	};
	for (int k = 0; k < 2; k++) { out(k); due[k] = t0 + c.of[k]; wdue[k] = t0 + c.wf[k]; }
	bool first = true;
	while (t < end) {
		I n = std::min(t + c.dt, end);
		v.push_back(vh::fmt("step %d%d %s +%.6f", first, n == end, us(t).c_str(), (n - t) * 1e-6));
		first = false; t = n;
		for (int k = 0; k < 2; k++) if (c.wf[k] && t >= wdue[k]) { v.push_back(vh::fmt("work%d %s", k, us(t).c_str())); wdue[k] += c.wf[k]; }
		for (int k = 0; k < 2; k++) {
			if (t == end) out(k);
			else if (c.of[k] && t >= due[k]) { out(k); due[k] += c.of[k]; }
		}
	}
	return v;
}
static Time span(I t) { Time d(Time::CalendarNoLeap, Time::TypeDelta); I days = t / civil::DAY; return Time(0, 0, (int)days, (int)(t % civil::DAY / 1000000), (int)(t % 1000000), Time::CalendarNoLeap, Time::TypeDelta); }

static Time instant(I t, bool std) { civil::F f = civil::fields(t, std); return Time((int)f.y, (int)f.m, (int)f.d, (int)f.s, (int)f.u, std ? Time::CalendarStandard : Time::CalendarNoLeap); }

// one model; the first run as the case says, then further runs of the same model and output streams (start and length relative to the first)
static void one(vh::Ctx & c, const Case & k, const std::vector<std::pair<I, I>> & more = {}) {
	std::vector<std::string> w, g; tape = &g; Files fs;
	std::string name = k.name(); for (auto & m : more) name += vh::fmt(", then from %s for %s", us(m.first).c_str(), us(m.second).c_str());
	bool sup = true;
	try {
		mini::Cfg f; f.kind = mini::CART; f.sw = true; f.nx = 1; f.ny = 1; f.ho = 2; f.lev = 1; f.tracers = 0; f.topo = false; f.patches = 1;
		Model m(mini::eqns(f));
		m.SetTimestepScheme(new Steps(m)); m.SetHorizontalDynamics(new HD(m)); m.SetVerticalDynamics(new VD(m));
		I t0 = civil::micros(k.start, k.std);
		m.SetStartTime(instant(t0, k.std)); m.SetEndTime(instant(t0 + k.len, k.std)); m.SetDeltaT(span(k.dt));
		Grid * gr = mini::new_grid(m, f); m.SetGrid(gr, 1);
		m.SetTestCase(new mini::Test(f));
		for (int i = 0; i < 2; i++) { m.AttachWorkflowProcess(new WF(m, span(k.wf[i]), i)); m.AttachOutputManager(new OM(*gr, span(k.of[i]), k.per[i], i)); }
		g.clear();
		for (size_t n = 0; n <= more.size(); n++) {
			Case q = k;
			if (n) { I s = t0 + more[n - 1].first; q.start = civil::fields(s, k.std); q.len = more[n - 1].second; m.SetStartTime(instant(s, k.std)); m.SetEndTime(instant(s + q.len, k.std)); }
			std::vector<std::string> o = oracle(q, fs); w.insert(w.end(), o.begin(), o.end());
			m.Go();
			I now = abs_us(m.GetCurrentTime()), end = civil::micros(q.start, k.std) + std::max<I>(q.len, 0);
			if (now != end) c.viol("clock: " + name, vh::fmt("run %zu ends at %s instead of %s", n + 1, us(now).c_str(), us(end).c_str()));
		}
	} catch (Exception & x) { sup = false; c.viol("exception: " + name, x.ToString()); }
	c.count("evaluations"); if (w.size() > 7) c.count("distinct_nontrivial");
	if (!sup) return;
	// the order of the two output managers among themselves and of the two processes is not specified: compare per actor, and phases per step
	for (size_t i = 0; i < w.size() || i < g.size(); i++) {
		std::string a = i < w.size() ? w[i] : "(end)", b = i < g.size() ? g[i] : "(end)";
		if (a != b) { c.viol("event: " + name, vh::fmt("event %zu is '%s' instead of '%s'", i, b.c_str(), a.c_str())); break; }
	}
}

void vh_jobs(vh::Registry & r) {
	bool T = r.thorough;
	const I S = 1000000, D = civil::DAY;
	std::vector<civil::F> starts = {{0, 0, 0, 0, 0}, {0, 0, 0, 86399, 500000}, {1, 1, 27, 86000, 0}, {4, 1, 27, 86390, 999999}, {1999, 11, 30, 86000, 0}, {2000, 1, 27, 3600, 1}};
	if (T) { starts.push_back({100, 1, 27, 80000, 0}); starts.push_back({7, 3, 29, 43200, 250000}); }
	for (size_t s = 0; s < starts.size(); s++) for (int cal = 0; cal < 1; cal++)     // the standard calendar has no differences of instants
	for (I dt : {S, 7 * S + 1, S / 3, 450 * S, 3600 * S, D, 20 * D + 5 * S}) r.add(vh::fmt("clock-%zu-%d-%lld", s, cal, (long long)dt), [=](vh::Ctx & c) {
		vh::quiet();
		std::vector<I> lens = {-dt, 0, 1, dt - 1, dt, dt + 1, 2 * dt, 3 * dt + dt / 3, 6 * dt, 6 * dt + 1, 7 * dt - 1};
		if (T) { lens.push_back(30 * dt + dt / 7); lens.push_back(40 * dt); }
		std::vector<I> freq = {0, dt / 2, dt - 1, dt, dt + 1, 3 * dt / 2, 2 * dt, 2 * dt - 1, 5 * dt / 2, 3 * dt, 6 * dt, 7 * dt, 100 * dt};
		for (I len : lens) if (civil::micros(starts[s], cal == 1) + len >= 0) for (size_t a = 0; a < freq.size(); a++) {
			for (int per : {-1, 1, 2, 3}) for (size_t b : {(a + 3) % freq.size(), (a + 7) % freq.size()}) {
				Case k = {cal == 1, starts[s], dt, len, {freq[b], freq[a]}, {freq[a], freq[b]}, {per, per == 1 ? -1 : 1}};
				VmpiResult res;
				vh::mpi(1, [&](int) { one(c, k); }, VmpiOpts(), res);
				if (!res.ok) c.viol("run: " + k.name(), res.error);
				if (c.nviol > 5) return;
			}
		}
		c.sample(vh::fmt("start %zu calendar %d step %s: %zu lengths x %zu intervals", s, cal, us(dt).c_str(), lens.size(), freq.size()));
	});
	// several runs of one model: what an earlier run left in clocks, streams and processes does not matter
	for (size_t s : {(size_t)2, (size_t)5}) for (I dt : {S, 450 * S}) for (int per : {-1, 1, 2, 3}) r.add(vh::fmt("runs-%zu-%lld-%d", s, (long long)dt, per), [=](vh::Ctx & c) {
		vh::quiet();
		std::vector<I> lens = {0, dt, 3 * dt, 4 * dt + dt / 2}, offs = {0, dt, 3 * dt, 4 * dt, -2 * dt, 10 * dt};
		std::vector<I> freq = {0, dt, 2 * dt, 3 * dt / 2, 3 * dt, 4 * dt, 100 * dt};
		for (I len : lens) for (size_t a = 0; a < freq.size(); a++) for (I o : offs) for (I l2 : lens) for (int third = 0; third < (T ? 4 : 2); third++) {
			std::vector<std::pair<I, I>> more = {{o, l2}};
			if (third) more.push_back({offs[(third * 2 + a) % offs.size()], lens[third]});
			size_t b = (a + 3) % freq.size();
			Case k = {false, starts[s], dt, len, {freq[b], freq[a]}, {freq[a], freq[b]}, {per, per == 1 ? -1 : 1}};
			VmpiResult res;
			vh::mpi(1, [&](int) { one(c, k, more); }, VmpiOpts(), res);
			if (!res.ok) c.viol("run: " + k.name(), res.error);
			if (c.nviol > 5) return;
		}
		c.sample(vh::fmt("start %zu step %s, %d outputs per file: sequences of two and three runs", s, us(dt).c_str(), per));
	});
}
