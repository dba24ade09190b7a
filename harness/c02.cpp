// Whole runs give bitwise the same results whatever the timing of messages, and always finish.
#include "full.h"
using namespace mini;

static std::string strip(const std::string & t) {       // drop wall-clock lines
	std::string o; std::istringstream is(t); std::string l;
	while (std::getline(is, l)) if (l.find("Time [") == std::string::npos && l.find("/s") == std::string::npos) o += l + "\n";
	return o;
}

struct Obs { bool ok; std::string kind, err, text; uint64_t state = 0; std::map<std::string, uint64_t> file; VmpiResult mpi; std::string dir; };

static Obs observe(const Cfg & c, int ranks, const VmpiOpts & o, Out out) {
	out.dir = vh::scratch();
	FullOut r = full(c, out, ranks, o);
	Obs b; b.mpi = r.mpi; b.ok = r.mpi.ok; b.kind = r.mpi.error_kind; b.err = r.mpi.error; b.dir = out.dir;
	Layout l = layout(c);
	for (size_t i = 0; i < r.state.size(); i++) if (!r.mask.empty() && !r.mask[i % l.per()]) r.state[i] = 0;
	b.state = vh::hash(r.state.data(), r.state.size() * sizeof(double));
	for (auto & f : files(out.dir)) b.file[f] = vh::hash(vh::slurp(out.dir + "/" + f));
	b.text = strip(r.text);
	size_t p; while ((p = b.text.find(out.dir)) != std::string::npos) b.text.replace(p, out.dir.size(), "DIR");
	return b;
}
static bool same(vh::Ctx & x, const Obs & a, const Obs & b) {
	if (!b.ok) { x.viol(x.id + "|" + b.kind, b.err); return false; }
	if (a.state != b.state) { x.viol(x.id + "|state", "final state differs between message schedules"); return false; }
	if (a.file != b.file) {
		std::string w; for (auto & f : a.file) if (!b.file.count(f.first) || b.file.at(f.first) != f.second) w += " " + f.first;
		x.viol(x.id + "|files", "output files differ between message schedules:" + w); return false;
	}
	if (a.text != b.text) {
		std::istringstream p(a.text), q(b.text); std::string s, t; bool hp, hq;
		while ((hp = (bool)std::getline(p, s)) && (hq = (bool)std::getline(q, t)) && s == t) ;
		x.viol(x.id + "|log", "printed results differ between message schedules: \"" + s + "\" / \"" + t + "\""); return false;
	}
	return true;
}
static VmpiOpts opts(int d, int ord, int ro) {
	VmpiOpts o; o.data = d ? VMPI_RENDEZVOUS : VMPI_BUFFERED; o.order = ord == 0 ? VMPI_BURST : ord == 1 ? VMPI_FIRST : VMPI_LAST; o.rank_order = ro ? VMPI_DESC : VMPI_ASC; return o;
}

void vh_jobs(vh::Registry & r) {
	bool th = r.thorough;
	// every method, all 12 extreme schedules
	std::vector<std::string> schemes = {"strang", "strang/rk4", "strang/rk3", "strang/kgu35", "strang/ssprk53", "strang/fe", "erk/rk3", "erk/kgu35", "ars222", "ars232", "ark232", "gark2", "ars343", "ars343b", "ars443", "ssp3_332"};
	auto combos = [&](const Cfg & c, int n, Out o) {
		std::string tag = o.reference ? "|out" : "";
		r.add(vh::fmt("%s|r%d%s", c.name().c_str(), n, tag.c_str()), [=](vh::Ctx & x) {
			Obs a = observe(c, n, opts(0, 0, 0), o);
			if (!a.ok) { x.viol(x.id + "|" + a.kind, a.err); return; }
			x.count("evaluations"); long m = a.mpi.messages;
			for (int k = 1; k < 12; k++) {
				Obs b = observe(c, n, opts(k & 1, (k >> 1) % 3, k / 6), o);
				if (!same(x, a, b)) return;
				x.count("evaluations"); if (m) x.count("distinct_nontrivial"); x.count("messages", b.mpi.messages);
			}
			x.sample(vh::fmt("%s: %ld messages, %zu files, 12 schedules agree", x.id.c_str(), m, a.file.size()));
		});
	};
	Out bare; bare.reference = false;
	Out files; files.outdt = 60; files.restartdt = 60; files.vort = files.div = files.temp = files.ps = true; files.norms = true; files.perfile = 2;
	for (auto & s : schemes) for (int kind = 0; kind < 3; kind++) for (int n : th ? std::vector<int>{2, 3, 4, 6} : std::vector<int>{3}) {
		Cfg c; c.scheme = s; c.kind = kind; c.ho = 3; c.nx = kind == CS ? 1 : 6; c.ny = 1; c.lev = 4; c.steps = 2; c.dt = 30; c.tracers = 1;
		if (kind != CS) { if (6 % n) continue; c.dt = 5; }
		c.nu = 1e14; if (kind != CS) c.nu = 1e-3;
		Out o = bare; o.dir = "";
		combos(c, n, o);
	}
	for (int kind = 0; kind < 3; kind++) for (int n : {2, 3, 4, 5, 6}) {
		if (kind != CS && 6 % n) continue;
		Cfg c; c.kind = kind; c.ho = 3; c.nx = kind == CS ? 1 : 6; c.ny = 1; c.steps = 3; c.dt = kind == CS ? 60 : 5; c.tracers = 2; c.ref = n == 3;
		Out o = files; if (kind != CS) o.outdt = o.restartdt = 5;
		combos(c, n, o);
	}
	for (int kind = 0; kind < 3; kind++) for (int vo : {2, 3}) { // levels on the interfaces
		Cfg c; c.kind = kind; c.ho = 3; c.nx = kind == CS ? 1 : 6; c.ny = 1; c.steps = 2; c.dt = 1; c.tracers = 1; c.stag = "int"; c.vo = vo; c.lev = vo == 2 ? 5 : 7; c.expl = true; c.scheme = "erk/rk3";
		Out o = files; o.ps = false; o.outdt = o.restartdt = 1; combos(c, 3, o);
	}
	for (int n : {2, 4, 6}) { Cfg c; c.sw = true; c.lev = 1; c.nx = 1; c.steps = 3; Out o = files; o.temp = o.ps = false; combos(c, n, o); }
	for (int n : {7, 13, 24}) { Cfg c; c.nx = 2; c.ho = 2; c.steps = 2; c.tracers = 1; Out o = files; combos(c, n, o); }
	// every arrival order, up to a number of deviations
	auto all = [&](const Cfg & c, int n, int d, Out o, int dev) {
		r.explore(vh::fmt("orders|%s|r%d|%s%s", c.name().c_str(), n, d ? "rdv" : "buf", o.reference ? "|out" : ""), [=](vh::Ctx & x) {
			Obs a = observe(c, n, opts(0, 0, 0), o);
			if (!a.ok) { x.viol(x.id + "|" + a.kind, a.err); return; }
			VmpiOpts v; v.data = d ? VMPI_RENDEZVOUS : VMPI_BUFFERED; v.order = VMPI_ONE; v.prefix = x.prefix;
			Obs b = observe(c, n, v, o);
			x.choices(b.mpi.arity, b.mpi.taken);
			if (!same(x, a, b)) return;
			x.count("evaluations"); x.count("distinct_nontrivial"); x.count("messages", b.mpi.messages);
			x.outcome("schedule", vh::hash(b.mpi.taken.data(), b.mpi.taken.size() * sizeof(int)));
			if (x.prefix.empty()) x.sample(vh::fmt("%s: %zu choice points", x.id.c_str(), b.mpi.arity.size()));
		}, dev);
	};
	for (int n : {3, 6}) for (int d = 0; d < 2; d++) {
		Cfg c; c.nx = 1; c.ho = 2; c.tracers = 1; c.steps = 1; c.scheme = "ars343"; c.dt = 30;
		if (n == 3) all(c, n, d, bare, th ? 3 : 2);
		Cfg b; b.kind = CART; b.nx = n; b.ny = 1; b.ho = 2; b.tracers = 1; b.steps = 1; b.scheme = "erk/rk3"; b.dt = 5;
		if (n == 3) all(b, n, d, bare, th ? 3 : 2);
		// writing the restart file: messages from anyone, in any order
		Cfg e = c; e.scheme = "strang/fe"; e.tracers = 0; e.steps = 1;
		Out o; o.reference = false; o.dir = "x"; o.outdt = 0; o.restartdt = 1000;
		if (n == 3) all(e, n, d, o, th ? 3 : 2);
	}
}
