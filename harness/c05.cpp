// Restart files: what is read back is what was saved, and the run goes on as if it had never stopped.
#include "full.h"
using namespace mini;

typedef std::map<int, std::vector<char>> Patches;      // active state of every patch, halos included
struct Snap { std::vector<double> state, user; Patches act; };

static void grab(Grid & g, const Layout & l, Snap & s) {
	if (s.state.empty()) s.state.assign(l.size(), NAN);
	gather(g, l, 0, s.state);
	for (int n = 0; n < g.GetActivePatchCount(); n++) {
		const DataContainer & d = g.GetActivePatch(n)->GetDataContainerActiveState();
		const char * p = (const char *)d.GetPointer();
		s.act[g.GetActivePatch(n)->GetPatchIndex()].assign(p, p + d.GetTotalByteSize());
	}
	int nu = g.GetModel().GetUserDataMeta().GetUserData2DItemCount();
	if (s.user.empty()) s.user.assign(l.cols() * nu, NAN);
	each_column(g, l, [&](GridPatch & p, int i, int j, size_t col) { for (int u = 0; u < nu; u++) s.user[col*nu+u] = p.GetUserData2D()(u,i,j); });
}

// accumulates user data, as a parametrisation accumulates precipitation
struct Rain : WorkflowProcess {
	Layout l;
	Rain(Model & m, double dt, const Layout & l) : WorkflowProcess(m, seconds(dt)), l(l) {}
	virtual void Perform(const Time & t) {
		int nu = m_model.GetUserDataMeta().GetUserData2DItemCount();
		each_column(*m_model.GetGrid(), l, [&](GridPatch & p, int i, int j, size_t) { for (int u = 0; u < nu; u++) p.GetUserData2D()(u,i,j) += (1 + u) * p.GetDataState(0, m_model.GetGrid()->GetVarLocation(u))(u,i,j,0); });
		WorkflowProcess::Perform(t);
	}
};

struct Probe : WorkflowProcess {
	std::vector<Snap> & to; Layout l; int n = 0; double every;
	Probe(Model & m, double dt, std::vector<Snap> & v, const Layout & l) : WorkflowProcess(m, seconds(dt)), to(v), l(l), every(dt) {}
	virtual void Perform(const Time & t) {
		n++;                                            // checkpoint number n of this run
		if ((int)to.size() <= n) to.resize(n + 1);
		grab(*m_model.GetGrid(), l, to[n]);
		WorkflowProcess::Perform(t);
	}
};

// The fields a run works with besides its state, per column and level.
static void geometry(Grid & g, const Layout & l, std::vector<double> & v) {
	each_column(g, l, [&](GridPatch & p, int i, int j, size_t col) {
		std::vector<double> o;
		auto add = [&](double x) { o.push_back(x); };
		add(p.GetLongitude()(i,j)); add(p.GetLatitude()(i,j)); add(p.GetCoriolisF()(i,j)); add(p.GetTopography()(i,j));
		add(p.GetTopographyDeriv()(i,j,0)); add(p.GetTopographyDeriv()(i,j,1)); add(p.GetJacobian2D()(i,j));
		for (int k = 0; k < l.lev; k++) {
			add(p.GetZLevels()(i,j,k)); add(p.GetJacobian()(i,j,k)); add(p.GetElementAreaNode()(i,j,k));
			for (int d = 0; d < 3; d++) { add(p.GetContraMetricXi()(i,j,k,d)); add(p.GetDerivRNode()(i,j,k,d)); }
			add(p.GetRayleighStrength(DataLocation_Node)(i,j,k));
			for (int c = 0; c < l.comp; c++) add(p.GetReferenceState(DataLocation_Node)(c,i,j,k));
			for (int c = 0; c < l.tr; c++) add(p.GetReferenceTracers()(c,i,j,k));
		}
		for (int k = 0; k <= l.lev; k++) {
			add(p.GetZInterfaces()(i,j,k)); add(p.GetJacobianREdge()(i,j,k));
			add(p.GetRayleighStrength(DataLocation_REdge)(i,j,k));
			for (int c = 0; c < l.comp; c++) add(p.GetReferenceState(DataLocation_REdge)(c,i,j,k));
		}
		if (v.empty()) v.assign(l.cols() * o.size(), NAN);
		std::copy(o.begin(), o.end(), v.begin() + col * o.size());
	});
}

struct Run {
	VmpiResult mpi;
	Snap before, after;                 // as set up, and at the end
	std::vector<Snap> at;               // checkpoints
	std::vector<double> geo;
	std::vector<Time> start;            // of rank 0: after set-up
	std::vector<int> owner;
	std::vector<char> mask;
	double radius = 0; std::string err;
};
struct Opt { bool pert = false; const Patches * put = nullptr; const std::vector<double> * user = nullptr; Time * start = nullptr; Time * end = nullptr; };

static Run go(const Cfg & c, const Out & o, int ranks, const Opt & q, const VmpiOpts & vo = VmpiOpts()) {
	Run r; Layout l = layout(c);
	vh::mpi(ranks, [&](int rank) {
		AnnounceOnlyOutputOnRankZero();
		Sim & s = *new Drive(c);
		s.v.fRestartPerturbation = q.pert;
		drive(s, c, o);
		if (q.start) s.model.SetStartTime(*q.start);
		if (q.end) s.model.SetEndTime(*q.end);
		if (q.put) for (int n = 0; n < s.grid->GetActivePatchCount(); n++) {
			GridPatch & p = *s.grid->GetActivePatch(n);
			const std::vector<char> & b = q.put->at(p.GetPatchIndex());
			DataContainer & d = p.GetDataContainerActiveState();
			if ((size_t)d.GetTotalByteSize() != b.size()) { r.err = vh::fmt("patch %d has %d bytes of state instead of %zu", p.GetPatchIndex(), (int)d.GetTotalByteSize(), b.size()); return; }
			memcpy(d.GetPointer(), b.data(), b.size());
		}
		if (q.user) each_column(*s.grid, l, [&](GridPatch & p, int i, int j, size_t col) { for (int u = 0; u < c.user; u++) p.GetUserData2D()(u,i,j) = (*q.user)[col*c.user+u]; });
		grab(*s.grid, l, r.before);
		if (rank == 0) r.start.push_back(s.model.GetStartTime());
		if (c.user) s.model.AttachWorkflowProcess(new Rain(s.model, c.dt, l));
		s.model.AttachWorkflowProcess(new Probe(s.model, o.restartdt, r.at, l));
		s.model.Go();
		if (r.owner.empty()) r.owner.assign(l.cols(), 0);
		grab(*s.grid, l, r.after);
		{ std::vector<double> t(l.size()); gather(*s.grid, l, 0, t, &r.owner); }
		geometry(*s.grid, l, r.geo);
		if (rank == 0) { r.mask = live_mask(*s.grid, l); r.radius = s.model.GetPhysicalConstants().GetEarthRadius(); }
		MPI_Barrier(MPI_COMM_WORLD);
		delete &s;
	}, vo, r.mpi);
	return r;
}

static bool bits(const std::vector<double> & a, const std::vector<double> & b, size_t & at) {
	if (a.size() != b.size()) { at = 0; return false; }
	for (at = 0; at < a.size(); at++) if (memcmp(&a[at], &b[at], 8)) return false;
	return true;
}
static std::string stamp(const Cfg & c, double t) { Time a; a += seconds(t); return a.ToShortString(); }
static bool carries(const Cfg & c) { return c.scheme.compare(0, 6, "strang") == 0; }

static void check(vh::Ctx & x, const Cfg & c, Out o, std::vector<int> readers, const VmpiOpts & vo, int writer) {
	vh::quiet();
	Layout l = layout(c);
	std::string base = vh::scratch();
	auto sub = [&](const std::string & n) { std::string d = base + "/" + n; return d; };
	double total = c.dt * c.steps; int marks = (int)floor(total / o.restartdt + 0.001);
	auto bad = [&](const std::string & k, const std::string & t) { x.viol(x.id + "|" + k, t); };
	auto ok = [&](const Run & r, const std::string & k) {
		if (!r.mpi.ok) bad(k + "|" + r.mpi.error_kind, k + ": " + r.mpi.error);
		else if (!r.err.empty()) bad(k, r.err);
		return x.nviol == 0;
	};
	o.end = total; o.dir = sub("a"); o.perfile = 1; o.outdt = o.restartdt;
	Run a = go(c, o, writer, Opt(), vo);
	if (!ok(a, "first")) return;
	for (size_t i = 0; i < a.after.state.size(); i++) if (a.mask[i % l.per()] && !std::isfinite(a.after.state[i])) { bad("first|finite", "the run is not finite: " + describe(l, i)); return; }
	if ((int)a.at.size() != marks + 1) { x.err(vh::fmt("%zu checkpoints instead of %d", a.at.size(), marks + 1)); return; }
	a.at[0] = a.before;
	auto rest = [&](double t) { return "out." + stamp(c, t) + ".restart.dat"; };
	for (int m = 0; m < marks; m++) {
		double T = m * o.restartdt;
		std::string file = o.dir + "/" + rest(T), bytes = vh::slurp(file);
		if (bytes.empty()) { bad("file", "no restart file " + rest(T)); return; }
		// the reference: the same model, given the saved state and time
		Time st; st += seconds(T);
		Out ob = o; ob.dir = sub(vh::fmt("b%d", m));
		Opt q; q.put = &a.at[m].act; q.user = &a.at[m].user; q.start = &st;
		Run b = go(c, ob, writer, q, vo);
		if (!ok(b, "reference")) return;
		std::vector<std::string> want = files(ob.dir);
		for (size_t ri = 0; ri < readers.size(); ri++) {
			int n = readers[ri];
			std::string k = vh::fmt("t%d|r%d", m, n);
			Out oc = o; oc.dir = sub(vh::fmt("c%d.%d", m, n)); oc.restart = file;
			VmpiOpts vc = vo; vc.data = ri % 2 ? VMPI_RENDEZVOUS : VMPI_BUFFERED; vc.order = ri % 2 ? VMPI_LAST : VMPI_FIRST;
			Run r = go(c, oc, n, Opt(), vc);
			if (!ok(r, k)) return;
			size_t at;
			for (size_t i = 0; i < r.owner.size(); i++) if (r.owner[i] != 1) { bad(k + "|cover", vh::fmt("grid column %zu is held by %d patches", i, r.owner[i])); return; }
			if (!bits(r.before.state, a.at[m].state, at)) { bad(k + "|state", vh::fmt("state read back at %g s, ", T) + describe(l, at) + vh::fmt(": %.17g instead of %.17g", r.before.state[at], a.at[m].state[at])); return; }
			if (!bits(r.before.user, a.at[m].user, at)) { bad(k + "|user", vh::fmt("user data read back at %g s, value %zu: %.17g instead of %.17g", T, at, r.before.user[at], a.at[m].user[at])); return; }
			if (!(r.start[0] == st)) { bad(k + "|time", "restarted at " + r.start[0].ToString() + " instead of " + st.ToString()); return; }
			if (r.radius != a.radius) { bad(k + "|constants", vh::fmt("radius %g instead of %g", r.radius, a.radius)); return; }
			if (r.geo.size() != a.geo.size()) { bad(k + "|geometry", "sizes differ"); return; }
			for (size_t i = 0; i < a.geo.size(); i++) if (!(std::fabs(r.geo[i] - a.geo[i]) <= 1e-12 * std::max(std::fabs(a.geo[i]), 1e-30)) && !(std::isnan(r.geo[i]) && std::isnan(a.geo[i]))) {
				bad(k + "|geometry", vh::fmt("geometric value %zu of column %zu is %.17g instead of %.17g", i % (a.geo.size() / l.cols()), i / (a.geo.size() / l.cols()), r.geo[i], a.geo[i])); return; }
			Diff d = compare(l, r.after.state, b.after.state, 1e-11, &a.mask);
			if (!d.ok) { bad(k + "|continue", "after the restarted run, " + d.text); return; }
			for (int e = m + 1; e <= marks; e++) {
				if ((int)r.at.size() <= e - m) { x.err("checkpoints of the restarted run"); return; }
				d = compare(l, r.at[e-m].state, b.at[e-m].state, 1e-11, &a.mask);
				if (!d.ok) { bad(k + "|continue", vh::fmt("restarted run at %g s, ", e * o.restartdt) + d.text); return; }
			}
			for (size_t i = 0; i < r.after.user.size(); i++) if (!(fabs(r.after.user[i] - b.after.user[i]) <= 1e-9*(1 + fabs(b.after.user[i])))) { bad(k + "|accumulated", vh::fmt("user data at the end, value %zu: %.17g instead of %.17g", i, r.after.user[i], b.after.user[i])); return; }
			if (!carries(c)) {
				d = compare(l, r.after.state, a.after.state, 1e-11, &a.mask);
				if (!d.ok) { bad(k + "|uninterrupted", "compared with the uninterrupted run, " + d.text); return; }
			}
			// files: the restarted run writes what the reference writes, and its first restart file is the one it came from
			if (files(oc.dir) != want) { bad(k + "|files", "the restarted run wrote other files"); return; }
			if (vh::slurp(oc.dir + "/" + rest(T)) != bytes) { bad(k + "|rewrite", "the restart file written at once differs from the one read"); return; }
			for (auto & f : want) {
				std::string p = vh::slurp(oc.dir + "/" + f), w = vh::slurp(ob.dir + "/" + f);
				bool nc = f.size() > 3 && f.substr(f.size() - 3) == ".nc";
				if (nc && p != w) { bad(k + "|output", "output " + f + " of the restarted run differs"); return; }
				if (!nc && p.size() != bytes.size()) { bad(k + "|files", "restart file " + f + " has another size"); return; }
				x.count("files_compared");
			}
			x.count("evaluations"); x.count("distinct_nontrivial"); x.count("values_compared", 2 * a.after.state.size() + a.geo.size());
			x.outcome("states", vh::hash(r.after.state.data(), r.after.state.size() * 8));
		}
	}
	x.sample(vh::fmt("%s: %d restart files, read on %zu numbers of processes", x.id.c_str(), marks, readers.size()));
}

// A restart with a perturbation adds it to the saved state, once.
static void perturb(vh::Ctx & x, const Cfg & c, int writer, int n) {
	vh::quiet();
	Layout l = layout(c);
	std::string d = vh::scratch();
	Out o; o.dir = d + "/a"; o.reference = false; o.restartdt = c.dt; o.end = c.dt * 2;
	Run a = go(c, o, writer, Opt());
	if (!a.mpi.ok) { x.viol(x.id + "|first", a.mpi.error); return; }
	Out oc = o; oc.dir = d + "/c"; oc.restart = o.dir + "/out." + stamp(c, c.dt) + ".restart.dat";
	Opt q; q.pert = true;
	Run r = go(c, oc, n, q);
	if (!r.mpi.ok) { x.viol(x.id + "|" + r.mpi.error_kind, r.mpi.error); return; }
	Test t(c);
	size_t changed = 0;
	VmpiResult res;
	std::vector<double> lon(l.cols()), lat(l.cols()), z(l.cols() * l.lev);
	vh::mpi(1, [&](int) { Sim & s = *new Sim(c); s.setup(); s.model.GetGrid()->EvaluateGeometricTerms(); each_column(*s.grid, l, [&](GridPatch & p, int i, int j, size_t col) { lon[col] = p.GetLongitude()(i,j); lat[col] = p.GetLatitude()(i,j); for (int k = 0; k < l.lev; k++) z[col*l.lev+k] = p.GetZLevels()(i,j,k); }); }, VmpiOpts(), res);
	if (!res.ok) { x.err(res.error); return; }
	for (size_t i = 0; i < r.before.state.size(); i++) {
		size_t w = i % l.per(), col = i / l.per();
		if (!r.mask[w]) continue;
		double was = a.at[1].state[i], is = r.before.state[i];
		bool uv = w < (size_t)2 * l.lev;
		if (uv) { changed += was != is; continue; }
		if (was != is) { x.viol(x.id + "|other", "the perturbation of U changed " + describe(l, i)); return; }
	}
	// in the box, velocities are taken as they are
	if (c.kind != CS) for (size_t col = 0; col < l.cols(); col++) for (int k = 0; k < l.lev; k++) {
		double s[5], tr[16], was = a.at[1].state[col * l.per() + k], is = r.before.state[col * l.per() + k];
		PhysicalConstants ph; Time tt;
		t.EvaluatePointwisePerturbation(ph, tt, z[col*l.lev+k], lon[col], lat[col], s, tr);
		if (!(std::fabs(is - was - s[0]) <= 1e-9)) { x.viol(x.id + "|value", vh::fmt("column %zu level %d: %.15g became %.15g under a perturbation of %.15g", col, k, was, is, s[0])); return; }
		x.count("values_compared");
	}
	if (changed * 4 < l.cols() * l.lev) { x.viol(x.id + "|none", "the perturbation asked for was not applied"); return; }
	x.count("evaluations"); x.count("distinct_nontrivial");
}

void vh_jobs(vh::Registry & r) {
	bool th = r.thorough;
	auto add = [&](Cfg c, int marks, int writer, std::vector<int> readers, VmpiOpts vo = VmpiOpts(), std::function<void(Out &)> f = nullptr) {
		Out o; o.restartdt = c.dt * c.steps / marks; o.nx = 5; o.ny = 4;
		if (f) f(o);
		r.add(c.name() + vh::fmt("|dt%g|m%d|w%d%s%s", c.dt, marks, writer, vo.data ? "R" : "", vo.order == VMPI_LAST ? "L" : ""), [=](vh::Ctx & x) { check(x, c, o, readers, vo, writer); }, 600);
	};
	std::vector<std::string> schemes = {"strang", "strang/rk4", "strang/rk3", "strang/kgu35", "strang/ssprk53", "strang/fe", "erk/rk3", "erk/kgu35", "ars222", "ars232", "ark232", "gark2", "ars343", "ars343b", "ars443", "ssp3_332"};
	auto cfg = [](int kind) { Cfg c; c.kind = kind; c.ho = 3; c.lev = 4; c.nx = kind == CS ? 2 : 4; c.ny = kind == CART ? 2 : 1; c.tracers = 2; c.dt = kind == CS ? 60 : 5; c.steps = 3; return c; };
	for (int kind = 0; kind < 3; kind++) for (auto & s : schemes) {
		Cfg c = cfg(kind); c.scheme = s; if (s.compare(0, 3, "erk") == 0) { c.expl = true; c.dt = 1; }
		if (kind == CS) c.nx = 1;
		add(c, 3, 1, {1, 2});
		if (th) add(c, 1, 3, {1, 2, 3, 6});
	}
	VmpiOpts late; late.data = VMPI_RENDEZVOUS; late.order = VMPI_LAST; late.rank_order = VMPI_DESC;
	auto var = [&](std::function<void(Cfg &)> f, std::function<void(Out &)> g = nullptr) {
		for (int kind = 0; kind < 3; kind++) {
			Cfg c = cfg(kind); f(c);
			for (const char * s : {"ars343", "strang"}) { if (c.scheme != Cfg().scheme) { if (std::string(s) == "strang") continue; } else c.scheme = s;
				add(c, 3, 2, {1, 2, 3, kind == CS ? 7 : 4}, late, g); c.scheme = Cfg().scheme; }
		}
	};
	var([](Cfg & c) {});
	var([](Cfg & c) { c.tracers = 0; });
	var([](Cfg & c) { c.user = 1; });
	var([](Cfg & c) { c.user = 3; c.tracers = 0; });
	var([](Cfg & c) { c.tracers = 1; c.lev = 7; });
	var([](Cfg & c) { c.stretch = "cubic"; });
	var([](Cfg & c) { c.stretch = "pwlinear"; c.lev = 6; });
	var([](Cfg & c) { c.stretch = "cubic"; c.vo = 2; c.lev = 6; });
	var([](Cfg & c) { c.ref = true; c.rayleigh = true; });
	var([](Cfg & c) { c.ref = true; c.topo = false; });
	var([](Cfg & c) { c.udiff = 1e-3; c.ref = true; c.tracers = 0; });
	for (int e = 0; e < 2; e++) var([=](Cfg & c) { c.ref = c.refq = true; if (e) { c.expl = true; c.udiff = 1e-3; c.scheme = "erk/rk3"; c.dt = 1; } });
	var([](Cfg & c) { c.earth = 3.0e6; });
	var([](Cfg & c) { c.vo = 2; c.lev = 6; });
	var([](Cfg & c) { c.ho = 4; c.hm = "v2"; c.vm = "v2"; });
	var([](Cfg & c) { c.vdisc = "fv"; c.vo = 2; c.lev = 6; });
	for (int vo : {2, 3, 4}) var([=](Cfg & c) { c.stag = "int"; c.vo = vo; c.lev = (vo-1)*(vo == 2 ? 4 : 3) + 1; c.expl = true; c.scheme = "erk/rk3"; c.dt = 1; });
	var([](Cfg & c) { c.nu = c.kind == CS ? 1e15 : 1e-3; });
	var([](Cfg & c) { c.vhyp = 2; });
	var([](Cfg & c) { if (c.kind != CS) { c.reflat = 0.7; c.lx = 7.0e5; c.ztop = 12000; } });
	var([](Cfg & c) {}, [](Out & o) { o.vort = o.div = o.temp = o.ps = true; o.nz = 3; });
	for (double dt : {1.4, 1.5, 86399.0, 90000.0}) { // clock values; the state hardly matters
		Cfg c; c.sw = true; c.lev = 1; c.kind = CS; c.nx = 1; c.ho = 2; c.steps = 3; c.dt = dt; c.tracers = 1; c.flow = dt > 100 ? 1e-6 : 1; c.topo = false; c.scheme = "strang/fe"; if (dt > 100) c.earth = 1e12;
		add(c, 3, 1, {1, 3});
	}
	for (int w = 0; w < 4; w++) for (int nx : {2, 4}) { Cfg c = cfg(CART); c.nx = nx; c.bc[0] = c.bc[2] = w & 1; c.bc[1] = c.bc[3] = w >> 1; c.scheme = "ars343"; add(c, 3, 2, {1, 2, 3}); }
	for (int nx : {1, 2, 3, 4}) for (const char * s : {"strang/kgu35", "erk/rk3", "ars343"}) { Cfg c = cfg(CS); c.sw = true; c.lev = 1; c.nx = nx; c.scheme = s; c.nu = 1e15; add(c, 3, nx == 4 ? 24 : nx, {1, 2, 5, 6, 8}, late); }
	// every pair of process counts
	int top = th ? 13 : 8;
	for (int kind = 0; kind < 3; kind++) for (int w = 1; w <= top; w++) {
		Cfg c = cfg(kind); c.scheme = "ars343"; c.tracers = 1; c.steps = 1; c.ho = 2; if (kind != CS) { c.nx = 6; if (6 % w) continue; }
		std::vector<int> rd; for (int n = 1; n <= top; n++) rd.push_back(n);
		add(c, 1, w, rd, w % 2 ? late : VmpiOpts());
	}
	// every arrival order of a gather and the run from it
	for (int kind = 0; kind < 2; kind++) { Cfg c = cfg(kind); c.scheme = "strang/fe"; c.steps = 1; c.ho = 2; c.nx = kind == CS ? 1 : 3; c.ny = 1; c.tracers = 1; 
		r.explore(vh::fmt("orders|%s", c.name().c_str()), [=](vh::Ctx & x) {
			vh::quiet(); Layout l = layout(c); std::string d = vh::scratch();
			Out o; o.dir = d + "/a"; o.reference = false; o.restartdt = c.dt; o.end = c.dt;
			VmpiOpts vo; vo.order = VMPI_ONE; vo.data = VMPI_RENDEZVOUS; vo.prefix = x.prefix;
			Run a = go(c, o, 3, Opt(), vo);
			x.choices(a.mpi.arity, a.mpi.taken);
			if (!a.mpi.ok) { x.viol(x.id + "|" + a.mpi.error_kind, a.mpi.error); return; }
			Out oc = o; oc.dir = d + "/c"; oc.restart = o.dir + "/out." + stamp(c, c.dt) + ".restart.dat"; oc.end = 3 * c.dt;
			Run b = go(c, oc, 2, Opt());
			size_t at;
			if (!b.mpi.ok) { x.viol(x.id + "|read|" + b.mpi.error_kind, b.mpi.error); return; }
			if (!bits(b.before.state, a.after.state, at)) { x.viol(x.id + "|state", "read back " + describe(l, at) + vh::fmt(": %.17g instead of %.17g", b.before.state[at], a.after.state[at])); return; }
			x.count("evaluations"); x.count("distinct_nontrivial");
		}, th ? 3 : 2, th ? 3000 : 400);
	}
	for (int kind = 0; kind < 3; kind++) for (int sw = 0; sw < (kind == CS ? 2 : 1); sw++) for (int w : {1, 2}) for (int n : {1, 3}) {
		Cfg c = cfg(kind); c.scheme = "ars343"; c.topo = false; if (sw) { c.sw = true; c.lev = 1; }
		r.add(vh::fmt("perturb|%s|w%d|r%d", c.name().c_str(), w, n), [=](vh::Ctx & x) { perturb(x, c, w, n); });
	}
}
