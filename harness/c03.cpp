// The answer does not depend on how the grid is cut into patches or spread over processes.
#include "full.h"
#include "netcdfcpp.h"
using namespace mini;

struct Res { FullOut f; std::map<std::string, std::vector<double>> scalars; std::map<std::string, std::vector<double>> nc; };

static void read_nc(const std::string & path, const std::string & pre, std::map<std::string, std::vector<double>> & m) {
	NcFile f(path.c_str(), NcFile::ReadOnly);
	if (!f.is_valid()) { m[pre + "(unreadable)"] = {}; return; }
	for (int i = 0; i < f.num_vars(); i++) {
		NcVar * v = f.get_var(i);
		NcValues * x = v->values();
		std::vector<double> d(v->num_vals());
		for (size_t k = 0; k < d.size(); k++) d[k] = x->as_double(k);
		delete x;
		m[pre + v->name()] = d;
	}
}

static Res go(const Cfg & c, int ranks, Out o) {
	Res r;
	o.dir = vh::scratch();
	VmpiOpts vo; vo.data = VMPI_RENDEZVOUS; vo.order = VMPI_LAST;
	auto measure = [&](Sim & s, int rank) {
		static const char * n[] = {"sum", "L1", "L2", "Linf"};
		static const ChecksumType t[] = {ChecksumType_Sum, ChecksumType_L1, ChecksumType_L2, ChecksumType_Linf};
		for (int k = 0; k < 4; k++) {
			DataArray1D<double> a, b;
			s.grid->Checksum(DataType_State, a, 0, t[k]);
			if (c.tracers) s.grid->Checksum(DataType_Tracers, b, 0, t[k]);
			if (rank) continue;
			for (int i = 0; i < (c.sw ? 3 : 5); i++) r.scalars[vh::fmt("checksum %s component %d", n[k], i)] = {a[i]};
			for (int i = 0; i < c.tracers; i++) r.scalars[vh::fmt("checksum %s tracer %d", n[k], i)] = {b[i]};
		}
		double e = s.grid->ComputeTotalEnergy(0), z = s.grid->ComputeTotalPotentialEnstrophy(0), w = c.sw ? 0 : s.grid->ComputeTotalVerticalMomentum(0);
		if (rank == 0) { r.scalars["total energy"] = {e}; r.scalars["potential enstrophy"] = {z}; r.scalars["vertical momentum"] = {w}; }
	};
	if (c.patches < 0) r.f = full(c, o, ranks, vo, measure);
	else {
		Layout l = layout(c);
		r.f.state.assign(l.size(), NAN); r.f.owner.assign(l.cols(), 0);
		std::vector<Sim*> keep(ranks);
		r.f.text = vh::capture([&]() { vh::mpi(ranks, [&](int rank) {
			AnnounceOnlyOutputOnRankZero();
			Sim & s = *(keep[rank] = new Sim(c));
			s.setup();
			if (o.reference) {
				OutputManagerReference * m = new OutputManagerReference(*s.grid, seconds(o.outdt), o.dir, "out", o.perfile, o.nx, o.ny, o.nz, false, false);
				if (o.vort) m->OutputVorticity(); if (o.div) m->OutputDivergence(); if (o.temp) m->OutputTemperature(); if (o.ps) m->OutputSurfacePressure(); if (o.ri) m->OutputRichardson();
				s.model.AttachOutputManager(m);
			}
			s.model.Go();
			measure(s, rank);
			gather(*s.grid, l, 0, r.f.state, &r.f.owner);
			if (rank == 0) r.f.mask = live_mask(*s.grid, l);
			MPI_Barrier(MPI_COMM_WORLD);
			delete &s;
		}, vo, r.f.mpi); });
	}
	for (auto & f : files(o.dir)) if (f.size() > 3 && f.substr(f.size() - 3) == ".nc") read_nc(o.dir + "/" + f, f + ":", r.nc);
	return r;
}

static bool close(const std::vector<double> & a, const std::vector<double> & b, double tol, double floor, std::string & why) {
	if (a.size() != b.size()) { why = vh::fmt("%zu values instead of %zu", a.size(), b.size()); return false; }
	double s = floor; for (double x : b) if (std::fabs(x) < 1e30) s = std::max(s, std::fabs(x));
	for (size_t i = 0; i < a.size(); i++) {
		if (std::isnan(a[i]) && std::isnan(b[i])) continue;
		if (!(std::fabs(a[i] - b[i]) <= tol * s)) { why = vh::fmt("value %zu is %.15g instead of %.15g", i, a[i], b[i]); return false; }
	}
	return true;
}

static void compare_all(vh::Ctx & x, const std::string & key, const Cfg & c, const Res & a, const Res & b) {
	if (!b.f.mpi.ok) { x.viol(key + "|" + b.f.mpi.error_kind, b.f.mpi.error); return; }
	for (size_t i = 0; i < b.f.owner.size(); i++) if (b.f.owner[i] != 1) { x.viol(key + "|cover", vh::fmt("grid column %zu is held by %d patches", i, b.f.owner[i])); return; }
	Diff d = compare(layout(c), b.f.state, a.f.state, 1e-11, &a.f.mask);
	if (!d.ok) { x.viol(key + "|state", d.text); return; }
	x.count("values_compared", a.f.state.size());
	std::string why;
	// totals cancel: allow for the size of what is summed
	for (auto & s : a.scalars) {
		double scale = 0; size_t p = s.first.find("checksum sum");
		if (p == 0) { std::string n = s.first; n.replace(9, 3, "L1"); scale = std::fabs(a.scalars.at(n)[0]); }
		size_t v1 = s.first.find("component 1");      // as large as the other horizontal component
		if (v1 != std::string::npos) { std::string n = s.first; n.replace(v1, 11, "component 0"); if (p == 0) n.replace(9, 3, "L1"); scale = std::max(scale, std::fabs(a.scalars.at(n)[0])); }
		if (s.first == "vertical momentum") scale = 1e300;
		if (s.first == "potential enstrophy") scale = std::fabs(s.second[0]);
		double v = s.second[0], w = b.scalars.count(s.first) ? b.scalars.at(s.first)[0] : NAN;
		if (std::isnan(v) && std::isnan(w)) continue;
		scale = std::max(scale, std::fabs(v));
		if (!(std::fabs(v - w) <= 1e-8 * scale)) { x.viol(key + "|" + s.first, vh::fmt("%s is %.15g instead of %.15g", s.first.c_str(), w, v)); return; }
		x.count("values_compared");
	}
	if (a.nc.size() != b.nc.size()) { x.viol(key + "|output", vh::fmt("%zu output variables instead of %zu", b.nc.size(), a.nc.size())); return; }
	for (auto & v : a.nc) {
		if (!b.nc.count(v.first)) { x.viol(key + "|output", v.first + " is missing"); return; }
		// vorticity and divergence of an (almost) irrotational flow are rounding
		size_t n = v.first.size();
		bool deriv = n > 4 && (v.first.substr(n - 4) == "ZETA" || (n > 5 && v.first.substr(n - 5) == "DELTA"));
		if (!close(b.nc.at(v.first), v.second, 1e-7, deriv ? 1e-7 : 1e-6, why)) { x.viol(key + "|output", v.first + ": " + why); return; }
		x.count("values_compared", v.second.size());
	}
}

void vh_jobs(vh::Registry & r) {
	bool th = r.thorough;
	struct Cut { int ranks, patches; };
	auto add = [&](Cfg c, Out o, std::vector<Cut> cuts) {
		r.add(c.name(), [=](vh::Ctx & x) {
			Cfg base = c; base.patches = -1;
			Res a = go(base, 1, o);
			if (!a.f.mpi.ok) { x.viol(x.id + "|r1|" + a.f.mpi.error_kind, a.f.mpi.error); return; }
			if (!finite(a.f.state)) {
				Layout l = layout(c);
				for (size_t i = 0; i < a.f.state.size(); i++) if (a.f.mask[i % l.per()] && !std::isfinite(a.f.state[i])) { x.viol(x.id + "|r1|finite", "the serial run is not finite: " + describe(l, i)); return; }
			}
			x.count("evaluations");
			int n = 0;
			for (const Cut & k : cuts) {
				Cfg d = c; d.patches = k.patches;
				Res b = go(d, k.ranks, o);
				compare_all(x, x.id + vh::fmt("|r%d", k.ranks) + (k.patches >= 0 ? vh::fmt("p%d", k.patches) : ""), d, a, b);
				if (x.nviol) return;
				x.count("evaluations"); x.count("distinct_nontrivial"); n++;
			}
			x.sample(vh::fmt("%s: %d decompositions, %zu scalars, %zu output variables agree", x.id.c_str(), n, a.scalars.size(), a.nc.size()));
		}, 600);
	};
	std::vector<std::string> schemes = {"strang", "strang/rk4", "strang/rk3", "strang/kgu35", "strang/ssprk53", "strang/fe", "erk/rk3", "ars222", "ars232", "ark232", "gark2", "ars343", "ars343b", "ars443", "ssp3_332"};
	std::vector<Cut> cs = {{2,-1},{3,-1},{4,-1},{6,-1},{5,6},{8,24},{24,-1},{1,24}};
	std::vector<Cut> cs3 = {{2,-1},{6,-1},{4,54},{1,54}};
	std::vector<Cut> box = {{2,-1},{3,-1},{6,-1},{2,6},{1,3}};
	Out o; o.outdt = 60; o.nx = 7; o.ny = 5; o.vort = o.div = o.temp = o.ps = true;
	for (int kind = 0; kind < 3; kind++) for (auto & s : schemes) {
		Cfg c; c.kind = kind; c.scheme = s; c.ho = 3; c.nx = kind == CS ? 2 : 6; c.ny = kind == CART ? 2 : 1; c.steps = 2; c.dt = kind == CS ? 60 : 5; c.tracers = 2;
		c.nu = kind == CS ? 1e15 : 1e-3; c.inud = 0;
		Out p = o; p.outdt = c.dt * c.steps;
		if (s != "strang" && s != "ars343") p.vort = p.div = p.temp = p.ps = false;
		add(c, p, kind == CS ? cs : box);
	}
	// variations of everything else
	auto var = [&](std::function<void(Cfg &, Out &)> f) {
		for (int kind = 0; kind < 3; kind++) {
			Cfg c; c.kind = kind; c.ho = 4; c.nx = kind == CS ? 2 : 6; c.ny = kind == CART ? 2 : 1; c.steps = 2; c.dt = kind == CS ? 60 : 5; c.tracers = 2; c.lev = 5;
			Out p = o; p.outdt = c.dt;
			f(c, p);
			add(c, p, kind == CS ? std::vector<Cut>{{3,-1},{6,-1},{7,24}} : std::vector<Cut>{{2,-1},{6,-1},{4,6}});
		}
	};
	var([](Cfg & c, Out & o) { c.rayleigh = true; c.ref = true; });
	for (const char * vm : {"v1", "v2"}) for (double ud : {1e-3, 1.0, 1e3}) var([=](Cfg & c, Out & o) { c.ref = true; c.udiff = ud; c.tracers = 0; c.vm = vm; if (ud > 1) c.flow = 0.3; });
	for (bool e : {false, true}) var([=](Cfg & c, Out & o) { c.vhyp = 2; c.expl = e; if (e) { c.dt = 1; o.outdt = 1; } });
	var([](Cfg & c, Out & o) { c.vo = 2; c.lev = 6; });
	var([](Cfg & c, Out & o) { c.hm = "v2"; c.vm = "v2"; });
	var([](Cfg & c, Out & o) { c.hm = "v1"; c.vm = "v2"; });
	var([](Cfg & c, Out & o) { c.hm = "v2"; c.vm = "v1"; });
	var([](Cfg & c, Out & o) { c.hm = "v1"; c.vm = "v2"; c.expl=true; c.dt=1;o.outdt=1;});
	var([](Cfg & c, Out & o) { c.vdisc = "fv"; c.vo = 2; c.lev = 6; });
	for (int vo : {2, 3}) var([=](Cfg & c, Out & o) { c.stag = "int"; c.vo = vo; c.lev = vo == 2 ? 5 : 7; c.expl = true; c.scheme = "erk/rk3"; c.dt = 1; o.outdt = 1; o.ps = false; });

	var([](Cfg & c, Out & o) { c.nu = c.kind == CS ? 1e15 : 1e-3; c.nuorder = 4; c.tracers = 0; });
	var([](Cfg & c, Out & o) { c.nu = c.kind == CS ? 1e5 : 1e-9; c.nuorder = 2; c.tracers = 1; });
	var([](Cfg & c, Out & o) { c.stretch = "cubic"; });
	var([](Cfg & c, Out & o) { o.nz = 3; });
	var([](Cfg & c, Out & o) { c.scheme = "erk/rk3"; c.expl = true; c.dt = 1; o.outdt = 1; });
	for (int nx : {1, 2, 3, 4, 6}) for (int ho : {2, 3, 4}) {
		Cfg c; c.nx = nx; c.ho = ho; c.steps = 1; c.lev = 4; c.tracers = 1;
		add(c, o, nx == 3 ? cs3 : nx % 2 ? std::vector<Cut>{{2,-1},{5,-1},{6,-1}} : nx == 2 ? cs : std::vector<Cut>{{8,24},{24,-1},{1,24},{3,24}});
	}
	for (int nx : {1, 2, 3, 4}) { Cfg c; c.sw = true; c.lev = 1; c.nx = nx; c.ho = 4; c.steps = 3; c.tracers = 2; c.nu = 1e15; Out p = o; p.temp = p.ps = false; c.scheme = "strang/kgu35"; add(c, p, nx == 3 ? cs3 : nx % 2 ? std::vector<Cut>{{2,-1},{5,-1},{6,-1}} : cs); }
	for (int nx : {2, 4, 6}) for (int ny : {1, 3}) for (int w = 0; w < 4; w++) {
		Cfg c; c.kind = CART; c.nx = nx; c.ny = ny; c.ho = 3; c.steps = 2; c.dt = 5; c.bc[0] = c.bc[2] = w & 1; c.bc[1] = c.bc[3] = w >> 1;
		Out p = o; p.outdt = 10;
		add(c, p, nx == 6 ? box : nx == 4 ? std::vector<Cut>{{2,-1},{4,-1},{1,4},{3,4}} : std::vector<Cut>{{2,-1},{1,2}});
	}
}
