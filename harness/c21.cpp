// C21: the state a run starts from, against the test case at every node.
#include "geo.h"
#include "CubedSphereTrans.h"
using namespace geo;
using topo::operator+; using topo::operator*; using topo::dot; using topo::norm; using topo::cross;

// Smooth functions of the position in space; winds are smooth tangent fields that do not vanish at the poles.
struct Field : TestCase {
	Cfg c; bool consts; double sdiff = 0, vdiff = 0;
	Field(const Cfg & k, bool q) : c(k), consts(q) {}
	EquationSet::Type GetEquationSetType() const { return c.sw ? EquationSet::ShallowWaterEquations : EquationSet::PrimitiveNonhydrostaticEquations; }
	double GetZtop() const { return c.sw ? 1.0 : c.ztop; }
	void EvaluatePhysicalConstants(PhysicalConstants & p) const {
		if (!consts) return;
		p.SetEarthRadius(5.0e5); p.SetG(7.0); p.SetOmega(3.0e-4); p.SetAlpha(0.3); p.SetR(250.0); p.SetCp(900.0); p.SetP0(90000.0);
	}
	V3 where(double a, double b) const {
		if (c.kind == mini::CS) return rll(a, b);
		return {sin(2*M_PI*a/c.lx + 0.3), sin(2*M_PI*b/c.ly - 0.2), cos(2*M_PI*a/c.lx)*cos(2*M_PI*b/c.ly)};
	}
	double s(int k, V3 r) const { return sin(1.1*r[0] + 0.7*k) + 0.6*cos(1.7*r[1] - 0.4*k) + 0.5*r[2]*r[0] - 0.3*(k % 5)*r[2]; }
	V3 wind(int k, V3 r, double z, double t) const { V3 a = {3.0 + k, -5.0, 7.0 - t}; V3 w = cross(a, r); V3 b = cross(r, {2.0*s(k+1, r), -1.0, 4.0*(1+z)}); return w + b; }
	void comps(int k, const PhysicalConstants & p, double z, double t, double a, double b, double * st) const {
		V3 r = where(a, b), w = wind(k, r, z/GetZtop(), t);
		double G = p.GetG()/9.8 + p.GetEarthRadius()*1e-7;      // the constants reach the test case
		if (c.kind == mini::CS) { st[0] = -sin(a)*w[0] + cos(a)*w[1]; st[1] = -sin(b)*cos(a)*w[0] - sin(b)*sin(a)*w[1] + cos(b)*w[2]; }
		else { st[0] = w[0]; st[1] = w[1]; }
		st[2] = (c.sw ? 3000 : 300) + 10*s(k+2, r)*(1 + z/GetZtop()) + 3*G + t;
		if (c.sw) return;
		st[3] = 0; st[4] = 1.2*exp(-z/8000)*(1 + 0.01*s(k+3, r)) + 0.01*G;
	}
	double tracer(int k, double z, double t, double a, double b) const { V3 r = where(a, b); return 0.5 + 0.1*s(10+k, r) + 0.05*z/GetZtop() + 0.01*t*(k+1); }
	double EvaluateTopography(const PhysicalConstants & p, double a, double b) const { return c.topo ? 300 + 100*s(4, where(a, b)) + p.GetG() : 0.0; }
	void GetUniformDiffusionCoeffs(double & x, double & y) const { x = sdiff; y = vdiff; }
	bool HasRayleighFriction() const { return c.rayleigh; }
	double EvaluateRayleighStrength(double z, double a, double b) const { return 1e-4*(z/c.ztop)*(2 + s(6, where(a, b))); }
	bool HasReferenceState() const { return c.ref; }
	void EvaluateReferenceState(const PhysicalConstants & p, double z, double a, double b, double * st, double * q) const {
		comps(7, p, z, 0, a, b, st); for (int i = 0; q && i < c.tracers; i++) q[i] = tracer(30+i, z, 0, a, b);
	}
	void EvaluatePointwiseState(const PhysicalConstants & p, const Time & t, double z, double a, double b, double * st, double * q) const {
		double h = t.GetSecond() * 1e-4; comps(1, p, z, h, a, b, st); for (int i = 0; q && i < c.tracers; i++) q[i] = tracer(i, z, h, a, b);
	}
	// what a perturbed restart adds: winds, potential temperature (or height), vertical velocity, density and tracers
	void EvaluatePointwisePerturbation(const PhysicalConstants & p, const Time & t, double z, double a, double b, double * st, double * q) const {
		double h = t.GetSecond() * 1e-4; comps(13, p, z, h, a, b, st); if (!c.sw) { st[3] = 2*s(21, where(a, b)); st[4] *= 0.1; } for (int i = 0; q && i < c.tracers; i++) q[i] = tracer(40+i, z, h, a, b);
	}
};

static void state(vh::Ctx & c, const Cfg & cfg, int ranks, bool consts) {
	mini::Layout l = mini::layout(cfg); topo::Topo t(cfg); Vert vt = vertical(cfg);
	std::vector<int> owner(l.cols(), 0);
	const double start = 4321;
	VmpiResult mr;
	vh::mpi(ranks, [&](int) {
		AnnounceOnlyOutputOnRankZero();
		mini::Sim & s = *new mini::Sim(cfg, false); Model & m = s.model;
		Time st(2001, 3, 4, (int)start, 0, Time::CalendarNoLeap); m.SetStartTime(st);
		still(s); s.make_grid(); Grid & g = *s.grid;
		Field & f = *new Field(cfg, consts); f.sdiff = consts ? 5 : 0; f.vdiff = consts ? 7 : 0;
		m.SetTestCase(&f); m.Go();
		Chk k{c, cfg.name() + vh::fmt("/%d%s", ranks, consts ? "-const" : "")};
		const PhysicalConstants & ph = m.GetPhysicalConstants();
		double R = cfg.kind == mini::CS ? ph.GetEarthRadius() : 1.0, tm = start*1e-4;
		if (consts) {
			k.eq("constant", ph.GetEarthRadius(), 5e5, 1, "radius"); k.eq("constant", ph.GetG(), 7, 1, "gravity"); k.eq("constant", ph.GetOmega(), 3e-4, 1e-4, "rotation"); k.eq("constant", ph.GetAlpha(), 0.3, 1, "inclination");
			k.eq("constant", ph.GetR(), 250, 1, "R"); k.eq("constant", ph.GetCp(), 900, 1, "cp"); k.eq("constant", ph.GetCv(), 650, 1, "cv"); k.eq("constant", ph.GetKappa(), 250/900.0, 1, "kappa"); k.eq("constant", ph.GetGamma(), 900/650.0, 1, "gamma"); k.eq("constant", ph.GetP0(), 90000, 1, "p0");
			k.eq("constant", ph.GetPressureScaling(), 90000*pow(250/90000.0, 900/650.0), 1, "pressure scaling", 1e-9);
		}
		k.eq("top", g.GetZtop(), f.GetZtop(), 1, "model top"); k.eq("diffusion", g.GetScalarUniformDiffusionCoeff(), f.sdiff, 1, "scalar"); k.eq("diffusion", g.GetVectorUniformDiffusionCoeff(), f.vdiff, 1, "vector");
		if (g.HasReferenceState() != cfg.ref || g.HasRayleighFriction() != cfg.rayleigh || g.HasUniformDiffusion() != (f.sdiff != 0)) c.viol(k.cfg + " flags", "reference, friction and diffusion flags");
		bool ints = std::string(cfg.stag) == "int";
		mini::each_column(g, l, [&](GridPatch & p, int i, int j, size_t col) {
			owner[col]++;
			int n = (int)col; double al, be; t.coord(n, al, be);
			std::string w = vh::fmt("panel %d node (%d,%d)", t.panel(n), t.gi(n), t.gj(n));
			V3 ea = {1,0,0}, eb = {0,1,0}, r; double a = al, b = be;
			if (cfg.kind == mini::CS) { r = topo::sphere(t.panel(n), al, be, &ea, &eb); a = atan2(r[1], r[0]); b = asin(std::max(-1.0, std::min(1.0, r[2]))); }
			else r = f.where(a, b);
			double zs = f.EvaluateTopography(ph, a, b);
			k.eq("ground", p.GetTopography()(i,j), zs, 1000, w);
			if (consts && cfg.kind == mini::CS) k.eq("coriolis", p.GetCoriolisF()(i,j), 2*ph.GetOmega()*(r[2]*cos(0.3) - r[0]*sin(0.3)), 1e-4, w);
			auto judge = [&](const char * what, bool ref, const DataArray4D<double> & d, int q, double z, const std::string & W) {
				int kk = ref ? 7 : 1; double tt = ref ? 0 : tm, e[5];
				f.comps(kk, ph, z, tt, a, b, e);
				V3 u = f.wind(kk, r, z/f.GetZtop(), tt);
				double ua = R*dot(u, ea), ub = R*dot(u, eb), sc = 30*R;
				if (!cfg.sw) e[2] *= e[4];
				k.eq(what, d(0,i,j,q), ua, sc, W + " U", 1e-11); k.eq(what, d(1,i,j,q), ub, sc, W + " V", 1e-11);
				k.eq(what, d(2,i,j,q), e[2], 300, W + (cfg.sw ? " H" : " rho theta"), 1e-12);
				if (!cfg.sw) { k.eq(what, d(3,i,j,q), 0, 1, W + " W"); k.eq(what, d(4,i,j,q), e[4], 1, W + " rho", 1e-12); }
			};
			for (int pass = 0; pass < (ints ? 1 : 2); pass++) for (int q = 0; q < (pass ? cfg.lev+1 : cfg.lev); q++) {
				double z = cfg.sw ? (cfg.kind == mini::CS ? (pass && q) : pass ? p.GetZInterfaces()(i,j,q) : p.GetZLevels()(i,j,q)) : height(cfg, cfg.ztop, zs, pass ? vt.zi[q] : vt.zl[q]);
				std::string W = w + vh::fmt(pass ? " interface %d" : " level %d", q);
				judge(pass ? "state-interface" : "state-level", false, pass ? p.GetDataState(0, DataLocation_REdge) : p.GetDataState(0, DataLocation_Node), q, z, W);
				if (cfg.ref) judge(pass ? "reference-interface" : "reference-level", true, pass ? p.GetReferenceState(DataLocation_REdge) : p.GetReferenceState(DataLocation_Node), q, z, W);
				if (cfg.rayleigh) k.eq(pass ? "rayleigh-interface" : "rayleigh-level", (pass ? p.GetRayleighStrength(DataLocation_REdge) : p.GetRayleighStrength(DataLocation_Node))(i,j,q), f.EvaluateRayleighStrength(z, a, b), 1e-4, W);
				if (!pass) for (int v = 0; v < cfg.tracers; v++) {
					k.eq("tracer", p.GetDataTracers(0)(v,i,j,q), f.tracer(v, z, tm, a, b), 1, W + vh::fmt(" tracer %d", v), 1e-12);
					if (cfg.ref) k.eq("reference-tracer", p.m_dataRefTracers(v,i,j,q), f.tracer(30+v, z, 0, a, b), 1, W + vh::fmt(" tracer %d", v), 1e-12);
				}
			}
		});
		// the perturbation of a restart is added to the state, in the state's own form
		auto all = [&](std::vector<double> & v) { v.clear(); mini::each_column(g, l, [&](GridPatch & p, int i, int j, size_t) { for (int pass = 0; pass < 2; pass++) for (int e = 0; e < l.comp; e++) for (int q = 0; q < cfg.lev + pass; q++) v.push_back((pass ? p.GetDataState(0, DataLocation_REdge) : p.GetDataState(0, DataLocation_Node))(e,i,j,q)); for (int e = 0; e < cfg.tracers; e++) for (int q = 0; q < cfg.lev; q++) v.push_back(p.GetDataTracers(0)(e,i,j,q)); }); };
		std::vector<double> was, is; all(was); g.EvaluateTestCase_Perturbation(f, st, 0); all(is); size_t at = 0;
		mini::each_column(g, l, [&](GridPatch & p, int i, int j, size_t col) {
			int n = (int)col; double al, be; t.coord(n, al, be); std::string w = vh::fmt("panel %d node (%d,%d)", t.panel(n), t.gi(n), t.gj(n));
			V3 ea = {1,0,0}, eb = {0,1,0}, r; double a = al, b = be, zs;
			if (cfg.kind == mini::CS) { r = topo::sphere(t.panel(n), al, be, &ea, &eb); a = atan2(r[1], r[0]); b = asin(std::max(-1.0, std::min(1.0, r[2]))); } else r = f.where(a, b);
			zs = f.EvaluateTopography(ph, a, b); size_t base = at;
			for (int pass = 0; pass < 2; pass++) for (int e = 0; e < l.comp; e++) for (int q = 0; q < cfg.lev + pass; q++, at++) {
				if (pass && ints) continue;
				double z = cfg.sw ? (cfg.kind == mini::CS ? (pass && q) : pass ? p.GetZInterfaces()(i,j,q) : p.GetZLevels()(i,j,q)) : height(cfg, cfg.ztop, zs, pass ? vt.zi[q] : vt.zl[q]), add[5];
				f.comps(13, ph, z, tm, a, b, add); V3 u = f.wind(13, r, z/f.GetZtop(), tm); add[0] = R*dot(u, ea); add[1] = R*dot(u, eb);
				if (!cfg.sw) { add[3] = 2*f.s(21, r); add[4] *= 0.1; add[2] *= was[base + (pass ? (size_t)l.comp*cfg.lev : 0) + 4*(cfg.lev + pass) + q]; }
				double sc = e < 2 ? 30*R : e == 2 ? (cfg.sw ? 3000 : 300) : 1;
				k.eq(pass ? "perturbation-interface" : "perturbation-level", is[at], was[at] + add[e], sc, w + vh::fmt(pass ? " interface %d" : " level %d", q) + vh::fmt(" component %d", e), 1e-11);
			}
			for (int e = 0; e < cfg.tracers; e++) for (int q = 0; q < cfg.lev; q++, at++) { double z = cfg.sw ? (cfg.kind == mini::CS ? 0.0 : p.GetZLevels()(i,j,q)) : height(cfg, cfg.ztop, zs, vt.zl[q]); k.eq("perturbation-tracer", is[at], was[at] + f.tracer(40+e, z, tm, a, b), 1, w + vh::fmt(" tracer %d level %d", e, q), 1e-12); }
		});
		MPI_Barrier(MPI_COMM_WORLD);
		c.count("evaluations", k.n); c.count("distinct_nontrivial", k.n);
	}, VmpiOpts(), mr);
	if (!mr.ok) { c.viol(cfg.name() + " run", mr.error); return; }
	for (int o : owner) if (o != 1) { c.viol(cfg.name() + " owner", vh::fmt("a node belongs to %d patches", o)); break; }
}

void vh_jobs(vh::Registry & r) {
	bool th = r.thorough;
	auto G = [&](Cfg k, int ranks, bool consts) { r.add("state-" + k.name() + vh::fmt("-%d%s", ranks, consts ? "-const" : ""), [k, ranks, consts](vh::Ctx & c) { state(c, k, ranks, consts); }); };
	// every resolution and order: poles and corners fall on nodes, elsewhere, or on nodes up to rounding
	for (int ho = 2; ho <= (th ? 8 : 5); ho++) for (int nx = 1; nx <= (th ? 24 : 12); nx++) {
		Cfg k; k.kind = mini::CS; k.nx = nx; k.ho = ho; k.sw = true; k.lev = 1; k.vm = "none"; k.scheme = "ark232"; k.tracers = 1; k.ref = nx % 2;
		G(k, nx == 4 ? 5 : nx == 2 ? 13 : 1, nx % 3 == 0);
	}
	for (int ref = 0; ref < 2; ref++) for (int ray = 0; ray < 2; ray++) for (int tr = 0; tr < 4; tr++) for (int kind : {mini::CS, mini::CART, mini::CARTXZ}) for (int consts = 0; consts < 2; consts++) for (int nx = 1; nx <= 2; nx++) {
		Cfg k; k.kind = kind; k.nx = nx; k.ny = kind == mini::CARTXZ ? 1 : 2; k.ho = nx + 2; k.lev = 3; k.tracers = tr; k.ref = ref; k.rayleigh = ray; k.topo = nx == 1 || ref;
		G(k, nx == 2 ? (kind == mini::CS ? 7 : 2) : 1, consts);
	}
	for (const char * st : {"uniform", "cubic", "pwlinear"}) for (int kind : {mini::CS, mini::CART}) for (int vo = 1; vo <= 4; vo++) for (int m = 1; m <= 3; m++) for (const char * sg : {"lor", "int", "fv", "cph", "lev"}) {
		Cfg k; k.kind = kind; k.nx = kind == mini::CS ? 1 : 2; k.ny = 1; k.ho = 3; k.tracers = 2; k.ref = true; k.rayleigh = true; k.stretch = st; k.vo = vo; k.stag = "lor"; k.lev = vo*m;
		if (std::string(sg) == "int") { if (vo < 2) continue; k.stag = "int"; k.expl = true; k.lev = (vo-1)*m + 1; k.scheme = "ark232"; }
		if (std::string(sg) == "cph" || std::string(sg) == "lev") k.stag = sg; if (std::string(sg) == "fv") { if (vo % 2 || m > 2) continue; k.vdisc = "fv"; k.lev = 4*m + 1; }
		G(k, 1, m == 2);
	}
	for (int nx = 1; nx <= 3; nx++) for (int ny = 1; ny <= 3; ny++) for (int ho = 2; ho <= 5; ho++) { Cfg k; k.kind = mini::CART; k.nx = nx; k.ny = ny; k.ho = ho; k.sw = true; k.lev = 1; k.vm = "none"; k.scheme = "ark232"; k.tracers = 2; k.topo = false; G(k, nx, ny % 2); }
}
