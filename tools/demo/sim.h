// Small simulations of the real code, shared by the harnesses.
#ifndef MINI_H
#define MINI_H
#include "vh.h"
#include "Tempest.h"
#include <cmath>
#include <memory>
#include <map>
#include <sstream>

namespace mini {

enum Kind { CS = 0, CART = 1, CARTXZ = 2 };

struct Cfg {
	int kind = CS;
	bool sw = false;
	int nx = 2, ny = 2, lev = 4, ho = 4, vo = 1;
	const char * stag = "lor";
	const char * vdisc = "fe";
	std::string scheme = "strang", hm = "v1", vm = "v1";
	int tracers = 2;
	double nu = 0.0; int nuorder = 4;
	double inud = 0.0;
	bool topo = true, ref = false, rayleigh = false, expl = false, fluxlev = false;
	double udiff = 0.0;
	int vhyp = 0;
	int patches = -1;                 // layout; -1: as the drivers choose it
	double dt = 60.0; int steps = 1;
	double flow = 1.0;                // amplitude of the asymmetric part
	bool zerotracer = false;
	int bc[4] = {0, 0, 0, 0};
	double lx = 4.0e5, ly = 3.0e5, ztop = 10000.0;
	double reflat = 0.0;
	std::string stretch = "uniform";
	std::string name() const {
		std::string s = kind == CS ? "cs" : kind == CART ? "cart" : "xz";
		s += sw ? "-sw" : "-nh";
		s += vh::fmt("-x%d", nx);
		if (kind != CS) s += vh::fmt("x%d", ny);
		s += vh::fmt("-l%d-o%d.%d-%s%s-", lev, ho, vo, stag, std::string(vdisc) == "fe" ? "" : vdisc);
		for (char c : scheme) s += c == '/' ? '_' : c;
		s += "-" + hm + vm + vh::fmt("-q%d", tracers);
		if (nu != 0) s += vh::fmt("-nu%g.%d", nu, nuorder);
		if (inud != 0) s += vh::fmt("-inud%g", inud);
		if (!topo) s += "-flat";
		if (ref) s += "-ref";
		if (rayleigh) s += "-ray";
		if (udiff != 0) s += "-udiff";
		if (vhyp) s += vh::fmt("-vh%d", vhyp);
		if (expl) s += "-expl";
		if (fluxlev) s += "-ml";
		if (patches >= 0) s += vh::fmt("-p%d", patches);
		if (bc[0] | bc[1] | bc[2] | bc[3]) s += vh::fmt("-bc%d%d%d%d", bc[0], bc[1], bc[2], bc[3]);
		if (stretch != "uniform") s += "-" + stretch;
		return s;
	}
};

// A smooth state without symmetries, valid on the sphere and in a box.
class Test : public TestCase {
public:
	Cfg c;
	double earth = 0;                     // radius override
	Test(const Cfg & cfg) : c(cfg) {}
	void pos(double a, double b, double & X, double & Y, double & Z) const {
		if (c.kind == CS) {
			X = cos(b) * cos(a); Y = cos(b) * sin(a); Z = sin(b);
		} else {
			double p = 2.0 * M_PI * a / c.lx, q = 2.0 * M_PI * b / c.ly;
			X = cos(p) + 0.3 * sin(q); Y = sin(p) * (c.kind == CARTXZ ? 1.0 : cos(q)); Z = c.kind == CARTXZ ? 0.2 : sin(q);
			if (c.kind == CARTXZ) X = cos(p);
		}
	}
	double f(int k, double a, double b) const {
		double X, Y, Z; pos(a, b, X, Y, Z);
		return 0.5 * sin(1.3 * X + 0.4 * k + 0.2) + 0.3 * cos((1.1 + 0.1 * k) * Y - 0.7 * Z) + 0.2 * sin(1.9 * Z - 0.5 * X * Y + k);
	}
	virtual EquationSet::Type GetEquationSetType() const {
		return c.sw ? EquationSet::ShallowWaterEquations : EquationSet::PrimitiveNonhydrostaticEquations;
	}
	virtual double GetZtop() const { return c.sw ? 1.0 : c.ztop; }
	virtual void EvaluatePhysicalConstants(PhysicalConstants & phys) const {
		if (earth != 0) phys.SetEarthRadius(earth);
	}
	virtual double EvaluateTopography(const PhysicalConstants &, double a, double b) const {
		return c.topo ? 200.0 * (1.0 + f(5, a, b)) : 0.0;
	}
	virtual void GetUniformDiffusionCoeffs(double & s, double & v) const { s = c.udiff; v = c.udiff; }
	virtual bool HasRayleighFriction() const { return c.rayleigh; }
	virtual double EvaluateRayleighStrength(double z, double a, double b) const {
		return z > 0.6 * c.ztop ? 1.0e-4 * (1.0 + 0.3 * f(7, a, b)) * (z / c.ztop - 0.6) : 0.0;
	}
	virtual bool HasReferenceState() const { return c.ref; }
	void base(const PhysicalConstants & phys, double z, double & th, double & rho) const {
		const double N2 = 1.0e-4, T0 = 300.0, g = phys.GetG(), cp = phys.GetCp();
		th = T0 * exp(N2 * z / g);
		double pi = 1.0 + g * g / (cp * T0 * N2) * (exp(-N2 * z / g) - 1.0);
		rho = phys.GetP0() * pow(pi, cp / phys.GetR() - 1.0) / (phys.GetR() * th);
	}
	virtual void EvaluateReferenceState(const PhysicalConstants & phys, double z, double a, double b, double * s) const {
		if (c.sw) { s[0] = s[1] = 0; s[2] = 3000; return; }
		double th, rho; base(phys, z, th, rho);
		s[0] = s[1] = s[3] = 0; s[2] = th; s[4] = rho;
	}
	virtual void EvaluatePointwiseState(const PhysicalConstants & phys, const Time &, double z, double a, double b, double * s, double * q) const {
		double w = c.flow;
		double taper = c.kind == CS ? cos(b) : 1.0;
		double h;
		if (c.sw) {
			s[0] = w * taper * (20.0 + 5.0 * f(0, a, b)); s[1] = w * taper * 6.0 * f(1, a, b);
			s[2] = 3000.0 + w * 80.0 * f(2, a, b);
			h = s[2] - (c.topo ? EvaluateTopography(phys, a, b) : 0.0);
		} else {
			double th, rho; base(phys, z, th, rho);
			double zz = z / c.ztop;
			s[0] = w * taper * (10.0 + 5.0 * f(0, a, b)) * (0.5 + zz);
			s[1] = c.kind == CARTXZ ? 0.0 : w * taper * 5.0 * f(1, a, b) * (1.2 - zz);
			s[2] = th + w * 1.0 * f(2, a, b) * sin(M_PI * zz);
			s[3] = w * 0.02 * f(3, a, b) * sin(M_PI * zz);
			s[4] = rho * (1.0 + w * 0.002 * f(4, a, b) * cos(2.0 * zz));
			h = s[4];
		}
		for (int i = 0; q != NULL && i < c.tracers; i++)
			q[i] = c.zerotracer ? 0.0 : h * (0.6 + 0.3 * f(8 + i, a, b) * (c.sw ? 1.0 : 1.0 - 0.5 * z / c.ztop));
	}
	virtual void EvaluatePointwisePerturbation(const PhysicalConstants & phys, const Time &, double z, double a, double b, double * s, double * q) const {
		for (int i = 0; i < (c.sw ? 3 : 5); i++) s[i] = 0.0;
		s[0] = 0.5 * f(11, a, b);
		for (int i = 0; q != NULL && i < c.tracers; i++) q[i] = 0.0;
	}
};

inline Time seconds(double t) {
	Time d(Time::CalendarNoLeap, Time::TypeDelta);
	int s = (int)floor(t);
	int us = (int)floor((t - s) * 1e6 + 0.5);
	return Time(0, 0, 0, s, us, Time::CalendarNoLeap, Time::TypeDelta);
}

inline EquationSet eqns(const Cfg & c) {
	EquationSet e(c.sw ? EquationSet::ShallowWaterEquations : EquationSet::PrimitiveNonhydrostaticEquations);
	for (int i = 0; i < c.tracers; i++) e.InsertTracer(vh::fmt("Q%d", i), vh::fmt("tracer %d", i));
	return e;
}

inline _TempestCommandLineVariables vars(const Cfg & c) {
	_TempestCommandLineVariables v = _TempestCommandLineVariables();
	v.fNoOutput = true;
	v.fRestartPerturbation = false;
	v.nOutputsPerFile = -1;
	v.nHyperviscosityOrder = c.nuorder;
	v.fNoHyperviscosity = (c.nu == 0.0);
	v.dNuScalar = v.dNuDiv = v.dNuVort = c.nu;
	v.dInstepNuDiv = c.inud;
	v.fExplicitVertical = c.expl;
	v.strVerticalStaggering = c.stag;
	v.fForceMassFluxOnLevels = c.fluxlev;
	v.strVerticalStretch = c.stretch;
	v.strVerticalDiscretization = c.vdisc;
	v.nVerticalHyperdiffOrder = c.vhyp;
	v.strTimestepScheme = c.scheme;
	v.strHorizontalDynamics = c.hm;
	v.strVerticalDynamics = c.vm;
	v.nResolutionX = c.nx; v.nResolutionY = c.ny;
	v.nLevels = c.lev; v.nHorizontalOrder = c.ho; v.nVerticalOrder = c.vo;
	v.fNoReferenceState = !c.ref;
	return v;
}

inline Grid * new_grid(Model & m, const Cfg & c) {
	int size = 1;
	MPI_Comm_size(MPI_COMM_WORLD, &size);
	Grid::VerticalStaggering vs = Grid::VerticalStaggering_Lorenz;
	std::string st = c.stag;
	if (st == "lev") vs = Grid::VerticalStaggering_Levels;
	if (st == "int") vs = Grid::VerticalStaggering_Interfaces;
	if (st == "cph") vs = Grid::VerticalStaggering_CharneyPhillips;
	Grid::VerticalDiscretization vd = std::string(c.vdisc) == "fv" ? Grid::VerticalDiscretization_FiniteVolume : Grid::VerticalDiscretization_FiniteElement;
	Grid * g;
	if (c.kind == CS) {
		int np = c.patches < 0 ? (size < 6 ? 6 : size) : (c.patches < 6 ? 6 : c.patches);
		GridCSGLL * p = new GridCSGLL(m);
		p->DefineParameters();
		p->SetParameters(c.lev, np, c.nx, 4, c.ho, c.vo, vd, vs);
		p->InitializeDataLocal();
		g = p;
	} else {
		int np = c.patches < 0 ? size : c.patches;
		double dim[6] = {0.0, c.lx, 0.0, c.ly, 0.0, c.ztop};
		int bc[4] = {c.bc[0], c.bc[1], c.bc[2], c.bc[3]};
		GridCartesianGLL * p = new GridCartesianGLL(m);
		p->DefineParameters();
		p->SetParameters(c.lev, np, c.nx, c.ny, 4, c.ho, c.vo, dim, c.reflat, bc, c.kind == CARTXZ, vd, vs);
		p->InitializeDataLocal();
		g = p;
	}
	if (c.stretch == "cubic") g->SetVerticalStretchFunction(new VerticalStretchCubic);
	if (c.stretch == "pwlinear") g->SetVerticalStretchFunction(new VerticalStretchPiecewiseLinear);
	return g;
}

struct Sim {
	Cfg c;
	Model model;
	Test * test;
	Grid * grid;
	_TempestCommandLineVariables v;
	Sim(const Cfg & cfg, bool methods = true) : c(cfg), model(eqns(cfg)), test(NULL), grid(NULL), v(vars(cfg)) {
		if (!methods) return;
		model.SetDeltaT(seconds(c.dt));
		Time end; end += Time(seconds(c.dt * c.steps));
		model.SetEndTime(end);
		_TempestSetupMethodOfLines(model, v);
	}
	void make_grid() { grid = new_grid(model, c); model.SetGrid(grid, c.patches); }
	void make_test() { test = new Test(c); model.SetTestCase(test); }
	void setup() { make_grid(); make_test(); }
	int size2d() const { return 0; }
};

// The whole grid as a flat vector, the same whatever the decomposition.
struct Global {
	int np, na, nb;      // panels, nodes per direction
	std::vector<double> v;
	std::vector<char> seen;
	int block = 0;
};

struct Layout {
	int panels, na, nb, lev, comp, tr;
	size_t cols() const { return (size_t)panels * na * nb; }
	size_t per() const { return (size_t)comp * lev + (size_t)comp * (lev + 1) + (size_t)tr * lev; }
	size_t size() const { return cols() * per(); }
};
inline Layout layout(const Cfg & c) {
	Layout l;
	l.panels = c.kind == CS ? 6 : 1;
	l.na = c.nx * c.ho; l.nb = (c.kind == CS ? c.nx : c.ny) * c.ho;
	l.lev = c.lev; l.comp = c.sw ? 3 : 5; l.tr = c.tracers;
	return l;
}
// value number `what` of a column: state levels, state interfaces, tracers
inline std::string describe(const Layout & l, size_t ix) {
	size_t col = ix / l.per(), w = ix % l.per();
	int p = col / (l.na * l.nb), i = (col / l.nb) % l.na, j = col % l.nb;
	std::string s = vh::fmt("panel %d node (%d,%d) ", p, i, j);
	if (w < (size_t)l.comp * l.lev) return s + vh::fmt("component %d level %d", (int)(w / l.lev), (int)(w % l.lev));
	w -= (size_t)l.comp * l.lev;
	if (w < (size_t)l.comp * (l.lev + 1)) return s + vh::fmt("component %d interface %d", (int)(w / (l.lev + 1)), (int)(w % (l.lev + 1)));
	w -= (size_t)l.comp * (l.lev + 1);
	return s + vh::fmt("tracer %d level %d", (int)(w / l.lev), (int)(w % l.lev));
}
// is value w of a column one the staggering really uses?
inline bool live(const Grid & g, const Layout & l, size_t w) {
	if (w < (size_t)l.comp * l.lev) return g.GetVarLocation((int)(w / l.lev)) == DataLocation_Node;
	w -= (size_t)l.comp * l.lev;
	if (w < (size_t)l.comp * (l.lev + 1)) return g.GetVarLocation((int)(w / (l.lev + 1))) == DataLocation_REdge;
	return true;
}
inline std::vector<char> live_mask(const Grid & g, const Layout & l) {
	std::vector<char> m(l.per());
	for (size_t w = 0; w < l.per(); w++) m[w] = live(g, l, w);
	return m;
}

template <class F> void each_column(Grid & g, const Layout & l, F f) {
	for (int n = 0; n < g.GetActivePatchCount(); n++) {
		GridPatch * p = g.GetActivePatch(n);
		const PatchBox & b = p->GetPatchBox();
		for (int i = b.GetAInteriorBegin(); i < b.GetAInteriorEnd(); i++)
		for (int j = b.GetBInteriorBegin(); j < b.GetBInteriorEnd(); j++) {
			int gi = i + b.GetAGlobalBegin(), gj = j + b.GetBGlobalBegin();
			size_t col = ((size_t)b.GetPanel() * l.na + gi) * l.nb + gj;
			f(*p, i, j, col);
		}
	}
}

inline void gather(Grid & g, const Layout & l, int inst, std::vector<double> & out, std::vector<int> * owner = NULL) {
	each_column(g, l, [&](GridPatch & p, int i, int j, size_t col) {
		double * o = &out[col * l.per()];
		const DataArray4D<double> & n = p.GetDataState(inst, DataLocation_Node);
		const DataArray4D<double> & r = p.GetDataState(inst, DataLocation_REdge);
		for (int c = 0; c < l.comp; c++) for (int k = 0; k < l.lev; k++) *o++ = n(c, i, j, k);
		for (int c = 0; c < l.comp; c++) for (int k = 0; k <= l.lev; k++) *o++ = r(c, i, j, k);
		if (l.tr) {
			const DataArray4D<double> & t = p.GetDataTracers(inst);
			for (int c = 0; c < l.tr; c++) for (int k = 0; k < l.lev; k++) *o++ = t(c, i, j, k);
		}
		if (owner) (*owner)[col]++;
	});
}

// Compares two whole-grid states; scale per kind of value.
struct Diff { bool ok = true; double worst = 0; size_t at = 0; size_t nan = 0; std::string text; };
inline Diff compare(const Layout & l, const std::vector<double> & a, const std::vector<double> & b, double tol,
                    const std::vector<char> * mask = NULL) {
	Diff d;
	size_t per = l.per();
	// scale: largest magnitude of each component / location
	std::vector<double> sc(per, 0.0);
	auto cls = [&](size_t w) -> size_t {
		if (w < (size_t)l.comp * l.lev) return w / l.lev;
		w -= (size_t)l.comp * l.lev;
		if (w < (size_t)l.comp * (l.lev + 1)) return l.comp + w / (l.lev + 1);
		w -= (size_t)l.comp * (l.lev + 1);
		return 2 * l.comp + w / l.lev;
	};
	for (size_t i = 0; i < a.size(); i++) {
		double & s = sc[cls(i % per)];
		if (std::fabs(b[i]) > s) s = std::fabs(b[i]);
	}
	if (l.comp >= 2) { double m = std::max(sc[0], sc[1]); sc[0] = sc[1] = m; m = std::max(sc[l.comp], sc[l.comp+1]); sc[l.comp] = sc[l.comp+1] = m; }
	for (size_t i = 0; i < a.size(); i++) {
		size_t w = i % per;
		if (mask && !(*mask)[w]) continue;
		if (std::isnan(a[i]) != std::isnan(b[i])) { d.ok = false; d.nan++; d.at = i; d.worst = 1e300; continue; }
		double s = sc[cls(w)]; if (s < 1e-3) s = 1e-3;
		double e = std::fabs(a[i] - b[i]) / s;
		if (e > d.worst) { d.worst = e; d.at = i; }
	}
	if (d.worst > tol) d.ok = false;
	d.text = vh::fmt("%s: %.17g instead of %.17g (relative %.3g)", describe(l, d.at).c_str(), a[d.at], b[d.at], d.worst);
	return d;
}
inline bool finite(const std::vector<double> & v) {
	for (double x : v) if (!std::isfinite(x)) return false;
	return true;
}

}
#endif
