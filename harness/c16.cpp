// Time schemes: every step of every selectable scheme is executed on the real
// grid with dynamics whose evaluations are formal symbols, so that the linear
// combination each evaluation and the new state are made of can be read back
// and compared with the published method.
#include "mini.h"
#include "TimestepSchemeStrang.h"
#include "VerticalDynamicsFEM.h"
#include "HorizontalDynamicsStub.h"
using namespace mini;
using vh::Ctx;
using std::vector; using std::string;

typedef vector<double> Vec;
enum { KH, KV, KG, KT, KA, KINDS };
static const char * kname[KINDS] = {"horizontal explicit", "vertical explicit", "implicit", "explicit vertical (implicit terms)", "after-subcycle"};
static const int cap[KINDS] = {24, 100, 18, 6, 6};
static const int LEV = 156;            // 1 + 154 symbols, last level: continuity
static int base_of(int k) { int b = 1; for (int i = 0; i < k; i++) b += cap[i]; return b; }

struct Eval { int kind; Vec arg; double dt; };

struct Trace {
	Grid * g;
	vector<Eval> ev;
	int n[KINDS];
	int discont; string bad;
	Trace() : g(NULL), discont(0) { reset(); }
	void reset() { ev.clear(); for (int i = 0; i < KINDS; i++) n[i] = 0; discont = 0; bad = ""; }
	int sym(int kind) {
		if (n[kind] >= cap[kind]) _EXCEPTION1("too many evaluations of kind %i", kind);
		return base_of(kind) + n[kind]++;
	}
	template <class F> void each(int inst, F f) {
		GridPatch * p = g->GetActivePatch(0);
		const PatchBox & b = p->GetPatchBox();
		DataArray4D<double> & N = p->GetDataState(inst, DataLocation_Node);
		DataArray4D<double> & R = p->GetDataState(inst, DataLocation_REdge);
		DataArray4D<double> & T = p->GetDataTracers(inst);
		for (int i = b.GetAInteriorBegin(); i < b.GetAInteriorEnd(); i++)
		for (int j = b.GetBInteriorBegin(); j < b.GetBInteriorEnd(); j++)
		for (int k = 0; k < LEV; k++) {
			for (int c = 0; c < 5; c++) {
				bool edge = g->GetVarLocation(c) == DataLocation_REdge;
				f(N(c, i, j, k), i, j, k, edge ? 2 : 0); f(R(c, i, j, k), i, j, k, edge ? 0 : 2);
			}
			f(T(0, i, j, k), i, j, k, 1);
		}
	}
	static double jump(int i, int j) { return ((i % 2) ? 1.0 : -1.0) + ((j % 2) ? 0.25 : -0.25); }
	void add(int inst, int sym, double dt, bool rough) {
		each(inst, [&](double & x, int i, int j, int k, int tr) {
			if (k == sym) x += dt;
			if (rough && tr != 2 && k == LEV - 1) x += dt * jump(i, j);
		});
	}
	// The symbol vector of one instance; state, interfaces and tracers must agree.
	Vec read(int inst, const char * what) {
		Vec v(LEV - 1, 0.0); vector<char> seen(LEV - 1, 0);
		each(inst, [&](double & x, int, int, int k, int tr) {
			if (k == LEV - 1) { if (!(std::fabs(x) < 1e-9)) discont++; return; }
			if (!seen[k]) { seen[k] = 1; v[k] = x; return; }
			if (!(std::fabs(x - v[k]) < 1e-9) && bad == "")
				bad = vh::fmt("%s: %s and the other components of the state are not made of the same combination", what, tr == 1 ? "the tracers" : "one component");
		});
		return v;
	}
	void set(int inst, double u0, double junk, double last) {
		each(inst, [&](double & x, int, int, int k, int) { x = k == 0 ? u0 : (k == LEV - 1 ? last : junk); });
	}
	void rec(int kind, int inst, double dt) { Eval e; e.kind = kind; e.dt = dt; e.arg = read(inst, kname[kind]); ev.push_back(e); }
	void combine(const DataArray1D<int> & ix, const DataArray1D<double> & cf, int upd) {
		vector<vector<double> > vals(ix.GetRows());
		for (size_t s = 0; s < ix.GetRows(); s++) each(ix[s], [&](double & x, int, int, int, int) { vals[s].push_back(x); });
		size_t at = 0;
		each(upd, [&](double & x, int, int, int, int) { x = 0; for (size_t s = 0; s < vals.size(); s++) x += cf[s] * vals[s][at]; at++; });
	}
	void copy(int a, int b) { if (a == b) return; vector<double> v; each(a, [&](double & x, int, int, int, int) { v.push_back(x); }); size_t at = 0; each(b, [&](double & x, int, int, int, int) { x = v[at++]; }); }
};

class H : public HorizontalDynamics {
public:
	Trace & t;
	H(Model & m, Trace & tr) : HorizontalDynamics(m), t(tr) {}
	virtual void StepExplicit(int a, int u, const Time &, double dt) { t.rec(KH, a, dt); t.add(u, t.sym(KH), dt, true); }
	virtual void StepExplicitCombine(const DataArray1D<int> & ix, const DataArray1D<double> & cf, int a, int u, const Time &, double dt) {
		t.rec(KH, a, dt); t.combine(ix, cf, u); t.add(u, t.sym(KH), dt, true);
	}
	virtual void StepImplicitCombine(const DataArray1D<int> & ix, const DataArray1D<double> & cf, int a, int u, const Time &, double dt) {
		t.combine(ix, cf, u); t.rec(KG, u, dt); t.add(u, t.sym(KG), dt, false);
	}
	virtual void StepAfterSubCycle(int a, int u, int w, const Time &, double dt) {
		t.rec(KA, a, dt); t.copy(a, u);
		if (w == a || w == u) { if (t.bad == "") t.bad = "after-subcycle: the working instance is also the input or the result"; }
		else t.set(w, 55.5, 44.25, 0.0);
		t.add(u, t.sym(KA), dt, false);
	}
	virtual void StepAfterSubCycleCombine(int u, int w, const Time &, double dt) {
		t.rec(KA, u, dt);
		if (w == u) { if (t.bad == "") t.bad = "after-subcycle: the working instance is also the result"; }
		else t.set(w, 55.5, 44.25, 0.0);
		t.add(u, t.sym(KA), dt, false);
	}
};

class V : public VerticalDynamicsFEM {
public:
	Trace & t;
	V(Model & m, Trace & tr) : VerticalDynamicsFEM(m, 2, 1, 0, true, false, false), t(tr) {}
	virtual void Initialize() {}
	virtual void StepExplicit(int a, int u, const Time &, double dt) { t.rec(KV, a, dt); t.add(u, t.sym(KV), dt, true); }
	virtual void StepImplicitTermsExplicitly(int a, int u, const Time &, double dt) { t.rec(KT, a, dt); t.add(u, t.sym(KT), dt, false); }
	virtual void StepImplicit(int a, int u, const Time &, double dt) { t.rec(KG, a, dt); t.copy(a, u); t.add(u, t.sym(KG), dt, false); }
	virtual void FilterNegativeTracers(int) {}
};

// ---------------------------------------------------------------- reference
struct Ref {
	vector<Eval> ev; int n[KINDS];
	Ref() { for (int i = 0; i < KINDS; i++) n[i] = 0; }
	Vec zero() const { return Vec(LEV - 1, 0.0); }
	int eval(int kind, const Vec & arg, double dt = 0) { Eval e; e.kind = kind; e.arg = arg; e.dt = dt; ev.push_back(e); return base_of(kind) + n[kind]++; }
};
static void axpy(Vec & y, double a, const Vec & x) { for (size_t i = 0; i < y.size(); i++) y[i] += a * x[i]; }

typedef vector<vector<double> > Mat;
struct Tab { Mat AE, AI; vector<double> bE, bI; };

// One step of an additive Runge-Kutta method; vert: the explicit part is the
// sum of the horizontal and vertical parts.
static Vec ark(Ref & r, const Tab & t, const Vec & u, double dt, bool vert, int kind = KH) {
	int s = (int)t.bE.size();
	vector<int> hs(s, -1), vs(s, -1), gs(s, -1);
	auto part = [&](const vector<double> & ae, const vector<double> & ai, int upto) {
		Vec y = u;
		for (int j = 0; j < upto; j++) {
			if (ae[j] != 0) { y[hs[j]] += dt * ae[j]; if (vert) y[vs[j]] += dt * ae[j]; }
			if (ai.size() && ai[j] != 0) y[gs[j]] += dt * ai[j];
		}
		return y;
	};
	vector<double> none;
	for (int i = 0; i < s; i++) {
		Vec y = part(t.AE[i], t.AI.size() ? t.AI[i] : none, i);
		bool useE = t.bE[i] != 0, useI = t.AI.size() && t.bI[i] != 0;
		for (int k = i + 1; k < s; k++) { if (t.AE[k][i] != 0) useE = true; if (t.AI.size() && t.AI[k][i] != 0) useI = true; }
		if (t.AI.size() && t.AI[i][i] != 0) { gs[i] = r.eval(KG, y, dt * t.AI[i][i]); y[gs[i]] += dt * t.AI[i][i]; }
		else if (useI) gs[i] = r.eval(KT, y);
		if (useE) { hs[i] = r.eval(kind, y); if (vert) vs[i] = r.eval(KV, y); }
	}
	return part(t.bE, t.bI, s);
}

static Tab tab(const string & n) {
	Tab t; const double q = std::sqrt(2.0), g = 1.0 - 1.0 / q;
	if (n == "fe") { t.AE = {{0}}; t.bE = {1}; }
	if (n == "rk4") { t.AE = {{0,0,0,0},{.5,0,0,0},{0,.5,0,0},{0,0,1,0}}; t.bE = {1./6,1./3,1./3,1./6}; }
	if (n == "rk3") { t.AE = {{0,0,0},{1,0,0},{.25,.25,0}}; t.bE = {1./6,1./6,2./3}; }
	if (n == "kgu35") { t.AE = {{0,0,0,0,0},{.2,0,0,0,0},{0,.2,0,0,0},{0,0,1./3,0,0},{0,0,0,2./3,0}}; t.bE = {.25,0,0,0,.75}; }
	if (n == "ssprk53") {
		// Shu-Osher form of Ruuth (2006), expanded
		const double b10 = 0.377268915331368, b21 = 0.377268915331368, b32 = 0.242995220537396, b43 = 0.238458932846290, b54 = 0.287632146308408;
		const double a32 = 0.644090224936674, a43 = 0.632066208361863, a52 = 0.237593836598569, a54 = 0.762406163401431;
		vector<double> y1 = {b10,0,0,0,0}, y2 = {b10,b21,0,0,0};
		vector<double> y3 = {a32*b10,a32*b21,b32,0,0};
		vector<double> y4 = {a43*y3[0],a43*y3[1],a43*y3[2],b43,0};
		vector<double> y5(5);
		for (int i = 0; i < 5; i++) y5[i] = a52 * y2[i] + a54 * y4[i] + (i == 4 ? b54 : 0);
		t.AE = {{0,0,0,0,0}, y1, y2, y3, y4}; t.bE = y5;
	}
	if (n == "ars222") {
		const double d = 1 - 1 / (2 * g);
		t.AE = {{0,0,0},{g,0,0},{d,1-d,0}}; t.bE = {d,1-d,0};
		t.AI = {{0,0,0},{0,g,0},{0,1-g,g}}; t.bI = {0,1-g,g};
	}
	if (n == "ars232") {
		const double d = -2 * q / 3;
		t.AE = {{0,0,0},{g,0,0},{d,1-d,0}}; t.bE = {0,1-g,g};
		t.AI = {{0,0,0},{0,g,0},{0,1-g,g}}; t.bI = {0,1-g,g};
	}
	if (n == "ark232") {
		const double a = (3 + 2 * q) / 6, d = 1 / (2 * q);
		t.AE = {{0,0,0},{2*g,0,0},{1-a,a,0}}; t.bE = {d,d,g};
		t.AI = {{0,0,0},{g,g,0},{d,d,g}}; t.bI = {d,d,g};
	}
	if (n == "ars343" || n == "ars343b") {
		const double y = 0.4358665215, b1 = 1.208496649, b2 = -0.644363171;
		t.AE = {{0,0,0,0},{y,0,0,0},{0.3212788860,0.3966543747,0,0},{-0.105858296,0.5529291479,0.5529291479,0}}; t.bE = {0,b1,b2,y};
		t.AI = {{0,0,0,0},{0,y,0,0},{0,(1-y)/2,y,0},{0,b1,b2,y}}; t.bI = {0,b1,b2,y};
	}
	if (n == "ars443") {
		t.AE = {{0,0,0,0,0},{.5,0,0,0,0},{11./18,1./18,0,0,0},{5./6,-5./6,.5,0,0},{.25,1.75,.75,-1.75,0}}; t.bE = {.25,1.75,.75,-1.75,0};
		t.AI = {{0,0,0,0,0},{0,.5,0,0,0},{0,1./6,.5,0,0},{0,-.5,.5,.5,0},{0,1.5,-1.5,.5,.5}}; t.bI = {0,1.5,-1.5,.5,.5};
	}
	if (n == "ssp3_332") {
		t.AE = {{0,0,0},{1,0,0},{.25,.25,0}}; t.bE = {1./6,1./6,2./3};
		t.AI = {{g,0,0},{1-2*g,g,0},{.5-g,0,g}}; t.bI = {1./6,1./6,2./3};
	}
	return t;
}

struct State { Vec u, carry; };

// One step of the named scheme; returns the new state.
static Vec reference(const string & name, Ref & r, const Vec & u0, Vec & carry, bool first, double dt, double stiff, int nvert) {
	Vec u = u0;
	auto after = [&](Vec y) { int a = r.eval(KA, y); y[a] += dt; return y; };
	if (name.substr(0, 6) == "strang") {
		string rk = name.size() > 6 ? name.substr(7) : "kgu35";
		if (first) { int g = r.eval(KG, u, dt / 2); u[g] += dt / 2; }
		else axpy(u, dt / 2, carry);
		u = after(ark(r, tab(rk), u, dt, true));
		int g = r.eval(KG, u, dt / 2);
		carry = r.zero(); carry[g] = 1.0;
		u[g] += dt / 2;
		return u;
	}
	if (name.substr(0, 3) == "erk") {
		string rk = name.size() > 3 ? name.substr(4) : "kgu35";
		return after(ark(r, tab(rk), u, dt, false));
	}
	if (name == "spex") {
		u = ark(r, tab("kgu35"), u, dt, false);
		for (int n = 0; n < nvert; n++) u = ark(r, tab("rk3"), u, dt / nvert, false, KV);
		return after(u);
	}
	if (name == "gark2") {
		const double g = 1.0 - 1.0 / std::sqrt(2.0);
		int h1 = r.eval(KH, u), v1 = r.eval(KV, u);
		Vec z1 = u; z1[h1] += g * dt; z1[v1] += g * dt;
		int g1 = r.eval(KG, z1, g * dt);
		Vec y2 = u; y2[h1] += dt; y2[v1] += dt; y2[g1] += dt;
		int h2 = r.eval(KH, y2), v2 = r.eval(KV, y2);
		Vec z2 = u; z2[h1] += dt / 2; z2[v1] += dt / 2; z2[h2] += dt / 2; z2[v2] += dt / 2; z2[g1] += (1 - g) * dt;
		int g2 = r.eval(KG, z2, g * dt); z2[g2] += g * dt;
		return after(z2);
	}
	bool vert = name != "ars343b";
	return after(ark(r, tab(name), u, dt, vert));
}

// -------------------------------------------------------- order conditions
struct Part { vector<int> ids; };
static void order_conditions(Ctx & ctx, const string & key, const vector<Eval> & ev, const Vec & fin, double dt,
                             const vector<vector<int> > & kinds, int order) {
	// evaluations of the given parts, each with the argument it is taken at
	int P = (int)kinds.size();
	struct E { int part, sym; Vec arg; };
	vector<E> es; int n[KINDS] = {0};
	for (auto & e : ev) {
		int sym = base_of(e.kind) + n[e.kind]++;
		for (int p = 0; p < P; p++) for (int k : kinds[p]) if (k == e.kind) {
			E x; x.part = p; x.sym = sym; x.arg = e.arg;
			if (e.kind == KG) x.arg[sym] += e.dt;
			es.push_back(x);
		}
	}
	auto sum = [&](const Vec & v, int p) { double s = 0; for (auto & e : es) if (e.part == p) s += v[e.sym] / dt; return s; };
	auto chk = [&](const char * w, int p, int q, int r, double got, double want) {
		ctx.count("evaluations");
		if (!(std::fabs(got - want) < 1e-8))
			ctx.viol(key + "/order", vh::fmt("order condition %s of parts %d%d%d: %.15g instead of %.15g", w, p, q, r, got, want));
	};
	for (int p = 0; p < P; p++) {
		chk("sum b", p, 0, 0, sum(fin, p), 1.0);
		if (order < 2) continue;
		for (int q = 0; q < P; q++) {
			double s = 0;
			for (auto & e : es) if (e.part == p) s += fin[e.sym] / dt * sum(e.arg, q);
			chk("b.c", p, q, 0, s, 0.5);
			if (order < 3) continue;
			for (int r = 0; r < P; r++) {
				double s2 = 0, s3 = 0;
				for (auto & e : es) if (e.part == p) {
					s2 += fin[e.sym] / dt * sum(e.arg, q) * sum(e.arg, r);
					for (auto & f : es) if (f.part == q) s3 += fin[e.sym] / dt * e.arg[f.sym] / dt * sum(f.arg, r);
				}
				chk("b.c.c", p, q, r, s2, 1.0 / 3); chk("b.A.c", p, q, r, s3, 1.0 / 6);
			}
		}
	}
	if (order >= 4 && P == 1) {
		double a = 0, b = 0, c = 0, d = 0;
		for (auto & e : es) {
			double w = fin[e.sym] / dt, ce = sum(e.arg, 0);
			a += w * ce * ce * ce;
			for (auto & f : es) {
				double A = e.arg[f.sym] / dt, cf = sum(f.arg, 0);
				b += w * ce * A * cf; c += w * A * cf * cf;
				for (auto & h : es) d += w * A * f.arg[h.sym] / dt * sum(h.arg, 0);
			}
		}
		chk("b.ccc", 0, 0, 0, a, .25); chk("b.cAc", 0, 0, 0, b, .125); chk("b.Acc", 0, 0, 0, c, 1. / 12); chk("b.AAc", 0, 0, 0, d, 1. / 24);
	}
}

static int order_of(const string & n) {
	string s = n;
	size_t p = s.find('/'); if (p != string::npos) s = s.substr(p + 1);
	if (s == "fe") return 1;
	if (s == "rk4") return 4;
	if (s == "ars222" || s == "ars232" || s == "ark232" || s == "gark2" || s == "ssp3_332") return 2;
	return 3;
}

static string show(const Vec & v) {
	string s;
	for (size_t i = 0; i < v.size(); i++) if (std::fabs(v[i]) > 1e-10) {
		if (i == 0) { s += vh::fmt("%.6g u", v[i]); continue; }
		int k = 0; while (k + 1 < KINDS && (int)i >= base_of(k + 1)) k++;
		s += vh::fmt(" %+.6g %c%d", v[i], "HVGTA"[k], (int)i - base_of(k) + 1);
	}
	return s;
}
static double dist(const Vec & a, const Vec & b) { double d = 0; for (size_t i = 0; i < a.size(); i++) { double e = std::fabs(a[i] - b[i]); if (!(e <= d)) d = e; } return d; }

static void run_scheme(Ctx & ctx, const string & name, int maxlen) {
	vector<double> dts = {1.0, 0.375, 2.5};
	if (name == "spex") dts = {1.0, 0.375, 0.09375};
	VmpiOpts opts; VmpiResult res;
	vh::mpi(1, [&](int) {
		Cfg c; c.kind = CART; c.nx = 2; c.ny = 2; c.lev = LEV; c.ho = 2; c.vo = 1; c.tracers = 1; c.topo = false; c.scheme = name; c.lx = c.ly = 1.0e5;
		// 7.2 short steps fit in the longest step of the split scheme
		double stiff = 2.0 / 7.3; c.ztop = name == "spex" ? stiff * 350.0 * LEV : 10000.0;
		Sim s(c);
		Trace t;
		s.model.m_pHorizontalDynamics = new H(s.model, t);
		s.model.m_pVerticalDynamics = new V(s.model, t);
		s.setup();
		t.g = s.grid;
		TimestepScheme * ts = s.model.m_pTimestepScheme;
		int insts = ts->GetComponentDataInstances(), tins = ts->GetTracerDataInstances();
		if (insts != tins) { ctx.viol(name + "/instances", vh::fmt("%d instances of the state but %d of the tracers", insts, tins)); return; }
		ts->Initialize();
		vector<vector<int> > seqs = {{}};
		for (size_t at = 0; at < seqs.size(); at++) if ((int)seqs[at].size() < maxlen)
			for (int d = 0; d < 3; d++) { auto x = seqs[at]; x.push_back(d); seqs.push_back(x); }
		for (auto & seq : seqs) {
			if (seq.empty()) continue;
			t.reset(); Ref r;
			string key = name; for (int d : seq) key += vh::fmt("-%d", d);
			t.set(0, 1.0, 0.0, 0.0);
			Vec u = r.zero(), carry; u[0] = 1.0;
			Time time;
			bool broken = false;
			for (size_t n = 0; n < seq.size() && !broken; n++) {
				double dt = dts[seq[n]];
				bool first = n == 0, last = n + 1 == seq.size();
				// What a scheme left in its working instances may be overwritten
				// between steps, except for the increment Strang carries over.
				for (int i = 1; i < insts; i++) if (i > 1 || first || name.substr(0, 6) != "strang") t.set(i, 99.0 + i, 77.0, 0.0);
				size_t ev0 = t.ev.size();
				int v0 = t.n[KV];
				ts->Step(first, last, time, dt);
				time += seconds(dt);
				int nv = (t.n[KV] - v0) / 3;
				if (name == "spex") {
					if (nv < 1 || nv * stiff < dt) { ctx.viol(key + "/substeps", vh::fmt("%d vertical substeps for a step of %g acoustic times", nv, dt / stiff)); broken = true; break; }
					if (nv > 32) { broken = true; break; }
				}
				size_t r0 = r.ev.size();
				u = reference(name, r, u, carry, first, dt, stiff, nv);
				Vec got = t.read(0, "new state");
				ctx.count("evaluations"); ctx.count("transitions", (long)(t.ev.size() - ev0));
				if (t.bad != "") { ctx.viol(name + "/parts", key + ": " + t.bad); broken = true; }
				if (t.discont) { ctx.viol(name + "/continuity", key + ": a stage is used before it was made continuous across elements"); broken = true; }
				// arguments, kind by kind
				for (int k = 0; k < KINDS; k++) {
					vector<const Eval *> a, b;
					for (size_t i = ev0; i < t.ev.size(); i++) if (t.ev[i].kind == k) a.push_back(&t.ev[i]);
					for (size_t i = r0; i < r.ev.size(); i++) if (r.ev[i].kind == k) b.push_back(&r.ev[i]);
					if (a.size() != b.size()) { ctx.viol(name + "/stages", vh::fmt("%s step %d: %d %s evaluations instead of %d", key.c_str(), (int)n + 1, (int)a.size(), kname[k], (int)b.size())); broken = true; continue; }
					for (size_t i = 0; i < a.size(); i++) {
						ctx.count("evaluations");
						if (!(dist(a[i]->arg, b[i]->arg) < 2e-9 * (1 + dt))) { ctx.viol(name + "/argument", vh::fmt("%s step %d: %s evaluation %d is taken at %s instead of %s", key.c_str(), (int)n + 1, kname[k], (int)i + 1, show(a[i]->arg).c_str(), show(b[i]->arg).c_str())); broken = true; }
						if (k == KG && !(std::fabs(a[i]->dt - b[i]->dt) < 2e-9 * (1 + dt))) { ctx.viol(name + "/argument", vh::fmt("%s step %d: implicit solve over %g instead of %g", key.c_str(), (int)n + 1, a[i]->dt, b[i]->dt)); broken = true; }
					}
				}
				if (!(dist(got, u) < 2e-9 * (1 + dt))) { ctx.viol(name + "/state", vh::fmt("%s step %d: new state %s instead of %s", key.c_str(), (int)n + 1, show(got).c_str(), show(u).c_str())); broken = true; }
				if (n == 0 && seq.size() == 1) {
					vector<Eval> one(t.ev.begin(), t.ev.end());
					int o = order_of(name);
					if (name.substr(0, 6) == "strang") order_conditions(ctx, name, one, got, dt, {{KH}}, o);
					else if (name.substr(0, 3) == "erk") order_conditions(ctx, name, one, got, dt, {{KH}}, o);
					else if (name == "spex") { order_conditions(ctx, name, one, got, dt, {{KH}}, 3); order_conditions(ctx, name, one, got, dt, {{KV}}, 3); }
					else order_conditions(ctx, name, one, got, dt, {{KH}, {KG, KT}}, o);
					ctx.sample(name + ": " + show(got));
				}
			}
			ctx.count("distinct_nontrivial");
			ctx.outcome(name, vh::hash(show(t.read(0, "end"))));
		}
	}, opts, res);
	if (!res.ok) ctx.viol(name + "/run", name + ": " + res.error);
}

void vh_jobs(vh::Registry & r) {
	const char * names[] = {"strang", "strang/fe", "strang/rk4", "strang/rk3", "strang/kgu35", "strang/ssprk53", "erk", "erk/fe", "erk/rk4", "erk/rk3", "erk/kgu35", "erk/ssprk53",
		"ars222", "ars232", "ark232", "gark2", "ars343", "ars343b", "ars443", "ssp3_332", "spex"};
	int len = r.thorough ? 4 : 3;
	for (const char * n : names) {
		string nm = n, id = n; for (char & c : id) if (c == '/') c = '_';
		r.add(id, [nm, len](Ctx & c) { run_scheme(c, nm, len); }, 300);
	}
}
