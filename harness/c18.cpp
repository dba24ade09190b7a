// C18: time schemes. The state of every node is a truncated series over rooted trees coloured by the operator
// (F horizontal, V vertical explicit, G vertical implicit, D after the step); the dynamics are replaced by the exact action of
// an arbitrary smooth function on such series, so one run of the real scheme yields all of its order conditions at once.
#include "disc.h"
#include "VerticalDynamicsFEM.h"
using namespace disc;

struct Tree { int colour, order; std::vector<int> kids; double gamma; };
static std::vector<Tree> trees;      // trees[0] is the empty one
static void build(int maxorder, int maxd) {
	trees.clear(); trees.push_back({-1, 0, {}, 1});
	for (int ord = 1; ord <= maxorder; ord++) {
		size_t upto = trees.size();
		// multisets of trees with total order ord-1
		std::vector<std::vector<int>> sets; std::vector<int> cur;
		std::function<void(int,int)> rec = [&](int from, int left) { if (left == 0) { sets.push_back(cur); return; } for (size_t t = from; t < upto; t++) if (trees[t].order <= left) { cur.push_back(t); rec(t, left - trees[t].order); cur.pop_back(); } };
		rec(1, ord-1);
		for (int c = 0; c < 4; c++) for (auto & s : sets) {
			// the explicit vertical part is kept apart from the horizontal one, and the after-step part, for low orders only
			std::set<int> cols; std::function<void(int)> add = [&](int t) { cols.insert(trees[t].colour); for (int k : trees[t].kids) add(k); };
			for (int k : s) add(k);
			cols.insert(c);
			if ((cols.count(1) || cols.count(3)) && ord > maxd) continue;
			double g = ord; for (int k : s) g *= trees[k].gamma;
			trees.push_back({c, ord, s, g});
		}
	}
}
static std::string show(int t) { std::string s; for (int k : trees[t].kids) s += show(k); return std::string(1, "FVGD"[trees[t].colour]) + (s.empty() ? "" : "(" + s + ")"); }

struct Job { Cfg c; std::vector<double> runs; std::string name() const { std::string s = c.name(); s += vh::fmt("-dt%g", c.dt); for (double r : runs) s += vh::fmt("-%g", r); return s; } };

struct World {
	Job j; Layout l; topo::Topo t; GridGLL * g; std::vector<char> live; bool fresh = true; vh::Ctx * ctx; int bad = 0;
	long calls[4] = {0, 0, 0, 0};
	World(const Job & J, vh::Ctx * x) : j(J), l(mini::layout(J.c)), t(J.c), g(NULL), ctx(x) {}
	double lambda(size_t col, int kind) const { return 0.5 + noise(t.cls[col], 900 + kind); }
	template <class F> void each(int a, int b, F fn) {     // fn(kind, lambda, argument, update) on every series
		mini::each_column(*g, l, [&](GridPatch & p, int i, int jj, size_t col) {
			for (int c = 0; c < l.comp; c++) for (int pass = 0; pass < 2; pass++) {
				if (!live[pass == 0 ? (size_t)c*l.lev : (size_t)l.comp*l.lev + (size_t)c*(l.lev+1)]) continue;
				DataLocation loc = pass ? DataLocation_REdge : DataLocation_Node;
				fn(col, c, l.lev + pass, &p.GetDataState(a, loc)(c,i,jj,0), &p.GetDataState(b, loc)(c,i,jj,0));
			}
			for (int q = 0; q < l.tr; q++) fn(col, 5 + q, l.lev, &p.GetDataTracers(a)(q,i,jj,0), &p.GetDataTracers(b)(q,i,jj,0));
		});
	}
	void act(int colour, int a, int b, double dt) {
		calls[colour]++;
		each(a, b, [&](size_t col, int kind, int, double * x, double * u) {
			double L = lambda(col, kind);
			for (size_t s = 1; s < trees.size(); s++) if (trees[s].colour == colour) { double m = x[0]*L*dt; for (int k : trees[s].kids) m *= x[k]; u[s] += m; }
		});
	}
	void solve(int a, int b, double dt) {
		calls[2]++;
		each(a, b, [&](size_t col, int kind, int rows, double * x, double * u) {
			double L = lambda(col, kind); std::vector<double> old(x, x + rows);
			for (int s = 0; s < rows; s++) {
				u[s] = old[s];
				if (s < (int)trees.size() && s > 0 && trees[s].colour == 2) { double m = u[0]*L*dt; for (int k : trees[s].kids) m *= u[k]; u[s] += m; }
			}
		});
	}
	void trash(int inst, int salt) { each(inst, inst, [&](size_t col, int kind, int rows, double * x, double *) { for (int s = 0; s < rows; s++) x[s] = 3 + 5*noise(t.cls[col]*1000 + s, kind + 50*salt + 7*inst); }); }
	void after(int a, int b, int w, double dt) {
		if (a == w || b == w) { ctx->viol(j.name() + " after the step", "working data is in use"); return; }
		trash(w, 3);
		g->CopyData(a, b, DataType_State); g->CopyData(a, b, DataType_Tracers);
		act(3, a, b, dt);
	}
	int instances = 0;
	void start() {
		for (int i = fresh ? 0 : 1; i < instances; i++) {
			trash(i, fresh ? 1 : 2);
			if (i == 0) each(0, 0, [&](size_t, int, int rows, double * x, double *) { x[0] = 1; for (int s = 1; s < (int)trees.size(); s++) x[s] = 0; for (int s = trees.size(); s < rows; s++) x[s] = 1; });
		}
	}
};
struct FakeH : HorizontalDynamics {
	World & w; FakeH(Model & m, World & W) : HorizontalDynamics(m), w(W) {}
	void Initialize() { w.g = &dynamic_cast<GridGLL &>(*m_model.GetGrid()); w.live = mini::live_mask(*w.g, w.l); w.start(); }
	void StepExplicit(int a, int b, const Time &, double dt) { w.act(0, a, b, dt); }
	void StepAfterSubCycle(int a, int b, int k, const Time &, double dt) { w.after(a, b, k, dt); }
	// the forms that take a linear combination, for dynamics that do everything themselves
	void combine(const DataArray1D<int> & inst, const DataArray1D<double> & cf, int b) {
		std::vector<std::vector<double>> sum; size_t n = 0;
		for (size_t q = 0; q < inst.GetRows(); q++) { n = 0; w.each(inst[q], inst[q], [&](size_t, int, int rows, double * x, double *) { if (sum.size() <= n) sum.push_back(std::vector<double>(rows, 0.0)); for (int s = 0; s < rows; s++) sum[n][s] += cf[q]*x[s]; n++; }); }
		n = 0; w.each(b, b, [&](size_t, int, int rows, double * x, double *) { for (int s = 0; s < rows; s++) x[s] = sum[n][s]; n++; });
	}
	void StepExplicitCombine(const DataArray1D<int> & inst, const DataArray1D<double> & cf, int a, int b, const Time &, double dt) { combine(inst, cf, b); w.act(0, a, b, dt); w.act(1, a, b, dt); }
	void StepImplicitCombine(const DataArray1D<int> & inst, const DataArray1D<double> & cf, int, int b, const Time &, double dt) { combine(inst, cf, b); w.solve(b, b, dt); }
	void StepAfterSubCycleCombine(int b, int k, const Time &, double dt) { if (b == k) { ctx(); return; } w.trash(k, 3); w.act(3, b, b, dt); }
	void ctx() { w.ctx->viol(w.j.name() + " after the step", "working data is in use"); }
};
struct FakeV : VerticalDynamicsFEM {
	World & w; FakeV(Model & m, World & W) : VerticalDynamicsFEM(m, 4, 1, 0, true, false, false), w(W) {}
	void Initialize() {}
	void StepExplicit(int a, int b, const Time &, double dt) { w.act(1, a, b, dt); }
	void StepImplicitTermsExplicitly(int a, int b, const Time &, double dt) { w.act(2, a, b, dt); }
	void StepImplicit(int a, int b, const Time &, double dt) { w.solve(a, b, dt); }
	void FilterNegativeTracers(int) {}
};

struct Claim { int f, g, mixed; bool vertical, spex; };
static const std::map<std::string, Claim> claims = {
	{"strang", {3, 2, 2, true, false}}, {"strang/fe", {1, 2, 1, true, false}}, {"strang/rk4", {4, 2, 2, true, false}}, {"strang/rk3", {3, 2, 2, true, false}}, {"strang/kgu35", {3, 2, 2, true, false}}, {"strang/ssprk53", {3, 2, 2, true, false}},
	{"erk", {3, 0, 0, false, false}}, {"erk/fe", {1, 0, 0, false, false}}, {"erk/rk4", {4, 0, 0, false, false}}, {"erk/rk3", {3, 0, 0, false, false}}, {"erk/kgu35", {3, 0, 0, false, false}}, {"erk/ssprk53", {3, 0, 0, false, false}},
	{"ars222", {2, 2, 2, true, false}}, {"ars232", {2, 2, 2, true, false}}, {"ark232", {2, 2, 2, true, false}}, {"gark2", {2, 2, 2, true, false}}, {"ars343", {3, 3, 3, true, false}}, {"ars343b", {3, 3, 3, true, false}}, {"ars443", {3, 3, 3, true, false}}, {"ssp3_332", {3, 2, 2, true, false}}, {"spex", {3, 3, 1, true, true}}};

static void body(vh::Ctx & ctx, Job j) {
	World w(j, &ctx); VmpiResult mr;
	vh::mpi(1, [&](int) {
		AnnounceOnlyOutputOnRankZero();
		mini::Sim & s = *new mini::Sim(j.c);
		s.setup();
		s.model.m_pHorizontalDynamics = new FakeH(s.model, w); s.model.m_pVerticalDynamics = new FakeV(s.model, w);
		w.instances = s.model.GetComponentDataInstances();
		double T = 0;
		for (double r : j.runs) {
			T += r; Time e = s.model.GetStartTime(); e += mini::seconds(r); s.model.SetEndTime(e);
			s.model.Go(); w.fresh = false;
		}
		long n = 0, m = 0; std::map<int, int> told;
		const Claim & k = claims.at(j.c.scheme); bool strang = j.c.scheme.substr(0, 6) == "strang";
		// which conditions the scheme has to satisfy, and how far a tree may be off
		std::vector<double> allow(trees.size(), -1);
		for (size_t t = 0; t < trees.size(); t++) {
			std::set<int> cols; std::function<void(int)> add = [&](int q) { if (q) cols.insert(trees[q].colour); for (int x : trees[q].kids) add(x); }; add(t);
			int ord = trees[t].order, max;
			if (!k.vertical && (cols.count(1) || cols.count(2))) continue;
			bool f = cols.count(0), v = cols.count(1), g = cols.count(2), d = cols.count(3);
			if (d) max = 1;
			else if (k.g == 0 || (!g && !(k.spex && v))) max = k.f;      // explicit parts only
			else if (!f && !(v && !k.spex)) max = k.g;                  // implicit parts only
			else max = k.mixed;
			if (k.spex && g) continue;                                    // everything is explicit
			if (ord > max) continue;
			allow[t] = 0;
			// the first and the last half step of a run are backward Euler steps: an error that does not grow with the number of steps
			if (strang && ord == 2 && !f && !v) { allow[t] = 0; for (double r : j.runs) allow[t] += 0.25*std::min(r, j.c.dt)*j.c.dt; }
		}
		w.each(0, 0, [&](size_t col, int kind, int rows, double * x, double *) {
			double L = w.lambda(col, kind);
			for (int t = 0; t < rows; t++) {
				bool in = t < (int)trees.size();
				if (in && allow[t] < 0) continue;
				double e = t == 0 || !in ? 1.0 : pow(L*T, trees[t].order)/trees[t].gamma, tol = 1e-11*std::max(1.0, pow(std::max(1.0, L*T), in ? trees[t].order : 0)) + (in && allow[t] > 0 ? allow[t]*L*L*(1 + 1e-9) : 0);
				n++; m += in && t > 0;
				if (!(fabs(x[t]-e) <= tol) && told[t]++ == 0) ctx.viol(j.name() + " " + (!in || t == 0 ? "constant" : show(t)), vh::fmt("the coefficient of the elementary differential is %.15g instead of %.15g after %g s, %s %d of column %d", x[t], e, T, kind < 5 ? "component" : "tracer", kind < 5 ? kind : kind-5, (int)col));
			}
		});
		for (int c = 0; c < 4; c++) if (c == 0 || c == 3 || (k.vertical && (k.spex ? c == 1 : true))) if (!w.calls[c] && !(k.spex && c == 2)) ctx.viol(j.name() + " operator", vh::fmt("%c never called", "FVGD"[c]));
		ctx.count("evaluations", n); ctx.count("distinct_nontrivial", m); ctx.count("operator_calls", w.calls[0] + w.calls[1] + w.calls[2] + w.calls[3]);
	}, VmpiOpts(), mr);
	if (!mr.ok) ctx.viol(j.name() + " run", mr.error);
}

void vh_jobs(vh::Registry & r) {
	build(4, 2);
	bool th = r.thorough;
	std::vector<std::vector<double>> runs;
	for (int n = 1; n <= (th ? 24 : 8); n++) { runs.push_back({(double)n}); runs.push_back({n - 0.75}); runs.push_back({n - 0.5}); }
	// all ways of splitting a few steps into runs, with and without a shortened last step
	int S = th ? 7 : 4;
	for (int mask = 1; mask < (1 << (S-1)); mask++) for (int cut = 0; cut < 3; cut++) {
		std::vector<double> x; double cur = 1; for (int i = 0; i < S-1; i++) { if (mask >> i & 1) { x.push_back(cur - (cut ? 0.5 : 0)); cur = 1; } else cur++; }
		x.push_back(cur - (cut == 2 ? 0.25 : 0)); runs.push_back(x);
	}
	for (auto & c : claims) for (double dt : {1.0, 0.25, 3.0}) for (auto & R : runs) for (int np = 0; np < 2; np++) {
		Job j; j.c.kind = np ? mini::CARTXZ : mini::CART; j.c.nx = np ? 2 : 1; j.c.ny = 1; j.c.ho = np ? 3 : 2; j.c.topo = false; j.c.lev = (int)trees.size() + 1; j.c.scheme = c.first; j.c.dt = dt; j.c.tracers = np ? 1 : 2; if (c.first == "spex") j.c.expl = true;
		if ((np || dt != 1) && R.size() > 1 && !th) continue;
		j.runs = R; for (double & x : j.runs) x *= dt;
		r.add(j.name(), [j](vh::Ctx & x) { body(x, j); });
	}
}
