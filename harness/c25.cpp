// C25: operations on whole data instances (copy, linear combination, zero, vertical interpolation) explored as sequences on
// the real grid, with a model of all instances held beside it.
#include "disc.h"
using namespace disc;
struct Op { int kind, a, b, type; std::vector<double> co; std::string name; };   // kind 0 copy a to b, 1 combine into a, 2 zero a, 3 levels to interfaces of variable b, 4 back
struct World { // every value of every instance of the active patches, halos included, in patch order
	std::vector<std::vector<double>> node, edge, tr;
	bool same(const World & o, std::string & where) const { auto cmp = [&](const char * n, const std::vector<std::vector<double>> & x, const std::vector<std::vector<double>> & y) { for (size_t i = 0; i < x.size(); i++) for (size_t k = 0; k < x[i].size(); k++) { if (std::isnan(x[i][k]) && std::isnan(y[i][k])) continue; double d = fabs(x[i][k]-y[i][k]); if (!(d <= 1e-13*(fabs(x[i][k])+fabs(y[i][k])+1))) { where = vh::fmt("%s of instance %zu, value %zu: %.17g instead of %.17g", n, i, k, x[i][k], y[i][k]); return false; } } return true; };
		return cmp("levels", node, o.node) && cmp("interfaces", edge, o.edge) && cmp("tracers", tr, o.tr); }
};
struct Rig {
	Grid & g; int S, T, comp, lev; bool hastr; struct Pt { GridPatch * p; int wa, wb, a0, a1, b0, b1; size_t n0, e0, t0; }; std::vector<Pt> pts; size_t N = 0, E = 0, Q = 0; int ntr;
	Rig(Grid & G, int ns, int nt, int c, int l, int q) : g(G), S(ns), T(nt), comp(c), lev(l), hastr(q > 0), ntr(q) {
		for (int n = 0; n < g.GetActivePatchCount(); n++) { GridPatch & p = *g.GetActivePatch(n); const PatchBox & b = p.GetPatchBox(); size_t w = (size_t)b.GetATotalWidth()*b.GetBTotalWidth();
			pts.push_back(Pt{&p, b.GetATotalWidth(), b.GetBTotalWidth(), b.GetAInteriorBegin(), b.GetAInteriorEnd(), b.GetBInteriorBegin(), b.GetBInteriorEnd(), N, E, Q}); N += w*comp*lev; E += w*comp*(lev+1); Q += w*ntr*lev; } }
	template <class F> void each(F f) { for (auto & t : pts) { for (int i = 0; i < S; i++) { f(0, i, t, t.p->GetDataState(i, DataLocation_Node), comp, lev, t.n0); f(1, i, t, t.p->GetDataState(i, DataLocation_REdge), comp, lev+1, t.e0); } for (int i = 0; hastr && i < T; i++) f(2, i, t, t.p->GetDataTracers(i), ntr, lev, t.t0); } }
	static std::vector<double> & part(World & w, int kind, int i) { return kind == 0 ? w.node[i] : kind == 1 ? w.edge[i] : w.tr[i]; }
	void shape(World & w) { w.node.assign(S, std::vector<double>(N)); w.edge.assign(S, std::vector<double>(E)); w.tr.assign(hastr ? T : 0, std::vector<double>(Q)); }
	void read(World & w) { each([&](int kind, int i, Pt & t, DataArray4D<double> & d, int nc, int nk, size_t at) { double * o = &part(w, kind, i)[at]; for (int c = 0; c < nc; c++) for (int x = 0; x < t.wa; x++) for (int y = 0; y < t.wb; y++) for (int k = 0; k < nk; k++) *o++ = d(c,x,y,k); }); }
	void write(World & w) { each([&](int kind, int i, Pt & t, DataArray4D<double> & d, int nc, int nk, size_t at) { double * o = &part(w, kind, i)[at]; for (int c = 0; c < nc; c++) for (int x = 0; x < t.wa; x++) for (int y = 0; y < t.wb; y++) for (int k = 0; k < nk; k++) d(c,x,y,k) = *o++; }); }
	void model(World & w, const Op & o) {
		auto per = [&](const std::function<void(std::vector<std::vector<double>> &)> & f) { if (o.type == 0) { f(w.node); f(w.edge); } else if (hastr) f(w.tr); };
		if (o.kind == 0) per([&](std::vector<std::vector<double>> & v) { v[o.b] = v[o.a]; });
		if (o.kind == 2) per([&](std::vector<std::vector<double>> & v) { std::fill(v[o.a].begin(), v[o.a].end(), 0.0); });
		if (o.kind == 1) per([&](std::vector<std::vector<double>> & v) { std::vector<double> r(v[o.a].size(), 0.0); for (size_t m = 0; m < o.co.size(); m++) if (o.co[m] != 0) for (size_t k = 0; k < r.size(); k++) r[k] += o.co[m]*v[m][k]; v[o.a] = r; });
		if (o.kind >= 3) { GridGLL & gg = dynamic_cast<GridGLL &>(g); const LinearColumnOperator & L = o.kind == 3 ? (const LinearColumnOperator &)gg.GetOpInterpNodeToREdge() : (const LinearColumnOperator &)gg.GetOpInterpREdgeToNode(); const DataArray2D<double> & C = L.GetCoeffs();
			for (auto & t : pts) for (int x = t.a0; x < t.a1; x++) for (int y = t.b0; y < t.b1; y++) { size_t col = ((size_t)o.b*t.wa + x)*t.wb + y; double * n = &w.node[o.a][t.n0 + col*lev], * e = &w.edge[o.a][t.e0 + col*(lev+1)]; double * from = o.kind == 3 ? n : e, * to = o.kind == 3 ? e : n; int ni = o.kind == 3 ? lev : lev+1, no = o.kind == 3 ? lev+1 : lev; for (int k = 0; k < no; k++) { double s = 0; for (int m = 0; m < ni; m++) s += C[k][m]*from[m]; to[k] = s; } } }
	}
	void real(const Op & o) { DataType ty = o.type ? DataType_Tracers : DataType_State;
		if (o.kind == 0) g.CopyData(o.a, o.b, ty); else if (o.kind == 2) g.ZeroData(o.a, ty); else if (o.kind == 1) { DataArray1D<double> c(o.co.size()); for (size_t i = 0; i < o.co.size(); i++) c[i] = o.co[i]; g.LinearCombineData(c, o.a, ty); }
		else if (o.kind == 3) g.InterpolateNodeToREdge(o.b, o.a); else g.InterpolateREdgeToNode(o.b, o.a); }
};
struct Three : TimestepScheme { int s, t; Three(Model & m, int a, int b) : TimestepScheme(m), s(a), t(b) {} int GetComponentDataInstances() const { return s; } int GetTracerDataInstances() const { return t; } void Step(bool, bool, const Time &, double) {} };

static void go(vh::Ctx & ctx, Cfg c, int ranks, int S, int T, int depth, bool rich) {
	VmpiResult mr; Layout l = mini::layout(c);
	vh::mpi(ranks, [&](int rank) {
		AnnounceOnlyOutputOnRankZero(); mini::Sim & s = *new mini::Sim(c, false); Model & m = s.model; m.SetTimestepScheme(new Three(m, S, T)); m.SetHorizontalDynamics(new HorizontalDynamicsStub(m)); m.SetVerticalDynamics(new VerticalDynamicsStub(m)); m.SetDeltaT(mini::seconds(1)); s.make_grid(); s.make_test(); Grid & g = *s.grid;
		Rig r(g, S, T, l.comp, l.lev, l.tr); World base; r.shape(base);
		for (int kind = 0; kind < 3; kind++) for (int i = 0; i < (kind == 2 ? (r.hastr ? T : 0) : S); i++) { auto & v = Rig::part(base, kind, i); for (size_t k = 0; k < v.size(); k++) v[k] = noise(k*3 + kind, 5 + i + 100*rank) - 0.5; }
		std::vector<Op> ops;
		for (int ty = 0; ty < 2; ty++) { int n = ty ? T : S; for (int a = 0; a < n; a++) { ops.push_back(Op{2, a, 0, ty, {}, vh::fmt("zero %d", a)}); for (int b = 0; b < n; b++) ops.push_back(Op{0, a, b, ty, {}, vh::fmt("copy %d to %d", a, b)}); }
			static const double V[] = {0, 1, -0.5, 2}; for (int len = 1; len <= n; len++) { int tot = 1; for (int i = 0; i < len; i++) tot *= 4; for (int x = 0; x < tot; x++) { if (!rich && (x*7+len) % 5) continue; std::vector<double> co; int y = x; std::string cs; for (int i = 0; i < len; i++) { co.push_back(V[y%4]); y /= 4; cs += vh::fmt(" %g", co.back()); } for (int d = 0; d < len; d++) ops.push_back(Op{1, d, 0, ty, co, "combine" + cs + vh::fmt(" into %d", d)}); } } }
		if (!c.sw && std::string(c.stag) != "int") for (int a = 0; a < S; a++) for (int q = 0; q < l.comp; q++) { ops.push_back(Op{3, a, q, 0, {}, vh::fmt("levels to interfaces of %d in %d", q, a)}); ops.push_back(Op{4, a, q, 0, {}, vh::fmt("interfaces to levels of %d in %d", q, a)}); }
		for (auto & o : ops) o.name += o.kind < 3 ? (o.type ? " (tracers)" : " (state)") : "";
		World w[4], got; r.shape(got); long n = 0; std::string where;
		std::function<void(int, std::string)> rec = [&](int d, std::string path) { for (auto & o : ops) { w[d+1] = w[d]; r.write(w[d]); r.model(w[d+1], o); r.real(o); r.read(got); n++; std::string kd = o.kind == 0 ? "copy" : o.kind == 1 ? "combine" : o.kind == 2 ? "zero" : "interpolate";
				if (!got.same(w[d+1], where)) { ctx.viol(c.name() + vh::fmt("/%d %s", ranks, kd.c_str()), path + o.name + ": " + where); continue; }
				if (d + 1 < depth) rec(d+1, path + o.name + ", "); } };
		w[0] = base; rec(0, "");
		// an instance that does not enter an operation may hold anything (memory never written yet): it must not show in the result
		for (auto & o : ops) { int nn = o.type ? T : S; if (o.type && !r.hastr) continue; for (int bad = 0; bad < nn; bad++) { w[0] = base; auto poison = [&](std::vector<double> & v) { std::fill(v.begin(), v.end(), NAN); };
			if (o.type) poison(w[0].tr[bad]); else if (o.kind < 3 || bad != o.a) { poison(w[0].node[bad]); poison(w[0].edge[bad]); } else continue;
			w[1] = w[0]; r.write(w[0]); r.model(w[1], o); r.real(o); r.read(got); n++; if (!got.same(w[1], where)) ctx.viol(c.name() + vh::fmt("/%d unset %s", ranks, o.kind == 0 ? "copy" : o.kind == 1 ? "combine" : o.kind == 2 ? "zero" : "interpolate"), vh::fmt("instance %d not set: ", bad) + o.name + ": " + where); } }
		r.write(base);
		if (ranks == 1) { auto refused = [&](const char * what, const std::function<void()> & f) { bool t = false; n++; try { f(); } catch (Exception &) { t = true; } if (!t) ctx.viol(c.name() + " request", std::string(what) + " was done"); };
			for (int ty = 0; ty < 2; ty++) { DataType dt = ty ? DataType_Tracers : DataType_State; int n = ty ? T : S; refused("copy from -1", [&]() { g.CopyData(-1, 0, dt); }); refused("copy from beyond", [&]() { g.CopyData(n, 0, dt); }); refused("copy to -1", [&]() { g.CopyData(0, -1, dt); }); refused("copy to beyond", [&]() { g.CopyData(0, n, dt); }); refused("zero -1", [&]() { g.ZeroData(-1, dt); }); refused("zero beyond", [&]() { g.ZeroData(n, dt); });
				DataArray1D<double> a(n+1), b(1); refused("combination with too many coefficients", [&]() { g.LinearCombineData(a, 0, dt); }); refused("combination into an instance without coefficient", [&]() { g.LinearCombineData(b, 1, dt); }); refused("combination into -1", [&]() { g.LinearCombineData(b, -1, dt); }); }
			refused("copy of vorticity", [&]() { g.CopyData(0, 1, DataType_Vorticity); }); refused("zero of vorticity", [&]() { g.ZeroData(0, DataType_Vorticity); }); DataArray1D<double> b(1); refused("combination of vorticity", [&]() { g.LinearCombineData(b, 0, DataType_Vorticity); });
			r.read(got); }
		ctx.count("evaluations", n); ctx.count("distinct_nontrivial", n); MPI_Barrier(MPI_COMM_WORLD);
	}, VmpiOpts(), mr);
	if (!mr.ok) ctx.viol(c.name() + " run", mr.error);
}
void vh_jobs(vh::Registry & r) {
	bool T = r.thorough;
	auto add = [&](Cfg c, int ranks, int S, int Tr, int depth, bool rich) { r.add("ops-" + c.name() + vh::fmt("-%d-%d.%d-d%d%s", ranks, S, Tr, depth, rich ? "r" : ""), [=](vh::Ctx & x) { go(x, c, ranks, S, Tr, depth, rich); }, 600); };
	for (int sw = 0; sw < 2; sw++) for (int kind : {mini::CS, mini::CART, mini::CARTXZ}) for (int tr = 0; tr < 3; tr++) for (const char * sg : {"lor", "int", "cph", "lev"}) for (int ranks : {1, 2}) {
		if (sw && (kind == mini::CARTXZ || std::string(sg) != "lor")) continue;
		Cfg k; k.kind = kind; k.sw = sw; k.nx = kind == mini::CS ? 1 : 2; k.ny = 1; k.ho = 2; k.tracers = tr; k.lev = sw ? 1 : 3; k.vo = sw ? 1 : 3; if (!sw) { k.vo = 1; if (std::string(sg) == "int") { k.stag = "int"; k.vo = 2; k.expl = true; } else k.stag = sg; } if (sw) k.vm = "none"; k.topo = !sw; k.scheme = "ark232";
		add(k, ranks, 3, 3, 1, true); add(k, ranks, 2, 3, 1, true); add(k, ranks, 5, 4, 1, false);
		if (kind == mini::CARTXZ || (kind == mini::CART && sw)) { add(k, ranks, 3, 3, 2, T); if (T) add(k, ranks, 2, 2, 3, false); } }
}
