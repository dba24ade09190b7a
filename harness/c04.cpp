// Averaging of shared nodes: afterwards all nodes at one place hold one value.
#include "disc.h"
using namespace mini; using namespace disc;
using std::vector; using std::string;

static const double POISON = -7.25e33;
static const DataType TY[] = {DataType_State, DataType_Tracers, DataType_Vorticity, DataType_Divergence, DataType_TopographyDeriv};
static const char * TN[] = {"state", "tracers", "vorticity", "divergence", "slope"};

static bool inside(const PatchBox & b, int i, int j) { return i >= b.GetAInteriorBegin() && i < b.GetAInteriorEnd() && j >= b.GetBInteriorBegin() && j < b.GetBInteriorEnd(); }
template <class F> static void all(GridPatch & p, F f) { const PatchBox & b = p.GetPatchBox(); for (int i = 0; i < b.GetATotalWidth(); i++) for (int j = 0; j < b.GetBTotalWidth(); j++) f(i, j, inside(b, i, j)); }

// everything one rank holds, interior only, to see what must not change
static vector<double> snapshot(Grid & g, int insts, int skip, int target) {
	vector<double> v;
	for (int n = 0; n < g.GetActivePatchCount(); n++) {
		GridPatch & p = *g.GetActivePatch(n);
		auto take4 = [&](DataArray4D<double> & a) { for (size_t c = 0; c < a.GetSize(0); c++) all(p, [&](int i, int j, bool in) { if (in) for (size_t k = 0; k < a.GetSize(3); k++) v.push_back(a(c,i,j,k)); }); };
		auto take3 = [&](DataArray3D<double> & a) { all(p, [&](int i, int j, bool in) { if (in) for (size_t k = 0; k < a.GetSize(2); k++) v.push_back(a(i,j,k)); }); };
		for (int m = 0; m < insts; m++) {
			if (!(skip == 0 && m == target)) { take4(p.GetDataState(m, DataLocation_Node)); take4(p.GetDataState(m, DataLocation_REdge)); }
			if (!(skip == 1 && m == target) && g.GetModel().GetEquationSet().GetTracers()) take4(p.GetDataTracers(m));
		}
		if (skip != 2) take3(p.GetDataVorticity());
		if (skip != 3) take3(p.GetDataDivergence());
		if (skip != 4) take3(p.GetTopographyDeriv());
	}
	return v;
}

static void body(vh::Ctx & x, const Cfg & c, int ranks, const VmpiOpts & o) {
	vh::quiet();
	topo::Topo t(c); Layout l = layout(c);
	VmpiResult res; string bad; long n_eval = 0, n_shared = 0;
	auto fail = [&](const string & s) { if (bad.empty()) bad = s; };
	vh::mpi(ranks, [&](int rank) {
		AnnounceOnlyOutputOnRankZero();
		Sim & s = *new Sim(c); s.setup(); s.grid->EvaluateGeometricTerms();
		Grid & g = *s.grid;
		double R = t.sphere_grid() ? s.model.GetPhysicalConstants().GetEarthRadius() : 1.0;
		Ops ops(t, g, l, R);
		vector<char> live = live_mask(g, l);
		int insts = std::min(s.model.GetComponentDataInstances(), s.model.GetTracerDataInstances());
		for (int type = 0; type < 5; type++) {
			if (type == 1 && !l.tr) continue;
			for (int round = 0; round < (type < 2 ? 2 : 1); round++) {
				int target = type >= 2 ? 0 : round == 0 ? insts - 1 : insts / 2;
				// poisoned halos, hashed interior; other instances hold other noise
				for (int m = 0; m < insts; m++) {
					for (int n = 0; n < g.GetActivePatchCount(); n++) {
						GridPatch & p = *g.GetActivePatch(n);
						for (int loc = 0; loc < (l.tr ? 3 : 2); loc++) {
							DataArray4D<double> & a = loc == 2 ? p.GetDataTracers(m) : p.GetDataState(m, loc ? DataLocation_REdge : DataLocation_Node);
							for (size_t q = 0; q < a.GetSize(0); q++) all(p, [&](int i, int j, bool) { for (size_t k = 0; k < a.GetSize(3); k++) a(q,i,j,k) = POISON; });
						}
					}
					Fields F(l); fill(t, c, F, 7*type + 100*round + 3*m, R, true, false); put(g, l, m, F);
				}
				for (int n = 0; n < g.GetActivePatchCount(); n++) {
					GridPatch & p = *g.GetActivePatch(n); const PatchBox & b = p.GetPatchBox();
					auto put3 = [&](DataArray3D<double> & a, int lev, int base) { all(p, [&](int i, int j, bool in) { for (int k = 0; k < lev; k++) { int col = in ? t.id(b.GetPanel(), i + b.GetAGlobalBegin(), j + b.GetBGlobalBegin()) : 0; a(i,j,k) = in ? noise(col*100 + k, base) - 0.4 : POISON; } }); };
					put3(p.GetDataVorticity(), l.lev, 901); put3(p.GetDataDivergence(), l.lev, 902); put3(p.GetTopographyDeriv(), 2, 903);
				}
				vector<double> before = snapshot(g, insts, type, target);
				Fields F(l), G(l);
				fill(t, c, F, 7*type + 100*round + 3*target, R, true, false);
				ops.dss(F, live);
				for (int again = 0; again < 2; again++) {
					if (type < 2 && !again) g.PostProcessSubstage(target, TY[type]); else {
						// averaging twice changes nothing more
						if (dynamic_cast<GridCSGLL *>(&g)) dynamic_cast<GridCSGLL &>(g).ApplyDSS(target, TY[type]); else dynamic_cast<GridCartesianGLL &>(g).ApplyDSS(target, TY[type]);
					}
					if (snapshot(g, insts, type, target) != before) fail(vh::fmt("averaging the %s of instance %d changed other data", TN[type], target));
					string key = vh::fmt("%s instance %d%s: ", TN[type], target, again ? " averaged twice" : "");
					if (type < 2) {
						get(g, l, target, G);
						each_column(g, l, [&](GridPatch &, int, int, size_t col) {
							for (size_t w = 0; w < l.per(); w++) {
								bool tr = w >= (size_t)l.comp*(2*l.lev+1);
								if (tr != (type == 1) || !live[w]) continue;
								double got = G.v[col*l.per()+w], want = F.v[col*l.per()+w];
								double scale = tr ? 1.0 : w < (size_t)2*l.lev ? 30*R : w < (size_t)3*l.lev ? 1500 : 5e3;
								n_eval++; if (t.mem[t.cls[col]].size() > 1) n_shared++;
								if (!(fabs(got - want) <= 1e-11*scale)) fail(key + vh::fmt("%s holds %.15g instead of %.15g", describe(l, col*l.per()+w).c_str(), got, want));
							}
						});
					} else for (int n = 0; n < g.GetActivePatchCount(); n++) {
						GridPatch & p = *g.GetActivePatch(n); const PatchBox & b = p.GetPatchBox();
						all(p, [&](int i, int j, bool in) {
							if (!in) return;
							int col = t.id(b.GetPanel(), i + b.GetAGlobalBegin(), j + b.GetBGlobalBegin());
							const vector<int> & m = t.mem[t.cls[col]];
							int lev = type == 4 ? 2 : l.lev; double want[2]; V3 v = {0,0,0};
							if (type == 4) { for (int y : m) v = v + t.fromcov(y, noise(y*100, 903) - 0.4, noise(y*100 + 1, 903) - 0.4); v = (1.0/m.size())*v; t.tocov(col, v, want[0], want[1]); }
							for (int k = 0; k < lev; k++) {
								double w = 0; if (type == 4) w = want[k]; else { for (int y : m) w += noise(y*100 + k, 901 + type - 2) - 0.4; w /= m.size(); }
								double got = type == 2 ? p.GetDataVorticity()(i,j,k) : type == 3 ? p.GetDataDivergence()(i,j,k) : p.GetTopographyDeriv()(i,j,k);
								n_eval++; if (m.size() > 1) n_shared++;
								if (!(fabs(got - w) <= 1e-12)) fail(key + vh::fmt("node (%d,%d) of panel %d level %d holds %.15g instead of %.15g", t.gi(col), t.gj(col), t.panel(col), k, got, w));
							}
						});
					}
				}
			}
		}
	}, o, res);
	if (!res.ok) { x.viol(x.id + "|" + res.error_kind, res.error); return; }
	if (!bad.empty()) { x.viol(x.id + "|value", bad); return; }
	x.count("evaluations", n_eval); x.count("distinct_nontrivial", n_shared); x.count("messages", res.messages);
	x.sample(vh::fmt("%s: %ld values, %ld of them at shared nodes, %ld messages", x.id.c_str(), n_eval, n_shared, res.messages));
}

void vh_jobs(vh::Registry & r) {
	bool th = r.thorough;
	int nth = 0;
	auto add = [&](Cfg c, int ranks) {
		if (c.sw && c.kind != CS) c.topo = false;   // the water would end at one metre
		nth++;
		for (int s = 0; s < (th ? 6 : 1); s++) {
			int z = th ? s : nth % 6;
			string id = vh::fmt("%s|r%d|%s%s", c.name().c_str(), ranks, z & 1 ? "buf" : "rdv", z % 3 == 0 ? "F" : z % 3 == 1 ? "L" : "B");
			r.add(id, [=](vh::Ctx & x) { VmpiOpts o; o.data = z & 1 ? VMPI_BUFFERED : VMPI_RENDEZVOUS; o.order = z % 3 == 0 ? VMPI_FIRST : z % 3 == 1 ? VMPI_LAST : VMPI_BURST; o.rank_order = ranks % 2 ? VMPI_DESC : VMPI_ASC; body(x, c, ranks, o); });
		}
	};
	for (int sw = 0; sw < 2; sw++) for (int ho = 2; ho <= (th ? 6 : 5); ho++) for (int nx : th ? vector<int>{1,2,3,4,5,6} : vector<int>{1,2,3,4}) for (int p : {6, 24, 54, 96}) for (int n : th ? vector<int>{1,2,3,4,5,6,7,8,24} : vector<int>{1,2,5,6,7}) {
		int k = 1; while (6*(k+1)*(k+1) <= p) k++;
		if (nx % k) continue;
		if (!th && (sw + ho + nx + k + n) % 3) continue;
		Cfg c; c.nx = nx; c.patches = p; c.ho = ho; c.sw = sw; c.lev = sw ? 1 : 4; c.vo = sw ? 1 : 2; c.tracers = (nx + n) % 4; add(c, n);
	}
	for (const char * st : {"lor", "int", "cph", "lev"}) for (int kind : {CS, CART, CARTXZ}) for (int vo : {1, 2, 3}) for (int n : {1, 2}) {
		Cfg c; c.kind = kind; c.nx = 2; c.ny = kind == CARTXZ ? 1 : 2; c.ho = 3; c.stag = st; c.vo = vo; c.tracers = 2;
		if (string(st) == "int") { if (vo == 1) continue; c.lev = (vo-1)*3 + 1; c.expl = true; } else c.lev = 2*vo + (vo == 1 ? 2 : 0);
		add(c, n);
	}
	for (int sw = 0; sw < 2; sw++) for (int kind : {CART, CARTXZ}) for (int ho = 2; ho <= 5; ho++) for (int nx : {1, 2, 3, 4, 6}) for (int ny : {1, 2, 3}) for (int n : {1, 2, 3, 4, 6}) {
		if (nx % n || (kind == CARTXZ && ny > 1)) continue;
		for (int w = 0; w < 9; w++) {
			Cfg c; c.kind = kind; c.nx = nx; c.ny = ny; c.ho = ho; c.sw = sw; c.lev = sw ? 1 : 4; c.vo = sw ? 1 : 2; c.tracers = (ho + nx + w) % 3;
			c.bc[0] = c.bc[2] = w % 3; c.bc[1] = c.bc[3] = w / 3;
			if (!th && (sw + ho + nx + 2*ny + n + w) % 4) continue;
			add(c, n);
		}
		for (int p : {2, 3, 4, 6}) if (nx % p == 0 && p != n) { Cfg c; c.kind = kind; c.nx = nx; c.ny = ny; c.ho = ho; c.sw = sw; c.lev = sw ? 1 : 4; c.vo = sw ? 1 : 2; c.patches = p; add(c, n); }
	}
}
