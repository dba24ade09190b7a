// C26: reported totals. Checksums and norms of every component and tracer, total energy, potential enstrophy and error
// norms, against area sums formed here; then every single value of small grids set alone.
#include "disc.h"
#include "OutputManagerChecksum.h"
using namespace disc;
typedef long double R;
static const double JUNK = 7.7e33;

struct Vary : mini::Test { // varies in time, tilts the axis of rotation
	Vary(const Cfg & k) : mini::Test(k) {}
	void EvaluatePhysicalConstants(PhysicalConstants & p) const { p.SetG(8.5); p.SetOmega(2.0e-4); p.SetAlpha(0.4); p.SetCp(1010.0); p.SetR(280.0); p.SetP0(95000.0); if (c.earth != 0) p.SetEarthRadius(c.earth); }
	void EvaluatePointwiseState(const PhysicalConstants & p, const Time & t, double z, double a, double b, double * s, double * q) const { mini::Test::EvaluatePointwiseState(p, t, z, a, b, s, q); double h = 1e-3*t.GetSecond(); s[0] += h*7; s[2] += h*f(9, a, b); }
};
struct Job { Cfg c; int ranks; };

static void junk(Grid & g, const Layout & l, int inst) { // halos and places where a variable does not live
	for (int n = 0; n < g.GetActivePatchCount(); n++) { GridPatch & p = *g.GetActivePatch(n); const PatchBox & b = p.GetPatchBox();
		for (int pass = 0; pass < 3; pass++) { if (pass == 2 && !l.tr) continue; DataArray4D<double> & d = pass == 0 ? p.GetDataState(inst, DataLocation_Node) : pass == 1 ? p.GetDataState(inst, DataLocation_REdge) : p.GetDataTracers(inst);
			for (int q = 0; q < (pass == 2 ? l.tr : l.comp); q++) { bool dead = pass == 0 ? g.GetVarLocation(q) != DataLocation_Node : pass == 1 ? g.GetVarLocation(q) != DataLocation_REdge : false;
				for (int i = 0; i < b.GetATotalWidth(); i++) for (int j = 0; j < b.GetBTotalWidth(); j++) { bool in = i >= b.GetAInteriorBegin() && i < b.GetAInteriorEnd() && j >= b.GetBInteriorBegin() && j < b.GetBInteriorEnd();
					if (!in || dead) for (int k = 0; k < l.lev + (pass == 1); k++) d(q,i,j,k) = JUNK; } } } }
}
static const ChecksumType TY[] = {ChecksumType_Sum, ChecksumType_L1, ChecksumType_L2, ChecksumType_Linf};
static const char * TN[] = {"sum", "L1", "L2", "Linf"};

static void totals(vh::Ctx & ctx, const Job & jb, bool single) {
	Cfg c = jb.c; Layout l = mini::layout(c); topo::Topo t(c); VmpiResult mr; std::string nm = c.name() + vh::fmt("/%d", jb.ranks);
	const int NI = 2; const int inst[NI] = {0, 2}; std::vector<R> area(l.cols()*c.lev, 0), areaE(l.cols()*(c.lev+1), 0);
	Fields F[NI] = {Fields(l), Fields(l)}, now(l), tc(l); Fields * I[NI]; I[0] = &F[0]; I[1] = &F[1];
	double want[NI][2][4][8]; R energy[NI], escale[NI], enst[NI], nscale[NI]; double got[NI][2]; std::vector<char> live; std::string names[8], qn[8]; double G = 0; DataArray1D<double> rs[NI][4], rq[NI][4];
	std::string text = vh::capture([&]() { vh::mpi(jb.ranks, [&](int rank) {
		AnnounceOnlyOutputOnRankZero(); mini::Sim & s = *new mini::Sim(c, false); Model & m = s.model; m.SetStartTime(Time(2001, 3, 4, 1000, 0, Time::CalendarNoLeap)); m.SetTimestepScheme(new TimestepSchemeARS343(m)); m.SetHorizontalDynamics(new HorizontalDynamicsStub(m)); m.SetVerticalDynamics(new VerticalDynamicsStub(m)); m.SetDeltaT(mini::seconds(1)); s.make_grid(); Grid & g = *s.grid;
		Vary & v = *new Vary(c); m.SetTestCase(&v); const PhysicalConstants & ph = m.GetPhysicalConstants();
		g.EvaluateGeometricTerms(); m.m_time = m.m_timeStart; m.m_time += mini::seconds(500);
		mini::each_column(g, l, [&](GridPatch & p, int i, int j, size_t col) { for (int k = 0; k < c.lev; k++) area[col*c.lev+k] = p.GetElementAreaNode()(i,j,k); for (int k = 0; k <= c.lev; k++) areaE[col*(c.lev+1)+k] = p.GetElementAreaREdge()(i,j,k); });
		MPI_Barrier(MPI_COMM_WORLD); if (rank == 0) live = mini::live_mask(g, l);
		if (c.topo) {} G = ph.GetG();
		Ops o(t, g, l, ph.GetEarthRadius());
		double Om = ph.GetOmega(), al = 0.4;
		for (int u = 0; u < NI; u++) { if (rank == 0) fill(t, c, F[u], 17 + 50*u, o.R, true, true); MPI_Barrier(MPI_COMM_WORLD); put(g, l, inst[u], F[u]);
			if (!c.sw && std::string(c.stag) != "int") { for (int q = 0; q < 5; q++) if (g.GetVarLocation(q) == DataLocation_REdge) g.InterpolateREdgeToNode(q, inst[u]); else g.InterpolateNodeToREdge(q, inst[u]); }
			get(g, l, inst[u], F[u]); MPI_Barrier(MPI_COMM_WORLD); }
		// energy and enstrophy with consistent copies
		for (int u = 0; u < NI; u++) { got[u][0] = 0; double a = g.ComputeTotalEnergy(inst[u]); double b = c.sw ? g.ComputeTotalPotentialEnstrophy(inst[u]) : 0; if (rank == 0) { got[u][0] = a; got[u][1] = b; } }
		if (jb.ranks == 1) { // per column on one process: metric and ground of all columns are at hand
			std::vector<double> zl(l.cols()*c.lev); mini::each_column(g, l, [&](GridPatch & p, int i, int j, size_t col) { for (int k = 0; k < c.lev; k++) zl[col*c.lev+k] = p.GetZLevels()(i,j,k); });
			for (int u = 0; u < NI; u++) { R e = 0, es = 0, z = 0, zs = 0; Fields & X = F[u];
				std::vector<R> zeta(l.cols()*c.lev), pv(l.cols()*c.lev);
				if (c.sw) { for (size_t col = 0; col < l.cols(); col++) for (int k = 0; k < c.lev; k++) pv[col*c.lev+k] = (o.d(col, 0, [&](size_t q) { return X.n(q,1,k); }) - o.d(col, 1, [&](size_t q) { return X.n(q,0,k); }))/o.J2[col];
					for (auto & mem : t.mem) for (int k = 0; k < c.lev; k++) { R mean = 0; for (int q : mem) mean += pv[q*c.lev+k]; mean /= mem.size(); for (int q : mem) zeta[q*c.lev+k] = mean; } }
				for (size_t col = 0; col < l.cols(); col++) { for (int k = 0; k < c.lev; k++) { R A = area[col*c.lev+k], U = X.n(col,0,k), V = X.n(col,1,k);
					if (c.sw) { R H = X.n(col,2,k), h = H - o.zs[col], uu = o.H[col][0]*U*U + 2*o.H[col][1]*U*V + o.H[col][2]*V*V, w = A*(0.5L*h*uu + 0.5L*ph.GetG()*(H*H - (R)o.zs[col]*o.zs[col])); e += w; es += fabsl(w);
						double cor; if (t.sphere_grid()) cor = 2*Om*(t.pos[col][2]*cos(al) - t.pos[col][0]*sin(al)); else cor = o.f[col];
						R a = zeta[col*c.lev+k] + cor; w = A*0.5L*a*a/h; z += w; zs += w; }
					else { double mm[6]; o.inv3(col, 0, k, mm); R W = X.n(col,3,k), rho = X.n(col,4,k), th = X.n(col,2,k), uu = mm[0]*U*U + 2*mm[1]*U*V + mm[3]*V*V + 2*(mm[2]*U + mm[4]*V)*W + (o.edgeW ? 0 : mm[5]*W*W);
						R p = ph.GetP0()*powl(ph.GetR()*th/ph.GetP0(), (R)ph.GetCp()/(ph.GetCp()-ph.GetR())), ke = A*0.5L*rho*uu, ie = A*p/((R)ph.GetCp()/(ph.GetCp()-ph.GetR()) - 1), pe = A*ph.GetG()*rho*zl[col*c.lev+k]; e += ke + ie + pe; es += fabsl(ke) + ie + fabsl(pe); } }
					if (!c.sw && o.edgeW) for (int k = 0; k <= c.lev; k++) { double mm[6]; o.inv3(col, 1, k, mm); R W = X.e(col,3,k), w = areaE[col*(c.lev+1)+k]*0.5L*X.e(col,4,k)*mm[5]*W*W; e += w; es += fabsl(w); } }
				energy[u] = e; escale[u] = es; enst[u] = z; nscale[u] = zs; }
		}
		// checksums, with junk where no variable lives
		for (int u = 0; u < NI; u++) junk(g, l, inst[u]);
		for (int u = 0; u < NI; u++) for (int y = 0; y < 4; y++) { DataArray1D<double> a, b; if (y & 1) { a.Allocate(2); a[0] = 5; b.Allocate(9); b[3] = 4; } g.Checksum(DataType_State, a, inst[u], TY[y]); g.Checksum(DataType_Tracers, b, inst[u], TY[y]); if (rank == 0) { rs[u][y] = a; if (l.tr) rq[u][y] = b; } }
		if (jb.ranks == 1) { auto refused = [&](const char * w, const std::function<void()> & f) { bool r = false; ctx.count("evaluations"); try { f(); } catch (Exception &) { r = true; } if (!r) ctx.viol(nm + " request", std::string(w) + " was answered"); };
			refused("energy of instance -1", [&]() { g.ComputeTotalEnergy(-1); }); refused("energy of instance 999", [&]() { g.ComputeTotalEnergy(999); }); DataArray1D<double> a; refused("checksum of vorticity", [&]() { g.Checksum(DataType_Vorticity, a, 0, ChecksumType_Sum); }); if (c.sw) refused("vertical momentum in two dimensions", [&]() { g.ComputeTotalVerticalMomentum(0); }); }
		// the checksum output and the error norms
		for (int q = 0; q < l.comp; q++) names[q] = m.GetEquationSet().GetComponentShortName(q); for (int q = 0; q < l.tr; q++) qn[q] = m.GetEquationSet().GetTracerShortName(q);
		if (rank == 0) { printf("@@sums\n"); fflush(stdout); } OutputManagerChecksum oc(g, mini::seconds(1)); oc.Output(m.m_time); if (rank == 0) { printf("@@norms\n"); fflush(stdout); }
		get(g, l, 0, now); m.ComputeErrorNorms(); if (rank == 0) { printf("@@end\n"); fflush(stdout); }
		{ Fields after(l); if (jb.ranks == 1) { get(g, l, 0, after); if (memcmp(&after.v[0], &now.v[0], after.v.size()*8)) ctx.viol(nm + " state", "computing totals or error norms changed the state"); } }
		g.EvaluateTestCase(*m.m_pTestCase, m.m_time, 1); get(g, l, 1, tc); MPI_Barrier(MPI_COMM_WORLD);
		// every value alone
		if (single) { long n = 0; mini::each_column(g, l, [&](GridPatch & p, int i, int j, size_t col) { for (int pass = 0; pass < 3; pass++) { if (pass == 2 && !l.tr) continue; DataArray4D<double> & d = pass == 0 ? p.GetDataState(0, DataLocation_Node) : pass == 1 ? p.GetDataState(0, DataLocation_REdge) : p.GetDataTracers(0); for (int q = 0; q < (pass == 2 ? l.tr : l.comp); q++) for (int k = 0; k < l.lev + (pass == 1); k++) d(q,i,j,k) = 0; } });
			junk(g, l, 0);
			mini::each_column(g, l, [&](GridPatch & p, int i, int j, size_t col) { for (int pass = 0; pass < 3; pass++) { if (pass == 2 && !l.tr) continue; DataArray4D<double> & d = pass == 0 ? p.GetDataState(0, DataLocation_Node) : pass == 1 ? p.GetDataState(0, DataLocation_REdge) : p.GetDataTracers(0);
				for (int q = 0; q < (pass == 2 ? l.tr : l.comp); q++) { if (pass < 2 && (g.GetVarLocation(q) == DataLocation_Node) != (pass == 0)) continue; for (int k = 0; k < l.lev + (pass == 1); k++) { double x = (k + q) % 2 ? -3.75 : 2.5; d(q,i,j,k) = x; double A = pass == 1 ? areaE[col*(c.lev+1)+k] : area[col*c.lev+k];
					for (int y = 0; y < 4; y++) { DataArray1D<double> a; g.Checksum(pass == 2 ? DataType_Tracers : DataType_State, a, 0, TY[y]); n++; for (int e = 0; e < (int)a.GetRows(); e++) { double w = e != q ? 0 : y == 0 ? x*A : y == 1 ? fabs(x)*A : y == 2 ? fabs(x)*sqrt(A) : fabs(x); if (!(fabs(a[e] - w) <= 1e-14*fabs(w))) ctx.viol(nm + " single " + TN[y], vh::fmt("panel %d node (%d,%d) %s %d at %d holds %g: total of %d is %.17g instead of %.17g", t.panel(col), t.gi(col), t.gj(col), pass == 2 ? "tracer" : pass ? "component on interface" : "component", q, k, x, e, a[e], w)); } }
					d(q,i,j,k) = 0; } } } }); ctx.count("evaluations", n); ctx.count("distinct_nontrivial", n); }
		MPI_Barrier(MPI_COMM_WORLD);
	}, VmpiOpts(), mr); });
	if (!mr.ok) { ctx.viol(nm + " run", mr.error); return; }
	long n = 0; auto ok = [&](const std::string & k, double g, R w, R sc, R tol, const std::string & d) { n++; if (!(fabsl(g - w) <= tol*sc)) ctx.viol(nm + " " + k, d + vh::fmt(": %.17g instead of %.17Lg", g, w)); };
	// sums of a component of some values, by kind
	auto total = [&](Fields & X, int pass, int q, int y, R & sc) { R s = 0; sc = 0; for (size_t col = 0; col < l.cols(); col++) for (int k = 0; k < c.lev + (pass == 1); k++) { R A = pass == 1 ? areaE[col*(c.lev+1)+k] : area[col*c.lev+k], x = X.at(col, pass, q, k); if (y == 3) { if (fabsl(x) > s) s = fabsl(x); } else s += A*(y == 0 ? x : y == 1 ? fabsl(x) : x*x); sc += A*fabsl(x); } if (y == 2) s = sqrtl(s); if (y >= 2) sc = s; return s; };
	auto loc = [&](int q) { return live[(size_t)q*l.lev] ? 0 : 1; };
	for (int u = 0; u < NI; u++) for (int y = 0; y < 4; y++) { R sc;
		if ((int)rs[u][y].GetRows() != l.comp) { ctx.viol(nm + " count", vh::fmt("%d totals of %d components", (int)rs[u][y].GetRows(), l.comp)); continue; }
		for (int q = 0; q < l.comp; q++) { R w = total(F[u], loc(q), q, y, sc); ok(std::string("checksum ") + TN[y], rs[u][y][q], w, sc, 1e-12L, vh::fmt("component %d instance %d", q, inst[u])); }
		if (l.tr && (int)rq[u][y].GetRows() != l.tr) { ctx.viol(nm + " count", vh::fmt("%d totals of %d tracers", (int)rq[u][y].GetRows(), l.tr)); continue; }
		for (int q = 0; q < l.tr; q++) { R w = total(F[u], 2, q, y, sc); ok(std::string("tracer checksum ") + TN[y], rq[u][y][q], w, sc, 1e-12L, vh::fmt("tracer %d instance %d", q, inst[u])); } }
	if (jb.ranks == 1) for (int u = 0; u < NI; u++) { ok("energy", got[u][0], energy[u], escale[u], 1e-11L, vh::fmt("instance %d", inst[u])); if (c.sw) ok("enstrophy", got[u][1], enst[u], nscale[u], 1e-10L, vh::fmt("instance %d", inst[u])); }
	// printed text
	size_t a = text.find("@@sums\n"), b = text.find("@@norms\n"), e = text.find("@@end\n"); if (a == std::string::npos || b == std::string::npos || e == std::string::npos) { ctx.err(nm + ": output not captured"); return; }
	std::string sums = text.substr(a, b-a), norms = text.substr(b, e-b);
	for (int q = 0; q < l.comp + l.tr; q++) { std::string tag = "(" + (q < l.comp ? names[q] : qn[q-l.comp]) + "): "; size_t at = sums.find(tag); if (at == std::string::npos) { ctx.viol(nm + " printed", "no checksum of " + tag); continue; } R sc, w = q < l.comp ? total(F[0], loc(q), q, 0, sc) : total(F[0], 2, q-l.comp, 0, sc); ok("printed checksum", atof(sums.c_str() + at + tag.size()), w, sc, 1e-12L, tag); }
	std::map<std::string, std::vector<double>> row; { std::istringstream is(norms); std::string ln; while (std::getline(is, ln)) { char w[64]; double x[3]; if (sscanf(ln.c_str(), "%60s %lf %lf %lf", w, x, x+1, x+2) == 4) row[w] = {x[0], x[1], x[2]}; } }
	Fields df(l); for (size_t i = 0; i < df.v.size(); i++) df.v[i] = tc.v[i] - now.v[i];
	for (int q = 0; q < l.comp; q++) { if (!row.count(names[q])) { ctx.viol(nm + " printed", "no error norms of " + names[q]); continue; } for (int y = 1; y < 4; y++) { R sc, w = total(df, loc(q), q, y, sc), d = total(tc, loc(q), q, y, sc); if (d != 0) w /= d; ok(std::string("error norm ") + TN[y], row[names[q]][y-1], w, fabsl(w), 1e-5L, "component " + names[q]); } }
	ctx.count("evaluations", n); ctx.count("distinct_nontrivial", n);
}

void vh_jobs(vh::Registry & r) {
	bool T = r.thorough;
	auto add = [&](Cfg c, int ranks, bool single) { r.add((single ? "every-" : "totals-") + c.name() + vh::fmt("-%d", ranks), [=](vh::Ctx & x) { totals(x, Job{c, ranks}, single); }); };
	for (int nx = 1; nx <= (T ? 4 : 3); nx++) for (int ho = 2; ho <= (T ? 6 : 4); ho++) for (int topo = 0; topo < 2; topo++) for (int rk : {1, 2, 5, 6, 7, 13}) {
		Cfg k; k.kind = mini::CS; k.nx = nx; k.ho = ho; k.sw = true; k.lev = 1; k.vm = "none"; k.scheme = "ark232"; k.tracers = nx; k.ref = ho % 2; k.topo = topo; if (ho == 3) k.earth = 1e5;
		if (rk > 6 && nx % 2) continue; if (rk > 6) k.patches = 24; if (rk > 1 && topo) continue; add(k, rk, false);
		k.kind = mini::CART; k.ny = ho-1; k.topo = false; k.patches = -1; k.reflat = 0.6; if (rk <= nx && nx % rk == 0) add(k, rk, false); }
	for (int kind : {mini::CS, mini::CART, mini::CARTXZ}) for (int vo = 1; vo <= 4; vo++) for (int m = 1; m <= 2; m++) for (const char * sg : {"lor", "int", "fv", "cph", "lev"}) for (int tr = 0; tr < 4; tr += 3) for (int rk : {1, 2, 6}) for (int ho = 2; ho <= (T ? 5 : 3); ho++) {
		Cfg k; k.kind = kind; k.nx = 2; k.ny = kind == mini::CARTXZ ? 1 : 2; k.ho = ho; k.tracers = tr; k.vo = vo; k.stag = "lor"; k.lev = vo*(m+1); k.ref = m == 1; k.topo = tr; k.rayleigh = m == 2; if (m == 2) k.stretch = "cubic"; if (vo == 3) k.earth = 2e5;
		if (std::string(sg) == "int") { if (vo < 2) continue; k.stag = "int"; k.expl = true; k.lev = (vo-1)*m + 1; k.scheme = "ark232"; }
		if (std::string(sg) == "cph" || std::string(sg) == "lev") k.stag = sg; if (std::string(sg) == "fv") { if (vo % 2) continue; k.vdisc = "fv"; k.lev = 4*m + 1; }
		if (rk > 2 && kind != mini::CS) continue; add(k, rk, false); }
	for (int kind : {mini::CS, mini::CART, mini::CARTXZ}) for (int sw = 0; sw < 2; sw++) for (const char * sg : {"lor", "int", "cph", "lev"}) {
		if (sw && kind == mini::CARTXZ) continue; if (sw && std::string(sg) != "lor") continue;
		Cfg k; k.kind = kind; k.nx = kind == mini::CS ? 1 : 2; k.ny = kind == mini::CART ? 2 : 1; k.ho = 2; k.tracers = 2; k.sw = sw; k.lev = sw ? 1 : 3; k.vo = 2; k.topo = !sw; if (std::string(sg) == "int") { k.stag = "int"; k.expl = true; } else if (!sw) { k.stag = sg; k.lev = 4; } if (sw) { k.vo = 1; k.vm = "none"; } k.scheme = "ark232"; add(k, 1, true); }
}
