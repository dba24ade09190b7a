// C15: coordinate transforms and metric terms against vectors in space.
#include "mini.h"
#include "topo.h"
#include "CubedSphereTrans.h"
#include "geo.h"
using topo::V3; using topo::operator+; using topo::operator*; using topo::dot; using topo::norm; using topo::cross;
using mini::Cfg;
typedef CubedSphereTrans T;

using namespace geo;
static void winds(double lon, double lat, V3 & e, V3 & n) { e = {-sin(lon), cos(lon), 0}; n = {-sin(lat)*cos(lon), -sin(lat)*sin(lon), cos(lat)}; }
static double dist(V3 a, V3 b) { return norm(a + (-1.0)*b); }
// gnomonic coordinates of a direction on a panel; false behind it
static bool gnomonic(int p, V3 r, double & X, double & Y) {
	V3 c, a, b; topo::frame(p, c, a, b);
	double s = dot(r, c); if (s < 1e-6) return false;
	X = dot(r, a)/s; Y = dot(r, b)/s; return true;
}
static std::string at(int p, double a, double b) { return vh::fmt("panel %d alpha %.17g beta %.17g", p, a, b); }

static void point(vh::Ctx & c, int p, double al, double be) {
	V3 ea, eb, r = topo::sphere(p, al, be, &ea, &eb);
	double X = tan(al), Y = tan(be);
	std::string w = at(p, al, be);
	auto bad = [&](const char * what, const std::string & d) { c.viol(std::string("transform-") + what, w + ": " + d); };
	c.count("evaluations"); c.count("distinct_nontrivial");
	double rad = p > 3 ? std::max(fabs(X), fabs(Y)) : 1.0, near = rad < 1e-13 ? 3e-13 : 1e-14;   // a pole within rounding is the pole
	double x, y, z; T::XYZFromXYP(X, Y, p, x, y, z);
	if (!(dist({x,y,z}, r) < 1e-14)) bad("xyz", vh::fmt("point is off by %g", dist({x,y,z}, r)));
	double lon, lat, lon2, lat2; T::RLLFromXYP(X, Y, p, lon, lat); T::RLLFromABP(al, be, p, lon2, lat2);
	if (!(dist(rll(lon, lat), r) < near) || !(dist(rll(lon2, lat2), r) < near)) bad("rll", vh::fmt("lon %.17g lat %.17g", lon, lat));
	if (!(lon >= -1e-15 && lon <= 2*M_PI + 1e-14 && fabs(lat) <= M_PI/2 + 1e-15)) bad("range", vh::fmt("lon %.17g lat %.17g", lon, lat));
	double X2, Y2; int q = -1; T::XYPFromRLL(lon, lat, X2, Y2, q);
	if (q < 0 || q > 5 || !(fabs(X2) < 1 + 1e-14 && fabs(Y2) < 1 + 1e-14) || !(dist(topo::sphere(q, atan(X2), atan(Y2)), r) < near)) bad("inverse", vh::fmt("comes back as panel %d X %.17g Y %.17g", q, X2, Y2));
	bool inside = fabs(X) < 1 - 1e-12 && fabs(Y) < 1 - 1e-12;
	if (inside && q != p) bad("panel", vh::fmt("found on panel %d", q));
	double a2, b2; int q2 = -1; T::ABPFromRLL(lon, lat, a2, b2, q2);
	if (q2 < 0 || q2 > 5 || !(dist(topo::sphere(q2, a2, b2), r) < near)) bad("inverse-angle", vh::fmt("comes back as panel %d alpha %.17g beta %.17g", q2, a2, b2));
	// other panels
	for (int d = 0; d < 6; d++) {
		double u, v, gu, gv; bool front = gnomonic(d, r, u, v);
		if (front && (fabs(u) > 1e3 || fabs(v) > 1e3)) continue;
		V3 cc, aa, bb; topo::frame(d, cc, aa, bb);
		if (!front) {
			if (dot(r, cc) > -1e-6) continue;
			bool threw = false; try { T::XYPFromXYP(X, Y, p, d, gu, gv); } catch (Exception &) { threw = true; }
			if (!threw) bad("behind", vh::fmt("a point behind panel %d is given coordinates", d));
			continue;
		}
		try { T::XYPFromXYP(X, Y, p, d, gu, gv); if (!(fabs(gu-u) + fabs(gv-v) < 1e-13*(1+u*u+v*v))) bad("panel-to-panel", vh::fmt("on panel %d %.17g %.17g instead of %.17g %.17g", d, gu, gv, u, v)); }
		catch (Exception & e) { bad("panel-to-panel", vh::fmt("on panel %d: refused", d)); }
		// vectors, where the transform is defined: neighbours, away from its singular lines
		if (d == p || dot(r, cc) < 0.2) continue;
		bool adj = dot(cc, topo::sphere(p, 0, 0)) > -0.5; if (!adj) continue;
		if (std::max(fabs(X), fabs(Y)) < 0.2 || std::max(fabs(u), fabs(v)) < 0.2) continue;
		V3 pa, pb; topo::sphere(d, atan(u), atan(v), &pa, &pb);
		V3 n = cross(pa, pb);
		bool sing = false;   // directions in which the two panels' centres lie are where they meet
		V3 pc, pu, pv; topo::frame(p, pc, pu, pv);
		if (fabs(dot(r, pc)) < 0.2) sing = true;
		if (sing) continue;
		for (int k = 0; k < 3; k++) {
			double ca = k == 0 ? 1 : k == 1 ? 0 : 0.7, cb = k == 0 ? 0 : k == 1 ? 1 : -1.3;
			V3 vec = ca*ea + cb*eb;
			double ga = ca, gb = cb; T::VecPanelTrans(p, d, ga, gb, u, v);
			if (!(dist(ga*pa + gb*pb, vec) < 1e-12)) bad("vector-panel", vh::fmt("to panel %d: (%g,%g) becomes (%.17g,%.17g)", d, ca, cb, ga, gb));
			double da = dot(vec, ea), db = dot(vec, eb), wa = dot(vec, pa), wb = dot(vec, pb);
			T::CoVecPanelTrans(p, d, da, db, u, v);
			if (!(fabs(da-wa) + fabs(db-wb) < 1e-12)) bad("covector-panel", vh::fmt("to panel %d: (%.17g,%.17g) instead of (%.17g,%.17g)", d, da, db, wa, wb));
			c.count("evaluations"); c.count("distinct_nontrivial");
		}
	}
	// winds
	V3 e, n; winds(lon, lat, e, n);
	double tol = rad < 1e-13 ? 1e-12 : 1e-13 + 4e-15/rad;
	for (int k = 0; k < 4; k++) {
		double uo = k == 0 ? 1 : k == 1 ? 0 : k == 2 ? 3 : -2, ua = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? -1 : 5;
		V3 vec = uo*e + ua*n; double s = norm(vec);
		double A, B, P, Q;
		T::VecTransABPFromRLL(X, Y, p, uo, ua, A, B);
		if (!(dist(A*ea + B*eb, vec) < 4*tol*s)) bad("wind-to-contravariant", vh::fmt("east %g north %g becomes (%.17g,%.17g), off by %g", uo, ua, A, B, dist(A*ea + B*eb, vec)));
		double ta = dot(vec, ea), tb = dot(vec, eb), g = dot(ea,ea)*dot(eb,eb) - dot(ea,eb)*dot(ea,eb);
		double oa = (dot(eb,eb)*ta - dot(ea,eb)*tb)/g, ob = (dot(ea,ea)*tb - dot(ea,eb)*ta)/g;
		T::VecTransRLLFromABP(X, Y, p, oa, ob, P, Q);
		if (!(fabs(P-uo) + fabs(Q-ua) < 8*tol*s)) bad("contravariant-to-wind", vh::fmt("(%.17g,%.17g) becomes east %.17g north %.17g instead of %g %g", oa, ob, P, Q, uo, ua));
		T::CoVecTransABPFromRLL(X, Y, p, uo, ua, A, B);
		if (!(fabs(A-ta) + fabs(B-tb) < 4*tol*s)) bad("wind-to-covariant", vh::fmt("east %g north %g becomes (%.17g,%.17g) instead of (%.17g,%.17g)", uo, ua, A, B, ta, tb));
		T::CoVecTransRLLFromABP(X, Y, p, ta, tb, P, Q);
		if (!(fabs(P-uo) + fabs(Q-ua) < 8*tol*s)) bad("covariant-to-wind", vh::fmt("(%.17g,%.17g) becomes east %.17g north %.17g instead of %g %g", ta, tb, P, Q, uo, ua));
		c.count("evaluations"); c.count("distinct_nontrivial");
	}
}

// the panels' adjacency, from positions alone
static const int DX[4] = {1, 0, -1, 0}, DY[4] = {0, 1, 0, -1};
static Direction dirof(int sx, int sy) {
	if (sx && sy) return sx > 0 ? (sy > 0 ? Direction_TopRight : Direction_BottomRight) : (sy > 0 ? Direction_TopLeft : Direction_BottomLeft);
	return sx > 0 ? Direction_Right : sx < 0 ? Direction_Left : sy > 0 ? Direction_Top : Direction_Bottom;
}
static void adjacency(vh::Ctx & c, int Nc) {
	const double D = 0.5*M_PI/Nc;
	for (int p = 0; p < 6; p++) for (int d = 0; d < 4; d++) {
		// panel and side met behind the middle of side d
		V3 edge = topo::sphere(p, DX[d]*M_PI/4, DY[d]*M_PI/4);
		int q = -1, back = -1;
		for (int o = 0; o < 6; o++) for (int s = 0; s < 4; s++) if (o != p && dist(edge, topo::sphere(o, DX[s]*M_PI/4, DY[s]*M_PI/4)) < 1e-12) { q = o; back = s; }
		int rp; Direction rd; T::RelativePanel(p, (Direction)d, rp, rd);
		std::string w = vh::fmt("panel %d side %d size %d", p, d, Nc);
		c.count("evaluations"); c.count("distinct_nontrivial");
		if (rp != q || rd != (Direction)back) c.viol("relative-panel", w + vh::fmt(": panel %d side %d instead of %d %d", rp, rd, q, back));
		if (T::PanelFromDirection(p, (Direction)d) != q) c.viol("panel-from-direction", w);
		if (T::DirectionFromPanel(p, q) != (Direction)d) c.viol("direction-from-panel", w);
		if (T::OpposingDirection(p, q, (Direction)d) != (Direction)back) c.viol("opposing", w);
		auto into = [&](int t, int & i, int & j, int depth) {   // cell of panel q met behind cell t of side d
			V3 m = topo::sphere(p, DX[d] ? DX[d]*M_PI/4 : -M_PI/4 + (t+0.5)*D, DY[d] ? DY[d]*M_PI/4 : -M_PI/4 + (t+0.5)*D);
			double u, v; gnomonic(q, m, u, v);
			i = DX[back] ? (DX[back] > 0 ? Nc-1-depth : depth) : (int)floor((atan(u) + M_PI/4)/D);
			j = DY[back] ? (DY[back] > 0 ? Nc-1-depth : depth) : (int)floor((atan(v) + M_PI/4)/D);
		};
		for (int t = 0; t < Nc; t++) for (int depth = 0; depth < Nc; depth++) {
			int i, j; into(t, i, j, depth);
			int si = DX[d] ? (DX[d] > 0 ? Nc+depth : -1-depth) : t, sj = DY[d] ? (DY[d] > 0 ? Nc+depth : -1-depth) : t;
			int gp, gi, gj; bool ab, par, perp; T::RelativeCoord(Nc, p, si, sj, gp, gi, gj, ab, par, perp);
			int i1 = i, j1 = j; if (Nc > 1) into(t > 0 ? t-1 : t+1, i1, j1, depth);
			int step = t > 0 ? 1 : -1, dpar = DX[back] ? (j-j1)*step : (i-i1)*step;
			bool wab = (DX[d] != 0) != (DX[back] != 0);
			bool wperp = (DX[d] + DY[d]) == (DX[back] + DY[back]);   // outward here is inward there
			bool wpar = dpar < 0;
			c.count("evaluations"); c.count("distinct_nontrivial");
			if (gp != q || gi != i || gj != j || ab != wab || perp != wperp || (Nc > 1 && par != wpar))
				c.viol("relative-coord", w + vh::fmt(" cell %d depth %d: panel %d (%d,%d) flags %d%d%d instead of panel %d (%d,%d) flags %d%d%d", t, depth, gp, gi, gj, ab, par, perp, q, i, j, wab, wpar, wperp));
		}
		// diagonal neighbours across the side
		for (int t = 0; t < Nc; t++) for (int s = -1; s <= 1; s += 2) {
			if (t + s < 0 || t + s >= Nc) continue;
			int i, j; into(t + s, i, j, 0);
			V3 corner = topo::sphere(p, DX[d] ? DX[d]*M_PI/4 : -M_PI/4 + (t + (s > 0))*D, DY[d] ? DY[d]*M_PI/4 : -M_PI/4 + (t + (s > 0))*D);
			double u, v; gnomonic(q, corner, u, v);
			int cx = atan(u) > -M_PI/4 + (i+0.5)*D ? 1 : -1, cy = atan(v) > -M_PI/4 + (j+0.5)*D ? 1 : -1;
			Direction dir = dirof(DX[d] ? DX[d] : s, DY[d] ? DY[d] : s), want = dirof(cx, cy), got = Direction_Unreachable;
			try { got = T::OpposingDirection(p, q, dir); } catch (Exception &) {}
			c.count("evaluations"); c.count("distinct_nontrivial");
			if (got != want) c.viol("opposing-diagonal", w + vh::fmt(" direction %d: %d instead of %d", dir, got, want));
		}
	}
	for (int p = 0; p < 6; p++) for (int si = -2; si < Nc+2; si++) for (int sj = -2; sj < Nc+2; sj++) {
		bool oi = si < 0 || si >= Nc, oj = sj < 0 || sj >= Nc;
		if (oi != oj) continue;
		int gp = 99, gi, gj; bool ab, par, perp; T::RelativeCoord(Nc, p, si, sj, gp, gi, gj, ab, par, perp);
		c.count("evaluations"); c.count("distinct_nontrivial");
		if (oi ? gp != InvalidPanel : (gp != p || gi != si || gj != sj || ab || par || perp)) c.viol("relative-coord-own", vh::fmt("panel %d (%d,%d) of %d", p, si, sj, Nc));
	}
	// areas and angles of cells
	double sum = 0;
	for (int i = 0; i < Nc; i++) for (int j = 0; j < Nc; j++) {
		double a0 = -M_PI/4 + i*D, b0 = -M_PI/4 + j*D, X0 = tan(a0), X1 = tan(a0+D), Y0 = tan(b0), Y1 = tan(b0+D);
		double got = T::GnomonicElementArea(X0, X1-X0, Y0, Y1-Y0, 2.0);
		// Girard on the four corners
		V3 P[4] = {topo::sphere(0, a0, b0), topo::sphere(0, a0+D, b0), topo::sphere(0, a0+D, b0+D), topo::sphere(0, a0, b0+D)};
		double ex = -2*M_PI;
		for (int k = 0; k < 4; k++) { V3 n1 = cross(P[k], P[(k+1)%4]), n0 = cross(P[(k+3)%4], P[k]); ex += M_PI - acos(std::max(-1.0, std::min(1.0, dot(n0, n1)/(norm(n0)*norm(n1))))); }
		sum += got;
		c.count("evaluations"); c.count("distinct_nontrivial");
		if (!(fabs(got - 4*ex) < 1e-12)) c.viol("cell-area", vh::fmt("cell (%d,%d) of %d: %.17g instead of %.17g", i, j, Nc, got, 4*ex));
		V3 ea, eb; topo::sphere(0, a0, b0, &ea, &eb);
		if (!(fabs(cos(T::GnomonicGridAngle(X0, Y0)) - dot(ea, eb)/(norm(ea)*norm(eb))) < 1e-13)) c.viol("grid-angle", vh::fmt("corner (%d,%d) of %d", i, j, Nc));
	}
	if (!(fabs(sum - 4*4*M_PI/6) < 1e-11)) c.viol("panel-area", vh::fmt("%d cells: %.17g", Nc, sum));
}
static void directions(vh::Ctx & c) {
	for (int p = 0; p < 6; p++) for (int i = -13; i <= 13; i++) for (int j = -13; j <= 13; j++) {
		double X = i * 0.16, Y = j * 0.16;
		if (fabs(fabs(X)-1) < 1e-3 || fabs(fabs(Y)-1) < 1e-3 || (fabs(fabs(X)-fabs(Y)) < 1e-3 && fabs(X) > 1)) continue;
		Direction w = std::max(fabs(X), fabs(Y)) < 1 ? Direction_Middle : fabs(X) > fabs(Y) ? dirof(X > 0 ? 1 : -1, 0) : dirof(0, Y > 0 ? 1 : -1);
		c.count("evaluations"); c.count("distinct_nontrivial");
		Direction g = T::DirectionFromXYP(p, X, Y);
		if (g != w) c.viol("direction-of-point", vh::fmt("panel %d X %g Y %g: %d instead of %d", p, X, Y, g, w));
	}
}

static void grid(vh::Ctx & c, const Cfg & cfg, int ranks) {
	mini::Layout l = mini::layout(cfg);
	topo::Topo t(cfg);
	Vert vt = vertical(cfg);
	std::vector<double> dzx;    // derivative of Zl of the element's polynomial, averaged
	double area = 0, vol = 0, volE = 0;
	std::vector<int> owner(l.cols(), 0);
	// the ground and its slope in space, independently
	double R = 0; std::vector<double> zs(t.nodes());
	VmpiResult mr;
	vh::mpi(ranks, [&](int rank) {
		AnnounceOnlyOutputOnRankZero();
		mini::Sim & s = *new mini::Sim(cfg, false);
		Model & m = s.model;
		still(s);
		s.setup(); Grid & g = *s.grid;
		m.Go();
		Chk k{c, cfg.name() + vh::fmt("/%d", ranks)};
		const PhysicalConstants & ph = m.GetPhysicalConstants();
		double rad = cfg.kind == mini::CS ? ph.GetEarthRadius() : 1.0, om = ph.GetOmega();
		double top = cfg.sw ? 1.0 : cfg.ztop;
		R = rad;
		if (rank == 0) {
			for (size_t n = 0; n < t.nodes(); n++) { double a, b; t.coord(n, a, b); if (cfg.kind == mini::CS) { V3 p = topo::sphere(t.panel(n), a, b); a = atan2(p[1], p[0]); b = asin(std::max(-1.0, std::min(1.0, p[2]))); } zs[n] = s.test->EvaluateTopography(ph, a, b); }
		}
		MPI_Barrier(MPI_COMM_WORLD);
		// slope: element derivative, averaged over coincident nodes as a covector
		auto deriv = [&](int n, double & A, double & B) {
			int p = t.panel(n), i = t.gi(n), j = t.gj(n), h = t.h, i0 = i/h*h, j0 = j/h*h; A = B = 0;
			auto dl = [&](int sx, int at) { double r = 0; for (int q = 0; q < h; q++) if (q != sx) { double pr = 1/(t.gx[sx]-t.gx[q]); for (int u = 0; u < h; u++) if (u != sx && u != q) pr *= (t.gx[at]-t.gx[u])/(t.gx[sx]-t.gx[u]); r += pr; } return r; };
			double da = (cfg.kind == mini::CS ? 0.5*M_PI : cfg.lx)/t.ea, db = (cfg.kind == mini::CS ? 0.5*M_PI : cfg.ly)/t.eb;
			for (int q = 0; q < h; q++) { A += dl(q, i-i0)*zs[t.id(p, i0+q, j)]/da; B += dl(q, j-j0)*zs[t.id(p, i, j0+q)]/db; }
		};
		Vert v = vt;
		for (int q = 0; q < cfg.lev; q++) { k.eq("level", g.GetREtaLevel(q), v.zl[q], 1, vh::fmt("level %d", q), 1e-13); k.eq("level-area", g.GetREtaLevelsNormArea()[q], v.wl[q], 1, vh::fmt("level %d", q), 1e-13); }
		for (size_t q = 0; q < v.zi.size(); q++) { k.eq("interface", g.GetREtaInterface(q), v.zi[q], 1, vh::fmt("interface %d", (int)q), 1e-13); k.eq("interface-area", g.GetREtaInterfacesNormArea()[q], v.wi[q], 1, vh::fmt("interface %d", (int)q), 1e-13); }
		bool ints = std::string(cfg.stag) == "int";
		mini::each_column(g, l, [&](GridPatch & p, int i, int j, size_t col) {
			owner[col]++;
			int n = (int)col; double al, be; t.coord(n, al, be);
			std::string w = vh::fmt("panel %d node (%d,%d)", t.panel(n), t.gi(n), t.gj(n));
			k.eq("alpha", p.GetANode(i), al, cfg.kind == mini::CS ? 1 : cfg.lx, w, 1e-13);
			k.eq("beta", p.GetBNode(j), be, cfg.kind == mini::CS ? 1 : cfg.ly, w, 1e-13);
			double lon = p.GetLongitude()(i,j), lat = p.GetLatitude()(i,j), f;
			V3 ea = {1,0,0}, eb = {0,1,0}, r;
			if (cfg.kind == mini::CS) {
				r = topo::sphere(t.panel(n), al, be, &ea, &eb);
				k.eq("position", dist(rll(lon, lat), r), 0, 1, w, 1e-13);
				f = 2*om*r[2];
			} else {
				k.eq("x", lon, al, cfg.lx, w, 1e-13); k.eq("y", lat, be, cfg.ly, w, 1e-13);
				f = cfg.kind == mini::CARTXZ ? 0.0 : 2*om*sin(cfg.reflat) + 2*om*cos(cfg.reflat)/ph.GetEarthRadius()*(be - 0.5*cfg.ly);
			}
			k.eq("coriolis", p.GetCoriolisF()(i,j), f, 2*om, w, 1e-12);
			k.eq("ground", p.GetTopography()(i,j), zs[n], 1000, w, 1e-11);
			double gaa = rad*rad*dot(ea,ea), gab = rad*rad*dot(ea,eb), gbb = rad*rad*dot(eb,eb), det = gaa*gbb - gab*gab, J2 = sqrt(det);
			k.eq("jacobian2d", p.GetJacobian2D()(i,j), J2, J2, w);
			k.eq("covariant", p.GetCovMetric2DA()(i,j,0), gaa, gaa, w); k.eq("covariant", p.GetCovMetric2DA()(i,j,1), gab, gaa, w);
			k.eq("covariant", p.GetCovMetric2DB()(i,j,0), gab, gbb, w); k.eq("covariant", p.GetCovMetric2DB()(i,j,1), gbb, gbb, w);
			double Caa = gbb/det, Cab = -gab/det, Cbb = gaa/det;
			k.eq("contravariant", p.GetContraMetric2DA()(i,j,0), Caa, Caa, w); k.eq("contravariant", p.GetContraMetric2DA()(i,j,1), Cab, Caa, w);
			k.eq("contravariant", p.GetContraMetric2DB()(i,j,0), Cab, Cbb, w); k.eq("contravariant", p.GetContraMetric2DB()(i,j,1), Cbb, Cbb, w);
			// slope of the ground, as a covector meaned over the coincident nodes
			V3 mean = {0,0,0};
			for (int o : t.mem[t.cls[n]]) { double A, B; deriv(o, A, B); mean = mean + (1.0/t.mem[t.cls[n]].size())*t.fromcov(o, A, B); }
			double sa, sb; t.tocov(n, mean, sa, sb);
			double ssc = cfg.kind == mini::CS ? 1000.0 : 1000.0*4/std::min(cfg.lx/cfg.nx, cfg.ly/cfg.ny);
			if (!cfg.sw) { k.eq("slope", p.GetTopographyDeriv()(i,j,0), sa, ssc, w, 1e-10); k.eq("slope", p.GetTopographyDeriv()(i,j,1), sb, ssc, w, 1e-10); }
			double ground = zs[n]; if (cfg.sw && cfg.kind == mini::CS) { ground = 0; sa = sb = 0; }
			if (cfg.sw && cfg.kind != mini::CS) return;      // a layer over ground: heights are not used
			double wa = t.gw[t.gi(n)%t.h]*(cfg.kind == mini::CS ? 0.5*M_PI : cfg.lx)/t.ea, wb = t.gw[t.gj(n)%t.h]*(cfg.kind == mini::CS ? 0.5*M_PI : cfg.ly)/t.eb;
			area += J2*wa*wb;
			for (int pass = 0; pass < (ints ? 1 : 2); pass++) {
				int cnt = pass ? cfg.lev+1 : cfg.lev;
				for (int q = 0; q < cnt; q++) {
					double x = pass ? v.zi[q] : v.zl[q], ds, dx, z = height(cfg, top, ground, x, &ds, &dx);
					std::string W = w + vh::fmt(pass ? " interface %d" : " level %d", q);
					if (!cfg.sw) k.eq("height", pass ? p.GetZInterfaces()(i,j,q) : p.GetZLevels()(i,j,q), z, top, W, 1e-12);
					if (pass && q == 0 && !cfg.sw) k.eq("bottom", p.GetZInterfaces()(i,j,q), ground, top, W, 1e-13);
					if (pass && q == cfg.lev && !cfg.sw) k.eq("top", p.GetZInterfaces()(i,j,q), top, top, W, 1e-13);
					double za = ds*sa, zb = ds*sb;
					const DataArray4D<double> & D = pass ? p.GetDerivRREdge() : p.GetDerivRNode();
					k.eq("surface-slope", D(i,j,q,0), za, ssc, W, 1e-10); k.eq("surface-slope", D(i,j,q,1), zb, ssc, W, 1e-10); k.eq("layer-depth", D(i,j,q,2), dx, dx, W);
					k.eq("jacobian", pass ? p.GetJacobianREdge()(i,j,q) : p.GetJacobian()(i,j,q), J2*dx, J2*dx, W);
					double wv = pass ? v.wi[q] : v.wl[q], V = J2*dx*wa*wb*wv;
					k.eq("volume", pass ? p.GetElementAreaREdge()(i,j,q) : p.GetElementAreaNode()(i,j,q), V, V, W);
					(pass ? volE : vol) += pass ? p.GetElementAreaREdge()(i,j,q) : p.GetElementAreaNode()(i,j,q);
					double xa = -(Caa*za + Cab*zb)/dx, xb = -(Cab*za + Cbb*zb)/dx, xx = (1 + Caa*za*za + 2*Cab*za*zb + Cbb*zb*zb)/(dx*dx);
					const DataArray4D<double> & A = pass ? p.GetContraMetricAREdge() : p.GetContraMetricA(), & B = pass ? p.GetContraMetricBREdge() : p.GetContraMetricB(), & X = pass ? p.GetContraMetricXiREdge() : p.GetContraMetricXi();
					double mx = Caa*ssc/dx, nx = Cbb*ssc/dx;
					k.eq("metric-alpha", A(i,j,q,0), Caa, Caa, W); k.eq("metric-alpha", A(i,j,q,1), Cab, Caa, W); k.eq("metric-alpha", A(i,j,q,2), xa, mx, W, 1e-10);
					k.eq("metric-beta", B(i,j,q,0), Cab, Cbb, W); k.eq("metric-beta", B(i,j,q,1), Cbb, Cbb, W); k.eq("metric-beta", B(i,j,q,2), xb, nx, W, 1e-10);
					k.eq("metric-xi", X(i,j,q,0), xa, mx, W, 1e-10); k.eq("metric-xi", X(i,j,q,1), xb, nx, W, 1e-10); k.eq("metric-xi", X(i,j,q,2), xx, xx, W, 1e-10);
				}
			}
		});
		MPI_Barrier(MPI_COMM_WORLD);
		c.count("evaluations", k.n); c.count("distinct_nontrivial", k.n);
	}, VmpiOpts(), mr);
	if (!mr.ok) { c.viol(cfg.name() + " run", mr.error); return; }
	for (int o : owner) if (o != 1) { c.viol(cfg.name() + " owner", vh::fmt("a node belongs to %d patches", o)); break; }
	// total area against the exact one, within the quadrature's error bound
	if (cfg.kind == mini::CS) {
		double ex = 4*M_PI*R*R, tol = cfg.ho <= 2 ? 0.3/(cfg.nx*cfg.nx) : cfg.ho == 3 ? 0.02/pow(cfg.nx, 4) : 2e-3/pow(cfg.nx, 4);
		if (!(fabs(area/ex - 1) < tol)) c.viol(cfg.name() + " total-area", vh::fmt("%.10g of the sphere's", area/ex));
	} else if (!cfg.sw && !(fabs(area/(cfg.lx*cfg.ly) - 1) < 1e-11)) c.viol(cfg.name() + " total-area", vh::fmt("%.17g", area));
}

void vh_jobs(vh::Registry & r) {
	bool th = r.thorough;
	for (int p = 0; p < 6; p++) for (int part = 0; part < 4; part++) r.add(vh::fmt("points-%d-%d", p, part), [p, part, th](vh::Ctx & c) {
		std::vector<double> g; int n = th ? 48 : 16;
		for (int i = -n; i <= n; i++) g.push_back(M_PI/4*i/n);
		for (double d : {1e-3, 1e-6, 1e-9, 1e-11}) for (double s : {-1.0, 1.0}) { g.push_back(s*d); g.push_back(s*(M_PI/4 - d)); }
		for (double d : {1e-17, 1e-16, 3e-16, 1e-14, 9e-14}) for (double s : {-1.0, 1.0}) g.push_back(s*d);
		for (double d : {0.1, 0.33, 0.61, 0.77}) g.push_back(-d);
		for (size_t i = 0; i < g.size(); i++) for (size_t j = 0; j < g.size(); j++) if ((i + j) % 4 == (size_t)part) point(c, p, g[i], g[j]);
	});
	r.add("adjacency", [th](vh::Ctx & c) { for (int n = 1; n <= (th ? 12 : 7); n++) adjacency(c, n); directions(c); });
	auto G = [&](Cfg k, int ranks) { k.dt = 1e-3; k.steps = 1; r.add("grid-" + k.name() + vh::fmt("-%d", ranks), [k, ranks](vh::Ctx & c) { grid(c, k, ranks); }); };
	for (int nx = 1; nx <= (th ? 6 : 4); nx++) for (int ho = 2; ho <= (th ? 7 : 5); ho++) {
		Cfg k; k.kind = mini::CS; k.nx = nx; k.ho = ho; k.lev = 2; k.tracers = 0; k.hm = "v1"; k.vm = "none"; k.scheme = "ark232";
		k.vm = "v1";
		for (int sw = 0; sw < 2; sw++) { k.sw = sw; k.lev = sw ? 1 : 2; k.vm = sw ? "none" : "v1"; for (int ranks : {1, 3}) { if (ranks == 3 && (nx > 3 || ho == 3)) continue; k.earth = ho == 5 ? 2.0e5 : 0; G(k, ranks); } }
	}
	for (int kind : {mini::CART, mini::CARTXZ}) for (int nx = 1; nx <= (th ? 5 : 3); nx++) for (int ny = 1; ny <= (kind == mini::CARTXZ ? 1 : 3); ny++) for (int ho = 2; ho <= (th ? 6 : 5); ho++) {
		Cfg k; k.kind = kind; k.nx = nx; k.ny = ny; k.ho = ho; k.lev = 3; k.tracers = 0; k.reflat = nx == 2 ? 0.7 : 0.0;
		if (kind == mini::CARTXZ) k.ly = k.lx / k.nx;
		G(k, 1); if (nx == 2) G(k, 2);
	}
	for (const char * st : {"uniform", "cubic", "pwlinear"}) for (int kind : {mini::CS, mini::CART}) for (int vo = 1; vo <= 5; vo++) for (int m = 1; m <= 3; m++) for (const char * sg : {"lor", "int", "fv", "cph", "lev"}) {
		Cfg k; k.kind = kind; k.nx = kind == mini::CS ? 1 : 2; k.ny = 1; k.ho = 3; k.tracers = 0; k.stretch = st; k.vo = vo; k.stag = "lor"; k.lev = vo*m;
		if (std::string(sg) == "int") { if (vo < 2) continue; k.stag = "int"; k.expl = true; k.lev = (vo-1)*m + 1; k.scheme = "ark232"; }
		if (std::string(sg) == "cph" || std::string(sg) == "lev") k.stag = sg; if (std::string(sg) == "fv") { if (vo % 2 || m > 2) continue; k.vdisc = "fv"; k.lev = 4*m + 1; }
		G(k, 1);
	}
}
