// C14: vertical column operators. Every row of every operator on every enumerated column against rows worked out
// here in extended precision, and the application of the operators, against dense products.
#include "mini.h"
#include "LinearColumnOperatorFEM.h"
#include "LinearColumnOperator.h"
#include "GridGLL.h"
typedef long double R;
typedef std::vector<R> Row;
typedef std::vector<double> Vec;

// --- own quadrature and interpolation ---
static R legendre(int n, R x, R * d) { R a = 1, b = x; if (n == 0) { *d = 0; return 1; } for (int k = 2; k <= n; k++) { R c = ((2*k-1)*x*b - (k-1)*a)/k; a = b; b = c; } *d = n*(x*b - a)/(x*x-1); return b; }
static void gauss(int n, Row & x, Row & w) { x.resize(n); w.resize(n); for (int i = 0; i < n; i++) { R t = -cosl(M_PIl*(i+0.75L)/(n+0.5L)), d; for (int k = 0; k < 100; k++) { R p = legendre(n, t, &d); t -= p/d; } legendre(n, t, &d); x[i] = (1+t)/2; w[i] = 1/((1-t*t)*d*d); } }
static void lobatto(int n, Row & x, Row & w) {
	x.resize(n); w.resize(n); int m = n-1; x[0] = 0; x[m] = 1; w[0] = w[m] = 1.0L/(n*m);
	// zeros of P'_m: Newton on (1-x^2) P'
	for (int i = 1; i < m; i++) { R t = -cosl(M_PIl*i/m), d; for (int k = 0; k < 100; k++) { R p = legendre(m, t, &d); R dd = (2*t*d - m*(m+1)*p)/(1-t*t); t -= d/dd; } R p = legendre(m, t, &d); x[i] = (1+t)/2; w[i] = 1/(R)(m*n)/(p*p); }
}
// value (m=0) or derivative (m=1) at y of the Lagrange basis on points x
static Row lagrange(const Row & x, R y, int m) {
	int n = x.size(); Row c(n, 0);
	for (int i = 0; i < n; i++) {
		R den = 1; for (int j = 0; j < n; j++) if (j != i) den *= x[i]-x[j];
		if (m == 0) { R p = 1; for (int j = 0; j < n; j++) if (j != i) p *= y-x[j]; c[i] = p/den; }
		else { R s = 0; for (int k = 0; k < n; k++) if (k != i) { R p = 1; for (int j = 0; j < n; j++) if (j != i && j != k) p *= y-x[j]; s += p; } c[i] = s/den; }
	}
	return c;
}
static Row part(const Row & x, int a, int n) { return Row(x.begin()+a, x.begin()+a+n); }
static void add(Row & r, int at, const Row & c, R f = 1) { for (size_t i = 0; i < c.size(); i++) r[at+i] += f*c[i]; }

typedef std::vector<Row> Mat;
static Mat mul(const Mat & a, const Mat & b) { Mat c(a.size(), Row(b[0].size(), 0)); for (size_t i = 0; i < a.size(); i++) for (size_t k = 0; k < b.size(); k++) for (size_t j = 0; j < b[0].size(); j++) c[i][j] += a[i][k]*b[k][j]; return c; }

// --- a column: p nodes to each of n elements ---
struct Column {
	int p, n; Row node, edge, wn, we; // levels, interfaces and their weights
	R h(int a) const { return edge[(a+1)*p] - edge[a*p]; }
	int N() const { return p*n; }
};
static Column column(int p, const Row & bounds) {
	Column c; c.p = p; c.n = bounds.size()-1; Row g, wg, l, wl; gauss(p, g, wg); lobatto(p+1, l, wl);
	c.edge.assign(c.N()+1, 0); c.we.assign(c.N()+1, 0);
	for (int a = 0; a < c.n; a++) { R h = bounds[a+1]-bounds[a]; for (int i = 0; i < p; i++) { c.node.push_back(bounds[a]+h*g[i]); c.wn.push_back(h*wg[i]); } for (int i = 0; i <= p; i++) { c.edge[a*p+i] = bounds[a]+h*l[i]; c.we[a*p+i] += h*wl[i]; } }
	return c;
}
// the weight of the left element at an element edge
static R wleft(R hl, R hr, int o) { R l = powl(hl, o), r = powl(hr, o); return r/(l+r); }

// --- what the operators are ---
static Mat interp_ne(const Column & c, bool zero) { // levels to interfaces
	Mat m; for (int l = 0; l <= c.N(); l++) {
		Row r(c.N(), 0); bool end = l == 0 || l == c.N();
		if (end && zero) { m.push_back(r); continue; }
		if (end && c.p == 1 && c.n > 1) add(r, l ? c.N()-2 : 0, lagrange(part(c.node, l ? c.N()-2 : 0, 2), c.edge[l], 0));
		else if (l % c.p == 0 && !end) { int e = l/c.p; R w = wleft(c.h(e-1), c.h(e), c.p); add(r, (e-1)*c.p, lagrange(part(c.node, (e-1)*c.p, c.p), c.edge[l], 0), w); add(r, e*c.p, lagrange(part(c.node, e*c.p, c.p), c.edge[l], 0), 1-w); }
		else { int a = std::min(l/c.p, c.n-1); add(r, a*c.p, lagrange(part(c.node, a*c.p, c.p), c.edge[l], 0)); }
		m.push_back(r);
	} return m;
}
// continuous elements on points x, q intervals each: value or derivative at level k's or at its own points
static Mat cont(const Row & x, int q, const Row & out, int d) {
	Mat m; int n = (x.size()-1)/q; for (R y : out) {
		Row r(x.size(), 0); int a = 0; while (a < n-1 && y > x[(a+1)*q] + 1e-13L) a++;
		bool on = a < n-1 && fabsl(y - x[(a+1)*q]) < 1e-13L;
		if (on && d == 0) r[(a+1)*q] = 1;
		else if (on) { R w = wleft(x[(a+1)*q]-x[a*q], x[(a+2)*q]-x[(a+1)*q], q); add(r, a*q, lagrange(part(x, a*q, q+1), y, 1), w); add(r, (a+1)*q, lagrange(part(x, (a+1)*q, q+1), y, 1), 1-w); }
		else add(r, a*q, lagrange(part(x, a*q, q+1), y, d));
		m.push_back(r);
	} return m;
}
// derivative of discontinuous elements at interfaces: mean of both sides plus the jump over the distance of the middles
static Mat diff_ne(const Column & c) {
	Mat m; for (int l = 0; l <= c.N(); l++) {
		Row r(c.N(), 0); int a = std::min(l/c.p, c.n-1); bool on = l % c.p == 0 && l && l != c.N();
		if (!on) add(r, a*c.p, lagrange(part(c.node, a*c.p, c.p), c.edge[l], 1));
		else { R g = 0.5L*c.p*(c.p+1)*2/(c.h(a-1)+c.h(a));
			for (int s = 0; s < 2; s++) { int b = a-1+s; add(r, b*c.p, lagrange(part(c.node, b*c.p, c.p), c.edge[l], 1), 0.5L); add(r, b*c.p, lagrange(part(c.node, b*c.p, c.p), c.edge[l], 0), s ? g : -g); } }
		m.push_back(r);
	} return m;
}
// weak second derivatives with no flux at the ends
static Mat diffdiff_n(const Column & c) {
	Mat m(c.N(), Row(c.N(), 0)); Mat flux; // at element edges, from the derivative operator above without its end rows
	Mat d = diff_ne(c);
	for (int a = 0; a < c.n; a++) {
		Row x = part(c.node, a*c.p, c.p);
		for (int s = 0; s < c.p; s++) { Row f = lagrange(x, x[s], 1); for (int j = 0; j < c.p; j++) for (int i = 0; i < c.p; i++) m[a*c.p+j][a*c.p+i] -= f[j]*f[i]*c.wn[a*c.p+s]; }
		for (int s = 0; s < 2; s++) { int e = a+s; if (e == 0 || e == c.n) continue; Row v = lagrange(x, c.edge[e*c.p], 0); for (int j = 0; j < c.p; j++) add(m[a*c.p+j], 0, d[e*c.p], (s ? 1 : -1)*v[j]); }
	}
	for (int j = 0; j < c.N(); j++) for (R & v : m[j]) v /= c.wn[j];
	return m;
}
static Mat diffdiff_c(const Row & x, int q) {
	int N = x.size(), n = (N-1)/q; Mat m(N, Row(N, 0)); Row M(N, 0), l, w; lobatto(q+1, l, w);
	for (int a = 0; a < n; a++) { Row y = part(x, a*q, q+1); R h = y[q]-y[0];
		for (int s = 0; s <= q; s++) { M[a*q+s] += h*w[s]; Row f = lagrange(y, y[s], 1); for (int j = 0; j <= q; j++) for (int i = 0; i <= q; i++) m[a*q+j][a*q+i] -= f[j]*f[i]*h*w[s]; } }
	for (int j = 0; j < N; j++) for (R & v : m[j]) v /= M[j];
	return m;
}
// half the jump at the edge above (side 0) or below (side 1) an element, spread over its levels
static Mat penalty(const Column & c, int side) {
	Mat m(c.N(), Row(c.N(), 0)); for (int a = 0; a < c.n; a++) {
		int e = a + 1 - side; if (e == 0 || e == c.n) continue; Row jump(c.N(), 0);
		add(jump, e*c.p, lagrange(part(c.node, e*c.p, c.p), c.edge[e*c.p], 0)); add(jump, (e-1)*c.p, lagrange(part(c.node, (e-1)*c.p, c.p), c.edge[e*c.p], 0), -1);
		Row v = lagrange(part(c.node, a*c.p, c.p), c.edge[e*c.p], 0);
		for (int i = 0; i < c.p; i++) add(m[a*c.p+i], 0, jump, (side ? -0.5L : 0.5L)*v[i]/c.wn[a*c.p+i]);
	} return m;
}
// finite volumes of order o: interpolation of o-1 levels from the left and from the right of interface k
static Row fvside(const Row & x, int k, int o, int side) { int N = x.size(), b = std::max(0, k-(o-2)/2-1+side), e = std::min(N-1, k+(o-2)/2-1+side); return Row{(R)b, (R)e}; }
static Row fvinterp(const Row & x, const Row & y, int k, int o, int side) { Row s = fvside(x, k, o, side), r(x.size(), 0); int b = s[0], e = s[1]; add(r, b, lagrange(part(x, b, e-b+1), y[k], 0)); return r; }
static Mat fv_interp_ne(const Row & x, const Row & y, int o) { Mat m; int N = x.size(); for (int k = 0; k <= N; k++) { Row r(N, 0); R w = k == 0 || k == N ? 1 : 0.5L; if (k) add(r, 0, fvinterp(x, y, k, o, 0), w); if (k != N) add(r, 0, fvinterp(x, y, k, o, 1), w); m.push_back(r); } return m; }
static Mat fv_window(const Row & x, const Row & out, int lo, int hi) { Mat m; int N = x.size(); for (int k = 0; k < (int)out.size(); k++) { int b = std::max(0, k+lo), e = std::min(N-1, k+hi); Row r(N, 0); add(r, b, lagrange(part(x, b, e-b+1), out[k], 1)); m.push_back(r); } return m; }
static Mat fv_penalty(const Row & x, const Row & y, int o, int side) { int N = x.size(); Mat m(N, Row(N, 0)); for (int k = 1; k < N; k++) { int row = side ? k : k-1; R f = (side ? -0.5L : 0.5L)/(y[row+1]-y[row]); add(m[row], 0, fvinterp(x, y, k, o, 1), f); add(m[row], 0, fvinterp(x, y, k, o, 0), -f); } return m; }

// --- checks ---
struct Checker {
	vh::Ctx & ctx; std::string where; long n = 0; std::map<std::string,int> told; unsigned seed = 1;
	Checker(vh::Ctx & x, const std::string & w) : ctx(x), where(w) {}
	~Checker() { ctx.count("evaluations", n); ctx.count("distinct_nontrivial", n); }
	void say(const std::string & what, const std::string & d) { if (told[what]++ == 0) ctx.viol(where + " " + what, d); }
	double noise() { seed = seed*1664525u + 1013904223u; return ((seed >> 8) & 0xffff)/32768.0 - 1.0; }
	static bool close(double x, R y, R scale) { return fabsl(x-y) <= 1e-11L*scale; }
	void op(const std::string & what, const LinearColumnOperator & o, const Mat & want) {
		const DataArray2D<double> & c = o.GetCoeffs();
		if (c.GetRows() != want.size() || c.GetColumns() != want[0].size()) { say(what, vh::fmt("is %d x %d instead of %d x %d", (int)c.GetRows(), (int)c.GetColumns(), (int)want.size(), (int)want[0].size())); return; }
		R big = 0; for (const Row & r : want) for (R v : r) big = std::max(big, fabsl(v));
		int in = want[0].size(), out = want.size();
		for (int i = 0; i < out; i++) {
			R s = 0; for (R v : want[i]) s = std::max(s, fabsl(v)); s = std::max(s, 1e-2L*big);
			for (int j = 0; j < in; j++) { n++; if (!close(c[i][j], want[i][j], s)) say(what, vh::fmt("row %d column %d is %.15g instead of %.15Lg", i, j, c[i][j], want[i][j])); }
		}
		apply(what, o, want);
	}
	void apply(const std::string & what, const LinearColumnOperator & o, const Mat & want) {
		int in = want[0].size(), out = want.size();
		for (int st = 1; st <= 3; st++) {
			int so = 4-st; Vec x(in*st), ref(in*st), y(out*so+1, 7), refo(out*so), y1(out+1, 7);
			for (double & v : x) v = noise(); for (double & v : ref) v = noise(); for (double & v : refo) v = noise();
			auto chk = [&](const char * f, int i, double got, R w, R s) { n++; if (!close(got, w, s)) say(what + " " + f, vh::fmt("stride %d output %d is %.15g instead of %.15Lg", st, i, got, w)); };
			Row w(out, 0), wr(out, 0), s(out, 0); for (int i = 0; i < out; i++) { R b = 0; for (int j = 0; j < in; j++) { w[i] += want[i][j]*x[j*st]; wr[i] += want[i][j]*(x[j*st]-ref[j*st]); b += fabsl(want[i][j]); } s[i] = 1e-3L + b*3; wr[i] += refo[i*so]; }
			o.Apply(&x[0], &y[0], st, so);
			for (int i = 0; i < out*so+1; i++) if (i % so == 0 && i < out*so) chk("applied with strides", i/so, y[i], w[i/so], s[i/so]); else chk("writing between", i, y[i], 7, 1);
			o.ApplyWithRef(&x[0], &ref[0], &y[0], &refo[0], st, so); for (int i = 0; i < out; i++) chk("applied to a difference with strides", i, y[i*so], wr[i], s[i]);
			for (int i = 0; i < out; i++) { chk("at one output with strides", i, o.Apply(&x[0], i, st), w[i], s[i]); chk("of a difference at one output", i, o.Apply(&x[0], &ref[0], refo[i*so], i, st), wr[i], s[i]); }
			if (st > 1) continue;
			o.Apply(&x[0], &y1[0]); for (int i = 0; i <= out; i++) chk("applied", i, y1[i], i < out ? w[i] : 7, i < out ? s[i] : 1);
			for (int i = 0; i < out; i++) chk("at one output", i, o.Apply(&x[0], i), w[i], s[i]);
			Vec ro(out); for (int i = 0; i < out; i++) ro[i] = refo[i*so]; o.ApplyWithRef(&x[0], &ref[0], &y1[0], &ro[0]); for (int i = 0; i < out; i++) chk("applied to a difference", i, y1[i], wr[i], s[i]);
		}
	}
	void pen(const std::string & what, const LinearColumnDiscPenaltyFEM & o, const Mat & l, const Mat & r, int p) {
		op(what + " below", o.GetLeftOp(), l); op(what + " above", o.GetRightOp(), r);
		int N = l.size(), ne = N/p;
		for (int st = 1; st <= 3; st++) {
			int so = 4-st; Vec x(N*st), w(ne), y(N*so); for (double & v : x) v = noise(); for (double & v : w) v = fabs(noise()); for (double & v : y) v = noise(); Vec y0 = y;
			o.Apply(&w[0], &x[0], &y[0], st, so);
			for (int i = 0; i < N*so; i++) { R v = y0[i], s = 1; if (i % so == 0) { int k = i/so, a = k/p; for (int j = 0; j < N; j++) { if (a < ne-1) { v += w[a]*l[k][j]*x[j*st]; s += fabsl(l[k][j]); } if (a > 0) { v += w[a-1]*r[k][j]*x[j*st]; s += fabsl(r[k][j]); } } } n++; if (!close(y[i], v, s)) say(what + " applied", vh::fmt("strides %d %d: output %d is %.15g instead of %.15Lg", st, so, i, y[i], v)); }
		}
	}
	void integral(const std::string & what, const LinearColumnOperator & o, const Column & c) {
		const DataArray2D<double> & m = o.GetCoeffs(); if ((int)m.GetRows() != c.N() || (int)m.GetColumns() != c.N()) { say(what, "dimensions"); return; }
		for (int d = 0; d < c.p; d++) { Vec x(c.N()), y(c.N()); for (int k = 0; k < c.N(); k++) x[k] = powl(c.node[k], d); o.Apply(&x[0], &y[0]); for (int k = 0; k < c.N(); k++) { R w = (powl(c.node[k], d+1) - powl(c.edge[0], d+1))/(d+1); n++; if (!(fabsl(y[k]-w) <= 1e-9L)) say(what, vh::fmt("of x^%d at level %d is %.15g instead of %.15Lg", d, k, y[k], w)); } }
	}
};
static DataArray1D<double> da(const Row & r) { DataArray1D<double> a(r.size()); for (size_t i = 0; i < r.size(); i++) a[i] = r[i]; return a; }
typedef LinearColumnInterpFEM I; typedef LinearColumnDiffFEM D; typedef LinearColumnDiffDiffFEM DD;

// classes on columns of any element sizes
static void classes(vh::Ctx & ctx, const std::string & name, int p, const Row & bounds) {
	Checker k(ctx, name); Column c = column(p, bounds); DataArray1D<double> n = da(c.node), e = da(c.edge);
	for (int z = 0; z < 2; z++) { I a; a.Initialize(I::InterpSource_Levels, p, n, e, e, z); k.op(z ? "interpolation to interfaces with zero ends" : "interpolation to interfaces", a, interp_ne(c, z)); }
	{ I a; a.Initialize(I::InterpSource_Interfaces, p, n, e, n); k.op("interpolation to levels", a, cont(c.edge, p, c.node, 0)); I b; b.Initialize(I::InterpSource_Interfaces, p, n, e, e); k.op("interpolation to the same interfaces", b, cont(c.edge, p, c.edge, 0)); }
	Mat den = cont(c.edge, p, c.node, 1), dee = cont(c.edge, p, c.edge, 1);
	{ D a; a.InitializeInterfaceMethod(D::InterpSource_Interfaces, p, n, e, n, false); k.op("derivative of interfaces at levels", a, den);
	  D b; b.InitializeInterfaceMethod(D::InterpSource_Interfaces, p, n, e, e, false); k.op("derivative of interfaces", b, dee);
	  for (int z = 0; z < 2; z++) { D d; d.InitializeInterfaceMethod(D::InterpSource_Levels, p, n, e, n, z); k.op(z ? "derivative of levels with zero ends" : "derivative of levels", d, mul(den, interp_ne(c, z))); } }
	{ D a; a.InitializeFluxCorrectionMethod(D::InterpSource_Levels, p, n, e, e, true); k.op("derivative of levels at interfaces", a, diff_ne(c)); }
	{ DD a; a.Initialize(DD::InterpSource_Levels, p, n, e); k.op("second derivative of levels", a, diffdiff_n(c)); DD b; b.Initialize(DD::InterpSource_Interfaces, p, n, e); k.op("second derivative of interfaces", b, diffdiff_c(c.edge, p)); }
	if (c.n > 1) { LinearColumnDiscPenaltyFEM a; a.Initialize(p, n, e); k.pen("penalty", a, penalty(c, 0), penalty(c, 1), p); }
	if (c.n > 1) { LinearColumnIntFEM a; a.InitializeNodeToNodeInterfaceMethod(p, n, e); k.integral("integral", a, c); }
	// Gauss-Lobatto nodes: the interfaces of elements of order p as levels of order p+1
	{ D a; a.InitializeGLLNodes(p+1, e, e); k.op("derivative of Lobatto levels", a, dee); DD b; b.InitializeGLLNodes(p+1, e); k.op("second derivative of Lobatto levels", b, diffdiff_c(c.edge, p)); }
	// composition
	{ I a; a.Initialize(I::InterpSource_Levels, p, n, e, e); D b; b.InitializeInterfaceMethod(D::InterpSource_Interfaces, p, n, e, e, false); b.ComposeWith(a); k.op("derivative of interfaces after interpolation", b, mul(dee, interp_ne(c, false)));
	  D d; d.InitializeFluxCorrectionMethod(D::InterpSource_Levels, p, n, e, e, true); I f; f.Initialize(I::InterpSource_Interfaces, p, n, e, n); f.ComposeWith(d); k.op("interpolation after derivative", f, mul(cont(c.edge, p, c.node, 0), diff_ne(c)));
	  LinearColumnOperator id; id.InitializeIdentity(c.N()+1); id.ComposeWith(d); k.op("identity", id, diff_ne(c)); d.ComposeWith([&]{ LinearColumnOperator i; i.InitializeIdentity(c.N()); return i; }()); k.op("composed with identity", d, diff_ne(c));
	  bool thrown = false; try { I g; g.Initialize(I::InterpSource_Interfaces, p, n, e, n); g.ComposeWith(g); } catch (Exception &) { thrown = true; } if (!thrown) k.say("composition", "of operators that do not fit is accepted"); }
	if (p == 1) for (int o = 2; o <= 8; o += 2) {
		if (o == 2 || c.N() >= o) {
		std::string s = vh::fmt("finite volumes of order %d: ", o); Mat ine = fv_interp_ne(c.node, c.edge, o), ien(c.N(), Row(c.N()+1, 0)), dn(c.N(), Row(c.N()+1, 0));
		for (int i = 0; i < c.N(); i++) { ien[i][i] = ien[i][i+1] = 0.5L; dn[i][i+1] = 1/c.h(i); dn[i][i] = -1/c.h(i); }
		{ I a; a.InitializeReconstructed(I::InterpSource_Levels, I::InterpSource_Interfaces, o, n, e); k.op(s + "interpolation to interfaces", a, ine); I b; b.InitializeReconstructed(I::InterpSource_Interfaces, I::InterpSource_Levels, o, n, e); k.op(s + "interpolation to levels", b, ien); }
		{ D a; a.InitializeReconstructed(D::InterpSource_Interfaces, D::InterpSource_Levels, o, n, e); k.op(s + "derivative of interfaces at levels", a, dn); D b; b.InitializeReconstructed(D::InterpSource_Levels, D::InterpSource_Levels, o, n, e); k.op(s + "derivative of levels", b, mul(dn, ine));
		  D d; d.InitializeReconstructed(D::InterpSource_Interfaces, D::InterpSource_Interfaces, o, n, e); k.op(s + "derivative of interfaces", d, fv_window(c.edge, c.edge, -o/2, o/2)); D f; f.InitializeReconstructed(D::InterpSource_Levels, D::InterpSource_Interfaces, o, n, e); k.op(s + "derivative of levels at interfaces", f, fv_window(c.node, c.edge, -o/2, o/2-1)); }
		if (c.n > 1) { LinearColumnDiscPenaltyFEM a; a.InitializeReconstructed(o, n, e); k.pen(s + "penalty", a, fv_penalty(c.node, c.edge, o, 0), fv_penalty(c.node, c.edge, o, 1), 1); }
		}
	}
}
// the operators of real grids
static void grids(vh::Ctx & ctx, const mini::Cfg & cfg) {
	VmpiResult mr;
	vh::mpi(1, [&](int) {
		AnnounceOnlyOutputOnRankZero();
		mini::Sim & s = *new mini::Sim(cfg); s.make_grid(); GridGLL & g = dynamic_cast<GridGLL &>(*s.grid);
		Checker & k = *new Checker(ctx, "grid " + cfg.name());
		bool fv = std::string(cfg.vdisc) == "fv", in = std::string(cfg.stag) == "int"; int N = cfg.lev, p = fv ? 1 : in ? cfg.vo-1 : cfg.vo, ne = in ? (N-1)/p : N/p;
		// element bounds as the stretching has them
		Row b(ne+1); for (int a = 0; a <= ne; a++) { R x = (R)a/ne; b[a] = cfg.stretch == "cubic" ? 0.1L*x + 0.8L*x*x + 0.1L*x*x*x : cfg.stretch == "pwlinear" ? (x < 2.0L/3 ? 0.5L*x : 2*x - 1) : x; }
		Column c = column(p, b); c.edge.back() = c.edge.back();
		auto same = [&](const char * what, const DataArray1D<double> & a, const Row & w) { if (a.GetRows() != w.size()) { k.say(what, "length"); return; } for (size_t i = 0; i < w.size(); i++) { k.n++; if (!(fabsl(a[i]-w[i]) <= 1e-14L)) k.say(what, vh::fmt("%d is %.17g instead of %.17Lg", (int)i, a[i], w[i])); } };
		if (in) { same("level", g.GetREtaLevels(), c.edge); same("level weight", g.GetREtaLevelsNormArea(), c.we); }
		else { same("level", g.GetREtaLevels(), c.node); same("level weight", g.GetREtaLevelsNormArea(), c.wn); same("interface", g.GetREtaInterfaces(), c.edge); same("interface weight", g.GetREtaInterfacesNormArea(), c.we); }
		Mat dnn, dnn0, ine, ien, dne, den, dee, ddn, dde;
		if (in) { dnn = cont(c.edge, p, c.edge, 1); ddn = diffdiff_c(c.edge, p); k.op("derivative of levels", g.GetOpDiffNodeToNode(), dnn); k.op("second derivative of levels", g.GetOpDiffDiffNodeToNode(), ddn); }
		else {
			den = fv ? Mat(N, Row(N+1, 0)) : cont(c.edge, p, c.node, 1); ien = fv ? den : cont(c.edge, p, c.node, 0);
			if (fv) for (int i = 0; i < N; i++) { den[i][i+1] = 1/c.h(i); den[i][i] = -1/c.h(i); ien[i][i] = ien[i][i+1] = 0.5L; }
			ine = fv ? fv_interp_ne(c.node, c.edge, cfg.vo) : interp_ne(c, false); dnn = mul(den, ine); dnn0 = mul(den, interp_ne(c, true));
			dee = fv ? fv_window(c.edge, c.edge, -cfg.vo/2, cfg.vo/2) : cont(c.edge, p, c.edge, 1); dne = fv ? fv_window(c.node, c.edge, -cfg.vo/2, cfg.vo/2-1) : diff_ne(c);
			ddn = diffdiff_n(c); dde = diffdiff_c(c.edge, p);
			k.op("interpolation to interfaces", g.GetOpInterpNodeToREdge(), ine); k.op("interpolation to levels", g.GetOpInterpREdgeToNode(), ien); k.op("derivative of levels", g.GetOpDiffNodeToNode(), dnn); k.op("derivative of levels at interfaces", g.GetOpDiffNodeToREdge(), dne);
			k.op("derivative of interfaces at levels", g.GetOpDiffREdgeToNode(), den); k.op("derivative of interfaces", g.GetOpDiffREdgeToREdge(), dee); k.op("second derivative of levels", g.GetOpDiffDiffNodeToNode(), ddn); k.op("second derivative of interfaces", g.GetOpDiffDiffREdgeToREdge(), dde);
			if (ne > 1) { if (fv) k.pen("penalty", g.GetOpPenaltyNodeToNode(), fv_penalty(c.node, c.edge, cfg.vo, 0), fv_penalty(c.node, c.edge, cfg.vo, 1), 1); else k.pen("penalty", g.GetOpPenaltyNodeToNode(), penalty(c, 0), penalty(c, 1), p); }
		}
		// the grid's own entries to them
		Vec n(N+1), e(N+1), n3(3*N), e3(3*N+3), rn(3*N), re(3*N+3), y(N+2);
		for (int r = 0; r < 3; r++) {
			for (Vec * v : {&n, &e, &n3, &e3, &rn, &re}) for (double & x : *v) x = k.noise();
			auto dot = [](const Row & m, const Vec & v, int st, const Vec * ref) { R s = 0; for (size_t j = 0; j < m.size(); j++) s += m[j]*(v[j*st] - (ref ? (*ref)[j*st] : 0)); return s; };
			auto col = [&](const char * what, const Mat & m, const Vec & v, bool zero) { for (size_t i = 0; i < m.size(); i++) { R w = dot(m[i], v, 1, NULL), sc = 1; for (R q : m[i]) sc += 2*fabsl(q); if (zero && (i == 0 || i+1 == m.size())) w = 0; k.n++; if (!Checker::close(y[i], w, sc)) k.say(what, vh::fmt("output %d is %.15g instead of %.15Lg", (int)i, y[i], w)); } };
			auto one = [&](const char * what, double got, R w, const Row & m) { R sc = 1; for (R q : m) sc += 4*fabsl(q); k.n++; if (!Checker::close(got, w, sc)) k.say(what, vh::fmt("is %.15g instead of %.15Lg", got, w)); };
			g.DifferentiateNodeToNode(&n[0], &y[0], false); col("DifferentiateNodeToNode", dnn, n, false);
			g.DiffDiffNodeToNode(&n[0], &y[0]); col("DiffDiffNodeToNode", ddn, n, false);
			for (int i = 0; i < N; i++) one("DifferentiateNodeToNode at a level", g.DifferentiateNodeToNode(&n3[0], i, 3), dot(dnn[i], n3, 3, NULL), dnn[i]);
			if (in) continue;
			if (!fv) { g.DifferentiateNodeToNode(&n[0], &y[0], true); col("DifferentiateNodeToNode with zero ends", dnn0, n, false); }
			for (int z = 0; z < 2; z++) { g.InterpolateNodeToREdge(&n[0], &y[0], z); col(z ? "InterpolateNodeToREdge with zero ends" : "InterpolateNodeToREdge", ine, n, z); }
			g.InterpolateREdgeToNode(&e[0], &y[0]); col("InterpolateREdgeToNode", ien, e, false);
			g.DifferentiateNodeToREdge(&n[0], &y[0], false); col("DifferentiateNodeToREdge", dne, n, false);
			g.DifferentiateREdgeToNode(&e[0], &y[0]); col("DifferentiateREdgeToNode", den, e, false);
			g.DifferentiateREdgeToREdge(&e[0], &y[0]); col("DifferentiateREdgeToREdge", dee, e, false);
			g.DiffDiffREdgeToREdge(&e[0], &y[0]); col("DiffDiffREdgeToREdge", dde, e, false);
			for (int i = 0; i <= N; i++) {
				one("InterpolateNodeToREdge at an interface", g.InterpolateNodeToREdge(&n3[0], NULL, i, 5.0, 3), dot(ine[i], n3, 3, NULL), ine[i]);
				one("InterpolateNodeToREdge of a difference", g.InterpolateNodeToREdge(&n3[0], &rn[0], i, 5.0, 3), 5 + dot(ine[i], n3, 3, &rn), ine[i]);
				one("DifferentiateNodeToREdge at an interface", g.DifferentiateNodeToREdge(&n3[0], i, 3), dot(dne[i], n3, 3, NULL), dne[i]);
				one("DifferentiateREdgeToREdge at an interface", g.DifferentiateREdgeToREdge(&e3[0], i, 3), dot(dee[i], e3, 3, NULL), dee[i]);
				if (i == N) break;
				one("InterpolateREdgeToNode at a level", g.InterpolateREdgeToNode(&e3[0], NULL, i, 5.0, 3), dot(ien[i], e3, 3, NULL), ien[i]);
				one("InterpolateREdgeToNode of a difference", g.InterpolateREdgeToNode(&e3[0], &re[0], i, 5.0, 3), 5 + dot(ien[i], e3, 3, &re), ien[i]);
				one("DifferentiateREdgeToNode at a level", g.DifferentiateREdgeToNode(&e3[0], i, 3), dot(den[i], e3, 3, NULL), den[i]);
			}
		}
		delete &k;
	}, VmpiOpts(), mr);
	if (!mr.ok) ctx.viol("grid " + cfg.name() + " run", mr.error);
}
void vh_jobs(vh::Registry & r) {
	bool th = r.thorough; int P = th ? 9 : 6, NE = th ? 7 : 6;
	// every pattern of element sizes 1, 1.5 and 3
	const R sizes[3] = {1, 1.5L, 3};
	for (int p = 1; p <= P; p++) for (int ne = 1; ne <= NE; ne++) r.add(vh::fmt("class-p%d-n%d", p, ne), [p, ne, sizes](vh::Ctx & c) {
		int tot = 1; for (int i = 0; i < ne; i++) tot *= 3;
		for (int code = 0; code < tot; code++) {
			Row b(1, 0); int x = code; std::string s; for (int i = 0; i < ne; i++, x /= 3) { b.push_back(b.back() + sizes[x%3]); s += '0' + x%3; }
			R L = b.back(); for (R & v : b) v /= L; b.back() = 1;
			classes(c, vh::fmt("order %d elements ", p) + s, p, b);
		}
	});
	if (th) for (int N = 8; N <= 12; N++) for (int v = 0; v < 8; v++) r.add(vh::fmt("class-long-%d-%d", N, v), [N, v](vh::Ctx & c) { Row b(1, 0); for (int i = 0; i < N; i++) b.push_back(b.back() + 1 + ((v*2654435761u + i*40503u*(v+1)) % 97)/50.0L); R L = b.back(); for (R & x : b) x /= L; b.back() = 1; for (int p = 1; p <= 3; p++) classes(c, vh::fmt("order %d long %d.%d", p, N, v), p, b); });
	for (int kind : {mini::CS, mini::CART, mini::CARTXZ}) for (const char * st : {"uniform", "cubic", "pwlinear"}) for (const char * stag : {"lor", "int", "lev", "cph"}) for (int vo = 1; vo <= (th ? 8 : 5); vo++) for (int m = 1; m <= (th ? 9 : 5); m++) {
		mini::Cfg c; c.kind = kind; c.nx = 2; c.ny = kind == mini::CARTXZ ? 1 : 2; c.stretch = st; c.stag = stag; c.vo = vo; c.tracers = 0;
		bool in = std::string(stag) == "int"; if (in && vo < 2) continue;
		c.lev = in ? (vo-1)*m+1 : vo*m;
		if (c.lev < 2) continue;
		r.add("grid-" + c.name(), [c](vh::Ctx & x) { grids(x, c); });
		if (!in && vo % 2 == 0) { c.vdisc = "fv"; for (int lev : {c.lev, c.lev+1}) { c.lev = lev; if (lev >= vo) r.add("grid-" + c.name(), [c](vh::Ctx & x) { grids(x, c); }); } }
	}
}
