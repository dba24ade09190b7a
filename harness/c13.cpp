// C13: quadrature, Legendre polynomials, polynomial interpolation, flux correction, small numerical helpers and the
// linear algebra wrappers, on every degree, point set, lattice point and matrix of the enumeration, against extended precision.
#include "vh.h"
#include "GaussQuadrature.h"
#include "GaussLobattoQuadrature.h"
#include "LegendrePolynomial.h"
#include "PolynomialInterp.h"
#include "LinearAlgebra.h"
#include "MathHelper.h"
#include "FluxCorrectionFunction.h"
#include "GridSpacing.h"
#include <cmath>
#include <cstring>
#include <climits>
#include <functional>
#include <memory>
#include <algorithm>
typedef long double R;
typedef std::vector<R> Row;
static void ok(vh::Ctx & c, const std::string & key, double got, R want, R tol, const std::string & where) {
	c.count("evaluations"); if (want != 0 && want != 1) c.count("distinct_nontrivial");
	if (!(fabsl((R)got - want) <= tol)) c.viol(key, where + vh::fmt(": %.17g instead of %.17Lg", got, want));
}
static void refused(vh::Ctx & c, const std::string & key, const std::function<void()> & f) { c.count("evaluations"); bool r = false; try { f(); } catch (Exception &) { r = true; } if (!r) c.viol(key, key + " was not refused"); }
// P_n, P_n', P_n'' by the recurrences
static void leg(int n, R x, R & p, R & d, R & dd) { R p0 = 1, p1 = x, d0 = 0, d1 = 1, e0 = 0, e1 = 0; if (n == 0) { p = 1; d = dd = 0; return; } for (int k = 2; k <= n; k++) { R p2 = ((2*k-1)*x*p1 - (k-1)*p0)/k, d2 = ((2*k-1)*(p1+x*d1) - (k-1)*d0)/k, e2 = ((2*k-1)*(2*d1+x*e1) - (k-1)*e0)/k; p0 = p1; p1 = p2; d0 = d1; d1 = d2; e0 = e1; e1 = e2; } p = p1; d = d1; dd = e1; }
static R bisect(const std::function<R(R)> & f, R a, R b) { R fa = f(a); for (int i = 0; i < 200; i++) { R m = (a+b)/2, fm = f(m); if ((fa < 0) == (fm < 0)) { a = m; fa = fm; } else b = m; } return (a+b)/2; }
// roots of P_n (der 0) or P_n' (der 1), ascending: sign changes on a fine lattice of angles
static Row roots(int n, int der) {
	Row r; auto f = [&](R x) { R p, d, e; leg(n, x, p, d, e); return der ? d : p; };
	int N = 40*n+40; for (int i = 0; i < N; i++) { R a = -cosl(M_PIl*(i+0.3L)/(N+1)), b = -cosl(M_PIl*(i+1.3L)/(N+1)); if ((f(a) < 0) != (f(b) < 0)) r.push_back(bisect(f, a, b)); }
	return r;
}
static R binom(int n, int k) { R b = 1; for (int i = 1; i <= k; i++) b = b*(n-k+i)/i; return b; }

static void quadrature(vh::Ctx & c, bool lob, int n) {
	static const double I[][2] = {{-1,1}, {0,1}, {1,0}, {-3.5,2.25}, {0,12000}, {1e6,1e6+1}, {-0.125,-0.0625}, {2,2}};
	for (int v = -1; v < 8; v++) {
		DataArray1D<double> g, w; std::string at = vh::fmt("%s %d interval %d", lob ? "Lobatto" : "Gauss", n, v); double a = v < 0 ? -1 : I[v][0], b = v < 0 ? 1 : I[v][1];
		if (v < 0) { if (lob) GaussLobattoQuadrature::GetPoints(n, g, w); else GaussQuadrature::GetPoints(n, g, w); }
		else { if (v == 3) { g.Allocate(n+2); w.Allocate(1); } if (lob) GaussLobattoQuadrature::GetPoints(n, a, b, g, w); else GaussQuadrature::GetPoints(n, a, b, g, w); }
		if ((int)g.GetRows() != n || (int)w.GetRows() != n) { c.viol("size", at + ": wrong number of points"); return; }
		Row x = lob ? roots(n-1, 1) : roots(n, 0); if (lob) { x.insert(x.begin(), -1); x.push_back(1); } R h = ((R)b-a)/2, sc = std::max(fabsl((R)a), fabsl((R)b));
		if ((int)x.size() != n) { c.err("oracle roots"); return; }
		for (int i = 0; i < n; i++) { R p, d, e, ww; if (lob) { leg(n-1, x[i], p, d, e); ww = 2/(n*(n-1)*p*p); } else { leg(n, x[i], p, d, e); ww = 2/((1-x[i]*x[i])*d*d); }
			ok(c, vh::fmt("%s %d points", lob ? "Lobatto" : "Gauss", n), g[i], a + h*(1+x[i]), 3e-15L*(sc+fabsl(h))*(n > 10 ? 10 : 1), at);
			ok(c, vh::fmt("%s %d weights", lob ? "Lobatto" : "Gauss", n), w[i], h*ww, fabsl(h)*(n > 10 ? 1e-11L : 1e-14L), at); }
		// integrals of all monomials in (x-mid)/h up to the degree
		if (h != 0 && sc < 1e5) for (int k = 0; k <= 2*n-(lob ? 3 : 1); k++) { R s = 0; for (int i = 0; i < n; i++) s += (R)w[i]*powl(((R)g[i] - ((R)a+b)/2)/h, k); ok(c, vh::fmt("%s %d degree", lob ? "Lobatto" : "Gauss", n), (double)s, k % 2 ? 0 : 2*h/(k+1), fabsl(h)*(n > 10 ? 1e-11L : 2e-14L), at + vh::fmt(" degree %d", k)); }
	}
}
static void legendre(vh::Ctx & c, int n, bool T) {
	int N = T ? 4000 : 800; std::string D = vh::fmt("P%d", n);
	for (int i = -N/4; i <= N+N/4; i++) { double x = -1.0 + 2.0*i/N; if (i == 0) x = -1; if (i == N) x = 1; if (i < 0) x = -1.0 - 0.001*(-i); if (i > N) x = 1.0 + 0.001*(i-N); if (n > 8 && fabs(x) > 1) continue;
		R p, d, e, P, Dd, E; leg(n, x, p, d, e); leg(n, std::max((R)1, fabsl((R)x)), P, Dd, E); double v, w; LegendrePolynomial::EvaluateValueAndDerivative(n, x, v, w);
		bool near = n > 8 && fabs(x) != 1 && 1-fabs(x) < 0.02; R td = near ? 1e-12L*n*n/(1-fabsl((R)x)) + 1e-12L*Dd : 2e-13L*(n+1)*Dd;
		ok(c, D + " value", v, p, 1e-13L*(n+1)*P, vh::fmt("x=%.17g", x)); ok(c, D + " derivative", w, d, td, vh::fmt("x=%.17g", x));
		ok(c, D + " Evaluate", LegendrePolynomial::Evaluate(n, x), v, 0, "x"); ok(c, D + " EvaluateDerivative", LegendrePolynomial::EvaluateDerivative(n, x), w, 0, "x"); }
	Row r = roots(n, 0), dr = n >= 1 ? roots(n, 1) : Row(); R tol = n > 8 ? 1e-13L : 1e-15L;
	DataArray1D<double> a(n+3); for (int i = 0; i < n+3; i++) a[i] = 77; LegendrePolynomial::AllRoots(n, a); for (int i = 0; i < n; i++) ok(c, D + " AllRoots", a[i], r[i], 1e-13L, vh::fmt("root %d", i)); for (int i = n; i < n+3; i++) ok(c, D + " AllRoots beyond", a[i], 77, 0, "");
	for (int i = 0; i < n+3; i++) a[i] = 77; LegendrePolynomial::AllDerivativeRoots(n, a); for (int i = 0; i < n-1; i++) ok(c, D + " AllDerivativeRoots", a[i], dr[i], 1e-13L, vh::fmt("root %d", i)); for (int i = std::max(n-1, 0); i < n+3; i++) ok(c, D + " AllDerivativeRoots beyond", a[i], 77, 0, "");
	refused(c, D + " root -1", [&]() { LegendrePolynomial::Root(n, -1); }); refused(c, D + " root n", [&]() { LegendrePolynomial::Root(n, n); });
	if (n >= 1) { refused(c, D + " derivative root n-1", [&]() { LegendrePolynomial::DerivativeRoot(n, n-1); }); refused(c, D + " derivative root -1", [&]() { LegendrePolynomial::DerivativeRoot(n, -1); }); refused(c, D + " extended root", [&]() { LegendrePolynomial::DerivativeExtendedRoot(n, n+1); }); }
	if (n > 8) { refused(c, D + " degree", [&]() { LegendrePolynomial::Root(n, 0); }); refused(c, D + " degree", [&]() { LegendrePolynomial::DerivativeRoot(n, 0); }); return; }
	for (int i = 0; i < n; i++) ok(c, D + " Root", LegendrePolynomial::Root(n, i), r[i], tol, vh::fmt("root %d", i));
	for (int i = 0; i < n-1; i++) ok(c, D + " DerivativeRoot", LegendrePolynomial::DerivativeRoot(n, i), dr[i], tol, vh::fmt("root %d", i));
	if (n >= 1) for (int i = 0; i <= n; i++) ok(c, D + " extended root", LegendrePolynomial::DerivativeExtendedRoot(n, i), i == 0 ? -1 : i == n ? 1 : dr[i-1], tol, vh::fmt("root %d", i));
	for (int i = 0; i < n; i++) for (int k = -10; k <= 10; k++) { R x = k/10.0L, want = 1; double xd = (double)x; for (int j = 0; j < n; j++) if (j != i) want *= ((R)xd-r[j])/(r[i]-r[j]); R m = 1; for (int j = 0; j < n; j++) if (j != i) m *= 2/fabsl(r[i]-r[j]); ok(c, D + vh::fmt(" characteristic %d", i), LegendrePolynomial::EvaluateCharacteristic(n, i, xd), want, 3e-14L*std::max((R)1, m), vh::fmt("x=%g", xd)); }
}
// m-th derivative at y of the Lagrange basis on x: coefficients of the polynomial about y
static Row lagrange(const std::vector<double> & x, double y, int m, R & scale) {
	int n = x.size(); Row out(n, 0); scale = 0;
	for (int i = 0; i < n; i++) { Row q(n+1, 0), s(n+1, 0); q[0] = 1; s[0] = 1; int deg = 0; for (int j = 0; j < n; j++) if (j != i) { R den = (R)x[i]-x[j], a0 = ((R)y-x[j])/den, a1 = 1/den, b0 = std::max(fabsl(a0), 1e-16L*std::max(fabsl((R)y), fabsl((R)x[j]))*fabsl(a1)), b1 = fabsl(a1); for (int k = ++deg; k >= 0; k--) { q[k] = q[k]*a0 + (k ? q[k-1]*a1 : 0); s[k] = s[k]*b0 + (k ? s[k-1]*b1 : 0); } }
		R f = 1; for (int k = 2; k <= m; k++) f *= k; if (m <= n-1) { out[i] = q[m]*f; scale = std::max(scale, s[m]*f); } }
	return out;
}
static void interp(vh::Ctx & c, const std::vector<double> & x, const std::vector<double> & ys, bool rich) {
	int n = x.size(); std::string pt; for (double v : x) pt += vh::fmt("%.6g ", v);
	std::vector<double> co(n+2), wk(n*n+2, 5); std::vector<int> pv(n+2, 5);
	for (double y : ys) {
		double gap = 1e300; bool hit = false; for (double v : x) { if (v == y) hit = true; else gap = std::min(gap, fabs(v-y)); }
		for (int m = 0; m <= 3; m++) {
			R sc; Row w = lagrange(x, y, m, sc); for (auto & v : co) v = 77;
			if (m == 0) PolynomialInterp::LagrangianPolynomialCoeffs(n, &x[0], &co[0], y); else if (m == 1) PolynomialInterp::DiffLagrangianPolynomialCoeffs(n, &x[0], &co[0], y); else if (m == 2) PolynomialInterp::DiffDiffLagrangianPolynomialCoeffs(n, &x[0], &co[0], y); else PolynomialInterp::DiffDiffDiffLagrangianPolynomialCoeffs(n, &x[0], &co[0], y);
			if (m == 2 && n < 3) { /* no second derivative */ } // coefficients vanish: judged all the same
			// away from the points the sums of inverse distances cancel
			if (m > n-1) { double g = 1e300; for (double v : x) for (double u : x) if (u != v) g = std::min(g, fabs(u-v)); R s0; lagrange(x, y, 0, s0); sc = std::max(s0, (R)1)*powl(n > 1 ? n/(R)g : 1, m); } R tol = 2e-13L*sc; if (!hit && m) { R amp = 0; Row w0; R s0; w0 = lagrange(x, y, 0, s0); for (int i = 0; i < n; i++) amp = std::max(amp, fabsl(w0[i])); R inv = n/(R)gap; tol += 1e-15L*amp*powl(inv, m)*20; }
			for (int i = 0; i < n; i++) ok(c, vh::fmt("Lagrange derivative %d, %d points%s", m, n, hit ? " at a point" : ""), co[i], w[i], tol, pt + vh::fmt("at %.17g coefficient %d", y, i));
			if (co[n] != 77 || co[n+1] != 77) c.viol("overrun", "coefficients beyond the points written");
		}
		if (!rich) continue;
		for (int k = 0; k < n+2; k++) { // values of all monomials, unit vectors
			std::vector<double> f(n); for (int i = 0; i < n; i++) f[i] = k < n ? pow(x[i], k) : (i == (k-n)*(n-1) ? 1 : 0); R sc, want = 0, mx = 0; Row w = lagrange(x, y, 0, sc); for (int i = 0; i < n; i++) { want += w[i]*f[i]; mx = std::max(mx, fabsl((R)f[i])); }
			ok(c, "Interpolate", PolynomialInterp::Interpolate(n, &x[0], &f[0], y), want, 1e-13L*sc*n*(mx+1e-300L), pt + vh::fmt("at %.17g function %d", y, k));
			double g = PolynomialInterp::Interpolate(n, &x[0], &f[0], x[0]); ok(c, "Interpolate at a point", g, f[0], 0, pt);
			// coefficients about a centre, with and without work space
			for (int mode = 0; mode < 3; mode++) { double mid = mode == 0 ? 0 : 0.4*y; std::vector<double> a(n+1, 77); if (mode == 0) PolynomialInterp::InterpolateCoeffs(n, &x[0], &f[0], &a[0]); else if (mode == 1) PolynomialInterp::InterpolateCoeffs(n, &x[0], &f[0], &a[0], mid); else PolynomialInterp::InterpolateCoeffs(n, &x[0], &f[0], &a[0], mid, &wk[0], &pv[0]);
				R cond = 0, fac = 1; Row wm; Row want(n); for (int d = 0; d < n; d++) { if (d) fac *= d; R s; wm = lagrange(x, mid, d, s); R v = 0; for (int i = 0; i < n; i++) v += wm[i]*f[i]; want[d] = v/fac; cond = std::max(cond, s/fac*(mx+1e-300L)); }
				R xm = 1; for (double v : x) xm = std::max(xm, fabsl((R)v-mid)); for (int d = 0; d < n; d++) ok(c, "InterpolateCoeffs", a[d], want[d], 1e-13L*cond*powl(xm, n-1)*n*10, pt + vh::fmt("centre %g function %d mode %d coefficient %d", mid, k, mode, d));
				if (a[n] != 77 || wk[n*n] != 5 || pv[n] != 5) c.viol("overrun", "InterpolateCoeffs writes beyond its arrays"); }
		}
	}
}
static const std::vector<double> PTS = {-2, -1, -0.5, 0, 0.3, 1, 1.75, 4};
static void subsets(vh::Ctx & c, int first, int maxn) { // every ordered choice of distinct points starting with one
	std::vector<double> x{PTS[first]}; std::vector<double> ys = PTS; for (double y : {-3.0, -0.75, 0.1, 0.65, 2.5, 5.0}) ys.push_back(y);
	std::function<void()> rec = [&]() { interp(c, x, ys, x.size() <= 4); if ((int)x.size() == maxn || c.nviol > 20) return; for (double p : PTS) if (std::find(x.begin(), x.end(), p) == x.end()) { x.push_back(p); rec(); x.pop_back(); } };
	rec();
}
static void nodesets(vh::Ctx & c, int n) { // the model's own nodes
	for (int kind = 0; kind < 2; kind++) { if (kind && n < 2) continue; Row r = kind ? roots(n-1, 1) : roots(n, 0); if (kind) { r.insert(r.begin(), -1); r.push_back(1); }
		for (double a : {0.0, -0.5, 20.0, 0.75}) for (double h : {1.0, 0.1, 3000.0, 0.003}) { std::vector<double> x, ys; for (R v : r) x.push_back((double)(a + h*(v+1)/2)); for (double v : x) ys.push_back(v); for (int k = 0; k <= 12; k++) ys.push_back(a + h*(k/12.0 + 0.0137)); interp(c, x, ys, h == 1 && a == 0 && n <= 7); } }
}
static void fluxcorr(vh::Ctx & c, int type, int K) {
	// g of degree K: g(-1)=1, a zero of multiplicity `type` at 1, orthogonal to polynomials of degree below K-type;
	// the derivative is that of its mirror image (1 at the right end) on [0,1]
	std::vector<Row> A(K+1, Row(K+2, 0)); int row = 0; for (int k = 0; k <= K; k++) A[row][k] = k % 2 ? -1 : 1; A[row++][K+1] = 1;
	for (int m = 0; m < type; m++, row++) for (int k = m; k <= K; k++) { R f = 1; for (int q = 0; q < m; q++) f *= k-q; A[row][k] = f; }
	for (int n = 0; n < K-type; n++, row++) for (int k = 0; k <= K; k++) if ((k+n) % 2 == 0) A[row][k] = 2.0L/(k+n+1);
	int N = K+1; for (int i = 0; i < N; i++) { int p = i; for (int j = i; j < N; j++) if (fabsl(A[j][i]) > fabsl(A[p][i])) p = j; std::swap(A[i], A[p]); for (int j = 0; j < N; j++) if (j != i) { R f = A[j][i]/A[i][i]; for (int k = i; k <= N; k++) A[j][k] -= f*A[i][k]; } }
	Row g(N); for (int i = 0; i < N; i++) g[i] = A[i][N]/A[i][i];
	for (int set = 0; set < 3; set++) { DataArray1D<double> x(set == 0 ? 2 : set == 1 ? 9 : 1), d; for (size_t i = 0; i < x.GetRows(); i++) x[i] = set == 0 ? (double)i : set == 1 ? i/8.0 : 0.37; if (set == 1) d.Allocate(9); if (set == 2) d.Allocate(4); if (set) for (size_t i = 0; i < d.GetRows(); i++) d[i] = 5;
		FluxCorrectionFunction::GetDerivatives(type, K, x, d); if (d.GetRows() != x.GetRows()) { c.viol("flux correction size", "wrong size"); return; }
		R sc = 0; for (int k = 1; k <= K; k++) sc += 2*k*fabsl(g[k]);
		for (size_t i = 0; i < x.GetRows(); i++) { R y = -(2*(R)x[i]-1), s = 0; for (int k = 1; k <= K; k++) s += k*g[k]*powl(y, k-1); ok(c, vh::fmt("flux correction type %d order %d", type, K), d[i], -2*s, 1e-12L*sc*(1 << std::min(K, 12)), vh::fmt("at %g", x[i])); } }
}
static void helpers(vh::Ctx & c, bool T) {
	std::vector<double> V = {-1e300, -7.5, -1, -1e-300, -0.0, 0.0, 1e-300, 0.5, 1, 3, 1e300};
	for (double a : V) for (double b : V) { ok(c, "Max", Max(a, b), a > b ? a : b, 0, ""); ok(c, "Min", Min(a, b), a < b ? a : b, 0, ""); for (double y : V) if (a <= b) ok(c, "Clamp", Clamp(y, a, b), y < a ? a : y > b ? b : y, 0, vh::fmt("%g in %g %g", y, a, b)); }
	for (double a : V) ok(c, "Sign", Sign(a), a < 0 ? -1 : 1, 0, vh::fmt("%g", a)); for (int a = -3; a <= 3; a++) { ok(c, "Sign", Sign(a), a < 0 ? -1 : 1, 0, ""); for (int b = -3; b <= 3; b++) { ok(c, "Max", Max(a, b), a > b ? a : b, 0, ""); ok(c, "Min", Min(a, b), a < b ? a : b, 0, ""); } }
	auto sq = [&](unsigned a) { unsigned r = ISqrt(a); c.count("evaluations"); unsigned long q = r; if (!(q*q <= a && (q+1)*(q+1) > a)) c.viol("ISqrt", vh::fmt("ISqrt(%u) = %u", a, r)); };
	for (unsigned a = 0; a < (T ? 20000000u : 2000000u); a++) sq(a); for (unsigned long k = 1; k < 65536; k++) for (long d = -2; d <= 2; d++) { long a = (long)(k*k)+d; if (a >= 0 && a <= (long)UINT_MAX) sq((unsigned)a); } for (unsigned a = UINT_MAX; a > UINT_MAX-100000; a--) sq(a);
	for (int d = -12; d <= 12; d++) for (unsigned p = 0; p <= 12; p++) { R w = 1; for (unsigned k = 0; k < p; k++) w *= d; if (fabsl(w) <= INT_MAX) ok(c, "IntPow", IntPow(d, p), w, 0, vh::fmt("%d^%u", d, p)); ok(c, "IPow", IPow(d/4.0, p), w/powl(4, p), 1e-15L*p*fabsl(w)/powl(4, p), vh::fmt("%g^%u", d/4.0, p)); }
	R f = 1; for (unsigned p = 0; p <= 12; p++) { if (p) f *= p; ok(c, "IFact", IFact(p), f, 0, vh::fmt("%u!", p)); }
	std::vector<double> L = {-2, -0.75, 0, 0.3, 1, 2.5}; for (double x : L) for (double a : L) for (double b : L) for (double y1 : {-1.0, 0.0, 3.0}) for (double y2 : {-2.5, 0.0, 1.0}) if (a != b) { R w = ((R)x-a)/((R)b-a); ok(c, "LinearInterpolate", LinearInterpolate(x, a, b, y1, y2), (1-w)*y1+w*y2, 1e-14L*(1+fabsl(w))*4, vh::fmt("%g on %g %g", x, a, b)); }
	for (double x : L) for (double dx : {0.25, 1.0, -1.0, 3.0}) for (int u = 0; u < 256; u++) { double y[4]; for (int k = 0; k < 4; k++) y[k] = (u >> (2*k) & 3) - 1; std::vector<double> p3 = {0, dx, 2*dx}, p4 = {0, dx, 2*dx, 3*dx}; R s; if (y[3] == -1) { Row w = lagrange(p3, x, 0, s); ok(c, "QuadraticInterpolate", QuadraticInterpolate(x, dx, y[0], y[1], y[2]), w[0]*y[0]+w[1]*y[1]+w[2]*y[2], 1e-13L*(1+s)*4, vh::fmt("%g step %g", x, dx)); } Row w = lagrange(p4, x, 0, s); ok(c, "CubicInterpolate", CubicInterpolate(x, dx, y[0], y[1], y[2], y[3]), w[0]*y[0]+w[1]*y[1]+w[2]*y[2]+w[3]*y[3], 1e-13L*(1+s)*8, vh::fmt("%g step %g", x, dx)); }
}
// --- linear algebra: matrices are stored column by column: array row = matrix column
typedef std::vector<Row> Mat; // Mat[i][j] row i column j
static bool solve(Mat a, Row b, Row & x, R & cond) { int n = b.size(); R big = 0, lo = 1e300L; for (auto & r : a) for (R v : r) big = std::max(big, fabsl(v)); for (int i = 0; i < n; i++) { int p = i; for (int j = i; j < n; j++) if (fabsl(a[j][i]) > fabsl(a[p][i])) p = j; if (fabsl(a[p][i]) < 1e-12L) return false; std::swap(a[i], a[p]); std::swap(b[i], b[p]); lo = std::min(lo, fabsl(a[i][i])); for (int j = 0; j < n; j++) if (j != i) { R f = a[j][i]/a[i][i]; for (int k = i; k < n; k++) a[j][k] -= f*a[i][k]; b[j] -= f*b[i]; } } x.resize(n); for (int i = 0; i < n; i++) x[i] = b[i]/a[i][i]; cond = powl(1+big/lo, 2); return true; }
static DataArray2D<double> fort(const Mat & a) { int m = a.size(), n = a[0].size(); DataArray2D<double> d(n, m); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) d[j][i] = (double)a[i][j]; return d; }
static double rhs(int i, int s) { static const double v[] = {1, -2, 0.5, 3, -1.25, 2.75, -0.5, 4}; return v[(i*3+s*5+i*i*s) & 7]; }
static void dense(vh::Ctx & c, const Mat & A) {
	int n = A.size(); std::string at; for (auto & r : A) { for (R v : r) at += vh::fmt("%Lg ", v); at += "; "; }
	Row b(n), b2(n), x, x2, y; R cond; for (int i = 0; i < n; i++) { b[i] = rhs(i, 0); b2[i] = rhs(i, 1); } bool reg = solve(A, b, x, cond); R k2; if (reg) solve(A, b2, x2, k2); Mat At = A; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) At[i][j] = A[j][i]; if (reg) solve(At, b, y, k2);
	auto vec = [&](const Row & r) { DataArray1D<double> v(n); for (int i = 0; i < n; i++) v[i] = (double)r[i]; return v; };
	R tol = 1e-13L*(reg ? cond : 1);
	{ DataArray2D<double> a = fort(A); DataArray1D<double> v = vec(b); DataArray1D<int> p(n); int info = LAPACK::DGESV(a, v, p); c.count("evaluations"); if (reg != (info == 0)) { if (!(info == 0 && !reg)) c.viol("DGESV info", at + vh::fmt("info %d", info)); } if (reg) for (int i = 0; i < n; i++) ok(c, "DGESV", v[i], x[i], tol*(1+fabsl(x[i])), at); }
	if (!reg) return;
	{ DataArray2D<double> a = fort(A), v(2, n); for (int i = 0; i < n; i++) { v[0][i] = (double)b[i]; v[1][i] = (double)b2[i]; } DataArray1D<int> p(n); LAPACK::DGESV(a, v, p); for (int i = 0; i < n; i++) { ok(c, "DGESV many", v[0][i], x[i], tol*(1+fabsl(x[i])), at); ok(c, "DGESV many", v[1][i], x2[i], tol*(1+fabsl(x2[i])), at); } }
	{ DataArray2D<double> a = fort(A); DataArray1D<double> v = vec(b), w = vec(b), u = vec(b2); DataArray1D<int> p(n); LAPACK::DGETRF(a, p); LAPACK::DGETRS('N', a, v, p); LAPACK::DGETRS('T', a, w, p); LAPACK::DGETRS('N', a, u, p); for (int i = 0; i < n; i++) { ok(c, "DGETRS", v[i], x[i], tol*(1+fabsl(x[i])), at); ok(c, "DGETRS T", w[i], y[i], tol*(1+fabsl(y[i]))*10, at); ok(c, "DGETRS again", u[i], x2[i], tol*(1+fabsl(x2[i])), at); }
		DataArray1D<double> wk(n+2); LAPACK::DGETRI(a, p, wk); for (int j = 0; j < n; j++) { Row e(n, 0), z; e[j] = 1; R q; solve(A, e, z, q); for (int i = 0; i < n; i++) ok(c, "DGETRI", a[j][i], z[i], tol*(1+fabsl(z[i]))*4, at); } }
	// band storage
	int kl = 0, ku = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (A[i][j] != 0) { kl = std::max(kl, i-j); ku = std::max(ku, j-i); }
	for (int ex = 0; ex < 2; ex++) { int KL = std::min(n-1, kl+ex), KU = std::min(n-1, ku+ex); for (int pad = 0; pad < 2; pad++) {
		auto band = [&]() { DataArray2D<double> a(n, 2*KL+KU+1+pad); for (int j = 0; j < n; j++) for (int i = std::max(0, j-KU); i <= std::min(n-1, j+KL); i++) a[j][KL+KU+i-j] = (double)A[i][j]; return a; };
		{ DataArray2D<double> a = band(); DataArray1D<double> v = vec(b); DataArray1D<int> p(n); c.count("evaluations"); if (LAPACK::DGBSV(a, v, p, KL, KU)) c.viol("DGBSV info", at); for (int i = 0; i < n; i++) ok(c, "DGBSV", v[i], x[i], tol*(1+fabsl(x[i])), at + vh::fmt("kl %d ku %d", KL, KU)); }
		{ DataArray2D<double> a = band(); DataArray1D<double> v = vec(b), w = vec(b), u = vec(b2); DataArray1D<int> p(n); LAPACK::DGBTRF(a, p, KL, KU); LAPACK::DGBTRS('N', a, v, p, KL, KU); LAPACK::DGBTRS('T', a, w, p, KL, KU); LAPACK::DGBTRS('N', a, u, p, KL, KU); for (int i = 0; i < n; i++) { ok(c, "DGBTRS", v[i], x[i], tol*(1+fabsl(x[i])), at + vh::fmt("kl %d ku %d", KL, KU)); ok(c, "DGBTRS T", w[i], y[i], tol*(1+fabsl(y[i]))*10, at); ok(c, "DGBTRS again", u[i], x2[i], tol*(1+fabsl(x2[i])), at); } } } }
	if (kl <= 1 && ku <= 1 && n >= 2) { DataArray1D<double> dl(n-1), d(n), du(n-1), v = vec(b); for (int i = 0; i < n; i++) { d[i] = (double)A[i][i]; if (i+1 < n) { dl[i] = (double)A[i+1][i]; du[i] = (double)A[i][i+1]; } } LAPACK::DGTSV(dl, d, du, v); for (int i = 0; i < n; i++) ok(c, "DGTSV", v[i], x[i], tol*(1+fabsl(x[i])), at); }
	// triangles of the matrix
	for (int up = 0; up < 2; up++) for (int unit = 0; unit < 2; unit++) { Mat t(n, Row(n, 0)); bool sing = false; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (i == j) { t[i][j] = unit ? 1 : A[i][j]; if (t[i][j] == 0) sing = true; } else if ((j > i) == (bool)up) t[i][j] = A[i][j]; } if (sing) continue;
		for (int tr = 0; tr < 2; tr++) { Mat tt = t; if (tr) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) tt[i][j] = t[j][i]; Row z; R q; solve(tt, b, z, q); DataArray1D<double> pk(n*(n+1)/2), v = vec(b); int k = 0; for (int j = 0; j < n; j++) for (int i = up ? 0 : j; i <= (up ? j : n-1); i++) pk[k++] = (double)A[i][j]; LAPACK::DTPSV(up ? 'U' : 'L', tr ? 'T' : 'N', unit ? 'U' : 'N', n, pk, v); for (int i = 0; i < n; i++) ok(c, "DTPSV", v[i], z[i], 1e-13L*q*(1+fabsl(z[i])), at); }
		DataArray2D<double> a = fort(A); LAPACK::DTRTRI(up ? 'U' : 'L', unit ? 'U' : 'N', a); for (int j = 0; j < n; j++) { Row e(n, 0), z; e[j] = 1; R q; solve(t, e, z, q); for (int i = 0; i < n; i++) { bool in = up ? i < j : i > j; if (in || (i == j && !unit)) ok(c, "DTRTRI", a[j][i], z[i], 1e-13L*q*(1+fabsl(z[i])), at); else ok(c, "DTRTRI rest", a[j][i], A[i][j], 0, at); } } }
}
static Mat mul(const Mat & a, const Mat & b) { Mat r(a.size(), Row(b[0].size(), 0)); for (size_t i = 0; i < a.size(); i++) for (size_t k = 0; k < b.size(); k++) for (size_t j = 0; j < b[0].size(); j++) r[i][j] += a[i][k]*b[k][j]; return r; }
static void inverses(vh::Ctx & c, const Mat & A) { // A of full column rank (m >= n): QR, pseudo inverses
	int m = A.size(), n = A[0].size(); Mat At(n, Row(m)); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) At[j][i] = A[i][j]; Mat G = mul(At, A), P(n, Row(m)); R q = 1; std::string at; for (auto & r : A) { for (R v : r) at += vh::fmt("%Lg ", v); at += "; "; }
	for (int k = 0; k < m; k++) { Row b(n), x; for (int i = 0; i < n; i++) b[i] = At[i][k]; if (!solve(G, b, x, q)) return; for (int i = 0; i < n; i++) P[i][k] = x[i]; }
	{ DataArray2D<double> a = fort(A), o; LAPACK::GeneralizedInverse(a, o); if ((int)o.GetRows() != m || (int)o.GetColumns() != n) c.viol("GeneralizedInverse size", at); else for (int i = 0; i < n; i++) for (int k = 0; k < m; k++) ok(c, "GeneralizedInverse", o[k][i], P[i][k], 1e-12L*q, at); }
	{ DataArray2D<double> a = fort(A); DataArray1D<double> tau(n), wk(2*m+n); LAPACK::DGEQRF(a, tau, wk); Mat r(n, Row(n, 0)); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) r[i][j] = a[j][i]; LAPACK::DORGQR(a, tau, wk); Mat Q(m, Row(n)); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) Q[i][j] = a[j][i]; Mat B = mul(Q, r); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) ok(c, "QR", (double)B[i][j], A[i][j], 1e-13L*20, at); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { R s = 0; for (int k = 0; k < m; k++) s += Q[k][i]*Q[k][j]; ok(c, "Q orthogonal", (double)s, i == j, 1e-13L, at); } }
	for (int t = 0; t < 2; t++) { DataArray2D<double> a = fort(t ? At : A), o; LAPACK::GeneralizedInverseSVD(a, o); int M = t ? n : m, N = t ? m : n; // pseudo inverse is N x M, array [M... ]
		bool shape = ((int)o.GetRows() == M && (int)o.GetColumns() == N) || ((int)o.GetRows() == N && (int)o.GetColumns() == M); c.count("evaluations"); if (!shape) { c.viol("GeneralizedInverseSVD size", at); continue; }
		for (int i = 0; i < n; i++) for (int k = 0; k < m; k++) { R want = P[i][k]; (void)M; double got; if (t == 0) got = o[i][k]; else got = o[k][i]; ok(c, t ? "GeneralizedInverseSVD wide" : "GeneralizedInverseSVD", got, want, 1e-12L*q, at); } }
	{ Mat X(n, Row(3)); for (int i = 0; i < n; i++) for (int j = 0; j < 3; j++) X[i][j] = rhs(i+j, 2); Mat C = mul(A, X); for (double al : {1.0, -0.5, 0.0}) for (double be : {0.0, 1.0, 2.5}) { DataArray2D<double> a = fort(A), b = fort(X), d(3, m); for (int j = 0; j < 3; j++) for (int i = 0; i < m; i++) d[j][i] = rhs(i, j); LAPACK::DGEMM(d, a, b, al, be); for (int j = 0; j < 3; j++) for (int i = 0; i < m; i++) ok(c, "DGEMM", d[j][i], al*C[i][j] + be*(R)rhs(i, j), 1e-13L*50, at); } }
}
static void vectors(vh::Ctx & c, int n) {
	auto v = [&](int s) { DataArray1D<double> x(n); for (int i = 0; i < n; i++) x[i] = rhs(i, s); return x; };
	DataArray1D<double> x = v(0), y = v(1); LAPACK::DSWAP(x, y); for (int i = 0; i < n; i++) { ok(c, "DSWAP", x[i], rhs(i, 1), 0, ""); ok(c, "DSWAP", y[i], rhs(i, 0), 0, ""); }
	LAPACK::DSCAL(x, -2.5); for (int i = 0; i < n; i++) ok(c, "DSCAL", x[i], -2.5L*rhs(i, 1), 0, ""); DataArray1D<double> z(n), e; LAPACK::DCOPY(x, z); LAPACK::DCOPY(x, e); for (int i = 0; i < n; i++) { ok(c, "DCOPY", z[i], x[i], 0, ""); ok(c, "DCOPY", e[i], x[i], 0, ""); }
	std::vector<double> q(n+1, 9); LAPACK::DCOPY_A(y, &q[0]); for (int i = 0; i < n; i++) ok(c, "DCOPY_A", q[i], y[i], 0, ""); ok(c, "DCOPY_A", q[n], 9, 0, "");
	for (double a : {0.0, 1.0, -0.75}) { DataArray1D<double> p = v(2), r = v(2); LAPACK::DAXPY(a, x, p); LAPACK::DAXPY_A(a, &q[0], r); for (int i = 0; i < n; i++) { ok(c, "DAXPY", p[i], (R)a*x[i]+rhs(i, 2), 1e-14L, ""); ok(c, "DAXPY_A", r[i], (R)a*q[i]+rhs(i, 2), 1e-14L, ""); } }
	R s = 0, t = 0, u = 0; for (int i = 0; i < n; i++) { s += (R)x[i]*y[i]; t += (R)x[i]*q[i]; u += (R)x[i]*x[i]; } ok(c, "DDOT", LAPACK::DDOT(x, y), s, 1e-13L*n, ""); ok(c, "DDOT_A", LAPACK::DDOT_A(x, &q[0]), t, 1e-13L*n, ""); ok(c, "DNORM2", LAPACK::DNORM2(x), sqrtl(u), 1e-13L*n, "");
	DataArray1D<double> w(n+1); refused(c, "DSWAP of different lengths", [&]() { LAPACK::DSWAP(x, w); }); refused(c, "DDOT of different lengths", [&]() { LAPACK::DDOT(x, w); });
}
// spacings of coordinate lines: nodes and edges of periodically repeated elements, in both directions from the zero coordinate
static void spacing(vh::Ctx & c, int kind, int n) {
	static const double D[] = {1, 0.25, 1500, M_PI/60}, Z[] = {0, -M_PI/4, 1000, -2.5}; static const char * nm[] = {"uniform", "Gauss-Lobatto", "repeated Gauss-Lobatto", "Gauss with Gauss-Lobatto edges"};
	Row gl, wl, g, w; // reference element on [0,1]
	auto add = [&](R x, R wt, Row & xs, Row & ws) { xs.push_back((x+1)/2); ws.push_back(wt/2); }; R p, d, e;
	for (R x : roots(n, 0)) { leg(n, x, p, d, e); add(x, 2/((1-x*x)*d*d), g, w); }
	int L = kind == 3 ? n+1 : n; if (L >= 2) { Row in = roots(L-1, 1); in.insert(in.begin(), -1); in.push_back(1); for (R x : in) { leg(L-1, x, p, d, e); add(x, 2/((R)L*(L-1)*p*p), gl, wl); } }
	for (double De : D) for (double Z0 : Z) {
		std::unique_ptr<GridSpacing> s; if (kind == 0) s.reset(new GridSpacingUniform(De, Z0)); else if (kind == 1) s.reset(new GridSpacingGaussLobatto(De, Z0, n)); else if (kind == 2) s.reset(new GridSpacingGaussLobattoRepeated(De, Z0, n)); else s.reset(new GridSpacingMixedGaussLobatto(De, Z0, n));
		std::string at = vh::fmt("%s spacing, order %d, element %g from %g", nm[kind], n, De, Z0), k = nm[kind]; int per = kind == 0 ? 1 : kind == 1 ? n-1 : n;
		if (s->GetDeltaElement() != De || s->GetZeroCoord() != Z0) c.viol(k + " element", at);
		for (int N = 1; N <= 5*per; N++) { bool want = kind == 0 || (kind == 1 ? (N-1) % per == 0 : N % per == 0); c.count("evaluations"); if (s->DoesNodeCountAgree(N) != want) c.viol(k + " node count", at + vh::fmt(": %d nodes", N)); }
		for (int i = -4*per; i <= 5*per; i++) { int E = i >= 0 ? i/per : -((-i+per-1)/per), q = i - E*per; R tol = 1e-13L*(fabsl(Z0) + De*(abs(E)+1)); std::string a = at + vh::fmt(", index %d", i), kk = k + (i < 0 ? " left of zero" : "");
			R xn = kind == 0 ? 0.5L : kind == 3 ? g[q] : gl[q], xe = kind == 0 ? 0 : gl[q], an = kind == 0 ? 1 : kind == 1 ? (q ? wl[q] : 2*wl[0]) : kind == 2 ? wl[q] : w[q], ae = kind == 0 ? 1 : kind == 2 ? wl[q] : (q ? wl[q] : 2*wl[0]);
			try { ok(c, kk + " node", s->GetNode(i), Z0 + De*(E + xn), tol, a); ok(c, kk + " edge", s->GetEdge(i), Z0 + De*(E + xe), tol, a); ok(c, kk + " node area", s->GetNodeNormArea(i), De*an, 1e-13L*De, a); ok(c, kk + " edge area", s->GetEdgeNormArea(i), De*ae, 1e-13L*De, a); }
			catch (Exception & x) { c.viol(kk + " throws", a + ": " + x.ToString()); } }
	}
}
void vh_jobs(vh::Registry & r) {
	bool T = r.thorough;
	for (int l = 0; l < 2; l++) for (int n = l+1; n <= (T ? 24 : 16); n++) r.add(vh::fmt("quadrature-%s-%d", l ? "lobatto" : "gauss", n), [=](vh::Ctx & c) { quadrature(c, l, n); });
	r.add("quadrature-refused", [=](vh::Ctx & c) { for (int n = -1; n <= 1; n++) { DataArray1D<double> g, w; if (n < 1) { refused(c, vh::fmt("Gauss %d", n), [&]() { GaussQuadrature::GetPoints(n, g, w); }); refused(c, vh::fmt("Gauss interval %d", n), [&]() { GaussQuadrature::GetPoints(n, 0.0, 1.0, g, w); }); } refused(c, vh::fmt("Lobatto %d", n), [&]() { GaussLobattoQuadrature::GetPoints(n, g, w); }); } });
	for (int n = 0; n <= (T ? 24 : 16); n++) r.add(vh::fmt("legendre-%d", n), [=](vh::Ctx & c) { legendre(c, n, T); });
	for (int f = 0; f < 8; f++) r.add(vh::fmt("interp-points-%d", f), [=](vh::Ctx & c) { subsets(c, f, T ? 6 : 5); }, 600);
	for (int n = 1; n <= 10; n++) r.add(vh::fmt("interp-nodes-%d", n), [=](vh::Ctx & c) { nodesets(c, n); });
	for (int t = 1; t <= 3; t++) for (int K = t; K <= 10; K++) r.add(vh::fmt("flux-%d-%d", t, K), [=](vh::Ctx & c) { fluxcorr(c, t, K); });
	for (int k = 0; k < 4; k++) for (int n = k == 1 || k == 2 ? 2 : 1; n <= (k ? 12 : 1); n++) r.add(vh::fmt("spacing-%d-%d", k, n), [=](vh::Ctx & c) { spacing(c, k, n); });
	for (int k = 1; k < 4; k++) r.add(vh::fmt("spacing-refused-%d", k), [=](vh::Ctx & c) { for (int n = -1; n < (k == 3 ? 1 : 2); n++) refused(c, vh::fmt("spacing %d of order %d", k, n), [&]() { if (k == 1) GridSpacingGaussLobatto(1, 0, n); else if (k == 2) GridSpacingGaussLobattoRepeated(1, 0, n); else GridSpacingMixedGaussLobatto(1, 0, n); }); });
	r.add("helpers", [=](vh::Ctx & c) { helpers(c, T); });
	for (int n = 1; n <= 12; n++) r.add(vh::fmt("vectors-%d", n), [=](vh::Ctx & c) { vectors(c, n); });
	static const double V[] = {0, 1, -2, 0.5, 3};
	for (int n = 1; n <= 2; n++) r.add(vh::fmt("dense-%d", n), [=](vh::Ctx & c) { int N = 1; for (int i = 0; i < n*n; i++) N *= 5; for (int k = 0; k < N; k++) { Mat a(n, Row(n)); int q = k; for (auto & w : a) for (R & x : w) { x = V[q % 5]; q /= 5; } dense(c, a); } });
	// all 3x3 matrices over four values (or three), banded 4x4 and 5x5 by pattern of values
	for (int h = 0; h < 4; h++) r.add(vh::fmt("dense-3-%d", h), [=](vh::Ctx & c) { int b = T ? 4 : 3, N = 1; for (int i = 0; i < 8; i++) N *= b; for (int k = 0; k < N; k++) { Mat a(3, Row(3)); a[0][0] = V[h]; int q = k, i = 0; for (auto & w : a) for (R & x : w) if (i++) { x = V[q % b]; q /= b; } dense(c, a); if (c.nviol > 20) return; } }, 800);
	for (int n = 4; n <= (T ? 9 : 7); n++) for (int kl = 0; kl < n; kl++) for (int ku = 0; ku < n; ku++) r.add(vh::fmt("band-%d-%d-%d", n, kl, ku), [=](vh::Ctx & c) { for (int s = 0; s < (T ? 200 : 40); s++) { Mat a(n, Row(n, 0)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i-j <= kl && j-i <= ku) { uint64_t key[3] = {(uint64_t)i, (uint64_t)j, (uint64_t)s}; a[i][j] = V[(vh::hash(key, sizeof key) >> 20) % 5] + (i == j && s % 2 ? 5 : 0); } dense(c, a); } });
	for (int m = 1; m <= 4; m++) for (int n = 1; n <= m; n++) r.add(vh::fmt("inverses-%d-%d", m, n), [=](vh::Ctx & c) { int b = m*n <= 4 ? 5 : m*n <= 6 ? 4 : m*n <= 9 ? 3 : 2, N = 1; for (int i = 0; i < m*n; i++) { N *= b; } int step = N > (T ? 100000 : 20000) ? 3 : 1; for (int k = 0; k < N; k += step) { Mat a(m, Row(n)); int q = k; for (auto & w : a) for (R & x : w) { x = V[q % b]; q /= b; } inverses(c, a); if (c.nviol > 20) return; } }, 600);
}
