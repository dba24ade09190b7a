// Independent geometry of the vertical grid, and a model that is set up but does not step.
#ifndef GEO_H
#define GEO_H
#include "mini.h"
#include "topo.h"
#include "HorizontalDynamicsStub.h"
#include "VerticalDynamicsStub.h"
namespace geo {
using topo::V3; using mini::Cfg;
inline V3 rll(double lon, double lat) { return {cos(lon)*cos(lat), sin(lon)*cos(lat), sin(lat)}; }
inline void gauss(int n, std::vector<double> & x, std::vector<double> & w) {
	x.assign(n, 0); w.assign(n, 0);
	for (int i = 0; i < n; i++) {
		double t = -cos(M_PI*(i+0.75)/(n+0.5)), dp = 1;
		for (int it = 0; it < 100; it++) {
			double a = 1, b = t; for (int k = 2; k <= n; k++) { double q = ((2*k-1)*t*b - (k-1)*a)/k; a = b; b = q; }
			dp = n*(a - t*b)/(1-t*t); double d = b/dp; t -= d; if (fabs(d) < 1e-17) break;
		}
		x[i] = 0.5*(t+1); w[i] = 1/((1-t*t)*dp*dp);
	}
}
inline double stretched(const Cfg & c, double x) {
	if (c.stretch == "cubic") return 0.1*x + 0.8*x*x + 0.1*x*x*x;
	if (c.stretch == "pwlinear") return x < 2.0/3.0 ? 0.5*x : 2*x - 1;
	return x;
}
struct Vert { std::vector<double> zl, wl, zi, wi; };
inline Vert vertical(const Cfg & c) {
	Vert v; int N = c.lev;
	v.zl.assign(N, 0); v.wl.assign(N, 0); v.zi.assign(N+1, 0); v.wi.assign(N+1, 0);
	if (c.sw) { v.zl[0] = 0.5; v.wl[0] = 1; v.zi[1] = 1; v.wi[0] = v.wi[1] = 0.5; return v; }
	int o = std::string(c.vdisc) == "fv" ? 1 : c.vo;
	std::vector<double> x, w, y, u;
	if (std::string(c.stag) == "int") {
		topo::gll(o, y, u); int ne = (N-1)/(o-1);
		for (int e = 0; e < ne; e++) { double a = stretched(c, (double)e/ne), b = stretched(c, (e+1.0)/ne); for (int k = 0; k < o; k++) { v.zl[e*(o-1)+k] = a + y[k]*(b-a); v.wl[e*(o-1)+k] += u[k]*(b-a); } }
		v.zi.clear(); v.wi.clear();
		return v;
	}
	gauss(o, x, w); topo::gll(o+1, y, u); int ne = N/o;
	for (int e = 0; e < ne; e++) {
		double a = stretched(c, (double)e/ne), b = stretched(c, (e+1.0)/ne);
		for (int k = 0; k < o; k++) { v.zl[e*o+k] = a + x[k]*(b-a); v.wl[e*o+k] += w[k]*(b-a); }
		for (int k = 0; k <= o; k++) { v.zi[e*o+k] = a + y[k]*(b-a); v.wi[e*o+k] += u[k]*(b-a); }
	}
	return v;
}
// height of a coordinate surface over ground zs, and d/dxi
inline double height(const Cfg & c, double top, double zs, double x, double * ds = NULL, double * dx = NULL) {
	if (c.kind == mini::CS) { if (ds) *ds = 1-x; if (dx) *dx = top - zs; return zs + x*(top-zs); }
	double C = cos(0.5*M_PI*x), S = sin(0.5*M_PI*x);
	double f = pow(C, 6) + 0.25*x*S, df = -3*M_PI*pow(C, 5)*S + 0.25*S + 0.125*M_PI*x*C;
	if (ds) *ds = (1-x)*f;
	if (dx) *dx = top + zs*(-f + (1-x)*df);
	return top*x + (1-x)*f*zs;
}

// the grid is set up by the model; no dynamics are needed
struct Still : TimestepScheme {
	Still(Model & m) : TimestepScheme(m) {}
	int GetComponentDataInstances() const { return 2; }
	int GetTracerDataInstances() const { return 2; }
	void Step(bool, bool, const Time &, double) {}
};
struct Chk {
	vh::Ctx & c; std::string cfg; long n = 0;
	void eq(const char * what, double got, double want, double scale, const std::string & where, double tol = 1e-11) {
		n++;
		if (!(fabs(got - want) <= tol*scale)) c.viol(vh::fmt("%s %s", cfg.c_str(), what), where + vh::fmt(": %.17g instead of %.17g", got, want));
	}
};

inline void still(mini::Sim & s) {
	Model & m = s.model;
	m.SetTimestepScheme(new Still(m)); m.SetHorizontalDynamics(new HorizontalDynamicsStub(m)); m.SetVerticalDynamics(new VerticalDynamicsStub(m));
	m.SetDeltaT(mini::seconds(1)); Time e = m.GetStartTime(); e += mini::seconds(1); m.SetEndTime(e);
}
} // namespace geo
#endif
