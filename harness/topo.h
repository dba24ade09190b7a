// Independent oracle for the topology and geometry of the horizontal grids.
#ifndef TOPO_H
#define TOPO_H
#include "mini.h"
#include <array>
#include <set>

namespace topo {

typedef std::array<double,3> V3;
inline V3 operator+(V3 a, V3 b) { return {a[0]+b[0], a[1]+b[1], a[2]+b[2]}; }
inline V3 operator*(double s, V3 a) { return {s*a[0], s*a[1], s*a[2]}; }
inline double dot(V3 a, V3 b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
inline V3 cross(V3 a, V3 b) { return {a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]}; }
inline double norm(V3 a) { return std::sqrt(dot(a,a)); }

// Gauss-Lobatto nodes and weights on [0,1] by Newton iteration on P'_{n-1}.
inline void gll(int n, std::vector<double> & x, std::vector<double> & w) {
	x.assign(n, 0); w.assign(n, 0);
	auto leg = [](int m, double t, double & p, double & dp) {
		double a = 1, b = t;
		if (m == 0) { p = 1; dp = 0; return; }
		for (int k = 2; k <= m; k++) { double c = ((2*k-1)*t*b - (k-1)*a)/k; a = b; b = c; }
		p = b;
		dp = (t*t == 1.0) ? (t > 0 ? 1 : (m % 2 ? 1 : -1)) * m*(m+1)/2.0 : m*(a - t*b)/(1-t*t);
	};
	int N = n - 1;
	for (int i = 0; i < n; i++) {
		double t = -cos(M_PI * i / N);
		if (i != 0 && i != N) for (int it = 0; it < 100; it++) {
			double p, dp; leg(N, t, p, dp);
			double ddp = (2*t*dp - N*(N+1)*p)/(1-t*t);
			double d = dp/ddp; t -= d; if (fabs(d) < 1e-16) break;
		}
		double p, dp; leg(N, t, p, dp);
		x[i] = 0.5*(t+1); w[i] = 1.0/(N*(N+1)*p*p);
	}
}

// Equiangular gnomonic cubed sphere: panels 0-3 around the equator at
// longitudes 0, 90, 180, 270, 4 the north and 5 the south panel.
inline void frame(int p, V3 & c, V3 & a, V3 & b) {
	if (p < 4) {
		static const double C[4] = {1,0,-1,0}, S[4] = {0,1,0,-1};
		c = {C[p], S[p], 0}; a = {-S[p], C[p], 0}; b = {0,0,1};
	} else if (p == 4) { c = {0,0,1}; a = {0,1,0}; b = {-1,0,0}; }
	else { c = {0,0,-1}; a = {0,1,0}; b = {1,0,0}; }
}
// position on the unit sphere and the tangent vectors d/dalpha, d/dbeta
inline V3 sphere(int p, double al, double be, V3 * ea = NULL, V3 * eb = NULL) {
	V3 c, a, b; frame(p, c, a, b);
	double X = tan(al), Y = tan(be), d = sqrt(1+X*X+Y*Y);
	V3 q = c + X*a + Y*b;
	V3 r = (1/d)*q;
	if (ea) { double s = 1+X*X; *ea = s*((1/d)*a + (-X/(d*d*d))*q); }
	if (eb) { double s = 1+Y*Y; *eb = s*((1/d)*b + (-Y/(d*d*d))*q); }
	return r;
}

struct Topo {
	mini::Cfg c;
	int P, na, nb, ea, eb, h;          // panels, nodes, elements, order
	std::vector<double> gx, gw;
	std::vector<int> cls;              // node -> class of coincident nodes
	std::vector<std::vector<int>> mem; // class -> nodes
	std::vector<V3> pos;
	Topo(const mini::Cfg & cfg) : c(cfg) {
		P = c.kind == mini::CS ? 6 : 1; h = c.ho; ea = c.nx; eb = c.kind == mini::CS ? c.nx : c.ny;
		na = ea*h; nb = eb*h;
		gll(h, gx, gw);
		size_t N = (size_t)P*na*nb;
		pos.resize(N); cls.assign(N, -1);
		std::map<std::array<long,3>, std::vector<int>> cell;
		for (size_t n = 0; n < N; n++) {
			double al, be; coord(n, al, be);
			if (c.kind == mini::CS) pos[n] = sphere(panel(n), al, be);
			else {
				double x = al / c.lx, y = be / c.ly;
				if (!c.bc[0] && !c.bc[2] && x > 1 - 1e-9) x = 0;
				if (!c.bc[1] && !c.bc[3] && y > 1 - 1e-9) y = 0;
				pos[n] = {x, y, 0};
			}
			std::array<long,3> k; for (int d = 0; d < 3; d++) k[d] = lrint(pos[n][d]*1e6);
			int found = -1;
			for (long i = -1; i <= 1 && found < 0; i++) for (long j = -1; j <= 1 && found < 0; j++) for (long m = -1; m <= 1 && found < 0; m++) {
				auto it = cell.find({k[0]+i, k[1]+j, k[2]+m});
				if (it == cell.end()) continue;
				for (int o : it->second) { V3 d = pos[n] + (-1.0)*pos[o]; if (norm(d) < 1e-9) { found = cls[o]; break; } }
			}
			if (found < 0) { found = mem.size(); mem.push_back({}); }
			cls[n] = found; mem[found].push_back(n);
			cell[k].push_back(n);
		}
	}
	size_t nodes() const { return (size_t)P*na*nb; }
	int panel(int n) const { return n / (na*nb); }
	int gi(int n) const { return (n / nb) % na; }
	int gj(int n) const { return n % nb; }
	int id(int p, int i, int j) const { return (p*na + i)*nb + j; }
	int elem(int n) const { return (panel(n)*ea + gi(n)/h)*eb + gj(n)/h; }
	double acoord(int i) const {
		double L = c.kind == mini::CS ? 0.5*M_PI : c.lx, o = c.kind == mini::CS ? -0.25*M_PI : 0.0;
		return o + (i/h + gx[i%h]) * L / ea;
	}
	double bcoord(int j) const {
		double L = c.kind == mini::CS ? 0.5*M_PI : c.ly, o = c.kind == mini::CS ? -0.25*M_PI : 0.0;
		return o + (j/h + gx[j%h]) * L / eb;
	}
	void coord(int n, double & a, double & b) const { a = acoord(gi(n)); b = bcoord(gj(n)); }
	bool sphere_grid() const { return c.kind == mini::CS; }
	// tangent basis of the node's own panel
	void basis(int n, V3 & A, V3 & B) const {
		if (!sphere_grid()) { A = {1,0,0}; B = {0,1,0}; return; }
		double a, b; coord(n, a, b); sphere(panel(n), a, b, &A, &B);
	}
	// covariant components <-> vector
	V3 fromcov(int n, double ua, double ub) const {
		V3 A, B; basis(n, A, B);
		double gaa = dot(A,A), gab = dot(A,B), gbb = dot(B,B), det = gaa*gbb - gab*gab;
		double ca = (gbb*ua - gab*ub)/det, cb = (gaa*ub - gab*ua)/det;
		return ca*A + cb*B;
	}
	void tocov(int n, V3 v, double & ua, double & ub) const { V3 A, B; basis(n, A, B); ua = dot(v,A); ub = dot(v,B); }

	// the node that the halo position next to node n (on its patch's rim) must
	// mirror: da/db say across which side; -1 when there is none.
	int across(int n, int da, int db) const {
		int p = panel(n), i = gi(n), j = gj(n);
		if (!sphere_grid()) {
			int I = i + da, J = j + db;
			if (I < 0) { if (c.bc[2]) return -1; I += na; }
			if (I >= na) { if (c.bc[0]) return -1; I -= na; }
			if (J < 0) { if (c.bc[3]) return -1; J += nb; }
			if (J >= nb) { if (c.bc[1]) return -1; J -= nb; }
			return id(p, I, J);
		}
		int I = i + da, J = j + db;
		if (I >= 0 && I < na && J >= 0 && J < nb) return id(p, I, J);
		// off the panel: by geometry
		auto other = [&](int m, int sa, int sb) -> int {  // node of the element across side (sa,sb) coincident with m
			int e0 = gi(m)/h*h, f0 = gj(m)/h*h;
			int c1, c2;
			if (sa) { int ii = sa < 0 ? e0 : e0+h-1; c1 = cls[id(p, ii, f0)]; c2 = cls[id(p, ii, f0+h-1)]; }
			else { int jj = sb < 0 ? f0 : f0+h-1; c1 = cls[id(p, e0, jj)]; c2 = cls[id(p, e0+h-1, jj)]; }
			std::set<int> s1, s2;
			for (int x : mem[c1]) s1.insert(elem(x));
			for (int x : mem[c2]) s2.insert(elem(x));
			for (int x : mem[cls[m]]) { int e = elem(x); if (e != elem(m) && s1.count(e) && s2.count(e)) return x; }
			return -1;
		};
		bool offa = I < 0 || I >= na, offb = J < 0 || J >= nb;
		if (offa && offb) return -1;                     // cube corner
		if (offa && db == 0) return other(n, da, 0);
		if (offb && da == 0) return other(n, 0, db);
		// diagonal off one side: the element beside ours along the panel edge
		if (offa) return other(id(p, i, J), da, 0);
		return other(id(p, I, j), 0, db);
	}
};

} // namespace topo
#endif
