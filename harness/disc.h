// Independent discrete operators on the elements of a grid, and noise states.
#ifndef DISC_H
#define DISC_H
#include "geo.h"
#include "GridGLL.h"
namespace disc {
using namespace geo;
using topo::operator+; using topo::operator*; using topo::dot; using topo::norm; using topo::cross;
using mini::Layout;
inline double noise(uint64_t a, uint64_t b) { uint64_t h = (a+1)*0x9E3779B97F4A7C15ull ^ (b+7)*0xC2B2AE3D27D4EB4Full; h ^= h >> 31; h *= 0xD6E8FEB86659FD93ull; h ^= h >> 29; h *= 0x94D049BB133111EBull; h ^= h >> 32; return (h >> 11) * (1.0/9007199254740992.0); }

// whole-grid arrays in the layout of mini::gather
struct Fields {
	Layout l; std::vector<double> v;
	Fields(const Layout & L) : l(L), v(L.size(), 0.0) {}
	double & n(size_t col, int c, int k) { return v[col*l.per() + (size_t)c*l.lev + k]; }
	double & e(size_t col, int c, int k) { return v[col*l.per() + (size_t)l.comp*l.lev + (size_t)c*(l.lev+1) + k]; }
	double & q(size_t col, int c, int k) { return v[col*l.per() + (size_t)l.comp*(2*l.lev+1) + (size_t)c*l.lev + k]; }
	double & at(size_t col, int pass, int c, int k) { return pass == 0 ? n(col,c,k) : pass == 1 ? e(col,c,k) : q(col,c,k); }
};
inline void get(Grid & g, const Layout & l, int inst, Fields & f) { mini::gather(g, l, inst, f.v); }
inline void put(Grid & g, const Layout & l, int inst, Fields & f) {
	mini::each_column(g, l, [&](GridPatch & p, int i, int j, size_t col) {
		DataArray4D<double> & n = p.GetDataState(inst, DataLocation_Node); DataArray4D<double> & r = p.GetDataState(inst, DataLocation_REdge);
		for (int c = 0; c < l.comp; c++) { for (int k = 0; k < l.lev; k++) n(c,i,j,k) = f.n(col,c,k); for (int k = 0; k <= l.lev; k++) r(c,i,j,k) = f.e(col,c,k); }
		if (l.tr) { DataArray4D<double> & t = p.GetDataTracers(inst); for (int c = 0; c < l.tr; c++) for (int k = 0; k < l.lev; k++) t(c,i,j,k) = f.q(col,c,k); }
	});
}

struct Ops {
	GridGLL * grid; topo::Topo & t; const Cfg & c; Layout l; double R, da, db; int h, N; bool edgeW, edgeP;
	std::vector<std::vector<double>> D;              // D[s][i] = phi_s'(x_i)
	std::vector<double> J2, f, zs; std::vector<std::array<double,3>> H;  // 2D jacobian, Coriolis, ground, inverse 2D metric aa ab bb
	std::vector<std::array<double,3>> zn, ze;        // slopes on levels, interfaces
	Ops(topo::Topo & T, Grid & g, const Layout & L, double radius) : grid(&dynamic_cast<GridGLL &>(g)), t(T), c(T.c), l(L), R(T.sphere_grid() ? radius : 1.0), h(T.h), N(L.lev) {
		da = (t.sphere_grid() ? M_PI/2 : c.lx)/t.ea; db = (t.sphere_grid() ? M_PI/2 : c.ly)/t.eb;
		D.assign(h, std::vector<double>(h));
		for (int s = 0; s < h; s++) for (int i = 0; i < h; i++) {
			double sum = 0;
			for (int m = 0; m < h; m++) if (m != s) { double p = 1/(t.gx[s]-t.gx[m]); for (int r = 0; r < h; r++) if (r != s && r != m) p *= (t.gx[i]-t.gx[r])/(t.gx[s]-t.gx[r]); sum += p; }
			D[s][i] = sum;
		}
		size_t M = l.cols(); J2.resize(M); f.resize(M); zs.resize(M); H.resize(M); zn.resize(M*N); ze.resize(M*(N+1));
		mini::each_column(g, l, [&](GridPatch & p, int i, int j, size_t col) {
			V3 A, B; t.basis((int)col, A, B); A = R*A; B = R*B; double aa = dot(A,A), ab = dot(A,B), bb = dot(B,B), det = aa*bb - ab*ab;
			J2[col] = sqrt(det); H[col] = {bb/det, -ab/det, aa/det};
			f[col] = p.GetCoriolisF()(i,j); zs[col] = p.GetTopography()(i,j);
			for (int k = 0; k < N; k++) for (int d = 0; d < 3; d++) zn[col*N+k][d] = c.sw ? d == 2 : p.GetDerivRNode()(i,j,k,d);
			for (int k = 0; k <= N; k++) for (int d = 0; d < 3; d++) ze[col*(N+1)+k][d] = c.sw ? d == 2 : p.GetDerivRREdge()(i,j,k,d);
		});
		edgeW = !c.sw && g.GetVarLocation(3) == DataLocation_REdge; edgeP = !c.sw && g.GetVarLocation(2) == DataLocation_REdge;
	}
	// neighbours within the element
	size_t along(size_t col, int dir, int s) const { int i = t.gi(col), j = t.gj(col); return dir == 0 ? t.id(t.panel(col), i/h*h + s, j) : t.id(t.panel(col), i, j/h*h + s); }
	int pos(size_t col, int dir) const { return (dir == 0 ? t.gi(col) : t.gj(col)) % h; }
	template <class F> double d(size_t col, int dir, F fn) const { int i = pos(col,dir); double x = 0; for (int s = 0; s < h; s++) x += fn(along(col,dir,s))*D[s][i]; return x/(dir ? db : da); }
	template <class F> double weak(size_t col, int dir, F fn) const { int i = pos(col,dir); double x = 0; for (int s = 0; s < h; s++) x -= t.gw[s]*fn(along(col,dir,s))*D[i][s]/t.gw[i]; return x/(dir ? db : da); }
	double jac(size_t col, int pass, int k) const { return J2[col]*(pass == 1 ? ze[col*(N+1)+k][2] : zn[col*N+k][2]); }
	// inverse of the full metric, symmetric, as aa ab ax bb bx xx
	void inv3(size_t col, int pass, int k, double g[6]) const {
		V3 A, B; t.basis((int)col, A, B); A = R*A; B = R*B;
		const std::array<double,3> & z = pass == 1 ? ze[col*(N+1)+k] : zn[col*N+k];
		double m[3][3] = {{dot(A,A)+z[0]*z[0], dot(A,B)+z[0]*z[1], z[0]*z[2]}, {0, dot(B,B)+z[1]*z[1], z[1]*z[2]}, {0, 0, z[2]*z[2]}};
		m[1][0] = m[0][1]; m[2][0] = m[0][2]; m[2][1] = m[1][2];
		double det = m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1]) - m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0]) + m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0]);
		auto cof = [&](int r, int q) { int r1 = (r+1)%3, r2 = (r+2)%3, q1 = (q+1)%3, q2 = (q+2)%3; return (m[r1][q1]*m[r2][q2] - m[r1][q2]*m[r2][q1])/det; };
		g[0] = cof(0,0); g[1] = cof(0,1); g[2] = cof(0,2); g[3] = cof(1,1); g[4] = cof(1,2); g[5] = cof(2,2);
	}
	// mean over coincident nodes, horizontal velocities as vectors
	void dss(Fields & F, const std::vector<char> & live) const {
		for (auto & m : t.mem) {
			if (m.size() == 1) continue;
			for (size_t w = 0; w < l.per(); w++) {
				if (!live[w]) continue;
				bool vec = w < (size_t)l.lev;          // U on levels, V follows
				if (w >= (size_t)l.lev && w < (size_t)2*l.lev) continue;
				if (vec) {
					V3 s = {0,0,0}; for (int x : m) s = s + t.fromcov(x, F.v[x*l.per()+w], F.v[x*l.per()+w+l.lev]);
					s = (1.0/m.size())*s;
					for (int x : m) t.tocov(x, s, F.v[x*l.per()+w], F.v[x*l.per()+w+l.lev]);
				} else { double s = 0; for (int x : m) s += F.v[x*l.per()+w]; s /= m.size(); for (int x : m) F.v[x*l.per()+w] = s; }
			}
		}
		walls(F);
	}
	// wall conditions: 1 no flow through the wall, 2 no flow at all
	void walls(Fields & F) const {
		if (t.sphere_grid() || !(c.bc[0] | c.bc[1] | c.bc[2] | c.bc[3])) return;
		for (size_t n = 0; n < l.cols(); n++) {
			int i = t.gi(n), j = t.gj(n), at[4] = {i == h*t.ea-1, j == h*t.eb-1, i == 0, j == 0};
			for (int s = 0; s < 4; s++) {
				if (!at[s] || !c.bc[s]) continue;
				for (int k = 0; k < N; k++) {
					if (c.bc[s] == 2) { F.n(n,0,k) = F.n(n,1,k) = 0; if (!c.sw && !edgeW) F.n(n,3,k) = 0; continue; }
					if (c.sw) { F.n(n,s&1,k) = 0; continue; }
					double m[6], w = edgeW ? grid->GetOpInterpREdgeToNode().Apply(&F.e(n,3,0), k) : F.n(n,3,k); inv3(n, 0, k, m);
					if (s & 1) F.n(n,1,k) = -(m[1]*F.n(n,0,k) + m[4]*w)/m[3]; else F.n(n,0,k) = -(m[1]*F.n(n,1,k) + m[2]*w)/m[0];
				}
				if (c.bc[s] == 2 && edgeW) for (int k = 0; k <= N; k++) F.e(n,3,k) = 0;
			}
		}
	}
	// element totals of negative tracers are made up from the positive ones
	void filter(Fields & F) const {
		std::map<int, std::vector<int>> el; for (size_t n = 0; n < l.cols(); n++) el[t.elem(n)].push_back(n);
		for (auto & e : el) for (int q = 0; q < l.tr; q++) for (int k = 0; k < N; k++) {
			double tot = 0, pos = 0;
			for (int n : e.second) { double m = F.q(n,q,k)*jac(n,0,k)*t.gw[this->pos(n,0)]*t.gw[this->pos(n,1)]; tot += m; if (m > 0) pos += m; }
			for (int n : e.second) { double & x = F.q(n,q,k); x = x > 0 ? x*(tot/pos) : 0.0; }
		}
	}
};
// hashed values, different at every node; tracers may be negative
inline void fill(topo::Topo & t, const Cfg & c, Fields & F, int seed, double R, bool signs, bool smooth_at_edges) {
	Layout & l = F.l;
	for (size_t col = 0; col < l.cols(); col++) {
		uint64_t who = smooth_at_edges ? t.cls[col] : col;
		for (int pass = 0; pass < 2; pass++) for (int k = 0; k < l.lev + pass; k++) {
			uint64_t id = (who*200 + k)*2 + pass;
			V3 v = {noise(id, 1+seed)-0.5, noise(id, 11+seed)-0.5, noise(id, 21+seed)-0.5};
			if (t.sphere_grid()) { V3 r = t.pos[col]; v = v + (-dot(v, r))*r; }
			double ua, ub; t.tocov((int)col, v, ua, ub);
			F.at(col,pass,0,k) = 30*R*ua; F.at(col,pass,1,k) = 30*R*ub;
			if (c.sw) { F.at(col,pass,2,k) = 1000 + 500*noise(id, 31+seed); continue; }
			F.at(col,pass,2,k) = 200 + 200*noise(id, 31+seed); F.at(col,pass,3,k) = 5e3*(noise(id, 41+seed)-0.5); F.at(col,pass,4,k) = 0.5 + noise(id, 51+seed);
		}
		for (int q = 0; q < l.tr; q++) for (int k = 0; k < l.lev; k++) F.q(col,q,k) = noise(who*200 + k, 61 + 3*q + seed) - (signs ? 0.15 : 0.0) + (signs ? 0.0 : 0.5);
	}
}
} // namespace disc
#endif
