// C19: the vertical dynamics against an independent discretization of the column equations.
#include "disc.h"
using namespace disc;

// value and one directional derivative
struct Du { double v, d; Du(double x = 0, double y = 0) : v(x), d(y) {} };
static Du operator+(Du a, Du b) { return Du(a.v+b.v, a.d+b.d); }
static Du operator-(Du a, Du b) { return Du(a.v-b.v, a.d-b.d); }
static Du operator*(Du a, Du b) { return Du(a.v*b.v, a.d*b.v + a.v*b.d); }
static Du operator/(Du a, Du b) { return Du(a.v/b.v, (a.d - a.v/b.v*b.d)/b.v); }
static Du Abs(Du a) { return a.v > 0 ? a : a.v < 0 ? Du(-a.v, -a.d) : Du(0, 0); }
static double Abs(double a) { return fabs(a); }
static Du Pow(Du a, double p) { double x = pow(a.v, p); return Du(x, p*x/a.v*a.d); }
static double Pow(double a, double p) { return pow(a, p); }
static double val(Du a) { return a.v; }
static double val(double a) { return a; }

typedef std::vector<std::vector<double>> Mat;
struct Job { Cfg c; char mode = 'E'; double dt = 10; int seed = 0; bool signs = false, inplace = true; double amp = 1; std::string name() const { return c.name() + vh::fmt("-%c-dt%g-s%d-%g", mode, dt, seed, amp) + (signs ? "-neg" : "") + (inplace ? "" : "-out"); } };

// matrices of the column operators of the grid
struct Cols {
	int N, vo, el; bool edgeW, levels;
	Mat ne, en, dnn, dnn0, dne, den, ddn, dde; std::vector<Mat> pen;
	template <class F> static Mat mat(int out, int in, F f) { Mat m(out, std::vector<double>(in, 0.0)); for (int c = 0; c < in; c++) { std::vector<double> x(in+1, 0.0), y(out+1, 0.0); x[c] = 1; f(&x[0], &y[0]); for (int r = 0; r < out; r++) m[r][c] = y[r]; } return m; }
	Cols(GridGLL & g, const Cfg & c) : N(c.lev), vo(c.vo) {
		bool fv = std::string(c.vdisc) == "fv"; if (fv) vo = 1; el = N/vo;
		edgeW = g.GetVarLocation(3) == DataLocation_REdge; levels = c.fluxlev || !edgeW;
		ne = mat(N+1, N, [&](double * x, double * y) { g.GetOpInterpNodeToREdge().Apply(x, y); });
		en = mat(N, N+1, [&](double * x, double * y) { g.GetOpInterpREdgeToNode().Apply(x, y); });
		dnn = mat(N, N, [&](double * x, double * y) { DataArray1D<double> a(N), b(N); for (int k = 0; k < N; k++) a[k] = x[k]; g.DifferentiateNodeToNode(a, b, false); for (int k = 0; k < N; k++) y[k] = b[k]; });
		dnn0 = mat(N, N, [&](double * x, double * y) { DataArray1D<double> a(N), b(N); for (int k = 0; k < N; k++) a[k] = x[k]; g.DifferentiateNodeToNode(a, b, edgeW); for (int k = 0; k < N; k++) y[k] = b[k]; });
		dne = mat(N+1, N, [&](double * x, double * y) { g.GetOpDiffNodeToREdge().Apply(x, y); });
		den = mat(N, N+1, [&](double * x, double * y) { g.GetOpDiffREdgeToNode().Apply(x, y); });
		ddn = mat(N, N, [&](double * x, double * y) { DataArray1D<double> a(N), b(N); for (int k = 0; k < N; k++) a[k] = x[k]; g.DiffDiffNodeToNode(a, b); for (int k = 0; k < N; k++) y[k] = b[k]; });
		if (edgeW) dde = mat(N+1, N+1, [&](double * x, double * y) { DataArray1D<double> a(N+1), b(N+1); for (int k = 0; k <= N; k++) a[k] = x[k]; g.DiffDiffREdgeToREdge(a, b); for (int k = 0; k <= N; k++) y[k] = b[k]; });
		for (int e = 1; e < el; e++) {
			std::vector<double> w(el-1, 0.0); w[e-1] = 1;
			pen.push_back(mat(N, N, [&](double * x, double * y) { g.GetOpPenaltyNodeToNode().Apply(&w[0], x, y, 1, 1); }));
		}
	}
	template <class T> static std::vector<T> mul(const Mat & m, const std::vector<T> & x) { std::vector<T> y(m.size(), T(0.0)); for (size_t r = 0; r < m.size(); r++) for (size_t c = 0; c < m[r].size(); c++) if (m[r][c] != 0) y[r] = y[r] + T(m[r][c])*x[c]; return y; }
	template <class T> std::vector<T> penalty(const std::vector<T> & xi, const std::vector<T> & x) const { std::vector<T> y(N, T(0.0)); for (int e = 1; e < el; e++) { T a = Abs(xi[e*vo]); std::vector<T> z = mul(pen[e-1], x); for (int k = 0; k < N; k++) y[k] = y[k] + a*z[k]; } return y; }
};
struct Column {
	const Cols & o; const Cfg & c; int N; double g, cp, Rd, p0, ztop;
	bool v2; std::vector<double> Jn, Je, zx, ze, U, V, Ue, Ve, Ur, Vr, Pr, Rr, an, ae; std::vector<std::array<double,6>> mn, me;
	Column(const Cols & x, const Cfg & cfg) : o(x), c(cfg), N(x.N), v2(std::string(cfg.vm) == "v2") {}
	// covariant vertical velocity: method V1 stores it, method V2 the velocity in metres per second
	template <class T> std::vector<T> cov(std::vector<T> w) const { if (v2) for (size_t k = 0; k < w.size(); k++) w[k] = T((int)w.size() == N ? zx[k] : ze[k])*w[k]; return w; }
	template <class T> std::vector<T> penalty(const std::vector<T> & xi, const std::vector<T> & x) const { return v2 ? std::vector<T>(N, T(0.0)) : o.penalty(xi, x); }
	template <class T> std::vector<T> xidot(const std::vector<T> & W) const {
		std::vector<T> we = cov(o.edgeW ? W : Cols::mul(o.ne, W)), xi(N+1, T(0.0));
		for (int k = 1; k < N; k++) xi[k] = T(me[k][2]*Ue[k] + me[k][4]*Ve[k]) + T(me[k][5])*we[k];
		return xi;
	}
	template <class T> std::vector<T> flux(const std::vector<T> & xi, const std::vector<T> & q) const {
		std::vector<T> qe = Cols::mul(o.ne, q), f(N+1, T(0.0));
		for (int k = 1; k < N; k++) f[k] = T(Je[k])*qe[k]*xi[k];
		std::vector<T> d = Cols::mul(o.den, f); for (int k = 0; k < N; k++) d[k] = d[k]/T(Jn[k]);
		return d;
	}
	std::vector<double> xinode(const std::vector<double> & W) const {
		std::vector<double> w = cov(o.edgeW ? Cols::mul(o.en, W) : W), xi(N); for (int k = 0; k < N; k++) xi[k] = mn[k][2]*U[k] + mn[k][4]*V[k] + mn[k][5]*w[k];
		return xi;
	}
	std::vector<double> nodeflux(const std::vector<double> & xi, const std::vector<double> & q) const {
		std::vector<double> f(N); for (int k = 0; k < N; k++) f[k] = Jn[k]*q[k]*xi[k];
		f = Cols::mul(o.dnn0, f); for (int k = 0; k < N; k++) f[k] /= Jn[k];
		return f;
	}
	// minus the tendencies of rhotheta, w and rho
	template <class T> void F(const std::vector<T> & P, const std::vector<T> & W, const std::vector<T> & R, std::vector<T> & fP, std::vector<T> & fW, std::vector<T> & fR) const {
		std::vector<T> wn = cov(o.edgeW ? Cols::mul(o.en, W) : W), xi = xidot(W), xn(N, T(0.0)), K(N, T(0.0)), Pi(N, T(0.0));
		std::vector<T> ca(N, T(0.0)), cb(N, T(0.0));
		for (int k = 0; k < N; k++) {
			const auto & m = mn[k];
			ca[k] = T(m[0]*U[k] + m[1]*V[k]) + T(m[2])*wn[k]; cb[k] = T(m[1]*U[k] + m[3]*V[k]) + T(m[4])*wn[k]; xn[k] = T(m[2]*U[k] + m[4]*V[k]) + T(m[5])*wn[k];
			K[k] = T(0.5)*(ca[k]*T(U[k]) + cb[k]*T(V[k]) + xn[k]*wn[k]);
			Pi[k] = T(cp)*Pow(T(Rd/p0)*P[k], Rd/(cp-Rd));
		}
		if (!o.levels) { fR = flux(xi, R); fP = flux(xi, P); }
		else for (int p = 0; p < 2; p++) {
			std::vector<T> f(N, T(0.0)); for (int k = 0; k < N; k++) f[k] = T(Jn[k])*(p ? P[k] : R[k])*xn[k];
			std::vector<T> d = Cols::mul(o.dnn0, f); for (int k = 0; k < N; k++) d[k] = d[k]/T(Jn[k]);
			(p ? fP : fR) = d;
		}
		std::vector<T> Re = Cols::mul(o.ne, R), Pe = Cols::mul(o.ne, P), up = penalty(xi, R), pp = penalty(xi, P);
		for (int k = 0; k < N; k++) { fR[k] = fR[k] - up[k]; fP[k] = fP[k] - pp[k]; }
		fW.assign(W.size(), T(0.0));
		const Mat & D = o.edgeW ? o.dne : o.dnn;
		std::vector<T> dPi = Cols::mul(D, Pi), dK = Cols::mul(D, K); std::vector<double> dU = Cols::mul(D, U), dV = Cols::mul(D, V);
		std::vector<double> We(W.size()), dd; for (size_t k = 0; k < W.size(); k++) We[k] = val(W[k]);
		std::vector<double> Wc = cov(We); std::vector<T> dW = o.edgeW ? Cols::mul(o.dde, W) : penalty(xi, W);
		for (int k = 1; k < (int)W.size()-1; k++) {
			// the curl term is not linearized
			double a = o.edgeW ? me[k][0]*Ue[k] + me[k][1]*Ve[k] + me[k][2]*Wc[k] : val(ca[k]), b = o.edgeW ? me[k][1]*Ue[k] + me[k][3]*Ve[k] + me[k][4]*Wc[k] : val(cb[k]);
			T th = o.edgeW ? Pe[k]/Re[k] : P[k]/R[k];
			fW[k] = dPi[k]*th + T(g*(o.edgeW ? ze[k] : zx[k])) + dK[k] - T(a*dU[k] + b*dV[k]);
			if (v2) fW[k] = fW[k]/T(o.edgeW ? ze[k] : zx[k]);
			else if (o.edgeW) fW[k] = fW[k] - T(0.5/N)*Abs(xi[k])*dW[k]; else fW[k] = fW[k] - dW[k];
		}
		if (c.udiff == 0) return;
		double s = c.udiff/(ztop*ztop);
		std::vector<double> Pv(N); for (int k = 0; k < N; k++) Pv[k] = val(P[k]) - Pr[k];
		std::vector<double> a = Cols::mul(o.ddn, Pv), b = Cols::mul(o.edgeW ? o.dde : o.ddn, We);
		for (int k = 0; k < N; k++) fP[k] = fP[k] - T(s*a[k]);
		for (int k = 1; k < (int)W.size()-1; k++) fW[k] = fW[k] - T(s*b[k]);
	}
};
static bool solve(Mat A, std::vector<double> b, std::vector<double> & x) {
	int n = b.size();
	for (int c = 0; c < n; c++) { int p = c; for (int r = c; r < n; r++) if (fabs(A[r][c]) > fabs(A[p][c])) p = r; if (A[p][c] == 0) return false; std::swap(A[p], A[c]); std::swap(b[p], b[c]); for (int r = c+1; r < n; r++) { double m = A[r][c]/A[c][c]; if (m == 0) continue; for (int q = c; q < n; q++) A[r][q] -= m*A[c][q]; b[r] -= m*b[c]; } }
	x.assign(n, 0.0); for (int r = n-1; r >= 0; r--) { double s = b[r]; for (int q = r+1; q < n; q++) s -= A[r][q]*x[q]; x[r] = s/A[r][r]; }
	return true;
}

struct Probe : TimestepScheme {
	Job j; vh::Ctx * ctx; long n = 0; std::map<std::string,int> told; double worst = 0;
	Probe(Model & m, const Job & k, vh::Ctx * x) : TimestepScheme(m), j(k), ctx(x) {}
	int GetComponentDataInstances() const { return 4; }
	int GetTracerDataInstances() const { return 4; }
	void say(const std::string & what, const std::string & detail) { if (told[what]++ == 0) ctx->viol(j.name() + " " + what, detail); }
	void near(const char * what, Layout & l, size_t at, double got, double want, double tol) { n++; if (!(fabs(got-want) <= tol)) say(what, mini::describe(l, at) + vh::fmt(": %.17g instead of %.17g (tolerance %.3g)", got, want, tol)); }
	// a state near balance, with noise
	void state(topo::Topo & t, Ops & o, Layout & l, Fields & F, int seed) {
		fill(t, j.c, F, seed, o.R, j.signs, true);
		if (std::string(j.c.vm) == "v2") for (size_t x = 0; x < l.cols(); x++) for (int p = 0; p < 1 + o.edgeW; p++) for (int k = 0; k < l.lev + p; k++) F.at(x,p,3,k) /= p ? o.ze[x*(l.lev+1)+k][2] : o.zn[x*l.lev+k][2];
		if (j.c.kind == mini::CARTXZ) for (size_t x = 0; x < l.cols(); x++) for (int p = 0; p < 2; p++) for (int k = 0; k < l.lev + p; k++) F.at(x,p,1,k) = 0;
		if (j.amp == 1) return;
		for (size_t x = 0; x < l.cols(); x++) for (int p = 0; p < 2; p++) for (int k = 0; k < l.lev + p; k++) for (int q = 0; q < 4; q++) if (q != 2) F.at(x,p,q,k) *= j.amp;
	}
	void Step(bool, bool, const Time & time, double) {
		const Cfg & c = j.c; GridGLL & g = dynamic_cast<GridGLL &>(*m_model.GetGrid()); Layout l = mini::layout(c); topo::Topo t(c); int N = l.lev;
		PhysicalConstants phys = m_model.GetPhysicalConstants();
		Ops o(t, g, l, phys.GetEarthRadius()); Cols cols(g, c);
		std::vector<char> live = mini::live_mask(g, l);
		Fields A(l), B(l), X(l), G(l), W(l), R(l);
		state(t, o, l, A, j.seed); state(t, o, l, B, 100 + j.seed); fill(t, c, X, 200, o.R, true, true);
		// copies of the fields between their own locations are interpolated
		auto copies = [&](Fields & F) { for (size_t x = 0; x < l.cols(); x++) for (int q = 0; q < l.comp; q++) { bool e = q == 3 && o.edgeW; if (e) { for (int k = 0; k < N; k++) { F.n(x,q,k) = 0; for (int m = 0; m <= N; m++) F.n(x,q,k) += cols.en[k][m]*F.e(x,q,m); } } else for (int k = 0; k <= N; k++) { F.e(x,q,k) = 0; for (int m = 0; m < N; m++) F.e(x,q,k) += cols.ne[k][m]*F.n(x,q,m); } } };
		copies(A); copies(B);
		bool same = j.mode == 'S';
		if (same) B = A;
		put(g, l, 0, A); put(g, l, 1, B); put(g, l, 2, X); put(g, l, 3, X);
		int up = same && j.inplace ? 0 : 1;
		try {
			VerticalDynamics & v = *m_model.GetVerticalDynamics();
			if (j.mode == 'S') v.StepImplicit(0, up, time, j.dt); else if (j.mode == 'T') v.StepImplicitTermsExplicitly(0, 1, time, j.dt); else v.StepExplicit(0, 1, time, j.dt);
		} catch (Exception & e) { say("refused", e.ToString()); return; }
		get(g, l, up, G);
		if (up == 1) { Fields A2(l); get(g, l, 0, A2); for (size_t i = 0; i < A.v.size(); i++) if (live[i % l.per()] && A2.v[i] != A.v[i]) { say("initial data", mini::describe(l, i) + " changed"); break; } }
		mini::each_column(g, l, [&](GridPatch & p, int a, int b, size_t col) { for (int q = 0; q < l.comp; q++) { for (int k = 0; k < N; k++) R.n(col,q,k) = p.GetReferenceState(DataLocation_Node)(q,a,b,k); for (int k = 0; k <= N; k++) R.e(col,q,k) = p.GetReferenceState(DataLocation_REdge)(q,a,b,k); } for (int q = 0; q < l.tr; q++) for (int k = 0; k < N; k++) R.q(col,q,k) = p.GetReferenceTracers()(q,a,b,k); });
		an.assign(l.cols()*N, 0.0); ae.assign(l.cols()*(N+1), 0.0);
		mini::each_column(g, l, [&](GridPatch & p, int a, int b, size_t col) { for (int k = 0; k < N; k++) an[col*N+k] = p.GetElementAreaNode()(a,b,k); for (int k = 0; k <= N; k++) ae[col*(N+1)+k] = p.GetElementAreaREdge()(a,b,k); });
		for (size_t x = 0; x < l.cols(); x++) {
			Column C(cols, c); C.g = phys.GetG(); C.cp = phys.GetCp(); C.Rd = phys.GetR(); C.p0 = phys.GetP0(); C.ztop = c.ztop;
			C.mn.resize(N); C.me.resize(N+1); std::vector<double> P(N), Rh(N), w(o.edgeW ? N+1 : N);
			for (int k = 0; k < N; k++) { C.Jn.push_back(o.jac(x,0,k)); C.zx.push_back(o.zn[x*N+k][2]); o.inv3(x,0,k,&C.mn[k][0]); C.U.push_back(A.n(x,0,k)); C.V.push_back(A.n(x,1,k)); C.Ur.push_back(R.n(x,0,k)); C.Vr.push_back(R.n(x,1,k)); C.Pr.push_back(R.n(x,2,k)); P[k] = A.n(x,2,k); Rh[k] = A.n(x,4,k); }
			for (int k = 0; k <= N; k++) { C.Je.push_back(o.jac(x,1,k)); C.ze.push_back(o.ze[x*(N+1)+k][2]); o.inv3(x,1,k,&C.me[k][0]); }
			C.Ue = Cols::mul(cols.ne, C.U); C.Ve = Cols::mul(cols.ne, C.V);
			for (size_t k = 0; k < w.size(); k++) w[k] = o.edgeW ? A.e(x,3,k) : A.n(x,3,k);
			one(o, cols, l, C, A, B, G, R, x, P, w, Rh);
		}
		ctx->count("evaluations", n); ctx->count("distinct_nontrivial", n);
	}
	std::vector<double> an, ae; // element areas of all columns
	void one(Ops & o, Cols & cols, Layout & l, Column & C, Fields & A, Fields & B, Fields & G, Fields & R, size_t x, std::vector<double> & P, std::vector<double> & w, std::vector<double> & Rh) {
		const Cfg & c = j.c; int N = l.lev; double dt = j.dt; int pw = o.edgeW;
		auto where = [&](int pass, int q, int k) { return &G.at(x,pass,q,k) - &G.v[0]; };
		std::vector<double> fP, fW, fR; C.F<double>(P, w, Rh, fP, fW, fR);
		std::vector<double> xi = C.xidot(w);
		bool column = j.mode == 'T' || j.mode == 'S' || (j.mode == 'E' && c.expl);
		// horizontal velocities
		for (int q = 0; q < 2; q++) {
			std::vector<double> want(N), u(N), ref(N); for (int k = 0; k < N; k++) { want[k] = B.n(x,q,k); u[k] = A.n(x,q,k); ref[k] = u[k] - R.n(x,q,k); }
			double big = 0;
			if (j.mode == 'E') { std::vector<double> p = C.penalty(xi, u), d = Cols::mul(cols.ddn, ref);
				if (C.v2) { // vertical advection by the mass flux between the levels
					std::vector<double> re = Cols::mul(cols.ne, Rh), du = Cols::mul(cols.dne, u);
					for (int k = 0; k < N; k++) { for (int m = 1; m < N; m++) p[k] -= re[m]*ae[x*(N+1)+m]*xi[m]*cols.ne[m][k]*du[m]; p[k] /= Rh[k]*an[x*N+k]; }
				}
				 for (int k = 0; k < N; k++) { double z = dt*(p[k] + (c.udiff != 0 ? c.udiff/(c.ztop*c.ztop)*d[k] : 0.0)); want[k] += z; big = std::max(big, fabs(z)); } }
			for (int k = 0; k < N; k++) near(q ? "V" : "U", l, where(0,q,k), G.n(x,q,k), want[k], 2e-11*big + 1e-13*(fabs(want[k])+fabs(B.n(x,q,k)) + 1e-3));
		}
		if (j.mode != 'S') {
			for (int q = 2; q < 5; q++) {
				int pass = q == 3 && pw; std::vector<double> & f = q == 2 ? fP : q == 3 ? fW : fR; double big = 0; for (double z : f) big = std::max(big, fabs(dt*z));
				if (!column) big = 0;
				for (size_t k = 0; k < f.size(); k++) near(q == 2 ? "rhotheta" : q == 3 ? "w" : "rho", l, where(pass,q,k), G.at(x,pass,q,k), B.at(x,pass,q,k) - (column ? dt*f[k] : 0.0), 2e-11*big + 1e-13*(fabs(B.at(x,pass,q,k)) + 1e-9));
			}
			for (int q = 0; q < l.tr; q++) {
				std::vector<double> m(N), f(N, 0.0); for (int k = 0; k < N; k++) m[k] = A.q(x,q,k);
				if (column) {
					f = cols.levels ? C.nodeflux(C.xinode(w), m) : C.flux(xi, m); std::vector<double> p = C.penalty(xi, m); for (int k = 0; k < N; k++) f[k] -= p[k];
					if (c.udiff != 0) {
						std::vector<double> mix(N), Re = Cols::mul(cols.ne, Rh), z(N+1, 0.0);
						for (int k = 0; k < N; k++) mix[k] = m[k]/Rh[k] - (c.ref ? R.q(x,q,k)/R.n(x,4,k) : 0.0);
						if (cols.levels) {
							std::vector<double> d = Cols::mul(cols.dnn, mix), y(N, 0.0); for (int k = !o.edgeW; k < N - !o.edgeW; k++) y[k] = -c.udiff/(c.ztop*c.ztop)*C.Jn[k]*Rh[k]*d[k];
							y = Cols::mul(cols.dnn0, y); for (int k = 0; k < N; k++) f[k] += y[k]/C.Jn[k];
						} else {
							std::vector<double> d = Cols::mul(cols.dne, mix); for (int k = 1; k < N; k++) z[k] = -c.udiff/(c.ztop*c.ztop)*C.Je[k]*Re[k]*d[k];
							std::vector<double> y = Cols::mul(cols.den, z); for (int k = 0; k < N; k++) f[k] += y[k]/C.Jn[k];
						}
					}
				}
				double big = 0; for (double z : f) big = std::max(big, fabs(dt*z));
				for (int k = 0; k < N; k++) near("tracer", l, where(2,q,k), G.q(x,q,k), B.q(x,q,k) - dt*f[k], 2e-11*big + 1e-13);
			}
			return;
		}
		// one linearized step: (1/dt + F') delta = F
		int M = 2*N + (int)w.size(); auto put3 = [&](std::vector<Du> & a, std::vector<Du> & b, std::vector<Du> & d, int i) -> Du & { return i < N ? a[i] : i < 2*N ? d[i-N] : b[i-2*N]; };
		std::vector<double> del(M), x0(M), f0(M);
		for (int i = 0; i < M; i++) { int q = i < N ? 2 : i < 2*N ? 4 : 3, k = i < N ? i : i < 2*N ? i-N : i-2*N, pass = q == 3 && pw; x0[i] = A.at(x,pass,q,k); del[i] = x0[i] - G.at(x,pass,q,k); f0[i] = q == 2 ? fP[k] : q == 4 ? fR[k] : fW[k]; }
		std::vector<double> res(M, 0.0), mag(M, 0.0), rnd(M, 0.0);
		for (int c2 = 0; c2 < M; c2++) {
			std::vector<Du> a(P.begin(), P.end()), b(w.begin(), w.end()), d(Rh.begin(), Rh.end()), ga, gb, gd; put3(a, b, d, c2).d = 1; C.F<Du>(a, b, d, ga, gb, gd);
			for (int r = 0; r < M; r++) { double J = put3(ga, gb, gd, r).d + (r == c2 ? 1/dt : 0.0); res[r] += J*del[c2]; mag[r] += fabs(J*del[c2]); rnd[r] += fabs(J)*(fabs(x0[c2]) + fabs(x0[c2]-del[c2])); }
		}
		// the solver does not scale the rows of its band matrix
		double tol = cols.vo == 1 ? 1e-9 : dt <= 1 ? 1e-7 : 2e-5;
		for (int r = 0; r < M; r++) { int q = r < N ? 2 : r < 2*N ? 4 : 3, k = r < N ? r : r < 2*N ? r-N : r-2*N; near(q == 2 ? "rhotheta" : q == 3 ? "w" : "rho", l, where(q == 3 && pw, q, k), res[r], f0[r], tol*(mag[r] + fabs(f0[r])) + 4e-16*rnd[r] + 1e-300); }
		// tracers follow the flow of the linearized step
		std::vector<double> wn(w.size()); for (size_t k = 0; k < w.size(); k++) wn[k] = G.at(x,pw,3,k);
		std::vector<double> xn = C.xidot(wn), dx(N+1); for (int k = 0; k <= N; k++) dx[k] = xi[k] + (xi[k] > 0 ? 1 : xi[k] < 0 ? -1 : 0)*0.0;
		Mat T(N, std::vector<double>(N));
		for (int k = 0; k < N; k++) { std::vector<double> e(N, 0.0); e[k] = 1; std::vector<double> a = C.flux(xi, e), b = C.penalty(xi, e); for (int r = 0; r < N; r++) T[r][k] = a[r] - b[r] + (r == k ? 1/dt : 0.0); }
		for (int q = 0; q < l.tr; q++) {
			std::vector<double> m(N), s; for (int k = 0; k < N; k++) m[k] = A.q(x,q,k);
			std::vector<double> f = C.flux(xn, m);
			for (int e = 1; e < cols.el && !C.v2; e++) { int k = e*cols.vo; double a = fabs(xi[k]) + (xi[k] > 0 ? 1 : xi[k] < 0 ? -1 : 0)*(xn[k] - xi[k]); std::vector<double> z = Cols::mul(cols.pen[e-1], m); for (int r = 0; r < N; r++) f[r] -= a*z[r]; }
			if (!solve(T, f, s)) { say("singular", "tracer matrix"); continue; }
			double tot = 0, pos = 0, big = 0;
			for (int k = 0; k < N; k++) { big = std::max(big, fabs(s[k])); s[k] = B.q(x,q,k) - s[k]; tot += s[k]*C.Jn[k]*wz(k); if (s[k] > 0) pos += s[k]*C.Jn[k]*wz(k); }
			for (int k = 0; k < N; k++) near("tracer", l, where(2,q,k), G.q(x,q,k), s[k] > 0 ? s[k]*tot/pos : 0.0, 1e-9*big + 1e-12);
		}
	}
	std::vector<double> zw; double wz(int k) const { return zw.empty() ? 1.0 : zw[k]; }
};
static void run(vh::Ctx & ctx, const Job & j) {
	VmpiResult mr;
	vh::mpi(1, [&](int) {
		AnnounceOnlyOutputOnRankZero();
		mini::Sim & s = *new mini::Sim(j.c, false);
		_TempestSetupMethodOfLines(s.model, s.v);
		Probe * p = new Probe(s.model, j, &ctx);
		s.model.m_pTimestepScheme = NULL; s.model.SetTimestepScheme(p);
		s.model.SetDeltaT(mini::seconds(1)); Time e = s.model.GetStartTime(); e += mini::seconds(1); s.model.SetEndTime(e);
		s.make_grid(); s.make_test();
		GridGLL & g = dynamic_cast<GridGLL &>(*s.grid);
		for (int k = 0; k < j.c.lev; k++) p->zw.push_back(g.m_dREtaLevelsNormArea[k]);
		s.model.Go();
	}, VmpiOpts(), mr);
	if (!mr.ok) ctx.viol(j.name() + " run", mr.error);
}
void vh_jobs(vh::Registry & r) {
	bool th = r.thorough;
	const char * vm = "v1"; auto A = [&](Job j) { j.c.vm = vm; if (vm[1] == '2' && std::string(j.c.stag) == "int") return; r.add(j.name(), [j](vh::Ctx & c) { run(c, j); }); };
	for (const char * m12 : {"v1", "v2"}) for (int kind : {mini::CS, mini::CART, mini::CARTXZ}) {
		vm = m12; auto base = [&]() { Job j; Cfg & k = j.c; k.kind = kind; k.nx = 1; k.ny = kind == mini::CARTXZ ? 1 : 2; k.ho = kind == mini::CS ? 2 : 4; k.lev = 4; k.tracers = 2; k.steps = 1; k.reflat = 0.7; return j; };
		for (char mode : {'E', 'T', 'S'}) for (int expl = 0; expl < 2; expl++) {
			if (mode == 'S' && expl) continue;
			auto one = [&](Job j) { j.mode = mode; j.c.expl = expl; for (double dt : {1.0, 300.0}) for (double amp : {1.0, 1e-3}) { j.dt = dt; j.amp = amp; A(j); } };
			for (int tr : {0, 1, 3}) { Job j = base(); j.c.tracers = tr; one(j); j.signs = true; one(j); }
			for (int seed = 1; seed <= (th ? 8 : 2); seed++) { Job j = base(); j.seed = seed; j.c.vo = 2; one(j); }
			for (int top = 0; top < 2; top++) for (const char * st : {"uniform", "cubic", "pwlinear"}) for (int vo = 1; vo <= 5; vo++) for (int m = 2; m <= (th ? 6 : 4); m++) {
				Job j = base(); j.c.vo = vo; j.c.lev = vo*m; j.c.stretch = st; j.c.topo = top; one(j);
			}
			for (int vo : {2, 4}) for (int lev = vo+1; lev <= (th ? 12 : 7); lev++) { Job j = base(); j.c.vdisc = "fv"; j.c.vo = vo; j.c.lev = lev; if (mode != 'S') one(j); }
			if (mode == 'E' && expl) for (int vo = 2; vo <= 5; vo++) for (int m = 2; m <= 5; m++) { Job j = base(); j.c.stag = "int"; j.c.vo = vo; j.c.lev = (vo-1)*m + 1; if (j.c.lev/vo >= 2) one(j); }
			if (mode != 'S') for (int vo = 1; vo <= 4; vo++) { Job j = base(); j.c.fluxlev = true; j.c.vo = vo; j.c.lev = 3*vo; one(j); }
			for (int ref = 0; ref < 2; ref++) for (int vo = 1; vo <= 3; vo++) for (int tr = 0; tr < 3; tr++) { if (tr && mode == 'S') continue; Job j = base(); j.c.udiff = kind == mini::CS ? 2e6 : 500; j.c.ref = j.c.refq = ref; j.c.vo = vo; j.c.lev = 3*vo; j.c.tracers = tr; one(j); if (mode == 'S') continue; j.c.fluxlev = true; one(j); if (vo == 1 || mode == 'T' || !expl) continue; j.c.fluxlev = false; j.c.stag = "int"; j.c.lev = (vo-1)*4 + 1; if (j.c.lev/vo >= 2) one(j); }
			for (int ref = 0; ref < 2; ref++) for (int ray = 0; ray < 2; ray++) { Job j = base(); j.c.ref = ref; j.c.rayleigh = ray; one(j); }
			for (int pat : {6, 24, 1, 2}) { if ((kind == mini::CS) != (pat >= 6)) continue; Job j = base(); j.c.patches = pat; j.c.nx = 2; one(j); }
			if (mode == 'S') { Job j = base(); j.inplace = false; one(j); j.c.vo = 2; one(j); }
			if (kind == mini::CS) for (double earth : {1.0e6, 8.0e6}) { Job j = base(); j.c.earth = earth; one(j); }
		}
	}
}
