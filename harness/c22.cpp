// C22: the horizontal dynamics against an independent discretization of the equations.
#include "disc.h"
using namespace disc;

struct Job { Cfg c; bool hv = false, signs = false; double nus = 0, nud = 0, nuv = 0, refl = 0, dt = 1; std::string tag; std::string name() const { return c.name() + (hv ? "-after" : "-step") + (signs ? "-neg" : "") + vh::fmt("-%g-%g-%g-%g-%g", nus, nud, nuv, refl, dt) + tag; } };

struct Probe : TimestepScheme {
	Job j; vh::Ctx * ctx; long n = 0;
	Probe(Model & m, const Job & k, vh::Ctx * x) : TimestepScheme(m), j(k), ctx(x) {}
	int GetComponentDataInstances() const { return 4; }
	int GetTracerDataInstances() const { return 4; }
	void judge(const char * what, Fields & got, Fields & want, Fields & base, const std::vector<char> & live, Layout & l) {
		// scale of a component: the largest change
		size_t per = l.per();
		auto cls = [&](size_t w) -> size_t { if (w < (size_t)l.comp*l.lev) return w/l.lev; w -= (size_t)l.comp*l.lev; if (w < (size_t)l.comp*(l.lev+1)) return l.comp + w/(l.lev+1); w -= (size_t)l.comp*(l.lev+1); return 2*l.comp + w/l.lev; };
		std::vector<double> ch(per, 0), mag(per, 0);
		for (size_t i = 0; i < want.v.size(); i++) { size_t q = cls(i % per); ch[q] = std::max(ch[q], fabs(want.v[i]-base.v[i])); mag[q] = std::max(mag[q], fabs(want.v[i])); }
		ch[0] = ch[1] = std::max(ch[0], ch[1]); mag[0] = mag[1] = std::max(mag[0], mag[1]);
		std::map<size_t, int> told;
		for (size_t i = 0; i < want.v.size(); i++) {
			size_t w = i % per, q = cls(w); if (!live[w]) continue;
			n++;
			double tol = 2e-10*ch[q] + 1e-13*mag[q];
			if (!(fabs(got.v[i]-want.v[i]) <= tol) && told[q]++ == 0) ctx->viol(j.name() + " " + what + vh::fmt(" kind %d", (int)q), mini::describe(l, i) + vh::fmt(": %.17g instead of %.17g (change %.3g)", got.v[i], want.v[i], ch[q]));
		}
	}
	void Step(bool, bool, const Time & time, double) {
		const Cfg & c = j.c; GridGLL & g = dynamic_cast<GridGLL &>(*m_model.GetGrid()); Layout l = mini::layout(c); topo::Topo t(c);
		PhysicalConstants phys = m_model.GetPhysicalConstants();
		Ops o(t, g, l, phys.GetEarthRadius());
		std::vector<char> live = mini::live_mask(g, l);
		Fields A(l), B(l), X(l), got(l);
		fill(t, c, A, 0, o.R, j.signs, false); fill(t, c, B, 100, o.R, false, false); fill(t, c, X, 200, o.R, true, false);
		if (c.kind == mini::CARTXZ) for (size_t n = 0; n < l.cols(); n++) for (int p = 0; p < 2; p++) for (int k = 0; k < l.lev + p; k++) A.at(n,p,1,k) = B.at(n,p,1,k) = 0;
		Fields W(l);
		if (j.hv) {
			// everything but the initial data is whatever was left behind
			put(g, l, 0, A); put(g, l, 1, X); put(g, l, 2, X); put(g, l, 3, X);
			m_model.GetHorizontalDynamics()->StepAfterSubCycle(0, 1, 2, time, j.dt);
			get(g, l, 1, got); after(o, g, l, live, A, W);
			Fields A2(l); get(g, l, 0, A2); if (memcmp(&A2.v[0], &A.v[0], A.v.size()*8)) ctx->viol(j.name() + " initial data", "changed");
			judge("after", got, W, A, live, l);
		} else {
			put(g, l, 0, A); put(g, l, 1, B); put(g, l, 2, X); put(g, l, 3, X);
			m_model.GetHorizontalDynamics()->StepExplicit(0, 1, time, j.dt);
			get(g, l, 1, got); W = B; step(o, g, l, A, W, phys, j.dt);
			if (c.udiff != 0) diffuse(o, g, l, A, W, j.dt);
			o.filter(W);
			judge("step", got, W, B, live, l);
			Fields A2(l); get(g, l, 0, A2); for (size_t i = 0; i < A.v.size(); i++) if (live[i % l.per()] && A2.v[i] != A.v[i]) { ctx->viol(j.name() + " initial data", "changed"); break; }
		}
		ctx->count("evaluations", n); ctx->count("distinct_nontrivial", n);
	}
	// the equations
	void step(Ops & o, GridGLL & g, Layout & l, Fields & A, Fields & W, const PhysicalConstants & phys, double dt) {
		const Cfg & c = j.c; int N = l.lev; size_t M = l.cols(); double gr = phys.GetG();
		std::vector<double> wn(M*N, 0.0), K(M*N), Pi(M*N, 0.0), Fx(M*N, 0.0); std::vector<std::array<double,3>> con(M*N);
		for (size_t n = 0; n < M; n++) for (int k = 0; k < N; k++) {
			double u = A.n(n,0,k), v = A.n(n,1,k);
			if (c.sw) { con[n*N+k] = {o.H[n][0]*u + o.H[n][1]*v, o.H[n][1]*u + o.H[n][2]*v, 0}; K[n*N+k] = 0.5*(u*con[n*N+k][0] + v*con[n*N+k][1]) + gr*A.n(n,2,k); continue; }
			double w = o.edgeW ? g.GetOpInterpREdgeToNode().Apply(&A.e(n,3,0), k) : A.n(n,3,k); wn[n*N+k] = w;
			double m[6]; o.inv3(n, 0, k, m);
			con[n*N+k] = {m[0]*u + m[1]*v + m[2]*w, m[1]*u + m[3]*v + m[4]*w, m[2]*u + m[4]*v + m[5]*w};
			K[n*N+k] = 0.5*(u*con[n*N+k][0] + v*con[n*N+k][1] + w*con[n*N+k][2]);
			Pi[n*N+k] = phys.GetCp()*pow(phys.GetR()*A.n(n,2,k)/phys.GetP0(), phys.GetR()/(phys.GetCp()-phys.GetR()));
		}
		for (size_t n = 0; n < M; n++) for (int k = 0; k < N; k++) {
			auto U = [&](size_t x) { return A.n(x,0,k); }; auto V = [&](size_t x) { return A.n(x,1,k); }; auto w = [&](size_t x) { return wn[x*N+k]; };
			auto Kf = [&](size_t x) { return K[x*N+k]; }; auto P = [&](size_t x) { return Pi[x*N+k]; };
			auto flux = [&](int d, const std::function<double(size_t)> & f) { return o.weak(n, d, [&](size_t x) { return o.jac(x,0,k)*con[x*N+k][d]*f(x); }); };
			auto div = [&](const std::function<double(size_t)> & f) { return (flux(0, f) + flux(1, f))/o.jac(n,0,k); };
			double ca = con[n*N+k][0], cb = con[n*N+k][1], cx = con[n*N+k][2], Jz = o.d(n,0,V) - o.d(n,1,U), cor = o.f[n]*o.J2[n];
			double du, dv;
			if (c.sw) {
				du = cb*(Jz + cor) - o.d(n,0,Kf); dv = -ca*(Jz + cor) - o.d(n,1,Kf);
				W.n(n,2,k) -= dt*div([&](size_t x) { return A.n(x,2,k) - o.zs[x]; });
				for (int q = 0; q < l.tr; q++) W.q(n,q,k) -= dt*div([&](size_t x) { return A.q(x,q,k); });
			} else {
				double ux = g.GetOpDiffNodeToNode().Apply(&A.n(n,0,0), k), vx = g.GetOpDiffNodeToNode().Apply(&A.n(n,1,0), k);
				double wa = o.d(n,0,w), wb = o.d(n,1,w), za = wb - vx, zb = ux - wa;
				double th = A.n(n,2,k)/A.n(n,4,k);
				du = cb*(Jz + cor) - cx*zb - o.d(n,0,Kf) - th*o.d(n,0,P) - gr*o.zn[n*N+k][0];
				dv = cx*za - ca*(Jz + cor) - o.d(n,1,Kf) - th*o.d(n,1,P) - gr*o.zn[n*N+k][1];
				Fx[n*N+k] = -ca*wa - cb*wb;
				W.n(n,4,k) -= dt*div([&](size_t x) { return A.n(x,4,k); });
				W.n(n,2,k) -= dt*div([&](size_t x) { return A.n(x,2,k); });
				for (int q = 0; q < l.tr; q++) {
					W.q(n,q,k) -= dt*div([&](size_t x) { return A.q(x,q,k); });
					if (c.udiff != 0) {
						auto mix = [&](size_t y) { return A.q(y,q,k)/A.n(y,4,k); };
						double s = 0;
						for (int d = 0; d < 2; d++) s += o.weak(n, d, [&](size_t x) { double m[6]; o.inv3(x, 0, k, m); return o.jac(x,0,k)*A.n(x,4,k)*((d == 0 ? m[0] : m[1])*o.d(x,0,mix) + (d == 0 ? m[1] : m[3])*o.d(x,1,mix)); });
						W.q(n,q,k) += dt*c.udiff*s/o.jac(n,0,k);
					}
				}
				if (!o.edgeW) {
					double m[6]; o.inv3(n, 0, 0, m);
					W.n(n,3,k) += dt*(k == 0 ? -(m[2]*du + m[4]*dv)/m[5] : k == N-1 ? 0.0 : Fx[n*N+k]);
				}
			}
			W.n(n,0,k) += dt*du; if (c.kind != mini::CARTXZ) W.n(n,1,k) += dt*dv;
		}
		if (o.edgeW) for (size_t n = 0; n < M; n++) {
			double m[6]; o.inv3(n, 1, 0, m);
			W.e(n,3,0) = -(m[2]*g.GetOpInterpNodeToREdge().Apply(&W.n(n,0,0), 0) + m[4]*g.GetOpInterpNodeToREdge().Apply(&W.n(n,1,0), 0))/m[5];
			for (int k = 1; k < N; k++) W.e(n,3,k) += dt*g.GetOpInterpNodeToREdge().Apply(&Fx[n*N], k);
		}
	}
	// W += s * Laplacian of F
	void lap(Ops & o, Layout & l, Fields & F, Fields & W, int pass, int comp, double s) {
		int K = l.lev + (pass == 1);
		for (int k = 0; k < K; k++) {
			auto f = [&](size_t x) { return F.at(x,pass,comp,k); };
			std::vector<double> fa(l.cols()), fb(l.cols());
			for (size_t n = 0; n < l.cols(); n++) { double a = o.d(n,0,f), b = o.d(n,1,f), J = o.jac(n,pass,k); fa[n] = J*(o.H[n][0]*a + o.H[n][1]*b); fb[n] = J*(o.H[n][1]*a + o.H[n][2]*b); }
			for (size_t n = 0; n < l.cols(); n++) W.at(n,pass,comp,k) += s*(o.weak(n,0,[&](size_t x) { return fa[x]; }) + o.weak(n,1,[&](size_t x) { return fb[x]; }))/o.jac(n,pass,k);
		}
	}
	void veclap(Ops & o, Layout & l, Fields & F, Fields & W, double sd, double sv) {
		for (int k = 0; k < l.lev; k++) {
			std::vector<double> D(l.cols()), Z(l.cols());
			auto U = [&](size_t x) { return F.n(x,0,k); }; auto V = [&](size_t x) { return F.n(x,1,k); };
			for (size_t n = 0; n < l.cols(); n++) {
				Z[n] = (o.d(n,0,V) - o.d(n,1,U))/o.J2[n];
				D[n] = (o.d(n,0,[&](size_t x) { return o.J2[x]*(o.H[x][0]*U(x) + o.H[x][1]*V(x)); }) + o.d(n,1,[&](size_t x) { return o.J2[x]*(o.H[x][1]*U(x) + o.H[x][2]*V(x)); }))/o.J2[n];
			}
			auto Df = [&](size_t x) { return D[x]; }; auto Zf = [&](size_t x) { return Z[x]; };
			for (size_t n = 0; n < l.cols(); n++) {
				double Da = o.weak(n,0,Df), Db = o.weak(n,1,Df), Za = o.weak(n,0,Zf), Zb = o.weak(n,1,Zf), J = o.J2[n];
				W.n(n,0,k) += sd*Da - sv*J*(o.H[n][1]*Za + o.H[n][2]*Zb);
				if (j.c.kind != mini::CARTXZ) W.n(n,1,k) += sd*Db + sv*J*(o.H[n][0]*Za + o.H[n][1]*Zb);
			}
		}
	}
	void reference(GridGLL & g, Layout & l, Fields & R) {
		mini::each_column(g, l, [&](GridPatch & p, int a, int b, size_t col) { for (int q = 0; q < l.comp; q++) { for (int k = 0; k < l.lev; k++) R.n(col,q,k) = p.GetReferenceState(DataLocation_Node)(q,a,b,k); for (int k = 0; k <= l.lev; k++) R.e(col,q,k) = p.GetReferenceState(DataLocation_REdge)(q,a,b,k); } });
	}
	void diffuse(Ops & o, GridGLL & g, Layout & l, Fields & A, Fields & W, double dt) {
		Fields R(l), E(l); reference(g, l, R);
		for (size_t i = 0; i < A.v.size(); i++) E.v[i] = A.v[i] - R.v[i];
		veclap(o, l, E, W, dt*j.c.udiff, dt*j.c.udiff);
		if (j.c.sw) return;
		lap(o, l, E, W, o.edgeP, 2, dt*j.c.udiff); lap(o, l, E, W, o.edgeW, 3, dt*j.c.udiff);
	}
	void all(Ops & o, Layout & l, Fields & F, Fields & W, double ns, double nd, double nv) {
		for (int q = 2; q < l.comp; q++) lap(o, l, F, W, q == 3 && o.edgeW, q, ns);
		for (int q = 0; q < l.tr; q++) lap(o, l, F, W, 2, q, ns);
		veclap(o, l, F, W, nd, nv);
	}
	void after(Ops & o, GridGLL & g, Layout & l, const std::vector<char> & live, Fields & A, Fields & W) {
		const Cfg & c = j.c; W = A; double dt = j.dt; bool on = j.nus != 0 || j.nud != 0 || j.nuv != 0;
		if (on && c.nuorder == 2) { all(o, l, A, W, dt*j.nus, dt*j.nud, dt*j.nuv); o.filter(W); o.dss(W, live); }
		if (on && c.nuorder == 4) {
			Fields L(l); all(o, l, A, L, 1, 1, 1); o.dss(L, live);
			double s = g.GetReferenceLength() != 0 ? pow(o.da/g.GetReferenceLength(), 3.2) : 1.0;
			all(o, l, L, W, -dt*s*j.nus, -dt*s*j.nud, -dt*s*j.nuv); o.filter(W); o.dss(W, live);
		}
		if (!c.rayleigh) return;
		Fields R(l); reference(g, l, R);
		mini::each_column(g, l, [&](GridPatch & p, int a, int b, size_t col) {
			for (int pass = 0; pass < 2; pass++) for (int k = 0; k < l.lev + pass; k++) {
				double nu = p.GetRayleighStrength(pass ? DataLocation_REdge : DataLocation_Node)(a,b,k), x = pow(1/(1 + 0.1*dt*nu), 10);
				for (int q = 0; q < l.comp; q++) {
					if (!c.sw && (q == 4 || (c.kind == mini::CARTXZ && q == 1))) continue;
					double & v = W.at(col,pass,q,k), r = R.at(col,pass,q,k); v = r + x*(v - r);
				}
			}
		});
	}
};

static void run(vh::Ctx & ctx, const Job & j) {
	VmpiResult mr;
	vh::mpi(1, [&](int) {
		AnnounceOnlyOutputOnRankZero();
		mini::Sim & s = *new mini::Sim(j.c, false);
		s.v.dNuScalar = j.nus; s.v.dNuDiv = j.nud; s.v.dNuVort = j.nuv; s.v.fNoHyperviscosity = false;
		_TempestSetupMethodOfLines(s.model, s.v);
		s.model.m_pTimestepScheme = NULL; s.model.SetTimestepScheme(new Probe(s.model, j, &ctx));
		s.model.SetDeltaT(mini::seconds(1)); Time e = s.model.GetStartTime(); e += mini::seconds(1); s.model.SetEndTime(e);
		s.make_grid(); if (j.refl >= 0) s.grid->SetReferenceLength(j.refl); s.make_test();
		s.model.Go();
	}, VmpiOpts(), mr);
	if (!mr.ok) ctx.viol(j.name() + " run", mr.error);
}

void vh_jobs(vh::Registry & r) {
	bool th = r.thorough;
	auto A = [&](Job j) { r.add(j.name(), [j](vh::Ctx & c) { run(c, j); }); };
	for (int kind : {mini::CS, mini::CART, mini::CARTXZ}) for (int sw = 0; sw < (kind == mini::CARTXZ ? 1 : 2); sw++) {
		auto base = [&]() { Job j; Cfg & k = j.c; k.kind = kind; k.sw = sw; k.nx = 2; k.ny = kind == mini::CARTXZ ? 1 : 2; k.ho = 4; k.lev = sw ? 1 : 3; k.tracers = 2; k.steps = 1; k.reflat = 0.7; if (sw) { k.vm = "none"; k.scheme = "ark232"; if (kind != mini::CS) k.topo = false; } j.dt = 10; return j; };
		double big = kind == mini::CS ? 1e15 : 1e8;
		auto visc = [&](Job & j, double s) { j.hv = true; j.nus = s; j.nud = 2.5*s; j.nuv = 0.6*s; };
		for (const char * hm : {"v1", "v2"}) {
			if (hm[1] == '2' && kind == mini::CARTXZ) continue;
			for (int ho = 2; ho <= (th ? 8 : 6); ho++) for (int nx = 1; nx <= (th ? 4 : 3); nx++) for (int neg = 0; neg < 2; neg++) {
				if (hm[1] == '2' && ho != 4) continue;
				Job j = base(); j.c.hm = hm; j.c.ho = ho; j.c.nx = nx; j.signs = neg; A(j);
				for (int ord : {0, 2, 4}) {
					j.c.nuorder = ord; double s = ord == 4 ? big : kind == mini::CS ? 1e5 : 1e2;
					visc(j, s); j.refl = 0; A(j);
					if (ho == 4) { j.refl = kind == mini::CS ? 0.3 : 1.0e5; A(j); j.refl = -1; if (kind == mini::CS) A(j); j.refl = 0; j.nus = 0; A(j); j.nus = s; j.nud = 0; A(j); j.nud = s; j.nuv = 0; A(j); j.nus = j.nud = j.nuv = 0; A(j); }
				}
			}
			for (int tr = 0; tr <= 4; tr++) for (double dt : {1.0, 600.0}) { Job j = base(); j.c.hm = hm; j.c.tracers = tr; j.dt = dt; A(j); visc(j, big); A(j); }
			for (int ray = 0; ray < 2; ray++) for (int ref = 0; ref < 2; ref++) for (double nu : {0.0, 1.0}) { if (sw) continue; Job j = base(); j.c.hm = hm; j.c.rayleigh = ray; j.c.ref = ref; j.dt = 3000; j.c.lev = 5; visc(j, nu*(kind == mini::CS ? 1e13 : 1e5)); A(j); }
			for (int ref = 0; ref < 2; ref++) for (int tr = 0; tr < 3; tr++) { if (sw && ref) continue; Job j = base(); j.c.hm = hm; j.c.udiff = kind == mini::CS ? 2e6 : 500; j.c.ref = ref; j.c.tracers = tr; A(j); }
			for (int pat : {6, 24, 1, 2}) { if ((kind == mini::CS) != (pat >= 6)) continue; Job j = base(); j.c.hm = hm; j.c.patches = pat; j.c.nx = 4; A(j); visc(j, big); A(j); }
			if (kind == mini::CS) for (double earth : {1.0e6, 8.0e6}) { Job j = base(); j.c.hm = hm; j.c.earth = earth; A(j); visc(j, 1e14); A(j); }
			for (int b = 0; kind != mini::CS && b < 81; b++) {
				Job j = base(); j.c.hm = hm; j.c.bc[0] = b%3; j.c.bc[2] = b/3%3; j.c.bc[1] = b/9%3; j.c.bc[3] = b/27;
				if (!j.c.bc[0] != !j.c.bc[2] || !j.c.bc[1] != !j.c.bc[3] || (kind == mini::CARTXZ && j.c.bc[1])) continue;
				A(j); visc(j, big); A(j);
			}
			if (sw) { Job j = base(); j.c.topo = kind == mini::CS; j.c.hm = hm; j.c.zerotracer = true; A(j); continue; }
			for (int vo = 1; vo <= 4; vo++) for (int m = 2; m <= 4; m++) for (const char * st : {"uniform", "cubic", "pwlinear"}) for (int top = 0; top < 2; top++) {
				Job j = base(); j.c.hm = hm; j.c.vo = vo; j.c.lev = vo*m; j.c.stretch = st; j.c.topo = top; j.c.nx = 1; if (vo > 2 && !th && top == 0) continue; A(j);
				visc(j, big); A(j);
				if (vo >= 2 && hm[1] == '1') { j.hv = false; j.c.stag = "int"; j.c.expl = true; j.c.lev = (vo-1)*m + 1; j.c.scheme = "ark232"; if (j.c.lev/vo < 2) continue; A(j); j.hv = true; A(j); }
			}
			for (int lev : {4, 7}) { Job j = base(); j.c.hm = hm; j.c.vdisc = "fv"; j.c.vo = 2; j.c.lev = lev; A(j); }
		}
	}
}
