// C17: what a simulation conserves, keeps proportional and keeps at rest.
#include "disc.h"
#include "WorkflowProcess.h"
#include "VerticalDynamicsFEM.h"
#include "VerticalDynamicsFEMV2.h"
#include "HorizontalDynamicsFEM.h"
#include "HorizontalDynamicsFEMV2.h"
#include "SplitExplicitDynamics.h"
#include "HighSpeedDynamics.h"
using namespace disc;

struct Job { Cfg c; char mode = 'm'; bool signs = false, up = false; std::string name() const { return vh::fmt("%c-", mode) + c.name() + vh::fmt("-n%d-dt%g", c.steps, c.dt) + (signs ? "-neg" : "") + (up ? "-up" : ""); } };

// m: any state; c: tracers in proportion to the density; u: at rest, level and uniform; w: uniform wind
struct State : mini::Test {
	char mode; bool signs; State(const Job & j) : mini::Test(j.c), mode(j.mode), signs(j.signs) {}
	// a uniform wind stays uniform on a plane that does not turn
	virtual void EvaluatePhysicalConstants(PhysicalConstants & phys) const { mini::Test::EvaluatePhysicalConstants(phys); if (mode == 'w') phys.SetOmega(0.0); }
	virtual void EvaluatePointwiseState(const PhysicalConstants & phys, const Time & t, double z, double a, double b, double * s, double * q) const {
		mini::Test::EvaluatePointwiseState(phys, t, z, a, b, s, q);
		if (mode == 'u' || mode == 'w') {
			bool w = mode == 'w';
			s[0] = w ? 12.0 : 0; s[1] = w && c.kind != mini::CARTXZ ? -7.0 : 0;
			if (c.sw) s[2] = 3000; else { double th, rho; base(phys, z, th, rho); s[2] = th; s[3] = 0; s[4] = rho; }
		}
		double h = c.sw ? s[2] - (c.topo ? EvaluateTopography(phys, a, b) : 0.0) : s[4];
		for (int i = 0; q != NULL && i < c.tracers; i++) {
			if (mode == 'c') q[i] = h*(1.0 + 0.25*i);
			else if (mode == 'u' || mode == 'w') q[i] = h*(0.5 + 0.25*i + (c.sw ? 0 : 0.3*sin(3*z/c.ztop)));
			else if (signs) q[i] = h*std::max(0.02, f(8 + i, a, b));
		}
	}
};
struct Probe : WorkflowProcess {
	Job j; vh::Ctx * ctx; long n = 0; int step = 0; std::map<std::string,int> told; Layout l; Fields F0; std::vector<double> tot0; double moved[16] = {0}; const topo::Topo & t;
	Probe(Model & m, const Job & k, vh::Ctx * x, const topo::Topo & T) : WorkflowProcess(m, mini::seconds(k.c.dt)), j(k), ctx(x), l(mini::layout(k.c)), F0(l), t(T) {}
	void say(const std::string & what, const std::string & d) { if (told[what]++ == 0) ctx->viol(j.name() + " " + what, vh::fmt("step %d: ", step) + d); }
	bool IsReady(const Time &) { return true; }
	// densities: mass, rho theta, tracers
	int nq() const { return (j.c.sw ? 1 : 2) + l.tr; }
	double dens(Fields & F, GridPatch & p, int a, int b, size_t col, int q, int k) { int s = j.c.sw ? 1 : 2; if (q >= s) return F.q(col, q-s, k); if (j.c.sw) return F.n(col,2,k) - p.GetTopography()(a,b); return F.n(col, q == 0 ? 4 : 2, k); }
	bool isw(size_t w) const { return (w >= (size_t)3*l.lev && w < (size_t)4*l.lev) || (w >= (size_t)5*l.lev + 3*(l.lev+1) && w < (size_t)5*l.lev + 4*(l.lev+1)); }
	void look(bool first) {
		GridGLL & g = dynamic_cast<GridGLL &>(*m_model.GetGrid()); const Cfg & c = j.c;
		Fields F(l); get(g, l, 0, F); if (first) F0 = F;
		for (size_t i = 0; i < F.v.size(); i++) if (!std::isfinite(F.v[i])) { say("finite", mini::describe(l, i) + " is not a number"); return; }
		std::vector<long double> tot(nq(), 0.0L); std::vector<double> sum(nq(), 0.0), mv(nq(), 0.0);
		mini::each_column(g, l, [&](GridPatch & p, int a, int b, size_t col) {
			const DataArray3D<double> & A = p.GetElementAreaNode();
			for (int q = 0; q < nq(); q++) for (int k = 0; k < l.lev; k++) { double x = dens(F,p,a,b,col,q,k)*A(a,b,k); tot[q] += x; sum[q] += fabs(x); mv[q] += fabs(x - dens(F0,p,a,b,col,q,k)*A(a,b,k)); }
			if (j.mode == 'c' && !(c.sw && c.topo && c.nu != 0)) for (int q = 0; q < l.tr; q++) for (int k = 0; k < l.lev; k++) {
				double h = dens(F,p,a,b,col,0,k), x = F.q(col,q,k), w = (1.0 + 0.25*q)*h; n++;
				if (!(fabs(x-w) <= 1e-10*w)) say("proportion", vh::fmt("tracer %d level %d column %d is %.15g of the density instead of %g", q, k, (int)col, x/h, 1 + 0.25*q));
			}
		});
		const char * nm[3] = {"mass", c.sw ? "tracer" : "rhotheta", "tracer"};
		if (first) tot0.assign(tot.begin(), tot.end());
		// columns of interface staggered nodes are not in flux form
		for (int q = 0; q < nq() && std::string(c.stag) != "int"; q++) {
			if (q == 1 && !j.c.sw && j.c.udiff != 0 && j.c.kind != mini::CS && j.c.topo) continue; // diffused without weights, too
			moved[q] += mv[q]; n++;
			double tol = 1e-11*sum[q] + 1e-9*moved[q];
			if (!(fabs((double)(tot[q] - tot0[q])) <= tol)) say(nm[std::min(q,2)], vh::fmt("total %d went from %.17g to %.17g (relative %.3g, of what moved %.3g)", q, tot0[q], (double)tot[q], (double)(tot[q]-tot0[q])/sum[q], (double)(tot[q]-tot0[q])/(moved[q]+1e-300)));
		}
		if (j.mode == 'u' || j.mode == 'w') {
			// the same everywhere: velocities as they were, scalars as in the first column
			std::vector<char> live = mini::live_mask(g, l); double R = c.kind == mini::CS ? m_model.GetPhysicalConstants().GetEarthRadius() : 1.0;
			double wmax = 0; if (!c.sw) for (size_t w = 0; w < F.v.size(); w++) { size_t k = w % l.per(); if (isw(k)) wmax = std::max(wmax, fabs(F.v[w])); }
			for (size_t col = 0; col < l.cols(); col++) for (size_t w = 0; w < l.per(); w++) {
				if (!live[w]) continue; n++;
				double x = F.v[col*l.per()+w], y = F.v[w]; bool vel = w < (size_t)2*l.lev, vw = !c.sw && isw(w);
				if (vel) y = F0.v[col*l.per()+w];
				double tol = vel ? 1e-7*R*step + (j.mode == 'w' ? 1e-9 : 0) : vw ? 1e-7*wmax + 1e-5 : 1e-9*fabs(y);
				if (c.sw && w >= (size_t)l.comp*(2*l.lev+1) && c.topo) { continue; }
				if (!(fabs(x-y) <= tol)) say(vel ? "at rest" : "uniform", mini::describe(l, col*l.per()+w) + vh::fmt(": %.17g instead of %.17g", x, y));
			}
			if (c.sw && !(c.topo && c.nu != 0)) for (size_t col = 0; col < l.cols(); col++) for (int k = 0; k < l.lev; k++) for (int q = 0; q < l.tr; q++) { n++; if (!(fabs(F.q(col,q,k)-F0.q(col,q,k)) <= 1e-10*fabs(F0.q(col,q,k)))) say("uniform", vh::fmt("tracer %d column %d", q, (int)col)); }
		}
	}
	// the upwinding of levels is not in flux form where the Jacobian varies along a column (F44): there it is
	// switched off, but for the jobs marked "up"
	void upwind() {
		if (j.c.kind == mini::CS || !j.c.topo || j.c.sw || j.up) return;
		if (VerticalDynamicsFEM * v = dynamic_cast<VerticalDynamicsFEM *>(m_model.m_pVerticalDynamics)) v->m_fUpwindVar.Zero();
		if (VerticalDynamicsFEMV2 * v = dynamic_cast<VerticalDynamicsFEMV2 *>(m_model.m_pVerticalDynamics)) v->m_fUpwindVar.Zero();
	}
	void Initialize(const Time &) { upwind(); look(true); }
	void Perform(const Time &) { step++; look(false); }
};
static void run(vh::Ctx & ctx, const Job & j) {
	VmpiResult mr; topo::Topo t(j.c);
	vh::mpi(1, [&](int) {
		AnnounceOnlyOutputOnRankZero();
		mini::Sim & s = *new mini::Sim(j.c);
		s.make_grid();
		Probe * p = new Probe(s.model, j, &ctx, t); s.model.AttachWorkflowProcess(p);
		s.model.SetTestCase(new State(j));
		s.model.Go();
		if (p->step != j.c.steps) ctx.viol(j.name() + " steps", vh::fmt("%d steps seen", p->step));
		ctx.count("evaluations", p->n); ctx.count("distinct_nontrivial", p->step ? p->n : 0);
	}, VmpiOpts(), mr);
	if (!mr.ok) ctx.viol(j.name() + " run", mr.error);
}
// The positivity filters themselves, on every pattern of signs of a column (horizontal: of an element on one level): nothing
// is negative afterwards, the total is kept, and what had no negative values stays as it was.
static void clean(vh::Ctx & ctx, const Cfg & c) {
	VmpiResult mr; topo::Topo t(c);
	vh::mpi(1, [&](int) {
		AnnounceOnlyOutputOnRankZero(); mini::Sim & s = *new mini::Sim(c); s.setup(); s.grid->EvaluateGeometricTerms();
		GridGLL & g = *dynamic_cast<GridGLL *>(s.grid); Layout l = mini::layout(c); Fields F(l), G(l); get(g, l, 0, F); long n = 0; std::map<std::string,int> told;
		std::vector<double> A(l.cols()*l.lev); mini::each_column(g, l, [&](GridPatch & p, int a, int b, size_t col) { for (int k = 0; k < l.lev; k++) A[col*l.lev+k] = p.GetElementAreaNode()(a,b,k); });
		for (int vert = 0; vert < 2; vert++) {
			if (vert && c.vm == "none") continue;
			std::function<void()> run; HorizontalDynamics * h = s.model.m_pHorizontalDynamics; VerticalDynamics * v = s.model.m_pVerticalDynamics;
			if (vert) run = [=]() { v->FilterNegativeTracers(0); };
			else if (HorizontalDynamicsFEM * d = dynamic_cast<HorizontalDynamicsFEM *>(h)) run = [=]() { d->FilterNegativeTracers(0); };
			else if (HorizontalDynamicsFEMV2 * d = dynamic_cast<HorizontalDynamicsFEMV2 *>(h)) run = [=]() { d->FilterNegativeTracers(0); };
			else if (SplitExplicitDynamics * d = dynamic_cast<SplitExplicitDynamics *>(h)) run = [=]() { d->FilterNegativeTracers(0); };
			else if (HighSpeedDynamics * d = dynamic_cast<HighSpeedDynamics *>(h)) run = [=]() { d->FilterNegativeTracers(0); };
			else continue;
			// groups of places whose total is kept
			std::vector<std::vector<size_t>> groups; // of col*lev + k
			if (vert) for (size_t col = 0; col < l.cols(); col++) { groups.emplace_back(); for (int k = 0; k < l.lev; k++) groups.back().push_back(col*l.lev + k); }
			else { std::map<int, std::vector<int>> el; for (size_t col = 0; col < l.cols(); col++) el[t.elem(col)].push_back(col); for (auto & e : el) for (int k = 0; k < l.lev; k++) { groups.emplace_back(); for (int col : e.second) groups.back().push_back((size_t)col*l.lev + k); } }
			int len = groups[0].size(); long pats = 1; for (int i = 0; i < len && pats < 100000; i++) pats *= len > 9 ? 2 : 3;
			if (vert && pats > 20000) pats = 20000;
			int base = len > 9 ? 2 : 3;
			for (long p0 = 0; p0 < pats; ) {
				G.v = F.v; long first = p0;
				for (auto & gr : groups) for (int q = 0; q < l.tr; q++) { long p = p0++ % pats; double tot = 0, big = 0; for (size_t i : gr) { int d = p % base; p /= base; double x = (0.2 + noise(i*4+q, first + 3)) * (d == 0 ? 1 : d == 1 ? -0.3 : 0); G.q(i/l.lev, q, i%l.lev) = x; tot += x*A[i]; big += fabs(x)*A[i]; }
					// a total that is not positive cannot be kept: make the largest contribution positive
					if (tot <= 0.01*big) { size_t i = gr[(first + q) % gr.size()]; G.q(i/l.lev, q, i%l.lev) = 0; double rest = 0; for (size_t m : gr) rest += G.q(m/l.lev, q, m%l.lev)*A[m]; G.q(i/l.lev, q, i%l.lev) = (0.5*big + fabs(rest) + A[i])/A[i]; } }
				put(g, l, 0, G); run(); Fields O(l); get(g, l, 0, O);
				auto say = [&](const char * what, const std::string & d) { if (told[what]++ == 0) ctx.viol("filter-" + c.name() + (vert ? " columns " : " elements ") + what, d); };
				for (size_t gi = 0; gi < groups.size(); gi++) for (int q = 0; q < l.tr; q++) { auto & gr = groups[gi]; double a = 0, b = 0, abs = 0; bool neg = false; n++;
					for (size_t i : gr) { double x = G.q(i/l.lev, q, i%l.lev), y = O.q(i/l.lev, q, i%l.lev); a += x*A[i]; b += y*A[i]; abs += fabs(x)*A[i]; if (x < 0) neg = true; if (!(y >= 0)) say("negative", vh::fmt("tracer %d at %zu: %g after the filter", q, i, y)); }
					if (!(fabs(a-b) <= 1e-12*abs)) say("total", vh::fmt("tracer %d group %zu: total %.17g before and %.17g after the filter", q, gi, a, b));
					if (!neg) for (size_t i : gr) { double x = G.q(i/l.lev, q, i%l.lev), y = O.q(i/l.lev, q, i%l.lev); if (!(fabs(x-y) <= 1e-13*fabs(x))) say("changed", vh::fmt("tracer %d at %zu: %g became %g with nothing negative around", q, i, x, y)); } }
				for (size_t i = 0; i < F.v.size(); i++) { size_t w = i % l.per(); if (w < (size_t)l.comp*(2*l.lev+1) && !(O.v[i] == G.v[i])) say("state", mini::describe(l, i) + " was changed"); }
			}
		}
		ctx.count("evaluations", n); ctx.count("distinct_nontrivial", n);
	}, VmpiOpts(), mr);
	if (!mr.ok) ctx.viol("filter-" + c.name() + " run", mr.error);
}
void vh_jobs(vh::Registry & r) {
	bool th = r.thorough;
	for (int kind : {mini::CS, mini::CART, mini::CARTXZ}) for (int sw = 0; sw < 2; sw++) for (const char * hm : {"v1", "v2", "spex", "hs"}) for (const char * vm : {"v1", "v2", "schur"}) for (int ho : {2, 3, 4}) for (int vo = 1; vo <= 3; vo++) for (const char * st : {"uniform", "cubic"}) {
		if (sw && (kind == mini::CARTXZ || vm[1] != '1' || vo > 1 || st[0] == 'c')) continue;
		if (hm[1] == '2' && (ho != 4 || kind == mini::CARTXZ)) continue;
		if (hm[0] != 'v' && (vm[1] != '1' || sw)) continue;
		Cfg k; k.kind = kind; k.sw = sw; k.hm = hm; k.vm = sw ? "none" : vm; k.ho = ho; k.vo = vo; k.lev = sw ? 1 : vo == 1 ? 5 : 2*vo; k.stretch = st; k.nx = kind == mini::CS ? 1 : 2; k.ny = kind == mini::CARTXZ ? 1 : 2; k.tracers = 2; k.topo = !(sw && kind != mini::CS); k.scheme = "ark232";
		r.add("filter-" + k.name(), [k](vh::Ctx & x) { clean(x, k); });
	}
	static const char * schemes[] = {"strang", "strang/fe", "strang/rk4", "strang/rk3", "strang/kgu35", "strang/ssprk53", "ars222", "ars232", "ark232", "gark2", "ars343", "ars443", "ssp3_332"};
	auto A = [&](Job j) { r.add(j.name(), [j](vh::Ctx & c) { run(c, j); }); };
	for (int kind : {mini::CS, mini::CART, mini::CARTXZ}) for (int sw = 0; sw < (kind == mini::CARTXZ ? 1 : 2); sw++) for (char mode : {'m', 'c', 'u', 'w'}) {
		if (mode == 'w' && kind == mini::CS) continue;
		auto base = [&]() { Job j; j.mode = mode; Cfg & k = j.c; k.kind = kind; k.sw = sw; k.nx = kind == mini::CS ? 2 : 4; k.ny = kind == mini::CARTXZ ? 1 : 2; k.ho = 4; k.lev = sw ? 1 : 4; k.tracers = 2; k.steps = th ? 10 : 3; k.dt = sw ? 60 : kind == mini::CS ? 120 : 4; if (sw) { k.vm = "none"; k.scheme = "ark232"; }
			if (mode == 'w') k.reflat = 0; else k.reflat = 0.7; if (mode == 'u' || mode == 'w') k.topo = sw && mode == 'u' && kind == mini::CS; if (sw && kind != mini::CS) k.topo = false; return j; };
		double big = kind == mini::CS ? 1e15 : 1e-3;
		for (const char * hm : {"v1", "v2"}) {
			if (hm[1] == '2' && kind == mini::CARTXZ) continue;
			for (const char * sc : schemes) for (int hv = 0; hv < 2; hv++) { Job j = base(); j.c.hm = hm; j.c.scheme = sc; if (hv) j.c.nu = big; A(j); if (mode == 'm') { j.signs = true; A(j); } if (!sw) { j.signs = false; j.c.expl = true; j.c.dt = 1; A(j); } }
			for (int tr = 0; tr < 4; tr++) { Job j = base(); j.c.hm = hm; j.c.tracers = tr; j.c.nu = big; j.c.nuorder = 4; A(j); j.c.nuorder = 2; j.c.nu = kind == mini::CS ? 1e5 : 1e-3; A(j); }
			for (int ho = 2; ho <= 6; ho++) for (int nx : {1, 2, 3}) { if (hm[1] == '2' && ho != 4) continue; Job j = base(); j.c.hm = hm; j.c.ho = ho; j.c.nx = nx; j.c.dt /= ho > 4 ? 10 : 1; A(j); j.c.nu = big; A(j); }
			for (int ref = 0; ref < 2; ref++) for (int ud = 0; ud < 2; ud++) { if (sw && ref) continue; Job j = base(); j.c.hm = hm; j.c.ref = ref; if (ud) j.c.udiff = kind == mini::CS ? 2e6 : 500; if (ud && !sw) { j.c.expl = true; j.c.dt = 1; } A(j); }
			for (int pat : {6, 24, 1, 2}) { if ((kind == mini::CS) != (pat >= 6)) continue; Job j = base(); j.c.hm = hm; j.c.patches = pat; j.c.nu = big; A(j); }
			for (int b = 1; kind != mini::CS && b < 81; b++) {
				Job j = base(); j.c.hm = hm; j.c.bc[0] = b%3; j.c.bc[2] = b/3%3; j.c.bc[1] = b/9%3; j.c.bc[3] = b/27;
				if (!j.c.bc[0] != !j.c.bc[2] || !j.c.bc[1] != !j.c.bc[3] || (kind == mini::CARTXZ && j.c.bc[1]) || mode == 'w') continue;
				if (mode == 'u' && !sw && (j.c.bc[0] == 2 || j.c.bc[1] == 2 || j.c.bc[2] == 2 || j.c.bc[3] == 2)) continue; // W is held at 0 there
				A(j); j.c.nu = big; A(j);
			}
			if (sw) continue;
			for (const char * vm : {"v1", "v2"}) for (int vo = 1; vo <= 4; vo++) for (const char * st : {"uniform", "cubic", "pwlinear"}) for (int x = 0; x < 2; x++) {
				Job j = base(); j.c.hm = hm; j.c.vm = vm; j.c.vo = vo; j.c.lev = vo*3; j.c.stretch = st; j.c.expl = x; if (x) j.c.dt = 1; A(j);
				if (x && vm[1] == '1') { j.c.fluxlev = true; A(j); j.c.fluxlev = false; if (vo > 1) { j.c.stag = "int"; j.c.lev = (vo-1)*4+1; if (j.c.lev/vo >= 2 && hm[1] == '1') A(j); } }
			}
			for (int lev : {4, 7}) { Job j = base(); j.c.hm = hm; j.c.vdisc = "fv"; j.c.vo = 2; j.c.lev = lev; A(j); j.c.expl = true; j.c.dt = 1; A(j); }
			if (kind != mini::CS && mode == 'm') { Job j = base(); j.c.hm = hm; j.up = true; A(j); j.c.expl = true; j.c.dt = 1; A(j); j.c.vm = "v2"; A(j); }
			for (int vh : {2}) { Job j = base(); j.c.hm = hm; j.c.vhyp = vh; j.c.vo = 2; A(j); }
		}
	}
}
