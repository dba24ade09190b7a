// C20: the Held-Suarez forcing against its definition, at every node of every level.
#include "disc.h"
#include "HeldSuarezPhysics.h"
using namespace disc;
static const double DAY = 86400;
static void forcing(vh::Ctx & ctx, Cfg c, int ranks, double dt, int variant) {
	VmpiResult mr; Layout l = mini::layout(c); std::string nm = c.name() + vh::fmt("/%d dt %g state %d", ranks, dt, variant); topo::Topo t(c);
	Fields F(l), got(l), W(l), F0(l); const bool cph = std::string(c.stag) == "cph";
	vh::mpi(ranks, [&](int rank) {
		AnnounceOnlyOutputOnRankZero(); mini::Sim & s = *new mini::Sim(c, false); Model & m = s.model; still(s); s.make_grid(); s.make_test(); Grid & g = *s.grid; const PhysicalConstants & ph = m.GetPhysicalConstants();
		HeldSuarezPhysics & hs = *new HeldSuarezPhysics(m, mini::seconds(dt)); hs.Initialize(m.GetStartTime());
		double R = ph.GetR(), cp = ph.GetCp(), ka = R/cp, ga = cp/(cp-R), p0 = ph.GetP0();
		if (rank == 0) { fill(t, c, F, variant, ph.GetEarthRadius(), true, true);
			for (size_t col = 0; col < l.cols(); col++) { uint64_t who = t.cls[col]; for (int k = 0; k < c.lev; k++) { double z = (k+0.5)/c.lev, p = variant % 3 == 0 ? 1.02e5*exp(-2.5*z)*(1+0.02*noise(who*50+k, 3)) : variant % 3 == 1 ? 1e5*(1 - 0.4*z*z)*(1+0.01*noise(who*50+k, 4)) : 3e3 + 1e5*(1-z)*(1-z) + 500*noise(who*50+k, 5), T = 160 + 190*noise(who*50+k, 6+variant); F.n(col,2,k) = p0/R*pow(p/p0, 1/ga); F.n(col,4,k) = p/(R*T); }
				// the same on interfaces, for staggerings that keep potential temperature there
				if (cph) for (int k = 0; k <= c.lev; k++) F.e(col,2,k) = k == 0 ? 1.05*F.n(col,2,0) : k == c.lev ? 0.95*F.n(col,2,c.lev-1) : 0.5*(F.n(col,2,k-1) + F.n(col,2,k))*(1 + 0.01*noise(who*50+k, 8)); } }
		MPI_Barrier(MPI_COMM_WORLD); put(g, l, 1, F); put(g, l, 0, F); if (rank == 0) F0 = F; MPI_Barrier(MPI_COMM_WORLD);
		bool ints = std::string(c.stag) == "int"; long n = 0; std::vector<char> live = mini::live_mask(g, l);
		for (int step = 0; step < 3; step++) {
			if (rank == 0) { W = F; for (size_t col = 0; col < l.cols(); col++) {
				double sl = t.pos[col][2], c2 = std::max(0.0, 1-sl*sl); double rts = cph ? F.e(col,2,0) : ints ? F.n(col,2,0) : dynamic_cast<GridGLL &>(g).GetOpInterpNodeToREdge().Apply(&F.n(col,2,0), 0);
				double ps = p0*pow(R*rts/p0, ga);
				std::vector<double> rtn(c.lev), rhe(c.lev+1); GridGLL & gg = dynamic_cast<GridGLL &>(g);
				if (cph) { gg.GetOpInterpREdgeToNode().Apply(&F.e(col,2,0), &rtn[0]); gg.GetOpInterpNodeToREdge().Apply(&F.n(col,4,0), &rhe[0]); } else for (int k = 0; k < c.lev; k++) rtn[k] = F.n(col,2,k);
				auto scale = [&](double rt) { return std::max(0.0, (p0*pow(R*rt/p0, ga)/ps - 0.7)/0.3); };
				auto heat = [&](double rt, double rho) { double p = p0*pow(R*rt/p0, ga), bs = scale(rt), T = p/(R*rho), kt = 1/(40*DAY) + (1/(4*DAY) - 1/(40*DAY))*bs*c2*c2, te = std::max(200.0, (315 - 60*sl*sl - 10*log(p/p0)*c2)*pow(p/p0, ka)), x = te/T; return rt*(1 - dt*kt/ga*(1-x)/(1 + dt*kt/ga*(1 + (ga-1)*x))); };
				for (int k = 0; k < c.lev; k++) { for (int q = 0; q < 2; q++) W.n(col,q,k) = F.n(col,q,k)/(1 + scale(rtn[k])*dt/DAY); if (!cph) W.n(col,2,k) = heat(rtn[k], F.n(col,4,k)); }
				if (cph) for (int k = 0; k <= c.lev; k++) W.e(col,2,k) = heat(F.e(col,2,k), rhe[k]); } }
			MPI_Barrier(MPI_COMM_WORLD); Time now = m.GetStartTime(); now += mini::seconds(dt*(step+1)); if (!hs.IsReady(now)) ctx.viol(nm + " due", vh::fmt("not ready at step %d", step)); hs.Perform(now); if (hs.IsReady(now)) ctx.viol(nm + " due", vh::fmt("ready twice at step %d", step)); get(g, l, 0, got); MPI_Barrier(MPI_COMM_WORLD);
			if (rank == 0) { for (size_t i = 0; i < W.v.size(); i++) { size_t w = i % l.per(); if (!live[w]) continue; n++; bool moved = w < (size_t)3*c.lev || (cph && w >= (size_t)l.comp*c.lev + 2*(c.lev+1) && w < (size_t)l.comp*c.lev + 3*(c.lev+1)); double tol = moved ? 1e-11*(w < (size_t)2*c.lev ? std::max(fabs(W.v[i]), 1.0) : fabs(W.v[i])) : 0; if (!(fabs(got.v[i] - W.v[i]) <= tol)) ctx.viol(nm + vh::fmt(" value %zu", w < (size_t)l.comp*l.lev ? w/l.lev : w), vh::fmt("after %d: ", step+1) + mini::describe(l, i) + vh::fmt(": %.17g instead of %.17g (latitude %g)", got.v[i], W.v[i], asin(t.pos[i/l.per()][2]))); } F = got; }
			MPI_Barrier(MPI_COMM_WORLD);
		}
		Fields X(F0); get(g, l, 1, X); if (memcmp(&X.v[0], &F0.v[0], X.v.size()*8)) ctx.viol(nm + " other instance", "the forcing changed another data instance");
		ctx.count("evaluations", n); ctx.count("distinct_nontrivial", n);
	}, VmpiOpts(), mr);
	if (!mr.ok) ctx.viol(nm + " run", mr.error);
}
void vh_jobs(vh::Registry & r) {
	bool T = r.thorough;
	for (int nx = 1; nx <= (T ? 4 : 2); nx++) for (int ho = 2; ho <= (T ? 6 : 4); ho++) for (int vo = 1; vo <= 4; vo++) for (const char * sg : {"lor", "int", "fv", "cph", "lev"}) for (double dt : {1.0, 600.0, 86400.0, 1728000.0}) for (int var = 0; var < (T ? 6 : 3); var++) {
		Cfg k; k.kind = mini::CS; k.nx = nx; k.ho = ho; k.vo = vo; k.tracers = ho == 3 ? 2 : 0; k.lev = vo*(vo == 1 ? 7 : 3); k.topo = var; if (var == 1) k.stretch = "cubic"; if (ho == 4) k.ref = true; k.scheme = "ark232";
		if (std::string(sg) == "int") { if (vo < 2) continue; k.stag = "int"; k.expl = true; k.lev = (vo-1)*3 + 1; } if (std::string(sg) == "cph" || std::string(sg) == "lev") k.stag = sg; if (std::string(sg) == "fv") { if (vo % 2) continue; k.vdisc = "fv"; k.lev = 9; }
		int ranks = var == 2 ? 7 : var == 1 ? 3 : 1; if (ranks == 7 && nx % 2) ranks = 6;
		r.add("forcing-" + k.name() + vh::fmt("-%d-dt%g-s%d", ranks, dt, var), [=](vh::Ctx & c) { Cfg kk = k; if (ranks == 7) kk.patches = 24; forcing(c, kk, ranks, dt, var); }); }
}
