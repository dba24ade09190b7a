// C28: runs in the memory checking build (address and undefined behaviour sanitizers, bounds checks of the arrays), over the
// extremes of every option: a fault anywhere ends the run and is the verdict (see vh.cpp, --memory).
#include "full.h"
#include <set>
using mini::Cfg; using mini::Out;
struct What { Cfg c; int ranks = 1; bool out = false, from = false, phys = false; std::string name() const { return c.name() + vh::fmt("%s%s%s/%d", out ? "+out" : "", from ? "+from" : "", phys ? "+hs" : "", ranks); } };
static void go(vh::Ctx & ctx, const What & w) {
	std::string dir = w.out || w.from ? vh::scratch() : "", rs; VmpiOpts vo; vo.stack_fill = 0x7f;
	for (int leg = 0; leg < (w.from ? 2 : 1); leg++) {
		VmpiResult mr; vo.data = leg ? VMPI_RENDEZVOUS : VMPI_BUFFERED; vo.order = leg ? VMPI_LAST : VMPI_FIRST;
		Out o; o.dir = dir; if (w.out) { o.outdt = w.c.dt; o.vort = o.div = true; o.temp = o.ps = !w.c.sw; o.reference = w.c.ref; o.norms = true; o.perfile = leg + 1; } else o.reference = false;
		if (w.from && !leg) o.restartdt = w.c.dt; if (leg) o.restart = rs;
		vh::capture([&]() { vh::mpi(w.ranks, [&](int) { AnnounceOnlyOutputOnRankZero(); mini::Sim & s = *new mini::Drive(w.c); mini::drive(s, w.c, o); s.model.Go(); if (o.norms) s.model.ComputeErrorNorms(); MPI_Barrier(MPI_COMM_WORLD); delete &s; }, vo, mr); });
		ctx.count("evaluations"); ctx.count(mr.ok ? "distinct_nontrivial" : "refused"); ctx.outcome("end", vh::hash(mr.error_kind));
		if (!mr.ok) { ctx.sample(w.name() + ": " + mr.error); return; }
		for (auto & f : mini::files(dir)) if (f.find("restart") != std::string::npos) rs = dir + "/" + f;
		if (w.from && rs.empty()) return;
	}
}
void vh_jobs(vh::Registry & r) {
	bool T = r.thorough; std::vector<What> all; std::set<std::string> have;
	auto add = [&](const Cfg & c, int ranks, bool out = false, bool from = false) { What w; w.c = c; w.ranks = ranks; w.out = out; w.from = from; if (have.insert(w.name()).second) all.push_back(w); };
	auto base = [](int kind, bool sw) { Cfg k; k.kind = kind; k.sw = sw; k.nx = kind == mini::CS ? 1 : 2; k.ny = kind == mini::CARTXZ ? 1 : 2; k.ho = kind == mini::CS ? 3 : 4; k.lev = sw ? 1 : 4; k.vo = sw ? 1 : 2; if (sw) { k.vm = "none"; k.topo = kind == mini::CS; } k.dt = sw ? 10 : 1; k.steps = 1; k.tracers = sw ? 0 : 1; return k; };
	for (int kind : {mini::CS, mini::CART, mini::CARTXZ}) for (int sw = 0; sw < 2; sw++) {
		if (sw && kind == mini::CARTXZ) continue;
		for (int ho = 2; ho <= (T ? 8 : 6); ho++) for (int nx = 1; nx <= (T ? 4 : 3); nx++) for (int ranks = 1; ranks <= (T ? 8 : 4); ranks++) for (int o = 0; o < 2; o++) {
			if (kind != mini::CS && nx % ranks) continue; if (kind == mini::CS && nx == 3 && ho > 4 && !T) continue;
			Cfg c = base(kind, sw); c.ho = ho; c.nx = nx; c.ny = kind == mini::CARTXZ ? 1 : (nx == 1 ? 2 : 1); c.nuorder = 4; c.nu = kind == mini::CS ? 1e13 : 1e-3; add(c, ranks, o, o); c.nu = 0; c.vo = sw ? 1 : 1; if (!o) add(c, ranks); if (ho == 4) { c.hm = "v2"; if (kind != mini::CARTXZ) add(c, ranks, o); }
		}
		for (int pat : {6, 24, 54, 1, 2, 3}) for (int ranks : {1, 2, 5}) { if ((kind == mini::CS) != (pat >= 6)) continue; Cfg c = base(kind, sw); c.nx = pat == 54 ? 3 : pat == 24 ? 2 : pat == 6 ? 1 : 6; if (kind != mini::CS && (ranks > 2 || 6 % ranks)) continue; c.patches = pat; add(c, ranks, ranks == 1, ranks == 2); }
		for (const char * s : {"strang", "strang/fe", "strang/rk4", "strang/rk3", "strang/kgu35", "strang/ssprk53", "erk", "erk/fe", "erk/rk4", "erk/rk3", "erk/kgu35", "erk/ssprk53", "ars222", "ars232", "ark232", "gark2", "ars343", "ars443", "ssp3_332", "spex", "ars343b"}) for (int tr = 0; tr < (sw ? 1 : 4); tr++) { Cfg c = base(kind, sw); c.scheme = s; c.tracers = tr; c.steps = 2; if (sw && c.scheme == "spex") c.dt = 0.005; add(c, 1); add(c, kind == mini::CS ? 4 : 2, tr == 1, tr == 1); }
		for (int b = 0; kind != mini::CS && b < 81; b++) { Cfg c = base(kind, sw); c.bc[0] = b%3; c.bc[2] = b/3%3; c.bc[1] = b/9%3; c.bc[3] = b/27; add(c, 1); add(c, 2); }
		if (sw) continue;
		for (const char * vm : {"v1", "v2"}) for (int vo = 1; vo <= 5; vo++) for (int m = 2; m <= (T ? 5 : 3); m++) for (int x = 0; x < 4; x++) { Cfg c = base(kind, sw); c.vm = vm; c.vo = vo; c.lev = m*vo; if (c.lev < 3) c.lev = 3; c.expl = x & 1; c.fluxlev = x & 2; if (c.expl) c.dt = 0.2; for (const char * st : {"uniform", "cubic", "pwlinear"}) { c.stretch = st; add(c, 1, x == 0 && m == 3, x == 0 && m == 3); } c.rayleigh = c.ref = true; add(c, 2, x == 0); if (vm[1] == '1' && c.expl) { c.udiff = 10; add(c, 1); } c.udiff = 10; c.tracers = 0; add(c, 1); c.udiff = 0; c.vhyp = 2; add(c, 1); }
		for (int vo : {2, 4, 6}) for (int lev = vo; lev <= vo + (T ? 7 : 4); lev++) for (int x = 0; x < 2; x++) for (const char * vm : {"v1", "v2"}) { Cfg c = base(kind, sw); c.vm = vm; c.vdisc = "fv"; c.vo = vo; c.lev = lev; c.expl = x; if (x) c.dt = 0.2; add(c, 1, lev == vo+1); c.stretch = "cubic"; c.vhyp = 2; add(c, 1); }
		for (int vo = 2; vo <= 5; vo++) for (int m = 2; m <= 5; m++) { Cfg c = base(kind, sw); c.stag = "int"; c.expl = true; c.dt = 0.2; c.vo = vo; c.lev = (vo-1)*m + 1; add(c, 1, m == 3, m == 3); c.ref = c.rayleigh = true; add(c, 2); }
		// every order and number of levels, whether they fit or not; sizes and layouts likewise
		for (int vo = 1; vo <= (T ? 7 : 5); vo++) for (int lev = 1; lev <= (T ? 8 : 6); lev++) for (const char * vd : {"fe", "fv"}) for (const char * sg : {"lor", "int", "lev", "cph"}) for (int x = 0; x < 4; x++) for (const char * vm : {"v1", "v2", "none"}) {
			if (!T && ((x != 1 && x != 2) || *vm == 'n')) continue;
			Cfg c = base(kind, sw); c.steps = 1; c.stag = sg; c.vdisc = vd; c.vm = vm; c.vo = vo; c.lev = lev; c.expl = x & 1; if (x & 1) c.dt = 0.2; if (x & 2) { c.rayleigh = c.ref = true; c.udiff = 1; c.vhyp = 2; c.tracers = 0; } add(c, 1, x & 2, 0);
		}
		for (int ho = 1; ho <= 3; ho++) for (int nx = 1; nx <= 3; nx++) for (int ny = 1; ny <= 2; ny++) for (int ranks : {1, 2, 5}) for (int pat : {-1, 1, 2, 3, 4, 6, 7, 12, 24, 54}) { if (!T && (ranks == 2 || ny == 2)) continue; Cfg c = base(kind, sw); c.steps = 1; c.ho = ho; c.nx = nx; c.ny = ny; c.patches = pat; add(c, ranks); }
		// every staggering with every dynamics, taken or refused
		for (const char * sg : {"int", "lev", "cph"}) for (const char * hm : {"v1", "v2"}) for (const char * vm : {"v1", "v2", "none"}) for (int vo = 2; vo <= 3; vo++) for (int x = 0; x < 4; x++) { Cfg c = base(kind, sw); c.stag = sg; c.hm = hm; c.vm = vm; c.vo = vo; c.lev = *sg == 'i' ? (vo-1)*4 + 1 : 3*vo; c.expl = x & 1; c.fluxlev = x & 2; if (x & 1) c.dt = 0.2; add(c, 1, x == 0, x == 0); }
		for (int ref = 0; ref < 2; ref++) for (int ray = 0; ray < 2; ray++) for (int nu = 0; nu < 3; nu++) for (int ud = 0; ud < 2; ud++) { Cfg c = base(kind, sw); c.ref = ref; c.rayleigh = ray; if (nu) { c.nuorder = 2*nu; c.nu = kind == mini::CS ? (nu == 1 ? 1e5 : 1e14) : 1e-3; } if (ud) { c.udiff = 10; c.tracers = 0; } for (int ranks : {1, 2}) add(c, ranks, ranks == 2, ranks == 2 && ref); }
	}
	// several runs to a process: starting one costs more than running it
	size_t G = 12; for (size_t i = 0; i < all.size(); i += G) { std::vector<What> g(all.begin() + i, all.begin() + std::min(all.size(), i + G)); r.add("runs-" + g[0].name(), [=](vh::Ctx & c) { for (auto & w : g) go(c, w); }, 300); }
}
