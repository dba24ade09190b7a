// C27: a run is a function of its input.  Whatever memory held before, whatever ran before in the same process, the final
// state, the files and the text of a run are the same bits.
#include "full.h"
#include <malloc.h>
#include <set>
#include <sys/stat.h>
using mini::Cfg; using mini::Out;

struct Seen { std::string err, text; std::vector<double> state; std::map<std::string, std::string> files; };
struct Fill { int heap, stack; std::string name() const { return vh::fmt("heap %02x stack %02x", heap & 255, stack & 255); } };
struct What { Cfg c; bool out = false, rest = false, from = false, norms = false; int ranks = 1;
	std::string name() const { return c.name() + vh::fmt("%s%s%s%s/%d", out ? "+out" : "", rest ? "+rst" : "", from ? "+from" : "", norms ? "+norm" : "", ranks); } };

static void wipe(const std::string & d) { for (auto & f : mini::files(d)) unlink((d + "/" + f).c_str()); }

// Runs w (after the runs in `before`, on the same ranks) with memory filled as told.
static Seen once(const What & w, const std::string & dir, const std::string & restart, Fill f, const std::vector<What> & before = {}) {
	Seen r; wipe(dir); mini::Layout l = mini::layout(w.c); r.state.assign(l.size(), NAN); std::vector<char> mask; VmpiResult mr; VmpiOpts vo; vo.stack_fill = f.stack;
	mallopt(M_PERTURB, f.heap ^ 255);
	auto out = [&](const What & q, const std::string & d) { Out o; o.dir = d; o.outdt = q.out ? q.c.dt : 0; o.restartdt = q.rest ? q.c.dt : 0; if (q.out) { o.vort = o.div = true; o.temp = o.ps = !q.c.sw; o.reference = q.c.ref; } else o.reference = false; o.norms = q.norms; if (q.from) o.restart = restart; return o; };
	auto one = [&](const What & q, const std::string & d, int rank, bool keep) {
		mini::Sim & s = *new mini::Drive(q.c); Out o = out(q, d); mini::drive(s, q.c, o); s.model.Go(); if (q.norms) s.model.ComputeErrorNorms();
		if (keep) { mini::gather(*s.grid, l, 0, r.state); if (rank == 0) mask = mini::live_mask(*s.grid, l); }
		MPI_Barrier(MPI_COMM_WORLD); delete &s; };
	std::string pre; size_t cut = 0;
	r.text = vh::capture([&]() { vh::mpi(w.ranks, [&](int rank) { AnnounceOnlyOutputOnRankZero(); for (auto & b : before) { Announce("before"); one(b, dir + "/..", rank, false); } Announce("the run"); one(w, dir, rank, true); }, vo, mr); });
	mallopt(M_PERTURB, 0);
	cut = r.text.find("the run"); if (cut != std::string::npos) r.text = r.text.substr(cut);
	std::string kept; std::istringstream in(r.text); for (std::string ln; std::getline(in, ln); ) if (ln.find("Time [") == std::string::npos) kept += ln + "\n";     // wall clock timers
	r.text = kept;
	if (!mr.ok) { r.err = mr.error; return r; }
	for (size_t i = 0; i < r.state.size(); i++) if (!mask[i % l.per()]) r.state[i] = 0;
	for (auto & n : mini::files(dir)) r.files[n] = vh::slurp(dir + "/" + n);
	return r;
}
static bool same(const mini::Layout & l, const Seen & a, const Seen & b, std::string & why) {
	if (a.err != b.err) { why = "ends with '" + b.err + "' instead of '" + a.err + "'"; return false; }
	for (size_t i = 0; i < a.state.size(); i++) if (memcmp(&a.state[i], &b.state[i], 8) && !(std::isnan(a.state[i]) && std::isnan(b.state[i]))) { why = "state: " + mini::describe(l, i) + vh::fmt(": %.17g, otherwise %.17g", b.state[i], a.state[i]); return false; }
	for (auto & f : a.files) if (!b.files.count(f.first)) { why = "no file " + f.first; return false; }
	for (auto & f : b.files) { auto it = a.files.find(f.first); if (it == a.files.end()) { why = "file " + f.first + " appears"; return false; }
		const std::string & x = it->second, & y = f.second; if (x.size() != y.size()) { why = "file " + f.first + vh::fmt(": %zu bytes, otherwise %zu", y.size(), x.size()); return false; }
		for (size_t i = 0; i < x.size(); i++) if (x[i] != y[i]) { why = "file " + f.first + vh::fmt(": byte %zu of %zu is %02x, otherwise %02x", i, x.size(), (unsigned char)y[i], (unsigned char)x[i]); return false; } }
	if (a.text != b.text) { size_t i = 0; while (i < a.text.size() && i < b.text.size() && a.text[i] == b.text[i]) i++; why = "text differs: ..." + b.text.substr(i > 30 ? i - 30 : 0, 80) + "..."; return false; }
	return true;
}
struct Dirs { std::string root, main, rst; Dirs() { root = vh::scratch(); main = root + "/a/run"; rst = root + "/r"; for (auto x : {root + "/a", main, rst}) mkdir(x.c_str(), 0700); } };
static std::string restart_of(const What & w, Dirs & d) { What q = w; q.out = q.norms = q.from = false; q.rest = true; Seen s = once(q, d.rst, "", Fill{0, 0}); std::string last; for (auto & f : s.files) if (f.first.find("restart") != std::string::npos) last = d.rst + "/" + f.first; return last; }

static void fills(vh::Ctx & c, const What & w, bool T) {
	Dirs d; mini::Layout l = mini::layout(w.c); std::string rs = w.from ? restart_of(w, d) : "", why; if (w.from && rs.empty()) { c.viol(w.name() + " restart", "no restart file"); return; }
	Seen a = once(w, d.main, rs, Fill{0, 0}); if (!a.err.empty()) { c.viol(w.name() + " run", a.err); return; }
	size_t live = 0; for (double x : a.state) live += x != 0; if (!live || !mini::finite(a.state)) { c.err(w.name() + ": the run has no finite state to compare"); return; }
	std::vector<Fill> fs = {{0, 0}, {0x01, 0x01}, {0x7f, 0x7f}, {0xff, 0xff}, {0xaa, 0x00}, {0x00, 0xaa}};
	if (T) { fs.clear(); for (int h : {0, 1, 0x3f, 0x40, 0x55, 0x7f, 0x80, 0xaa, 0xfe, 0xff}) for (int s : {0, 1, 0x3f, 0x40, 0x7f, 0x80, 0xff}) fs.push_back({h, s}); }
	for (auto & f : fs) { Seen b = once(w, d.main, rs, f); c.count("evaluations"); c.count("distinct_nontrivial", (long)live); if (!same(l, a, b, why)) c.viol(w.name() + " memory", f.name() + ": " + why); }
}
static void after(vh::Ctx & c, const std::vector<What> & set, size_t me, bool T) {
	Dirs d; const What & w = set[me]; mini::Layout l = mini::layout(w.c); std::string why, rs = w.from ? restart_of(w, d) : ""; Seen a = once(w, d.main, rs, Fill{0, 0}); if (!a.err.empty()) { c.viol(w.name() + " run", a.err); return; }
	auto one = [&](const std::vector<What> & b) { for (auto & q : b) if (w.ranks > 2 && q.c.kind != mini::CS) return;      // those boxes do not divide among three ranks
		 Seen x = once(w, d.main, rs, Fill{0x7f, 0x7f}, b); c.count("evaluations"); c.count("distinct_nontrivial", (long)a.state.size()); if (!same(l, a, x, why)) { std::string n; for (auto & q : b) n += " " + q.name(); c.viol(w.name() + " after", "after" + n + ": " + why); } };
	for (auto & p : set) { What q = p; q.ranks = w.ranks; q.from = false; one({q}); if (T) for (auto & p2 : set) { What q2 = p2; q2.ranks = w.ranks; q2.from = false; one({q, q2}); } }
}

void vh_jobs(vh::Registry & r) {
	bool T = r.thorough; std::vector<What> all, few; std::set<std::string> have;
	auto add = [&](What w) { if (have.insert(w.name()).second) all.push_back(w); };
	auto base = [](int kind, bool sw) { Cfg k; k.kind = kind; k.sw = sw; k.nx = kind == mini::CS ? 1 : 2; k.ny = kind == mini::CARTXZ ? 1 : 2; k.ho = kind == mini::CS ? 3 : 4; k.lev = sw ? 1 : 4; k.vo = sw ? 1 : 2; if (sw) { k.vm = "none"; k.topo = kind == mini::CS; } k.dt = sw ? 30 : 2; k.steps = 2; k.tracers = 2; if (sw) k.tracers = 0; return k; };
	for (int kind : {mini::CS, mini::CART, mini::CARTXZ}) for (int sw = 0; sw < 2; sw++) {
		if (sw && kind == mini::CARTXZ) continue;
		auto each = [&](Cfg k, std::vector<int> ranks = {1}) { for (int n : ranks) { What w; w.c = k; w.ranks = n; add(w); w.out = true; add(w); w.rest = w.norms = true; add(w); w.from = true; add(w); } };
		Cfg k = base(kind, sw); each(k, kind == mini::CS ? std::vector<int>{1, 2, 3} : std::vector<int>{1, 2});
		auto only = [&](Cfg q) { What w; w.c = q; add(w); w.ranks = 2; w.out = w.rest = true; add(w); };
		for (const char * s : {"strang/fe", "strang/rk4", "strang/rk3", "strang/kgu35", "strang/ssprk53", "erk/kgu35", "erk/rk4", "ars222", "ars232", "ark232", "gark2", "ars343", "ars443", "ssp3_332"}) { Cfg q = k; q.scheme = s; only(q); }
		for (int ref = 0; ref < 2; ref++) for (int ray = 0; ray < 2; ray++) for (int nu = 0; nu < 3; nu++) { Cfg q = k; if (sw && (ref || ray)) continue; q.ref = ref; q.rayleigh = ray; if (nu) { q.nuorder = 2*nu; q.nu = kind == mini::CS ? (nu == 1 ? 1e5 : 1e14) : 1e-3; } only(q); }
		if (sw) { Cfg q = k; q.hm = "v2"; q.ho = 4; only(q); continue; }
		if (kind != mini::CARTXZ) { Cfg q = k; q.hm = "v2"; q.ho = 4; only(q); q.vm = "v2"; only(q); }
		{ Cfg q = k; q.vm = "v2"; only(q); }
		for (int vo : {1, 2, 3}) { Cfg q = k; q.vo = vo; q.lev = 2*vo + (vo == 1 ? 1 : 0); only(q); q.fluxlev = true; only(q); q.fluxlev = false; q.expl = true; q.dt = 0.5; only(q); }
		for (int vo : {2, 4}) { Cfg q = k; q.vdisc = "fv"; q.vo = vo; q.lev = 5; only(q); }
		{ Cfg q = k; q.stag = "int"; q.expl = true; q.vo = 2; q.lev = 5; q.dt = 0.5; only(q); }
		{ Cfg q = k; q.udiff = 10; q.tracers = 0; only(q); }
		for (int vh : {2}) { Cfg q = k; q.vhyp = vh; only(q); }
		for (const char * s : {"cubic", "pwlinear"}) { Cfg q = k; q.stretch = s; only(q); }
		if (kind == mini::CART) { Cfg q = k; for (int & b : q.bc) b = 1; only(q); for (int & b : q.bc) b = 2; only(q); q = k; q.reflat = 0.7; only(q); }
		if (T) for (int ho : {2, 4, 5}) { Cfg q = k; q.ho = ho; q.tracers = 1; only(q); }
	}
	for (auto & w : all) r.add("fill-" + w.name(), [=](vh::Ctx & c) { fills(c, w, T); }, 300);
	for (auto & w : all) if (w.out && (w.c.scheme == "strang" || w.c.scheme == "ars232")) { static int n = 0; if (n++ % (T ? 2 : 8) == 0) few.push_back(w); }
	for (size_t i = 0; i < few.size(); i++) r.add("after-" + few[i].name(), [=](vh::Ctx & c) { after(c, few, i, false); }, 600);
}
