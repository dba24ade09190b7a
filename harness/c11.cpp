// C11: command line options take effect exactly as given, and select what they name.
#include <cstdlib>
#include <stdexcept>
struct ExitCalled { int code; };
[[noreturn]] static void vh_exit_called(int c) { throw ExitCalled{c}; }
#include <set>
#include <map>
#include "vh.h"
#include "Tempest.h"
#include "full.h"
#include "netcdfcpp.h"
#include <typeinfo>
#include <algorithm>
#include <unistd.h>

using mini::Cfg;
enum K { B, I, D, S, TD, TF };
typedef _TempestCommandLineVariables V;
struct Opt { const char * name; K k; bool V::*b; int V::*i; double V::*d; std::string V::*s; Time V::*t; };
#define OB(n, f) {n, B, &V::f, 0, 0, 0, 0}
#define OI(n, f) {n, I, 0, &V::f, 0, 0, 0}
#define OD(n, f) {n, D, 0, 0, &V::f, 0, 0}
#define OS(n, f) {n, S, 0, 0, 0, &V::f, 0}
#define OT(n, f) {n, TD, 0, 0, 0, 0, &V::f}
#define OF(n, f) {n, TF, 0, 0, 0, 0, &V::f}
static const Opt opts[] = {
	OB("output_none", fNoOutput), OS("output_dir", strOutputDir), OS("output_prefix", strOutputPrefix), OS("restart_file", strRestartFile),
	OB("perturb_restart", fRestartPerturbation), OI("output_perfile", nOutputsPerFile), OT("output_restart_dt", timeOutputRestartDeltaT),
	OI("output_x", nOutputResX), OI("output_y", nOutputResY), OI("output_z", nOutputResZ), OB("output_vort", fOutputVorticity),
	OB("output_div", fOutputDivergence), OB("output_temp", fOutputTemperature), OB("output_ps", fOutputSurfacePressure), OB("output_Ri", fOutputRichardson),
	OB("norefstate", fNoReferenceState), OB("notracers", fNoTracers), OB("nohypervis", fNoHyperviscosity), OI("hypervisorder", nHyperviscosityOrder),
	OD("nu", dNuScalar), OD("nud", dNuDiv), OD("nuv", dNuVort), OD("inud", dInstepNuDiv), OB("explicitvertical", fExplicitVertical),
	OS("vstagger", strVerticalStaggering), OS("vdisc", strVerticalDiscretization), OB("vmassfluxlevels", fForceMassFluxOnLevels),
	OS("vstretch", strVerticalStretch), OI("vhypervisorder", nVerticalHyperdiffOrder), OS("timescheme", strTimestepScheme),
	OS("hmethod", strHorizontalDynamics), OS("vmethod", strVerticalDynamics),
	OI("resolution", nResolutionX), OI("resy", nResolutionY), OI("levels", nLevels), OT("outputtime", timeOutputDeltaT), OT("dt", timeDeltaT),
	OF("endtime", timeEndTime), OI("order", nHorizontalOrder), OI("vertorder", nVerticalOrder)};
static const int NO = sizeof(opts) / sizeof(opts[0]);

struct Res { bool exited = false, threw = false; V v; };
static Res parse(const std::vector<std::string> & args) {
	Res r;
	std::vector<char *> a; a.push_back((char *)"prog");
	for (auto & x : args) a.push_back((char *)x.c_str());
	int argc = a.size(); a.push_back(NULL); char ** argv = a.data();
	try {
#define exit vh_exit_called
		BeginTempestCommandLine("Test")
			SetDefaultResolution(20);
			SetDefaultResolutionY(21);
			SetDefaultLevels(10);
			SetDefaultOutputDeltaT("6h");
			SetDefaultDeltaT("200s");
			SetDefaultEndTime("1d");
			SetDefaultHorizontalOrder(4);
			SetDefaultVerticalOrder(1);
			struct Keep { V & a, & b; ~Keep() { a = b; } } keep = {r.v, _tempestvars};
			ParseCommandLine(argc, argv);
		EndTempestCommandLine(argv)
#undef exit
	} catch (ExitCalled &) { r.exited = true; }
	catch (Exception &) { r.threw = true; }
	return r;
}
static std::string val(const V & v, const Opt & o) {
	switch (o.k) {
	case B: return v.*o.b ? "1" : "0";
	case I: return vh::fmt("%d", v.*o.i);
	case D: return vh::fmt("%.17g", v.*o.d);
	case S: return "'" + (v.*o.s) + "'";
	default: { const Time & t = v.*o.t; return vh::fmt("%d:%d/%d/%d/%d/%d", (int)t.GetTimeType(), t.GetYear(), t.GetMonth(), t.GetDay(), t.GetSecond(), t.GetMicroSecond()); }
	}
}
static const V & defaults() { static V v = parse({}).v; return v; }
// the meaning of an argument list
static void oracle(const std::vector<std::string> & a, Res & w) {
	w.v = defaults();
	for (size_t n = 0; n < a.size(); n++) {
		const Opt * o = NULL;
		for (auto & x : opts) if (a[n] == std::string("--") + x.name) o = &x;
		if (!o) continue;                                   // unknown: reported, without effect
		if (o->k == B) { w.v.*o->b = true; continue; }
		if (n + 1 >= a.size() || (a[n + 1].size() > 2 && a[n + 1].substr(0, 2) == "--")) { w.exited = true; return; }
		const std::string & x = a[++n];
		if (o->k == I) w.v.*o->i = (int)strtol(x.c_str(), NULL, 10);
		if (o->k == D) w.v.*o->d = strtod(x.c_str(), NULL);
		if (o->k == S) w.v.*o->s = x;
		if (o->k == TD || o->k == TF) {
			Time t(Time::CalendarNoLeap, o->k == TD ? Time::TypeDelta : Time::TypeFixed);
			try { t.FromFormattedString(x); } catch (Exception &) { w.threw = true; return; }
			t.SetTimeType(o->k == TD ? Time::TypeDelta : Time::TypeFixed);
			w.v.*o->t = t;
		}
	}
}
static bool check(vh::Ctx & c, const std::vector<std::string> & a) {
	Res w, g; oracle(a, w); g = parse(a);
	c.count("evaluations"); c.count("distinct_nontrivial");
	std::string line; for (auto & x : a) line += " " + x;
	if (w.exited != g.exited || w.threw != g.threw) { c.viol("end:" + line, vh::fmt("arguments%s: %s instead of %s", line.c_str(), g.exited ? "error exit" : g.threw ? "exception" : "accepted", w.exited ? "error exit" : w.threw ? "exception" : "accepted")); return false; }
	if (w.exited || w.threw) return true;
	for (auto & o : opts) if (val(w.v, o) != val(g.v, o)) { c.viol(std::string("value:") + o.name + ":" + line, vh::fmt("arguments%s: --%s is %s instead of %s", line.c_str(), o.name, val(g.v, o).c_str(), val(w.v, o).c_str())); return false; }
	return true;
}
static std::vector<std::string> give(const Opt & o, int n) {
	const char * v = "";
	switch (o.k) {
	case I: v = n == 0 ? "7" : n == 1 ? "-3" : "012"; break;
	case D: v = n == 0 ? "1.5e14" : n == 1 ? "-0.25" : "3"; break;
	case S: v = n == 0 ? "some value" : n == 1 ? "-x" : "V2"; break;
	case TD: v = n == 0 ? "1d12h" : n == 1 ? "450s" : "2M3u"; break;
	case TF: v = n == 0 ? "0001-02-03-00450" : n == 1 ? "36h" : "12:30:15"; break;
	default: break;
	}
	std::vector<std::string> r = {std::string("--") + o.name};
	if (o.k != B) r.push_back(v);
	return r;
}

static std::string lower(std::string s) { for (auto & c : s) c = tolower(c); return s; }
static std::string upper(std::string s) { for (auto & c : s) c = toupper(c); return s; }
static std::string mixed(std::string s) { for (size_t i = 0; i < s.size(); i++) s[i] = i % 2 ? tolower(s[i]) : toupper(s[i]); return s; }

struct Choice { const char * name; const std::type_info * t; };

// what an option means for a run: runs whose options say the same end bitwise alike, and each damping option has its own effect
static void damping(vh::Ctx & c, const Cfg & k) {
	mini::Layout l = mini::layout(k); std::map<std::string, std::vector<double>> ends; double big = k.kind == mini::CS ? 1e15 : 1e-3, small = k.kind == mini::CS ? 1e5 : 1e-3;
	auto run = [&](const std::string & key, std::function<void(V &)> tw) -> bool {
		mini::Out o; o.reference = false; o.tweak = tw; mini::FullOut f = mini::full(k, o, 1); c.count("evaluations"); c.count("distinct_nontrivial");
		if (!f.mpi.ok) { c.viol("damping:" + k.name() + " run", key + ": " + f.mpi.error); return false; }
		for (size_t i = 0; i < f.state.size(); i++) if (!f.mask[i % l.per()]) f.state[i] = 0; else if (!std::isfinite(f.state[i])) { c.err(k.name() + " " + key + " is not finite"); return false; }
		ends[key] = f.state; return true; };
	auto differ = [&](const std::string & a, const std::string & b) { return ends[a] != ends[b]; };
	for (int order : {0, 2, 4}) {
		double nu = order == 2 ? small : big; std::string tail = vh::fmt(" order %d", order);
		for (int s = 0; s < 8; s++) for (int no = 0; no < 2; no++) {
			std::string key = vh::fmt("nu %d nud %d nuv %d%s", s & 1, s/2 & 1, s/4, no ? " nohypervis" : "") + tail;
			if (!run(key, [=](V & v) { v.fNoHyperviscosity = no; v.nHyperviscosityOrder = order; v.dNuScalar = s & 1 ? nu : 0; v.dNuDiv = s & 2 ? nu : 0; v.dNuVort = s & 4 ? nu : 0; })) return;
			std::string none = "nu 0 nud 0 nuv 0" + tail;
			if ((no || order == 0) && differ(key, none)) { c.viol("damping:" + k.name() + " " + key, "differs from a run without viscosity"); }
			if (!no && order) for (int o = 0; o < s; o++) { // turning one more on changes something (rotational damping has nothing to act on in a slice)
				std::string other = vh::fmt("nu %d nud %d nuv %d", o & 1, o/2 & 1, o/4) + tail;
				if (k.kind == mini::CARTXZ && (o & 3) == (s & 3)) continue;
				if (!differ(key, other)) c.viol("damping:" + k.name() + " " + key, "does not differ from " + other);
			}
		}
	}
}
// what is written where, from the command line on
static void outputs(vh::Ctx & c, const Cfg & k, int part) {
	vh::quiet();
	for (int bits = 0; bits < 64; bits++) for (int perfile : {-1, 1, 2}) for (int rst : {0, 2, 1, 5}) for (int size = 0; size < 3; size++) for (int every : {2, 0, 1, 5}) {
		if ((rst == 1 || rst == 5 || every != 2) && (size || (bits & 14))) continue;
		if ((bits + perfile + rst/2 + size + every) % 4 != part) continue;
		if (k.kind == mini::CS && (bits & 16)) continue;                     // Richardson numbers are for boxes only
		bool none = bits & 32; std::string dir = vh::scratch(); std::vector<std::string> a = {"--output_dir", dir + "/here", "--output_prefix", rst ? "pre" : "name with space", "--dt", "1s", "--outputtime", vh::fmt("%ds", every), "--endtime", "3s"};
		static const char * SW[] = {"--output_vort", "--output_div", "--output_temp", "--output_ps", "--output_Ri", "--output_none"};
		for (int i = 5; i >= 0; i--) if (bits >> i & 1) a.push_back(SW[i]);
		if (perfile > 0) { a.push_back("--output_perfile"); a.push_back(vh::fmt("%d", perfile)); }
		if (rst) { a.push_back("--output_restart_dt"); a.push_back(vh::fmt("%ds", rst)); }
		int X = size == 0 ? 5 : 7, Y = size == 0 ? 4 : 3, Z = size == 2 ? 6 : 0; a.push_back("--output_x"); a.push_back(vh::fmt("%d", X)); a.push_back("--output_y"); a.push_back(vh::fmt("%d", Y)); if (Z) { a.push_back("--output_z"); a.push_back(vh::fmt("%d", Z)); }
		std::string line; for (auto & s : a) line += " " + s; std::string key = "outputs:" + k.name() + vh::fmt(" %d/%d/%d/%d/%d", bits, perfile, rst, size, every);
		c.count("evaluations"); c.count("distinct_nontrivial");
		Res r = parse(a); if (r.exited || r.threw) { c.viol(key, "not accepted:" + line); continue; }
		mini::Out o; V given = r.v; o.tweak = [&](V & v) { // all options as parsed, but the grid and methods of the configuration
			v.fNoOutput = given.fNoOutput; v.strOutputDir = given.strOutputDir; v.strOutputPrefix = given.strOutputPrefix; v.nOutputsPerFile = given.nOutputsPerFile; v.timeOutputRestartDeltaT = given.timeOutputRestartDeltaT; v.nOutputResX = given.nOutputResX; v.nOutputResY = given.nOutputResY; v.nOutputResZ = given.nOutputResZ;
			v.fOutputVorticity = given.fOutputVorticity; v.fOutputDivergence = given.fOutputDivergence; v.fOutputTemperature = given.fOutputTemperature; v.fOutputSurfacePressure = given.fOutputSurfacePressure; v.fOutputRichardson = given.fOutputRichardson; v.timeOutputDeltaT = given.timeOutputDeltaT; v.timeDeltaT = given.timeDeltaT; v.timeEndTime = given.timeEndTime; };
		mini::FullOut f = mini::full(k, o, 1);
		if (!f.mpi.ok) { c.viol(key, f.mpi.error + ":" + line); continue; }
		std::string pre = std::string(rst ? "pre" : "name with space") + "."; std::set<std::string> want; // outputs at the start, every so many seconds, and at the end
		auto stamp = [&](int s) { Time t; t += mini::seconds(s); return t.ToShortString(); };
		auto at = [](int d) { std::vector<int> t; for (int i = 0; i < 3; i++) if (i == 0 || (d && i % d == 0)) t.push_back(i); t.push_back(3); return t; };
		std::vector<int> times = at(every); if (!none) for (size_t i = 0; i < times.size(); i += perfile > 0 ? perfile : 99) want.insert(pre + stamp(times[i]) + ".nc");
		if (rst) for (int t : at(rst)) want.insert(pre + stamp(t) + ".restart.dat");
		std::set<std::string> got; for (auto & s : mini::files(dir + "/here")) got.insert(s);
		auto list = [](const std::set<std::string> & s) { std::string t; for (auto & x : s) t += " " + x; return t; };
		if (got != want) { c.viol(key, "files:" + list(got) + " instead of" + list(want) + ":" + line); continue; }
		for (auto & s : mini::files(dir)) if (s != "here") c.viol(key, "wrote " + s);
		for (auto & s : got) if (s.find(".nc") != std::string::npos) {
			NcFile nc((dir + "/here/" + s).c_str(), NcFile::ReadOnly); if (!nc.is_valid()) { c.viol(key, s + " cannot be read"); continue; }
			std::set<std::string> has; for (int i = 0; i < nc.num_vars(); i++) has.insert(nc.get_var(i)->name());
			static const char * N[] = {"ZETA", "DELTA", "T", "PS", "Ri"}; for (int i = 0; i < 5; i++) if ((has.count(N[i]) != 0) != (bool)(bits >> i & 1)) c.viol(key, std::string(N[i]) + (has.count(N[i]) ? " is" : " is not") + " in the output:" + line);
			const char * D[] = {"lon", "lat", "lev"}; long S[] = {X, Y, Z ? Z : k.lev}; for (int i = 0; i < 3; i++) { NcDim * d = nc.get_dim(D[i]); if (!d || d->size() != S[i]) c.viol(key, std::string(D[i]) + vh::fmt(" has %ld points:", d ? (long)d->size() : -1) + line); }
		}
	}
}
void vh_jobs(vh::Registry & r) {
	bool T = r.thorough;
	for (int kind : {mini::CS, mini::CART, mini::CARTXZ}) for (const char * hm : {"v1", "v2"}) for (int sw = 0; sw < 2; sw++) {
		if (hm[1] == '2' && kind == mini::CARTXZ) continue;
		if (sw && (kind == mini::CARTXZ || hm[0] != 'v')) continue;
		Cfg k; k.kind = kind; k.hm = hm; k.sw = sw; k.nx = kind == mini::CS ? 1 : 2; k.ny = kind == mini::CARTXZ ? 1 : 2; k.ho = 4; k.lev = sw ? 1 : 3; k.tracers = 1; k.steps = 2; k.dt = sw ? 60 : kind == mini::CS ? 100 : 1; if (sw) { k.vm = "none"; k.topo = false; }
		k.scheme = "ark232";
		r.add("damping-" + k.name(), [k](vh::Ctx & x) { vh::quiet(); damping(x, k); });
	}
	for (int kind : {mini::CS, mini::CART}) for (int p = 0; p < 4; p++) { Cfg k; k.kind = kind; k.nx = kind == mini::CS ? 1 : 2; k.ny = 1; k.ho = 2; k.lev = 4; k.tracers = 1; k.scheme = "ark232"; r.add(vh::fmt("outputs-%d-%d", kind, p), [k, p](vh::Ctx & x) { outputs(x, k, p); }); }
	// every option alone, and every pair in both orders
	r.add("single", [=](vh::Ctx & c) {
		vh::quiet();
		for (auto & o : opts) for (int n = 0; n < 3; n++) {
			std::vector<std::string> a = give(o, n); check(c, a);
			a.push_back("--unknown"); check(c, a); a.insert(a.begin(), "stray"); check(c, a);
			if (o.k != B) { check(c, {a[1]}); check(c, {a[1], "--nohypervis"}); }
			// defaults: nothing else may change
			Res g = parse(give(o, n));
			for (auto & p : opts) if (&p != &o && val(g.v, p) != val(defaults(), p)) c.viol(std::string("other:") + o.name + ":" + p.name, "giving one option changes another");
			if (!g.exited && !g.threw && o.k != B && val(g.v, o) == val(defaults(), o)) c.viol(std::string("noeffect:") + o.name, "no effect");
			if (o.k == B && val(g.v, o) != "1") c.viol(std::string("noeffect:") + o.name, "no effect");
		}
		for (auto & o : opts) if (o.k == B && val(defaults(), o) != "0") c.viol(std::string("default:") + o.name, "a switch is on by default");
	});
	for (int blk = 0; blk < 8; blk++) r.add(vh::fmt("pairs-%d", blk), [=](vh::Ctx & c) {
		vh::quiet();
		for (int x = blk; x < NO; x += 8) for (int y = 0; y < NO; y++) for (int n = 0; n < 3; n++) for (int m = 0; m < 3; m++) {
			if (opts[x].k == B && n) continue; if (opts[y].k == B && m) continue;
			std::vector<std::string> a = give(opts[x], n), b = give(opts[y], m); a.insert(a.end(), b.begin(), b.end());
			if (!check(c, a) && c.nviol > 10) return;
		}
	});
	// every argument list up to a length over an alphabet of tokens
	const std::vector<std::string> al = {"--dt", "100s", "--endtime", "0000-01-02-03600", "--nu", "1.5e14", "--levels", "7", "-3", "--output_dir", "dir x", "--nohypervis", "--bogus", "--vstagger", "INT", "--n", "-", ""};
	for (size_t k = 0; k < al.size(); k++) r.add(vh::fmt("lists-%zu", k), [=](vh::Ctx & c) {
		vh::quiet();
		int L = T ? 4 : 3; std::vector<std::string> a = {al[k]};
		std::function<void()> go = [&]() {
			check(c, a);
			if ((int)a.size() == L || c.nviol > 10) return;
			for (auto & x : al) { a.push_back(x); go(); a.pop_back(); }
		};
		go();
		c.sample("argument lists starting with " + al[k]);
	});
	// the options select what they name
	r.add("methods", [=](vh::Ctx & c) {
		vh::quiet();
		std::vector<Choice> ts = {{"strang", &typeid(TimestepSchemeStrang)}, {"strang/fe", &typeid(TimestepSchemeStrang)}, {"strang/rk4", &typeid(TimestepSchemeStrang)}, {"strang/rk3", &typeid(TimestepSchemeStrang)}, {"strang/kgu35", &typeid(TimestepSchemeStrang)}, {"strang/ssprk53", &typeid(TimestepSchemeStrang)},
			{"erk", &typeid(TimestepSchemeERK)}, {"erk/fe", &typeid(TimestepSchemeERK)}, {"erk/rk4", &typeid(TimestepSchemeERK)}, {"erk/rk3", &typeid(TimestepSchemeERK)}, {"erk/kgu35", &typeid(TimestepSchemeERK)}, {"erk/ssprk53", &typeid(TimestepSchemeERK)},
			{"ars222", &typeid(TimestepSchemeARS222)}, {"ars232", &typeid(TimestepSchemeARS232)}, {"ark232", &typeid(TimestepSchemeARK232)}, {"gark2", &typeid(TimestepSchemeGARK2)}, {"ars343", &typeid(TimestepSchemeARS343)}, {"ars343b", &typeid(TimestepSchemeARS343b)}, {"ars443", &typeid(TimestepSchemeARS443)}, {"ssp3_332", &typeid(TimestepSchemeSSP3332)}, {"spex", &typeid(TimestepSchemeSplitExp)}, {"nonsense", NULL}, {"", NULL}};
		std::vector<Choice> hm = {{"v1", &typeid(HorizontalDynamicsFEM)}, {"v2", &typeid(HorizontalDynamicsFEMV2)}, {"spex", &typeid(SplitExplicitDynamics)}, {"hs", &typeid(HighSpeedDynamics)}, {"v3", NULL}};
		std::vector<Choice> vm = {{"v1", &typeid(VerticalDynamicsFEM)}, {"v2", &typeid(VerticalDynamicsFEMV2)}, {"schur", &typeid(VerticalDynamicsSchur)}, {"none", &typeid(VerticalDynamicsStub)}, {"v3", NULL}};
		for (auto & a : ts) for (auto & h : hm) for (auto & v : vm) for (int lev : {1, 5}) for (int cs = 0; cs < 3; cs++) {
			mini::Cfg f; f.lev = lev;
			auto cased = [&](const char * s) { return cs == 0 ? lower(s) : cs == 1 ? upper(s) : mixed(s); };
			f.scheme = cased(a.name); f.hm = cased(h.name); f.vm = cased(v.name);
			std::string key = f.scheme + " " + f.hm + " " + f.vm + vh::fmt(" %d", lev);
			c.count("evaluations"); c.count("distinct_nontrivial");
			Model m(mini::eqns(f)); _TempestCommandLineVariables vv = mini::vars(f);
			bool ok = true;
			try { _TempestSetupMethodOfLines(m, vv); } catch (Exception &) { ok = false; }
			bool want = a.t && h.t && (v.t || lev == 1);
			if (ok != want) { c.viol("methods:" + key, ok ? "an unknown method is accepted" : "a valid choice is refused"); continue; }
			if (!ok) continue;
			if (typeid(*m.GetTimestepScheme()) != *a.t) c.viol("scheme:" + key, std::string("selects ") + typeid(*m.GetTimestepScheme()).name());
			if (typeid(*m.GetHorizontalDynamics()) != *h.t) c.viol("hmethod:" + key, std::string("selects ") + typeid(*m.GetHorizontalDynamics()).name());
			if (typeid(*m.GetVerticalDynamics()) != (lev == 1 ? typeid(VerticalDynamicsStub) : *v.t)) c.viol("vmethod:" + key, std::string("selects ") + typeid(*m.GetVerticalDynamics()).name());
			if (c.nviol > 10) return;
		}
	});
	for (int kind : {0, 1}) for (int cs = 0; cs < 3; cs++) r.add(vh::fmt("grids-%d-%d", kind, cs), [=](vh::Ctx & c) {
		vh::quiet();
		auto cased = [&](std::string s) { return cs == 0 ? lower(s) : cs == 1 ? upper(s) : mixed(s); };
		struct N { const char * n; int v; };
		const N vd[] = {{"fe", Grid::VerticalDiscretization_FiniteElement}, {"fv", Grid::VerticalDiscretization_FiniteVolume}, {"xx", -1}};
		const N vs[] = {{"lev", Grid::VerticalStaggering_Levels}, {"int", Grid::VerticalStaggering_Interfaces}, {"lor", Grid::VerticalStaggering_Lorenz}, {"cph", Grid::VerticalStaggering_CharneyPhillips}, {"xx", -1}};
		const char * st[] = {"uniform", "cubic", "pwlinear", "xx"};
		for (auto & d : vd) for (auto & s : vs) for (int k = 0; k < 4; k++) for (int nx : {1, 3}) for (int lev : {4, 6}) for (int ho : {3, 4}) for (int vo : {1, 2}) {
			if (d.v == Grid::VerticalDiscretization_FiniteVolume && vo == 1) continue;           // of even order only
			if (s.v == Grid::VerticalStaggering_Interfaces && (vo == 1 || d.v == Grid::VerticalDiscretization_FiniteVolume)) continue;     // needs a finite element in the vertical
			std::string ve = cased(d.n), vg = cased(s.n), vt = cased(st[k]);
			mini::Cfg f; f.kind = kind; f.nx = nx; f.ny = 2; f.lev = lev; f.ho = ho; f.vo = vo; f.vdisc = ve.c_str(); f.stag = vg.c_str(); f.stretch = vt;
			std::string key = vh::fmt("%d %s %s %s %d %d %d %d", kind, ve.c_str(), vg.c_str(), vt.c_str(), nx, lev, ho, vo);
			bool want = d.v >= 0 && s.v >= 0 && k < 3, ok = true;
			c.count("evaluations"); c.count("distinct_nontrivial");
			std::string why;
			VmpiResult res;
			vh::mpi(1, [&](int) {
				Model & m = *new Model(mini::eqns(f)); _TempestCommandLineVariables vv = mini::vars(f);
				Time e; e += mini::seconds(86400 * 3 + 5); vv.timeEndTime = e; vv.timeDeltaT = mini::seconds(77); vv.timeOutputDeltaT = mini::seconds(100);
				double dim[6] = {0.0, f.lx, 0.0, f.ly, 0.0, f.ztop}; int bc[4] = {0,0,0,0};
				try {
					if (kind == 0) _TempestSetupCubedSphereModel(m, vv); else _TempestSetupCartesianModel(m, dim, 0.3, bc, false, vv);
				} catch (Exception & x) { ok = false; why = x.ToString(); return; }
				Grid & g = *m.GetGrid(); GridGLL * gl = dynamic_cast<GridGLL *>(&g);
				if (typeid(g) != (kind == 0 ? typeid(GridCSGLL) : typeid(GridCartesianGLL)) || !gl) { c.viol("gridtype:" + key, "wrong grid"); return; }
				if ((int)g.GetVerticalDiscretization() != d.v || (int)g.GetVerticalStaggering() != s.v || g.GetRElements() != lev || gl->GetHorizontalOrder() != ho || gl->GetVerticalOrder() != vo || g.GetABaseResolution() != nx || g.GetBBaseResolution() != (kind == 0 ? nx : 2))
					c.viol("grid:" + key, "the grid does not have the parameters given");
				if (k) for (double x : {0.0, 0.1, 0.35, 0.6, 0.7, 0.95, 1.0}) {
					double y, dy, wy = x, wd = 1;
					g.EvaluateVerticalStretchF(x, y, dy);
					if (k == 1) { wy = 0.1 * x + 0.8 * x * x + 0.1 * x * x * x; wd = 0.1 + 1.6 * x + 0.3 * x * x; }
					if (k == 2) { wy = x < 2.0 / 3 ? x / 2 : 2 * x - 1; wd = x < 2.0 / 3 ? 0.5 : 2; }
					if (std::fabs(y - wy) > 1e-12 || std::fabs(dy - wd) > 1e-12) { c.viol("stretch:" + key, vh::fmt("stretching at %g is %.15g,%.15g instead of %.15g,%.15g", x, y, dy, wy, wd)); break; }
				}
				if (!(m.GetDeltaT() == mini::seconds(77)) || !(m.GetEndTime() == e)) c.viol("times:" + key, "time step or end time not taken over");
			}, VmpiOpts(), res);
			if (!res.ok && res.error_kind != "") c.viol("grids:" + key, res.error);
			if (ok != want) c.viol((ok ? "accepts:" : "refuses:") + key, ok ? "an unknown choice is accepted" : "a valid choice is refused: " + why);
			if (c.nviol > 10) return;
		}
	});
}
