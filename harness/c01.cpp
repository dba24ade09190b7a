// Halo exchange: every halo node mirrors the coincident node across the side.
#include "topo.h"
using namespace mini;

static double val(long node, int what, int inst) {
	uint64_t h = (uint64_t)node * 0x9E3779B97F4A7C15ull + (uint64_t)(what + 1) * 0xC2B2AE3D27D4EB4Full + (uint64_t)inst * 0x165667B19E3779F9ull;
	h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
	return 1.0 + (double)(h >> 12) / 4503599627370496.0;
}
static const double POISON = -7.25e33;

struct Field { int base; int n, lev; DataLocation loc; int type; };   // type: 0 state, 1 tracers, 2.. auxiliary

static void fill(GridPatch & p, const topo::Topo & t, const Layout & l, const Grid & g, int inst) {
	const PatchBox & b = p.GetPatchBox();
	auto put = [&](DataArray4D<double> & a, int n, int lev, int base) {
		for (int c = 0; c < n; c++) for (int i = 0; i < b.GetATotalWidth(); i++) for (int j = 0; j < b.GetBTotalWidth(); j++) for (int k = 0; k < lev; k++) {
			bool in = i >= b.GetAInteriorBegin() && i < b.GetAInteriorEnd() && j >= b.GetBInteriorBegin() && j < b.GetBInteriorEnd();
			a(c,i,j,k) = in ? val(t.id(b.GetPanel(), i + b.GetAGlobalBegin(), j + b.GetBGlobalBegin()), base + c*100 + k, inst) : POISON;
		}
	};
	put(p.GetDataState(inst, DataLocation_Node), l.comp, l.lev, 0);
	put(p.GetDataState(inst, DataLocation_REdge), l.comp, l.lev + 1, 1000);
	if (l.tr) put(p.GetDataTracers(inst), l.tr, l.lev, 2000);
}
static void fill3(GridPatch & p, const topo::Topo & t, DataArray3D<double> & a, int lev, int base) {
	const PatchBox & b = p.GetPatchBox();
	for (int i = 0; i < b.GetATotalWidth(); i++) for (int j = 0; j < b.GetBTotalWidth(); j++) for (int k = 0; k < lev; k++) {
		bool in = i >= b.GetAInteriorBegin() && i < b.GetAInteriorEnd() && j >= b.GetBInteriorBegin() && j < b.GetBInteriorEnd();
		a(i,j,k) = in ? val(t.id(b.GetPanel(), i + b.GetAGlobalBegin(), j + b.GetBGlobalBegin()), base + k, 0) : POISON;
	}
}

// get(i,j,k): value now; returns description of the first wrong value
template <class G> static std::string check(GridPatch & p, const topo::Topo & t, int lev, int base, int inst, bool exchanged, bool vec, long & checked, G get) {
	const PatchBox & b = p.GetPatchBox();
	int a0 = b.GetAInteriorBegin(), a1 = b.GetAInteriorEnd(), b0 = b.GetBInteriorBegin(), b1 = b.GetBInteriorEnd();
	for (int i = 0; i < b.GetATotalWidth(); i++) for (int j = 0; j < b.GetBTotalWidth(); j++) for (int k = 0; k < lev; k++) {
		int da = i < a0 ? -1 : i >= a1 ? 1 : 0, db = j < b0 ? -1 : j >= b1 ? 1 : 0;
		int ni = da < 0 ? a0 : da > 0 ? a1 - 1 : i, nj = db < 0 ? b0 : db > 0 ? b1 - 1 : j;
		int n = t.id(b.GetPanel(), ni + b.GetAGlobalBegin(), nj + b.GetBGlobalBegin());
		double got = get(i, j, k), want;
		if (!da && !db) want = val(n, base + k, inst);
		else if (!exchanged) want = POISON;
		else {
			int m = t.across(n, da, db);
			if (m < 0) { if (t.sphere_grid()) continue; continue; }
			if (vec && t.panel(m) != t.panel(n)) continue;   // components are those of the other panel here
			want = val(m, base + k, inst);
		}
		checked++;
		if (got != want)
			return vh::fmt("patch %d (panel %d) %s node (%d,%d) level %d holds %.17g instead of %.17g", p.GetPatchIndex(), b.GetPanel(), da || db ? "halo" : "interior", i, j, k, got, want);
	}
	return "";
}

static void body(vh::Ctx & x, const Cfg & c, int ranks, const VmpiOpts & o, int type, bool deact = false) {
	vh::quiet();
	static std::map<std::string, std::shared_ptr<topo::Topo>> cache;
	auto & tp = cache[c.name()];
	if (!tp) tp = std::make_shared<topo::Topo>(c);
	const topo::Topo & t = *tp;
	Layout l = layout(c);
	long checked = 0, patches = 0; std::string bad;
	VmpiResult res;
	vh::mpi(ranks, [&](int rank) {
		AnnounceOnlyOutputOnRankZero();
		Sim & s = *new Sim(c); s.make_grid();   // kept, as a driver keeps it until MPI_Finalize
		Grid & g = *s.grid;
		int ni = s.model.GetComponentDataInstances();
		int nt = s.model.GetTracerDataInstances();
		if (ni > nt) ni = nt;
		if (ni > 3) ni = 3;
		int target = type >= 2 ? 0 : ni - 1;
		for (int round = 0; round < 2; round++) {
			for (int n = 0; n < g.GetActivePatchCount(); n++) {
				GridPatch & p = *g.GetActivePatch(n);
				for (int m = 0; m < ni; m++) fill(p, t, l, g, m);
				fill3(p, t, p.GetDataVorticity(), l.lev, 3000);
				fill3(p, t, p.GetDataDivergence(), l.lev, 3200);
				fill3(p, t, p.GetTopographyDeriv(), 2, 3400);
			}
			static const DataType ty[] = {DataType_State, DataType_Tracers, DataType_Vorticity, DataType_Divergence, DataType_TopographyDeriv};
			g.Exchange(ty[type], target);
			patches += g.GetActivePatchCount();
			for (int n = 0; n < g.GetActivePatchCount() && bad.empty(); n++) {
				GridPatch & p = *g.GetActivePatch(n);
				for (int m = 0; m < ni && bad.empty(); m++) {
					for (int q = 0; q < l.comp && bad.empty(); q++) {
						bool node = g.GetVarLocation(q) == DataLocation_Node;
						// data that does not live at this location is scratch: only the live copy counts
						bool ex = type == 0 && m == target;
						if (node || !ex) bad = check(p, t, l.lev, q*100, m, ex && node, q < 2, checked, [&](int i, int j, int k) { return p.GetDataState(m, DataLocation_Node)(q,i,j,k); });
						if (bad.empty() && (!node || !ex)) bad = check(p, t, l.lev+1, 1000+q*100, m, ex && !node, q < 2, checked, [&](int i, int j, int k) { return p.GetDataState(m, DataLocation_REdge)(q,i,j,k); });
						if (!bad.empty()) bad = vh::fmt("component %d instance %d: ", q, m) + bad;
					}
					for (int q = 0; q < l.tr && bad.empty(); q++) {
						bad = check(p, t, l.lev, 2000+q*100, m, type == 1 && m == target, false, checked, [&](int i, int j, int k) { return p.GetDataTracers(m)(q,i,j,k); });
						if (!bad.empty()) bad = vh::fmt("tracer %d instance %d: ", q, m) + bad;
					}
				}
				if (bad.empty()) bad = check(p, t, l.lev, 3000, 0, type == 2, false, checked, [&](int i, int j, int k) { return p.GetDataVorticity()(i,j,k); });
				if (bad.empty()) bad = check(p, t, l.lev, 3200, 0, type == 3, false, checked, [&](int i, int j, int k) { return p.GetDataDivergence()(i,j,k); });
				if (bad.empty()) bad = check(p, t, 2, 3400, 0, type == 4, true, checked, [&](int i, int j, int k) { return p.GetTopographyDeriv()(i,j,k); });
			}
		}
	}, o, res);
	x.choices(res.arity, res.taken);
	if (!res.ok) { x.viol(x.id + "|" + res.error_kind, res.error); return; }
	if (!bad.empty()) { x.viol(x.id + "|value", bad); return; }
	x.count("evaluations");
	x.count("values_compared", checked);
	x.count("messages", res.messages);
	if (res.messages) x.count("distinct_nontrivial");
	x.sample(vh::fmt("%s: %ld patches, %ld messages, %ld values compared", x.id.c_str(), patches, res.messages, checked));
}

void vh_jobs(vh::Registry & r) {
	static const char * tn[] = {"state", "tracers", "vort", "div", "topo"};
	auto add = [&](const Cfg & c, int ranks, int type, VmpiDataMode d, VmpiOrder ord, VmpiRankOrder ro) {
		std::string id = vh::fmt("%s|r%d|%s|%s%s%s", c.name().c_str(), ranks, tn[type], d == VMPI_BUFFERED ? "buf" : "rdv", ord == VMPI_FIRST ? "F" : ord == VMPI_LAST ? "L" : "B", ro == VMPI_ASC ? "a" : "d");
		r.add(id, [=](vh::Ctx & x) { VmpiOpts o; o.data = d; o.order = ord; o.rank_order = ro; body(x, c, ranks, o, type); });
	};
	bool th = r.thorough;
	// layouts of the sphere
	std::vector<int> nxs = th ? std::vector<int>{1,2,3,4,5,6,7,8} : std::vector<int>{1,2,3,4,6};
	std::vector<int> pat = th ? std::vector<int>{-1,6,7,24,25,54,96} : std::vector<int>{-1,6,24,54};
	std::vector<int> ranks = th ? std::vector<int>{1,2,3,4,5,6,7,8,11,12,13,24,25,54} : std::vector<int>{1,2,3,5,6,7,13,24};
	for (int nx : nxs) for (int p : pat) for (int n : ranks) {
		int lay = p < 0 ? std::max(n, 6) : p;
		int k = 1; while (6*(k+1)*(k+1) <= lay) k++;
		if (nx % k) continue;
		Cfg c; c.nx = nx; c.patches = p; c.lev = 4; c.ho = (nx > 4 ? 2 : 3);
		for (int type = 0; type < 5; type++) {
			VmpiDataMode d = (nx + n + type) % 2 ? VMPI_RENDEZVOUS : VMPI_BUFFERED;
			VmpiOrder ord = (n + type) % 3 == 0 ? VMPI_FIRST : (n + type) % 3 == 1 ? VMPI_LAST : VMPI_BURST;
			if (th) for (int dm = 0; dm < 2; dm++) for (int q = 0; q < 3; q++) add(c, n, type, (VmpiDataMode)dm, q == 0 ? VMPI_FIRST : q == 1 ? VMPI_LAST : VMPI_BURST, q & 1 ? VMPI_DESC : VMPI_ASC);
			else add(c, n, type, d, ord, n % 2 ? VMPI_DESC : VMPI_ASC);
		}
	}
	// orders, staggerings, variable counts
	const char * st[] = {"lor", "cph", "int", "lev"};
	for (int kind = 0; kind < 3; kind++) for (int ho = 2; ho <= (th ? 6 : 5); ho++) for (int si = 0; si < 4; si++) for (int q : {0, 1, 5, 7}) {
		Cfg c; c.kind = kind; c.ho = ho; c.stag = st[si]; c.tracers = q; c.nx = 2; c.ny = kind == CARTXZ ? 1 : 2; c.lev = si == 2 ? 4 : 4;
		if (si == 2) { c.lev = 5; c.vo = 2; }
		if (kind == CS && q == 1 && !th && ho != 4) continue;
		for (int n : {1, 2}) for (int type = 0; type < 2; type++) { if (q == 0 && type == 1) continue; add(c, n, type, n == 2 ? VMPI_RENDEZVOUS : VMPI_BUFFERED, VMPI_LAST, VMPI_ASC); }
	}
	// shallow water
	for (int nx : {1, 2, 3}) for (int n : {1, 4, 6}) for (int type = 0; type < 4; type++) { Cfg c; c.sw = true; c.lev = 1; c.nx = nx; c.tracers = 4; add(c, n, type, VMPI_RENDEZVOUS, VMPI_LAST, VMPI_DESC); }
	// boxes: strips over ranks, periodic and walled sides
	for (int kind = 1; kind < 3; kind++) for (int nx : {1, 2, 3, 4, 6}) for (int ny : {1, 2, 3}) for (int n : {1, 2, 3, 4, 6}) {
		if (nx % n || (kind == CARTXZ && ny > 1)) continue;
		for (int w = 0; w < 4; w++) for (int type = 0; type < 5; type++) {
			Cfg c; c.kind = kind; c.nx = nx; c.ny = ny; c.ho = 3; c.bc[0] = c.bc[2] = w & 1; c.bc[1] = c.bc[3] = w >> 1;
			if (!th && (nx * n + ny + w + type) % 2) continue;
			add(c, n, type, n % 2 ? VMPI_RENDEZVOUS : VMPI_BUFFERED, type % 2 ? VMPI_LAST : VMPI_FIRST, VMPI_ASC);
		}
		// more patches than ranks, and fewer
		for (int p : {1, 2, 3, 4, 6}) if (nx % p == 0 && p != n) { Cfg c; c.kind = kind; c.nx = nx; c.ny = ny; c.ho = 3; c.patches = p; add(c, n, 0, VMPI_RENDEZVOUS, VMPI_LAST, VMPI_ASC); }
	}
	// all arrival orders of two exchanges
	for (int n : {2, 3}) for (int dm = 0; dm < 2; dm++) {
		Cfg c; c.nx = 1; c.ho = 2; c.tracers = 1; c.lev = 4;
		r.explore(vh::fmt("orders|cs|r%d|%s", n, dm ? "rdv" : "buf"), [=](vh::Ctx & x) { VmpiOpts o; o.data = (VmpiDataMode)dm; o.order = VMPI_ONE; o.prefix = x.prefix; body(x, c, n, o, 0); }, th ? 3 : 2);
		Cfg b; b.kind = CART; b.nx = 6; b.ny = 1; b.ho = 2; b.tracers = 1;
		r.explore(vh::fmt("orders|cart|r%d|%s", n, dm ? "rdv" : "buf"), [=](vh::Ctx & x) { VmpiOpts o; o.data = (VmpiDataMode)dm; o.order = VMPI_ONE; o.prefix = x.prefix; body(x, b, n, o, 0); }, th ? 3 : 2);
	}
}
