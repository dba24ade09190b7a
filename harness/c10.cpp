// C10: interpolated output files against an independent evaluation of the stored state.
#include "geo.h"
#include "full.h"
#include "civil.h"
#include "OutputManagerReference.h"
#include "netcdfcpp.h"
using namespace geo;
using topo::operator+; using topo::operator*; using topo::dot; using topo::norm; using topo::cross;
using mini::Layout;

struct Job {
	Cfg c; int ranks = 1, ox = 5, oy = 4, nz = 0, perfile = -1, user = 0, start = 0, leg = 0; bool rem = false, all = false, diag = true;
	std::string name() const { return c.name() + vh::fmt("/%d-%dx%dx%d-f%d-u%d-s%d%s%s%s", ranks, ox, oy, nz, perfile, user, start, leg ? vh::fmt("-leg%d", leg).c_str() : "", rem ? "-noref" : "", all ? "-nodes" : ""); }
};
static double noise(uint64_t a, uint64_t b) { uint64_t h = (a+1)*0x9E3779B97F4A7C15ull ^ (b+7)*0xC2B2AE3D27D4EB4Full; h ^= h >> 31; h *= 0xD6E8FEB86659FD93ull; h ^= h >> 29; h *= 0x94D049BB133111EBull; h ^= h >> 32; return (h >> 11) * (1.0/9007199254740992.0); }

struct Snap { std::vector<double> s, user; };
struct Fill : Still {
	Job j; topo::Topo * t; std::vector<Snap> * snaps; int rank, step = 0; const std::vector<double> * dummy = NULL;
	Fill(Model & m, const Job & k, topo::Topo * tt, std::vector<Snap> * sn, int r) : Still(m), j(k), t(tt), snaps(sn), rank(r) {}
	void take() {
		Grid & g = *m_model.GetGrid(); Layout l = mini::layout(j.c); Snap & s = (*snaps)[step];
		mini::gather(g, l, 0, s.s);
		mini::each_column(g, l, [&](GridPatch & p, int a, int b, size_t col) { for (int u = 0; u < j.user; u++) s.user[col*j.user + u] = p.GetUserData2D()(u, a, b); });
	}
	void Step(bool, bool, const Time &, double) {
		take(); step++;
		Grid & g = *m_model.GetGrid(); Layout l = mini::layout(j.c);
		mini::each_column(g, l, [&](GridPatch & p, int a, int b, size_t col) {
			int cls = t->cls[col];
			for (int pass = 0; pass < 2; pass++) for (int k = 0; k < l.lev + pass; k++) {
				DataArray4D<double> & d = p.GetDataState(0, pass ? DataLocation_REdge : DataLocation_Node);
				uint64_t id = ((uint64_t)cls*200 + k)*2 + pass;
				V3 v = {noise(id, 1+step)-0.5, noise(id, 11+step)-0.5, noise(id, 21+step)-0.5};
				if (j.c.kind == mini::CS) { V3 r = t->pos[col]; v = v + (-dot(v, r))*r; }
				double ua, ub; t->tocov((int)col, v, ua, ub);
				double R = j.c.kind == mini::CS ? m_model.GetPhysicalConstants().GetEarthRadius() : 1.0;
				d(0,a,b,k) = 30*R*ua; d(1,a,b,k) = 30*R*ub;
				if (j.c.sw) { d(2,a,b,k) = 1000 + 500*noise(id, 31+step); continue; }
				d(2,a,b,k) = 200 + 200*noise(id, 31+step); d(3,a,b,k) = 5e3*(noise(id, 41+step)-0.5); d(4,a,b,k) = 0.5 + noise(id, 51+step);
			}
			for (int q = 0; q < l.tr; q++) for (int k = 0; k < l.lev; k++) p.GetDataTracers(0)(q,a,b,k) = noise(cls*200 + k, 61 + 3*q + step);
			for (int u = 0; u < j.user; u++) p.GetUserData2D()(u,a,b) = noise(cls, 91 + 3*u + step);
		});
	}
};
struct UserSim {
	Model model; mini::Test * test; Grid * grid;
	UserSim(const Job & j, const UserDataMeta & m) : model(mini::eqns(j.c), m), test(NULL), grid(NULL) {}
};
// Lagrange coefficients
static std::vector<double> lag(const std::vector<double> & x, double at) {
	std::vector<double> c(x.size());
	for (size_t i = 0; i < x.size(); i++) { double p = 1; for (size_t k = 0; k < x.size(); k++) if (k != i) p *= (at - x[k])/(x[i] - x[k]); c[i] = p; }
	return c;
}
// values a column may be given at height x: the polynomials of the elements it lies in
static std::pair<double,double> vertical_at(const Cfg & c, const std::vector<double> & z, const std::vector<double> & zi, const std::vector<double> & f, double x, bool faces) {
	int o = std::string(c.vdisc) == "fv" ? 1 : c.vo, N = c.lev, ne = N/o;
	double lo = 1e300, hi = -1e300;
	auto add = [&](double v) { lo = std::min(lo, v); hi = std::max(hi, v); };
	auto poly = [&](int b, int n) { std::vector<double> xs, fs; for (int i = b; i < b+n; i++) { xs.push_back(z[i]); fs.push_back(f[i]); } auto w = lag(xs, x); double s = 0; for (int i = 0; i < n; i++) s += w[i]*fs[i]; add(s); };
	if (std::string(c.stag) == "int") {      // levels at the ends and inside of the elements
		ne = (N-1)/(o-1);
		for (int e = 0; e < ne; e++) { if (x < z[e*(o-1)] - 1e-10 && e) continue; if (x > z[(e+1)*(o-1)] + 1e-10 && e < ne-1) continue; poly(e*(o-1), o); }
		return {lo, hi};
	}
	for (int e = 0; e < ne; e++) {
		if (x < zi[e*o] - 1e-10 && e) continue; if (x > zi[(e+1)*o] + 1e-10 && e < ne-1) continue;
		if (faces) { poly(e*o, o+1); continue; }
		poly(e*o, o);
		if (o == 1) { if (e) poly(e-1, 2); if (e < N-1) poly(e, 2); }
	}
	return {lo, hi};
}

static void output(vh::Ctx & c, const Job & j) {
	const Cfg & cfg = j.c; Layout l = mini::layout(cfg); topo::Topo t(cfg); Vert vt = vertical(cfg);
	const int steps = cfg.steps, dt = 60; const bool ints = std::string(cfg.stag) == "int", cph = std::string(cfg.stag) == "cph";
	std::vector<Snap> snaps(steps + 1); for (auto & s : snaps) { s.s.assign(l.size(), NAN); s.user.assign(l.cols()*j.user, NAN); }
	std::vector<double> ref(l.size(), 0.0), zs(t.nodes()), wratio;
	std::vector<char> live; PhysicalConstants ph;
	std::string dir = vh::scratch();
	VmpiResult mr; std::vector<UserSim*> keep(j.ranks);
	UserDataMeta meta; for (int u = 0; u < j.user; u++) meta.InsertDataItem2D(vh::fmt("USER%d", u));
	Time start(2001, 2, 4, j.start, 0, Time::CalendarNoLeap);
	auto bad = [&](const std::string & what, const std::string & d) { c.viol(cfg.name() + " " + what, j.name() + ": " + d); };
	vh::mpi(j.ranks, [&](int rank) {
		AnnounceOnlyOutputOnRankZero();
		UserSim & s = *(keep[rank] = new UserSim(j, meta)); Model & m = s.model;
		m.SetStartTime(start);
		Fill * f = new Fill(m, j, &t, &snaps, rank);
		m.SetTimestepScheme(f); m.SetHorizontalDynamics(new HorizontalDynamicsStub(m)); m.SetVerticalDynamics(new VerticalDynamicsStub(m));
		m.SetDeltaT(mini::seconds(dt)); Time e = start; e += mini::seconds(dt*steps); m.SetEndTime(e);
		s.grid = mini::new_grid(m, cfg); m.SetGrid(s.grid, cfg.patches);
		s.test = new mini::Test(cfg); m.SetTestCase(s.test);
		OutputManagerReference * o = new OutputManagerReference(*s.grid, mini::seconds(dt), dir, "o", j.perfile, j.ox, j.oy, j.nz, j.all, j.rem);
		if (j.diag) { o->OutputVorticity(); o->OutputDivergence(); if (!cfg.sw) { o->OutputTemperature(); if (!ints) o->OutputSurfacePressure(); } }
		m.AttachOutputManager(o);
		if (j.leg) {        // the run stops after some steps and a second run of the same model goes on
			Time mid = start; mid += mini::seconds(dt*j.leg); m.SetEndTime(mid); m.Go(); m.SetStartTime(mid); m.SetEndTime(e);
		}
		m.Go();
		f->take();
		if (cfg.ref) mini::each_column(*s.grid, l, [&](GridPatch & p, int a, int b, size_t col) {
			double * q = &ref[col*l.per()];
			for (int k = 0; k < l.comp; k++) for (int z = 0; z < l.lev; z++) *q++ = p.GetReferenceState(DataLocation_Node)(k,a,b,z);
			for (int k = 0; k < l.comp; k++) for (int z = 0; z <= l.lev; z++) *q++ = p.GetReferenceState(DataLocation_REdge)(k,a,b,z);
		});
		if (rank == 0) {
			ph = m.GetPhysicalConstants();
			live = mini::live_mask(*s.grid, l);
			for (size_t n = 0; n < t.nodes(); n++) { double a, b; t.coord(n, a, b); if (cfg.kind == mini::CS) { V3 p = topo::sphere(t.panel(n), a, b); a = atan2(p[1], p[0]); b = asin(std::max(-1.0, std::min(1.0, p[2]))); } zs[n] = s.test->EvaluateTopography(ph, a, b); }
		}
		MPI_Barrier(MPI_COMM_WORLD);
		delete &s;
	}, VmpiOpts(), mr);
	if (!mr.ok) { bad("run", mr.error); return; }
	double R = cfg.kind == mini::CS ? ph.GetEarthRadius() : 1.0, top = cfg.sw ? 1.0 : cfg.ztop;
	int h = cfg.ho; const int W = 3;
	// elements an output point may be taken to lie in
	struct At { std::vector<int> nodes; std::vector<double> w; double al, be; int panel; };
	std::vector<std::vector<At>> pts(j.ox*j.oy);
	std::vector<double> lon(j.ox), lat(j.oy);
	double X0 = cfg.kind == mini::CS ? -180 : 0, X1 = cfg.kind == mini::CS ? 180 : cfg.lx, Y0 = cfg.kind == mini::CS ? -90 : 0, Y1 = cfg.kind == mini::CS ? 90 : cfg.ly;
	for (int i = 0; i < j.ox; i++) lon[i] = X0 + (X1-X0)*(i+0.5)/j.ox;
	for (int i = 0; i < j.oy; i++) lat[i] = Y0 + (Y1-Y0)*(i+0.5)/j.oy;
	for (int y = 0; y < j.oy; y++) for (int x = 0; x < j.ox; x++) for (int p = 0; p < t.P; p++) {
		double al = lon[x], be = lat[y], da, db, oa = 0, ob = 0;
		if (cfg.kind == mini::CS) {
			V3 cc, aa, bb, r = rll(lon[x]*M_PI/180, lat[y]*M_PI/180); topo::frame(p, cc, aa, bb);
			double s = dot(r, cc); if (s < 0.1) continue;
			al = atan(dot(r, aa)/s); be = atan(dot(r, bb)/s); oa = ob = -M_PI/4; da = db = M_PI/2/t.ea;
		} else { da = cfg.lx/t.ea; db = cfg.ly/t.eb; }
		for (int a = 0; a < t.ea; a++) for (int b = 0; b < t.eb; b++) {
			double u = (al-oa)/da - a, v = (be-ob)/db - b;
			if (u < -1e-9 || u > 1+1e-9 || v < -1e-9 || v > 1+1e-9) continue;
			At q; q.al = al; q.be = be; q.panel = p; auto cu = lag(t.gx, u), cv = lag(t.gx, v);
			for (int m = 0; m < h; m++) for (int n = 0; n < h; n++) { q.nodes.push_back(t.id(p, a*h+m, b*h+n)); q.w.push_back(cu[m]*cv[n]); }
			pts[y*j.ox+x].push_back(q);
		}
	}
	// diagnostics at nodes
	auto val = [&](const Snap & s, size_t col, int comp, int k, bool face) -> double { return s.s[col*l.per() + (face ? (size_t)l.comp*l.lev + comp*(l.lev+1) + k : (size_t)comp*l.lev + k)]; };
	auto refv = [&](size_t col, int comp, int k, bool face) -> double { return ref[col*l.per() + (face ? (size_t)l.comp*l.lev + comp*(l.lev+1) + k : (size_t)comp*l.lev + k)]; };
	std::vector<std::vector<double>> D(h, std::vector<double>(h));   // derivative matrix on [0,1]
	for (int at = 0; at < h; at++) for (int sx = 0; sx < h; sx++) { double r = 0; for (int q = 0; q < h; q++) if (q != sx) { double pr = 1/(t.gx[sx]-t.gx[q]); for (int u = 0; u < h; u++) if (u != sx && u != q) pr *= (t.gx[at]-t.gx[u])/(t.gx[sx]-t.gx[u]); r += pr; } D[at][sx] = r; }
	auto curldiv = [&](const Snap & s, int k, std::vector<double> & Z, std::vector<double> & V) {
		std::vector<double> z(t.nodes()), v(t.nodes()), J(t.nodes()), ca(t.nodes()), cb(t.nodes());
		for (size_t n = 0; n < t.nodes(); n++) {
			V3 A, B; t.basis(n, A, B); double gaa = R*R*dot(A,A), gab = R*R*dot(A,B), gbb = R*R*dot(B,B), det = gaa*gbb-gab*gab; J[n] = sqrt(det);
			double ua = val(s, n, 0, k, false), ub = val(s, n, 1, k, false); ca[n] = (gbb*ua-gab*ub)/det; cb[n] = (gaa*ub-gab*ua)/det;
		}
		double da = cfg.kind == mini::CS ? M_PI/2/t.ea : cfg.lx/t.ea, db = cfg.kind == mini::CS ? M_PI/2/t.eb : cfg.ly/t.eb;
		for (size_t n = 0; n < t.nodes(); n++) {
			int p = t.panel(n), i = t.gi(n), jj = t.gj(n), i0 = i/h*h, j0 = jj/h*h; double za = 0, zb = 0, va = 0, vb = 0;
			for (int q = 0; q < h; q++) { int na = t.id(p, i0+q, jj), nb = t.id(p, i, j0+q); za += D[i-i0][q]*val(s, na, 1, k, false)/da; zb += D[jj-j0][q]*val(s, nb, 0, k, false)/db; va += D[i-i0][q]*J[na]*ca[na]/da; vb += D[jj-j0][q]*J[nb]*cb[nb]/db; }
			z[n] = (za - zb)/J[n]; v[n] = (va + vb)/J[n];
		}
		Z.assign(t.nodes(), 0); V.assign(t.nodes(), 0);
		for (size_t n = 0; n < t.nodes(); n++) { auto & m = t.mem[t.cls[n]]; for (int o : m) { Z[n] += z[o]/m.size(); V[n] += v[o]/m.size(); } }
	};
	// potential temperature density on a level, also where it is kept on interfaces
	auto theta = [&](const Snap & s, size_t col, int z) { if (!cph) return val(s, col, 2, z, false); std::vector<double> f(cfg.lev+1); for (int k = 0; k <= cfg.lev; k++) f[k] = val(s, col, 2, k, true); return vertical_at(cfg, vt.zi, vt.zi, f, vt.zl[z], true).first; };
	// heights asked for
	std::vector<double> zout = vt.zl; bool nodes = j.all || j.nz; if (j.nz) { zout.clear(); for (int k = 0; k < j.nz; k++) zout.push_back((k+0.5)/j.nz); }
	long n = 0; int record = 0; const int outputs = steps + 1 + (j.leg && j.perfile != 1 ? 1 : 0);   // with one output per file the second run begins by replacing the last file of the first
	auto fs = mini::files(dir);
	int want = j.perfile <= 0 ? 1 : (outputs + j.perfile - 1)/j.perfile;
	if ((int)fs.size() != want) bad("files", vh::fmt("%zu files instead of %d", fs.size(), want));
	for (auto & fn : fs) {
		NcFile f((dir + "/" + fn).c_str(), NcFile::ReadOnly);
		if (!f.is_valid()) { bad("file", fn + " cannot be read"); continue; }
		auto get = [&](const std::string & nm, std::vector<double> & d, std::vector<long> dims) -> bool {
			NcVar * v = NULL; for (int i = 0; i < f.num_vars(); i++) if (nm == f.get_var(i)->name()) v = f.get_var(i);
			if (!v) { bad("variable", nm + " is missing"); return false; }
			if (v->num_dims() != (int)dims.size()) { bad("variable", nm + " has other dimensions"); return false; }
			for (int i = 0; i < v->num_dims(); i++) if (v->get_dim(i)->size() != dims[i]) { bad("variable", nm + vh::fmt(" has size %ld instead of %ld in dimension %d", (long)v->get_dim(i)->size(), dims[i], i)); return false; }
			NcValues * x = v->values(); d.resize(v->num_vals()); for (size_t i = 0; i < d.size(); i++) d[i] = x->as_double(i); delete x; return true;
		};
		auto close = [&](const char * what, double got, double lo, double hi, double sc, const std::string & w) { n++; if (!(got >= lo - 1e-9*sc && got <= hi + 1e-9*sc)) bad(what, w + vh::fmt(": %.15g instead of %.15g%s", got, lo, lo == hi ? "" : vh::fmt(" to %.15g", hi).c_str())); };
		std::vector<double> d; NcDim * td = f.get_dim("time"); long nt = td ? td->size() : 0;
		if (get("lon", d, {j.ox})) for (int i = 0; i < j.ox; i++) close("lon", d[i], lon[i], lon[i], 360, vh::fmt("%d", i));
		if (get("lat", d, {j.oy})) for (int i = 0; i < j.oy; i++) close("lat", d[i], lat[i], lat[i], 180, vh::fmt("%d", i));
		if (get("lev", d, {(long)zout.size()})) for (size_t i = 0; i < zout.size(); i++) close("lev", d[i], zout[i], zout[i], 1, vh::fmt("%d", (int)i));
		if (!ints && get("ilev", d, {cfg.lev+1})) for (int i = 0; i <= cfg.lev; i++) close("ilev", d[i], vt.zi[i], vt.zi[i], 1, vh::fmt("%d", i));
		auto att = [&](const char * nm, double v) { NcAtt * a = f.get_att(nm); n++; if (!a) { bad("attribute", std::string(nm) + " is missing"); return; } if (a->as_double(0) != v) bad("attribute", std::string(nm) + vh::fmt(": %.17g instead of %.17g", a->as_double(0), v)); delete a; };
		att("earth_radius", ph.GetEarthRadius()); att("g", ph.GetG()); att("omega", ph.GetOmega()); att("Rd", ph.GetR()); att("Cp", ph.GetCp()); att("P0", ph.GetP0()); att("Ztop", top);
		// times, from the units as written
		std::vector<double> tv; long long y0 = 0, m0 = 0, d0 = 0, hh = 0, mm = 0, ss = 0; double base = NAN;
		if (get("time", tv, {nt})) {
			NcVar * v = f.get_var("time"); NcAtt * a = v->get_att("units"), * cal = v->get_att("calendar"); std::string u = a ? a->as_string(0) : "";
			if (sscanf(u.c_str(), "days since %lld-%lld-%lld%*[ T]%lld:%lld:%lld", &y0, &m0, &d0, &hh, &mm, &ss) < 3) bad("time-units", u);
			else base = (y0-2001)*365 + (m0 == 3 ? 31+28 : m0 == 1 ? 0 : m0 == 2 ? 31 : 1e9) + d0-1 + (hh*3600 + mm*60 + ss)/86400.0;
			std::string cn = cal ? cal->as_string(0) : "none"; if (cn != "noleap" && cn != "365_day") bad("calendar", cn);
		}
		if (record == 0 || true) if (get("Zs", d, {j.oy, j.ox})) for (size_t p = 0; p < pts.size(); p++) {
			double lo = 1e300, hi = -1e300; for (auto & a : pts[p]) { double s = 0; for (size_t q = 0; q < a.nodes.size(); q++) s += a.w[q]*zs[a.nodes[q]]; lo = std::min(lo, s); hi = std::max(hi, s); }
			close("Zs", d[p], lo, hi, 1000, vh::fmt("point %d", (int)p));
		}
		static const char * NM[] = {"U", "V", "RhoTheta", "W", "Rho"}, * NS[] = {"U", "V", "H"};
		std::vector<std::vector<double>> comp(l.comp), tr(l.tr), us(j.user); std::vector<double> ze, de, te, ps;
		bool ok = true; long nl = zout.size(); std::vector<bool> face(l.comp);
		for (int k = 0; k < l.comp; k++) { face[k] = live.size() && !live[(size_t)k*l.lev]; ok &= get(cfg.sw ? NS[k] : NM[k], comp[k], {nt, face[k] && !nodes ? cfg.lev+1 : nl, j.oy, j.ox}); }
		for (int k = 0; k < l.tr; k++) ok &= get(vh::fmt("Q%d", k), tr[k], {nt, nl, j.oy, j.ox});
		for (int k = 0; k < j.user; k++) ok &= get(vh::fmt("USER%d", k), us[k], {nt, j.oy, j.ox});
		if (j.diag) { ok &= get("ZETA", ze, {nt, nl, j.oy, j.ox}) && get("DELTA", de, {nt, nl, j.oy, j.ox}); if (!cfg.sw) ok &= get("T", te, {nt, nl, j.oy, j.ox}) && (ints || get("PS", ps, {nt, j.oy, j.ox})); }
		if (!ok) return;
		for (long r = 0; r < nt; r++, record++) {
			if (record >= outputs) { bad("records", "more outputs than steps"); break; }
			int step = j.leg && j.perfile != 1 && record > j.leg ? record - 1 : record;
			const Snap & s = snaps[step];
			double day = (31 + 28 + 4) + (j.start + step*dt)/86400.0;   // 5 March
			close("time", base + tv[r], day, day, 1e-3, vh::fmt("record %d of %s", (int)r, fn.c_str()));
			if (j.perfile > 0 && r >= j.perfile) bad("per-file", fn);
			std::vector<std::vector<double>> Z(cfg.lev), V(cfg.lev); if (j.diag) for (int k = 0; k < cfg.lev; k++) curldiv(s, k, Z[k], V[k]);
			for (size_t p = 0; p < pts.size(); p++) {
				auto column = [&](const At & a, int cnt, std::function<double(int,int)> g) { std::vector<double> col(cnt, 0); for (int k = 0; k < cnt; k++) for (size_t q = 0; q < a.nodes.size(); q++) col[k] += a.w[q]*g(a.nodes[q], k); return col; };
				auto at = [&](long k, long levs) { return ((r*levs + k)*j.oy*j.ox) + p; };
				auto w = [&](long k) { return vh::fmt("record %d point (%d,%d) level %ld", record, (int)p%j.ox, (int)p/j.ox, k); };
				// scalars
				auto scalar = [&](const char * what, const std::vector<double> & d, bool fc, double sc, std::function<double(int,int)> g) {
					bool own = fc && !nodes; long levs = own ? cfg.lev+1 : nl;
					for (long k = 0; k < levs; k++) {
						double lo = 1e300, hi = -1e300;
						for (auto & a : pts[p]) {
							auto col = column(a, cfg.lev + (fc ? 1 : 0), g);
							std::pair<double,double> v = own || (!fc && !j.nz) || cfg.lev == 1 ? std::make_pair(col[k], col[k]) : vertical_at(cfg, fc ? vt.zi : vt.zl, vt.zi, col, zout[k], fc);
							lo = std::min(lo, v.first); hi = std::max(hi, v.second);
						}
						close(what, d[at(k, levs)], lo, hi, sc, w(k));
					}
				};
				for (int k = 2; k < l.comp; k++) {
					bool fc = face[k]; double sc = k == 3 ? 1 : cfg.sw ? 1000 : k == 2 ? 200 : 1;
					scalar(cfg.sw ? NS[k] : NM[k], comp[k], fc, sc, [&](int nd, int z) {
						double v = val(s, nd, k, z, fc);
						if (k == W) { double dx; height(cfg, top, zs[nd], fc ? vt.zi[z] : vt.zl[z], NULL, &dx); v /= dx; }
						if (j.rem && cfg.ref) v -= refv(nd, k, z, fc);
						return v; });
				}
				for (int k = 0; k < l.tr; k++) scalar("tracer", tr[k], false, 1, [&](int nd, int z) { return s.s[(size_t)nd*l.per() + (size_t)l.comp*(2*l.lev+1) + k*l.lev + z]; });
				// winds
				for (long k = 0; k < nl; k++) {
					bool hit = false; double gu = comp[0][at(k, nl)], gv = comp[1][at(k, nl)], bu = NAN, bv = NAN;
					for (auto & a : pts[p]) {
						double uv[2][2];
						for (int q = 0; q < 2; q++) { auto col = column(a, cfg.lev, [&](int nd, int z) { double v = val(s, nd, q, z, false); if (j.rem && cfg.ref) v -= refv(nd, q, z, false); return v; });
							auto v = !j.nz || cfg.lev == 1 ? std::make_pair(col[k], col[k]) : vertical_at(cfg, vt.zl, vt.zi, col, zout[k], false); uv[q][0] = v.first; uv[q][1] = v.second; }
						// the wind written, as covariant components here, must lie between them
						double ga = gu, gb = gv, sc = 30*R;
						if (cfg.kind == mini::CS) {
							V3 A, B, rr = topo::sphere(a.panel, a.al, a.be, &A, &B); double lo = atan2(rr[1], rr[0]), la = asin(rr[2]);
							V3 e = {-sin(lo), cos(lo), 0}, nn = {-sin(la)*cos(lo), -sin(la)*sin(lo), cos(la)}; V3 v = gu*e + gv*nn; ga = R*dot(v, A); gb = R*dot(v, B);
							double pa = uv[0][0]/R, pb = uv[1][0]/R, gaa = dot(A,A), gab = dot(A,B), gbb = dot(B,B), det = gaa*gbb-gab*gab; V3 x = ((gbb*pa-gab*pb)/det)*A + ((gaa*pb-gab*pa)/det)*B; bu = dot(x, e); bv = dot(x, nn);
						} else { bu = uv[0][0]; bv = uv[1][0]; }
						if (ga >= uv[0][0]-1e-9*sc && ga <= uv[0][1]+1e-9*sc && gb >= uv[1][0]-1e-9*sc && gb <= uv[1][1]+1e-9*sc) hit = true;
					}
					n += 2; if (!hit) bad("wind", w(k) + vh::fmt(": %.12g %.12g instead of %.12g %.12g", gu, gv, bu, bv));
				}
				if (j.diag) {
					double zsc = cfg.kind == mini::CS ? 1e-3 : 1e-2;
					scalar("ZETA", ze, false, zsc, [&](int nd, int z) { return Z[z][nd]; });
					scalar("DELTA", de, false, zsc, [&](int nd, int z) { return V[z][nd]; });
					if (!cfg.sw) {
						scalar("T", te, false, 300, [&](int nd, int z) { double P = ph.GetP0()*pow(ph.GetR()*theta(s, nd, z)/ph.GetP0(), ph.GetCp()/(ph.GetCp()-ph.GetR())); return P/(ph.GetR()*val(s, nd, 4, z, false)); });
						if (ints) continue;
						double lo = 1e300, hi = -1e300;
						for (auto & a : pts[p]) { auto col = column(a, 1, [&](int nd, int) { double m = 0; for (int z = 0; z < cfg.lev; z++) m += ph.GetG()*val(s, nd, 4, z, false)*(height(cfg, top, zs[nd], vt.zi[z+1]) - height(cfg, top, zs[nd], vt.zi[z])); return m; }); lo = std::min(lo, col[0]); hi = std::max(hi, col[0]); }
						close("PS", ps[r*j.oy*j.ox + p], lo, hi, 1e5, w(0));
					}
				}
				for (int k = 0; k < j.user; k++) { double lo = 1e300, hi = -1e300; for (auto & a : pts[p]) { double v = column(a, 1, [&](int nd, int) { return s.user[(size_t)nd*j.user + k]; })[0]; lo = std::min(lo, v); hi = std::max(hi, v); } close("user", us[k][r*j.oy*j.ox + p], lo, hi, 1, w(k)); }
			}
		}
	}
	if (record != outputs) bad("records", vh::fmt("%d outputs instead of %d", record, outputs));
	c.count("evaluations", n); c.count("distinct_nontrivial", n);
}

// every output resolution finds the patch of every point
static void locate(vh::Ctx & c, const Cfg & k, int lim) {
	VmpiResult mr; topo::Topo t(k);
	vh::mpi(1, [&](int) {
		AnnounceOnlyOutputOnRankZero();
		mini::Sim & s = *new mini::Sim(k, false); still(s); s.setup(); Grid & g = *s.grid;
		double X0, X1, Y0, Y1; g.GetReferenceGridBounds(X0, X1, Y0, Y1);
		long n = 0;
		for (int ox = 1; ox <= lim; ox++) for (int oy = 1; oy <= lim; oy++) {
			if (ox > 24 && oy > 24 && ox != 2*oy) continue;
			DataArray1D<double> x(ox*oy), y(ox*oy), a(ox*oy), b(ox*oy); DataArray1D<int> p(ox*oy);
			for (int i = 0; i < ox; i++) for (int q = 0; q < oy; q++) { x[i*oy+q] = (X1-X0)/ox*(i+0.5)+X0; y[i*oy+q] = (Y1-Y0)/oy*(q+0.5)+Y0; }
			n += ox*oy;
			try { g.ConvertReferenceToPatchCoord(x, y, a, b, p); } catch (Exception & e) { c.viol(k.name() + " locate", vh::fmt("%dx%d points: refused", ox, oy)); continue; }
			for (int i = 0; i < ox*oy; i++) {
				const PatchBox & box = g.GetPatchBox(p[i]); bool ok = true;
				if (k.kind == mini::CS) {
					double d = norm(topo::sphere(box.GetPanel(), a[i], b[i]) + (-1.0)*rll(x[i]*M_PI/180, y[i]*M_PI/180)); ok = d < 1e-13;
					double D = M_PI/2/k.nx; ok = ok && a[i] > -M_PI/4 + box.GetAGlobalInteriorBegin()/k.ho*D - 1e-12 && a[i] < -M_PI/4 + box.GetAGlobalInteriorEnd()/k.ho*D + 1e-12 && b[i] > -M_PI/4 + box.GetBGlobalInteriorBegin()/k.ho*D - 1e-12 && b[i] < -M_PI/4 + box.GetBGlobalInteriorEnd()/k.ho*D + 1e-12;
				} else { double D = k.lx/k.nx; ok = a[i] == x[i] && b[i] == y[i] && a[i] > box.GetAGlobalInteriorBegin()/k.ho*D - 1e-7 && a[i] < box.GetAGlobalInteriorEnd()/k.ho*D + 1e-7; }
				if (!ok) { c.viol(k.name() + " locate", vh::fmt("%dx%d points: (%.17g, %.17g) on patch %d", ox, oy, x[i], y[i], p[i])); break; }
			}
		}
		c.count("evaluations", n); c.count("distinct_nontrivial", n);
	}, VmpiOpts(), mr);
	if (!mr.ok) c.viol(k.name() + " locate", mr.error);
}

void vh_jobs(vh::Registry & r) {
	bool th = r.thorough;
	auto A = [&](Job j) { r.add("out-" + j.name(), [j](vh::Ctx & c) { output(c, j); }); };
	auto base = [](int kind, bool sw) { Job j; Cfg & k = j.c; k.kind = kind; k.sw = sw; k.nx = 2; k.ny = kind == mini::CARTXZ ? 1 : 2; k.ho = 3; k.lev = sw ? 1 : 3; k.tracers = 2; k.steps = 1; if (sw) { k.vm = "none"; k.scheme = "ark232"; if (kind != mini::CS) k.topo = false; } return j; };
	for (int kind : {mini::CS, mini::CART, mini::CARTXZ}) for (int sw = 0; sw < (kind == mini::CARTXZ ? 1 : 2); sw++) {
		for (int nx = 1; nx <= 4; nx++) for (int ho = 2; ho <= (th ? 6 : 5); ho++) for (int ranks : {1, 2, 7}) for (int ox : {1, 4, 7}) {
			if (!th && ranks > 1 && (ho + nx + ox) % 3) continue;
			if (kind != mini::CS && nx % ranks) continue;
			Job j = base(kind, sw); j.c.nx = nx; j.c.ho = ho; j.ranks = ranks; j.ox = ox; j.oy = ox == 7 ? 3 : 4; A(j);
		}
		for (int tr = 0; tr <= 6; tr++) for (int u = 0; u <= 5; u++) { Job j = base(kind, sw); j.c.tracers = tr; j.user = u; j.ox = 3; j.oy = 2; A(j); }
		for (int pf : {-1, 1, 2, 3}) for (int st : {0, 1, 3600, 43200, 86399, 86395 - 60}) for (int steps : {1, 2, 3}) { Job j = base(kind, sw); j.c.ho = 2; j.c.lev = sw ? 1 : 2; j.perfile = pf; j.start = st; j.c.steps = steps; j.ox = j.oy = 2; j.user = 1; A(j); for (j.leg = 1; j.leg < steps; j.leg++) A(j); }
		for (int ref = 0; ref < 2; ref++) for (int rem = 0; rem < 2; rem++) for (int nd = 0; nd < 2; nd++) for (int ranks : {1, 2}) { if (sw && ref) continue; Job j = base(kind, sw); j.c.ref = ref; j.rem = rem; j.all = nd; j.ranks = ranks; A(j); }
		if (sw) continue;
		for (const char * st : {"uniform", "cubic", "pwlinear"}) for (int vo = 1; vo <= 4; vo++) for (int m = 2; m <= 4; m++) for (int nz = 0; nz <= (th ? 12 : 7); nz++) { Job j = base(kind, sw); j.c.nx = 1; j.c.ho = 2; j.c.vo = vo; j.c.lev = vo*m; j.c.stretch = st; j.nz = nz; j.ox = 2; j.oy = 2; A(j); j.rem = true; j.all = true; j.c.ref = true; if (nz == 0) A(j); }
	}
	// the other staggerings
	for (int kind : {mini::CS, mini::CART, mini::CARTXZ}) for (const char * sg : {"int", "lev", "cph"}) for (int vo = 1; vo <= 4; vo++) for (int m = 2; m <= 3; m++) for (int nz = 0; nz <= (th ? 9 : 5); nz++) for (int ref = 0; ref < 2; ref++) for (int nd = 0; nd < 2; nd++) {
		Job j = base(kind, false); j.c.nx = 1 + ref; j.c.ho = 2 + nd; j.c.vo = vo; j.c.stag = sg; j.c.lev = vo*m; if (std::string(sg) == "int") { if (vo < 2) continue; j.c.expl = true; j.c.lev = (vo-1)*m + 1; } if (m == 3) j.c.stretch = "cubic"; j.nz = nz; j.ox = j.oy = 2; j.all = nd; j.c.ref = ref; j.rem = ref; A(j); if (nz == 0 && ref) { j.rem = false; j.ranks = 2; A(j); } }
	for (int kind : {mini::CS, mini::CART, mini::CARTXZ}) for (int lev : {5, 9}) for (int nz : {0, 1, 4, lev, 12}) for (int nd = 0; nd < 2; nd++) { Job j = base(kind, false); j.c.vo = 2; j.c.vdisc = "fv"; j.c.lev = lev; j.ox = j.oy = 3; j.nz = nz; j.all = nd; A(j); }
	for (int nx = 1; nx <= 8; nx++) for (int pat : {6, 24, 54, 96, 150, 216, 294, 384}) {
		int s = lrint(sqrt(pat/6)); if (s > nx || nx % s) continue;
		Cfg k; k.kind = mini::CS; k.nx = nx; k.ho = 2; k.sw = true; k.lev = 1; k.vm = "none"; k.scheme = "ark232"; k.patches = pat;
		r.add(vh::fmt("locate-cs-%d-%d", nx, pat), [k, th](vh::Ctx & c) { locate(c, k, th ? 120 : 48); });
	}
	for (double lx : {4.0e5, 1.0e5/3, 123456.789, 1.0, 51200.0, 0.3}) for (int nx = 1; nx <= 12; nx++) {
		Cfg k; k.kind = mini::CART; k.nx = nx; k.ny = 3; k.ho = 2; k.sw = true; k.lev = 1; k.vm = "none"; k.scheme = "ark232"; k.patches = nx; k.lx = lx; k.ly = 0.7*lx; k.topo = false;
		r.add(vh::fmt("locate-box-%g-%d", lx, nx), [k, th](vh::Ctx & c) { locate(c, k, th ? 120 : 48); });
	}
}
