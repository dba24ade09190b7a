// Crashes and write errors while restart files are written: only whole files are ever accepted.
#include "full.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/uio.h>
using namespace mini;

// ---- every write to a file below one directory, in order, with injected faults
struct Write { std::string name; long off; std::string data; long had; };   // had: size of the file before
struct Tap {
	std::string dir; std::vector<Write> log;
	int fault_at = -1, fault = 0;      // number of the write that fails, and how
	bool sticky = true;                // all later writes fail, too
	int hit = 0;
};
static Tap * tap = nullptr;            // shared by all ranks (the ranks' statics are copies)
enum { NOSPC = 1, IOERR = 2, SHORT = 3, HALFSPC = 4, INTR = 5 };

static ssize_t real_write(int fd, const void * p, size_t n) {
	static ssize_t (*f)(int, const void *, size_t) = (ssize_t (*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
	return f(fd, p, n);
}
static std::string name_of(int fd) {
	if (!tap || fd < 3) return "";
	char b[1024]; std::string l = vh::fmt("/proc/self/fd/%d", fd);
	ssize_t n = readlink(l.c_str(), b, sizeof b); if (n <= 0) return "";
	std::string s(b, n);
	return s.compare(0, tap->dir.size() + 1, tap->dir + "/") == 0 && s.size() > 4 && s.substr(s.size() - 4) == ".dat" ? s.substr(tap->dir.size() + 1) : "";
}
static ssize_t tapped(const std::string & nm, int fd, const char * p, size_t n) {
	int k = (int)tap->log.size();
	bool now = tap->fault_at >= 0 && (k == tap->fault_at ? !tap->hit || tap->sticky : k > tap->fault_at && tap->sticky && tap->fault != SHORT && tap->fault != INTR);
	long off = lseek(fd, 0, SEEK_CUR);
	struct stat st; long had = fstat(fd, &st) ? 0 : (long)st.st_size;
	size_t m = n;
	if (now) {
		tap->hit++;
		switch (tap->fault) {
		case NOSPC: errno = ENOSPC; return -1;
		case IOERR: errno = EIO; return -1;
		case INTR: tap->fault_at = -1; errno = EINTR; return -1;
		case SHORT: tap->fault_at = -1; m = n > 1 ? n / 2 : n; break;
		case HALFSPC: if (tap->hit > 1 || n < 2) { errno = ENOSPC; return -1; } m = n / 2; break;
		}
	}
	ssize_t r = real_write(fd, p, m);
	if (r > 0) tap->log.push_back(Write{nm, off, std::string(p, r), had});
	return r;
}
extern "C" ssize_t write(int fd, const void * p, size_t n) {
	std::string nm = name_of(fd);
	return nm.empty() ? real_write(fd, p, n) : tapped(nm, fd, (const char *)p, n);
}
extern "C" ssize_t writev(int fd, const struct iovec * v, int c) {
	static ssize_t (*f)(int, const struct iovec *, int) = (ssize_t (*)(int, const struct iovec *, int))dlsym(RTLD_NEXT, "writev");
	std::string nm = name_of(fd);
	if (nm.empty()) return f(fd, v, c);
	std::string all; for (int i = 0; i < c; i++) all.append((const char *)v[i].iov_base, v[i].iov_len);
	return tapped(nm, fd, all.data(), all.size());
}

// ---- runs
struct Hist { VmpiResult mpi; std::vector<std::vector<double>> at; std::vector<bool> failed; };   // state at each checkpoint

struct Probe : WorkflowProcess {
	Hist & h; Layout l; int n = 0;
	Probe(Model & m, double dt, Hist & h, const Layout & l) : WorkflowProcess(m, seconds(dt)), h(h), l(l) {}
	virtual void Perform(const Time & t) {
		n++;
		if ((int)h.at.size() <= n) h.at.resize(n + 1);
		if (h.at[n].empty()) h.at[n].assign(l.size(), NAN);
		gather(*m_model.GetGrid(), l, 0, h.at[n]);
		WorkflowProcess::Perform(t);
	}
};
static void go(const Cfg & c, const Out & o, int ranks, Hist & h) {
	Layout l = layout(c); h.failed.assign(ranks, false);
	vh::mpi(ranks, [&](int rank) {
		AnnounceOnlyOutputOnRankZero();
		Sim & s = *new Drive(c);
		drive(s, c, o);
		if (h.at.empty()) { h.at.resize(1); h.at[0].assign(l.size(), NAN); }
		gather(*s.grid, l, 0, h.at[0]);
		s.model.AttachWorkflowProcess(new Probe(s.model, o.restartdt, h, l));
		s.model.Go();
		delete &s;
	}, VmpiOpts(), h.mpi);
}

// What reading a file comes to.
struct Read { VmpiResult mpi; std::vector<char> refused; std::vector<double> state; std::vector<std::string> time, why; };
static void attempt(const Cfg & c, const std::string & file, int ranks, Read & r) {
	Layout l = layout(c); r.refused.assign(ranks, 0); r.time.assign(ranks, ""); r.why.assign(ranks, ""); r.state.assign(l.size(), NAN);
	Out o; o.reference = false; o.restart = file; o.end = 1;
	vh::mpi(ranks, [&](int rank) {
		AnnounceOnlyOutputOnRankZero();
		Sim * s = new Drive(c);
		try { drive(*s, c, o); gather(*s->grid, l, 0, r.state); r.time[rank] = s->model.GetStartTime().ToString(); }
		catch (Exception & e) { r.refused[rank] = 1; r.why[rank] = e.ToString(); }
		catch (std::exception & e) { r.refused[rank] = 1; r.why[rank] = e.what(); }
		delete s;
	}, VmpiOpts(), r.mpi);
}
static bool bits(const std::vector<double> & a, const std::vector<double> & b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), a.size() * 8); }
static void put(const std::string & f, const std::string & b) { FILE * p = fopen(f.c_str(), "wb"); fwrite(b.data(), 1, b.size(), p); fclose(p); }
static std::string stamp(double t) { Time a; a += seconds(t); return a.ToShortString(); }

// 1: refused everywhere, 2: accepted everywhere and right; anything else is reported
static int judge(vh::Ctx & x, const Cfg & c, const std::string & file, int ranks, const std::vector<double> & want, const std::string & time, const std::string & key, const std::string & what) {
	Read r; attempt(c, file, ranks, r);
	x.count("evaluations"); x.count("transitions");
	if (!r.mpi.ok) { x.viol(x.id + "|" + key + "|" + r.mpi.error_kind, "reading " + what + ": " + r.mpi.error); return 0; }
	int no = 0; for (char f : r.refused) no += f;
	if (no == ranks) return 1;
	if (no) { x.viol(x.id + "|" + key + "|mixed", what + vh::fmt(" is refused by %d of %d processes", no, ranks)); return 0; }
	if (!bits(r.state, want)) { x.viol(x.id + "|" + key + "|state", what + " is accepted, with a state that was never saved"); return 0; }
	for (auto & t : r.time) if (t != time) { x.viol(x.id + "|" + key + "|time", what + " is accepted, with the time " + t + " instead of " + time); return 0; }
	return 2;
}

// Files of the same names left by an earlier run: of another state, or longer, or shorter.
typedef std::map<std::string, std::string> Old;
static Old earlier(vh::Ctx & x, Cfg c, Out o, int writer, int before) {
	Old r; if (!before) return r;
	if (before == 1) c.flow *= 0.5; else if (c.sw) c.tracers = before == 2 ? c.tracers + 2 : 0; else c.lev += before == 2 ? 2 : -1;
	o.dir = vh::scratch(); Hist h; go(c, o, writer, h);
	if (!h.mpi.ok) x.err("earlier run: " + h.mpi.error);
	for (auto & f : files(o.dir)) r[f] = vh::slurp(o.dir + "/" + f);
	return r;
}

// The process may be killed after any write, or within one after any byte.
static void crash(vh::Ctx & x, const Cfg & c, int writer, std::vector<int> readers, int marks, bool cuts, int stride, int before = 0) {
	vh::quiet();
	Tap t; t.dir = vh::scratch();
	Out o; o.reference = false; o.restartdt = c.dt; o.end = c.dt * marks; o.dir = t.dir;
	std::map<std::string, std::vector<double>> saved; std::map<std::string, std::string> when;
	Old old = earlier(x, c, o, writer, before); for (auto & f : old) put(t.dir + "/" + f.first, f.second);
	Hist h; tap = &t; go(c, o, writer, h); tap = nullptr;
	if (!h.mpi.ok) { x.viol(x.id + "|run|" + h.mpi.error_kind, h.mpi.error); return; }
	if ((int)h.at.size() != marks + 1) { x.err("checkpoints"); return; }
	for (int m = 0; m <= marks; m++) { std::string f = "out." + stamp(m * c.dt) + ".restart.dat"; saved[f] = h.at[m]; Time a; a += seconds(m * c.dt); when[f] = a.ToString(); }
	std::map<std::string, std::string> img;
	std::string probe = t.dir + "/probe";
	int accepted = 0; long images = 0;
	auto see = [&](const std::string & f, const std::string & what, bool whole) {
		if (f.size() < 12 || f.substr(f.size() - 12) != ".restart.dat") return true;
		if (!saved.count(f)) { x.viol(x.id + "|name", "a restart file " + f + " nobody asked for"); return false; }
		put(probe, img[f]);
		for (int n : readers) {
			int v = judge(x, c, probe, n, saved[f], when[f], "crash", what);
			if (!v) return false;
			if (whole && v != 2) { x.viol(x.id + "|whole", f + " is refused although it was completed"); return false; }
			accepted += v == 2;
		}
		images++; x.count("distinct_nontrivial");
		return true;
	};
	auto apply = [&](const Write & w, size_t n) {
		std::string & s = img[w.name];
		if (s.size() < (size_t)w.off + n) s.resize(w.off + n, '\0');
		s.replace(w.off, n, w.data, 0, n);
	};
	for (size_t k = 0; k < t.log.size(); k++) {
		const Write & w = t.log[k];
		if (!img.count(w.name) && w.had > 0) img[w.name] = old[w.name].substr(0, w.had);   // not cut when opened
		if (cuts) for (size_t n = 1; n < w.data.size(); n += stride) {
			std::string keep = img[w.name];
			apply(w, n);
			if (!see(w.name, vh::fmt("%s, killed after %zu of %zu bytes of write %zu of %zu,", w.name.c_str(), n, w.data.size(), k + 1, t.log.size()), false)) return;
			img[w.name] = keep;
		}
		apply(w, w.data.size());
		bool last = true; for (size_t j = k + 1; j < t.log.size(); j++) last &= t.log[j].name != w.name;
		if (!see(w.name, vh::fmt("%s, killed after write %zu of %zu,", w.name.c_str(), k + 1, t.log.size()), last)) return;
	}
	if (img.empty()) { x.err("no write was seen"); return; }
	for (auto & f : saved) {
		if (vh::slurp(t.dir + "/" + f.first).empty()) { x.viol(x.id + "|missing", "no restart file " + f.first); return; }
		put(probe, vh::slurp(t.dir + "/" + f.first));
		if (judge(x, c, probe, readers[0], f.second, when[f.first], "final", f.first) != 2) { x.viol(x.id + "|final", f.first + " is refused"); return; }
	}
	x.sample(vh::fmt("%s: %zu writes, %ld images, %d accepted (whole files)", x.id.c_str(), t.log.size(), images, accepted));
}

// A whole file of another length is no restart file.
static void cutoff(vh::Ctx & x, const Cfg & c, int writer, std::vector<int> readers, long lo, long hi, int part, int parts) {
	vh::quiet();
	std::string d = vh::scratch();
	Out o; o.reference = false; o.restartdt = c.dt; o.end = c.dt; o.dir = d;
	Hist h; go(c, o, writer, h);
	if (!h.mpi.ok) { x.viol(x.id + "|run|" + h.mpi.error_kind, h.mpi.error); return; }
	std::string all = vh::slurp(d + "/out." + stamp(c.dt) + ".restart.dat"); Time a; a += seconds(c.dt);
	long n0 = (long)all.size();
	if (!n0) { x.viol(x.id + "|none", "no restart file"); return; }
	auto len = [&](long n) {
		std::string s = all.substr(0, std::min(n, n0)); if (n > n0) s += all.substr(0, n - n0);
		put(d + "/cut", s);
		for (int r : readers) {
			int v = judge(x, c, d + "/cut", r, h.at[1], a.ToString(), "length", vh::fmt("a restart file cut to %ld of %ld bytes", n, n0));
			if (!v) return false;
			if (n != n0 && v != 1) { x.viol(x.id + "|length", vh::fmt("a restart file of %ld instead of %ld bytes is accepted", n, n0)); return false; }
			if (n == n0 && v != 2) { x.viol(x.id + "|whole", "a whole restart file is refused"); return false; }
		}
		x.count("distinct_nontrivial");
		return true;
	};
	for (long n = part; n <= n0 + 64; n += parts) if (!len(n)) return;
	if (part == 0) for (long n : {n0 * 2, n0 + 1000, n0 + 8}) if (!len(n)) return;
	x.sample(vh::fmt("%s: file of %ld bytes", x.id.c_str(), n0));
}

// Every write may fail.
static void faults(vh::Ctx & x, const Cfg & c, int writer, int marks, int before = 0) {
	vh::quiet();
	std::string base = vh::scratch();
	Out o; o.reference = false; o.restartdt = c.dt; o.end = c.dt * marks;
	Tap t0; t0.dir = base + "/ok"; o.dir = t0.dir;
	Old old = earlier(x, c, o, writer, before);
	auto leave = [&](const std::string & d) { mkdir(d.c_str(), 0755); for (auto & f : old) put(d + "/" + f.first, f.second); };
	leave(t0.dir);
	Hist h; tap = &t0; go(c, o, writer, h); tap = nullptr;
	if (!h.mpi.ok) { x.viol(x.id + "|run|" + h.mpi.error_kind, h.mpi.error); return; }
	std::map<std::string, std::vector<double>> saved; std::map<std::string, std::string> when, good;
	for (int m = 0; m <= marks; m++) { std::string f = "out." + stamp(m * c.dt) + ".restart.dat"; saved[f] = h.at[m]; good[f] = vh::slurp(t0.dir + "/" + f); Time a; a += seconds(m * c.dt); when[f] = a.ToString(); }
	size_t n = t0.log.size();
	if (!n) { x.err("no write was seen"); return; }
	for (size_t k = 0; k < n; k++) for (int kind = 1; kind <= 5; kind++) for (int sticky = 0; sticky < (kind <= 2 ? 2 : 1); sticky++) {
		Tap t; t.dir = base + vh::fmt("/f%zu.%d.%d", k, kind, sticky); o.dir = t.dir; t.fault_at = (int)k; t.fault = kind; t.sticky = sticky || kind == HALFSPC;
		leave(t.dir);
		Hist f; tap = &t; go(c, o, writer, f); tap = nullptr;
		std::string what = vh::fmt("write %zu of %zu fails (%s%s)", k + 1, n, kind == 1 ? "no space" : kind == 2 ? "I/O error" : kind == 3 ? "short write" : kind == 4 ? "no space after half" : "interrupted", sticky ? ", and all later ones" : "");
		std::string key = vh::fmt("fault%d", kind);
		x.count("evaluations"); x.count("distinct_nontrivial"); x.count("faults_injected", t.hit);
		if (!t.hit) { x.err("fault not met: " + what); return; }
		bool hard = kind == NOSPC || kind == IOERR || kind == HALFSPC;
		if (hard && f.mpi.ok) {
			// the writer may have tried again: then all files must be whole
			for (auto & g : good) if (vh::slurp(t.dir + "/" + g.first) != g.second) { x.viol(x.id + "|" + key + "|unreported", what + ": the run ends without an error and " + g.first + " is not whole"); return; }
		}
		if (hard && !f.mpi.ok && f.mpi.error_kind != "exception") { x.viol(x.id + "|" + key + "|" + f.mpi.error_kind, what + ": " + f.mpi.error); return; }
		if (!hard) {
			if (!f.mpi.ok) { x.viol(x.id + "|" + key + "|" + f.mpi.error_kind, what + ": " + f.mpi.error); return; }
			for (auto & g : good) if (vh::slurp(t.dir + "/" + g.first).size() != g.second.size()) { x.viol(x.id + "|" + key + "|size", what + ": " + g.first + " is not whole"); return; }
		}
		for (auto & g : files(t.dir)) {
			if (hard && old.count(g) && vh::slurp(t.dir + "/" + g) == old[g]) continue;   // not reached any more
			if (!saved.count(g)) { x.viol(x.id + "|" + key + "|name", what + ": unexpected file " + g); return; }
			int v = judge(x, c, t.dir + "/" + g, 1 + (int)(k % 2), saved[g], when[g], key, g + ", after " + what + ",");
			if (!v) return;
			if (!hard && v != 2) { x.viol(x.id + "|" + key + "|refused", what + ": " + g + " is refused"); return; }
		}
	}
	x.sample(vh::fmt("%s: %zu writes, 7 faults each", x.id.c_str(), n));
}

// A file of another model is refused.
static void foreign(vh::Ctx & x, const std::vector<Cfg> & cs, size_t i) {
	vh::quiet();
	std::string d = vh::scratch();
	Out o; o.reference = false; o.restartdt = cs[i].dt; o.end = cs[i].dt; o.dir = d;
	Hist h; go(cs[i], o, 1, h);
	if (!h.mpi.ok) { x.viol(x.id + "|run|" + h.mpi.error_kind, h.mpi.error); return; }
	for (size_t j = 0; j < cs.size(); j++) for (int n : {1, 2, 3}) {
		if (i == j || cs[i].kind != cs[j].kind) continue;
		Read r; attempt(cs[j], d + "/out." + stamp(cs[i].dt) + ".restart.dat", n, r);
		x.count("evaluations"); x.count("distinct_nontrivial");
		std::string what = "a file of " + cs[i].name() + " read by " + cs[j].name();
		if (!r.mpi.ok) { x.viol(x.id + "|" + cs[j].name() + "|" + r.mpi.error_kind, what + ": " + r.mpi.error); continue; }
		for (char f : r.refused) if (!f) { x.viol(x.id + "|" + cs[j].name(), what + " is accepted"); break; }
	}
}

void vh_jobs(vh::Registry & r) {
	bool th = r.thorough;
	auto tiny = [](int kind) { Cfg c; c.kind = kind; c.nx = 1; c.ny = 1; c.ho = 2; c.dt = 60; c.steps = 1; c.tracers = 1; c.scheme = "strang/fe"; c.topo = false; if (kind == CS) { c.sw = true; c.lev = 1; } else { c.lev = 2; c.dt = 5; c.scheme = "ars343"; } return c; };
	auto two = [&](int kind) { Cfg c = tiny(kind); if (kind != CS) { c.nx = 2; c.lev = 3; } c.tracers = 2; return c; };
	for (int kind = 0; kind < 3; kind++) {
		for (int w : {1, 2, 3}) {
			Cfg c = tiny(kind); if (kind != CS && w > 1) { if (w == 3) continue; c.nx = 2; }
			r.add(vh::fmt("crash|%s|w%d", c.name().c_str(), w), [=](vh::Ctx & x) { crash(x, c, w, w == 1 ? std::vector<int>{1, 2} : std::vector<int>{1}, 2, true, th ? 1 : kind == CS ? 7 : 3); }, 800);
			r.add(vh::fmt("faults|%s|w%d", c.name().c_str(), w), [=](vh::Ctx & x) { faults(x, c, w, 2); }, 600);
			int parts = 8;
			for (int p = 0; p < parts; p++) { if (!th && (kind == CS || w > 1) && p != w) continue;
				r.add(vh::fmt("length|%s|w%d|%d", c.name().c_str(), w, p), [=](vh::Ctx & x) { cutoff(x, c, w, p % 2 ? std::vector<int>{1, 2} : std::vector<int>{1, 3}, 0, 0, p, parts); }, 800); }
		}
		for (int before = 1; before <= 3; before++) for (int w : {1, 2}) {
			Cfg c = tiny(kind); if (kind != CS && w > 1) c.nx = 2;
			r.add(vh::fmt("crash|%s|w%d|over%d", c.name().c_str(), w, before), [=](vh::Ctx & x) { crash(x, c, w, {1}, 2, true, th ? 3 : 29, before); }, 800);
			r.add(vh::fmt("faults|%s|w%d|over%d", c.name().c_str(), w, before), [=](vh::Ctx & x) { faults(x, c, w, 1, before); }, 600);
		}
		Cfg c = two(kind);
		r.add(vh::fmt("crash|%s|files", c.name().c_str()), [=](vh::Ctx & x) { crash(x, c, 2, {1, 2, 3}, 4, true, th ? 5 : 211); }, 800);
		r.add(vh::fmt("faults|%s|files", c.name().c_str()), [=](vh::Ctx & x) { faults(x, c, 2, 3); }, 600);
	}
	std::vector<Cfg> cs;
	for (int kind = 0; kind < 2; kind++) for (int tr : {0, 1, 2}) { Cfg c = tiny(kind); c.nx = 2; c.tracers = tr; cs.push_back(c); }
	{ Cfg c = tiny(CS); c.sw = false; c.lev = 2; c.scheme = "ars343"; cs.push_back(c); }
	for (size_t i = 0; i < cs.size(); i++) r.add("foreign|" + cs[i].name(), [=](vh::Ctx & x) { foreign(x, cs, i); });
	// no such thing
	for (int n : {1, 2, 3}) r.add(vh::fmt("nofile|r%d", n), [=](vh::Ctx & x) {
		vh::quiet(); std::string d = vh::scratch(); Cfg c = tiny(CS);
		put(d + "/empty", ""); put(d + "/text", "this is not a restart file, but it is long enough to be one. ");
		for (std::string f : {d + "/missing", d, d + "/empty", d + "/text"}) if (judge(x, c, f, n, {}, "", "nofile", f) == 1) x.count("distinct_nontrivial"); else if (!x.nviol) x.viol(x.id + "|accepted", f + " is accepted");
	});
}
