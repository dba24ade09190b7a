#include "vh.h"
#include <cxxabi.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <exception>
#include "Exception.h"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <dirent.h>
#include <time.h>
#include <errno.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <deque>
#include <fstream>
#include <sstream>
#include <iostream>
#include <exception>

namespace vh {

static std::string g_scratch_root;   // of this process
static std::string g_child_scratch;
static int g_child_scratch_n = 0;

std::string fmt(const char * f, ...) {
	va_list ap; va_start(ap, f);
	char b[4096]; int n = vsnprintf(b, sizeof b, f, ap); va_end(ap);
	if (n >= (int)sizeof b) n = sizeof b - 1;
	return std::string(b, n);
}
static std::string clean(std::string s) {
	for (auto & c : s) if (c == '\n' || c == '\r' || c == '\t') c = ' ';
	if (s.size() > 3000) s.resize(3000);
	return s;
}
void Ctx::line(const std::string & s) {
	std::string t = s + "\n";
	size_t o = 0;
	while (o < t.size()) { ssize_t w = write(fd, t.data() + o, t.size() - o); if (w <= 0) { if (errno == EINTR) continue; _exit(97); } o += w; }
}
void Ctx::count(const std::string & name, long n) {
	for (auto & p : counts) if (p.first == name) { p.second += n; return; }
	counts.push_back({name, n});
}
std::string where();
// Memory runs (--memory): the harness's own verdicts are left to its own check, only what the sanitizers and the bounds
// checks of the arrays report counts.
static bool g_memory = false;
static int g_memory_fd = -1;
static std::string g_memory_job;
void memory_fault(const std::string & what, const std::string & detail) {
	std::string t = "V\t" + clean(g_memory_job + " " + what) + "\t" + clean(detail) + "\nZ\n";
	if (g_memory_fd >= 0) { ssize_t w = write(g_memory_fd, t.data(), t.size()); (void)w; _exit(0); }
}
static void memory_terminate() {
	try { std::rethrow_exception(std::current_exception()); }
	catch (Exception & e) { memory_fault("bounds", e.ToString() + where()); }
	catch (...) { }
	abort();
}
std::string where() {
	void * f[64]; int n = backtrace(f, 64); std::string r;
	for (int i = 0, k = 0; i < n && k < 6; i++) {
		Dl_info d; if (!dladdr(f[i], &d) || !d.dli_sname) continue;
		int st; char * m = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st); std::string q = m ? m : d.dli_sname; free(m);
		q = q.substr(0, q.find('('));
		if (q.find("vh::") == 0 || q.find("__") == 0 || q.find("std::") == 0 || q.find("abort") == 0 || q.find("raise") == 0 || q.find("DataArray") != std::string::npos || q.find("gnu") != std::string::npos) continue;
		r += (k++ ? " < " : " in ") + q;
	}
	return r;
}
void Ctx::viol(const std::string & key, const std::string & detail) {
	if (g_memory) { count("verdicts_left_to_their_own_check"); return; }
	if (nviol++ >= 200) { count("violations_not_listed"); return; }
	line("V\t" + clean(key) + "\t" + clean(detail));
}
void Ctx::sample(const std::string & t) { if (nsamples++ < 3) line("S\t" + clean(t)); }
void Ctx::outcome(const std::string & c, uint64_t h) { line("O\t" + clean(c) + "\t" + std::to_string(h)); }
void Ctx::err(const std::string & t) { if (!g_memory) line("E\t" + clean(t)); }
void Ctx::choices(const std::vector<int> & a, const std::vector<int> & t) {
	std::string s = "A\t";
	for (size_t i = 0; i < a.size(); i++) s += std::to_string(a[i]) + ":" + std::to_string(t[i]) + " ";
	line(s);
}
void Ctx::flush() {
	for (auto & p : counts) line("C\t" + p.first + "\t" + std::to_string(p.second));
	counts.clear();
}
void Ctx::finish() { flush(); line("Z"); }
Ctx::~Ctx() {}

void Registry::add(const std::string & id, Body b, int t) { Job j; j.id = id; j.body = b; j.timeout_s = t; jobs.push_back(j); }
void Registry::explore(const std::string & id, Body b, int dev, long runs, int t) {
	Job j; j.id = id; j.body = b; j.timeout_s = t; j.explore = true; j.max_dev = dev; j.max_runs = runs; jobs.push_back(j);
}

uint64_t hash(const void * p, size_t n, uint64_t h) {
	const unsigned char * c = (const unsigned char *)p;
	for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
	return h;
}
std::string slurp(const std::string & p) {
	std::ifstream f(p.c_str(), std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str();
}
static void rmtree(const std::string & d) {
	DIR * D = opendir(d.c_str());
	if (!D) return;
	while (dirent * e = readdir(D)) {
		std::string n = e->d_name; if (n == "." || n == "..") continue;
		std::string p = d + "/" + n; struct stat st;
		if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmtree(p); else unlink(p.c_str());
	}
	closedir(D); rmdir(d.c_str());
}
std::string scratch() {
	std::string d = g_child_scratch + "/" + std::to_string(g_child_scratch_n++);
	mkdir(g_child_scratch.c_str(), 0700);
	mkdir(d.c_str(), 0700);
	return d;
}
void quiet() { fflush(stdout); int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); }
std::string capture(const std::function<void()> & f) {
	fflush(stdout); std::cout.flush();
	std::string p = scratch() + "/out";
	int old = dup(1); int n = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(n, 1); close(n);
	try { f(); } catch (...) { fflush(stdout); std::cout.flush(); dup2(old, 1); close(old); throw; }
	fflush(stdout); std::cout.flush(); dup2(old, 1); close(old);
	return slurp(p);
}

struct RankArg { const std::function<void(int)> * f; };
static void rank_main(int rank, void * a) {
	try { (*((RankArg*)a)->f)(rank); }
	catch (Exception & e) { vmpi_fail("exception", "rank " + std::to_string(rank) + " threw: " + e.ToString()); }
	catch (std::exception & e) { vmpi_fail("exception", "rank " + std::to_string(rank) + std::string(" threw: ") + e.what()); }
	catch (...) { vmpi_fail("exception", "rank " + std::to_string(rank) + " threw an unknown exception"); }
}
extern "C" char __data_start, _end;
void mpi(int n, const std::function<void(int)> & f, const VmpiOpts & o, VmpiResult & r) {
	vmpi_set_image(&__data_start, &_end);
	RankArg * a = new RankArg{&f};
	vmpi_run(n, rank_main, a, o, r);
	delete a;
}

// ---------------------------------------------------------------- parent

struct Viol { std::string job, key, detail, prefix; };
struct Run { size_t job; std::vector<int> prefix; int attempt = 0; };
struct Child { pid_t pid; int fd; Run run; std::string buf; double deadline; std::string scratch; };

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static std::string pstr(const std::vector<int> & p) { std::string s; for (size_t i = 0; i < p.size(); i++) s += (i ? "," : "") + std::to_string(p[i]); return s; }
static std::string js(const std::string & s) {
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o + "\"";
}

static int run_main(int argc, char ** argv) {
	Registry reg;
	std::string out, only, only_prefix, match; bool list = false, have_prefix = false, verbose = false;
	int nproc = 8; double budget = 1e9;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if (a == "--thorough") reg.thorough = true;
		else if (a == "--out") out = argv[++i];
		else if (a == "--only") only = argv[++i];
		else if (a == "--match") match = argv[++i];   // jobs whose name contains this
		else if (a == "--prefix") { only_prefix = argv[++i]; have_prefix = true; }
		else if (a == "--memory") g_memory = true;
		else if (a == "--list") list = true;
		else if (a == "-v") verbose = true;
		else if (a == "-j") nproc = atoi(argv[++i]);
		else if (a == "--budget") budget = atof(argv[++i]);
		else if (a == "--seed") reg.seed = strtoull(argv[++i], nullptr, 10);
	}
	char tmpl[] = "/tmp/vh.XXXXXX";
	g_scratch_root = mkdtemp(tmpl);
	vh_jobs(reg);
	if (list) { for (auto & j : reg.jobs) printf("%s\n", j.id.c_str()); rmtree(g_scratch_root); return 0; }
	std::deque<Run> todo;
	for (size_t i = 0; i < reg.jobs.size(); i++) {
		if (!only.empty() && reg.jobs[i].id != only) continue;
		if (reg.jobs[i].id.find(match) == std::string::npos) continue;
		Run r; r.job = i;
		if (have_prefix) { std::stringstream s(only_prefix); std::string t; while (std::getline(s, t, ',')) if (!t.empty()) r.prefix.push_back(atoi(t.c_str())); }
		todo.push_back(r);
	}
	std::map<std::string,long> counts;
	std::vector<std::string> samples, errs, unrepro;
	std::map<std::string, std::set<std::string>> outcomes;
	std::vector<Viol> viols;
	std::map<std::string, long> vkeys;
	std::map<std::pair<size_t,std::string>, std::vector<Viol>> pending;
	std::map<size_t,long> runs_of;
	std::set<size_t> capped;
	std::vector<Child> kids;
	long runs = 0, choice_points = 0, max_dev_done = 0;
	double t0 = now();
	long serial = 0;
	bool budget_hit = false;
	while (!todo.empty() || !kids.empty()) {
		while (!todo.empty() && (int)kids.size() < nproc) {
			if (now() - t0 > budget) { budget_hit = true; todo.clear(); break; }
			Run r = todo.front(); todo.pop_front();
			int p[2]; if (pipe(p)) { perror("pipe"); return 2; }
			Child c; c.run = r; c.fd = p[0]; c.deadline = now() + reg.jobs[r.job].timeout_s * (r.attempt ? 2 : 1);
			c.scratch = g_scratch_root + "/" + std::to_string(serial++);
			fflush(stdout); fflush(stderr);
			pid_t pid = fork();
			if (pid < 0) { perror("fork"); return 2; }
			if (pid == 0) {
				close(p[0]);
				for (auto & k : kids) close(k.fd);
				g_child_scratch = c.scratch; g_child_scratch_n = 0;
				rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
				if (!verbose) { quiet(); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); }
				if (g_memory) { g_memory_fd = p[1]; g_memory_job = reg.jobs[r.job].id; std::set_terminate(memory_terminate); }
				Ctx * x = new Ctx; x->fd = p[1]; x->id = reg.jobs[r.job].id; x->prefix = r.prefix;
				try { reg.jobs[r.job].body(*x); }
				catch (Exception & e) { x->viol(x->id + ":exception", "exception: " + e.ToString()); }
				catch (std::exception & e) { x->viol(x->id + ":exception", std::string("exception: ") + e.what()); }
				x->flush();
				x->finish();
				fflush(stdout);
				_exit(0);
			}
			close(p[1]); c.pid = pid;
			kids.push_back(c);
		}
		if (kids.empty()) break;
		std::vector<pollfd> pf;
		for (auto & k : kids) pf.push_back({k.fd, POLLIN, 0});
		poll(pf.data(), pf.size(), 200);
		for (size_t i = 0; i < kids.size();) {
			Child & k = kids[i];
			short re = i < pf.size() && pf[i].fd == k.fd ? pf[i].revents : 0;
			bool eof = false, timed = false;
			if (re) {
				char b[65536]; ssize_t n = read(k.fd, b, sizeof b);
				if (n > 0) k.buf.append(b, n); else eof = true;
			}
			if (!eof && now() > k.deadline) { kill(k.pid, SIGKILL); timed = true; eof = true; }
			if (!eof) { i++; continue; }
			int st = 0; waitpid(k.pid, &st, 0); close(k.fd);
			rmtree(k.scratch);
			Job & j = reg.jobs[k.run.job];
			runs++;
			std::vector<Viol> vs; std::vector<int> ar, tk;
			std::stringstream s(k.buf); std::string ln;
			bool replay = k.run.attempt > 0, ended = false;
			while (std::getline(s, ln)) {
				std::vector<std::string> f; std::stringstream q(ln); std::string t;
				while (std::getline(q, t, '\t')) f.push_back(t);
				if (f.empty()) continue;
				if (f[0] == "Z") ended = true;
				else if (f[0] == "C" && f.size() > 2) { if (!replay) counts[f[1]] += atol(f[2].c_str()); }
				else if (f[0] == "V" && f.size() > 1) vs.push_back({j.id, f[1], f.size() > 2 ? f[2] : "", pstr(k.run.prefix)});
				else if (f[0] == "S" && f.size() > 1) { if (!replay && samples.size() < 12) samples.push_back(j.id + ": " + f[1]); }
				else if (f[0] == "O" && f.size() > 2) outcomes[f[1]].insert(f[2]);
				else if (f[0] == "E" && f.size() > 1) errs.push_back(j.id + ": " + f[1]);
				else if (f[0] == "A" && f.size() > 1) {
					std::stringstream a(f[1]); std::string u;
					while (a >> u) { int x, y; if (sscanf(u.c_str(), "%d:%d", &x, &y) == 2) { ar.push_back(x); tk.push_back(y); } }
				}
			}
			if (g_memory && timed) { counts["out_of_time"]++; }
			else if (timed) vs.push_back({j.id, j.id + ":hang", "no end within the time limit", pstr(k.run.prefix)});
			else if (WIFSIGNALED(st)) vs.push_back({j.id, j.id + ":crash", fmt("killed by signal %d", WTERMSIG(st)), pstr(k.run.prefix)});
			else if (g_memory && (WEXITSTATUS(st) != 0 || !ended)) { if (!timed) counts["ended_by_themselves"]++; }
			else if (WEXITSTATUS(st) != 0) vs.push_back({j.id, j.id + ":exit", fmt("exit status %d", WEXITSTATUS(st)), pstr(k.run.prefix)});
			// Fortran's STOP, for one, ends a process with status 0
			else if (!ended) vs.push_back({j.id, j.id + ":stopped", "the process ended itself before the run was over", pstr(k.run.prefix)});
			auto pk = std::make_pair(k.run.job, pstr(k.run.prefix));
			if (!vs.empty() || replay) {
				if (!replay) {
					pending[pk] = vs;
					Run r = k.run; r.attempt = 1; todo.push_front(r);
				} else {
					std::set<std::string> again; for (auto & v : vs) again.insert(v.key);
					std::vector<Viol> & first = pending[pk];
					std::vector<Viol> rest;
					for (auto & v : first) {
						if (again.count(v.key)) { if (vkeys[v.key]++ == 0) viols.push_back(v); }
						else rest.push_back(v);
					}
					first = rest;
					if (!rest.empty() && k.run.attempt < 3) { Run r = k.run; r.attempt++; todo.push_front(r); }
					else for (auto & v : rest) unrepro.push_back(v.job + " " + v.key + " " + v.detail);
				}
			}
			if (j.explore && !replay && !have_prefix) {
				choice_points += ar.size();
				// check that the prefix was followed
				if (tk.size() < k.run.prefix.size() && vs.empty()) errs.push_back(j.id + ": run ended before its schedule prefix");
				int dev = 0; for (int c : k.run.prefix) if (c) dev++;
				if (dev > max_dev_done) max_dev_done = dev;
				if (dev < j.max_dev && vs.empty()) {
					for (size_t p = k.run.prefix.size(); p < ar.size(); p++)
						for (int alt = 1; alt < ar[p]; alt++) {
							if (runs_of[k.run.job] + 1 >= j.max_runs) { capped.insert(k.run.job); break; }
							runs_of[k.run.job]++;
							Run r; r.job = k.run.job;
							r.prefix.assign(tk.begin(), tk.begin() + p); r.prefix.push_back(alt);
							todo.push_back(r);
						}
				}
			}
			kids.erase(kids.begin() + i);
			pf.erase(pf.begin() + i);
		}
	}
	rmtree(g_scratch_root);
	std::string o = "{\n\"runs\": " + std::to_string(runs) + ",\n\"jobs\": " + std::to_string(reg.jobs.size()) +
		",\n\"choice_points\": " + std::to_string(choice_points) + ",\n\"max_deviations\": " + std::to_string(max_dev_done) +
		",\n\"budget_hit\": " + (budget_hit ? "true" : "false") + ",\n\"capped\": [";
	{ bool f = true; for (size_t c : capped) { o += (f ? "" : ", ") + js(reg.jobs[c].id); f = false; } }
	o += "],\n\"counts\": {";
	{ bool f = true; for (auto & c : counts) { o += (f ? "" : ", ") + js(c.first) + ": " + std::to_string(c.second); f = false; } }
	o += "},\n\"outcomes\": {";
	{ bool f = true; for (auto & c : outcomes) { o += (f ? "" : ", ") + js(c.first) + ": " + std::to_string(c.second.size()); f = false; } }
	o += "},\n\"samples\": [";
	for (size_t i = 0; i < samples.size(); i++) o += (i ? ",\n " : "") + js(samples[i]);
	o += "],\n\"errors\": [";
	for (size_t i = 0; i < errs.size() && i < 20; i++) o += (i ? ",\n " : "") + js(errs[i]);
	o += "],\n\"unreproduced\": [";
	for (size_t i = 0; i < unrepro.size() && i < 20; i++) o += (i ? ",\n " : "") + js(unrepro[i]);
	o += "],\n\"violations\": [";
	for (size_t i = 0; i < viols.size(); i++)
		o += (i ? ",\n " : "") + std::string("{\"job\": ") + js(viols[i].job) + ", \"key\": " + js(viols[i].key) + ", \"detail\": " + js(viols[i].detail) + ", \"prefix\": " + js(viols[i].prefix) + "}";
	o += "]\n}\n";
	if (out.empty()) fputs(o.c_str(), stdout);
	else { FILE * f = fopen(out.c_str(), "w"); if (!f) return 2; fputs(o.c_str(), f); fclose(f); }
	return 0;
}

} // namespace vh

#if defined(__SANITIZE_ADDRESS__)
extern "C" {
const char * __asan_default_options() { return "detect_leaks=0:alloc_dealloc_mismatch=0:detect_stack_use_after_return=0:detect_odr_violation=0:abort_on_error=1:max_malloc_fill_size=1073741824:malloc_fill_byte=127"; }
void __asan_set_error_report_callback(void (*)(const char *));
void __ubsan_get_current_report_data(const char **, const char **, const char **, unsigned *, unsigned *, char **) __attribute__((weak));
void __ubsan_on_report() {
	const char * kind = "", * msg = "", * file = ""; unsigned l = 0, c = 0; char * a = nullptr;
	if (__ubsan_get_current_report_data) __ubsan_get_current_report_data(&kind, &msg, &file, &l, &c, &a);
	vh::memory_fault(std::string("undefined ") + kind, vh::fmt("%s:%u: %s", file ? file : "?", l, msg ? msg : "") + vh::where());
}
}
static void asan_report(const char * t) {
	std::string s = t, kind = "memory", in; size_t p = s.find("AddressSanitizer: ");
	if (p != std::string::npos) { p += 18; kind = s.substr(p, s.find_first_of(" \n", p) - p); }
	size_t at = 0; for (int k = 0; k < 4 && (at = s.find("\n    #", at)) != std::string::npos; at++) { size_t i = s.find(" in ", at), e = s.find('\n', at + 1); if (i == std::string::npos || i > e) continue; in += (k++ ? " < " : "") + s.substr(i + 4, e - i - 4); }
	vh::memory_fault(kind, in);
}
static struct Hook { Hook() { __asan_set_error_report_callback(asan_report); } } g_hook;
#endif

int main(int argc, char ** argv) { return vh::run_main(argc, argv); }
