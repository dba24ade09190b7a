// Job runner shared by the harnesses: every job (a configuration, a block of
// enumerated cases, or one schedule of an exploration) runs in a forked child.
#ifndef VH_H
#define VH_H
#include <functional>
#include <string>
#include <vector>
#include <cstdint>
#include <cstdarg>
#include "vmpi.h"

namespace vh {

std::string fmt(const char * f, ...) __attribute__((format(printf, 1, 2)));

// Handle of the running child.
struct Ctx {
	int fd = -1;
	std::string id;
	std::vector<int> prefix;           // schedule to follow (explorations)
	void count(const std::string & name, long n = 1);
	// key identifies the failing case, independently of how it was reached
	void viol(const std::string & key, const std::string & detail);
	void sample(const std::string & text);
	void outcome(const std::string & cls, uint64_t h);   // distinct observed results
	void choices(const std::vector<int> & arity, const std::vector<int> & taken);
	void err(const std::string & text); // engine trouble: not a verdict
	long nviol = 0;
	void flush(); void finish();
	~Ctx();
private:
	std::vector<std::pair<std::string,long>> counts;
	int nsamples = 0;
	void line(const std::string &);
};

typedef std::function<void(Ctx &)> Body;

struct Job {
	std::string id;
	Body body;
	int timeout_s = 300;
	bool explore = false;      // expand the choice points reported by choices()
	int max_dev = 0;           // at most this many non-zero choices
	long max_runs = 1000000000;// cap on runs of this exploration (reported when hit)
};

struct Registry {
	bool thorough = false;
	uint64_t seed = 1;
	std::vector<Job> jobs;
	void add(const std::string & id, Body b, int timeout_s = 300);
	void explore(const std::string & id, Body b, int max_dev, long max_runs = 1000000000, int timeout_s = 300);
};

uint64_t hash(const void * p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash(const std::string & s) { return hash(s.data(), s.size()); }
std::string scratch();        // a fresh directory for the running job, removed afterwards
std::string slurp(const std::string & path);
void quiet();                 // stdout of this child to /dev/null
std::string capture(const std::function<void()> & f);  // stdout of f

// Runs a rank program under the controlled scheduler, catching exceptions.
void mpi(int n, const std::function<void(int)> & f, const VmpiOpts & o, VmpiResult & r);

} // namespace vh

// Provided by each harness.
void vh_jobs(vh::Registry & r);
#endif
