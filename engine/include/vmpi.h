// Controlled scheduler behind engine/include/mpi.h.
#ifndef VMPI_H
#define VMPI_H
#include <string>
#include <vector>

// How a send completes and when its bytes move.
enum VmpiDataMode {
	VMPI_BUFFERED = 0,   // send completes at once, bytes land as early as possible
	VMPI_RENDEZVOUS = 1  // bytes are read from the sender's buffer as late as possible
};
// Which of the messages that may arrive does arrive when every rank is stuck.
enum VmpiOrder {
	VMPI_ONE = 0,    // exactly one, picked by a choice point
	VMPI_BURST = 1,  // all of them
	VMPI_FIRST = 2,  // exactly one, lowest source (no choice point)
	VMPI_LAST = 3    // exactly one, highest source (no choice point)
};
// Which rank runs / receives first when several could.
enum VmpiRankOrder { VMPI_ASC = 0, VMPI_DESC = 1 };

struct VmpiOpts {
	VmpiDataMode data = VMPI_BUFFERED;
	VmpiOrder order = VMPI_FIRST;
	VmpiRankOrder rank_order = VMPI_ASC;
	std::vector<int> prefix;      // choices to replay; later ones take 0
	long max_events = 2000000;    // horizon
	int stack_fill = 0;           // what every byte of the ranks' stacks holds at the start
};

struct VmpiResult {
	bool ok = true;
	std::string error;            // deadlock, misuse, exception, abort ...
	std::string error_kind;       // short class of the above
	std::vector<int> arity;       // arity of every choice point met
	std::vector<int> taken;
	std::vector<std::string> what;
	long messages = 0, bytes = 0, collectives = 0, events = 0;
};

// Runs fn(rank, arg) on n ranks.  Each rank has its own copy of the
// executable's writable data (statics), taken from its state at the call.
void vmpi_run(int n, void (*fn)(int, void *), void * arg,
              const VmpiOpts & opts, VmpiResult & res);
void vmpi_set_image(char * lo, char * hi);
// A choice point of the environment.
int vmpi_choose(int n, const char * what);
// Reports a failure of the current execution and ends it.
[[noreturn]] void vmpi_fail(const char * kind, const std::string & msg);
int vmpi_rank();   // -1 outside vmpi_run
int vmpi_size();
#endif
