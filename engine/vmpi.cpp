// In-process MPI with ranks as fibers, under a controlled scheduler.
// Lives in its own shared library: the executable's writable data (the code
// under test and the harness) is swapped on every context switch, so each rank
// has private statics as a real MPI process would.
#include "mpi.h"
#include "vmpi.h"
#include <ucontext.h>
// present in the memory checking build only
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t) __attribute__((weak));
extern "C" void __sanitizer_start_switch_fiber(void **, const void *, size_t) __attribute__((weak));
extern "C" void __sanitizer_finish_switch_fiber(void *, const void **, size_t *) __attribute__((weak));
#include <sys/mman.h>
#include <cxxabi.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <functional>
#include <algorithm>

namespace {

struct Rank;

struct Msg;

} // namespace

struct VmpiRequest {
	bool is_send = false;
	int owner = 0, peer = 0, tag = 0;
	char * buf = nullptr;       // user's buffer
	size_t cap = 0;             // bytes (send: length)
	bool matched = false, arrived = false, freed = false;
	bool wild = false, posted = true;
	int st_source = MPI_ANY_SOURCE, st_tag = MPI_ANY_TAG;
	size_t st_bytes = 0;
	long seq = 0;
	std::shared_ptr<void> msg;  // Msg for a matched recv / for a send
};

namespace {

struct Msg {
	int src, dst, tag;
	size_t len;
	const char * live;          // sender's buffer
	std::vector<char> snap;
	VmpiRequest * sreq;         // may be null (buffered and done)
	VmpiRequest * rreq = nullptr;
	bool landed = false;
	long seq;
};
typedef std::shared_ptr<Msg> MsgP;

enum State { READY, BLOCKED, POLL, DONE };

struct Rank {
	int id;
	ucontext_t ctx;
	void * stack = nullptr;
	size_t stack_sz = 0;
	std::vector<char> image;
	char eh[64];
	void * fake = nullptr;
	State st = READY;
	std::function<bool()> cond;     // what a BLOCKED rank waits for
	std::string where;
	long coll_seq = 0;
	bool inited = false, finalized = false;
	long posts = 0;                 // operations posted, for livelock detection
	long posts_at_free = -1;        // posts when last let go of a poll for free
	std::deque<MsgP> unexpected;    // unmatched, in arrival order
	std::list<VmpiRequest*> posted; // unmatched receives, in post order
	std::list<VmpiRequest*> all;    // every live request
};

struct Coll {
	std::string kind; int count = 0, type = 0, op = 0, root = 0;
	int joined = 0;
	std::vector<std::vector<char>> in;
	std::vector<char*> out;
	std::vector<bool> here;
	bool done = false;
};

struct World {
	int n = 0;
	std::vector<Rank> r;
	int cur = -1;
	ucontext_t main_ctx;
	std::vector<char> main_image;
	char main_eh[64];
	VmpiOpts o;
	VmpiResult * res = nullptr;
	std::map<long, Coll> colls;
	long seq = 0;
	std::list<MsgP> inflight;       // matched, not arrived
	bool dead = false;
	void (*fn)(int, void*); void * arg;
};

World * W = nullptr;
char * g_lo = nullptr, * g_hi = nullptr;
std::vector<int> g_prefix;  // for vmpi_choose outside a run
VmpiResult * g_outres = nullptr;

size_t tsize(MPI_Datatype t) {
	switch (t) {
	case MPI_BYTE: case MPI_CHAR: case MPI_UNSIGNED_CHAR: case MPI_C_BOOL: return 1;
	case MPI_SHORT: return 2;
	case MPI_INT: case MPI_FLOAT: case MPI_UNSIGNED: return 4;
	case MPI_LONG: case MPI_DOUBLE: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG: return 8;
	}
	vmpi_fail("mpi-misuse", "unknown datatype");
}

Rank & me() {
	if (!W || W->cur < 0) { fprintf(stderr, "vmpi: MPI call outside a rank\n"); abort(); }
	return W->r[W->cur];
}

void eh_save(char * b) { memcpy(b, abi::__cxa_get_globals(), 16); }
void eh_load(const char * b) { memcpy(abi::__cxa_get_globals(), b, 16); }

const void * g_main_stack = nullptr; size_t g_main_stack_sz = 0;

void to_main() {
	Rank & k = W->r[W->cur];
	memcpy(k.image.data(), g_lo, g_hi - g_lo);
	eh_save(k.eh);
	memcpy(g_lo, W->main_image.data(), g_hi - g_lo);
	eh_load(W->main_eh);
	if (__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(&k.fake, g_main_stack, g_main_stack_sz);
	swapcontext(&k.ctx, &W->main_ctx);
	if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(k.fake, nullptr, nullptr);
}

void resume(int i) {
	Rank & k = W->r[i];
	W->cur = i;
	memcpy(W->main_image.data(), g_lo, g_hi - g_lo);
	eh_save(W->main_eh);
	memcpy(g_lo, k.image.data(), g_hi - g_lo);
	eh_load(k.eh);
	void * fake = nullptr;
	if (__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(&fake, k.stack, k.stack_sz);
	swapcontext(&W->main_ctx, &k.ctx);
	if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
	W->cur = -1;
}

void fiber_main(unsigned lo, unsigned hi) {
	(void)lo; (void)hi;
	if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(nullptr, &g_main_stack, &g_main_stack_sz);
	int i = W->cur;
	W->fn(i, W->arg);
	W->r[i].st = DONE;
	to_main();
	abort();
}

void block(const std::string & where, std::function<bool()> cond) {
	Rank & k = me();
	if (cond()) return;
	k.where = where; k.cond = cond; k.st = BLOCKED;
	to_main();
	k.cond = nullptr;
}

bool tag_ok(int want, int have) { return want == MPI_ANY_TAG || want == have; }

void land(Msg & m) {   // bytes move into the receiver's buffer
	if (m.landed) return;
	m.landed = true;
	if (W->o.data == VMPI_RENDEZVOUS && m.sreq) {
		if (m.len && memcmp(m.live, m.snap.data(), m.len) != 0)
			vmpi_fail("send-buffer-modified", "rank " + std::to_string(m.src) +
				" modified the buffer of a pending send to rank " + std::to_string(m.dst));
		if (m.len) memcpy(m.rreq->buf, m.live, m.len);
	} else {
		if (m.len) memcpy(m.rreq->buf, m.snap.data(), m.len);
	}
}

void do_match(const MsgP & m, VmpiRequest * q) {
	if (m->len > q->cap)
		vmpi_fail("truncation", "message of " + std::to_string(m->len) + " bytes from rank " +
			std::to_string(m->src) + " exceeds receive buffer of " + std::to_string(q->cap) +
			" bytes on rank " + std::to_string(m->dst));
	q->matched = true; q->msg = m; m->rreq = q;
	q->st_source = m->src; q->st_tag = m->tag; q->st_bytes = m->len;
	if (W->o.data == VMPI_BUFFERED) land(*m);
	else if (m->len) memset(q->buf, 0xFF, m->len);  // not readable before completion
	W->inflight.push_back(m);
}

void arrive(const MsgP & m) {
	land(*m);
	m->rreq->arrived = true;
	if (m->sreq) { m->sreq->arrived = true; m->sreq = nullptr; }
	W->res->events++;
	Rank & k = W->r[m->dst];
	if (k.st == POLL) k.st = READY;
	if (m->src != m->dst && W->r[m->src].st == POLL) W->r[m->src].st = READY;
}

MsgP make_send(Rank & k, const void * buf, size_t len, int dst, int tag, VmpiRequest * sreq) {
	if (dst < 0 || dst >= W->n) vmpi_fail("mpi-misuse", "send to invalid rank " + std::to_string(dst));
	if (tag < 0) vmpi_fail("mpi-misuse", "send with negative tag");
	MsgP m(new Msg);
	m->src = k.id; m->dst = dst; m->tag = tag; m->len = len; m->live = (const char*)buf;
	m->snap.assign((const char*)buf, (const char*)buf + len);
	m->sreq = sreq; m->seq = ++W->seq;
	W->res->messages++; W->res->bytes += len;
	k.posts++;
	if (W->o.data == VMPI_BUFFERED && sreq) { sreq->arrived = true; m->sreq = nullptr; }
	Rank & d = W->r[dst];
	for (auto it = d.posted.begin(); it != d.posted.end(); ++it) {
		VmpiRequest * q = *it;
		if (q->wild) continue;
		if (q->peer == k.id && tag_ok(q->tag, tag)) {
			d.posted.erase(it);
			do_match(m, q);
			return m;
		}
	}
	d.unexpected.push_back(m);
	return m;
}

VmpiRequest * make_recv(Rank & k, void * buf, size_t cap, int src, int tag) {
	if (src != MPI_ANY_SOURCE && (src < 0 || src >= W->n))
		vmpi_fail("mpi-misuse", "receive from invalid rank " + std::to_string(src));
	VmpiRequest * q = new VmpiRequest;
	q->owner = k.id; q->peer = src; q->tag = tag; q->buf = (char*)buf; q->cap = cap;
	q->wild = (src == MPI_ANY_SOURCE); q->seq = ++W->seq;
	k.all.push_back(q); k.posts++;
	if (!q->wild) {
		for (auto it = k.unexpected.begin(); it != k.unexpected.end(); ++it) {
			MsgP m = *it;
			if (m->src == src && tag_ok(tag, m->tag)) {
				k.unexpected.erase(it);
				do_match(m, q);
				return q;
			}
		}
	}
	k.posted.push_back(q);
	return q;
}

VmpiRequest * new_send(Rank & k, const void * buf, size_t len, int dst, int tag) {
	VmpiRequest * q = new VmpiRequest;
	q->is_send = true; q->owner = k.id; q->peer = dst; q->tag = tag;
	q->buf = (char*)buf; q->cap = len; q->seq = ++W->seq;
	k.all.push_back(q);
	make_send(k, buf, len, dst, tag, q);
	return q;
}

void fill(VmpiRequest * q, MPI_Status * s) {
	if (!s) return;
	s->MPI_SOURCE = q->st_source; s->MPI_TAG = q->st_tag; s->MPI_ERROR = MPI_SUCCESS;
	s->vmpi_bytes = q->st_bytes;
}
void fill_empty(MPI_Status * s) {
	if (!s) return;
	s->MPI_SOURCE = MPI_ANY_SOURCE; s->MPI_TAG = MPI_ANY_TAG; s->MPI_ERROR = MPI_SUCCESS; s->vmpi_bytes = 0;
}

void retire(MPI_Request * rq, MPI_Status * s) {
	VmpiRequest * q = *rq;
	fill(q, s);
	W->r[q->owner].all.remove(q);
	delete q;
	*rq = MPI_REQUEST_NULL;
}

void check_req(VmpiRequest * q) {
	if (!q) return;
	Rank & k = me();
	if (std::find(k.all.begin(), k.all.end(), q) == k.all.end())
		vmpi_fail("mpi-misuse", "operation on an invalid request");
}

bool has_arrived(Rank & k) {
	for (auto * q : k.all) if (q->arrived && !q->is_send) return true;
	return false;
}

// A failed test: let go of the processor until something arrives for us.
void poll_pause(Rank & k) {
	if (has_arrived(k)) return;
	k.st = POLL; k.where = "polling";
	to_main();
}

struct Ev { MsgP m; VmpiRequest * wild; };

// Events that may happen to rank k now.
std::vector<Ev> events_for(int id) {
	std::vector<Ev> v;
	std::map<int, bool> seen;  // per source, messages complete in order
	for (auto & m : W->inflight) if (m->dst == id) v.push_back({m, nullptr});
	Rank & k = W->r[id];
	for (auto * q : k.posted) {
		if (!q->wild) continue;
		std::map<int, bool> s;
		for (auto & m : k.unexpected) {
			if (!tag_ok(q->tag, m->tag) || s[m->src]) continue;
			s[m->src] = true;
			v.push_back({m, q});
		}
		break;   // receives match in post order
	}
	std::stable_sort(v.begin(), v.end(), [](const Ev & a, const Ev & b) {
		if (a.m->src != b.m->src) return a.m->src < b.m->src;
		return a.m->seq < b.m->seq; });
	return v;
}

void happen(Ev e) {
	if (e.wild) {
		Rank & k = W->r[e.m->dst];
		k.posted.remove(e.wild);
		for (auto it = k.unexpected.begin(); it != k.unexpected.end(); ++it)
			if (*it == e.m) { k.unexpected.erase(it); break; }
		do_match(e.m, e.wild);
	}
	MsgP m = e.m;
	W->inflight.remove(m);
	arrive(m);
}

void wake() {
	for (auto & k : W->r) if (k.st == BLOCKED && k.cond()) k.st = READY;
}

void loop() {
	for (;;) {
		if (W->dead) return;
		if (W->res->events > W->o.max_events) {
			W->res->ok = false; W->res->error_kind = "horizon";
			W->res->error = "event horizon exceeded"; W->dead = true; return;
		}
		wake();
		// run whoever can
		bool ran = false, all_done = true;
		for (int j = 0; j < W->n; j++) {
			int i = W->o.rank_order == VMPI_ASC ? j : W->n - 1 - j;
			if (W->r[i].st != DONE) all_done = false;
			if (W->r[i].st == READY) {
				resume(i); ran = true;
				if (W->dead) return;
				break;
			}
		}
		if (all_done) return;
		if (ran) continue;
		// nobody can run: the network moves
		bool moved = false;
		for (int j = 0; j < W->n && !moved; j++) {
			int i = W->o.rank_order == VMPI_ASC ? j : W->n - 1 - j;
			std::vector<Ev> ev = events_for(i);
			if (ev.empty()) continue;
			moved = true;
			if (W->o.order == VMPI_BURST) {
				bool wild_done = false;
				for (auto & e : ev) {
					if (e.wild) { if (wild_done) continue; wild_done = true; }
					happen(e); if (W->dead) return;
				}
			} else {
				int c = 0;
				if (W->o.order == VMPI_ONE && ev.size() > 1)
					c = vmpi_choose((int)ev.size(), "arrival");
				else if (W->o.order == VMPI_LAST)
					c = (int)ev.size() - 1;
				if (W->dead) return;
				happen(ev[c]);
			}
		}
		if (W->dead) return;
		if (moved) continue;
		wake();
		bool any = false;
		for (auto & k : W->r) if (k.st == READY) any = true;
		if (any) continue;
		// pollers may do something else: let each go once per progress
		for (auto & k : W->r) {
			if (k.st == POLL && k.posts_at_free != k.posts) {
				k.posts_at_free = k.posts; k.st = READY; any = true; break;
			}
		}
		if (any) continue;
		std::string s = "no rank can make progress:";
		for (auto & k : W->r)
			s += " [" + std::to_string(k.id) + ": " + (k.st == DONE ? "done" : k.where) + "]";
		W->res->ok = false; W->res->error_kind = "deadlock"; W->res->error = s; W->dead = true;
		return;
	}
}

} // namespace

void vmpi_set_image(char * lo, char * hi) { g_lo = lo; g_hi = hi; }
int vmpi_rank() { return W ? W->cur : -1; }
int vmpi_size() { return W ? W->n : 0; }

int vmpi_choose(int n, const char * what) {
	if (n <= 1) return 0;
	VmpiResult & r = *W->res;
	size_t i = r.taken.size();
	int c = 0;
	if (i < W->o.prefix.size()) {
		c = W->o.prefix[i];
		if (c < 0 || c >= n) {
			r.ok = false; r.error_kind = "engine-divergence";
			r.error = "replayed choice out of range"; W->dead = true;
			return 0;
		}
	}
	r.arity.push_back(n); r.taken.push_back(c); r.what.push_back(what);
	return c;
}

void vmpi_fail(const char * kind, const std::string & msg) {
	if (!W) { fprintf(stderr, "vmpi_fail outside run: %s %s\n", kind, msg.c_str()); abort(); }
	if (W->res->ok) { W->res->ok = false; W->res->error_kind = kind; W->res->error = msg; }
	W->dead = true;
	if (W->cur >= 0) { to_main(); abort(); }
	// called from the scheduler: unwinding the scheduler is done by its caller
	throw 42;
}

void vmpi_run(int n, void (*fn)(int, void *), void * arg, const VmpiOpts & opts, VmpiResult & res) {
	World w; W = &w;
	w.n = n; w.o = opts; w.res = &res; w.fn = fn; w.arg = arg;
	w.r.resize(n);
	w.main_image.resize(g_hi - g_lo);
	memset(w.main_eh, 0, sizeof w.main_eh);
	std::vector<char> before(g_lo, g_hi);
	const size_t SS = 16u << 20;
	for (int i = 0; i < n; i++) {
		Rank & k = w.r[i];
		k.id = i;
		k.image = before;
		memset(k.eh, 0, sizeof k.eh);
		k.stack_sz = SS;
		k.stack = mmap(nullptr, SS, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
		if (opts.stack_fill & 255) memset((char *)k.stack + SS - (4u << 20), opts.stack_fill, 4u << 20);
		if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(k.stack, SS);
		getcontext(&k.ctx);
		k.ctx.uc_stack.ss_sp = k.stack; k.ctx.uc_stack.ss_size = SS; k.ctx.uc_link = nullptr;
		makecontext(&k.ctx, (void(*)())fiber_main, 2, 0, 0);
	}
	try { loop(); } catch (int) {}
	if (res.ok) {
		for (auto & k : w.r) {
			if (k.finalized && (!k.unexpected.empty())) {
				res.ok = false; res.error_kind = "unreceived";
				res.error = "rank " + std::to_string(k.id) + " finalized with " +
					std::to_string(k.unexpected.size()) + " unreceived message(s)";
			}
		}
	}
	for (auto & k : w.r) munmap(k.stack, SS);
	memcpy(g_lo, before.data(), g_hi - g_lo);
	W = nullptr;
}

extern "C" {

int MPI_Init(int *, char ***) { me().inited = true; return 0; }
int MPI_Init_thread(int *, char ***, int, int * p) { me().inited = true; if (p) *p = 0; return 0; }
int MPI_Initialized(int * f) { *f = me().inited; return 0; }
int MPI_Finalized(int * f) { *f = me().finalized; return 0; }
int MPI_Finalize(void) {
	Rank & k = me();
	if (k.finalized) vmpi_fail("mpi-misuse", "MPI_Finalize called twice");
	k.finalized = true;
	return 0;
}
int MPI_Abort(MPI_Comm, int code) {
	vmpi_fail("abort", "rank " + std::to_string(me().id) + " called MPI_Abort(" + std::to_string(code) + ")");
}
int MPI_Comm_rank(MPI_Comm c, int * r) { *r = c == MPI_COMM_SELF ? 0 : me().id; return 0; }
int MPI_Comm_size(MPI_Comm c, int * s) { *s = c == MPI_COMM_SELF ? 1 : W->n; return 0; }
double MPI_Wtime(void) { return 0.0; }
int MPI_Get_processor_name(char * s, int * l) { strcpy(s, "vmpi"); *l = 4; return 0; }
int MPI_Type_size(MPI_Datatype t, int * s) { *s = (int)tsize(t); return 0; }
int MPI_Get_count(const MPI_Status * s, MPI_Datatype t, int * c) {
	size_t z = tsize(t);
	*c = s->vmpi_bytes % z ? MPI_UNDEFINED : (int)(s->vmpi_bytes / z);
	return 0;
}
int MPI_Error_string(int, char * s, int * l) { strcpy(s, "error"); *l = 5; return 0; }

static size_t blen(int n, MPI_Datatype t) {
	if (n < 0) vmpi_fail("mpi-misuse", "negative count");
	return (size_t)n * tsize(t);
}
int MPI_Isend(const void * b, int n, MPI_Datatype t, int d, int tag, MPI_Comm, MPI_Request * r) {
	if (d == MPI_PROC_NULL) { *r = MPI_REQUEST_NULL; return 0; }
	*r = new_send(me(), b, blen(n, t), d, tag);
	return 0;
}
int MPI_Issend(const void * b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request * r) {
	return MPI_Isend(b, n, t, d, tag, c, r);
}
int MPI_Irecv(void * b, int n, MPI_Datatype t, int s, int tag, MPI_Comm, MPI_Request * r) {
	if (s == MPI_PROC_NULL) { *r = MPI_REQUEST_NULL; return 0; }
	*r = make_recv(me(), b, blen(n, t), s, tag);
	return 0;
}
int MPI_Wait(MPI_Request * r, MPI_Status * s) {
	if (*r == MPI_REQUEST_NULL) { fill_empty(s); return 0; }
	check_req(*r);
	VmpiRequest * q = *r;
	block(q->is_send ? "MPI_Wait(send to " + std::to_string(q->peer) + ")"
	                 : "MPI_Wait(recv from " + std::to_string(q->peer) + ")",
	      [q] { return q->arrived; });
	retire(r, s);
	return 0;
}
int MPI_Send(const void * b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
	MPI_Request r; MPI_Isend(b, n, t, d, tag, c, &r); return MPI_Wait(&r, MPI_STATUS_IGNORE);
}
int MPI_Ssend(const void * b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
	return MPI_Send(b, n, t, d, tag, c);
}
int MPI_Recv(void * b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status * st) {
	MPI_Request r; MPI_Irecv(b, n, t, s, tag, c, &r); return MPI_Wait(&r, st);
}
int MPI_Sendrecv(const void * sb, int sn, MPI_Datatype stp, int d, int stag,
                 void * rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status * st) {
	MPI_Request a, b; MPI_Irecv(rb, rn, rt, s, rtag, c, &a); MPI_Isend(sb, sn, stp, d, stag, c, &b);
	MPI_Wait(&b, MPI_STATUS_IGNORE); return MPI_Wait(&a, st);
}
int MPI_Test(MPI_Request * r, int * flag, MPI_Status * s) {
	if (*r == MPI_REQUEST_NULL) { *flag = 1; fill_empty(s); return 0; }
	check_req(*r);
	VmpiRequest * q = *r;
	if (!q->arrived) poll_pause(me());
	if (q->arrived) { *flag = 1; retire(r, s); } else *flag = 0;
	return 0;
}
int MPI_Testany(int n, MPI_Request * r, int * idx, int * flag, MPI_Status * s) {
	bool act = false;
	for (int pass = 0; pass < 2; pass++) {
		for (int i = 0; i < n; i++) if (r[i]) {
			check_req(r[i]); act = true;
			if (r[i]->arrived) { *idx = i; *flag = 1; retire(&r[i], s); return 0; }
		}
		if (!act) { *flag = 1; *idx = MPI_UNDEFINED; fill_empty(s); return 0; }
		if (pass == 0) poll_pause(me());
	}
	*flag = 0; *idx = MPI_UNDEFINED;
	return 0;
}
int MPI_Testall(int n, MPI_Request * r, int * flag, MPI_Status * s) {
	for (int pass = 0; pass < 2; pass++) {
		bool all = true;
		for (int i = 0; i < n; i++) if (r[i]) { check_req(r[i]); if (!r[i]->arrived) all = false; }
		if (all) {
			for (int i = 0; i < n; i++) { if (r[i]) retire(&r[i], s ? &s[i] : nullptr); else if (s) fill_empty(&s[i]); }
			*flag = 1; return 0;
		}
		if (pass == 0) { Rank & k = me(); k.st = POLL; k.where = "polling"; to_main(); }
	}
	*flag = 0;
	return 0;
}
int MPI_Waitany(int n, MPI_Request * r, int * idx, MPI_Status * s) {
	bool act = false;
	for (int i = 0; i < n; i++) if (r[i]) { check_req(r[i]); act = true; }
	if (!act) { *idx = MPI_UNDEFINED; fill_empty(s); return 0; }
	block("MPI_Waitany", [=] { for (int i = 0; i < n; i++) if (r[i] && r[i]->arrived) return true; return false; });
	for (int i = 0; i < n; i++) if (r[i] && r[i]->arrived) { *idx = i; retire(&r[i], s); return 0; }
	return 0;
}
int MPI_Waitsome(int n, MPI_Request * r, int * out, int * idx, MPI_Status * s) {
	bool act = false;
	for (int i = 0; i < n; i++) if (r[i]) { check_req(r[i]); act = true; }
	if (!act) { *out = MPI_UNDEFINED; return 0; }
	block("MPI_Waitsome", [=] { for (int i = 0; i < n; i++) if (r[i] && r[i]->arrived) return true; return false; });
	*out = 0;
	for (int i = 0; i < n; i++) if (r[i] && r[i]->arrived) { idx[*out] = i; retire(&r[i], s ? &s[*out] : nullptr); (*out)++; }
	return 0;
}
int MPI_Testsome(int n, MPI_Request * r, int * out, int * idx, MPI_Status * s) {
	bool act = false, any = false;
	for (int i = 0; i < n; i++) if (r[i]) { check_req(r[i]); act = true; if (r[i]->arrived) any = true; }
	if (!act) { *out = MPI_UNDEFINED; return 0; }
	if (!any) poll_pause(me());
	*out = 0;
	for (int i = 0; i < n; i++) if (r[i] && r[i]->arrived) { idx[*out] = i; retire(&r[i], s ? &s[*out] : nullptr); (*out)++; }
	return 0;
}
int MPI_Waitall(int n, MPI_Request * r, MPI_Status * s) {
	for (int i = 0; i < n; i++) check_req(r[i]);
	block("MPI_Waitall", [=] { for (int i = 0; i < n; i++) if (r[i] && !r[i]->arrived) return false; return true; });
	for (int i = 0; i < n; i++) { if (r[i]) retire(&r[i], s ? &s[i] : nullptr); else if (s) fill_empty(&s[i]); }
	return 0;
}
static MsgP find_unexp(Rank & k, int src, int tag) {
	for (auto & m : k.unexpected) if ((src == MPI_ANY_SOURCE || m->src == src) && tag_ok(tag, m->tag)) return m;
	return MsgP();
}
int MPI_Iprobe(int src, int tag, MPI_Comm, int * flag, MPI_Status * s) {
	Rank & k = me();
	MsgP m = find_unexp(k, src, tag);
	if (!m) { k.st = POLL; k.where = "MPI_Iprobe"; to_main(); m = find_unexp(k, src, tag); }
	*flag = m ? 1 : 0;
	if (m && s) { s->MPI_SOURCE = m->src; s->MPI_TAG = m->tag; s->MPI_ERROR = 0; s->vmpi_bytes = m->len; }
	return 0;
}
int MPI_Probe(int src, int tag, MPI_Comm, MPI_Status * s) {
	Rank & k = me();
	block("MPI_Probe", [&k, src, tag] { return (bool)find_unexp(k, src, tag); });
	MsgP m = find_unexp(k, src, tag);
	if (s) { s->MPI_SOURCE = m->src; s->MPI_TAG = m->tag; s->MPI_ERROR = 0; s->vmpi_bytes = m->len; }
	return 0;
}
int MPI_Request_free(MPI_Request * r) { *r = MPI_REQUEST_NULL; return 0; }
int MPI_Cancel(MPI_Request *) { return 0; }

} // extern "C"

namespace {

template <typename T> void reduce_t(std::vector<char> & acc, const std::vector<char> & in, int n, MPI_Op op) {
	T * a = (T*)acc.data(); const T * b = (const T*)in.data();
	for (int i = 0; i < n; i++) switch (op) {
	case MPI_SUM: a[i] = a[i] + b[i]; break;
	case MPI_MAX: a[i] = a[i] < b[i] ? b[i] : a[i]; break;
	case MPI_MIN: a[i] = b[i] < a[i] ? b[i] : a[i]; break;
	case MPI_PROD: a[i] = a[i] * b[i]; break;
	case MPI_LAND: a[i] = a[i] && b[i]; break;
	case MPI_LOR: a[i] = a[i] || b[i]; break;
	default: vmpi_fail("mpi-misuse", "unsupported reduction");
	}
}
void reduce(std::vector<char> & acc, const std::vector<char> & in, int n, MPI_Datatype t, MPI_Op op) {
	switch (t) {
	case MPI_DOUBLE: reduce_t<double>(acc, in, n, op); break;
	case MPI_FLOAT: reduce_t<float>(acc, in, n, op); break;
	case MPI_INT: reduce_t<int>(acc, in, n, op); break;
	case MPI_LONG: case MPI_LONG_LONG: reduce_t<long>(acc, in, n, op); break;
	case MPI_UNSIGNED: reduce_t<unsigned>(acc, in, n, op); break;
	case MPI_UNSIGNED_LONG: reduce_t<unsigned long>(acc, in, n, op); break;
	case MPI_CHAR: case MPI_BYTE: reduce_t<char>(acc, in, n, op); break;
	default: vmpi_fail("mpi-misuse", "unsupported reduction type");
	}
}

// Joins the next collective of this rank; all ranks must join the same one.
Coll & join(const char * kind, const void * in, size_t len, void * out, int count, int type, int op, int root) {
	Rank & k = me();
	long s = k.coll_seq++;
	k.posts++;
	Coll & c = W->colls[s];
	if (c.joined == 0) {
		c.kind = kind; c.count = count; c.type = type; c.op = op; c.root = root;
		c.in.resize(W->n); c.out.resize(W->n, nullptr); c.here.resize(W->n, false);
		W->res->collectives++;
	} else if (c.kind != kind || c.count != count || c.type != type || c.op != op || c.root != root) {
		vmpi_fail("collective-mismatch", "rank " + std::to_string(k.id) + " calls " + kind + "(count " +
			std::to_string(count) + ", root " + std::to_string(root) + ") where another rank calls " + c.kind +
			"(count " + std::to_string(c.count) + ", root " + std::to_string(c.root) + ")");
	}
	if (in && len) c.in[k.id].assign((const char*)in, (const char*)in + len);
	c.out[k.id] = (char*)out;
	c.here[k.id] = true;
	c.joined++;
	W->res->events++;
	return c;
}
void wait_all(Coll & c, const char * kind) {
	int n = W->n;
	block(kind, [&c, n] { return c.joined == n; });
}
bool sync_mode() { return W->o.data == VMPI_RENDEZVOUS; }

} // namespace

extern "C" {

int MPI_Barrier(MPI_Comm) {
	Coll & c = join("MPI_Barrier", nullptr, 0, nullptr, 0, 0, 0, 0);
	wait_all(c, "MPI_Barrier");
	return 0;
}
int MPI_Reduce(const void * s, void * r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm) {
	Rank & k = me();
	size_t len = blen(n, t);
	if (s == MPI_IN_PLACE && k.id != root) vmpi_fail("mpi-misuse", "MPI_IN_PLACE on a non-root rank of MPI_Reduce");
	const void * in = s == MPI_IN_PLACE ? r : s;
	if (k.id == root && s != MPI_IN_PLACE && s == r && len) vmpi_fail("mpi-misuse", "aliased buffers in MPI_Reduce");
	Coll & c = join("MPI_Reduce", in, len, r, n, t, op, root);
	if (k.id == root || sync_mode()) wait_all(c, "MPI_Reduce");
	if (k.id == root && len) {
		std::vector<char> acc = c.in[0];
		for (int i = 1; i < W->n; i++) reduce(acc, c.in[i], n, t, op);
		memcpy(r, acc.data(), len);
	}
	return 0;
}
int MPI_Allreduce(const void * s, void * r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) {
	size_t len = blen(n, t);
	Coll & c = join("MPI_Allreduce", s == MPI_IN_PLACE ? r : s, len, r, n, t, op, 0);
	wait_all(c, "MPI_Allreduce");
	if (len) {
		std::vector<char> acc = c.in[0];
		for (int i = 1; i < W->n; i++) reduce(acc, c.in[i], n, t, op);
		memcpy(r, acc.data(), len);
	}
	return 0;
}
int MPI_Bcast(void * b, int n, MPI_Datatype t, int root, MPI_Comm) {
	Rank & k = me();
	size_t len = blen(n, t);
	Coll & c = join("MPI_Bcast", k.id == root ? b : nullptr, k.id == root ? len : 0, b, n, t, 0, root);
	if (k.id == root && !sync_mode()) return 0;
	if (sync_mode()) wait_all(c, "MPI_Bcast");
	else block("MPI_Bcast", [&c, root] { return (bool)c.here[root]; });
	if (k.id != root && len) memcpy(b, c.in[root].data(), len);
	return 0;
}
int MPI_Allgather(const void * s, int n, MPI_Datatype t, void * r, int rn, MPI_Datatype rt, MPI_Comm) {
	size_t len = blen(rn, rt);
	Rank & k = me();
	const char * in = s == MPI_IN_PLACE ? (char*)r + k.id * len : (const char*)s;
	Coll & c = join("MPI_Allgather", in, len, r, rn, rt, 0, 0);
	wait_all(c, "MPI_Allgather");
	for (int i = 0; i < W->n; i++) if (len) memcpy((char*)r + i * len, c.in[i].data(), len);
	return 0;
}
int MPI_Gather(const void * s, int n, MPI_Datatype t, void * r, int rn, MPI_Datatype rt, int root, MPI_Comm) {
	Rank & k = me();
	size_t len = s == MPI_IN_PLACE ? blen(rn, rt) : blen(n, t);
	const char * in = s == MPI_IN_PLACE ? (char*)r + k.id * len : (const char*)s;
	Coll & c = join("MPI_Gather", in, len, r, 0, 0, 0, root);
	if (k.id == root || sync_mode()) wait_all(c, "MPI_Gather");
	if (k.id == root) for (int i = 0; i < W->n; i++) if (len) memcpy((char*)r + i * len, c.in[i].data(), len);
	return 0;
}

} // extern "C"
