// C12: data arrays and containers. Explicit state exploration of all operation sequences on two arrays that may share
// memory, against a model of sizes, ownership, kind, location and values; containers over all lists of chunks.
#include "vh.h"
#include <cstdlib>
#include <cstring>
#include <new>
#include <set>
#include <map>
#include <deque>
#include <array>
#include <string>
#include <vector>
#include <algorithm>
#include <memory>
// memory handed out to the arrays is poisoned and followed
static std::map<void *, size_t> * g_live;
static bool g_track = false, g_bad = false;
static void * track_alloc(size_t n) { g_track = false; void * p = (malloc)(n + 16); memset(p, 0xA5, n + 16); if (!g_live) g_live = new std::map<void *, size_t>; (*g_live)[p] = n; g_track = true; return p; }
static void track_free(void * p) {
	if (!p) return; bool t = g_track; g_track = false;
	if (g_live) { auto i = g_live->find(p); if (i != g_live->end()) { unsigned char * q = (unsigned char *)p; for (size_t k = 0; k < 16; k++) if (q[i->second+k] != 0xA5) g_bad = true; memset(p, 0xDD, i->second); g_live->erase(i); } else if (t) g_bad = true; }
	(free)(p); g_track = t;
}
void * operator new[](size_t n) { return g_track ? track_alloc(n) : (malloc)(n ? n : 1); }
void operator delete[](void * p) noexcept { track_free(p); }
void operator delete[](void * p, size_t) noexcept { track_free(p); }
static void * my_malloc(size_t n) { return g_track ? track_alloc(n) : (malloc)(n); }
static void my_free(void * p) { track_free(p); }
#define malloc my_malloc
#define free my_free
#include "DataArray1D.h"
#include "DataArray2D.h"
#include "DataArray3D.h"
#include "DataArray4D.h"
#include "DataStruct.h"
#undef malloc
#undef free
#include "DataContainer.h"

typedef std::array<size_t, 4> Sz;
template <int D, class T> struct Arr;
template <class T> struct Arr<1, T> { typedef DataArray1D<T> A; static A * make(const Sz & s, DataType t, DataLocation l, bool al) { return new A(s[0], t, l, al); } static void alloc(A & a, const Sz & s) { a.Allocate(s[0]); } static void size(A & a, const Sz & s) { a.SetSize(s[0]); } static Sz get(const A & a) { return Sz{a.GetRows(), 1, 1, 1}; } };
template <class T> struct Arr<2, T> { typedef DataArray2D<T> A; static A * make(const Sz & s, DataType t, DataLocation l, bool al) { return new A(s[0], s[1], t, l, al); } static void alloc(A & a, const Sz & s) { a.Allocate(s[0], s[1]); } static void size(A & a, const Sz & s) { a.SetSize(s[0], s[1]); } static Sz get(const A & a) { return Sz{a.GetRows(), a.GetColumns(), 1, 1}; } };
template <class T> struct Arr<3, T> { typedef DataArray3D<T> A; static A * make(const Sz & s, DataType t, DataLocation l, bool al) { return new A(s[0], s[1], s[2], t, l, al); } static void alloc(A & a, const Sz & s) { a.Allocate(s[0], s[1], s[2]); } static void size(A & a, const Sz & s) { a.SetSize(s[0], s[1], s[2]); } static Sz get(const A & a) { return Sz{a.GetRows(), a.GetColumns(), a.GetSubColumns(), 1}; } };
template <class T> struct Arr<4, T> { typedef DataArray4D<T> A; static A * make(const Sz & s, DataType t, DataLocation l, bool al) { return new A(s[0], s[1], s[2], s[3], t, l, al); } static void alloc(A & a, const Sz & s) { a.Allocate(s[0], s[1], s[2], s[3]); } static void size(A & a, const Sz & s) { a.SetSize(s[0], s[1], s[2], s[3]); } static Sz get(const A & a) { return Sz{a.GetSize(0), a.GetSize(1), a.GetSize(2), a.GetSize(3)}; } };
// every way to reach element (i,j,k,l) gives the same address
template <class T> static const char * access(DataArray1D<T> & a, T * p) { const DataArray1D<T> & c = a; for (size_t i = 0; i < a.GetRows(); i++) { T * q = p+i; if (&a[i] != q || &c[i] != q || &a(i) != q || &c(i) != q) return "element"; } return (T *)a == p && (const T *)c == p ? 0 : "pointer"; }
template <class T> static const char * access(DataArray2D<T> & a, T * p) {
	const DataArray2D<T> & c = a; typedef index_array<std::ptrdiff_t, 1> I1; typedef index_array<std::ptrdiff_t, 2> I2;
	for (size_t i = 0; i < a.GetRows(); i++) { T * r = p+i*a.GetColumns(); if (a(i) != r || c(i) != r || (T *)a[i] != r || (const T *)c[i] != r || a(I1{{(std::ptrdiff_t)i}}) != r || c(I1{{(std::ptrdiff_t)i}}) != r) return "row";
	for (size_t j = 0; j < a.GetColumns(); j++) { T * q = r+j; I2 x{{(std::ptrdiff_t)i, (std::ptrdiff_t)j}}; if (&a[i][j] != q || &c[i][j] != q || &a(i,j) != q || &c(i,j) != q || &a(x) != q || &c(x) != q) return "element"; } }
	return 0;
}
template <class T> static const char * access(DataArray3D<T> & a, T * p) {
	const DataArray3D<T> & c = a; typedef index_array<std::ptrdiff_t, 2> I2; typedef index_array<std::ptrdiff_t, 3> I3; size_t J = a.GetColumns(), K = a.GetSubColumns();
	for (size_t i = 0; i < a.GetRows(); i++) for (size_t j = 0; j < J; j++) { T * r = p+(i*J+j)*K; I2 y{{(std::ptrdiff_t)i, (std::ptrdiff_t)j}};
		if (a(i,j) != r || c(i,j) != r || (T *)a[i][j] != r || (const T *)c[i][j] != r || a(y) != r || c(y) != r) return "row";
		for (size_t k = 0; k < K; k++) { T * q = r+k; I3 x{{(std::ptrdiff_t)i, (std::ptrdiff_t)j, (std::ptrdiff_t)k}}; if (&a[i][j][k] != q || &c[i][j][k] != q || &a(i,j,k) != q || &c(i,j,k) != q || &a(x) != q || &c(x) != q) return "element"; } }
	for (int d = 0; d < 3; d++) if (a.GetSize(d) != Sz{a.GetRows(), J, K, 1}[d]) return "GetSize";
	return 0;
}
template <class T> static const char * access(DataArray4D<T> & a, T * p) {
	const DataArray4D<T> & c = a; typedef index_array<std::ptrdiff_t, 3> I3; typedef index_array<std::ptrdiff_t, 4> I4; size_t J = a.GetSize(1), K = a.GetSize(2), L = a.GetSize(3);
	for (size_t i = 0; i < a.GetSize(0); i++) for (size_t j = 0; j < J; j++) for (size_t k = 0; k < K; k++) { T * r = p+((i*J+j)*K+k)*L; I3 y{{(std::ptrdiff_t)i, (std::ptrdiff_t)j, (std::ptrdiff_t)k}};
		if (a(i,j,k) != r || c(i,j,k) != r || (T *)a[i][j][k] != r || (const T *)c[i][j][k] != r || a(y) != r || c(y) != r) return "row";
		for (size_t l = 0; l < L; l++) { T * q = r+l; I4 x{{(std::ptrdiff_t)i, (std::ptrdiff_t)j, (std::ptrdiff_t)k, (std::ptrdiff_t)l}}; if (&a[i][j][k][l] != q || &c[i][j][k][l] != q || &a(i,j,k,l) != q || &c(i,j,k,l) != q || &a(x) != q || &c(x) != q) return "element"; } }
	return 0;
}
template <class T> static T * data(DataArray1D<T> & a) { return (T *)a; }
template <class T> static T * data(DataArray2D<T> & a) { return a(0); }
template <class T> static T * data(DataArray3D<T> & a) { return a(0,0); }
template <class T> static T * data(DataArray4D<T> & a) { return a(0,0,0); }

static const int CAP = 64; // elements in an external buffer
template <class T> struct Model {
	struct Obj { bool att = false; int ext = -1; Sz s; int type = DataType_Default, loc = DataLocation_Default; std::vector<T> own; };
	Obj o[2]; std::vector<T> buf[2];
	static size_t tot(const Sz & s) { return s[0]*s[1]*s[2]*s[3]; }
	std::vector<T> & val(int i) { return o[i].ext >= 0 ? buf[o[i].ext] : o[i].own; }
	std::string key() const {
		std::string k; for (int i = 0; i < 2; i++) { const Obj & x = o[i]; k += vh::fmt("%d%d.%zu,%zu,%zu,%zu.%d.%d:", x.att, x.ext, x.s[0], x.s[1], x.s[2], x.s[3], x.type, x.loc); k.append((const char *)x.own.data(), x.own.size()*sizeof(T)); k += "|"; }
		for (int b = 0; b < 2; b++) k.append((const char *)buf[b].data(), buf[b].size()*sizeof(T)); return k;
	}
};
enum Op { ALLOC0, ALLOC1, ALLOCKEEP, ALLOCPART, SIZE0, SIZE1, ATT0, ATT1, DETACH, DEALLOC, ZERO, SCALE, FILL, ADD, ADDSELF, ASSIGN, ASSIGNSELF, COPY, MAKE, MAKENO, TYPE, LOC, NOPS };
static const char * NAME[] = {"Allocate(s0)", "Allocate(s1)", "Allocate()", "Allocate(s1[0])", "SetSize(s0)", "SetSize(s1)", "AttachToData(0)", "AttachToData(1)", "Detach", "Deallocate", "Zero", "Scale", "fill", "AddProduct(other)", "AddProduct(self)", "=other", "=self", "copy of other", "new(s0)", "new(s1, unallocated)", "SetDataType", "SetDataLocation"};

template <int D, class T> struct Run {
	typedef typename Arr<D,T>::A A; typedef Model<T> M;
	// one element type sees two shapes of equal volume, the others of different volume
	static Sz size(int k) { Sz a[2] = {{2,3,1,2}, {3,2,1,2}}; if (sizeof(T) != 8) a[1] = Sz{3,1,3,2}; Sz s = a[k]; if (D == 1) s[0] = k ? 5 : 2; for (int d = D; d < 4; d++) s[d] = 1; return s; }
	A * a[2]; std::vector<unsigned char> raw[2]; M m; std::string bad;
	static const size_t G = 32;
	T * ext(int b) { return (T *)(raw[b].data() + G); }
	Run() { for (int b = 0; b < 2; b++) { raw[b].assign(2*G + CAP*sizeof(T) + 16, 0xC3); m.buf[b].assign(CAP, T(0)); for (int i = 0; i < CAP; i++) { m.buf[b][i] = T(b ? 7+i : 40+2*i); ext(b)[i] = m.buf[b][i]; } }
		g_bad = false; g_track = true; for (int i = 0; i < 2; i++) { a[i] = new A(); m.o[i].s = Sz{0,0,0,0}; for (int d = D; d < 4; d++) m.o[i].s[d] = 1; } g_track = true; }
	~Run() { for (int i = 0; i < 2; i++) delete a[i]; g_track = false; if (g_live) for (auto & x : *g_live) (free)(x.first); if (g_live) g_live->clear(); }
	bool real(int i, Op op) {
		A & x = *a[i]; A & y = *a[1-i];
		try { switch (op) {
			case ALLOC0: Arr<D,T>::alloc(x, size(0)); break; case ALLOC1: Arr<D,T>::alloc(x, size(1)); break; case ALLOCKEEP: x.Allocate(); break; case ALLOCPART: x.Allocate(size(1)[0]); break;
			case SIZE0: Arr<D,T>::size(x, size(0)); break; case SIZE1: Arr<D,T>::size(x, size(1)); break;
			case ATT0: x.AttachToData(ext(0)); break; case ATT1: x.AttachToData(ext(1)); break; case DETACH: x.Detach(); break; case DEALLOC: x.Deallocate(); break;
			case ZERO: x.Zero(); break; case SCALE: x.Scale(T(3)); break; case FILL: { size_t n = x.GetTotalSize(); T * p = data(x); for (size_t k = 0; k < n; k++) p[k] = T(1+i*50+k); break; }
			case ADD: x.AddProduct(y, T(2)); break; case ADDSELF: x.AddProduct(x, T(2)); break; case ASSIGN: { A & r = (x = y); if (&r != &x) bad = "= does not return the array"; break; } case ASSIGNSELF: { A & z = x; x = z; break; }
			case COPY: { A * n = new A(y); delete a[i]; a[i] = n; break; }
			case MAKE: { A * n = Arr<D,T>::make(size(0), DataType_Tracers, DataLocation_REdge, true); delete a[i]; a[i] = n; break; }
			case MAKENO: { A * n = Arr<D,T>::make(size(1), DataType_Jacobian, DataLocation_Node, false); delete a[i]; a[i] = n; break; }
			case TYPE: x.SetDataType(DataType_Tracers); break; case LOC: x.SetDataLocation(DataLocation_REdge); break; default: break;
		} } catch (Exception &) { return false; } return true;
	}
	static bool usable(const M & m, int i, Op op) { if (op == ATT0 || op == ATT1) return M::tot(m.o[i].s) > 0; return op != FILL || m.o[i].att; }
	// what must happen; false: refused with an exception and nothing changes
	static bool model(M & m, int i, Op op) {
		auto & x = m.o[i]; auto & y = m.o[1-i];
		auto alloc = [&](Sz s) -> bool { if (x.ext >= 0) return false; for (int d = 0; d < D; d++) if (s[d] == 0) s[d] = x.s[d]; for (int d = 0; d < 4; d++) if (s[d] == 0) return false; x.s = s; x.att = true; x.own.assign(M::tot(s), T(0)); return true; };
		auto assign = [&]() -> bool {
			if (!y.att) { if (x.att) return false; x.s = y.s; x.type = y.type; x.loc = y.loc; return true; }
			if (x.ext >= 0) { if (x.s != y.s || x.type != y.type || x.loc != y.loc) return false; }
			else { if (M::tot(y.s) == 0) { if (!x.att) return false; } x.s = y.s; x.type = y.type; x.loc = y.loc; if (!x.att || x.own.size() != M::tot(y.s)) x.own.assign(M::tot(y.s), T(0)); x.att = true; }
			std::vector<T> v = m.val(1-i); for (size_t k = 0; k < M::tot(x.s); k++) m.val(i)[k] = v[k]; return true;
		};
		auto fresh = [&]() { x = typename M::Obj(); x.s = Sz{0,0,0,0}; for (int d = D; d < 4; d++) x.s[d] = 1; };
		Sz zero{0,0,0,0}; for (int d = D; d < 4; d++) zero[d] = 1;
		size_t n = M::tot(x.s);
		switch (op) {
			case ALLOC0: return alloc(size(0)); case ALLOC1: return alloc(size(1)); case ALLOCKEEP: return alloc(zero); case ALLOCPART: { Sz s = zero; s[0] = size(1)[0]; return alloc(s); }
			case SIZE0: case SIZE1: if (x.att) return false; x.s = size(op == SIZE1); return true;
			case ATT0: case ATT1: if (x.att) return false; x.att = true; x.ext = op == ATT1; x.own.clear(); return true;
			case DETACH: x.att = false; x.ext = -1; x.own.clear(); return true; case DEALLOC: if (x.ext >= 0) return false; x.att = false; x.own.clear(); return true;
			case ZERO: if (!x.att) return false; for (size_t k = 0; k < n; k++) m.val(i)[k] = T(0); return true;
			case SCALE: if (!x.att) return false; for (size_t k = 0; k < n; k++) m.val(i)[k] *= T(3); return true;
			case FILL: for (size_t k = 0; k < n; k++) m.val(i)[k] = T(1+i*50+k); return true;
			case ADD: { if (!x.att || !y.att || x.s != y.s) return false; for (size_t k = 0; k < n; k++) m.val(i)[k] += T(2)*m.val(1-i)[k]; return true; }
			case ADDSELF: if (!x.att) return false; for (size_t k = 0; k < n; k++) m.val(i)[k] += T(2)*m.val(i)[k]; return true;
			case ASSIGN: return assign(); case ASSIGNSELF: return true;
			case COPY: { typename M::Obj old = x; fresh(); if (!assign()) { x = old; return false; } return true; }
			case MAKE: fresh(); x.type = DataType_Tracers; x.loc = DataLocation_REdge; return alloc(size(0));
			case MAKENO: fresh(); x.type = DataType_Jacobian; x.loc = DataLocation_Node; x.s = size(1); return true;
			case TYPE: x.type = DataType_Tracers; return true; case LOC: x.loc = DataLocation_REdge; return true; default: return true;
		}
	}
	// bytes that fill the last word of an attached array are anything
	void pads(int i) { if (m.o[i].ext < 0) return; size_t n = M::tot(m.o[i].s); for (size_t k = n; k*sizeof(T) < (n*sizeof(T)+7)/8*8; k++) m.buf[m.o[i].ext][k] = ext(m.o[i].ext)[k]; }
	std::string compare() {
		for (int i = 0; i < 2; i++) {
			auto & x = m.o[i]; A & r = *a[i]; size_t n = M::tot(x.s);
			if (r.IsAttached() != x.att) return vh::fmt("array %d is %sattached", i, x.att ? "not " : "");
			if (Arr<D,T>::get(r) != x.s) return vh::fmt("array %d has the wrong size", i);
			if (r.GetTotalSize() != n) return vh::fmt("array %d: GetTotalSize %zu instead of %zu", i, r.GetTotalSize(), n);
			size_t by = (n*sizeof(T) + sizeof(size_t)-1)/sizeof(size_t)*sizeof(size_t); if (r.GetByteSize() != by) return vh::fmt("array %d: GetByteSize %zu instead of %zu", i, r.GetByteSize(), by);
			if (r.GetDataType() != x.type || r.GetDataLocation() != x.loc) return vh::fmt("array %d has type %d, location %d instead of %d, %d", i, (int)r.GetDataType(), (int)r.GetDataLocation(), x.type, x.loc);
			if (!x.att) continue;
			T * p = data(r); if (n && (x.ext >= 0) != (p == ext(0) || p == ext(1))) return vh::fmt("array %d lies in the wrong memory", i);
			if (x.ext >= 0 && p != ext(x.ext)) return vh::fmt("array %d does not use the memory it was attached to", i);
			if (x.ext < 0 && n && m.o[1-i].att && m.o[1-i].ext < 0 && p == data(*a[1-i])) return "two arrays own the same memory";
			for (size_t k = 0; k < n; k++) if (!(p[k] == m.val(i)[k])) return vh::fmt("array %d element %zu is %.17g instead of %.17g", i, k, (double)p[k], (double)m.val(i)[k]);
			if (n) if (const char * w = access(r, p)) return vh::fmt("array %d: %s access reaches the wrong place", i, w);
		}
		for (int b = 0; b < 2; b++) { // external memory: values beyond any chunk, and guards, stay
			for (size_t k = 0; k < G; k++) if (raw[b][k] != 0xC3 || raw[b][raw[b].size()-1-k] != 0xC3) return "external memory overrun";
			for (int k = 0; k < CAP; k++)
				if (!(ext(b)[k] == m.buf[b][k])) return vh::fmt("external memory %d element %d is %.17g instead of %.17g", b, k, (double)ext(b)[k], (double)m.buf[b][k]);
		}
		if (g_bad) return "memory overrun or freed twice";
		size_t live = 0; for (int i = 0; i < 2; i++) live += m.o[i].att && m.o[i].ext < 0; if (g_live && g_live->size() > live) return vh::fmt("%zu blocks of memory in use for %zu arrays that own data", g_live->size(), live);
		return bad;
	}
	// path of (array, op): replayed on fresh arrays, compared at the end (or after each step)
	static bool follow(vh::Ctx & c, const std::vector<int> & path, bool every, M * out) {
		Run r;
		for (size_t s = 0; s < path.size(); s++) {
			int i = path[s] / NOPS; Op op = Op(path[s] % NOPS); if (!usable(r.m, i, op)) return false;
			bool ok = r.real(i, op), want = model(r.m, i, op); std::string e; r.pads(i);
			if (ok != want) e = ok ? "was not refused" : "was refused"; else if (every || s+1 == path.size()) e = r.compare();
			if (!e.empty()) { std::string t; for (size_t q = 0; q <= s; q++) t += vh::fmt("%s%c.%s", q ? "; " : "", "AB"[path[q]/NOPS], NAME[path[q]%NOPS]); c.viol(vh::fmt("%dD %s %s", D, NAME[op], e.substr(0, 30).c_str()), t + ": " + e); return false; }
		}
		if (out) *out = r.m; return true;
	}
	static void all(vh::Ctx & c, int first, int depth) { // every sequence
		std::vector<int> p{first};
		std::function<void()> rec = [&]() { if (c.nviol > 20) return; c.count("evaluations"); if (!follow(c, p, false, 0)) return; c.count("distinct_nontrivial"); if ((int)p.size() == depth) return; for (int k = 0; k < 2*NOPS; k++) { p.push_back(k); rec(); p.pop_back(); } };
		rec();
	}
	static void states(vh::Ctx & c, int depth, size_t cap) { // breadth first over distinct model states
		std::set<std::string> seen; std::deque<std::vector<int>> q; q.push_back({}); M m0; { Run r; m0 = r.m; } seen.insert(m0.key());
		while (!q.empty() && c.nviol < 20) { std::vector<int> p = q.front(); q.pop_front();
			for (int k = 0; k < 2*NOPS; k++) { std::vector<int> n = p; n.push_back(k); M m; c.count("evaluations"); c.count("transitions"); if (!follow(c, n, false, &m)) continue; if (seen.insert(m.key()).second) { c.count("distinct_nontrivial"); c.count("states"); if ((int)n.size() < depth && seen.size() < cap) q.push_back(n); } } }
	}
};

// --- containers ---
struct Rec { double a; int b; char c; };
struct Chunk { DataChunk * c; size_t bytes; std::function<void(unsigned)> write; std::function<bool(unsigned)> check; std::function<void*()> at; };
template <class A> static Chunk arr(A * a, size_t n) { typedef typename A::ValueType T; return Chunk{a, (n*sizeof(T)+7)/8*8, [=](unsigned s) { T * p = data(*a); for (size_t k = 0; k < n; k++) p[k] = T((s*31+k*7) % 120 + 1); }, [=](unsigned s) { T * p = data(*a); for (size_t k = 0; k < n; k++) if (p[k] != (s ? T((s*31+k*7) % 120 + 1) : T(0))) return false; return true; }, [=]() { return (void *)data(*a); }}; }
template <class T> static Chunk str(DataStruct<T> * a) { return Chunk{a, (sizeof(T)+7)/8*8, [=](unsigned s) { *a = T(s % 2); }, [=](unsigned s) { T v = *a; return v == T(s % 2); }, [=]() { return (void *)0; }}; }
static Chunk chunk(int kind, std::vector<std::shared_ptr<DataChunk>> & keep) {
	auto k = [&](auto * p) { keep.push_back(std::shared_ptr<DataChunk>(p)); return p; };
	switch (kind) {
		case 0: return arr(k(new DataArray1D<double>(3, DataType_Default, DataLocation_Default, false)), 3);
		case 1: return arr(k(new DataArray1D<unsigned char>(5, DataType_Default, DataLocation_Default, false)), 5);
		case 2: return arr(k(new DataArray2D<int>(3, 3, DataType_Default, DataLocation_Default, false)), 9);
		case 3: return arr(k(new DataArray3D<double>(2, 3, 2, DataType_Default, DataLocation_Default, false)), 12);
		case 4: return arr(k(new DataArray4D<float>(3, 1, 1, 3, DataType_Default, DataLocation_Default, false)), 9);
		case 5: return str(k(new DataStruct<int>()));
		case 6: return str(k(new DataStruct<bool>()));
		case 7: return str(k(new DataStruct<double>()));
		default: return arr(k(new DataArray3D<unsigned char>(1, 2, 3, DataType_Default, DataLocation_Default, false)), 6);
	}
}
static void container(vh::Ctx & c, const std::vector<int> & kinds, int depth) {
	enum { AL, AT0, AT1, DET, DEA, WR, RT, N }; static const char * nm[] = {"Allocate", "AttachTo(0)", "AttachTo(1)", "Detach", "Deallocate", "write", "copy block"};
	std::vector<int> p; std::string kn; for (int k : kinds) kn += vh::fmt("%d", k);
	std::function<void()> rec = [&]() {
		{
			std::vector<std::shared_ptr<DataChunk>> keep, keep2; std::vector<Chunk> ch, ch2; DataContainer d, d2; size_t total = 0; std::string e;
			for (size_t i = 0; i < kinds.size(); i++) { ch.push_back(chunk(kinds[i], keep)); ch2.push_back(chunk(kinds[i], keep2)); if (d.PushDataChunk(ch[i].c) != i) e = "PushDataChunk index"; d2.PushDataChunk(ch2[i].c); total += ch[i].bytes; }
			std::vector<double> raw[2]; for (auto & b : raw) b.assign(total/8+8, -7.25); std::vector<unsigned> seed[3]; for (auto & s : seed) s.assign(kinds.size(), 0); // what each memory holds: own, 0, 1
			for (int b = 0; b < 2; b++) { d2.AttachTo((unsigned char *)&raw[b][4]); for (size_t i = 0; i < kinds.size(); i++) { seed[1+b][i] = 11*(b+1)+i; ch2[i].write(seed[1+b][i]); } d2.Detach(); }
			int at = -1; unsigned serial = 100;
			for (size_t s = 0; s < p.size() && e.empty(); s++) {
				c.count("transitions"); bool ok = true, want = true;
				try { switch (p[s]) {
					case AL: want = at < 0; if (want) { at = 0; seed[0].assign(kinds.size(), 0); } d.Allocate(); break;
					case AT0: case AT1: want = at < 0; if (want) at = p[s]-AT0+1; d.AttachTo((unsigned char *)&raw[p[s]-AT0][4]); break;
					case DET: at = -1; d.Detach(); break; case DEA: at = -1; d.Deallocate(); break;
					case WR: if (at < 0) return; for (size_t i = 0; i < kinds.size(); i++) { seed[at][i] = serial++; ch[i].write(seed[at][i]); } break;
					case RT: { if (at < 0) return; d2.Allocate(); memcpy(d2.GetPointer(), d.GetPointer(), d.GetTotalByteSize()); for (size_t i = 0; i < kinds.size(); i++) if (!ch2[i].check(seed[at][i])) e = vh::fmt("chunk %zu is not carried by a copy of the block", i); d2.Deallocate(); break; }
				} } catch (Exception &) { ok = false; }
				if (ok != want) { e = ok ? "was not refused" : "was refused"; break; }
				if (d.GetTotalByteSize() != total) e = vh::fmt("GetTotalByteSize %zu instead of %zu", d.GetTotalByteSize(), total);
				if (d.IsAttached() != (at >= 0)) e = "attachment"; unsigned char * q = d.GetPointer();
				if ((at < 0) != (q == NULL) || (at > 0 && q != (unsigned char *)&raw[at-1][4])) e = "GetPointer";
				for (size_t i = 0; i < kinds.size() && e.empty(); i++) { if (ch[i].c->IsAttached() != (at >= 0)) { e = vh::fmt("chunk %zu attachment", i); break; } if (at < 0) continue;
					if (void * a = ch[i].at()) if (a != q) e = vh::fmt("chunk %zu does not follow the one before", i); q += ch[i].bytes; if (!ch[i].check(seed[at][i])) e = vh::fmt("chunk %zu holds other values", i); }
			}
			if (at >= 0) d.Detach();
			for (int b = 0; b < 2 && e.empty(); b++) { for (int k = 0; k < 4; k++) if (raw[b][k] != -7.25 || raw[b][raw[b].size()-1-k] != -7.25) e = "memory beyond the block was written"; d2.AttachTo((unsigned char *)&raw[b][4]); for (size_t i = 0; i < kinds.size(); i++) if (!ch2[i].check(seed[1+b][i])) e = vh::fmt("memory %d: chunk %zu changed", b, i); d2.Detach(); }
			c.count("evaluations"); c.count("distinct_nontrivial");
			if (!e.empty()) { std::string t; for (int x : p) t += std::string(" ") + nm[x]; c.viol("container " + e.substr(0, 30), "chunks " + kn + ":" + t + ": " + e); return; }
		}
		if ((int)p.size() == depth) return; for (int k = 0; k < N; k++) { p.push_back(k); rec(); p.pop_back(); }
	};
	rec();
}

template <int D, class T> static void jobs(vh::Registry & r, const char * t) {
	for (int f = 0; f < 2*NOPS; f++) { int dep = r.thorough ? 4 : 3; r.add(vh::fmt("all-%dd-%s-%c-%d", D, t, "AB"[f/NOPS], f%NOPS), [=](vh::Ctx & c) { Run<D,T>::all(c, f, dep); }, 600); }
	int dep = r.thorough ? 6 : 5; size_t cap = r.thorough ? 40000 : 6000; r.add(vh::fmt("states-%dd-%s", D, t), [=](vh::Ctx & c) { Run<D,T>::states(c, dep, cap); }, 800);
}
void vh_jobs(vh::Registry & r) {
	jobs<1,double>(r, "double"); jobs<2,double>(r, "double"); jobs<3,double>(r, "double"); jobs<4,double>(r, "double");
	jobs<1,unsigned char>(r, "byte"); jobs<2,int>(r, "int"); jobs<3,unsigned char>(r, "byte"); jobs<4,float>(r, "float");
	bool T = r.thorough; int nk = 9;
	for (int a = 0; a < nk; a++) for (int b = -1; b < nk; b++) r.add(vh::fmt("container-%d%d", a, b), [=](vh::Ctx & c) { if (b < 0) { container(c, {a}, T ? 6 : 5); return; } container(c, {a, b}, T ? 5 : 4); for (int d = 0; d < nk; d++) { container(c, {a, b, d}, T ? 5 : 3); if (T) for (int e = 0; e < nk; e++) container(c, {a, b, d, e}, 3); } }, 600);
}
