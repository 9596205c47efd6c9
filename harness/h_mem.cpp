// Harness "mem": the library compiled with the compiler's thread-sanitizer callbacks, linked with this
// runtime instead of the sanitizer's.  It records, per synchronisation step, thread and object, which
// words were read, which were written, and which were read before the same thread wrote them in that
// step.  It judges nothing: spec/TraceMem.tla does.  Micro-kernels are stand-ins that report the
// accesses the real ones make (two strips read, one tile read and written; see C11).
#include "hcommon.h"
#include <new>

extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
int __real_posix_memalign(void**, size_t, size_t); void* __real_aligned_alloc(size_t, size_t); void __real_free(void*);
FILE* __real_popen(const char*, const char*); int __real_pclose(FILE*);
void* __real_memset(void*, int, size_t); void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t);
extern char __data_start, _end;
}

enum { RD = 1, WR = 2, EX = 4 };
struct Obj { int id; const char* kind; char* p; size_t n; bool live; size_t unit; char* map; size_t len; };
struct Acc { int thr, obj; std::vector<long> r, w, x; };
struct Step { std::vector<std::string> pre, post; std::vector<Acc> acc; bool par; };
static const size_t RED = 1 << 18;              // distance kept between objects

struct Thr {
	int id; int bars; bool crit; char *slo, *shi; Obj* last;
	std::map<int, std::vector<unsigned char>>* sh;     // bytes of an object
	std::map<size_t, unsigned char> *stk, *glb;        // bytes of the caller's stack, of globals
	std::vector<Acc>* oob;
	bool touched;
};
static bool on = false;
static volatile bool inpar = false;
static int base_ep = 0;
static std::map<int, Step>* steps;
static std::vector<Obj*>* objs;
static std::map<char*, Obj*>* byaddr;
static std::vector<Thr*>* thrs;
static Thr* master;
static pthread_rwlock_t rw = PTHREAD_RWLOCK_INITIALIZER;
static pthread_mutex_t lk = PTHREAD_MUTEX_INITIALIZER;
static __thread Thr* me = NULL;
static __thread int rt = 0;                     // inside this runtime

struct In { In() { rt++; } ~In() { rt--; } };

static Thr* self() {
	if(me) return me;
	Thr* t = new Thr(); t->sh = new std::map<int, std::vector<unsigned char>>; t->stk = new std::map<size_t, unsigned char>; t->glb = new std::map<size_t, unsigned char>; t->oob = new std::vector<Acc>;
	pthread_attr_t a; void* lo; size_t n; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &lo, &n); pthread_attr_destroy(&a);
	t->slo = (char*) lo; t->shi = t->slo + n; t->last = NULL; t->bars = 0; t->crit = false; t->touched = false; t->id = 0;
	pthread_mutex_lock(&lk); thrs->push_back(t); pthread_mutex_unlock(&lk);
	return me = t;
}
static int tid() { return omp_get_level() ? omp_get_ancestor_thread_num(1) : 0; }

static void mark(unsigned char& f, int how) {
	if(how == RD) { if(!(f & WR)) f |= EX; f |= RD; }
	else f |= how;
}
static void access(const void* a, size_t n, int how) {
	if(!on || rt || !n) return;
	In in; Thr* t = self(); char* p = (char*) a;
	if(!t->touched) { t->touched = true; t->id = tid(); }
	if(p >= t->slo && p < t->shi && !(t == master && inpar)) return;
	if(p >= master->slo && p < master->shi) {
		if(!inpar) return;
		for(size_t i = 0; i < n; i++) mark((*t->stk)[p + i - master->slo], how);
		return;
	}
	if(p >= &__data_start && p < &_end) {
		if(inpar) for(size_t i = 0; i < n; i++) mark((*t->glb)[p + i - &__data_start], how);
		return;
	}
	Obj* o = t->last;
	if(!o || p < o->p - RED/2 || p >= o->p + o->n + RED/2) {
		o = NULL;
		pthread_rwlock_rdlock(&rw);
		auto it = byaddr->upper_bound(p);
		if(it != byaddr->begin()) { auto j = it; --j; Obj* q = j->second; if(p < q->p + q->n + RED/2) o = q; }
		if(!o && it != byaddr->end() && p >= it->second->p - RED/2) o = it->second;
		pthread_rwlock_unlock(&rw);
		if(!o) return;                           // not an object of the call
		t->last = o;
	}
	long off = p - o->p;
	if(off < 0 || off + (long) n > (long) o->n || !o->live) {
		if(t->oob->size() < 64) {
			Acc x; x.thr = t->id; x.obj = o->id;
			std::vector<long>& v = how == WR ? x.w : x.r;
			v.push_back(off); v.push_back(off + n - 1);
			t->oob->push_back(x);
		}
		return;
	}
	if(off % 4 || n % 4) o->unit = 1;
	std::vector<unsigned char>& s = (*t->sh)[o->id];
	if(s.empty()) s.resize(o->n);
	for(size_t i = 0; i < n; i++) mark(s[off + i], how);
}

// what a thread did since its last synchronisation goes to step `e`
static void spans(const std::vector<unsigned char>& s, int bit, std::vector<long>& out) {
	for(size_t i = 0; i < s.size(); ) {
		if(!(s[i] & bit)) { i++; continue; }
		size_t j = i;
		while(j < s.size() && (s[j] & bit)) j++;
		out.push_back(i); out.push_back(j - 1);
		i = j;
	}
}
static void mspans(const std::map<size_t, unsigned char>& s, int bit, std::vector<long>& out) {
	for(auto& q : s) {
		if(!(q.second & bit)) continue;
		if(!out.empty() && out.back() + 1 == (long) q.first) out.back() = q.first;
		else { out.push_back(q.first); out.push_back(q.first); }
	}
}
static void flush_thread(Thr* t, int e, bool par) {
	Step* s; pthread_mutex_lock(&lk); s = &(*steps)[e]; s->par = s->par || par;
	int id = t->crit ? 1000 : t->id;
	for(auto& q : *t->sh) {
		if(q.second.empty()) continue;
		Acc a; a.thr = id; a.obj = q.first; spans(q.second, RD, a.r); spans(q.second, WR, a.w); spans(q.second, EX, a.x);
		q.second.clear();
		if(!a.r.empty() || !a.w.empty()) s->acc.push_back(a);
	}
	if(!t->stk->empty()) { Acc a; a.thr = id; a.obj = -1; mspans(*t->stk, RD, a.r); mspans(*t->stk, WR, a.w); s->acc.push_back(a); t->stk->clear(); }
	if(!t->glb->empty()) { Acc a; a.thr = id; a.obj = -2; mspans(*t->glb, RD, a.r); mspans(*t->glb, WR, a.w); s->acc.push_back(a); t->glb->clear(); }
	for(auto& a : *t->oob) s->acc.push_back(a);
	t->oob->clear();
	t->touched = false;
	pthread_mutex_unlock(&lk);
}
static int cur(Thr* t) { return base_ep + (inpar ? t->bars : 0); }
static void serial_cut() { if(on && !inpar) { In in; flush_thread(self(), base_ep, false); base_ep++; } }
static void par_begin() { if(on && !inpar) { In in; flush_thread(self(), base_ep, false); base_ep++; for(auto t : *thrs) t->bars = 0; inpar = true; } }
static void par_end() {
	In in; int b = 0;
	for(auto t : *thrs) b = std::max(b, t->bars);
	for(auto t : *thrs) flush_thread(t, cur(t), true);
	inpar = false; base_ep += b + 1;
	for(auto t : *thrs) t->bars = 0;
}
static void barrier_point() { if(on && inpar && !rt) { In in; Thr* t = self(); flush_thread(t, cur(t), true); t->bars++; } }
static void crit(bool b) { if(on && inpar && !rt) { In in; Thr* t = self(); flush_thread(t, cur(t), true); t->crit = b; if(b) { t->touched = true; t->id = tid(); } } }

// ---- objects
static Obj* new_obj(const char* kind, size_t n, size_t align, int fill) {
	In in; Obj* o = new Obj();
	size_t len = (n + 2*RED + align + 4095)/4096*4096;
	o->map = (char*) mmap(NULL, len, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); o->len = len;
	if(o->map == MAP_FAILED) { fprintf(stderr, "mmap failed\n"); _exit(90); }
	char* q = o->map + RED; q = (char*) (((size_t) q + align - 1)/align*align);
	o->p = q; o->n = n; o->kind = kind; o->live = true; o->unit = 4;
	if(n % 4) o->unit = 1;
	__real_memset(q - 256, 0xFF, 256); __real_memset(q + n, 0xFF, 256);
	if(fill >= 0) __real_memset(q, fill, n);
	pthread_rwlock_wrlock(&rw); o->id = objs->size(); objs->push_back(o); (*byaddr)[o->p] = o; pthread_rwlock_unlock(&rw);
	return o;
}
static void ev_pre(int e, const std::string& s) { pthread_mutex_lock(&lk); (*steps)[e].pre.push_back(s); pthread_mutex_unlock(&lk); }
static void ev_post(int e, const std::string& s) { pthread_mutex_lock(&lk); (*steps)[e].post.push_back(s); pthread_mutex_unlock(&lk); }
static void* track(size_t n, size_t align, bool zero) {
	serial_cut(); In in; Thr* t = self();
	Obj* o = new_obj("HEAP", n, align, zero ? 0 : 0xFF);
	ev_pre(cur(t), J().q("e", "alloc").i("o", o->id).i("b", n).b("zero", zero).i("u", -1 - o->id).end());
	return o->p;
}
static Obj* find(void* p) { Obj* o = NULL; pthread_rwlock_rdlock(&rw); auto it = byaddr->find((char*) p); if(it != byaddr->end()) o = it->second; pthread_rwlock_unlock(&rw); return o; }
static bool untrack(void* p) {
	Obj* o = find(p);
	if(!o) return false;
	serial_cut(); In in; Thr* t = self();
	ev_post(cur(t), J().q("e", "free").i("o", o->id).end());
	o->live = false;
	serial_cut();
	return true;
}
#define MINE (on && !rt)
extern "C" {
void* __wrap_malloc(size_t n) { return MINE ? track(n, 16, false) : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { return MINE ? track(a*b, 16, true) : __real_calloc(a, b); }
void* __wrap_aligned_alloc(size_t al, size_t n) { return MINE ? track(n, al, false) : __real_aligned_alloc(al, n); }
int __wrap_posix_memalign(void** q, size_t al, size_t n) { if(!MINE) return __real_posix_memalign(q, al, n); void* p = track(n, al, false); access(q, sizeof(*q), WR); *q = p; return 0; }
void __wrap_free(void* p) { if(!MINE) { if(!byaddr || !find(p)) __real_free(p); return; } if(p && !untrack(p)) __real_free(p); }
void* __wrap_memset(void* p, int c, size_t n) { access(p, n, WR); return __real_memset(p, c, n); }
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, RD); access(d, n, WR); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, RD); access(d, n, WR); return __real_memmove(d, s, n); }
void* __wrap_realloc(void* q, size_t n) {
	if(!MINE) return __real_realloc(q, n);
	Obj* o = q ? find(q) : NULL;
	if(q && !o) return __real_realloc(q, n);
	void* p = track(n, 16, false);
	if(o) { __wrap_memcpy(p, q, std::min(n, o->n)); untrack(q); }
	return p;
}
FILE* __wrap_popen(const char* c, const char* m) { In in; return __real_popen(c, m); }
int __wrap_pclose(FILE* f) { In in; return __real_pclose(f); }
// C++ allocation
void* __real__Znwm(size_t); void* __real__Znam(size_t); void __real__ZdlPv(void*); void __real__ZdaPv(void*); void __real__ZdlPvm(void*, size_t); void __real__ZdaPvm(void*, size_t);
void* __wrap__Znwm(size_t n) { return MINE ? track(n, 16, false) : __real__Znwm(n); }
void* __wrap__Znam(size_t n) { return MINE ? track(n, 16, false) : __real__Znam(n); }
void __wrap__ZdlPv(void* p) { if(!(MINE && p && untrack(p))) __real__ZdlPv(p); }
void __wrap__ZdaPv(void* p) { if(!(MINE && p && untrack(p))) __real__ZdaPv(p); }
void __wrap__ZdlPvm(void* p, size_t n) { if(!(MINE && p && untrack(p))) __real__ZdlPvm(p, n); }
void __wrap__ZdaPvm(void* p, size_t n) { if(!(MINE && p && untrack(p))) __real__ZdaPvm(p, n); }

// ---- parallel constructs
#define A8 long a, long b, long c, long d, long e, long f, long g, long h
#define PAR(name) void __real_##name(A8); void __wrap_##name(A8) { bool top = on && !inpar; if(top) par_begin(); __real_##name(a, b, c, d, e, f, g, h); if(top) par_end(); }
PAR(GOMP_parallel) PAR(GOMP_parallel_loop_static) PAR(GOMP_parallel_loop_dynamic) PAR(GOMP_parallel_loop_guided) PAR(GOMP_parallel_loop_runtime)
PAR(GOMP_parallel_loop_nonmonotonic_dynamic) PAR(GOMP_parallel_loop_nonmonotonic_guided) PAR(GOMP_parallel_loop_nonmonotonic_runtime)
PAR(GOMP_parallel_loop_maybe_nonmonotonic_runtime) PAR(GOMP_parallel_sections)
#define BAR(name) void __real_##name(void); void __wrap_##name(void) { barrier_point(); __real_##name(); }
BAR(GOMP_barrier) BAR(GOMP_loop_end) BAR(GOMP_sections_end)
#define CRIT(name, v) void __real_##name(void); void __wrap_##name(void) { if(!v) crit(false); __real_##name(); if(v) crit(true); }
CRIT(GOMP_critical_start, true) CRIT(GOMP_critical_end, false) CRIT(GOMP_atomic_start, true) CRIT(GOMP_atomic_end, false)

// ---- the compiler's callbacks
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void** a, void*) { access(a, 8, WR); }
void __tsan_vptr_read(void** a) { access(a, 8, RD); }
void __tsan_read_range(void* a, unsigned long n) { access(a, n, RD); }
void __tsan_write_range(void* a, unsigned long n) { access(a, n, WR); }
#define CB(n) void __tsan_read##n(void* a) { access(a, n, RD); } void __tsan_write##n(void* a) { access(a, n, WR); } \
	void __tsan_volatile_read##n(void* a) { access(a, n, RD); } void __tsan_volatile_write##n(void* a) { access(a, n, WR); } \
	void __tsan_unaligned_read##n(void* a) { access(a, n, RD); } void __tsan_unaligned_write##n(void* a) { access(a, n, WR); } \
	void __tsan_unaligned_volatile_read##n(void* a) { access(a, n, RD); } void __tsan_unaligned_volatile_write##n(void* a) { access(a, n, WR); }
CB(1) CB(2) CB(4) CB(8) CB(16)
#define AT(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T* a, int) { return __atomic_load_n(a, 5); } \
	void __tsan_atomic##bits##_store(volatile T* a, T v, int) { __atomic_store_n(a, v, 5); } \
	T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { return __atomic_exchange_n(a, v, 5); } \
	T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { return __atomic_fetch_add(a, v, 5); } \
	T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { return __atomic_fetch_sub(a, v, 5); } \
	T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { return __atomic_fetch_or(a, v, 5); } \
	T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { return __atomic_fetch_and(a, v, 5); } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, unsigned char) AT(32, unsigned) AT(64, unsigned long)
}

// a micro-kernel's accesses
void prov_kernel(int mr, int nr, float* A, float* B, float* C, int m, int n, int k) {
	if(!on || k < 1) return;
	access(A, (size_t) mr*k*4, RD); access(B, (size_t) nr*k*4, RD);
	access(C, (size_t) mr*nr*4, RD); access(C, (size_t) mr*nr*4, WR);
	for(int i = 0; i < mr*nr; i++) C[i] += 1;
}

// ---- running a call
static std::map<int, cake_cntx_t*> ctxs;
static std::string pairs(const std::vector<long>& v, size_t unit) {
	std::string s = "["; long plo = -2, phi = -2; bool first = true;
	auto put = [&]() { if(plo != -2) { s += (first ? "" : ",") + std::to_string(plo) + "," + std::to_string(phi); first = false; } };
	for(size_t i = 0; i < v.size(); i += 2) {
		long lo = (v[i] < 0 ? v[i] - (long) unit + 1 : v[i])/(long) unit, hi = (v[i+1] < 0 ? v[i+1] - (long) unit + 1 : v[i+1])/(long) unit;
		if(plo != -2 && lo <= phi + 1) phi = std::max(phi, hi);
		else { put(); plo = lo; phi = hi; }
	}
	put();
	return s + "]";
}
static std::vector<Obj*> given;
static Obj* give(const char* kind, size_t n, size_t align = 16) { Obj* o = new_obj(kind, n, align, -1); given.push_back(o); return o; }
static void start() {
	steps = new std::map<int, Step>; objs = new std::vector<Obj*>; byaddr = new std::map<char*, Obj*>;
	if(!thrs) thrs = new std::vector<Thr*>;
	base_ep = 0; given.clear(); master = self();
	for(auto t : *thrs) t->last = NULL;
}
static void go() { on = true; }
static void stop(const std::string& head) {
	on = false;
	{ In in; flush_thread(self(), base_ep, false); }
	emit(head);
	for(auto o : given) emit(J().q("e", "obj").i("o", o->id).q("kind", o->kind).i("size", o->n/o->unit).i("unit", o->unit).end());
	for(auto& q : *steps) {
		Step& s = q.second;
		for(auto& l : s.pre) {      // sizes in the object's unit, known only now
			std::string t = l; int id = atoi(strstr(l.c_str(), "\"o\":") + 4); Obj* o = (*objs)[id];
			bool zero = l.find("\"zero\":true") != std::string::npos;
			emit(J().q("e", "alloc").i("o", id).i("size", o->n/o->unit).i("unit", o->unit).b("zero", zero).end());
		}
		if(!s.acc.empty()) {
			std::string l = "["; bool first = true;
			// within one step the accesses of a thread to an object form one entry
			for(auto& a : s.acc) {
				size_t u = a.obj < 0 ? 1 : (*objs)[a.obj]->unit;
				l += std::string(first ? "" : ",") + "[" + std::to_string(a.thr) + "," + std::to_string(a.obj) + "," + pairs(a.r, u) + "," + pairs(a.w, u) + "," + pairs(a.x, u) + "]"; first = false;
			}
			emit(J().q("e", "step").b("par", s.par).raw("acc", l + "]").end());
		}
		for(auto& l : s.post) emit(l);
	}
	int left = 0; for(auto o : *objs) if(o->live && !strcmp(o->kind, "HEAP")) left++;
	emit(J().q("e", "end").i("left", left).end());
	for(auto o : *objs) { munmap(o->map, o->len); delete o; }
	delete steps; delete objs; delete byaddr; steps = NULL; objs = NULL; byaddr = NULL;
	for(auto t : *thrs) { t->sh->clear(); t->last = NULL; }
}
static void fill(Obj* o, float v) { for(size_t i = 0; i < o->n/4; i++) ((float*) o->p)[i] = v; }
static std::string head(const Cmd& c, const char* what) {
	return J().q("e", "begin").q("what", what).q("fn", gets_(c, "fn")).i("M", geti(c, "M")).i("N", geti(c, "N")).i("K", geti(c, "K")).i("p", geti(c, "p")).q("sch", gets_(c, "sch", "NA"))
		.i("mcu", geti(c, "mcu")).i("kcu", geti(c, "kcu")).i("ncu", geti(c, "ncu")).b("pa", geti(c, "pa")).b("pb", geti(c, "pb")).i("al2", geti(c, "al2", 2)).i("be2", geti(c, "be2", 0)).end();
}
static void plan(const Cmd& c, cake_cntx_t* cx, blk_dims_t* x) {
	memset(x, 0, sizeof(*x));
	init_block_dims(geti(c, "M"), geti(c, "N"), geti(c, "K"), geti(c, "p"), x, cx, sched_of(gets_(c, "sch", "NA")), NULL, 4, geti(c, "mcu"), geti(c, "kcu"), geti(c, "ncu"));
}
static void do_call(const Cmd& c) {
	int M = geti(c, "M"), N = geti(c, "N"), K = geti(c, "K"), p = geti(c, "p"), cid = geti(c, "c", 0);
	bool pa = geti(c, "pa"), pb = geti(c, "pb");
	cake_cntx_t* cx = cid < 0 ? NULL : ctxs.at(cid);
	start();
	blk_dims_t x; size_t an = (size_t) M*K*4, bn = (size_t) K*N*4;
	if(pa || pb) {
		plan(c, cx, &x);
		if(pa) an = cake_sgemm_packed_A_size(M, K, p, &x, cx, x.sch);
		if(pb) bn = cake_sgemm_packed_B_size(K, N, p, &x, cx);
	}
	Obj *a = give(pa ? "PA" : "A", an, pa ? 64 : 16), *b = give(pb ? "PB" : "B", bn, pb ? 64 : 16), *C = give("C", (size_t) M*N*4);
	fill(a, 1); fill(b, 1); fill(C, 0);
	go();
	fn_of(gets_(c, "fn"))((float*) a->p, (float*) b->p, (float*) C->p, M, N, K, p, cx, NULL, pa, pb, getd(c, "al2", 2)/2, getd(c, "be2", 0)/2,
		sched_of(gets_(c, "sch", "NA")), geti(c, "mcu"), geti(c, "kcu"), geti(c, "ncu"));
	stop(head(c, "call"));
}
static void do_pack(const Cmd& c) {
	int M = geti(c, "M"), N = geti(c, "N"), K = geti(c, "K"), p = geti(c, "p");
	cake_cntx_t* cx = ctxs.at(geti(c, "c", 0)); std::string op = gets_(c, "op", "A");
	start(); blk_dims_t x; plan(c, cx, &x); omp_set_num_threads(p);
	size_t n = op == "A" ? (size_t) M*K : op == "B" ? (size_t) K*N : (size_t) M*N;
	size_t sz = op == "A" ? cake_sgemm_packed_A_size(M, K, p, &x, cx, x.sch) : op == "B" ? cake_sgemm_packed_B_size(K, N, p, &x, cx) : cake_sgemm_packed_C_size(M, N, p, &x, cx, x.sch);
	Obj *s = give(op == "U" ? "DST" : "A", n*4), *d = give(op == "U" ? "A" : "DST", sz, 64);
	fill(s, 1); fill(d, 0);
	go();
	if(op == "A") pack_A((float*) s->p, (float*) d->p, M, K, p, &x, cx, x.sch);
	else if(op == "B") pack_B((float*) s->p, (float*) d->p, K, N, p, &x, cx, x.sch);
	else if(op == "C") pack_C((float*) s->p, (float*) d->p, M, N, p, &x, cx, x.sch);
	else unpack_C((float*) s->p, (float*) d->p, M, N, p, &x, cx, x.sch);
	stop(head(c, ("pack " + op).c_str()));
}
static void do_xpose(const Cmd& c) {
	int K = geti(c, "K"), N = geti(c, "N"); start(); omp_set_num_threads(geti(c, "p", 2));
	Obj *a = give("A", (size_t) K*N*4), *t = give("DST", (size_t) K*N*4); fill(a, 1); fill(t, 0);
	go(); transpose_mat((float*) a->p, (float*) t->p, K, N, geti(c, "Kt"), geti(c, "Nt")); stop(head(c, "xpose"));
}
static void run(const Cmd& c) {
	const std::string& k = c.at("_");
	if(k == "session") emit(J().q("e", "session").i("id", geti(c, "id")).end());
	else if(k == "ctx") { ctxs[geti(c, "c", 0)] = make_ctx(c); }
	else if(k == "call") do_call(c);
	else if(k == "pack") do_pack(c);
	else if(k == "xpose") do_xpose(c);
	else { fprintf(stderr, "unknown command %s\n", k.c_str()); _exit(93); }
}
int main(int argc, char** argv) {
	if(argc < 3) { fprintf(stderr, "usage: %s commands trace [timeout]\n", argv[0]); return 2; }
	thrs = new std::vector<Thr*>;
	return run_sessions(argv[1], argv[2], run, NULL, argc > 3 ? atoi(argv[3]) : 120);
}
