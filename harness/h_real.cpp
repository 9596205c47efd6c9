// Harness "real": the library as users get it (real micro-kernels), driven by command sessions.
// Emits one event per public call, with the projection of the result that spec/*Trace*.tla checks.
#include "hcommon.h"
#include <thread>
#include <new>

// ---- allocation accounting of the code under test (link-time wraps)
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
int __real_posix_memalign(void**, size_t, size_t); void* __real_aligned_alloc(size_t, size_t); void __real_free(void*);
FILE* __real_popen(const char*, const char*); int __real_pclose(FILE*);
}
static volatile int accounting = 0;                       // counting is on
static std::vector<std::pair<void*, size_t>>* live; // blocks allocated while counting and not freed
static pthread_mutex_t lk = PTHREAD_MUTEX_INITIALIZER;
static long n_alloc, n_popen, n_pclose, n_badfree;
static __thread int in_acct = 0;
static void note(void* p, size_t n) {
	if(!accounting || in_acct || !p) return;
	in_acct = 1; pthread_mutex_lock(&lk);
	live->push_back({p, n}); n_alloc++;
	pthread_mutex_unlock(&lk); in_acct = 0;
}
static bool unnote(void* p) {       // false: the block is not one the library allocated in this call
	if(!accounting || in_acct || !p) return true;
	bool own = false;
	in_acct = 1; pthread_mutex_lock(&lk);
	for(size_t i = live->size(); i-- > 0; ) if((*live)[i].first == p) { live->erase(live->begin() + i); own = true; break; }
	if(!own) n_badfree++;
	pthread_mutex_unlock(&lk); in_acct = 0;
	return own;
}
// fresh memory is poisoned (NaN pattern) while the library runs, so reads of it show up in results
static void poison(void* p, size_t n) { if(accounting && p) memset(p, 0xFF, n); }
extern "C" {
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); poison(p, n); note(p, n); return p; }
void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); note(p, a*b); return p; }
void* __wrap_realloc(void* q, size_t n) { unnote(q); void* p = __real_realloc(q, n); note(p, n); return p; }
void* huge_block(size_t n); static std::vector<void*> huge;
int __wrap_posix_memalign(void** q, size_t al, size_t n) { if(n > (12UL << 30)) return huge.push_back(*q = huge_block(n)), *q ? 0 : 12; int r = __real_posix_memalign(q, al, n); if(!r) { poison(*q, n); note(*q, n); } return r; }
void* __wrap_aligned_alloc(size_t al, size_t n) { void* p = __real_aligned_alloc(al, n); poison(p, n); note(p, n); return p; }
void __wrap_free(void* p) { for(void* h : huge) if(h == p) return; if(unnote(p)) __real_free(p); }
FILE* __wrap_popen(const char* c, const char* m) { n_popen++; return __real_popen(c, m); }
int __wrap_pclose(FILE* f) { n_pclose++; return __real_pclose(f); }
}

struct CBuf { Guarded g; int M, N; };
static std::map<int, cake_cntx_t*> ctxs;
static std::map<int, CBuf> cbufs;
static std::map<int, Cmd> ctxcmd;

static void begin() { live = new std::vector<std::pair<void*, size_t>>; live->reserve(4096); }

static void fillA(float* A, int M, int K, long s) { for(int i = 0; i < M; i++) for(int k = 0; k < K; k++) A[(size_t) i*K + k] = aval(s, i, k); }
static void fillC(float* C, int M, int N, long s) { for(int i = 0; i < M; i++) for(int j = 0; j < N; j++) C[(size_t) i*N + j] = cval(s, i, j); }

static long fp2(const float* C, int M, int N, long* bad, int sh = 0) {
	long f = 0; *bad = 0;
	std::vector<long> v(N);
	for(int j = 0; j < N; j++) v[j] = vw(j);
	for(int i = 0; i < M; i++) {
		long r = 0;
		for(int j = 0; j < N; j++) {
			double x = ldexp(2.0*C[(size_t) i*N + j], sh);     // results scaled by 2^-sh come back as integers
			if(!(fabs(x) < 1e9) || x != rint(x)) { (*bad)++; continue; }
			r = (r + ((long) x % P + P) % P * v[j]) % P;
		}
		f = (f + r*uw(i)) % P;
	}
	return f;
}
static unsigned long hashb(const void* p, size_t n) {
	const unsigned char* c = (const unsigned char*) p; unsigned long h = 1469598103934665603UL;
	for(size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211UL; }
	return h;
}

struct Op { Guarded a, b; float *A, *B; Guarded pa, pb; bool hpa, hpb; blk_dims_t x; size_t asz, bsz; };

static void mk_operands(const Cmd& c, cake_cntx_t* cx, Op& o) {
	int M = geti(c, "M"), N = geti(c, "N"), K = geti(c, "K"), p = geti(c, "p");
	char gd = gets_(c, "guard", "e")[0];
	o.a = galloc((size_t) M*K, gd); o.b = galloc((size_t) K*N, gd);
	fillA(o.a.p, M, K, geti(c, "sa")); fillA(o.b.p, K, N, geti(c, "sb"));
	o.A = o.a.p; o.B = o.b.p; o.hpa = geti(c, "pa"); o.hpb = geti(c, "pb");
	memset(&o.x, 0, sizeof(o.x));
	if(o.hpa || o.hpb) {
		// a caller that packs ahead of time: block sizes, sizes, pack
		init_block_dims(M, N, K, p, &o.x, cx, sched_of(gets_(c, "sch")), NULL, 4, geti(c, "mcu"), geti(c, "kcu"), geti(c, "ncu"));
		if(geti(c, "pp")) omp_set_num_threads(geti(c, "pp"));
		else omp_set_num_threads(p);
	}
	if(o.hpa) {
		o.asz = cake_sgemm_packed_A_size(M, K, p, &o.x, cx, o.x.sch);
		o.pa = galloc(o.asz/4, 'e', 64);
		pack_A(o.A, o.pa.p, M, K, p, &o.x, cx, o.x.sch);
	}
	if(o.hpb) {
		o.bsz = cake_sgemm_packed_B_size(K, N, p, &o.x, cx);
		o.pb = galloc(o.bsz/4, 'e', 64);
		pack_B(o.B, o.pb.p, K, N, p, &o.x, cx, o.x.sch);
	}
}

// One public call in three steps, so that several can run at the same time.
struct Call { Cmd c; int M, N, K, p, cb; cake_cntx_t* cx; cake_cntx_t* pcx; Op o; bool fresh; CBuf C; cake_cntx_t before; gemm_fn* fn; double ret; };
static std::map<int, Op> kept;         // operands packed once and used by several calls

static void call_prep(Call& k, const Cmd& c) {
	k.c = c;
	int M = k.M = geti(c, "M"), N = k.N = geti(c, "N"), K = k.K = geti(c, "K"); k.p = geti(c, "p");
	int cid = geti(c, "c", 0), cb = k.cb = geti(c, "cb", 0);
	k.cx = cid < 0 ? NULL : ctxs.at(cid);
	char gd = gets_(c, "guard", "e")[0];
	k.pcx = k.cx;                  // a NULL-context caller that prepacks asks for a context itself
	if(!k.pcx && (geti(c, "pa") || geti(c, "pb"))) k.pcx = cake_query_cntx();
	int keep = geti(c, "keep");
	if(keep && kept.count(keep)) k.o = kept[keep];
	else { mk_operands(c, k.pcx, k.o); if(keep) kept[keep] = k.o; }
	if(!k.cx && k.pcx) free(k.pcx);
	k.fresh = !cb || !cbufs.count(cb);
	CBuf& C = k.C;
	if(k.fresh) {
		C.M = M; C.N = N; C.g = galloc((size_t) M*N, gd);
		if(gets_(c, "cold") == "nan") for(size_t i = 0; i < (size_t) M*N; i++) C.g.p[i] = NAN;
		else if(gets_(c, "cold") == "zero") memset(C.g.p, 0, (size_t) M*N*4);
		else fillC(C.g.p, M, N, geti(c, "sc"));
		if(cb) cbufs[cb] = C;
	} else C = cbufs[cb];
	gro(k.o.a); gro(k.o.b);
	if(k.o.hpa) gro(k.o.pa);
	if(k.o.hpb) gro(k.o.pb);
	if(k.cx) k.before = *k.cx;
	k.fn = fn_of(gets_(c, "fn"));
}
static void call_once(Call& k) {
	const Cmd& c = k.c;
	k.ret = k.fn(k.o.hpa ? k.o.pa.p : k.o.A, k.o.hpb ? k.o.pb.p : k.o.B, k.C.g.p, k.M, k.N, k.K, k.p, k.cx, NULL, k.o.hpa, k.o.hpb,
		ldexp(getd(c, "al2", 2)/2, -geti(c, "sh")), ldexp(getd(c, "be2", 0)/2, -geti(c, "sh")), sched_of(gets_(c, "sch")), geti(c, "mcu"), geti(c, "kcu"), geti(c, "ncu"));
}
// the surroundings a caller may provide: a parallel region of its own (the call gets a team of one, or nested teams),
// dynamic adjustment of team sizes
static void call_exec(Call& k) {
	const Cmd& c = k.c;
	int nest = geti(c, "nest");
	omp_set_dynamic(geti(c, "dyn"));
	if(nest) {
		omp_set_max_active_levels(nest);
		#pragma omp parallel num_threads(2)
		{
			#pragma omp single
			call_once(k);
		}
	} else call_once(k);
}
static void call_report(Call& k, int fds, size_t leaks) {
	const Cmd& c = k.c; Op& o = k.o;
	long bad; long f = fp2(k.C.g.p, k.M, k.N, &bad, geti(c, "sh"));
	bool keep = true;      // the caller's context is still the machine description it passed in
	if(k.cx) { cake_cntx_t& b = k.before; cake_cntx_t* x = k.cx;
		keep = b.mr == x->mr && b.nr == x->nr && b.m_map == x->m_map && b.n_map == x->n_map &&
		b.L1 == x->L1 && b.L2 == x->L2 && b.L3 == x->L3 && b.ncores == x->ncores; }
	J j; j.q("e", "call").q("fn", gets_(c, "fn")).i("c", geti(c, "c")).i("M", k.M).i("N", k.N).i("K", k.K).i("p", k.p).q("sch", gets_(c, "sch", "NA"))
		.i("mcu", geti(c, "mcu")).i("kcu", geti(c, "kcu")).i("ncu", geti(c, "ncu")).b("pa", o.hpa).b("pb", o.hpb)
		.i("al2", lround(getd(c, "al2", 2))).i("be2", lround(getd(c, "be2", 0))).i("sa", geti(c, "sa")).i("sb", geti(c, "sb")).i("sc", geti(c, "sc"))
		.q("cold", gets_(c, "cold", "int")).i("cb", k.cb).b("fresh", k.fresh);
	j.i("fp2", f).i("bad", bad).b("frame", gintact(k.C.g) && gintact(o.a) && gintact(o.b) && (!o.hpa || gintact(o.pa)) && (!o.hpb || gintact(o.pb)))
		.i("leakb", leaks).i("allocs", n_alloc).i("badfree", n_badfree).i("fds", fds).i("popens", n_popen - n_pclose).b("ctxkept", keep).b("retok", k.ret == k.ret && k.ret >= 0);
	emit(j.end());
	if(!geti(c, "keep")) {
		gfree(o.a); gfree(o.b);
		if(o.hpa) gfree(o.pa);
		if(o.hpb) gfree(o.pb);
	}
	if(!k.cb) gfree(k.C.g);
}
static void acct_start() { live->clear(); n_alloc = n_popen = n_pclose = n_badfree = 0; accounting = 1; }

static void do_call(const Cmd& c) {
	Call k; call_prep(k, c);
	int fd0 = count_fds();
	acct_start();
	call_exec(k);
	accounting = 0;
	call_report(k, count_fds() - fd0, live->size());
}

// calls queued with "call ... q=1" run at the same time, each on an application thread of its own
static std::vector<Call*> queued;
static void do_go(const Cmd& c) {
	int rounds = geti(c, "rounds", 1);
	int fd0 = count_fds();
	pthread_barrier_t bar; pthread_barrier_init(&bar, NULL, queued.size());
	// application threads and their OpenMP pools keep memory of their own: only the values are judged here
	std::vector<std::thread> ts;
	for(Call* k : queued) ts.emplace_back([k, rounds, &bar]() { for(int r = 0; r < rounds; r++) { pthread_barrier_wait(&bar); call_exec(*k); } });
	for(auto& t : ts) t.join();
	n_popen = n_pclose = n_badfree = 0;
	int fds = count_fds() - fd0;
	for(Call* k : queued) { call_report(*k, fds, 0); delete k; }
	queued.clear();
}

// the same call repeated on random (non-integer) inputs: bit patterns of every run
static void do_det(const Cmd& c) {
	int M = geti(c, "M"), N = geti(c, "N"), K = geti(c, "K"), p = geti(c, "p"), rep = geti(c, "rep", 5);
	cake_cntx_t* cx = ctxs.at(geti(c, "c", 0));
	std::vector<float> A((size_t) M*K), B((size_t) K*N), C((size_t) M*N);
	unsigned s = geti(c, "sa") * 7919 + 12345;
	auto rnd = [&]() { s = s*1664525u + 1013904223u; return (float) (s >> 8) / (1 << 23) - 1.0f; };
	for(auto& v : A) v = rnd();
	for(auto& v : B) v = rnd();
	std::vector<unsigned long> hs;
	gemm_fn* fn = fn_of(gets_(c, "fn"));
	for(int r = 0; r < rep; r++) {
		for(auto& v : C) v = r;
		fn(A.data(), B.data(), C.data(), M, N, K, p, cx, NULL, 0, 0, 1, 0, sched_of(gets_(c, "sch")), geti(c, "mcu"), geti(c, "kcu"), geti(c, "ncu"));
		hs.push_back(hashb(C.data(), C.size()*4));
	}
	std::string l = "[";
	for(size_t i = 0; i < hs.size(); i++) { char b[40]; sprintf(b, "%s\"%lx\"", i ? "," : "", hs[i]); l += b; }
	emit(J().q("e", "det").q("fn", gets_(c, "fn")).i("M", M).i("N", N).i("K", K).i("p", p).q("sch", gets_(c, "sch", "NA")).raw("bits", l + "]").end());
}

static void do_ctx(const Cmd& c) {
	int id = geti(c, "c", 0);
	ctxs[id] = make_ctx(c);
	cake_cntx_t* x = ctxs[id];
	emit(J().q("e", "ctx").i("c", id).i("mr", x->mr).i("nr", x->nr).i("L1", x->L1).i("L2", x->L2).i("L3", x->L3).i("ncores", x->ncores).end());
}

#include "h_real_more.h"

static void run(const Cmd& c) {
	const std::string& k = c.at("_");
	if(k == "session") { emit(J().q("e", "session").i("id", geti(c, "id")).end()); }
	else if(k == "ctx") do_ctx(c);
	else if(k == "call") { if(geti(c, "q")) { queued.push_back(new Call()); call_prep(*queued.back(), c); } else do_call(c); }
	else if(k == "go") do_go(c);
	else if(k == "det") do_det(c);
	else if(!run_more(c)) { fprintf(stderr, "unknown command %s\n", k.c_str()); _exit(93); }
}

int main(int argc, char** argv) {
	if(argc < 3) { fprintf(stderr, "usage: %s commands trace [timeout]\n", argv[0]); return 2; }
	return run_sessions(argv[1], argv[2], run, begin, argc > 3 ? atoi(argv[3]) : 120);
}
