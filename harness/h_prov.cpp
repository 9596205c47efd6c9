// Harness "prov": the library's own packing and schedules with stand-in micro-kernels that record
// what they are asked to do.  Every element of A and B is a tag naming its place, so a strip handed
// to a kernel says which rows, columns and depths it holds; the stand-in writes its own number into
// the C tile, so the final C says which chain of updates made each element.  Before every parallel
// region the tags of A and B change generation, so a strip also says in which region it was read.
#include "hcommon.h"

extern "C" void __real_GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned flags);

struct Kern { int ep, thr, i0, h, j0, w, k0, len, prev, ra, rb, mr, nr; bool bad; };
static std::vector<Kern>* kerns;
static pthread_mutex_t lk = PTHREAD_MUTEX_INITIALIZER;
static std::map<int, cake_cntx_t*> ctxs;
static float *gA, *gB;             // the operands of the running call
static int gM, gN, gK, epoch, gen;
static bool on = false, gens = true;
static std::vector<int>* epof;     // generation -> region
static const long LIM = 1L << 24;

static void refill() {             // a new generation of tags
	long a = (long) gM*gK, b = (long) gK*gN;
	if((gen + 2)*std::max(a, b) >= LIM) { gens = false; return; }
	gen++;
	for(long i = 0; i < a; i++) gA[i] = (float) (1 + gen*a + i);
	for(long i = 0; i < b; i++) gB[i] = -(float) (1 + gen*b + i);
	epof->resize(gen + 1); (*epof)[gen] = epoch;
}
static void region() { if(on && !omp_in_parallel()) { epoch++; refill(); } }

#define A8 long a, long b, long c, long d, long e, long f, long g, long h
extern "C" {
void __wrap_GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned flags) { region(); __real_GOMP_parallel(fn, data, nt, flags); if(on && !omp_in_parallel()) epoch++; }
#define W(name) void __real_##name(A8); void __wrap_##name(A8) { region(); __real_##name(a, b, c, d, e, f, g, h); if(on && !omp_in_parallel()) epoch++; }
W(GOMP_parallel_loop_static) W(GOMP_parallel_loop_dynamic) W(GOMP_parallel_loop_guided) W(GOMP_parallel_loop_runtime)
W(GOMP_parallel_loop_nonmonotonic_dynamic) W(GOMP_parallel_loop_nonmonotonic_guided) W(GOMP_parallel_loop_nonmonotonic_runtime)
W(GOMP_parallel_loop_maybe_nonmonotonic_runtime) W(GOMP_parallel_sections)
}

// the strip of `lanes` x `len` at p holds rows (columns) i0..i0+h-1 at depths k0..k0+len-1, zero lanes after them
static bool decode(const float* p, int lanes, int len, bool isB, int* i0, int* h, int* k0, int* g) {
	long tot = isB ? (long) gK*gN : (long) gM*gK;
	*h = 0; *i0 = *k0 = -1; *g = -1;
	for(int q = 0; q < len; q++) for(int l = 0; l < lanes; l++) {
		float v = p[(size_t) q*lanes + l];
		if(v == 0) {
			if(q == 0) continue;
			if(l < *h) return false;
			continue;
		}
		if(isB) v = -v;
		if(!(v >= 1 && v < LIM)) return false;
		long t = (long) v - 1, ge = t / tot; t %= tot;
		int i = isB ? t % gN : t / gK, k = isB ? t / gN : t % gK;
		if(q == 0) {
			if(l != *h) return false;
			if(l == 0) { *i0 = i; *k0 = k; }
			if(i != *i0 + l || k != *k0) return false;
			*h = l + 1;
		} else if(l >= *h || i != *i0 + l || k != *k0 + q) return false;
		if(ge >= (long) epof->size()) return false;
		*g = std::max(*g, (*epof)[ge]);
	}
	return *h > 0;
}

void prov_kernel(int mr, int nr, float* A, float* B, float* C, int m, int n, int k) {
	if(!on) return;
	Kern e; e.mr = mr; e.nr = nr; e.len = k; e.thr = omp_get_level() ? omp_get_ancestor_thread_num(1) : 0;
	int kb;
	bool okA = decode(A, mr, k, false, &e.i0, &e.h, &e.k0, &e.ra), okB = decode(B, nr, k, true, &e.j0, &e.w, &kb, &e.rb);
	e.bad = !okA || !okB || kb != e.k0 || m != mr || n != nr || k < 1;
	// what the tile held
	e.prev = 0;
	if(C[0] != 0) {
		float v = C[0];
		e.prev = v >= 1 && v < LIM && v == floorf(v) && (long) v % 256 == 0 ? (int) ((long) v / 256) : -1;
	}
	for(int i = 0; i < mr*nr && e.prev >= 0; i++) if(C[i] != (e.prev ? (float) ((long) e.prev*256 + i) : 0.0f)) e.prev = -1;
	if(e.prev < 0) e.bad = true;
	pthread_mutex_lock(&lk);
	e.ep = epoch;
	kerns->push_back(e);
	long id = kerns->size();
	pthread_mutex_unlock(&lk);
	for(int i = 0; i < mr*nr; i++) C[i] = (float) (id*256 + i);
}

static std::string num(long v) { return std::to_string(v); }

static void do_prov(const Cmd& c) {
	int M = gM = geti(c, "M"), N = gN = geti(c, "N"), K = gK = geti(c, "K"), p = geti(c, "p");
	int cid = geti(c, "c", 0);
	std::string fn = gets_(c, "fn");
	cake_cntx_t* cx = ctxs.at(cid);
	bool pa = geti(c, "pa"), pb = geti(c, "pb");
	Guarded a = galloc((size_t) M*K, 'e'), b = galloc((size_t) K*N, 'e'), C = galloc((size_t) M*N, 'e'), ap, bp;
	gA = a.p; gB = b.p;
	kerns = new std::vector<Kern>; kerns->reserve(4096); epof = new std::vector<int>;
	epoch = 0; gen = -1; gens = true; refill();
	blk_dims_t x; memset(&x, 0, sizeof(x));
	cake_cntx_t sc = *cx;      // plan on a copy of the context
	enum sched ask = sched_of(gets_(c, "sch", "NA"));
	int mcu = geti(c, "mcu"), kcu = geti(c, "kcu"), ncu = geti(c, "ncu");
	if(fn == "2d") init_block_dims_2d(M, N, K, p, &x, &sc, KMN, NULL, 4, mcu, kcu, ncu);
	else if(fn == "2dsmall") init_block_dims_2d_small(M, N, K, p, &x, &sc, KMN, NULL, 4);
	else if(fn == "gemm") init_block_dims(M, N, K, p, &x, &sc, ask, NULL, 4, mcu, kcu, ncu);
	else if(fn == "online") init_block_dims(M, N, K, p, &x, &sc, KMN, NULL, 4, mcu, kcu, ncu);
	else init_block_dims(M, N, K, p, &x, &sc, KMN, NULL);
	on = true;
	float *A = a.p, *B = b.p;
	if(pa) { omp_set_num_threads(p); size_t s = cake_sgemm_packed_A_size(M, K, p, &x, &sc, x.sch); ap = galloc(s/4, 'e', 64); pack_A(A, ap.p, M, K, p, &x, &sc, x.sch); A = ap.p; }
	if(pb) { omp_set_num_threads(p); size_t s = cake_sgemm_packed_B_size(K, N, p, &x, &sc); bp = galloc(s/4, 'e', 64); pack_B(B, bp.p, K, N, p, &x, &sc, x.sch); B = bp.p; }
	double be = getd(c, "be2", 0)/2;
	for(size_t i = 0; i < (size_t) M*N; i++) C.p[i] = be == 0 ? NAN : 0.0f;
	fn_of(fn)(A, B, C.p, M, N, K, p, cx, NULL, pa, pb, 1, be, ask, mcu, kcu, ncu);
	on = false;
	emit(J().q("e", "begin").i("c", cid).q("fn", fn).q("asked", gets_(c, "sch", "NA")).i("M", M).i("N", N).i("K", K).i("p", p).i("mcu", mcu).i("kcu", kcu).i("ncu", ncu)
		.b("pa", pa).b("pb", pb).q("sch", sched_name(x.sch)).i("mc", x.m_c).i("kc", x.k_c).i("nc", x.n_c).i("pm", x.pm).i("pn", x.pn).end());
	// one event per parallel region that computes: [thread, i0, h, j0, w, k0, len, region A was read, region B was read]
	std::vector<Kern>& ks = *kerns;
	for(size_t s = 0; s < ks.size(); ) {
		size_t t = s; std::string l = "["; bool bad = false;
		for(; t < ks.size() && ks[t].ep == ks[s].ep; t++) {
			Kern& k = ks[t];
			bad = bad || k.bad || k.mr != cx->mr || k.nr != cx->nr;
			l += std::string(t > s ? "," : "") + "[" + num(k.thr) + "," + num(k.i0) + "," + num(k.h) + "," + num(k.j0) + "," + num(k.w) + "," + num(k.k0) + "," + num(k.len) + "," + num(k.ra) + "," + num(k.rb) + "]";
		}
		emit(J().q("e", "reg").i("r", ks[s].ep).b("bad", bad).b("gens", gens).raw("ks", l + "]").end());
		s = t;
	}
	// the result: for every tile of C the chain of updates that made it
	struct T { int ri, rj, n; bool ok; };
	std::map<long, T> ts; long stray = 0;
	for(int i = 0; i < M; i++) for(int j = 0; j < N; j++) {
		float v = C.p[(size_t) i*N + j];
		if(!(v >= 256 && v < LIM) || v != floorf(v) || (long) v/256 > (long) ks.size()) { stray++; continue; }
		long id = (long) v / 256, cell = (long) v % 256; Kern& k = ks[id - 1];
		int ri = i - (int) (cell / k.nr), rj = j - (int) (cell % k.nr);
		auto it = ts.find(id);
		if(it == ts.end()) ts[id] = T{ri, rj, 1, true};
		else { it->second.n++; if(it->second.ri != ri || it->second.rj != rj) it->second.ok = false; }
	}
	std::string l = "["; bool first = true; long used = 0;
	for(auto& q : ts) {
		T& t = q.second; if(!t.ok) stray++;
		l += std::string(first ? "" : ",") + "[" + num(t.ri) + "," + num(t.rj) + "," + num(t.n) + ",["; first = false;
		long id = q.first; bool f2 = true; int guard = 0;
		while(id > 0 && guard++ < 100000) {
			Kern& k = ks[id - 1];
			l += std::string(f2 ? "" : ",") + "[" + num(k.i0) + "," + num(k.h) + "," + num(k.j0) + "," + num(k.w) + "," + num(k.k0) + "," + num(k.len) + "]"; f2 = false;
			used++;
			id = k.prev;
		}
		l += "]]";
	}
	emit(J().q("e", "done").i("kernels", ks.size()).i("used", used).i("stray", stray).b("gens", gens).raw("tiles", l + "]").end());
	delete kerns; delete epof;
	gfree(a); gfree(b); gfree(C);
	if(pa) gfree(ap);
	if(pb) gfree(bp);
}

static void run(const Cmd& c) {
	const std::string& k = c.at("_");
	if(k == "session") emit(J().q("e", "session").i("id", geti(c, "id")).end());
	else if(k == "ctx") {
		int id = geti(c, "c", 0); ctxs[id] = make_ctx(c); cake_cntx_t* x = ctxs[id];
		emit(J().q("e", "ctx").i("c", id).i("mr", x->mr).i("nr", x->nr).i("L1", x->L1).i("L2", x->L2).i("L3", x->L3).i("ncores", x->ncores).end());
	} else if(k == "call") do_prov(c);
	else { fprintf(stderr, "unknown command %s\n", k.c_str()); _exit(93); }
}
int main(int argc, char** argv) {
	if(argc < 3) { fprintf(stderr, "usage: %s commands trace [timeout]\n", argv[0]); return 2; }
	return run_sessions(argv[1], argv[2], run, NULL, argc > 3 ? atoi(argv[3]) : 120);
}
