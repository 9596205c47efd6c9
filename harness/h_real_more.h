// Further commands of the "real" harness: planning, packing, micro-kernels, transpose, machine
// description, processing grid, checkers, resources.
#ifdef USE_CAKE_ARMV8
#define STRIP_A bli_spackm_armv8a_int_8xk
#define STRIP_B bli_spackm_armv8a_int_12xk
__attribute__((weak)) void transpose_mat(float*, float*, int, int, int, int) { _exit(96); }      // not part of the armv8 build
#else
#define STRIP_A bli_spackm_haswell_asm_6xk_new
#define STRIP_B bli_spackm_haswell_asm_16xk_new
#endif
void STRIP_A(int, int, float*, float*, int, int, float*, int);
void STRIP_B(int, int, float*, float*, int, int, float*, int);
void transpose(float* At, float* A, int M, int K);

static void plan_of(const Cmd& c, cake_cntx_t* cx, blk_dims_t* x) {
	int M = geti(c, "M"), N = geti(c, "N"), K = geti(c, "K"), p = geti(c, "p");
	std::string kind = gets_(c, "kind", "1d");
	memset(x, 0, sizeof(*x));
	if(kind == "1d") init_block_dims(M, N, K, p, x, cx, sched_of(gets_(c, "sch", "NA")), NULL, 4, geti(c, "mcu"), geti(c, "kcu"), geti(c, "ncu"));
	else if(kind == "2d") init_block_dims_2d(M, N, K, p, x, cx, sched_of(gets_(c, "sch", "KMN")), NULL, 4, geti(c, "mcu"), geti(c, "kcu"), geti(c, "ncu"));
	else init_block_dims_2d_small(M, N, K, p, x, cx, sched_of(gets_(c, "sch", "KMN")), NULL, 4);
}
static J base(const Cmd& c, const char* e) {
	J j; j.q("e", e).i("c", geti(c, "c", 0)).i("M", geti(c, "M")).i("N", geti(c, "N")).i("K", geti(c, "K")).i("p", geti(c, "p")).q("asked", gets_(c, "sch", "NA"))
		.i("mcu", geti(c, "mcu")).i("kcu", geti(c, "kcu")).i("ncu", geti(c, "ncu"));
	return j;
}
static void do_plan(const Cmd& c) {
	cake_cntx_t* cx = ctxs.at(geti(c, "c", 0)); blk_dims_t x; plan_of(c, cx, &x);
	J j = base(c, "plan"); j.q("kind", gets_(c, "kind", "1d")).q("sch", sched_name(x.sch))
		.i("mc", x.m_c).i("kc", x.k_c).i("nc", x.n_c).i("mc1", x.m_c1).i("kc1", x.k_c1).i("nc1", x.n_c1).i("mc1l", x.m_c1_last_core).i("nc1l", x.n_c1_last_core)
		.i("kc1l", x.k_c1_last_core).i("mrrem", x.mr_rem).i("nrrem", x.nr_rem).i("krem", x.k_rem).i("pl", x.p_l).i("pml", x.pm_l).i("pnl", x.pn_l).i("pm", x.pm).i("pn", x.pn)
		.i("mpad", x.m_pad).i("kpad", x.k_pad).i("npad", x.n_pad).i("Mb", x.Mb).i("Kb", x.Kb).i("Nb", x.Nb).i("Mp", x.M_padded).i("Np", x.N_padded);
	emit(j.end());
}
static void do_setsched(const Cmd& c) {
	emit(base(c, "setsched").q("got", sched_name(set_schedule(sched_of(gets_(c, "sch", "NA")), geti(c, "M"), geti(c, "N"), geti(c, "K")))).end());
}
static void do_psize(const Cmd& c) {
	cake_cntx_t* cx = ctxs.at(geti(c, "c", 0)); blk_dims_t x; plan_of(c, cx, &x);
	int M = geti(c, "M"), N = geti(c, "N"), K = geti(c, "K"), p = geti(c, "p");
	size_t a = cake_sgemm_packed_A_size(M, K, p, &x, cx, x.sch), b = cake_sgemm_packed_B_size(K, N, p, &x, cx), cc = cake_sgemm_packed_C_size(M, N, p, &x, cx, x.sch);
	size_t u = 4*(size_t) K;
	size_t ar = a/u;  // rows of packed A: at most M + one tile when right
	bool big = ar > 2000000000UL || b/u > 2000000000UL;
	size_t cu = 4*(ar ? ar : 1);
	emit(base(c, "psize").q("sch", sched_name(x.sch)).i("arows", big ? -1 : ar).b("aexact", a % u == 0).i("bcols", big ? -1 : b/u).b("bexact", b % u == 0)
		.i("ccols", big || cc/cu > 2000000000UL ? -1 : cc/cu).b("cexact", cc % cu == 0).i("mc", x.m_c).i("kc", x.k_c).i("nc", x.n_c).end());
}

// content of a buffer: tag of the element it holds, 0 for zero, -1 never written, -2 anything else
static std::string tags(const float* p, size_t n, long maxtag) {
	std::string s = "[";
	for(size_t i = 0; i < n; i++) {
		unsigned u; memcpy(&u, p + i, 4);
		long t = u == 0xA5A5A5A5u ? -1 : u == 0 ? 0 : (p[i] >= 1 && p[i] <= maxtag && p[i] == floorf(p[i])) ? (long) p[i] : -2;
		if(i) s += ",";
		s += std::to_string(t);
	}
	return s + "]";
}
static void tagfill(float* p, size_t n) { for(size_t i = 0; i < n; i++) p[i] = (float) (i + 1); }

static void do_pack(const Cmd& c) {
	cake_cntx_t* cx = ctxs.at(geti(c, "c", 0)); blk_dims_t x; plan_of(c, cx, &x);
	int M = geti(c, "M"), N = geti(c, "N"), K = geti(c, "K"), p = geti(c, "p");
	std::string op = gets_(c, "op", "A"), var = gets_(c, "var", "main"); char gd = gets_(c, "guard", "e")[0];
	omp_set_num_threads(geti(c, "pp", p));
	size_t n = op == "A" ? (size_t) M*K : op == "B" ? (size_t) K*N : (size_t) M*N;
	size_t sz = op == "A" ? cake_sgemm_packed_A_size(M, K, p, &x, cx, x.sch) : op == "B" ? cake_sgemm_packed_B_size(K, N, p, &x, cx) : cake_sgemm_packed_C_size(M, N, p, &x, cx, x.sch);
	Guarded src = galloc(n, gd), dst = galloc(sz/4, 'e', 64), un = galloc(n, gd);
	tagfill(src.p, n); gro(src);
	if(op == "A") { if(var == "blis") pack_A_single_buf_k_first_blis(src.p, dst.p, M, K, p, &x, cx); else pack_A(src.p, dst.p, M, K, p, &x, cx, x.sch); }
	else if(op == "B") { if(var == "blis") pack_B_k_first_blis(src.p, dst.p, K, N, &x, cx); else pack_B(src.p, dst.p, K, N, p, &x, cx, x.sch); }
	else pack_C(src.p, dst.p, M, N, p, &x, cx, x.sch);
	std::string back = "[]";
	if(op == "C") { gro(dst); unpack_C(un.p, dst.p, M, N, p, &x, cx, x.sch); back = tags(un.p, n, n); }
	emit(base(c, "pack").q("op", op).q("var", var).q("sch", sched_name(x.sch)).i("mc", x.m_c).i("kc", x.k_c).i("nc", x.n_c).i("pp", geti(c, "pp", p))
		.raw("data", tags(dst.p, sz/4, n)).raw("back", back).b("frame", gintact(src) && gintact(dst) && gintact(un)).end());
	gfree(src); gfree(dst); gfree(un);
}

// block and strip packers: (r0,c0) is the block's place in the matrix, h x w its size
static void do_pob(const Cmd& c) {
	std::string fn = gets_(c, "fn"); char gd = gets_(c, "guard", "e")[0];
	int R = geti(c, "R"), W = geti(c, "W"), r0 = geti(c, "r0"), c0 = geti(c, "c0"), h = geti(c, "h"), w = geti(c, "w"), r1 = geti(c, "r1"), c1 = geti(c, "c1"), tr = geti(c, "tr"), tc = geti(c, "tc"), pad = geti(c, "pad");
	omp_set_num_threads(geti(c, "p", 2));
	size_t n = (size_t) R*W; Guarded src = galloc(n, gd); tagfill(src.p, n); gro(src);
	size_t m = (size_t) h*w; Guarded dst = galloc(m, 'e', 64), un = galloc(n, gd);
	float* S = src.p; std::string back = "[]"; float kappa = 1;
	if(fn == "A") pack_ob_A_single_buf(S + (size_t) r0*W + c0, dst.p, R, W, r0 - r1, r1, h, w, tr, pad);
	else if(fn == "Amb") pack_ob_A_multiple_buf(S, dst.p, R, W, r0 - r1, c0, r1, h, w, tr, pad);
	else if(fn == "Amr") pack_A_mr_x_kc(S + (size_t) r0*W + c0, dst.p, W, w, tr);
	else if(fn == "Ablis") STRIP_A(tr, w, &kappa, S + (size_t) r0*W + c0, W, 1, dst.p, tr);
	else if(fn == "B") pack_ob_B_single_buf(S + (size_t) r0*W + c0, dst.p, R, W, c0, h, w, tc, pad);
	else if(fn == "Bpar") pack_ob_B_parallel(S + (size_t) r0*W + c0, dst.p, R, W, c0, h, w, tc, pad);
	else if(fn == "Bnr") pack_B_nr_x_kc(S + (size_t) r0*W + c0, dst.p, W, h, tc);
	else if(fn == "Bblis") STRIP_B(tc, h, &kappa, S + (size_t) r0*W + c0, 1, W, dst.p, tc);
	else if(fn == "C") { pack_ob_C_single_buf(S + (size_t) r0*W + c0, dst.p, R, W, r0 - r1, c0, r1, h, w, tr, tc, pad, pad); gro(dst);
		unpack_ob_C_single_buf(un.p + (size_t) r0*W + c0, dst.p, R, W, r0 - r1, c0, r1, h, w, tr, tc); back = tags(un.p, n, n); }
	else if(fn == "Cmb") { pack_ob_C_multiple_buf(S, dst.p, R, W, r0 - r1, c0, r1, h, w, tr, tc, pad); gro(dst);
		unpack_ob_C_multiple_buf(un.p, dst.p, R, W, r0 - r1, c0, r1, h, w, tr, tc); back = tags(un.p, n, n); }
	else { fprintf(stderr, "pob %s\n", fn.c_str()); _exit(94); }
	emit(J().q("e", "pob").q("fn", fn).i("R", R).i("W", W).i("r0", r0).i("c0", c0).i("h", h).i("w", w).i("tr", tr).i("tc", tc)
		.raw("data", tags(dst.p, m, n)).raw("back", back).b("frame", gintact(src) && gintact(dst) && gintact(un)).end());
	gfree(src); gfree(dst); gfree(un);
}

// one micro-kernel call, through the table entry of a context whose tile was selected
static void do_kern(const Cmd& c) {
	cake_cntx_t* cx = ctxs.at(geti(c, "c", 0));
	int mr = cx->mr, nr = cx->nr, k = geti(c, "k"); long sa = geti(c, "sa"), sb = geti(c, "sb"), sc = geti(c, "sc"); char gd = gets_(c, "guard", "e")[0];
	Guarded a = galloc((size_t) k*mr, gd), b = galloc((size_t) k*nr, gd, 64), t = galloc((size_t) mr*nr, gd);
	for(int q = 0; q < k; q++) { for(int r = 0; r < mr; r++) a.p[(size_t) q*mr + r] = aval(sa, r, q); for(int s = 0; s < nr; s++) b.p[(size_t) q*nr + s] = aval(sb, q, s); }
	fillC(t.p, mr, nr, sc); gro(a); gro(b);
	if(gets_(c, "via", "map") == "map") kernel_map[cx->m_map][cx->n_map](a.p, b.p, t.p, mr, nr, k);
	else cake_sgemm_ukernel(a.p, b.p, t.p, mr, nr, k, cx);
	long bad, f = fp2(t.p, mr, nr, &bad);
	emit(J().q("e", "kern").i("c", geti(c, "c", 0)).i("mr", mr).i("nr", nr).i("k", k).i("sa", sa).i("sb", sb).i("sc", sc).i("fp2", f).i("bad", bad).b("frame", gintact(a) && gintact(b) && gintact(t)).end());
	gfree(a); gfree(b); gfree(t);
}

static void do_xpose(const Cmd& c) {
	int K = geti(c, "K"), N = geti(c, "N"); long s = geti(c, "sa"); char gd = gets_(c, "guard", "e")[0];
	omp_set_num_threads(geti(c, "p", 2));
	Guarded a = galloc((size_t) K*N, gd), t = galloc((size_t) K*N, gd);
	fillA(a.p, K, N, s); gro(a);
	for(size_t i = 0; i < (size_t) K*N; i++) t.p[i] = NAN;
	if(gets_(c, "var", "blk") == "blk") transpose_mat(a.p, t.p, K, N, geti(c, "Kt"), geti(c, "Nt")); else transpose(t.p, a.p, K, N);
	long bad, f = fp2(t.p, N, K, &bad);
	emit(J().q("e", "xpose").i("K", K).i("N", N).i("Kt", geti(c, "Kt")).i("Nt", geti(c, "Nt")).i("sa", s).i("fp2", f).i("bad", bad).b("frame", gintact(a) && gintact(t)).end());
	gfree(a); gfree(t);
}

// a simulated machine: the files the fake lscpu prints are written from the command
static void wfile(const std::string& p, const std::string& s) { FILE* f = fopen(p.c_str(), "w"); fputs(s.c_str(), f); fclose(f); }
static std::string amount(const Cmd& c, int l, const char* other = NULL) {
	std::string k = std::to_string(l); long a = geti(c, ("a" + k).c_str(), -1);
	if(other && a >= 0) a = geti(c, other, a);
	if(a < 0) return "";
	std::string s = std::to_string(a/10); if(a % 10) s += "." + std::to_string(a % 10);
	return s + gets_(c, ("u" + k).c_str(), "K");
}
static void do_machine(const Cmd& c) {
	char d[] = "/tmp/cakemachXXXXXX"; if(!mkdtemp(d)) _exit(95);
	std::string D(d), one = "NAME ONE-SIZE\n", all = "NAME ALL-SIZE\n", mn;
	mn = "Architecture:        x86_64\nCPU(s):              " + gets_(c, "cpus", "8") + "\n";
	if(geti(c, "threads")) mn += "Thread(s) per core:  " + gets_(c, "threads") + "\n";
	if(geti(c, "cps")) mn += "Core(s) per socket:  " + gets_(c, "cps") + "\n";
	if(geti(c, "sockets")) mn += "Socket(s):           " + gets_(c, "sockets") + "\n";
	if(geti(c, "mname")) mn += "Model name:          Generic CPU @ 2.50GHz\n";
	if(geti(c, "model", -1) >= 0) mn += "Model:               " + gets_(c, "model") + "\n";
	// the private caches are described by the size of one of them, the shared one by the size of all of them together
	std::string a1 = amount(c, 1), a2 = amount(c, 2), a3 = amount(c, 3);
	std::string t1 = amount(c, 1, "t1"), t2 = amount(c, 2, "t2"), o3 = amount(c, 3, "o3");
	if(a1 != "") { one += "L1d " + a1 + "\nL1i " + (c.count("l1i") ? c.at("l1i") : a1) + "\n"; all += "L1d " + t1 + "\nL1i " + t1 + "\n"; }
	if(a2 != "") { one += "L2 " + a2 + "\n"; all += "L2 " + t2 + "\n"; }
	if(a3 != "") { one += "L3 " + o3 + "\n"; all += "L3 " + a3 + "\n"; }
	wfile(D + "/MAIN", mn); wfile(D + "/ONE", one); wfile(D + "/ALL", all);
	setenv("FAKE_LSCPU", d, 1); setenv("FAKE_CPUS", gets_(c, "cpus", "8").c_str(), 1);
	int fd0 = count_fds(); acct_start();
	bool torch = geti(c, "torch");
	cake_cntx_t* x = torch ? cake_query_cntx_torch(geti(c, "tl2"), geti(c, "tl3")) : cake_query_cntx();
	accounting = 0;
	int fds = count_fds() - fd0; size_t kept = live->size();
	J j; j.q("e", "machine").i("cpus", geti(c, "cpus", 8)).i("threads", geti(c, "threads")).i("sockets", geti(c, "sockets")).i("model", geti(c, "mname") ? 250 : geti(c, "model", -1));
	for(int l = 1; l <= 3; l++) { std::string k = std::to_string(l); j.i(("a" + k).c_str(), geti(c, ("a" + k).c_str(), -1)).q(("u" + k).c_str(), gets_(c, ("u" + k).c_str(), "K")); }
	j.b("torch", torch).i("tl2", geti(c, "tl2")).i("tl3", geti(c, "tl3")).i("L1", x->L1).i("L2", x->L2).i("L3", x->L3).i("ncores", x->ncores)
		.i("mr", x->mr).i("nr", x->nr).i("mmap", x->m_map).i("nmap", x->n_map).b("alpha1", x->alpha_n == 1.0).b("blisnull", x->blis_cntx == NULL).i("s1", get_cache_size(1)).i("s2", get_cache_size(2)).i("s3", get_cache_size(3)).i("nphys", get_num_physical_cores())
		.i("kept", kept).i("fds", fds).i("popens", n_popen - n_pclose);
	if(geti(c, "tm")) { update_mr_nr(x, geti(c, "tm"), geti(c, "tn")); }
	j.i("tm", geti(c, "tm", x->mr)).i("tn", geti(c, "tn", x->nr)).i("mr2", x->mr).i("nr2", x->nr).i("mmap2", x->m_map).i("nmap2", x->n_map);
	emit(j.end());
	free(x);
	for(const char* f : {"/MAIN", "/ONE", "/ALL"}) unlink((D + f).c_str());
	rmdir(d);
}

static void do_grid(const Cmd& c) {
	int p = geti(c, "p"), M = geti(c, "M"), N = geti(c, "N");
	emit(J().q("e", "grid").i("M", M).i("N", N).i("p", p).i("pn", grid_dims_2d(M, N, geti(c, "K", 7), p, geti(c, "nc", 8))).end());
}
static void do_gridtable(const Cmd& c) {
	int rows = sizeof(grid_dims)/sizeof(grid_dims[0]), cols = sizeof(grid_dims[0])/sizeof(grid_dims[0][0]);
	std::string s = "[";
	for(int r = 0; r < rows; r++) { s += r ? ",[" : "["; for(int q = 0; q < cols; q++) { if(q) s += ","; s += grid_dims[r][q] ? "1" : "0"; } s += "]"; }
	emit(J().q("e", "gridtable").i("cores", geti(c, "cores")).raw("rows", s + "]").end());
}

// checkers: errors planted at given positions, in units of 1/10000 (99999 = not-a-number, +-88888 = infinity)
static std::vector<std::vector<long>> errs(const std::string& s) {
	std::vector<std::vector<long>> r; size_t i = 0;
	while(i < s.size()) { long a, b, d; int n; if(sscanf(s.c_str() + i, "%ld:%ld:%ld%n", &a, &b, &d, &n) != 3) break; r.push_back({a, b, d}); i += n + 1; }
	return r;
}
static float plant(float v, long d) { return d == 99999 ? NAN : d == 88888 ? INFINITY : d == -88888 ? -INFINITY : (float) (v + d*1e-4); }
static void do_chk(const Cmd& c) {
	std::string fn = gets_(c, "fn", "gemm"); int M = geti(c, "M"), N = geti(c, "N"), K = geti(c, "K", 1), p = geti(c, "p", 2); long sa = geti(c, "sa", 1), sb = geti(c, "sb", 2);
	auto es = errs(gets_(c, "err")); omp_set_num_threads(geti(c, "th", 2));
	Guarded C = galloc((size_t) M*N, 'e'); std::vector<Guarded> gs; bool got;
	long many = geti(c, "many"), md = geti(c, "md");         // the first `many` elements are off by md
	auto poke = [&](Guarded& g) { for(long i = 0; i < many; i++) g.p[i] = plant(g.p[i], md); for(auto& e : es) g.p[e[0]*N + e[1]] = plant(g.p[e[0]*N + e[1]], e[2]); };
	int fd0 = count_fds(); long leak, bf;
	if(fn == "gemm") {
		Guarded a = galloc((size_t) M*K, 'e'), b = galloc((size_t) K*N, 'e'); fillA(a.p, M, K, sa); fillA(b.p, K, N, sb);
		for(int i = 0; i < M; i++) for(int j = 0; j < N; j++) { long v = 0; for(int k = 0; k < K; k++) v += (long) aval(sa, i, k)*aval(sb, k, j); C.p[(size_t) i*N + j] = v; }
		poke(C); gro(a); gro(b); gro(C); gs.push_back(a); gs.push_back(b);
		acct_start(); got = cake_sgemm_checker(a.p, b.p, C.p, N, M, K); accounting = 0; leak = live->size(); bf = n_badfree;
	} else if(fn == "mat") {
		Guarded d = galloc((size_t) M*N, 'e'); fillC(d.p, M, N, sa); fillC(C.p, M, N, sa); poke(geti(c, "side") ? d : C);
		if(c.count("both")) { long q = geti(c, "both"); C.p[0] = plant(0, q); d.p[0] = plant(0, q); }
		gro(C); gro(d); gs.push_back(d);
		acct_start(); got = mat_equals(C.p, d.p, M, N); accounting = 0; leak = live->size(); bf = n_badfree;
	} else {
		std::vector<float*> arr; for(size_t i = 0; i < (size_t) M*N; i++) C.p[i] = 0;
		for(int q = 0; q < p; q++) { Guarded g = galloc((size_t) M*N, 'e'); fillC(g.p, M, N, sa + q); for(size_t i = 0; i < (size_t) M*N; i++) C.p[i] += g.p[i]; gro(g); gs.push_back(g); arr.push_back(g.p); }
		poke(C); gro(C);
		acct_start(); got = add_checker(arr.data(), C.p, M, N, p); accounting = 0; leak = live->size(); bf = n_badfree;
	}
	bool fr = gintact(C); for(auto& g : gs) fr = fr && gintact(g);
	std::string s = "["; for(size_t i = 0; i < es.size(); i++) s += std::string(i ? ",[" : "[") + std::to_string(es[i][0]) + "," + std::to_string(es[i][1]) + "," + std::to_string(es[i][2]) + "]";
	emit(J().q("e", "chk").q("fn", fn).i("M", M).i("N", N).i("K", K).i("p", p).raw("err", s + "]").i("many", many).i("md", md).i("both", geti(c, "both", 0)).b("wrong", got).b("frame", fr).i("leakb", leak).i("badfree", bf).i("fds", count_fds() - fd0).end());
	gfree(C); for(auto& g : gs) gfree(g);
}

// resources of the calls that are not multiplications
static void do_res(const Cmd& c0) {
	Cmd c = c0;
	for(auto& d : std::vector<std::pair<const char*, const char*>>{{"M", "20"}, {"N", "40"}, {"K", "9"}, {"p", "2"}}) if(!c.count(d.first)) c[d.first] = d.second;
	std::string fn = gets_(c, "fn"); cake_cntx_t* cx = ctxs.at(geti(c, "c", 0));
	int M = geti(c, "M", 20), N = geti(c, "N", 40), K = geti(c, "K", 9), p = geti(c, "p", 2);
	blk_dims_t x; plan_of(c, cx, &x);
	size_t big = 4096 + (size_t) (M + 64)*(K + 64) + (size_t) (K + 64)*(N + 128) + (size_t) (M + 64)*(N + 128);
	std::vector<float> a(big, 1.0f), b(big, 1.0f); void* pb; if(posix_memalign(&pb, 64, big*4)) _exit(96);
	omp_set_num_threads(p); void* out = NULL; int fd0 = count_fds(); acct_start(); long expect = 0;
	if(fn == "query") { out = cake_query_cntx(); expect = 1; }
	else if(fn == "torch") { out = cake_query_cntx_torch(1 << 20, 1 << 23); expect = 1; }
	else if(fn == "cores") get_num_physical_cores();
	else if(fn == "cache") get_cache_size(geti(c, "l", 2));
	else if(fn == "dims") { out = get_cache_dims(M, N, K, p, cx, sched_of(gets_(c, "sch", "NA")), NULL, 4, 0, 0, 0); expect = 1; }
	else if(fn == "plan") { blk_dims_t y; plan_of(c, cx, &y); }
	else if(fn == "packA") pack_A(a.data(), (float*) pb, M, K, p, &x, cx, x.sch);
	else if(fn == "packB") pack_B(a.data(), (float*) pb, K, N, p, &x, cx, x.sch);
	else if(fn == "packC") { pack_C(a.data(), (float*) pb, M, N, p, &x, cx, x.sch); unpack_C(b.data(), (float*) pb, M, N, p, &x, cx, x.sch); }
	else if(fn == "xpose") transpose_mat(a.data(), b.data(), M, N, 8, 16);
	else if(fn == "small") cake_gemm_small(a.data(), b.data(), (float*) pb, M, N, K, p, &x, cx, x.sch, NULL);
	else { fprintf(stderr, "res %s\n", fn.c_str()); _exit(97); }
	accounting = 0;
	long kept = live->size(); bool own = !out;
	for(auto& q : *live) if(q.first == out) own = true;
	emit(J().q("e", "res").q("fn", fn).i("kept", kept).i("expect", expect).b("own", own).i("badfree", n_badfree).i("popens", n_popen - n_pclose).i("fds", count_fds() - fd0).end());
	free(out); free(pb);
}

// Operands of 2^31 elements and more, which no machine of ours holds: untouched pages read as zeros, and packed
// copies live in one small file mapped over and over.  Judged is whether the call ends (inaccessible space around A).
extern "C" void* huge_block(size_t n) {
	const size_t W = 64UL << 20;
	int fd = memfd_create("huge", 0);
	if(fd < 0 || ftruncate(fd, W)) return NULL;
	size_t len = (n + W - 1)/W*W;
	char* b = (char*) mmap(NULL, len, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	if(b == MAP_FAILED) return NULL;
	for(size_t o = 0; o < len; o += W) if(mmap(b + o, W, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_FIXED, fd, 0) == MAP_FAILED) return NULL;
	close(fd);
	return b;
}
static float* zeros(size_t n) {
	const size_t G = 32UL << 30;
	char* b = (char*) mmap(NULL, n*4 + 2*G, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	if(b == MAP_FAILED || mprotect(b + G, n*4, PROT_READ)) { fprintf(stderr, "no address space\n"); _exit(98); }
	return (float*) (b + G);
}
// zero pages in which only some elements are touched
static float* sparse_zeros(size_t n) {
	float* q = (float*) mmap(NULL, n*4, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	if(q == MAP_FAILED) _exit(98);
	return q;
}
// a transpose of 2^31 elements and more: some elements are not zero; the pages of the destination they belong to are real,
// everything else of the destination is one small file mapped over and over
static void do_farx(const Cmd& c) {
	size_t K = geti(c, "K"), N = geti(c, "N"), s = geti(c, "seed"), n = K*N, P = 4096;
	omp_set_num_threads(geti(c, "p", 8));
	float* a = sparse_zeros(n); float* t = (float*) huge_block(n*4); if(!t) _exit(98);
	auto rnd = [&](size_t m) { s = s*6364136223846793005UL + 1442695040888963407UL; return (s >> 33) % m; };
	std::string cells, got; std::map<size_t, char*> pages; long unwritten = 0;
	auto put = [](std::string& o, size_t i, size_t j, int v) { o += (o.empty() ? "[" : ",[") + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(v) + "]"; };
	for(int q = 0; q < 40; q++) {
		size_t k = q < 4 ? (q & 1)*(K - 1) : rnd(K), j = q < 4 ? (q >> 1)*(N - 1) : rnd(N);
		if(a[k*N + j] == 0) { int v = 1 + q; a[k*N + j] = v; put(cells, k, j, v); }
		for(int d = 0; d < 2; d++) pages[(j*K + k + (d ? rnd(n - j*K - k) : 0))*4/P] = NULL;
	}
	for(auto& g : pages) {
		g.second = (char*) t + g.first*P;
		if(mmap(g.second, P, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED, -1, 0) == MAP_FAILED) _exit(98);
		for(size_t w = 0; w < P/4; w++) ((float*) g.second)[w] = NAN;
	}
	transpose_mat(a, t, K, N, geti(c, "Kt"), geti(c, "Nt"));
	for(auto& g : pages) for(size_t w = 0; w < P/4; w++) {
		size_t at = g.first*P/4 + w; float v = ((float*) g.second)[w];
		if(at >= n) unwritten += !std::isnan(v);
		else if(std::isnan(v)) unwritten++;
		else if(v != 0) put(got, at/K, at % K, (int) v);
	}
	emit(J().q("e", "farx").i("K", K).i("N", N).raw("cells", "[" + cells + "]").raw("got", "[" + got + "]").i("bad", unwritten).end());
	munmap(a, n*4); munmap(t, (n*4 + (64UL << 20) - 1)/(64UL << 20)*(64UL << 20));
}
// checkers on matrices of 2^31 elements and more, zero but for some elements; the planted errors are in units of 1/10000
static void do_farchk(const Cmd& c) {
	std::string fn = gets_(c, "fn"); size_t M = geti(c, "M"), N = geti(c, "N"), K = geti(c, "K", 1), s = geti(c, "seed"), n = M*N;
	auto es = errs(gets_(c, "err")); omp_set_num_threads(8); bool got;
	float *C = sparse_zeros(n), *D = fn == "gemm" ? NULL : sparse_zeros(n), *A = fn == "gemm" ? sparse_zeros(M*K) : NULL, *B = fn == "gemm" ? sparse_zeros(K*N) : NULL;
	auto rnd = [&](size_t m) { s = s*6364136223846793005UL + 1442695040888963407UL; return (s >> 33) % m; };
	if(B) for(int q = 0; q < 6; q++) B[(q ? rnd(K) : K - 1)*N + (q ? rnd(N) : N - 1)] = 2;
	for(int q = 0; q < 40; q++) {
		size_t i = q ? rnd(M) : M - 1, j = q ? rnd(N) : N - 1, k = q ? rnd(K) : K - 1; int v = 1 + q % 7;
		if(D) C[i*N + j] = D[i*N + j] = v;
		else if(A[i*K + k] == 0) { A[i*K + k] = v; for(size_t w = 0; w < N && w < 1000000; w++) if(B[k*N + w] != 0) C[i*N + w] += v*B[k*N + w]; }
	}
	for(auto& e : es) C[e[0]*N + e[1]] = plant(C[e[0]*N + e[1]], e[2]);
	int fd0 = count_fds(); acct_start();
	if(fn == "gemm") got = cake_sgemm_checker(A, B, C, N, M, K);
	else if(fn == "mat") got = mat_equals(C, D, M, N);
	else { float* arr[1] = {D}; got = add_checker(arr, C, M, N, 1); }
	accounting = 0; long leak = live->size(), bf = n_badfree;
	std::string o = "["; for(size_t i = 0; i < es.size(); i++) o += std::string(i ? ",[" : "[") + std::to_string(es[i][0]) + "," + std::to_string(es[i][1]) + "," + std::to_string(es[i][2]) + "]";
	emit(J().q("e", "chk").q("fn", "far " + fn).i("M", M).i("N", N).i("K", K).i("p", 1).raw("err", o + "]").i("many", 0).i("md", 0).i("both", 0).b("wrong", got).b("frame", true).i("leakb", leak).i("badfree", bf).i("fds", count_fds() - fd0).end());
	munmap(C, n*4); if(D) munmap(D, n*4); if(A) munmap(A, M*K*4); if(B) munmap(B, K*N*4);
}
static void do_big(const Cmd& c) {
	size_t M = geti(c, "M"), N = geti(c, "N"), K = geti(c, "K");
	std::vector<float> C(M*N);
	cake_cntx_t* cx = ctxs.at(geti(c, "c", 0));
	fn_of(gets_(c, "fn"))(zeros(M*K), zeros(K*N), C.data(), M, N, K, geti(c, "p"), cx, NULL, 0, 0, 1, 0, sched_of(gets_(c, "sch")), geti(c, "mcu"), geti(c, "kcu"), geti(c, "ncu"));
	emit(J().q("e", "big").b("ok", true).end());
}

// Operands of more than 2^31 bytes (but fewer than 2^31 elements), zero except for a few elements.  The event lists the
// elements that are not zero in A, in B and (all of them) in C.
static void do_vast(const Cmd& c) {
	size_t M = geti(c, "M"), N = geti(c, "N"), K = geti(c, "K"), s = geti(c, "seed");
	auto alloc = [](size_t n) { float* q = (float*) mmap(NULL, n*4, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); if(q == MAP_FAILED) _exit(98); return q; };
	float *A = alloc(M*K), *B = alloc(K*N), *C = alloc(M*N);
	auto rnd = [&](size_t n) { s = (s*6364136223846793005UL + 1442695040888963407UL); return (s >> 33) % n; };
	auto pick = [&](size_t n) { size_t r = rnd(5); return r == 0 ? 0 : r == 1 ? n - 1 : rnd(n); };
	std::vector<size_t> ks = {0, K - 1, K/2, rnd(K), rnd(K), rnd(K)};
	std::string a, b, r;
	auto put = [](std::string& t, size_t i, size_t j, int v) { t += (t.empty() ? "[" : ",[") + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(v) + "]"; };
	for(int q = 0; q < 14; q++) { size_t i = q ? pick(M) : M - 1, k = q ? ks[rnd(6)] : K - 1; if(A[i*K + k] == 0) { int v = 1 + rnd(5); A[i*K + k] = v; put(a, i, k, v); } }
	for(int q = 0; q < 14; q++) { size_t j = q ? pick(N) : N - 1, k = q ? ks[rnd(6)] : K - 1; if(B[k*N + j] == 0) { int v = 1 + rnd(5); B[k*N + j] = v; put(b, k, j, v); } }
	cake_cntx_t* cx = ctxs.at(geti(c, "c", 0));
	fn_of(gets_(c, "fn"))(A, B, C, M, N, K, geti(c, "p"), cx, NULL, 0, 0, 1, 0, sched_of(gets_(c, "sch", "NA")), geti(c, "mcu"), geti(c, "kcu"), geti(c, "ncu"));
	int n = 0;
	for(size_t e = 0; e < M*N && n < 500; e++) if(C[e] != 0) { put(r, e/N, e % N, C[e] > 0 && C[e] < 1e6f && C[e] == floorf(C[e]) ? (int) C[e] : -1); n++; }
	emit(J().q("e", "vast").i("M", M).i("N", N).i("K", K).raw("a", "[" + a + "]").raw("b", "[" + b + "]").raw("r", "[" + r + "]").end());
	munmap(A, M*K*4); munmap(B, K*N*4); munmap(C, M*N*4);
}

static bool run_more(const Cmd& c) {
	const std::string& k = c.at("_");
	if(k == "plan") do_plan(c);
	else if(k == "setsched") do_setsched(c);
	else if(k == "psize") do_psize(c);
	else if(k == "pack") do_pack(c);
	else if(k == "pob") do_pob(c);
	else if(k == "kern") do_kern(c);
	else if(k == "xpose") do_xpose(c);
	else if(k == "machine") do_machine(c);
	else if(k == "grid") do_grid(c);
	else if(k == "gridtable") do_gridtable(c);
	else if(k == "chk") do_chk(c);
	else if(k == "res") do_res(c);
	else if(k == "big") do_big(c);
	else if(k == "vast") do_vast(c);
	else if(k == "farx") do_farx(c);
	else if(k == "farchk") do_farchk(c);
	else return false;
	return true;
}
