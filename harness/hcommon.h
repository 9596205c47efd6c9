// Shared by the three harnesses: command parsing, operand generation (mirrored in spec/Gen.tla),
// operand placement between inaccessible pages, forked sessions.
#pragma once
#include "cake.h"
#include "undef_asm.h"
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>

typedef std::map<std::string, std::string> Cmd;

static inline long geti(const Cmd& c, const char* k, long d = 0) {
	auto it = c.find(k);
	return it == c.end() ? d : strtol(it->second.c_str(), NULL, 10);
}
static inline double getd(const Cmd& c, const char* k, double d = 0) {
	auto it = c.find(k);
	return it == c.end() ? d : strtod(it->second.c_str(), NULL);
}
static inline std::string gets_(const Cmd& c, const char* k, const char* d = "") {
	auto it = c.find(k);
	return it == c.end() ? std::string(d) : it->second;
}
static inline Cmd parse(const char* line) {
	Cmd c; std::string s(line); size_t i = 0; bool first = true;
	while(i < s.size()) {
		while(i < s.size() && isspace((unsigned char) s[i])) i++;
		size_t j = i;
		while(j < s.size() && !isspace((unsigned char) s[j])) j++;
		if(j > i) {
			std::string t = s.substr(i, j - i);
			size_t e = t.find('=');
			if(first) { c["_"] = t; first = false; }
			else if(e != std::string::npos) c[t.substr(0, e)] = t.substr(e + 1);
		}
		i = j;
	}
	return c;
}

// ---- operand values (Gen.tla: Val, AVal, BVal, CVal)
static const int Q = 4099, P = 32749;
static inline int gval(long s, long i) {
	long x = (i*1031 + s*97 + 13) % Q;
	long v = (x*x + 7*x) % Q % 5 - 2;
	return (int) (v == 0 ? 3 : v);
}
static inline int aval(long s, int i, int k) { return gval(4*s, i)*gval(4*s+1, k) + gval(4*s+2, i)*gval(4*s+3, k); }
static inline int cval(long s, int i, int j) { return gval(4*s, i)*gval(4*s+1, j); }
static inline int uw(int i) { return (int) ((((long) i*i) % P * 17 + (long) i*1237 + 101) % P); }
static inline int vw(int j) { return (int) ((((long) j*j) % P * 29 + (long) j*2003 + 57) % P); }

static inline enum sched sched_of(const std::string& s) {
	if(s == "KMN") return KMN;
	if(s == "MKN") return MKN;
	if(s == "NKM") return NKM;
	return NA;
}
static inline const char* sched_name(int s) { return s == KMN ? "KMN" : s == MKN ? "MKN" : s == NKM ? "NKM" : "NA"; }

// ---- operands between inaccessible pages
struct Guarded {
	char* map; size_t len; float* p; size_t n; char place; bool ro;
	unsigned char* canary_lo; size_t clo; unsigned char* canary_hi; size_t chi;
};
static const size_t PG = 4096;
// place 'e': last element ends at an inaccessible page; 's': first element starts after one; align in bytes
static inline Guarded galloc(size_t n, char place, size_t align = 4) {
	Guarded g; size_t bytes = n*sizeof(float);
	size_t body = (bytes + 2*64 + PG - 1)/PG*PG;
	if(!body) body = PG;
	g.len = body + 2*PG; g.n = n; g.place = place; g.ro = false;
	g.map = (char*) mmap(NULL, g.len, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
	if(g.map == MAP_FAILED) { fprintf(stderr, "mmap failed\n"); _exit(90); }
	mprotect(g.map, PG, PROT_NONE);
	mprotect(g.map + PG + body, PG, PROT_NONE);
	char* lo = g.map + PG; char* hi = lo + body;
	memset(lo, 0xA5, body);
	char* q = place == 's' ? lo : hi - bytes;
	if(place != 's') q = (char*) ((size_t) q / align * align);
	g.p = (float*) q;
	g.canary_lo = (unsigned char*) lo; g.clo = q - lo;
	g.canary_hi = (unsigned char*) q + bytes; g.chi = hi - (q + bytes);
	return g;
}
static inline bool gintact(const Guarded& g) {
	for(size_t i = 0; i < g.clo; i++) if(g.canary_lo[i] != 0xA5) return false;
	for(size_t i = 0; i < g.chi; i++) if(g.canary_hi[i] != 0xA5) return false;
	return true;
}
static inline void gro(Guarded& g) { mprotect(g.map + PG, g.len - 2*PG, PROT_READ); g.ro = true; }
static inline void grw(Guarded& g) { mprotect(g.map + PG, g.len - 2*PG, PROT_READ|PROT_WRITE); g.ro = false; }
static inline void gfree(Guarded& g) { munmap(g.map, g.len); }

// ---- output
static int outfd = 1;
static void emit(const std::string& s) {
	std::string t = s + "\n";
	size_t o = 0;
	while(o < t.size()) { ssize_t w = write(outfd, t.data() + o, t.size() - o); if(w <= 0) _exit(91); o += w; }
}
struct J {
	std::string s = "{"; bool f = true;
	void key(const char* k) { if(!f) s += ","; f = false; s += "\""; s += k; s += "\":"; }
	J& i(const char* k, long v) { key(k); s += std::to_string(v); return *this; }
	J& b(const char* k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
	J& q(const char* k, const std::string& v) { key(k); s += "\"" + v + "\""; return *this; }
	J& raw(const char* k, const std::string& v) { key(k); s += v; return *this; }
	std::string end() { return s + "}"; }
};

static inline int count_fds() {
	int n = 0; DIR* d = opendir("/proc/self/fd");
	if(!d) return -1;
	while(readdir(d)) n++;
	closedir(d);
	return n;
}

static cake_cntx_t* make_ctx(const Cmd& c) {
	cake_cntx_t* x = cake_query_cntx();
	if(c.count("L1")) x->L1 = geti(c, "L1");
	if(c.count("L2")) x->L2 = geti(c, "L2");
	if(c.count("L3")) x->L3 = geti(c, "L3");
	if(c.count("nc")) x->ncores = geti(c, "nc");
	if(c.count("mr")) update_mr_nr(x, geti(c, "mr"), geti(c, "nr"));
	return x;
}

typedef double gemm_fn(float*, float*, float*, int, int, int, int, cake_cntx_t*, char**, bool, bool, float, float, enum sched, int, int, int);
static double call_2dsmall(float* A, float* B, float* C, int M, int N, int K, int p, cake_cntx_t* x, char** av, bool pa, bool pb, float al, float be, enum sched s, int, int, int) {
	return cake_sgemm_2d_small(A, B, C, M, N, K, p, x, av, pa, pb, al, be, s);
}
static double call_test(float* A, float* B, float* C, int M, int N, int K, int p, cake_cntx_t* x, char** av, bool pa, bool pb, float al, float be, enum sched s, int, int, int) {
	return cake_sgemm_test(A, B, C, M, N, K, p, x, av, pa, pb, al, be, s);
}
static gemm_fn* fn_of(const std::string& f) {
	if(f == "gemm") return cake_sgemm;
	if(f == "online") return cake_sgemm_online;
	if(f == "2d") return cake_sgemm_2d;
	if(f == "2dsmall") return call_2dsmall;
	if(f == "test") return call_test;
	fprintf(stderr, "unknown entry %s\n", f.c_str()); _exit(92);
}

// ---- sessions: the command file is cut at lines "session id=..."; each session runs in its own
// child process.  A child that dies or hangs yields an event {"e":"died"} naming the command.
static int* g_progress;      // shared with the parent: index of the command being run
static int run_sessions(const char* cmdfile, const char* outfile, void (*run)(const Cmd&), void (*begin)(), int tmo) {
	FILE* f = fopen(cmdfile, "r");
	if(!f) { perror(cmdfile); return 2; }
	std::vector<std::vector<std::string>> ses;
	std::vector<char> buf(1 << 16);
	while(fgets(buf.data(), buf.size(), f)) {
		std::string l(buf.data());
		while(!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back();
		if(l.empty()) continue;
		if(l.compare(0, 7, "session") == 0) ses.push_back({});
		if(ses.empty()) ses.push_back({});
		ses.back().push_back(l);
	}
	fclose(f);
	outfd = open(outfile, O_WRONLY|O_CREAT|O_TRUNC|O_APPEND, 0644);
	if(outfd < 0) { perror(outfile); return 2; }
	g_progress = (int*) mmap(NULL, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	int hangs = 0;
	for(auto& cmds : ses) {
		if(hangs == 2) break;      // two sessions hung: that is reported, the others are not waited for
		*g_progress = -1;
		fflush(stdout);
		pid_t pid = fork();
		if(pid == 0) {
			int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); close(dn);   // the library prints
			if(begin) begin();
			for(size_t i = 0; i < cmds.size(); i++) {
				*g_progress = (int) i;
				run(parse(cmds[i].c_str()));
			}
			_exit(0);
		}
		int st = 0; double waited = 0; pid_t r; bool killed = false;
		while((r = waitpid(pid, &st, WNOHANG)) == 0) {
			usleep(500); waited += 0.0005;
			if(waited > tmo) { kill(pid, SIGKILL); killed = true; waitpid(pid, &st, 0); break; }
		}
		if(killed) hangs++;
		if(killed || !WIFEXITED(st) || WEXITSTATUS(st) != 0) {
			int k = *g_progress < 0 ? 0 : *g_progress;
			std::string why = killed ? "hang" : WIFSIGNALED(st) ? "signal" : "exit";
			std::string cm = cmds[k];
			for(auto& ch : cm) if(ch == '"' || ch == '\\') ch = '\'';
			emit(J().q("e", "died").q("why", why).i("code", killed ? 0 : WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)).q("cmd", cm).end());
		}
	}
	close(outfd);
	return 0;
}
