// Native implementation of the specification intrinsics: replay of verifier
// countermodels against the real code, and the bounded randomised stand-in.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include <exception>
#include <random>
#include <limits>
#include <dlfcn.h>
#include <sys/time.h>
#include <csignal>
#include <unistd.h>
#include <mpi.h>
#include "vp.h"
#include "Exception.h"

static std::map<std::string, std::string> g_vals;
static bool g_replay = false;
static std::mt19937_64 g_rng(1);
static std::map<std::string, int> g_names;
static std::map<std::string, std::string> g_trace;
static int g_fail = 0, g_checks = 0;
static std::string g_firstlabel;
struct AssumeFailed {};
static std::map<std::string, std::vector<int> > g_fix;

static std::string uniq(const char * n) {
	int k = g_names[n]++;
	std::string s(n);
	if (k) { char b[32]; snprintf(b, 32, "#%d", k); s += b; }
	return s;
}
static double unif(double a, double b) { return std::uniform_real_distribution<double>(a, b)(g_rng); }
static bool get(const std::string & n, double & v) {
	std::map<std::string, std::string>::iterator it = g_vals.find(n);
	if (it == g_vals.end()) return false;
	v = strtod(it->second.c_str(), 0);
	return true;
}
static void note(const std::string & n, double v) { char b[64]; snprintf(b, 64, "%.17g", v); g_trace[n] = b; }

static void failed(const char * label, const char * extra) {
	g_fail++;
	if (g_fail == 1) g_firstlabel = label;
	if (g_fail <= 5) printf("VPFAIL %s | %s\n", label, extra);
}

extern "C" {
double vp_real(const char * name) {
	std::string n = uniq(name); double v;
	if (!(g_replay && get(n, v))) v = g_replay ? 0.5 : ((g_rng() % 12) == 0 ? 0.0 : unif(-3.0, 3.0));
	note(n, v); return v;
}
double vp_real_in(const char * name, double lo, double hi) {
	std::string n = uniq(name); double v;
	if (!(g_replay && get(n, v))) {
		if (g_replay) v = 0.5 * (lo + hi);
		else if (lo >= 0.0 && hi - lo > 1000.0) v = exp(unif(log(lo + 1e-3), log(hi)));
		else { int k = g_rng() % 24; v = k == 0 ? lo : k == 1 ? hi : (k == 2 && lo <= 0 && hi >= 0) ? 0.0 : unif(lo, hi); }
	}
	if (v < lo) v = lo;
	if (v > hi) v = hi;
	note(n, v); return v;
}
int vp_int(const char * name, int lo, int hi) {
	std::string n = uniq(name); double v;
	if (g_replay && get(n, v)) { note(n, v); int r = (int)v; if (r < lo || r > hi) throw AssumeFailed(); return r; }
	long long w = (long long)hi - lo + 1;
	long long r;
	int k = g_rng() % 16;
	if (g_replay) r = lo;
	else if (k == 0) r = lo;
	else if (k == 1) r = hi;
	else if (k < 4) { long long a = (long long)(g_rng() % 5) - 2; r = a < lo ? lo : a > hi ? hi : a; }
	else r = lo + (long long)(g_rng() % (unsigned long long)w);
	note(n, (double)r); return (int)r;
}
int vp_choice(const char * name, int lo, int hi) {
	std::map<std::string, std::vector<int> >::iterator it = g_fix.find(name);
	if (it != g_fix.end() && !g_replay) {
		std::string n = uniq(name);
		int r = it->second[g_rng() % it->second.size()];
		note(n, r); return r;
	}
	std::string n = uniq(name); double v;
	if (g_replay && get(n, v)) { note(n, v); return (int)v; }
	int r = g_replay ? lo : lo + (int)(g_rng() % (unsigned)(hi - lo + 1));
	note(n, r); return r;
}
void vp_assume(bool c) { if (!c) throw AssumeFailed(); }
void vp_check(bool c, const char * label) { g_checks++; if (!c) failed(label, "condition false"); }
void vp_eq(double a, double b, const char * label) {
	g_checks++;
	double s = fmax(1.0, fmax(fabs(a), fabs(b)));
	if (!(fabs(a - b) <= 1e-8 * s)) { char e[200]; snprintf(e, 200, "%.17g vs %.17g", a, b); failed(label, e); }
}
void vp_eq_tol(double a, double b, double tol, const char * label) {
	g_checks++;
	if (!(fabs(a - b) <= 64 * tol * fmax(1.0, fmax(fabs(a), fabs(b))))) { char e[200]; snprintf(e, 200, "%.17g vs %.17g", a, b); failed(label, e); }
}
int vp_symbolic() { return 0; }
void vp_reach(const char *) {}
void vp_replace(const char *, void (*)()) {}
void vp_merge(int) {}
void vp_loop_general(const char *, void *, int) {}
void vp_loop(const char *, int (*)(void *), void *, int, int (*)(void *, int)) {}
void vp_overflow_check(int) {}
void vp_ieee(int) {}
void vp_sym_array(double * p, int n, const char * name) {
	std::string nm = uniq(name);
	for (int k = 0; k < n; k++) {
		char b[200]; snprintf(b, 200, "%s[%d]", nm.c_str(), k);
		double v;
		if (!(g_replay && get(b, v))) v = g_replay ? 0.5 + 0.01 * k : unif(-3.0, 3.0);
		note(b, v); p[k] = v;
	}
}
double * vp_alloc_array(long n, const char * name) {
	double * p = (double*)malloc(sizeof(double) * (n > 0 ? n : 1));
	vp_sym_array(p, (int)n, name);
	return p;
}
void vp_poison(double * p, int n) { for (int k = 0; k < n; k++) p[k] = std::numeric_limits<double>::quiet_NaN(); }
int vp_is_poison(double * p) { return *p != *p; }
void vp_print(const char * s, double x) { printf("%s %.17g\n", s, x); }
}

typedef void (*entry_t)();
static const char * g_entry = "";
static void onsig(int s) {
	char b[128]; int n = snprintf(b, 128, "VPFAIL crash | signal %d in %s\n", s, g_entry);
	if (write(1, b, n)) {}
	_exit(1);
}
static double now() { struct timeval t; gettimeofday(&t, 0); return t.tv_sec + 1e-6 * t.tv_usec; }

int main(int argc, char ** argv) {
	const char * ent = 0; const char * rep = 0; double secs = 5; long runs = 1000; unsigned long seed = 1;
	for (int i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--entry")) ent = argv[++i];
		else if (!strcmp(argv[i], "--replay")) rep = argv[++i];
		else if (!strcmp(argv[i], "--seconds")) secs = atof(argv[++i]);
		else if (!strcmp(argv[i], "--runs")) runs = atol(argv[++i]);
		else if (!strcmp(argv[i], "--seed")) seed = atol(argv[++i]);
		else if (!strcmp(argv[i], "--fix")) {
			std::string s(argv[++i]); size_t e = s.find('=');
			std::string n = s.substr(0, e), v = s.substr(e + 1); size_t p = 0;
			while (p < v.size()) { g_fix[n].push_back(atoi(v.c_str() + p)); p = v.find(',', p); if (p == std::string::npos) break; p++; }
		}
	}
	setvbuf(stdout, 0, _IOLBF, 0);
	signal(SIGSEGV, onsig); signal(SIGABRT, onsig); signal(SIGFPE, onsig); signal(SIGALRM, onsig);
	void * h = dlopen(0, RTLD_NOW);
	entry_t f = (entry_t)dlsym(h, ent);
	if (!f) { printf("VPERR no entry %s\n", ent); return 2; }
	g_entry = ent;
	g_rng.seed(seed);
	if (rep) {
		g_replay = true; runs = 1;
		FILE * fp = fopen(rep, "r"); char n[512], v[128];
		while (fp && fscanf(fp, "%511s %127s", n, v) == 2) g_vals[n] = v;
		if (fp) fclose(fp);
	}
	double t0 = now(); long done = 0, skipped = 0;
	while (done + skipped < runs && now() - t0 < secs) {
		g_names.clear(); g_trace.clear();
		alarm(rep ? 60 : 60);
		bool skip = false;
		try { f(); }
		catch (AssumeFailed &) { skip = true; }
		catch (Exception & e) { failed("no exception escapes", "Exception thrown"); }
		catch (std::exception & e) { failed("no exception escapes", e.what()); }
		if (skip) skipped++; else done++;
		if (g_fail) {
			for (std::map<std::string, std::string>::iterator it = g_trace.begin(); it != g_trace.end(); ++it)
				printf("VPVAL %s %s\n", it->first.c_str(), it->second.c_str());
			break;
		}
	}
	printf("VPDONE runs=%ld skipped=%ld checks=%d fail=%d\n", done, skipped, g_checks, g_fail);
	fflush(stdout);
	_exit(g_fail ? 1 : 0);
}
