#ifndef VP_H
#define VP_H
// Specification intrinsics.  Symbolically: interpreted by engine/externs.py.
// Natively (replay, bounded supplement): implemented by engine/vp_native.cpp.
extern "C" {
double vp_real(const char * name);
double vp_real_in(const char * name, double lo, double hi);
int vp_int(const char * name, int lo, int hi);
int vp_choice(const char * name, int lo, int hi);
void vp_assume(bool c);
void vp_check(bool c, const char * label);
void vp_eq(double a, double b, const char * label);
void vp_eq_tol(double a, double b, double tol, const char * label);
int vp_symbolic();
void vp_reach(const char * label);
void vp_replace(const char * callee, void (*stub)());
void vp_merge(int on);
void vp_loop_general(const char * fn, void * scalar, int bytes);
void vp_loop(const char * fn, int (*inv)(void *), void * arg, int ncand, int (*cand)(void *, int));
void vp_overflow_check(int on);
void vp_ieee(int on);
void vp_sym_array(double * p, int n, const char * name);
double * vp_alloc_array(long n, const char * name);
void vp_poison(double * p, int n);
int vp_is_poison(double * p);
void vp_print(const char * s, double x);
}
#endif
