// Time stepping schemes.  Ghost state: every data instance carries the coefficients of
// its expansion over coloured rooted trees (a B-series), i.e. its exact dependence on
// the time step for EVERY right-hand side y' = f_H(y) + f_V(y) + f_I(y): colour 0 is the
// horizontal explicit tendency, 1 the vertical explicit tendency, 2 the vertical implicit
// tendency.  A scheme is of order p iff the coefficients of all trees up to order p are
// those of the exact flow.  State and tracers carry separate expansions.
#include "vp.h"
#include "Model.h"
#include "Grid.h"
#include "HorizontalDynamics.h"
#include "VerticalDynamics.h"
#include "VerticalDynamicsFEM.h"
#include "TimestepSchemeStrang.h"
#include "TimestepSchemeERK.h"
#include "TimestepSchemeARS222.h"
#include "TimestepSchemeARS232.h"
#include "TimestepSchemeARK232.h"
#include "TimestepSchemeGARK2.h"
#include "TimestepSchemeARS343.h"
#include "TimestepSchemeARS343b.h"
#include "TimestepSchemeARS443.h"
#include "TimestepSchemeSSP3332.h"
#include "TimestepSchemeSplitExp.h"
#include "trees.h"
#include <new>
#include <cmath>

#define MAXI 10
static double g_c[2][MAXI][NT];    // tree coefficients
static double g_one[2][MAXI];      // coefficient of the initial value
static int g_set[2][MAXI];         // holds data derived from instance 0
static int g_rough[2][MAXI];       // element edges not yet made continuous
static int g_n;                    // instances the scheme declares
static int g_act[NT], g_nact, g_after, g_bad;
static double g_h, g_dtafter;
static int g_half;                 // Strang: horizontal part present only

static void activate(int mask, int order) {
	g_nact = 0;
	for (int t = 0; t < NT; t++) if ((T_MASK[t] & ~mask) == 0 && T_ORD[t] <= order) g_act[g_nact++] = t;
}
static bool in(int k) { return k >= 0 && k < g_n; }
static bool use(int e, int k) {
	bool ok = in(k) && g_set[e][k];
	vp_check(ok, "only existing instances that hold data of this step are used");
	return ok;
}
static bool tgt(int k) { vp_check(in(k), "only existing instances are written"); return in(k); }
static int ty(int e) { vp_check(e == DataType_State || e == DataType_Tracers, "data type"); return e == DataType_Tracers; }

extern "C" void g_copy(Grid *, int s, int d, DataType t) {
	int e = ty(t);
	if (!use(e, s) || !tgt(d) || s == d) return;
	for (int k = 0; k < g_nact; k++) g_c[e][d][g_act[k]] = g_c[e][s][g_act[k]];
	g_one[e][d] = g_one[e][s]; g_set[e][d] = 1; g_rough[e][d] = g_rough[e][s];
}
extern "C" void g_combine(Grid *, const DataArray1D<double> & w, int d, DataType t) {
	int e = ty(t), n = w.GetRows();
	vp_check(d >= 0 && d < n && n <= g_n, "combination weights fit the instances");
	if (d < 0 || d >= n || n > g_n) return;
	double c[NT], one = 0.0; int rough = 0;
	for (int k = 0; k < g_nact; k++) c[g_act[k]] = 0.0;
	for (int m = 0; m < n; m++) {
		if (w[m] == 0.0) continue;
		if (!use(e, m)) return;
		for (int k = 0; k < g_nact; k++) c[g_act[k]] += w[m] * g_c[e][m][g_act[k]];
		one += w[m] * g_one[e][m]; rough |= g_rough[e][m];
	}
	for (int k = 0; k < g_nact; k++) g_c[e][d][g_act[k]] = c[g_act[k]];
	g_one[e][d] = one; g_set[e][d] = 1; g_rough[e][d] = rough;
}
static void tendency(int color, int a, int u, double dt, bool rough) {
	for (int e = 0; e < 2; e++) {
		if (!use(e, a) || !use(e, u)) return;
		vp_eq_tol(g_one[e][a], 1.0, 1e-12, "tendencies are evaluated at a consistent stage value");
		if (color == 0) vp_check(!g_rough[e][a], "tendencies are evaluated on data made continuous across elements");
		double d[NT];
		for (int k = 0; k < g_nact; k++) {
			int t = g_act[k];
			if (T_COL[t] != color) continue;
			double p = T_MF[t];
			for (int j = 0; j < T_NCH[t]; j++) p *= g_c[e][a][T_CH[t][j]];
			d[t] = dt * p;
		}
		for (int k = 0; k < g_nact; k++) if (T_COL[g_act[k]] == color) g_c[e][u][g_act[k]] += d[g_act[k]];
		if (rough) g_rough[e][u] = 1;
	}
}
static void implicit(int a, int u, double dt) {
	for (int e = 0; e < 2; e++) {
		if (!use(e, a) || !tgt(u)) return;
		vp_eq_tol(g_one[e][a], 1.0, 1e-12, "implicit stages start from a consistent value");
		for (int k = 0; k < g_nact; k++) {
			int t = g_act[k];
			double v = g_c[e][a][t];
			if (T_COL[t] == 2) {
				double p = T_MF[t];
				for (int j = 0; j < T_NCH[t]; j++) p *= g_c[e][u][T_CH[t][j]];
				v += dt * p;
			}
			g_c[e][u][t] = v;
		}
		g_one[e][u] = g_one[e][a]; g_set[e][u] = 1; g_rough[e][u] = g_rough[e][a];
	}
}
class GhostGrid : public Grid {
public:
	GhostGrid(Model & m) : Grid(m) { }
	virtual void PostProcessSubstage(int k, DataType t) { int e = ty(t); if (use(e, k)) g_rough[e][k] = 0; }
};
class GhostH : public HorizontalDynamics {
public:
	GhostH(Model & m) : HorizontalDynamics(m) { }
	virtual void StepExplicit(int a, int u, const Time &, double dt) { tendency(0, a, u, dt, true); }
	virtual void StepExplicitCombine(const DataArray1D<int> & ix, const DataArray1D<double> & w, int a, int u, const Time & t, double dt) {
		combine(ix, w, u); tendency(0, a, u, dt, true);
	}
	virtual void StepImplicitCombine(const DataArray1D<int> & ix, const DataArray1D<double> & w, int a, int u, const Time & t, double dt) {
		combine(ix, w, u); implicit(u, u, dt);
	}
	void combine(const DataArray1D<int> & ix, const DataArray1D<double> & w, int d) {
		int n = ix.GetRows();
		vp_check(n >= 1 && n <= MAXI && (int)w.GetRows() == n && in(d), "one weight per combined instance");
		for (int m = 1; m < n; m++) vp_check(ix[m] != d, "an instance combined into itself comes first");
		if (n < 1 || n > MAXI || !in(d)) return;
		for (int e = 0; e < 2; e++) {
			double c[NT], one = 0.0; int rough = 0;
			for (int k = 0; k < g_nact; k++) c[g_act[k]] = 0.0;
			for (int m = 0; m < n; m++) {
				if (!use(e, ix[m])) return;
				for (int k = 0; k < g_nact; k++) c[g_act[k]] += w[m] * g_c[e][ix[m]][g_act[k]];
				one += w[m] * g_one[e][ix[m]]; rough |= g_rough[e][ix[m]];
			}
			for (int k = 0; k < g_nact; k++) g_c[e][d][g_act[k]] = c[g_act[k]];
			g_one[e][d] = one; g_set[e][d] = 1; g_rough[e][d] = rough;
		}
	}
	void after(int w, double dt) {
		g_after++; g_dtafter = dt;
		if (tgt(w)) for (int e = 0; e < 2; e++) g_set[e][w] = 0;
	}
	virtual void StepAfterSubCycle(int a, int u, int w, const Time &, double dt) {
		vp_check(a != u && a != w && u != w, "diffusion buffers are distinct");
		for (int e = 0; e < 2; e++) {
			if (!use(e, a) || !tgt(u)) return;
			vp_check(!g_rough[e][a], "diffusion starts from continuous data");
			for (int k = 0; k < g_nact; k++) g_c[e][u][g_act[k]] = g_c[e][a][g_act[k]];
			g_one[e][u] = g_one[e][a]; g_set[e][u] = 1; g_rough[e][u] = g_rough[e][a];
		}
		after(w, dt);
	}
	virtual void StepAfterSubCycleCombine(int u, int w, const Time &, double dt) {
		vp_check(u != w, "diffusion buffers are distinct");
		for (int e = 0; e < 2; e++) if (use(e, u)) vp_check(!g_rough[e][u], "diffusion starts from continuous data");
		after(w, dt);
	}
};
class GhostV : public VerticalDynamics {
public:
	GhostV(Model & m) : VerticalDynamics(m) { }
	virtual void StepExplicit(int a, int u, const Time &, double dt) { tendency(1, a, u, dt, false); }
	virtual void StepImplicitTermsExplicitly(int a, int u, const Time &, double dt) { tendency(2, a, u, dt, false); }
	virtual void StepImplicit(int a, int u, const Time &, double dt) { implicit(a, u, dt); }
};
static char g_mem[sizeof(Model)];
static char g_vmem[sizeof(VerticalDynamicsFEM)];
static Model & setup(int n, int nt) {
	vp_replace("_ZN4Grid8CopyDataEii8DataType", (void (*)())g_copy);
	vp_replace("_ZN4Grid17LinearCombineDataERK11DataArray1DIdEi8DataType", (void (*)())g_combine);
	Model & m = *(Model *)g_mem;
	m.m_pGrid = new GhostGrid(m);
	m.m_pHorizontalDynamics = new GhostH(m);
	m.m_pVerticalDynamics = new (g_vmem) GhostV(m);
	vp_check(n == nt && n >= 1 && n <= MAXI, "state and tracers have the same number of instances");
	g_n = n;
	g_after = 0; g_dtafter = 0.0;
	for (int e = 0; e < 2; e++) for (int k = 0; k < MAXI; k++) {
		g_set[e][k] = k == 0; g_rough[e][k] = 0; g_one[e][k] = 1.0;
		for (int t = 0; t < NT; t++) g_c[e][k][t] = 0.0;
	}
	g_h = vp_real_in("dt", 1e-3, 1e3);
	return m;
}
static void final(int mask, const char * label) {
	for (int e = 0; e < 2; e++) {
		if (!use(e, 0)) return;
		vp_eq_tol(g_one[e][0], 1.0, 1e-12, "the step starts from the previous value");
		vp_check(!g_rough[e][0], "the new value is continuous across elements");
		for (int k = 0; k < g_nact; k++) {
			int t = g_act[k];
			double hp = g_h;
			for (int j = 1; j < T_ORD[t]; j++) hp *= g_h;
			vp_eq_tol(g_c[e][0][t] / hp, (T_MASK[t] & ~mask) ? 0.0 : T_EXACT[t], 1e-9, label);
		}
	}
}
static void after_once() {
	vp_check(g_after == 1, "diffusion is applied once per step");
	vp_eq(g_dtafter, g_h, "diffusion is applied over the whole step");
}
#define GO(S, order, mask) do { \
	Model & m = *(Model *)g_mem; S s(m); \
	setup(s.GetComponentDataInstances(), s.GetTracerDataInstances()); \
	activate(mask, order); Time t; \
	s.Step(vp_choice("first", 0, 1), vp_choice("last", 0, 1), t, g_h); \
	final(mask, "the step agrees with the exact solution to the order of the scheme"); after_once(); } while (0)

extern "C" void vc_ars222() { GO(TimestepSchemeARS222, 2, 7); }
extern "C" void vc_ars232() { GO(TimestepSchemeARS232, 2, 7); }
extern "C" void vc_ars343() { GO(TimestepSchemeARS343, 3, 7); }
extern "C" void vc_ars343b() { GO(TimestepSchemeARS343b, 3, 5); }
extern "C" void vc_ars443() { GO(TimestepSchemeARS443, 3, 7); }
extern "C" void vc_ark232() { GO(TimestepSchemeARK232, 2, 7); }
extern "C" void vc_gark2() { GO(TimestepSchemeGARK2, 2, 7); }
extern "C" void vc_ssp3332() { GO(TimestepSchemeSSP3332, 2, 7); }
static const int ERKORD[5] = {1, 4, 3, 3, 3};
extern "C" void vc_erk() {
	int d = vp_choice("method", 0, 4);
	Model & m = *(Model *)g_mem;
	TimestepSchemeERK s(m, (TimestepSchemeERK::ExplicitDiscretization)d);
	setup(s.GetComponentDataInstances(), s.GetTracerDataInstances());
	activate(1, ERKORD[d]); Time t;
	((TimestepScheme &)s).Step(vp_choice("first", 0, 1), vp_choice("last", 0, 1), t, g_h);
	final(1, "the step agrees with the exact solution to the order of the scheme"); after_once();
}

// order required of a tree: explicit trees to the order of the explicit method, all others to n
static void activate2(int n, int nexp) {
	g_nact = 0;
	for (int t = 0; t < NT; t++) if (T_ORD[t] <= ((T_MASK[t] & 4) ? n : nexp)) g_act[g_nact++] = t;
}
// between steps instance 1 carries the increment of the closing vertical half step,
// h/2 f_I at the new value (off-centering 0)
extern "C" void vc_strang() {
	int d = vp_choice("method", 0, 4), first = vp_choice("first", 0, 1), last = vp_choice("last", 0, 1);
	Model & m = *(Model *)g_mem;
	TimestepSchemeStrang s(m, 0.0, (TimestepSchemeStrang::ExplicitDiscretization)d);
	setup(s.GetComponentDataInstances(), s.GetTracerDataInstances());
	activate2(first ? 1 : ERKORD[d] < 2 ? 1 : 2, ERKORD[d]); Time t;
	if (!first) for (int e = 0; e < 2; e++) { g_set[e][1] = 1; g_one[e][1] = 0.0; g_c[e][1][2] = 0.5 * g_h; }
	((TimestepScheme &)s).Step(first, last, t, g_h);
	final(7, "the step agrees with the exact solution to the order of the scheme"); after_once();
	if (last) return;
	for (int e = 0; e < 2; e++) {
		if (!use(e, 1)) return;
		vp_eq_tol(g_one[e][1], 0.0, 1e-12, "the carried increment vanishes with the time step");
		for (int k = 0; k < g_nact; k++) {
			int t = g_act[k];
			double p = 0.0, hp = g_h;
			if (T_COL[t] == 2) { p = 0.5 * g_h * T_MF[t]; for (int j = 0; j < T_NCH[t]; j++) p *= g_c[e][0][T_CH[t][j]]; }
			for (int j = 1; j < T_ORD[t]; j++) hp *= g_h;
			vp_eq_tol(g_c[e][1][t] / hp, p / hp, 1e-9, "the carried increment is half a step of the vertical tendency at the new value");
		}
	}
}
extern "C" void vc_strang_offcenter() {
	int d = vp_choice("method", 0, 4), first = vp_choice("first", 0, 1), last = vp_choice("last", 0, 1);
	double th = vp_real_in("offcentering", -1.0, 2.0);
	Model & m = *(Model *)g_mem;
	bool threw = false;
	setup(5, 5);
	try {
		TimestepSchemeStrang s(m, th, (TimestepSchemeStrang::ExplicitDiscretization)d);
		vp_check(s.GetComponentDataInstances() == 5 && s.GetTracerDataInstances() == 5, "instances");
		activate2(1, 1); Time t;
		if (!first) for (int e = 0; e < 2; e++) { g_set[e][1] = 1; g_one[e][1] = 0.0; g_c[e][1][2] = 0.5 * g_h; }
		((TimestepScheme &)s).Step(first, last, t, g_h);
		final(7, "the off-centred step is consistent"); after_once();
		if (!last) for (int e = 0; e < 2; e++) {
			if (!use(e, 1)) return;
			vp_eq_tol(g_one[e][1], 0.0, 1e-12, "the carried increment vanishes with the time step");
			for (int k = 0; k < g_nact; k++)
				vp_eq_tol(g_c[e][1][g_act[k]] / g_h, g_act[k] == 2 ? 0.5 : 0.0, 1e-9, "the carried increment is half a step of the vertical tendency");
		}
	} catch (Exception &) { threw = true; }
	vp_check(threw == (th < 0.0 || th > 1.0), "off-centering outside [0,1] is refused");
}
extern "C" void vc_splitexp() {
	Model & m = *(Model *)g_mem;
	TimestepSchemeSplitExp s(m);
	setup(s.GetComponentDataInstances(), s.GetTracerDataInstances());
	g_nact = 0;
	for (int t = 0; t < NT; t++) if (T_ORD[t] <= 3 && (T_MASK[t] == 1 || T_MASK[t] == 2)) g_act[g_nact++] = t;
	VerticalDynamicsFEM * v = (VerticalDynamicsFEM *)g_vmem;
	bool full = vp_choice("explicit", 0, 1), threw = false;
	v->m_fFullyExplicit = full;
	int ns = vp_choice("substeps", 0, 6), nr = vp_int("levels", 1, 1000);
	double zt = vp_real_in("ztop", 1.0, 1e5);
	static int snr; static double szt; snr = nr; szt = zt;
	m.GetGrid()->m_nRElements.AttachToData(&snr); m.GetGrid()->m_dZtop.AttachToData(&szt);
	double q = 2.0 * g_h / ((zt / nr) / 350.0);
	vp_assume(q >= ns && q < ns + 1);
	Time t;
	try { ((TimestepScheme &)s).Step(vp_choice("first", 0, 1), vp_choice("last", 0, 1), t, g_h); } catch (Exception &) { threw = true; }
	vp_check(threw == !full, "the split explicit scheme needs explicit vertical dynamics");
	if (threw) return;
	final(3, "horizontal and vertical parts each agree with the exact solution to third order"); after_once();
}
