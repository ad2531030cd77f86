// Positive definite filters for tracers: one symbolic element (or column), any contents
#include "world2.h"
#include "HorizontalDynamicsFEM.h"
#include "HorizontalDynamicsFEMV2.h"
#include "HighSpeedDynamics.h"
#include "SplitExplicitDynamics.h"
#include "VerticalDynamicsFEM.h"
#include "VerticalDynamicsFEMV2.h"
#include "VerticalDynamicsSchur.h"
static void runrank(int) { }
static Model * m13; static Grid * g13;
static int f_n, f_nr, f_c, f_patch, f_x[16], f_y[16], f_k[16];     // the nodes that share their content
static double f_q[16], f_w[16]; static bool f_pos[16], f_neg[16];
static const int EL = 2, TR = 2;
static void setup13(int n, int nr) {
	gm_init(1); gm_rank = 0;
	m13 = wmodel(1, TR, 1);
	g13 = wcart(m13, 2, 2 * EL, EL, n, nr, 1, Grid::VerticalStaggering_Levels, true, true);
	vp_check(g13->GetActivePatchCount() == 2, "two patches");
}
static double fillv(int p, int inst, int c, int i, int j, int k) { return 1.0 + 0.125 * ((p * 7 + inst * 5 + c * 3 + i * 11 + j * 13 + k * 17) % 23); }
static void fill13() {
	for (int p = 0; p < 2; p++) {
		GridPatch * q = g13->GetActivePatch(p);
		for (int inst = 0; inst < 2; inst++) {
			DataArray4D<double> & t = q->GetDataTracers(inst);
			for (size_t c = 0; c < t.GetSize(0); c++) for (size_t i = 0; i < t.GetSize(1); i++) for (size_t j = 0; j < t.GetSize(2); j++) for (size_t k = 0; k < t.GetSize(3); k++) t(c, i, j, k) = fillv(p, inst, c, i, j, k);
		}
		DataArray3D<double> & w = q->m_dataElementAreaNode;
		for (size_t i = 0; i < w.GetSize(0); i++) for (size_t j = 0; j < w.GetSize(1); j++) for (size_t k = 0; k < w.GetSize(2); k++) w(i, j, k) = 0.5 + 0.25 * ((i + 2 * j + 3 * k) % 5);
	}
}
static DataArray4D<double> & tr(int inst) { return g13->GetActivePatch(f_patch)->GetDataTracers(inst); }
static bool mine(int p, int inst, int c, int i, int j, int k) {
	if (p != f_patch || inst != 1 || c != f_c) return false;
	for (int s = 0; s < f_n; s++) if (f_x[s] == i && f_y[s] == j && f_k[s] == k) return true;
	return false;
}
// free: how many of the nodes have contents of either sign; the others are positive
static void symbols(int nfree, int start, bool symarea) {
	DataArray3D<double> & w = g13->GetActivePatch(f_patch)->m_dataElementAreaNode;
	double total = 0.0;
	for (int s = 0; s < f_n; s++) {
		bool fr = false;
		for (int t = 0; t < nfree; t++) if ((start + t * (f_n > nfree ? 3 : 1)) % f_n == s) fr = true;
		f_q[s] = fr ? vp_real("q") : vp_real_in("q", 0.01, 1000.0);
		f_w[s] = symarea ? vp_real_in("area", 0.01, 1000.0) : 1.0 + 0.125 * ((5 * s) % 7);
		tr(1)(f_c, f_x[s], f_y[s], f_k[s]) = f_q[s]; w(f_x[s], f_y[s], f_k[s]) = f_w[s];
		total += f_q[s] * f_w[s];
	}
	vp_assume(total >= (vp_symbolic() ? 0.0 : 1e-6));
	for (int s = 0; s < f_n; s++) { f_pos[s] = f_neg[s] = false; if (f_q[s] > 0.0) f_pos[s] = true; else if (f_q[s] < 0.0) f_neg[s] = true; }
}
static void verdict() {
	double before = 0.0, after = 0.0; bool negative = false;
	for (int s = 0; s < f_n; s++) {
		double r = tr(1)(f_c, f_x[s], f_y[s], f_k[s]);
		vp_check(r >= 0.0, "no tracer is negative after the filter");
		vp_check(f_pos[s] || r == 0.0, "empty nodes stay empty");
		if (f_neg[s]) negative = true;
		before += f_q[s] * f_w[s]; after += r * f_w[s];
	}
	vp_eq(after, before, "the filter keeps the content");
	int ref = -1;
	for (int s = 0; s < f_n; s++) {
		double r = tr(1)(f_c, f_x[s], f_y[s], f_k[s]);
		if (!negative) vp_eq(r, f_q[s], "tracers without negative values do not change");
		if (f_pos[s] && ref >= 0) vp_eq(r * f_q[ref], tr(1)(f_c, f_x[ref], f_y[ref], f_k[ref]) * f_q[s], "positive values keep their proportions");
		if (f_pos[s] && ref < 0) ref = s;
	}
	for (int p = 0; p < 2; p++) for (int inst = 0; inst < 2; inst++) {
		DataArray4D<double> & t = g13->GetActivePatch(p)->GetDataTracers(inst);
		for (size_t c = 0; c < t.GetSize(0); c++) for (size_t i = 0; i < t.GetSize(1); i++) for (size_t j = 0; j < t.GetSize(2); j++) for (size_t k = 0; k < t.GetSize(3); k++)
			if (!mine(p, inst, c, i, j, k)) vp_eq(t(c, i, j, k), fillv(p, inst, c, i, j, k), "non-negative data elsewhere does not change");
	}
}
extern "C" void vc_filter_element() {
	int which = vp_choice("method", 0, 3), n = vp_choice("order", 2, 4), nr = 2;
	vp_assume(which != 1 || n == 4);
	setup13(n, nr); fill13();
	f_patch = vp_choice("patch", 0, 1); f_c = vp_choice("tracer", 0, TR - 1);
	int a = vp_choice("elementA", 0, EL - 1), b = vp_choice("elementB", 0, EL - 1), k = vp_choice("level", 0, nr - 1);
	f_n = 0;
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { f_x[f_n] = 1 + a * n + i; f_y[f_n] = 1 + b * n + j; f_k[f_n++] = k; }
	symbols(n == 2 ? 4 : 3, vp_choice("first", 0, 3), true);
	vp_ieee(1);
	if (which == 0) { HorizontalDynamicsFEM h(*m13, n, 4, 0.0, 0.0, 0.0, 0.0); h.FilterNegativeTracers(1); }
	else if (which == 1) { HorizontalDynamicsFEMV2 h(*m13, n, 4, 0.0, 0.0, 0.0, 0.0); h.FilterNegativeTracers(1); }
	else if (which == 2) { HighSpeedDynamics h(*m13, n, 4, 0.0, 0.0, 0.0, 0.0); h.FilterNegativeTracers(1); }
	else { SplitExplicitDynamics h(*m13, n, 4, 0.0, 0.0, 0.0, 0.0); h.FilterNegativeTracers(1); }
	vp_ieee(0);
	verdict();
}
extern "C" void vc_filter_column() {
	int which = vp_choice("method", 0, 2), nr = vp_choice("levels", 2, 4), n = 2;
	setup13(n, nr); fill13();
	f_patch = vp_choice("patch", 0, 1); f_c = vp_choice("tracer", 0, TR - 1);
	int i = vp_choice("i", 1, 2 * n), j = vp_choice("j", 1, 2 * n);
	f_n = 0;
	for (int k = 0; k < nr; k++) { f_x[f_n] = i; f_y[f_n] = j; f_k[f_n++] = k; }
	symbols(nr, 0, true);
	vp_ieee(1);
	if (which == 0) { VerticalDynamicsFEM v(*m13, n, 1, 0, false, false, false); v.FilterNegativeTracers(1); }
	else if (which == 1) { VerticalDynamicsFEMV2 v(*m13, n, 1, 0, false, false, false); v.FilterNegativeTracers(1); }
	else { VerticalDynamicsSchur v(*m13, n, 1, 0, false, false, false); v.FilterNegativeTracers(1); }
	vp_ieee(0);
	verdict();
}
