// Horizontal dynamics on one real patch: every state, tracer and metric value is a symbol
#ifndef VP_HDYN_H
#define VP_HDYN_H
#include "world2.h"
#include "HorizontalDynamicsFEM.h"
#include "HorizontalDynamicsFEMV2.h"
#include <cmath>
static void runrank(int) { }
// Gauss-Lobatto nodes and weights on [0,1] and derivatives of the Lagrange basis there
static double gx(int n, int i) {
	if (i == 0) return 0.0;
	if (i == n - 1) return 1.0;
	if (n == 3) return 0.5;
	double r = 0.5 / sqrt(5.0);
	return i == 1 ? 0.5 - r : 0.5 + r;
}
static double gw(int n, int i) {
	if (n == 2) return 0.5;
	if (n == 3) return i == 1 ? 2.0 / 3.0 : 1.0 / 6.0;
	return i == 0 || i == n - 1 ? 1.0 / 12.0 : 5.0 / 12.0;
}
// derivative at node i of the basis polynomial of node s
static double gd(int n, int s, int i) {
	double r = 0.0;
	for (int m = 0; m < n; m++) {
		if (m == s) continue;
		double t = 1.0 / (gx(n, s) - gx(n, m));
		for (int k = 0; k < n; k++) if (k != s && k != m) t *= (gx(n, i) - gx(n, k)) / (gx(n, s) - gx(n, k));
		r += t;
	}
	return r;
}
typedef DataArray4D<double> D4; typedef DataArray3D<double> D3; typedef DataArray2D<double> D2;
static Model * h_m; static Grid * h_g; static GridPatch * h_p;
static int h_n, h_nr, h_ea, h_eb, h_nt;      // order, levels, elements, tracers
static double h_D[4][4];
static void sym4(D4 & a, const char * nm) { if (a.GetTotalSize() > 0) vp_sym_array(&a(0, 0, 0, 0), a.GetTotalSize(), nm); }
static void sym3(D3 & a, const char * nm) { if (a.GetTotalSize() > 0) vp_sym_array(&a(0, 0, 0), a.GetTotalSize(), nm); }
static void sym2(D2 & a, const char * nm) { vp_sym_array(&a(0, 0), a.GetTotalSize(), nm); }
// a value known to exceed lo
static void pos(double & x, double lo) { if (!vp_symbolic() && !(x > lo)) x = (x < 0.0 ? -x : x) + lo + 0.1; vp_assume(x > lo); }
static void pos3(D3 & a) { for (int i = 0; i < (int)a.GetSize(0); i++) for (int j = 0; j < (int)a.GetSize(1); j++) for (int k = 0; k < (int)a.GetSize(2); k++) pos(a(i, j, k), 0.0); }
static int H(int a, int i) { return 1 + a * h_n + i; }
static double h_deltaA, h_deltaB;
static bool h_cs = false;                    // one panel of the cubed sphere instead of the plane
static void hsetup(int eq, int tracers, int n, int nr, int ea, int eb, Grid::VerticalStaggering stag, bool diffusion) {
	h_n = n; h_nr = nr; h_ea = ea; h_eb = eb; h_nt = tracers;
	gm_init(1); gm_rank = 0;
	h_m = wmodel(eq, tracers, 1);
	h_g = h_cs ? wcs(h_m, 6, ea, n, nr, 1, stag) : wcart(h_m, 1, ea, eb, n, nr, 1, stag, true, true);
	h_p = h_g->GetActivePatch(0);
	h_g->m_fHasUniformDiffusion = diffusion;
	h_g->m_dScalarUniformDiffusionCoeff = vp_real("nuscalar");
	h_g->m_dVectorUniformDiffusionCoeff = vp_real("nuvector");
	for (int s = 0; s < n; s++) for (int i = 0; i < n; i++) h_D[s][i] = gd(n, s, i);
	h_deltaA = h_cs ? acos(0.0) / ea : 1000.0; h_deltaB = h_cs ? acos(0.0) / eb : 800.0;
	GridPatch * p = h_p;
	for (int k = 0; k < 2; k++) {
		sym4(p->m_datavecStateNode[k], k ? "updatenode" : "node"); sym4(p->m_datavecStateREdge[k], k ? "updateredge" : "redge");
		if (tracers) sym4(p->m_datavecTracers[k], k ? "updatetracer" : "tracer");
	}
	sym4(p->m_dataRefStateNode, "refnode"); sym4(p->m_dataRefStateREdge, "refredge");
	// metric: symmetric, positive volume element; three-dimensional terms independent
	sym2(p->m_dataJacobian2D, "J2"); sym3(p->m_dataJacobian, "J"); sym3(p->m_dataJacobianREdge, "Je");
	sym3(p->m_dataContraMetric2DA, "g2a"); sym3(p->m_dataContraMetric2DB, "g2b");
	sym4(p->m_dataContraMetricA, "ga"); sym4(p->m_dataContraMetricB, "gb"); sym4(p->m_dataContraMetricXi, "gx");
	sym4(p->m_dataContraMetricAREdge, "gea"); sym4(p->m_dataContraMetricBREdge, "geb"); sym4(p->m_dataContraMetricXiREdge, "gex");
	sym4(p->m_dataDerivRNode, "dr"); sym4(p->m_dataDerivRREdge, "dre");
	sym2(p->m_dataCoriolisF, "f"); sym2(p->m_dataTopography, "zs");
	pos3(p->m_dataJacobian); pos3(p->m_dataJacobianREdge);
	int na = p->m_dataJacobian2D.GetRows(), nb = p->m_dataJacobian2D.GetColumns();
	for (int i = 0; i < na; i++) for (int j = 0; j < nb; j++) {
		pos(p->m_dataJacobian2D(i, j), 0.0);
		p->m_dataContraMetric2DB(i, j, 0) = p->m_dataContraMetric2DA(i, j, 1);
		for (int k = 0; k < nr; k++) {
			p->m_dataContraMetricB(i, j, k, 0) = p->m_dataContraMetricA(i, j, k, 1);
			p->m_dataContraMetricXi(i, j, k, 0) = p->m_dataContraMetricA(i, j, k, 2);
			p->m_dataContraMetricXi(i, j, k, 1) = p->m_dataContraMetricB(i, j, k, 2);
			p->m_dataElementAreaNode(i, j, k) = 0.0;
		}
		for (int k = 0; k <= nr; k++) {
			p->m_dataContraMetricBREdge(i, j, k, 0) = p->m_dataContraMetricAREdge(i, j, k, 1);
			p->m_dataContraMetricXiREdge(i, j, k, 0) = p->m_dataContraMetricAREdge(i, j, k, 2);
			p->m_dataContraMetricXiREdge(i, j, k, 1) = p->m_dataContraMetricBREdge(i, j, k, 2);
			p->m_dataElementAreaREdge(i, j, k) = 0.0;
		}
	}
	// element area of a node: quadrature weight times volume element (of the column for
	// shallow water, where there is one level)
	for (int a = 0; a < ea; a++) for (int b = 0; b < eb; b++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
		double w = gw(n, i) * gw(n, j) * h_deltaA * h_deltaB;
		for (int k = 0; k < nr; k++) p->m_dataElementAreaNode(H(a, i), H(b, j), k) = w * (eq == 2 ? p->m_dataJacobian2D(H(a, i), H(b, j)) : p->m_dataJacobian(H(a, i), H(b, j), k)) / nr;
		for (int k = 0; k <= nr; k++) p->m_dataElementAreaREdge(H(a, i), H(b, j), k) = w * p->m_dataJacobianREdge(H(a, i), H(b, j), k) / nr;
	}
}
// every array a step may write, with its contents before the step
struct Kept { double * d; double * o; int n; };
static Kept h_k[16]; static int h_nk;
static void keep1(double * d, int n) { h_k[h_nk].d = d; h_k[h_nk].n = n; double * o = (double *)malloc(8 * n + 8); for (int i = 0; i < n; i++) o[i] = d[i]; h_k[h_nk++].o = o; }
static void keep(int inst) {
	keep1(&h_p->m_datavecStateNode[inst](0, 0, 0, 0), h_p->m_datavecStateNode[inst].GetTotalSize());
	keep1(&h_p->m_datavecStateREdge[inst](0, 0, 0, 0), h_p->m_datavecStateREdge[inst].GetTotalSize());
	if (h_nt) keep1(&h_p->m_datavecTracers[inst](0, 0, 0, 0), h_p->m_datavecTracers[inst].GetTotalSize());
}
// contents before the step of the element at address x
static double old(double & x) {
	for (int k = 0; k < h_nk; k++) if (&x >= h_k[k].d && &x < h_k[k].d + h_k[k].n) return h_k[k].o[&x - h_k[k].d];
	vp_check(false, "address not kept");
	return 0.0;
}
// derivative along alpha (d = 0) or beta of a nodal function within the element
typedef double (*Fn)(int, int, int);
static double deriv(Fn f, int d, int a, int b, int i, int j, int k) {
	double r = 0.0;
	for (int s = 0; s < h_n; s++) r += h_D[s][d ? j : i] * (d ? f(H(a, i), H(b, s), k) : f(H(a, s), H(b, j), k));
	return r / (d ? h_deltaB : h_deltaA);
}
// weak divergence of the flux (fa, fb): minus its pairing with the derivative of the
// basis polynomial of node (i, j), over the weight of the node
static double weakdiv(Fn fa, Fn fb, int a, int b, int i, int j, int k) {
	double ra = 0.0, rb = 0.0;
	for (int s = 0; s < h_n; s++) {
		ra -= fa(H(a, s), H(b, j), k) * h_D[i][s] * (gw(h_n, s) / gw(h_n, i));
		rb -= fb(H(a, i), H(b, s), k) * h_D[j][s] * (gw(h_n, s) / gw(h_n, j));
	}
	return ra / h_deltaA + rb / h_deltaB;
}
#endif
