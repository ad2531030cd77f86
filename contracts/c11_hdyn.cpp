#include "hdyn.h"

static Time g_time;
static HorizontalDynamicsFEM * h1; static HorizontalDynamicsFEMV2 * h2;
static void dyn(int which) {
	h1 = 0; h2 = 0;
	if (which == 0) { h1 = new HorizontalDynamicsFEM(*h_m, h_n, 4, 0.0, 0.0, 0.0, 0.0); h1->Initialize(); }
	else { h2 = new HorizontalDynamicsFEMV2(*h_m, h_n, 4, 0.0, 0.0, 0.0, 0.0); h2->Initialize(); }
}

// ------------------------------------------------------------ callees, by contract
// Diffusion and the tracer filter have contracts of their own: here only what they are
// asked for is recorded, as the coefficient of the operator applied to each field
static double g_vec[2][2], g_sc[8];           // [initial, reference][divergence, vorticity], per component
static int g_filter;
extern "C" void c11_vector(void *, int initial, int update, double dt, double nd, double nv, bool local) {
	vp_check(!g_filter, "the tracer filter comes last");
	vp_check(update == 1 && !local && (initial == 0 || initial == DATA_INDEX_REFERENCE), "diffusion is applied to the initial or reference data");
	int r = initial == 0 ? 0 : 1;
	g_vec[r][0] += - dt * nd; g_vec[r][1] += - dt * nv;
}
extern "C" void c11_scalar(void *, int initial, int update, double dt, double nu, bool local, int comp, bool ref) {
	vp_check(!g_filter, "the tracer filter comes last");
	vp_check(update == 1 && !local && initial == 0 && ref && comp >= 0 && comp < 5, "diffusion is applied to the difference from the reference state");
	g_sc[comp] += dt * nu;
}
extern "C" void c11_filter(void *, int update) { vp_check(update == 1, "the filter is applied to the updated tracers"); g_filter++; }
static void callees(int which) {
	for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) g_vec[i][j] = 0.0;
	for (int i = 0; i < 8; i++) g_sc[i] = 0.0;
	g_filter = 0;
	if (which == 0) {
		vp_replace("_ZN21HorizontalDynamicsFEM25ApplyVectorHyperdiffusionEiidddb", (void (*)())c11_vector);
		vp_replace("_ZN21HorizontalDynamicsFEM25ApplyScalarHyperdiffusionEiiddbib", (void (*)())c11_scalar);
		vp_replace("_ZN21HorizontalDynamicsFEM21FilterNegativeTracersEi", (void (*)())c11_filter);
	} else {
		vp_replace("_ZN23HorizontalDynamicsFEMV225ApplyVectorHyperdiffusionEiidddb", (void (*)())c11_vector);
		vp_replace("_ZN23HorizontalDynamicsFEMV225ApplyScalarHyperdiffusionEiiddbib", (void (*)())c11_scalar);
		vp_replace("_ZN23HorizontalDynamicsFEMV221FilterNegativeTracersEi", (void (*)())c11_filter);
	}
}
static void step(double dt) { if (h1) h1->StepExplicit(0, 1, g_time, dt); else h2->StepExplicit(0, 1, g_time, dt); }
// asked: the Laplacian of each of these, times the step and its coefficient
static void diffusion_asked(double dt, bool nh) {
	bool on = h_g->m_fHasUniformDiffusion;
	double nv = on ? dt * h_g->m_dVectorUniformDiffusionCoeff : 0.0, ns = on ? dt * h_g->m_dScalarUniformDiffusionCoeff : 0.0;
	for (int c = 0; c < 2; c++) {
		vp_eq(g_vec[0][c], nv, "velocity diffuses at the stated rate");
		vp_eq(g_vec[1][c], -nv, "velocity diffuses towards the reference state");
	}
	for (int c = 0; c < 5; c++) vp_eq(g_sc[c], nh && c == 2 ? ns : nh && c == 3 ? nv : 0.0, "potential temperature and vertical velocity diffuse at the stated rate");
}

// ------------------------------------------------------------ shallow water
static D4 * S, * U, * T, * TU; static int t_c;
static double swUa(int i, int j, int k) { GridPatch * p = h_p; return p->m_dataContraMetric2DA(i, j, 0) * (*S)(0, i, j, k) + p->m_dataContraMetric2DA(i, j, 1) * (*S)(1, i, j, k); }
static double swUb(int i, int j, int k) { GridPatch * p = h_p; return p->m_dataContraMetric2DB(i, j, 0) * (*S)(0, i, j, k) + p->m_dataContraMetric2DB(i, j, 1) * (*S)(1, i, j, k); }
static double swua(int i, int j, int k) { return (*S)(0, i, j, k); }
static double swub(int i, int j, int k) { return (*S)(1, i, j, k); }
static double swdepth(int i, int j, int k) { return (*S)(2, i, j, k) - h_p->m_dataTopography(i, j); }
static double swE(int i, int j, int k) { return 0.5 * (swUa(i, j, k) * swua(i, j, k) + swUb(i, j, k) * swub(i, j, k)) + h_m->GetPhysicalConstants().GetG() * (*S)(2, i, j, k); }
static double swFa(int i, int j, int k) { return h_p->m_dataJacobian2D(i, j) * swUa(i, j, k) * swdepth(i, j, k); }
static double swFb(int i, int j, int k) { return h_p->m_dataJacobian2D(i, j) * swUb(i, j, k) * swdepth(i, j, k); }
static double swTa(int i, int j, int k) { return h_p->m_dataJacobian2D(i, j) * swUa(i, j, k) * (*T)(t_c, i, j, k); }
static double swTb(int i, int j, int k) { return h_p->m_dataJacobian2D(i, j) * swUb(i, j, k) * (*T)(t_c, i, j, k); }

extern "C" void vc_sw_step() {
	int which = vp_choice("method", 0, 1), n = vp_choice("order", 2, 4), ea = vp_choice("elementsA", 1, 2), tr = vp_choice("tracers", 0, 2);
	vp_assume(which == 0 || (n == 4 && tr == 0));
	hsetup(2, tr, n, 1, ea, 1, Grid::VerticalStaggering_Levels, vp_choice("diffusion", 0, 1));
	dyn(which);
	callees(which);
	double dt = vp_real("dt");
	S = &h_p->m_datavecStateNode[0]; U = &h_p->m_datavecStateNode[1];
	if (tr) { T = &h_p->m_datavecTracers[0]; TU = &h_p->m_datavecTracers[1]; }
	h_nk = 0; keep(0); keep(1);
	step(dt);
	diffusion_asked(dt, false);
	vp_check(tr == 0 || g_filter > 0, "updated tracers are filtered");
	int a = vp_choice("element", 0, ea - 1), b = 0, k = 0;
	GridPatch * p = h_p;
	double mass[2] = {0.0, 0.0}, energy[2] = {0.0, 0.0}, tm[2][2] = {{0.0, 0.0}, {0.0, 0.0}};      // of both halves of the element
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
		int x = H(a, i), y = H(b, j);
		double J = p->m_dataJacobian2D(x, y), f = p->m_dataCoriolisF(x, y), A = p->m_dataElementAreaNode(x, y, 0);
		double zeta = deriv(swub, 0, a, b, i, j, k) - deriv(swua, 1, a, b, i, j, k);
		double ta = (f * J + zeta) * swUb(x, y, k) - deriv(swE, 0, a, b, i, j, k);
		double tb = - (f * J + zeta) * swUa(x, y, k) - deriv(swE, 1, a, b, i, j, k);
		double wd = weakdiv(swFa, swFb, a, b, i, j, k), th = - wd / J, W = gw(n, i) * gw(n, j);
		vp_eq((*U)(0, x, y, k) - old((*U)(0, x, y, k)), dt * ta, "first velocity changes by Coriolis, vorticity and energy gradient terms");
		vp_eq((*U)(1, x, y, k) - old((*U)(1, x, y, k)), dt * tb, "second velocity changes by Coriolis, vorticity and energy gradient terms");
		vp_eq((*U)(2, x, y, k) - old((*U)(2, x, y, k)), dt * th, "height changes by the divergence of the volume flux");
		// for larger elements the integrals are lemmas over the changes just proved
		int h = i < n / 2;
		mass[h] += n < 4 ? A * ((*U)(2, x, y, k) - old((*U)(2, x, y, k))) : W * wd;
		for (t_c = 0; t_c < tr; t_c++) {
			double d = (*TU)(t_c, x, y, k) - old((*TU)(t_c, x, y, k));
			double wt = weakdiv(swTa, swTb, a, b, i, j, k);
			vp_eq(d, - dt * wt / J, "tracer changes by the divergence of the tracer flux");
			tm[t_c][h] += n < 4 ? A * d : W * wt;
		}
		energy[h] += W * (J * swdepth(x, y, k) * (swUa(x, y, k) * ta + swUb(x, y, k) * tb) - swE(x, y, k) * wd);
	}
	vp_eq(mass[0], -mass[1], "volume of the element is conserved");
	for (int c = 0; c < tr; c++) vp_eq(tm[c][0], -tm[c][1], "tracer content of the element is conserved");
	vp_eq(energy[0], -energy[1], "total energy of the element is conserved by the tendencies");
	// frame
	for (int x = 0; x < ea * n + 2; x++) for (int y = 0; y < n + 2; y++) {
		bool in = x > 0 && x <= ea * n && y > 0 && y <= n;
		for (int c = 0; c < 3; c++) {
			vp_eq((*S)(c, x, y, k), old((*S)(c, x, y, k)), "initial data does not change");
			if (!in) vp_eq((*U)(c, x, y, k), old((*U)(c, x, y, k)), "data outside the elements does not change");
		}
		for (int c = 0; c < tr; c++) {
			vp_eq((*T)(c, x, y, k), old((*T)(c, x, y, k)), "initial tracers do not change");
			if (!in) vp_eq((*TU)(c, x, y, k), old((*TU)(c, x, y, k)), "tracers outside the elements do not change");
		}
	}
}

// ------------------------------------------------------- nonhydrostatic equations
static double con(int c, int i, int j, int k) {
	GridPatch * p = h_p;
	D4 & g = c == 0 ? p->m_dataContraMetricA : c == 1 ? p->m_dataContraMetricB : p->m_dataContraMetricXi;
	return g(i, j, k, 0) * (*S)(0, i, j, k) + g(i, j, k, 1) * (*S)(1, i, j, k) + g(i, j, k, 2) * (*S)(3, i, j, k);
}
static double nhua(int i, int j, int k) { return (*S)(0, i, j, k); }
static double nhub(int i, int j, int k) { return (*S)(1, i, j, k); }
static double nhux(int i, int j, int k) { return (*S)(3, i, j, k); }
static double nhK(int i, int j, int k) { return 0.5 * (con(0, i, j, k) * nhua(i, j, k) + con(1, i, j, k) * nhub(i, j, k) + con(2, i, j, k) * nhux(i, j, k)); }
static double nhPi(int i, int j, int k) { return h_m->GetPhysicalConstants().ExnerPressureFromRhoTheta((*S)(2, i, j, k)); }
static int q_c;        // state component or tracer (from 100 on) of the flux
static double nhQ(int i, int j, int k) { return q_c < 100 ? (*S)(q_c, i, j, k) : (*T)(q_c - 100, i, j, k); }
static double nhq(int i, int j, int k) { return (*T)(q_c - 100, i, j, k) / (*S)(4, i, j, k); }
static bool q_diff; static int q_a, q_b;
static double nhF(int d, int i, int j, int k) {
	double J = h_p->m_dataJacobian(i, j, k), f = J * con(d, i, j, k) * nhQ(i, j, k);
	if (q_c >= 100 && q_diff) {
		int li = i - 1 - q_a * h_n, lj = j - 1 - q_b * h_n;
		D4 & g = d ? h_p->m_dataContraMetricB : h_p->m_dataContraMetricA;
		f -= h_g->m_dScalarUniformDiffusionCoeff * J * (*S)(4, i, j, k) * (g(i, j, k, 0) * deriv(nhq, 0, q_a, q_b, li, lj, k) + g(i, j, k, 1) * deriv(nhq, 1, q_a, q_b, li, lj, k));
	}
	return f;
}
static double nhFa(int i, int j, int k) { return nhF(0, i, j, k); }
static double nhFb(int i, int j, int k) { return nhF(1, i, j, k); }
extern "C" void vc_nh_step() {
	int which = vp_choice("method", 0, 1), n = vp_choice("order", 2, 4), nr = vp_choice("levels", 2, 3), ea = vp_choice("elementsA", 1, 2), tr = vp_choice("tracers", 0, 2);
	int lev = vp_choice("staggering", 0, 1);     // everything on levels, or W on interfaces
	bool diff = vp_choice("diffusion", 0, 1), xz = vp_choice("xz", 0, 1);
	vp_assume(which == 0 || (n == 4 && tr == 0 && lev == 1 && !xz));
	hsetup(1, tr, n, nr, ea, 1, lev == 0 ? Grid::VerticalStaggering_Levels : Grid::VerticalStaggering_Lorenz, diff);
	((GridCartesianGLL *)h_g)->m_fCartesianXZ = xz;
	dyn(which);
	callees(which);
	double dt = vp_real("dt"), gr = h_m->GetPhysicalConstants().GetG();
	GridPatch * p = h_p;
	S = &p->m_datavecStateNode[0]; U = &p->m_datavecStateNode[1];
	D4 & SE = p->m_datavecStateREdge[0], & UE = p->m_datavecStateREdge[1];
	if (tr) { T = &p->m_datavecTracers[0]; TU = &p->m_datavecTracers[1]; }
	for (int x = 1; x <= ea * n; x++) for (int y = 1; y <= n; y++) for (int k = 0; k < nr; k++) { pos((*S)(2, x, y, k), 0.1); pos((*S)(4, x, y, k), 0.1); pos(p->m_dataContraMetricXi(x, y, k, 2), 0.1); }
	for (int x = 1; x <= ea * n; x++) for (int y = 1; y <= n; y++) for (int k = 0; k <= nr; k++) pos(p->m_dataContraMetricXiREdge(x, y, k, 2), 0.1);
	h_nk = 0; keep(0); keep(1);
	step(dt);
	diffusion_asked(dt, true);
	vp_check(tr == 0 || g_filter > 0, "updated tracers are filtered");
	int a = vp_choice("element", 0, ea - 1), b = 0, k = vp_choice("level", 0, nr - 1);
	q_a = a; q_b = b; q_diff = diff;
	double mass[2] = {0.0, 0.0}, heat[2] = {0.0, 0.0}, tm[2][2] = {{0.0, 0.0}, {0.0, 0.0}};
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
		int x = H(a, i), y = H(b, j), h = i < n / 2;
		double J = p->m_dataJacobian(x, y, k), A = p->m_dataElementAreaNode(x, y, k), W = gw(n, i) * gw(n, j);
		double fJ = p->m_dataCoriolisF(x, y) * p->m_dataJacobian2D(x, y);
		double Ua = con(0, x, y, k), Ub = con(1, x, y, k), Ux = con(2, x, y, k);
		double dxua = ((GridGLL *)h_g)->DifferentiateNodeToNode(&(*S)(0, x, y, 0), k, 1), dxub = ((GridGLL *)h_g)->DifferentiateNodeToNode(&(*S)(1, x, y, 0), k, 1);
		double daux = deriv(nhux, 0, a, b, i, j, k), dbux = deriv(nhux, 1, a, b, i, j, k);
		double zx = deriv(nhub, 0, a, b, i, j, k) - deriv(nhua, 1, a, b, i, j, k);
		double th = (*S)(2, x, y, k) / (*S)(4, x, y, k);
		double ta = (fJ + zx) * Ub - Ux * (dxua - daux) - th * deriv(nhPi, 0, a, b, i, j, k) - deriv(nhK, 0, a, b, i, j, k) - gr * p->m_dataDerivRNode(x, y, k, 0);
		double tb = - (fJ + zx) * Ua + Ux * (dbux - dxub) - th * deriv(nhPi, 1, a, b, i, j, k) - deriv(nhK, 1, a, b, i, j, k) - gr * p->m_dataDerivRNode(x, y, k, 1);
		vp_eq((*U)(0, x, y, k) - old((*U)(0, x, y, k)), dt * ta, "first velocity changes by the stated tendencies");
		vp_eq((*U)(1, x, y, k) - old((*U)(1, x, y, k)), xz ? 0.0 : dt * tb, "second velocity changes by the stated tendencies");
		q_c = 4;
		double wd = weakdiv(nhFa, nhFb, a, b, i, j, k), d = (*U)(4, x, y, k) - old((*U)(4, x, y, k));
		vp_eq(d, - dt * wd / J, "density changes by the divergence of the mass flux");
		mass[h] += n < 4 ? A * d : W * wd;
		q_c = 2; wd = weakdiv(nhFa, nhFb, a, b, i, j, k); d = (*U)(2, x, y, k) - old((*U)(2, x, y, k));
		vp_eq(d, - dt * wd / J, "potential temperature density changes by the divergence of its flux");
		heat[h] += n < 4 ? A * d : W * wd;
		for (int c = 0; c < tr; c++) {
			q_c = 100 + c; wd = weakdiv(nhFa, nhFb, a, b, i, j, k); d = (*TU)(c, x, y, k) - old((*TU)(c, x, y, k));
			vp_eq(d, - dt * wd / J, "tracer changes by the divergence of its flux");
			tm[c][h] += n < 4 && !diff ? A * d : W * wd;
		}
		// vertical velocity
		if (lev == 0) {
			double tw = - Ua * daux - Ub * dbux;
			if (k == 0) tw = - (p->m_dataContraMetricXi(x, y, 0, 0) * ta + p->m_dataContraMetricXi(x, y, 0, 1) * tb) / p->m_dataContraMetricXi(x, y, 0, 2);
			else if (k == nr - 1) tw = 0.0;
			vp_eq((*U)(3, x, y, k) - old((*U)(3, x, y, k)), dt * tw, "vertical velocity on levels changes by the stated tendency, along the surface at the bottom");
		} else {
			vp_eq((*S)(3, x, y, k), ((GridGLL *)h_g)->InterpolateREdgeToNode(&SE(3, x, y, 0), 0, k, 0.0, 1), "vertical velocity on levels is that on interfaces, interpolated");
			vp_eq((*U)(3, x, y, k), old((*U)(3, x, y, k)), "vertical velocity held on interfaces does not change on levels");
			vp_eq(UE(3, x, y, nr), old(UE(3, x, y, nr)), "vertical velocity at the top does not change");
			if (k == 0) {
				double u0 = ((GridGLL *)h_g)->InterpolateNodeToREdge(&(*U)(0, x, y, 0), 0, 0, 0.0, 1), v0 = ((GridGLL *)h_g)->InterpolateNodeToREdge(&(*U)(1, x, y, 0), 0, 0, 0.0, 1);
				D4 & g = p->m_dataContraMetricXiREdge;
				vp_eq(g(x, y, 0, 0) * u0 + g(x, y, 0, 1) * v0 + g(x, y, 0, 2) * UE(3, x, y, 0), 0.0, "no flow through the surface");
			} else {
				double col[4];
				for (int l = 0; l < nr; l++) col[l] = - con(0, x, y, l) * deriv(nhux, 0, a, b, i, j, l) - con(1, x, y, l) * deriv(nhux, 1, a, b, i, j, l);
				vp_eq(UE(3, x, y, k) - old(UE(3, x, y, k)), dt * ((GridGLL *)h_g)->InterpolateNodeToREdge(col, 0, k, 0.0, 1), "vertical velocity on interfaces changes by the stated tendency");
			}
			for (int c = 0; c < 5; c++) if (c != 3) vp_eq(UE(c, x, y, k), old(UE(c, x, y, k)), "components held on levels do not change on interfaces");
		}
	}
	vp_eq(mass[0], -mass[1], "mass of the element is conserved");
	vp_eq(heat[0], -heat[1], "potential temperature content of the element is conserved");
	for (int c = 0; c < tr; c++) vp_eq(tm[c][0], -tm[c][1], "tracer content of the element is conserved");
	// frame
	for (int x = 0; x < ea * n + 2; x++) for (int y = 0; y < n + 2; y++) {
		bool in = x > 0 && x <= ea * n && y > 0 && y <= n;
		for (int c = 0; c < 5; c++) {
			if (c != 3 || lev == 0) vp_eq((*S)(c, x, y, k), old((*S)(c, x, y, k)), "initial data does not change");
			if (!in) vp_eq((*U)(c, x, y, k), old((*U)(c, x, y, k)), "data outside the elements does not change");
			if (!in) vp_eq(UE(c, x, y, k), old(UE(c, x, y, k)), "data outside the elements does not change");
			if (c == 3 && lev == 1) vp_eq(SE(c, x, y, k), old(SE(c, x, y, k)), "initial data does not change");
		}
		for (int c = 0; c < tr; c++) {
			vp_eq((*T)(c, x, y, k), old((*T)(c, x, y, k)), "initial tracers do not change");
			if (!in) vp_eq((*TU)(c, x, y, k), old((*TU)(c, x, y, k)), "tracers outside the elements do not change");
		}
	}
}

// initial and updated data must be distinct, and nothing is written otherwise
extern "C" void vc_hdyn_refuse() {
	int which = vp_choice("method", 0, 1), eq = vp_choice("equations", 1, 2), x = vp_int("instance", 0, 1);
	hsetup(eq, 1, 4, eq == 1 ? 2 : 1, 1, 1, eq == 1 ? Grid::VerticalStaggering_Lorenz : Grid::VerticalStaggering_Levels, false);
	dyn(which); callees(which);
	h_nk = 0; keep(0); keep(1);
	bool refused = false;
	try { if (h1) h1->StepExplicit(x, x, g_time, vp_real("dt")); else h2->StepExplicit(x, x, g_time, vp_real("dt")); } catch (Exception &) { refused = true; }
	vp_check(refused, "a step onto its own data is refused");
	for (int k = 0; k < h_nk; k++) for (int i = 0; i < h_k[k].n; i++) vp_eq(h_k[k].d[i], h_k[k].o[i], "refused step writes nothing");
}
// the alternative horizontal method
extern "C" void vc_v2_tracers() {
	hsetup(1, 1, 4, 2, 1, 1, Grid::VerticalStaggering_Lorenz, false);
	dyn(1); callees(1);
	GridPatch * p = h_p;
	S = &p->m_datavecStateNode[0]; T = &p->m_datavecTracers[0]; TU = &p->m_datavecTracers[1];
	for (int x = 1; x <= 4; x++) for (int y = 1; y <= 4; y++) for (int k = 0; k < 2; k++) { pos((*S)(2, x, y, k), 0.1); pos((*S)(4, x, y, k), 0.1); pos(p->m_dataContraMetricXi(x, y, k, 2), 0.1); }
	for (int x = 1; x <= 4; x++) for (int y = 1; y <= 4; y++) for (int k = 0; k <= 2; k++) pos(p->m_dataContraMetricXiREdge(x, y, k, 2), 0.1);
	double dt = vp_real("dt");
	h_nk = 0; keep(0); keep(1);
	step(dt);
	int i = 1, j = 2, k = 0, x = H(0, i), y = H(0, j);
	q_a = q_b = 0; q_diff = false; q_c = 100;
	vp_eq((*TU)(0, x, y, k) - old((*TU)(0, x, y, k)), - dt * weakdiv(nhFa, nhFb, 0, 0, i, j, k) / p->m_dataJacobian(x, y, k), "tracer changes by the divergence of its flux");
}
