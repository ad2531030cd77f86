// Diffusion, hyperdiffusion and Rayleigh friction on one real patch with symbolic contents
#include "hdyn.h"

static Time g_time;
static HorizontalDynamicsFEM * h1; static HorizontalDynamicsFEMV2 * h2;
static void dyn(int which, int order, double ns, double nd, double nv) {
	h1 = 0; h2 = 0;
	if (which == 0) { h1 = new HorizontalDynamicsFEM(*h_m, h_n, order, ns, nd, nv, 0.0); h1->Initialize(); }
	else { h2 = new HorizontalDynamicsFEMV2(*h_m, h_n, order, ns, nd, nv, 0.0); h2->Initialize(); }
}
static Grid::VerticalStaggering stagg(int s) { return s == 0 ? Grid::VerticalStaggering_Levels : s == 1 ? Grid::VerticalStaggering_Lorenz : Grid::VerticalStaggering_CharneyPhillips; }
static bool interface(int stag, int c) { return c < 5 && ((stag == 1 && c == 3) || (stag == 2 && (c == 2 || c == 3))); }
static double scaling(bool local) {
	double L = h_g->GetReferenceLength();
	return local && L != 0.0 ? pow(h_deltaA / L, 3.2) : 1.0;
}
static void reflength(int how) { h_g->m_dReferenceLength = how == 0 ? 0.0 : how == 1 ? 1000.0 : 370.0; }

// ------------------------------------------------------------------- scalars
static D4 * f_S, * f_R; static D3 * f_J; static int f_c; static bool f_ref;
static double psi(int x, int y, int k) { return f_ref ? (*f_S)(f_c, x, y, k) - (*f_R)(f_c, x, y, k) : (*f_S)(f_c, x, y, k); }
static double f_da[40][40], f_db[40][40];      // derivatives of psi on the level, filled per element
static double fluxA(int x, int y, int k) { return (*f_J)(x, y, k) * (h_p->m_dataContraMetric2DA(x, y, 0) * f_da[x][y] + h_p->m_dataContraMetric2DA(x, y, 1) * f_db[x][y]); }
static double fluxB(int x, int y, int k) { return (*f_J)(x, y, k) * (h_p->m_dataContraMetric2DB(x, y, 0) * f_da[x][y] + h_p->m_dataContraMetric2DB(x, y, 1) * f_db[x][y]); }
static void scalar_grad(int a, int b, int k) {
	for (int i = 0; i < h_n; i++) for (int j = 0; j < h_n; j++) { f_da[H(a, i)][H(b, j)] = deriv(psi, 0, a, b, i, j, k); f_db[H(a, i)][H(b, j)] = deriv(psi, 1, a, b, i, j, k); }
}
extern "C" void vc_scalar_diffusion() {
	int which = vp_choice("method", 0, 1), n = vp_choice("order", 2, 4), eq = vp_choice("equations", 1, 2), ea = vp_choice("elementsA", 1, 2), eb = vp_choice("elementsB", 1, 2);
	int tr = vp_choice("tracers", 0, 2), st = vp_choice("staggering", 0, 2), nr = eq == 2 ? 1 : vp_choice("levels", 2, 3);
	int asked = vp_choice("component", -1, 4), local = vp_choice("local", 0, 1), ref = vp_choice("removereference", 0, 1);
	int nc = eq == 2 ? 3 : 5;
	vp_assume((which == 0 || n == 4) && (eq == 1 || st == 0) && asked < nc && (tr == 0 || asked != -1 || !ref));
	hsetup(eq, tr, n, nr, ea, eb, stagg(st), false);
	((GridGLL *)h_g)->m_fCartesianXZ = vp_choice("xz", 0, 1);
	reflength(vp_choice("reflength", 0, 2));
	dyn(which, 4, 0.0, 0.0, 0.0);
	double dt = vp_real("dt"), nu = vp_real("nu");
	h_nk = 0; keep(0); keep(1);
	if (h1) h1->ApplyScalarHyperdiffusion(0, 1, dt, nu, local, asked, ref); else h2->ApplyScalarHyperdiffusion(0, 1, dt, nu, local, asked, ref);
	double rate = dt * nu * scaling(local);
	int a = vp_choice("element", 0, ea - 1), b = eb - 1;
	f_ref = ref;
	for (int c = 0; c < nc + tr; c++) {
		bool iface = interface(st, c), trace = c >= nc;
		D4 & s = trace ? h_p->m_datavecTracers[0] : iface ? h_p->m_datavecStateREdge[0] : h_p->m_datavecStateNode[0];
		D4 & u = trace ? h_p->m_datavecTracers[1] : iface ? h_p->m_datavecStateREdge[1] : h_p->m_datavecStateNode[1];
		f_S = &s; f_R = iface ? &h_p->m_dataRefStateREdge : &h_p->m_dataRefStateNode;
		f_J = iface ? &h_p->m_dataJacobianREdge : &h_p->m_dataJacobian;
		f_c = trace ? c - nc : c;
		bool on = asked == -1 ? c >= 2 : c == asked;
		for (int k = 0; k < nr + (iface ? 1 : 0); k++) {
			for (int x = 0; x < ea * n + 2; x++) for (int y = 0; y < eb * n + 2; y++) {
				bool in = x > 0 && x <= ea * n && y > 0 && y <= eb * n;
				vp_eq(s(f_c, x, y, k), old(s(f_c, x, y, k)), "initial data does not change");
				if (!in || !on) vp_eq(u(f_c, x, y, k), old(u(f_c, x, y, k)), "nothing else is diffused");
			}
			if (!on) continue;
			scalar_grad(a, b, k);
			double total[2] = {0.0, 0.0};
			for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
				int x = H(a, i), y = H(b, j);
				double wd = weakdiv(fluxA, fluxB, a, b, i, j, k), W = gw(n, i) * gw(n, j);
				vp_eq(u(f_c, x, y, k) - old(u(f_c, x, y, k)), rate * wd / (*f_J)(x, y, k), "a scalar changes by the Laplacian at the stated rate");
				total[i < n / 2] += W * wd;
			}
			vp_eq(total[0], -total[1], "diffusion conserves the content of the element");
		}
	}
}
// the Laplacian of the contract above never increases the variance of the field, and
// leaves uniform fields alone
extern "C" void vc_laplacian_lemmas() {
	int n = vp_choice("order", 2, 4), k = 0;
	hsetup(2, 0, n, 1, 1, 1, Grid::VerticalStaggering_Levels, false);
	f_S = &h_p->m_datavecStateNode[0]; f_J = &h_p->m_dataJacobian; f_c = 2; f_ref = false;
	scalar_grad(0, 0, k);
	double pairing = 0.0, form = 0.0;
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
		int x = H(0, i), y = H(0, j);
		double W = gw(n, i) * gw(n, j);
		pairing += W * psi(x, y, k) * weakdiv(fluxA, fluxB, 0, 0, i, j, k);
		form += W * (fluxA(x, y, k) * f_da[x][y] + fluxB(x, y, k) * f_db[x][y]);
	}
	vp_eq(pairing, -form, "the change pairs with the field to minus the energy of its gradient");
	double save[4][4], c = vp_real("constant");
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { save[i][j] = f_da[H(0, i)][H(0, j)]; (*f_S)(2, H(0, i), H(0, j), k) += c; }
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) vp_eq(deriv(psi, 0, 0, 0, i, j, k), save[i][j], "a constant does not change the gradient");
	double p = vp_real("p"), q = vp_real("q"), g0 = vp_real("g0"), g1 = vp_real("g1"), g2 = vp_real("g2");
	pos(g0, 0.0); pos(g2, 0.0);
	if (!vp_symbolic()) g1 = 0.5 * sqrt(g0 * g2);
	vp_assume(g0 * g2 - g1 * g1 > 0.0);
	vp_check(g0 * p * p + 2.0 * g1 * p * q + g2 * q * q >= 0.0 || (!vp_symbolic()), "the energy of a gradient is not negative");
}
extern "C" void vc_diffusion_refuse() {
	int which = vp_choice("method", 0, 1), eq = vp_choice("equations", 1, 2), bad = vp_choice("bad", 0, 2);
	hsetup(eq, 0, 4, eq == 2 ? 1 : 2, 1, 1, Grid::VerticalStaggering_Levels, false);
	dyn(which, 4, 0.0, 0.0, 0.0);
	int c = bad == 0 ? -2 : bad == 1 ? (eq == 2 ? 3 : 5) : 9;
	h_nk = 0; keep(0); keep(1);
	bool refused = false;
	try { if (h1) h1->ApplyScalarHyperdiffusion(0, 1, 1.0, 1.0, false, c, false); else h2->ApplyScalarHyperdiffusion(0, 1, 1.0, 1.0, false, c, false); }
	catch (Exception &) { refused = true; }
	vp_check(refused, "components that do not exist are refused");
	for (int i = 0; i < h_nk; i++) for (int j = 0; j < h_k[i].n; j++) vp_eq(h_k[i].d[j], h_k[i].o[j], "nothing changes");
}

// -------------------------------------------------------------------- velocity
static D4 * v_S;
static double v_ua(int x, int y, int k) { return (*v_S)(0, x, y, k); }
static double v_ub(int x, int y, int k) { return (*v_S)(1, x, y, k); }
static double v_jua(int x, int y, int k) { GridPatch * p = h_p; return p->m_dataJacobian2D(x, y) * (p->m_dataContraMetric2DA(x, y, 0) * v_ua(x, y, k) + p->m_dataContraMetric2DA(x, y, 1) * v_ub(x, y, k)); }
static double v_jub(int x, int y, int k) { GridPatch * p = h_p; return p->m_dataJacobian2D(x, y) * (p->m_dataContraMetric2DB(x, y, 0) * v_ua(x, y, k) + p->m_dataContraMetric2DB(x, y, 1) * v_ub(x, y, k)); }
static double v_curl(int a, int b, int i, int j, int k) { return (deriv(v_ub, 0, a, b, i, j, k) - deriv(v_ua, 1, a, b, i, j, k)) / h_p->m_dataJacobian2D(H(a, i), H(b, j)); }
static double v_div(int a, int b, int i, int j, int k) { return (deriv(v_jua, 0, a, b, i, j, k) + deriv(v_jub, 1, a, b, i, j, k)) / h_p->m_dataJacobian2D(H(a, i), H(b, j)); }
static double f_curl[40][40], f_div[40][40];
static double fcurl(int x, int y, int k) { return f_curl[x][y]; }
static double fdiv_(int x, int y, int k) { return f_div[x][y]; }
static double fzero(int x, int y, int k) { return 0.0; }
extern "C" void vc_curl_div() {
	int cs = vp_choice("sphere", 0, 1), n = vp_choice("order", 2, 4), eq = vp_choice("equations", 1, 2), ea = vp_choice("elementsA", 1, 2), inst = vp_choice("instance", 0, 1);
	h_cs = cs;
	hsetup(eq, 0, n, eq == 2 ? 1 : 2, ea, cs ? ea : 1, Grid::VerticalStaggering_Levels, false);
	h_cs = false;
	h_nk = 0; keep(0); keep(1);
	h_p->ComputeVorticityDivergence(inst);
	v_S = &h_p->m_datavecStateNode[inst];
	for (int a = 0; a < ea; a++) for (int b = 0; b < (cs ? ea : 1); b++) for (int k = 0; k < h_nr; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
		vp_eq(h_p->m_dataVorticity(H(a, i), H(b, j), k), v_curl(a, b, i, j, k), "vorticity is the curl of the velocity");
		vp_eq(h_p->m_dataDivergence(H(a, i), H(b, j), k), v_div(a, b, i, j, k), "divergence is that of the velocity");
	}
	for (int i = 0; i < h_nk; i++) for (int j = 0; j < h_k[i].n; j++) vp_eq(h_k[i].d[j], h_k[i].o[j], "the state does not change");
}
// by the contract above; only this part of the patch is symbolic in the velocity contract
static void curl_div_symbols(int a, int b, int k) {
	for (int i = 0; i < h_n; i++) for (int j = 0; j < h_n; j++) { f_curl[H(a, i)][H(b, j)] = h_p->m_dataVorticity(H(a, i), H(b, j), k); f_div[H(a, i)][H(b, j)] = h_p->m_dataDivergence(H(a, i), H(b, j), k); }
}
extern "C" void vc_vector_diffusion() {
	int which = vp_choice("method", 0, 1), n = vp_choice("order", 2, 4), eq = vp_choice("equations", 1, 2), ea = vp_choice("elementsA", 1, 2), eb = vp_choice("elementsB", 1, 2);
	int src = vp_choice("source", 0, 2), xz = vp_choice("xz", 0, 1), local = vp_choice("local", 0, 1), tr = 1, nr = eq == 2 ? 1 : 2;
	vp_assume(which == 0 || (n == 4 && xz == 0));
	hsetup(eq, tr, n, nr, ea, eb, Grid::VerticalStaggering_Levels, false);
	((GridGLL *)h_g)->m_fCartesianXZ = xz;
	reflength(vp_choice("reflength", 0, 2));
	dyn(which, 4, 0.0, 0.0, 0.0);
	double dt = vp_real("dt"), nd = vp_real("nudiv"), nv = vp_real("nuvort");
	int target = src == 0 ? 1 : src == 1 ? 0 : 1;      // from either instance, or from the reference state
	h_nk = 0; keep(0); keep(1); keep1(&h_p->m_dataRefStateNode(0, 0, 0, 0), h_p->m_dataRefStateNode.GetTotalSize());
	int from = src == 2 ? DATA_INDEX_REFERENCE : src;
	if (h1) h1->ApplyVectorHyperdiffusion(from, target, dt, nd, nv, local); else h2->ApplyVectorHyperdiffusion(from, target, dt, nd, nv, local);
	v_S = src == 2 ? &h_p->m_dataRefStateNode : &h_p->m_datavecStateNode[src];
	D4 & u = h_p->m_datavecStateNode[target];
	double kd = dt * scaling(local) * nd, kv = dt * scaling(local) * nv;
	int ae = vp_choice("element", 0, ea - 1);
	GridPatch * p = h_p;
	for (int k = 0; k < nr; k++) {
		int a = ae, b = eb - 1;
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { f_curl[H(a, i)][H(b, j)] = v_curl(a, b, i, j, k); f_div[H(a, i)][H(b, j)] = v_div(a, b, i, j, k); }
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
			int x = H(a, i), y = H(b, j);
			double dad = weakdiv(fdiv_, fzero, a, b, i, j, k), dbd = weakdiv(fzero, fdiv_, a, b, i, j, k);
			double dac = weakdiv(fcurl, fzero, a, b, i, j, k), dbc = weakdiv(fzero, fcurl, a, b, i, j, k);
			double J = p->m_dataJacobian2D(x, y);
			double ua = kd * dad - kv * J * (p->m_dataContraMetric2DB(x, y, 0) * dac + p->m_dataContraMetric2DB(x, y, 1) * dbc);
			double ub = kd * dbd + kv * J * (p->m_dataContraMetric2DA(x, y, 0) * dac + p->m_dataContraMetric2DA(x, y, 1) * dbc);
			vp_eq(u(0, x, y, k) - old(u(0, x, y, k)), -ua, "first velocity changes by the gradient of divergence and the curl of vorticity");
			if (!xz) vp_eq(u(1, x, y, k) - old(u(1, x, y, k)), -ub, "second velocity changes by the gradient of divergence and the curl of vorticity");
			else vp_eq(u(1, x, y, k), old(u(1, x, y, k)), "velocity across the plane of the model does not change");
		}
	}
	for (int q = 0; q < h_nk; q++) for (int s = 0; s < h_k[q].n; s++) {
		double * at = h_k[q].d + s;
		if (at >= &u(0, 0, 0, 0) && at <= &u(1, ea * n + 1, eb * n + 1, nr - 1)) continue;
		vp_eq(*at, h_k[q].o[s], "nothing but the velocity changes");
	}
	for (int c = 0; c < 2; c++) for (int x = 0; x < ea * n + 2; x++) for (int y = 0; y < eb * n + 2; y++) for (int k = 0; k < nr; k++)
		if (x == 0 || x > ea * n || y == 0 || y > eb * n) vp_eq(u(c, x, y, k), old(u(c, x, y, k)), "data outside the elements does not change");
}

// ---------------------------------------------------------------------- friction
extern "C" void vc_friction() {
	int which = vp_choice("method", 0, 1), eq = vp_choice("equations", 1, 2), st = vp_choice("staggering", 0, 2), xz = vp_choice("xz", 0, 1), inst = vp_choice("instance", 0, 1);
	vp_assume(eq == 1 || (st == 0 && xz == 0));
	int n = which ? 4 : 2, nr = eq == 2 ? 1 : 2, nc = eq == 2 ? 3 : 5;
	hsetup(eq, 1, n, nr, 1, 1, stagg(st), false);
	((GridGLL *)h_g)->m_fCartesianXZ = xz;
	dyn(which, 4, 0.0, 0.0, 0.0);
	double dt = vp_real("dt");
	pos(dt, 0.0);
	sym3(h_p->m_dataRayleighStrengthNode, "strength"); sym3(h_p->m_dataRayleighStrengthREdge, "strengthedge");
	pos3(h_p->m_dataRayleighStrengthNode); pos3(h_p->m_dataRayleighStrengthREdge);
	// friction may be absent anywhere: a set of nodes and interfaces, chosen by column and level
	int none = vp_choice("absent", 0, 4);
	for (int x = 0; x < n + 2; x++) for (int y = 0; y < n + 2; y++) for (int k = 0; k <= nr; k++) {
		bool z = none == 1 || (none == 2 && k == 0) || (none == 3 && (x + y) % 2) || (none == 4 && k == nr - 1 && x == 1);
		if (z && k < nr) h_p->m_dataRayleighStrengthNode(x, y, k) = 0.0;
		if (z) h_p->m_dataRayleighStrengthREdge(x, y, k) = 0.0;
	}
	h_nk = 0; keep(0); keep(1);
	if (h1) h1->ApplyRayleighFriction(inst, dt); else h2->ApplyRayleighFriction(inst, dt);
	for (int c = 0; c < nc; c++) for (int loc = 0; loc < 2; loc++) {
		bool iface = interface(st, c);
		D4 & u = loc ? h_p->m_datavecStateREdge[inst] : h_p->m_datavecStateNode[inst];
		D4 & r = loc ? h_p->m_dataRefStateREdge : h_p->m_dataRefStateNode;
		D3 & s = loc ? h_p->m_dataRayleighStrengthREdge : h_p->m_dataRayleighStrengthNode;
		bool on = iface == (loc == 1) && (eq == 2 || (c < 4 && !(xz && c == 1)));
		for (int x = 0; x < n + 2; x++) for (int y = 0; y < n + 2; y++) for (int k = 0; k < nr + loc; k++) {
			double & v = u(c, x, y, k);
			bool in = x > 0 && x <= n && y > 0 && y <= n;
			if (!on || !in) { vp_eq(v, old(v), "nothing else is damped"); continue; }
			double d = 1.0 + dt * s(x, y, k) / 10.0, d2 = d * d, d5 = d2 * d2 * d;
			vp_eq((v - r(c, x, y, k)) * (d5 * d5), old(v) - r(c, x, y, k), "the difference from the reference state decays by ten implicit steps");
		}
	}
	for (int q = 0; q < h_nk; q++) {
		if (h_k[q].d == &h_p->m_datavecStateNode[inst](0, 0, 0, 0) || h_k[q].d == &h_p->m_datavecStateREdge[inst](0, 0, 0, 0)) continue;
		for (int s = 0; s < h_k[q].n; s++) vp_eq(h_k[q].d[s], h_k[q].o[s], "other data and tracers do not change");
	}
}
