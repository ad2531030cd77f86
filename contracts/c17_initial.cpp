// The initial state is the test case's, at every node, level and interface
#include "vp.h"
#include "tcase.h"
static void runrank(int r) { }
typedef DataArray4D<double> D4;
static Model * q_m; static Grid * q_g;
static int q_n, q_nr, q_res, q_resb, q_idx; static bool q_sw;
static const double HALFPI = 1.57079632679489661923;
static void world(bool cs) {
	t_sphere = cs; t_n = 0; t_zero = false; t_high = -1;
	q_n = vp_choice("order", 2, 4);
	q_sw = cs && vp_choice("shallow", 0, 1) == 1;
	q_nr = q_sw ? 1 : 2;
	t_nt = q_sw ? 0 : vp_choice("tracers", 0, 2);
	t_nc = q_sw ? 3 : 5;
	int st = q_sw ? 0 : vp_choice("staggering", 0, 1);
	Grid::VerticalStaggering stag = st ? Grid::VerticalStaggering_CharneyPhillips : Grid::VerticalStaggering_Levels;
	int layout = vp_choice("layout", 0, cs ? 2 : 1);
	if (cs) { setup_cs(q_sw ? 2 : 3, t_nt, 1, layout, q_n, q_nr, 1, stag); q_res = q_resb = layout_res(layout); }
	else { q_res = 2; q_resb = 1; setup_cart(3, t_nt, 1, layout ? 2 : 1, 2, 1, q_n, q_nr, 1, stag, true, true); }
	q_m = g_m[0]; q_g = g_g[0];
	q_idx = vp_choice("instance", 0, 1);
	t_top = q_sw ? 1.0 : vp_real("ztop");
	if (!vp_symbolic() && !q_sw) t_top = 10.0 + fabs(t_top);
	if (!q_sw) vp_assume(t_top > 0.0);
}
static double ca(int g) { return t_sphere ? t_coord(q_n, g, -0.5 * HALFPI, HALFPI / q_res) : t_coord(q_n, g, 0.0, 1000.0); }
static double cb(int g) { return t_sphere ? t_coord(q_n, g, -0.5 * HALFPI, HALFPI / q_resb) : t_coord(q_n, g, -500.0, 800.0); }
static double q_r[3], q_a[3], q_b[3];
static Loc & at(GridPatch * p, int i, int j) {
	int ga = p->m_box.GetAGlobalBegin() + i, gb = p->m_box.GetBGlobalBegin() + j;
	q_r[0] = ca(ga); q_r[1] = cb(gb); q_r[2] = 0.0;
	if (t_sphere) { pt(p->m_box.GetPanel(), tan(ca(ga)), tan(cb(gb)), q_r); basis(p->m_box.GetPanel(), tan(ca(ga)), tan(cb(gb)), q_a, q_b); }
	return loc_at(q_r);
}
static int q_inst; static double * o_node, * o_redge, * o_tr;
static double * copy(double * d, int n) { double * o = (double *)malloc(8 * n + 8); for (int i = 0; i < n; i++) o[i] = d[i]; return o; }
static void state(GridPatch * p, Loc & l, int kind, double z, double R, D4 & s, int i, int j, int k, const char * what) {
	double v[5];
	for (int c = 0; c < t_nc; c++) v[c] = val(l, kind, c, z);
	if (!q_sw) v[2] *= v[4];
	if (t_sphere) {
		double rho2 = q_r[0] * q_r[0] + q_r[1] * q_r[1];
		if (rho2 > 1e-12) {
			double rho = sqrt(rho2), e[3] = {-q_r[1] / rho, q_r[0] / rho, 0.0}, n[3] = {-q_r[0] * q_r[2] / rho, -q_r[1] * q_r[2] / rho, rho};
			double u = v[0], w = v[1];
			v[0] = R * (u * dot(e, q_a) + w * dot(n, q_a)); v[1] = R * (u * dot(e, q_b) + w * dot(n, q_b));
			// zero coefficients come out as rounding noise on either side: a large common term sets the scale
			for (int c = 0; c < 2; c++) vp_eq_tol(s(c, i, j, k), v[c], 1e-2, "velocities are the covariant components of the test case's eastward and northward wind");
		}
	} else for (int c = 0; c < 2; c++) vp_eq(s(c, i, j, k), v[c], "velocities on the plane are those of the test case");
	for (int c = 2; c < t_nc; c++) vp_eq(s(c, i, j, k), v[c], what);
}
extern "C" void vc_initial() {
	bool cs = vp_choice("sphere", 0, 1);
	world(cs);
	t_ref = vp_choice("reference", 0, t_nt ? 2 : 1); t_ray = vp_choice("rayleigh", 0, 1);
	int d = vp_choice("diffusion", 0, 2);
	t_nuS = d == 1 ? 2.5 : 0.0; t_nuV = d == 2 ? 7.5 : 0.0;
	Time time(2001, 3, 4, 5, 6); t_time = &time;
	double R = q_m->GetPhysicalConstants().GetEarthRadius();
	for (int n = 0; n < q_g->GetActivePatchCount(); n++) {
		GridPatch * p = q_g->GetActivePatch(n);
		// arrays the test case does not supply stay as they are; so does the other instance
		for (int s = 0; s < 2; s++) { vp_sym_array(&p->m_datavecStateNode[s](0, 0, 0, 0), p->m_datavecStateNode[s].GetTotalSize(), "node"); vp_sym_array(&p->m_datavecStateREdge[s](0, 0, 0, 0), p->m_datavecStateREdge[s].GetTotalSize(), "redge"); }
	}
	GridPatch * p0 = q_g->GetActivePatch(0);
	double * on = copy(&p0->m_datavecStateNode[1 - q_idx](0, 0, 0, 0), p0->m_datavecStateNode[1 - q_idx].GetTotalSize());
	double * oe = copy(&p0->m_datavecStateREdge[1 - q_idx](0, 0, 0, 0), p0->m_datavecStateREdge[1 - q_idx].GetTotalSize());
	SymCase test;
	q_g->EvaluateTestCase(test, time, q_idx);
	vp_eq(q_g->GetZtop(), t_top, "the grid's top is the test case's");
	vp_check(q_g->HasReferenceState() == (t_ref != 0) && q_g->HasRayleighFriction() == t_ray && q_g->HasUniformDiffusion() == (d != 0), "the grid knows what the test case supplies");
	vp_check(q_g->GetScalarUniformDiffusionCoeff() == t_nuS && q_g->GetVectorUniformDiffusionCoeff() == t_nuV, "diffusion coefficients are the test case's");
	for (int sel = 0; sel < q_g->GetActivePatchCount(); sel++) {
	GridPatch * p = q_g->GetActivePatch(sel);
	for (int i = 0; i < p->m_box.GetATotalWidth(); i++) for (int j = 0; j < p->m_box.GetBTotalWidth(); j++) {
		Loc & l = at(p, i, j);
		vp_eq(p->m_dataTopography(i, j), l.zs, "topography is the test case's");
		for (int e = 0; e < 2; e++) for (int k = 0; k < q_nr + e; k++) {
			double eta = e ? q_g->m_dREtaInterfaces[k] : q_g->m_dREtaLevels[k];
			double z = q_sw ? (e && k == 1 ? 1.0 : 0.0) : t_top * eta + t_s(eta) * l.zs;
			double zc = e ? p->m_dataZInterfaces(i, j, k) : p->m_dataZLevels(i, j, k);
			if (q_sw) vp_check(zc == z, "shallow-water columns span [0, 1]"); else vp_eq(zc, z, "altitude of levels and interfaces follows the terrain");
			state(p, l, T_STATE, zc, R, e ? p->m_datavecStateREdge[q_idx] : p->m_datavecStateNode[q_idx], i, j, k, "the state is the test case's at the node's position and altitude");
			if (t_ref) state(p, l, T_REF, zc, R, e ? p->m_dataRefStateREdge : p->m_dataRefStateNode, i, j, k, "the reference state is the test case's at the node's position and altitude");
			if (t_ray) vp_eq(e ? p->m_dataRayleighStrengthREdge(i, j, k) : p->m_dataRayleighStrengthNode(i, j, k), val(l, T_RAY, 0, zc), "Rayleigh friction strength is the test case's at every level and interface");
			if (!e) for (int c = 0; c < t_nt; c++) {
				vp_eq(p->m_datavecTracers[q_idx](c, i, j, k), val(l, T_TRACER, c, zc), "tracers are the test case's");
				if (t_ref == 2) vp_eq(p->m_dataRefTracers(c, i, j, k), val(l, T_REFTRACER, c, zc), "reference tracers are the test case's");
			}
		}
	}
	}
	{
		int tn = p0->m_datavecStateNode[0].GetTotalSize(), te = p0->m_datavecStateREdge[0].GetTotalSize();
		double * nn = &p0->m_datavecStateNode[1 - q_idx](0, 0, 0, 0), * ne = &p0->m_datavecStateREdge[1 - q_idx](0, 0, 0, 0);
		for (int m = 0; m < tn; m++) vp_eq(nn[m], on[m], "other data instances are left alone");
		for (int m = 0; m < te; m++) vp_eq(ne[m], oe[m], "other data instances are left alone");
	}
	vp_reach("done");
}
// A perturbation on restart is added to the state; potential temperature (weighted by
// density), vertical velocity and tracers
extern "C" void vc_perturbation() {
	bool cs = vp_choice("sphere", 0, 1);
	world(cs);
	t_ref = 0; t_ray = false;
	Time time(2001, 3, 4, 5, 6); t_time = &time;
	int sel = vp_choice("part", 0, q_g->GetActivePatchCount() - 1);
	GridPatch * p = q_g->GetActivePatch(sel);
	D4 & sn = p->m_datavecStateNode[q_idx], & se = p->m_datavecStateREdge[q_idx], & tr = p->m_datavecTracers[q_idx];
	vp_sym_array(&sn(0, 0, 0, 0), sn.GetTotalSize(), "node"); vp_sym_array(&se(0, 0, 0, 0), se.GetTotalSize(), "redge");
	if (t_nt) vp_sym_array(&tr(0, 0, 0, 0), tr.GetTotalSize(), "tracer");
	vp_sym_array(&p->m_dataZLevels(0, 0, 0), p->m_dataZLevels.GetTotalSize(), "z"); vp_sym_array(&p->m_dataZInterfaces(0, 0, 0), p->m_dataZInterfaces.GetTotalSize(), "ze");
	double * on = copy(&sn(0, 0, 0, 0), sn.GetTotalSize()), * oe = copy(&se(0, 0, 0, 0), se.GetTotalSize()), * ot = copy(t_nt ? &tr(0, 0, 0, 0) : 0, t_nt ? tr.GetTotalSize() : 0);
	SymCase test;
	q_g->EvaluateTestCase_Perturbation(test, time, q_idx);
	int A = p->m_box.GetATotalWidth(), B = p->m_box.GetBTotalWidth();
	for (int i = 0; i < A; i++) for (int j = 0; j < B; j++) {
		Loc & l = at(p, i, j);
		for (int e = 0; e < 2; e++) for (int k = 0; k < q_nr + e; k++) {
			D4 & s = e ? se : sn; double * o = e ? oe : on;
			double z = e ? p->m_dataZInterfaces(i, j, k) : p->m_dataZLevels(i, j, k);
			for (int c = 0; c < t_nc; c++) {
				double v = o[((c * A + i) * B + j) * (q_nr + e) + k];
				if (c == 2) v += val(l, T_PERT, 2, z) * (q_sw ? 1.0 : o[((4 * A + i) * B + j) * (q_nr + e) + k]);
				if (c == 3) v += val(l, T_PERT, 3, z);
				vp_eq(s(c, i, j, k), v, "a perturbation on restart is added to the state");
			}
			if (!e) for (int c = 0; c < t_nt; c++) vp_eq(tr(c, i, j, k), ot[((c * A + i) * B + j) * q_nr + k] + val(l, T_PERTTRACER, c, z), "a perturbation on restart is added to the tracers");
		}
	}
	vp_reach("done");
}
