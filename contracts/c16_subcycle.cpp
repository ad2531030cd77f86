// What surrounds the diffusion operators: order of application, averaging, filter, friction
#include "hdyn.h"

static Time g_time;
static HorizontalDynamicsFEM * h1; static HorizontalDynamicsFEMV2 * h2;
static void dyn(int which, int order, double ns, double nd, double nv) {
	h1 = 0; h2 = 0;
	if (which == 0) { h1 = new HorizontalDynamicsFEM(*h_m, h_n, order, ns, nd, nv, 0.0); h1->Initialize(); }
	else { h2 = new HorizontalDynamicsFEMV2(*h_m, h_n, order, ns, nd, nv, 0.0); h2->Initialize(); }
}
// ------------------------------------------------------- the step after the subcycle
// Callees by contract, acting on one value of each kind of field; the filter and the
// friction as arbitrary affine maps, the Laplacians and the averaging as linear maps
static double s_ls, s_ld, s_lv, s_d, s_f, s_f0, s_r, s_r0, s_sigma; static double s_dt;
static double & fv(int inst) { return h_p->m_datavecStateNode[inst](0, 1, 2, 0); }
static double & fs(int inst) { return h_p->m_datavecStateNode[inst](2, 2, 1, 0); }
static double & fe(int inst) { return h_p->m_datavecStateREdge[inst](3, 2, 1, 1); }
static double & ft(int inst) { return h_p->m_datavecTracers[inst](0, 1, 1, 0); }
extern "C" void c16_vector(void *, int i, int u, double dt, double nd, double nv, bool local) { fv(u) -= dt * (local ? s_sigma : 1.0) * (nd * s_ld + nv * s_lv) * fv(i); }
extern "C" void c16_scalar(void *, int i, int u, double dt, double nu, bool local, int comp, bool ref) {
	vp_check(comp == -1 && !ref, "all scalars are diffused");
	double k = dt * nu * (local ? s_sigma : 1.0) * s_ls;
	fs(u) += k * fs(i); fe(u) += k * fe(i); ft(u) += k * ft(i);
}
extern "C" void c16_filter(void *, int u) { ft(u) = s_f * ft(u) + s_f0; }
extern "C" void c16_friction(void *, int u, double dt) { vp_eq(dt, s_dt, "friction acts over the step"); fv(u) = s_r * fv(u) + s_r0; fs(u) = s_r * fs(u) + s_r0; fe(u) = s_r * fe(u) + s_r0; }
extern "C" void c16_dss(void *, int u, DataType t) {
	if (t == DataType_State) { fv(u) *= s_d; fs(u) *= s_d; fe(u) *= s_d; }
	else if (t == DataType_Tracers) ft(u) *= s_d;
	else vp_check(false, "only state and tracers are averaged");
}
static void c16_callees(int which) {
	if (which == 0) {
		vp_replace("_ZN21HorizontalDynamicsFEM25ApplyVectorHyperdiffusionEiidddb", (void (*)())c16_vector);
		vp_replace("_ZN21HorizontalDynamicsFEM25ApplyScalarHyperdiffusionEiiddbib", (void (*)())c16_scalar);
		vp_replace("_ZN21HorizontalDynamicsFEM21FilterNegativeTracersEi", (void (*)())c16_filter);
		vp_replace("_ZN21HorizontalDynamicsFEM21ApplyRayleighFrictionEid", (void (*)())c16_friction);
	} else {
		vp_replace("_ZN23HorizontalDynamicsFEMV225ApplyVectorHyperdiffusionEiidddb", (void (*)())c16_vector);
		vp_replace("_ZN23HorizontalDynamicsFEMV225ApplyScalarHyperdiffusionEiiddbib", (void (*)())c16_scalar);
		vp_replace("_ZN23HorizontalDynamicsFEMV221FilterNegativeTracersEi", (void (*)())c16_filter);
		vp_replace("_ZN23HorizontalDynamicsFEMV221ApplyRayleighFrictionEid", (void (*)())c16_friction);
	}
	vp_replace("_ZN16GridCartesianGLL8ApplyDSSEi8DataType", (void (*)())c16_dss);
	s_ls = vp_real("laplacian"); s_ld = vp_real("graddiv"); s_lv = vp_real("curlcurl"); s_d = vp_real("average");
	s_f = vp_real("filter"); s_f0 = vp_real("filter0"); s_r = vp_real("friction"); s_r0 = vp_real("friction0"); s_sigma = vp_real("localscaling");
}
static void after(int which, int order, double ns, double nd, double nv, bool friction) {
	w_instances = 3;
	hsetup(1, 1, which ? 4 : 2, 2, 1, 1, Grid::VerticalStaggering_Lorenz, false);
	w_instances = 2;
	sym4(h_p->m_datavecStateNode[2], "worknode"); sym4(h_p->m_datavecStateREdge[2], "workredge"); sym4(h_p->m_datavecTracers[2], "worktracer");
	h_g->m_fHasRayleighFriction = friction;
	dyn(which, order, ns, nd, nv);
	c16_callees(which);
}
extern "C" void vc_after_subcycle() {
	int which = vp_choice("method", 0, 1), order = vp_choice("order", 0, 4), fr = vp_choice("friction", 0, 1), perm = vp_choice("instances", 0, 2);
	vp_assume(order % 2 == 0);
	double ns = vp_real("nuscalar"), nd = vp_real("nudiv"), nv = vp_real("nuvort"), dt = vp_real("dt");
	after(which, order, ns, nd, nv, fr);
	s_dt = dt;
	int in = perm, up = (perm + 1) % 3, wk = (perm + 2) % 3;
	h_nk = 0; keep(0); keep(1); keep(2);
	if (h1) h1->StepAfterSubCycle(in, up, wk, g_time, dt); else h2->StepAfterSubCycle(in, up, wk, g_time, dt);
	double v = old(fv(in)), s = old(fs(in)), e = old(fe(in)), t = old(ft(in));
	bool off = order == 0 || (ns == 0.0 && nd == 0.0 && nv == 0.0);
	if (!off && order == 2) {
		v = s_d * (v + dt * (nd * s_ld + nv * s_lv) * v);
		s = s_d * (s + dt * ns * s_ls * s); e = s_d * (e + dt * ns * s_ls * e);
		t = s_d * (s_f * (t + dt * ns * s_ls * t) + s_f0);
	} else if (!off) {
		v = s_d * (v - dt * s_sigma * (nd * s_ld + nv * s_lv) * (s_d * ((s_ld + s_lv) * v)));
		s = s_d * (s - dt * ns * s_sigma * s_ls * (s_d * (s_ls * s))); e = s_d * (e - dt * ns * s_sigma * s_ls * (s_d * (s_ls * e)));
		t = s_d * (s_f * (t - dt * ns * s_sigma * s_ls * (s_d * (s_ls * t))) + s_f0);
	}
	if (fr) { v = s_r * v + s_r0; s = s_r * s + s_r0; e = s_r * e + s_r0; }
	vp_eq(fv(up), v, "velocity is diffused, averaged and damped"); vp_eq(fs(up), s, "scalars are diffused, averaged and damped");
	vp_eq(fe(up), e, "scalars on interfaces are diffused, averaged and damped"); vp_eq(ft(up), t, "tracers are diffused, filtered and averaged");
	for (int q = 0; q < h_nk; q++) for (int x = 0; x < h_k[q].n; x++) {
		if (q / 3 == in) vp_eq(h_k[q].d[x], h_k[q].o[x], "initial data does not change");
		if (q / 3 == up) {
			double * at = h_k[q].d + x;
			if (at == &fv(up) || at == &fs(up) || at == &fe(up) || at == &ft(up)) continue;
			vp_eq(*at, h_k[3 * in + q % 3].o[x], "the update starts from the initial data");
		}
	}
}
extern "C" void vc_after_refuse() {
	int which = vp_choice("method", 0, 1), bad = vp_choice("bad", 0, 4);
	int order = bad == 2 ? 6 : bad == 3 ? 3 : bad == 4 ? -2 : 4;
	after(which, order, 1.0, 1.0, 1.0, false);
	int in = 0, up = bad == 1 ? 2 : 1, wk = bad == 0 ? 0 : 2;
	bool refused = false;
	h_nk = 0; keep(0); keep(2);
	try { if (h1) h1->StepAfterSubCycle(in, up, wk, g_time, 1.0); else h2->StepAfterSubCycle(in, up, wk, g_time, 1.0); }
	catch (Exception &) { refused = true; }
	vp_check(refused, "shared instances and other orders of diffusion are refused");
	for (int q = 0; q < 3; q++) for (int x = 0; x < h_k[q].n; x++) vp_eq(h_k[q].d[x], h_k[q].o[x], "initial data does not change");
}
