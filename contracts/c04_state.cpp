#include "patch.h"
#include <cmath>

// NI instances of a two-component state (nodes and interfaces) and of tracers,
// on NP patches.  All contents and coefficients are symbolic.
static const int NI = 4, SN = 2 * 2 * 1 * 2, SR = 2 * 3 * 1 * 2, ST = 1 * 2 * 1 * 2;
static double g_n[2][NI][SN], g_r[2][NI][SR], g_t[2][NI][ST];
static double o_n[2][NI][SN], o_r[2][NI][SR], o_t[2][NI][ST];
static double g_refn[2][SN];
static int g_ni, g_nt, g_tr;
static Grid * g_grid;
static GhostPatch * g_p[2];

// Default data arrays carry the type State / location Node; REdge and tracer arrays
// their own, as GridPatch::InitializeDataLocal sets them
static void setup(int np) {
	g_grid = rawgrid();
	g_ni = vp_choice("instances", 1, NI);
	g_nt = vp_choice("tracerinstances", 1, NI);
	g_tr = vp_choice("tracers", 0, 1);
	for (int p = 0; p < np; p++) {
		GhostPatch * q = new GhostPatch(*g_grid, p, PatchBox(0, 0, 1, 0, 1, 0, 2));
		q->m_datavecStateNode.resize(g_ni);
		q->m_datavecStateREdge.resize(g_ni);
		q->m_datavecTracers.resize(g_nt);
		for (int k = 0; k < g_ni; k++) {
			q->m_datavecStateNode[k].SetSize(2, 2, 1, 2);
			q->m_datavecStateNode[k].AttachToData(g_n[p][k]);
			q->m_datavecStateREdge[k].SetDataLocation(DataLocation_REdge);
			q->m_datavecStateREdge[k].SetSize(2, 3, 1, 2);
			q->m_datavecStateREdge[k].AttachToData(g_r[p][k]);
			vp_sym_array(g_n[p][k], SN, "node");
			vp_sym_array(g_r[p][k], SR, "redge");
		}
		for (int k = 0; k < g_nt; k++) {
			q->m_datavecTracers[k].SetDataType(DataType_Tracers);
			if (g_tr) {
				q->m_datavecTracers[k].SetSize(1, 2, 1, 2);
				q->m_datavecTracers[k].AttachToData(g_t[p][k]);
			}
			vp_sym_array(g_t[p][k], ST, "tracer");
		}
		q->m_dataRefStateNode.SetSize(2, 2, 1, 2);
		q->m_dataRefStateNode.AttachToData(g_refn[p]);
		vp_sym_array(g_refn[p], SN, "ref");
		g_grid->m_vecActiveGridPatches.push_back(q);
		g_p[p] = q;
		for (int k = 0; k < NI; k++) {
			for (int i = 0; i < SN; i++) o_n[p][k][i] = g_n[p][k][i];
			for (int i = 0; i < SR; i++) o_r[p][k][i] = g_r[p][k][i];
			for (int i = 0; i < ST; i++) o_t[p][k][i] = g_t[p][k][i];
		}
	}
}
static void unchanged(int np, int st, int tr) {
	for (int p = 0; p < np; p++) for (int k = 0; k < NI; k++) {
		if (k != st) {
			for (int i = 0; i < SN; i++) vp_eq(g_n[p][k][i], o_n[p][k][i], "no other instance changes");
			for (int i = 0; i < SR; i++) vp_eq(g_r[p][k][i], o_r[p][k][i], "no other instance changes");
		}
		if (k != tr) for (int i = 0; i < ST; i++) vp_eq(g_t[p][k][i], o_t[p][k][i], "no other instance changes");
	}
}

extern "C" void vc_state_combine() {
	setup(1);
	int nc = vp_choice("coefficients", 1, NI), d = vp_choice("target", 0, NI - 1);
	vp_assume(nc <= g_ni && d < nc);
	DataArray1D<double> c(nc);
	int z = vp_choice("zeros", 0, (1 << NI) - 1);
	vp_assume(z < (1 << nc));
	for (int k = 0; k < nc; k++) { c[k] = (z >> k) & 1 ? 0.0 : vp_real("c"); if (!((z >> k) & 1)) vp_assume(c[k] != 0.0); }
	// an instance with weight zero may hold anything, even uninitialised memory
	for (int k = 0; k < nc; k++) if ((z >> k) & 1) { vp_poison(g_n[0][k], SN); vp_poison(g_r[0][k], SR); }
	g_grid->LinearCombineData(c, d, DataType_State);
	for (int i = 0; i < SN; i++) {
		double e = 0.0;
		for (int k = 0; k < nc; k++) if (!((z >> k) & 1)) e += c[k] * o_n[0][k][i];
		vp_eq(g_n[0][d][i], e, "target level data is the weighted sum of all instances");
	}
	for (int i = 0; i < SR; i++) {
		double e = 0.0;
		for (int k = 0; k < nc; k++) if (!((z >> k) & 1)) e += c[k] * o_r[0][k][i];
		vp_eq(g_r[0][d][i], e, "target interface data is the weighted sum of all instances");
	}
	for (int k = 0; k < g_ni; k++) if (k != d && !(k < nc && ((z >> k) & 1))) {
		for (int i = 0; i < SN; i++) vp_eq(g_n[0][k][i], o_n[0][k][i], "no other instance changes");
		for (int i = 0; i < SR; i++) vp_eq(g_r[0][k][i], o_r[0][k][i], "no other instance changes");
	}
	for (int k = 0; k < NI; k++) for (int i = 0; i < ST; i++) vp_eq(g_t[0][k][i], o_t[0][k][i], "combining the state leaves tracers alone");
}
extern "C" void vc_tracer_combine() {
	setup(1);
	int nc = vp_choice("coefficients", 1, NI), d = vp_choice("target", 0, NI - 1);
	vp_assume(nc <= g_nt && d < nc);
	DataArray1D<double> c(nc);
	int z = vp_choice("zeros", 0, (1 << NI) - 1);
	vp_assume(z < (1 << nc));
	for (int k = 0; k < nc; k++) { c[k] = (z >> k) & 1 ? 0.0 : vp_real("c"); if (!((z >> k) & 1)) vp_assume(c[k] != 0.0); }
	for (int k = 0; k < nc; k++) if ((z >> k) & 1) vp_poison(g_t[0][k], ST);
	g_grid->LinearCombineData(c, d, DataType_Tracers);
	if (g_tr) for (int i = 0; i < ST; i++) {
		double e = 0.0;
		for (int k = 0; k < nc; k++) if (!((z >> k) & 1)) e += c[k] * o_t[0][k][i];
		vp_eq(g_t[0][d][i], e, "target tracers are the weighted sum of all instances");
	}
	for (int k = 0; k < NI; k++) if (!(g_tr && k == d) && !(k < nc && ((z >> k) & 1))) for (int i = 0; i < ST; i++) vp_eq(g_t[0][k][i], o_t[0][k][i], "no other instance changes");
	for (int k = 0; k < NI; k++) for (int i = 0; i < SN; i++) vp_eq(g_n[0][k][i], o_n[0][k][i], "combining tracers leaves the state alone");
}
extern "C" void vc_state_copy() {
	setup(2);
	int s = vp_choice("source", 0, NI - 1), d = vp_choice("target", 0, NI - 1);
	int tr = vp_choice("tracerdata", 0, 1);
	if (!tr) {
		vp_assume(s < g_ni && d < g_ni);
		g_grid->CopyData(s, d, DataType_State);
		for (int p = 0; p < 2; p++) {
			for (int i = 0; i < SN; i++) vp_eq(g_n[p][d][i], o_n[p][s][i], "level data is copied on every patch");
			for (int i = 0; i < SR; i++) vp_eq(g_r[p][d][i], o_r[p][s][i], "interface data is copied on every patch");
		}
		unchanged(2, d, -1);
	} else {
		vp_assume(s < g_nt && d < g_nt);
		g_grid->CopyData(s, d, DataType_Tracers);
		if (g_tr) for (int p = 0; p < 2; p++) for (int i = 0; i < ST; i++) vp_eq(g_t[p][d][i], o_t[p][s][i], "tracers are copied on every patch");
		unchanged(2, -1, g_tr ? d : -1);
	}
}
extern "C" void vc_state_zero() {
	setup(2);
	int d = vp_choice("target", 0, NI - 1);
	int tr = vp_choice("tracerdata", 0, 1);
	if (!tr) {
		vp_assume(d < g_ni);
		vp_poison(g_n[1][d], SN);
		g_grid->ZeroData(d, DataType_State);
		for (int p = 0; p < 2; p++) {
			for (int i = 0; i < SN; i++) vp_eq(g_n[p][d][i], 0.0, "level data is zeroed on every patch");
			for (int i = 0; i < SR; i++) vp_eq(g_r[p][d][i], 0.0, "interface data is zeroed on every patch");
		}
		unchanged(2, d, -1);
	} else {
		vp_assume(d < g_nt);
		g_grid->ZeroData(d, DataType_Tracers);
		if (g_tr) for (int p = 0; p < 2; p++) for (int i = 0; i < ST; i++) vp_eq(g_t[p][d][i], 0.0, "tracers are zeroed on every patch");
		unchanged(2, -1, g_tr ? d : -1);
	}
}
extern "C" void vc_state_addref() {
	setup(2);
	int d = vp_choice("target", 0, NI - 1);
	vp_assume(d < g_ni);
	g_grid->AddReferenceState(d);
	for (int p = 0; p < 2; p++) for (int i = 0; i < SN; i++) vp_eq(g_n[p][d][i], o_n[p][d][i] + g_refn[p][i], "the reference state is added once");
	for (int p = 0; p < 2; p++) for (int k = 0; k < g_ni; k++) if (k != d)
		for (int i = 0; i < SN; i++) vp_eq(g_n[p][k][i], o_n[p][k][i], "no other instance changes");
	for (int k = 0; k < NI; k++) for (int i = 0; i < ST; i++) vp_eq(g_t[0][k][i], o_t[0][k][i], "tracers are left alone");
}
// invalid instances and data types are refused and nothing is written
extern "C" void vc_state_reject() {
	setup(1);
	int op = vp_choice("operation", 0, 3), tr = vp_choice("tracerdata", 0, 2);
	int n = tr ? g_nt : g_ni, good = vp_choice("good", 0, NI - 1), bad = vp_int("bad", -100, 100);
	vp_assume(good < n && (bad < 0 || bad >= n));
	DataType t = tr == 0 ? DataType_State : tr == 1 ? DataType_Tracers : DataType_Vorticity;
	bool thrown = false;
	try {
		if (op == 0) g_grid->CopyData(bad, good, t);
		else if (op == 1) g_grid->CopyData(good, bad, t);
		else if (op == 2) g_grid->ZeroData(bad, t);
		else {
			DataArray1D<double> c(n);
			for (int k = 0; k < n; k++) c[k] = 1.0;
			g_grid->LinearCombineData(c, bad, t);
		}
	} catch (Exception &) { thrown = true; }
	vp_check(thrown, "an invalid instance is refused");
	unchanged(1, -1, -1);
}
extern "C" void vc_state_toomany() {
	setup(1);
	int tr = vp_choice("tracerdata", 0, 1);
	int n = tr ? g_nt : g_ni, d = vp_choice("target", 0, NI - 1);
	vp_assume(d < n);
	DataArray1D<double> c(n + 1);
	for (int k = 0; k <= n; k++) c[k] = vp_real("c");
	bool thrown = false;
	try { g_grid->LinearCombineData(c, d, tr ? DataType_Tracers : DataType_State); } catch (Exception &) { thrown = true; }
	vp_check(thrown, "more weights than instances are refused");
	unchanged(1, -1, -1);
}
