// Geometry of node indices on the cube, independent of the code under test
#ifndef VP_WORLD2_H
#define VP_WORLD2_H
#include "world.h"
#include "sphere.h"
static int AXI(int p, int r, int c) { return (int)PANEL[p][r][c]; }
// panel and node index of the node reached by walking along the cube's surface from
// node (a,b) of panel p, N nodes to an edge; false for nodes beyond a panel corner
static bool fold(int N, int p, int a, int b, int & q, int & qa, int & qb) {
	bool oa = a < 0 || a >= N, ob = b < 0 || b >= N;
	if (oa && ob) return false;
	int x = 2 * a + 1 - N, y = 2 * b + 1 - N, z = N;
	if (oa) { int s = a < 0 ? -1 : 1; z = N - (s * x - N); x = s * N; }
	if (ob) { int s = b < 0 ? -1 : 1; z = N - (s * y - N); y = s * N; }
	int v[3];
	for (int c = 0; c < 3; c++) v[c] = x * AXI(p, 0, c) + y * AXI(p, 1, c) + z * AXI(p, 2, c);
	for (q = 0; q < 6; q++) {
		int d[3];
		for (int r = 0; r < 3; r++) d[r] = v[0] * AXI(q, r, 0) + v[1] * AXI(q, r, 1) + v[2] * AXI(q, r, 2);
		if (d[2] == N) { qa = (d[0] + N - 1) / 2; qb = (d[1] + N - 1) / 2; return true; }
	}
	return false;
}
// Cubed-sphere grid with a chosen layout of patches, each rank with its own grid
static int g_layout;
class LayoutGrid : public GridCSGLL {
public:
	LayoutGrid(Model & m) : GridCSGLL(m) { }
	virtual void ApplyDefaultPatchLayout(int n) {
		if (g_layout < 2) { GridCSGLL::ApplyDefaultPatchLayout(n); return; }
		// panels cut along alpha or beta at different places
		int ix = 0, N = m_nHorizontalOrder * GetABaseResolution(), h = m_model.GetHaloElements(), o = m_nHorizontalOrder;
		for (int p = 0; p < 6; p++) {
			int c = p % 3;
			if (c == 0) m_aPatchBoxes[ix++] = PatchBox(p, 0, h, 0, N, 0, N);
			else if (c == 1) { m_aPatchBoxes[ix++] = PatchBox(p, 0, h, 0, o, 0, N); m_aPatchBoxes[ix++] = PatchBox(p, 0, h, o, N, 0, N); }
			else { m_aPatchBoxes[ix++] = PatchBox(p, 0, h, 0, N, 0, N - o); m_aPatchBoxes[ix++] = PatchBox(p, 0, h, 0, N, N - o, N); }
		}
		m_nInitializedPatchBoxes = ix;
	}
};
static Model * g_m[GM_RANKS];
static Grid * g_g[GM_RANKS];
static int g_type;
static void runrank(int r);

static GridPatch * patch(int n) {
	for (int r = 0; r < gm_size; r++) for (int k = 0; k < g_g[r]->GetActivePatchCount(); k++)
		if (g_g[r]->GetActivePatch(k)->GetPatchIndex() == n) return g_g[r]->GetActivePatch(k);
	return 0;
}
struct Arr { double * d; int nc, na, nb, nr; bool sent[8]; };
template <typename A4> static void arr4(Arr & a, A4 & d) { a.d = &d(0, 0, 0, 0); a.nc = d.GetSize(0); a.na = d.GetSize(1); a.nb = d.GetSize(2); a.nr = d.GetSize(3); }
template <typename A3> static void arr3(Arr & a, A3 & d) { a.d = &d(0, 0, 0); a.nc = 1; a.na = d.GetSize(0); a.nb = d.GetSize(1); a.nr = d.GetSize(2); a.sent[0] = true; }
// the arrays an exchange of the data type concerns, and which components travel
static int arrays(GridPatch * p, Arr a[2], bool other) {
	for (int c = 0; c < 8; c++) a[0].sent[c] = a[1].sent[c] = !other;
	int ix = 1;
	if (g_type == DataType_State) {
		arr4(a[0], p->m_datavecStateNode[ix]); arr4(a[1], p->m_datavecStateREdge[ix]);
		for (int c = 0; c < a[0].nc; c++) {
			bool node = p->m_grid.m_vecVarLocation[c] == DataLocation_Node;
			a[0].sent[c] = node; a[1].sent[c] = !node;
		}
		return 2;
	}
	if (g_type == DataType_Tracers) { arr4(a[0], p->m_datavecTracers[ix]); return 1; }
	if (g_type == DataType_Vorticity) arr3(a[0], p->m_dataVorticity);
	if (g_type == DataType_Divergence) arr3(a[0], p->m_dataDivergence);
	if (g_type == DataType_Temperature) arr3(a[0], p->m_dataTemperature);
	if (g_type == DataType_Richardson) arr3(a[0], p->m_dataRichardson);
	if (g_type == DataType_TopographyDeriv) arr3(a[0], p->m_dataTopographyDeriv);
	return 1;
}
static double * g_old[64][2];
static void fill() {
	int np = g_g[0]->GetPatchCount();
	Arr a[2];
	for (int n = 0; n < np; n++) {
		int k = arrays(patch(n), a, false);
		for (int s = 0; s < k; s++) {
			int t = a[s].nc * a[s].na * a[s].nb * a[s].nr;
			vp_sym_array(a[s].d, t, "data");
			g_old[n][s] = (double *)malloc(8 * t);
			for (int i = 0; i < t; i++) g_old[n][s][i] = a[s].d[i];
		}
	}
}
static const int TY[7] = {DataType_State, DataType_Tracers, DataType_Vorticity, DataType_Divergence, DataType_Temperature, DataType_Richardson, DataType_TopographyDeriv};
static int g_na, g_nb; static bool g_cart, g_pa, g_pb;
static void rank_loop() {
	gm_run = runrank;
	for (int r = 0; r < gm_size; r++) gm_started[r] = false;
	for (int r = 0; r < gm_size; r++) if (!gm_started[r]) { gm_started[r] = true; gm_rank = r; runrank(r); }
}
static int layout_res(int layout) { return layout == 0 ? 1 : 2; }
static int layout_patches(int layout) { return layout == 1 ? 24 : layout == 2 ? 10 : 6; }
// every rank sets up its grid of the cubed sphere, with real code
static void setup_cs(int eq, int tracers, int ranks, int layout, int order, int nr, int vorder, Grid::VerticalStaggering stag) {
	g_layout = layout;
	gm_init(ranks);
	for (int r = 0; r < ranks; r++) {
		gm_rank = r;
		g_m[r] = wmodel(eq, tracers, 1);
		LayoutGrid * g = new LayoutGrid(*g_m[r]);
		g->DefineParameters();
		g->SetParameters(nr, layout_patches(layout), layout_res(layout), 4, order, vorder, Grid::VerticalDiscretization_FiniteElement, stag);
		g->InitializeDataLocal();
		g_m[r]->SetGrid(g, layout_patches(layout));
		g_g[r] = g;
	}
	g_na = g_nb = order * layout_res(layout); g_cart = false;
}
static void setup_cart(int eq, int tracers, int ranks, int patches, int nea, int neb, int order, int nr, int vorder, Grid::VerticalStaggering stag, bool pa, bool pb) {
	gm_init(ranks);
	for (int r = 0; r < ranks; r++) {
		gm_rank = r;
		g_m[r] = wmodel(eq, tracers, 1);
		g_g[r] = wcart(g_m[r], patches, nea, neb, order, nr, vorder, stag, pa, pb);
	}
	g_na = nea * order; g_nb = neb * order; g_cart = true; g_pa = pa; g_pb = pb;
}
#endif
