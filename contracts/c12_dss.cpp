#include "world2.h"

static void runrank(int r) {
	if (g_cart) ((GridCartesianGLL *)g_g[r])->ApplyDSS(1, (DataType)g_type);
	else ((GridCSGLL *)g_g[r])->ApplyDSS(1, (DataType)g_type);
}
// one interior node of the grid: patch, local indices, place on the element mesh
// (copies of a node at the edges of elements have the same place) and coordinates
struct NodeAt { int n, i, j, p, v[3]; double X, Y; };
static NodeAt * g_nodes; static int g_nn, g_order;
// Gauss-Lobatto nodes on [-1,1]
static double gll(int np, int i) {
	if (i == 0) return -1.0;
	if (i == np - 1) return 1.0;
	if (np == 3) return 0.0;
	return i == 1 ? -1.0 / sqrt(5.0) : 1.0 / sqrt(5.0);
}
static int place(int a) { return (a / g_order) * (g_order - 1) + a % g_order; }
static double angle(int a, int N) { return atan(1.0) * (2.0 * ((a / g_order) + 0.5 * (gll(g_order, a % g_order) + 1.0)) / (N / g_order) - 1.0); }
static void collect() {
	int np = g_g[0]->GetPatchCount();
	g_nodes = (NodeAt *)malloc(sizeof(NodeAt) * 4000); g_nn = 0;
	int La = (g_na / g_order) * (g_order - 1), Lb = (g_nb / g_order) * (g_order - 1);
	for (int n = 0; n < np; n++) {
		const PatchBox & box = g_g[0]->GetPatchBox(n);
		for (int i = box.GetAInteriorBegin(); i < box.GetAInteriorEnd(); i++) for (int j = box.GetBInteriorBegin(); j < box.GetBInteriorEnd(); j++) {
			NodeAt & x = g_nodes[g_nn++];
			int a = box.GetAGlobalBegin() + i, b = box.GetBGlobalBegin() + j;
			x.n = n; x.i = i; x.j = j; x.p = box.GetPanel(); x.X = x.Y = 0.0;
			if (g_cart) { x.v[0] = g_pa ? place(a) % La : place(a); x.v[1] = g_pb ? place(b) % Lb : place(b); x.v[2] = 0; }
			else {
				int u = 2 * place(a) - La, w = 2 * place(b) - La;
				for (int c = 0; c < 3; c++) x.v[c] = u * AXI(x.p, 0, c) + w * AXI(x.p, 1, c) + La * AXI(x.p, 2, c);
				x.X = tan(angle(a, g_na)); x.Y = tan(angle(b, g_nb));
			}
		}
	}
}
static bool same(const NodeAt & a, const NodeAt & b) { return a.v[0] == b.v[0] && a.v[1] == b.v[1] && a.v[2] == b.v[2]; }
// covector (u,v) of panel q at node s, as components on the panel of node t (same place)
static void carry(const NodeAt & s, const NodeAt & t, double & u, double & v) {
	if (s.p == t.p) return;
	double a[3], b[3], c[3], d[3], V[3];
	basis(s.p, s.X, s.Y, a, b); basis(t.p, t.X, t.Y, c, d);
	double aa = dot(a, a), ab = dot(a, b), bb = dot(b, b), det = aa * bb - ab * ab;
	double cu, cv, du, dv;    // raised basis of s in the basis of t
	for (int k = 0; k < 3; k++) V[k] = (bb * a[k] - ab * b[k]) / det;
	cu = dot(V, c); du = dot(V, d);
	for (int k = 0; k < 3; k++) V[k] = (aa * b[k] - ab * a[k]) / det;
	cv = dot(V, c); dv = dot(V, d);
	double nu = u * cu + v * cv, nv = u * du + v * dv;
	u = nu; v = nv;
}
static int at(const Arr & a, int c, int i, int j, int l) { return ((c * a.na + i) * a.nb + j) * a.nr + l; }
static bool unpaired(const NodeAt & x) {       // at a boundary without neighbour
	int La = (g_na / g_order) * (g_order - 1), Lb = (g_nb / g_order) * (g_order - 1);
	return g_cart && ((!g_pa && (x.v[0] == 0 || x.v[0] == La)) || (!g_pb && (x.v[1] == 0 || x.v[1] == Lb)));
}
static bool onwall(const NodeAt & x, int d) { int L = ((d ? g_nb : g_na) / g_order) * (g_order - 1); return !(d ? g_pb : g_pa) && (x.v[d] == 0 || x.v[d] == L); }
static void dss(int wall) {
	fill();
	if (wall) for (int n = 0; n < g_g[0]->GetPatchCount(); n++) {     // flat box
		GridPatch * p = patch(n);
		for (int q = 0; q < 2; q++) {
			DataArray4D<double> & A = q ? p->m_dataContraMetricAREdge : p->m_dataContraMetricA, & B = q ? p->m_dataContraMetricBREdge : p->m_dataContraMetricB;
			for (int i = 0; i < (int)A.GetSize(0); i++) for (int j = 0; j < (int)A.GetSize(1); j++) for (int k = 0; k < (int)A.GetSize(2); k++) for (int c = 0; c < 3; c++) { A(i, j, k, c) = c == 0; B(i, j, k, c) = c == 1; }
		}
	}
	rank_loop();
	collect();
	Arr ax[2], ay[2];
	bool vec2 = g_type == DataType_State || g_type == DataType_TopographyDeriv;
	for (int x = 0; x < g_nn; x++) {
		int group[16], ng = 0;
		NodeAt & t = g_nodes[x];
		if ((wall == 1) != unpaired(t)) continue;
		for (int y = 0; y < g_nn; y++) if (same(t, g_nodes[y])) group[ng++] = y;
		int k = arrays(patch(t.n), ax, false);
		for (int s = 0; s < k; s++) for (int c = 0; c < ax[s].nc; c++) for (int l = 0; l < ax[s].nr; l++) {
			double got = ax[s].d[at(ax[s], c, t.i, t.j, l)];
			if (!ax[s].sent[c]) { vp_eq(got, g_old[t.n][s][at(ax[s], c, t.i, t.j, l)], "components stored elsewhere are not touched"); continue; }
			if (wall && g_type == DataType_State && c < 2 && onwall(t, c)) { vp_eq(got, 0.0, "no flow through a wall"); continue; }
			bool topo = g_type == DataType_TopographyDeriv, vec = topo || (g_type == DataType_State && c < 2);
			double sum = 0.0;
			for (int g = 0; g < ng; g++) {
				NodeAt & f = g_nodes[group[g]];
				arrays(patch(f.n), ay, false);
				const double * o = g_old[f.n][s];
				if (vec && !g_cart) {
					double u = topo ? o[at(ay[s], 0, f.i, f.j, 0)] : o[at(ay[s], 0, f.i, f.j, l)];
					double v = topo ? o[at(ay[s], 0, f.i, f.j, 1)] : o[at(ay[s], 1, f.i, f.j, l)];
					carry(f, t, u, v);
					sum += (topo ? l : c) == 0 ? u : v;
				} else sum += o[at(ay[s], c, f.i, f.j, l)];
			}
			vp_eq(got, sum / ng, wall ? "boundary nodes average over the coincident nodes only" : "every node holds the average over the coincident nodes");
		}
	}
	vp_reach("done");
}
static const int TD[5] = {DataType_State, DataType_Tracers, DataType_Vorticity, DataType_Divergence, DataType_TopographyDeriv};
extern "C" void vc_dss_cs() {
	int order = vp_choice("order", 2, 4), ranks = vp_choice("ranks", 1, 2), layout = vp_choice("layout", 0, 2);
	g_type = TD[vp_choice("type", 0, 4)];
	int eq = vp_choice("equations", 2, 3), stag = vp_choice("staggering", 0, 1);
	g_order = order;
	setup_cs(eq, 1, ranks, layout, order, eq == 2 ? 1 : 2, 1, stag && eq == 3 ? Grid::VerticalStaggering_CharneyPhillips : Grid::VerticalStaggering_Levels);
	dss(0);
}
static void cart(bool pa, bool pb, int wall) {
	int order = vp_choice("order", 2, 4), ranks = vp_choice("ranks", 1, 2), patches = vp_choice("patches", 1, 3);
	int nea = patches * vp_choice("elementsA", 1, 2), neb = vp_choice("elementsB", 1, 2);
	g_type = TD[vp_choice("type", 0, 4)];
	g_order = order;
	setup_cart(3, 1, ranks, patches, nea, neb, order, 2, 1, vp_choice("staggering", 0, 1) ? Grid::VerticalStaggering_CharneyPhillips : Grid::VerticalStaggering_Lorenz, pa, pb);
	dss(wall);
}
extern "C" void vc_dss_cart() { cart(true, true, 0); }
// boxes with walls: nodes that are not on a wall
extern "C" void vc_dss_walls_inner() { int w = vp_choice("walls", 0, 2); cart(w == 1, w == 2, 0); }
extern "C" void vc_dss_walls() { int w = vp_choice("walls", 0, 2); cart(w == 1, w == 2, 1); }
