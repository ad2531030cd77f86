// Where the nodes are, the terrain-following coordinate, and the metric built from it
#include "vp.h"
#include "tcase.h"
static void runrank(int) { }
typedef DataArray4D<double> D4; typedef DataArray3D<double> D3; typedef DataArray2D<double> D2;
static Model * q_m; static Grid * q_g;
static int q_n, q_nr, q_res, q_resb; static bool q_sw, q_xz;
static const double HALFPI = 1.57079632679489661923;
static bool near(double a, double b, double s) { double d = a - b; return d < 1e-9 * s && -d < 1e-9 * s; }
static void world(bool cs, int layout) {
	t_sphere = cs; t_n = 0; t_ray = false; t_ref = 0; t_nt = 0; t_nc = 5; t_zero = false; t_high = -1; t_nuS = t_nuV = 0.0;
	q_n = vp_choice("order", 2, 4);
	q_sw = cs && vp_choice("shallow", 0, 1) == 1;
	q_nr = q_sw ? 1 : vp_choice("levels", 2, 3);
	int st = q_sw ? 0 : vp_choice("staggering", 0, 2);
	Grid::VerticalStaggering stag = st == 0 ? Grid::VerticalStaggering_Levels : st == 1 ? Grid::VerticalStaggering_Lorenz : Grid::VerticalStaggering_CharneyPhillips;
	q_xz = !cs && vp_choice("xz", 0, 1) == 1;
	if (cs) {
		setup_cs(q_sw ? 2 : 3, 0, 1, layout, q_n, q_nr, 1, stag);
		q_res = q_resb = layout_res(layout);
	} else {
		q_res = layout ? 2 : 1; q_resb = q_xz ? 1 : layout ? 1 : 2;
		setup_cart(3, 0, 1, layout ? 2 : 1, q_res, q_resb, q_n, q_nr, 1, stag, true, true);
		((GridCartesianGLL *)g_g[0])->GridGLL::m_fCartesianXZ = q_xz;
	}
	q_m = g_m[0]; q_g = g_g[0];
}
static double ca(int g) { return t_sphere ? t_coord(q_n, g, -0.5 * HALFPI, HALFPI / q_res) : t_coord(q_n, g, 0.0, 1000.0); }
static double cb(int g) { return t_sphere ? t_coord(q_n, g, -0.5 * HALFPI, HALFPI / q_resb) : t_coord(q_n, g, -500.0, 800.0); }
static double spanA() { return t_sphere ? HALFPI / q_res : 1000.0; }
static double spanB() { return t_sphere ? HALFPI / q_resb : 800.0; }
#define NODES(p) for (int i = 0; i < p->m_box.GetATotalWidth(); i++) for (int j = 0; j < p->m_box.GetBTotalWidth(); j++)
static Loc & at(GridPatch * p, int i, int j) {
	int ga = p->m_box.GetAGlobalBegin() + i, gb = p->m_box.GetBGlobalBegin() + j;
	double r[3] = {ca(ga), cb(gb), 0.0};
	if (t_sphere) pt(p->m_box.GetPanel(), tan(ca(ga)), tan(cb(gb)), r);
	return loc_at(r);
}
static void topo(GridPatch * p, const TestCase & t) { if (t_sphere) ((GridPatchCSGLL *)p)->EvaluateTopography(t); else ((GridPatchCartesianGLL *)p)->EvaluateTopography(t); }

extern "C" void vc_coordinates() {
	bool cs = vp_choice("sphere", 0, 1);
	world(cs, vp_choice("layout", 0, cs ? 2 : 1));
	for (int n = 0; n < q_g->GetActivePatchCount(); n++) {
		GridPatch * p = q_g->GetActivePatch(n);
		const PatchBox & box = p->m_box;
		double s = cs ? 1.0 : 1000.0;
		vp_check(near(((GridPatchGLL *)p)->GetElementDeltaA(), spanA(), s) && near(((GridPatchGLL *)p)->GetElementDeltaB(), spanB(), s), "elements divide the panel or the domain evenly");
		NODES(p) {
			int ga = box.GetAGlobalBegin() + i, gb = box.GetBGlobalBegin() + j;
			vp_check(near(p->m_dANode[i], ca(ga), s) && near(p->m_dBNode[j], cb(gb), s), "nodes sit at the Gauss-Lobatto points of their elements, halo nodes included");
			double lon = p->m_dataLon(i, j), lat = p->m_dataLat(i, j);
			if (!cs) { vp_check(near(lon, ca(ga), s) && near(lat, cb(gb), s), "on the plane position is (x, y)"); continue; }
			double X = tan(ca(ga)), Y = tan(cb(gb)), r[3];
			pt(box.GetPanel(), X, Y, r);
			vp_check(near(cos(lat) * cos(lon), r[0], 1) && near(cos(lat) * sin(lon), r[1], 1) && near(sin(lat), r[2], 1), "longitude and latitude are those of the node on its panel");
			vp_check(near(((GridPatchCSGLL *)p)->m_dXNode[i], X, 10) && near(((GridPatchCSGLL *)p)->m_dYNode[j], Y, 10), "gnomonic coordinates are the tangents of the angles");
		}
		for (int i = 0; i < box.GetATotalWidth(); i += 1) if ((box.GetAGlobalBegin() + i) % q_n == 0) vp_check(near(p->m_dAEdge[i], ca(box.GetAGlobalBegin() + i), s), "element edges sit at the ends of the elements");
	}
	vp_reach("done");
}

extern "C" void vc_topography() {
	bool cs = vp_choice("sphere", 0, 1);
	world(cs, vp_choice("layout", 0, cs ? 2 : 1));
	q_g->m_dZtop = t_top = vp_real_in("ztop", 1.0, 1.0e5);
	if (!vp_symbolic()) q_g->m_dZtop = t_top = 10.0 + fabs(t_top);
	SymCase test;
	int ip = cs ? vp_choice("panel", 0, 5) : 0;
	for (int n = 0; n < q_g->GetActivePatchCount(); n++) {
		GridPatch * p = q_g->GetActivePatch(n);
		if (p->m_box.GetPanel() != ip) continue;
		topo(p, test);
		NODES(p) vp_eq(p->m_dataTopography(i, j), at(p, i, j).zs, "topography at every node, halo included, is that of the test case at its position");
		for (int i = p->m_box.GetAInteriorBegin(); i < p->m_box.GetAInteriorEnd(); i++) for (int j = p->m_box.GetBInteriorBegin(); j < p->m_box.GetBInteriorEnd(); j++) {
			int li = (i - 1) % q_n, lj = (j - 1) % q_n;
			double da = 0.0, db = 0.0;
			for (int s = 0; s < q_n; s++) {
				double wa = 0.0, wb = 0.0;       // derivative of basis polynomial s at this node
				for (int d = 0; d < 2; d++) {
					double & w = d ? wb : wa; int at0 = d ? lj : li;
					for (int m = 0; m < q_n; m++) if (m != s) {
						double t = 1.0 / (t_x(q_n, s) - t_x(q_n, m));
						for (int k = 0; k < q_n; k++) if (k != s && k != m) t *= (t_x(q_n, at0) - t_x(q_n, k)) / (t_x(q_n, s) - t_x(q_n, k));
						w += t;
					}
				}
				da += wa * at(p, i - li + s, j).zs; db += wb * at(p, i, j - lj + s).zs;
			}
			vp_eq(p->m_dataTopographyDeriv(i, j, 0), da / spanA(), "slope along alpha is the derivative of the element's interpolant");
			vp_eq(p->m_dataTopographyDeriv(i, j, 1), db / spanB(), "slope along beta is the derivative of the element's interpolant");
		}
	}
	vp_reach("done");
}
// the plane refuses mountains that reach the model top
extern "C" void vc_topography_refuse() {
	world(false, 0);
	q_g->m_dZtop = t_top = 5000.0;
	SymCase test;
	t_high = vp_choice("which", 0, (q_n + 2) * (2 * q_n + 2) - 1);
	bool threw = false;
	try { topo(q_g->GetActivePatch(0), test); } catch (Exception &) { threw = true; }
	vp_check(threw || t_n <= t_high, "topography reaching the model top is refused");
	vp_reach("done");
}

// the decay function of the terrain-following coordinate and its derivative
extern "C" void vc_decay() {
	t_sphere = vp_choice("sphere", 0, 1);
	int m = vp_choice("eta", 0, 40);
	double e = m / 40.0, h = 1e-4, d = (t_s(e + h) - t_s(e - h)) / (2 * h) - t_ds(e);
	vp_check(d < 1e-5 && d > -1e-5, "derivative of the decay function");
	vp_check(near(t_s(0.0), 1.0, 1) && near(t_s(1.0), 0.0, 1), "the coordinate follows the ground below and is level at the top");
	vp_reach("done");
}

// metric terms at one set of heights against the embedding
static void metric(GridPatch * p, int i, int j, int k, double eta, double R, double Ztop, double zs, double za, double zb, const double a[3], const double b[3],
	const double J2, double J, D4 & GA, D4 & GB, D4 & GX, D4 & DR, double area, double w, const char * where) {
	double s = t_s(eta), ds = t_ds(eta);
	double Z[3] = {s * za, s * zb, Ztop + ds * zs};
	for (int d = 0; d < 3; d++) vp_eq(DR(i, j, k, d), Z[d], "derivatives of the height of coordinate surfaces");
	vp_eq(J, J2 * Z[2], "volume element is horizontal area element times thickness");
	vp_eq(area, J2 * Z[2] * w, "element area is volume element times quadrature weights");
	// covariant metric of the deformed coordinates: horizontal metric plus Z_i Z_j
	double g[2][2] = {{dot(a, a), dot(a, b)}, {dot(a, b), dot(b, b)}};
	double C[3][3];
	for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) C[r][c] = (r < 2 && c < 2 ? g[r][c] : 0.0) + Z[r] * Z[c];
	for (int c = 0; c < 3; c++) {
		double ra = 0.0, rb = 0.0, rx = 0.0;
		for (int r = 0; r < 3; r++) { ra += GA(i, j, k, r) * C[r][c]; rb += GB(i, j, k, r) * C[r][c]; rx += GX(i, j, k, r) * C[r][c]; }
		const char * L = "contravariant metric is the inverse of the covariant metric of the terrain-following coordinates";
		vp_eq(1.0 + ra, (c == 0 ? 2.0 : 1.0), L); vp_eq(1.0 + rb, (c == 1 ? 2.0 : 1.0), L); vp_eq(1.0 + rx, (c == 2 ? 2.0 : 1.0), L);
	}
}
extern "C" void vc_geometry() {
	bool cs = vp_choice("sphere", 0, 1);
	world(cs, vp_choice("layout", 0, cs ? 2 : 1));
	double R = q_m->GetPhysicalConstants().GetEarthRadius(), Om = q_m->GetPhysicalConstants().GetOmega();
	double Ztop = q_sw ? 1.0 : vp_real("ztop");
	q_g->m_dZtop = Ztop;
	if (cs && !q_sw) { vp_sym_array(&q_g->m_dREtaLevels[0], q_nr, "eta"); vp_sym_array(&q_g->m_dREtaInterfaces[0], q_nr + 1, "etae"); }
	int ip = cs ? vp_choice("panel", 0, 5) : 0;
	for (int n = 0; n < q_g->GetActivePatchCount(); n++) {
		GridPatch * p = q_g->GetActivePatch(n);
		if (p->m_box.GetPanel() != ip) continue;
		vp_sym_array(&p->m_dataTopography(0, 0), p->m_dataTopography.GetTotalSize(), "zs");
		vp_sym_array(&p->m_dataTopographyDeriv(0, 0, 0), p->m_dataTopographyDeriv.GetTotalSize(), "dzs");
		if (cs) {
			GridPatchCSGLL * c = (GridPatchCSGLL *)p;
			vp_sym_array(&c->m_dXNode[0], c->m_dXNode.GetRows(), "X"); vp_sym_array(&c->m_dYNode[0], c->m_dYNode.GetRows(), "Y");
		}
		p->EvaluateGeometricTerms();
		NODES(p) {
			double f = p->m_dataCoriolisF(i, j);
			if (cs) vp_eq_tol(f, 2.0 * Om * sin(p->m_dataLat(i, j)), 1e-15, "Coriolis parameter is 2 Omega sin(latitude)");
			else if (q_xz) vp_eq(f, 0.0, "no rotation on an XZ slice");
			else {
				double y = cb(p->m_box.GetBGlobalBegin() + j), phi = 0.5;
				vp_eq_tol(f, 2.0 * Om * sin(phi) + 2.0 * Om * cos(phi) / R * (y - 0.5 * 800.0 * q_resb), 1e-15, "Coriolis parameter is that of the beta plane");
			}
		}
		for (int i = p->m_box.GetAInteriorBegin(); i < p->m_box.GetAInteriorEnd(); i++) for (int j = p->m_box.GetBInteriorBegin(); j < p->m_box.GetBInteriorEnd(); j++) {
			double a[3] = {1, 0, 0}, b[3] = {0, 1, 0}, J2 = 1.0;
			double zs = q_sw ? 0.0 : p->m_dataTopography(i, j), za = q_sw ? 0.0 : p->m_dataTopographyDeriv(i, j, 0), zb = q_sw ? 0.0 : p->m_dataTopographyDeriv(i, j, 1);
			if (cs) {
				double X = ((GridPatchCSGLL *)p)->m_dXNode[i], Y = ((GridPatchCSGLL *)p)->m_dYNode[j], r[3];
				pt(ip, X, Y, r); basis(ip, X, Y, a, b);
				for (int c = 0; c < 3; c++) { a[c] *= R; b[c] *= R; }
				J2 = r[0] * (a[1] * b[2] - a[2] * b[1]) + r[1] * (a[2] * b[0] - a[0] * b[2]) + r[2] * (a[0] * b[1] - a[1] * b[0]);
			}
			vp_eq(p->m_dataJacobian2D(i, j), J2, "area element is that of the surface");
			D3 & cA = p->m_dataCovMetric2DA, & cB = p->m_dataCovMetric2DB, & kA = p->m_dataContraMetric2DA, & kB = p->m_dataContraMetric2DB;
			const char * L = "covariant metric is made of the dot products of the tangent vectors";
			vp_eq(cA(i, j, 0), dot(a, a), L); vp_eq(cA(i, j, 1), dot(a, b), L); vp_eq(cB(i, j, 0), dot(a, b), L); vp_eq(cB(i, j, 1), dot(b, b), L);
			L = "horizontal contravariant metric is the inverse of the covariant one";
			vp_eq(1.0 + kA(i, j, 0) * dot(a, a) + kA(i, j, 1) * dot(a, b), 2.0, L); vp_eq(1.0 + kA(i, j, 0) * dot(a, b) + kA(i, j, 1) * dot(b, b), 1.0, L);
			vp_eq(1.0 + kB(i, j, 0) * dot(a, a) + kB(i, j, 1) * dot(a, b), 1.0, L); vp_eq(1.0 + kB(i, j, 0) * dot(a, b) + kB(i, j, 1) * dot(b, b), 2.0, L);
			double w = t_w(q_n, (i - 1) % q_n) * t_w(q_n, (j - 1) % q_n) * spanA() * spanB();
			for (int k = 0; k < q_nr; k++) metric(p, i, j, k, q_g->m_dREtaLevels[k], R, Ztop, zs, za, zb, a, b, J2, p->m_dataJacobian(i, j, k), p->m_dataContraMetricA, p->m_dataContraMetricB, p->m_dataContraMetricXi, p->m_dataDerivRNode, p->m_dataElementAreaNode(i, j, k), w * q_g->m_dREtaLevelsNormArea[k], "levels");
			for (int k = 0; k <= q_nr; k++) metric(p, i, j, k, q_g->m_dREtaInterfaces[k], R, Ztop, zs, za, zb, a, b, J2, p->m_dataJacobianREdge(i, j, k), p->m_dataContraMetricAREdge, p->m_dataContraMetricBREdge, p->m_dataContraMetricXiREdge, p->m_dataDerivRREdge, p->m_dataElementAreaREdge(i, j, k), w * q_g->m_dREtaInterfacesNormArea[k], "interfaces");
		}
	}
	vp_reach("done");
}
// weights that do not add up, or a shallow-water column of another height, are refused
extern "C" void vc_geometry_refuse() {
	bool cs = vp_choice("sphere", 0, 1);
	world(cs, 0);
	int what = vp_choice("what", 0, 2);
	if (what == 0) { vp_assume(q_sw); q_g->m_dZtop = vp_choice("top", 0, 1) ? 2.0 : 0.999999999; }
	else if (q_sw) q_g->m_dZtop = 1.0;
	if (what == 1) q_g->m_dREtaLevelsNormArea[vp_choice("level", 0, q_nr - 1)] += vp_choice("sign", 0, 1) ? 1e-9 : -1e-9;
	if (what == 2) q_g->m_dREtaInterfacesNormArea[vp_choice("interface", 0, q_nr)] += vp_choice("sign", 0, 1) ? 1e-9 : -1e-9;
	bool threw = false;
	try { q_g->EvaluateGeometricTerms(); } catch (Exception &) { threw = true; }
	vp_check(threw, "inconsistent vertical weights and shallow-water columns are refused");
	vp_reach("done");
}
// ---- the vertical coordinate of the column
#include "VerticalStretch.h"
static double v_r[16]; static int v_ne;
class SymStretch : public VerticalStretchFunction {
public:
	virtual void operator()(double e, double & s, double & d) {
		int a = (int)(e * v_ne + 0.5);
		s = a <= v_ne ? v_r[a] : 77.0; d = 1.0;
	}
};
static double ipow(double x, int m) { double r = 1.0; for (int k = 0; k < m; k++) r *= x; return r; }
extern "C" void vc_vertical() {
	bool sw = vp_choice("shallow", 0, 1) == 1, cs = vp_choice("sphere", 0, 1) == 1;
	int v = sw ? 1 : vp_choice("order", 1, 4), st = sw ? 0 : vp_choice("staggering", 0, 3), ne = sw ? 1 : vp_choice("elements", 1, 3);
	bool stretch = !sw && vp_choice("stretched", 0, 1), fv = !sw && vp_choice("volumes", 0, 1);
	bool ints = st == 3;
	if (ints && (v < 2 || fv)) return;
	if (fv) v = 2;
	int nr = ints ? ne * (v - 1) + 1 : ne * v;
	if (nr < 2 && !sw) return;
	if (sw) nr = 1;
	Grid::VerticalStaggering stag = st == 0 ? Grid::VerticalStaggering_Levels : st == 1 ? Grid::VerticalStaggering_Lorenz : st == 2 ? Grid::VerticalStaggering_CharneyPhillips : Grid::VerticalStaggering_Interfaces;
	gm_init(1); gm_rank = 0;
	Model * m = wmodel(sw ? 2 : 3, 0, 1);
	Grid * g = cs ? wcs(m, 6, 1, 2, nr, ints ? v : v, stag) : wcart(m, 1, 1, 1, 2, nr, v, stag, true, true);
	if (fv) { g->m_eVerticalDiscretization = +Grid::VerticalDiscretization_FiniteVolume; v = 1; ne = nr; }
	v_ne = ne;
	for (int a = 0; a <= ne; a++) v_r[a] = (double)a / ne;
	if (stretch) {
		for (int a = 1; a < ne; a++) {
			v_r[a] = vp_real_in("r", 0.0, 1.0);
			if (!vp_symbolic()) v_r[a] = v_r[a - 1] + (1.0 - v_r[a - 1]) * (0.1 + 0.4 * v_r[a]);
			vp_assume(v_r[a] > v_r[a - 1] + 1e-6); vp_assume(v_r[a] < 1.0 - 1e-6);
		}
		g->SetVerticalStretchFunction(new SymStretch);
	}
	g->InitializeVerticalCoordinate();
	if (sw) {
		vp_check(g->m_dREtaInterfaces[0] == 0.0 && g->m_dREtaInterfaces[1] == 1.0 && g->m_dREtaLevels[0] == 0.5 && g->m_dREtaLevelsNormArea[0] == 1.0, "one layer for shallow water");
		for (int c = 0; c < 3; c++) vp_check(g->m_vecVarLocation[c] == DataLocation_Node, "shallow-water variables are on the level");
		vp_reach("done"); return;
	}
	DataArray1D<double> & L = g->m_dREtaLevels, & WL = g->m_dREtaLevelsNormArea, & I = g->m_dREtaInterfaces, & WI = g->m_dREtaInterfacesNormArea;
	const char * ex = "level weights integrate polynomials of an element exactly to the Gauss order";
	if (!ints) {
		for (int a = 0; a < ne; a++) {
			double r0 = v_r[a], d = v_r[a + 1] - r0;
			for (int q = 0; q < 2 * v; q++) {
				double s = 0.0;
				for (int k = 0; k < v; k++) s += WL[a * v + k] * ipow(L[a * v + k] - r0, q);
				vp_eq_tol(s, ipow(d, q + 1) / (q + 1), 1e-11, ex);
			}
			vp_check(I[a * v] - r0 < 1e-12 && r0 - I[a * v] < 1e-12 && I[a * v + v] - v_r[a + 1] < 1e-12 && v_r[a + 1] - I[a * v + v] < 1e-12, "elements begin and end at interfaces");
		}
		for (int q = 0; q < 2 * v; q++) {
			double s = 0.0;
			for (int k = 0; k <= nr; k++) s += WI[k] * ipow(I[k], q);
			vp_eq_tol(s, 1.0 / (q + 1), 1e-11, "interface weights integrate polynomials of a column exactly to the Gauss-Lobatto order");
		}
		for (int k = 0; k < nr; k++) vp_check(I[k] < L[k] && L[k] < I[k + 1], "levels lie between their interfaces, from bottom to top");
	} else {
		for (int q = 0; q < 2 * v - 2; q++) {
			double s = 0.0;
			for (int k = 0; k < nr; k++) s += WL[k] * ipow(L[k], q);
			vp_eq_tol(s, 1.0 / (q + 1), 1e-11, "level weights integrate polynomials of a column exactly to the Gauss-Lobatto order");
		}
		for (int a = 0; a <= ne; a++) vp_check(L[a * (v - 1)] - v_r[a] < 1e-12 && v_r[a] - L[a * (v - 1)] < 1e-12, "elements begin and end at levels");
		for (int k = 0; k + 1 < nr; k++) vp_check(L[k] < L[k + 1], "levels run from bottom to top");
	}
	for (int c = 0; c < 5; c++) vp_check(g->m_vecVarLocation[c] == ((c == 3 && (st == 1 || st == 2)) || (c == 2 && st == 2) ? DataLocation_REdge : DataLocation_Node), "each variable is stored where the staggering puts it");
	for (int k = 0; k < nr; k++) vp_eq(g->m_dREtaStretchLevels[k], L[k], "stretched levels are the levels");
	vp_reach("done");
}
extern "C" void vc_vertical_refuse() {
	int ints = vp_choice("interfaces", 0, 1), v = vp_choice("order", 2, 3), nr = vp_choice("levels", 2, 7);
	bool ok = ints ? (nr - 1) % (v - 1) == 0 : nr % v == 0;
	gm_init(1); gm_rank = 0;
	Model * m = wmodel(3, 0, 1);
	bool threw = false;
	try { wcs(m, 6, 1, 2, nr, v, ints ? Grid::VerticalStaggering_Interfaces : Grid::VerticalStaggering_Levels); } catch (Exception &) { threw = true; }
	vp_check(threw == !ok, "levels that do not fill whole elements are refused");
	vp_reach("done");
}
extern "C" void vc_stretch() {
	int f = vp_choice("function", 0, 2), piece = vp_choice("piece", 0, 1);
	VerticalStretchUniform u; VerticalStretchCubic c; VerticalStretchPiecewiseLinear p;
	VerticalStretchFunction & F = f == 0 ? (VerticalStretchFunction &)u : f == 1 ? (VerticalStretchFunction &)c : (VerticalStretchFunction &)p;
	double s0, s1, sa, sb, sm, da, db, dm, d;
	F(0.0, s0, d); F(1.0, s1, d);
	vp_eq_tol(s0, 0.0, 1e-15, "stretching keeps the bottom"); vp_eq_tol(s1, 1.0, 1e-15, "stretching keeps the top");
	double lo = f == 2 && piece ? 0.667 : 0.0, hi = f == 2 && !piece ? 0.666 : 1.0;
	double a = vp_real_in("a", lo, hi), b = vp_real_in("b", lo, hi);
	if (!vp_symbolic()) { a = lo + (hi - lo) * (a - floor(a)); b = a + (hi - a) * (b - floor(b)); }
	vp_assume(a < b);
	F(a, sa, da); F(b, sb, db); F((a + b) / 2, sm, dm);
	vp_check(da > 0.0, "stretching is increasing");
	vp_eq(sb, sa + (b - a) / 6.0 * (da + 4.0 * dm + db), "the derivative of the stretching is its derivative");
	vp_reach("done");
}
