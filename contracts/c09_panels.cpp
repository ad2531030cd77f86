#include "vp.h"
#include "CubedSphereTrans.h"
#include "Direction.h"
#include "Exception.h"
#include "GridCSGLL.h"
#include "sphere.h"

// integer panel axes: row 0 increasing alpha, row 1 increasing beta, row 2 outward normal
static int AX(int p, int r, int c) { return (int)PANEL[p][r][c]; }
static int DOT(const int a[3], int p, int r) { return a[0]*AX(p,r,0) + a[1]*AX(p,r,1) + a[2]*AX(p,r,2); }
// step of a direction in panel coordinates
static const int DI[8] = {1, 0, -1, 0, 1, -1, -1, 1};
static const int DJ[8] = {0, 1, 0, -1, 1, 1, -1, -1};
static int dirof(int i, int j) { for (int d = 0; d < 8; d++) if (DI[d] == i && DJ[d] == j) return d; return -99; }
// panel across an edge: its normal is the edge's outward axis
static void axis(int p, int d, int v[3]) { for (int c = 0; c < 3; c++) v[c] = DI[d] * AX(p,0,c) + DJ[d] * AX(p,1,c); }
static int across(int p, int d) {
	int v[3]; axis(p, d, v);
	for (int q = 0; q < 6; q++) if (DOT(v, q, 2) == 1) return q;
	return -1;
}
// the edge of q that touches p
static int backedge(int p, int q) {
	for (int d = 0; d < 4; d++) if (across(q, d) == p) return d;
	return -1;
}

extern "C" void vc_relative_panel() {
	int p = vp_choice("panel", 0, 5), d = vp_choice("dir", 0, 3);
	int q = -9; Direction o = Direction_Unreachable;
	CubedSphereTrans::RelativePanel(p, (Direction)d, q, o);
	vp_check(q == across(p, d), "the neighbouring panel is the one sharing that edge");
	vp_check(o == backedge(p, q), "the opposing direction leads back across the same edge");
	vp_check(CubedSphereTrans::PanelFromDirection(p, (Direction)d) == q, "panel lookup by direction agrees");
	vp_check(CubedSphereTrans::PanelFromDirection(p, Direction_Middle) == p, "no direction means the same panel");
	int b = -9; Direction o2 = Direction_Unreachable;
	CubedSphereTrans::RelativePanel(q, o, b, o2);
	vp_check(b == p && o2 == d, "going there and back returns to the same edge");
	bool th = false;
	int bad = vp_choice("bad", 0, 2);
	try { if (bad == 0) CubedSphereTrans::RelativePanel(vp_int("bp", 6, 100), (Direction)d, q, o); else if (bad == 1) CubedSphereTrans::RelativePanel(p, Direction_TopRight, q, o); else CubedSphereTrans::PanelFromDirection(vp_int("bp", 6, 100), (Direction)d); } catch (Exception &) { th = true; }
	vp_check(th, "invalid panels and directions are refused");
}
extern "C" void vc_direction_from_panel() {
	int p = vp_choice("panel", 0, 5), q = vp_choice("dest", 0, 5);
	int d = CubedSphereTrans::DirectionFromPanel(p, q);
	int e = p == q ? (int)Direction_Middle : (int)Direction_Unreachable;
	for (int k = 0; k < 4; k++) if (across(p, k) == q) e = k;
	vp_check(d == e, "the direction towards a panel is the one whose edge it shares, and opposite panels are unreachable");
	int n = vp_choice("same", 0, 1);
	if (d >= 0) vp_check(CubedSphereTrans::PanelFromDirection(p, (Direction)d) == q, "direction and panel lookups are inverse");
}
// element (or node) index across an edge; resolution is arbitrary
extern "C" void vc_relative_coord() {
	int p = vp_choice("panel", 0, 5), d = vp_choice("dir", 0, 3);
	int N = vp_int("Nc", 1, 1000000), depth = vp_int("depth", 0, 999999), along = vp_int("along", 0, 999999);
	vp_assume(depth < N && along < N);
	int ix, jx;
	if (d == 0) { ix = N + depth; jx = along; } else if (d == 2) { ix = -1 - depth; jx = along; }
	else if (d == 1) { jx = N + depth; ix = along; } else { jx = -1 - depth; ix = along; }
	int q = -9, iq = -9, jq = -9; bool ab = false, par = false, perp = false;
	CubedSphereTrans::RelativeCoord(N, p, ix, jx, q, iq, jq, ab, par, perp);
	vp_reach("outside");
	vp_check(q == across(p, d), "an index beyond an edge belongs to the panel across that edge");
	if (q < 0 || q > 5 || q == p) return;
	int e = backedge(p, q);
	// the point of the shared edge, scaled by N: outward axis, normal, and position along the edge
	int v[3], t[3];
	axis(p, d, v);
	int a = DI[d] ? 1 : 0;              // the source axis running along the edge
	for (int c = 0; c < 3; c++) t[c] = AX(p, a, c);
	int aq = DI[e] ? 1 : 0;             // the target axis running along the edge
	int s = DOT(t, q, aq);              // +1 same sense, -1 reversed
	int pos = s > 0 ? along : N - 1 - along;
	int dep = (e == 0 || e == 1) ? N - 1 - depth : depth;
	vp_check((aq == 1 ? jq : iq) == pos, "the position along the shared edge is preserved");
	vp_check((aq == 1 ? iq : jq) == dep, "the distance from the shared edge is preserved");
	vp_check(ab == (a != aq), "axis swap flag tells whether the edge lies along different axes");
	vp_check(par == (s < 0), "parallel reversal flag tells whether the edge runs the other way");
	// moving outward from the source is moving inward on the target
	int outsgn = DI[d] + DJ[d], insgn = -(DI[e] + DJ[e]);
	vp_check(perp == (outsgn != insgn), "perpendicular reversal flag tells whether the index across the edge runs the other way");
}
extern "C" void vc_relative_coord_in() {
	int p = vp_choice("panel", 0, 5), N = vp_int("Nc", 1, 1000000), ix = vp_int("ix", -999999, 1999999), jx = vp_int("jx", -999999, 1999999);
	bool in = vp_choice("inside", 0, 1);
	if (in) { vp_assume(ix >= 0 && jx >= 0 && ix < N && jx < N); }
	else { vp_assume((ix < 0 || ix >= N) && (jx < 0 || jx >= N)); }
	int q = -9, iq = -9, jq = -9; bool ab = true, par = true, perp = true;
	CubedSphereTrans::RelativeCoord(N, p, ix, jx, q, iq, jq, ab, par, perp);
	vp_check(!ab && !par && !perp, "no reorientation without crossing an edge");
	if (in) vp_check(q == p && iq == ix && jq == jx, "an index inside the panel is kept");
	else vp_check(q == InvalidPanel && iq == -1 && jq == -1, "an index beyond a panel corner belongs to no panel");
}
extern "C" void vc_opposing() {
	int p = vp_choice("panel", 0, 5), d = vp_choice("dir", 0, 7), q = vp_choice("dest", 0, 5);
	char mem[sizeof(GridCSGLL)];
	Direction o = Direction_Unreachable; bool par = true, perp = true;
	int want = -99; bool wpar = false, wperp = false;
	if (q == p) want = dirof(-DI[d], -DJ[d]);
	else for (int x = 0; x < 4; x++) {
		if (across(p, x) != q) continue;
		if (!((DI[x] && DI[x] == DI[d]) || (DJ[x] && DJ[x] == DJ[d]))) continue;
		int e = backedge(p, q), a = DI[x] ? 1 : 0, aq = DI[e] ? 1 : 0, t[3];
		for (int c = 0; c < 3; c++) t[c] = AX(p, a, c);
		int s = DOT(t, q, aq);
		int st = a == 1 ? DJ[d] : DI[d];   // step along the edge, source sense
		int bi = DI[e], bj = DJ[e];        // back across the edge
		if (aq == 1) bj = -st * s; else bi = -st * s;
		want = dirof(bi, bj);
		wpar = s < 0; wperp = (DI[x] + DJ[x]) != -(DI[e] + DJ[e]);
	}
	bool th = false;
	int got = -99;
	try { got = CubedSphereTrans::OpposingDirection(p, q, (Direction)d); } catch (Exception &) { th = true; }
	if (want != -99) {
		vp_check(!th && got == want, "the opposing direction points back to the source");
		((GridCSGLL *)mem)->GridCSGLL::GetOpposingDirection(p, q, (Direction)d, o, par, perp);
		vp_check(o == want, "the grid's opposing direction points back to the source");
		vp_check(par == wpar, "reversal along the edge is reported exactly when the edge runs the other way");
		vp_check(perp == wperp, "reversal across the edge is reported exactly when it occurs");
	} else if (d >= 4) vp_check(th, "a diagonal neighbour on a panel that is not across either edge is refused");
}
extern "C" void vc_direction() {
	int d = vp_choice("dir", -2, 8), i0 = vp_int("i", -1000, 1000), j0 = vp_int("j", -1000, 1000);
	int i = i0, j = j0;
	bool th1 = false, th2 = false; int o = -99;
	try { o = DirectionOpposite((Direction)d); } catch (Exception &) { th1 = true; }
	try { DirectionIncrement((Direction)d, i, j); } catch (Exception &) { th2 = true; }
	if (d == 8) { vp_check(th1 && th2, "an invalid direction is refused"); return; }
	if (d == Direction_Unreachable) { vp_check(o == d && th2, "unreachable stays unreachable and cannot be stepped in"); return; }
	vp_check(!th1 && !th2, "valid directions are accepted");
	if (d == Direction_Middle) { vp_check(o == d && i == i0 && j == j0, "no direction means no step"); return; }
	vp_check(o == dirof(-DI[d], -DJ[d]), "the opposite direction steps back");
	vp_check(i == i0 + DI[d] && j == j0 + DJ[d], "one step in the direction");
}
// the panel a point lies on, seen from another panel
extern "C" void vc_direction_from_xyp() {
	int p = vp_choice("panel", 0, 5);
	double X = vp_real_in("X", -50.0, 50.0), Y = vp_real_in("Y", -50.0, 50.0);
	Direction d = CubedSphereTrans::DirectionFromXYP(p, X, Y);
	vp_check(d >= Direction_Middle && d <= Direction_Bottom, "a direction is assigned");
	double v[3];
	for (int k = 0; k < 3; k++) v[k] = X * PANEL[p][0][k] + Y * PANEL[p][1][k] + PANEL[p][2][k];
	int q = CubedSphereTrans::PanelFromDirection(p, d);
	double h = dot(v, PANEL[q][2]), hm = -1e9;
	bool ok = true;
	for (int r = 0; r < 6; r++) if (dot(v, PANEL[r][2]) > h + 1e-9) ok = false;
	vp_check(ok, "the point lies on the panel in the reported direction");
}
static void both(int & p, int & q, double & X, double & Y, double & X2, double & Y2, double & D2, bool & adj) {
	q = vp_choice("dest", 0, 5); p = vp_choice("source", 0, 5);
	X = vp_real_in("X", -20.0, 20.0); Y = vp_real_in("Y", -20.0, 20.0);
	adj = across(q, 0) == p || across(q, 1) == p || across(q, 2) == p || across(q, 3) == p;
	if (adj) {
		double v[3];
		for (int k = 0; k < 3; k++) v[k] = X * PANEL[q][0][k] + Y * PANEL[q][1][k] + PANEL[q][2][k];
		double hh = dot(v, PANEL[p][2]);
		vp_assume(hh > 1e-3);
		X2 = dot(v, PANEL[p][0]) / hh; Y2 = dot(v, PANEL[p][1]) / hh;
		D2 = sqrt(1.0 + X * X + Y * Y) / hh;   // = sqrt(1 + X2^2 + Y2^2) as hh > 0
	}
}
extern "C" void vc_vec_panel() {
	int p, q; double X, Y, X2, Y2, D2; bool adj;
	both(p, q, X, Y, X2, Y2, D2, adj);
	double u = vp_real("u"), v = vp_real("v"), a = u, b = v;
	bool th = false;
	try { CubedSphereTrans::VecPanelTrans(p, q, a, b, X, Y); } catch (Exception &) { th = true; }
	vp_check(th == !adj, "vectors are transformed exactly between adjacent panels");
	if (th || !adj) return;
	double s1[3], s2[3], t1[3], t2[3];
	basis_d(p, X2, Y2, D2, s1, s2); basis(q, X, Y, t1, t2);
	for (int k = 0; k < 3; k++) vp_eq(a * t1[k] + b * t2[k], u * s1[k] + v * s2[k], "contravariant components on the new panel denote the same vector");
}
extern "C" void vc_covec_panel() {
	int p, q; double X, Y, X2, Y2, D2; bool adj;
	both(p, q, X, Y, X2, Y2, D2, adj);
	double w[3] = {vp_real("w0"), vp_real("w1"), vp_real("w2")};
	double s1[3], s2[3], t1[3], t2[3];
	double a = vp_real("ja"), b = vp_real("jb"); bool th = false;
	if (adj) { basis_d(p, X2, Y2, D2, s1, s2); basis(q, X, Y, t1, t2); a = dot(w, s1); b = dot(w, s2); }
	try { CubedSphereTrans::CoVecPanelTrans(p, q, a, b, X, Y); } catch (Exception &) { th = true; }
	vp_check(th == !adj, "covectors are transformed exactly between adjacent panels");
	if (th || !adj) return;
	vp_eq(a, dot(w, t1), "covariant alpha component on the new panel denotes the same covector");
	vp_eq(b, dot(w, t2), "covariant beta component on the new panel denotes the same covector");
}
