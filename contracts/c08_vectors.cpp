#include "vp.h"
#include "CubedSphereTrans.h"
#include "Exception.h"
#include "sphere.h"

static void lonlat(const double r[3], double el[3], double ep[3]) {
	double rho = sqrt(r[0]*r[0] + r[1]*r[1]);
	el[0] = -r[1] / rho; el[1] = r[0] / rho; el[2] = 0.0;
	ep[0] = -r[0] * r[2] / rho; ep[1] = -r[1] * r[2] / rho; ep[2] = rho;
}
static int setup(double & X, double & Y, double a[3], double b[3], double el[3], double ep[3]) {
	int p = vp_choice("panel", 0, 5);
	X = vp_real_in("X", -20.0, 20.0); Y = vp_real_in("Y", -20.0, 20.0);
	if (p > 3) vp_assume(X > 1.0e-9 || X < -1.0e-9 || Y > 1.0e-9 || Y < -1.0e-9);
	double r[3]; pt(p, X, Y, r); basis(p, X, Y, a, b); lonlat(r, el, ep);
	return p;
}

extern "C" void vc_contra_from_rll() {
	double X, Y, a[3], b[3], el[3], ep[3]; int p = setup(X, Y, a, b, el, ep);
	double ul = vp_real("ulon"), up = vp_real("ulat"), ua, ub;
	CubedSphereTrans::VecTransABPFromRLL(X, Y, p, ul, up, ua, ub);
	vp_reach("done");
	for (int k = 0; k < 3; k++) vp_eq(ua * a[k] + ub * b[k], ul * el[k] + up * ep[k], "contravariant components denote the given east/north vector");
}
extern "C" void vc_rll_from_contra() {
	double X, Y, a[3], b[3], el[3], ep[3]; int p = setup(X, Y, a, b, el, ep);
	double ua = vp_real("ua"), ub = vp_real("ub"), ul, up;
	CubedSphereTrans::VecTransRLLFromABP(X, Y, p, ua, ub, ul, up);
	for (int k = 0; k < 3; k++) vp_eq(ua * a[k] + ub * b[k], ul * el[k] + up * ep[k], "east/north components denote the given contravariant vector");
}
extern "C" void vc_co_from_rll() {
	double X, Y, a[3], b[3], el[3], ep[3]; int p = setup(X, Y, a, b, el, ep);
	double ul = vp_real("ulon"), up = vp_real("ulat"), ua, ub;
	CubedSphereTrans::CoVecTransABPFromRLL(X, Y, p, ul, up, ua, ub);
	vp_eq(ua, ul * dot(el, a) + up * dot(ep, a), "covariant alpha component is the projection on the alpha tangent");
	vp_eq(ub, ul * dot(el, b) + up * dot(ep, b), "covariant beta component is the projection on the beta tangent");
}
extern "C" void vc_rll_from_co() {
	double X, Y, a[3], b[3], el[3], ep[3]; int p = setup(X, Y, a, b, el, ep);
	double ua = vp_real("ua"), ub = vp_real("ub"), ul, up;
	CubedSphereTrans::CoVecTransRLLFromABP(X, Y, p, ua, ub, ul, up);
	vp_eq(ul * dot(el, a) + up * dot(ep, a), ua, "east/north components reproduce the covariant alpha component");
	vp_eq(ul * dot(el, b) + up * dot(ep, b), ub, "east/north components reproduce the covariant beta component");
}
// at the poles: the longitude assigned to the pole fixes east and north
extern "C" void vc_pole() {
	int p = vp_choice("panel", 4, 5), f = vp_choice("function", 0, 3);
	double u = vp_real("u"), v = vp_real("v"), lon, lat;
	CubedSphereTrans::RLLFromXYP(0.0, 0.0, p, lon, lat);
	double el[3] = {-sin(lon), cos(lon), 0.0}, ep[3] = {-sin(lat) * cos(lon), -sin(lat) * sin(lon), 0.0};
	double a[3], b[3]; basis(p, 0.0, 0.0, a, b);
	double ua, ub, ul, up;
	if (f == 0) { ul = u; up = v; CubedSphereTrans::VecTransABPFromRLL(0.0, 0.0, p, u, v, ua, ub); }
	else if (f == 1) { ua = u; ub = v; CubedSphereTrans::VecTransRLLFromABP(0.0, 0.0, p, u, v, ul, up); }
	else if (f == 2) { ul = u; up = v; CubedSphereTrans::CoVecTransABPFromRLL(0.0, 0.0, p, u, v, ua, ub); }
	else { ua = u; ub = v; CubedSphereTrans::CoVecTransRLLFromABP(0.0, 0.0, p, u, v, ul, up); }
	// at the panel centre the tangent basis is orthonormal: co- and contravariant agree
	for (int k = 0; k < 2; k++) vp_eq_tol(ua * a[k] + ub * b[k], ul * el[k] + up * ep[k], 1e-9, "vector components at the pole denote the same vector");
}
extern "C" void vc_vec_badpanel() {
	int p = vp_choice("panel", 0, 1) ? vp_int("p", 6, 1000) : vp_int("p", -1000, -1);
	int f = vp_choice("function", 0, 3); double a, b; bool th = false;
	try {
		if (f == 0) CubedSphereTrans::VecTransABPFromRLL(0.1, 0.2, p, 1.0, 2.0, a, b);
		else if (f == 1) CubedSphereTrans::VecTransRLLFromABP(0.1, 0.2, p, 1.0, 2.0, a, b);
		else if (f == 2) CubedSphereTrans::CoVecTransABPFromRLL(0.1, 0.2, p, 1.0, 2.0, a, b);
		else CubedSphereTrans::CoVecTransRLLFromABP(0.1, 0.2, p, 1.0, 2.0, a, b);
	} catch (Exception &) { th = true; }
	vp_check(th, "a panel index outside 0..5 is refused");
}
