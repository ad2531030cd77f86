#include "vp.h"
#include "CubedSphereTrans.h"
#include "Exception.h"
#include "sphere.h"

static const double QPI = 3.14159265358979323846;

extern "C" void vc_xyz() {
	int p = vp_choice("panel", 0, 5);
	double X = vp_real("X"), Y = vp_real("Y");
	double x, y, z, r[3];
	CubedSphereTrans::XYZFromXYP(X, Y, p, x, y, z);
	pt(p, X, Y, r);
	vp_eq(x, r[0], "x of the point on the unit sphere"); vp_eq(y, r[1], "y of the point on the unit sphere"); vp_eq(z, r[2], "z of the point on the unit sphere");
	vp_eq(x*x + y*y + z*z, 1.0, "the point lies on the unit sphere");
}

// longitude and latitude denote the same point of the sphere
extern "C" void vc_rll_from_xyp() {
	int p = vp_choice("panel", 0, 5);
	double X = vp_real_in("X", -20.0, 20.0), Y = vp_real_in("Y", -20.0, 20.0);
	if (p > 3) vp_assume(X > 1.0e-9 || X < -1.0e-9);
	double lon, lat, r[3];
	CubedSphereTrans::RLLFromXYP(X, Y, p, lon, lat);
	pt(p, X, Y, r);
	vp_reach("done");
	vp_eq(cos(lon) * cos(lat), r[0], "longitude and latitude give x"); vp_eq(sin(lon) * cos(lat), r[1], "longitude and latitude give y"); vp_eq(sin(lat), r[2], "latitude gives z");
	vp_check(lon >= 0.0 && lon <= 2.0 * QPI + 1e-12, "longitude is in [0, 2 pi]");
	vp_check(lat >= -0.5 * QPI - 1e-12 && lat <= 0.5 * QPI + 1e-12, "latitude is in [-pi/2, pi/2]");
}
// on the meridian through the centre of the polar panels
extern "C" void vc_rll_axis() {
	int p = vp_choice("panel", 4, 5);
	double Y = vp_real_in("Y", -20.0, 20.0);
	int s = vp_choice("sign", -1, 1);
	if (s < 0) vp_assume(Y < -1.0e-9); else if (s > 0) vp_assume(Y > 1.0e-9); else Y = 0.0;
	double lon, lat, r[3];
	CubedSphereTrans::RLLFromXYP(0.0, Y, p, lon, lat);
	pt(p, 0.0, Y, r);
	vp_eq(cos(lon) * cos(lat), r[0], "longitude and latitude give x"); vp_eq_tol(sin(lon) * cos(lat), r[1], 1e-12, "longitude and latitude give y"); vp_eq(sin(lat), r[2], "latitude gives z");
	vp_check(lon >= 0.0 && lon <= 2.0 * QPI + 1e-12, "longitude is in [0, 2 pi]");
}

extern "C" void vc_xyp_from_rll() {
	double lon = vp_real_in("lon", -10.0, 10.0), lat = vp_real_in("lat", -1.57, 1.57);
	double X, Y, r[3]; int p = -1;
	CubedSphereTrans::XYPFromRLL(lon, lat, X, Y, p);
	vp_check(p >= 0 && p < 6, "every point of the sphere is assigned a panel");
	vp_check(X <= 1.0 && X >= -1.0 && Y <= 1.0 && Y >= -1.0, "gnomonic coordinates lie inside the panel");
	pt(p, X, Y, r);
	vp_eq(r[0], cos(lon) * cos(lat), "panel coordinates denote the same point (x)"); vp_eq(r[1], sin(lon) * cos(lat), "panel coordinates denote the same point (y)"); vp_eq(r[2], sin(lat), "panel coordinates denote the same point (z)");
}

extern "C" void vc_xyp_roundtrip() {
	int p = vp_choice("panel", 0, 5);
	double X = vp_real_in("X", -0.999, 0.999), Y = vp_real_in("Y", -0.999, 0.999);
	if (p > 3) vp_assume(X > 1.0e-9 || X < -1.0e-9);
	double lon, lat, X2, Y2; int p2 = -1;
	CubedSphereTrans::RLLFromXYP(X, Y, p, lon, lat);
	CubedSphereTrans::XYPFromRLL(lon, lat, X2, Y2, p2);
	vp_check(p2 == p, "a point inside a panel is found on that panel");
	vp_eq(X2, X, "coordinate transform round trip (X)"); vp_eq(Y2, Y, "coordinate transform round trip (Y)");
}

extern "C" void vc_abp() {
	int p = vp_choice("panel", 0, 5);
	double A = vp_real_in("A", -0.78, 0.78), B = vp_real_in("B", -0.78, 0.78);
	if (p > 3) vp_assume(A > 1.0e-9 || A < -1.0e-9);
	double lon, lat, lo2, la2;
	CubedSphereTrans::RLLFromABP(A, B, p, lon, lat);
	CubedSphereTrans::RLLFromXYP(tan(A), tan(B), p, lo2, la2);
	vp_eq(lon, lo2, "equiangular and gnomonic coordinates agree (longitude)"); vp_eq(lat, la2, "equiangular and gnomonic coordinates agree (latitude)");
}
extern "C" void vc_abp_inv() {
	double lon = vp_real_in("lon", -10.0, 10.0), lat = vp_real_in("lat", -1.57, 1.57);
	double A, B, X, Y; int p1 = -1, p2 = -1;
	CubedSphereTrans::XYPFromRLL(lon, lat, X, Y, p1);
	CubedSphereTrans::ABPFromRLL(lon, lat, A, B, p2);
	vp_check(p1 == p2, "equiangular and gnomonic assignments agree on the panel");
	vp_eq(tan(A), X, "equiangular coordinate is the arc tangent of the gnomonic one (X)"); vp_eq(tan(B), Y, "equiangular coordinate is the arc tangent of the gnomonic one (Y)");
	vp_check(A <= 0.7853981635 && A >= -0.7853981635 && B <= 0.7853981635 && B >= -0.7853981635, "equiangular coordinates are principal values");
}

// change of panel keeps the point and is refused exactly when the point is not in the half-space of the target
extern "C" void vc_xyp_from_xyp() {
	int p = vp_choice("source", 0, 5), q = vp_choice("target", 0, 5);
	double X = vp_real_in("X", -20.0, 20.0), Y = vp_real_in("Y", -20.0, 20.0);
	double r[3], s[3], X2 = 0, Y2 = 0;
	pt(p, X, Y, r);
	double height = dot(r, PANEL[q][2]);
	bool thrown = false;
	try { CubedSphereTrans::XYPFromXYP(X, Y, p, q, X2, Y2); } catch (Exception &) { thrown = true; }
	vp_check(thrown == !(height > 0.0), "a change of panel is refused exactly when the point is not visible from the target panel");
	if (!thrown) {
		pt(q, X2, Y2, s);
		vp_eq(s[0], r[0], "a change of panel keeps the point (x)"); vp_eq(s[1], r[1], "a change of panel keeps the point (y)"); vp_eq(s[2], r[2], "a change of panel keeps the point (z)");
		double X3, Y3;
		CubedSphereTrans::XYPFromXYP(X2, Y2, q, p, X3, Y3);
		vp_eq(X3, X, "changing panel there and back (X)"); vp_eq(Y3, Y, "changing panel there and back (Y)");
	}
}
// invalid panels are refused
extern "C" void vc_coord_badpanel() {
	int p = vp_choice("panel", 0, 1) ? vp_int("p", 6, 1000) : vp_int("p", -1000, -1);
	int f = vp_choice("function", 0, 3);
	double a = 0, b = 0, c = 0; bool th = false;
	try {
		if (f == 0) CubedSphereTrans::XYZFromXYP(0.1, 0.2, p, a, b, c);
		else if (f == 1) CubedSphereTrans::RLLFromXYP(0.1, 0.2, p, a, b);
		else if (f == 2) CubedSphereTrans::XYPFromXYP(0.1, 0.2, p, 0, a, b);
		else CubedSphereTrans::XYPFromXYP(0.1, 0.2, 0, p, a, b);
	} catch (Exception &) { th = true; }
	vp_check(th, "a panel index outside 0..5 is refused");
}

// area of a gnomonic cell
extern "C" void vc_area() {
	double X = vp_real_in("X", -1.0, 0.0), Y = vp_real_in("Y", -1.0, 0.0), d1 = vp_real_in("d1", 0.01, 0.5), d2 = vp_real_in("d2", 0.01, 0.5), e = vp_real_in("e", 0.01, 1.0), R = vp_real_in("R", 0.1, 10.0);
	vp_eq(CubedSphereTrans::GnomonicElementArea(X, d1 + d2, Y, e, R), CubedSphereTrans::GnomonicElementArea(X, d1, Y, e, R) + CubedSphereTrans::GnomonicElementArea(X + d1, d2, Y, e, R), "cell areas add up in X");
	vp_eq(CubedSphereTrans::GnomonicElementArea(Y, e, X, d1 + d2, R), CubedSphereTrans::GnomonicElementArea(Y, e, X, d1, R) + CubedSphereTrans::GnomonicElementArea(Y, e, X + d1, d2, R), "cell areas add up in Y");
	vp_eq(CubedSphereTrans::GnomonicElementArea(X, d1, Y, e, R), R * R * CubedSphereTrans::GnomonicElementArea(X, d1, Y, e), "cell area scales with the square of the radius");
	vp_eq_tol(6.0 * CubedSphereTrans::GnomonicElementArea(-1.0, 2.0, -1.0, 2.0), 4.0 * QPI, 1e-9, "the six panels cover the sphere exactly once");
	double g = CubedSphereTrans::GnomonicGridAngle(X, Y);
	vp_eq(cos(g), -X * Y / (sqrt(1.0 + X * X) * sqrt(1.0 + Y * Y)), "angle between grid lines");
}
