// A test case whose every value is a symbol depending on the location (and, where the
// interface has one, linearly on the altitude)
#ifndef VP_TCASE_H
#define VP_TCASE_H
#include "world2.h"
#include "TestCase.h"
#include <cmath>
enum { T_STATE, T_REF, T_TRACER, T_REFTRACER, T_PERT, T_PERTTRACER, T_RAY, T_KINDS };
struct Loc { double r[3]; double zs; double A[T_KINDS][5]; double B[T_KINDS][5]; };
static Loc t_loc[700]; static int t_n;
static bool t_sphere; static double t_top;
static bool t_ray; static int t_ref;       // t_ref: 0 no reference state, 1 state only, 2 with tracers
static int t_nt, t_nc; static Time * t_time; static bool t_zero; static int t_high;   // t_high: index of a location whose topography reaches the top
static double t_nuS, t_nuV;
static Loc & loc_at(const double r[3]) {
	double eps = t_sphere ? 1e-18 : 1e-8;
	for (int n = 0; n < t_n; n++) {
		double d0 = t_loc[n].r[0] - r[0], d1 = t_loc[n].r[1] - r[1], d2 = t_loc[n].r[2] - r[2];
		if (d0 * d0 + d1 * d1 + d2 * d2 < eps) return t_loc[n];
	}
	Loc & l = t_loc[t_n];
	for (int c = 0; c < 3; c++) l.r[c] = r[c];
	l.zs = 0.0;
	if (!t_zero) {
		vp_sym_array(&l.zs, 1, "zs");
		if (t_n == t_high) vp_assume(l.zs >= t_top);
		else { if (!vp_symbolic()) l.zs = l.zs * 0.3 * (t_top > 0.0 ? t_top : 1.0); vp_assume(l.zs < t_top); }
	}
	vp_sym_array(&l.A[0][0], 5 * T_KINDS, "A"); vp_sym_array(&l.B[0][0], 5 * T_KINDS, "B");
	t_n++;
	return l;
}
static Loc & loc(double lon, double lat) {
	double r[3] = {lon, lat, 0.0};
	if (t_sphere) { r[0] = cos(lat) * cos(lon); r[1] = cos(lat) * sin(lon); r[2] = sin(lat); }
	return loc_at(r);
}
static double val(Loc & l, int kind, int c, double z) { return l.A[kind][c] + l.B[kind][c] * z; }
class SymCase : public TestCase {
public:
	virtual double GetZtop() const { return t_top; }
	virtual bool HasRayleighFriction() const { return t_ray; }
	virtual bool HasReferenceState() const { return t_ref != 0; }
	virtual void GetUniformDiffusionCoeffs(double & s, double & v) const { s = t_nuS; v = t_nuV; }
	virtual double EvaluateTopography(const PhysicalConstants &, double lon, double lat) const { return loc(lon, lat).zs; }
	virtual double EvaluateRayleighStrength(double z, double lon, double lat) const { return val(loc(lon, lat), T_RAY, 0, z); }
	virtual void EvaluatePointwiseState(const PhysicalConstants &, const Time & t, double z, double lon, double lat, double * s, double * q) const {
		vp_check(t == *t_time, "the test case is evaluated at the time asked for");
		Loc & l = loc(lon, lat);
		for (int c = 0; c < t_nc; c++) s[c] = val(l, T_STATE, c, z);
		for (int c = 0; c < t_nt; c++) q[c] = val(l, T_TRACER, c, z);
	}
	virtual void EvaluatePointwisePerturbation(const PhysicalConstants &, const Time & t, double z, double lon, double lat, double * s, double * q) const {
		vp_check(t == *t_time, "the perturbation is evaluated at the time asked for");
		Loc & l = loc(lon, lat);
		for (int c = 0; c < t_nc; c++) s[c] = c == 2 || c == 3 ? val(l, T_PERT, c, z) : 0.0;
		for (int c = 0; c < t_nt; c++) q[c] = val(l, T_PERTTRACER, c, z);
	}
	void ref(double z, double lon, double lat, double * s) const {
		Loc & l = loc(lon, lat);
		for (int c = 0; c < t_nc; c++) s[c] = val(l, T_REF, c, z);
	}
	virtual void EvaluateReferenceState(const PhysicalConstants & p, double z, double lon, double lat, double * s, double * q) const {
		if (t_ref == 1) { TestCase::EvaluateReferenceState(p, z, lon, lat, s, q); return; }
		ref(z, lon, lat, s);
		Loc & l = loc(lon, lat);
		if (q) for (int c = 0; c < t_nt; c++) q[c] = val(l, T_REFTRACER, c, z);
	}
	virtual void EvaluateReferenceState(const PhysicalConstants & p, double z, double lon, double lat, double * s) const {
		if (t_ref == 2) { TestCase::EvaluateReferenceState(p, z, lon, lat, s); return; }
		ref(z, lon, lat, s);
	}
};
// ---- where the nodes are, independently of the code
static double t_x(int n, int i) {
	if (i == 0) return 0.0;
	if (i == n - 1) return 1.0;
	if (n == 3) return 0.5;
	double r = 0.5 / sqrt(5.0);
	return i == 1 ? 0.5 - r : 0.5 + r;
}
static double t_w(int n, int i) {
	if (n == 2) return 0.5;
	if (n == 3) return i == 1 ? 2.0 / 3.0 : 1.0 / 6.0;
	return i == 0 || i == n - 1 ? 1.0 / 12.0 : 5.0 / 12.0;
}
// coordinate of global node index g, elements of width d from x0
static double t_coord(int n, int g, double x0, double d) {
	int e = g >= 0 ? g / n : -((-g + n - 1) / n);
	return x0 + d * (e + t_x(n, g - e * n));
}
// vertical coordinate: Z = Ztop eta + s(eta) Zs
static double t_s(double e) {
	if (t_sphere) return 1.0 - e;
	double q = 2.0 * atan(1.0) * e, c = cos(q);
	return (1.0 - e) * (c * c * c * c * c * c + 0.25 * e * sin(q));
}
static double t_ds(double e) {
	if (t_sphere) return -1.0;
	double h = 2.0 * atan(1.0), q = h * e, c = cos(q), s = sin(q), c5 = c * c * c * c * c;
	return -(c5 * c + 0.25 * e * s) + (1.0 - e) * (-6.0 * h * c5 * s + 0.25 * s + 0.25 * e * h * c);
}
#endif
