#include "vp.h"
#include "PhysicalConstants.h"
#include <cmath>

static void anyconst(PhysicalConstants & c, double & R, double & Cp, double & P0) {
	R = vp_real_in("R", 50.0, 900.0);
	Cp = vp_real_in("Cp", 901.0, 5000.0);
	P0 = vp_real_in("P0", 1000.0, 1000000.0);
	int o = vp_choice("order", 0, 5);
	const int perm[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
	for (int k = 0; k < 3; k++) {
		if (perm[o][k] == 0) c.SetR(R);
		else if (perm[o][k] == 1) c.SetCp(Cp);
		else c.SetP0(P0);
	}
}

extern "C" void vc_phys_rhotheta() {
	PhysicalConstants c; double R, Cp, P0;
	anyconst(c, R, Cp, P0);
	double rt = vp_real_in("rhotheta", 0.01, 1000.0);
	double p = c.PressureFromRhoTheta(rt);
	// p = P0 (R rho theta / P0)^(Cp/Cv)
	vp_eq(p / (P0 * pow(R * rt / P0, Cp / (Cp - R))), 1.0, "ideal gas law p = P0 (R rho theta / P0)^(cp/cv)");
	vp_eq(c.RhoThetaFromPressure(p) / rt, 1.0, "RhoThetaFromPressure inverts PressureFromRhoTheta");
	double q = vp_real_in("p", 1.0, 2000000.0);
	vp_eq(c.PressureFromRhoTheta(c.RhoThetaFromPressure(q)) / q, 1.0, "PressureFromRhoTheta inverts RhoThetaFromPressure");
}

extern "C" void vc_phys_exner() {
	PhysicalConstants c; double R, Cp, P0;
	anyconst(c, R, Cp, P0);
	double rt = vp_real_in("rhotheta", 0.01, 1000.0);
	double pi = c.ExnerPressureFromRhoTheta(rt);
	double p = c.PressureFromRhoTheta(rt);
	vp_eq(pi, c.ExnerPressureFromPressure(p), "Exner pressure from rho theta agrees with Exner pressure from pressure");
	vp_eq(c.ExnerPressureFromPressure(p) / (Cp * pow(p / P0, R / Cp)), 1.0, "Exner pressure = cp (p/p0)^(R/cp)");
	vp_eq(c.RhoThetaFromExnerPressure(pi) / rt, 1.0, "RhoThetaFromExnerPressure inverts ExnerPressureFromRhoTheta");
	vp_eq(c.PressureFromExnerPressure(c.ExnerPressureFromPressure(p)) / p, 1.0, "PressureFromExnerPressure inverts ExnerPressureFromPressure");
	double x = vp_real_in("pi", 100.0, 3000.0);
	vp_eq(c.ExnerPressureFromRhoTheta(c.RhoThetaFromExnerPressure(x)) / x, 1.0, "ExnerPressureFromRhoTheta inverts RhoThetaFromExnerPressure");
	vp_eq(c.ExnerPressureFromPressure(c.PressureFromExnerPressure(x)) / x, 1.0, "ExnerPressureFromPressure inverts PressureFromExnerPressure");
}

extern "C" void vc_phys_derived() {
	PhysicalConstants c; double R, Cp, P0;
	anyconst(c, R, Cp, P0);
	vp_eq(c.GetR(), R, "R reads back"); vp_eq(c.GetCp(), Cp, "Cp reads back"); vp_eq(c.GetP0(), P0, "P0 reads back");
	vp_eq(c.GetKappa() * Cp, R, "kappa = R/cp whatever the order of setters");
	vp_eq(c.GetGamma() * (Cp - R), Cp, "gamma = cp/cv whatever the order of setters");
	vp_eq(c.GetCv(), Cp - R, "cv = cp - R");
	vp_eq(c.GetPressureScaling() / (P0 * pow(R / P0, Cp / (Cp - R))), 1.0, "pressure scaling follows R, cp, p0 whatever the order of setters");
}
