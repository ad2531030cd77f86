#ifndef VP_SPHERE_H
#define VP_SPHERE_H
#include <cmath>
// Independent description of the six gnomonic panels: axes of panel p in global
// Cartesian coordinates (rows: direction of increasing X, of increasing Y, outward normal).
static const double PANEL[6][3][3] = {
	{{0,1,0},{0,0,1},{1,0,0}},
	{{-1,0,0},{0,0,1},{0,1,0}},
	{{0,-1,0},{0,0,1},{-1,0,0}},
	{{1,0,0},{0,0,1},{0,-1,0}},
	{{0,1,0},{-1,0,0},{0,0,1}},
	{{0,1,0},{1,0,0},{0,0,-1}}};
static void pt(int p, double X, double Y, double r[3]) {
	double d = sqrt(1.0 + X * X + Y * Y);
	for (int k = 0; k < 3; k++) r[k] = (X * PANEL[p][0][k] + Y * PANEL[p][1][k] + PANEL[p][2][k]) / d;
}
// tangent vectors d r / d alpha, d r / d beta, with X = tan alpha, Y = tan beta
// d is the distance sqrt(1 + X^2 + Y^2) of the gnomonic point from the centre
static void basis_d(int p, double X, double Y, double d, double a[3], double b[3]) {
	double d2 = d * d;
	for (int k = 0; k < 3; k++) {
		double n = X * PANEL[p][0][k] + Y * PANEL[p][1][k] + PANEL[p][2][k];
		a[k] = (1.0 + X * X) * (PANEL[p][0][k] / d - X * n / (d * d2));
		b[k] = (1.0 + Y * Y) * (PANEL[p][1][k] / d - Y * n / (d * d2));
	}
}
static void basis(int p, double X, double Y, double a[3], double b[3]) { basis_d(p, X, Y, sqrt(1.0 + X * X + Y * Y), a, b); }
static double dot(const double a[3], const double b[3]) { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]; }
#endif
