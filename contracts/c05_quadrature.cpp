#include "vp.h"
#include "GaussQuadrature.h"
#include "GaussLobattoQuadrature.h"
#include "LegendrePolynomial.h"
#include "Exception.h"
#include "DataArray1D.h"
#include <cmath>

// Legendre polynomials by the defining three-term recurrence
static double legendre(int n, double x) {
	double a = 1.0, b = x;
	if (n == 0) return a;
	for (int k = 1; k < n; k++) {
		double c = ((2.0 * k + 1.0) * x * b - k * a) / (k + 1.0);
		a = b; b = c;
	}
	return b;
}
// their derivatives: P'_{k+1} = P'_{k-1} + (2k+1) P_k
static double dlegendre(int n, double x) {
	if (n == 0) return 0.0;
	double p0 = 0.0, p1 = 1.0;
	for (int k = 1; k < n; k++) {
		double p2 = p0 + (2.0 * k + 1.0) * legendre(k, x);
		p0 = p1; p1 = p2;
	}
	return p1;
}
static double ipow(double x, int k) { double r = 1.0; while (k-- > 0) r *= x; return r; }

// sum_i w_i x_i^k is the exact integral over [-1, 1] for k = 0 .. deg
static void exact(int n, double * G, double * W, int deg) {
	for (int k = 0; k <= deg; k++) {
		double s = 0.0;
		for (int i = 0; i < n; i++) s += W[i] * ipow(G[i], k);
		vp_eq_tol(s, (k % 2) ? 0.0 : 2.0 / (k + 1.0), 1e-12, "the rule integrates every polynomial of its degree exactly");
	}
}
static void shape(int n, double * G, double * W) {
	for (int i = 0; i < n; i++) {
		vp_check(W[i] > 0.0, "weights are positive");
		if (i > 0) vp_check(G[i] > G[i-1], "nodes are strictly increasing");
		vp_eq_tol(G[i], -G[n-1-i], 1e-12, "nodes are symmetric about the centre");
		vp_eq_tol(W[i], W[n-1-i], 1e-12, "weights are symmetric about the centre");
	}
}
static void gauss(int n) {
	DataArray1D<double> G, W;
	GaussQuadrature::GetPoints(n, G, W);
	vp_check((int)G.GetRows() == n && (int)W.GetRows() == n, "one node and one weight per requested point");
	exact(n, G, W, 2 * n - 1);
	shape(n, G, W);
	vp_check(G[0] > -1.0 && G[n-1] < 1.0, "Gauss nodes are interior");
}
static void lobatto(int n) {
	DataArray1D<double> G, W;
	GaussLobattoQuadrature::GetPoints(n, G, W);
	vp_check((int)G.GetRows() == n && (int)W.GetRows() == n, "one node and one weight per requested point");
	exact(n, G, W, 2 * n - 3);
	shape(n, G, W);
	vp_check(G[0] == -1.0 && G[n-1] == 1.0, "Gauss-Lobatto nodes include both end points");
}
extern "C" void vc_gauss() { gauss(vp_choice("points", 1, 10)); }
extern "C" void vc_lobatto() { lobatto(vp_choice("points", 2, 10)); }
extern "C" void vc_gauss_high() { gauss(vp_choice("points", 11, 40)); }
extern "C" void vc_lobatto_high() { lobatto(vp_choice("points", 11, 40)); }

// mapped rules: affine image of the reference rule, for every interval
extern "C" void vc_gauss_interval() {
	int n = vp_choice("points", 1, 12);
	double a = vp_real("a"), b = vp_real("b");
	DataArray1D<double> G, W, G0, W0;
	GaussQuadrature::GetPoints(n, G0, W0);
	GaussQuadrature::GetPoints(n, a, b, G, W);
	for (int i = 0; i < n; i++) {
		vp_eq(2.0 * G[i], (1.0 - G0[i]) * a + (1.0 + G0[i]) * b, "nodes are the affine image of the reference nodes");
		vp_eq(2.0 * W[i], (b - a) * W0[i], "weights scale with the interval length");
	}
}
extern "C" void vc_lobatto_interval() {
	int n = vp_choice("points", 2, 12);
	double a = vp_real("a"), b = vp_real("b");
	DataArray1D<double> G, W, G0, W0;
	GaussLobattoQuadrature::GetPoints(n, G0, W0);
	GaussLobattoQuadrature::GetPoints(n, a, b, G, W);
	for (int i = 0; i < n; i++) {
		vp_eq(2.0 * G[i], (1.0 - G0[i]) * a + (1.0 + G0[i]) * b, "nodes are the affine image of the reference nodes");
		vp_eq(2.0 * W[i], (b - a) * W0[i], "weights scale with the interval length");
	}
}
extern "C" void vc_quad_reject() {
	int n = vp_int("points", -1000, 1);
	DataArray1D<double> G, W;
	bool t1 = false, t2 = false;
	try { GaussLobattoQuadrature::GetPoints(n, G, W); } catch (Exception &) { t1 = true; }
	vp_check(t1, "fewer than two Gauss-Lobatto points are refused");
	if (n <= 0) {
		try { GaussQuadrature::GetPoints(n, G, W); } catch (Exception &) { t2 = true; }
		vp_check(t2, "fewer than one Gauss point is refused");
	}
}

// polynomial values and derivatives, every argument
static void polys(int n, double x) {
	double v, d;
	LegendrePolynomial::EvaluateValueAndDerivative(n, x, v, d);
	vp_eq(v, legendre(n, x), "value is the Legendre polynomial");
	vp_eq(d, dlegendre(n, x), "derivative is the derivative of the Legendre polynomial");
	vp_eq(LegendrePolynomial::Evaluate(n, x), v, "Evaluate agrees");
	vp_eq(LegendrePolynomial::EvaluateDerivative(n, x), d, "EvaluateDerivative agrees");
}
extern "C" void vc_legendre() { polys(vp_choice("degree", 0, 8), vp_real_in("x", -1e3, 1e3)); }
extern "C" void vc_legendre_high() { polys(vp_choice("degree", 9, 24), vp_real_in("x", -1.5, 1.5)); }

extern "C" void vc_legendre_roots() {
	int n = vp_choice("degree", 1, 8);
	double prev = -1.0;
	vp_check(LegendrePolynomial::RootCount(n) == n, "a polynomial of degree n has n roots");
	for (int k = 0; k < n; k++) {
		double r = LegendrePolynomial::Root(n, k);
		vp_check(r > prev && r < 1.0, "roots are increasing and inside the interval");
		vp_eq_tol(legendre(n, r), 0.0, 1e-12, "root is a zero of the Legendre polynomial");
		prev = r;
	}
	bool t = false;
	try { LegendrePolynomial::Root(n, n); } catch (Exception &) { t = true; }
	vp_check(t, "root index past the end is refused");
	t = false;
	try { LegendrePolynomial::Root(n, -1); } catch (Exception &) { t = true; }
	vp_check(t, "negative root index is refused");
}
extern "C" void vc_legendre_droots() {
	int n = vp_choice("degree", 2, 8);
	double prev = -1.0;
	vp_check(LegendrePolynomial::DerivativeRootCount(n) == n - 1, "the derivative has n - 1 roots");
	for (int k = 0; k < n - 1; k++) {
		double r = LegendrePolynomial::DerivativeRoot(n, k);
		vp_check(r > prev && r < 1.0, "derivative roots are increasing and inside the interval");
		vp_eq_tol(dlegendre(n, r), 0.0, 1e-12, "derivative root is a zero of the derivative");
		vp_eq_tol(LegendrePolynomial::DerivativeExtendedRoot(n, k + 1), r, 1e-15, "extended roots contain the derivative roots");
		prev = r;
	}
	vp_check(LegendrePolynomial::DerivativeExtendedRoot(n, 0) == -1.0 && LegendrePolynomial::DerivativeExtendedRoot(n, n) == 1.0, "extended roots contain both end points");
}
extern "C" void vc_legendre_allroots() {
	int n = vp_choice("degree", 1, 40);
	double R[40], D[40];
	LegendrePolynomial::AllRoots(n, R);
	if (n > 1) LegendrePolynomial::AllDerivativeRoots(n, D);
	for (int k = 0; k < n; k++) {
		vp_eq_tol(legendre(n, R[k]), 0.0, 1e-11, "AllRoots returns zeros of the polynomial");
		vp_check(R[k] > -1.0 && R[k] < 1.0 && (k == 0 || R[k] > R[k-1]), "AllRoots are distinct, sorted and inside the interval");
	}
	for (int k = 0; k < n - 1; k++) {
		vp_eq_tol(dlegendre(n, D[k]), 0.0, 1e-10, "AllDerivativeRoots returns zeros of the derivative");
		vp_check(D[k] > -1.0 && D[k] < 1.0 && (k == 0 || D[k] > D[k-1]), "AllDerivativeRoots are distinct, sorted and inside the interval");
	}
}
// Characteristic (cardinal) polynomials: equal the Lagrange basis on the roots at
// more points than their degree
extern "C" void vc_legendre_characteristic() {
	int n = vp_choice("degree", 1, 8);
	double R[8];
	for (int k = 0; k < n; k++) R[k] = LegendrePolynomial::Root(n, k);
	for (int r = 0; r < n; r++) {
		for (int s = 0; s <= 2 * n; s++) {
			double x = -1.0 + s / (double)n, e = 1.0;
			for (int k = 0; k < n; k++) if (k != r) e *= (x - R[k]) / (R[r] - R[k]);
			vp_eq_tol(LegendrePolynomial::EvaluateCharacteristic(n, r, x), e, 1e-11, "characteristic function is the cardinal polynomial of the root");
		}
	}
	bool t = false;
	try { LegendrePolynomial::EvaluateCharacteristic(n, n, 0.0); } catch (Exception &) { t = true; }
	vp_check(t, "characteristic function of a root past the end is refused");
}
