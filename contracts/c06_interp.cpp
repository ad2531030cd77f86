#include "vp.h"
#include "PolynomialInterp.h"
#include "FluxCorrectionFunction.h"
#include "GaussLobattoQuadrature.h"
#include "GridGLL.h"
#include "Model.h"
#include "LinearColumnOperatorFEM.h"
#include "Exception.h"
#include <cmath>
#include <new>

// n distinct nodes: increasing or decreasing in an arbitrary permutation of the
// line is covered because any distinct reals are allowed
static int nodes(double * X, int lo, int hi) {
	int n = vp_choice("nodes", lo, hi);
	vp_sym_array(X, n, "x");
	for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) vp_assume(fabs(X[i] - X[j]) > (vp_symbolic() ? 1e-6 : 0.05));
	vp_assume(vp_symbolic() || n <= 6);
	return n;
}
// value and first three derivatives at s of prod_{j != i} (x - X[j])
static void product(int n, const double * X, int i, double s, double * d) {
	d[0] = 1.0; d[1] = d[2] = d[3] = 0.0;
	for (int j = 0; j < n; j++) {
		if (j == i) continue;
		double f = s - X[j];
		d[3] = d[3] * f + 3.0 * d[2];
		d[2] = d[2] * f + 2.0 * d[1];
		d[1] = d[1] * f + d[0];
		d[0] = d[0] * f;
	}
}
static double scale(int n, const double * X, int i) {
	double p = 1.0;
	for (int j = 0; j < n; j++) if (j != i) p *= X[i] - X[j];
	return p;
}
static double sample(int n, const double * X) {
	int at = vp_choice("at", -1, n - 1);
	if (at >= 0) {
		// on the node, or close to it (closer than rounding can tell counts as on it)
		int near = vp_choice("near", 0, 1);
		vp_assume(!near || (at == n / 2 && n <= 5));
		return near ? X[at] + 1e-4 : X[at];
	}
	double s = vp_real("s");
	for (int i = 0; i < n; i++) vp_assume(fabs(s - X[i]) > (vp_symbolic() ? 1e-6 : 0.01));
	return s;
}
extern "C" void vc_lagrange() {
	double X[12], C[12], d[4];
	int n = nodes(X, 1, 10);
	double s = vp_real("s");
	PolynomialInterp::LagrangianPolynomialCoeffs(n, X, C, s);
	for (int i = 0; i < n; i++) {
		product(n, X, i, s, d);
		vp_eq(C[i] * scale(n, X, i), d[0], "coefficient is the Lagrange basis polynomial of its node");
	}
}
extern "C" void vc_interpolate() {
	double X[12], Y[12], C[12];
	int n = nodes(X, 1, 10);
	vp_sym_array(Y, n, "y");
	double s = vp_real("s"), e = 0.0;
	PolynomialInterp::LagrangianPolynomialCoeffs(n, X, C, s);
	for (int i = 0; i < n; i++) e += Y[i] * C[i];
	vp_eq(PolynomialInterp::Interpolate(n, X, Y, s), e, "interpolated value is that of the interpolating polynomial");
}
extern "C" void vc_dlagrange() {
	double X[12], C[12], d[4];
	int n = nodes(X, 1, 10);
	double s = sample(n, X);
	PolynomialInterp::DiffLagrangianPolynomialCoeffs(n, X, C, s);
	for (int i = 0; i < n; i++) {
		product(n, X, i, s, d);
		vp_eq(C[i] * scale(n, X, i), d[1], "coefficient is the first derivative of the Lagrange basis polynomial");
	}
}
extern "C" void vc_ddlagrange() {
	double X[12], C[12], d[4];
	int n = nodes(X, 1, 10);
	double s = sample(n, X);
	PolynomialInterp::DiffDiffLagrangianPolynomialCoeffs(n, X, C, s);
	for (int i = 0; i < n; i++) {
		product(n, X, i, s, d);
		vp_eq(C[i] * scale(n, X, i), d[2], "coefficient is the second derivative of the Lagrange basis polynomial");
	}
}
extern "C" void vc_dddlagrange() {
	double X[12], C[12], d[4];
	int n = nodes(X, 1, 10);
	double s = sample(n, X);
	PolynomialInterp::DiffDiffDiffLagrangianPolynomialCoeffs(n, X, C, s);
	for (int i = 0; i < n; i++) {
		product(n, X, i, s, d);
		vp_eq(C[i] * scale(n, X, i), d[3], "coefficient is the third derivative of the Lagrange basis polynomial");
	}
}

// Flux correction function g of type t and order N on [0, 1]: degree N, g(1) = 1,
// zero of multiplicity t at 0 and orthogonal to polynomials of degree < N - t.
// GetDerivatives returns g' at the nodes.
extern "C" void vc_fluxcorrection() {
	int N = vp_choice("order", 1, 8), t = vp_choice("type", 1, 3);
	vp_assume(t <= N);
	// derivative sampled on N Gauss nodes determines g' (degree N - 1) completely
	DataArray1D<double> G, W, D;
	GaussLobattoQuadrature::GetPoints(N + 2, 0.0, 1.0, G, W);
	FluxCorrectionFunction::GetDerivatives(t, N, G, D);
	vp_check((int)D.GetRows() == N + 2, "one derivative per node");
	// g(x) = int_0^x g': moments of g' by the (exact) rule, degree <= 2N + 1
	double s = 0.0;
	for (int i = 0; i < N + 2; i++) s += W[i] * D[i];
	vp_eq_tol(s, 1.0, 1e-9, "correction function rises from 0 to 1");
	if (t >= 2) vp_eq_tol(D[0], 0.0, 1e-8, "correction function of type two is flat at the far edge");
	// int g p' = [g p] - int g' p  with p = x^(k+1) / (k+1)
	for (int k = 0; k < N - t; k++) {
		double m = 0.0;
		for (int i = 0; i < N + 2; i++) { double p = 1.0; for (int j = 0; j <= k; j++) p *= G[i]; m += W[i] * D[i] * p; }
		vp_eq_tol((1.0 - m) / (k + 1.0), 0.0, 1e-9, "correction function is orthogonal to the lower polynomials");
	}
	// g' is a polynomial of degree N - 1: determined by its first N nodes
	DataArray1D<double> C(N);
	for (int q = N; q < N + 2; q++) {
		PolynomialInterp::LagrangianPolynomialCoeffs(N, G, C, G[q]);
		double v = 0.0;
		for (int i = 0; i < N; i++) v += C[i] * D[i];
		vp_eq_tol(v, D[q], 1e-6, "derivative is a polynomial of the stated degree");
	}
	bool th = false;
	try { FluxCorrectionFunction::GetDerivatives(0, N, G, D); } catch (Exception &) { th = true; }
	vp_check(th, "an invalid type is refused");
}
// any set of nodes: the derivatives come from one polynomial
extern "C" void vc_fluxcorrection_nodes() {
	int N = vp_choice("order", 2, 5);
	DataArray1D<double> G, W, D, X(1), Y, C(N);
	GaussLobattoQuadrature::GetPoints(N, 0.0, 1.0, G, W);
	FluxCorrectionFunction::GetDerivatives(2, N, G, D);
	X[0] = vp_real_in("x", 0.0, 1.0);
	FluxCorrectionFunction::GetDerivatives(2, N, X, Y);
	PolynomialInterp::LagrangianPolynomialCoeffs(N, G, C, X[0]);
	double v = 0.0;
	for (int i = 0; i < N; i++) v += C[i] * D[i];
	vp_eq_tol(v, Y[0], 1e-9, "derivative at any node is that of one polynomial");
}

// ---------------------------------------------------------------- GridGLL
static int g_init;
class GhostGLL : public GridGLL {
public:
	GhostGLL(Model & m) : GridGLL(m) { }
	virtual void InitializeVerticalCoordinate() { g_init++; }
};
extern "C" void c06_opdiff(void *, int, const DataArray1D<double> &, const DataArray1D<double> &) { }
extern "C" void c06_opdiffdiff(void *, int, const DataArray1D<double> &) { }
static char g_mem[sizeof(Model)];
static double g_par[4096];
extern "C" void vc_gll_operators() {
	vp_replace("_ZN19LinearColumnDiffFEM18InitializeGLLNodesEiRK11DataArray1DIdES3_", (void (*)())c06_opdiff);
	vp_replace("_ZN23LinearColumnDiffDiffFEM18InitializeGLLNodesEiRK11DataArray1DIdE", (void (*)())c06_opdiffdiff);
	int n = vp_choice("order", 2, 10);
	Model & m = *(Model *)g_mem;
	GhostGLL * g = new GhostGLL(m);
	g->m_nHorizontalOrder.AttachToData(&g_par[0]);
	g->m_nVerticalOrder.AttachToData(&g_par[1]);
	g->m_eVerticalDiscretization.AttachToData(&g_par[2]);
	g->m_eVerticalStaggering.AttachToData(&g_par[3]);
	g->m_nHorizontalOrder = n;
	g->m_nVerticalOrder = 1;
	g->m_eVerticalDiscretization = +Grid::VerticalDiscretization_FiniteElement;
	g->m_eVerticalStaggering = +Grid::VerticalStaggering_Interfaces;
	g_init = 0;
	g->GridGLL::Initialize();
	vp_check(g_init == 1, "base grid is initialised");
	const DataArray2D<double> & D = g->GetDxBasis1D();
	const DataArray2D<double> & S = g->GetStiffness1D();
	const DataArray1D<double> & w = g->GetGLLWeights1D();
	const DataArray1D<double> & F = g->GetFluxDeriv1D();
	vp_check((int)D.GetRows() == n && (int)D.GetColumns() == n && (int)S.GetRows() == n && (int)S.GetColumns() == n
		&& (int)w.GetRows() == n && (int)F.GetRows() == n, "operators have the size of the horizontal order");
	DataArray1D<double> G, W, FF;
	GaussLobattoQuadrature::GetPoints(n, 0.0, 1.0, G, W);
	FluxCorrectionFunction::GetDerivatives(2, n, G, FF);
	for (int i = 0; i < n; i++) {
		vp_eq_tol(w[i], W[i], 1e-12, "weights are the Gauss-Lobatto weights");
		vp_eq_tol(F[i], FF[i], 1e-9, "flux correction derivatives are those of the horizontal order");
		double s = 0.0;
		for (int k = 0; k < n; k++) {
			// D differentiates x^k exactly at node i
			double v = 0.0, p = 1.0;
			for (int q = 0; q < n; q++) {
				double xk = 1.0;
				for (int r = 0; r < k; r++) xk *= G[q];
				v += D[q][i] * xk;
			}
			for (int r = 0; r + 1 < k; r++) p *= G[i];
			vp_eq_tol(v, k == 0 ? 0.0 : k * p, 1e-10, "derivative operator is exact for every polynomial of its degree");
			// w_m S[m][i] = w_i D[m][i]: discrete integration by parts partner of D
			vp_eq_tol(w[k] * S[k][i], w[i] * D[k][i], 1e-10, "stiffness operator is the weighted adjoint of the derivative operator");
		}
		for (int k = 0; k < n; k++) {
			double b = (i == k) ? ((i == n - 1 ? 1.0 : 0.0) - (i == 0 ? 1.0 : 0.0)) : 0.0;
			vp_eq_tol(w[i] * D[k][i] + w[k] * D[i][k], b, 1e-10, "summation by parts: W D + (W D)^T is the boundary operator");
		}
	}
}
