// Restart files: what a run writes, a later run on any number of processes reads back.
#define GM_OWN
#include "world2.h"
#include "vp.h"
#include "fsghost.h"
#include "OutputManagerComposite.h"
#include "VerticalStretch.h"
#include "TestCase.h"
#include "Exception.h"
#include <string>
#include <new>
#include <unistd.h>

static void runrank(int) { }
// ---- messages to the root and reductions
struct Msg { char * d; int n, tag; };
static Msg q_msg[32]; static int q_n, q_next, q_lifo;
static int q_max[64], q_len; static bool q_collect;	// reduction so far; pass that only contributes to it
static bool q_paused;
static void contribute(const int * a, int n) {
	if (q_len == 0) { for (int i = 0; i < n; i++) q_max[i] = a[i]; q_len = n; return; }
	vp_check(n == q_len, "all processes reduce the same number of values");
	for (int i = 0; i < n; i++) if (a[i] > q_max[i]) q_max[i] = a[i];
}
extern "C" {
int MPI_Barrier(MPI_Comm) { return 0; }
int MPI_Isend(const void * b, int n, MPI_Datatype, int dst, int tag, MPI_Comm, MPI_Request *) {
	vp_check(dst == 0 && gm_rank != 0, "data goes to the root");
	Msg & m = q_msg[q_n++];
	m.d = (char *)malloc(n); memcpy(m.d, b, n); m.n = n; m.tag = tag;
	return 0;
}
int MPI_Recv(void * b, int n, MPI_Datatype, int, int, MPI_Comm, MPI_Status * s) {
	vp_check(gm_rank == 0 && q_next < q_n, "every message received has been sent");
	Msg & m = q_msg[q_lifo ? q_n - 1 - q_next : q_next]; q_next++;
	vp_check(m.n <= n, "the message fits the buffer");
	memcpy(b, m.d, m.n < n ? m.n : n); s->MPI_TAG = m.tag;
	return 0;
}
int MPI_Reduce(const void * a, void * b, int n, MPI_Datatype, MPI_Op, int root, MPI_Comm) {
	if (gm_rank != root) { contribute((const int *)a, n); return 0; }
	vp_check(a == MPI_IN_PLACE, "the root reduces in place");
	contribute((const int *)b, n);
	for (int i = 0; i < n; i++) ((int *)b)[i] = q_max[i];
	return 0;
}
int MPI_Allreduce(const void * a, void * b, int n, MPI_Datatype, MPI_Op, MPI_Comm) {
	if (q_collect) { contribute((const int *)b, n); q_paused = true; _EXCEPTIONT("pause");  }
	vp_check(n == q_len, "all processes reduce the same number of values");
	for (int i = 0; i < n; i++) ((int *)b)[i] = q_max[i];
	return 0;
}
}
extern "C" void c19_short(std::string * r, const Time *) { new (r) std::string("T"); }

static int c_ranks, c_eq, c_nt, c_sphere, c_st;
static Grid * blank(Model * m) { Grid * g = c_sphere ? (Grid *)new GridCSGLL(*m) : (Grid *)new GridCartesianGLL(*m); if (c_sphere) ((GridCSGLL *)g)->DefineParameters(); else ((GridCartesianGLL *)g)->DefineParameters(); return g; }
static void begin() {
	fs_init();
	vp_replace("_ZNK4Time13ToShortStringB5cxx11Ev", (void (*)())c19_short);
	q_n = q_next = q_len = 0; q_collect = false; q_lifo = 1;
}
static OutputManagerComposite * c_om[GM_RANKS];
static void write() {
	q_n = q_next = q_len = 0;
	for (int r = c_ranks - 1; r >= 0; r--) { gm_rank = r; c_om[r]->PerformOutput(g_m[r]->GetCurrentTime()); }
	vp_check(q_next == q_n, "every message is received");
}
// the run that writes
static void original() {
	int order = 2, nr = c_eq == 2 ? 1 : 2;
	gm_init(c_ranks);
	for (int r = 0; r < c_ranks; r++) {
		gm_rank = r;
		g_m[r] = wmodel(c_eq, c_nt, 1);
		Model * m = g_m[r];
		if (c_sphere) {
			GridCSGLL * g = new GridCSGLL(*m);
			g->DefineParameters();
			g->SetParameters(nr, 6, 1, 3, order, 1, Grid::VerticalDiscretization_FiniteElement, (Grid::VerticalStaggering)c_st);
			g->InitializeDataLocal(); g_g[r] = g;
		} else {
			double dim[6] = {0.0, 3000.0, -500.0, 300.0, 0.0, 7000.0};
			int bc[4] = {0, 1, 0, 1};
			GridCartesianGLL * g = new GridCartesianGLL(*m);
			g->DefineParameters();
			bool slice = c_st == (int)Grid::VerticalStaggering_Lorenz;	// else three patches of different size
			g->SetParameters(nr, 3, slice ? 3 : 4, slice ? 1 : 3, 5, order, 1, dim, 0.25, bc, slice, Grid::VerticalDiscretization_FiniteElement, (Grid::VerticalStaggering)c_st);
			g->InitializeDataLocal(); g_g[r] = g;
		}
		Grid * g = g_g[r];
		if (c_eq != 2) g->SetVerticalStretchFunction(new VerticalStretchCubic);
		m->SetGrid(g, c_sphere ? 6 : 3);
		g->m_dZtop = 7000.0; g->m_dReferenceLength = 1.25e6;
		g->m_fHasReferenceState = true; g->m_fHasRayleighFriction = c_sphere == 1; g->m_fHasUniformDiffusion = true;
		g->m_dScalarUniformDiffusionCoeff = 1500.0; g->m_dVectorUniformDiffusionCoeff = 75.0; g->m_iGridStamp = 3;
		c_om[r] = new OutputManagerComposite(*g, Time(), "vpd", "p", "");
	}
}
struct Field { double * d; int n; };
static void add(Field * f, int & k, DataArray1D<double> & a) { f[k].n = a.IsAttached() ? (int)a.GetRows() : 0; f[k].d = f[k].n ? (double *)a.m_data : 0; k++; }
template <class A> static void add(Field * f, int & k, A & a) { f[k].n = a.IsAttached() ? (int)a.GetTotalSize() : 0; f[k].d = f[k].n ? (double *)a.m_data1D : 0; k++; }
// what a run cannot compute again
static int fields(GridPatch * p, Field * f) {
	int k = 0;
	add(f, k, p->m_datavecStateNode[0]); add(f, k, p->m_datavecStateREdge[0]); if (c_nt) add(f, k, p->m_datavecTracers[0]);
	add(f, k, p->m_dataRefStateNode); add(f, k, p->m_dataRefStateREdge); if (c_nt) add(f, k, p->m_dataRefTracers);
	add(f, k, p->m_dataRayleighStrengthNode); add(f, k, p->m_dataRayleighStrengthREdge);
	add(f, k, p->m_dataTopography); add(f, k, p->m_dataTopographyDeriv); add(f, k, p->m_dataZLevels); add(f, k, p->m_dataZInterfaces);
	if (q_lifo) return k;
	add(f, k, p->m_dataJacobian2D); add(f, k, p->m_dataContraMetric2DA); add(f, k, p->m_dataContraMetric2DB); add(f, k, p->m_dataCovMetric2DA); add(f, k, p->m_dataCovMetric2DB);
	add(f, k, p->m_dataJacobian); add(f, k, p->m_dataJacobianREdge); add(f, k, p->m_dataContraMetricA); add(f, k, p->m_dataContraMetricB); add(f, k, p->m_dataContraMetricXi);
	add(f, k, p->m_dataContraMetricAREdge); add(f, k, p->m_dataContraMetricBREdge); add(f, k, p->m_dataContraMetricXiREdge); add(f, k, p->m_dataDerivRNode); add(f, k, p->m_dataDerivRREdge);
	add(f, k, p->m_dataElementAreaNode); add(f, k, p->m_dataElementAreaREdge); add(f, k, p->m_dataCoriolisF);
	return k;
}
static int places(GridPatch * p, Field * f) {
	int k = 0;
	add(f, k, p->m_dataLon); add(f, k, p->m_dataLat); add(f, k, p->m_dANode); add(f, k, p->m_dBNode); add(f, k, p->m_dAEdge); add(f, k, p->m_dBEdge);
	return k;
}
static void times(Time & t) {
	t.m_eCalendarType = (Time::CalendarType)vp_int("calendar", 1, 3);
	t.m_iYear = vp_int("year", 0, 9999); t.m_iMonth = vp_int("month", 0, 11); t.m_iDay = vp_int("day", 0, 27);
	t.m_iSecond = vp_int("second", 0, 86399); t.m_iMicroSecond = vp_int("microsecond", 0, 999999);
}
static bool same(const Time & a, const Time & b) { return a.m_iYear == b.m_iYear && a.m_iMonth == b.m_iMonth && a.m_iDay == b.m_iDay && a.m_iSecond == b.m_iSecond && a.m_iMicroSecond == b.m_iMicroSecond && a.m_eCalendarType == b.m_eCalendarType && a.m_eTimeType == b.m_eTimeType; }
template <class A> static void eqarr(A & a, A & b, const char * what) {
	vp_check(a.GetRows() == b.GetRows(), what);
	for (size_t k = 0; k < a.GetRows(); k++) vp_check(a[k] == b[k], what);
}
static void samegrid(Grid * g, Grid * h) {
#define EQ(x) vp_check(g->x == h->x, "grid parameters are those of the run that wrote the file")
	EQ(m_nMaxPatchCount); EQ(m_nRElements); EQ(m_iGridStamp); EQ(m_eVerticalDiscretization); EQ(m_eVerticalStaggering); EQ(m_nABaseResolution); EQ(m_nBBaseResolution);
	EQ(m_nRefinementRatio); EQ(m_dReferenceLength); EQ(m_dZtop); EQ(m_fHasReferenceState); EQ(m_fHasRayleighFriction); EQ(m_fHasUniformDiffusion);
	EQ(m_dScalarUniformDiffusionCoeff); EQ(m_dVectorUniformDiffusionCoeff); EQ(m_nInitializedPatchBoxes);
	for (int i = 0; i < 4; i++) EQ(m_eBoundaryCondition[i]);
	GridGLL * a = (GridGLL *)g, * b = (GridGLL *)h;
	vp_check(a->m_nHorizontalOrder == b->m_nHorizontalOrder && a->m_nVerticalOrder == b->m_nVerticalOrder, "orders are those of the run that wrote the file");
	vp_check(a->GetIsCartesianXZ() == b->GetIsCartesianXZ(), "an XZ slice stays one");
	if (!c_sphere) {
		GridCartesianGLL * c = (GridCartesianGLL *)g, * d = (GridCartesianGLL *)h;
		for (int i = 0; i < 6; i++) vp_check(c->m_dGDim[i] == d->m_dGDim[i], "extents are those of the run that wrote the file");
		vp_check(c->m_dRefLat == d->m_dRefLat, "reference latitude is that of the run that wrote the file");
	}
	const char * v = "the vertical coordinate is that of the run that wrote the file, stretching included";
	eqarr(g->m_dREtaLevels, h->m_dREtaLevels, v); eqarr(g->m_dREtaInterfaces, h->m_dREtaInterfaces, v); eqarr(g->m_dREtaLevelsNormArea, h->m_dREtaLevelsNormArea, v);
	eqarr(g->m_dREtaInterfacesNormArea, h->m_dREtaInterfacesNormArea, v); 
	if (c_eq != 2) { eqarr(g->m_dREtaStretchLevels, h->m_dREtaStretchLevels, v); eqarr(g->m_dREtaStretchInterfaces, h->m_dREtaStretchInterfaces, v); }
	eqarr(g->m_vecVarLocation, h->m_vecVarLocation, "variables are stored where they were"); eqarr(g->m_vecVarIndex, h->m_vecVarIndex, "variables are stored where they were"); eqarr(g->m_vecVarsAtLocation, h->m_vecVarsAtLocation, "variables are stored where they were");
	vp_check(h->m_fInitialized, "the grid is ready");
}
static void cfg() {
	c_sphere = vp_choice("sphere", 0, 1);
	c_eq = vp_choice("equations", 0, 1) ? 2 : 0; c_nt = c_eq == 2 ? 0 : vp_choice("tracers", 0, 2);
	c_st = c_eq == 2 ? (int)Grid::VerticalStaggering_Levels : vp_choice("lorenz", 0, 1) ? (int)Grid::VerticalStaggering_Lorenz : (int)Grid::VerticalStaggering_Levels;
	c_ranks = vp_choice("writers", 1, 3);
}
extern "C" void vc_restart() {
	begin(); cfg();
	int readers = vp_choice("readers", 1, 3);
	q_lifo = vp_choice("order", 0, 1);
	int pert = q_lifo;
	original();
	Time now; times(now);
	for (int r = 0; r < c_ranks; r++) g_m[r]->m_time = now;
	int np = g_g[0]->GetPatchCount();
	GridPatch * was[8];
	Field f[40], h[40];
	for (int n = 0; n < np; n++) {
		was[n] = patch(n);
		int k = fields(was[n], f);
		for (int a = 0; a < k; a++) if (f[a].n) vp_sym_array(f[a].d, f[a].n, "data");
	}
	Grid * g0 = g_g[0];
	write();
	for (int n = 0; n < np; n++) vp_check(patch(n) == was[n], "writing changes nothing");
	// the run that reads
	q_len = 0;
	gm_init(readers);
	int seen[8];
	for (int n = 0; n < np; n++) seen[n] = 0;
	for (int pass = 0; pass < 2; pass++) {
		q_collect = pass == 0;
		for (int r = 0; r < readers; r++) {
			gm_rank = r;
			Model * m = wmodel(c_eq, c_nt, 1);
			Grid * g = blank(m);
			q_paused = false; bool paused = false;
			try { m->SetGridFromRestartFile(g, "vpd/p.T.restart.dat", pert == 1); } catch (Exception &) { paused = q_paused; fs_mode = 0; if (pass) vp_check(false, "the file is accepted"); }
			if (pass == 0) { vp_check(paused, "the sizes of patches are agreed upon"); continue; }
			vp_check(same(m->GetCurrentTime(), now) && same(m->m_timeStart, now), "the run continues at the time of the file");
			vp_check(m->m_pGrid == g && m->m_fGridFromRestartFile && m->m_fRestartPerturbation == (pert == 1), "the model knows it was restarted");
			samegrid(g0, g);
			vp_check(g->GetPatchCount() == np, "all patches are known");
			for (int i = 0; i < g->GetActivePatchCount(); i++) {
				GridPatch * p = g->GetActivePatch(i);
				int n = p->GetPatchIndex();
				seen[n]++;
				int k = fields(was[n], f), k2 = fields(p, h);
				for (int a = 0; a < k; a++) { vp_check(f[a].n == h[a].n, "sizes agree"); for (int e = 0; e < f[a].n; e++) vp_eq(h[a].d[e], f[a].d[e], "every value is the one written"); }
				k = places(was[n], f); places(p, h);
				for (int a = 0; a < k; a++) { vp_check(f[a].n == h[a].n, "sizes agree"); for (int e = 0; e < f[a].n; e++) vp_check(h[a].d[e] == f[a].d[e], "nodes are where they were"); }
			}
		}
	}
	for (int n = 0; n < np; n++) vp_check(seen[n] == 1, "every patch is on one process");
	vp_reach("done");
}

// files that no run wrote, or not completely, are refused
static bool reads(int ranks, const char * name) {
	bool refused = false;
	for (int pass = 0; pass < 2 && !refused; pass++) {
		q_collect = pass == 0; if (pass == 0) q_len = 0;
		gm_init(ranks);
		for (int r = 0; r < ranks && !refused; r++) {
			gm_rank = r;
			Model * m = wmodel(c_eq, c_nt, 1);
			Grid * g = blank(m);
			q_paused = false;
			try { m->SetGridFromRestartFile(g, name, false); } catch (Exception &) { refused = !q_paused; fs_mode = 0; }
		}
	}
	return !refused;
}
extern "C" void vc_restart_refuse() {
	begin();
	c_sphere = 0; c_eq = 0; c_nt = vp_choice("tracers", 0, 1); c_st = (int)Grid::VerticalStaggering_Lorenz;
	c_ranks = vp_choice("writers", 1, 2);
	int readers = vp_choice("readers", 1, 2), what = vp_choice("what", 0, 8);
	original();
	Time now(2001, 1, 1, 0, 0);
	for (int r = 0; r < c_ranks; r++) g_m[r]->m_time = now;
	write();
	if (what == 0) vp_check(reads(readers, fs_real), "the file as written is accepted");
	if (what == 1) vp_check(!reads(readers, "vpd/q.T.restart.dat"), "a file that is not there is refused");
	if (what == 2) { fs_spoil(); vp_check(!reads(readers, fs_real), "a file of another kind is refused"); }
	if (what >= 3 && what <= 8) {
		int n = fs_size();
		fs_cut(what == 3 ? 0 : what == 4 ? 20 : what == 5 ? 100 : what == 6 ? n / 2 : what == 7 ? n - 2000 : n - 1);
		vp_check(!reads(readers, fs_real), "an incomplete file is refused");
	}
	vp_reach("done");
}
extern "C" void vc_output_refuse() {
	begin();
	c_sphere = 0; c_eq = 2; c_nt = 0; c_st = (int)Grid::VerticalStaggering_Levels; c_ranks = 1;
	int what = vp_choice("what", 0, 2);
	original();
	gm_rank = 0;
	OutputManagerComposite & o = *c_om[0];
	bool refused = false;
	if (what) o.m_fIsFileOpen = o.OpenFile("vpd/p.T");
	if (what == 2) o.m_ixOutputTime = 1;
	try { o.Output(Time()); } catch (Exception &) { refused = true; }
	vp_check(refused == (what != 1), "one output goes into one open file");
	vp_reach("done");
}
// a test case supplies what the file does not hold, and nothing else
static int s_c[4], s_n; static Time s_t;
static double s_v[4];
static void called(int k, const Time & t) { vp_check(s_n < 4, "few calls"); s_c[s_n++] = k; s_t = t; }
struct SGrid : public LayoutGrid {
	SGrid(Model & m) : LayoutGrid(m) { }
	virtual void EvaluateTestCase(const TestCase &, const Time & t, int) { called(2, t); }
};
extern "C" void c19_perturb(Grid *, const TestCase *, const Time * t, int) { called(3, *t); }
struct STest : public TestCase {
	virtual int GetEquationSetId() const { return 0; }
	virtual bool HasReferenceState() const { return true; }
	virtual void EvaluatePhysicalConstants(PhysicalConstants & p) const { called(1, Time()); p.SetG(s_v[0]); p.SetOmega(s_v[1]); p.SetEarthRadius(s_v[2]); p.SetR(s_v[3]); }
	virtual double EvaluateTopography(const PhysicalConstants &, double, double) const { return 0; }
	virtual void EvaluatePointwiseState(const PhysicalConstants &, const Time &, double, double, double, double *, double *) const { }
};
extern "C" void vc_settestcase() {
	gm_init(1);
	Model * m = wmodel(0, 0, 1);
	Grid * g = new SGrid(*m);
	vp_replace("_ZN4Grid29EvaluateTestCase_PerturbationERK8TestCaseRK4Timei", (void (*)())c19_perturb);
	m->m_pGrid = g;
	m->m_fGridFromRestartFile = vp_choice("restart", 0, 1); m->m_fRestartPerturbation = vp_choice("perturb", 0, 1);
	times(m->m_timeStart);
	for (int i = 0; i < 4; i++) s_v[i] = vp_real_in("constant", 1, 9);
	s_n = 0;
	STest * t = new STest;
	m->SetTestCase(t);
	vp_check(m->m_pTestCase == t, "the test case is attached");
	const PhysicalConstants & p = m->GetPhysicalConstants();
	vp_eq(p.GetG(), s_v[0], "constants of the test case are in force"); vp_eq(p.GetOmega(), s_v[1], "constants of the test case are in force");
	vp_eq(p.GetEarthRadius(), s_v[2], "constants of the test case are in force"); vp_eq(p.GetR(), s_v[3], "constants of the test case are in force");
	vp_check(s_n > 0 && s_c[0] == 1, "constants come first");
	int n = 0;
	for (int i = 0; i < s_n; i++) if (s_c[i] != 1) { n++; vp_check(s_c[i] == (m->m_fGridFromRestartFile ? 3 : 2), "a restarted state is not initialised again"); vp_check(same(s_t, m->m_timeStart), "the state is that of the start"); }
	vp_check(n == (m->m_fGridFromRestartFile ? (m->m_fRestartPerturbation ? 1 : 0) : 1), "the state is initialised once, or perturbed if asked for");
	vp_reach("done");
}
