// The model loop: times, steps, outputs and workflow processes.
// Times enter by their contract (C01): an instant (held in m_iSecond) that additions,
// differences and comparisons act on.  The loop over steps is cut by an invariant, so
// the number of steps is arbitrary.
#include "world.h"
#include "vp.h"
#include "VerticalDynamicsStub.h"
#include "OutputManager.h"
#include "WorkflowProcess.h"
#include "TestCase.h"
#include "FunctionTimer.h"
#include "TimeObj.h"
#include <new>

extern "C" void c18_addtime(Time * t, const Time * d) { t->m_iSecond += d->m_iSecond; }
extern "C" bool c18_lt(const Time * a, const Time * b) { return a->m_iSecond < b->m_iSecond; }
extern "C" bool c18_eq(const Time * a, const Time * b) { return a->m_iSecond == b->m_iSecond; }
extern "C" double c18_minus(const Time * a, const Time * b) { return (double)(a->m_iSecond - b->m_iSecond); }
static int r_named;		// instant a file name was made from
extern "C" void c18_string(std::string * r, const Time * t) { new (r) std::string("time"); }
extern "C" void c18_short(std::string * r, const Time * t) { r_named = t->m_iSecond; new (r) std::string("T"); }
extern "C" void c18_timer(FunctionTimer * t, const char *) { new (&t->m_strGroup) std::string(); }
extern "C" unsigned long c18_stop(FunctionTimer *) { return 0; }
static int r_geo, r_bc;
extern "C" void c18_geo(Grid *) { r_geo++; }
extern "C" void c18_bc(Grid *, int, DataType) { r_bc++; }

struct Run {
	Model * m; OutputManager * om; WorkflowProcess * wp;
	int start, end, dt, freq, wfreq, per;
	int now, steps, begun;		// time reached, steps done so far (0 or more), run begun
	int due, wdue;				// next output, next workflow activation
	int want, did, wwant, wdid;	// activity asked for since the last step and seen
	int infile, open, inits, finished;
};
static Run r;
static void run_reset(Model * m) {
	r.m = m; r.om = NULL; r.wp = NULL;
	r.start = r.end = r.dt = r.freq = r.wfreq = r.per = 0;
	r.now = r.steps = r.begun = r.due = r.wdue = 0;
	r.want = r.did = r.wwant = r.wdid = 0;
	r.infile = r.open = r.inits = r.finished = 0;
}

class GhostOut : public OutputManager {
public:
	GhostOut(Grid & g, const Time & f, int n) : OutputManager(g, f, "D", "P", n) { }
	virtual bool OpenFile(const std::string & s) {
		vp_check(!r.open, "a file is opened only when none is open");
		vp_check(s == "D/P.T" && r_named == r.now, "the file is named after the time of its first output");
		r.open = 1; r.infile = 0;
		return true;
	}
	virtual void CloseFile() {
		vp_check(r.open && r.infile == r.per, "a file is closed when it has its number of outputs");
		r.open = 0;
	}
	virtual void Output(const Time & t) {
		vp_check(t.m_iSecond == r.now, "output is for the time reached");
		vp_check(r.open == 1, "output goes to an open file");
		r.did++; r.infile++;
		vp_check(r.did <= 1, "one output at a time");
	}
};
class GhostWork : public WorkflowProcess {
public:
	GhostWork(Model & m, const Time & f) : WorkflowProcess(m, f) { }
	virtual void Initialize(const Time & t) {
		vp_check(t.m_iSecond == r.start && r.steps == 0, "processes start with the run");
		r.inits++;
		WorkflowProcess::Initialize(t);
	}
	virtual void Perform(const Time & t) {
		vp_check(t.m_iSecond == r.now, "a process runs at the time reached");
		r.wdid++;
		WorkflowProcess::Perform(t);
	}
};
// what must have happened up to the start of a step
static void settle() {
	vp_check(r.did == r.want, "output exactly when due");
	vp_check(r.wdid == r.wwant, "processes run exactly when due");
	r.did = r.wdid = 0;
}
class GhostStep : public GhostTS {
public:
	int inits;
	GhostStep(Model & m) : GhostTS(m), inits(0) { }
	virtual void Initialize() { inits++; vp_check(r_geo == 1, "the geometry is known before the dynamics start"); }
	virtual void Step(bool first, bool last, const Time & t, double dt) {
		settle();
		vp_check(!r.finished, "no step after the last");
		vp_check(t.m_iSecond == r.now, "a step starts where the previous one ended");
		vp_check(first == (r.begun == 0), "the first step and only it is marked first");
		int left = r.end - r.now;
		int len = left <= r.dt ? left : r.dt;
		vp_check(dt == (double)len, "every step has the length asked for, the last one what is left");
		vp_check(last == (left <= r.dt), "the last step and only it is marked last");
		r.now += len; r.begun = 1;
		r.finished = left <= r.dt;
		r.want = r.om && (r.finished || (r.freq != 0 && r.now >= r.due));
		if (r.want && !r.finished) r.due += r.freq;
		r.wwant = r.wfreq != 0 && r.now >= r.wdue;
		if (r.wwant) r.wdue += r.wfreq;
	}
};
static int run_inv(void * p) {
	Run * g = (Run *)p;
	if (g->m->m_time.m_iSecond != g->now || g->now >= g->end || g->now < g->start) return 0;
	if (g->om->m_timeNextOutput.m_iSecond != g->due || g->wp->m_timeNextPerform.m_iSecond != g->wdue) return 0;
	if (g->om->m_fIsFileOpen != (g->open == 1)) return 0;
	if (g->open != 0 && g->open != 1) return 0;
	if (g->open ? (g->om->m_ixOutputTime != g->infile || g->infile == g->per || g->infile < 1 || g->infile > 1000000 + (g->now - g->start)) : g->om->m_ixOutputTime != 0) return 0;
	if (g->om->m_timeLastOutput.m_iSecond >= g->end) return 0;
	if (g->finished != 0 || g->did != g->want || g->wdid != g->wwant) return 0;
	if (g->want < 0 || g->want > 1 || g->wwant < 0 || g->wwant > 1) return 0;
	if (g->begun != 0 && g->begun != 1) return 0;
	if (g->begun == 0 && g->now != g->start) return 0;
	return 1;
}
static int run_cand(void * p, int k) {
	Run * g = (Run *)p;
	if (k == 0) return g->begun == 0;
	return g->now;
}
class NoCase : public TestCase {
public:
	virtual void EvaluatePointwiseState(const PhysicalConstants &, const Time &, double, double, double, double *, double *) const { vp_check(false, "running does not evaluate the test case"); }
};
static void callees() {
	vp_replace("_ZN4Time7AddTimeERKS_", (void (*)())c18_addtime);
	vp_replace("_ZNK4TimeltERKS_", (void (*)())c18_lt);
	vp_replace("_ZNK4TimeeqERKS_", (void (*)())c18_eq);
	vp_replace("_ZNK4TimemiERKS_", (void (*)())c18_minus);
	vp_replace("_ZNK4Time8ToStringB5cxx11Ev", (void (*)())c18_string);
	vp_replace("_ZNK4Time13ToShortStringB5cxx11Ev", (void (*)())c18_short);
	vp_replace("_ZN13FunctionTimerC1EPKc", (void (*)())c18_timer);
	vp_replace("_ZN13FunctionTimer8StopTimeEv", (void (*)())c18_stop);
	vp_replace("_ZN4Grid22EvaluateGeometricTermsEv", (void (*)())c18_geo);
	vp_replace("_ZN4Grid23ApplyBoundaryConditionsEi8DataType", (void (*)())c18_bc);
}
static Time at(int s) { Time t(0, 0, 0, 0, 0, Time::CalendarNoLeap); t.m_iSecond = s; return t; }
static void runrank(int) { }
static Model * scene(int restart) {
	gm_init(1);
	FunctionTimer::m_mapGroupData.clear();
	callees();
	r_geo = r_bc = 0;
	Model * m = new Model(EquationSet(EquationSet::ShallowWaterEquations));
	GridCartesianGLL * g = new GridCartesianGLL(*m);
	m->m_pGrid = g;
	m->m_pTimestepScheme = new GhostStep(*m);
	m->m_pHorizontalDynamics = new GhostHD(*m, 1);
	m->m_pVerticalDynamics = new VerticalDynamicsStub(*m);
	m->m_pTestCase = new NoCase();
	if (!restart) FunctionTimer::m_mapGroupData["Communicate"];	// the initial state has been communicated; read from a file it has not
	return m;
}
extern "C" void vc_run() {
	int restart = vp_choice("restart", 0, 1), rolling = vp_choice("files", 0, 2);
	Model * m = scene(restart);
	run_reset(m);
	r.start = vp_int("start", 1, 1000000); r.dt = vp_int("dt", 1, 100000);
	r.freq = vp_int("outputevery", 0, 1000000); r.wfreq = vp_int("processevery", 0, 1000000);
	int span = vp_int("span", -10, 1000000);
	r.end = r.start + span;
	r.per = rolling == 0 ? -1 : rolling == 1 ? 1 : vp_int("perfile", 2, 100);
	m->m_timeStart = at(r.start); m->m_timeEnd = at(r.end); m->m_timeDeltaT = at(r.dt);
	GhostOut * om = new GhostOut(*m->m_pGrid, at(r.freq), r.per); r.om = om;
	om->m_fFromRestartFile = restart;
	GhostWork * wp = new GhostWork(*m, at(r.wfreq)); r.wp = wp;
	m->AttachOutputManager(om); m->AttachWorkflowProcess(wp);
	r.now = r.start; r.due = r.start + r.freq; r.wdue = r.start + r.wfreq;
	r.want = !restart;
	vp_loop("5Model2GoEv!", run_inv, &r, 2, run_cand);
	m->Go();
	vp_reach("finished");
	if (span <= 0) {
		vp_check(!r.begun && r.did == 0 && r.inits == 0, "nothing happens if the end is not after the start");
		return;
	}
	vp_check(r.now == r.end && r.finished, "the run ends at the end time");
	settle();
	vp_check(m->m_time.m_iSecond == r.end, "the model's time is the end time");
	vp_check(r.inits == 1, "processes are initialised once");
	vp_check(r_geo == 1, "geometric terms are evaluated once");
}
// substeps see the time, length and flags of their step
static int q_first, q_last, q_sub, q_n, q_t; static double q_dt;
class SubStepper : public GhostTS {
public:
	SubStepper(Model & m) : GhostTS(m) { }
	virtual int SubStep(bool f, bool l, const Time & t, double dt, int i) { q_first = f; q_last = l; q_t = t.m_iSecond; q_dt = dt; q_sub = i; q_n++; return 0; }
};
extern "C" void vc_substep() {
	Model * m = scene(0);
	m->m_pTimestepScheme = new SubStepper(*m);
	int now = vp_int("now", 1, 1000000), left = vp_int("left", 1, 1000000), dt = vp_int("dt", 1, 1000000), f = vp_choice("first", 0, 1), l = vp_choice("last", 0, 1), k = vp_int("substep", 0, 20);
	m->m_time = at(now); m->m_timeEnd = at(now + left); m->m_timeDeltaT = at(dt);
	q_n = 0;
	m->SubStep(f, l, k);
	vp_check(q_n == 1 && q_t == now && q_sub == k && q_first == f, "a substep belongs to the step");
	vp_check(q_dt == (double)(left <= dt ? left : dt), "substeps are told the length of the step");
	vp_check(q_last == (l || left <= dt), "substeps of the last step are marked");
	vp_check(m->m_time.m_iSecond == now, "a substep does not advance the time");
}
// incomplete models are refused before anything happens
extern "C" void vc_run_refuse() {
	Model * m = scene(0);
	int what = vp_choice("missing", 0, 6);
	run_reset(m); r.start = 10; r.end = 20; r.dt = 5; r.now = 10; r.per = -1; r.due = r.wdue = 10;
	m->m_timeStart = at(10); m->m_timeEnd = at(20); m->m_timeDeltaT = at(what == 5 ? 0 : 5);
	r.want = 0;
	if (what == 0) m->m_pGrid = NULL;
	if (what == 1) m->m_pTimestepScheme = NULL;
	if (what == 2) m->m_pHorizontalDynamics = NULL;
	if (what == 3) m->m_pVerticalDynamics = NULL;
	if (what == 4) m->m_pTestCase = NULL;
	bool thrown = false;
	try { m->Go(); } catch (Exception &) { thrown = true; }
	vp_check(thrown == (what < 6), "models without a part or without a time step do not run");
	if (what < 6) vp_check(!r.begun, "no step is taken by an incomplete model");
	else vp_check(r.finished, "without output managers the model runs");
}
