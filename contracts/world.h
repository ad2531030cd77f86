// A whole small model grid, built by the real code (patch layout, data allocation,
// connectivity), on which whole-grid operations run with symbolic contents.
#ifndef VP_WORLD_H
#define VP_WORLD_H
#include "mpighost.h"
#include "Model.h"
#include "GridCSGLL.h"
#include "GridCartesianGLL.h"
#include "GridPatchCSGLL.h"
#include "GridPatchCartesianGLL.h"
#include "HorizontalDynamics.h"
#include "TimestepScheme.h"
#include "EquationSet.h"
#include "Exception.h"
#include "CubedSphereTrans.h"

class GhostHD : public HorizontalDynamics {
public:
	int m_nHalo;
	GhostHD(Model & m, int h) : HorizontalDynamics(m), m_nHalo(h) { }
	virtual int GetHaloElements() const { return m_nHalo; }
};
static int w_instances = 2;      // data instances the time scheme asks for
class GhostTS : public TimestepScheme {
public:
	GhostTS(Model & m) : TimestepScheme(m) { }
	virtual int GetComponentDataInstances() const { return w_instances; }
	virtual int GetTracerDataInstances() const { return w_instances; }
	virtual void Step(bool, bool, const Time &, double) { }
};
static Model * wmodel(int eq, int tracers, int halo) {
	EquationSet eqn(eq == 2 ? EquationSet::ShallowWaterEquations : EquationSet::PrimitiveNonhydrostaticEquations);
	for (int t = 0; t < tracers; t++) eqn.InsertTracer("Q", "Tracer");
	Model * m = new Model(eqn);
	m->m_phys.SetEarthRadius(2.0);	// of order one: powers of it must not look like rounding errors
	m->m_pHorizontalDynamics = new GhostHD(*m, halo);
	m->m_pTimestepScheme = new GhostTS(*m);
	return m;
}
static Grid * wcs(Model * m, int npatch, int res, int order, int nr, int vorder, Grid::VerticalStaggering stag) {
	GridCSGLL * g = new GridCSGLL(*m);
	g->DefineParameters();
	g->SetParameters(nr, npatch, res, 4, order, vorder, Grid::VerticalDiscretization_FiniteElement, stag);
	g->InitializeDataLocal();
	m->SetGrid(g, npatch);
	return g;
}
static Grid * wcart(Model * m, int npatch, int ra, int rb, int order, int nr, int vorder, Grid::VerticalStaggering stag, bool pa, bool pb) {
	double dim[6] = {0.0, 1000.0 * ra, -500.0, 800.0 * rb - 500.0, 0.0, 10000.0};
	int per = Grid::BoundaryCondition_Periodic, wall = Grid::BoundaryCondition_NoFlux;
	int bc[4] = {pa ? per : wall, pb ? per : wall, pa ? per : wall, pb ? per : wall};
	GridCartesianGLL * g = new GridCartesianGLL(*m);
	g->DefineParameters();
	g->SetParameters(nr, npatch, ra, rb, 2, order, vorder, dim, 0.5, bc, false, Grid::VerticalDiscretization_FiniteElement, stag);
	g->InitializeDataLocal();
	m->SetGrid(g, npatch);
	return g;
}
#endif
