// Minimal concrete patch and grid on which the real GridPatch / Grid members run
#ifndef VP_PATCH_H
#define VP_PATCH_H
#include "vp.h"
#include "GridPatch.h"
#include "Grid.h"
#include "Model.h"
#include "Exception.h"
#include <new>

class GhostPatch : public GridPatch {
public:
	GhostPatch(Grid & g, int ix, const PatchBox & b) : GridPatch(g, ix, b) { }
	virtual void InitializeCoordinateData() { }
	virtual void EvaluateGeometricTerms() { }
	virtual void EvaluateTestCase(const TestCase &, const Time &, int) { }
	virtual void EvaluateTestCase_Perturbation(const TestCase &, const Time &, int) { }
};
class PlainGrid : public Grid { public: PlainGrid(Model & m) : Grid(m) { } };
static char g_modelmem[sizeof(Model)];
static inline Model & rawmodel() { return *(Model *)g_modelmem; }
static inline Grid * rawgrid() { return new PlainGrid(rawmodel()); }
// fill every element of an attached array with symbols
template <typename A> static void symfill(A & a, double * p, int n, const char * nm) { vp_sym_array(p, n, nm); }
#endif
