prop('C01', 'Calendar arithmetic is exact and keeps dates normalised',
 'Adding seconds, days, months, years or another duration to a time, constructing a time, and normalising any combination of fields always yields the unique valid date of its calendar that denotes the same instant, with every field in range (month lengths and leap years as the standard Gregorian or no-leap calendar defines them). The difference of two times is their exact distance in seconds, the order comparisons agree with that distance, and times of different calendars cannot be ordered or subtracted.',
 ['inputs'], 'all field values (positive, negative, overflowing), both calendars, dates and durations',
 'The tests run a few short simulations from one start date with positive whole-second increments; month/leap-year carries, negative increments and sub-second carries are hardly exercised.',
 ['src/base/TimeObj.cpp', 'src/base/TimeObj.h'], [('Time::NormalizeTime', 'src/base/TimeObj.cpp'), ('Time::AddTime/AddSeconds/AddDays/AddMonths/AddYears', 'src/base/TimeObj.cpp'), ('Time::operator-', 'src/base/TimeObj.cpp'), ('Time comparison operators', 'src/base/TimeObj.cpp')],
 'NormalizeTime is proved for every field value by loop contracts (invariants on all carry loops) and its callers against its contract; machine ints are mathematical with absence of overflow proved for increments stated in the contracts.')
prop('C02', 'Time text forms round-trip and malformed text is refused',
 'The long, short and formatted strings written for a valid time denote exactly that time: parsing the written string gives back an equal time, and every printed field has its fixed width and value. Parsing a free-form duration made of year, month, day, hour, minute and second items yields exactly that duration, and text whose fields are out of range or malformed is refused with an exception.',
 ['inputs'], 'all valid times in both calendars; all digit strings of the stated forms',
 'Tests pass one or two literal date strings; restart file names and attributes of arbitrary dates rely on the round trip.',
 ['src/base/TimeObj.cpp', 'src/base/TimeObj.h'], [('Time::ToLongString/ToShortString/ToDateString/ToString', 'src/base/TimeObj.cpp'), ('Time::FromLongString/FromFormattedString', 'src/base/TimeObj.cpp')],
 'Text is symbolic character by character at the lengths the formats fix; numbers of digits in free-form items are bounded by the contract.')
prop('C07', 'Sphere and panel coordinates denote the same point',
 'Converting between longitude/latitude, Cartesian, gnomonic and equiangular panel coordinates, and from one panel to another, always yields coordinates of the same point of the sphere; every point is assigned a panel inside whose bounds it lies, longitudes come out in [0, 2 pi] and latitudes in [-pi/2, pi/2], and conversions to a panel the point cannot be seen from, or with an invalid panel number, are refused. Cell areas are additive, scale with the square of the radius, and the six panels together cover the sphere exactly once; the reported angle between grid lines is the true one.',
 ['inputs'], 'all points of the sphere and all six panels',
 'Tests sample fixed low-resolution grids and only look at integrated output; single-panel sign or branch errors near poles and panel edges survive.',
 ['src/atm/CubedSphereTrans.cpp', 'src/atm/CubedSphereTrans.h'], [('CubedSphereTrans::RLLFromXYP, XYPFromRLL, XYPFromXYP, XYZFromXYP, ABPFromRLL, RLLFromABP', 'src/atm/CubedSphereTrans.cpp'), ('GnomonicElementArea, GnomonicGridAngle', 'src/atm/CubedSphereTrans.h')],
 'The sphere geometry oracle is an independent table of panel axes (contracts/sphere.h). Points within 1e-9 of the polar panels\' central meridian are covered by a separate contract on the axis itself.')
prop('C08', 'Vector components transform without changing the vector',
 'Transforming a horizontal vector or covector between east/north components and panel-aligned components, in either direction and on any panel, yields components of the same geometric vector, at every point including the poles, so that transforming there and back is the identity. Invalid panel numbers are refused.',
 ['inputs'], 'all points of all panels and all component values',
 'Tests run solid-body-like initial data and inspect only that runs complete; a wrong component on one panel or at a pole is not detected.',
 ['src/atm/CubedSphereTrans.cpp', 'src/atm/CubedSphereTrans.h'], [('VecTransABPFromRLL, VecTransRLLFromABP, CoVecTransABPFromRLL, CoVecTransRLLFromABP', 'src/atm/CubedSphereTrans.cpp')],
 'Oracle: tangent vectors of the independent panel parametrisation in contracts/sphere.h.')
prop('C15', 'Physical constants and thermodynamic conversions stay consistent',
 'Whatever physical constants are set and in whatever order, the derived gas constant, heat capacities and ratios stay mutually consistent, and conversions between rho-theta, pressure and Exner pressure are exact inverses of each other that satisfy the equation of state.',
 ['inputs', 'configurations'], 'all positive constants and state values, any order of setter calls',
 'Tests only use the default constants.',
 ['src/atm/PhysicalConstants.h'], [('setters and conversions', 'src/atm/PhysicalConstants.h')],
 'Real powers are handled algebraically (laws of exponents on positive bases).')
prop('C09', 'Cubed-sphere panel adjacency and reorientation are consistent',
 'The panel reached across each edge, the direction leading back, the element or node index reached by stepping over an edge at any resolution, and the reported axis swaps and reversals all describe the actual geometry of the cube, so that stepping over an edge and back returns to the start; indices beyond a panel corner belong to no panel. Vector and covector components carried across an edge to the neighbouring panel denote the same geometric vector, and requests between panels that share no edge, or with invalid panels or directions, are refused.',
 ['inputs', 'configurations'], 'all panels, directions, indices and grid resolutions; all points seen from both panels and all component values',
 'Tests run one or two low resolutions with smooth fields; a wrong orientation on one of the 24 edges only degrades the solution locally.',
 ['src/atm/CubedSphereTrans.cpp', 'src/atm/CubedSphereTrans.h', 'src/atm/Direction.cpp', 'src/atm/GridCSGLL.cpp'], [('CubedSphereTrans::RelativePanel, RelativeCoord, PanelFromDirection, DirectionFromPanel, OpposingDirection, VecPanelTrans, CoVecPanelTrans', 'src/atm/CubedSphereTrans.cpp'), ('GridCSGLL::GetOpposingDirection', 'src/atm/GridCSGLL.cpp'), ('DirectionOpposite, DirectionIncrement', 'src/atm/Direction.cpp')],
 'Oracle: the integer panel axes of contracts/sphere.h. Indices more than one panel width beyond an edge are outside the contract.')
prop('C03', 'Every time stepping scheme attains its order of accuracy',
 'One step of each selectable scheme agrees with the exact solution of the split system (horizontal explicit + vertical explicit + vertical implicit tendencies) to the order of that scheme, for state and tracers alike and for any right-hand side: forward Euler 1; RK4 4; SSP3, KGU35 and SSPRK53 3; ARS343 and ARS343b 3; ARS443 3; ARS222, ARS232, ARK232, GARK2 and SSP3(332) 2; Strang splitting 2 between the first and last steps and 1 on the first step or when off-centred; split-explicit 3 in each of its parts. Stages only use data computed in the current step, tendencies are evaluated on data made continuous across elements, the new value ends in instance 0, and diffusion is applied exactly once with the full time step.',
 ['inputs', 'configurations'], 'all right-hand sides (through order conditions on coloured rooted trees), all step sizes, first/interior/last steps, all scheme variants',
 'Tests run a few steps with loose output checks; a wrong coefficient, stage index or a forgotten tracer copy only reduces the order of convergence, which no test measures.',
 ['src/atm/TimestepSchemeERK.cpp', 'src/atm/TimestepSchemeStrang.cpp', 'src/atm/TimestepSchemeARS222.cpp', 'src/atm/TimestepSchemeARS232.cpp', 'src/atm/TimestepSchemeARS343.cpp', 'src/atm/TimestepSchemeARS343b.cpp', 'src/atm/TimestepSchemeARS443.cpp', 'src/atm/TimestepSchemeARK232.cpp', 'src/atm/TimestepSchemeGARK2.cpp', 'src/atm/TimestepSchemeSSP3332.cpp', 'src/atm/TimestepSchemeSplitExp.cpp'],
 [('Step of every TimestepScheme subclass', 'src/atm/TimestepScheme*.cpp')],
 'Grid::CopyData/LinearCombineData and the dynamics classes are replaced by contracts acting on ghost coefficients (real behaviour: C04, C11, C12). Split-explicit substeps are unrolled (bounded). TimestepSchemeARK4 is not selectable and not covered.')
prop('C05', 'Quadrature rules and Legendre polynomials are exact to their degree',
 'The n-point Gauss rule integrates every polynomial of degree 2n-1 exactly and the n-point Gauss-Lobatto rule every polynomial of degree 2n-3, to rounding, for every number of points and on every interval; nodes come sorted and symmetric (interior for Gauss, including both end points for Gauss-Lobatto) with positive symmetric weights, and too few points are refused. Legendre polynomial values, derivatives, roots, roots of the derivative and cardinal functions are those of the Legendre polynomial of the given degree, with roots sorted and distinct, and root indices out of range are refused.',
 ['inputs', 'configurations'], 'all tabulated numbers of points and the iteratively computed ones up to the stated bound; all intervals; all arguments',
 'Tests use one horizontal and a few vertical orders; a wrong digit or a wrong table for another order passes them.',
 ['src/base/GaussQuadrature.cpp', 'src/base/GaussLobattoQuadrature.cpp', 'src/base/LegendrePolynomial.cpp'], [('GaussQuadrature::GetPoints', 'src/base/GaussQuadrature.cpp'), ('GaussLobattoQuadrature::GetPoints', 'src/base/GaussLobattoQuadrature.cpp'), ('LegendrePolynomial', 'src/base/LegendrePolynomial.cpp')],
 'The tabulated rules (1..10 points) are a finite domain decided completely; larger rules are bounded. Exactness to a relative 1e-12.')
prop('C06', 'Interpolation and differentiation coefficients are exact',
 'The Lagrange coefficients for any distinct nodes and any sample point, at a node or not, are exactly the values of the Lagrange basis polynomials there, and the first, second and third differential coefficients exactly their derivatives, so that every polynomial of degree below the number of nodes is interpolated and differentiated exactly. Flux correction functions have their stated degree, end values, flatness and orthogonality. The horizontal element operators of every order differentiate polynomials exactly and satisfy summation by parts with the Gauss-Lobatto weights, the stiffness operator being the weighted adjoint of the derivative operator.',
 ['inputs', 'configurations'], 'all distinct node positions and sample points for each number of nodes up to the stated bound; horizontal orders 2 to 10; correction functions of types 1 to 3 and orders 1 to 8',
 'Tests run fourth order elements, whose operators are hard-coded; other orders, second and third derivatives and samples at a node are not checked against anything.',
 ['src/base/PolynomialInterp.cpp', 'src/atm/FluxCorrectionFunction.cpp', 'src/atm/GridGLL.cpp'], [('PolynomialInterp::*LagrangianPolynomialCoeffs, Interpolate', 'src/base/PolynomialInterp.cpp'), ('FluxCorrectionFunction::GetDerivatives', 'src/atm/FluxCorrectionFunction.cpp'), ('GridGLL::Initialize', 'src/atm/GridGLL.cpp')],
 'Node positions and samples are symbolic reals at least 1e-6 apart; the number of nodes is enumerated (bounded). LAPACK dgesv is an assumed contract. PolynomialInterp::InterpolateCoeffs is unused and not covered.')
prop('C04', 'Whole-state copy, zero and linear combination are exact',
 'Copying, zeroing or linearly combining state instances acts on every patch, on level and interface data alike (or on tracers when tracer data is asked for), gives exactly the stated combination of the old contents (the target instance contributing with its own weight, instances of weight zero contributing nothing whatever they hold), and changes no other instance, data type or patch. Adding the reference state adds it exactly once. Invalid instance indices, too many weights and unsupported data types are refused with nothing changed.',
 ['inputs', 'configurations'], 'all contents and weights, all source and target instances, any pattern of zero weights',
 'Every time step is built from these operations, but the tests only see the end result of a few schemes and never a model without tracers, a zero weight over uninitialised data, or a bad index.',
 ['src/atm/Grid.cpp', 'src/atm/GridPatch.cpp', 'src/base/DataArray4D.h'], [('Grid::CopyData, LinearCombineData, ZeroData, AddReferenceState', 'src/atm/Grid.cpp'), ('GridPatch::CopyData, LinearCombineData, ZeroData, AddReferenceState', 'src/atm/GridPatch.cpp'), ('DataArray4D::Assign, Scale, AddProduct, Zero', 'src/base/DataArray4D.h')],
 'Array extents and the number of instances are fixed by the contract (bounded); contents and weights are symbolic.')

prop('C14', 'Halo exchange delivers every neighbour value exactly once',
 'After an exchange of any data type, on any patch layout and distribution of patches over processes and whatever order messages arrive in, every halo node holds the value of the interior node that stands at the same place (across patch, panel and periodic boundaries, corners within a panel included), for every exchanged component and level, and nothing else changes: interiors, halo nodes with no counterpart, components held elsewhere, other instances. Repeated exchanges work alike. Requests with an invalid instance, data type or patch, or with more data than the message holds, and messages with unknown blocks are refused; blocked exchanges do nothing.',
 ['inputs', 'configurations', 'schedules'], 'all field contents; layouts of 6, 10 and 24 patches on the cubed sphere and 1 to 4 on a Cartesian box, periodic or not; 1 to 3 processes; two orders of message arrival',
 'Tests run on one process with one patch per panel, and smooth fields hide a reversed edge; arrival orders, several patches per panel and uneven layouts are never exercised.',
 ['src/atm/Grid.cpp', 'src/atm/GridPatch.cpp', 'src/atm/Connectivity.cpp', 'src/atm/Connectivity.h', 'src/atm/GridCSGLL.cpp', 'src/atm/GridCartesianGLL.cpp'], [('Grid::Exchange, InitializeConnectivity', 'src/atm/Grid.cpp'), ('ExchangeBuffer, ExchangeBufferRegistry', 'src/atm/Connectivity.cpp'), ('GridPatch::PackExchangeBuffer/UnpackExchangeBuffer', 'src/atm/GridPatch.cpp'), ('GetPatchFromCoordinateIndex, GetOpposingDirection', 'src/atm/GridCSGLL.cpp')],
 'The real set-up code builds the grid of every rank inside the verifier; MPI is a ghost contract (messages arrive unchanged, once). Layouts and sizes are enumerated (bounded); the contents are symbolic. Only the halo width 1 every dynamics class uses is covered.')
prop('C12', 'Element continuity averages exactly the coincident nodes',
 'After direct stiffness summation of state, tracers, vorticity, divergence or topography derivatives, on any patch layout and number of processes, every copy of a node shared by several elements (across element, patch, panel and periodic boundaries, including the three-element corners of the cube) holds the plain average of the previous values of exactly those copies, horizontal vector components being carried to the frame of the receiving panel as one geometric vector; nodes inside elements and components stored elsewhere do not change. At walls no value from outside the domain enters, and no-flux walls admit no normal flow.',
 ['inputs', 'configurations'], 'all field contents; cubed sphere with 6, 10 and 24 patches, Cartesian boxes with 1 to 3 patches, orders 2 to 4, 1 and 2 processes',
 'Tests use one layout and one process and only look at the end of short runs; a wrong corner, edge or frame change is a small local error there.',
 ['src/atm/GridCSGLL.cpp', 'src/atm/GridCartesianGLL.cpp', 'src/atm/GridPatchCSGLL.cpp', 'src/atm/GridPatchCartesianGLL.cpp'], [('GridCSGLL::ApplyDSS', 'src/atm/GridCSGLL.cpp'), ('GridCartesianGLL::ApplyDSS', 'src/atm/GridCartesianGLL.cpp'), ('GridPatchCSGLL::TransformHaloVelocities, TransformTopographyDeriv', 'src/atm/GridPatchCSGLL.cpp'), ('GridPatchCartesianGLL::ApplyBoundaryConditions', 'src/atm/GridPatchCartesianGLL.cpp')],
 'Oracle: integer positions of the nodes on the cube and the independent panel frames of contracts/sphere.h. Layouts and sizes are enumerated (bounded). The treatment of walls is a recorded finding.')
prop('C11', 'Horizontal dynamics step follows its equations and conserves',
 'An explicit horizontal step of the shallow water or nonhydrostatic equations changes each velocity component by exactly the Coriolis, vorticity, vertical advection, pressure, kinetic energy and gravity terms of the vector-invariant equations, discretised by the element derivative operators, and height, density, potential temperature density and tracers by exactly minus the weak divergence of their fluxes. It therefore conserves volume or mass, potential temperature content and every tracer content of each element, and the shallow water tendencies conserve its total energy. No flow crosses the surface. Initial data, other data and data outside the elements do not change; uniform diffusion is asked for at exactly the stated rates relative to the reference state; updated tracers are filtered; a step onto its own data is refused.',
 ['inputs', 'configurations'], 'all state, tracer, metric, topography and Coriolis values and time steps; horizontal orders 2 to 4, with and without topography, diffusion and tracers, levels and Lorenz staggering, two and three levels; both FEM methods (V2 at order 4)',
 'Tests compare a few smooth flows after short runs at order 4; an error in a metric, a topography or a cross term, in another order or in element mass shows up there as a small change.',
 ['src/atm/HorizontalDynamicsFEM.cpp', 'src/atm/HorizontalDynamicsFEMV2.cpp', 'src/atm/GridGLL.cpp'], [('HorizontalDynamicsFEM::StepExplicit, StepShallowWater, StepNonhydrostaticPrimitive', 'src/atm/HorizontalDynamicsFEM.cpp'), ('HorizontalDynamicsFEMV2::StepExplicit, StepShallowWater, StepNonhydrostaticPrimitive', 'src/atm/HorizontalDynamicsFEMV2.cpp')],
 'The metric arrays are arbitrary (symmetric contravariant metric, positive volume element). Diffusion and the tracer filter enter by contract (C16, C13). Element conservation of elements of order 4 is a lemma over the changes proved. The split explicit (SPEX) and high speed (HS) methods refuse to start in this build (covariant velocities). That V2 does not transport tracers is a recorded finding.')
prop('C16', 'Diffusion, hyperdiffusion and Rayleigh friction are as stated',
 'Scalar diffusion changes each component it is asked for, at its own vertical location, or every scalar and tracer, by exactly the time step times the coefficient (scaled with the element size where asked) times the weak Laplacian of the field or of its difference from the reference state; it conserves the content of every element, never increases variance and leaves uniform fields alone. Velocity diffusion, of the state or of the reference state, is exactly the gradient of the divergence and the curl of the vorticity with their own coefficients, and vorticity and divergence are those of the velocity on plane and sphere. Hyperdiffusion after a step applies the averaged Laplacian twice with opposite sign (once at second order), then the tracer filter and averaging, then friction, starting from the initial data. Friction moves velocities, potential temperature and vertical velocity, not density, towards the reference state by ten implicit steps where its strength is not zero. Components that do not exist, shared instances and other orders are refused and nothing else changes.',
 ['inputs', 'configurations'], 'all state, tracer, reference, metric and strength values, coefficients and time steps; horizontal orders 2 to 4; the three vertical staggerings; both FEM methods (V2 at order 4); all assignments of data instances',
 'Tests compare short runs at order 4 in which diffusion is a small correction, with one set of coefficients, no reference state to remove and no friction.',
 ['src/atm/HorizontalDynamicsFEM.cpp', 'src/atm/HorizontalDynamicsFEMV2.cpp', 'src/atm/GridPatchCartesianGLL.cpp', 'src/atm/GridPatchCSGLL.cpp'], [('ApplyScalarHyperdiffusion, ApplyVectorHyperdiffusion, ApplyRayleighFriction, StepAfterSubCycle', 'src/atm/HorizontalDynamicsFEM.cpp'), ('ApplyScalarHyperdiffusion, ApplyVectorHyperdiffusion, ApplyRayleighFriction, StepAfterSubCycle', 'src/atm/HorizontalDynamicsFEMV2.cpp'), ('ComputeCurlAndDiv', 'src/atm/GridPatchCartesianGLL.cpp, src/atm/GridPatchCSGLL.cpp')],
 'Metric arrays are arbitrary. In StepAfterSubCycle the operators enter by contract as linear maps (filter and friction as arbitrary affine maps) on one value of each kind of field. Element counts and orders are enumerated (bounded). V2 on XZ slices is not claimed.')
prop('C13', 'Tracer filters keep the content and remove negative values',
 'For every element (horizontal filters) or column (vertical filters) whose tracer content is not negative, after the positive definite filter no value is negative, the content is exactly what it was, values of zero or below become zero, positive values keep their proportions, and data without negative values, an entirely empty element included, does not change at all. Nothing but the updated tracers changes.',
 ['inputs', 'configurations'], 'all tracer contents and element areas; every element, level, tracer and patch; the filters of all four horizontal and three vertical methods',
 'Filters act only where overshoots appear, a few nodes of a run; tests look at global norms of other fields, and only one configuration carries tracers.',
 ['src/atm/HorizontalDynamicsFEM.cpp', 'src/atm/HorizontalDynamicsFEMV2.cpp', 'src/atm/HighSpeedDynamics.cpp', 'src/atm/SplitExplicitDynamics.cpp', 'src/atm/VerticalDynamicsFEM.cpp', 'src/atm/VerticalDynamicsFEMV2.cpp', 'src/atm/VerticalDynamicsSchur.cpp'], [('FilterNegativeTracers (horizontal methods)', 'src/atm/HorizontalDynamicsFEM.cpp'), ('FilterNegativeTracers (vertical methods)', 'src/atm/VerticalDynamicsFEM.cpp')],
 'Precondition: the total of the element or column is not negative (otherwise no filter can do both). At orders 3 and 4 the sign of three nodes at a time is free (bounded), at order 2 and in columns of all. In the division 0/0 of an empty element the quotient is not a number and the proof shows that it is never used.')

prop('C10', 'Grid geometry: node positions, terrain following and metric agree',
 'Every node, halo nodes included, sits at its Gauss-Lobatto point of its element on its panel or plane, and its longitude and latitude are those of that point. Levels lie between their interfaces from bottom to top, elements meet at interfaces also under stretching, vertical weights integrate polynomials to the quadrature order, and each variable is stored where the staggering puts it. Topography is the test case\'s at the node and its slope is the derivative of the element\'s interpolant. The area element, the covariant and contravariant metrics and the element areas at every level and interface are exactly those of the surface and of the terrain-following coordinate whose heights the grid uses; the Coriolis parameter is that of the latitude (beta plane, none on XZ slices). Inconsistent weights, shallow-water columns of another height, levels that do not fill elements and mountains above the model top are refused.',
 ['inputs', 'configurations'], 'all topographies and slopes, model tops, node coordinates within a panel, vertical coordinates and stretching functions; horizontal orders 2 to 4, vertical orders 1 to 4, the four staggerings, sphere (six panels, three patch layouts) and plane',
 'A wrong metric term changes results by a few per cent where terrain is steep and leaves every run stable; most tests have no terrain and none looks at a metric value.',
 ['src/atm/GridPatchCSGLL.cpp', 'src/atm/GridPatchCartesianGLL.cpp', 'src/atm/GridGLL.cpp', 'src/atm/Grid.cpp', 'src/atm/GridSpacing.cpp', 'src/atm/VerticalStretch.h'], [('EvaluateGeometricTerms, EvaluateTopography, InitializeCoordinateData', 'src/atm/GridPatchCSGLL.cpp, src/atm/GridPatchCartesianGLL.cpp'), ('InitializeVerticalCoordinate', 'src/atm/GridGLL.cpp, src/atm/Grid.cpp'), ('VerticalStretchFunction', 'src/atm/VerticalStretch.h')],
 'Patch extents and orders are enumerated (bounded). Sphere metric is compared with the embedding of the panels for symbolic gnomonic coordinates. The decay function on the plane is checked at the etas of the enumerated columns (concrete).')
prop('C17', 'The initial state is the test case, everywhere on the grid',
 'After initialisation the state, tracers, reference state and reference tracers at every level and interface of every node, halo included, are the test case\'s values at that node\'s position, terrain-following altitude and at the time asked for: potential temperature weighted by density, horizontal wind as covariant components of the same vector. Rayleigh friction strength is given at every level and interface; the grid takes over model top, diffusion coefficients and what the test case supplies; other data instances are untouched. A perturbation on restart is added to the state and tracers rather than replacing them.',
 ['inputs', 'configurations'], 'all values of all test case functions at all positions (linear in altitude with free coefficients), topographies and model tops; sphere and plane, shallow water and nonhydrostatic, with and without tracers, reference state and friction, each data instance',
 'Test cases each supply a few of the functions, on one geometry; a value missing at one interface or in one halo does not show in the norms tests look at.',
 ['src/atm/GridPatchCSGLL.cpp', 'src/atm/GridPatchCartesianGLL.cpp', 'src/atm/Grid.cpp', 'src/atm/EquationSet.cpp'], [('EvaluateTestCase, EvaluateTestCase_Perturbation', 'src/atm/GridPatchCSGLL.cpp, src/atm/GridPatchCartesianGLL.cpp'), ('EvaluateTestCase', 'src/atm/Grid.cpp'), ('ConvertComponents', 'src/atm/EquationSet.cpp')],
 'Altitude enters test case values linearly (the code only passes it on). Perturbations of horizontal wind and density on the sphere are not claimed. Orders and patch extents are enumerated (bounded).')
prop('C18', 'Runs end exactly at the end time and output exactly when due',
 'For every start time, end time, step length and output interval a run consists of consecutive steps, each of the length asked for except that the last takes exactly what is left, so that the run ends at the end time and not a step later; the first step and the last, and only they, are marked as such, and substeps see the time and length of their step. Output is made at the start (of a run not continued from a restart file), whenever its time has been reached, and at the end, once each; files are named after the time of their first output and hold the number of outputs asked for. Workflow processes are initialised once and run whenever their time has been reached. Models without a part or a step length are refused, and nothing happens if the end is not after the start.',
 ['inputs', 'histories'], 'all start and end times, step lengths, output and process intervals and outputs per file; any number of steps (loop invariant)',
 'Tests run a few steps of a round length that divides the run, with one or two outputs and never from a restart file.',
 ['src/atm/Model.cpp', 'src/atm/OutputManager.cpp', 'src/atm/WorkflowProcess.cpp'], [('Go, SubStep', 'src/atm/Model.cpp'), ('IsOutputNeeded, ManageOutput, InitialOutput, FinalOutput', 'src/atm/OutputManager.cpp'), ('Perform, IsReady', 'src/atm/WorkflowProcess.cpp')],
 'The step loop is cut by an invariant; times enter by their contract (C01) as whole seconds. The grid, dynamics and output files are ghosts.')
prop('C19', 'A restart file restores the run on any number of processes',
 'What a run on any number of processes writes to a restart file, a run on any other number of processes reads back: the time, every grid parameter (extents, resolution, orders, staggering, boundary conditions, being an XZ slice, reference state, Rayleigh friction and diffusion with their coefficients), the vertical coordinate with its stretching, and for every patch, on exactly one process, topography and its derivatives, heights, node positions, metrics, element areas, Coriolis parameters, reference state, friction strengths, the state and tracers, each value where it was. Whatever the order in which data reaches the root, writing changes nothing and no message is lost. A file that is missing, of another kind or incomplete is refused, and so is a second output in one file. When a test case is attached to a restarted run its physical constants come into force, the state is perturbed if asked for, and is otherwise left alone.',
 ['inputs', 'schedules', 'crash_points', 'histories'], 'all values of the state, tracers, topography, heights, reference state, friction and time; one to three writing and reading processes in all combinations; both orders of arrival; sphere and Cartesian slices, shallow water and nonhydrostatic, zero to two tracers, two staggerings',
 'No test restarts anything: all run from time zero on a fixed number of processes and compare nothing that was read back.',
 ['src/atm/OutputManagerComposite.cpp', 'src/atm/Model.cpp', 'src/atm/Grid.cpp', 'src/atm/GridGLL.cpp', 'src/atm/GridPatch.cpp', 'src/base/DataContainer.h'], [('OpenFile, Output, CloseFile, Input', 'src/atm/OutputManagerComposite.cpp'), ('SetGridFromRestartFile, SetTestCase', 'src/atm/Model.cpp'), ('DefineParameters, InitializeDataLocal, DistributePatches, Initialize', 'src/atm/Grid.cpp')],
 'std::ofstream and std::ifstream are a ghost file (contents are the bytes written) for the prover and real files in native replays; MPI is a ghost. Grids are small (six and three patches, order two); values are symbolic.')
