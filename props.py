"""The properties; gen.py writes properties.jsonl and MANIFEST.json from here and checks.py."""
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe or [], "hook_needed": None}})

p("C01", "Halo exchange delivers exactly the neighbours' data",
  "After a halo exchange of the state, the tracers, the vorticity, the divergence or the topography derivatives of one data instance, every halo node of every patch holds, for every component and level, exactly the value the coincident or adjacent node of the neighbouring patch holds - across patch, panel and periodic boundaries and at cube corners, for any patch layout and any distribution of patches over processes. Interior values, other instances and other kinds of data are not touched, and repeating the exchange gives fresh data.",
  ["configurations", "schedules"], "all panel/strip layouts, patch counts, process counts, orders, staggerings, data kinds and message arrival orders in the bounds",
  "The tests run one layout on one process with smooth fields; a wrong halo value stays finite.",
  ["src/atm/Connectivity.cpp", "src/atm/Grid.cpp", "src/atm/GridCSGLL.cpp", "src/atm/GridCartesianGLL.cpp", "src/atm/GridPatch.cpp", "src/atm/CubedSphereTrans.cpp"],
  [("one message per neighbouring process, packed in registry order", "ExchangeBufferRegistry"), ("panel adjacency and index flips", "CubedSphereTrans, GridPatchCSGLL::InitializeConnectivity")],
  ["Grid::Exchange", "GridPatch::GetDataState"])

p("C02", "Runs finish and give the same result under every message timing",
  "A parallel run of any time stepping scheme always finishes, and for a given number of processes its final state, output files, restart files and printed checksums are bitwise the same whatever the order in which messages arrive, whichever process runs first, and whether sends are buffered or complete only when matched. No process reads a receive buffer before its message has arrived or reuses a send buffer before its send has completed.",
  ["schedules", "configurations"], "all extreme schedules for every scheme, all arrival orders up to a deviation bound for small runs",
  "The tests run on one process, or on whatever schedule the machine happens to produce.",
  ["src/atm/Connectivity.cpp", "src/atm/Grid.cpp", "src/atm/OutputManagerComposite.cpp", "src/atm/OutputManagerReference.cpp", "src/atm/Model.cpp"],
  [("wait for sends, post receives, pack, send, poll receives", "Grid::Exchange"), ("gather of patches at the root", "OutputManagerComposite::Output")],
  ["Model::Go", "output files"])

p("C03", "Results do not depend on the domain decomposition",
  "For any number of processes and any patch layout, a run gives the same state at every grid point, the same checksums and norms, total energy and potential enstrophy, and the same interpolated output as the serial run, up to rounding. Every grid column is held by exactly one patch, and processes that own no patch take part correctly.",
  ["configurations"], "all layouts and process counts in the bounds, for all schemes, dynamics, staggerings and boundary kinds",
  "The tests run one layout; a wrong decomposition gives finite, plausible numbers.",
  ["src/atm/GridCSGLL.cpp", "src/atm/GridCartesianGLL.cpp", "src/atm/Grid.cpp", "src/atm/Connectivity.cpp", "src/atm/GridPatch.cpp"],
  [("ApplyDefaultPatchLayout, DistributePatches", "Grid"), ("reductions at the root", "Grid::Checksum, Grid::ReduceInterpolate")],
  ["GridPatch::GetDataState", "Grid::Checksum", "output files"])

p("C07", "Model time arithmetic is exact calendar arithmetic",
  "Adding a span to or subtracting it from an instant, the difference of two instants, and comparison of instants agree with exact calendar arithmetic in the no-leap and the standard (Gregorian) calendar, down to the microsecond. Every result is normalized, adding and subtracting the same days and seconds are inverses, repeated addition never drifts, and month and year steps land on the same day of a later month, clipped to its length.",
  ["inputs", "histories"], "all days of centuries, all boundary instants x spans, all short sequences of additions, both calendars",
  "The tests take a few hundred identical steps; carries at month, year and leap boundaries are never met.",
  ["src/base/TimeObj.cpp", "src/base/TimeObj.h"],
  [("normalization of seconds, days, months", "Time::NormalizeTime"), ("leap years", "Time::IsLeapYear, VerifyTime"), ("differences", "Time::operator-, GetSeconds")],
  ["Time::operator+=, AddSeconds, operator-, operator<"])

p("C08", "Time strings mean what they say and are read back unchanged",
  "Every time written in short, long or free form is read back as the same instant or span, and every text of the documented forms (fixed date forms, h:m:s, and numbers with unit letters) gets the value it denotes in any order of its units. Malformed text is refused with an exception and never leads to undefined behaviour.",
  ["inputs"], "all boundary instants, all field values, all strings up to a length over the alphabet of the format",
  "The tests use a handful of literals such as 200s or 6h.",
  ["src/base/TimeObj.cpp"],
  [("parser", "Time::FromFormattedString, FromShortString, FromLongString"), ("printers", "Time::ToString, ToShortString, ToLongString, ToFreeString")],
  ["Time::FromFormattedString", "output and restart file names"])

p("C11", "Command line options take effect exactly as given",
  "Each command line option sets the quantity it names to the value given and changes nothing else, whatever the order and combination of options; a missing value ends the program with the usage text. The options choosing time scheme, dynamics, vertical discretization, staggering and stretching select exactly what they name irrespective of letter case, and unknown names are refused with an exception; a run with --nohypervis is the run without any viscosity, and the output options decide which files, with which variables, points and frames, are written where.",
  ["inputs", "configurations"], "all argument lists up to a length over a token alphabet, all pairs of options, all combinations of methods",
  "Each test program is run with its defaults or one fixed command line.",
  ["src/base/CommandLine.h", "src/atm/TempestInitialize.h"],
  [("parser", "ParseCommandLine"), ("selection", "_TempestSetupMethodOfLines, _TempestSetupCubedSphereModel, _TempestSetupCartesianModel")],
  ["_TempestCommandLineVariables", "Model::GetTimestepScheme", "Grid"])

p("C09", "Steps, outputs and periodic processes happen exactly on schedule",
  "A run takes steps of the given length from the start time until exactly the end time, the last one shortened to land on it, with the first and the last step flagged as such; a run that starts at or after its end does nothing. Every output stream is written at the start, at the first step reaching each multiple of its interval, and once at the end (an interval of zero: start and end only), a new file named by the current time is begun after the given number of outputs, and every attached process is performed at the first step reaching each multiple of its own interval.",
  ["inputs", "histories"], "all combinations of start instant, step, run length, intervals and outputs per file of the lists, whole event sequences",
  "The tests run with intervals that divide the step and never look at when something was written.",
  ["src/atm/Model.cpp", "src/atm/OutputManager.cpp", "src/atm/WorkflowProcess.cpp"],
  [("time loop", "Model::Go"), ("output due", "OutputManager::IsOutputNeeded, ManageOutput, FinalOutput"), ("process due", "WorkflowProcess::IsReady, Perform")],
  ["TimestepScheme::Step", "OutputManager::Output", "WorkflowProcess::Perform", "Model::GetCurrentTime"])

p("C16", "Time schemes advance state and tracers by their published method",
  "Every selectable time scheme evaluates the explicit and implicit tendencies at the stages, and forms the new state as the combination, its published Runge-Kutta, IMEX, Strang or split-explicit method prescribes, satisfying its order conditions, for any sequence of step lengths. Tracers undergo the same combination as the state, all stages are continuous across elements, hyperviscosity is applied once per step, and nothing depends on what earlier steps left in working data.",
  ["histories", "configurations"], "all sequences of up to 3 (4) steps over 3 step lengths for each of the 21 schemes",
  "A wrong coefficient or a stage read from the wrong instance still gives finite, smooth fields; the tests use one scheme.",
  ["src/atm/TimestepSchemeStrang.cpp", "src/atm/TimestepSchemeERK.cpp", "src/atm/TimestepSchemeARS222.cpp", "src/atm/TimestepSchemeARS232.cpp", "src/atm/TimestepSchemeARS343.cpp", "src/atm/TimestepSchemeARS343b.cpp", "src/atm/TimestepSchemeARS443.cpp", "src/atm/TimestepSchemeARK232.cpp", "src/atm/TimestepSchemeGARK2.cpp", "src/atm/TimestepSchemeSSP3332.cpp", "src/atm/TimestepSchemeSplitExp.cpp", "src/atm/GridPatch.cpp"],
  [("stages and combinations", "TimestepScheme*::Step"), ("copies and linear combinations of instances", "Grid::CopyData, Grid::LinearCombineData"), ("averaging of stages", "Grid::PostProcessSubstage")],
  ["TimestepScheme::Step", "GridPatch::GetDataState", "GridPatch::GetDataTracers"])

p("C04", "Shared nodes are averaged to one common value",
  "After direct stiffness summation of the state, tracers, vorticity, divergence or slope of one data instance, all nodes that lie at one place - on element, patch, panel and periodic edges, in corners where four, three or two elements meet - hold the mean of what they held before, with velocities and slopes averaged as vectors across panels and wall conditions imposed at walls. This holds for any patch layout and distribution over processes, changes nothing else, and doing it again changes nothing more.",
  ["configurations", "schedules"], "all grids, layouts, process counts, orders, wall combinations and kinds of data in the bounds",
  "The tests run smooth fields on one process, where neighbouring values hardly differ before averaging.",
  ["src/atm/GridCSGLL.cpp", "src/atm/GridCartesianGLL.cpp", "src/atm/GridGLL.cpp", "src/atm/GridPatchCSGLL.cpp", "src/atm/GridPatchCartesianGLL.cpp"],
  [("edge by edge averages and the three node corners", "GridCSGLL::ApplyDSS, GridCartesianGLL::ApplyDSS"), ("vectors turned into the basis of the own panel", "GridPatchCSGLL::TransformHaloVelocities"), ("walls", "GridPatchCartesianGLL::ApplyBoundaryConditions")],
  ["Grid::PostProcessSubstage", "GridCSGLL::ApplyDSS", "GridPatch::GetDataState"])

p("C05", "Restart files carry the whole state of a run",
  "A run continued from any of its restart files goes on exactly as the run that wrote it: the state, tracers, accumulated user data, time, physical constants and grid, including the vertical coordinate, topography, reference state and boundary conditions, are restored bitwise, and the later states, output files and restart files are the same. This holds for any number of processes writing and any number reading the file, and a requested perturbation is added to the restored state.",
  ["histories", "configurations"], "every checkpoint of every configuration in the bounds, all pairs of writing and reading process counts",
  "The tests never restart a run; a field that is not saved is usually rebuilt with the same value in the default configuration.",
  ["src/atm/OutputManagerComposite.cpp", "src/atm/Grid.cpp", "src/atm/GridCSGLL.cpp", "src/atm/GridCartesianGLL.cpp", "src/atm/GridPatch.cpp", "src/base/DataContainer.cpp", "src/atm/TempestInitialize.h"],
  [("restart file writer and reader", "OutputManagerComposite::Output, Input"), ("grid containers", "Grid::InitializeDataLocal, GridPatch::InitializeDataLocal")],
  ["restart files", "GridPatch::GetDataState", "Model::GetCurrentTime"])

p("C06", "Only complete restart files are ever accepted",
  "If a run is killed at any moment while restart files are written, every file it leaves is either complete, and read back with exactly the state and time it was written for, or refused with an exception on every process; files finished earlier stay usable. The same holds for files written over older ones of the same name, for files cut to any other length and for files of a model with other components or tracers, and a run that cannot write its restart file ends with an error.",
  ["crash_points"], "every write of the history, torn at every byte, every failure of every write, every file length",
  "The tests neither write restart files under faults nor read damaged ones.",
  ["src/atm/OutputManagerComposite.cpp", "src/atm/OutputManager.cpp"],
  [("check bits, size check", "OutputManagerComposite::Output, Input")],
  ["restart files", "OutputManagerComposite::Input"])

p("C14", "Vertical column operators are exact on every column",
  "On any column, of any order, number and sizes of elements, interpolation between levels and interfaces, first and second derivatives, integrals and edge penalties are exactly those of the finite element (or finite volume) basis on it: exact for the polynomials of their order wherever elements meet, conserving and symmetric, with the stated treatment of the ends. Applying an operator in any form (strided, to one output, to a difference from a reference, composed with another) equals the dense matrix product, and every grid hands out the operators that belong to its own levels and interfaces.",
  ["inputs", "configurations"], "all element size patterns, orders, staggerings, stretchings and discretizations in the bounds, every coefficient of every operator",
  "The tests run uniform columns almost only and compare nothing; an operator wrong at one edge, at unequal elements or at the lid degrades every vertical term of the dynamics without failing.",
  ["src/atm/LinearColumnOperator.cpp", "src/atm/LinearColumnOperatorFEM.cpp", "src/atm/GridGLL.cpp", "src/atm/FluxCorrectionFunction.cpp", "src/base/PolynomialInterp.cpp"],
  [("operators", "LinearColumnInterpFEM, LinearColumnDiffFEM, LinearColumnDiffDiffFEM, LinearColumnIntFEM, LinearColumnDiscPenaltyFEM"), ("application and composition", "LinearColumnOperator::Apply, ApplyWithRef, ComposeWith"), ("use by grids", "GridGLL::Initialize, InterpolateNodeToREdge, DifferentiateNodeToREdge, DiffDiffREdgeToREdge")],
  ["LinearColumnOperator::GetCoeffs", "LinearColumnOperator::Apply", "GridGLL::GetOpDiffNodeToREdge", "GridGLL::InterpolateNodeToREdge"])
p("C15", "Coordinates, metric and vector transforms agree with geometry",
  "At every point, including panel edges, cube corners and the poles, coordinate, wind and vector transforms between cubed-sphere panels, longitude-latitude, Cartesian and polar coordinates agree with positions and tangent vectors in space, and invert each other. At every node of every grid, level positions, metrics, Jacobians, element areas, layer depths, volumes, Coriolis parameter, ground height and slope are those of the grid and terrain following coordinate asked for, and areas add up to the domain.",
  ["inputs", "configurations"], "all lattice points and panel pairs, all grid kinds, resolutions, orders, staggerings, stretchings and level counts in the bounds",
  "The tests never evaluate a transform at a corner or pole, and a wrong metric term gives finite, plausible fields.",
  ["src/atm/CubedSphereTrans.cpp", "src/atm/GridCSGLL.cpp", "src/atm/GridPatchCSGLL.cpp", "src/atm/GridPatchCartesianGLL.cpp", "src/atm/GridCartesianGLL.cpp", "src/atm/GridGLL.cpp", "src/atm/GridSpacing.cpp", "src/atm/VerticalStretch.cpp", "src/atm/Grid.cpp"],
  [("panel transforms", "CubedSphereTrans"), ("metric terms", "GridPatchCSGLL::EvaluateGeometricTerms, GridPatchCartesianGLL::EvaluateGeometricTerms"), ("vertical levels", "Grid::EvaluateVerticalCoordinates, GridSpacing, VerticalStretch")],
  ["CubedSphereTrans", "GridPatch::GetContraMetricA, GetJacobian, GetElementArea, GetZLevels", "Grid::GetREtaLevel"])

p("C21", "Runs start from the state the test case describes",
  "After set up, every component and tracer at every level and interface of every node, including panel edges, cube corners and poles, equals the test case's value at that node's position and the start time, with winds turned into the grid's covariant components and potential temperature weighted by density. The same holds for topography, reference state and tracers, Rayleigh friction, uniform diffusion, model top and the test case's physical constants, which the Coriolis parameter uses; the perturbation of a perturbed restart is added to the state in the same form.",
  ["configurations"], "all grid kinds, resolutions (where poles fall on nodes exactly, up to rounding, or not), orders, staggerings, levels, tracer counts, optional features and process counts in the bounds",
  "The tests start from states with vanishing winds at the poles, without tracers or with one, and never compare the stored values.",
  ["src/atm/GridPatchCSGLL.cpp", "src/atm/GridPatchCartesianGLL.cpp", "src/atm/Grid.cpp", "src/atm/Model.cpp", "src/atm/EquationSet.cpp", "src/atm/CubedSphereTrans.cpp", "src/atm/PhysicalConstants.h"],
  [("evaluation of the test case", "GridPatchCSGLL::EvaluateTestCase, GridPatchCartesianGLL::EvaluateTestCase"), ("conversion of components", "EquationSet::ConvertComponents")],
  ["GridPatch::GetDataState", "GridPatch::GetDataTracers", "GridPatch::GetReferenceState", "GridPatch::GetRayleighStrength"])

p("C10", "Interpolated output files show the model's state",
  "Every output file on the reference grid holds, at every point and level, including panel edges, corners and poles, the horizontal and vertical interpolation of the stored state on the element containing that point, with winds as eastward and northward components of the same vector and vertical velocity in metres per second. Derived vorticity, divergence, temperature, surface pressure, topography, tracers, user data, coordinates, times and attributes agree likewise, whatever the number of processes, the frames per file or the removal of the reference state.",
  ["configurations", "histories"], "all grid kinds, resolutions, orders, staggerings, output grids, levels, files per output and process counts in the bounds, every value of every variable",
  "The tests only check that a run ends; nobody reads the values of a file, and default output sizes avoid edges.",
  ["src/atm/OutputManagerReference.cpp", "src/atm/OutputManager.cpp", "src/atm/Grid.cpp", "src/atm/GridPatchCSGLL.cpp", "src/atm/GridPatchCartesianGLL.cpp", "src/atm/GridPatch.cpp", "src/atm/LinearColumnOperatorFEM.cpp", "src/atm/GridCSGLL.cpp", "src/atm/GridCartesianGLL.cpp"],
  [("reference output", "OutputManagerReference::Output"), ("interpolation", "Grid::ReduceInterpolate, GridPatch*GLL::InterpolateData"), ("derived fields", "GridPatch*GLL::ComputeCurlAndDiv, GridPatch::ComputeSurfacePressure, ComputeTemperature")],
  ["NetCDF output files"])

p("C18", "Time schemes reach their order for any split of the equations and any run",
  "Whatever the horizontal, explicit vertical and implicit vertical operators are, a run with any selectable time scheme reproduces the exact solution up to the order of the scheme (Strang, ARS222, ARS232, ARK232, GARK2, SSP3_332: two; ARS343, ARS443: three; the explicit Runge-Kutta part to its own order), constants are kept, and the step after the subcycle is applied once over the whole step. This holds for state and tracers, for any number of steps, any sequence of runs, and a last step shortened to end on the end time.",
  ["inputs", "histories"], "all schemes, run lengths and sequences in the bounds, all smooth right hand sides through all coloured rooted trees up to order four, every component and tracer",
  "The tests run a scheme for a few steps and compare nothing; a wrong coefficient, instance index or operator argument lowers the order without failing.",
  ["src/atm/TimestepSchemeStrang.cpp", "src/atm/TimestepSchemeERK.cpp", "src/atm/TimestepSchemeARS222.cpp", "src/atm/TimestepSchemeARS232.cpp", "src/atm/TimestepSchemeARS343.cpp", "src/atm/TimestepSchemeARS343b.cpp", "src/atm/TimestepSchemeARS443.cpp", "src/atm/TimestepSchemeARK232.cpp", "src/atm/TimestepSchemeGARK2.cpp", "src/atm/TimestepSchemeSSP3332.cpp", "src/atm/TimestepSchemeSplitExp.cpp", "src/atm/Model.cpp", "src/atm/Grid.cpp", "src/atm/GridPatch.cpp"],
  [("schemes", "TimestepScheme*::Step"), ("loop", "Model::Go"), ("instances", "Grid::LinearCombineData, CopyData, PostProcessSubstage")],
  ["TimestepScheme::Step", "Model::Go", "GridPatch::GetDataState", "GridPatch::GetDataTracers"])
p("C17", "Runs conserve mass, heat and tracers and keep constants constant",
  "Over every step of a run from any state, with any scheme, viscosity, wall condition, order or terrain, the area weighted totals of density, density weighted potential temperature and of every tracer stay the same to rounding, and a tracer that is everywhere in the same proportion to the density stays so; removing negative tracers keeps the total of each column or element. An atmosphere or ocean at rest and horizontally level stays at rest and level, and a uniform wind over a plane that does not turn stays uniform, with all fields the same in every column.",
  ["configurations", "histories"], "all grid kinds, equation sets, dynamics variants, schemes, orders, stretchings, wall conditions and viscosities in the bounds, every step of the run",
  "The tests never sum anything: losses of 1e-8 per step, at single edges, panels or interfaces, or through one stage of one scheme, are invisible there and decide the worth of a long simulation.",
  ["src/atm/HorizontalDynamicsFEM.cpp", "src/atm/HorizontalDynamicsFEMV2.cpp", "src/atm/VerticalDynamicsFEM.cpp", "src/atm/VerticalDynamicsFEMV2.cpp", "src/atm/GridGLL.cpp", "src/atm/GridPatchCSGLL.cpp", "src/atm/GridPatchCartesianGLL.cpp", "src/atm/TimestepSchemeStrang.cpp"],
  [("fluxes", "HorizontalDynamicsFEM::StepShallowWater, StepNonhydrostaticPrimitive, VerticalDynamicsFEM::BuildF"), ("shared nodes and areas", "GridGLL::ApplyDSS, GridPatch::GetElementAreaNode"), ("viscosity and filters", "HorizontalDynamicsFEM::StepAfterSubCycle, FilterNegativeTracers")],
  ["Model::Go", "WorkflowProcess::Perform", "GridPatch::GetDataState", "GridPatch::GetDataTracers", "GridPatch::GetElementAreaNode"])
p("C19", "Vertical dynamics apply exactly the discrete column equations",
  "With the vertical dynamics of either method (V1, V2), one explicit vertical step from any state, and the implicit terms taken explicitly, add to every variable and tracer exactly time step times the column form of the equations on that grid (mass and potential temperature fluxes, pressure gradient, gravity, kinetic energy and curl terms, uniform diffusion, and upwind penalties in V1 or advection of the horizontal wind in V2), with no flux through bottom and top. An implicit step solves the linearized system of the same equations, moves the tracers with the resulting flow without making them negative, changes nothing else, and gives the same result in place or not.",
  ["configurations", "inputs"], "all grid kinds, vertical orders, discretizations, staggerings, stretchings, terrain, modes, step lengths and hashed-noise states in the bounds, every value of every column",
  "The tests only check that short runs end; a wrong Jacobian entry only slows or bends the solution, and a wrong flux of a tracer or a stale work array changes numbers nothing compares.",
  ["src/atm/VerticalDynamicsFEM.cpp", "src/atm/VerticalDynamicsFEMV2.cpp", "src/atm/LinearColumnOperator.cpp", "src/atm/GridGLL.cpp", "src/base/LinearAlgebra.cpp"],
  [("tendencies", "VerticalDynamicsFEM::StepExplicit, StepImplicitTermsExplicitly, BuildF, PrepareColumn"), ("implicit solve", "VerticalDynamicsFEM::StepImplicit, BuildJacobianF_LOR_RhoTheta_Pi, BootstrapJacobian; LAPACK::DGBSV"), ("tracers", "VerticalDynamicsFEM::UpdateColumnTracers, FilterNegativeTracers")],
  ["VerticalDynamics::StepExplicit", "VerticalDynamics::StepImplicit", "VerticalDynamics::StepImplicitTermsExplicitly", "GridPatch::GetDataState", "GridPatch::GetDataTracers"])
p("C22", "Horizontal dynamics apply exactly the discrete equations of motion",
  "One explicit horizontal step from any state adds to velocities, density, potential temperature, vertical velocity and tracers exactly time step times the spectral element form of the shallow water or nonhydrostatic equations on that grid (vector invariant momentum with Coriolis and pressure terms, weak form fluxes, no flow through the ground), including uniform diffusion. The step after the subcycle then applies exactly the configured (hyper)viscosity for scalars, divergence and vorticity, the positivity filter of tracers, averaging of shared nodes, wall conditions and Rayleigh friction, whatever the horizontal order, vertical layout, formulation, patches or boundary conditions.",
  ["configurations", "inputs"], "all dynamics variants (v1, v2), grid kinds, orders, staggerings, stretchings, coefficients, wall conditions and hashed-noise states in the bounds, every value",
  "The tests only check that short runs end; a wrong term, sign, metric or index changes numbers that no test compares, and smooth balanced states hide most terms.",
  ["src/atm/HorizontalDynamicsFEM.cpp", "src/atm/HorizontalDynamicsFEMV2.cpp", "src/atm/GridPatchCSGLL.cpp", "src/atm/GridPatchCartesianGLL.cpp", "src/atm/GridCSGLL.cpp", "src/atm/GridCartesianGLL.cpp", "src/atm/GridGLL.cpp"],
  [("tendencies", "HorizontalDynamicsFEM::StepShallowWater, StepNonhydrostaticPrimitive, and V2"), ("viscosity and friction", "HorizontalDynamicsFEM::StepAfterSubCycle, Apply*Hyperdiffusion, ApplyRayleighFriction"), ("walls and shared nodes", "GridCartesianGLL::ApplyDSS, GridPatchCartesianGLL::ApplyBoundaryConditions")],
  ["HorizontalDynamics::StepExplicit", "HorizontalDynamics::StepAfterSubCycle", "GridPatch::GetDataState", "GridPatch::GetDataTracers"])
p("C12", "Data arrays and containers keep every value where it was put",
  "Whatever sequence of allocation, resizing, attaching to memory, detaching, assignment, copying, zeroing, scaling and adding is applied to data arrays of any dimension, every array has the size, kind, location and values that sequence gives it, by every way to address an element, copies are independent of their source, and operations that make no sense are refused with an exception and change nothing. A container lays its chunks out in order in one word aligned block, whose bytes carry all values to any other container of the same layout, and never touches memory beyond it.",
  ["histories", "inputs"], "all operation sequences to the stated depth on two arrays sharing memory, all lists of chunks",
  "The tests use arrays in one pattern (allocate, fill, read); assignment between owned and attached arrays, self assignment and reuse after detaching are never tried.",
  ["src/base/DataArray1D.h", "src/base/DataArray2D.h", "src/base/DataArray3D.h", "src/base/DataArray4D.h", "src/base/DataStruct.h", "src/base/Subscript.h", "src/base/DataContainer.cpp"],
  [("arrays", "DataArray1D-4D::Allocate, SetSize, AttachToData, Detach, Assign, Zero, Scale, AddProduct, operator()"), ("subscripts", "Subscript"), ("containers", "DataContainer::PushDataChunk, Allocate, AttachTo, Detach")],
  ["DataArray1D-4D", "DataContainer::GetPointer, GetTotalByteSize"])
p("C13", "Quadrature, interpolation and linear algebra building blocks are exact",
  "Gauss and Gauss-Lobatto rules of any number of points on any interval have the exact points and weights and integrate all polynomials of their degree; Legendre polynomials, their derivatives and roots, Lagrange coefficients and their first three derivatives (at the points as well as between them), interpolated values and polynomial coefficients, flux correction functions, spacings of coordinate lines (nodes, edges and their areas at every index, also left of zero) and integer helpers are exact to rounding for any degree and any points in any order. Every wrapper of linear algebra gives the product, solution, factorization or (generalized) inverse it names, for square, rectangular, banded, triangular and permuted matrices and any right hand side, and out of range requests are refused.",
  ["inputs"], "all degrees, intervals, ordered point sets and small matrices in the bounds",
  "The tests call a few of these at one order through whole simulations; a wrong digit in a table, a wrong root or a transposed factor shows only as a slightly different solution.",
  ["src/base/GaussQuadrature.cpp", "src/base/GaussLobattoQuadrature.cpp", "src/base/LegendrePolynomial.cpp", "src/base/PolynomialInterp.cpp", "src/base/LinearAlgebra.cpp", "src/base/LinearAlgebra.h", "src/base/MathHelper.h", "src/base/MathHelper.cpp", "src/atm/FluxCorrectionFunction.cpp", "src/atm/GridSpacing.cpp"],
  [("quadrature", "GaussQuadrature::GetPoints, GaussLobattoQuadrature::GetPoints"), ("polynomials", "LegendrePolynomial, PolynomialInterp, FluxCorrectionFunction::GetDerivatives"), ("linear algebra", "LAPACK")],
  ["GaussQuadrature::GetPoints", "LegendrePolynomial::EvaluateValueAndDerivative", "PolynomialInterp::DiffLagrangianPolynomialCoeffs", "LAPACK::DGESV, DGBSV, GeneralizedInverseSVD"])

p("C25", "Operations on data instances change exactly what they name",
  "Copying, zeroing, linearly combining and vertically interpolating data act on exactly the named instance, kind of data and variable: the result is the copy, zero, sum over all given coefficients (the destination's own old value included) or interpolated column, at every node of every patch, level and tracer, every other instance, kind and variable keeps its value, and what an instance without a part in it holds does not matter, be it undefined. This holds for any sequence of operations, with or without tracers and for different numbers of state and tracer instances, and instances out of range, too many coefficients and other kinds of data are refused.",
  ["sequences", "configurations"], "all operations and coefficient lists, and sequences of them in the bounds",
  "The tests reach a few fixed combinations inside time stepping schemes; a slip in an unused coefficient, a tracer instance or the interface copy stays finite.",
  ["src/atm/GridPatch.cpp", "src/atm/Grid.cpp", "src/atm/GridPatchGLL.cpp", "src/base/DataArray4D.h"],
  [("instances", "GridPatch::CopyData, LinearCombineData, ZeroData"), ("vertical interpolation", "GridPatchGLL::InterpolateNodeToREdge, InterpolateREdgeToNode")],
  ["Grid::CopyData", "Grid::LinearCombineData", "Grid::ZeroData", "Grid::InterpolateNodeToREdge"])

p("C26", "Reported totals, norms and energies are the integrals they name",
  "On any grid, equation set, staggering and number of processes the checksum, L1, L2 and maximum norm of every component and tracer are taken over every node exactly once, with the area at the location where the variable lives, and total energy and shallow water potential enstrophy are the area integrals of kinetic, internal and potential energy and of half the squared absolute vorticity over depth. The printed checksums are those of the current state, the printed error norms are the norms of the difference from the test case at the current time relative to the test case, and computing them leaves the state as it was.",
  ["configurations", "inputs"], "all grids, totals and components in the bounds, and every single value of small grids",
  "The tests print none of these or do not look at them; a node counted twice or a wrong metric factor gives a plausible number.",
  ["src/atm/GridPatch.cpp", "src/atm/Grid.cpp", "src/atm/Model.cpp", "src/atm/OutputManagerChecksum.cpp"],
  [("local sums", "GridPatch::Checksum, ComputeTotalEnergy, ComputeTotalPotentialEnstrophy"), ("reduction to the root", "Grid::Checksum"), ("error norms", "Model::ComputeErrorNorms")],
  ["Grid::Checksum", "Grid::ComputeTotalEnergy", "Model::ComputeErrorNorms"])

p("C20", "The Held-Suarez forcing applies the documented friction and relaxation",
  "Each application of the forcing damps the horizontal velocities by the implicit Rayleigh friction of one per day below sigma 0.7 and relaxes the temperature of every node linearly implicitly towards max(200 K, (315 - 60 sin^2 - 10 ln(p/p0) cos^2)(p/p0)^kappa) at the rate 1/40 to 1/4 per day given by sigma and latitude, over exactly its own interval, with sigma the pressure over the current surface pressure. Density, vertical velocity, tracers and other data instances are left alone, for every grid, staggering, state, interval and number of processes.",
  ["inputs", "configurations"], "all grids, level arrangements, profiles and intervals in the bounds",
  "The one test that uses it runs a few steps; wrong coefficients or a stale surface pressure show only in a climate.",
  ["src/atm/HeldSuarezPhysics.cpp", "src/atm/WorkflowProcess.cpp", "src/atm/PhysicalConstants.h"],
  [("forcing", "HeldSuarezPhysics::Perform"), ("due times", "WorkflowProcess::IsReady")],
  ["HeldSuarezPhysics::Perform"])

p("C27", "A run is a function of its input alone",
  "For the same options, input state and restart file the final state, every output and restart file and the printed results are the same bits whatever the memory held before, however often the run is repeated and whatever other runs came before it in the same process. No result depends on a value the code never set.",
  ["environments", "configurations", "histories"], "all configurations, memory fillings and ordered pairs of runs in the bounds",
  "The tests run every configuration once in a fresh process, where unset memory is zero and nothing has run before; a member left unset or a static kept from an earlier run shows only elsewhere.",
  ["src/atm/Model.cpp", "src/atm/Grid.cpp", "src/atm/GridPatch.cpp", "src/atm/GridPatchGLL.cpp", "src/atm/VerticalDynamicsFEM.cpp", "src/atm/LinearColumnOperatorFEM.h", "src/atm/OutputManager.cpp", "src/base/Announce.cpp"],
  [("members set by constructors and initialisation", "Model, Grid, GridPatch, VerticalDynamicsFEM::Initialize, LinearColumnOperator"), ("work arrays", "VerticalDynamicsFEM, HorizontalDynamicsFEM, GridPatch auxiliary data"), ("files", "OutputManagerReference, OutputManagerComposite")],
  ["Model::Go", "GridPatch::GetDataState", "output and restart files"])

p("C28", "No run touches memory outside the objects it works on",
  "Whatever supported or refused combination of grid, sizes, orders, layout, processes, boundaries, schemes, dynamics, staggering, outputs and restarts is asked for, every access falls inside a live object and inside the dimensions of the array it names, nothing is used after it was freed, and no integer or conversion overflows. The same holds for the library classes under all the inputs of the other explorations.",
  ["configurations", "inputs"], "all configurations in the bounds and all cases of the other explorations",
  "The tests run without bounds checks, where a read one past a row returns the neighbouring value and the result stays finite.",
  ["src/atm/GridPatchCSGLL.cpp", "src/atm/GridPatchCartesianGLL.cpp", "src/atm/Connectivity.cpp", "src/atm/HorizontalDynamicsFEM.cpp", "src/atm/HorizontalDynamicsFEMV2.cpp", "src/atm/VerticalDynamicsFEM.cpp", "src/atm/VerticalDynamicsFEMV2.cpp", "src/atm/TimestepSchemeSplitExp.cpp", "src/atm/OutputManagerReference.cpp", "src/base/DataArray3D.h", "src/base/DataArray4D.h", "src/base/DataContainer.cpp"],
  [("array access", "DataArray1D-4D::operator()"), ("chunks of a patch", "DataContainer, GridPatch::InitializeDataLocal"), ("halo exchange buffers", "ExchangeBuffer::Pack, Unpack"), ("column work arrays", "VerticalDynamicsFEM, LinearColumnOperator::Apply")],
  ["Model::Go", "all library entry points of the other explorations"])
