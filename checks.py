"""What each check builds and claims."""
NOT_APPLICABLE = {}
CHECKS = {}
EXH = "Holds on every case of the stated finite space, executed on the real code; nothing is claimed outside it. "

CHECKS["C01"] = dict(
    harness=["c01.cpp"], level="exploration", min_evaluations=1500,
    technique="exhaustive enumeration of decompositions and message schedules of the real exchange under a controlled MPI scheduler",
    note=EXH + "Trusts the in-process MPI (engine/vmpi.cpp) and the independent topology oracle (harness/topo.h).",
    rule="every (grid kind, resolution, order, staggering, tracer count, patch layout, process count, boundary kind, data kind) in the bounds, two rounds of poison-fill / exchange / compare of every interior and halo value; plus every arrival order up to the deviation bound. Non-trivial: at least one message was sent.",
    assumptions=["MPI delivers messages of a pair in order", "receive buffers may only be read after completion (poisoned before)"])

CHECKS["C02"] = dict(
    harness=["c02.cpp"], level="exploration", min_evaluations=500,
    technique="stateless exploration of message schedules of whole runs under a controlled MPI scheduler",
    note=EXH + "Arrival orders beyond the deviation bound are not covered; the 12 extreme schedules (buffered/rendezvous x burst/first/last x rank order) are run for every configuration.",
    rule="whole driver runs (initialisation, steps, outputs, restart files, norms) repeated under 12 extreme schedules and under every arrival order with at most the stated number of deviations; state, files and printed results compared bitwise. Non-trivial: messages were sent.",
    assumptions=["MPI_Reduce sums in rank order, as a deterministic MPI does"])

CHECKS["C03"] = dict(
    harness=["c03.cpp"], level="exploration", min_evaluations=100,
    technique="exhaustive enumeration of decompositions of whole runs under a controlled MPI scheduler, differential against the serial run",
    note=EXH + "Differences below 1e-8 of the field's magnitude (rounding from another summation order) are accepted.",
    rule="every configuration in the list, run serially and with each patch layout / process count; the whole state, checksums of all kinds, energy, enstrophy, and every variable of the interpolated output compared. Non-trivial: the decomposition differs from the serial one.",
    assumptions=["runs are short enough that rounding does not grow beyond the tolerance"])

BASELIB = ["src/base/*.cpp"]
CHECKS["C07"] = dict(
    harness=["c07.cpp"], repo=BASELIB, level="exploration", min_evaluations=100000,
    technique="exhaustive enumeration of instants x spans and of operation sequences up to a depth on the real Time class, against independent calendar arithmetic",
    note=EXH + "Trusts harness/civil.h (day counts in 64-bit integers).",
    rule="every instant of the listed years at the listed seconds and microseconds, plus every span of the list, both calendars; every consecutive day of 450 (thorough 1300) years; every sequence of up to 4 (thorough 5) additions from 8 boundary instants. Non-trivial: all.",
    assumptions=["years 0 to 9999 and spans that fit in an int"])
CHECKS["C08"] = dict(
    harness=["c08.cpp"], repo=BASELIB, level="exploration", min_evaluations=100000,
    technique="exhaustive enumeration of instants and of all strings up to a length over an alphabet, on the real Time class, against an independent reading of the documented formats",
    note=EXH + "Strings outside the documented formats that are not clearly malformed (e.g. a lone number, empty fields) are unspecified and only have to be handled without crashing.",
    rule="every instant of the list written in 4 forms and read back; every order of every set of units; all field values of the fixed forms; every string of up to 5 (thorough 6) characters over '13-:.yMdhmsux '. Non-trivial: strings with a specified meaning.",
    assumptions=["a fraction of a second has six digits"])
CHECKS["C11"] = dict(
    harness=["c11.cpp"], level="exploration", min_evaluations=10000,
    technique="exhaustive enumeration of argument lists up to a length over a token alphabet, and of all combinations of method and grid options, on the real parser and set-up code",
    note=EXH + "Numeric texts are read with strtol / strtod by the oracle; time texts with the Time class, which C08 decides.",
    rule="every option alone, every ordered pair of options with 3 values each, every argument list of up to 3 (thorough 4) tokens out of 18; every (time scheme, horizontal method, vertical method, levels, letter case) and every (discretization, staggering, stretching, resolution, levels, orders, letter case, grid); whole runs for every subset of the viscosities x order x --nohypervis x dynamics x grid, and every subset of the output switches x frames per file x restarts x output grid. Non-trivial: all.",
    assumptions=["Richardson numbers are for boxes only (spheres refuse them); --inud is compiled out", "the argument '--' itself is not used as a value"])

CHECKS["C09"] = dict(
    harness=["c09.cpp"], level="exploration", min_evaluations=5000,
    technique="exhaustive enumeration of start times, steps, run lengths and intervals of the real model loop with recording components, against an exact integer schedule",
    note=EXH + "Trusts harness/civil.h; the numerical components are replaced by recorders, so only the loop, the clock and the output and workflow base classes are decided here.",
    rule="every (start instant, calendar, step, run length, output intervals, workflow intervals, outputs per file) of the lists: the complete sequence of events (initialisations, steps with first/last flags, time and length, processes performed, files opened, outputs, files closed). Non-trivial: at least one step.",
    assumptions=["intervals are given in days, seconds and microseconds"])

CHECKS["C16"] = dict(
    harness=["c16.cpp"], level="exploration", min_evaluations=5000,
    technique="exhaustive enumeration of step sequences of the real time schemes over formal evaluations, against the published methods and the order conditions",
    note=EXH + "The dynamics are replaced by symbols, so the combination every stage and result is made of is read back exactly; the real copy, combination and averaging routines of the grid run underneath.",
    rule="every selectable scheme, every sequence of up to 3 (thorough 4) steps over three step lengths, first and last flags as the model passes them: arguments of every evaluation, the new state, the tracers, continuity of every stage, and the classical (coupled) order conditions. Non-trivial: all.",
    assumptions=["the published coefficients as transcribed in harness/c16.cpp", "Strang: the last implicit half step is carried over as the first half of the next step, as the scheme documents"])

CHECKS["C04"] = dict(
    harness=["c04.cpp"], level="exploration", min_evaluations=5000000,
    technique="exhaustive enumeration of grids, layouts, process counts and wall conditions: the real averaging of shared nodes on discontinuous hashed data, every node against the mean over the nodes at its place in space",
    note=EXH + "Halos are poisoned first and hold nothing valid; all other data must stay bitwise as they were. Trusts harness/topo.h for which nodes are at one place.",
    rule="every (grid kind, resolution, order, staggering, layout, process count, message timing, walls) in the bounds x every kind of data x two instances, averaged once and again; every interior value of every patch compared. Non-trivial: values at nodes shared by several elements.",
    assumptions=["metric terms at walls are those of the grid (C15)"])

CHECKS["C05"] = dict(
    harness=["c05.cpp"], level="exploration", min_evaluations=300,
    technique="exhaustive enumeration of configurations, save points and process counts of real save/restart histories under a controlled MPI scheduler, differential against a run that never stopped",
    note=EXH + "The continuation is compared with a run of the same code given the saved state in memory, so only saving, reading and set-up are judged here.",
    rule="every configuration of the list, a restart file at every checkpoint, each read on every listed number of processes: state bitwise, time, geometry, constants, every later checkpoint, output files and rewritten restart file; all pairs of writing and reading process counts up to 8 (thorough 13). Non-trivial: the restarted run took steps.",
    assumptions=["a Strang run carries a half step over between steps and may restart without it"])

CHECKS["C06"] = dict(
    harness=["c06.cpp"], level="fault_enumeration", min_evaluations=300,
    technique="exhaustive enumeration of crash points, torn writes, write errors and file lengths of real restart histories",
    note=EXH + "A crash is a prefix of the real sequence of write calls, cut at any byte; write errors are injected at every write call.",
    rule="tiny configurations of every grid kind: crash images after every write and within writes (quick: every few bytes; thorough: every byte), every file length up to beyond its end, five kinds of failure of every write; every image is read by 1 to 3 processes. Non-trivial: all.",
    assumptions=["a crash of the process, not of the machine: completed writes survive it", "damage within a file of full length is not detected"])

CHECKS["C14"] = dict(
    harness=["c14.cpp"], level="exploration", min_evaluations=1000000,
    technique="exhaustive enumeration of columns (every pattern of element sizes up to a length, every order) and of grids: every row of every operator against rows computed independently in extended precision",
    note=EXH + "Expected rows come from own quadrature, Lagrange bases, weak forms and flux corrections; every way to apply an operator is compared with the dense product.",
    rule="every (order up to six (nine), sequence of up to six (seven) element sizes out of three, finite volume order) x every operator x every coefficient, and every (grid kind, stretching, staggering, order, elements, discretization) x every operator and entry of the grid. Non-trivial: all.",
    assumptions=["operators no grid uses (variational derivative) are not judged", "finite volume columns are at least as long as the order"])
CHECKS["C15"] = dict(
    harness=["c15.cpp"], level="exploration", min_evaluations=100000,
    technique="exhaustive enumeration of panel points (edges, corners, poles), panel adjacencies and grid configurations on the real transforms and grids, against vectors in space",
    note=EXH + "The oracle computes positions and tangent vectors in three dimensions (harness/topo.h) and quadrature nodes by Newton iteration.",
    rule="every lattice point of every panel with all wind and vector transforms and all target panels; every adjacency of cells up to 7 (thorough 12) per side; every (grid kind, resolution, order, staggering, stretching, levels, process count) of the lists, every metric term at every node. Non-trivial: all.",
    assumptions=["shallow atmosphere metric, linear (sphere) and cosine (box) terrain following coordinate as documented in the source"])

CHECKS["C21"] = dict(
    harness=["c21.cpp"], level="exploration", min_evaluations=100000,
    technique="exhaustive enumeration of grid and feature configurations on the real set-up code, every stored value against fields in space",
    note=EXH + "The oracle evaluates winds as vectors in space and projects them on independently computed tangent vectors.",
    rule="every (grid kind, resolution, order, staggering, stretching, levels, tracers, reference state, friction, constants, process count) of the lists, every value at every node, and again after the perturbation of a restart. Non-trivial: all.",
    assumptions=["the test case's vertical velocity is zero, as in every test case of the repository"])

CHECKS["C10"] = dict(
    harness=["c10.cpp"], level="exploration", min_evaluations=1000000,
    technique="exhaustive enumeration of grid, output and process configurations on the real output code, every value of every file against an independent interpolation of the stored state",
    note=EXH + "State, tracers and user data are hashed noise per node, so a value taken from a wrong node, level, component or instance cannot pass.",
    rule="every (grid kind, resolution, order, staggering, levels, output grid size, output levels, frames per file, user data, reference removal, process count) of the lists; every value of every variable and attribute of every file. Non-trivial: all.",
    assumptions=["a point on an element edge may take the value of any element meeting there", "first order vertical interpolation may take any mean of the neighbouring levels", "the Richardson number is not judged"])

CHECKS["C22"] = dict(
    harness=["c22.cpp"], level="exploration", min_evaluations=1000000,
    technique="exhaustive enumeration of dynamics configurations on hashed-noise states, every updated value of the real step against an independent discretization",
    note=EXH + "The states are discontinuous noise, different at every node, so every term of every equation is visible at rounding level; column operators are taken from the grid (decided separately).",
    rule="every (dynamics variant, equation set, grid kind, order, resolution, levels, staggering, stretching, tracers, viscosity order and coefficients, reference length, friction, diffusion, boundary condition, patch layout) of the lists; every value after one explicit step and after the step following the subcycle. Non-trivial: all.",
    assumptions=["tracers are densities", "with uniform diffusion the velocity at the ground is set before diffusion is added", "variants spex and hs are not judged"])

CHECKS["C17"] = dict(
    harness=["c17.cpp"], level="exploration", min_evaluations=1000000,
    technique="exhaustive enumeration of run configurations: whole runs of the real model with the invariants monitored after every step",
    note=EXH + "The monitor sees every step of every run through the workflow interface and adds up densities itself.",
    rule="every (grid kind, equation set, mode of initial state, dynamics, time scheme, viscosity, order, vertical order, discretization and stretching, wall conditions, patches, tracers) x every step; totals, every value of every column; positivity filters alone: every pattern of signs of a column of up to eight levels and of an element on a level, for each of the dynamics. Non-trivial: all.",
    assumptions=["totals of interface staggered columns are not in flux form and not judged", "on planes with terrain the vertical upwinding is switched off (F44), as the Jacobian varies along columns there; uniform diffusion of theta there is not judged", "proportion and level rest of shallow water over terrain only without viscosity, which smooths the height but not the depth", "at rest next to no-slip walls, which hold W at zero, is not judged for columns out of discrete balance", "totals to 1e-11 relative, proportion to 1e-10"])
CHECKS["C18"] = dict(
    harness=["c18.cpp"], level="exploration", min_evaluations=1000000,
    technique="exhaustive enumeration of run histories and of coloured rooted trees: the real schemes drive the real model loop on states that are truncated Butcher series",
    note=EXH + "The dynamics are replaced by the exact action of an arbitrary smooth function on such series, so a run decides every order condition at once, for every splitting, number of steps and shortened last step.",
    rule="every (time scheme, step length, sequence of runs of up to 8 (24) steps with or without a shortened last step, grid); every coefficient up to order four of the horizontal, explicit vertical, implicit and after-step operators in every component and tracer at every node. Non-trivial: all coefficients but the constant's.",
    assumptions=["strang: the implicit part is judged to second order up to the error of one backward Euler half step at each end of a run, which does not grow", "erk advances the horizontal dynamics only", "unused classes (ARK4) and off-centering, which no option reaches, are not judged"])
CHECKS["C19"] = dict(
    harness=["c19.cpp"], level="exploration", min_evaluations=1000000,
    technique="exhaustive enumeration of column configurations and modes: the real vertical dynamics on hashed-noise states against an independent column discretization with exact derivatives",
    note=EXH + "Explicit and explicitly-taken implicit tendencies are compared term for term; of an implicit step the residual of the linearized system, assembled with automatic derivatives, must vanish.",
    rule="every (method V1 or V2, grid kind, mode, implicit or explicit columns, discretization, staggering, vertical order up to five, elements up to four (six), stretching, terrain, mass flux location, uniform diffusion, reference state, Rayleigh, patches, radius, tracers, signs, amplitude, step length, in place or not); every value of every variable and tracer of every column. Non-trivial: all.",
    assumptions=["the Schur form of the vertical dynamics, experimental, is not judged; V2 is judged in its own vertical velocity (metres per second)", "the curl term and uniform diffusion are not part of the linearization, as in the code", "the unscaled band solver is allowed a relative residual of 2e-5 (1e-7 for short steps, 1e-9 for first order)", "implicit columns with mass flux on levels or finite volumes are not judged", "the grid's own column operators are taken as given (C14)"])
CHECKS["C12"] = dict(
    harness=["c12.cpp"], level="exploration", min_evaluations=500000,
    technique="explicit state exploration of operation sequences on the real array and container classes (all sequences to a depth, breadth first over distinct states beyond it) against a reference model, with tracked and poisoned memory",
    note=EXH + "The model keeps sizes, ownership, kind, location and values of two arrays that may share two external buffers; every way to address an element is compared after every step.",
    rule="arrays of one to four dimensions and several value types: every sequence of up to three (four) of 44 operations, then every state reached within five (six) operations up to a state limit; containers: every list of up to three (four) chunks out of nine kinds x every sequence of up to five (six) operations. Non-trivial: all sequences that can be carried out.",
    assumptions=["indices are within the array; an array is attached to memory only once its size is set", "the bytes that fill the last word of a chunk are unspecified"])
CHECKS["C13"] = dict(
    harness=["c13.cpp"], level="exploration", min_evaluations=1000000,
    technique="exhaustive enumeration of degrees, intervals, ordered point sets, lattice points and small matrices on the real routines, against extended precision results",
    note=EXH + "Expected roots come from bisection of the recurrences, Lagrange derivatives from local polynomial expansion, linear systems from elimination in extended precision.",
    rule="quadratures of up to 16 (24) points on nine intervals with all monomials; four kinds of coordinate spacing of every order to 12 on four elements either side of zero; Legendre polynomials to degree 16 (24) on a lattice; every ordered choice of up to five (six) of eight points, and the model's own node sets to ten points, at 14 or more places, derivatives 0-3; all matrices up to 3x3 over small value sets, banded matrices of every band width up to 7x7 (9x9), all shapes up to 4x4 of full rank for inverses. Non-trivial: expected value not 0 or 1.",
    assumptions=["tolerances follow the conditioning of each case", "only the FORTRAN interface to LAPACK, the one built here"])
CHECKS["C25"] = dict(
    harness=["c25.cpp"], level="exploration", min_evaluations=100000,
    technique="explicit state exploration of operation sequences on the real grid's data instances against a model of all instances",
    note=EXH + "The model holds every value of every instance, halos and unused locations included, and all of them are compared after every operation.",
    rule="grids of every kind, one and two processes, zero to two tracers, two to five instances: every copy, every zero, every linear combination with coefficients out of 0, 1, -0.5, 2 and every shorter coefficient list, every vertical interpolation; all sequences of two (three) operations on plane grids; every operation with each instance not set in turn. Non-trivial: all.",
    assumptions=["the grid's own column operators are taken as given (C14)", "combinations are compared to 1e-13 relative"])
CHECKS["C26"] = dict(
    harness=["c26.cpp"], level="exploration", min_evaluations=20000,
    technique="exhaustive enumeration of grids, staggerings, process counts, totals and components on hashed states, and of every single value of small grids set alone, on the real reductions",
    note=EXH + "Totals are formed again in extended precision over all nodes; halos and unused locations hold huge values that must not count.",
    rule="sphere and plane, both equation sets, orders, level arrangements, 1-13 processes, zero to three tracers: sum, L1, L2 and maximum of every component and tracer of two instances, energy, enstrophy, printed checksums and error norms; on small grids every live value alone, all four totals. Non-trivial: all.",
    assumptions=["areas of nodes are those of the grid (C15)", "vertical velocity and interface density used by the energy are consistent copies", "printed error norms have six digits", "the nonhydrostatic momentum totals are not judged (they sum covariant components)"])
CHECKS["C20"] = dict(
    harness=["c20.cpp"], level="exploration", min_evaluations=1000000,
    technique="exhaustive enumeration of grids, levels, states and forcing intervals, three applications in a row, on the real forcing process against its definition",
    note=EXH + "Every live value of every variable and tracer is compared after every application; what the forcing does not act on must be bitwise unchanged.",
    rule="sphere grids of every order to four (six), level arrangements, vertical orders, 1-7 processes, forcing intervals of a second to twenty days, three (six) pressure profiles with hashed temperatures from 160 to 350 K at every node. Non-trivial: all.",
    assumptions=["temperature relaxes by the linearly implicit step of the code", "the grid's own interpolation to the surface is taken as given (C14)"])
CHECKS["C27"] = dict(
    harness=["c27.cpp"], level="exploration", min_evaluations=1500,
    technique="exhaustive enumeration of configurations, memory contents and preceding runs on the real code, all results compared bit by bit",
    note=EXH + "Heap blocks and stacks are filled with chosen bytes before they are handed out; the final state, every output and restart file and the printed text must be the same bits whatever the filling and whatever ran before in the same process.",
    rule="sphere, plane and slice, both equation sets, all schemes, both horizontal and vertical methods, stretchings, staggerings, options, 1-3 processes, with outputs, restarts, norms and starting from a restart: 6 (70) memory contents each, and every ordered pair of a set of 20 (80) runs in one process. Non-trivial: all live values.",
    assumptions=["wall clock timers in the text are left out", "memory contents are those of one fill byte at a time"])
CHECKS["C28"] = dict(
    harness=["c28.cpp"], level="exploration", min_evaluations=1500, args=["--memory"],
    flags=["-g1", "-O1", "-rdynamic", "-fsanitize=address,undefined", "-fno-sanitize=vptr,null", "-fno-sanitize-recover=undefined", "--param", "asan-globals=0", "-DDEBUG_ARRAYOUTOFBOUNDS"],
    parts=["C01", "C07", "C08", "C10", "C12", "C13", "C14", "C15", "C20", "C21", "C22", "C26"],
    parts_thorough=["C27", "C02", "C03", "C04", "C05", "C09", "C11", "C16", "C17", "C18", "C19", "C25"],
    technique="exhaustive enumeration of configurations and of the cases of the other explorations on the real code under a memory fault monitor",
    note=EXH + "Every execution runs with the address and undefined behaviour sanitizers and the code's own array bounds checks on; any report is a violation, other verdicts are left to their own checks.",
    rule="complete runs over the extremes of every option (orders, sizes, layouts, processes, schemes, boundaries, staggerings, stretchings, outputs, restarts, and every combination of orders, levels, staggering, discretization and method whether it is taken or refused), and all cases of twelve (twenty four) other explorations. Non-trivial: runs that end as they should.",
    assumptions=["address of the first element of an empty vector is not counted", "global variables are not guarded", "accesses inside one array through raw pointers are checked against the array, not the row"])
