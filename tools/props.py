"""The properties: the source of properties.jsonl and MANIFEST.json."""
import os
NOT_APPLICABLE = {}
PROPS = []


def P(id, **kw):
    for f in kw['files']:
        assert os.path.exists(os.path.join('/repo', f)), f
    PROPS.append(dict(id=id, **kw))


SAMPLING = ("Held on the executions observed (counts in the evidence file); "
            "nothing is claimed about inputs outside the generators. Trusts "
            "numpy/scipy and the independent reference in the harness.")

P("C01",
  title="goos: expressions evaluate to the mathematical value they denote",
  statement="Evaluating an optimization-graph expression built from variables, "
  "constants and the arithmetic operators (sum, product, power, absolute value, "
  "real/imaginary part, norm, slicing, max, dot, ...) always yields the value "
  "that the expression denotes under ordinary array arithmetic with "
  "broadcasting, for whatever values the variables hold at the time. Operators "
  "applied to operands they cannot combine are refused rather than silently "
  "producing another value, and evaluation never alters its operands.",
  over=["programs", "inputs", "histories"],
  text="every expression graph, every operand shape and dtype, every sequence "
  "of variable assignments before the evaluation",
  why="The tests evaluate a dozen fixed two-operand expressions on scalars or "
  "one vector; composition, sharing of subexpressions, broadcasting, complex "
  "values and re-evaluation after assignments are unbounded.",
  files=["spins/goos/math.py", "spins/goos/generic.py", "spins/goos/flows.py",
         "spins/goos/array.py", "spins/goos/optplan/optplan.py"],
  mech=[("operator overloads and node eval methods", "spins/goos/math.py"),
        ("topological evaluation", "spins/goos/graph_executor.py")],
  observe=["values returned by Function.get / eval_nodes"],
  technique="reference-interpreter monitor over random expression programs",
  note=SAMPLING)

P("C02",
  title="goos: gradients equal the true derivatives of the expression",
  statement="The gradient of any real scalar optimization-graph expression "
  "with respect to any variable (or intermediate function) equals the "
  "derivative of the expression's value, with contributions of every path "
  "through shared subexpressions summed and broadcasting undone. Variables "
  "that are frozen or do not influence the expression get a zero gradient of "
  "their own shape, and computing a gradient changes neither the plan's state "
  "nor later results.",
  over=["programs", "inputs", "schedules"],
  text="every expression graph, every point, every set of requested variables, "
  "sequential or parallel evaluation",
  why="Tests differentiate each operator alone at one point; fan-out, "
  "broadcasting, mixed shapes and repeated calls are combinatorial.",
  files=["spins/goos/math.py", "spins/goos/graph_executor.py",
         "spins/goos/flows.py", "spins/goos/optplan/optplan.py"],
  mech=[("per-node reverse-mode grad", "spins/goos/math.py"),
        ("back propagation over the graph", "spins/goos/graph_executor.py")],
  observe=["arrays returned by Function.get_grad / eval_grad"],
  technique="forward-mode derivative oracle and finite-difference monitor over "
  "random expression programs",
  note=SAMPLING)

P("C03",
  title="goos: each graph node runs once, after its inputs, in any schedule",
  statement="Evaluating a set of outputs runs every node they depend on "
  "exactly once per evaluation, only after all of its inputs are available "
  "and with exactly those inputs' values, and runs nothing that is not needed; "
  "gradients run each node's back-propagation once with the total incoming "
  "gradient. The results do not depend on which nodes are parallelized nor on "
  "the thread schedule, and a failure inside any node reaches the caller "
  "instead of being lost or hanging.",
  over=["schedules", "programs", "fault_sequences"],
  text="every graph, every subset of parallelized nodes, every thread timing, "
  "every node that may fail",
  why="The tests run two or three fixed graphs with one schedule each and no "
  "failing node.",
  files=["spins/goos/graph_executor.py"],
  mech=[("eval_fun / eval_grad and their thread pool",
         "spins/goos/graph_executor.py")],
  observe=["call/return events of instrumented nodes", "returned flows"],
  technique="event-trace monitor (exactly-once, happens-after-inputs) on "
  "instrumented nodes with injected delays and faults",
  note=SAMPLING + " Thread interleavings are provoked by injected delays, not "
  "enumerated.")

P("C04",
  title="goos: plan state follows the history of assignments and actions",
  statement="The values, freeze status, bounds and parameters of a plan are "
  "exactly what the documented effects of the assignments and actions applied "
  "so far imply: actions run once each in the order they were added, reading "
  "or evaluating never changes state, and a plan that already ran cannot be "
  "modified inconsistently. A frozen variable never changes through "
  "optimization, a failing action leaves the effects of earlier actions "
  "intact, and no caller can corrupt the state through an array it passed in "
  "or got back.",
  over=["histories", "fault_sequences"],
  text="every sequence of plan operations and actions, every position of a "
  "failing action",
  why="Tests exercise each action in isolation on a fresh plan.",
  files=["spins/goos/optplan/optplan.py", "spins/goos/optimize.py"],
  mech=[("OptimizationPlan variable/parameter accessors and run loop",
         "spins/goos/optplan/optplan.py")],
  observe=["public getters after every operation", "events"],
  technique="state-machine model monitor over random operation histories with "
  "failing actions",
  note=SAMPLING)

P("C05",
  title="goos: a plan interrupted anywhere resumes to the same outcome",
  statement="If a run of a plan with automatic checkpoints is interrupted at "
  "any point, also while a file is being written, then resuming a newly built copy of the plan from the last "
  "checkpoint executes exactly the actions that were not completed, in order, "
  "and ends in the same state as an uninterrupted run. Logs written before the "
  "interruption are preserved, and checkpoints written explicitly at any "
  "moment restore exactly the state they captured.",
  over=["crash_points", "histories"],
  text="every plan, every action boundary and in-action crash point, including "
  "repeated crashes",
  why="The one test resumes a fixed two-action plan after a clean stop.",
  files=["spins/goos/optplan/optplan.py", "spins/goos/optimize.py"],
  mech=[("write_checkpoint/read_checkpoint/resume",
         "spins/goos/optplan/optplan.py")],
  observe=["action events across process lives", "final state", "log files"],
  level="fault_enumeration",
  technique="crash-point enumeration (in-process and killed processes) with an "
  "uninterrupted run as oracle",
  note="Every action boundary of every generated plan is crashed at; plans are "
  "sampled. File operations (open, partial write, close, rename) are crashed "
  "at one sampled point per plan; loss of data that the operating system has "
  "accepted (power failure) is not covered.")

P("C06",
  title="goos: a saved plan loads back as the same plan",
  statement="Saving an optimization plan and loading it again, in the same or "
  "in a fresh process, yields a plan whose functions have the same names, "
  "values and gradients, whose variables have the same bounds and freeze "
  "status, and whose actions do the same when run; saving the loaded plan "
  "reproduces the saved file. Plans that cannot be represented or that come "
  "from an incompatible or corrupted file are refused instead of silently "
  "loading as something else, and nodes created after loading never take over "
  "the names of loaded nodes.",
  over=["programs", "histories", "inputs"],
  text="every plan that can be built from the node types, every state it is "
  "saved in, every number of save/load generations",
  why="The tests round-trip two small hand-written plans and compare only the "
  "schemas.",
  files=["spins/goos/optplan/optplan.py", "spins/goos/optplan/schema.py",
         "spins/goos/optplan/schema_utils.py",
         "spins/goos/optplan/schema_optplan.py",
         "spins/goos/optplan/context.py"],
  mech=[("schemas of the node graph",
         "spins/goos/optplan/schema_optplan.py"),
        ("OptimizationPlan.save / load", "spins/goos/optplan/optplan.py")],
  observe=["values, gradients, bounds and effects of actions before saving and "
           "after loading", "the saved files"],
  technique="differential round-trip monitor over random plans",
  note=SAMPLING)

P("C07",
  title="goos: optimizations end at a feasible optimum of the stated problem",
  statement="Running an optimization action on a plan drives the free "
  "variables to a point that satisfies every given equality and inequality "
  "constraint and every variable's bounds and, for convex problems, is the "
  "optimum of the stated objective; frozen and unrelated variables keep their "
  "values. The logged history is consistent: numbered consecutively, each "
  "record holding the values of the monitored functions at that iteration's "
  "variables.",
  over=["inputs", "programs", "configurations"],
  text="every problem (objective, constraints, bounds, split into variables), "
  "method and starting point",
  why="The tests minimize two or three one-variable functions with at most one "
  "constraint.",
  files=["spins/goos/optimize.py", "spins/goos/generic.py"],
  mech=[("ScipyOptimizer.run: constraints, bounds, callbacks",
         "spins/goos/optimize.py")],
  observe=["final variable values", "log files"],
  technique="oracle with known KKT points over random convex problems",
  note=SAMPLING + " Optimality is judged for convex problems only, within the "
  "optimizer's tolerance.")

P("C08",
  title="goos: shapes render to their volume average, with exact gradients",
  statement="Rendering any composition of shapes and nested groups produces, "
  "for each staggered field component and mesh cell, the permittivity "
  "averaged over the parts of the cell that each shape visibly covers, with "
  "overlapping shapes resolved by their order of priority and every other "
  "part showing the background. The gradient of any real function of the "
  "rendered permittivity with respect to the pixels or control values of the "
  "shapes equals the true derivative, also if a shape is used several times, "
  "is translated, or is only partly inside the region.",
  over=["inputs", "programs", "configurations"],
  text="every scene of shapes, every mesh, region and symmetry, every "
  "objective",
  why="The tests render one cuboid or cylinder and differentiate one "
  "pixelated shape on an aligned mesh.",
  files=["spins/goos/shapes.py", "spins/goos/flows.py",
         "spins/goos_sim/maxwell/render.py", "spins/goos/compat.py"],
  mech=[("RenderShape eval/grad", "spins/goos_sim/maxwell/render.py"),
        ("shape nodes and groups", "spins/goos/shapes.py")],
  observe=["permittivity arrays", "gradient arrays"],
  technique="exact volume-average oracle and exact derivative oracle over "
  "random scenes",
  note=SAMPLING + " Rotated shapes and spheres are not claimed (the code does "
  "not implement them); shapes drawn over pixelated shapes are a known "
  "finding.")

P("C10",
  title="Rasterization: each pixel gets exactly the covered fraction",
  statement="For any simple polygon and any grid, the raster value of each "
  "pixel is the area of the polygon inside that pixel (divided by the pixel's "
  "area), independent of where the polygon lies relative to the grid and of "
  "its orientation and starting vertex. In particular the area "
  "is conserved: the values sum to the area of the polygon inside the grid.",
  over=["inputs"],
  text="every simple polygon, every uniform or non-uniform grid, including "
  "vertices and edges exactly on grid lines",
  why="The tests raster a handful of squares and triangles.",
  files=["spins/gridlock/float_raster.py"],
  mech=[("raster / raster_1D", "spins/gridlock/float_raster.py")],
  observe=["raster arrays"],
  technique="exact polygon-clipping oracle over random polygons and grids",
  note=SAMPLING)

P("C11",
  title="Grid drawing: objects are averaged exactly onto staggered cells",
  statement="After drawing any sequence of objects on a grid and rendering it, "
  "every cell of every field component holds the volume average of the "
  "permittivity over that component's staggered cell, with later objects "
  "covering earlier ones and the background elsewhere, regardless of the "
  "objects' position or units. Rendering again, clearing, copying, saving "
  "and loading preserve this, and index and position conversions and slices "
  "report exactly the cells they name; invalid input is refused.",
  over=["inputs", "histories", "configurations"],
  text="every grid (uniform or not, any extrusion axis, E or H), every "
  "sequence of drawing operations",
  why="The tests draw one object on one uniform grid and check a few cells.",
  files=["spins/gridlock/grid.py", "spins/gridlock/direction.py"],
  mech=[("Grid.draw_* / fill_* / render", "spins/gridlock/grid.py"),
        ("render_polygon", "spins/gridlock/grid.py")],
  observe=["Grid.grids after rendering", "get_slice, pos2ind, ind2pos, save"],
  technique="exact volume-average oracle over random drawing histories",
  note=SAMPLING + " The outermost half cell of non-uniform axes is excluded.")

P("C12",
  title="Selection matrices map a structure vector to its permittivity",
  statement="For any background and foreground permittivity, the selection "
  "matrix maps the structure of all ones exactly to the foreground (and all "
  "zeros to the background), and in between each cell of each staggered field "
  "component receives its contrast times the average of exactly those "
  "structure samples that lie within the cell. The reported design dimensions "
  "are those of the smallest rectangle that contains the change, and a design "
  "region without any change is refused.",
  over=["inputs", "configurations"],
  text="every grid shape, design region (aligned or cutting cells, inside or "
  "touching the border), layer structure and matrix type",
  why="The tests check a single aligned rectangle by its fingerprint.",
  files=["spins/gridlock/selection_matrix.py",
         "spins/invdes/problem/selection_matrix.py"],
  mech=[("create_selection_matrix, direct_lattice, average_2xFarEdge",
         "spins/gridlock/selection_matrix.py")],
  observe=["the returned sparse matrices and dimensions"],
  technique="entry-by-entry definition oracle over random design regions",
  note=SAMPLING)

P("C13",
  title="FDFD operators discretise Maxwell's equations on every grid",
  statement="On any grid (uniform or not, real or complex-stretched) with any "
  "materials, conductors, Bloch vector and sheared periodic boundaries, the "
  "sparse and the functional operators give exactly the staggered finite "
  "difference form of Maxwell's equations: the same fields from the E, H and "
  "EH formulations, zero divergence of every curl, Bloch waves as eigenvectors "
  "of every derivative, and a symmetric operator after the documented "
  "preconditioning. Vectorising a field and back is the identity, the PML "
  "stretches only the requested layers, and a generated mesh covers exactly "
  "the requested borders.",
  over=["inputs", "configurations"],
  text="every grid shape and spacing, material, mask, Bloch vector, shear and "
  "PML arrangement",
  why="The repository has tests for the grid helpers only; no operator is "
  "tested with Bloch phases, permeability, masks or one-cell axes.",
  files=["spins/fdfd_tools/operators.py", "spins/fdfd_tools/functional.py",
         "spins/fdfd_tools/grid.py", "spins/fdfd_tools/vectorization.py"],
  mech=[("e_full, h_full, eh_full, curl_*, deriv_*, rotation_bloch*",
         "spins/fdfd_tools/operators.py"),
        ("curl_e, curl_h, e_full, e2h", "spins/fdfd_tools/functional.py"),
        ("apply_scpml, stretch_with_scpml, make_nonuniform_grid",
         "spins/fdfd_tools/grid.py")],
  observe=["the operators applied to random fields", "grid spacings"],
  technique="explicit finite-difference and identity oracles on random fields",
  note=SAMPLING)

P("C14",
  title="FDFD solves return the field that solves Maxwell's equations",
  statement="For any grid, material, conductor mask, PML arrangement, Bloch "
  "vector and current source, a local FDFD solve returns the field that "
  "satisfies the discretised wave equation (and vanishes in PEC), its adjoint "
  "solve is the exact adjoint of it, and the arguments are left untouched. An "
  "iterative solver reaches the requested tolerance relative to the source or "
  "reports that it did not; the radiated field does not depend on the size of "
  "a PML-terminated box; photonic crystal modes are eigenmodes nearest to the "
  "requested frequency; unsupported boundary conditions are refused.",
  over=["inputs", "configurations"],
  text="every well-posed problem (condition number below 1e8)",
  why="The tests run a single solve on a fixed grid and compare with a stored "
  "number.",
  files=["spins/fdfd_solvers/local_matrix_solvers.py",
         "spins/fdfd_tools/solvers.py",
         "spins/fdfd_solvers/phc_mode_solver.py"],
  mech=[("LocalMatrixSolver.solve, QmrSolver, BiCgSolver, "
         "MultiprocessingSolver",
         "spins/fdfd_solvers/local_matrix_solvers.py"),
        ("generic", "spins/fdfd_tools/solvers.py"),
        ("mode_solver", "spins/fdfd_solvers/phc_mode_solver.py")],
  observe=["returned fields", "error log", "arguments after the call"],
  technique="residual, adjointness and reciprocity oracles on random problems",
  note=SAMPLING + " Drift of the recursions of scipy's BiCG and QMR is not "
  "attributed to the library.")

P("C15",
  title="Remote FDFD solves survive network faults and never mix",
  statement="Whatever connection drops and delays occur between the client "
  "and the Maxwell server, a remote solve uploads every input file completely "
  "before it requests the simulation, waits for the result, and returns the "
  "same forward or adjoint field as the local solver for the same problem. "
  "Concurrent solves on one server never mix, half-domain solves are mirrored "
  "back to the full domain, the arguments are left untouched and no temporary "
  "files are left behind.",
  over=["inputs", "fault_sequences", "schedules"],
  text="every problem, pattern of dropped connections (during upload, polling "
  "and download) and set of concurrent clients",
  why="The repository has no test of the remote solver at all.",
  files=["spins/fdfd_solvers/maxwell.py"],
  mech=[("upload_files, download_files, MaxwellSolver.solve",
         "spins/fdfd_solvers/maxwell.py")],
  observe=["requests as seen by a stand-in server", "returned fields",
           "temporary directory"],
  technique="fault-injecting stand-in server with protocol and value oracles",
  note=SAMPLING + " The real server is not available; the stand-in solves the "
  "uploaded problem. Half-domain solves assume the documented boundary codes.")

P("C16",
  title="Waveguide sources emit, and overlaps measure, the requested mode",
  statement="For a waveguide along any axis, the mode solver finds the mode of "
  "the requested number (ordered by wavenumber) with fields that satisfy the "
  "mode equations and carry unit power; a source built from it emits the "
  "requested power into that mode in the requested direction and practically "
  "nothing backwards; and the overlap of the same mode, placed anywhere "
  "downstream, measures that power, and practically nothing of other modes or "
  "of the opposite direction. Rotating the axes, shifting along the guide and "
  "rescaling the units change nothing else.",
  over=["inputs", "configurations"],
  text="every waveguide cross-section, axis, direction, mode and power with a "
  "well-resolved, confined mode",
  why="The tests look at one mode along one axis of one geometry.",
  files=["spins/fdfd_solvers/waveguide_mode.py",
         "spins/fdfd_tools/waveguide.py"],
  mech=[("solve_waveguide_mode, compute_source, compute_overlap_e",
         "spins/fdfd_solvers/waveguide_mode.py"),
        ("operator, normalized_fields", "spins/fdfd_tools/waveguide.py")],
  observe=["mode fields, sources, overlap vectors", "simulated fields"],
  technique="dense mode solve, simulation and symmetry oracles",
  note=SAMPLING + " Physical tolerances of a few percent of the power absorb "
  "discretisation errors; angled and photonic crystal sources are excluded "
  "(they call functions that do not exist).")

P("C17",
  title="goos simulations return the fields of the current design and its gradient",
  statement="A goos simulation node returns, for its current permittivity, the "
  "electric field which solves the wave equation (with the requested "
  "absorbing layers) for exactly the requested sources, the permittivity it "
  "simulated, and overlaps whose gradient with respect to every permittivity "
  "or design value matches finite differences. Results depend only on the "
  "current values: not on what was simulated before, on caching, on whether "
  "simulations run concurrently, in other processes or on a remote server. "
  "Simulation grids and source, monitor and overlap regions select the cells "
  "which were asked for.",
  over=["inputs", "configurations", "histories"],
  text="every simulation space, permittivity, set of sources and outputs, "
  "solver, and history of variable changes and evaluations",
  why="The tests run one or two small simulations from a fresh start.",
  files=["spins/goos_sim/maxwell/simulate.py",
         "spins/goos_sim/maxwell/simspace.py",
         "spins/fdfd_solvers/dipole.py"],
  mech=[("SimulateNode.eval, SimulateNode.grad, sources and outputs",
         "spins/goos_sim/maxwell/simulate.py"),
        ("create_edge_coords, create_region_slices",
         "spins/goos_sim/maxwell/simspace.py"),
        ("build_dipole_source", "spins/fdfd_solvers/dipole.py")],
  observe=["fields, overlaps, permittivities and gradients", "uploaded problems "
           "of remote solvers", "selected cells"],
  technique="explicit-difference-equation, finite-difference and fresh-node "
  "oracles",
  note=SAMPLING + " Modes and dipoles are computed for the first permittivity "
  "(by design), so gradients are compared with finite differences at fixed "
  "modes. The eigenmode node needs a server that is not available.")

P("C18",
  title="invdes objectives have the value and gradient that they denote",
  statement="An invdes objective built from variables, constants, parameters, "
  "sums, products, powers, absolute values, penalties, soft maxima, old-style "
  "and user-defined functions evaluates to the mathematical value of the "
  "expression at the current parametrization and parameters, and its gradient "
  "is the derivative with respect to the parametrization vector. Each node is "
  "evaluated once per request, after its inputs, also when slow nodes run in "
  "parallel; errors are reported. Optimization problems and their slack form "
  "report the values and gradients of exactly their objective and constraints.",
  over=["inputs", "configurations", "schedules", "histories"],
  text="every expression graph, parametrization, sharing of sub-expressions, "
  "placement of parallel nodes, and history of parameter changes",
  why="The tests check single operators at one or two points.",
  files=["spins/invdes/problem/objective.py",
         "spins/invdes/problem/graph_executor.py",
         "spins/invdes/problem/slack_optimization_problem.py",
         "spins/invdes/problem/structure_objectives.py"],
  mech=[("OptimizationFunction operators, Sum, Product, Power, AbsoluteValue, "
         "IndicatorPlus, IndicatorMin, PowerComparison, LogSumExp, "
         "SoftmaxAverage", "spins/invdes/problem/objective.py"),
        ("eval_fun, eval_grad", "spins/invdes/problem/graph_executor.py"),
        ("SlackOptimizationProblem, SlackParam",
         "spins/invdes/problem/slack_optimization_problem.py")],
  observe=["values and gradients of every public entry point",
           "log of node evaluations"],
  technique="independent forward-mode evaluator and evaluation-log monitor",
  note=SAMPLING + " Points at a kink (|0|, an expression at its threshold "
  "inside a larger expression) are skipped for gradients; products of a "
  "scalar function with a vector function are excluded.")

P("C19",
  title="Parametrizations give the structure, Jacobian and bounds they denote",
  statement="Each invdes parametrization returns the structure documented for "
  "its vector: direct values; gratings as the exact coverage of every pixel by "
  "the teeth between sorted edges; cubic and Hermite grids as the piecewise "
  "cubic interpolation of the coarse values, mirrored and repeated as "
  "requested, through the sigmoid; composites as the concatenation of their "
  "parts. Its Jacobian, applied from either side, is the derivative of that "
  "structure and stays finite; bounds and projection are those that were "
  "given; and state written by serialize and read by another instance "
  "reproduces the same structure.",
  over=["inputs", "configurations", "histories"],
  text="every parametrization vector, grid, symmetry, periodicity, bound "
  "specification, nesting, and history of decode, project and restore",
  why="The tests use a few fixed grids and vectors, and no composite is "
  "differentiated the way optimizers do.",
  files=["spins/invdes/parametrization/parametrization.py",
         "spins/invdes/parametrization/cubic_utils.py",
         "spins/invdes/parametrization/grating_parametrization.py",
         "spins/invdes/parametrization/composite_parametrization.py",
         "spins/invdes/problem_graph/creator_param.py"],
  mech=[("DirectParam, CubicParam, HermiteParam",
         "spins/invdes/parametrization/parametrization.py"),
        ("CubicMatrices, make_geometry_matrix_cubic, "
         "make_geometry_matrix_hermite",
         "spins/invdes/parametrization/cubic_utils.py"),
        ("GratingParam",
         "spins/invdes/parametrization/grating_parametrization.py"),
        ("CompositeParam",
         "spins/invdes/parametrization/composite_parametrization.py")],
  observe=["structures, Jacobian products, bounds, serialized state"],
  technique="reference-model oracles (interval coverage, Hermite splines on "
  "explicitly expanded grids, interval projection) over call histories",
  note=SAMPLING + " Not claimed: Hermite grids that are periodic without "
  "repetitions or symmetric and repeated, and the missing level-set module.")

P("C20",
  title="invdes optimizers solve exactly the problem that they are given",
  statement="On every convex program, the scipy, penalty and "
  "augmented-Lagrangian optimizers end (when they report success) at a point "
  "that satisfies all of the bounds and all of the equality and inequality "
  "constraints and is optimal for it, leave that point in the parametrization "
  "they return, and report the current point to callbacks. The first-order "
  "methods take exactly the steps of their algorithm, project after every "
  "step, and run exactly the number of iterations allowed by their limits, "
  "across repeated calls. Caller-owned options are not changed.",
  over=["inputs", "configurations", "histories"],
  text="every convex quadratic program with several linear constraints and "
  "bounds, every method and option set, and sequences of optimize calls",
  why="The tests run fixed problems with at most one constraint of a kind.",
  files=["spins/invdes/optimization/scipy_optimizer.py",
         "spins/invdes/optimization/constrained_optimizer.py",
         "spins/invdes/optimization/gradient_descent.py",
         "spins/invdes/problem/slack_optimization_problem.py"],
  mech=[("ScipyOptimizer", "spins/invdes/optimization/scipy_optimizer.py"),
        ("PenaltyOptimizer, AugmentedLagrangianOptimizer",
         "spins/invdes/optimization/constrained_optimizer.py"),
        ("GradientOptimizer and its subclasses",
         "spins/invdes/optimization/gradient_descent.py")],
  observe=["results, callbacks and iteration counters"],
  technique="Karush-Kuhn-Tucker residual oracle and step-by-step recursion "
  "monitor",
  note=SAMPLING + " Only runs that scipy reports as converged are judged for "
  "optimality; methods that need a Hessian are excluded.")

P("C21",
  title="Optimization plans store, describe and build the same problem graph",
  statement="For every optimization plan, loads(dumps(plan)) has the same "
  "nodes, field values, references, sharing and transformations, and dumps "
  "leaves the plan alone; plans with duplicate names, references to missing "
  "nodes or to nodes of the wrong type, unknown node types or old versions "
  "are rejected, and stored plans keep their meaning: the stored type names "
  "denote the same nodes and omitted fields the same values. An algebraic expression over plan functions evaluates to the "
  "same value as ordinary complex arithmetic, before and after a round trip. "
  "A workspace builds every node once, shares it, and rejects a different "
  "node with the name of a known one; lookups in a context stack return the "
  "registration nearest to the top.",
  over=["inputs", "histories"],
  text="every graph over the registered node types, every expression over "
  "+, -, *, /, ** and abs, every history of workspace and context operations",
  why="The tests store one fixed plan and combine two operands at a time.",
  files=["spins/invdes/problem_graph/optplan/io.py",
         "spins/invdes/problem_graph/optplan/optplan.py",
         "spins/invdes/problem_graph/optplan/context.py",
         "spins/invdes/problem_graph/optplan/schema_function.py",
         "spins/invdes/problem_graph/creator_function.py",
         "spins/invdes/problem_graph/schema_utils.py",
         "spins/invdes/problem_graph/workspace.py"],
  mech=[("dumps, loads, validate, validate_references",
         "spins/invdes/problem_graph/optplan/io.py"),
        ("Function operators", "spins/invdes/problem_graph/optplan/optplan.py"),
        ("OptplanContextStack",
         "spins/invdes/problem_graph/optplan/context.py"),
        ("Workspace.get_object", "spins/invdes/problem_graph/workspace.py")],
  observe=["stored text, loaded graphs, created objects and function values"],
  technique="graph-isomorphism and arithmetic oracles over random plans, "
  "model-based histories of workspaces and context stacks",
  note=SAMPLING + " Not claimed: empty lists and empty nested models (they "
  "are stored as missing), two identical nodes with the same name (stored "
  "once), numpy numbers on the left of an operator.")

P("C22",
  title="Optimization runs log what they computed and survive crashes",
  statement="Running an optimization plan performs its transformations in "
  "order, setting the parameters before each, and its numbered log files and "
  "checkpoints record exactly the events, iterates, monitor values, "
  "parameters and parametrizations of the run, within the iteration limit. If "
  "the run is killed at any point, including while a file is being written, "
  "resuming completes it: finished transformations are not repeated, earlier "
  "files are kept, log numbers and iteration counts go on, every parameter "
  "and parametrization continues from its last record, and a transformation "
  "whose steps depend only on the recorded state ends where the uninterrupted "
  "run ends. Penalty transformations end at the constrained optimum.",
  over=["histories", "crash_points", "inputs"],
  text="every plan of scipy, penalty and user transformations, every sequence "
  "of crashes and resumes",
  why="The tests never run a plan, crash it or resume it.",
  files=["spins/invdes/problem_graph/workspace.py",
         "spins/invdes/problem_graph/solver.py",
         "spins/invdes/problem_graph/creator_opt.py",
         "spins/invdes/problem_graph/creator_monitor.py"],
  mech=[("Workspace.run, Logger, get_latest_log_step",
         "spins/invdes/problem_graph/workspace.py"),
        ("run_plan, restore_workspace", "spins/invdes/problem_graph/solver.py"),
        ("ScipyOptimizerTransformation, PenaltyTransformation",
         "spins/invdes/problem_graph/creator_opt.py"),
        ("SimpleMonitor", "spins/invdes/problem_graph/creator_monitor.py")],
  observe=["log and checkpoint files after every crash and resume, iterates "
           "handed to scipy, file operations of the run"],
  technique="fault injection in forked runs (crash at a chosen evaluation or "
  "file operation), offline checkers over the recorded logs against the "
  "uninterrupted run and recomputed values",
  note=SAMPLING + " Not claimed: files of another run in the same folder, "
  "parametrizations with random initial values first created in the "
  "interrupted transformation, the internal state of an optimizer (line "
  "search, curvature history), which is not recorded.")

P("C23",
  title="Log tools report exactly the data that an optimization run logged",
  statement="For every folder of log files, the loaded table has one row per "
  "log, in the order of the run whatever the order of the files, with the "
  "logged values; checkpoint files are ignored. Monitor data is found by "
  "monitor, event, transformation and iteration, defaulting to the last one "
  "with data, and is joined across transformations with cumulative "
  "iterations and the positions of the changes. Scalar and vector operations, "
  "plots and summaries show that data. Monitor specifications join monitors "
  "by id, reject inconsistent ones, and survive being stored.",
  over=["histories", "inputs"],
  text="every history of transformations and events of a run of the invdes "
  "or goos optimizers, every monitor specification and query",
  why="The log tools have no tests.",
  files=["spins/invdes/problem_graph/log_tools/loader.py",
         "spins/invdes/problem_graph/log_tools/monitor_spec.py",
         "spins/invdes/problem_graph/log_tools/plotter.py"],
  mech=[("load_all_logs, create_log_data_frame, get_monitor_data, "
         "get_single_monitor_data, get_joined_scalar_monitors, "
         "process_scalar, process_field, display_summary",
         "spins/invdes/problem_graph/log_tools/loader.py"),
        ("convert_element_list, save_to_yml, load_from_yml",
         "spins/invdes/problem_graph/log_tools/monitor_spec.py"),
        ("plot_scalar_monitors, plot_field_data, plot_overlaps",
         "spins/invdes/problem_graph/log_tools/plotter.py")],
  observe=["tables, query results, stored specifications, figure contents and "
           "printed summaries"],
  technique="offline checker: every query over the log files is compared with "
  "the records they were written from",
  note=SAMPLING + " Not claimed: an iteration that was not logged, repeated "
  "iteration numbers within one transformation, monitor values that are NaN, "
  "folders without logs.")

P("C24",
  title="Gratings render, discretize and constrain their edges correctly",
  statement="A pixelated grating fills each pixel to the extent that the "
  "height profile given by its edges (or widths), levels and etch direction "
  "covers it, for any number of etch depths per pixel, with matching "
  "gradients. Discretizing a continuous grating gives edges that respect the "
  "minimum and maximum feature sizes between neighbouring edges, have the "
  "requested first and last levels, and fit the target at least as well as "
  "every other such grating on the same lattice of edge positions, also for "
  "inverted gratings; the bounds of widths are those of their level. The edge "
  "constraints have the documented values, the matching gradients, and keep "
  "optimized edges feasible. Barcode gratings have one box per pair of "
  "neighbouring edges.",
  over=["inputs", "configurations"],
  text="every target in [0, 1], edge list, set of levels, feature sizes, "
  "direction and polarity",
  why="The tests discretize a dozen fixed vectors.",
  files=["spins/goos/grating.py", "spins/invdes/problem_graph/grating.py",
         "spins/invdes/problem/grating.py",
         "spins/invdes/parametrization/grating_parametrization.py"],
  mech=[("PixelatedGrating, GratingL2D, EdgeLocConstraint, BarcodeGrating",
         "spins/goos/grating.py"),
        ("GratingEdgeDiscretization",
         "spins/invdes/problem_graph/grating.py"),
        ("GratingFeatureConstraint", "spins/invdes/problem/grating.py")],
  observe=["rendered arrays, fitted edges, levels and bounds, constraint "
           "values and Jacobians"],
  technique="independent dynamic program and exact coverage as oracles for "
  "randomly generated gratings, finite differences for gradients",
  note=SAMPLING + " Not claimed: feature sizes of the first and last segment "
  "and the bound of the first width, targets outside [0, 1], structures "
  "without any change of level in the goos discretization, infeasible feature "
  "sizes.")

P("C25",
  title="GDS export covers the contours' region; import gives the cell's polygons",
  statement="Exporting closed, non-crossing contours with deembedding always "
  "terminates and covers, exactly once, the points inside an odd number of "
  "contours, whatever the nesting, order and orientation; without deembedding "
  "the polygons are written as given, and extra structures are added. "
  "Importing a GDS file gives, in microns for every unit of the file, exactly "
  "the polygons of the named cell, or of the one top-level cell with the most "
  "polygons (names starting with $$$ not counted), per (layer, datatype), "
  "with references and arrays resolved, and refuses missing cells and ties; "
  "bounding boxes are those of the polygons in nanometers.",
  over=["inputs", "configurations"],
  text="every set of nested or separate contours, and every hierarchy of "
  "cells with translated, rotated, magnified, reflected and arrayed "
  "references in any units",
  why="The tests import one file and export none.",
  files=["spins/gds/gen_gds.py", "spins/gds/parse_gds.py"],
  mech=[("gen_gds", "spins/gds/gen_gds.py"),
        ("GDSImport", "spins/gds/parse_gds.py")],
  observe=["polygons, layers and boxes read back from the written files"],
  technique="region coverage at sampled points against an even-odd ray-casting "
  "oracle; imported polygons against an independent transformation of a "
  "randomly generated cell hierarchy",
  note=SAMPLING + " Not claimed: PATH elements, cells named that are not "
  "top-level, contours that cross or touch each other.")

P("C26",
  title="Simulation spaces hold the permittivity of the scene they describe",
  statement="The grid of an invdes simulation space has cells of the given "
  "size whose centres start at the lower corner of the region. For every "
  "wavelength, whatever was asked before, every component of the background "
  "permittivity is the exact volume average over its staggered cell of the "
  "GDS layers, stack or mesh list (later ones win); the background plus the "
  "selection matrix times ones is the foreground. Epsilon is background plus "
  "selection matrix times structure; DiffEpsilon is its squared distance from "
  "the reference, with the matching gradient. Field monitors return the plane "
  "through the given point. Tabulated materials pass through their table and "
  "stay between neighbouring points, in every unit and column order; lossy "
  "ones have n - ik; materials and files that do not exist are refused.",
  over=["inputs", "configurations", "histories"],
  text="every region, cell size, GDS file, stack, mesh list, material and "
  "sequence of wavelengths",
  why="The tests look at a few cells of one scene, and one material each.",
  files=["spins/invdes/problem_graph/simspace.py",
         "spins/invdes/problem_graph/creator_em.py",
         "spins/invdes/problem_graph/creator_monitor.py",
         "spins/material/material.py"],
  mech=[("SimulationSpace, _create_grid, _get_mat_index, get_fg_and_bg",
         "spins/invdes/problem_graph/simspace.py"),
        ("Epsilon, DiffEpsilon", "spins/invdes/problem_graph/creator_em.py"),
        ("FieldMonitor", "spins/invdes/problem_graph/creator_monitor.py"),
        ("CustomMaterial and tabulated materials",
         "spins/material/material.py")],
  observe=["permittivity arrays, selection matrices, edge coordinates, "
           "refractive indices, gradients, monitor data"],
  technique="exact volume averages of randomly generated GDS scenes as oracle, "
  "literature formulas for the tabulated materials, finite differences",
  note=SAMPLING + " Not claimed: extinction of named materials (ignored by "
  "simulation spaces), silicon below 1.1 um (the table has a gap), "
  "extrapolation, sub-nanometre coordinates, cell sizes whose multiples are "
  "not representable.")

P("C27",
  title="Simulations in optimization plans solve Maxwell, with exact gradients",
  statement="The field of an invdes FDFD simulation satisfies the discrete "
  "Maxwell equations for its permittivity, source, wavelength, PML and Bloch "
  "vector. Overlaps with waveguide modes, planes and imported fields are the "
  "stated discrete sums, and the gradient of any real function of them with "
  "respect to the structure is the derivative of what is evaluated, also "
  "when several simulations share a structure. Results depend on the current "
  "structure and never on the history: caches return what a fresh simulation "
  "would, also after arrays are changed in-place and when several wavelengths "
  "alternate. Normalised dipoles radiate the given power; the power through "
  "closed surfaces is what the enclosed sources supply; waveguide sources "
  "launch and overlaps receive the given power. Sources, overlaps and powers "
  "described in a plan are built as described.",
  over=["inputs", "configurations", "histories", "programs"],
  text="every permittivity, source, wavelength, PML, Bloch vector, overlap, "
  "sequence of structures and plan",
  why="The tests use stubs for solvers or a single structure of a few cells.",
  files=["spins/invdes/problem_graph/creator_em.py",
         "spins/invdes/problem_graph/functions/poynting.py",
         "spins/invdes/problem_graph/grid_utils.py",
         "spins/invdes/problem_graph/creator_monitor.py"],
  mech=[("FdfdSimulation, OverlapFunction, WaveguideModeSource, DipoleSource, "
         "ImportOverlap", "spins/invdes/problem_graph/creator_em.py"),
        ("PowerTransmissionFunction",
         "spins/invdes/problem_graph/functions/poynting.py")],
  observe=["fields, overlaps, powers, gradients, number of linear solves"],
  technique="residuals of explicitly written difference equations, energy "
  "balance, finite differences, comparison of histories with fresh "
  "simulations; plans evaluated in their own processes",
  note=SAMPLING + " Known finding: the gradient of a power is half of the "
  "true one. Not claimed: sources inside PML, normalisation with thin PML.")

P("C28",
  title="Plane waves and Gaussian beams have the requested power and direction",
  statement="The current of a plane wave or Gaussian beam source for any axis, "
  "sign, angles and polarization emits, in a uniform medium, the analytic wave "
  "of the requested direction, polarization, centre, waist and power into the "
  "requested half-space and practically nothing backwards, and lies only in "
  "its slice. The reported wavevector is that of the wave. Renaming the axes "
  "renames the current; the current scales with the root of the power; a "
  "border of any width fades the plane wave out and leaves its interior alone; "
  "arguments are left untouched. Sources normalised by a simulation radiate "
  "the given power. The sources of optimization plans and of goos simulations "
  "are those that their description denotes.",
  over=["inputs", "configurations"],
  text="every axis, sign, angle, polarization, power, index, cell size, border "
  "and beam centre",
  why="No test simulates a plane wave, and Gaussian beams only along one axis.",
  files=["spins/fdfd_tools/free_space_sources.py",
         "spins/invdes/problem_graph/creator_em.py",
         "spins/goos_sim/maxwell/simulate.py"],
  mech=[("build_plane_wave_source, build_gaussian_source, "
         "normalize_source_by_sim", "spins/fdfd_tools/free_space_sources.py"),
        ("PlaneWaveSource, GaussianSource",
         "spins/invdes/problem_graph/creator_em.py")],
  observe=["currents, simulated fields, wavevectors"],
  technique="simulated fields against the analytic wave; metamorphic relations "
  "between axes, powers and borders",
  note=SAMPLING + " Tolerances of a few percent absorb discretisation and the "
  "paraxial approximation. Not claimed: permeabilities other than 1, and "
  "normalisation on non-uniform meshes (documented restriction).")


P("C29",
  title="EM objectives match their fields, gradients and far-field radiation",
  statement="The electromagnetic objectives of the problem layer evaluate the "
  "field that solves the wave equation for exactly the structure they are "
  "given, however structures and arrays are reused, modified in place, cached "
  "or requested by several threads, and solve each cached structure only once. "
  "The values of overlap objectives are those of their documented formulas and "
  "their gradients the derivatives of the value with respect to the parameters, "
  "with PML, Bloch boundaries, loss and permeability. The near-to-far-field "
  "transformation of the field on a closed box gives the far field of the "
  "enclosed sources in spherical components about any axis, and directed power "
  "and directivity objectives integrate it over the requested angles, with "
  "correct derivatives.",
  over=["inputs", "histories", "configurations", "schedules"],
  text="every simulation, structure history, cache size, set of overlaps, "
  "range of angles and distribution of sources",
  why="One test covers a single vacuum gradient; overlaps, caches and far "
  "fields have none.",
  files=["spins/invdes/problem/emobjective.py",
         "spins/invdes/problem/simulation.py",
         "spins/invdes/problem/ffobjective.py",
         "spins/invdes/problem/farfield.py"],
  mech=[("FdfdSimulation, AdjointFdfdSimulation",
         "spins/invdes/problem/simulation.py"),
        ("Overlap, BasicOverlapObjective, PhaseOverlapObjective",
         "spins/invdes/problem/emobjective.py"),
        ("make_near2farfield_box_matrix, triangle_selection_vector",
         "spins/invdes/problem/farfield.py")],
  observe=["fields, objective values and gradients, solver calls, far fields"],
  technique="monitored simulations against explicit equations, finite "
  "differences, a cache model over histories and threads, and analytic dipoles",
  note=SAMPLING + " Far fields within 3 % at 28 or more cells per wavelength; "
  "integrated powers within 5 %. Not claimed: Bloch vectors along axes that end "
  "in a PML, conductors in adjoint simulations (marked TODO), media other than "
  "vacuum around the far-field box.")


P("C30",
  title="The exported GDS file is the final design, however it was reached",
  statement="Cubic parametrizations turn into polygons that enclose exactly "
  "the pixels whose structure value lies above one half, with holes, in the "
  "orientation and at the size of the design area, also at its edges and for "
  "all-full and all-empty designs. Running an optimization plan through the "
  "solver exports a GDS file with the polygons of the final parametrization "
  "of the last transformation; stopping the run after any transformation and "
  "resuming it exports the same file.",
  over=["inputs", "histories", "configurations"],
  text="every size, control-point density, symmetry, selection matrix type, "
  "target and stopping point",
  why="No test generates polygons or runs the solver to its exported file.",
  files=["spins/invdes/parametrization/parametrization.py",
         "spins/invdes/problem_graph/solver.py", "spins/gds/gen_gds.py"],
  mech=[("CubicParam.generate_polygons",
         "spins/invdes/parametrization/parametrization.py"),
        ("Solver.run, export of the design",
         "spins/invdes/problem_graph/solver.py")],
  observe=["polygons, GDS files, final permittivities"],
  technique="generated designs and plans; even-odd point location against the "
  "structure of the parametrization; crash-and-resume replays",
  note=SAMPLING + " Pixels within 0.01 of the threshold are not judged. Not "
  "claimed: direct lattice selection, the absolute position of the cell (the "
  "file is centred at the origin), level-set parametrizations (their module "
  "is not part of the repository).")
