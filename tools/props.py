#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

C = "dedalus/core/"
p("C01", "A field keeps denoting the same function through any layout/scale history",
  "Whatever sequence of layout requests, grid/coefficient reads, scale changes, copies and global or local data writes is applied to a field, its data always represent the last value written, expanded in its bases. "
  "Only modes that a grid of the requested scale cannot represent may be dropped, and only when the data actually pass through that grid; every other mode is preserved exactly. "
  "The field always reports the layout, scales and data shape it was asked for.",
  ["histories", "inputs"], "All finite histories of Field operations (read/write in any layout, change/require/preset layout, change/set/preset scales, copy, global data access) on fields over any product of Fourier/Jacobi bases, tensor rank, dtype and scale.",
  "Tests write on one layout and read on one other for fixed scales; they never interleave scale changes, partial layouts and writes.",
  [C+"field.py", C+"distributor.py", C+"transforms.py"],
  [("Field.change_layout/change_scales/require_*/preset_*", C+"field.py"), ("Layout path increments/decrements", C+"distributor.py")],
  ["Field['c'], Field['g'], Field.data, Field.layout, Field.scales"])
p("C02", "Every layout partitions the global data exactly once over the process mesh",
  "For every process mesh, domain, layout and scale, the index sets the processes report as their local part are disjoint, contiguous, in mesh order and together cover every global index; modes that must stay together (mode groups) are never split between processes. "
  "All the ways of asking for the local part (shape, slices, element indices, groups, local grids) agree with each other and with the allocated data. "
  "Consecutive layouts differ by exactly one transform or one transposition, leading from full coefficient space to full grid space.",
  ["configurations"], "All mesh shapes (including empty ranks), resolutions, dimensions, bases and scales.",
  "Parallel tests use one 4-process configuration of one basis; partition arithmetic with remainders, empty ranks or multi-axis meshes is not exercised.",
  [C+"distributor.py", C+"domain.py"],
  [("Layout.local_elements/slices/local_shape/local_chunks", C+"distributor.py"), ("Distributor._build_layouts", C+"distributor.py")],
  ["Layout.local_shape", "Layout.slices", "Layout.global_elements", "Distributor.local_grids/local_modes"])
p("C03", "Redistributing data over a process mesh never changes, moves or loses a value",
  "Moving a field, or any group of fields together, between layouts on any process mesh leaves each global element with the value that the same operation gives on a single process, including on processes that own no data. "
  "Collecting a field's global data, gathering it on one process and setting it from global arrays are mutually inverse and return the same global array on every process that receives it.",
  ["configurations", "histories"], "All mesh shapes, redistribution sequences, group sizes and mixtures of field shapes and tensor ranks.",
  "Existing parallel tests only compare spherical arithmetic on one mesh; transposes of grouped and empty fields are not checked.",
  [C+"distributor.py", C+"transposes.pyx", C+"field.py"],
  [("Transpose.increment/decrement(_group)", C+"distributor.py"), ("FFTWTranspose/AlltoallvTranspose", C+"transposes.pyx"), ("gather_data/allgather_data", C+"field.py")],
  ["Field data on each rank", "Field.allgather_data/gather_data/set_global_data"])
p("C04", "Evaluating an expression gives its value at the current field data, every time",
  "Every evaluation of an expression, alone or together with any number of other scheduled expressions sharing subexpressions, yields the value obtained by applying its operations to the current data of its fields. "
  "The result does not depend on the layout or scales the fields happen to be in, on the order or grouping of tasks, on the number of earlier evaluations, or on data that have since been changed. "
  "Evaluation never changes the value of an input field.",
  ["histories", "programs", "schedules"], "All expression DAGs over fields, all initial layouts/scales, and all histories of field writes, handler additions and evaluations.",
  "Tests evaluate one expression once from one layout.",
  [C+"future.py", C+"evaluator.py", C+"arithmetic.py", C+"operators.py"],
  [("Future.evaluate/attempt and last_id caching", C+"future.py"), ("Evaluator.evaluate_handlers/attempt_tasks", C+"evaluator.py")],
  ["Future.evaluate()", "DictionaryHandler fields", "Handler task outputs"])
p("C05", "Analysis handlers fire exactly on their schedule",
  "A handler is evaluated at a given (iteration, simulation time, wall time) exactly when one of its cadences (iteration multiple, simulation-time or wall-time interval, custom criterion) calls for it: an iteration cadence at the first evaluation at or after each of its multiples, a simulation-time cadence at the evaluation nearest to each of its multiples (judged with the current timestep), a wall-time cadence at the first evaluation in each new interval, a custom criterion whenever it holds. "
  "A handler is evaluated at most once per call; handlers of one evaluator are independent; forced and group evaluation do not depend on the cadence.",
  ["histories", "schedules"], "All sequences of (iteration, sim time, wall time) evaluations and all combinations of cadences and handlers.",
  "Tests use a single cadence with constant steps.",
  [C+"evaluator.py"], [("Handler.check_schedule", C+"evaluator.py"), ("Evaluator.evaluate_scheduled", C+"evaluator.py")],
  ["calls to Handler.process / tasks evaluated"])
p("C06", "Output files hold every scheduled write once, in order, across restarts",
  "File output numbers writes consecutively, starts a new set file exactly when the current set has reached its maximum number of writes, numbers sets consecutively, and stores in each record the iteration, simulation time, timestep and write number of that evaluation. "
  "Overwrite mode discards earlier outputs of that handler only; append mode continues the set and write numbering after the last complete output, whatever earlier sessions wrote. "
  "No record already on disk is altered or lost by later writes or by an append-mode restart.",
  ["histories", "crash_points", "configurations"], "All write histories, max_writes values, modes and sequences of sessions including sessions that ended between any two writes.",
  "Tests write a handful of records in one fresh session.",
  [C+"evaluator.py"], [("H5FileHandlerBase set/write numbering, file rollover", C+"evaluator.py")],
  ["HDF5 files on disk"])
p("C07", "Output records hold the task's data in the requested layout, with metadata",
  "Each written record of each task equals the global data of the task expression at the time of the write, in the requested layout and scales, whatever the process mesh and parallel output mode. "
  "Each dimension carries the matching grid points or mode numbers and coordinate names, constant dimensions have size one, and the recorded task attributes (name, grid-space flags, scales, constancy) describe the data.",
  ["inputs", "configurations", "histories"], "All task expressions, layouts, scales, bases, meshes and parallel output modes.",
  "Tests check few expressions in serial at fixed scales; parallel output tests fail at this commit for lack of parallel HDF5.",
  [C+"evaluator.py", C+"field.py"], [("H5FileHandlerBase.setup_file/write_task", C+"evaluator.py")],
  ["HDF5 datasets, dimension scales and attributes"])
p("C08", "A run restored from an output resumes from exactly the saved state",
  "Loading any write of an output file sets every problem variable to the saved values (rescaled to the variable's own resolution), and sets the solver's iteration, simulation time and their initial values to the saved ones, returning that write's number and timestep. "
  "A run of a one-step scheme split at any write by a restart produces the same later states as the unbroken run. "
  "Fields absent from the file are left alone when allowed and otherwise the load is refused.",
  ["histories", "crash_points", "configurations"], "All run histories, checkpoint positions, write indices, output layouts/scales and sets of saved fields.",
  "No test exercises load_state on anything but a trivially fresh solver.",
  [C+"solvers.py", C+"field.py", C+"evaluator.py"], [("InitialValueSolver.load_state", C+"solvers.py"), ("Field.load_from_hdf5", C+"field.py")],
  ["solver.iteration, sim_time, state fields"])
p("C09", "Post-processing visits and merges every write exactly once",
  "Distributing an output's writes or sets over any number of worker processes visits each of them exactly once, in natural numeric order within each worker, with the correct index range in each file. "
  "Merging distributed or virtual outputs produces a file with all records, values and metadata of the original.",
  ["configurations", "inputs"], "All numbers of sets, writes per set and worker processes.",
  "Tests contain no post-processing.",
  ["dedalus/tools/post.py", "dedalus/tools/general.py"], [("get_assigned_writes, visit_writes, merge_*", "dedalus/tools/post.py")],
  ["callbacks invoked; merged HDF5 files"])
p("C10", "The time loop advances iteration, time and outputs together and stops on time",
  "Each successful step advances the iteration count by one and the simulation time by exactly the timestep, evaluates scheduled outputs once with the state, iteration and time before the step, and leaves the problem time equal to the simulation time. "
  "The solver proceeds exactly until the first of its iteration, simulation-time or wall-time limits is reached; a non-finite timestep is refused without advancing. "
  "Evolving to the stop time performs the same steps as an explicit loop.",
  ["histories", "inputs"], "All sequences of timesteps, stop criteria and entry states.",
  "Tests run a loop to one stop criterion only to reach a final numerical answer.",
  [C+"solvers.py"], [("InitialValueSolver.step/proceed/evolve", C+"solvers.py")],
  ["solver.iteration, sim_time, problem.time, handler calls"])
p("C11", "Multistep integrators follow their scheme for any timestep sequence",
  "For each multistep scheme the computed state after any sequence of (variable) timesteps equals that of the documented implicit-explicit multistep formula, with the order ramping up over the first steps and coefficients meeting the order conditions for the actual timestep ratios. "
  "Repeating or changing timesteps, or reverting to a previous one, never leaves the solve using stale coefficients or factorizations, and no term of the history is skipped, repeated or overwritten.",
  ["histories", "inputs"], "All timestep histories and all linear/nonlinear splittings.",
  "Convergence tests use constant timesteps and tolerate errors of the size of the scheme's own truncation error.",
  [C+"timesteppers.py", C+"solvers.py"], [("MultistepIMEX.step and compute_coefficients", C+"timesteppers.py")],
  ["state fields after each step"])
p("C12", "Runge-Kutta integrators follow their tableau for any timestep sequence",
  "For each Runge-Kutta scheme one step of any size from any state equals the implicit-explicit Runge-Kutta formula of the scheme's stated order, with each stage's forcing evaluated at that stage's state and time. "
  "The step depends only on the state, time and timestep, not on earlier steps or timesteps.",
  ["histories", "inputs"], "All timestep histories, stage times and splittings.",
  "Convergence tests use constant timesteps and autonomous problems.",
  [C+"timesteppers.py", C+"solvers.py"], [("RungeKuttaIMEX.step and tableaux", C+"timesteppers.py")],
  ["state fields after each step"])
p("C13", "The CFL controller returns the timestep its limits and history prescribe",
  "At iterations of its cadence (from its start) the CFL timestep is the safety factor over the largest total advective frequency, bounded by the maximum and minimum timestep and by the allowed growth and reduction relative to the current timestep, and left unchanged when the relative change is within the threshold. "
  "At other iterations the stored timestep is returned unchanged.",
  ["histories", "inputs"], "All histories of frequencies, iterations and all parameter combinations.",
  "Tests compute the frequency of one velocity in each geometry, never the control history.",
  ["dedalus/extras/flow_tools.py", C+"operators.py", C+"basis.py"], [("CFL.compute_timestep", "dedalus/extras/flow_tools.py"), ("AdvectiveCFL", C+"basis.py")],
  ["CFL.compute_timestep() result"])
p("C14", "Global reductions equal the serial reduction of the global data",
  "Reported minima, maxima, means, integrals, norms and volume averages equal the corresponding reduction of the global grid data, on every process, for every mesh and also when some processes own no data.",
  ["configurations", "inputs"], "All meshes, data and empty-rank patterns.",
  "No test uses the reducers.",
  ["dedalus/extras/flow_tools.py", C+"field.py"], [("GlobalArrayReducer, GlobalFlowProperty", "dedalus/extras/flow_tools.py"), ("allreduce_* methods", C+"field.py")],
  ["return values on each rank"])
p("C15", "Equations are accepted exactly when well posed for their problem class",
  "An equation is accepted exactly when it fits its problem class: left side linear in the variables and first order in the time derivative or affine in the eigenvalue, right side free of time derivatives or of the eigenvalue and of disallowed variables, with compatible tensor shape and domain. "
  "Otherwise an error is raised and the problem is left unchanged. "
  "Accepted equations are assembled so that mass, stiffness and forcing parts add up to the equation as written, with each time derivative, eigenvalue and variable in its own part.",
  ["programs", "inputs"], "All equation expressions built from variables, parameters, time derivative or eigenvalue, sums, products and operators, for each problem class.",
  "Tests add a few valid equations and never check rejection.",
  [C+"problems.py", C+"solvers.py", C+"operators.py", C+"arithmetic.py"], [("ProblemBase.add_equation/_check_equation_conditions/_build_matrix_expressions", C+"problems.py")],
  ["add_equation outcome, solver matrices and forcing"])
p("C16", "Symbolic transformations preserve the value of an expression",
  "Splitting an expression yields parts that sum to it, one containing only terms with the specified operands and the other none; replacing an operand yields the expression with that operand substituted; differentiating yields the directional derivative; reinitializing or expanding yields an equal expression. "
  "Containment and linearity queries agree with the mathematical dependence of the expression.",
  ["programs"], "All expression trees over fields, numbers, sums, products, powers and linear operators.",
  "Tests use these only indirectly in a few Newton solves.",
  [C+"field.py", C+"arithmetic.py", C+"operators.py", C+"future.py"], [("split/replace/sym_diff/frechet_differential/expand", C+"arithmetic.py")],
  ["evaluated results of the transformed expressions"])
p("C17", "Cartesian operators are exact on representable fields",
  "On fields whose data and result are representable at the given resolution, differentiation, gradient, divergence, curl, Laplacian, interpolation, integration, averaging, conversion, transposition, trace, skew, component extraction, products and dot/cross products return the exact field of exact rank and domain, for every combination of Fourier and Jacobi bases, bounds, parameters, dtype and constant directions. "
  "Composition of operators obeys the identities of vector calculus.",
  ["inputs", "programs", "configurations"], "All polynomial/trigonometric fields, tensor ranks and operator compositions.",
  "Tests use a handful of smooth fields and tolerance-based comparison in a fixed list of bases.",
  [C+"operators.py", C+"basis.py", C+"arithmetic.py", "dedalus/tools/jacobi.py"], [("Cartesian operators", C+"operators.py"), ("Jacobi/Fourier matrices", C+"basis.py")],
  ["evaluated fields"])
p("C18", "Curvilinear operators agree with Cartesian calculus on smooth fields",
  "On the disk, annulus, sphere, ball, shell and cylinder, the gradient, divergence, curl, Laplacian, interpolation, integration, averaging, traces, components, transposes and products of a field that is the restriction of a Cartesian polynomial scalar, vector or tensor equal the restriction of the corresponding Cartesian result, componentwise in the local basis vectors, including at the poles and origin.",
  ["inputs", "programs", "configurations"], "All polynomial fields representable at the resolution, ranks, radii, dtypes, and operators.",
  "Tests use a few fixed fields per geometry and rank.",
  [C+"operators.py", C+"basis.py", C+"coords.py", "dedalus/libraries/spin_recombination.pyx", "dedalus/libraries/dedalus_sphere/"], [("Spherical/Polar operators", C+"operators.py"), ("regularity/spin recombination", C+"basis.py")],
  ["evaluated fields"])
p("C19", "Assembled matrices act exactly like the operators they were built from",
  "For every linear expression accepted on a left side, including non-constant coefficients, multiplying the assembled matrices by a variable's coefficients gives the coefficients of the evaluated expression. "
  "Solving a linear boundary value problem returns the solution of its equations and boundary conditions, whatever the matrix ordering, coupling and storage options.",
  ["inputs", "programs", "configurations"], "All linear operator expressions, bases and matrix-construction options.",
  "Tests solve a few fixed problems with default options.",
  [C+"subsystems.py", C+"solvers.py", C+"operators.py", C+"arithmetic.py"], [("Subproblem.build_matrices, expression_matrices", C+"subsystems.py")],
  ["subproblem matrices; solver.solve() results"])
p("C20", "Subproblems partition the modes and gather/scatter are exact inverses",
  "Over all subproblems and processes each degree of freedom of each variable and equation that is valid in the bases appears exactly once, invalid modes never appear, and each subproblem is square for a well-posed problem. "
  "Gathering a state into pencil vectors and scattering it back reproduces the fields exactly.",
  ["configurations", "inputs"], "All domains, meshes, couplings, variable sets, dtypes.",
  "Tests never look at subproblem structure.",
  [C+"subsystems.py", C+"solvers.py"], [("Subsystem.gather/scatter, valid_modes", C+"subsystems.py")],
  ["Subproblem group, gather_inputs/scatter_inputs"])
p("C21", "Eigenvalue solves return eigenpairs of the stated problem",
  "Dense and sparse eigenvalue solves return eigenvalues and right and left eigenvectors of the stated problem for the chosen subproblem, and dense solves return the whole finite spectrum. "
  "Setting the state from a chosen mode puts that eigenvector in the variables, so that the equations hold with its eigenvalue, and leaves the other subproblems zero.",
  ["inputs", "configurations"], "All linear eigenvalue problems, subproblems, targets and mode indices.",
  "Tests check eigenvalues of a few problems for a single group.",
  [C+"solvers.py"], [("EigenvalueSolver.solve_dense/solve_sparse/set_state", C+"solvers.py")],
  ["solver.eigenvalues, eigenvectors, state fields"])
p("C22", "Newton iterations solve the exact linearization at the current state",
  "Each iteration of a nonlinear boundary value problem adds the damped solution of the exact linearization of all equations about the current state, including through nonlinear products, powers, functions and nonlinear boundary conditions. "
  "The perturbation left after an iteration is the one applied, the iteration counter counts it, and a state that already solves the equations is left unchanged.",
  ["histories", "inputs"], "All nonlinear systems, initial guesses and damping sequences.",
  "Tests only look at the converged answer.",
  [C+"solvers.py", C+"problems.py"], [("NonlinearBoundaryValueSolver.newton_iteration", C+"solvers.py")],
  ["state and perturbation fields"])
p("C23", "Memoization never changes what a call returns",
  "A memoized method, function, attribute or class returns what the undecorated one would return for the same arguments, computes once per distinct argument set while cached, is shared neither between instances nor between different arguments, and evicts only beyond its size limit. "
  "Class dispatch picks the single applicable implementation and refuses none or several.",
  ["histories", "inputs"], "All call histories, argument spellings, instances and cache limits.",
  "There is no test of the caches.",
  ["dedalus/tools/cache.py", "dedalus/tools/dispatch.py"], [("CachedMethod/CachedFunction/CachedClass/CachedAttribute", "dedalus/tools/cache.py"), ("MultiClass", "dedalus/tools/dispatch.py")],
  ["return values and call counts"])
p("C24", "Seeded random fields are reproducible and independent of the mesh",
  "Filling a field with seeded random data gives a global array that depends only on the seed, distribution and global shape, not on the process mesh, the local block requested, the order of requests or the chunk size. "
  "Different seeds give different data.",
  ["configurations", "inputs", "histories"], "All meshes, blocks, distributions and request orders.",
  "No test covers random fields.",
  ["dedalus/tools/random_arrays.py", C+"field.py"], [("ChunkedRandomArray", "dedalus/tools/random_arrays.py"), ("Field.fill_random", C+"field.py")],
  ["field data on each mesh"])
p("C25", "Transforms are exact, and only valid modes survive a grid round trip",
  "For every basis, library and scale, the backward transform evaluates the expansion of the coefficients at the grid points, the forward transform recovers exactly the represented modes, and modes that do not exist in the basis (null sines, modes beyond triangular truncation) come back as zero. "
  "Filters and reality projections act mode by mode as declared.",
  ["inputs", "configurations"], "All bases, sizes, scales, dtypes, tensor ranks and transform libraries.",
  "Tests check round trips of selected bases without enumerating modes.",
  [C+"transforms.py", C+"basis.py"], [("transform plans", C+"transforms.py"), ("valid mode masks", C+"basis.py")],
  ["Field['g'], Field['c']"])
p("C26", "A distributed run reproduces the serial run",
  "Building and solving the same problem on any process mesh gives the same global solution, eigenvalues and outputs as on one process, to rounding error, including runs whose mesh leaves processes without data or subproblems.",
  ["configurations", "histories"], "All meshes for a given problem and step history.",
  "Parallel tests cover only spherical arithmetic on one mesh; no solver is run in parallel.",
  [C+"solvers.py", C+"distributor.py", C+"subsystems.py", C+"timesteppers.py"], [("subproblem distribution and state gather", C+"solvers.py")],
  ["global solution data"])
p("C27", "String equations mean the same as the operator expressions they spell",
  "An equation given as text is split at its one top-level equals sign and evaluated in the problem's namespace, giving the same problem as the equation built from operator objects; text with no or several top-level equals signs or undefined names is refused. "
  "Substitutions, variables and built-in operator names resolve as documented, user names taking precedence.",
  ["programs", "inputs"], "All equation strings and namespaces.",
  "Tests use well-formed strings only.",
  [C+"problems.py", "dedalus/tools/parsing.py"], [("split_equation, ProblemBase.namespace", C+"problems.py")],
  ["add_equation outcome and resulting expressions"])
p("C28", "User functions and locks see fields in their declared layout, nothing else",
  "Grid functions, general functions and locked operands are evaluated on their arguments' data in the declared layout, on the dealias grid where applicable, and return a field holding exactly the function's value in that layout. "
  "Locked fields refuse to leave their permitted layouts.",
  ["histories", "inputs"], "All layouts, scales, functions and evaluation histories.",
  "Tests evaluate each once from one layout.",
  [C+"operators.py", C+"field.py"], [("GeneralFunction, UnaryGridFunction, Lock", C+"operators.py"), ("LockedField", C+"field.py")],
  ["evaluated fields"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P: assert len(x["title"]) <= 80, x["title"]
print(len(P))
