#!/usr/bin/env python3-vt
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=False):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=None)))

LAB='russell_lab/src/'; SP='russell_sparse/src/'; ODE='russell_ode/src/'; NL='russell_nonlin/src/'; PDE='russell_pde/src/'; TEN='russell_tensor/src/'

p('P01','Native failure codes never become success',
 "Whenever a native linear-algebra or sparse-direct routine reports failure through its status or info code, the library operation that issued the call returns an error. On no path does an operation return success after the code was ignored, overwritten before being examined, or examined for only some of its failing values.",
 ['inputs','fault_sequences'],'every matrix (including singular, non-convergent and out-of-memory cases) and every native call site, on every control path after the call',
 "Most failing codes cannot be provoked from a unit test (non-convergence, allocation failure, failed re-factorization); tests exercise one or two singular inputs per routine.",
 [LAB+'matrix',LAB+'matvec',SP+'solver_umfpack.rs',SP+'solver_mumps.rs',SP+'solver_cudss.rs','russell_sparse/c_code'],
 [('LAPACK info out-parameter','wrappers under '+LAB+'matrix and matvec'),('status return code','factorize/solve of every sparse solver'),('C shim return codes','russell_sparse/c_code/*.c')],
 ['Result returned by mat_inverse, solve_lin_sys, mat_svd, mat_cholesky, eigen functions, LinSolver factorize/solve'])

p('P02','Native calls never reach outside their buffers',
 "Every array handed to a native BLAS, LAPACK or sparse-solver routine is at least as large as the dimensions, strides and leading dimensions passed along with it require. This holds for every combination of argument shapes a caller can supply through the public interface; combinations that do not fit are refused before the native call.",
 ['inputs','configurations'],'every combination of argument dimensions (equal, unequal, zero, non-square) at every native call site',
 "An out-of-bounds read or write inside a native library is silent in most runs; tests use a handful of well-shaped matrices and one mismatch per argument.",
 [LAB+'vector',LAB+'matrix',LAB+'matvec',SP+'solver_umfpack.rs',SP+'solver_mumps.rs'],
 [('shape guards','start of each wrapper'),('leading dimension and workspace size arguments','unsafe blocks calling native routines')],
 ['memory contents of arguments and neighbours; Result of the wrapper'])

p('P03','Sizes and indices never wrap when narrowed for native code',
 "Every length, dimension, count or index that is converted to the 32-bit integers used by native routines and by compressed sparse storage is either known to fit or the operation refuses it loudly. A value that does not fit is never silently wrapped or truncated into a different size or index.",
 ['inputs','configurations'],'every conversion from a wider or signed integer to a narrower one in library code, for every magnitude of the value',
 "Overflow needs more than 2^31 entries (16 GB and more); no unit test allocates that.",
 [LAB+'internal/to_i32.rs',SP+'constants.rs',SP+'csc_matrix.rs',SP+'csr_matrix.rs',SP+'coo_matrix.rs',SP+'read_matrix_market.rs'],
 [('checked conversion helper','to_i32 in lab and sparse'),('range checks dominating raw casts','compressed format conversions')],
 ['integer arguments of native calls; pointers and indices arrays of sparse matrices'])

p('P04','Both sides of the native interface agree',
 "Each foreign function declared on the Rust side has exactly the parameters (number, order, machine type, pointer mutability) and return type of its C definition. Every numeric code shared by the two sides - error codes, boolean flags, norm, job, layout and transposition selectors - has the same value and meaning on both.",
 ['programs','configurations'],'every foreign declaration and shared code, including solver back ends that are not enabled in the tested build',
 "Back ends behind disabled features are not compiled by the tests, error-code branches are hardly ever taken, and a mismatched declaration usually still works on one platform by accident.",
 ['russell_lab/c_code/interface_blas.c','russell_sparse/c_code',LAB+'internal/constants.rs',SP+'constants.rs',SP+'solver_umfpack.rs',SP+'solver_mumps.rs',SP+'solver_cudss.rs'],
 [('extern "C" blocks','every file with native declarations'),('mirrored constants','constants.rs / constants.h')],
 ['values received by the C functions; error texts for each code'])

p('P05','Direct solver handles follow their life cycle',
 "A sparse direct solver produces a solution only from a factorization that completed successfully and is still current: it refuses to solve before factorization or after a failed one, and refuses a matrix whose size, entry count or symmetry differs from the one it was set up with. Its native resources are released exactly once, and a handle can be neither duplicated nor used from two threads at the same time.",
 ['histories','fault_sequences'],'every sequence of create, factorize (succeeding or failing), solve and drop calls, for every back end and both scalar types',
 "Tests follow the happy sequence and two or three wrong ones; failed re-factorizations, repeated drops and cross-thread sharing are not reached.",
 [SP+'solver_umfpack.rs',SP+'complex_solver_umfpack.rs',SP+'solver_mumps.rs',SP+'complex_solver_mumps.rs',SP+'solver_cudss.rs',SP+'complex_solver_cudss.rs','russell_sparse/c_code'],
 [('initialized / factorized flags','solver structs'),('flags inside the native handle','C shims'),('Drop and Send implementations','solver files')],
 ['Result of factorize and solve; native allocations'],
 state=[dict(name='factorized flag',meaning='a factorization that succeeded is available')])

p('P06','Independent objects share no mutable state',
 "Using one matrix, solver, integrator or any other object never influences another object the caller did not pass to it, in the same thread or another. The library keeps no mutable state outside the objects handed to each call: no mutable globals, no thread-local or lazily initialised caches, no static buffers in the C code.",
 ['schedules','histories'],'every interleaving of operations on distinct objects from any number of threads',
 "Interference needs concurrent use of distinct objects or a particular call history; tests run objects one by one.",
 ['russell_lab/src','russell_sparse/src','russell_ode/src','russell_nonlin/src','russell_pde/src','russell_tensor/src','russell_stat/src','russell_lab/c_code','russell_sparse/c_code'],
 [('absence of mutable statics','all crates and C shims'),('unsafe marker implementations','solver structs')],
 ['any result computed by two objects used side by side'])

p('P07','Errors from user callbacks always reach the caller',
 "When a function supplied by the user (right-hand side, Jacobian, residual, integrand, objective, boundary value, output observer) returns an error, the operation that invoked it returns that failure as an error. It is never swallowed, replaced by success, retried as though nothing happened, or turned into a panic. A failed update of secondary state, which the documentation declares retriable, still makes the step count as failed.",
 ['fault_sequences','histories'],'a failure at any invocation (first, k-th, inside a retry, inside an error estimate) of any user-supplied function',
 "Tests inject a failure at a few chosen invocations of a few algorithms; each call site on each path would need its own injection.",
 [LAB+'algo',LAB+'check',SP+'numerical_jacobian.rs',ODE[:-1],NL[:-1]],
 [('propagation of callback results','every call through a user-supplied function')],
 ['Result returned by the public operation'])

p('P08','A stop request ends the run at once',
 "When a user's output observer asks to stop, the integration or continuation returns without taking further steps and without invoking any user-supplied function again. This holds for observers of accepted steps and of dense output, at the first, an intermediate or the last station.",
 ['histories','configurations'],'every position in the run at which an observer may ask to stop, for every combination of outputs and stepping modes',
 "Tests stop at one or two hand-picked stations; each observer call site and stepping mode is a separate place where the request may be lost.",
 [ODE+'ode_solver.rs',ODE+'output.rs',NL+'solver.rs',NL+'output.rs'],
 [('boolean returned by observers','output execution functions'),('early return','main stepping loops')],
 ['number of observer and system invocations after the request'])

p('P09','Success is reported only after a NaN-proof convergence test',
 "An iterative algorithm reports convergence, or accepts a step, only on a path where the measured error was compared with its tolerance by a test that a NaN fails. A non-finite residual, error estimate or update is never classified as converged or accepted, and running out of iterations is reported as a failure.",
 ['inputs','histories'],'every function and starting point, including those producing NaN or infinite residuals at any iteration',
 "NaN arises only for particular functions at particular iterates; tests use well-behaved functions.",
 [LAB+'algo',NL+'iteration_error.rs',NL+'solver_natural.rs',NL+'solver_arclength.rs',ODE+'radau5.rs',ODE+'euler_backward.rs',ODE+'explicit_runge_kutta.rs',ODE+'ode_solver.rs'],
 [('convergence comparisons','iteration loops'),('iteration limits','iteration loops'),('acceptance test','stepping loops')],
 ['Result and status returned by solvers'])

p('P10','Work statistics equal the work performed',
 "The reported numbers of function evaluations, Jacobian evaluations, factorizations and linear solutions equal the numbers of times the corresponding user function or linear-solver operation was invoked during the run. This holds on every path of a run that does not fail, including rejected steps, retries and special starting points. Where a method treats a real and a complex system as a pair the pair counts once, and the extra substitutions of the error estimate of the implicit Runge-Kutta method are not counted (the convention of the reference code).",
 ['histories','configurations'],'every path through every instrumented algorithm, for every method and configuration',
 "Tests pin the totals of a few runs per method; a branch those runs do not take can miss or double a count.",
 [LAB+'algo',ODE+'stats.rs',ODE[:-1],NL+'stats.rs',NL[:-1]],
 [('counter increments next to invocations','every algorithm with statistics')],
 ['statistics returned to the user'])

p('P11','Results never depend on stale output contents',
 "An operation that writes its result into an argument supplied by the caller sets every component the result has, so the outcome does not depend on what the argument held before. Only operations documented as updates read the previous contents, and those never discard them.",
 ['inputs','histories'],'every previous content of the output argument, every supported tensor representation and every size',
 "Tests pass freshly zeroed outputs, for which a skipped component goes unnoticed.",
 [TEN[:-1],LAB+'vector',LAB+'matrix',LAB+'matvec',LAB+'small',SP[:-1]],
 [('component-wise assignments per representation','tensor operations'),('scaling factor of the previous content in native calls','matrix products')],
 ['output argument after the call'])

p('P12','Rejected arguments leave outputs untouched',
 "When an operation refuses its arguments (wrong dimension, wrong representation, invalid index, invalid option) the objects it would have written to are exactly as they were before the call. Argument checks are completed before the first component of any output is changed.",
 ['inputs'],'every invalid argument combination of every operation with a writable argument',
 "Tests check the error text, not the contents of the output after the refusal.",
 [LAB+'vector',LAB+'matrix',LAB+'matvec',LAB+'internal',SP+'coo_matrix.rs',SP+'csc_matrix.rs',SP+'csr_matrix.rs',TEN[:-1]],
 [('guards at the start of operations','all operations returning an error')],
 ['output argument after an error'])

p('P13','A reused solver behaves like a fresh one',
 "Running the same problem again with the same solver object, after any earlier run (successful, failed or stopped), follows the same computation as a newly created object would. No flag, counter, cached estimate or work value left by an earlier run is read before the new run sets it.",
 ['histories'],'every earlier history of runs on the same object',
 "Tests create a new solver per run; the few that reuse one do it after one kind of history.",
 [ODE+'ode_solver.rs',ODE+'radau5.rs',ODE+'workspace.rs',ODE+'explicit_runge_kutta.rs',NL+'solver.rs',NL+'workspace.rs',NL+'solver_arclength.rs',LAB+'algo'],
 [('reset at start of run','workspaces and statistics'),('cached flags','implicit integrators, continuation solvers')],
 ['results and statistics of a second run'])

p('P14','Changing a parameter equals constructing with it',
 "After a parameter of an existing object is changed, the object behaves as one constructed with the new value. Every quantity that was derived from the parameter at construction is recomputed when the parameter changes.",
 ['histories','configurations'],'every mutator of every object holding derived quantities, in every order of calls',
 "Tests construct with the final parameters; stale derived values appear only after a change and then influence later results slightly.",
 [TEN+'lin_elasticity.rs',ODE+'explicit_runge_kutta.rs',ODE+'euler_backward.rs',ODE+'radau5.rs',ODE+'params.rs',LAB+'algo',PDE+'equation_handler.rs'],
 [('derived fields computed in constructors','structs with setters')],
 ['results computed after a parameter change'])

p('P15','Recorded series stay aligned',
 "All series recorded during one run describe the same stations: on every path each station adds exactly one entry to every enabled series, so entry k of one series belongs with entry k of the others. Starting a new run empties all of them.",
 ['histories','configurations'],'every combination of recorded quantities, stepping modes and early terminations',
 "Tests look at a few combinations; a path that appends to some series only is visible only for particular settings.",
 [ODE+'output.rs',NL+'output.rs',NL+'stats.rs'],
 [('paired appends','recording functions'),('clearing','initialisation functions')],
 ['recorded arrays after a run'])

p('P16','Tabulated coefficients satisfy their defining identities',
 "The coefficients tabulated for each integration method satisfy, to machine precision, the consistency and order conditions of the order the library declares for that method, its embedded error estimator and its stated structure. Quadrature, transformation-matrix, index and projection tables satisfy their defining relations (exactness degree, mutual inverses, orthogonality).",
 ['configurations','programs'],'every table entry and every declared attribute of every tabulated method',
 "A small error in one coefficient lowers the order by a little without leaving the tolerance of the tests.",
 [ODE+'constants.rs',ODE+'enums.rs',ODE+'radau5.rs',LAB+'algo/quadrature.rs',TEN+'constants.rs'],
 [('coefficient tables','constants files'),('declared order and structure','method information')],
 ['convergence order and accuracy of results'])

p('P17','Malformed input files yield errors, not panics',
 "Reading a matrix, table or problem file never panics, whatever the file contains: syntax errors, missing or extra fields, out-of-range or overflowing numbers, invalid text encoding, truncated content. Each such file is refused with an error.",
 ['inputs','fault_sequences'],'every byte content of the input file and every read error',
 "The space of malformed files is unbounded; tests hold a few dozen examples.",
 [SP+'read_matrix_market.rs',LAB+'base/read_table.rs',LAB+'matrix/num_matrix.rs'],
 [('fallible parsing','reader functions')],
 ['Result of the reader; panics'])

p('P18','Matrix files declare exactly what they contain',
 "A written Matrix Market or visualisation file announces exactly as many entries as it lists: the condition that selects an entry for counting is the condition that selects it for writing. Indices are one-based for rows and columns in Matrix Market files and zero-based in visualisation files, in every storage format and scalar type. A file declared symmetric lists one triangle only.",
 ['inputs','configurations'],'every matrix pattern, tolerance, storage format, scalar type and symmetry option',
 "Tests write a couple of small matrices, without entries near the tolerance or with only one nonzero part.",
 [SP+'write_matrix_market.rs'],
 [('counting loop and writing loop','writers of each format')],
 ['content of the written file'])

p('P19','Temporarily modified inputs are restored on every exit',
 "When an operation perturbs a caller's object to evaluate something (finite differences, trial states), the object holds its original values again when the operation returns, whether it succeeds or fails. The restored values are the saved originals, not values recomputed with rounding error.",
 ['fault_sequences','inputs'],'every exit (success, or failure of the user function at any evaluation) of every perturbing operation',
 "Tests look at the result, not at the state after a failure in the middle of the evaluation.",
 [SP+'numerical_jacobian.rs',LAB+'algo/num_jacobian.rs',NL+'solver_natural.rs',NL+'solver_arclength.rs',NL+'system.rs'],
 [('perturb and restore','numerical differentiation'),('backup and restore of secondary state','continuation steps')],
 ['the perturbed argument after return'])

p('P20','Real and complex variants refuse the same inputs',
 "Operations offered in a real and a complex variant accept and refuse exactly the same argument shapes and states. The same holds for the variants of one operation over the different sparse storage formats, except where the documentation of a format states that it accepts more.",
 ['inputs','configurations'],'every argument shape and object state of every pair of variants',
 "Each variant has its own hand-written tests; a check missing in one of them is not compared with its sibling.",
 [LAB+'vector',LAB+'matrix',LAB+'matvec',SP[:-1]],
 [('argument guards','paired functions')],
 ['Result of the paired operations'])

p('P21','Configurations are validated before anything happens',
 "Every solve, integrate or search operation checks its configuration and problem definition in full, and returns an error if it is invalid, before it modifies the caller's data or invokes a user-supplied function. No entry point bypasses the checks the others perform.",
 ['configurations'],'every entry point and every invalid configuration',
 "Tests try invalid configurations through one entry point each.",
 [LAB+'algo',ODE+'ode_solver.rs',ODE+'params.rs',NL+'solver.rs',NL+'config.rs',PDE[:-1]],
 [('validation call','first statements of entry points')],
 ['Result of the entry point; invocations of user functions'])

p('P22','Solver options reach the control they name',
 "Each option offered for the sparse direct solvers (ordering, scaling, pivoting, symmetry, memory, thread and verbosity settings) is delivered to the native control of the same meaning, at the first factorization and at those that follow. Each choice a back end supports is translated to the code documented for it and any other choice to the default, and textual names convert back to the choice they came from. Solvers built on top hand the options they were given to the linear solver.",
 ['configurations'],'every option and every value of each enumeration, for every back end and both scalar types',
 "A swapped or mistranslated option still gives a correct solution, only slower or with other pivots; back ends behind disabled features are not run at all.",
 [SP+'solver_umfpack.rs',SP+'solver_mumps.rs',SP+'solver_cudss.rs',SP+'enums.rs','russell_sparse/c_code'],
 [('argument list of native initialise/factorize calls','solver files'),('code translation functions','solver files and enums')],
 ['native control arrays'])

p('P23','Results do not depend on clock, environment or hash order',
 "Numerical results, accept/reject decisions and written data depend only on the arguments of the calls. Time, random numbers, environment variables, addresses, thread timing and unordered-collection iteration order never influence them; clocks feed timing statistics only, and random numbers are drawn only from a generator the caller passes in.",
 ['schedules','configurations'],'every run environment, wall-clock behaviour and thread schedule',
 "Two runs on one machine nearly always agree; dependence on timing or hash order shows up on another machine or under load.",
 ['russell_lab/src','russell_sparse/src','russell_ode/src','russell_nonlin/src','russell_pde/src','russell_tensor/src','russell_stat/src'],
 [('stopwatches','statistics'),('absence of unordered iteration','all crates')],
 ['results of repeated runs'])

p('P24','No user function can make an operation run forever',
 "Every operation that calls a user-supplied function repeatedly comes back: the number of its passes is limited by a number that is fixed before the first pass and that each pass uses up. Whatever the function returns (constant, oscillating, infinite or NaN values), and whichever branch a pass takes, the operation ends with a result or an error.",
 ['inputs','histories'],'every user-supplied function and every sequence of accepted, rejected and repeated passes',
 "A test that meets the endless case hangs, so such functions are not tried; a single branch that forgets to use up the limit suffices, and only certain values lead there.",
 ['russell_lab/src/algo','russell_ode/src/ode_solver.rs','russell_ode/src/output.rs','russell_ode/src/radau5.rs','russell_ode/src/euler_backward.rs','russell_nonlin/src/solver.rs','russell_nonlin/src/solver_arclength.rs','russell_nonlin/src/solver_natural.rs'],
 [('iteration and step limits','loops of the iterative algorithms'),('station index of dense output','output of the integrator')],
 ['return of the operation'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+'\n')
print(len(P))
