#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            observe_at=observe or ["var%val()", "var%adj()"], hook_needed=None)))
CORE=["src/tape.F90","src/vari.F90","src/var.F90","src/nested.F90","src/grad.F90"]
UN=["src/%s.F90"%f for f in "abs acos acosh asin asinh atan atanh cos cosh erf erfc exp inv inv_logit inv_sqrt inv_square log log_gamma digamma logit sin sinh sqrt square tan tanh".split()]
BI=["src/%s.F90"%f for f in "add sub mul div pow hypot".split()]

prop("C01","Overloaded operations return the value of the real-valued function",
 "For every documented unary and binary operation, and for every argument mix (var/var, var/real, real/var), the value of the resulting variable equals the mathematical value of the operation at the operand values, up to rounding. This holds for every operand value in the interior of the operation's domain, including those that make the library take a shortcut (0, 1, equal operands, special exponents, large, small and negative arguments), and for results of operations used as operands of further operations. value_of and val read the value, of variables and of reals.",
 ["inputs","programs"],"every operation x argument mix x operand values in the operation's domain, alone and composed",
 "The unit tests evaluate each operation at one or two points and only some argument mixes; shortcut branches (x**(-2), hypot(0,x), x*1, tails of inv_logit/digamma) are only reached by particular inputs.",
 UN+BI,[("value computed when the node is built","src/*.F90 <op>_v / <op>_vv / _vd / _dv"),("shortcut branches on constant operands","src/pow.F90 pow_vd; src/hypot.F90; src/abs.F90")])
prop("C02","Each operation back-propagates its exact partial derivatives",
 "After taking the gradient of the result of any single documented unary or binary operation, the adjoint of each variable operand equals the analytic partial derivative of the operation at the operand values, up to rounding, for every argument mix. This holds over the whole interior of the operation's differentiable domain, and when both operands are the same variable the adjoint is the total derivative.",
 ["inputs"],"every operation x argument mix x operand values in the differentiable interior, including operand identity (f(x,x))",
 "Tests check derivatives at single sample points; wrong derivatives confined to a branch, a sign, a tail region or a repeated operand are not sampled.",
 UN+BI,[("chain procedures","src/*.F90 chain_*"),("digamma as derivative of log_gamma","src/digamma.F90"),("accumulation into operands","src/vari.F90 set_operand_adj")])
prop("C03","The gradient sweep computes the chain rule on every expression graph",
 "For every straight-line program that builds variables by the documented operations, calling grad on any of its variables (after all adjoints were reset to zero) leaves in every variable's adjoint the derivative of that variable with respect to it: exactly 0 for variables it does not depend on, 1 for itself. This holds for every sharing pattern (repeated operands, a variable used many times, copies of a variable), every order of construction, any unrelated variables in between (also ones evaluated at a pole or outside their domain), and for any number of repeated reset-and-grad rounds with different dependents.",
 ["programs","histories"],"all programs up to the bound over the operation alphabet, all sharing patterns, all choices and sequences of dependents",
 "Tests differentiate a few fixed expressions, almost always from the last node and once; sharing patterns, interior dependents, and repeated rounds are combinatorial.",
 CORE+BI,[("reverse sweep over the callstack","src/var.F90 grad"),("adjoint accumulation","src/vari.F90 set_operand_adj_all, set_operand_adj_by_index"),("adjoint reset","src/vari.F90 set_zero_all_adj")],
 [("callstack%varis","node order and chain procedures","src/vari.F90"),("callstack%stack","values, adjoints, operand lists","src/tape.F90")])
prop("C04","Using a variable never changes what other variables mean",
 "Building a new expression, comparing variables, or reading values and adjoints never changes the value of any existing variable, nor the gradient that any existing or future expression yields with respect to its inputs. This holds for every operation, including those whose constant operand is neutral (x+0, 0+x, x-0, x*1, 1*x, x/1, x**1, hypot with 0, +x, abs), where the result may share storage with the operand but must still have value and derivatives of the mathematical result.",
 ["programs","inputs"],"all pairs/triples of (expression already built) x (expression built later, constants including the neutral ones)",
 "A test compares the result of the expression it just built; it does not re-check all earlier variables and their gradients after every later operation with every neutral constant.",
 BI+["src/abs.F90","src/relational.F90","src/vari.F90"],[("shortcuts returning the operand itself","src/add.F90 add_vd; src/mul.F90 mul_vd; src/div.F90 div_vd; src/hypot.F90"),("per-node chain procedure","src/vari.F90 set_indexed_chain")],
 [("callstack%varis(i)%chain","which derivative rule a node uses","src/vari.F90")])
prop("C05","Nested environments obey stack discipline for every history",
 "For every history of entering and leaving nested environments (to any depth, including leaving more often than entering), creating variables, evaluating gradients over all or only the innermost variables and resetting adjoints, variables created outside an environment keep their values, their adjoints (except for what a full gradient documentedly propagates into them) and their derivative structure when that environment ends. Variables created afterwards behave as fresh variables with zero adjoint, no matter what was stored there before; the nested reset zeroes, and the nested gradient applies the derivative rules of, exactly the variables of the innermost environment (variables outside receive only what these rules add to them).",
 ["histories"],"all operation histories up to the bound over {begin, end, new, operate, grad, grad_nested, reset all, reset nested, assign}, nest depth beyond 10",
 "Tests use two or three hand-written nestings; stale state in reused slots and off-by-one errors at environment boundaries only appear for particular histories.",
 ["src/nested.F90","src/vari.F90","src/tape.F90","src/var.F90"],[("save/restore of the two stack heads","src/nested.F90 begin_nested, end_nested"),("wiping of freed tape","src/nested.F90 end_nested"),("innermost-only sweep/reset","src/var.F90 grad_nested; src/nested.F90 set_zero_nested_adj")],
 [("nest_level, nested_vari_head, nested_tape_head","environment stack","src/nested.F90")])
prop("C06","gradient(f,x) is exact, context-free and free of side effects",
 "gradient(f,x) returns f(x) followed by all partial derivatives of f at x for every f built from the documented operations, whatever variables, adjoints and nested environments already exist when it is called, and however often it is repeated. When it returns, the values of all variables that existed before the call and the adjoints of those that f itself did not read are unchanged, also when f itself calls gradient or jacobian.",
 ["programs","histories"],"all functions f (programs up to the bound), all inputs from the value lattice, all calling contexts (prior adjoints, nesting, captured variables, recursion)",
 "Tests call gradient on a fresh state with closed functions; contexts with non-zero adjoints, captured outer variables or recursive calls are never exercised.",
 ["src/grad.F90","src/nested.F90","src/var.F90"],[("gradient in a private nested environment","src/grad.F90 gradient"),("sweep restricted to the nested environment","src/var.F90 grad_nested")])
prop("C07","jacobian(f,n,x) is exact row by row, context-free and side-effect free",
 "jacobian(f,n,x) returns the n values of f at x in its first column and, in row i of the other columns, exactly the partial derivatives of the i-th component, for every f, every n and every input size, including components that share sub-expressions, coincide with each other, coincide with an input, or do not depend on the inputs. When it returns, the values of all pre-existing variables and the adjoints of those f did not read are unchanged, and the result depends on nothing but x and the values f reads.",
 ["programs","histories"],"all vector functions up to the bound with all row-sharing patterns, all m,n up to the bound, all calling contexts",
 "Tests use one small function with independent rows on a fresh state.",
 ["src/grad.F90","src/nested.F90"],[("per-row reset and sweep","src/grad.F90 jacobian")])
prop("C08","Storage growth is invisible: capacity never affects results or memory safety",
 "Every program and history yields the same values and adjoints regardless of how many variables or records were created before, of the initial storage size the library was built with, and of where in the program storage has to grow. No access outside allocated storage happens, including when storage is exactly full, when one record is larger than the current capacity, and on an untouched library.",
 ["programs","histories","configurations"],"all programs/histories up to the bound x initial storage sizes x growth positions (growth at every operation)",
 "The growth tests cover one size and one record kind; every (operation, remaining capacity) combination is out of reach of hand-written cases.",
 ["src/vari.F90","src/tape.F90","src/env.F90","src/nested.F90"],[("doubling of node array","src/vari.F90 alloc_vari_stack_n"),("doubling of tape","src/tape.F90 alloc_storage")],
 [("n_varis/head","node capacity and fill","src/vari.F90"),("storage_size/head","tape capacity and fill","src/tape.F90")])
prop("C09","Array operations equal their scalar definition for every shape",
 "sum, norm2, log_sum_exp, dot_product, matmul and elemental application of the operations to arrays (of any rank, array with array, array with scalar, var with real) produce, for every conforming shape, array section (also strided, reversed or overlapping) and pattern of repeated elements, the values and derivatives obtained by writing the operation out with scalar variables.",
 ["inputs","programs"],"all shapes up to the bound (including single-element and rectangular), argument mixes, sharing patterns among elements, and array sections",
 "Tests use one or two fixed shapes with distinct elements; index arithmetic errors show only for particular rectangular shapes, repeated elements or strides.",
 ["src/matmul.F90","src/dot_product.F90","src/sum.F90","src/norm2.F90","src/log_sum_exp.F90","src/array_in_tape.F90","src/sub.F90"],[("index lists stored in the tape","src/array_in_tape.F90"),("row/column lookup in sweep","src/matmul.F90 chain_matmul_*"),("elemental procedures","src/add.F90 etc.")])
prop("C10","Comparisons order variables exactly like their real values",
 "Each of ==, /=, <, <=, >, >= between two variables, a variable and a real, or a real and a variable, scalar or elementwise on arrays, gives exactly the result of the same comparison on the values, for every pair of values including equal ones, signed zeros, infinities, denormals and NaN; is_nan of a variable is that of its value.",
 ["inputs"],"all operators x argument orders x value pairs from a lattice containing all orderings and IEEE special values",
 "The existing test covers a few operator/argument-order combinations, not every order with every sign of the difference.",
 ["src/relational.F90","src/arith.F90"],[("operator overloads","src/relational.F90"),("is_nan","src/arith.F90")],None,["logical results"])
prop("C11","Log densities and their gradients are exact",
 "normal_lpdf and lognormal_lpdf return the exact log density summed over the data (including all normalising terms), and back-propagate its exact partial derivatives to whichever of location and scale are variables, for every sample size, data value in the support, location, positive scale and argument mix, also when the same variable is used for both parameters or the result enters a larger expression.",
 ["inputs","programs"],"all argument mixes x sample sizes x data/location/scale lattices x sharing and composition",
 "Tests evaluate one data set per density.",
 ["src/prob/normal_lpdf.F90","src/prob/lognormal_lpdf.F90","src/chain_eager_adj.F90","src/value_of.F90"],[("eager partials","src/chain_eager_adj.F90")])
prop("C12","ODE data solutions solve the initial value problem to tolerance",
 "cvodes_sol with real data returns, for every requested output time, the solution of the initial value problem defined by the user's right-hand side, start time and initial state, with error commensurate with the requested tolerances, for either integration method, any number of equations and output times, and whatever problems were solved before. Every column refers to its own output time, and tightening the tolerances drives the error down.",
 ["inputs","configurations","histories"],"problems of several kinds and sizes x methods x tolerances x start times x output grids x array layouts x preceding solves",
 "Tests solve one or two problems starting at t=0 with a single tolerance and compare with stored numbers.",
 ["src/cvodes.F90","src/cvodes_model.F90","src/cvodes_options.F90","lib/sundials-6.1.1"],[("CVODES set-up and stepping","src/cvodes.F90 cvodes_sol_data"),("right-hand side trampoline","src/cvodes_model.F90 RhsFn")],None,["cvodes_sol result"])
prop("C13","ODE sensitivities to the initial state are exact to tolerance",
 "When the initial state is given as variables, every component of the solution at every output time carries its value and back-propagates its derivative with respect to every initial-state component, equal to the derivative of the exact flow to within the requested tolerances, for every number of equations, method, start time and output grid. The Jacobian of a right-hand side that calc_jac_yvar computes is exact too.",
 ["inputs","configurations"],"problems x sizes x methods x tolerances x output grids, all (component, time, initial component) triples",
 "Tests check one problem with two or three equations.",
 ["src/cvodes.F90","src/cvodes_model.F90"],[("forward sensitivity right-hand side by AD","src/cvodes_model.F90 set_sens_rhs"),("seed of identity sensitivities","src/cvodes.F90 new_cvodes_service")],None,["var%val()","var%adj()"])
prop("C14","ODE sensitivities to parameters are exact to tolerance",
 "When parameters are given as variables, every component of the solution at every output time carries its value and back-propagates its derivative with respect to every parameter, equal to the derivative of the exact solution to within the requested tolerances, for every number of parameters (one, fewer than, equal to, or more than the number of equations), method, start time and output grid, including parameters the right-hand side does not use.",
 ["inputs","configurations"],"problems x numbers of equations and parameters x methods x tolerances x output grids, all (component, time, parameter) triples",
 "Tests check problems with exactly three parameters.",
 ["src/cvodes.F90","src/cvodes_model.F90"],[("forward sensitivity right-hand side by AD","src/cvodes_model.F90 set_sens_rhs"),("zero seed for parameters","src/cvodes.F90 new_cvodes_service")],None,["var%val()","var%adj()"])
prop("C15","ODE solutions are ordinary variables in the AD graph",
 "A solution obtained with variable initial state or parameters composes with the rest of a program: gradients of any expression of solution components propagate through the solve to whatever expressions the initial state or parameters were computed from, exactly as the chain rule prescribes. The solve itself leaves all pre-existing variables, their values and adjoints, and the nesting state unchanged, works inside nested environments and inside gradient/jacobian, and several solves in one program do not influence each other.",
 ["programs","histories"],"all combinations of (upstream expression, solve kind, downstream expression, context, number and order of solves)",
 "Tests only differentiate solution components with respect to leaf variables in a fresh program.",
 ["src/cvodes.F90","src/cvodes_model.F90","src/nested.F90","src/chain_eager_adj.F90"],[("solution stored as variables with partials","src/cvodes.F90 + src/chain_eager_adj.F90"),("nested environment around right-hand side evaluation","src/cvodes_model.F90 set_sens_rhs")])
prop("C16","A solve that fails never returns numbers as if it had succeeded",
 "If the solver cannot be set up or cannot reach an output time (step limit exceeded, invalid tolerances, method or output time, right-hand side producing NaN, or memory exhausted at any allocation), the call does not return normally: the program is stopped with an error status. If it does return normally, the result is the correct solution.",
 ["fault_sequences","inputs"],"every allocation made during a solve failing in turn (single faults, each solve kind), and every invalid-argument class",
 "No test injects a failure; error returns of most set-up calls are never exercised.",
 ["src/cvodes.F90","src/cvodes_options.F90"],[("checks of solver return flags","src/cvodes.F90")],None,["exit status","cvodes_sol result"])
prop("C17","Solves, gradients and nested environments release everything they acquire",
 "Repeating any ODE solve (with user-defined solver options too, provided the user releases what the user created), gradient/jacobian evaluation or nested environment any number of times does not accumulate memory: after a first warm-up the number and size of live allocations is the same after each repetition, and nothing is released twice or used after release.",
 ["histories","configurations"],"every kind of solve/gradient/nesting, solver setting and pair of settings, problem sizes, repetition counts, in sequence and in combination",
 "Tests run each feature once and do not observe memory.",
 ["src/cvodes.F90","src/nested.F90","src/tape.F90","src/vari.F90"],[("finaliser of solver resources","src/cvodes.F90 free_cvodes_service"),("heads restored at end of nested environment","src/nested.F90 end_nested")],None,["live heap after each repetition"])
prop("C18","User-defined operations behave like built-in ones",
 "A variable built from a value, operand variables and/or stored real data, with a user-supplied derivative rule, or with user-supplied partials (var_with_partials), gives back exactly the stored value, operand count, operand values and data inside the rule, and its rule is applied exactly once per gradient with the right adjoint (it may be skipped where that adjoint is zero), for every number of operands and data items (including none and repeated operands) and anywhere in an expression graph.",
 ["inputs","programs"],"all (operand count, data count, repetition pattern) up to the bound x position in the graph",
 "Tests build one record of a fixed shape; size-dependent offsets in the record layout are not enumerated.",
 ["src/var.F90","src/vari.F90","src/tape.F90","src/chain_eager_adj.F90"],[("record layout","src/tape.F90 push_val_op_dop"),("rule registration","src/var.F90 set_chain")])
prop("C19","Construction and assignment set values and nothing else",
 "var(), var(x) for scalars and arrays, var(n) and var(m,n) create distinct variables with the given (or zero) values and zero adjoints; assigning reals to existing variables (scalar, array, array from scalar, array sections) changes exactly the values of the assigned variables, and a later gradient uses derivatives consistent with the values current at the documented evaluation. Copying a variable makes the copy refer to the same quantity.",
 ["histories","inputs"],"all shapes up to the bound, all sections, all histories of create/assign/copy/read/gradient up to the bound",
 "Tests construct a few fixed shapes and read back; element-to-variable mapping and cross-talk for every shape/section are not covered.",
 ["src/var.F90","src/vari.F90","src/tape.F90"],[("constructors","src/var.F90 new_var*"),("assignment","src/var.F90 set_var_*")])
prop("C20","Invalid arithmetic never turns into a plausible finite result",
 "If an operand of a documented operation is NaN, or lies outside the operation's real domain, the result is NaN (or the program stops with an error), never a finite number; overflow and poles give infinities as in real arithmetic. The gradient with respect to a NaN operand is likewise NaN for abs and for operations whose derivative depends on that operand. (IEEE conventions stand: x**0 and 1**y are 1 even for NaN, hypot with an infinite operand may be infinite, and the sign of an infinity at a pole in a signed zero is free.)",
 ["inputs"],"all operations x argument mixes x {NaN, infinities, out-of-domain values} lattice",
 "Only a couple of NaN cases are tested.",
 UN+BI,[("NaN handling","src/abs.F90, src/acosh.F90, src/atanh.F90"),("propagation by IEEE arithmetic","src/*.F90")])
prop("C21","Results do not depend on the supported build configuration",
 "Every supported build configuration - optimisation level, static or shared library, with or without the ODE component, and the supported GNU Fortran versions - gives the same values, derivatives and ODE solutions up to rounding, and every program that runs correctly in one runs correctly in all.",
 ["configurations","programs"],"all build configurations available here x a program suite covering every operation, nesting, gradient and ODE solve",
 "The suite is run in one configuration only.",
 ["meson.build","meson_options.txt","src/cvodes.F90","src/vari.F90"],[("standard-conforming use of pointers, finalisers and targets","src/cvodes.F90, src/cvodes_model.F90")])
prop("C22","The bundled assertion helpers accept only what they should",
 "Each assertion helper of the library's test support module returns normally when its arguments agree (real arguments differ by less than the given absolute tolerance, or for the float and double equality helpers by less than four units in the last place of 1 in that precision; integers are equal; the condition is true) and terminates with a failure status when they do not, for scalars and for every element position of one- and two-dimensional arrays of equal shape, contiguous or not, including NaN on either side, which never agrees with anything.",
 ["inputs"],"all helpers x value pairs x tolerances x shapes x mismatch positions",
 "The helpers are only exercised on passing comparisons; a helper that never fails would silence the whole test suite.",
 ["src/test.F90"],[("expect_* helpers","src/test.F90")],None,["exit status"])
prop("C23","The bundled vector and dense linear algebra kernels are correct",
 "The vector kernels and dense matrix/linear-solver operations the ODE component is built on compute their specified results for every size and content: vector arithmetic element by element for every aliasing of arguments and coefficient special case, and dense factor-and-solve returns the solution of every regular system (any pivoting pattern) and flags every exactly singular one.",
 ["inputs"],"all small integer matrices up to the bound, all vector sizes/coefficients/aliasings from the lattice",
 "The repository has no tests of the bundled solver library at all.",
 ["lib/sundials-6.1.1/src/nvector/serial","lib/sundials-6.1.1/src/sunmatrix/dense","lib/sundials-6.1.1/src/sunlinsol/dense","lib/sundials-6.1.1/src/sundials/sundials_dense.c"],[("LU with partial pivoting","sundials_dense.c denseGETRF/denseGETRS"),("serial vector kernels with +-1 coefficient fast paths","nvector_serial.c")],None,["return flags and result arrays"])
prop("C24","The cost of an ODE solve follows the problem and the tolerances",
 "The number of evaluations of the user's right-hand side in a solve is what the chosen variable-order method needs: asking for further output times costs next to nothing, BDF takes no more than a few times the evaluations when a stiff system becomes stiffer (so that a step limit that suffices for the mild system suffices for the stiff one), tightening the tolerances raises the number only moderately as a high-order method does, a step limit that suffices changes neither the evaluations nor the result, and each solve stays within a budget stated for its problem, method and tolerance, with or without sensitivities.",
 ["inputs","configurations"],"problems of all kinds (smooth, oscillating, discontinuous, stiff) x sizes x methods x tolerances x output grids x step limits x kinds of solve",
 "No test counts evaluations; a solver that still meets the tolerances but only by taking far more or far smaller steps passes all of them and then exhausts the step limit or the time of its users.",
 ["src/cvodes.F90","src/cvodes_options.F90","lib/sundials-6.1.1/src/cvodes"],[("solver set-up and output loop","src/cvodes.F90"),("step size and order selection, Newton iteration","lib/sundials-6.1.1/src/cvodes/cvodes.c, cvodes_ls.c, cvodes_nls.c")],None,["number of calls of the user's right-hand side","cvodes_sol result"])
prop("C25","Solver options set through a user-defined option type take effect and keep solutions right",
 "A user who extends cvodes_options or cvodes_tol and sets CVODES options in set_cvodes_options gets what was asked for: the procedure runs once, before the first evaluation of the right-hand side; options that restate the defaults change no result in any bit; options that choose how the solve proceeds (step size and order limits, initial step, iteration limits, linear and nonlinear solvers, user-supplied Jacobians and linear systems, band and matrix-free solvers, sensitivity tolerances, error control, stability detection, events) are obeyed in every step and leave values and derivatives as accurate as the tolerances ask; a stop time is never overstepped; every component follows its own absolute tolerance; inequality constraints hold after every internal step, and a solve that can satisfy them does not stop; and where the settings make the solve impossible the program stops instead of returning anything wrong.",
 ["inputs","configurations","histories"],"setting sequences (single, pairs, neutral, impossible, risky) x problems x sizes x methods x kinds of solve x directions x tolerances",
 "The test suite sets no option beyond the tolerances; documented extension points of cvodes_options reach solver paths no test runs.",
 ["src/cvodes_options.F90","src/cvodes.F90","lib/sundials-6.1.1/src/cvodes"],[("extension point set_cvodes_options","src/cvodes_options.F90, src/cvodes.F90"),("option setters","lib/sundials-6.1.1/src/cvodes/cvodes_io.c, cvodes_ls.c"),("stop times, step limits, constraints, events, error weights","lib/sundials-6.1.1/src/cvodes/cvodes.c"),("fixed-point and Newton iterations, sensitivities","lib/sundials-6.1.1/src/cvodes/cvodes_nls*.c"),("band preconditioner and diagonal solver","lib/sundials-6.1.1/src/cvodes/cvodes_bandpre.c, cvodes_diag.c")],None,["cvodes_sol result","times at which the right-hand side is evaluated","CVODES statistics"])
prop("C26","Every internal step of an ODE solve is a step of the chosen method",
 "In a solve with CV_BDF or CV_ADAMS every accepted internal step of the state and of every sensitivity is a step of the variable-order, variable-step method at the order CVODES reports: its values and slopes satisfy the formula of that order on the actual history of steps (fixed-leading-coefficient BDF up to order 5, Adams-Moulton up to order 12), also across changes of order and step size and after failed attempts; the implicit equation is solved to a fraction of the tolerance; the error weights and the local error estimate are those of the method, and no step whose estimate exceeds the tolerance is accepted; the first step, and then each next step and order, are what the error estimates call for within the limits set; with stability limit detection on, BDF of order 3 or more gives up one order exactly when the last five steps show the step size limited by stability; and outputs, values and derivatives, come from the interpolant of the step that reaches them.",
 ["inputs","histories","configurations"],"every internal step of every solve in problems x sizes x methods x kinds of solve x directions x tolerances x lengths x settings",
 "Tests compare a few final values with loose tolerances; a wrong coefficient in one order or one kind of order change only costs accuracy or work there, which the step size control hides.",
 ["lib/sundials-6.1.1/src/cvodes","src/cvodes.F90"],[("coefficients, order changes and step size selection","lib/sundials-6.1.1/src/cvodes/cvodes.c cvSet, cvAdjustOrder, cvCompleteStep, cvPrepareNextStep"),("initial step","lib/sundials-6.1.1/src/cvodes/cvodes.c cvHin"),("stability limit detection","lib/sundials-6.1.1/src/cvodes/cvodes.c cvBDFStab, cvSLdet"),("interpolation","lib/sundials-6.1.1/src/cvodes/cvodes.c CVodeGetDky, CVodeGetSensDky1"),("convergence of the nonlinear iteration","lib/sundials-6.1.1/src/cvodes/cvodes_nls*.c"),("method passed on","src/cvodes.F90 init_cvodes_service")],None,["step history seen through an event function (CVodeGetDky, CVodeGetLastStep, CVodeGetLastOrder, error weights and estimates)","cvodes_sol result"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
