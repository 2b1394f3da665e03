"""Properties: statements, anchors, deciding method.  gen.py writes
properties.jsonl and MANIFEST.json from this file."""

OPS = ["pyproximal/ProxOperator.py", "pyproximal/proximal/", "pyproximal/projection/"]
SOLV = ["pyproximal/optimization/primal.py", "pyproximal/optimization/primaldual.py", "pyproximal/optimization/palm.py",
        "pyproximal/optimization/pnp.py", "pyproximal/optimization/bregman.py",
        "pyproximal/optimization/segmentation.py", "pyproximal/optimization/sr3.py"]
UTIL = ["pyproximal/utils/gradtest.py", "pyproximal/utils/moreau.py", "pyproximal/utils/bilinear.py"]

COMMON = [
    "the abstract interpreter's summaries of numpy/scipy/pylops/numba calls (checker/ext.py) are right about which "
    "results alias their arguments, what is written in place and what a result depends on",
    "user-supplied operators, denoisers and callbacks do not themselves modify the arrays they are given, but may "
    "return them (pylops.Identity(inplace=True) does)",
    "values reached through recursion or loops are joined after a bounded number of unrolled rounds with weak "
    "updates; whatever the analysis cannot determine is not reported",
]

P = {}


def prop(pid, title, statement, over, qtext, why, files, mechanism, technique, note, explain, assumptions=(), level="other"):
    P[pid] = dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, explain=explain,
                  assumptions=list(assumptions) or COMMON, level=level)


ENGINE = ("Abstract interpretation of the source of /repo/pyproximal (heap with allocation sites, views, dependence "
          "sets, per-facet lattices), started from every public entry point under every combination of parameter "
          "kinds, booleans and enumerated strings (capped at a sampled set where the product exceeds 160), with the "
          "stable environment predicates (isinstance, availability flags) forked. ")

prop("C01", "Operators and projections never modify the arrays they are given",
     "Evaluating a proximal operator or a projection (value, prox, proxdual, gradient, projection), or an operator "
     "combined from others, leaves every array passed to the call and every array that was given at construction "
     "exactly as the caller provided it. Only freshly created arrays are written in place.",
     ["inputs", "configurations"],
     "every public operator, projection and combinator, every construction variant (scalar or array parameter, "
     "optional arguments present or absent, engines, schedules) and every input array",
     "A test compares outputs, not inputs, and an in-place write often only happens for some shape, axis, engine "
     "or parameter combination; the tests reuse few inputs after the call.",
     OPS,
     [dict(name="copies before in-place stores", where="pyproximal/proximal/*.py, pyproximal/projection/*.py"),
      dict(name="operator algebra wrappers", where="pyproximal/ProxOperator.py:_SumOperator, _PostcompositionOperator, _PrecompositionOperator")],
     "interprocedural alias and effect analysis (abstract interpretation of the AST)",
     "Every in-place write (subscript store, augmented assignment, out=, ufunc.at, sort/fill/put and friends) that "
     "can reach a buffer owned by the caller is reported; writes through unknown external calls are assumed absent.",
     ENGINE + "Rule caller-memory: the set of buffers reachable from a call argument or a construction argument "
     "must not meet the target of any in-place write. One obligation per (entry, method, configuration).")

prop("C02", "Solvers and utilities never modify caller arrays or corrupt live iterates",
     "Running a solver, the gradient tests or the Moreau check leaves every array the caller passed (initial "
     "guesses, data, weights, step-size arrays) unchanged. An in-place update inside a solver never changes "
     "another quantity that is still needed, even when an operator returns the very array it was given.",
     ["inputs", "configurations", "programs"],
     "every solver and utility, every combination of optional arguments, every operator or linear operator, "
     "including those returning their argument",
     "Tests run solvers once on operators that return new arrays; identity-like operators and reused initial "
     "guesses are not sampled.",
     SOLV + UTIL,
     [dict(name="x0.copy() at start of each solver", where="pyproximal/optimization/primal.py"),
      dict(name="out-of-place updates", where="pyproximal/optimization/primaldual.py")],
     "interprocedural alias and effect analysis with may-alias external operators",
     "External operators are modelled as returning either a new array or their argument; a write to a buffer which "
     "is still reachable through another live variable with a different meaning is reported.",
     ENGINE + "Rules caller-memory and clobber: in-place writes must not reach caller buffers; a buffer written in "
     "place must not be shared with another variable that is read later, when external operators may return their "
     "argument.",
     COMMON + ["a step-size array the documentation of backtracking rules out is not a configuration considered"])

prop("C03", "Evaluation leaves an operator's parameters and later results unchanged",
     "No evaluation of an operator changes the parameters it was built with, and evaluating its value or gradient "
     "leaves the whole operator as it was. The only effects one call may have on a later one are the documented "
     "call counter and warm-start.",
     ["histories", "configurations"],
     "every sequence of evaluations (value, prox, proxdual, gradient) on every operator and "
     "bilinear operator, all construction variants",
     "A history-dependence bug needs a particular earlier call; tests build a new operator per assertion and "
     "mostly call each method once.",
     OPS + ["pyproximal/utils/bilinear.py"],
     [dict(name="count increment and warm start attributes", where="pyproximal/proximal/L2.py:prox; pyproximal/ProxOperator.py:_check_tau")],
     "typestate / heap-effect analysis of operator attributes over call sequences",
     "Attribute re-binding and in-place changes of attributes are tracked per attribute; caches keyed on compared "
     "values are accepted.",
     ENGINE + "Rules parameters-kept (attributes holding construction parameters keep value and identity), "
     "evaluation-pure (value and gradient write no attribute), history (attributes written by prox may only be the "
     "counter, the documented warm start, or caches recomputed as a function of parameters).")

prop("C04", "Returned arrays and recorded iterates stay the caller's own",
     "An array returned by an operator, projection or solver is neither the caller's input nor memory which the "
     "operator keeps or which was passed at construction, so writing to it changes nothing else. An iterate handed "
     "to a callback, or an array returned earlier, is never modified afterwards.",
     ["histories", "configurations", "programs"],
     "every public operator, projection and solver, every configuration with and without callback",
     "The aliasing is only visible if the caller writes to a result or keeps the iterates of a callback, which the "
     "tests do not do.",
     OPS + SOLV,
     [dict(name="new arrays per iteration and copies of the warm start", where="pyproximal/optimization/*.py; pyproximal/proximal/L2.py, Quadratic.py, Nonlinear.py")],
     "escape and alias analysis (abstract interpretation)",
     "Identity returned by an operator called with its own input is allowed; only aliases of retained state or "
     "construction parameters are reported.",
     ENGINE + "Rules result-fresh (buffers of the result are disjoint from operator state and construction "
     "parameters) and handed-out (no in-place write after a buffer was passed to the callback).")

prop("C05", "A non-positive step size is rejected before anything happens",
     "Calling prox or proxdual of any operator with a negative or zero scalar step, passed by position or keyword, "
     "raises ValueError. The rejected call changes nothing: neither the operator's call counter nor any other part "
     "of its state.",
     ["inputs", "configurations"],
     "all operators and combinators, prox and proxdual, tau < 0 and tau = 0, scalar tau, both calling conventions, all configurations",
     "Tests of the check cover a couple of operators with one value.",
     ["pyproximal/ProxOperator.py", "pyproximal/proximal/"],
     [dict(name="_check_tau decorator", where="pyproximal/ProxOperator.py:_check_tau")],
     "sign-domain abstract interpretation over all paths of prox/proxdual",
     "A path returning normally with a tau known to be non-positive is a violation; user-defined methods outside "
     "the library are not covered.",
     ENGINE + "Rules tau-rejected (no normal return with tau in {<0, =0} and ValueError on the raising path) and "
     "tau-before-effects (no attribute write before the rejection).")

prop("C06", "Call counters advance once per prox and schedules follow them",
     "A callable parameter (sigma, kappa, radius, number of inner iterations) is asked for its value in every "
     "evaluation that uses it, with the number of prox evaluations made so far, the current one included. Every "
     "evaluation of prox, also one made through the dual, advances that number by exactly one; evaluating the value "
     "does not advance it.",
     ["histories", "configurations"],
     "all operators accepting schedules, every method, every number of earlier calls, all configurations",
     "Needs histories of calls mixing methods; tests use constants or one schedule.",
     OPS,
     [dict(name="count attribute and schedule evaluation", where="pyproximal/proximal/L1.py, L0.py, L2.py, TV.py, MumfordShah; pyproximal/ProxOperator.py")],
     "constant-propagation typestate of the call counter over call histories",
     "Histories are enumerated up to length four; counters are concrete, inputs and all other values abstract.",
     ENGINE + "Nine call histories of up to four evaluations are interpreted on each operator with a schedule. Rules "
     "count-once (all schedules of an evaluation get the same counter, which is the previous one plus one in prox "
     "and proxdual and the previous one in the value), schedule-current (no result depends on a schedule that was "
     "not asked in this evaluation), schedule-asked (prox asks the schedule).")

prop("C07", "Verbosity only decides what is printed",
     "With its verbosity flag off a solver or utility prints nothing. Turning the flag on changes neither the "
     "returned values nor the sequence of callback, proximal and projection evaluations that change operator state.",
     ["configurations", "inputs"],
     "all solvers and utilities with a show/verb flag, every configuration of the other parameters",
     "Tests run almost everything with one flag setting, and do not compare both, nor capture output.",
     SOLV + UTIL,
     [dict(name="if show: blocks", where="pyproximal/optimization/*.py; pyproximal/utils/*.py")],
     "information-flow (dependence) analysis from the verbosity flag, explicit and implicit flows",
     "Dependence of results, attribute writes and external calls on the flag is tracked through data and control; "
     "evaluating an operator's value for display is allowed.",
     ENGINE + "Rules silent (no print reachable with the flag off), show-result (result does not depend on the "
     "flag), show-effect (no state write or state-changing operator call controlled by the flag).")

prop("C08", "The callback sees every iteration exactly once, also the last",
     "A callback passed to a solver is called exactly once per iteration performed, including the iteration at "
     "which a tolerance stops the solver. The solution a solver returns is the iterate its callback received last.",
     ["inputs", "configurations", "histories"],
     "every solver with a callback, every configuration, every iteration count of at least one, every stopping reason",
     "The existing tests do not count callbacks, and never combine them with early stopping.",
     SOLV,
     [dict(name="if callback is not None: callback(x)", where="pyproximal/optimization/*.py")],
     "path-sensitive typestate of the iteration (callback count per loop trip, must-stamp on iterates)",
     "Counts calls on each path through an iteration, break paths included; the returned array must be one which "
     "was handed to the callback in its last call.",
     ENGINE + "Rules callback-count (exactly one call per trip of the main loop on each path including break) and "
     "callback-returned (the returned iterate carries the stamp of the last callback).",
     COMMON + ["Bregman's inner solver and SR3 (no callback) are judged on their outer loop only / not judged",
               "iteration budgets are at least one"])

prop("C09", "Iteration budgets and tolerances are obeyed",
     "A solver performs exactly the requested number of iterations unless a tolerance given by the user is met, and "
     "the inner loops of operators and projections that have an iteration limit run exactly that many times at most "
     "(total variation: one more). An iteration whose monitored change is below a given tolerance is the last one, and that change is measured "
     "between this iterate and the previous one.",
     ["inputs", "configurations", "histories"],
     "every solver and every operator or projection with an iteration limit or tolerance, all values, all configurations",
     "Off-by-one budgets, or tolerances tested the wrong way around, still converge on the tests' problems.",
     SOLV + OPS,
     [dict(name="for iiter in range(niter) / tol checks", where="pyproximal/optimization/*.py; inner loops of proximal/*.py")],
     "trip-count analysis with linear forms and forced-tolerance path exploration",
     "Trip counts are derived from range bounds or counter comparisons as parameter + constant; tolerance tests "
     "are decided both ways by forcing the comparison.",
     ENGINE + "Rules budget (trip count of each loop bounded by a limit parameter is exactly that parameter), "
     "tolerance-only (no exit before the budget without a met tolerance), tolerance-stops (an iteration whose change "
     "is below the tolerance is the last), tolerance-measures (over three exact iterations in the domain of linear forms the "
     "quantity compared with the tolerance is not identically zero, is not the distance to an older iterate, and combines the "
     "function values of both iterates).")

prop("C10", "Documented parameters take effect and wrappers hand them on",
     "Every documented parameter takes effect: the outcome of each method it is documented for (value, prox, "
     "gradient, projection, solution) depends on it in every configuration it applies to, switches select different "
     "behaviour, and a class or function that wraps another one passes the caller's parameters on unchanged.",
     ["configurations", "inputs"],
     "every parameter of every public operator, projection, solver and utility; all combinations of the other parameters",
     "A silently ignored option gives plausible results; tests rarely vary one option with everything else fixed, "
     "and most options appear in no assertion.",
     OPS + SOLV + UTIL,
     [dict(name="parameters stored in __init__ and read by the methods", where="pyproximal/proximal/*.py, pyproximal/projection/*.py"),
      dict(name="solver keyword arguments and solver wrappers", where="pyproximal/optimization/*.py")],
     "interprocedural data and control dependence (slicing) from each parameter to the outcome",
     "A parameter counts as taking effect when the outcome depends on it at all; that it has the right effect is "
     "not decided. Parameters of inner iterative solvers are judged on prox only; documented exceptions are tabled.",
     ENGINE + "Rules takes-effect (the result, or the arguments of a call to a user object or of an iterative "
     "solve, carry a dependence on the parameter), switch (the two settings of a flag lead to distinguishable "
     "executions), forwarded (wrappers: the callee's parameter of the same name receives the caller's value).")

prop("C16", "Every documented way of calling the library works",
     "Every documented combination of argument kinds (optional arguments given or not, scalar or array, enumerated "
     "strings, schedules, callbacks, verbosity) runs without an internal error: no undefined variable or attribute, "
     "no wrong number or name of arguments, no operation on a missing value.",
     ["configurations", "inputs", "programs"],
     "every public operator, projection, combinator, bilinear operator, solver and utility, each method, every combination of documented argument kinds",
     "The combinations are far more than the tests sample (many options appear in none); a broken one only fails "
     "when used.",
     OPS + SOLV + UTIL,
     [dict(name="signatures and defaults", where="pyproximal/**/*.py")],
     "definedness and call-shape checking by abstract interpretation of every configuration",
     "Only errors that occur on every refinement of a path are reported: undefined names, missing attributes, "
     "argument mismatch, None used as an operand; shape errors are out of scope.",
     ENGINE + "Rule defined: no path of an admissible configuration ends in NameError, UnboundLocalError, "
     "AttributeError, or a TypeError of argument binding / None operand, and values only assigned on some paths are "
     "not read on others under the same condition.")

prop("C17", "Objects share no state and results are repeatable",
     "A result depends only on the arguments of the call and on the object's own construction and earlier calls. "
     "Separate objects and separate calls never influence each other through module or class variables, default "
     "arguments, closures or caches; nothing depends on random numbers (gradient tests excepted), the clock or "
     "uninitialised memory; and global settings of numpy or the interpreter are left alone.",
     ["histories", "inputs", "configurations"],
     "every public operator, projection, solver and utility, any interleaving of objects and calls in one process",
     "Tests build one object and look at one result; interference needs two objects or calls in a particular order, "
     "and uninitialised memory is usually zero.",
     OPS + SOLV + UTIL,
     [dict(name="state kept in instance attributes only", where="pyproximal/proximal/*.py (count, x0, factors)"),
      dict(name="no module-level mutable state", where="pyproximal/**/*.py")],
     "effect analysis on everything that exists after import, and taint from nondeterministic sources",
     "Shared means reachable from module, class, closure or default-argument objects created at import. An np.empty "
     "buffer counts as initialised after any store that is not selected by a mask.",
     ENGINE + "Rules shared-state (no write to a module or class variable, shared closure variable, default argument "
     "or array or container created at import; no process-wide result cache), settings (no call changing numpy, "
     "warnings, random or interpreter settings), repeatable (no value returned, kept or passed to a user object "
     "depends on a random, clock, address or uninitialised source).")

prop("C18", "Invalid parameters are rejected, valid ones accepted",
     "Calls outside the documented domain end in the documented exception before any work is done, and calls inside "
     "it do not: penalty parameters out of range, unknown solver, engine or acceleration names, missing initial "
     "guesses, empty or mismatched lists, weights that do not sum to one (up to rounding), inputs of the wrong size "
     "for a stack, rectangular quadratic operators, and operands of the wrong type in the operator algebra.",
     ["inputs", "configurations"],
     "every guarded parameter: all values on both sides of its boundary, in every configuration of the other parameters",
     "Tests try one invalid value; boundary values, combinations with other parameters and valid values that "
     "rounding makes look invalid are not sampled.",
     OPS + SOLV[:1] + UTIL[2:],
     [dict(name="raise ValueError/NotImplementedError/KeyError guards in constructors and solvers",
           where="pyproximal/proximal/{Log,SCAD,ETP,Geman,L2,Quadratic,Simplex,VStack,_Dykstra}.py, pyproximal/ProxOperator.py"),
      dict(name="solver argument checks", where="pyproximal/optimization/primal.py:_x0z0_init, ProximalGradient, GeneralizedProximalGradient")],
     "constant and relational propagation to the guards (abstract interpretation of a table of call shapes)",
     "Scalar bounds are decided at constants on both sides of the boundary; sizes and sums by assuming the relation "
     "(less, equal, greater) symbolically. A guard written so that it cannot be decided is not reported.",
     ENGINE + "Rules rejected (each invalid row: every path ends in the documented exception), rejected-first (solvers: "
     "no call to an operator before), accepted (each valid row: no path reaches an explicit raise).")

prop("C19", "Verification utilities tell the truth",
     "moreau and the gradient tests pass exactly when the quantities they compare agree within the tolerances given: "
     "they return True (and raise nothing) on agreement; on any disagreement they raise with raiseerror=True and return "
     "False without it. The comparison involves the prox and the dual prox (the analytic gradient and both values of "
     "the function), tol/atol/rtol act as the absolute and relative tolerance, and the step of a gradient test really "
     "perturbs the input and is compared with the matching part and block of the gradient.",
     ["inputs", "random draws"],
     "every outcome of the comparison, every random draw, with and without raiseerror, verb, complexflag and x",
     "The tests only run the utilities on correct operators, where they pass whatever they compare.",
     UTIL,
     [dict(name="moreau", where="pyproximal/utils/moreau.py"),
      dict(name="gradtest_proximal, gradtest_bilinear", where="pyproximal/utils/gradtest.py")],
     "forward dataflow of provenance tags with the comparison forced to each outcome (abstract interpretation)",
     "Whether the comparison is numerically well scaled is not decided here. A comparison not written with "
     "allclose/isclose or an inequality against the tolerance is not recognised, and then only a vacuous verdict is reported.",
     ENGINE + "Rules verdict (outcome all/some/none of the elements close x raiseerror x draws), evidence (what the "
     "compared values were computed from), tolerance (binding of tol, rtol, atol), perturbation (the step reaches the "
     "second evaluation and is not discarded by a real vector).")

prop("C11", "Formulas are consistent under a change of units",
     "Measuring the signal, the data or the objective in other units changes no result but by the conversion: every "
     "value, gradient, prox, dual prox and projection, and every solver, combines only quantities of the same unit when "
     "signals, data, steps tau, penalty weights sigma/alpha/kappa/radius and relaxation factors are given the units that "
     "their documented formulas imply; the step given to a prox has the unit signal^2/objective, that of the dual prox "
     "the one of the dual problem; and the result has the unit documented.",
     ["inputs", "parameter values"],
     "all inputs, parameter values, weights and step sizes at once, in all configurations",
     "Tests use unit steps and weights and one scale of the data: a step or weight left out, squared or inverted "
     "changes nothing at tau=1 or sigma=1.",
     OPS + SOLV + UTIL,
     [dict(name="prox, proxdual, grad, __call__ of the operators", where="pyproximal/proximal, pyproximal/projection"),
      dict(name="update formulas of the solvers", where="pyproximal/optimization")],
     "dimensional analysis: a unit type system evaluated by abstract interpretation",
     "Dimensionless errors (a wrong sign, a wrong numeric coefficient) are consistent and not seen. Numbers written in "
     "the source are dimensionless; zero, infinities and constants below 2e-3 fit every unit. Unknown units are not "
     "reported.",
     ENGINE + "Rules consistent (addition, comparison, store, argument and step of a proximal operator, argument of a "
     "transcendental function: equal units) and result (unit of what is returned).")

prop("C12", "Shifting the problem shifts its solution",
     "Moving a problem by t (initial guesses, centres, bounds and functions by t, data b by Op t, the unknowns of a "
     "composed function by A t) moves every iterate, prox and projection by exactly t and leaves gradients, dual "
     "variables, dual prox values and distances where they were: each argument an update hands to prox, proxdual, grad "
     "or a function moves with that function's variable (by step times t for a dual prox), with no term missing, "
     "doubled, scaled or of the wrong sign.",
     ["inputs", "parameter values"],
     "all inputs, operators, functions, steps, weights and iteration counts, in all configurations",
     "Tests start at zero, use unit steps and problems centred at the origin, where a wrong weight of a point or a "
     "difference of the wrong sign vanishes or is corrected by later iterations.",
     OPS + SOLV + UTIL,
     [dict(name="prox, proxdual, grad of operators with a centre", where="pyproximal/proximal, pyproximal/projection"),
      dict(name="update formulas of the solvers", where="pyproximal/optimization")],
     "translation analysis: derivatives with respect to a shift as linear forms in operator words, by abstract interpretation",
     "Terms that do not depend on the position (multiples of gradients, duals or differences) are not decided here. "
     "Unknown forms are not reported: element selections by position, weighted sums with array weights, operators "
     "other than the ones given (Gradient, FFT). Functions without a centre (norms, balls at the origin) are not "
     "covered, the solvers are for every function.",
     ENGINE + "Rules argument (prox, proxdual, grad, projections get an argument that moves with the function), result "
     "(results move as documented) and comparison (membership tests compare quantities that move alike).")

prop("C13", "Fixed points of an iteration are solutions of its problem",
     "If a pass of an iterative method leaves every iterate unchanged, the point it returns satisfies the optimality "
     "condition of the documented problem: every function is evaluated at the returned point (or at its image under "
     "the operator), and the subgradients its prox, dual prox and gradient evaluations certify, with the documented "
     "weights and operators, add up to zero. This holds for all step sizes, relaxations, weights and starting points "
     "(solvers other than the wrappers Bregman and Segment, see C20; the splittings inside Sum, GenericIntersectionProx and the user-defined Nonlinear).",
     ["inputs", "parameter values"],
     "every linear operator, every set of functions (their prox, dual prox and gradient are left uninterpreted), all "
     "steps, weights and starting points, in all configurations (two or three functions where a list is taken)",
     "A test runs one problem, usually with unit weights and starting at zero, and compares loosely after a few "
     "iterations; a method with wrong fixed points converges just as smoothly, to another point.",
     SOLV,
     [dict(name="main loops of the solvers", where="pyproximal/optimization"),
      dict(name="Dykstra-like splittings", where="pyproximal/proximal/_Dykstra.py"),
      dict(name="user-defined nonlinear functions", where="pyproximal/proximal/Nonlinear.py")],
     "affine relations over uninterpreted evaluations: loop bodies as linear recurrences, fixed points and conserved "
     "combinations solved in a prime field (random interpretation)",
     "Convergence itself, rates and the number of iterations are not decided. Line searches are taken to end by their "
     "test, weights to add up to one. AndersonProximalGradient (least squares over the history) and the relaxed step on "
     "top of a line search of ProximalGradient are left undecided; so is any update whose form is not known. The proof "
     "of an identity is probabilistic (error below 2^-50 per identity).",
     ENGINE + "Rule fixed-point: per configuration, the end-of-body forms of all cells equal their values at the loop head, "
     "conserved combinations keep their initial value, solves satisfy their normal equations, differentiable functions "
     "have one gradient per point; the optimality condition has to follow.")

prop("C20", "Segment and Bregman hand the documented problem to their inner solver",
     "Segment calls PrimalDual with the linear term sigma/2 |y - cl|^2 (divided by clsigmas when given, plus z when "
     "given), the gradient term weighted by alpha/2, the unit simplex over the classes, and the starting point x0 (zeros "
     "when not given). Iteration k+1 of Bregman calls its solver with f - alpha q^T x, where q starts at zero and every "
     "iteration subtracts 1/alpha times the gradient of f at the solution it obtained, with alpha g, and with the previous "
     "solution (warm) or x0 (otherwise) as the starting point.",
     ["inputs", "parameter values"],
     "all images, class centres, spreads, weights and functions f with a gradient; every setting of the optional "
     "arguments; first, second and a later iteration of Bregman",
     "The tests compare one segmentation of well separated classes, which any positive weights give, and one Bregman "
     "run with alpha = 1; a term of wrong weight or sign still gives a plausible result.",
     SOLV,
     [dict(name="Segment", where="pyproximal/optimization/segmentation.py"),
      dict(name="Bregman", where="pyproximal/optimization/bregman.py")],
     "entries of arrays as rational functions of the entries of the inputs; linear forms over uninterpreted gradients",
     "The gradient operator itself, the step sizes of the inner solver and the final labelling are not decided. A term "
     "whose form is not known, or an object built in another way, is left undecided.",
     ENGINE + "Rule inner-problem: at the call of the inner solver every argument whose form is known equals the one of "
     "the documented problem, per configuration.")

prop("C21", "Turning the signal turns its result: results follow a change of sign or phase",
     "Multiply the signal by -1, or by any complex number of modulus one, together with the data, centres, offsets and "
     "initial guesses that live in the same space: every prox, dual prox, gradient, projection and solver iterate is "
     "multiplied by the same number, and every function value, step size, threshold, mask and stopping decision stays as "
     "it was. Where the data live in another space "
     "(behind an operator) turning the operator and the data together changes nothing of the solution. Complex numbers are "
     "excepted for SCAD, ETP and Nonlinear (real by definition, sign only), and the sets and solvers that are one-sided by "
     "definition (Box, HalfSpace, Simplex, hyperplane-box, their projections, Segment, PlugAndPlay) altogether.",
     ["inputs", "parameter values"],
     "all real and complex signals, data, operators and parameters; both options of every flag; first and later "
     "iterations of the solvers",
     "The tests run nearly everything on real signals, often nonnegative ones, where a missing conjugate, a square for a "
     "squared modulus, a transpose for an adjoint or a lost sign makes no difference.",
     OPS + SOLV,
     [dict(name="proximal operators", where="pyproximal/proximal/"),
      dict(name="projections", where="pyproximal/projection/"),
      dict(name="combinators", where="pyproximal/ProxOperator.py"),
      dict(name="solvers", where="pyproximal/optimization/")],
     "phase inference: an abstract domain of powers of independent phases (inverted by conj, removed by moduli, added by "
     "products, equal in sums; ordered decisions need power zero), by abstract interpretation, once with all quantities "
     "real (sign) and once complex",
     "Equivariance is necessary for the documented formulas, not sufficient: an error in a real factor is left to the "
     "other properties. A quantity whose phase is not known makes no alarm.",
     ENGINE + "Rule turning: no operation may mix or order quantities of different phase. Rule turned: every result has "
     "the phase of the documentation, per entry and configuration.")

prop("C14", "Value, gradient, prox and dual prox belong to one and the same function",
     "For the quadratic functions (L2, Quadratic) and for functions built from others (f+v, f-v, c*f, f(ax+b), f.H, "
     "Orthogonal, VStack, a class that defines only prox or only proxdual) every method describes the documented "
     "function: the value is its value, the gradient its gradient (the Moreau envelope's for the default grad), "
     "p = prox(x, tau) satisfies (x - p)/tau in df(p) and y = proxdual(x, tau) satisfies y in df((x - y)/tau), with "
     "every term, weight, operator and offset of the documentation, whatever the inner function, operators, data, "
     "weights and step are and whichever solver option is chosen.",
     ["inputs", "parameter values"],
     "every inner function, operator, data vector, weight, step and combination of options of these classes",
     "Tests compare prox and proxdual of the same class, which share the mistake when the default dual is derived from "
     "prox, at unit weights and zero offsets; gradients are compared with finite differences of a value that may have "
     "the same term missing.",
     OPS + ["pyproximal/ProxOperator.py"],
     [dict(name="combinators and Moreau defaults", where="pyproximal/ProxOperator.py"),
      dict(name="L2", where="pyproximal/proximal/L2.py"),
      dict(name="Quadratic", where="pyproximal/proximal/Quadratic.py"),
      dict(name="Orthogonal", where="pyproximal/proximal/Orthogonal.py"),
      dict(name="VStack", where="pyproximal/proximal/VStack.py")],
     "affine relations over uninterpreted evaluations, decided modulo the defining equations of solves and the "
     "documented relations of the operators (random interpretation in a prime field)",
     "Inner iterative solvers are taken to solve their system (their accuracy is a run-time matter). Op of Quadratic is "
     "taken to be symmetric, Q Q^H = alpha I for partial orthogonality, the parts of VStack to cover every entry once, "
     "two parts. The chain g*f is documented by its prox only and is not decided, nor are functions that are not "
     "quadratic (their formulas are non-linear in the input; see C40).",
     ENGINE + "Rule belongs: for each method and configuration the result, as a linear form over x, the data and "
     "uninterpreted evaluations, satisfies the documented relation.")

NOT_APPLICABLE = [
]
