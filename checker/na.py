"""Properties static analysis does not decide here."""
OPS = ["pyproximal/proximal/", "pyproximal/projection/"]


def na(pid, title, statement, over, qtext, why, files, mech, reason):
    return dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                mechanism=[dict(name=mech, where=files[0])], reason=reason)


P = [
    na("C40", "prox returns the minimiser of its defining problem",
       "For every operator f, input x and step tau, prox returns a point minimising f(y) + ||y - x||^2/(2 tau) to "
       "the accuracy of its inner solver.",
       ["inputs", "configurations"], "all operators, inputs, steps",
       "tests compare with CVXPY or closed forms on a few random vectors", OPS, "closed forms and inner solvers of prox",
       "Numerical optimality over real inputs: deciding it needs reasoning about real arithmetic (solver or test), not "
       "a static analysis of the source; the static consequences in reach are claimed separately."),
    na("C41", "Projections return feasible points and fix feasible ones",
       "A projection returns a point of its set, up to its tolerance, and leaves points of the set where they are.",
       ["inputs", "configurations"], "all projections and inputs", "few random inputs are sampled", OPS,
       "projection formulas", "Depends on the values of floating-point inputs and on bisection accuracy; no sound static bound in reach."),
    na("C42", "Moreau decomposition holds between prox and proxdual",
       "prox and proxdual of the same operator satisfy the Moreau identity for every input and step.",
       ["inputs", "configurations"], "all operators, inputs, steps", "random vectors only", ["pyproximal/ProxOperator.py"],
       "_prox_moreau / _proxdual_moreau",
       "For operators that implement both sides in closed form this is an identity between non-linear real "
       "functions, which needs a solver or testing."),
    na("C43", "Solvers converge to a minimiser of their objective",
       "With admissible step sizes the iterates of every solver converge to a minimiser of the objective it is "
       "documented for.", ["inputs", "histories"], "all solvers, problems, admissible steps",
       "tests compare pairs of solvers on one small problem", ["pyproximal/optimization/"], "the update formulas",
       "Convergence is an analytic fact about infinite sequences of real vectors."),
    na("C44", "All engines and dense solvers compute the same result",
       "Operators offering several engines or inner solvers return the same result with each, to rounding.",
       ["inputs", "configurations"], "engines numpy/numba/cuda, solvers legacy/cg/cgls, dense solvers numpy/scipy/factorize",
       "tests compare two engines on small random inputs", ["pyproximal/proximal/Simplex.py", "pyproximal/proximal/L2.py"],
       "parallel implementations",
       "Semantic equivalence of different floating-point algorithms; not decidable by the dataflow facts used here."),
    na("C45", "Bisection and backtracking loops terminate on every input",
       "Every inner bracketing, bisection or backtracking search ends after finitely many steps.",
       ["inputs"], "all finite inputs", "only well-behaved inputs are tested",
       ["pyproximal/projection/Hyperplane.py", "pyproximal/projection/Simplex.py"], "bracket expansion loops",
       "Termination depends on monotonicity of a real function evaluated on run-time data; there is no syntactic "
       "ranking function."),
]
