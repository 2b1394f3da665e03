"""The analysed entry points: every public operator, projection, solver and
utility with the kind of every documented parameter.

Type codes: a array, f float, i int, b bool (both values tried), u bool of
unknown value, p proximal operator, l linear operator, H bilinear operator,
P list of proximal operators, J list of projections, R list of restrictions,
N list of lengths, D dict of solver options, t2 pair of floats, dN tuple of N
ints, sch schedule (callable of the call counter), cb callback, den denoiser,
slv inner solver, fn1 callable array->array; 'x|y' alternatives; trailing '?'
adds None; "s:a,b" strings.
"""

OPERATORS = {
    "Box": dict(lower="f|a", upper="f|a"),
    "Simplex": dict(n="i", radius="f", dims="d2?", axis="i0|i1|im1", maxiter="i", ftol="f", xtol="f", call="b",
                    engine="s:numpy,numba"),
    "Intersection": dict(k="i", n="i", sigma="f|a", niter="i", tol="f", call="b"),
    "AffineSet": dict(Op="l", b="a", niter="i"),
    "Quadratic": dict(Op="l?", b="a?", c="f", niter="i", x0="a?", warm="b"),
    "Euclidean": dict(sigma="f"),
    "EuclideanBall": dict(center="a|f", radius="f"),
    "L0": dict(sigma="f|sch"),
    "L0Ball": dict(radius="i|sch"),
    "L01Ball": dict(ndim="i", radius="i|sch"),
    "L10Ball": dict(ndim="i", radius="i|sch"),
    "L1": dict(sigma="f|sch", g="a?"),
    "L1Ball": dict(n="i", radius="f", maxiter="i", xtol="f"),
    "L2": dict(Op="l?", b="a?", q="a?", sigma="f", alpha="f", qgrad="b", niter="i|sch", x0="a?", warm="b",
               solver="s:legacy,cg,cgls", densesolver="s:numpy,scipy,factorize?", kwargs_solver="D?"),
    "L2Convolve": dict(h="a", b="a", nfft="i", sigma="f", dims="d2?", dir="i0|none"),
    "L21": dict(ndim="i", sigma="f"),
    "L21_plus_L1": dict(sigma="f", rho="f"),
    "Huber": dict(alpha="f"),
    "HuberCircular": dict(alpha="f"),
    "TV": dict(dims="d1|d2|d3|d4", sigma="f", niter="i|sch", rtol="f"),
    "RelaxedMumfordShah": dict(sigma="f|sch", kappa="f|sch"),
    "Nuclear": dict(dim="d2", sigma="f|a"),
    "NuclearBall": dict(dims="d2", radius="f", maxiter="i", xtol="f"),
    "Orthogonal": dict(f="p", Q="l", partial="b", b="a?", alpha="f"),
    "VStack": dict(ops="P2", nn="N2?", restr="R2?"),
    "Nonlinear": dict(x0="a", niter="i", warm="b"),
    "SCAD": dict(sigma="f", a="f"),
    "Log": dict(sigma="f", gamma="f"),
    "Log1": dict(sigma="f", delta="f"),
    "ETP": dict(sigma="f", gamma="f"),
    "Geman": dict(sigma="f", gamma="f"),
    "QuadraticEnvelopeCard": dict(mu="f"),
    "SingularValuePenalty": dict(dim="d2", penalty="p"),
    "QuadraticEnvelopeCardIndicator": dict(r0="i"),
    "QuadraticEnvelopeRankL2": dict(dim="d2", r0="i", M="a"),
    "Hankel": dict(dim="d2"),
    "HalfSpace": dict(w="a", b="f"),
    "GenericIntersectionProx": dict(projections="J1|J2|J3", niter="i", tol="f", use_parallel="b"),
    "Sum": dict(ops="P1|P2|P3", weights="a?", niter="i", tol="f", use_parallel="b", use_original_tau="b"),
}

PROJECTIONS = {
    "BoxProj": dict(lower="f|a", upper="f|a"),
    "HyperPlaneBoxProj": dict(coeffs="a", scalar="f", lower="f|a", upper="f|a", maxiter="i", xtol="f"),
    "SimplexProj": dict(n="i", radius="f", maxiter="i", xtol="f"),
    "L0BallProj": dict(radius="i"),
    "L01BallProj": dict(radius="i"),
    "L10BallProj": dict(radius="i"),
    "L1BallProj": dict(n="i", radius="f", maxiter="i", xtol="f"),
    "EuclideanBallProj": dict(center="a|f", radius="f"),
    "NuclearBallProj": dict(n="i", radius="f", maxiter="i", xtol="f"),
    "IntersectionProj": dict(k="i", n="i", sigma="f|a", niter="i", tol="f"),
    "AffineSetProj": dict(Op="l", b="a", niter="i"),
    "HankelProj": dict(),
    "HalfSpaceProj": dict(w="a", b="f"),
    "GenericIntersectionProj": dict(projections="J1|J2|J3", niter="i", tol="f", use_parallel="b"),
}

# operators built by the algebra of ProxOperator, through the probe module
COMBINATORS = {
    "f+v": ("make_affine", dict(f="p", v="a")),
    "f-v": ("make_affine_neg", dict(f="p", v="a")),
    "c*f": ("make_post", dict(f="p", c="f")),
    "post(f,c)": ("make_postc", dict(f="p", c="f")),
    "f(ax+b)": ("make_pre", dict(f="p", a="f", b="f|a")),
    "g*f": ("make_chain", dict(f="p", g="p")),
    "f.H": ("make_adjoint", dict(f="p")),
    "user(prox)": ("make_primal", dict(f="p", sigmame="f")),
    "user(proxdual)": ("make_dual", dict(f="p", sigmame="f")),
    "user(nonlinear)": ("make_nonlinear", dict(f="p", x0="a", niter="i", warm="b")),
}

PROBE = '''
from pyproximal.ProxOperator import ProxOperator
from pyproximal.proximal.Nonlinear import Nonlinear

class UserBoth(ProxOperator):
    def __init__(self, p):
        super().__init__(None, True)
        self.p = p
    def __call__(self, x):
        return self.p(x)
    def prox(self, x, tau, **kwargs):
        return self.p.prox(x, tau, **kwargs)
    def proxdual(self, x, tau, **kwargs):
        return self.p.proxdual(x, tau, **kwargs)
    def grad(self, x):
        return self.p.grad(x)

class UserPrimal(ProxOperator):
    def __init__(self, p, sigmame):
        super().__init__(None, False, sigmame)
        self.p = p
    def __call__(self, x):
        return self.p(x)
    def prox(self, x, tau, **kwargs):
        return self.p.prox(x, tau, **kwargs)

class UserDual(ProxOperator):
    def __init__(self, p, sigmame):
        super().__init__(None, False, sigmame)
        self.p = p
    def __call__(self, x):
        return self.p(x)
    def proxdual(self, x, tau, **kwargs):
        return self.p.proxdual(x, tau, **kwargs)

class UserNonlinear(Nonlinear):
    def __init__(self, p, x0, niter, warm):
        super().__init__(x0, niter, warm)
        self.p = p
    def fun(self, x):
        return self.p(x)
    def grad(self, x):
        return self.p.grad(x)
    def optimize(self):
        x = self.x0.copy()
        for _ in range(self.niter):
            h = self._funprox(x, self.tau)
            d = self._gradprox(x, self.tau)
            f, g = self._fungradprox(x, self.tau)
            if f + h < 1e-12 * f:
                break
            x = x - self.tau * (g + d)
        return x

def make_nonlinear(f, x0, niter, warm):
    return UserNonlinear(f, x0, niter, warm)

def make_affine(f, v):
    return UserBoth(f) + v

def make_affine_neg(f, v):
    return UserBoth(f) - v

def make_post(f, c):
    return c * UserBoth(f)

def make_postc(f, c):
    return UserBoth(f).postcomposition(c)

def make_pre(f, a, b):
    return UserBoth(f).precomposition(a, b)

def make_chain(f, g):
    return UserBoth(g) * UserBoth(f)

def make_adjoint(f):
    return UserBoth(f).H

def make_primal(f, sigmame):
    return UserPrimal(f, sigmame)

def make_dual(f, sigmame):
    return UserDual(f, sigmame)
'''

SOLVERS = {
    "ProximalPoint": dict(prox="p", x0="a", tau="f", niter="i", tol="f?", callback="cb?", show="u"),
    "ProximalGradient": dict(proxf="p", proxg="p", x0="a", epsg="f|a", tau="f|a?", backtracking="b", beta="f",
                             eta="f", niter="i", niterback="i", acceleration="s:vandenberghe,fista?", tol="f?",
                             callback="cb?", show="u"),
    "AcceleratedProximalGradient": dict(proxf="p", proxg="p", x0="a", tau="f?", beta="f", epsg="f", niter="i",
                                        niterback="i", acceleration="s:vandenberghe,fista", tol="f?",
                                        callback="cb?", show="u"),
    "AndersonProximalGradient": dict(proxf="p", proxg="p", x0="a", epsg="f|a", tau="f|a", niter="i",
                                     nhistory="i", epsr="f", safeguard="b", tol="f?", callback="cb?", show="u"),
    "GeneralizedProximalGradient": dict(proxfs="P2", proxgs="P2", x0="a", tau="f", epsg="f|a",
                                        weights="a?", eta="f", niter="i", acceleration="s:vandenberghe,fista?",
                                        callback="cb?", show="u"),
    "HQS": dict(proxf="p", proxg="p", x0="a?", tau="f|a", niter="i", z0="a?", gfirst="b", callback="cb?",
                callbackz="b", show="u"),
    "ADMM": dict(proxf="p", proxg="p", x0="a?", tau="f", niter="i", z0="a?", gfirst="b", callback="cb?",
                 callbackz="b", show="u"),
    "ADMML2": dict(proxg="p", Op="l", b="a", A="l", x0="a", tau="f", niter="i", z0="a?", gfirst="b",
                   callback="cb?", show="u"),
    "LinearizedADMM": dict(proxf="p", proxg="p", A="l", x0="a", tau="f", mu="f", niter="i", z0="a?",
                           callback="cb?", show="u"),
    "TwIST": dict(proxg="p", A="l", b="a", x0="a", alpha="f?", beta="f?", eigs="t2?", niter="i", callback="cb?",
                  show="u", returncost="b"),
    "DouglasRachfordSplitting": dict(proxf="p", proxg="p", x0="a", tau="f", eta="f", niter="i", gfirst="b",
                                     callback="cb?", callbacky="b", show="u"),
    "PPXA": dict(proxfs="P2", x0="a|A2", tau="f", eta="f", weights="a?", niter="i", tol="f?", callback="cb?", show="u"),
    "ConsensusADMM": dict(proxfs="P2", x0="a", tau="f", niter="i", tol="f?", callback="cb?", show="u"),
    "PrimalDual": dict(proxf="p", proxg="p", A="l", x0="a", tau="f|a", mu="f|a", y0="a?", z="a?", theta="f",
                       niter="i", gfirst="b", callback="cb?", callbacky="b", returny="b", show="u"),
    "AdaptivePrimalDual": dict(proxf="p", proxg="p", A="l", x0="a", tau="f", mu="f", alpha="f", eta="f", s="f",
                               delta="f", z="a?", niter="i", tol="f", callback="cb?", show="u"),
    "Bregman": dict(proxf="p", proxg="p", x0="a", solver="slv", A="l?", alpha="f", niterouter="i", warm="b",
                    tolx="f", tolf="f", bregcallback="cb?", show="u"),
    "Segment": dict(y="a", cl="a", sigma="f", alpha="f", clsigmas="a?", z="a?", niter="i", x0="a?",
                    callback="cb?", show="u", kwargs_simplex="D?"),
    "SR3": dict(Op="l", Reg="l", data="a", kappa="f", eps="f", x0="a?", adaptive="b", iter_lim_outer="i",
                iter_lim_inner="i"),
    "PALM": dict(H="H", proxf="p?", proxg="p?", x0="a", y0="a", gammaf="f?", gammag="f?", beta="f", niter="i",
                 niterback="i", callback="cb?", show="u"),
    "iPALM": dict(H="H", proxf="p?", proxg="p?", x0="a", y0="a", gammaf="f?", gammag="f?", a="t2", beta="f",
                  niter="i", niterback="i", callback="cb?", show="u"),
    "PlugAndPlay": dict(proxf="p", denoiser="den", dims="d2", x0="a", solver="default|slv"),
}
# **kwargs handed to these solvers (forwarded)
SOLVER_KW = {"ADMML2": ("kwargs_solver", {"iter_lim": "i"}), "Bregman": ("kwargs_solver", {"niter": "i"}),
             "PlugAndPlay": ("kwargs_solver", {"niter": "i", "tau": "f", "callback": "cb?", "show": "u"})}

UTILS = {
    "gradtest_proximal": dict(Op="p", n="i", x="a?", dtype="s:float64", delta="f", rtol="f", atol="f",
                              complexflag="b", raiseerror="b", verb="u", backend="s:numpy"),
    "gradtest_bilinear": dict(Op="H", delta="f", rtol="f", atol="f", complexflag="b", raiseerror="b", verb="u",
                              backend="s:numpy"),
    "moreau": dict(prox="p", x="a", tau="f", tol="f", raiseerror="b", verb="u"),
}

BILINEAR = {"LowRankFactorizedMatrix": dict(X="a", Y="a", d="a", Op="l?")}

OP_METHODS = {"__call__": dict(x="a"), "prox": dict(x="a", tau="f"), "proxdual": dict(x="a", tau="f"),
              "grad": dict(x="a")}
PROJ_METHODS = {"__call__": dict(x="a")}
BIL_METHODS = {"__call__": dict(x="a", y="a?"), "gradx": dict(x="a"), "grady": dict(y="a"), "grad": dict(x="a"),
               "matvec": dict(x="a"), "lx": dict(x="a"), "ly": dict(y="a"),
               "updatex": dict(x="a"), "updatey": dict(y="a"), "updatexy": dict(x="a")}
