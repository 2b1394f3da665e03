"""Dimensional analysis: every formula is consistent under a change of units of
the signal, the data and the objective."""
from __future__ import annotations

import ast
from fractions import Fraction

from framework import Analysis
from state import alts
from values import AV, NOC, all_deps

WILD, TINY = "wild", "tiny"


class U:
    """Product of powers of base units."""
    __slots__ = ("e",)

    def __init__(self, e=()):
        self.e = tuple(sorted((k, v) for k, v in dict(e).items() if v))

    def __mul__(self, o):
        d = dict(self.e)
        for k, v in o.e:
            d[k] = d.get(k, 0) + v
        return U(d)

    def __truediv__(self, o):
        return self * o ** -1

    def __pow__(self, n):
        return U({k: v * Fraction(n) for k, v in self.e})

    def __eq__(self, o):
        return isinstance(o, U) and self.e == o.e

    def __hash__(self):
        return hash(self.e)

    def __repr__(self):
        if not self.e:
            return "1"
        return " ".join(k if v == 1 else "%s^%s" % (k, v) for k, v in self.e)


def u(n):
    return U({n: Fraction(1)})


ONE = U()
X, F, R, S, C, Y, W, P, Q, Z = (u(n) for n in "XFRSCYWPQZ")
ANYU = None

# objective (F) and signal (X) units of each entry and the units of its
# parameters, from their documented formulas; parameters not listed here carry
# no unit known to the rule ("?" for ones that may have any)
TABLE = {
    "Box": dict(lower=X, upper=X),
    "Simplex": dict(radius=X, _F=None),
    "Intersection": dict(sigma=X),
    "AffineSet": dict(Op=R / X, b=R),
    "Quadratic": dict(Op=F / X ** 2, b=F / X, c=F, x0=X),
    "Euclidean": dict(sigma=F / X),
    "EuclideanBall": dict(center=X, radius=X),
    "L0": dict(sigma=F),
    "L1": dict(sigma=F / X, g=X),
    "L1Ball": dict(radius=X),
    "L2": dict(Op=R / X, b=R, sigma=F / R ** 2, alpha=Q, q=F / (X * Q), x0=X),
    "L2Convolve": dict(h=R / X, b=R, sigma=F / R ** 2),
    "L21": dict(sigma=F / X),
    "L21_plus_L1": dict(sigma=F / X, rho=ONE),
    "Huber": dict(_F=X, alpha=X),
    "HuberCircular": dict(_F=X, alpha=X),
    "TV": dict(sigma=F / X, wx=ONE, wy=ONE, wz=ONE, wt=ONE),
    "RelaxedMumfordShah": dict(sigma=F / X ** 2, kappa=F),
    "Nuclear": dict(sigma=F / X),
    "NuclearBall": dict(radius=X),
    "Orthogonal": dict(f=(R, F), Q=R / X, b=R, alpha=R ** 2 / X ** 2),
    "VStack": dict(ops=(X, F)),
    "SCAD": dict(_F=X ** 2, sigma=X, a=ONE),
    "Log": dict(_X=ONE, sigma=F, gamma=ONE),
    "Log1": dict(_X=ONE, sigma=F, delta=ONE),
    "ETP": dict(_X=ONE, sigma=F, gamma=ONE),
    "Geman": dict(sigma=F, gamma=X),
    "QuadraticEnvelopeCard": dict(_F=X ** 2, mu=X ** 2),
    "SingularValuePenalty": dict(penalty=(X, F)),
    "QuadraticEnvelopeCardIndicator": dict(_F=X ** 2),
    "QuadraticEnvelopeRankL2": dict(_F=X ** 2, M=X),
    "HalfSpace": dict(w=W, b=W * X),
    "GenericIntersectionProx": dict(projections=("proj", X)),
    "Sum": dict(ops=(X, F), weights=ONE),
    # projections
    "BoxProj": dict(lower=X, upper=X),
    "HyperPlaneBoxProj": dict(coeffs=W, scalar=W * X, lower=X, upper=X),
    "SimplexProj": dict(radius=X),
    "L1BallProj": dict(radius=X),
    "EuclideanBallProj": dict(center=X, radius=X),
    "NuclearBallProj": dict(radius=X),
    "IntersectionProj": dict(sigma=X),
    "AffineSetProj": dict(Op=R / X, b=R),
    "HalfSpaceProj": dict(w=W, b=W * X),
    "GenericIntersectionProj": dict(projections=("proj", X)),
    # algebra
    "f+v": dict(f=(X, F), v=F / X),
    "f-v": dict(f=(X, F), v=F / X),
    "c*f": dict(f=(X, F / C), c=C),
    "f(ax+b)": dict(f=(R, F), a=R / X, b=R),
    "f.H": dict(f=(F / X, F)),
    "user(prox)": dict(f=(X, F), sigmame=X ** 2 / F),
    "user(proxdual)": dict(f=(X, F), sigmame=X ** 2 / F),
    "user(nonlinear)": dict(f=(X, F), x0=X),
    "L0Ball": {}, "L01Ball": {}, "L10Ball": {}, "Hankel": {}, "L0BallProj": {}, "L01BallProj": {}, "L10BallProj": {}, "HankelProj": {},
    # solvers
    "ProximalPoint": dict(prox=(X, F), x0=X, tau=X ** 2 / F),
    "ProximalGradient": dict(proxf=(X, F), proxg=(X, F / P), epsg=P, x0=X, tau=X ** 2 / F, eta=ONE, beta=ONE),
    "AcceleratedProximalGradient": dict(proxf=(X, F), proxg=(X, F / P), epsg=P, x0=X, tau=X ** 2 / F, beta=ONE),
    "AndersonProximalGradient": dict(proxf=(X, F), proxg=(X, F / P), epsg=P, x0=X, tau=X ** 2 / F, epsr=ONE),
    "GeneralizedProximalGradient": dict(proxfs=(X, F), proxgs=(X, F / P), epsg=P, x0=X, tau=X ** 2 / F, weights=ONE, eta=ONE),
    "HQS": dict(proxf=(X, F), proxg=(X, F), x0=X, z0=X, tau=X ** 2 / F),
    "ADMM": dict(proxf=(X, F), proxg=(X, F), x0=X, z0=X, tau=X ** 2 / F),
    "ADMML2": dict(_F=R ** 2, proxg=(Z, R ** 2), Op=R / X, b=R, A=Z / X, x0=X, z0=Z, tau=Z ** 2 / R ** 2),
    "LinearizedADMM": dict(proxf=(X, F), proxg=(R, F), A=R / X, x0=X, z0=R, tau=R ** 2 / F, mu=X ** 2 / F),
    "TwIST": dict(_F=X ** 2, proxg=(X, X ** 2), A=ONE, b=X, x0=X, alpha=ONE, beta=ONE, eigs=ONE),
    "DouglasRachfordSplitting": dict(proxf=(X, F), proxg=(X, F), x0=X, tau=X ** 2 / F, eta=ONE),
    "PPXA": dict(proxfs=(X, F), x0=X, tau=X ** 2 / F, eta=ONE, weights=ONE),
    "ConsensusADMM": dict(proxfs=(X, F), x0=X, tau=X ** 2 / F),
    "PrimalDual": dict(proxf=(X, F), proxg=(R, F), A=R / X, x0=X, y0=F / R, z=F / X, tau=X ** 2 / F, mu=F / R ** 2, theta=ONE),
    "AdaptivePrimalDual": dict(proxf=(X, F), proxg=(R, F), A=R / X, x0=X, z=F / X, tau=X ** 2 / F, mu=F / R ** 2,
                               alpha=ONE, eta=ONE, delta=ONE, s=F / X / R),
    "Bregman": dict(proxf=(X, F), proxg=(X, F), x0=X, A=R / X),
    "Segment": dict(_X=ONE, _F=ONE, y=Y, cl=Y, sigma=Y ** -2, clsigmas=ONE, z=ONE, x0=ONE, alpha=ONE),
    "SR3": dict(Op=R / X, Reg=Z / X, data=R, kappa=R ** 2 / Z ** 2, eps=R ** 2 / Z, x0=X),
    "PALM": dict(H=("bil", X, Y, F), proxf=(X, F), proxg=(Y, F), x0=X, y0=Y, gammaf=ONE, gammag=ONE, beta=ONE),
    "iPALM": dict(H=("bil", X, Y, F), proxf=(X, F), proxg=(Y, F), x0=X, y0=Y, gammaf=ONE, gammag=ONE, a=ONE, beta=ONE),
    "LowRankFactorizedMatrix": dict(_F=R ** 2, X=X, Y=Y, d=R, Op=R / (X * Y)),
    "moreau": dict(prox=(X, F), x=X, tau=X ** 2 / F, tol="?"),
    "gradtest_proximal": dict(Op=(X, F), x=X, delta=X),
    "gradtest_bilinear": dict(Op=("bil", X, X, F), delta=X),
}
SAME = {"abs", "absolute", "fabs", "real", "imag", "conj", "conjugate", "sum", "mean", "median", "max", "min", "amax", "amin",
        "sort", "cumsum", "diff", "norm", "nan_to_num", "copy", "flip", "roll", "pad", "tile", "repeat", "squeeze", "fft", "ifft",
        "fft2", "ifft2", "rfft", "irfft", "round", "floor", "ceil", "trace", "diag", "diagonal", "tril", "triu", "hankel",
        "toeplitz", "asarray", "array", "ascontiguousarray", "float", "int", "unique", "percentile", "quantile", "ptp", "std",
        "take", "float64", "float32", "complex128", "complex64", "nanmax", "nanmin", "nansum", "rot90", "eigvalsh", "svdvals",
        "ravel", "reshape", "transpose", "broadcast_to", "atleast_1d", "atleast_2d", "expand_dims", "flatten", "fftn", "ifftn",
        "rfftn", "irfftn", "fftshift", "ifftshift", "partition", "negative", "average", "complex", "asnumpy", "to_numpy"}
UNIT1 = {"sign", "argsort", "argmax", "argmin", "count_nonzero", "ones", "ones_like", "arange", "eye", "identity", "isnan",
         "isfinite", "angle", "searchsorted", "nonzero", "argpartition", "logical_and", "logical_or", "logical_not", "any",
         "all", "matrix_rank", "cond", "len", "heaviside", "flatnonzero", "isclose", "less", "greater"}
ZERO = {"zeros", "zeros_like", "empty", "empty_like"}
TRANS = {"exp", "log", "log10", "log2", "log1p", "expm1", "sin", "cos", "tan", "tanh", "sinh", "cosh", "arccos", "arcsin",
         "arctan", "arccosh", "arcsinh", "arctanh", "lambertw", "erf", "erfc", "expit", "logit"}
ADD = {"maximum", "minimum", "fmax", "fmin", "hypot", "clip", "add", "subtract", "max", "min", "remainder", "fmod", "mod"}
MUL = {"multiply", "dot", "vdot", "inner", "outer", "matmul", "kron", "convolve", "tensordot", "cross", "correlate"}
STACK = {"concatenate", "stack", "vstack", "hstack", "column_stack", "row_stack", "array", "asarray", "sum"}


class Units:
    name = "un"

    # lattice
    def join(self, a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            return None
        for x, y in ((a, b), (b, a)):
            if x == WILD or x == TINY:
                return y if y != TINY else x
        return a if a == b else None

    def join_none(self, a, b):
        return None

    def of(self, v):
        if v is None:
            return None
        if v.kind == "bool":
            return ONE
        if v.kind == "union":
            r = [self.of(p) for p in v.parts if p.kind != "none"]
            return r[0] if r and all(x == r[0] for x in r) else None
        x = v.f.get("un")
        return x

    def one(self, v):
        x = self.of(v)
        return x if isinstance(x, (U, str)) else None

    def elem(self, v):
        """Unit of the elements of a sequence (or of the array itself)."""
        if v is None:
            return None
        if v.kind in ("list", "tuple", "range", "union"):
            I = self.an.D.I
            xs = I.elements(v) if v.kind != "union" else None
            if xs:
                us = [self.one(x) for x in xs]
                r = us[0]
                for x in us[1:]:
                    r = self.join(r, x) if r is not None and x is not None else None
                return r
            return self.one(I.elem_of(v, None)) if v.kind != "union" else self.of(v)
        return self.one(v)

    # sources
    def arg(self, run, label, name, kind):
        if kind == "i":
            return ONE
        return self.an.unit_of(run, label, name, kind)

    def const(self, c):
        if isinstance(c, bool):
            return ONE
        if c == 0 or c != c or abs(c) == float("inf") or abs(c) >= 1e8:
            return WILD
        return TINY if abs(c) < 2e-3 else ONE

    def named(self, v):
        return WILD if v.f.get(self.name) in (ONE, TINY) else v.f.get(self.name)

    def shapenum(self, o):
        return ONE

    def index_num(self):
        return ONE

    def random(self, name):
        return ONE

    def extnum(self, o, name):
        return ONE if name in ("shape", "dims", "dimsd", "sizex", "sizey", "n", "m", "k", "size", "ndim") else None

    def extarr(self, o, name):
        x = o.f.get("un")
        if isinstance(x, tuple) and x[0] == "bil":
            return {"x": x[1], "y": x[2]}.get(name)
        if name == "A":
            return x if isinstance(x, U) else None
        return None

    def adjoint(self, o, name):
        return self.of(o)

    # arithmetic
    def mul(self, a, b):
        if a == WILD or b == WILD:
            return WILD
        if a == TINY:
            return b
        if b == TINY:
            return a
        return a * b if a is not None and b is not None else None

    def power(self, a, c):
        if isinstance(a, str) or a is None:
            return a if c is not None and c > 0 else None
        return a ** Fraction(c).limit_denominator(12) if c is not None else None

    def add(self, a, b, what, node):
        if a in (None, WILD, TINY):
            return b if b is not None or a is None else a
        if b in (None, WILD, TINY):
            return a
        if a != b and self.an.norm(a) != self.an.norm(b):
            self.an.clash(what, a, b, node)
            return None
        self.an.agree(what, node)
        return a

    def binop(self, t, a, b, n):
        x, y = self.one(a), self.one(b)
        if a.kind in ("str", "list", "tuple") or b.kind in ("str", "list", "tuple"):
            return None
        if t in ("Add", "Sub", "Mod"):
            return self.add(x, y, {"Add": "+", "Sub": "-", "Mod": "%"}[t], n)
        if t in ("Mult", "MatMult"):
            return self.mul(x, y)
        if t in ("Div", "FloorDiv"):
            if x == WILD:
                return WILD
            return self.mul(x, self.power(y, -1)) if y not in (None, WILD, TINY) else (x if y == TINY else None)
        if t == "Pow":
            c = b.const if b.const is not NOC and isinstance(b.const, (int, float)) and not isinstance(b.const, bool) else None
            if c is not None:
                return self.power(x, c)
            return ONE if x == ONE else None
        if t in ("BitAnd", "BitOr", "BitXor"):
            return ONE
        return None

    def unary(self, t, a):
        return ONE if t in ("Invert", "Not") else self.of(a)

    def cmp_result(self, t, a, b):
        return ONE

    def func(self, name, args, kwargs, node):
        nm = name.split(".")[-1]
        a0 = args[0] if args else None
        x = self.elem(a0) if a0 is not None else None
        if name in ("builtins.max", "builtins.min"):
            # max(1, q): a floor for a scale
            r = None
            for v in args:
                y = self.one(v)
                if v.const is not NOC and y == ONE and any(self.one(w) not in (ONE, None, WILD, TINY) for w in args):
                    return None
            return self.chain(args, nm, node)
        if name == "builtins.sum":
            return self.chain(args, nm, node)
        if nm in ADD and len(args) > 1:
            return self.chain(list(args) + [v for k, v in kwargs.items() if k in ("a_min", "a_max", "min", "max")], nm, node)
        if nm == "where" and len(args) == 3:
            # a literal is a placeholder for entries without a scale
            qs = [v for v in args[1:] if v.const is NOC or self.one(v) != ONE]
            if len(qs) == 1 and self.elem(qs[0]) not in (ONE, None, WILD, TINY):
                return self.elem(qs[0])
            return self.chain(args[1:], nm, node)
        if nm in ("full", "full_like"):
            return self.one(args[1]) if len(args) > 1 else self.one(kwargs.get("fill_value"))
        if nm in STACK and a0 is not None and a0.kind in ("list", "tuple"):
            return x
        if nm == "norm":
            o = kwargs.get("ord") or (args[1] if len(args) > 1 else None)
            if o is not None and o.kind == "num":
                return ONE if o.const == 0 and o.const is not NOC else x if o.const is not NOC else None
            return x
        if nm in SAME:
            return x
        if nm in UNIT1:
            return ONE
        if nm in ZERO:
            return WILD
        if nm == "sqrt":
            return self.power(x, Fraction(1, 2))
        if nm == "cbrt":
            return self.power(x, Fraction(1, 3))
        if nm in ("square", "var"):
            return self.power(x, 2)
        if nm == "reciprocal":
            return self.power(x, -1) if isinstance(x, U) else None
        if nm in ("power", "float_power", "pow") and len(args) > 1:
            c = args[1].const if args[1].const is not NOC else None
            return self.power(x, c) if isinstance(c, (int, float)) else ONE if x == ONE else None
        if nm == "prod":
            return ONE if x == ONE else None
        if nm in TRANS:
            if isinstance(x, U) and self.an.norm(x) != ONE:
                self.an.clash(nm, x, ONE, node)
            elif isinstance(x, U):
                self.an.agree(nm, node)
            return ONE
        if nm in MUL and len(args) > 1:
            return self.mul(x, self.elem(args[1]))
        if nm in ("divide", "true_divide", "floor_divide") and len(args) > 1:
            y = self.one(args[1])
            return self.mul(x, self.power(y, -1)) if isinstance(y, U) else None
        if nm == "einsum":
            r = ONE
            for v in args[1:]:
                y = self.one(v)
                r = self.mul(r, y) if r is not None else None
            return r
        if nm in ("_hardthreshold", "_softthreshold") and len(args) > 1:
            self.add(self.power(x, 2) if nm[1] == "h" else x, self.elem(args[1]), nm, node)
            return x
        if nm == "arctan2":
            self.chain(args[:2], nm, node)
            return ONE
        if nm in ("inv", "pinv"):
            return self.power(x, -1) if isinstance(x, U) else None
        if nm in ("solve", "solve_triangular") and len(args) > 1:
            y = self.one(args[1])
            return self.mul(y, self.power(x, -1)) if isinstance(x, U) and y is not None else None
        if nm in ("linspace", "interp"):
            return self.chain(args[:2], nm, node) if nm == "linspace" else None
        return None

    def chain(self, vs, what, node):
        r, first = None, True
        for v in vs:
            if v is None or v.kind == "none":
                continue
            y = self.elem(v)
            r = y if first else self.add(r, y, what, node)
            first = False
        return r

    def multi(self, name, i, args, kwargs):
        nm = name.split(".")[-1]
        x = self.one(args[0]) if args else None
        if nm == "svd":
            cu = kwargs.get("compute_uv")
            return x if i == 1 else ONE
        if nm in ("eigh", "eig"):
            return x if i == 0 else ONE
        if nm == "qr":
            return ONE if i == 0 else x
        return None

    def view(self, name, o, args, kwargs=None):
        return self.one(o)

    def astype(self, o, d):
        return self.one(o)

    def index(self, o, i):
        return self.one(o)

    def rootarg(self, args):
        return None

    def store(self, f, v, target, value, how, index):
        if isinstance(f, tuple):
            return None
        y = self.elem(value) if value is not None else None
        if how in ("setitem", "augitem"):
            if f == WILD or f is None:
                return y if f == WILD else None
            if y in (None, WILD, TINY):
                return f
            return f if f == y else None
        return y

    # operators
    def linop(self, nm, args, kwargs, node):
        if nm in ("Identity", "Gradient", "FirstDerivative", "Restriction", "Transpose", "Flip", "Zero", "Sum", "Roll", "Pad"):
            return ONE
        if nm in ("MatrixMult", "Diagonal", "aslinearoperator", "Convolve1D", "ConvolveND"):
            return self.one(args[0]) if args and nm != "Convolve1D" else None
        if nm in ("VStack", "HStack", "BlockDiag", "Block") and args:
            I = self.an.D.I
            xs = I.elements(args[0]) if args[0].kind in ("list", "tuple") else None
            xs = xs if xs is not None else [I.elem_of(args[0], node)]
            us = [self.of(x) for x in xs]
            if all(isinstance(x, U) for x in us):
                r = us[0]
                for x in us[1:]:
                    r = self.add(r, x, nm, node)
                return r
        return None

    def linop_binop(self, t, a, b):
        x, y = self.of(a), self.of(b)
        x, y = (z if isinstance(z, (U, str)) else None for z in (x, y))
        if t in ("Add", "Sub"):
            return self.add(x, y, "+", self.an.node)
        if t in ("Mult", "MatMult"):
            return self.mul(x, y)
        if t == "Div":
            return self.mul(x, self.power(y, -1)) if isinstance(y, U) else None
        return None

    def solve(self, name, args, kwargs):
        nm = name.split(".")[-1]
        a = self.of(args[0]) if args else None
        b = args[1] if len(args) > 1 else kwargs.get("y") or kwargs.get("b")
        y = self.one(b) if b is not None else None
        a = a if isinstance(a, U) else None
        I = self.an.D.I
        if nm in ("regularized_inversion", "normal_equations_inversion"):
            regs = args[2] if len(args) > 2 else kwargs.get("Regs")
            eps = kwargs.get("epsRs")
            dreg = kwargs.get("dataregs")
            p = Fraction(1)
            if regs is not None and eps is not None and isinstance(a, U):
                for k in range(len(I.elements(regs) or ()) if regs.kind in ("list", "tuple") else 0):
                    g = self.of(I.elements(regs)[k])
                    es = I.elements(eps) if eps.kind in ("list", "tuple") else None
                    e = self.one(es[k]) if es and k < len(es) else None
                    if isinstance(g, U) and isinstance(e, U):
                        self.add(a, e * g, "regularisation weight", self.an.node)
                    ds = I.elements(dreg) if dreg is not None and dreg.kind in ("list", "tuple") else None
                    d = self.one(ds[k]) if ds and k < len(ds) else None
                    if isinstance(d, U) and isinstance(e, U):
                        self.add(y, e * d, "regularisation data", self.an.node)
        x0 = kwargs.get("x0")
        r = y / a if isinstance(y, U) and isinstance(a, U) else None
        if x0 is not None and x0.kind != "none" and r is not None:
            self.add(r, self.one(x0), "initial guess", self.an.node)
        return r

    def ext(self, o, name, args, kwargs, node):
        p = self.of(o)
        a = args[0] if args else kwargs.get("x")
        x = self.one(a) if a is not None else None
        if isinstance(p, U):
            if name in ("matvec", "rmatvec", "dot", "_matvec", "_rmatvec", "matmat", "rmatmat", "__call__"):
                return self.mul(p, x) if x is not None else None
            if name in ("eigs", "cond", "todense"):
                return p if name != "cond" else ONE
            if name == "div":
                return x / p if isinstance(x, U) else None
            return None
        if not isinstance(p, tuple):
            return None
        if p[0] == "bil":
            _, ux, uy, uf = p
            if name == "gradx":
                return uf / ux
            if name == "grady":
                return uf / uy
            if name == "lx":
                return uf / uy ** 2
            if name == "ly":
                return uf / ux ** 2
            if name == "__call__":
                return uf
            return None
        if p[0] == "proj":
            self.add(p[1], x, "argument of a projection", node)
            return p[1]
        if p[0] == "den":
            return x
        sp, ob = p
        if name in ("prox", "proxdual"):
            dom = sp if name == "prox" else ob / sp
            t = args[1] if len(args) > 1 else kwargs.get("tau")
            self.add(dom, x, "argument of " + name, node)
            self.add(dom ** 2 / ob, self.elem(t) if t is not None else None, "step of " + name, node)
            return dom
        if name == "grad":
            self.add(sp, x, "argument of grad", node)
            return ob / sp
        if name == "__call__":
            self.add(sp, x, "argument of a function", node)
            return ob
        return None


class Dimensions(Analysis):
    """Additions, comparisons, steps and results have matching units."""
    groups = ("operator", "projection", "combinator", "bilinear", "solver", "util")
    opts = dict(rounds=2, opaque_alias=False)

    def make_facets(self):
        f = self.U = Units()
        f.an = self
        return [f]

    def select(self, e):
        return e.name in TABLE and Analysis.select(self, e)

    def rows(self, D, entry, v):
        rows = [c for c in map(CRow, D.configs(entry, v)) if not skip(entry.name, c.config)]
        if entry.name == "TV":          # documented keyword weights of the axes
            rows = [CRow(dict(c.config, wx="f", wy="f", wz="f", wt="f")) for c in rows]
        return rows

    @property
    def node(self):
        return self.last

    def unit_of(self, run, label, name, kind):
        t = TABLE.get(run.entry.name) or {}
        if getattr(run, "phase", None) == "method" and run.entry.methods is not None:
            x, f = t.get("_X", X), t.get("_F", F)
            if name == "x":
                if run.entry.group == "bilinear":
                    return X if run.method in ("__call__", "gradx", "updatex", "lx") else None
                return f / x if run.method == "proxdual" and f is not None else x if run.method != "proxdual" else None
            if name == "y":
                return Y
            if name == "tau":
                if f is None:
                    return None
                return (x ** 2 if run.method == "prox" else (f / x) ** 2) / f
            return None
        if name not in t:
            return WILD if name.startswith("tol") or name in ("xtol", "ftol", "rtol", "atol") else None
        r = t[name]
        if r == "?":
            return WILD
        if kind in ("sch", "fn1", "den", "cb", "slv") and not isinstance(r, tuple):
            return None
        return r

    tie = {}

    def begin(self, D, run):
        self.last = None
        self.tie = self.ties(D, run)

    def ties(self, D, run):
        """Units related by a fixed numeric step or an absent operator."""
        e, c = run.entry, run.config
        t = {}
        if run.phase == "method" and run.method == "grad":
            f = D.I.attr(run.inst, "grad", None) if run.inst is not None else None
            if f is not None and "sigmame" not in c and "ProxOperator.grad" in repr(getattr(f, "fn", "")):
                t["F"] = X ** 2
        if e.name in ("L2", "Bregman", "SR3") and "none" in (c.get("Op"), c.get("A")):
            t["R"] = X
        if e.name == "Orthogonal" and c.get("partial") == "b0":
            t["R"] = X
        if e.name == "LowRankFactorizedMatrix":
            if c.get("Op") == "none":
                t["R"] = X * Y
            if run.method == "__call__" and run.mconfig.get("y") == "none":
                t["Y"] = X
        if c.get("x") == "none" and e.group == "util":
            t["X"] = ONE
        return t

    def norm(self, a):
        if not isinstance(a, U):
            return a
        for _ in range(3):
            r = ONE
            for k, v in a.e:
                r = r * (self.tie[k] if k in self.tie else u(k)) ** v
            if r == a:
                return r
            a = r
        return a

    def where(self):
        I = self.D.I
        return I.stack[-1][0].name if I.stack else "?"

    def inst(self, what, node):
        return (self.where(), what, getattr(node, "lineno", 0))

    def within(self, run):
        """The innermost evaluation under way (proxdual runs prox, ...)."""
        for fr in reversed(self.D.I.stack):
            n = str(fr[0].name).split(".")[-1]
            if n in ("prox", "proxdual", "grad", "__call__"):
                return n
        return run.method

    def agree(self, what, node):
        self.oblige("consistent", self.inst(what, node or self.last))

    def clash(self, what, a, b, node):
        D = self.D
        run = D.cur
        if run is None:
            return
        node = node or self.last
        self.oblige("consistent", self.inst(what, node), False)
        w = "%s:%d" % (D.repo.file_of(D.I.cur_mod), getattr(node, "lineno", 0))
        self.report(D, "consistent", "%s.%s: %s / %s" % ((run.entry.name, self.within(run)) + tuple(sorted((repr(a), repr(b))))),
                    "%s combines [%s] with [%s] (%s)" % (self.where(), a, b, what), where=w)

    def event(self, I, ev):
        self.last = ev_node(ev)
        k = ev.kind
        if k == "compare":
            a, b = ev["left"], ev["right"]
            if "none" in (a.kind, b.kind) or "bool" in (a.kind, b.kind):
                return
            x, y = self.U.elem(a) if a.kind != "union" else None, self.U.elem(b) if b.kind != "union" else None
            self.U.add(x, y, "comparison", ev_node(ev))
        elif k == "item_store" and ev["value"] is not None:
            x, y = self.U.one(ev["target"]), self.U.elem(ev["value"])
            self.U.add(x, y, "store", ev_node(ev))

    def after(self, D, run):
        if run.result is None or D.I.st is None or run.phase == "ctor":
            return
        t = TABLE.get(run.entry.name) or {}
        x, f = t.get("_X", X), t.get("_F", F)
        if run.phase == "method":
            if run.entry.group == "bilinear":
                want = {"__call__": f, "gradx": f / X, "grady": f / Y, "lx": f / Y ** 2, "ly": f / X ** 2}.get(run.method)
            elif run.entry.group == "projection":
                want = x
            else:
                want = {"__call__": f, "prox": x, "grad": f / x if f is not None else None,
                        "proxdual": f / x if f is not None else None}.get(run.method)
        else:
            want = x if run.entry.group == "solver" else None
        if want is None:
            return
        for r in alts(run.result):
            if r.kind == "tuple" and r.parts:
                r = r.parts[0]
            g = self.U.one(r)
            if r.kind in ("bool", "none"):
                continue
            if isinstance(g, U):
                self.oblige("result", (run.entry.name, run.method), self.norm(g) == self.norm(want))
                if self.norm(g) != self.norm(want):
                    self.report(D, "result", "%s.%s returns %s" % (run.entry.name, run.method, g),
                                "%s.%s returns a quantity in [%s], expected [%s]" % (run.entry.name, run.method, g, want))


def ev_node(ev):
    class N:
        lineno = ev.line
    return N


class CRow:
    def __init__(self, c):
        self.config = c

    def items(self):
        return self.config.items()


def skip(e, c):
    """Configurations with a fixed numeric step, which ties the units."""
    if e in ("ProximalGradient", "AcceleratedProximalGradient") and c.get("tau") == "none":
        return True
    if e in ("PALM", "iPALM") and "none" in (c.get("gammaf"), c.get("gammag")):
        return True
    return False
