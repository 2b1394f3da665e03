"""Phase analysis: turning the signal and the data by a phase (changing their
sign) turns every prox, gradient, projection and iterate with them and changes
no value, step or decision.

Every quantity carries the power of the phase it turns with: conj inverts it,
abs and norm remove it, products add, sums need equal powers, and order
comparisons, sorting, rounding and real parts need power zero."""
from __future__ import annotations

from fractions import Fraction

from rules_units import ONE, TINY, WILD, CRow, Dimensions, U, Units, ev_node, u
from state import alts

T, V, D = u("phase"), u("phase2"), u("data phase")
FUN, FUND = (T, ONE), (D, ONE)
OP = D / T              # an operator that takes the signal to the data

# quantities that turn with the signal; the ones not listed do not turn
TABLE = {
    "Intersection": {}, "AffineSet": dict(Op=OP, b=D), "Quadratic": dict(b=T, x0=T), "Euclidean": {}, "EuclideanBall": dict(center=T),
    "L0": {}, "L0Ball": {}, "L01Ball": {}, "L10Ball": {}, "L1": dict(g=T), "L1Ball": {},
    "L2": dict(Op=OP, b=D, q=T, x0=T), "L2Convolve": dict(h=OP, b=D), "L21": {}, "L21_plus_L1": {}, "Huber": {}, "HuberCircular": {},
    "TV": {}, "RelaxedMumfordShah": {}, "Nuclear": {}, "NuclearBall": {}, "Orthogonal": dict(f=FUND, Q=OP, b=D), "VStack": dict(ops=FUN),
    "SCAD": {}, "Log": {}, "Log1": {}, "ETP": {}, "Geman": {}, "QuadraticEnvelopeCard": {}, "SingularValuePenalty": dict(penalty=(ONE, ONE)),
    "QuadraticEnvelopeCardIndicator": {}, "QuadraticEnvelopeRankL2": dict(M=T), "Hankel": {},
    "GenericIntersectionProx": dict(projections=("proj", T)), "Sum": dict(ops=FUN),
    "L0BallProj": {}, "L01BallProj": {}, "L10BallProj": {}, "L1BallProj": {}, "EuclideanBallProj": dict(center=T),
    "NuclearBallProj": {}, "IntersectionProj": {}, "AffineSetProj": dict(Op=OP, b=D), "HankelProj": {},
    "GenericIntersectionProj": dict(projections=("proj", T)),
    "f+v": dict(f=FUN, v=T), "f-v": dict(f=FUN, v=T), "c*f": dict(f=FUN), "post(f,c)": dict(f=FUN), "f(ax+b)": dict(f=FUN, b=T),
    "f.H": dict(f=FUN), "user(prox)": dict(f=FUN), "user(proxdual)": dict(f=FUN), "user(nonlinear)": dict(f=FUN, x0=T),
    "ProximalPoint": dict(prox=FUN, x0=T), "ProximalGradient": dict(proxf=FUN, proxg=FUN, x0=T),
    "AcceleratedProximalGradient": dict(proxf=FUN, proxg=FUN, x0=T), "AndersonProximalGradient": dict(proxf=FUN, proxg=FUN, x0=T),
    "GeneralizedProximalGradient": dict(proxfs=FUN, proxgs=FUN, x0=T), "HQS": dict(proxf=FUN, proxg=FUN, x0=T, z0=T),
    "ADMM": dict(proxf=FUN, proxg=FUN, x0=T, z0=T), "ADMML2": dict(proxg=FUND, Op=OP, b=D, A=OP, x0=T, z0=D),
    "LinearizedADMM": dict(proxf=FUN, proxg=FUND, A=OP, x0=T, z0=D), "TwIST": dict(proxg=FUN, b=T, x0=T),
    "DouglasRachfordSplitting": dict(proxf=FUN, proxg=FUN, x0=T), "PPXA": dict(proxfs=FUN, x0=T), "ConsensusADMM": dict(proxfs=FUN, x0=T),
    "PrimalDual": dict(proxf=FUN, proxg=FUND, A=OP, x0=T, y0=D, z=T), "AdaptivePrimalDual": dict(proxf=FUN, proxg=FUND, A=OP, x0=T, z=T),
    "Bregman": dict(proxf=FUN, proxg=FUN, x0=T), "SR3": dict(Op=OP, Reg=OP, data=D, x0=T),
    "PALM": dict(H=("bil", T, V, ONE), proxf=FUN, proxg=(V, ONE), x0=T, y0=V),
    "iPALM": dict(H=("bil", T, V, ONE), proxf=FUN, proxg=(V, ONE), x0=T, y0=V),
    "LowRankFactorizedMatrix": dict(X=T, Y=V, d=D, Op=D / (T * V)),
}
# entries whose formulas cover complex signals; for the others only the change of sign is checked
COMPLEX = set(TABLE) - {"SCAD", "ETP", "Nonlinear", "user(nonlinear)"}
PLAIN = {"asarray", "array", "ascontiguousarray", "sum", "mean", "cumsum", "diff", "copy", "flip", "roll", "pad", "tile", "repeat",
         "squeeze", "fft", "ifft", "fft2", "ifft2", "rfft", "irfft", "trace", "diag", "diagonal", "tril", "triu", "hankel", "toeplitz",
         "take", "complex128", "complex64", "rot90", "ravel", "reshape", "transpose", "broadcast_to", "atleast_1d", "atleast_2d",
         "expand_dims", "flatten", "fftn", "ifftn", "rfftn", "irfftn", "fftshift", "ifftshift", "negative", "average", "sign",
         "nan_to_num", "asnumpy", "to_numpy", "nansum"}
FREE = {"abs", "absolute", "fabs", "norm", "svdvals", "var", "std"}
CONJ = {"conj", "conjugate"}
# decisions on the order of quantities that turn: fair only when both sides are looked at
UP, DOWN = {"max", "amax", "argmax", "maximum", "fmax", "nanmax", "ceil"}, {"min", "amin", "argmin", "minimum", "fmin", "nanmin", "floor"}
BOTH = {"clip"}
SORTS = {"sort", "argsort", "partition", "argpartition", "searchsorted", "heaviside", "percentile", "quantile", "unique"}


SIDE = "side"           # a mask that selects by the order of turning quantities


class Phases(Units):
    def predicate(self, nm, args, kwargs=None):
        if nm in ("iscomplexobj", "isrealobj") and args:
            x = self.elem(args[0])
            if not self.an.cplx:
                return nm == "isrealobj"
            if isinstance(x, U) and x != ONE:
                return nm == "iscomplexobj"
        if nm in ("allclose", "isclose", "array_equal") and len(args) > 1:
            self.add(self.elem(args[0]), self.elem(args[1]), nm, self.an.last)
        return None

    def cmp_result(self, t, a, b):
        if getattr(t, "__name__", t) in ("Lt", "LtE", "Gt", "GtE") and any(isinstance(x, U) and self.an.norm(x) != ONE for x in (self.elem(a), self.elem(b))):
            return SIDE
        return ONE

    def join(self, a, b):
        if SIDE in (a, b):
            return SIDE if a == b else None
        return super().join(a, b)

    def mul(self, a, b):
        return SIDE if SIDE in (a, b) else self.an.norm(super().mul(a, b))

    def power(self, a, c):
        if a == SIDE:
            return SIDE
        if not self.an.cplx and isinstance(a, U) and self.an.norm(a) != ONE and c is not None and Fraction(c).denominator != 1:
            return None
        return self.an.norm(super().power(a, c))

    def add(self, a, b, what, node):
        return SIDE if SIDE in (a, b) else super().add(a, b, what, node)

    def index(self, o, i):
        """The part of an array on one side of a threshold follows its own formula."""
        return SIDE if i is not None and SIDE in self.masks(i) else self.one(o)

    def masks(self, i):
        return [i.f.get("un")] + [x for p in (i.parts or ()) for x in self.masks(p)]

    def binop(self, t, a, b, n):
        if t in ("BitAnd", "BitOr", "BitXor"):
            return SIDE if SIDE in (self.one(a), self.one(b)) else ONE
        return super().binop(t, a, b, n)

    def unary(self, t, a):
        return SIDE if self.one(a) == SIDE else super().unary(t, a)

    def level(self, x, what, node):
        """``x`` must not turn."""
        if isinstance(x, U):
            if self.an.norm(x) != ONE:
                self.an.clash(what, x, ONE, node)
            else:
                self.an.agree(what, node)

    def part(self, x, nm, node):
        if isinstance(x, U) and self.an.norm(x) != ONE:
            if not self.an.cplx:
                return x if nm == "real" else None
            self.an.side(x, nm, node)
            return None
        return x

    def order(self, xs, side, arg, node):
        """An order decision among quantities."""
        turn = [x for x in xs if isinstance(x, U) and self.an.norm(x) != ONE]
        for x in turn:
            if self.an.cplx:
                self.an.clash("order decision", x, ONE, node)
                continue
            for s in (("up", "down") if side == "both" else (side,)):
                self.an.side(x, s, node)
        if turn:
            return None if arg else turn[0]
        for x in xs:
            if isinstance(x, U):
                self.an.agree("order", node)
        if arg:
            return ONE
        r = None
        for i, x in enumerate(xs):
            r = x if i == 0 else self.add(r, x, "order", node)
        return r

    def conj(self, x):
        return self.an.flip(x)

    def adjoint(self, o, name):
        x = self.of(o)
        return self.conj(x) if isinstance(x, U) and name == "H" else x

    def func(self, name, args, kwargs, node):
        nm = name.split(".")[-1]
        x = self.elem(args[0]) if args else None
        if nm in ("logical_and", "logical_or", "logical_not", "flatnonzero", "nonzero", "argwhere") and any(
                self.one(v) == SIDE for v in args if v.kind != "union"):
            return SIDE
        if nm in ("where", "select", "choose", "compress", "extract") and any(self.one(v) == SIDE for v in args if v.kind != "union"):
            return SIDE
        if nm in CONJ:
            return self.conj(x)
        if nm in ("real", "imag"):
            return self.part(x, nm, node)
        if nm == "angle":
            return U({"<%s>" % k: v for k, v in x.e}) if isinstance(x, U) else None
        if nm == "exp" and isinstance(x, U) and x.e and all(k[0] == "<" for k, _ in x.e):
            return U({k[1:-1]: v for k, v in x.e})
        if nm in ("cos", "sin") and isinstance(x, U) and any(k[0] == "<" for k, _ in x.e):
            return None
        if nm in UP or nm in DOWN or nm in BOTH:
            two = nm in ("maximum", "minimum", "fmax", "fmin", "clip", "max", "min") and (nm not in ("max", "min") or name.startswith("builtins"))
            return self.order([self.elem(v) for v in (args if two else args[:1]) if v.kind != "none"],
                              "both" if nm in BOTH else "up" if nm in UP else "down", nm.startswith("arg"), node)
        if nm in SORTS:
            self.level(x, nm, node)
            return ONE if isinstance(x, U) or nm.startswith("arg") else x
        if nm in FREE:
            return ONE if isinstance(x, U) else x
        if nm == "bincount":
            w = args[1] if len(args) > 1 else kwargs.get("weights")
            w = ONE if w is None or w.kind == "none" else self.elem(w)
            if self.an.cplx:
                self.level(w, "weights of bincount are real", node)
            return w
        if nm == "vdot" and len(args) > 1:
            return self.mul(self.conj(x), self.elem(args[1]))
        if nm in PLAIN:
            return x if nm not in ("sum",) or name != "builtins.sum" else self.chain(args, nm, node)
        return super().func(name, args, kwargs, node)

    def view(self, name, o, args, kwargs=None):
        x = self.one(o)
        if name in CONJ or name == "H":
            return self.conj(x)
        if name in ("real", "imag"):
            return self.part(x, name, self.an.node)
        if name in UP or name in DOWN:
            return self.order([x], "up" if name in UP else "down", name.startswith("arg"), self.an.node)
        if name in SORTS:
            self.level(x, name, self.an.node)
            return ONE if isinstance(x, U) or name.startswith("arg") else x
        if name in FREE:
            return ONE if isinstance(x, U) else x
        return x

    def multi(self, name, i, args, kwargs):
        nm = name.split(".")[-1]
        x = self.one(args[0]) if args else None
        if nm == "svd":
            cu = kwargs.get("compute_uv")
            return (x if cu is None else ONE) if i == 0 else ONE
        if nm in ("eigh", "eig"):
            return ONE
        return super().multi(name, i, args, kwargs)

    def ext(self, o, name, args, kwargs, node):
        p = self.of(o)
        if isinstance(p, tuple) and p[0] == "bil":
            _, ux, uy, uf = p
            return {"gradx": ux, "grady": uy, "grad": ux}.get(name, ONE if name in ("lx", "ly", "__call__") else None)
        if isinstance(p, tuple) and p[0] not in ("proj", "den"):
            sp, ob = p
            x = self.one(args[0] if args else kwargs.get("x")) if args or "x" in kwargs else None
            if name in ("prox", "proxdual"):
                t = args[1] if len(args) > 1 else kwargs.get("tau")
                self.add(sp, x, "argument of " + name, node)
                if t is not None:
                    self.add(ONE, self.elem(t), "step of " + name, node)
                return sp
            if name in ("grad", "__call__"):
                self.add(sp, x, "argument of " + name, node)
                return sp if name == "grad" else ONE
            return None
        if isinstance(p, U) and name in ("rmatvec", "_rmatvec", "rmatmat"):
            a = args[0] if args else kwargs.get("x")
            x = self.one(a) if a is not None else None
            return self.mul(self.conj(p), x) if x is not None else None
        return super().ext(o, name, args, kwargs, node)


class Turning(Dimensions):
    """Prox, gradients, projections and iterates turn with the signal."""
    groups = ("operator", "projection", "combinator", "bilinear", "solver")
    cplx = False

    def make_facets(self):
        f = self.U = Phases()
        f.an = self
        return [f]

    def select(self, e):
        return e.name in (COMPLEX if self.cplx else TABLE) and e.group in self.groups

    def rows(self, D, entry, v):
        rows = [CRow({k: "b0" if k in ("show", "verb") else x for k, x in c.config.items()}) for c in map(CRow, D.configs(entry, v))]
        if entry.name == "TV":          # documented keyword weights of the axes
            rows = [CRow(dict(c.config, wx="f", wy="f", wz="f", wt="f")) for c in rows]
        return rows

    def ties(self, D, run):
        self.sides = {}
        t = self.turns(run)
        if "none" in (run.config.get("Op"), run.config.get("A")):
            t["data phase"] = T * V if run.entry.group == "bilinear" else T
        return t

    def turns(self, run):
        if run.entry.name == "LowRankFactorizedMatrix" and run.phase == "method" and (
                run.method == "grad" or run.method == "__call__" and run.mconfig.get("y") == "none"):
            return {"phase2": T}
        return {}

    def side(self, x, which, node):
        self.sides.setdefault(self.where(), {}).setdefault(which, (x, getattr(node, "lineno", 0), self.D.I.cur_mod))

    def unit_of(self, run, label, name, kind):
        if getattr(run, "phase", None) == "method" and run.entry.methods is not None:
            if name == "x":
                return T
            if name == "y":
                return V
            return ONE if name == "tau" else None
        r = TABLE[run.entry.name].get(name, ONE)
        if kind in ("sch", "fn1", "den", "cb", "slv") and not isinstance(r, tuple):
            return None
        return r

    def norm(self, a):
        a = super().norm(a)
        if not isinstance(a, U) or self.cplx:
            return a
        return U({k: v % 2 for k, v in a.e})

    def flip(self, x):
        return x ** -1 if isinstance(x, U) else x

    def clash(self, what, a, b, node):
        D = self.D
        run = D.cur
        if run is None:
            return
        node = node or self.last
        self.oblige("turning", self.inst(what, node), False)
        w = "%s:%d" % (D.repo.file_of(D.I.cur_mod), getattr(node, "lineno", 0))
        self.report(D, "turning", "%s.%s: %s" % (run.entry.name, self.within(run), " / ".join(sorted((repr(a), repr(b))))),
                    "%s combines or decides on quantities that turn differently with the signal, [%s] and [%s] (%s)" % (
                        self.where(), a, b, what), where=w)

    def agree(self, what, node):
        self.oblige("turning", self.inst(what, node or self.last))

    def event(self, I, ev):
        self.last = ev_node(ev)
        k = ev.kind
        if k == "compare":
            a, b = ev["left"], ev["right"]
            if "none" in (a.kind, b.kind) or "bool" in (a.kind, b.kind):
                return
            x, y = self.U.elem(a) if a.kind != "union" else None, self.U.elem(b) if b.kind != "union" else None
            if ev["op"] in ("Lt", "LtE", "Gt", "GtE"):
                if not self.cplx and (x == WILD or y == WILD):
                    return              # the sign itself
                up = ev["op"][0] == "G"
                self.U.order([x], "up" if up else "down", True, ev_node(ev))
                self.U.order([y], "down" if up else "up", True, ev_node(ev))
            else:
                self.U.add(x, y, "comparison", ev_node(ev))
        elif k == "item_store" and ev["value"] is not None:
            x, y = self.U.one(ev["target"]), self.U.elem(ev["value"])
            self.U.add(x, y, "store", ev_node(ev))

    def after(self, D, run):
        for fn, d in self.sides.items():
            for pair in (("up", "down"), ("real", "imag")):
                have = [k for k in pair if k in d]
                if len(have) == 1:
                    x, line, mod = d[have[0]]
                    what = {"up": "is large", "down": "is small", "real": "its real part", "imag": "its imaginary part"}[have[0]]
                    self.oblige("turning", (fn, have[0], line), False)
                    self.report(D, "turning", "%s.%s: one-sided %s" % (run.entry.name, run.method or "", have[0]),
                                "%s looks only at %s of a quantity that turns with the signal, [%s] (entry %s)" % (
                                    fn, what if "part" in what else "whether one side (" + what + ")", x, run.entry.name),
                                where="%s:%d" % (D.repo.file_of(mod), line))
        if run.result is None or D.I.st is None or run.phase == "ctor":
            return
        if run.phase == "method":
            if run.entry.group == "bilinear":
                want = {"__call__": ONE, "gradx": T, "grady": V, "lx": ONE, "ly": ONE}.get(run.method)
            elif run.entry.group == "projection":
                want = T
            else:
                want = {"__call__": ONE, "prox": T, "grad": T, "proxdual": T}.get(run.method)
        else:
            want = T if run.entry.group == "solver" else None
        if want is None:
            return
        for r in alts(run.result):
            if r.kind == "tuple" and r.parts:
                r = r.parts[0]
            g = self.U.one(r)
            if r.kind in ("bool", "none") or not isinstance(g, U):
                continue
            ok = self.norm(g) == self.norm(want)
            self.oblige("turned", (run.entry.name, run.method), ok)
            if not ok:
                self.report(D, "turned", "%s.%s returns %s" % (run.entry.name, run.method, g),
                            "%s.%s returns a quantity that turns with [%s] instead of [%s]" % (
                                run.entry.name, run.method, g, want))


class TurningComplex(Turning):
    """The same for complex signals."""
    cplx = True
