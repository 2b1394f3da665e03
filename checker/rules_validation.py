"""Invalid parameters are rejected, valid ones are accepted."""
from __future__ import annotations

import ast

from driver import twise, variants, admissible
from framework import Analysis
from rules_options import base
from state import alts
from values import AV, NOC, all_deps, boolean

V, N, K = ("ValueError",), ("NotImplementedError",), ("KeyError",)
NEG = ["c:-1e-300", "c:-1e-12", "c:-0.001", "c:-0.5", "c:-1.0", "c:-2.0", "c:-37.0", "c:-1e9"]
NEGI = ["c:-1", "c:-3"]
POS = ["c:1e-9", "c:0.25", "c:1.0", "c:2.0", "c:1e9"]
ZERO = ["c:0.0"]


class Row:
    """One call shape with its expected fate.  ``rel``: forced relation
    (labels of the left side, label or constant of the right side, order)."""

    def __init__(self, name, config, exc, method="__init__", rel=None, what=""):
        self.name, self.config, self.exc, self.method, self.rel, self.what = name, config, exc, method, rel, what

    def items(self):
        return self.config.items()


def scalar(entry, p, bad, good, exc=V, **rest):
    return [("bad", entry, dict(rest, **{p: c}), exc, "__init__", None, "%s=%s" % (p, c[2:])) for c in bad] + \
           [("good", entry, dict(rest, **{p: c}), (), "__init__", None, "%s=%s" % (p, c[2:])) for c in good]


def table():
    t = []
    SP = ["c:1e-9", "c:0.25", "c:1.0", "c:1.5", "c:2.0", "c:50.0"]
    S0 = ["c:0.0"] + SP
    t += scalar("Log", "sigma", NEG, ZERO + POS, gamma=SP)
    t += scalar("Log", "gamma", NEG, POS, sigma=S0)
    t += scalar("Log1", "delta", NEG, POS, sigma=S0)
    t += scalar("SCAD", "sigma", NEG + ZERO, POS, a=["c:2.1", "c:3.0", "c:3.7", "c:50.0"])
    t += scalar("SCAD", "a", NEG + ZERO + ["c:1.0", "c:1.999999", "c:2.0"], ["c:2.000001", "c:2.5", "c:3.7", "c:100.0"], sigma=SP)
    for n in ("ETP", "Geman"):
        t += scalar(n, "sigma", NEG, ZERO + POS, gamma=SP)
        t += scalar(n, "gamma", NEG + ZERO, POS, sigma=S0)
    ctor = "__init__"
    strings = ["s:foo", "s:", "s:CG ", "s:lsqr"]
    for s in strings:
        t.append(("bad", "L2", dict(solver=s), V, ctor, None, "solver=%r" % s[2:]))
        t.append(("bad", "Simplex", dict(engine=s, dims="none"), K, ctor, None, "engine=%r" % s[2:]))
    for s in ("legacy", "cg", "cgls"):
        t.append(("good", "L2", dict(solver="s:" + s), (), ctor, None, "solver=%r" % s))
    for s in ("numpy", "numba"):
        t.append(("good", "Simplex", dict(engine="s:" + s, dims="d2|none"), (), ctor, None, "engine=%r" % s))
    for d in ("d1", "d3", "d4"):
        t.append(("bad", "Simplex", dict(dims=d, axis="i0|i1|im1"), V, ctor, None, "%s dimension(s)" % d[1]))
    t.append(("bad", "VStack", dict(nn="none", restr="none"), V, ctor, None, "neither nn nor restr"))
    for m in ("__call__", "prox", "grad"):
        for src in ("nn", "restr"):
            c = dict(nn="N2" if src == "nn" else "none", restr="R2" if src == "restr" else "none")
            for o in ("lt", "gt"):
                t.append(("bad", "VStack", c, V, m, ({"x"}, {"nn", "restr"}, o),
                          "input %s than the sum of %s" % ({"lt": "shorter", "gt": "longer"}[o], src)))
            t.append(("good", "VStack", c, (), m, ({"x"}, {"nn", "restr"}, "eq"), "matching input (%s)" % src))
    for o in ("lt", "gt"):
        t.append(("bad", "Quadratic", dict(Op="l"), V, ctor, ({"Op"}, {"Op"}, o), "rectangular Op"))
    t.append(("good", "Quadratic", dict(Op="l"), (), ctor, ({"Op"}, {"Op"}, "eq"), "square Op"))
    for n, p in (("Sum", "ops"), ("GenericIntersectionProx", "projections"), ("GenericIntersectionProj", "projections")):
        t.append(("bad", n, {p: "P0" if p == "ops" else "J0"}, V, ctor, None, "no terms"))
        for k in "123":
            t.append(("good", n, {p: ("P" if p == "ops" else "J") + k}, (), ctor, None, k + " term(s)"))
    for c, w in (("c:1.0", "a float"), ("c:2", "an integer"), ("none", "None"), ("p", "an operator"), ("s:foo", "a string")):
        t.append(("bad", "f+v", dict(v=c), N, ctor, None, w + " as affine term"))
    t.append(("good", "f+v", dict(v="a"), (), ctor, None, "array"))
    for c, w in (("a", "an array"), ("none", "None"), ("s:foo", "a string"), ("c:2", "an integer")):
        t.append(("bad", "f(ax+b)", dict(a=c, b="f|a"), N, ctor, None, w + " as a"))
    for c, w in (("none", "None"), ("s:foo", "a string"), ("c:2", "an integer")):
        t.append(("bad", "f(ax+b)", dict(a="f", b=c), N, ctor, None, w + " as b"))
    t.append(("good", "f(ax+b)", dict(a="f", b="f|a"), (), ctor, None, "float and float or array"))
    for c, w in (("none", "None"), ("s:foo", "a string"), ("a", "an array"), ("c:2", "an integer")):
        t.append(("bad", "post(f,c)", dict(c=c), N, ctor, None, w + " as factor"))
    t.append(("good", "post(f,c)", dict(c="f"), (), ctor, None, "float"))
    t.append(("good", "c*f", dict(c="f"), (), ctor, None, "float"))
    # solvers
    run = None
    for n in ("HQS", "ADMM"):
        t.append(("bad", n, dict(x0="none", z0="none"), V, run, None, "neither x0 nor z0"))
        for x, z in (("a", "a"), ("a", "none"), ("none", "a")):
            t.append(("good", n, dict(x0=x, z0=z), (), run, None, "x0=%s z0=%s" % (x, z)))
    for z in ("a", "none"):
        t.append(("bad", "ADMML2", dict(x0="none", z0=z), V, run, None, "no x0 (z0=%s)" % z))
        t.append(("good", "ADMML2", dict(x0="a", z0=z), (), run, None, "x0 (z0=%s)" % z))
    for n in ("ProximalGradient", "AcceleratedProximalGradient", "GeneralizedProximalGradient"):
        for s in ("s:foo", "s:", "s:Fista", "s:nesterov"):
            t.append(("bad", n, dict(acceleration=s), N, run, None, "acceleration=%r" % s[2:]))
        for s in ("s:fista", "s:vandenberghe"):
            t.append(("good", n, dict(acceleration=s, weights="none"), (), run, ("any", "one", "eq") if n[0] == "G" else None, "acceleration=%r" % s[2:]))
    t.append(("good", "ProximalGradient", dict(acceleration="none"), (), run, None, "no acceleration"))
    g = "GeneralizedProximalGradient"
    for o in ("lt", "gt"):
        t.append(("bad", g, dict(weights="a", acceleration="none"), V, run, ({"weights"}, 2, o),
                  "%s weights than terms" % {"lt": "fewer", "gt": "more"}[o]))
        t.append(("bad", g, dict(weights="a", acceleration="none"), V, run, ({"weights"}, "one", o),
                  "weights summing to %s than one" % {"lt": "less", "gt": "more"}[o]))
    t.append(("good", g, dict(weights="a", acceleration="none"), (), run, ({"weights"}, "one", "eq"), "weights summing to one"))
    t.append(("good", g, dict(weights="none", acceleration="none"), (), run, ("any", "one", "eq"), "default weights"))
    b = "LowRankFactorizedMatrix"
    for m in ("lx", "ly"):
        t.append(("bad", b, dict(Op="l"), V, m, None, "%s with Op" % m))
        t.append(("good", b, dict(Op="none"), (), m, None, "%s without Op" % m))
    for o, k, ex in (("eq", "bad", N), ("lt", "good", ()), ("gt", "good", ())):
        t.append((k, b, dict(Op="l|none"), ex, "matvec", ({"X"}, {"Y"}, o),
                  "matvec with %s factors" % ("ambiguous" if o == "eq" else "distinguishable")))
    return t


OPS = {ast.Lt: {"lt"}, ast.LtE: {"lt", "eq"}, ast.Gt: {"gt"}, ast.GtE: {"gt", "eq"}, ast.Eq: {"eq"}, ast.NotEq: {"lt", "gt"}}
FLIP = {"lt": "gt", "gt": "lt", "eq": "eq"}


class Relation:
    """Decides the comparison a row is about."""
    name = "rel"

    def join(self, a, b):
        return a if a == b else None

    def join_none(self, a, b):
        return None

    def const(self, c):
        return None

    def binop(self, *a):
        return None

    def func(self, *a):
        return None

    def view(self, *a):
        return None

    def row(self):
        run = self.an.D.cur if self.an.D is not None else None
        return getattr(run, "row", None)

    def side(self, v, spec):
        if spec == "any":
            return v.const is NOC
        if spec == "one":
            return v.const is not NOC and isinstance(v.const, (int, float)) and v.const == 1
        if isinstance(spec, int):
            return v.const is not NOC and v.const == spec
        n = {base(x) for x in all_deps(v)}
        return bool(n & spec) and n <= spec | {"ops", "proxgs", None} and v.const is NOC

    def compare(self, t, a, b):
        r = self.row()
        if r is None or r.rel is None or t not in OPS:
            return None
        l, rr, o = r.rel
        if l == {"X"} and rr == {"Y"} and t in (ast.Eq, ast.NotEq) and self.side(a, l) and self.side(b, l):
            return t is ast.NotEq       # rows and columns of one factor differ
        if self.side(a, l) and self.side(b, rr):
            order = o
        elif self.side(b, l) and self.side(a, rr):
            order = FLIP[o]
        else:
            if rr == "one" and (self.side(a, l) and self.side(b, 2) or self.side(b, l) and self.side(a, 2)):
                return "eq" in OPS[t]       # as many weights as terms
            return None
        if order == "eq" and rr == "one":
            # equal up to rounding only: exact comparisons may go either way
            return None
        self.an.decided = True
        return order in OPS[t]

    def predicate(self, nm, args, kwargs=None):
        r = self.row()
        if r is None or r.rel is None or nm not in ("isclose", "allclose") or len(args) < 2:
            return None
        l, rr, o = r.rel
        if l == {"weights"} and rr == 2:
            ok = self.side(args[0], l) and self.side(args[1], "one") or self.side(args[1], l) and self.side(args[0], "one")
            return True if ok else None     # the wrong number of weights, summing to one
        if rr != "one":
            return None
        if self.side(args[0], l) and self.side(args[1], "one") or self.side(args[1], l) and self.side(args[0], "one"):
            self.an.decided = True
            return o == "eq"
        return None


class Validation(Analysis):
    """Each table row ends in the documented exception, or in none."""
    groups = ("operator", "projection", "combinator", "bilinear", "solver")
    opts = dict(rounds=1)

    def make_facets(self):
        f = Relation()
        f.an = self
        return [f]

    def select(self, e):
        return any(r[1] == e.name for r in table()) and Analysis.select(self, e)

    def rows(self, D, entry, v):
        sig, opaque = D.signature(v)
        names = [n for n, _, _ in sig] if not opaque else list(entry.params)
        out = []
        for kind, n, over, exc, method, rel, what in table():
            if n != entry.name:
                continue
            dims = []
            for p in names:
                code = over.get(p) or entry.params.get(p) or "default"
                if isinstance(code, list):
                    dims.append((p, code))
                else:
                    dims.append((p, variants(code) if not code.startswith("c:") and not (p in over and code.startswith("s:"))
                                 else [code]))
            for c in twise(dims, 2):
                if kind == "good" and not admissible(entry, c):
                    continue
                out.append(Row(n, c, exc, method, rel, what))
                out[-1].kind = kind
        return out

    def methods(self, entry):
        # overridden per row
        return entry.methods

    def begin(self, D, run):
        run.work = []
        run.thrown = []
        self.decided = False

    def event(self, I, ev):
        run = self.D.cur
        if ev.kind in ("extcall", "iter_solve"):
            run.work.append(ev.get("meth") or ev.get("name"))
        elif ev.kind == "raise" and not ev.get("implicit"):
            run.thrown.append((ev["exc"], {base(x) for x in ev.pc}, ev))

    def after(self, D, run):
        row = run.row
        if run.phase == "ctor":
            if row.method != "__init__":
                return
        elif row.method is not None and run.method != row.method:
            return
        e, r = run.entry.name, row
        inst = (e, r.what, tuple(sorted(x for x in r.config.items() if x[1] not in ("a", "f", "i", "p", "l", "default"))))
        normal = D.I.st is not None and run.result is not None
        where = None
        if r.kind == "bad":
            self.oblige("rejected", inst)
            names = {x for x, _, _ in run.thrown}
            subj = (set(r.rel[0]) | (r.rel[1] if isinstance(r.rel[1], set) else set()) if r.rel else
                    {p for p in r.config if p in r.what.split("=")[0]} | {"a", "b", "c", "v", "x0", "z0"})
            if normal:
                if r.rel is not None and not self.decided and any(x in r.exc and pc & subj for x, pc, _ in run.thrown):
                    return      # the guard is written in a way that cannot be decided here
                if r.rel is None and any(x in r.exc and pc & subj for x, pc, _ in run.thrown):
                    return
                self.bad(D, run, inst, "rejected", "%s accepts %s" % (self.who(run), r.what),
                         "%s does not reject %s (%s expected)" % (self.who(run), r.what, r.exc[0]))
            elif run.thrown and not names & set(r.exc):
                self.bad(D, run, inst, "rejected", "%s raises %s for %s" % (self.who(run), sorted(names)[0], r.what),
                         "%s raises %s instead of %s for %s" % (self.who(run), sorted(names)[0], r.exc[0], r.what))
            elif run.work and run.entry.group == "solver":
                self.bad(D, run, inst, "rejected-first", "%s works before rejecting %s" % (self.who(run), r.what),
                         "%s calls %s before rejecting %s" % (self.who(run), run.work[0], r.what))
        else:
            self.oblige("accepted", inst)
            for x, pc, ev in run.thrown:
                if r.rel is not None and r.rel[1] != "one" and not self.decided:
                    continue
                if run.phase != "ctor" and run.entry.methods is not None and ev.func.startswith("wrapper"):
                    continue    # step-size check
                self.bad(D, run, inst, "accepted", "%s rejects %s" % (self.who(run), r.what),
                         "%s may raise %s for %s" % (self.who(run), x, r.what), ev)

    def who(self, run):
        return run.entry.name if run.phase != "method" else "%s.%s" % (run.entry.name, run.method)

    def bad(self, D, run, inst, rule, construct, message, ev=None):
        self.oblige(rule, inst, False)
        self.report(D, rule, construct, message, ev)
