"""What a tolerance is compared with.

The outer loop is interpreted for exactly three iterations over linear forms of
uninterpreted results (forms.py).  From the second iteration on, the quantity
compared with the tolerance must not vanish identically, must not measure the
distance to an iterate older than the previous one, and, when it is made of
function values, must combine those of this iteration with those of the one
before."""
from __future__ import annotations

import forms
from forms import fadd, frz
from rules_fixed import Base
from values import AV, num
from rules_solver import LIMITS, TOLS

VALUE = {"tolf"}         # compared with the value itself
LATER = 2345            # iterations skipped between the first and the second
DIFF = {"Lt", "LtE", "Gt", "GtE"}


class Tol:
    """The tolerance given by the user."""
    name = "tolp"

    def arg(self, run, label, name, kind):
        return name if kind == "f" and name in TOLS else None

    def join(self, a, b):
        return a if a == b else None

    def join_none(self, a, b):
        return None


class Mon:
    """Forms whose magnitude a number measures."""
    name = "mon"

    def arg(self, run, label, name, kind):
        return None

    def join(self, a, b):
        return a | b

    def join_none(self, a, b):
        return None

    def of(self, vs):
        out = frozenset()
        for v in vs:
            m = v.f.get("mon") if v.kind != "union" else None
            if m is None:
                t = v.f.get("lf") if v.kind in ("arr", "any") else None
                if t is not None and t.form is not None and t.rows is None:
                    m = frozenset([frz(t.form)])
            if m is None:
                return None
            out |= m
        return out or None

    FN = {"abs", "absolute", "max", "amax", "norm", "sqrt", "square", "sum", "mean", "float", "real", "maximum", "item",
          "to_numpy"}

    def func(self, name, args, kwargs, node):
        nm = name.split(".")[-1]
        if nm not in self.FN:
            return None
        return self.of(args[:1] if nm not in ("max", "maximum") else args)

    def view(self, name, o, args, kwargs=None):
        return o.f.get("mon") if name in self.FN else None

    def index(self, o, i):
        m = o.f.get("mon")
        return m if m == frozenset([frz({})]) else None

    def binop(self, t, a, b, n):
        """The difference of an array and itself."""
        if t == "Sub" and a.kind == b.kind == "arr" and len(a.buf) == 1 and a.buf == b.buf and a.val \
                and a.val == b.val and "old" not in next(iter(a.buf)):
            return frozenset([frz({})])
        return None


class Hist:
    """Iterations of which function values certainly take part in a number."""
    name = "hist"

    def __init__(self, an):
        self.an = an

    def arg(self, run, label, name, kind):
        return None

    def join(self, a, b):
        return a & b

    def join_none(self, a, b):
        return None

    def union(self, vs):
        out = None
        for v in vs:
            h = v.f.get("hist") if isinstance(v.f, dict) else None
            if h is not None:
                out = h if out is None else out | h
        return out

    def ext(self, o, name, args, kwargs, node):
        t = o.f.get("lf") if isinstance(o.f, dict) else None
        return frozenset([self.an.k]) if name == "__call__" and t is not None and t.role and t.role[0] == "fun" else None

    def binop(self, t, a, b, n):
        return self.union((a, b))

    def unary(self, t, a):
        return self.union((a,))

    def func(self, name, args, kwargs, node):
        vs = []
        for a in args:
            vs += a.parts if a.kind in ("tuple",) and a.parts else [a]
        return self.union(vs)

    def view(self, name, o, args, kwargs=None):
        return self.union((o,))


class Monitored(Base):
    """Tolerances are compared with the change over the last iteration."""
    groups = ("solver", "operator", "projection")
    opts = dict(rounds=1, opaque_alias=False, full_cap=40)
    k = -1

    def make_facets(self):
        fs = super().make_facets()
        return fs + [Tol(), Mon(), Hist(self)]

    def select(self, e):
        return bool(set(e.params) & TOLS) and e.group in self.groups

    def setup(self, D):
        super().setup(D)
        D.I.exact_index = True

        def prune(e, n, vs):
            if n in TOLS:
                return [v for v in vs if v == "f"] or vs
            if n in ("show", "verb"):
                return [v for v in vs if v == "b0"] or vs
            if n in ("callback",):
                return [v for v in vs if v == "none"] or vs
            return vs
        D.opts["prune"] = prune

    def begin(self, D, run):
        super().begin(D, run)
        D.I.bound = 3
        self.k = -1
        self.heads = []

    def event(self, I, ev):
        run = self.D.cur
        if ev.kind == "loop_head":
            if ev["depth"] == 0:
                self.touched.clear()
                if ev["iteration"] == 0:
                    self.heads, self.frame = [], I.sc.frame
                self.k = ev["iteration"]
                I.trip_offset = 0 if self.k == 0 else LATER
                if self.k == 0:
                    self.counts = self.numbers(I)
                elif self.k == 1:
                    self.advance(I)
                self.heads.append(self.cells(I))
        elif ev.kind == "compare" and self.k >= 1 and ev["op"] in DIFF:
            a, b = ev["left"], ev["right"]
            for x, y in ((a, b), (b, a)):
                if y.f.get("tolp") and not x.f.get("tolp"):
                    self.tested(I, ev, run, x, y.f["tolp"])

    def numbers(self, I):
        return {(loc, n): v.const for loc, d in I.st.mem.items() if loc == self.frame or isinstance(loc, tuple) and loc
                and loc[0] not in ("M", "c") for n, v in d.items() if isinstance(v, AV) and type(v.const) is int and v.kind == "num"}

    def advance(self, I):
        """The second iteration stands for a much later one."""
        for (loc, n), c in self.numbers(I).items():
            if self.counts.get((loc, n)) == c - 1 and n != "#n":
                I.st.mem[loc] = dict(I.st.mem[loc], **{n: num(c + LATER, deps=I.st.mem[loc][n].deps, f=I.facet_map("const", c + LATER))})

    def cells(self, I):
        out = {}
        for loc, d in I.st.mem.items():
            if loc != self.frame and not (isinstance(loc, tuple) and loc and loc[0] not in ("M", "c")):
                continue
            for n, v in d.items():
                t = self.facet(v) if isinstance(v, AV) else None
                if t is not None and t.form is not None and not t.scalar and t.rows is None:
                    out[loc, n] = t.form
        return out

    def tested(self, I, ev, run, x, tol):
        inst = (run.entry.name, run.method, tol)
        e = run.entry.name
        con = "%s in %s of %s" % (tol, ev.func, e)
        h = x.f.get("hist")
        if tol in VALUE:
            return
        if h is not None:
            self.oblige("tolerance-measures", inst)
            for j, what in ((self.k, "at this iterate"), (self.k - 1, "at the previous iterate")):
                if j not in h:
                    self.oblige("tolerance-measures", inst, False)
                    return self.report(self.D, "tolerance-measures", con, "the change %s of %s monitors misses the function values %s"
                                       % (tol, e, what), ev)
            return
        m = x.f.get("mon")
        if not m:
            return
        self.oblige("tolerance-measures", inst)
        cur = self.cells(I)
        bad = None
        for f in m:
            F = dict(f)
            if not F:
                bad = "is always zero"
                continue
            near, far = False, False
            for c, t in cur.items():
                for s in (1, -1):
                    rest = fadd(t, F, -s)             # t - s F
                    if rest == self.heads[-1].get(c):
                        near = True
                    elif any(rest == hd.get(c) for hd in self.heads[:-1]):
                        far = True
            if far and not near:
                bad = "is the distance to an iterate older than the previous one"
        if bad:
            self.oblige("tolerance-measures", inst, False)
            self.report(self.D, "tolerance-measures", con, "the change %s of %s monitors %s" % (tol, e, bad), ev)
