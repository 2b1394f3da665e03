"""Problems handed to inner solvers.

Segment builds the pieces of its problem and calls PrimalDual; Bregman calls a
solver of the caller with a new function at every outer iteration.  What they
hand over is compared with the documented problem: the entries of arrays as
rational functions of the entries of the inputs (Segment), linear forms over
uninterpreted gradients (Bregman)."""
from __future__ import annotations

from forms import V, Forms, fadd, frz, fscale, fstr, radd, rat, rdiv, rmul, scal, sym, unk
from rules_fixed import Base
from values import AV, NOC


class Funs(Forms):
    """Adds multiples of given functions plus linear terms: ("lin", name, factor, form)."""

    def lin(self, v):
        r = self.of(v).role
        if r and r[0] == "fun":
            return ("lin", r[1], rat(1), frz({}))
        return r if r and r[0] == "lin" else None

    def scaled(self, l, c):
        f = fscale(dict(l[3]), c)
        k = rmul(l[2], c)
        return V(role=("lin", l[1], k, frz(f))) if f is not None and k is not None else unk()

    def shifted(self, l, x, s=1):
        f = self.vec(x) if x.rows is None else None
        f = fadd(dict(l[3]), f, s) if f is not None else None
        return V(role=("lin", l[1], l[2], frz(f))) if f is not None else unk()

    def linop_binop(self, t, a, b):
        for x, c in ((a, b), (b, a)):
            l = self.lin(x)
            if l is not None:
                k = self.of(c)
                return self.scaled(l, k.val) if t == "Mult" and k.scalar else unk()
        return super().linop_binop(t, a, b)

    def ext_add(self, t, a, b):
        l = self.lin(a)
        return self.shifted(l, self.of(b), 1 if t == "Add" else -1) if l is not None else None

    def ext_compose(self, name, o, args, kwargs):
        l = self.lin(o)
        vs = list(args) + list(kwargs.values())
        if l is None or len(vs) != 1:
            return None
        x = self.of(vs[0])
        if name == "affine_addition":
            return self.shifted(l, x)
        if name == "postcomposition" and x.scalar:
            return self.scaled(l, x.val)
        return unk()

    def ext(self, o, name, args, kwargs, node):
        t = self.of(o)
        if t.role and t.role[0] == "slv":
            return V({("@x%d" % len(self.an.calls),): rat(1)})
        if t.role and t.role[0] == "lin":
            return unk()
        return super().ext(o, name, args, kwargs, node)


class Inner(Base):
    groups = ("solver",)
    opts = dict(rounds=1, opaque_alias=False, full_cap=60)

    def select(self, e):
        return e.name in ("Segment", "Bregman")

    def make_facets(self):
        import rules_fixed
        old = rules_fixed.Forms
        rules_fixed.Forms = Funs
        try:
            return super().make_facets()
        finally:
            rules_fixed.Forms = old

    def setup(self, D):
        super().setup(D)
        D.I.exact_index = True

        def prune(e, n, vs):
            if n in ("show", "verb"):
                return [v for v in vs if v == "b0"] or vs
            return vs
        D.opts["prune"] = prune

    def begin(self, D, run):
        super().begin(D, run)
        D.I.bound = 3
        self.calls = []

    def source(self, run, label, name, kind):
        if run.entry.name == "Segment" and kind in ("a", "f", "i"):
            return scal(sym(label))
        return super().source(run, label, name, kind)

    def event(self, I, ev):
        run = self.D.cur
        if run.entry.name == "Segment":
            if ev.kind == "call" and ev["fn"].name == "PrimalDual":
                self.segment(I, ev, run)
        elif ev.kind == "extcall" and ev["meth"] == "__call__":
            t = self.S.of(ev["obj"])
            if t.role and t.role[0] == "slv":
                self.bregman(I, ev, run)

    def wrong(self, what, got, want, ev, run):
        e = run.entry.name
        self.oblige("inner-problem", (e, what) + tuple(sorted(run.config.items())), False)
        self.report(self.D, "inner-problem", "%s of %s" % (what, e), "the %s %s hands to its inner solver is %s instead of %s"
                    % (what, e, got, want), ev)

    def judge(self, what, got, want, ev, run, show=repr):
        self.oblige("inner-problem", (run.entry.name, what) + tuple(sorted(run.config.items())))
        if got != want:
            self.wrong(what, show(got), show(want), ev, run)

    # ---- Segment: min sigma/2 <x, |y - cl|^2 / clsigmas> + <x, z> + alpha/2 |grad x|_21 over the simplex
    def segment(self, I, ev, run):
        a = ev["fn"].node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        b = dict(zip(names, ev["args"]))
        b.update(ev["kwargs"])
        c = run.config
        d = radd(sym("y"), sym("cl"), -1)
        want = rmul(rmul(rdiv(sym("sigma"), rat(2)), d), d)
        if c.get("clsigmas") != "none":
            want = rdiv(want, sym("clsigmas"))
        if c.get("z") != "none":
            want = radd(want, sym("z"))
        z = b.get("z")
        t = self.facet(z) if z is not None else None
        if z is None or z.kind == "none":
            self.judge("linear term", "missing", "given", ev, run)
        elif t is not None and t.scalar:
            self.judge("linear term", t.val, want, ev, run)
        x = b.get("x0")
        t = self.facet(x) if x is not None else None
        if t is not None and t.scalar:
            self.judge("starting point", t.val, sym("x0") if c.get("x0") != "none" else rat(0), ev, run)
        for o in self.members(I, b.get("proxg")):
            if o[0] != "L21":
                continue
            s = o[1].get("sigma")
            t = self.facet(s) if s is not None else None
            if t is not None and t.scalar and t.quad is None:
                self.judge("weight of the gradient term", t.val, rdiv(sym("alpha"), rat(2)), ev, run)
        for o in self.members(I, b.get("proxf")):
            if "Simplex" not in o[0]:
                continue
            t = self.facet(o[1]["radius"]) if "radius" in o[1] else None
            if t is not None and t.scalar:
                self.judge("radius of the simplex", t.val, rat(1), ev, run)
            t = self.facet(o[1]["axis"]) if "axis" in o[1] else None
            if t is not None and t.scalar:
                self.judge("axis of the simplex", t.val, rat(0), ev, run)

    def members(self, I, v):
        """(class name, attributes) of an object and of the parts of a stack of objects."""
        if v is None:
            return []
        if v.kind == "union":
            return [m for p in v.parts for m in self.members(I, p)]
        if v.kind != "inst":
            return []
        at = I.st.mem.get(v.loc, {})
        nm = v.fn.name
        if nm != "VStack":
            return [(nm, at)]
        ops = at.get("ops")
        if ops is None:
            return []
        xs = I.elements(ops) if ops.kind in ("list", "tuple") else None
        if xs is None:
            e = I.elem_of(ops, None) if ops.kind in ("list", "tuple") else None
            xs = [e] if e is not None else []
        return [m for x in xs for m in self.members(I, x)]

    # ---- Bregman: min f + alpha g - alpha <q, x>,  q <- q - grad f(x) / alpha
    def bregman(self, I, ev, run):
        k = len(self.calls)
        args, kw = list(ev["args"]), ev["kwargs"]
        f = args[0] if args else kw.get("proxf")
        g = args[1] if len(args) > 1 else kw.get("proxg")
        self.calls.append(ev)
        want = {}
        for j in range(1, k + 1):
            arg = {("@x%d" % j,): rat(1)}
            want = fadd(want, self.S.atom("grad", ("proxf", repr(frz(arg))), fn="proxf", arg=arg))
        l = self.S.lin(f) if f is not None and f.kind == "ext" else None
        if l is not None:
            if l[1:3] != ("proxf", rat(1)):
                self.judge("function f", "(%r) %s" % (l[2], l[1]), "(1) proxf", ev, run, str)
            elif all(w[-1][:2] == "@g" for w, _ in l[3]):
                self.judge("linear term of iteration %d" % (k + 1), frz(dict(l[3])), frz(want), ev, run,
                           lambda t: fstr(dict(t)))
        x = kw.get("x0", args[2] if len(args) > 2 and "A" not in kw and run.config.get("A") == "none" else None)
        t = self.facet(x) if x is not None else None
        if t is not None and t.form is not None and t.rows is None and (len(t.form) == 1 and next(iter(t.form))[-1][:2] == "@x"):
            w = "x%d" % k if k and run.config.get("warm") == "b1" else "x0"
            self.judge("starting point of iteration %d" % (k + 1), frz(t.form), frz({("@" + w,): rat(1)}), ev, run,
                       lambda t: fstr(dict(t)))
        l = self.S.lin(g) if g is not None and g.kind == "ext" else None
        if l is not None:
            self.judge("function g", "(%r) %s + %s" % (l[2], l[1], fstr(dict(l[3]))), "(%r) proxg + 0" % sym("alpha"), ev, run, str)

    def after(self, D, run):
        pass
