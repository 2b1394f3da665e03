"""Value, gradient, prox and dual prox of an operator belong to one function.

For a prox result p of x with step t the pair (p, (x - p)/t), for a dual prox
result y the pair ((x - y)/t, y) and for a gradient g the pair (x, g) has to
satisfy the subgradient relation of the documented function, whatever the
composed functions and operators are."""
from __future__ import annotations

import forms
from forms import V, apply, fadd, fscale, fstr, frz, rat, rdiv, rmul, sym, scal, Quad, Sampler
from rules_fixed import Base, X, op
from rules_shift import adj
from rules_units import CRow
from state import alts
from values import NOC



def at(n):
    return {("@" + n,): rat(1)}


class Doc:
    """Documented function: composed terms and a smooth part.

    terms: (function, operator, offset, coefficient): c f(A x + b)
    smooth: x -> gradient of the remaining part (None: zero)
    value: Quad of the remaining part at x, or None when not stated."""

    def __init__(self, terms=(), smooth=None, value=None, conj=False, const=None, rewrites=None, grad=None, cover=()):
        self.terms, self.smooth, self.value, self.conj = list(terms), smooth, value, conj
        self.const, self.rewrites, self.grad = const, rewrites or {}, grad or smooth
        self.cover = [op(w) for w in cover]      # selections which together keep every entry once


def has(c, *names):
    return all(c.get(n) not in ("none", None) for n in names)


def documented(run):
    n, c = run.entry.name, run.config
    if n == "L2":
        s, A, b = sym("sigma"), X, {}
        if has(c, "b"):
            b = at("b")
            if has(c, "Op"):
                A = op("Op")
        q = fscale(at("q"), sym("alpha")) if has(c, "q") else {}

        def smooth(x, q=q):
            return fadd(fscale(apply(adj(A), fadd(apply(A, x), b, -1)), s), q)
        return Doc(smooth=smooth, value=True, grad=smooth if c.get("qgrad") != "b0" else lambda x: smooth(x, {}))
    if n == "Quadratic":
        A = op("Op") if has(c, "Op") else {}
        b = at("b") if has(c, "b") else {}
        return Doc(smooth=lambda x: fadd(apply(A, x), b), value=True, const=sym("c"), rewrites={"symmetric": {"Op"}})
    if n == "Orthogonal":
        b = at("b") if has(c, "b") else {}
        k = sym("alpha") if c.get("partial") == "b1" else rat(1)
        rw = {("Q", "Q^H"): k}
        if c.get("partial") != "b1":
            rw["Q^H", "Q"] = rat(1)
        return Doc([("f", op("Q"), b, rat(1))], value=True, rewrites=rw)
    if n in ("f+v", "f-v"):
        v = at("v") if n == "f+v" else fscale(at("v"), rat(-1))
        return Doc([("f", X, {}, rat(1))], smooth=lambda x: v, value=True)
    if n == "c*f":
        return Doc([("f", X, {}, sym("c"))], value=True)
    if n == "f(ax+b)":
        b = {(forms.ONE,): sym("b")} if c.get("b") == "f" else at("b")
        return Doc([("f", {(): sym("a")}, b, rat(1))], value=True)
    if n == "f.H":
        return Doc([("f", X, {}, rat(1))], conj=True)
    if n in ("user(prox)", "user(proxdual)"):
        return Doc([("f", X, {}, rat(1))])
    if n == "VStack":
        if has(c, "restr"):
            R = [op("restr[%d]" % k) for k in range(2)]
            rw = {("restr[%d]" % j, "restr[%d]^H" % k): rat(1 if j == k else 0) for j in range(2) for k in range(2)}
            return Doc([("ops[%d]" % k, R[k], {}, rat(1)) for k in range(2)], value=True, rewrites=rw,
                       cover=["restr[0]", "restr[1]"])
        w = [forms.slice_word(rat(0), sym("nn[0]")), forms.slice_word(sym("nn[0]"), forms.radd(sym("nn[0]"), sym("nn[1]")))]
        rw = {(w[j], w[k] + "^H"): rat(1 if j == k else 0) for j in range(2) for k in range(2)}
        rw["names"] = {"part%d/2%s" % (k, h): w[k] + h for k in range(2) for h in ("", "^H")}
        return Doc([("ops[%d]" % k, op(w[k]), {}, rat(1)) for k in range(2)], value=True, rewrites=rw, cover=w)
    return None


class Rewriting(Sampler):
    """Words modulo the documented relations of the operators."""

    def __init__(self, seed, rules):
        super().__init__(seed)
        self.rules = {k: v for k, v in rules.items() if isinstance(k, tuple)}
        self.sym = rules.get("symmetric", ())
        self.names = rules.get("names", {})

    def word(self, w):
        c = rat(1)
        w = tuple(self.names.get(x, x) for x in w)
        w = tuple(x[:-2] if x.endswith("^H") and x[:-2] in self.sym else x for x in w)
        k = 0
        while k + 1 < len(w):
            r = self.rules.get(w[k:k + 2])
            if r is None:
                k += 1
                continue
            if r.zero:
                return None, None
            c = rmul(c, r)
            w = w[:k] + w[k + 2:]
            k = max(0, k - 1)
        return w, c

    def form(self, f):
        r = {}
        for w, c in f.items():
            w, d = self.word(w)
            if w is None:
                continue
            v = (r.get(w, 0) + self.rat(c) * self.rat(d)) % forms.P
            r[w] = v
        return {w: v for w, v in r.items() if v}


class Belongs(Base):
    groups = ("operator", "combinator")
    exact = True
    x = at("x")
    tau = sym("tau")
    rule = "belongs"

    def select(self, e):
        return e.name in ("L2", "Quadratic", "Orthogonal", "f+v", "f-v", "c*f", "f(ax+b)", "f.H", "user(prox)",
                          "user(proxdual)", "VStack")

    def methods(self, entry):
        return {m: {k: v for k, v in entry.methods[m].items()} for m in ("__call__", "prox", "proxdual", "grad")}

    def source(self, run, label, name, kind):
        if name == "nn" and kind == "i":
            return scal(sym(label.split("self.", 1)[-1]))
        return Base.source(self, run, label, name, kind)

    def rows(self, D, entry, v):
        out = []
        for c in D.configs(entry, v):
            out.append(CRow(c))
        return out

    def after(self, D, run):
        if run.result is None or D.I.st is None or run.phase == "ctor" or run.phase != "method":
            return
        doc = documented(run)
        if doc is None:
            return
        self.M = Rewriting(11, doc.rewrites)
        S = self.S
        for r in alts(run.result):
            if r.kind in ("none", "bool"):
                continue
            t = S.of(r)
            v = self.check(run, doc, t)
            if v is None:
                continue
            ok, why = v
            key = (run.entry.name, run.method, tuple(sorted(run.config.items())), why if ok is None else "")
            if ok is None:
                self.undecided(run, why + " (" + run.method + ")")
                continue
            self.oblige(self.rule, key, ok)
            if not ok:
                self.report(D, self.rule, "%s.%s %s" % (run.entry.name, run.method, why.split(":")[0]), why + self.when(run))

    def when(self, run):
        return ""

    def check(self, run, doc, t):
        m = run.method
        if m == "__call__":
            return self.value(doc, t)
        if t.form is None and t.scalar:
            t = V(self.S.vec(t))
        if t.form is None:
            return None, "result unknown"
        x = self.x
        inv = rdiv(rat(1), self.tau)
        if m == "prox":
            p, s = t.form, fscale(fadd(x, t.form, -1), inv)
        elif m == "proxdual":
            p, s = fscale(fadd(x, t.form, -1), inv), t.form
        else:
            p, s = x, t.form
        default = m == "grad" and run.entry.name in ("user(prox)", "user(proxdual)", "Orthogonal", "f.H")
        if default:
            p = fadd(x, fscale(t.form, sym("sigmame") if "sigmame" in run.config else rat(1)), -1)      # Moreau envelope
        if doc.conj:
            p, s = s, p
        return self.relation(doc, p, s, doc.grad if m == "grad" else doc.smooth)

    def relation(self, doc, p, s, smooth):
        M, S = self.M, self.S
        live = {a for a in S.atoms}
        pairs = self.pairs(live)
        eqs = []
        if doc.cover:
            r = self.x
            for w in doc.cover:
                r = fadd(r, apply(adj(w), apply(w, self.x)), -1)
            eqs.append(r)
        for a in sorted(live):
            i = S.atoms[a]
            if i["kind"] == "sol":
                for q in i["eqs"]({(a,): rat(1)}):
                    if q is None:
                        return None, "solve unknown"
                    eqs.append(q)
        sp = self.space(eqs, pairs)
        total = fscale(s, rat(-1))
        if smooth is not None:
            total = fadd(total, smooth(p))
        for fn, A, b, c in doc.terms:
            if fn in self.missing:
                return None, "%s is evaluated at an unknown point" % fn
            y = fadd(apply(A, p), b)
            cand = [q for q in pairs if q[0] == fn]
            if not cand:
                return False, "%s is not evaluated" % fn
            ok = [q for q in cand if sp.has(M.form(fadd(q[1], y, -1)))]
            if not ok:
                return False, "%s is evaluated at another point: %s instead of %s" % (fn, fstr(cand[0][1]), fstr(y))
            best = None
            for q in ok:
                z = fadd(total, fscale(apply(adj(A), q[2]), c))
                best = z if best is None or sp.has(M.form(z)) else best
            total = best
        if total is None:
            return None, "sum unknown"
        if sp.has(M.form(total)):
            return True, ""
        return False, "wrong function: the result differs from the documented relation by %s" % fstr(total)[:300]

    def value(self, doc, t):
        """Value against the documented terms and, for the smooth part, its gradient."""
        if not doc.value:
            return None
        M, S = self.M, self.S
        q = t.quad if t.quad is not None else Quad({("const",): t.val}) if t.scalar else None
        if q is None:
            return None, "value unknown"
        x = self.x
        last = next(iter(x))[0]
        left = dict(q.t)
        for fn, A, b, c in doc.terms:
            y = M.form(fadd(apply(A, x), b))
            ks = [k for k in left if k[0] == "fun" and k[1] == fn]
            hit = [k for k in ks if M.form(dict(k[2])) == y]
            if not ks:
                return False, "value: %s is not evaluated" % fn
            if not hit:
                return False, "value: %s is evaluated at another point than %s" % (fn, fstr(fadd(apply(A, x), b)))
            if M.rat(left.pop(hit[0])) != M.rat(c):
                return False, "value: %s is weighted differently from %r" % (fn, c)
        g = {}
        const = rat(0)
        for k, c in left.items():
            if k[0] == "ip":
                u, v = dict(k[1]), dict(k[2])
                for a, b in ((u, v), (v, u)):
                    A = {w[:-1]: d for w, d in a.items() if w[-1] == last}
                    g = fadd(g, fscale(apply(adj(A), b), c))
            elif k[0] == "const":
                const = c
            else:
                return (False, "value: %s is evaluated but not part of the function" % k[1]) if k[0] == "fun" else (None, "value unknown")
        if g is None:
            return None, "value unknown"
        want = doc.smooth(x) if doc.smooth is not None else {}
        if M.form(g) != M.form(want):
            return False, "value: its gradient is %s instead of %s" % (fstr(g), fstr(want))
        if M.rat(const) != M.rat(doc.const if doc.const is not None else rat(0)):
            return False, "value: constant %r instead of %r" % (const, doc.const)
        return True, ""


class BelongsLater(Belongs):
    """The same for a call that follows another one with other arguments on the same object."""
    x = at("x@1")
    tau = sym("tau@1")
    rule = "belongs-later"
    passes = ({"order": 1}, {"order": -1})

    def begin(self, D, run):
        self.order = self.po["order"]
        super().begin(D, run)

    def sequences(self, entry, run):
        return [(a, b) for a in ("prox", "proxdual", "__call__", "grad") for b in ("prox", "proxdual", "__call__", "grad")
                if a in ("prox", "proxdual") or b in ("prox", "proxdual")]

    def sequence_begin(self, D, run):
        pass

    def after(self, D, run):
        if run.phase == "method" and run.step == 1:
            Belongs.after(self, D, run)

    def when(self, run):
        return " [%s called after %s with other arguments]" % (run.method, run.seq[0])
