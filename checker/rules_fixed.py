"""Fixed points of the iterations are solutions.

The body of the main loop of a solver is summarised as a linear recurrence over
uninterpreted results (see forms.py).  At a fixed point every cell the loop
changes equals its new value; together with the conserved combinations of the
cells, the defining equations of inner solves and the subgradients

    p = f.prox(a, s):      (a - p) / s  in  df(p)
    y = f.proxdual(a, s):  y  in  df((a - y) / s)
    g = f.grad(a):         g  in  df(a)

this has to imply the optimality condition of the documented problem."""
from __future__ import annotations

from fractions import Fraction

import forms
from forms import V, Forms, Sampler, Span, apply, closure, fadd, fscale, fstr, rat, rdiv, scal, sym, unk, ZERO
from framework import Analysis
from rules_shift import adj
from rules_units import CRow
from state import alts
from values import NOC

UNIFORM = {"tau", "mu", "epsg", "epsr", "sigma", "alpha", "beta", "eta", "theta", "gamma"}
X = {(): rat(1)}


def op(*w):
    return {tuple(w): rat(1)}


def two(label, c=None):
    return [("%s[%d]" % (label, k), X, c) for k in range(2)]


def sparsity(run):
    return sym("epsg")


def fit(A, b):
    """Gradient of |A x - b|^2 / 2."""
    def f(x):
        r = fadd(apply(op(A), x), {("@" + b,): rat(1)}, -1)
        return apply(op(A + "^H"), r)
    return f


def vector(name):
    return lambda x: {("@" + name,): rat(1)}


def given(run, *names):
    return all(run.config.get(n) not in ("none", None) for n in names)


# per entry: list of conditions (terms, extra); term = (function, operator, coefficient, index of the result)
def problem(run):
    n, c = run.entry.name, run.config
    both = [("proxf", X, None), ("proxg", X, None)]
    if n == "ProximalPoint":
        return [([("prox", X, None)], None)]
    if n in ("ProximalGradient", "AcceleratedProximalGradient", "AndersonProximalGradient"):
        return [([("proxf", X, None), ("proxg", X, sym("epsg"))], None)]
    if n == "GeneralizedProximalGradient":
        return [(two("proxfs") + two("proxgs", sym("epsg")), None)]
    if n == "HQS":
        return [([("proxf", X, None, 0), ("proxg", X, None, 1)], None)]
    if n in ("ADMM", "DouglasRachfordSplitting"):
        return [(both, None)]
    if n == "ADMML2":
        return [([("proxg", op("A"), None)], fit("Op", "b"))]
    if n == "TwIST":
        return [([("proxg", X, None)], fit("A", "b"))]
    if n == "LinearizedADMM":
        return [([("proxf", X, None), ("proxg", op("A"), None)], None)]
    if n in ("PrimalDual", "AdaptivePrimalDual"):
        return [([("proxf", X, None), ("proxg", op("A"), None)], vector("z") if given(run, "z") else None)]
    if n in ("PPXA", "ConsensusADMM"):
        return [(two("proxfs"), None)]
    if n in ("PALM", "iPALM"):
        return [([("H" + v, X, None, k)] + ([(p, X, None, k)] if given(run, p) else []), None)
                for k, (v, p) in enumerate((("x", "proxf"), ("y", "proxg")))]
    if n == "PlugAndPlay":
        return [([("proxf", X, None), ("denoiser", X, None)], None)]
    # operators: (x - p) / tau is the sum of the subgradients at p
    step = lambda p: fscale(fadd(p, {("@x",): rat(1)}, -1), rdiv(rat(1), sym("tau")))
    dist = lambda p: fadd(p, {("@x",): rat(1)}, -1)
    if n == "Sum":
        m = int(c["ops"][1:])
        ws = weights(m, c.get("weights"))
        co = [w if c.get("use_original_tau") == "b1" and (m > 2 or m == 2 and c.get("use_parallel") == "b1") else None for w in ws]
        return [([("ops[%d]" % k, X, co[k]) for k in range(m)], step)]
    if n in ("GenericIntersectionProx", "GenericIntersectionProj"):
        return [([("projections[%d]" % k, X, None) for k in range(int(c["projections"][1:]))], dist)]
    if n == "user(nonlinear)":
        return [([("f", X, None)], step)]
    return None


SOLVERS = ("ProximalPoint", "ProximalGradient", "AcceleratedProximalGradient", "AndersonProximalGradient",
           "GeneralizedProximalGradient", "HQS", "ADMM", "ADMML2", "LinearizedADMM", "TwIST", "DouglasRachfordSplitting",
           "PPXA", "ConsensusADMM", "PrimalDual", "AdaptivePrimalDual", "PALM", "iPALM", "PlugAndPlay")
INNER = {"Sum": "prox", "GenericIntersectionProx": "prox", "GenericIntersectionProj": "__call__", "user(nonlinear)": "prox"}


def weights(m, code="a"):
    if code == "none" or m == 1:
        return [rat(Fraction(1, m))] * m
    ws = [sym("w%d" % k) for k in range(m - 1)]
    last = rat(1)
    for w in ws:
        last = forms.radd(last, w, -1)
    return ws + [last]


class Loop:
    def __init__(self, mem, outer):
        self.entry = self.begin = dict(mem)
        self.end = None
        self.changed = {}
        self.bil, self.bil_end = {}, {}
        self.stable = False
        self.outer = outer
        self.atoms = set()


class Base(Analysis):
    """Forms of all values, with loops summarised as recurrences."""
    opts = dict(rounds=1, opaque_alias=False)
    generic = [sym("eta"), sym("theta")]

    def make_facets(self):
        f = self.S = Forms()
        f.an = self
        self.loops, self.cur_loops, self.missing = [], {}, set()
        orig = f.intern

        def intern(kind, key, **info):
            a = orig(kind, key, **info)
            self.touched.add(a)
            return a
        self.touched = set()
        f.intern = intern
        return [f]

    def setup(self, D):
        D.I.search_ends = True

    unknown = []

    def lacking(self, eqs, pairs, res):
        """Does a cell of unknown value take part?"""
        at = {w for x in self.unknown for w in x}
        forms_ = list(eqs) + [f for p in pairs for f in p[1:3]] + [r.form for r in res if r.form is not None]
        return any(w[-1:] in at for f in forms_ for w in f)

    def begin(self, D, run):
        if run.phase != "ctor" or run.entry.methods is None:
            self.loops, self.cur_loops, self.missing = [], {}, set()
            self.touched = set()
        self.bil = {}

    def miss(self, fn):
        self.missing.add(fn)

    def source(self, run, label, name, kind):
        lab = label.split("self.", 1)[-1]
        if kind == "p":
            return V(role=("fun", lab))
        if kind == "fn1":
            return V(role=("proj", lab))
        if kind == "den":
            return V(role=("den", lab))
        if kind == "H":
            return V(role=("bil", lab))
        if kind == "slv":
            return V(role=("slv", lab))
        if kind == "l":
            return V(None, None, op(lab))
        if kind in ("f", "i"):
            if name == "weights":
                return scal(weights(int(run.config["weights"][1:]))[int(lab[8:-1])])
            return scal(sym(lab))
        if kind == "a":
            if name in UNIFORM:
                return scal(sym(lab))
            return V({("@" + lab,): rat(1)}, nm=lab)
        return None

    # ---- loops
    def event(self, I, ev):
        k = ev.kind
        if k == "loop_head":
            key = (id(ev["loop"]), len(I.stack))
            if ev["iteration"] == 0:
                L = Loop(I.st.mem, ev["depth"] == 0)
                L.name = "l%d" % (getattr(ev["loop"], "lineno", 0))
                self.cur_loops[key] = L
                self.loops.append(L)
            L = self.cur_loops.get(key)
            if L is None:
                return
            if ev["depth"] == 0:
                self.touched.clear()
            if ev["iteration"] > 0:
                self.havoc(I.st, L)
                L.begin = dict(I.st.mem)
                if ev["depth"] == 0:
                    self.bil = {k: {("@%s.%s~%s" % (k + (L.name,)),): rat(1)} for k in self.bil}
                    L.bil = dict(self.bil)
            self.active = L
        elif k == "loop_end" and not ev["unrolled"]:
            L = self.cur_loops.get((id(ev["loop"]), len(I.stack)))
            if L is None:
                return
            L.end = dict(I.st.mem)
            L.bil_end = dict(self.bil)
            new = self.changes(L)
            L.stable = not new
            for cell, n in new.items():
                L.changed[cell] = n
            L.atoms = set(self.touched)

    def facet(self, v):
        if v is None:
            return None
        if v.kind == "union":
            ps = [p for p in v.parts if p.kind != "undef"]
            return self.facet(ps[0]) if len(ps) == 1 else None
        return v.f.get("lf") if v.kind in ("num", "arr", "any") else None

    def changes(self, L):
        out = {}
        for loc, d in L.end.items():
            b = L.begin.get(loc)
            if b is d or loc[0] in ("M", "C"):
                continue
            for k, v in d.items():
                if v is None or isinstance(v, int) or not hasattr(v, "kind"):
                    continue
                t = self.facet(v)
                w = b.get(k) if b is not None else None
                if w is v:
                    continue
                u = self.facet(w) if w is not None and hasattr(w, "kind") else None
                if t is None and u is None:
                    continue
                if t != u or t is not None and not (t.known or t.scalar) and (loc, k) not in L.changed:
                    if (loc, k) not in L.changed:
                        out[(loc, k)] = (t, u)
        return out

    def havoc(self, st, L):
        names = {}
        for (loc, k), (t, u) in L.changed.items():
            d = st.mem.get(loc)
            v = d.get(k) if d is not None else None
            if v is None or not hasattr(v, "kind"):
                continue
            nm = "%s" % (k,) if not isinstance(k, int) else "item%d" % k
            nm = "%s~%s" % (nm, L.name)
            while nm in names:
                nm += "'"
            names[nm] = 1
            nv = self.fresh(v, nm, t, u)
            if nv is not v:
                st.mem[loc] = {**st.mem[loc], k: nv}

    def fresh(self, v, nm, t, u):
        if v.kind == "union":
            ps = tuple(self.fresh(p, nm, t, u) for p in v.parts)
            return v.with_(parts=ps)
        if v.kind not in ("num", "arr", "any"):
            return v
        if v.kind == "num" or t is not None and t.scalar and not t.zero or v.kind == "any" and (t is None or not t.known):
            return v.with_(f=dict(v.f, lf=scal(sym(nm))), const=NOC)
        n = len(t.rows) if t is not None and t.rows is not None else len(u.rows) if u is not None and u.rows is not None else None
        if n:
            return v.with_(f=dict(v.f, lf=V(rows=tuple(V({("@%s.%d" % (nm, i),): rat(1)}) for i in range(n)))))
        return v.with_(f=dict(v.f, lf=V({("@" + nm,): rat(1)})))

    # ---- equations
    def equations(self, D):
        """(list of forms that vanish at a fixed point, complete?)"""
        S = self.S
        eqs, complete, unknown = [], True, self.unknown
        unknown.clear()
        outer = [L for L in self.loops if L.outer and L.end is not None
                 and any(S.atoms[a]["kind"] in ("prox", "proxdual", "grad") for a in L.atoms)]
        live = set(self.touched)
        for L in outer:
            live |= L.atoms
            complete &= L.stable
            rows = []
            for (loc, k) in L.changed:
                b, e = L.begin.get(loc, {}).get(k), L.end.get(loc, {}).get(k)
                i = L.entry.get(loc, {}).get(k)
                fb, fe = self.facet(b), self.facet(e)
                fi = self.facet(i) if i is not None and hasattr(i, "kind") else None
                if fb is None or fb.scalar:
                    continue
                for x, y, z in self.pieces(fb, fe, fi):
                    if x is None:
                        continue
                    if y is None:
                        unknown.append(x)
                        continue
                    rows.append((fadd(y, x, -1), x, z))
            eqs += [r for r, x, z in rows]
            eqs += self.conserved(rows)
            for k, x in L.bil.items():
                y = L.bil_end.get(k)
                if y is None:
                    complete = False
                else:
                    eqs.append(fadd(y, x, -1))
        for a in sorted(live):
            i = S.atoms[a]
            if i["kind"] == "sol":
                for q in i["eqs"]({(a,): rat(1)}):
                    if q is None:
                        complete = False
                    else:
                        eqs.append(q)
        return eqs, complete, live

    def pieces(self, b, e, i):
        S = self.S
        if b.rows is not None:
            n = len(b.rows)
            es = e.rows if e is not None and e.rows is not None and len(e.rows) == n else (None,) * n
            js = i.rows if i is not None and i.rows is not None and len(i.rows) == n else (None,) * n
            return [(S.vec(x), S.vec(y) if y is not None else None, S.vec(z) if z is not None else None)
                    for x, y, z in zip(b.rows, es, js)]
        return [(S.vec(b), S.vec(e) if e is not None and e.rows is None else None,
                 S.vec(i) if i is not None and i.rows is None else None)]

    def conserved(self, rows):
        """Combinations of cells the body does not change keep their initial value."""
        M = self.M
        sp = Span()
        out = []
        rows = [r for r in rows if r[2] is not None]
        for k, (r, x, z) in enumerate(rows):
            c = sp.add(M.form(r), {k: 1})
            if c:
                v = {}
                for j, a in c.items():
                    for w, y in M.form(fadd(rows[j][1], rows[j][2], -1)).items():
                        v[w] = (v.get(w, 0) + a * y) % forms.P
                out.append({w: y for w, y in v.items() if y})
        return out

    def space(self, eqs, pairs=()):
        M = self.M
        more = [f for p in pairs for f in p[1:3]]
        vs = [M.form(e) if e and not isinstance(next(iter(e.values())), int) else dict(e) for e in eqs]
        sp = Span()
        for v in closure([v for v in vs if v], more=more):
            if v:
                sp.add(v)
        return sp

    def pairs(self, live):
        """(function, smooth evaluation?, point, subgradient, atom) of the live evaluations."""
        S = self.S
        out = []
        for a in sorted(live):
            i = S.atoms[a]
            if i["kind"] not in ("prox", "proxdual", "grad"):
                continue
            at = {(a,): rat(1)}
            if i["kind"] == "grad":
                out.append((i["fn"], i["arg"], at, a))
                continue
            inv = rdiv(rat(1), i["step"])
            if inv is None:
                continue
            q = fscale(fadd(i["arg"], at, -1), inv)
            out.append((i["fn"], at, q, a) if i["kind"] == "prox" else (i["fn"], q, at, a))
        return [p for p in out if p[1] is not None and p[2] is not None]

    def unify(self, sp, eqs, pairs):
        """Differentiable functions have one gradient at a point."""
        M, S = self.M, self.S
        for _ in range(3):
            new = []
            for i, (f, p, s, a) in enumerate(pairs):
                if f not in S.smooth:
                    continue
                for g, q, t, b in pairs[:i]:
                    if f == g:
                        d = fadd(s, t, -1)
                        if not sp.has(M.form(d)) and sp.has(M.form(fadd(p, q, -1))):
                            new.append(d)
            if not new:
                return sp, eqs
            eqs = eqs + new
            sp = self.space(eqs, pairs)
        return sp, eqs


    def undecided(self, run, why):
        import os
        if os.environ.get("VERIF_FORMS"):
            print("undecided", run.entry.name, {k: v for k, v in run.config.items() if v not in "afipl"}, why)


class FixedPoints(Base):
    groups = ("solver", "operator", "projection", "combinator")

    def select(self, e):
        return e.name in SOLVERS or e.name in INNER

    def methods(self, entry):
        m = INNER[entry.name]
        return {m: {k: v for k, v in entry.methods[m].items()}}

    def rows(self, D, entry, v):
        cs = D.configs(entry, v)
        for c in cs:
            for n in ("show", "callback", "callbackz", "callbacky"):
                if n in c:
                    c[n] = {"show": "b0", "callback": "none"}.get(n, "b0")
        cs += [dict(c, **{n: "c:1.0"}) for n in ("eta", "theta") for c in cs if c.get(n) == "f"]
        seen, out = set(), []
        for c in cs:
            for n in ("ops", "proxgs", "proxfs"):
                if c.get("weights") == "a" and n in c:
                    c["weights"] = "t" + c[n][1:]
            k = tuple(sorted(c.items()))
            if k not in seen:
                seen.add(k)
                out.append(CRow(c))
        return out

    def after(self, D, run):
        if run.result is None or D.I.st is None or run.phase == "ctor":
            return
        if run.phase == "method" and INNER.get(run.entry.name) != run.method:
            return
        conds = problem(run)
        self.M = Sampler(7)
        try:
            eqs, complete, live = self.equations(D)
            pairs = self.pairs(live)
            sp = self.space(eqs, pairs)
            sp, eqs = self.unify(sp, eqs, pairs)
        except ValueError:
            return
        for res in self.results(run.result):
            for k, (terms, extra) in enumerate(conds):
                verdict, why = self.condition(sp, pairs, live, res, terms, extra)
                key = (run.entry.name, run.method, k, tuple(sorted(run.config.items())))
                if verdict is None or not verdict and (not complete or self.lacking(eqs, pairs, res) or self.sized(eqs, pairs) or self.ambiguous(run, pairs)):
                    self.undecided(run, why)
                    continue
                self.oblige("fixed-point", key, verdict)
                if not verdict:
                    self.report(D, "fixed-point", "%s %s" % (run.entry.name, why.split(":")[0]), why)

    def sized(self, eqs, pairs):
        """Sizes of arrays are not known, so neither are the sums they divide."""
        return any(s.startswith(("s:shape", "s:attr")) for f in list(eqs) + [f for p in pairs for f in p[1:3]]
                   for c in f.values() if not isinstance(c, int) for s in forms.syms(c))

    def ambiguous(self, run, pairs):
        """A relaxed step on top of a line search has two evaluations of each function."""
        return "roximalGradient" in run.entry.name and len([p for p in pairs if p[0] == "proxg"]) > 1

    def results(self, v):
        S = self.S
        for r in alts(v):
            if r.kind == "tuple":
                yield [S.of(p) for p in r.parts or ()]
            elif r.kind != "none":
                yield [S.of(r)]

    def condition(self, sp, pairs, live, res, terms, extra):
        M = self.M
        total = {}
        main = None
        for t in terms:
            fn, A, co = t[:3]
            k = t[3] if len(t) > 3 else 0
            if k >= len(res) or res[k].form is None:
                return None, "result unknown"
            x = res[k].form
            main = x if main is None else main
            if fn in self.missing:
                return None, "%s is evaluated at an unknown point" % fn
            cand = [p for p in pairs if p[0] == fn]
            if not cand:
                return False, "%s is not evaluated by the iteration" % fn
            at = apply(A, x)
            ok = [p for p in cand if sp.has(M.form(fadd(p[1], at, -1)))]
            o = self.S.atoms[ok[0][3]].get("other", 0) if ok else 0
            if o is None:
                return None, "the other variable of %s is unknown" % fn
            if o:
                y = res[1 - k].form
                if y is None:
                    return None, "result unknown"
                ok = [p for p in ok if sp.has(M.form(fadd(self.S.atoms[p[3]]["other"], y, -1)))]
                if not ok:
                    return False, "%s is evaluated with an outdated other variable: %s instead of %s" % (fn, fstr(o), fstr(y))
            if not ok:
                return False, ("%s is not evaluated at the solution: at a fixed point of the iteration its variable is %s, "
                               "the solution %s" % (fn, fstr(cand[0][1]), fstr(at)))
            s = apply(adj(A), ok[0][2])
            total = fadd(total, fscale(s, co) if co is not None else s)
        if main is None:
            main = res[0].form
        if extra is not None:
            total = fadd(total, extra(main))
        if total is None:
            return None, "sum unknown"
        if sp.has(M.form(total)):
            return True, ""
        return False, "optimality: at a fixed point of the iteration the subgradients of %s do not add up to zero (%s)" % (
            ", ".join(t[0] for t in terms), fstr(total)[:300])
