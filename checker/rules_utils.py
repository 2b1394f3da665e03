"""The verification utilities report what they measure."""
from __future__ import annotations

import ast
import itertools

from driver import variants, twise
from framework import Analysis
from state import alts
from values import AV, E, NOC, all_deps, boolean, num

MUST = {"moreau": {"x", "prox", "proxdual"},
        "gradtest_proximal": {"grad", "f", "f+d"},
        "gradtest_bilinear": {"grad", "f", "f+d"}}
ABS = {"abs", "absolute", "fabs", "norm", "square"}


class Tags:
    """What a value was computed from."""
    name = "tg"

    def join(self, a, b):
        return a | b

    def join_none(self, a, b):
        return a if a is not None else b

    def of(self, *vs):
        r = E
        for v in vs:
            r |= v.f.get("tg") or E
            for p in v.parts or ():
                r |= self.of(p)
        return r

    def arg(self, run, label, name, kind):
        return frozenset([name])

    def const(self, c):
        return None

    def binop(self, t, a, b, n):
        r = self.of(a, b)
        if t == "Pow" and b.const is not NOC and b.const == 2:
            r |= {"abs"}
        elif t in ("Add", "Sub"):
            r -= {"abs"}
        if t in ("Mult", "Div", "FloorDiv", "Mod", "Pow"):
            x, y = self.of(a), self.of(b)
            for u, w, v in ((x, y, b), (y, x, a)):
                if u & {"tol", "atol"} and not u - {"tol", "atol", "scaled"} and v.const is NOC and w:
                    r |= {"scaled"}
        if t == "Div" and "jdelta" in self.of(b) and "abs" not in self.of(b):
            r |= {"divj"}
        if any(isinstance(x, str) and x.startswith("draw") for x in r):
            r |= {"moved"}
        elif t == "Mult" and any(isinstance(v.const, complex) for v in (a, b)) and r == {"delta"}:
            r |= {"jdelta"}
        return r

    def unary(self, t, a):
        if t == "Invert" and isinstance(a.f.get("tr"), str):
            return None
        return self.of(a)

    def func(self, name, args, kwargs, node):
        r = self.of(*args, *kwargs.values())
        if name.split(".")[-1] in ABS:
            r |= {"abs"}
            if "grad" in r and "f" not in r:
                r |= {"absgrad"}
            elif "f+d" in r and "grad" not in r:
                r |= {"absnum"}
        return r

    def random(self, name):
        self.n = getattr(self, "n", 0) + 1
        return frozenset(["draw%d" % self.n])

    def place(self, i):
        return frozenset(x for x in self.of(i) if isinstance(x, str) and (x == "moved" or x.startswith("draw")))

    def view(self, name, o, args, kwargs=None):
        r = self.of(o)
        if name in ("real", "imag"):
            r |= {name}
        return r

    def index(self, o, i):
        p = self.place(i)
        return self.of(o) | ({("at", p)} if p and "grad" in self.of(o) else E)

    def astype(self, o, d):
        return self.of(o)

    def store(self, f, v, target, value, how, index):
        return (f or E) | (self.of(value) if value is not None else E)

    def extarr(self, o, name):
        return frozenset(["block:" + name])

    def ext(self, o, name, args, kwargs, node):
        r = self.of(*args, *kwargs.values())
        if name == "__call__":
            return (r - {"abs"}) | {"f+d" if "delta" in r else "f"}
        if name in ("grad", "gradx", "grady"):
            return (r - {"abs"}) | {"grad", name} | ({"grad+d"} if "delta" in r else E)
        return r | {name}


class Real:
    """Real or complex."""
    name = "cx"

    def join(self, a, b):
        return "maybe"

    def join_none(self, a, b):
        return "maybe" if "complex" in (a, b) or "maybe" in (a, b) else None

    def arg(self, run, label, name, kind):
        return "real" if kind in ("f", "i") else None

    def const(self, c):
        return "complex" if isinstance(c, complex) else "real"

    def binop(self, t, a, b, n):
        x, y = a.f.get("cx"), b.f.get("cx")
        if "complex" in (x, y):
            return "complex"
        if "maybe" in (x, y):
            return "maybe"
        return "real" if x == y == "real" else None

    def unary(self, t, a):
        return a.f.get("cx")

    def func(self, name, args, kwargs, node):
        if name.split(".")[-1] in ABS:
            return "real"
        xs = {a.f.get("cx") for a in args}
        return "real" if xs == {"real"} else None

    def random(self, name):
        return "real"

    def view(self, name, o, args, kwargs=None):
        return "real" if name in ("real", "imag") else o.f.get("cx")

    def index(self, o, i):
        return o.f.get("cx")

    def astype(self, o, d):
        c = d.const if d is not None else None
        if isinstance(c, str):
            return "complex" if c.startswith(("complex", "c")) else o.f.get("cx") if o.f.get("cx") == "real" else None
        return o.f.get("cx")

    def store(self, f, v, target, value, how, index):
        return f

    def predicate(self, nm, args, kwargs=None):
        if nm in ("iscomplexobj", "isrealobj") and args:
            c = args[0].f.get("cx")
            if c in ("real", "complex"):
                return (c == "complex") == (nm == "iscomplexobj")
        return None


class Truth:
    """Outcome of the comparison with the tolerance, per element."""
    name = "tr"

    def join(self, a, b):
        return a if a == b else None

    def join_none(self, a, b):
        return None

    def store(self, f, v, target, value, how, index):
        return None

    def row(self):
        return getattr(self.an.D.cur, "row", None) if self.an.D is not None and self.an.D.cur is not None else None

    def random_value(self, name, args):
        """Draws of 0 or 1 are taken from the row."""
        r = self.row()
        if r is None or name.split(".")[-1] not in ("randint", "integers") or len(args) < 2:
            return None
        if args[0].const != 0 or args[1].const != 2:
            return None
        k = self.an.draws
        self.an.draws += 1
        return r.draws[k % len(r.draws)]

    def unary(self, t, a):
        x = a.f.get("tr")
        return {"all": "none", "none": "all", "some": "some"}.get(x) if t == "Invert" else None

    def view(self, name, o, args, kwargs=None):
        return o.f.get("tr") if name not in ("real", "imag") else None

    def reduce(self, nm, a0):
        x = a0.f.get("tr")
        if x is None or nm not in ("all", "any"):
            return None
        return boolean(x == "all" if nm == "all" else x != "none")

    def outcome(self, positive, array):
        v = self.row().verdict
        if array:
            if not positive:
                v = {"all": "none", "none": "all", "some": "some"}[v]
            return AV("arr", f={"tr": v})
        return boolean((v == "all") == positive)

    def predicate(self, nm, args, kwargs=None):
        r = self.row()
        if r is None or nm not in ("allclose", "isclose") or len(args) < 2:
            return None
        T = self.an.T
        if "f" not in T.of(*args) and "prox" not in T.of(*args) and not T.of(*args) & {"grad", "proxdual", "f+d"}:
            return None
        kw = dict(zip(("rtol", "atol"), args[2:]))
        kw.update({k: v for k, v in (kwargs or {}).items() if k in ("rtol", "atol")})
        self.an.judge(T.of(args[0], args[1]), T.of(kw["rtol"]) if "rtol" in kw else None,
                      T.of(kw["atol"]) if "atol" in kw else None, args)
        return self.outcome(True, nm == "isclose" and self.an.D.cur.entry.name == "moreau")

    def compare(self, t, a, b):
        r = self.row()
        if r is None or t not in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
            return None
        T = self.an.T
        ta, tb = T.of(a), T.of(b)
        must = MUST[self.an.D.cur.entry.name] - {"x"}
        for x, y, less in ((ta, tb, t in (ast.Lt, ast.LtE)), (tb, ta, t in (ast.Gt, ast.GtE))):
            if x & must and not y & {"f+d", "proxdual"} and y & {"tol", "rtol", "atol"}:
                self.an.judge(x, y, y, None)
                return self.outcome(less, self.an.D.cur.entry.name == "moreau" and (a.kind == "arr" or b.kind == "arr"))
        return None


class URow:
    method = None

    def __init__(self, config, verdict, draws):
        self.config, self.verdict, self.draws = config, verdict, draws

    def items(self):
        return list(self.config.items()) + [("verdict", self.verdict), ("draws", self.draws)]


class Utilities(Analysis):
    """Verdicts, tolerances and perturbations of the numerical self-tests."""
    groups = ("util",)
    opts = dict(rounds=1)

    def make_facets(self):
        self.T, self.R, tr = Tags(), Real(), Truth()
        tr.an = self
        return [self.T, self.R, tr]

    def rows(self, D, entry, v):
        out = []
        for c in D.configs(entry, v):
            for vd in ("all", "some", "none") if entry.name == "moreau" else ("all", "none"):
                for dr in ((0, 0), (0, 1), (1, 0), (1, 1)) if entry.name != "moreau" else ((0,),):
                    out.append(URow(c, vd, dr))
        return out

    def begin(self, D, run):
        self.draws = 0
        run.judged = []
        run.stores = []
        run.places = set()
        run.thrown = []

    def inst(self, run):
        return (run.entry.name, tuple(sorted(x for x in run.row.items() if x[1] not in ("a", "f", "i", "p", "l", "u", "default"))))

    def judge(self, tags, rtol, atol, args):
        self.D.cur.judged.append((tags, rtol, atol, args))

    def event(self, I, ev):
        run = self.D.cur
        if ev.kind == "item_store" and ev["value"] is not None and ev.func.startswith("gradtest"):
            tg = self.T.of(ev["value"])
            if "delta" in tg:
                run.stores.append((ev["target"], ev["value"], ev))
                if ev["index"] is not None:
                    run.places.add(self.T.place(ev["index"]))
                if ev["target"].f.get("cx") == "real" and ev["value"].f.get("cx") in ("complex", "maybe"):
                    self.bad("perturbation", "imaginary step lost in %s" % ev.func,
                             "%s adds an imaginary step to an element of a real vector: the step is discarded and the "
                             "comparison is empty" % ev.func, ev)
        elif ev.kind == "raise" and not ev.get("implicit"):
            run.thrown.append(ev)

    def bad(self, rule, construct, message, ev=None):
        self.oblige(rule, self.inst(self.D.cur), False)
        self.report(self.D, rule, construct, message, ev)

    def after(self, D, run):
        e = run.entry.name
        inst = self.inst(run)
        for r in ("verdict", "evidence", "tolerance"):
            self.oblige(r, inst)
        if e != "moreau":
            self.oblige("perturbation", inst)
        normal = D.I.st is not None and run.result is not None
        row = run.row
        if not run.judged:
            if normal and all(x.const is not NOC for x in alts(run.result)) and not run.thrown:
                self.bad("verdict", "%s compares nothing" % e, "%s returns without comparing anything" % e)
            return
        ok = row.verdict == "all"
        raises = row.config.get("raiseerror") == "b1"
        word = {"all": "passing", "some": "partly failing", "none": "failing"}[row.verdict]
        consts = {x.const for x in alts(run.result)} if normal else set()
        if ok:
            if run.thrown:
                self.bad("verdict", "%s raises on a passing test" % e, "%s raises although the test passed" % e, run.thrown[0])
            if consts and True not in consts and NOC not in consts:
                self.bad("verdict", "%s fails a passing test" % e, "%s does not return True for a %s test" % (e, word))
        elif raises:
            if normal:
                self.bad("verdict", "%s silent on a %s test" % (e, word),
                         "%s returns normally for a %s test with raiseerror=True" % (e, word))
        else:
            if run.thrown:
                self.bad("verdict", "%s raises with raiseerror=False" % e,
                         "%s raises for a %s test with raiseerror=False" % (e, word), run.thrown[0])
            if consts and False not in consts and NOC not in consts:
                self.bad("verdict", "%s passes a %s test" % (e, word), "%s does not return False for a %s test" % (e, word))
        for tags, rtol, atol, args in run.judged:
            miss = MUST[e] - tags
            if miss:
                self.bad("evidence", "%s ignores %s" % (e, ", ".join(sorted(miss))),
                         "the verdict of %s does not depend on %s" % (e, ", ".join(sorted(miss))))
            if args is None and "abs" not in tags:
                self.bad("evidence", "%s one-sided" % e, "%s compares a signed error with the tolerance" % e)
            if "scaled" in (atol or E):
                self.bad("tolerance", "%s absolute tolerance scaled" % e,
                         "%s multiplies the absolute tolerance by another quantity" % e)
            if e != "moreau" and args is not None:
                for t, what in (("absgrad", "the magnitude of the gradient"), ("absnum", "the magnitude of the difference quotient")):
                    if t in tags:
                        self.bad("evidence", "%s compares magnitudes" % e, "%s compares %s, not its value" % (e, what))
                if "divj" in tags or any(a.f.get("cx") == "complex" for a in args[:2]):
                    self.bad("evidence", "%s imaginary quotient" % e,
                             "%s divides the change of the value by an imaginary step: the quotient is not the derivative" % e)
            if "grad+d" in tags:
                self.bad("evidence", "%s gradient after the step" % e, "%s evaluates the gradient at the perturbed point" % e)
            ats = {x[1] for x in tags if isinstance(x, tuple)}
            if len(ats) == 1 and len(run.places) == 1 and ats != run.places and all(run.places):
                self.bad("evidence", "%s other element" % e, "%s perturbs one element and compares another one of the gradient" % e)
            if e == "moreau":
                if atol is None or "tol" not in atol:
                    self.bad("tolerance", "%s tol" % e, "tol of %s is not the absolute tolerance of the comparison" % e)
            elif args is not None:
                for n, t in (("rtol", rtol), ("atol", atol)):
                    if t is None or n not in t or ({"rtol", "atol"} - {n}) & t:
                        self.bad("tolerance", "%s %s" % (e, n), "%s of %s is not the tolerance of that name" % (n, e))
                if rtol is not None and args[1].const is not NOC and args[1].const == 0:
                    self.bad("tolerance", "%s rtol relative to zero" % e,
                             "the relative tolerance of %s multiplies a reference of zero: it has no effect" % e)
            elif not {"rtol", "atol"} <= (rtol or E):
                self.bad("tolerance", "%s tolerances" % e, "%s ignores one of its tolerances" % e)
            if e != "moreau":
                cx = {"complex" if "jdelta" in self.T.of(v) else "real" for _, v, _ in run.stores}
                part = tags & {"real", "imag"}
                for want, other, c in (("imag", "real", {"complex"}), ("real", "imag", {"real"})):
                    if cx == c and other in part and want not in part:
                        self.bad("evidence", "%s %s part" % (e, other),
                                 "%s compares a%s step with the %s part of the gradient" % (
                                     e, {"imag": "n imaginary", "real": " real"}[want], other))
                blk = {b for t, _, _ in run.stores for b in self.T.of(t) if b in ("block:x", "block:y")}
                g = tags & {"gradx", "grady"}
                if len(blk) == 1 and len(g) == 1 and {"block:x": "gradx", "block:y": "grady"}[next(iter(blk))] not in g:
                    self.bad("evidence", "%s blocks" % e, "%s perturbs %s but compares %s" % (e, next(iter(blk))[6:], next(iter(g))))
        if e != "moreau" and not run.stores and normal and not any("f+d" in t for t, _, _, _ in run.judged):
            self.bad("perturbation", "%s perturbs nothing" % e, "%s does not perturb its input" % e)
