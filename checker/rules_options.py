"""Documented parameters take effect."""
from __future__ import annotations

from ext import content_deps
from framework import Analysis, Finding
from state import alts
from values import AV, E, all_deps


def base(lab):
    """Argument name of a dependence label, or None."""
    if not isinstance(lab, str):
        return None
    for sep in ("@", "|"):
        lab = lab.split(sep)[0]
    if lab.startswith("self."):
        lab = lab[5:]
    if lab.startswith("kw."):
        return None
    return lab.split("[")[0].split(".")[0]


def element(lab):
    """Element of a list argument a dependence label names."""
    if not isinstance(lab, str):
        return None
    lab = lab.split("@")[0].split("|")[0]
    return lab[5:] if lab.startswith("self.") else lab


# parameters of the iterative or library solver behind prox: the value and the
# gradient do without them
INNER = {"niter", "tol", "x0", "warm", "maxiter", "xtol", "ftol", "rtol", "kwargs_solver", "densesolver", "solver",
         "use_parallel", "use_original_tau", "engine"}
# (operator, parameter): methods that do not depend on it, by definition
EXEMPT = {
    ("L1Ball", "n"): {"__call__"}, ("Simplex", "n"): {"__call__"}, ("Simplex", "axis"): {"__call__"},
    ("L2", "qgrad"): {"__call__", "prox", "proxdual"},
    ("Sum", "weights"): {"__call__"}, ("Orthogonal", "alpha"): {"__call__"}, ("Orthogonal", "partial"): {"__call__"},
    ("Quadratic", "c"): {"prox", "proxdual", "grad"}, ("QuadraticEnvelopeCardIndicator", "r0"): {"grad"},
    ("Simplex", "call"): {"prox", "proxdual", "grad"}, ("Intersection", "call"): {"prox", "proxdual", "grad"},
    ("user(prox)", "sigmame"): {"__call__", "prox", "proxdual"}, ("user(proxdual)", "sigmame"): {"__call__", "prox", "proxdual"},
    ("g*f", "f"): {"grad"}, ("g*f", "g"): {"grad"},
}


def arity(c, n="ops"):
    v = str(c.get(n, ""))
    return int(v[1:]) if v[1:].isdigit() else 0


# configurations a parameter does not apply to, from the documentation
def inapplicable(e, m, n, c):
    if n in ("niter", "tol") and (c.get("projections") == "J1" or c.get("ops") == "P1"):
        return True     # one term: nothing to iterate
    if e == "GenericIntersectionProx" or e == "GenericIntersectionProj" or e == "Sum":
        if n == "use_parallel":
            return True     # equivalent algorithms; compared for three terms only in the library
        if n == "weights":
            return arity(c) < 3 and c.get("use_parallel") == "b0" or arity(c) < 3
        if n == "use_original_tau":
            return arity(c) < 3
    if e in ("L2", "Quadratic") and n in INNER and c.get("Op") == "none":
        return True
    if e == "L2":
        if n == "alpha":
            return c.get("q") == "none" or m == "grad" and c.get("qgrad") == "b0"
        if n == "q":
            return m == "grad" and c.get("qgrad") == "b0"
        if n == "qgrad":
            return c.get("q") == "none"
        if n in ("niter", "x0", "warm", "kwargs_solver", "solver", "densesolver"):
            return False
    if e in ("Nonlinear", "user(nonlinear)"):
        return n in ("niter", "x0", "warm")        # read by the user's methods
    if e in ("Simplex", "Intersection") and m == "__call__" and c.get("call") == "b0":
        return True
    if e == "Simplex":
        if n == "axis":
            return c.get("dims") == "none"
        if n == "n":
            return c.get("dims") != "none"
        if n == "ftol":
            return c.get("engine") == "s:numpy"
    if e == "Orthogonal" and n == "alpha":
        return c.get("partial") == "b0"
    if n in ("callbackz", "callbacky"):
        return c.get("callback") == "none"
    if e in ("HQS", "ADMM") and n in ("x0", "z0"):
        # only the one the first step starts from
        return c.get("x0") == "a" and c.get("z0") == "a" and c.get("gfirst") == ("b0" if n == "x0" else "b1")
    if n in ("beta", "niterback"):
        if e == "ProximalGradient":
            return c.get("tau") != "none" and c.get("backtracking") == "b0"
        if e == "AcceleratedProximalGradient":
            return c.get("tau") != "none"
        if e in ("PALM", "iPALM"):
            return c.get("gammaf") == "f" and c.get("gammag") == "f"
    if e == "ProximalGradient" and n == "backtracking":
        return c.get("tau") == "none"
    if e == "TwIST":
        if n in ("alpha", "beta"):
            return c.get("alpha") != "f" or c.get("beta") != "f"
        if n == "eigs":
            return c.get("alpha") == "f" and c.get("beta") == "f"
    if e.startswith("gradtest"):
        if n == "backend":
            return True
        if n in ("dtype", "complexflag"):
            return c.get("x") == "a"
    return False


# wrappers and the public function or class they hand their parameters on to
FORWARDS = {
    "AcceleratedProximalGradient": {"ProximalGradient": None},
    "Segment": {"PrimalDual": {"niter", "callback", "show", "x0"}, "Simplex": set()},
    "Box": {"BoxProj": None}, "L1Ball": {"L1BallProj": None}, "EuclideanBall": {"EuclideanBallProj": None},
    "L0Ball": {"L0BallProj": None}, "L01Ball": {"L01BallProj": None}, "L10Ball": {"L10BallProj": None},
    "NuclearBall": {"NuclearBallProj": {"radius", "maxiter", "xtol"}},
    "Simplex": {"SimplexProj": {"radius", "maxiter", "xtol"}},
    "Intersection": {"IntersectionProj": None}, "AffineSet": {"AffineSetProj": None}, "HalfSpace": {"HalfSpaceProj": None},
    "GenericIntersectionProx": {"GenericIntersectionProj": None},
    "SimplexProj": {"HyperPlaneBoxProj": {"maxiter", "xtol"}}, "L1BallProj": {"SimplexProj": None},
    "NuclearBallProj": {"SimplexProj": None, "L1BallProj": None},
    "PlugAndPlay": {"ADMM": {"proxf", "x0", "niter", "tau", "callback", "show"}},
}


class Options(Analysis):
    """The outcome of a call depends on every documented parameter."""
    groups = ("operator", "projection", "solver", "util", "combinator")
    opts = dict(rounds=1)

    def begin(self, D, run):
        run.used = set()
        run.trace = []

    def event(self, I, ev):
        run = self.D.cur
        k = ev.kind
        run.trace.append((k, ev.mod, ev.line, str(ev.get("meth") or ev.get("name") or "")))
        if k == "extcall":
            run.used |= content_deps(I, list(ev["args"]) + list(ev["kwargs"].values()) + [ev["obj"]])
        elif k in ("iter_solve", "root_find", "linop_new"):
            run.used |= content_deps(I, list(ev["args"]) + list(ev["kwargs"].values()))
        elif k == "construct" and run.entry.group in ("solver", "util"):
            run.used |= content_deps(I, list(ev["args"]) + list(ev["kwargs"].values()))
        elif k == "call":
            self.forwarded(I, ev, run)

    # --------------------------------------------------------- forwarding
    def forwarded(self, I, ev, run):
        fv = ev["fn"]
        name = fv.cls.name if fv.cls is not None and fv.name.endswith("__init__") else fv.name
        todo = FORWARDS.get(run.entry.name, {})
        if name not in todo or not I.stack:
            return
        a = fv.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        given = dict(zip(names, ev["args"]))
        given.update(ev["kwargs"])
        names += [p.arg for p in a.kwonlyargs]
        only = todo[name]
        for n in names:
            src = run.ctor_args.get(n) if run.entry.methods is not None else run.args.get(n)
            if n == "self" or src is None or only is not None and n not in only:
                continue
            if src.kind == "none" or run.config.get(n) == "sch":
                continue
            inst = (run.entry.name, name, n)
            self.oblige("forwarded", inst)
            v = given.get(n)
            if v is None:
                self.lost(ev, run, name, n, "is not handed on to")
                continue
            ok = any(self.same(x, src) for x in alts(v))
            if not ok:
                self.lost(ev, run, name, n, "is not what reaches the same parameter of")

    def same(self, x, src):
        if src.const is not E and src.kind == "bool" and x.kind == "bool":
            return repr(x.const) == repr(src.const) and x.val == src.val
        if x.kind != src.kind:
            return x.kind == "any"
        if src.val:
            return bool(src.val & x.val)
        return repr(x.fn) == repr(src.fn) and x.loc == src.loc and repr(x.const) == repr(src.const)

    def lost(self, ev, run, callee, n, how):
        e = run.entry.name
        self.oblige("forwarded", (e, callee, n), False)
        self.report(self.D, "forwarded", "%s of %s to %s" % (n, e, callee),
                    "the parameter %s of %s %s %s" % (n, e, how, callee), ev)

    # ------------------------------------------------------------- effects
    def after(self, D, run):
        if run.phase == "ctor":
            return
        if run.result is None or D.I.st is None:
            return
        u = set(run.used) | content_deps(D.I, [run.result])
        names = {base(x) for x in u}
        els = {element(x) for x in u}
        e, m = run.entry.name, run.method
        cfg = tuple(sorted(run.config.items()))
        fp = hash((tuple(run.trace), repr(run.result.key())))
        for n, c in run.config.items():
            if c in ("none", "default"):
                continue
            if m in EXEMPT.get((e, n), ()) or m in ("__call__", "grad") and n in INNER and run.entry.group != "projection" \
                    and run.entry.methods is not None:
                continue
            if e in ("Sum", "Orthogonal", "NuclearBall", "Simplex") and m == "grad":
                continue
            if inapplicable(e, m, n, run.config):
                continue
            if c in ("b1", "b0", "u", "x") or c.startswith("s:"):
                if c not in ("u", "x"):
                    self.samples.append(("switch", e, m, n, cfg, c, fp))
            else:
                self.samples.append(("value", e, m, n, cfg, n in names, 0))
                if c[0] in "PJRAt" and c[1:].isdigit():
                    for k in range(int(c[1:])):
                        el = "%s[%d]" % (n, k)
                        self.samples.append(("value", e, m, el, cfg, el in els, 0))
        for lab in [x for x in run.args if e in ("ADMML2", "Bregman", "PlugAndPlay") and x not in run.entry.params]:
            c = run.args[lab]
            if c.kind not in ("none", "bool"):
                self.samples.append(("value", e, m, "**" + lab, cfg, "kw." + lab in {str(x) for x in u}, 0))

    def finish(self):
        tab, sw = {}, {}
        for t, e, m, n, cfg, a, b in self.samples:
            if t == "value":
                d = tab.setdefault((e, m, n), {})
                d[cfg] = d.get(cfg, False) or a
            else:
                rest = tuple(x for x in cfg if x[0] != n)
                sw.setdefault((e, m, n), {}).setdefault(rest, {}).setdefault(a, []).append(b)
        for (e, m, n), d in sorted(tab.items()):
            bad = sorted(c for c, u in d.items() if not u)
            for c in d:
                self.oblige("takes-effect", (e, m, n, c))
            if bad:
                self.add("takes-effect", e, m, n, bad)
        for (e, m, n), d in sorted(sw.items()):
            pairs = {c: {a: tuple(sorted(f)) for a, f in v.items()} for c, v in d.items() if len(v) > 1}
            bad = sorted(c for c, p in pairs.items() if len(set(p.values())) == 1)
            for c in pairs:
                self.oblige("switch", (e, m, n, c))
            if bad:
                self.add("switch", e, m, n, bad)
        self.samples = []

    def add(self, rule, e, m, n, bad):
        who = e if m == e else "%s.%s" % (e, m)
        for c in bad or [None]:
            self.oblige(rule, (e, m, n, c) if c is not None else (e, m, n), False)
        f = Finding(rule, "%s of %s" % (n, who), "the parameter %s of %s has no effect%s" % (
            n, who, " (in %d configurations)" % len(bad) if bad else ""), e, who,
            ",".join("%s=%s" % x for x in bad[0] if x[1] not in ("a", "f", "i", "p", "l")) if bad else "")
        self.findings[f.key] = f
