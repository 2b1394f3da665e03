"""Rules on the iterations of the solvers: verbosity, callbacks, budgets and
tolerances, options."""
from __future__ import annotations

import ast

import specs
from framework import Analysis
from rules_effects import reach_bufs
from state import alts
from values import AV, E, NOC, all_bufs, all_deps


def inst_of(run):
    return (run.entry.name, run.method, tuple(sorted(run.config.items())))


def chosen(e, n, vs):
    """A solver handed in by the user answers for its own verbosity and
    callbacks: only the default one is followed."""
    return ["default"] if n == "solver" and "default" in vs else vs


class Base(Analysis):
    def bad(self, D, rule, construct, msg, ev=None, inst=None):
        run = D.cur
        self.oblige(rule, inst or inst_of(run), False)
        self.report(D, rule, construct, msg, ev, where=None if ev is not None else run.entry.name)


# --------------------------------------------------------------- verbosity
SHOW = {"show", "verb"}


class Silent(Base):
    """The verbosity flag only decides what is printed."""
    groups = ("solver", "util")
    passes = ({"show": "u"}, {"show": "b0"})

    def setup(self, D):
        mode = self.po.get("show", "u")
        D.opts["prune"] = lambda e, n, vs: [mode] if n in SHOW else chosen(e, n, vs)

    def has(self, run):
        return any(n in SHOW for n in list(run.config) + list(run.args))

    def event(self, I, ev):
        run = self.D.cur
        if self.po.get("show") == "b0":
            if ev.kind == "print":
                self.bad(self.D, "silent", "%s in %s" % (ev.func, run.entry.name),
                         "%s prints although %s was called with the verbosity flag off" % (ev.func, run.entry.name), ev)
            return
        lab = {n for n in ev.pc if n in SHOW or (isinstance(n, str) and n == "kw.show")}
        if ev.kind == "extcall":
            args = set()
            for a in list(ev["args"]) + list(ev["kwargs"].values()):
                args |= all_deps(a)
            dep = args & {"show", "verb", "kw.show"}
            if isinstance(ev["obj"].fn, str) and ev["obj"].fn.split(".")[0] == "solver":
                dep = set()     # forwarded to the inner solver
            if dep and not lab:
                self.bad(self.D, "show-result", "%s in %s" % (ev["meth"], run.entry.name),
                         "the argument of %s called by %s depends on the verbosity flag" % (ev["meth"], ev.func), ev)
            if lab and ev["meth"] not in ("__call__", "matvec", "matmat", "dot") or lab and self.is_callback(ev):
                self.bad(self.D, "show-effect", "%s in %s" % (ev["meth"], run.entry.name),
                         "%s calls %s only when the verbosity flag is set" % (ev.func, ev["meth"]), ev)
        elif ev.kind == "impure" and lab and not any(t in ev["name"] for t in ("time", "perf_counter")):
            self.bad(self.D, "show-effect", "%s in %s" % (ev["name"], run.entry.name),
                     "%s draws from %s only when the verbosity flag is set" % (ev.func, ev["name"]), ev)

    def is_callback(self, ev):
        f = ev["obj"].fn
        return isinstance(f, str) and "callback" in f

    def after(self, D, run):
        if run.phase == "ctor" or not self.has(run):
            return
        if self.po.get("show") == "b0":
            self.oblige("silent", inst_of(run))
            return
        self.oblige("show-result", inst_of(run))
        self.oblige("show-effect", inst_of(run))
        if run.result is None or D.I.st is None:
            return
        if self.deps_of(D.I.st, run.result) & {"show", "verb", "kw.show"}:
            self.bad(D, "show-result", "result of %s" % run.entry.name,
                     "the result of %s depends on the verbosity flag" % run.entry.name)

    def deps_of(self, st, v):
        d = set(all_deps(v))
        for x in alts(v):
            if x.kind in ("list", "dict"):
                for w in st.mem.get(x.loc, {}).values():
                    if isinstance(w, AV):
                        d |= all_deps(w)
        return d


# --------------------------------------------------------------- callbacks
class Stamp:
    """Must-information: this value has been handed to the callback."""
    name = "cb"

    def join(self, a, b):
        return a if a == b else None

    def join_none(self, a, b):
        return None

    def view(self, nm, o, *a):
        return o.f.get("cb")

    def astype(self, o, *a):
        return o.f.get("cb")

    def func(self, name, args, kwargs, node):
        if name.split(".")[-1] in ("asarray", "array", "ascontiguousarray", "to_numpy", "to_cupy_conditional") and args:
            return args[0].f.get("cb")
        return None


CB = ("callback", "bregcallback", "kw.callback")
BUDGET = ("niter", "niterouter", "kw.niter", "iter_lim_outer")
# returned parts that are iterates, by number of arrays handed to the callback
RETURNS = {"TwIST": 1, "AdaptivePrimalDual": 1, "Segment": 1}


class Callbacks(Base):
    """The callback sees every iterate, once, and the last one is returned."""
    groups = ("solver",)

    def make_facets(self):
        return [Stamp(), Lin()]

    def setup(self, D):
        D.opts["prune"] = lambda e, n, vs: ([v for v in vs if v != "none"] if n in ("callback", "bregcallback")
                                            else chosen(e, n, vs))

    def select(self, e):
        return e.group == "solver" and any(n in ("callback", "bregcallback") for n in e.params) or e.name == "PlugAndPlay"

    def begin(self, D, run):
        run.main = {}
        run.loops = set()
        run.calls = 0

    def is_main(self, ev):
        return ev["depth"] == 0 and not ev.get("unrolled") and any(b in (ev["bound"] or ()) for b in BUDGET)

    def event(self, I, ev):
        run = self.D.cur
        k = ev.kind
        if k == "extcall" and ev["meth"] == "__call__" and isinstance(ev["obj"].fn, str) and ev["obj"].fn in CB:
            run.calls += 1
            g = I.st.ghost
            cur = {n for t, n in g.get("cbn", ())} or {0}
            g["cbn"] = frozenset(("n", min(n + 1, 2)) for n in cur)
            g["cbt"] = frozenset({("n", min(n + 1, 9)) for t, n in g.get("cbt", frozenset([("n", 0)]))})
            for i, a in enumerate(ev["args"]):
                for x in alts(a):
                    if x.val:
                        self.stamp(I, x)
            if I.loop_depth == 0:
                self.bad(self.D, "callback-count", "outside %s" % run.entry.name,
                         "%s calls the callback outside of the iterations" % ev.func, ev)
        elif k == "extcall" and I.st.ghost.get("cbn"):
            I.st.ghost["cbn"] = frozenset(("n", c) for t, c in I.st.ghost["cbn"])
        elif k == "loop_begin" and self.is_main(ev):
            run.loops.add((ev.mod, ev.line))
            I.st.ghost["cbn"] = frozenset([("idle", 0)])
        elif k in ("loop_end", "loop_break") and ev["depth"] == 0 and (ev.mod, ev.line) in run.loops:
            g = I.st.ghost.get("cbn", ())
            # stopping before anything was done leaves nothing to report
            n = {c for t, c in g if t == "n" or k == "loop_end"} or {1}
            self.oblige("callback-count", inst_of(run))
            if n != {1}:
                how = "not at all" if n == {0} else "more than once" if 2 in n and 0 not in n else "not on every path" if 0 in n else "several times"
                self.bad(self.D, "callback-count", run.entry.name,
                         "an iteration of %s %s calls the callback %s" % (
                             ev.func, "that stops early" if k == "loop_break" else "that completes", how), ev)

    def stamp(self, I, x):
        def upd(v):
            if v.kind == "union" or v.parts:
                ps = tuple(upd(p) for p in v.parts)
                if any(p is not q for p, q in zip(ps, v.parts)):
                    v = v.with_(parts=ps)
            if v.val == x.val and v.kind == x.kind:
                f = dict(v.f)
                f["cb"] = True
                return v.with_(f=f)
            return v
        I.st.map_values(upd)

    def after(self, D, run):
        if run.phase == "ctor" or run.result is None:
            return
        e = run.entry.name
        self.oblige("callback-count", inst_of(run))
        self.oblige("callback-returned", inst_of(run))
        if not run.calls:
            self.bad(D, "callback-count", e, "%s never calls the callback" % e)
            return
        if not run.loops:
            return
        r = run.result
        parts = None
        for x in alts(r):
            ps = x.parts if x.kind == "tuple" and x.parts else (x,)
            n = RETURNS.get(e, 1)
            if e in ("PALM", "iPALM"):
                n = 2
            if run.config.get("callbackz") == "b1" or run.config.get("callbacky") == "b1":
                n = min(2, len(ps))
            for i, p in enumerate(ps[:n]):
                for q in alts(p):
                    if q.kind in ("arr", "any") and not q.f.get("cb"):
                        self.bad(D, "callback-returned", "%s[%d]" % (e, i),
                                 "the iterate %s returns (value %d) is not, on every path, one the callback received" % (e, i))


# ------------------------------------------------- iteration budgets, tolerances
LIMITS = {"niter", "niterback", "niterouter", "iter_lim_outer", "iter_lim_inner", "maxiter"}
TOLS = {"tol", "tolx", "tolf", "rtol"}


USER_LIMIT = {"Nonlinear", "user(nonlinear)"}      # the user's own optimize method applies the limit
# niter updates of the dual variable need niter + 1 evaluations of the primal one
TRIPS = {"TV": 1}


class Lin:
    """Numbers of the form symbol + constant."""
    name = "lin"

    def arg(self, run, label, name, kind):
        return (label, 0) if kind in ("i", "f") else None

    def join(self, a, b):
        return a if a == b else None

    def join_none(self, a, b):
        return None

    def binop(self, t, a, b, n):
        la, lb = a.f.get("lin"), b.f.get("lin")
        ca = a.const if isinstance(a.const, (int, float)) and not isinstance(a.const, bool) else None
        cb = b.const if isinstance(b.const, (int, float)) and not isinstance(b.const, bool) else None
        if t == "Add" and la and cb is not None:
            return (la[0], la[1] + cb)
        if t == "Add" and lb and ca is not None:
            return (lb[0], lb[1] + ca)
        if t == "Sub" and la and cb is not None:
            return (la[0], la[1] - cb)
        if t == "Sub" and la and lb and la[0] == lb[0]:
            return None
        return None

    def func(self, name, args, kwargs, node):
        if name in ("builtins.int", "builtins.float", "builtins.round") and args:
            return args[0].f.get("lin")
        return None

    def store(self, f, v, target, value, how, index):
        return None

    def compare(self, t, a, b):
        la, lb = a.f.get("lin"), b.f.get("lin")
        if la and lb and la[0] == lb[0]:
            d = la[1] - lb[1]
            return {ast.Lt: d < 0, ast.LtE: d <= 0, ast.Gt: d > 0, ast.GtE: d >= 0, ast.Eq: d == 0, ast.NotEq: d != 0}.get(t)
        return None


class Scaled:
    """Numbers computed from a limit by anything else than adding a constant."""
    name = "mul"

    def arg(self, run, label, name, kind):
        return None

    def join(self, a, b):
        return a | b

    def join_none(self, a, b):
        return a or b

    def labs(self, v):
        m = v.f.get("mul") or frozenset()
        l = v.f.get("lin")
        return m | {l[0]} if l and isinstance(l[0], str) else m

    def binop(self, t, a, b, n):
        if any(v.const == 1 for v in (a, b)) and t == "Mult":
            return a.f.get("mul") or b.f.get("mul")
        m = (self.labs(a) | self.labs(b)) if t in ("Mult", "Div", "FloorDiv", "Mod", "Pow") else \
            (a.f.get("mul") or frozenset()) | (b.f.get("mul") or frozenset())
        return frozenset(x for x in m if x.split(".")[-1] in LIMITS) or None

    def func(self, name, args, kwargs, node):
        if name in ("builtins.int", "builtins.float", "builtins.round", "math.ceil", "math.floor") and args:
            return args[0].f.get("mul")
        return None

    def store(self, f, v, target, value, how, index):
        return None


class ForceTol:
    """Decides every comparison with the tolerance parameter one way."""
    name = "ftol"

    def __init__(self, an):
        self.an = an

    def join(self, a, b):
        return None

    def join_none(self, a, b):
        return None

    def compare(self, t, a, b):
        small = self.an.small
        if small is None:
            return None
        for x, y, op in ((a, b, t), (b, a, {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}.get(t, t))):
            l = y.f.get("lin")
            if l and l[1] == 0 and self.name_of(l[0]) in TOLS and not (x.f.get("lin") and x.f["lin"][0] == l[0]):
                s = self.an.is_small(self.name_of(l[0]))
                r = {ast.Lt: s, ast.LtE: s, ast.Gt: not s, ast.GtE: not s}.get(op)
                if r is not None:
                    self.an.compared(self.name_of(l[0]))
                return r
        return None

    def name_of(self, lab):
        return lab.split(".")[-1] if isinstance(lab, str) else ""


class Budgets(Base):
    """Loops run as often as asked; tolerances stop them."""
    groups = ("solver", "operator", "projection")
    passes = ({"mode": "plain"}, {"mode": "big"}, {"mode": "small"}, {"mode": "small2"})
    opts = dict(rounds=2)
    EXTRA_STOP = {"SR3"}            # fixed internal tolerance, documented

    def make_facets(self):
        self.small = None
        return [Lin(), Scaled(), ForceTol(self)]

    def select(self, e):
        ns = set(e.params)
        mode = self.po.get("mode") if hasattr(self, "po") else None
        return e.group in self.groups and bool(ns & LIMITS)

    def setup(self, D):
        mode = self.po["mode"]

        def prune(e, n, vs):
            if mode != "plain" and n in TOLS:
                return [v for v in vs if v == "f"] or vs
            if mode == "plain" and n in TOLS:
                return [v for v in vs if v == "none"] or vs
            if n == "show":
                return ["b0"]
            return vs
        D.opts["prune"] = prune

    def methods(self, entry):
        if entry.group == "projection":
            return specs.PROJ_METHODS
        return {"prox": dict(x="a", tau="f")}

    def is_small(self, name):
        return self.small == name

    def compared(self, name):
        self.D.cur.tolseen.add(name)

    def begin(self, D, run):
        mode = self.po["mode"]
        tols = [n for n in run.entry.params if n in TOLS and run.config.get(n) == "f"]
        if mode == "small2":
            tols = tols[1:2]
        elif mode == "small":
            tols = tols[:1]
        self.small = None if mode == "plain" else "none" if mode == "big" or not tols else tols[0]
        run.tolseen = set()
        run.pending = None
        run.loopinfo = {}
        run.tols = tols
        run.used = getattr(run, "used", set())
        run.mainloops = set()

    # ------------------------------------------------------------ events
    def limit(self, lab):
        return isinstance(lab, str) and lab.split(".")[-1] in LIMITS

    def limits(self, run):
        return {n for n in run.entry.params if n in LIMITS and run.entry.name not in USER_LIMIT and run.config.get(n) in ("i", "f")}

    def event(self, I, ev):
        run = self.D.cur
        if run.phase == "ctor":
            return
        k = ev.kind
        if k in ("loop_break", "loop_end") and run.pending == (ev.mod, ev.line) or k == "entry_return":
            run.pending = None
        elif k in ("extcall", "iter_solve", "root_find"):
            self.work(ev, run)
        if k == "loop_head":
            self.head(I, ev, run)
        elif k == "compare":
            self.cmp(I, ev, run)
        elif k == "loop_begin" and not ev.get("unrolled"):
            self.begin_loop(I, ev, run)
        elif k == "loop_end" and not ev.get("unrolled"):
            self.end_loop(I, ev, run)
        elif k == "loop_break" and not ev.get("unrolled") and ev["depth"] == 0:
            self.stop(I, ev, run)
        elif k == "entry_return" and ev["depth"] == 1:
            self.stop(I, ev, run, "returns")
        elif k in ("iter_solve", "root_find"):
            self.ext_limit(ev, run)
        elif k == "extcall":
            for n, a in list(enumerate(ev["args"])) + list(ev["kwargs"].items()):
                l = a.f.get("lin")
                if l and self.limit(l[0]) and l[1] == 0:
                    run.used.add(l[0].split(".")[-1])

    def head(self, I, ev, run):
        """Name the numeric variables of the frame as of the head of this iteration."""
        key = (ev.mod, ev.line, ev.ctx)
        info = run.loopinfo.setdefault(key, dict(init={}, tests=[], inc={}, ev=ev))
        info["tests"] = []
        bound = I.repo.assigned(ev["loop"])
        fr = I.sc.frame
        d = dict(I.st.mem.get(fr, {}))
        for n, v in d.items():
            if isinstance(v, AV) and v.kind == "num" and isinstance(n, str):
                if ev["iteration"] == 0:
                    info["init"][n] = v.const if v.const is not NOC else v.f.get("lin")
                if ev["iteration"] == 0 or v.const is NOC:
                    l = v.f.get("lin")
                    if l and (isinstance(l[0], str) or l[0][1] != key and n not in bound):
                        continue
                    f = dict(v.f)
                    f["lin"] = (("v", key, n), 0)
                    d[n] = v.with_(f=f)
        I.st.mem[fr] = d
        run.cur_loops = getattr(run, "cur_loops", [])

    def cmp(self, I, ev, run):
        a, b, op = ev["left"], ev["right"], ev["op"]
        for x, y, o in ((a, b, op), (b, a, {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}.get(op, op))):
            lx, ly = x.f.get("lin"), y.f.get("lin")
            if lx and not ly and isinstance(lx[0], tuple) and lx[0][0] == "v" and lx[0][1] in run.loopinfo:
                for lab in sorted(y.f.get("mul") or ()):
                    self.multiple(ev, run, lab, "ends a loop after a multiple of %s iterations")
            if lx and ly and isinstance(lx[0], tuple) and lx[0][0] == "v" and self.limit(ly[0]):
                info = run.loopinfo.get(lx[0][1])
                if info is not None:
                    t = (lx[0][2], lx[1], o, ly, ev.mod, ev.line)
                    if t not in info["tests"]:
                        info["tests"].append(t)

    def begin_loop(self, I, ev, run):
        if ev["is_for"]:
            it = ev["iter"]
            trip = self.range_trip(it)
            for l in trip:
                self.judge(ev, run, l)
            for x in alts(it):
                if x.kind == "range" and isinstance(x.fn, tuple) and x.fn[0] == "elem":
                    for v in x.fn[2:4]:
                        if not v.f.get("lin"):
                            for lab in sorted(v.f.get("mul") or ()):
                                self.multiple(ev, run, lab, "runs a loop a multiple of %s times")
        if ev["depth"] == 0 and any(self.limit(b) for b in (ev["bound"] or ()) if isinstance(b, str)):
            run.mainloops.add((ev.mod, ev.line))
            if self.po["mode"].startswith("small") and ev["iteration"] >= 1 and run.tols:
                run.pending = (ev.mod, ev.line)

    def work(self, ev, run):
        if run.pending is not None:
            run.pending = None
            self.bad(self.D, "tolerance-stops", run.entry.name,
                     "%s goes on iterating although the change is below %s" % (run.entry.name, "/".join(run.tols)), ev)

    def range_trip(self, it):
        """Trip count of a loop over range(...) as a linear form (or None when unknown)."""
        out = []
        for x in alts(it):
            if x.kind == "range" and isinstance(x.fn, tuple) and x.fn[0] == "elem":
                a = x.fn[2:]
                start, stop, step = AV("num", const=0), None, 1
                if len(a) == 1:
                    stop = a[0]
                elif len(a) >= 2:
                    start, stop = a[0], a[1]
                    if len(a) == 3:
                        step = a[2].const
                if step == -1:
                    start, stop = stop, start
                    # range(niter - 1, -1, -1)
                elif step != 1:
                    continue
                l = stop.f.get("lin")
                if l and self.limit(l[0]) and start.const is not NOC:
                    out.append((l[0], l[1] - start.const))
        return out

    def judge(self, ev, run, l):
        name = l[0].split(".")[-1]
        run.used.add(name)
        self.oblige("budget", (run.entry.name, run.method, name, ev.func))
        if l[1] != TRIPS.get(run.entry.name, 0):
            self.bad(self.D, "budget", "%s in %s of %s" % (name, ev.func, run.entry.name),
                     "a loop of %s runs %s%+d times" % (ev.func, name, l[1]), ev,
                     (run.entry.name, run.method, name, ev.func))

    def end_loop(self, I, ev, run):
        key = (ev.mod, ev.line, ev.ctx)
        info = run.loopinfo.get(key)
        if ev["is_for"] or info is None:
            return
        d = I.st.mem.get(I.sc.frame, {})
        for n, off, op, ly, mod, line in info["tests"]:
            v = d.get(n)
            name = ly[0].split(".")[-1]
            run.used.add(name)
            init = info["init"].get(n)
            if ev["iteration"] == 0:
                continue
            lin = v.f.get("lin") if v is not None else None
            inst = (run.entry.name, run.method, name, ev.func)
            self.oblige("budget", inst)
            if lin is None or lin[0] != ("v", key, n):
                if v is not None and v.const is NOC:
                    self.bad(self.D, "budget", "%s in %s of %s" % (name, ev.func, run.entry.name),
                             "the counter %s of the loop of %s is not advanced by the same amount on every path" % (n, ev.func), ev, inst)
                continue
            if lin[1] != 1:
                self.bad(self.D, "budget", "%s in %s of %s" % (name, ev.func, run.entry.name),
                         "the counter %s of the loop of %s advances by %d" % (n, ev.func, lin[1]), ev, inst)
                continue
            if not isinstance(init, int):
                continue
            at_head = off == 0 and op in ("Lt", "LtE", "NotEq")
            if op in ("GtE", "Gt", "Eq") and off == 1:
                trip = ly[1] - init + (1 if op == "Gt" else 0)
            elif at_head:
                trip = ly[1] - init + (1 if op == "LtE" else 0)
            else:
                continue
            if trip != TRIPS.get(run.entry.name, 0):
                self.bad(self.D, "budget", "%s in %s of %s" % (name, ev.func, run.entry.name),
                         "a loop of %s runs %s%+d times" % (ev.func, name, trip), ev, inst)

    def stop(self, I, ev, run, how="stops"):
        """An exit of a main loop before its budget is exhausted."""
        e = run.entry.name
        if e in self.EXTRA_STOP or run.entry.group != "solver":
            return
        if how == "stops" and (ev.mod, ev.line) not in run.mainloops:
            return
        if self.po["mode"] == "plain" and not run.tols or self.po["mode"] == "big":
            self.bad(self.D, "tolerance-only", e, "%s %s before %s iterations although no tolerance is met" % (
                e, how, "/".join(sorted(self.limits(run) & {"niter", "niterouter"}))), ev)

    def ext_limit(self, ev, run):
        for n, a in list(enumerate(ev["args"])) + list(ev["kwargs"].items()):
            l = a.f.get("lin")
            if l and self.limit(l[0]):
                self.judge_ext(ev, run, l)
            elif not l and a.f.get("mul"):
                for lab in sorted(a.f["mul"]):
                    self.multiple(ev, run, lab, "passes a multiple of %s to " + ev["name"])

    def multiple(self, ev, run, lab, what):
        name = lab.split(".")[-1]
        if name not in run.entry.params:
            return
        run.used.add(name)
        self.bad(self.D, "budget", "%s in %s of %s" % (name, ev.func, run.entry.name),
                 "%s %s" % (ev.func, what % name), ev, (run.entry.name, run.method, name, ev.func))

    def judge_ext(self, ev, run, l):
        name = l[0].split(".")[-1]
        run.used.add(name)
        inst = (run.entry.name, run.method, name, ev.func)
        self.oblige("budget", inst)
        if l[1] != 0:
            self.bad(self.D, "budget", "%s in %s of %s" % (name, ev.func, run.entry.name),
                     "%s passes %s%+d to %s" % (ev.func, name, l[1], ev["name"]), ev, inst)

    def after(self, D, run):
        if run.phase == "ctor":
            return
        if run.result is None:
            return
        e = run.entry.name
        if self.po["mode"].startswith("small") and run.tols:
            self.oblige("tolerance-stops", inst_of(run))
        if self.po["mode"] == "big" or self.po["mode"] == "plain":
            if run.entry.group == "solver":
                self.oblige("tolerance-only", inst_of(run))
        for n in self.limits(run):
            self.samples.append(("limit", e, n, n in run.used))
        if self.po["mode"].startswith("small"):
            for n in run.tols:
                self.samples.append(("tol", e, n, n in run.tolseen))

    def finish(self):
        agg = {}
        for t, e, n, u in self.samples:
            agg[(t, e, n)] = agg.get((t, e, n), False) or u
        from framework import Finding
        for (t, e, n), u in agg.items():
            rule = "budget" if t == "limit" else "tolerance-stops"
            self.oblige(rule, (e, "uses", n))
            if not u:
                self.oblige(rule, (e, "uses", n), False)
                f = Finding(rule, "%s of %s unused" % (n, e), "%s never uses %s to end an iteration" % (e, n), e, e, "")
                self.findings[f.key] = f
        self.samples = []
