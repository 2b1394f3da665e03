"""Protocol rules: step-size validation, call counters, callbacks, budgets,
verbosity, determinism."""
from __future__ import annotations

import ast

import specs
from framework import Analysis
from rules_effects import heap_insts, reach_bufs, same
from state import alts
from values import AV, E, NOC, all_bufs, all_deps, boolean, num


class Sign:
    """Must-information on arrays with an entry that is zero or negative."""
    name = "sign"

    def join(self, a, b):
        return a if a == b else None

    def join_none(self, a, b):
        return None

    def const(self, c):
        return None

    def binop(self, t, a, b, n):
        return None

    def func(self, name, args, kwargs, node):
        if name.split(".")[-1] in ("asarray", "array", "atleast_1d", "real", "ravel", "asanyarray", "copy"):
            return args[0].f.get("sign")
        return None

    def view(self, nm, o, *a):
        return o.f.get("sign")

    def compare(self, t, a, b):
        # comparisons of a scalar known to be <= 0 (minimum of a bad array)
        return self._cmp(t, a, b, scalar=True)

    def _cmp(self, t, a, b, scalar):
        s, o = a.f.get("sign"), b
        if s is None:
            flip = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}
            s, o = b.f.get("sign"), a
            t = flip.get(t, t)
            a = b
        if s not in ("neg", "zero") or o.const is NOC or o.const != 0:
            return None
        if scalar and a.kind == "arr":
            return None
        # some entry is negative/zero
        r = {ast.LtE: True, ast.Gt: False, ast.Lt: True if s == "neg" else None,
             ast.GtE: False if s == "neg" else None, ast.Eq: True if s == "zero" else None,
             ast.NotEq: False if s == "zero" else None}.get(t)
        return r

    def cmp_result(self, t, a, b):
        r = self._cmp(t, a, b, scalar=False)
        return None if r is None else ("some-true" if r else "some-false")

    def unary(self, op, a):
        s = a.f.get("sign")
        if op == "Invert" and s in ("some-true", "some-false"):
            return {"some-true": "some-false", "some-false": "some-true"}[s]
        return None

    def reduce(self, nm, a):
        s = a.f.get("sign")
        if nm == "any" and s == "some-true":
            return boolean(True)
        if nm == "all" and s == "some-false":
            return boolean(False)
        if nm in ("min", "amin", "nanmin") and s in ("neg", "zero") and a.kind == "arr":
            return AV("num", deps=a.deps, f={"sign": s})
        return None


TAU = "neg|zero|negarr|zeroarr"


class TauCheck(Analysis):
    """Non-positive step sizes never get past the check."""
    groups = ("operator", "combinator")
    opts = dict(rounds=1, stable=True)

    def make_facets(self):
        return [Sign()]

    def methods(self, entry):
        return {"prox": dict(x="a", tau=TAU, how="s:pos,kw"), "proxdual": dict(x="a", tau=TAU, how="s:pos,kw")}

    def call_args(self, run, args):
        if args["how"].const == "pos":
            return [args["x"], args["tau"]], {}
        return [args["x"]], {"tau": args["tau"]}

    def begin(self, D, run):
        if run.phase == "method":
            run.own = not (run.entry.name.startswith("user(") and run.method == run.entry.name[5:-1])
            run.effects = []
            run.before = {loc: dict(D.I.st.mem.get(loc, {})) for loc in heap_insts(D.I.st, run.inst) if loc[0] != "c"}

    def event(self, I, ev):
        run = self.D.cur
        if run.phase != "method":
            return
        if ev.kind == "attr_write":
            run.effects.append("writes attribute %s" % ev["attr"])
        elif ev.kind == "extcall":
            run.effects.append("calls %s" % ev["meth"])
        elif ev.kind in ("mutate", "container_write"):
            run.effects.append("writes in place")

    def after(self, D, run):
        if run.phase != "method" or not run.own:
            return      # the undecorated method of the user's own class
        e, m = run.entry.name, run.method
        inst = (e, m, run.mconfig["tau"], run.mconfig["how"], tuple(sorted(run.config.items())))
        self.oblige("tau-rejected", inst)
        self.oblige("tau-before-effects", inst)
        word = {"neg": "negative", "zero": "zero", "negarr": "partly negative array", "zeroarr": "partly zero array"}[run.mconfig["tau"]]
        kw = " (by keyword)" if run.mconfig["how"] == "s:kw" else ""
        rs = D.I.raises[run.raise_mark:]
        if run.result is not None:
            self.oblige("tau-rejected", inst, False)
            self.report(D, "tau-rejected", "%s.%s%s" % (e, m, kw), "%s.%s accepts a %s tau%s" % (e, m, word, kw), where=e)
            return
        bad = sorted({r[1] for r in rs} - {"ValueError"})
        if bad or not rs:
            self.oblige("tau-rejected", inst, False)
            self.report(D, "tau-rejected", "%s.%s%s" % (e, m, kw),
                        "%s.%s fails with %s instead of ValueError for a %s tau%s" % (e, m, bad, word, kw), where=e)
            return
        if run.effects:
            self.oblige("tau-before-effects", inst, False)
            self.report(D, "tau-before-effects", "%s.%s" % (e, m), "%s.%s %s before rejecting tau" % (
                e, m, run.effects[0]), where=e)


class Later(tuple):
    """A history continued after many more evaluations: the counters its first
    step advanced are moved on by BY."""
    BY = 2345


class Counter(Analysis):
    """Schedules are called with a counter of the prox evaluations."""
    groups = ("operator",)
    opts = dict(rounds=1, stable=True)
    SEQ = [("prox", "prox"), ("prox", "__call__", "prox"), ("__call__", "prox", "__call__"),
           ("prox", "proxdual", "prox"), ("proxdual", "proxdual", "__call__"), ("proxdual", "prox"),
           ("prox", "grad", "prox"), ("grad", "prox"), ("prox", "prox", "prox", "__call__"),
           Later(("prox", "prox", "__call__")), Later(("prox", "proxdual", "prox"))]

    def methods(self, entry):
        return {m: ps for m, ps in specs.OP_METHODS.items()}

    def sequences(self, entry, run):
        if not any(c == "sch" for c in run.config.values()):
            return []
        return self.SEQ

    def sequence_begin(self, D, run):
        run.last = None
        run.before = self.counters(D, run)

    def counters(self, D, run):
        return {(loc, k): v for loc in heap_insts(D.I.st, run.inst) if loc[0] != "c"
                for k, v in D.I.st.mem.get(loc, {}).items() if isinstance(v, AV) and type(v.const) is int}

    def begin(self, D, run):
        if run.phase == "method":
            if getattr(run, "step", 0) == 1 and isinstance(getattr(run, "seq", None), Later) and run.last is not None:
                moved = [(w, v) for w, v in self.counters(D, run).items()
                         if w in run.before and v.const == run.before[w].const + 1]
                for (loc, k), v in moved:
                    D.I.st.mem[loc] = dict(D.I.st.mem[loc], **{k: num(v.const + Later.BY, deps=v.deps)})
                if moved:
                    run.last += Later.BY
            run.compares = []
            run.counts = []
            run.scheds = {n for n, c in run.config.items() if c == "sch"}
            run.seen = set()
            if getattr(run, "step", 0) and hasattr(run, "last"):
                self.age(D, run)

    def age(self, D, run):
        """Numbers kept from earlier evaluations: the schedule's values in them are old."""
        def old(v):
            if v.kind == "union":
                ps = tuple(old(p) for p in v.parts)
                return v.with_(parts=ps) if any(p is not q for p, q in zip(ps, v.parts)) else v
            if v.kind != "num":
                return v
            hit = {n for n in run.scheds if "self." + n in v.deps}
            if not hit:
                return v
            return v.with_(deps=(v.deps - {"self." + n for n in hit}) | {"self.%s@old" % n for n in hit})
        for loc in heap_insts(D.I.st, run.inst):
            d = D.I.st.mem.get(loc)
            if not d:
                continue
            nd = {k: (old(v) if isinstance(v, AV) else v) for k, v in d.items()}
            if any(nd[k] is not d[k] for k in d):
                D.I.st.mem[loc] = nd

    def event(self, I, ev):
        run = self.D.cur
        if ev.kind == "compare" and ev["op"] in ("Eq", "NotEq", "Is", "IsNot"):
            run.compares = getattr(run, "compares", []) + [all_deps(ev["left"]) | all_deps(ev["right"])]
        if ev.kind != "extcall" or ev["meth"] != "__call__" or not isinstance(ev["obj"].fn, str):
            return
        nm = ev["obj"].fn
        if not nm.startswith("self.") or run.config.get(nm[5:]) != "sch":
            return
        if run.phase == "ctor":
            return
        run.counts.append((nm[5:], ev["args"], ev))
        run.seen.add(nm[5:])

    def after(self, D, run):
        if run.phase == "ctor" or run.result is None:
            return
        e, m = run.entry.name, run.method
        if not hasattr(run, "last"):
            return
        inst = (e, tuple(sorted((k, v) for k, v in run.config.items() if v == "sch")), run.seq, run.step)
        vals = set()
        for n, args, ev in run.counts:
            c = args[0].const if len(args) == 1 else NOC
            vals.add(c if c is not NOC else "?")
        where = "%s.%s" % (e, m)
        # a method that uses a scheduled parameter asks the schedule for its current value
        if m in ("prox", "proxdual", "__call__"):
            self.oblige("schedule-current", inst)
            stale = self.stale(run)
            if stale:
                self.bad(D, inst, "schedule-current", "%s %s" % (where, stale),
                         "%s uses a value the schedule %s gave for another call" % (where, stale))
        if not vals:
            if m in ("prox",):
                self.oblige("schedule-asked", inst)
                self.bad(D, inst, "schedule-asked", where, "%s never asks the schedule for its current value" % where)
            return
        self.oblige("count-once", inst)
        if "?" in vals or len(vals) > 1:
            self.bad(D, inst, "count-once", where, "the schedules of %s are called with the counters %s in one evaluation" % (
                where, sorted(map(str, vals))))
            return
        c = vals.pop()
        if not isinstance(c, int) or isinstance(c, bool):
            self.bad(D, inst, "count-once", where, "the schedule of %s is called with %r" % (where, c))
            return
        prev = run.last
        if m in ("prox", "proxdual"):
            ok = c == (1 if prev is None else prev + 1)
            exp = 1 if prev is None else prev + 1
        elif m == "__call__":
            ok = c == (prev or 0)
            exp = prev or 0
        else:
            ok, exp = c in ((prev or 0), (prev or 0) + 1), None
        if not ok:
            self.bad(D, inst, "count-once", where, "in %s, %s calls the schedule with counter %d instead of %d" % (
                "/".join(run.seq[:run.step + 1]), where, c, exp if exp is not None else (prev or 0) + 1))
        run.last = c if m != "__call__" else prev

    def stale(self, run):
        """Schedules the result depends on without having been called in this evaluation."""
        ds = all_deps(run.result)
        kept = {n for n in run.scheds if "self.%s@old" % n in ds
                and not any("self." + n in c and "self.%s@old" % n in c for c in run.compares)}
        return ",".join(sorted(kept | {n for n in run.scheds if "self." + n in ds and n not in run.seen}))

    def bad(self, D, inst, rule, construct, msg):
        self.oblige(rule, inst, False)
        self.report(D, rule, construct, msg, where=construct)
