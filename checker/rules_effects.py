"""Effect rules: who may write to which memory."""
from __future__ import annotations

from framework import Analysis
from state import alts
from values import AV, E, all_bufs, all_deps


def root_label(b):
    """Argument label of a caller-owned buffer, or None."""
    if b[0] == "arg":
        return b[1]
    if b[0] == "ext":
        return "%s.%s" % (b[1], b[2])
    return None


def owner(loc):
    return loc[2] if isinstance(loc, tuple) and len(loc) > 2 and loc[0] in ("L", "D") and loc[1] == "arg" else None


class CallerMemory(Analysis):
    """No write reaches memory handed in by the caller."""

    def setup(self, D):
        self.cfgs = 0

    def after(self, D, run):
        for n, a in run.args.items():
            if any(x.kind in ("arr", "list", "dict", "ext") for x in alts(a)):
                self.oblige("caller-memory", (run.entry.name, run.method, n))

    def event(self, I, ev):
        D = self.D
        run = D.cur
        if run is None:
            return
        k = ev.kind
        if k == "mutate":
            labs = sorted({root_label(b) for b in ev["bufs"]} - {None})
            for lab in labs:
                self.hit(D, I, ev, lab, ev["how"])
            if any(b[0] == "rep" for b in ev["bufs"]):
                self.report(D, "clobber", "repeated %s in %s" % (ev.func, run.entry.name),
                            "%s updates in place one element of a list whose elements are all the same array, so the "
                            "others change with it (entry %s)" % (ev.func, run.entry.name), ev)
        elif k == "container_write":
            o = owner(ev["obj"].loc)
            if o:
                self.hit(D, I, ev, o, "container")
        elif k == "ext_attr_write":
            o = ev["obj"]
            if isinstance(o.fn, str) and ev["attr"] not in ("x", "y"):
                self.hit(D, I, ev, "%s.%s" % (o.fn, ev["attr"]), "attribute")
            elif o.kind not in ("ext",):
                self.hit(D, I, ev, "attribute %s" % ev["attr"], "attribute")

        if D.cur.entry.group != "solver":
            return
        if k == "extcall":
            for a in list(ev["args"]) + list(ev["kwargs"].values()):
                self.clobbered(D, a, ev, "passed to %s" % ev["meth"])
        elif k == "entry_return" and len(I.stack) == I.entry_depth:
            self.clobbered(D, ev["value"], ev, "returned")

    def clobbered(self, D, a, ev, what):
        for d in all_deps(a):
            if isinstance(d, str) and d.startswith("clobber|"):
                _, fn, w = d.split("|")
                self.report(D, "clobber", "%s in %s" % (fn, D.cur.entry.name),
                            "an in-place update in %s (%s) may overwrite another live quantity that is later %s" % (
                                fn, w, what), ev)

    def hit(self, D, I, ev, lab, how):
        fn = "%s.%s" % (ev.mod, ev.func)
        self.oblige("caller-memory", (D.cur.entry.name, D.cur.method, lab), False)
        self.report(D, "caller-memory", "%s writes %s of %s.%s" % (fn, lab, D.cur.entry.name, D.cur.method),
                    "%s writes in place (%s) to memory of the caller's %s (reached from %s.%s via %s)" % (
                        ev.func, how, lab, D.cur.entry.name, D.cur.method, " > ".join(ev.stack)), ev)


class OperatorMemory(CallerMemory):
    groups = ("operator", "projection", "combinator", "bilinear")


class SolverMemory(CallerMemory):
    groups = ("solver", "util")


def heap_insts(st, inst, seen=None):
    """Locations of the instances reachable from ``inst``."""
    seen = {} if seen is None else seen
    for x in alts(inst):
        if x.kind == "inst" and x.loc not in seen:
            seen[x.loc] = x
            for v in st.mem.get(x.loc, {}).values():
                if isinstance(v, AV):
                    _walk(st, v, seen)
        elif x.kind in ("list", "dict", "tuple", "bound", "partial"):
            _walk(st, x, seen)
    return seen


def _walk(st, v, seen):
    for x in alts(v):
        if x.kind == "inst":
            heap_insts(st, x, seen)
        elif x.kind in ("list", "dict"):
            for k, w in st.mem.get(x.loc, {}).items():
                if isinstance(w, AV) and ("c", x.loc, k) not in seen:
                    seen[("c", x.loc, k)] = None
                    _walk(st, w, seen)
        elif x.parts:
            for p in x.parts:
                _walk(st, p, seen)
        elif x.kind == "bound" and isinstance(x.fn, tuple):
            for p in x.fn:
                if isinstance(p, AV):
                    _walk(st, p, seen)


def reach_bufs(st, v, seen=None, out=None):
    seen = set() if seen is None else seen
    out = set() if out is None else out
    for x in alts(v):
        out |= x.buf
        if x.parts:
            for p in x.parts:
                reach_bufs(st, p, seen, out)
        if isinstance(x.fn, tuple):
            for p in x.fn:
                if isinstance(p, AV):
                    reach_bufs(st, p, seen, out)
        if x.loc is not None and x.loc not in seen and x.kind in ("inst", "list", "dict"):
            seen.add(x.loc)
            for w in st.mem.get(x.loc, {}).values():
                if isinstance(w, AV):
                    reach_bufs(st, w, seen, out)
    return out


# configurations documented to carry state from one evaluation to the next
def history_ok(run):
    e, c = run.entry.name, run.config
    if e in ("L2", "Quadratic") and c.get("warm") == "b1" and c.get("Op") == "l":
        return {"x", "tau"}
    if e in ("Nonlinear", "user(nonlinear)") and c.get("warm") == "b1":
        return {"x", "tau"}
    return set()


def is_sched(run):
    return any(c == "sch" for c in run.config.values())


def params_held(v):
    """Constructor parameters a value may be (not merely depend on)."""
    out = set()
    for x in alts(v):
        for i in x.val | x.buf:
            if isinstance(i, tuple) and len(i) == 2 and i[0] == "arg" and str(i[1]).startswith("self."):
                out.add(i[1])
        if x.kind == "ext" and isinstance(x.fn, str) and x.fn.startswith("self."):
            out.add(x.fn)
    return out


class OperatorState(Analysis):
    """What an operator remembers from one call to the next."""
    groups = ("operator", "projection", "combinator", "bilinear")
    PURE = ("__call__", "grad", "gradx", "grady", "matvec", "lx", "ly")

    def begin(self, D, run):
        if run.phase == "method":
            run.before = {loc: dict(D.I.st.mem.get(loc, {})) for loc in heap_insts(D.I.st, run.inst)
                          if loc[0] != "c"}
            run.compares = []
            run.proxcalls = 0

    def event(self, I, ev):
        run = self.D.cur
        if run.phase != "method":
            return
        if ev.kind == "compare" and ev["op"] in ("Eq", "NotEq"):
            run.compares.append((ev["left"], ev["right"]))
        elif ev.kind == "called" and ev["fn"].name.split(".")[-1] in ("prox", "proxdual"):
            run.proxcalls += 1

    def after(self, D, run):
        if run.phase != "method" or D.I.st is None:
            return
        st = D.I.st
        e, m = run.entry.name, run.method
        if m.startswith("update"):
            return
        hist = history_ok(run)
        self.oblige("parameters-kept", (e, m, tuple(sorted(run.config.items()))))
        if run.entry.group != "bilinear":
            self.oblige("history", (e, m, tuple(sorted(run.config.items()))))
        if m in self.PURE:
            self.oblige("evaluation-pure", (e, m, tuple(sorted(run.config.items()))))
        keyed_bad = set()
        for loc, x in heap_insts(st, run.inst).items():
            if loc[0] == "c":
                continue
            old, new = run.before.get(loc, {}), st.mem.get(loc, {})
            cls = x.fn.name
            for k in sorted(set(old) | set(new), key=str):
                if k not in new or not isinstance(new[k], AV):
                    continue
                if k in old and (old[k].key() == new[k].key() or same(old[k], new[k])):
                    continue
                if k in old and run.entry.group == "bilinear" and old[k].val and old[k].kind == new[k].kind == "arr" \
                        and old[k].val == new[k].val:
                    continue            # a copy of what it was
                lost = params_held(old[k]) - params_held(new[k]) if k in old else set()
                lost = {p for p in lost if not (hist and p == "self.x0")
                        and not (is_sched(run) and run.config.get(p[5:]) == "sch")}
                if lost and not self.retained(new, k, lost):
                    self.bad(D, run, "parameters-kept", "%s.%s" % (cls, k),
                             "%s.%s replaces attribute %s.%s, which holds the construction parameter %s" % (
                                 e, m, cls, k, sorted(lost)))
                if m in self.PURE and not run.proxcalls:
                    o = old.get(k)
                    lazy = o is None or o.kind in ("none", "undef")
                    if not lazy:
                        self.bad(D, run, "evaluation-pure", "%s.%s" % (cls, k),
                                 "%s.%s changes the operator's attribute %s.%s" % (e, m, cls, k))
                st.put(loc, k, new[k].with_(deps=new[k].deps | {"state:%s.%s" % (cls, k)}))
        if run.result is None or run.entry.group == "bilinear":
            return
        d = all_deps(run.result)
        early = {x[:-8] for x in d if isinstance(x, str) and x.endswith("@earlier")} - hist
        if early and not self.keyed(D, run, early):
            self.bad(D, run, "history", "args", "the result of %s.%s depends on argument(s) %s of an earlier call" % (
                e, m, sorted(early)))
        states = {x for x in d if isinstance(x, str) and x.startswith("state:")}
        if states and not hist and not is_sched(run):
            states = {s for s in states if not self.cache(run, s)}
            if states:
                self.bad(D, run, "history", "state", "the result of %s.%s depends on %s, which earlier calls changed" % (
                    e, m, sorted(states)))

    def retained(self, attrs, k, lost):
        """The parameter is still held by another attribute."""
        held = set()
        for kk, v in attrs.items():
            if kk != k and isinstance(v, AV):
                held |= params_held(v)
        return lost <= held

    def cache(self, run, s):
        """State only written as a function of construction parameters or of a compared key."""
        name = s.split(".")[-1]
        for before in run.before.values():
            v = before.get(name)
            if v is not None and s in v.deps:
                lab = {x for x in all_deps(v) if isinstance(x, str) and x.endswith("@earlier")}
                if lab and self.keyed(self.D, run, {x[:-8] for x in lab}):
                    return True
                if any(p.kind in ("none", "undef") for p in alts(v)):
                    return not lab
                return False
        return False

    def keyed(self, D, run, early):
        """Stale values are guarded by the comparison of a stored key with the current arguments."""
        for a, b in run.compares:
            for x, y in ((a, b), (b, a)):
                dx, dy = all_deps(x), all_deps(y)
                if {l + "@earlier" for l in early} <= dx and early <= dy:
                    return True
        return False

    def bad(self, D, run, rule, what, msg):
        self.oblige(rule, (run.entry.name, run.method, tuple(sorted(run.config.items()))), False)
        self.report(D, rule, "%s.%s %s" % (run.entry.name, run.method, what), msg, where=run.entry.name)


def same(a, b):
    """Same value up to dependencies (rewritten with what it already held)."""
    return (a.kind == b.kind and a.kind in ("num", "arr", "ext", "inst", "none", "bool", "str", "list", "dict", "func", "bound")
            and a.val == b.val and a.buf == b.buf and a.loc == b.loc and repr(a.const) == repr(b.const)
            and (bool(a.val) or a.kind in ("ext", "inst", "none", "list", "dict") or repr(a.const) != "?")
            and (a.kind != "ext" or a.fn == b.fn))


class Results(Analysis):
    """Memory of the returned arrays and of the iterates handed out."""
    opts = dict(opaque_alias=False)

    def begin(self, D, run):
        pass

    def event(self, I, ev):
        D = self.D
        run = D.cur
        if ev.kind == "mutate" and I.st is not None:
            g = I.st.ghost.get("handed", frozenset())
            hit = ev["bufs"] & g
            if hit:
                self.oblige("handed-out", (run.entry.name, run.method), False)
                self.report(D, "handed-out", "%s in %s" % (ev.func, run.entry.name),
                            "%s writes in place to an array that was already returned or given to a callback" % ev.func, ev)
        elif ev.kind == "extcall" and ev["meth"] == "__call__" and isinstance(ev["obj"].fn, str) \
                and ev["obj"].fn.split(".")[-1] in ("callback", "bregcallback"):
            b = set()
            for a in ev["args"]:
                b |= all_bufs(a)
            self.oblige("handed-out", (run.entry.name, run.method))
            I.st.ghost["handed"] = I.st.ghost.get("handed", frozenset()) | b
            self.kept(D, I, run)
        elif ev.kind == "extcall" and ev["meth"] in ("updatex", "updatey", "updatexy"):
            b = set()
            for a in list(ev["args"]) + list(ev["kwargs"].values()):
                b |= all_bufs(a)
            self.oblige("handed-out", (run.entry.name, ev["meth"]))
            I.st.ghost["kept"] = I.st.ghost.get("kept", frozenset()) | b
            self.kept(D, I, run)

    def kept(self, D, I, run):
        hit = I.st.ghost.get("kept", frozenset()) & I.st.ghost.get("handed", frozenset())
        if {b for b in hit if b[0] != "arg"}:
            self.bad(D, run, "handed-out", "kept",
                     "%s gives the callback an array which the bilinear operator it updates keeps" % run.entry.name)

    def after(self, D, run):
        r = run.result
        if r is None or D.I.st is None or run.phase == "ctor":
            return
        st = D.I.st
        rb = {b for b in reach_bufs(st, r) if b[0] not in ("ext",)} if r.kind != "none" else set()
        e, m = run.entry.name, run.method
        if any(x.kind in ("arr", "tuple", "any", "list") for x in alts(r)):
            self.oblige("result-fresh", (e, m))
            args = {b[1] for b in rb if b[0] == "arg" and "earlier" not in b}
            if args:
                self.bad(D, run, "result-fresh", "input", "%s.%s may return the caller's %s itself" % (e, m, sorted(args)))
            if run.phase == "method":
                own = reach_bufs(st, run.inst) & rb
                own = {b for b in own if not (b[0] == "arg" and b[1] in args)}
                if own:
                    self.bad(D, run, "result-fresh", "state",
                             "the array returned by %s.%s is also kept by the operator" % (e, m))
            if {b for b in rb & set(st.ghost.get("kept", ())) if b[0] != "arg"}:
                self.bad(D, run, "result-fresh", "kept",
                         "the array returned by %s is also kept by the bilinear operator it updates" % e)
            g = st.ghost.get("handed", frozenset())
            if run.phase == "method":
                st.ghost["handed"] = g | {b for b in rb if b[0] != "arg"}

    def bad(self, D, run, rule, what, msg):
        self.oblige(rule, (run.entry.name, run.method), False)
        self.report(D, rule, "%s.%s %s" % (run.entry.name, run.method, what), msg, where=run.entry.name)
