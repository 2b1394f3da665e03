"""Every admissible configuration runs: names are bound, attributes exist,
operands are not None, calls match their callee."""
from __future__ import annotations

import ext
from framework import Analysis
from state import alts

BAD = ("undef", "maybe_undef", "attr_missing", "none_use", "bad_call", "key_error", "index_error", "not_callable")


ARRAY_METHODS = {"prox", "proxdual", "grad", "matvec", "rmatvec", "gradx", "grady"}


class PyNumber:
    """Numbers which certainly are Python's, not numpy's."""
    name = "py"

    def join(self, a, b):
        return a if a == b else None

    def join_none(self, a, b):
        return None

    def arg(self, run, label, name, kind):
        return "py" if kind in ("f", "i") else None

    def const(self, c):
        return "py"

    def binop(self, t, a, b, n):
        return "py" if a.f.get("py") and b.f.get("py") else None

    def unary(self, t, a):
        return a.f.get("py")


class Defined(Analysis):
    groups = None
    opts = dict(rounds=1)

    def make_facets(self):
        return [PyNumber()]
    passes = ({"show": "b1"}, {"show": "b0"})

    def begin(self, D, run):
        run.bad = []

    def event(self, I, ev):
        run = self.D.cur
        if ev.kind in BAD or ev.kind == "num_index" and ev["obj"].f.get("py"):
            run.bad.append(ev)
        elif ev.kind == "extcall" and ev["args"] and (
                ev["meth"] in ARRAY_METHODS or ev["meth"] == "__call__" and ext.role_of(ev["obj"]) == "obj"):
            a = ev["args"][0]
            if a.kind == "none" or any(x.kind in ("tuple", "list", "str") for x in alts(a)):
                run.bad.append(ev)

    def describe(self, ev):
        k = ev.kind
        if k == "maybe_undef":
            return "the name %s may not be bound" % ev["name"]
        if k == "undef":
            return "the name %s is not bound" % ev["name"]
        if k == "attr_missing":
            o = ev["obj"]
            return "%s has no attribute %s" % (getattr(o.fn, "name", o.kind), ev["attr"])
        if k == "none_use":
            return "None is used as an operand (%s)" % ev["op"]
        if k == "bad_call":
            return "%s is called with %s" % (ev["fn"].name, ev["why"])
        if k == "extcall":
            a = ev["args"][0]
            what = "None" if a.kind == "none" else "a " + next(x.kind for x in alts(a) if x.kind in ("tuple", "list", "str"))
            return "%s is handed %s" % (ev["meth"], what)
        if k == "not_callable":
            return "a %s is called" % ev["obj"].kind
        if k == "num_index":
            return "a number is indexed"
        if k == "key_error":
            return "the key %r is missing" % (ev["key"],)
        return "index %s is out of range (length %s)" % (ev["index"], ev["length"])

    def documented(self, run):
        """Combinations the documentation rules out."""
        return run.entry.name == "LowRankFactorizedMatrix" and run.method in ("lx", "ly") and run.config.get("Op") == "l"

    def setup(self, D):
        show = self.po.get("show", "u")
        D.opts["prune"] = lambda e, n, vs: [show] if n in ("show", "verb") else vs

    def after(self, D, run):
        e, m = run.entry.name, run.method
        inst = (e, m, tuple(sorted(run.config.items())))
        self.oblige("defined", inst)
        rs = D.I.raises[run.raise_mark:]
        where = {(r[2][0], r[2][1]) for r in rs}
        for ev in run.bad:
            if ev.kind in ("key_error", "index_error") and (ev.mod, ev.line) not in where:
                continue        # caught by the caller
            d = self.describe(ev)
            self.oblige("defined", inst, False)
            self.report(D, "defined", "%s: %s (%s)" % (ev.func, d, e), "%s in %s" % (d, ev.func), ev)
        if run.result is None and not run.bad and not self.documented(run):
            names = sorted({r[1] for r in rs})
            self.oblige("defined", inst, False)
            self.report(D, "defined", "%s.%s always raises %s" % (e, m, names),
                        "%s.%s always raises %s" % (e, m, names), where=e)
