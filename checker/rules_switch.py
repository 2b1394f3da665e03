"""Switches select different computations.

The calls are interpreted exactly (three iterations of the outer loops) over
linear forms of uninterpreted results.  The sequence of calls into the caller's
functions and operators, with their arguments, and the result are compared
between configurations that differ in one switch only: where both are fully
known and equal, the switch has no effect whatever way it is written."""
from __future__ import annotations

import re

from framework import Finding
from rules_fixed import Base
from rules_options import EXEMPT, INNER, inapplicable
from rules_solver import TOLS

ATOM = re.compile(r"@?s?:?[A-Za-z]+\d+")
SKIP = {"show", "verb", "warm", "backend", "complexflag", "raiseerror"}


class Switches(Base):
    """Two values of a switch never give the same computation."""
    groups = ("solver", "operator", "projection")
    opts = dict(rounds=1, opaque_alias=False)

    def select(self, e):
        return e.group in self.groups and any(c == "b" or c.startswith("s:") for n, c in e.params.items()
                                              if n not in SKIP and isinstance(c, str))

    def setup(self, D):
        super().setup(D)
        D.I.exact_index = True

        def prune(e, n, vs):
            if n in TOLS:
                return [v for v in vs if v == "none"] or vs
            if n in ("show", "verb", "u"):
                return [v for v in vs if v == "b0"] or vs
            if n in ("callback",):
                return [v for v in vs if v == "cb"] or vs
            return vs
        D.opts["prune"] = prune

    def make_facets(self):
        fs = super().make_facets()
        f = self.S
        self.dig = {}
        old = f.intern

        def intern(kind, key, **info):
            a = old(kind, key, **info)
            if a not in self.dig:
                self.dig[a] = "<%s %s>" % (kind, self.expand(repr(key)))
                self.dig[a.lstrip("@")] = self.dig[a]
            return a
        f.intern = intern
        old_reset = f.reset

        def reset():
            old_reset()
            self.dig = {}
        f.reset = reset
        return fs

    def expand(self, s):
        """Names of interned results replaced by what they stand for."""
        s = re.sub(r"@?[A-Za-z:]+\d+", lambda m: self.dig.get(m.group(0), m.group(0)), s)
        return "%x" % (hash(s) & 0xffffffffffffffff) if len(s) > 200 else s

    def begin(self, D, run):
        super().begin(D, run)
        D.I.bound = 3
        run.calls = []

    def digest(self, v):
        """Text of a value, or None when it is not fully known."""
        if v.kind in ("tuple", "list"):
            ps = self.D.I.elements(v)
            if ps is None:
                return None
            ds = [self.digest(p) for p in ps]
            return None if None in ds else "(%s)" % ",".join(ds)
        if v.kind in ("none", "str", "bool"):
            from values import NOC
            return repr(v.const) if v.const is not NOC else None
        t = self.facet(v)
        if t is None or not t.known or t.rows is not None:
            return None
        if t.scalar:
            return self.expand(repr(t.val))
        return self.expand(repr(t.key()[:3]))

    def event(self, I, ev):
        run = self.D.cur
        if ev.kind == "extcall":
            o = self.facet(ev["obj"])
            role = o.role if o is not None else None
            if role is None and (o is None or o.mat is None):
                who = str(ev["obj"].fn)
            else:
                who = repr(role or self.expand(repr(o.key())))
            if ev["meth"] in ("matvec", "rmatvec", "dot", "_matvec", "_rmatvec") and role is None:
                return
            run.calls.append((who, str(ev["meth"])) + tuple(self.digest(a) for a in list(ev["args"]) + list(ev["kwargs"].values())))
        elif ev.kind in ("iter_solve", "root_find"):
            run.calls.append((ev["name"],) + tuple(self.digest(a) for a in list(ev["args"]) + list(ev["kwargs"].values())))

    def after(self, D, run):
        if run.phase == "ctor" or run.result is None or D.I.st is None:
            return
        e, m = run.entry.name, run.method
        r = self.digest(run.result)
        ok = r is not None and not any(None in c for c in run.calls)
        key = hash((tuple(run.calls), r)) if ok else None
        cfg = tuple(sorted(run.config.items()))
        for n, c in run.config.items():
            code = run.entry.params.get(n)
            if n in SKIP or not isinstance(code, str) or not (code == "b" or code.startswith("s:")):
                continue
            if m in EXEMPT.get((e, n), ()) or m in ("__call__", "grad") and n in INNER and run.entry.group != "projection" \
                    and run.entry.methods is not None:
                continue
            if n in ("engine", "solver", "densesolver", "use_parallel") and n in INNER or inapplicable(e, m, n, run.config):
                continue
            if e in ("Sum", "Orthogonal", "NuclearBall", "Simplex") and m == "grad":
                continue
            self.samples.append((e, m, n, cfg, c, key))

    def finish(self):
        sw = {}
        for e, m, n, cfg, c, key in self.samples:
            rest = tuple(x for x in cfg if x[0] != n)
            sw.setdefault((e, m, n), {}).setdefault(rest, {}).setdefault(c, set()).add(key)
        for (e, m, n), d in sorted(sw.items()):
            same = {}
            for rest, p in d.items():
                vs = sorted(p)
                for i, a in enumerate(vs):
                    for b in vs[i + 1:]:
                        if None in p[a] or None in p[b]:
                            continue
                        self.oblige("switch-differs", (e, m, n, rest, a, b))
                        same.setdefault((a, b), []).append((p[a] == p[b], rest))
            for (a, b), l in sorted(same.items()):
                bad = sorted(r for s, r in l if s)
                if bad:
                    who = e if m == e else "%s.%s" % (e, m)
                    for r in bad:
                        self.oblige("switch-differs", (e, m, n, r, a, b), False)
                    f = Finding("switch-differs", "%s of %s: %s, %s" % (n, who, a, b),
                                "the values %s and %s of %s of %s give the same computation (%d configurations)"
                                % (a, b, n, who, len(bad)), e, who, ",".join("%s=%s" % x for x in bad[0]))
                    self.findings[f.key] = f
        self.samples = []
