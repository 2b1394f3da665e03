"""State shared between objects or calls, and sources of irreproducibility."""
from __future__ import annotations

from ext import content_deps
from framework import Analysis
from interp import masked
from state import alts
from values import AV, all_deps

SETTINGS = {"seterr", "seterrcall", "seterrobj", "setbufsize", "set_printoptions", "set_string_function", "setrecursionlimit",
            "simplefilter", "filterwarnings", "resetwarnings", "chdir", "putenv", "unsetenv", "setlocale", "seed",
            "set_state", "setswitchinterval", "disable", "basicConfig", "captureWarnings"}
ROOTS = ("numpy", "scipy", "os", "sys", "warnings", "random", "locale", "logging", "cupy", "pylops")


class Isolation(Analysis):
    """Nothing outlives a call but the object's own state; nothing is random."""
    groups = ("operator", "projection", "combinator", "bilinear", "solver", "util")
    opts = dict(rounds=1)

    def setup(self, D):
        st = D.base
        self.frames = set(st.mem)
        self.bufs = {}
        for fr, d in st.mem.items():
            for k, v in d.items():
                if isinstance(v, AV):
                    self.own(v, "%s %s" % (fr[1] if len(fr) > 1 else fr, k))
        for (mod, n), c in D.repo.classes.items():
            for k, v in c.attrs.items():
                self.own(v, "class %s.%s" % (n, k))

    def own(self, v, what):
        for x in alts(v):
            for b in x.buf:
                self.bufs.setdefault(b, what)
            if x.kind == "func":
                for d in list(x.fn.defaults) + [k for k in x.fn.kwdefaults if k is not None]:
                    self.own(d, "default argument of %s" % x.fn.name)
            for p in x.parts or ():
                self.own(p, what)

    def begin(self, D, run):
        run.stored = set()
        self.filled = set()

    def event(self, I, ev):
        run = self.D.cur
        k = ev.kind
        if k == "global_write":
            self.hit(ev, "shared-state", "%s written by %s" % (ev["name"], ev.func),
                     "%s changes the module- or class-level variable %s" % (ev.func, ev["name"]))
        elif k == "nonlocal_write":
            if ev["frame"] in self.frames:
                self.hit(ev, "shared-state", "%s written by %s" % (ev["name"], ev.func),
                         "%s changes the variable %s shared by all instances" % (ev.func, ev["name"]))
        elif k == "container_write":
            if ev["obj"].loc in self.frames:
                self.hit(ev, "shared-state", "container written by %s" % ev.func,
                         "%s changes a list or dictionary created when the module was loaded (module or class variable, "
                         "closure or default argument)" % ev.func)
        elif k == "attr_write":
            if ev["obj"].loc in self.frames:
                self.hit(ev, "shared-state", "%s written by %s" % (ev["attr"], ev.func),
                         "%s changes an object created when the module was loaded" % ev.func)
            self.impure(I, ev["value"], ev, "kept as attribute %s" % ev["attr"])
        elif k == "mutate":
            if I.loop_depth and ev["how"] not in ("aug", "augitem") and not masked(ev["index"]):
                # a loop that fills the array element by element
                self.filled |= {x for x in ev["target"].deps if isinstance(x, str) and x.startswith("uninit@")}
            for b in ev["bufs"]:
                if b in self.bufs:
                    self.hit(ev, "shared-state", "array written by %s" % ev.func,
                             "%s writes to an array created when the module was loaded (%s)" % (ev.func, self.bufs[b]))
        elif k == "ext_attr_write" and ev["obj"].kind in ("mod", "extf"):
            self.hit(ev, "settings", "%s by %s" % (ev["attr"], ev.func), "%s changes an attribute of a library" % ev.func)
        elif k == "ext_call":
            nm = ev["name"].split(".")
            if nm[-1] in SETTINGS and nm[0] in ROOTS:
                self.hit(ev, "settings", "%s by %s" % (ev["name"], ev.func),
                         "%s changes a global setting (%s)" % (ev.func, ev["name"]))
        elif k == "called" and "cached" in ev["fn"].decos:
            r = ev["result"]
            if any(x.buf or x.loc is not None or x.kind in ("arr", "any", "list", "dict") for x in alts(r)) \
                    or ev["fn"].cls is not None:
                self.hit(ev, "shared-state", "cache of %s" % ev["fn"].name,
                         "%s keeps its results in a cache shared by all callers" % ev["fn"].name)
        elif k == "extcall":
            for a in list(ev["args"]) + list(ev["kwargs"].values()):
                self.impure(I, a, ev, "passed to %s" % ev["meth"])

    def hit(self, ev, rule, construct, message):
        run = self.D.cur
        self.oblige(rule, (run.entry.name, run.method), False)
        self.report(self.D, rule, construct, message, ev)

    def impure(self, I, v, ev, what):
        run = self.D.cur
        e = run.entry.name
        for lab in content_deps(I, [v]):
            if lab == "impure" and not e.startswith("gradtest"):
                self.oblige("repeatable", (e, run.method), False)
                self.report(self.D, "repeatable", "%s in %s.%s" % (what, e, run.method),
                            "a value %s depends on random numbers, the clock or an address" % what, ev)
            elif isinstance(lab, str) and lab.startswith("uninit@") and lab not in self.filled:
                self.oblige("repeatable", (e, run.method), False)
                self.report(self.D, "repeatable", "uninitialised %s in %s.%s" % (what, e, run.method),
                            "a value %s may contain memory never written (allocated at %s)" % (what, lab[7:]), ev)

    def after(self, D, run):
        for r in ("shared-state", "settings", "repeatable"):
            self.oblige(r, (run.entry.name, run.method, tuple(sorted(run.config.items()))))
        if run.result is not None and D.I.st is not None and run.phase != "ctor":
            self.impure(D.I, run.result, None, "returned")
