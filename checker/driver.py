"""Enumerates the entry points, their configurations and the stable predicates
of the environment, and runs the interpreter on each."""
from __future__ import annotations

import ast
import itertools
import os
import sys
import time
import traceback

sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import specs
import ext as extmod
from values import AV, ANY, E, NOC, NONE, ClassVal, FuncVal, boolean, num, string
from state import State, rename_av, join_states, alts
from interp import Interp, Dead, Budget
from repo import Repo, Module

ROOT = os.environ.get("VERIF_REPO", "/repo")
FULL_CAP = 160
ORACLE_CAP = 24


class AnalysisError(Exception):
    pass


def variants(code):
    """List of atomic codes."""
    opt = code.endswith("?")
    if opt:
        code = code[:-1]
    if code.startswith("s:"):
        out = ["s:" + x for x in code[2:].split(",")]
    else:
        out = []
        for c in code.split("|"):
            if c == "b":
                out += ["b1", "b0"]
            else:
                out.append(c)
    if opt:
        out.append("none")
    return out


def code_of_annotation(a):
    if a is None:
        return "x"
    s = ast.unparse(a).replace("'", "").replace('"', "")
    opt = "None" in s or "Optional" in s
    core = s.replace("| None", "").replace("Optional[", "").replace("]", "").strip()
    m = {"float": "f", "int": "i", "bool": "b", "NDArray": "a", "str": "x", "float | NDArray": "f|a",
         "LinearOperator": "l", "ProxOperator": "p"}.get(core)
    if m is None:
        m = "cb" if "Callable" in core else "x"
    return m + ("?" if opt else "")


class Entry:
    """One construction/call shape of a public entry point."""

    def __init__(self, group, name, params, methods=None, factory=None):
        self.group, self.name, self.params, self.methods, self.factory = group, name, params, methods, factory

    def __repr__(self):
        return self.name


def all_entries(groups=None):
    out = []
    for n, p in specs.OPERATORS.items():
        out.append(Entry("operator", n, p, specs.OP_METHODS))
    for n, p in specs.PROJECTIONS.items():
        out.append(Entry("projection", n, p, specs.PROJ_METHODS))
    for n, (fac, p) in specs.COMBINATORS.items():
        out.append(Entry("combinator", n, p, specs.OP_METHODS, fac))
    for n, p in specs.SOLVERS.items():
        out.append(Entry("solver", n, p))
    for n, p in specs.UTILS.items():
        out.append(Entry("util", n, p))
    for n, p in specs.BILINEAR.items():
        out.append(Entry("bilinear", n, p, specs.BIL_METHODS))
    return [e for e in out if groups is None or e.group in groups]


class Run:
    """State of one analysed configuration."""

    def __init__(self, entry, config, method=None):
        self.entry, self.config, self.method = entry, config, method


class Driver:
    def __init__(self, facets=(), hooks=(), opts=None, repo=None):
        self.repo = repo or Repo(ROOT)
        self.repo.modules["pyproximal._verif_probe"] = Module(
            "pyproximal._verif_probe", os.path.join(ROOT, "pyproximal/_verif_probe.py"),
            ast.parse(specs.PROBE), specs.PROBE, False)
        self.opts = dict(closure=True, keep_zero=False, stable=True, assume_iter=True, rounds=2, fix_bools=False,
                         numeric_const=())
        self.opts.update(opts or {})
        self.I = Interp(self.repo, facets, hooks, assume_iter=self.opts["assume_iter"], stable=self.opts["stable"])
        self.I.opaque_alias = self.opts.get("opaque_alias", True)
        self.I.keep_zero = self.opts["keep_zero"]
        self.I.sc = Interp.Scope(("M", "<driver>"), (), None, None)
        self.I.max_steps = 10 ** 9
        self.I.load_module("pyproximal")
        self.I.load_module("pyproximal._verif_probe")
        for m in list(self.repo.modules):
            if m.startswith("pyproximal.") and "cuda" not in m:
                self.I.load_module(m)
        self.base = self.I.st
        self.base_raises = list(self.I.raises)
        self.I.max_steps = self.opts.get("max_steps", 400000)
        self.public = self.collect_public()
        self.stats = dict(entries=0, configs=0, runs=0, methods=0, failed=[], capped=0)
        self.cur = None

    # -------------------------------------------------------- entry points
    def collect_public(self):
        pub = {}
        for mod in ("pyproximal.proximal", "pyproximal.projection", "pyproximal.optimization.primal",
                    "pyproximal.optimization.primaldual", "pyproximal.optimization.palm",
                    "pyproximal.optimization.pnp", "pyproximal.optimization.bregman",
                    "pyproximal.optimization.segmentation", "pyproximal.optimization.sr3",
                    "pyproximal.utils.bilinear", "pyproximal.utils.gradtest", "pyproximal.utils.moreau", "pyproximal"):
            d = self.base.mem.get(("M", mod), {})
            for k, v in d.items():
                if isinstance(k, str) and v.kind in ("func", "cls") and k not in pub:
                    pub[k] = v
        return pub

    def find(self, entry):
        if entry.factory:
            v = self.base.get(("M", "pyproximal._verif_probe"), entry.factory)
        else:
            v = self.public.get(entry.name)
        if v is None or v.kind not in ("func", "cls"):
            raise AnalysisError("public name %s not found in the package" % entry.name)
        return v

    def signature(self, v):
        """Parameter names (without self) of a function or constructor, with default/annotation."""
        if v.kind == "cls":
            init, c = v.fn.lookup("__init__")
            if init is None or init.kind != "func":
                return [], False
            return self.fsig(init.fn, True)
        return self.fsig(v.fn, False)

    def mutable_defaults(self, v):
        """Parameters whose default is an object shared by all calls."""
        if v.kind == "cls":
            init, _ = v.fn.lookup("__init__")
            v = init
        if v is None or v.kind != "func":
            return set()
        a = v.fn.node.args
        allp = a.posonlyargs + a.args
        out = {p.arg for p, d in zip(allp[len(allp) - len(v.fn.defaults):], v.fn.defaults)
               if d.kind in ("list", "dict", "inst", "arr")}
        return out | {p.arg for p, d in zip(a.kwonlyargs, v.fn.kwdefaults)
                      if d is not None and d.kind in ("list", "dict", "inst", "arr")}

    def fsig(self, fv, skip):
        a = fv.node.args
        ps = a.posonlyargs + a.args
        if skip:
            ps = ps[1:]
        nd = len(a.defaults)
        allp = a.posonlyargs + a.args
        has_def = {p.arg: i - (len(allp) - nd) >= 0 for i, p in enumerate(allp)}
        out = [(p.arg, p.annotation, has_def[p.arg]) for p in ps]
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            out.append((p.arg, p.annotation, d is not None))
        return out, a.vararg is not None and a.kwarg is not None and not ps

    def configs(self, entry, v):
        sig, opaque = self.signature(v)
        names = [n for n, _, _ in sig]
        mutable = self.mutable_defaults(v)
        dims = []
        for n, ann, d in sig:
            code = entry.params.get(n)
            if code is None:
                code = "default" if d else code_of_annotation(ann)
            vs = variants(code)
            if self.opts.get("prune"):
                vs = self.opts["prune"](entry, n, vs)
            dims.append((n, vs))
            if "none" in vs and "default" not in vs and n in mutable:
                dims[-1] = (n, vs + ["default"])
        missing = [n for n in entry.params if n not in names]
        if missing and opaque:
            dims = [(n, variants(c)) for n, c in entry.params.items()]
            missing = []
        if missing:
            raise AnalysisError("%s: documented parameter(s) %s not in the signature" % (entry.name, missing))
        total = 1
        for _, vs in dims:
            total *= len(vs)
        allc = None
        if total <= self.opts.get("full_cap", FULL_CAP):
            allc = [dict(zip([n for n, _ in dims], c)) for c in itertools.product(*[vs for _, vs in dims])]
        else:
            allc = twise(dims, 3 if total > 1000 or self.opts.get("deep") else 3)
        return [c for c in allc if admissible(entry, c)]

    # --------------------------------------------------------------- values
    def make(self, code, label, name):
        I = self.I
        dep = frozenset([label])
        val = frozenset([("arg", label)])

        def fac(kind, lb=None):
            f = {}
            for fa in I.facets:
                m = getattr(fa, "arg", None)
                if m is not None:
                    r = m(self.cur, lb or label, name, kind)
                    if r is not None:
                        f[fa.name] = r
            return f

        def arr(lb):
            return AV("arr", buf=frozenset([("arg", lb)]), val=frozenset([("arg", lb)]), deps=dep, f=fac("a"))

        def ext(lb, role=None):
            return AV("ext", fn=lb, deps=dep, f=fac(role or "obj"))

        if code == "a":
            return arr(label)
        if code == "f":
            return AV("num", val=val, deps=dep, fn="float", f=fac("f"))
        if code == "i":
            return AV("num", val=val, deps=dep, fn="int", f=fac("i"))
        if code in ("i0", "i1", "im1"):
            c = {"i0": 0, "i1": 1, "im1": -1}[code]
            return AV("num", const=c, deps=dep, f=I.facet_map("const", c))
        if code in ("neg", "zero"):
            c = {"neg": -1.0, "zero": 0.0}[code]
            return AV("num", const=c, deps=dep, f=I.facet_map("const", c))
        if code in ("negarr", "zeroarr"):
            return arr(label).with_(f={"sign": code[:-3]})
        if code in ("b1", "b0"):
            return AV("bool", const=code == "b1", deps=dep)
        if code in ("u", "b"):
            return AV("bool", val=val, deps=dep)
        if code.startswith("c:"):
            c = ast.literal_eval(code[2:])
            kind = "str" if isinstance(c, str) else "bool" if isinstance(c, bool) else "num"
            return AV(kind, const=c, deps=dep, fn=type(c).__name__, f=I.facet_map("const", c))
        if code == "none":
            return AV("none", const=None, deps=dep)
        if code.startswith("s:"):
            return AV("str", const=code[2:], deps=dep)
        if code == "default":
            return None
        if code[0] == "t" and code[1:].isdigit():
            return AV("tuple", parts=tuple(AV("num", val=frozenset([("arg", "%s[%d]" % (label, k))]),
                                              deps=dep | {"%s[%d]" % (label, k)}, fn="float",
                                              f=fac("f", "%s[%d]" % (label, k))) for k in range(int(code[1:]))))
        if code[0] == "d" and code[1:].isdigit():
            return AV("tuple", parts=tuple(AV("num", val=frozenset([("arg", "%s[%d]" % (label, k))]), deps=dep, fn="int",
                                              f=fac("i")) for k in range(int(code[1:]))))
        if code in ("p", "l", "H"):
            extmod.ROLES[label] = "obj"
            return ext(label, code)
        if code == "sch":
            extmod.ROLES[label] = "fn_num"
            return ext(label, code)
        if code == "cb":
            extmod.ROLES[label] = "fn_none"
            return ext(label, code)
        if code in ("den", "fn1"):
            extmod.ROLES[label] = "fn_arr"
            return ext(label, code)
        if code == "slv":
            extmod.ROLES[label] = "fn_solver"
            return ext(label, code)
        if code == "other":
            return AV("ext", fn=("other", label), deps=dep)
        if code[0] in "PJRNA" and code[1:].isdigit():
            xs = []
            for k in range(int(code[1:])):
                lb = "%s[%d]" % (label, k)
                kind = {"P": "p", "J": "fn1", "R": "l", "N": "i", "A": "a"}[code[0]]
                x = self.make(kind, lb, name)
                xs.append(x.with_(deps=dep | {lb}))
            loc = ("L", "arg", label)
            I.st.mem[loc] = dict(enumerate(xs), **{"#n": len(xs)})
            return AV("list", loc=loc)
        if code == "D":
            loc = ("D", "arg", label)
            I.st.mem[loc] = {"*": AV("any", val=val, deps=dep), "#open": NONE}
            return AV("dict", loc=loc)
        return AV("any", val=val, deps=dep)

    # ----------------------------------------------------------------- runs
    def reset(self, oracle):
        I = self.I
        I.st = self.base.copy()
        I.oracle = dict(oracle)
        I.trail = []
        I.events = []
        I.raises = []
        I.ctx = ()
        I.ctxids = {}
        I.stack = []
        I.steps = 0
        I.sc = Interp.Scope(("M", "<driver>"), (), None, None)
        I.cur_mod = "pyproximal"
        I.entry_depth = 0
        I.loop_depth = 0
        for f in I.facets:
            m = getattr(f, "reset", None)
            if m:
                m()

    def node(self, v):
        n = v.fn.node
        return n

    def run_entry(self, entry, analysis):
        """``analysis`` receives begin/after callbacks; returns nothing."""
        v = self.find(entry)
        self.stats["entries"] += 1
        rows = analysis.rows(self, entry, v) if hasattr(analysis, "rows") else None
        cfgs = [r for r in rows if r] if rows is not None else self.configs(entry, v)
        if not cfgs and rows is not None:
            return
        if not cfgs:
            raise AnalysisError("%s: no admissible configuration" % entry.name)
        for row in cfgs:
            cfg = row.config if rows is not None else row
            self.stats["configs"] += 1
            todo = [()]
            n = 0
            while todo:
                pre = todo.pop()
                n += 1
                if n > self.opts.get("oracle_cap", ORACLE_CAP):
                    self.stats["capped"] += 1
                    break
                self.reset(dict(pre))
                self.stats["runs"] += 1
                run = Run(entry, cfg)
                run.row = row
                self.cur = run
                run.oracle = self.I.oracle
                try:
                    if entry.methods is None:
                        self.run_function(entry, v, cfg, run, analysis)
                    else:
                        self.run_object(entry, v, cfg, run, analysis)
                except Budget as e:
                    self.stats["failed"].append("%s %s: %s" % (entry.name, short(cfg), e))
                except RecursionError as e:
                    self.stats["failed"].append("%s %s: recursion" % (entry.name, short(cfg)))
                except AnalysisError:
                    raise
                except Exception as e:
                    if os.environ.get("VERIF_DEBUG"):
                        traceback.print_exc()
                    tb = traceback.extract_tb(e.__traceback__)[-1]
                    self.stats["failed"].append("%s %s: %s: %s (%s:%d)" % (
                        entry.name, short(cfg), type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
                done = list(pre)
                keys = [k for k, _ in pre]
                for s in self.I.trail:
                    if s in keys:
                        continue
                    todo.append(tuple(done) + ((s, not self.I.oracle[s]),))
                    done.append((s, self.I.oracle[s]))

    def args_for(self, entry, v, cfg, prefix):
        args = {}
        for n, code in cfg.items():
            a = self.make(code, prefix + n, n)
            if a is not None:
                args[n] = a
        return args

    def run_function(self, entry, v, cfg, run, an):
        I = self.I
        kw = self.args_for(entry, v, cfg, "")
        extra = specs.SOLVER_KW.get(entry.name)
        if extra:
            for n, c in extra[1].items():
                if n not in kw:
                    vs = variants(c)
                    if self.opts.get("prune"):
                        vs = self.opts["prune"](entry, n, vs)
                    kw[n] = self.make(vs[0], "kw." + n, n)
        run.args = kw
        run.phase = "call"
        run.method = entry.name
        an.begin(self, run)
        node = self.node(v)
        I.entry_depth = 1
        run.raise_mark = len(I.raises)
        self.stats["methods"] += 1
        try:
            r = I.call(v, [], kw, node)
        except Dead:
            r = None
        run.result = r
        an.after(self, run)
        an.end(self, run)

    def run_object(self, entry, v, cfg, run, an):
        I = self.I
        kw = self.args_for(entry, v, cfg, "self.")
        run.args = kw
        run.ctor_args = kw
        run.phase = "ctor"
        run.method = "__init__"
        an.begin(self, run)
        node = self.node(v)
        I.entry_depth = 1
        run.raise_mark = len(I.raises)
        try:
            inst = I.call(v, [], kw, node)
        except Dead:
            inst = None
        run.result = inst
        run.inst = inst
        an.after(self, run)
        if inst is None or not any(x.kind == "inst" for x in alts(inst)):
            an.end(self, run)
            return
        start = I.st
        methods = []
        table = an.methods(entry) if hasattr(an, "methods") else entry.methods
        for m, ps in table.items():
            a = I.attr(inst, m, node, quiet=True)
            if a is not None and a.kind in ("bound", "func", "union", "partial"):
                methods.append((m, ps))
        run.methods = [m for m, _ in methods]
        if hasattr(an, "sequences"):
            self.run_sequences(entry, inst, run, an, dict(methods), start, node)
            an.end(self, run)
            return
        cur = start.copy()
        rounds = self.opts["rounds"] if self.opts["closure"] else 1
        for rnd in range(rounds):
            run.round = rnd
            post = cur
            if rnd > 0 and hasattr(an, "between"):
                an.between(self, run)
            for m, ps in methods:
                for vs in method_configs(ps):
                    I.st = cur.copy()
                    I.ctx = ((m, rnd > 0, tuple(vs.values())),)
                    I.ctx = ((m,),)
                    run.method, run.mconfig, run.phase = m, vs, "method"
                    args = {n: self.make(c, n, n) for n, c in vs.items()}
                    run.args = args
                    run.pre = I.st.copy()
                    run.raise_mark = len(I.raises)
                    self.stats["methods"] += 1
                    an.begin(self, run)
                    f = I.attr(inst, m, node)
                    I.entry_depth = 1
                    I.stack = []
                    pos, kws = an.call_args(run, args) if hasattr(an, "call_args") else (list(args.values()), {})
                    try:
                        r = I.call(f, pos, kws, node)
                    except Dead:
                        r = None
                    run.result = r
                    an.after(self, run)
                    if I.st is not None:
                        s = I.st
                        for n in args:
                            for lb in [n]:
                                old, new = ("arg", lb), ("arg", lb, "earlier")
                                s.map_values(lambda w: rename_av(w, old, new))
                        s.pc = E
                        post = join_states(I.J, post, s)
            if rnd + 1 < rounds:
                if post.key() == cur.key():
                    break
                cur = post
        an.end(self, run)


    def run_sequences(self, entry, inst, run, an, methods, start, node):
        """Histories of calls, each from the freshly constructed object."""
        I = self.I
        for seq in an.sequences(entry, run):
            if any(m not in methods for m in seq):
                continue
            I.st = start.copy()
            run.seq = seq
            an.sequence_begin(self, run)
            for k, m in enumerate(seq):
                vs = next(iter(method_configs(methods[m])))
                I.ctx = ((m, k),)
                args = {n: self.make(c, "%s@%d" % (n, k), n) for n, c in vs.items()}
                run.method, run.mconfig, run.args, run.phase, run.step = m, vs, args, "method", k
                run.raise_mark = len(I.raises)
                self.stats["methods"] += 1
                an.begin(self, run)
                f = I.attr(inst, m, node)
                I.entry_depth = 1
                I.stack = []
                try:
                    run.result = I.call(f, list(args.values()), {}, node)
                except Dead:
                    run.result = None
                if I.st is None:
                    break
                an.after(self, run)
                I.st.pc = E


def short(cfg):
    return ",".join("%s=%s" % (k, v) for k, v in cfg.items() if v not in ("a", "f", "i", "p", "l", "u", "default"))


def method_configs(ps):
    names = list(ps)
    for c in itertools.product(*[variants(ps[n]) for n in names]):
        yield dict(zip(names, c))


def admissible(entry, c):
    """Documented preconditions on combinations of arguments."""
    n = entry.name
    if n in ("HQS", "ADMM") and c.get("x0") == "none" and c.get("z0") == "none":
        return False
    if n == "ProximalGradient" and c.get("tau") == "a" and c.get("backtracking") != "b0":
        return False
    if n == "VStack" and (c.get("nn") == "none") == (c.get("restr") == "none"):
        return False
    if n == "L2" and (c.get("Op") == "l") != (c.get("b") == "a") and c.get("Op") == "l":
        return False
    if n == "L2Convolve" and (c.get("dims") == "none") != (c.get("dir") == "none"):
        return False
    return True


def twise(dims, t):
    """Greedy deterministic t-wise covering array."""
    names = [n for n, _ in dims]
    multi = [(n, vs) for n, vs in dims if len(vs) > 1]
    single = {n: vs[0] for n, vs in dims if len(vs) == 1}
    t = min(t, len(multi))
    need = set()
    for combo in itertools.combinations(range(len(multi)), t):
        for vals in itertools.product(*[multi[i][1] for i in combo]):
            need.add((combo, vals))
    need_l = sorted(need)
    uncovered = dict.fromkeys(need_l)
    rows = []
    while uncovered:
        (combo, vals) = next(iter(uncovered))
        row = [None] * len(multi)
        for i, v in zip(combo, vals):
            row[i] = v
        for i in range(len(multi)):
            if row[i] is not None:
                continue
            best, bv = -1, None
            for v in multi[i][1]:
                row[i] = v
                known = [k for k in range(len(multi)) if row[k] is not None]
                sc = 0
                others = [k for k in known if k != i]
                for co in itertools.combinations(others, t - 1):
                    idx = tuple(sorted(co + (i,)))
                    if (idx, tuple(row[k] for k in idx)) in uncovered:
                        sc += 1
                if sc > best:
                    best, bv = sc, v
            row[i] = bv
        for co in itertools.combinations(range(len(multi)), t):
            uncovered.pop((co, tuple(row[k] for k in co)), None)
        r = dict(single)
        for (n, _), v in zip(multi, row):
            r[n] = v
        rows.append({n: r[n] for n in names})
    return rows
