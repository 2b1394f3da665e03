"""Abstract interpreter for the subset of Python the repository is written in.

It executes functions over abstract values (values.py), joining at merges and
iterating loops to a fixpoint.  Repository functions are inlined; calls into
numpy/scipy/pylops go through the summaries of ext.py; objects supplied by the
user (proximal operators, linear operators, callbacks) are opaque ``ext``
values whose uses are reported as events.
"""
from __future__ import annotations

import ast
import os

from values import (AV, ANY, E, NOC, NONE, UNDEF, ClassVal, FuncVal, all_deps, all_bufs, boolean, num,
                    string, union_deps)
from state import Joiner, State, alts, join_states, rename_av, strip_undef
import ext as extmod

MAXDEPTH = 40
MAXFIX = 7
UNROLL = 10


class Dead(Exception):
    """The current abstract path ended (an exception is certain)."""


class Budget(Exception):
    pass


class Comp:
    __slots__ = ("brk", "cnt", "ret")

    def __init__(self):
        self.brk, self.cnt, self.ret = [], [], []

    def absorb(self, c):
        self.brk += c.brk
        self.cnt += c.cnt
        self.ret += c.ret


class Event(dict):
    __getattr__ = dict.get


BUILTIN_NAMES = set("""abs all any bool callable complex dict enumerate filter float format frozenset
getattr hasattr hash id int isinstance issubclass iter len list map max min next object print property
range repr reversed round set setattr slice sorted staticmethod classmethod str sum super tuple type zip
pow divmod ord chr delattr vars NotImplemented Ellipsis open input __name__
__file__ locals globals""".split())
EXC_NAMES = {n for n in dir(__builtins__ if not isinstance(__builtins__, dict) else object)
             } if False else {"ArithmeticError", "AssertionError", "AttributeError", "BaseException",
                              "Exception", "FloatingPointError", "FutureWarning", "ImportError", "IndexError",
                              "KeyError", "KeyboardInterrupt", "LookupError", "ModuleNotFoundError",
                              "NotImplementedError", "OSError", "OverflowError", "RuntimeError", "StopIteration",
                              "TypeError", "UnboundLocalError", "UserWarning", "ValueError", "Warning",
                              "ZeroDivisionError", "DeprecationWarning", "RuntimeWarning", "RecursionError",
                              "NameError", "SystemExit"}
EXC_PARENT = {"KeyError": "LookupError", "IndexError": "LookupError", "ModuleNotFoundError": "ImportError",
              "ZeroDivisionError": "ArithmeticError", "FloatingPointError": "ArithmeticError",
              "OverflowError": "ArithmeticError", "NotImplementedError": "RuntimeError",
              "RecursionError": "RuntimeError", "UnboundLocalError": "NameError"}


PYTYPE = {"list": list, "tuple": tuple, "dict": dict, "str": str}


def exc_matches(name, handler):
    while name:
        if name == handler:
            return True
        if name in ("Exception", "BaseException"):
            return handler == "BaseException"
        name = EXC_PARENT.get(name, "Exception")
    return False


def masked(index):
    """Does an index select elements by the data (so maybe not all of them)?"""
    if index is None:
        return False
    if index.kind == "tuple":
        return any(masked(p) for p in index.parts or ())
    return index.kind in ("arr", "bool", "any", "list")


class Interp:
    def __init__(self, repo, facets=(), hooks=(), oracle=None, assume_iter=True, stable=True):
        self.repo = repo
        self.facets = list(facets)
        self.hooks = list(hooks)
        self.J = Joiner(self.facets)
        self.st = State()
        self.events = []
        self.ctx = ()
        self.ctxids = {}
        self.stack = []           # (FuncVal, node, self AV, frame loc)
        self.raises = []          # (State, exception name, node, where)
        self.oracle = dict(oracle or {})
        self.trail = []
        self.stable = stable
        self.assume_iter = assume_iter
        self.tests = {}
        self.trip_offset = 0
        self.bound = None        # exact number of iterations of the outer loops
        self.exact_index = False  # the index of such a loop is then known, too
        self.loaded = {}
        self.steps = 0
        self.max_steps = 400000
        self.cur_mod = None
        self.seen_funcs = set()
        self.unknown = {}
        self.loop_depth = 0
        self.opaque_alias = True      # results of user objects may share memory with their argument
        for f in self.facets:
            f.I = self

    # ------------------------------------------------------------------ util
    def where(self, node):
        fn = self.stack[-1][0].name if self.stack else "<module>"
        return (self.cur_mod, getattr(node, "lineno", 0), fn)

    def emit(self, kind, node, **kw):
        mod, line, fn = self.where(node)
        ev = Event(kind=kind, mod=mod, line=line, func=fn, ctx=self.ctx, pc=self.st.pc if self.st else E,
                   stack=tuple(s[0].name for s in self.stack), **kw)
        self.events.append(ev)
        for h in self.hooks:
            h(self, ev)
        return ev

    def site(self, node, tag=""):
        return (self.cid(), self.cur_mod, getattr(node, "lineno", 0), getattr(node, "col_offset", 0),
                type(node).__name__, tag)

    def cid(self):
        c = self.ctx
        if c not in self.ctxids:
            self.ctxids[c] = len(self.ctxids)
        return self.ctxids[c]

    def fresh(self, node, tag=""):
        """New buffer/value id for the allocation at ``node`` (recency abstraction)."""
        i = self.site(node, tag)
        st = self.st
        if i in st.ids:
            old = i + ("old",)
            st.map_values(lambda v: rename_av(v, i, old))
            g = {}
            for k, v in st.ghost.items():
                g[k] = frozenset(old if x == i else x for x in v) if isinstance(v, frozenset) and i in v else v
            st.ghost = g
        st.ids.add(i)
        return i

    def mkarr(self, node, deps=E, tag="", buf=E, val=None, f=None):
        i = self.fresh(node, tag)
        return AV("arr", buf=buf | {i}, val=val if val is not None else frozenset([i]), deps=deps, f=f)

    def mknum(self, node, deps=E, const=NOC, tag="", f=None):
        return AV("num", const=const, val=frozenset([self.fresh(node, tag)]), deps=deps, f=f)

    def mkany(self, node, deps=E, tag=""):
        return AV("any", val=frozenset([self.fresh(node, tag)]), deps=deps)

    def join(self, *vs):
        return self.J.join_all(vs)

    def facet_map(self, meth, *a):
        f = {}
        for fac in self.facets:
            m = getattr(fac, meth, None)
            if m is None:
                continue
            r = m(*a)
            if r is not None:
                f[fac.name] = r
        return f

    # --------------------------------------------------------------- modules
    def load_module(self, name):
        """Interpret a module body once; its frame is loc ('M', name)."""
        if name in self.loaded:
            return ("M", name)
        if "." in name:
            parent = name.rsplit(".", 1)[0]
            if parent in self.repo.modules and parent not in self.loaded:
                self.load_module(parent)
                if name in self.loaded:
                    return ("M", name)
        self.loaded[name] = "loading"
        m = self.repo.modules[name]
        loc = ("M", name)
        self.st.mem.setdefault(loc, {})
        save = (self.cur_mod, self.ctx, self.stack, self.st.pc)
        self.cur_mod, self.ctx, self.stack = name, ("M", name), []
        self.st.pc = E
        frame = loc
        for s in m.tree.body:
            try:
                self.exec_stmt_in(s, frame, (), None)
            except Dead:
                pass
            if self.st is None:
                raise RuntimeError("module body died: %s" % name)
        self.cur_mod, self.ctx, self.stack, self.st.pc = save
        self.loaded[name] = "done"
        return loc

    def module_attr(self, mod, attr):
        self.load_module(mod)
        v = self.st.get(("M", mod), attr)
        if v is not None:
            return v
        sub = mod + "." + attr
        if sub in self.repo.modules:
            return AV("mod", fn=sub)
        return None

    # ----------------------------------------------------------- environment
    class Scope:
        __slots__ = ("frame", "closure", "locals", "cls", "globals", "nonlocals")

        def __init__(self, frame, closure, locs, cls):
            self.frame = frame
            self.closure = closure
            self.locals = locs
            self.cls = cls
            self.globals = set()
            self.nonlocals = set()

    def exec_stmt_in(self, s, frame, closure, cls):
        save = getattr(self, "sc", None)
        self.sc = Interp.Scope(frame, closure, None, cls)
        try:
            return self.exec_stmt(s)
        finally:
            self.sc = save

    def lookup(self, name, node):
        st = self.st
        sc = self.sc
        if name not in sc.globals:
            if name not in sc.nonlocals:
                v = st.get(sc.frame, name)
                if v is not None:
                    if v.kind == "undef":
                        self.emit("undef", node, name=name)
                        raise Dead()
                    if v.kind == "union" and any(p.kind == "undef" for p in v.parts):
                        self.emit("maybe_undef", node, name=name)
                    return strip_undef(v)
                if sc.locals is not None and name in sc.locals:
                    self.emit("undef", node, name=name)
                    self.do_raise("UnboundLocalError", node)
            for fr in reversed(sc.closure):
                v = st.get(fr, name)
                if v is not None:
                    v = strip_undef(v)
                    if v.kind == "undef":
                        self.emit("undef", node, name=name)
                        raise Dead()
                    return v
        v = st.get(("M", self.cur_mod), name)
        if v is not None:
            return strip_undef(v)
        if name in EXC_NAMES:
            return AV("exc", fn=name)
        if name in ("True", "False", "None"):
            return NONE
        if name in BUILTIN_NAMES:
            return AV("extf", fn="builtins." + name)
        self.emit("undef", node, name=name)
        return ANY

    def named(self, v):
        """A value that gets a name: facets may forget that it was a literal."""
        if v.const is not NOC and v.kind == "num":
            for fac in self.facets:
                if hasattr(fac, "named"):
                    f = dict(v.f)
                    f[fac.name] = fac.named(v)
                    v = v.with_(f=f)
        return v

    def assign_name(self, name, v, node=None):
        v = self.named(v)
        v = v if not self.st.pc else v.with_(deps=v.deps | self.st.pc)
        sc = self.sc
        if name in sc.globals:
            self.emit("global_write", node, name=name, value=v)
            self.st.put(("M", self.cur_mod), name, v)
            return
        if name in sc.nonlocals:
            for fr in reversed(sc.closure):
                if self.st.get(fr, name) is not None:
                    self.emit("nonlocal_write", node, frame=fr, name=name, value=v)
                    self.st.put(fr, name, v)
                    return
        self.st.put(sc.frame, name, v)

    # ------------------------------------------------------------ statements
    def exec_block(self, body):
        comp = Comp()
        for s in body:
            if self.st is None:
                break
            try:
                comp.absorb(self.exec_stmt(s))
            except Dead:
                self.st = None
        return comp

    def exec_stmt(self, s):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("step budget exhausted")
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.eval(c)
            return Comp()
        return m(s) or Comp()

    def x_Expr(self, s):
        self.eval(s.value)

    def x_Pass(self, s):
        pass

    def x_Import(self, s):
        for a in s.names:
            full = a.name
            if full.split(".")[0] == self.repo.package:
                if full in self.repo.modules:
                    self.load_module(full)
                tgt = full if a.asname else full.split(".")[0]
                self.assign_name(a.asname or full.split(".")[0], AV("mod", fn=tgt))
            else:
                self.assign_name(a.asname or full.split(".")[0],
                                 AV("mod", fn=full if a.asname else full.split(".")[0]))

    def resolve_from(self, s):
        base = s.module or ""
        if s.level:
            cur = self.cur_mod.split(".")
            if not self.repo.modules[self.cur_mod].is_pkg:
                cur = cur[:-1]
            cur = cur[: len(cur) - (s.level - 1)]
            base = ".".join(cur + ([base] if base else []))
        return base

    def x_ImportFrom(self, s):
        base = self.resolve_from(s)
        if base.split(".")[0] == self.repo.package and base in self.repo.modules:
            self.load_module(base)
            for a in s.names:
                if a.name == "*":
                    d = self.st.mem.get(("M", base), {})
                    allv = d.get("__all__")
                    names = None
                    if allv is not None:
                        xs = self.elements(allv)
                        if xs is not None and all(isinstance(x.const, str) for x in xs):
                            names = [x.const for x in xs]
                    if names is None:
                        names = [k for k in d if isinstance(k, str) and not k.startswith("_")]
                    for n in names:
                        if n in d:
                            self.assign_name(n, d[n])
                else:
                    v = self.module_attr(base, a.name)
                    if v is None:
                        v = AV("extf", fn=base + "." + a.name)
                    self.assign_name(a.asname or a.name, v)
        else:
            for a in s.names:
                full = base + "." + a.name
                if a.name in ("TYPE_CHECKING",):
                    v = boolean(False)
                elif full in self.repo.modules:
                    self.load_module(full)
                    v = AV("mod", fn=full)
                else:
                    v = AV("extf", fn=full)
                self.assign_name(a.asname or a.name, v)

    def x_FunctionDef(self, s):
        f = self.make_func(s)
        self.assign_name(s.name, f, s)

    x_AsyncFunctionDef = x_FunctionDef

    def make_func(self, s, name=None):
        a = s.args
        defaults = [self.eval(d) for d in a.defaults]
        kwd = [self.eval(d) if d is not None else None for d in a.kw_defaults]
        sc = self.sc
        closure = sc.closure + ((sc.frame,) if not (isinstance(sc.frame, tuple) and sc.frame[0] in ("M", "C")) else ())
        decos = []
        callables = []
        for d in getattr(s, "decorator_list", []):
            dn = ast.unparse(d)
            if dn in ("staticmethod", "classmethod", "property") or dn.endswith("abstractmethod"):
                decos.append({"staticmethod": "static", "classmethod": "class", "property": "property"}.get(dn, "abstract"))
            else:
                callables.append(d)
                if dn.split("(")[0].split(".")[-1] in ("lru_cache", "cache", "memoize", "cached"):
                    decos.append("cached")
        name = name or getattr(s, "name", "<lambda>")
        cls = sc.cls if isinstance(sc.frame, tuple) and sc.frame[0] == "C" else None
        qual = (cls.name + "." + name) if cls is not None else name
        fv = FuncVal(s, self.cur_mod, closure, cls, qual, defaults, kwd, tuple(decos))
        # mutable defaults live as long as the function
        v = AV("func", fn=fv)
        for d in reversed(callables):
            dv = self.eval(d)
            if dv.kind in ("func", "bound", "inst", "cls"):
                self.ctx = self.ctx + (("deco", s.lineno, d.lineno),)
                try:
                    v = self.call(dv, [v], {}, d)
                finally:
                    self.ctx = self.ctx[:-1]
                if v.kind == "func" and decos:
                    fv2 = v.fn
                    v = v.with_(fn=FuncVal(fv2.node, fv2.mod, fv2.closure, fv2.cls or cls, qual, fv2.defaults,
                                           fv2.kwdefaults, tuple(decos)))
                elif v.kind == "func":
                    fv2 = v.fn
                    v = v.with_(fn=FuncVal(fv2.node, fv2.mod, fv2.closure, fv2.cls or cls, fv2.name, fv2.defaults,
                                           fv2.kwdefaults, fv2.decos))
            # external decorators (functools.wraps, numba.jit, ...) keep the function
        return v

    def x_ClassDef(self, s):
        bases = []
        for b in s.bases:
            bv = self.eval(b)
            if bv.kind == "cls":
                bases.append(bv.fn)
            else:
                bases.append(bv.fn if isinstance(bv.fn, str) else ast.unparse(b))
        cv = ClassVal(s.name, self.cur_mod, s, bases)
        loc = ("C", self.cur_mod, s.name, s.lineno)
        self.st.mem[loc] = {}
        save = self.sc
        self.sc = Interp.Scope(loc, save.closure + ((save.frame,) if save.frame[0] == "F" else ()), None, cv)
        try:
            self.exec_block(s.body)
        finally:
            self.sc = save
        cv.attrs = {k: v for k, v in self.st.mem[loc].items()}
        self.repo.classes[(self.cur_mod, s.name)] = cv
        for k, v in list(cv.attrs.items()):
            if v.kind == "func" and v.fn.cls is None:
                fv = v.fn
                # decorated methods: remember the class for zero-argument super()
                cv.attrs[k] = v.with_(fn=FuncVal(fv.node, fv.mod, fv.closure, cv, fv.name, fv.defaults, fv.kwdefaults, fv.decos))
        self.assign_name(s.name, AV("cls", fn=cv), s)

    def x_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        if self.st.pc:
            v = v.with_(deps=v.deps | self.st.pc)
        if len(self.stack) == getattr(self, "entry_depth", 0):
            self.emit("entry_return", s, value=v, depth=self.loop_depth)
        c = Comp()
        c.ret.append((self.st, v))
        self.st = None
        return c

    def x_Break(self, s):
        c = Comp()
        c.brk.append(self.st)
        self.emit("break", s)
        self.st = None
        return c

    def x_Continue(self, s):
        c = Comp()
        c.cnt.append(self.st)
        self.st = None
        return c

    def x_Raise(self, s):
        name = "Exception"
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                fv = self.eval(e.func)
                for a in e.args:
                    self.eval(a)
            else:
                fv = self.eval(e)
            if fv.kind == "exc":
                name = fv.fn
            elif fv.kind == "cls":
                name = fv.fn.name
        self.do_raise(name, s)

    def do_raise(self, name, node, implicit=False):
        self.emit("raise", node, exc=name, implicit=implicit)
        self.raises.append((self.st, name, self.where(node), tuple(self.stack)))
        raise Dead()

    def x_Assert(self, s):
        t = self.truth(self.eval(s.test))
        if t is False:
            self.do_raise("AssertionError", s)

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.put(self.sc.frame, t.id, UNDEF)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                for a in alts(o):
                    if a.kind == "inst":
                        self.emit("attr_write", t, obj=a, attr=t.attr, value=UNDEF)
                        self.st.put(a.loc, t.attr, UNDEF)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                self.eval_index(t.slice)
                self.mutate(o, None, t, "del")

    def x_Global(self, s):
        self.sc.globals |= set(s.names)

    def x_Nonlocal(self, s):
        self.sc.nonlocals |= set(s.names)

    def x_Assign(self, s):
        v = self.eval(s.value)
        if v.kind == "bool" and v.const is NOC and isinstance(s.value, (ast.Compare, ast.Call, ast.UnaryOp)):
            v = self.remember_test(s.value, v)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, t)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            self.set_attr(o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            i = self.eval_index(t.slice)
            self.store_item(o, i, v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def unpack(self, t, v):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        xs = self.elements(v)
        if v.kind == "none":
            self.emit("none_use", t, op="unpack")
            raise Dead()
        if xs is not None and not star and len(xs) == n:
            for e, x in zip(t.elts, xs):
                self.assign(e, x)
            return
        if xs is not None and star and len(xs) >= n - 1:
            k = star[0]
            tail = n - 1 - k
            for e, x in zip(t.elts[:k], xs[:k]):
                self.assign(e, x)
            mid = xs[k: len(xs) - tail]
            self.assign(t.elts[k].value, self.new_list(t, mid))
            for e, x in zip(t.elts[k + 1:], xs[len(xs) - tail:]):
                self.assign(e, x)
            return
        el = self.elem_of(v, t)
        for k, e in enumerate(t.elts):
            self.assign(e, el)

    def set_attr(self, o, attr, v, node):
        if self.st.pc:
            v = v.with_(deps=v.deps | self.st.pc)
        a = alts(o)
        for x in a:
            if x.kind == "inst":
                self.emit("attr_write", node, obj=x, attr=attr, value=v)
                old = self.st.get(x.loc, attr)
                nv = v if len(a) == 1 or old is None else self.join(old, v)
                self.st.put(x.loc, attr, nv)
            elif x.kind == "ext":
                self.emit("ext_attr_write", node, obj=x, attr=attr, value=v)
            elif x.kind in ("arr", "any"):
                self.emit("ext_attr_write", node, obj=x, attr=attr, value=v)
                if attr in ("shape", "dtype", "flat", "real", "imag"):
                    self.mutate(x, v, node, "attr:" + attr)
            elif x.kind in ("cls", "mod", "func"):
                self.emit("global_write", node, name=attr, value=v)
                if x.kind == "cls":
                    x.fn.attrs.setdefault(attr, v)

    def store_item(self, o, i, v, node):
        for x in alts(o):
            if x.kind in ("list", "dict"):
                self.container_store(x, i, v, node, weak=len(alts(o)) > 1)
            elif x.kind == "none":
                if len(alts(o)) == 1:
                    self.emit("none_use", node, op="store")
                    self.do_raise("TypeError", node, True)
            elif x.kind in ("arr", "any", "num"):
                self.emit("item_store", node, target=x, index=i, value=v)
                self.mutate(x, v, node, "setitem", index=i)
            elif x.kind == "inst":
                m = self.attr(x, "__setitem__", node, quiet=True)
                if m is not None:
                    self.call(m, [i, v], {}, node)
            elif x.kind == "ext":
                self.emit("ext_attr_write", node, obj=x, attr="[]", value=v)

    def container_store(self, c, i, v, node, weak=False):
        if self.st.pc:
            v = v.with_(deps=v.deps | self.st.pc)
        self.emit("container_write", node, obj=c, value=v)
        d = dict(self.st.mem.get(c.loc, {}))
        if i is not None and i.const is not NOC and not isinstance(i.const, slice):
            k = i.const
            n = d.get("#n")
            if c.kind == "list" and isinstance(k, int) and n is not None and k < 0:
                k += n
            if c.kind == "list" and n is None:
                d["*"] = self.join(d["*"], v) if "*" in d else v
            else:
                d[k] = self.join(d[k], v) if weak and k in d else v
        else:
            for k in list(d):
                if k != "#n":
                    d[k] = self.join(d[k], v)
            if d.get("#n") is None or c.kind == "dict":
                d["*"] = self.join(d["*"], v) if "*" in d else v
        self.st.mem[c.loc] = d

    def initialised(self, vs):
        """Unknown code may fill the arrays it is given."""
        bufs = frozenset(b for v in vs for b in all_bufs(v) if any(
            isinstance(x, str) and x.startswith("uninit@") for x in v.deps))
        if bufs:
            self.st.map_values(lambda v: v.with_(deps=frozenset(
                x for x in v.deps if not (isinstance(x, str) and x.startswith("uninit@")))) if v.buf & bufs else v)

    def mutate(self, target, value, node, how, index=None):
        """In-place change of the memory behind ``target``."""
        bufs = all_bufs(target)
        body = frozenset(b for b in bufs if b[0] != "rep")
        st = self.st
        vd = (all_deps(value) if value is not None else E) | st.pc
        if index is not None:
            vd |= all_deps(index)
        self.emit("mutate", node, bufs=bufs, target=target, value=value, how=how, index=index)
        if not bufs:
            return
        nv = self.fresh(node, "mut")
        facets = self.facets
        # values that share the memory on some executions only
        clob = frozenset(["clobber|%s|%s:%d" % (self.stack[-1][0].name if self.stack else "", self.cur_mod,
                                                getattr(node, "lineno", 0))])

        def upd(v):
            if v.kind == "union" or v.parts:
                ps = tuple(upd(p) for p in v.parts)
                if any(p is not q for p, q in zip(ps, v.parts)):
                    v = v.with_(parts=ps)
            if v.buf & bufs:
                f = dict(v.f)
                for fac in facets:
                    m = getattr(fac, "store", None)
                    if m is not None:
                        r = m(v.f.get(fac.name), v, target, value, how, index)
                        if r is None:
                            f.pop(fac.name, None)
                        else:
                            f[fac.name] = r
                    else:
                        f.pop(fac.name, None)
                strong = v.val == target.val and how in ("fill", "aug", "copyto")
                same = (v.buf == bufs or frozenset(b for b in v.buf if b[0] != "rep") == body)
                if same and how != "aug" and how != "augitem" and not masked(index):
                    v = v.with_(deps=frozenset(x for x in v.deps if not (isinstance(x, str) and x.startswith("uninit@"))))
                nval = frozenset([nv]) if strong else v.val | {nv}
                v = v.with_(deps=(v.deps | vd if same else v.deps | vd | clob), val=nval, f=f,
                            const=NOC)
            return v

        st.map_values(upd)

    def x_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, t)
            r = self.eval(s.value)
            cur = self.lookup(t.id, t)
            self.assign_name(t.id, self.augop(s.op, cur, r, s), t)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.attr(o, t.attr, t)
            r = self.eval(s.value)
            self.set_attr(o, t.attr, self.augop(s.op, cur, r, s), t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            i = self.eval_index(t.slice)
            cur = self.getitem(o, i, t)
            r = self.eval(s.value)
            nv = self.augop(s.op, cur, r, s, item=o.kind in ("arr", "any"))
            if o.kind in ("arr", "any"):
                # the in-place operation writes through to the array
                self.emit("item_store", t, target=o, index=i, value=nv, aug=True)
                self.mutate(o, nv, t, "augitem", index=i)
            else:
                self.store_item(o, i, nv, t)

    def augop(self, op, cur, r, s, item=False):
        outs = []
        for c in alts(cur):
            if c.kind == "arr" or (c.kind == "any" and c.buf):
                res = self.binop(op, c, r, s)
                if item:
                    outs.append(res)
                    continue
                if res.kind == "ext":
                    outs.append(res)
                    continue
                self.emit("aug_store", s, target=c, value=res, op=type(op).__name__, rhs=r)
                self.mutate(c, res, s, "aug")
                outs.append(res.with_(kind=c.kind, buf=c.buf, deps=res.deps | c.deps))
            elif c.kind == "list":
                if isinstance(op, ast.Add):
                    el = self.elem_of(r, s)
                    self.container_append(c, el, s, r)
                outs.append(c)
            else:
                outs.append(self.binop(op, c, r, s))
        return self.join(*outs)

    def container_append(self, c, el, node, seq=None):
        d = dict(self.st.mem.get(c.loc, {}))
        n = d.get("#n")
        xs = self.elements(seq) if seq is not None else [el]
        self.emit("container_write", node, obj=c, value=el)
        if n is not None and xs is not None and n + len(xs) <= 24:
            for x in xs:
                d[n] = x if not self.st.pc else x.with_(deps=x.deps | self.st.pc)
                n += 1
            d["#n"] = n
        else:
            cur = [v for k, v in d.items() if k != "#n"] + ([el] if el is not None else [])
            d = {"#n": None}
            if cur:
                d["*"] = self.join(*cur)
        self.st.mem[c.loc] = d

    # ------------------------------------------------------------------ flow
    def branch(self, test, thenf, elsef):
        """Execute two alternatives under ``test`` (an AV)."""
        t = self.truth(test)
        if t is True:
            return thenf()
        if t is False:
            return elsef()
        base = self.st
        d = all_deps(test)
        comp = Comp()
        s1 = base.copy()
        s1.pc = base.pc | d
        self.st = s1
        c = thenf()
        comp.absorb(c or Comp())
        e1 = self.st
        s2 = base.copy()
        s2.pc = base.pc | d
        self.st = s2
        c = elsef()
        comp.absorb(c or Comp())
        e2 = self.st
        if e1 is not None and e2 is not None:
            extra = (e1.pc | e2.pc)
            inner = bool(comp.brk or comp.cnt or comp.ret)
            self.st = join_states(self.J, e1, e2)
            if not inner and (extra == base.pc | d):
                self.st.pc = base.pc
            else:
                self.st.pc = extra
        else:
            self.st = e1 if e1 is not None else e2
            if self.st is not None and not (comp.brk or comp.cnt or comp.ret):
                # the other side raised: the remaining path is the only normal one
                self.st.pc = base.pc | (self.st.pc - base.pc - d)
        return comp

    def x_If(self, s):
        test = self.eval(s.test)
        self.note_decided(s, test)

        def th():
            self.refine(s.test, True)
            return self.exec_block(s.body)

        def el():
            self.refine(s.test, False)
            return self.exec_block(s.orelse)

        return self.branch(test, th, el)

    def tested(self, test):
        """The variable a plain test is about."""
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test = test.operand
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Is, ast.IsNot)):
            return test.left
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id in ("isinstance", "callable") and test.args:
            return test.args[0]
        return None

    def remember_test(self, test, v):
        """A test kept in a variable still narrows what it tested."""
        tgt = self.tested(test)
        if not isinstance(tgt, (ast.Name, ast.Attribute)):
            return v
        cur = self.peek(tgt)
        if cur is None or cur.kind != "union":
            return v
        if v.fn is None:
            v = v.with_(fn=("test", self.sc.frame, test.lineno, test.col_offset))
        self.tests[v.fn] = (test, tgt, cur)
        return v

    def refine(self, test, sense):
        """Narrow a name/attribute by an ``is None``/``isinstance`` test."""
        if self.st is None:
            return
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not sense)
        if isinstance(test, ast.BoolOp):
            if (isinstance(test.op, ast.And) and sense) or (isinstance(test.op, ast.Or) and not sense):
                for v in test.values:
                    self.refine(v, sense)
            else:
                rest = [v for v in test.values if self.known(v) is not (not sense)]
                if len(rest) == 1:
                    self.refine(rest[0], sense)
            return
        if isinstance(test, ast.Name):
            cur = self.st.get(self.sc.frame, test.id)
            if cur is not None and cur.kind == "bool" and cur.const is NOC:
                self.st.put(self.sc.frame, test.id, cur.with_(const=sense))
                t = self.tests.get(cur.fn) if cur.fn is not None else None
                if t is not None:
                    now = self.peek(t[1])
                    if now is not None and now.key() == t[2].key():
                        self.refine(t[0], sense)
            return
        tgt = None
        keep = None
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Is, ast.IsNot)) \
                and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            want_none = isinstance(test.ops[0], ast.Is) == sense
            tgt = test.left
            keep = (lambda a: a.kind == "none") if want_none else (lambda a: a.kind != "none")
        elif isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id in ("isinstance", "callable"):
            tgt = test.args[0] if test.args else None
            if tgt is not None and isinstance(tgt, (ast.Name, ast.Attribute)):
                cur = self.peek(tgt)
                if cur is not None and cur.kind == "union":
                    save = self.st
                    fn = test.func.id
                    args = test.args

                    def keep(a):
                        self.st = save.copy()
                        rest = [self.eval(x) for x in args[1:]]
                        r = extmod.isinstance_(self, a, rest[0]) if fn == "isinstance" else extmod.callable_(a)
                        self.st = save
                        t = r if isinstance(r, bool) else None
                        return t is None or t == sense
                else:
                    keep = None
        if tgt is None or keep is None:
            return
        cur = self.peek(tgt)
        if cur is None or cur.kind != "union":
            return
        ps = tuple(p for p in cur.parts if keep(p))
        if not ps or len(ps) == len(cur.parts):
            return
        nv = ps[0] if len(ps) == 1 else AV("union", parts=ps)
        if isinstance(tgt, ast.Name):
            if self.st.get(self.sc.frame, tgt.id) is not None:
                self.st.put(self.sc.frame, tgt.id, nv)
        elif isinstance(tgt, ast.Attribute):
            o = self.peek(tgt.value)
            if o is not None and o.kind == "inst":
                self.st.put(o.loc, tgt.attr, nv)

    def known(self, e):
        """Truth of a side-effect free test, when it is certain."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.known(e.operand)
            return None if t is None else not t
        if isinstance(e, ast.BoolOp):
            ts = [self.known(v) for v in e.values]
            is_and = isinstance(e.op, ast.And)
            if (not is_and) in ts:
                return not is_and
            return is_and if all(t is is_and for t in ts) else None
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, (ast.Name, ast.Attribute)):
            v = self.peek(e)
            if v is not None and v.kind in ("bool", "none"):
                return self.truth1(v) if v.const is not NOC or v.kind == "none" else None
        return None

    def peek(self, node):
        if isinstance(node, ast.Name):
            v = self.st.get(self.sc.frame, node.id)
            if v is None:
                for fr in reversed(self.sc.closure):
                    v = self.st.get(fr, node.id)
                    if v is not None:
                        break
            return strip_undef(v) if v is not None else None
        if isinstance(node, ast.Attribute):
            o = self.peek(node.value)
            if o is not None and o.kind == "inst":
                v = self.st.get(o.loc, node.attr)
                return strip_undef(v) if v is not None else None
        return None

    def x_For(self, s):
        it = self.eval(s.iter)
        xs = self.elements(it)
        comp = Comp()
        base_pc = self.st.pc
        if xs is not None and len(xs) <= UNROLL and not getattr(self, "no_unroll", False):
            brk = []
            for k, x in enumerate(xs):
                if self.st is None:
                    break
                self.emit("loop_begin", s, unrolled=True, index=k, depth=self.loop_depth)
                ctx = self.ctx
                self.ctx = ctx + (("it", s.lineno, s.col_offset, k),)
                try:
                    self.assign(s.target, x)
                    c = self.exec_block(s.body)
                finally:
                    self.ctx = ctx
                brk += c.brk
                comp.ret += c.ret
                self.st = self.join_all_states([self.st] + c.cnt)
                if self.st is not None:
                    self.emit("loop_end", s, unrolled=True, index=k, depth=self.loop_depth)
            if self.st is not None and s.orelse:
                c = self.exec_block(s.orelse)
                comp.absorb(c)
            for b in brk:
                self.st_swap(b, lambda: self.emit("loop_break", s, depth=self.loop_depth, unrolled=True))
            self.st = self.join_all_states([self.st] + brk)
            if self.st is not None:
                self.st.pc = base_pc if not (brk or comp.ret) else self.st.pc
            return comp
        itd = all_deps(it)
        el = None

        def test_and_bind(first):
            nonlocal el
            e = self.elem_of(it, s.target)
            if self.bound and self.exact_index and self.loop_depth == 0 and it.kind == "range":
                a = it.fn[2:] if isinstance(it.fn, tuple) and it.fn[0] == "elem" else ()
                start = 0 if len(a) == 1 else a[0].const if len(a) == 2 else None
                if type(start) is int:
                    c = start + self.trip + self.trip_offset
                    e = num(c, deps=e.deps, f=dict(e.f, **self.facet_map("const", c)))
            self.assign(s.target, e)
            return True

        return self.loop(s, comp, test_and_bind, itd, is_for=True, iter_av=it)

    def x_While(self, s):
        comp = Comp()

        def test(first):
            v = self.eval(s.test)
            t = self.truth(v)
            return (t, v)

        return self.loop(s, comp, test, E, is_for=False)

    def st_swap(self, st, f):
        save = self.st
        self.st = st
        try:
            f()
        finally:
            self.st = save

    def join_all_states(self, sts, loop_exit=False):
        r = None
        for s in sts:
            if s is None:
                continue
            r = s if r is None else join_states(self.J, r, s, loop_exit)
        return r

    def loop(self, s, comp, head, itdeps, is_for, iter_av=None):
        depth = self.loop_depth
        base_pc = self.st.pc
        entry = self.st.copy()
        zero = self.st.copy() if is_for else None
        exits = []
        brk_final = []
        cur = entry
        loop_deps = itdeps
        ret_all = []
        ev0 = None
        mark = len(self.raises)
        brk_acc, ret_acc = [], []
        for k in range(MAXFIX):
            del self.raises[mark:]
            self.st = cur.copy()
            self.st.pc = base_pc | loop_deps
            exit_while = None
            peel = False
            self.emit("loop_head", s, loop=s, iteration=k, is_for=is_for, iter=iter_av, depth=depth)
            if is_for:
                self.trip = k
                head(k == 0)
                inlive = True
            else:
                t, tv = head(k == 0)
                if t is None:
                    d = all_deps(tv)
                    if k == 0 and self.assume_iter and any("iter" in x for x in d if isinstance(x, str)):
                        peel = True       # iteration budgets are assumed to be at least one
                    else:
                        exit_while = self.st.copy()
                    loop_deps = loop_deps | d
                    self.st.pc = self.st.pc | d
                    self.refine(s.test, True)
                elif t is False:
                    exit_while = self.st
                    self.st = None
                inlive = self.st is not None
            if inlive:
                self.emit("loop_begin", s, unrolled=False, iteration=k, is_for=is_for, iter=iter_av, depth=depth,
                          bound=itdeps | loop_deps)
                self.loop_depth = depth + 1
                try:
                    c = self.exec_block(s.body)
                finally:
                    self.loop_depth = depth
                ret_all = c.ret
                back = self.join_all_states([self.st] + c.cnt)
                brk_final = c.brk
                for b in c.brk:
                    loop_deps = loop_deps | (b.pc - base_pc)
                if back is not None:
                    loop_deps = loop_deps | (back.pc - base_pc)
                    self.st = back
                    self.emit("loop_end", s, loop=s, unrolled=False, iteration=k, is_for=is_for, iter=iter_av, depth=depth)
                    back = self.st
                for b in c.brk:
                    self.st_swap(b, lambda: self.emit("loop_break", s, depth=depth))
            else:
                back = None
                brk_final = []
                ret_all = []
            exits = []
            if is_for:
                if zero is not None and not (self.assume_iter and not getattr(self, "keep_zero", False)):
                    exits.append(zero)
                if back is not None:
                    exits.append(back)
                if not exits:
                    exits = [zero.copy()] if back is None and not brk_final and not ret_all else exits
            else:
                if exit_while is not None:
                    exits.append(exit_while)
            if self.bound and depth == 0:
                if k + 1 < self.bound and back is not None:     # exactly so many iterations
                    entry = cur = back
                    mark = len(self.raises)
                    brk_acc, ret_acc = brk_acc + brk_final, ret_acc + ret_all
                    brk_final, ret_all = [], []
                    continue
                if back is not None and not (is_for is False and t is True):
                    exits, brk_final, brk_acc = [back], [], []
                break
            if peel:
                if not getattr(self, "search_ends", False):
                    brk_acc += brk_final
                    ret_acc += ret_all
                brk_final, ret_all = [], []
                if back is None:
                    break
                entry = cur = back
                mark = len(self.raises)
                continue
            if back is None:
                break
            nxt = join_states(self.J, entry, back, loop_exit=True)
            for h in self.hooks:
                lh = getattr(h, "loop_head", None)
                if lh:
                    lh(self, nxt, s)
            if k > 0 and nxt.key() == cur.key() and not (not is_for and k == 0):
                break
            cur = nxt
        if getattr(self, "search_ends", False):
            if depth > 0 and brk_final:
                exits = []          # searches within an iteration end by their test
            elif exits:
                brk_final = []      # at a fixed point both ways out see the same
        ret_all = ret_acc + ret_all
        brk_final = brk_acc + brk_final
        comp.ret += ret_all
        normal = self.join_all_states(exits, loop_exit=True)
        if normal is not None:
            normal = normal.copy()
        self.st = normal
        if normal is not None and s.orelse:
            c = self.exec_block(s.orelse)
            comp.absorb(c)
        outs = [self.st] + brk_final
        esc = bool(ret_all)
        self.st = None
        r = None
        for o in outs:
            if o is not None:
                r = o if r is None else join_states(self.J, r, o, loop_exit=True)
        self.st = r
        if self.st is not None:
            self.st = self.st.copy()
            self.st.pc = base_pc | (loop_deps if esc else E)
        return comp

    def x_With(self, s):
        for it in s.items:
            v = self.eval(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ANY if v.kind == "ext" else v)
        return self.exec_block(s.body)

    def x_Try(self, s):
        comp = Comp()
        mark = len(self.raises)
        pre = self.st.copy()
        pend = [pre]
        # body, remembering intermediate states: any call may raise
        for b in s.body:
            if self.st is None:
                break
            try:
                comp.absorb(self.exec_stmt(b))
            except Dead:
                self.st = None
            if self.st is not None:
                pend.append(self.st.copy())
        body_raises = self.raises[mark:]
        del self.raises[mark:]
        normal = self.st
        if normal is not None and s.orelse:
            self.st = normal
            comp.absorb(self.exec_block(s.orelse))
            normal = self.st
        outs = [normal]
        caught = [False] * len(body_raises)
        module_level = self.sc.frame[0] == "M"
        for h in s.handlers:
            names = self.handler_names(h)
            starts = []
            for i, (st, nm, w, stk) in enumerate(body_raises):
                if caught[i]:
                    continue
                if names is None or any(exc_matches(nm, n) for n in names):
                    caught[i] = True
                    starts.append(st)
            if not module_level or normal is None:
                starts = [p.copy() for p in pend] + [x for x in starts if x is not None]
            elif not starts:
                continue
            base = self.join_all_states(starts)
            if base is None:
                continue
            self.st = base.copy()
            self.st.pc = pre.pc
            if h.name:
                self.assign_name(h.name, ANY, h)
            comp.absorb(self.exec_block(h.body))
            outs.append(self.st)
        for i, r in enumerate(body_raises):
            if not caught[i]:
                self.raises.append(r)
        self.st = self.join_all_states(outs)
        if s.finalbody:
            # run the finally block on normal and on exceptional exits
            fin = self.st
            for i in range(len(comp.ret)):
                st, v = comp.ret[i]
                self.st = st
                self.exec_block(s.finalbody)
                comp.ret[i] = (self.st if self.st is not None else st, v)
            newr = []
            for (st, nm, w, stk) in self.raises[mark:]:
                if st is not None:
                    self.st = st.copy()
                    self.exec_block(s.finalbody)
                    st = self.st if self.st is not None else st
                newr.append((st, nm, w, stk))
            self.raises[mark:] = newr
            self.st = fin
            if self.st is not None:
                comp.absorb(self.exec_block(s.finalbody))
        return comp

    x_TryStar = x_Try

    def handler_names(self, h):
        if h.type is None:
            return None
        ns = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [ast.unparse(n).split(".")[-1] for n in ns]

    def x_Match(self, s):
        v = self.eval(s.subject)
        comp = Comp()
        base = self.st
        outs = [base.copy()]
        for c in s.cases:
            self.st = base.copy()
            self.st.pc = base.pc | all_deps(v)
            for n in ast.walk(c.pattern):
                nm = getattr(n, "name", None)
                if isinstance(nm, str):
                    self.assign_name(nm, ANY, n)
            comp.absorb(self.exec_block(c.body))
            outs.append(self.st)
        self.st = self.join_all_states(outs)
        return comp

    # ----------------------------------------------------------- expressions
    def eval(self, n):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("step budget exhausted")
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return ANY
        return m(n)

    def e_Constant(self, n):
        v = n.value
        if v is None:
            return NONE
        if isinstance(v, bool):
            return boolean(v)
        if isinstance(v, (int, float, complex)):
            return num(v, f=self.facet_map("const", v))
        if isinstance(v, str):
            return string(v)
        return ANY

    def e_Name(self, n):
        return self.lookup(n.id, n)

    def e_JoinedStr(self, n):
        d = E
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                d |= all_deps(self.eval(v.value))
        return string(deps=d)

    def e_NamedExpr(self, n):
        v = self.eval(n.value)
        self.assign(n.target, v)
        return v

    def e_Tuple(self, n):
        return self.seq(n, "tuple")

    def e_List(self, n):
        return self.seq(n, "list")

    def e_Set(self, n):
        return self.seq(n, "list")

    def seq(self, n, kind):
        xs = []
        unknown = None
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value)
                ys = self.elements(v)
                if ys is None:
                    unknown = self.elem_of(v, e)
                    xs.append(unknown)
                else:
                    xs += ys
            else:
                xs.append(self.eval(e))
        if kind == "tuple":
            if unknown is not None:
                return AV("tuple", fn=("elem", self.join(*xs)))
            return AV("tuple", parts=tuple(xs))
        return self.new_list(n, xs if unknown is None else None, elem=self.join(*xs) if unknown is not None else None)

    def new_list(self, node, xs, elem=None, tag="list"):
        loc = ("L",) + self.fresh(node, tag)
        d = {}
        if xs is not None:
            for i, x in enumerate(xs):
                d[i] = x
            d["#n"] = len(xs)
        else:
            d["#n"] = None
            if elem is not None:
                d["*"] = elem
        self.st.mem[loc] = d
        return AV("list", loc=loc)

    def e_Dict(self, n):
        loc = ("D",) + self.fresh(n, "dict")
        d = {}
        for k, v in zip(n.keys, n.values):
            vv = self.eval(v)
            if k is None:
                for x in alts(vv):
                    if x.kind == "dict":
                        d.update({a: b for a, b in self.st.mem.get(x.loc, {}).items()})
                    else:
                        d["*"] = ANY
                continue
            kv = self.eval(k)
            if kv.const is not NOC:
                d[kv.const] = vv
            else:
                d["*"] = self.join(d["*"], vv) if "*" in d else vv
        self.st.mem[loc] = d
        return AV("dict", loc=loc)

    def comp_iter(self, gens, body, node):
        """Run comprehension generators; yields list of element AVs or (None, elem)."""
        results = []
        precise = True

        def rec(i):
            nonlocal precise
            if i == len(gens):
                results.append(body())
                # keep partial results alive in memory for recency renaming
                return
            g = gens[i]
            it = self.eval(g.iter)
            xs = self.elements(it)
            if xs is None or len(xs) > UNROLL:
                precise = False
                xs = [self.elem_of(it, g.target)]
            for k, x in enumerate(xs):
                ctx = self.ctx
                self.ctx = ctx + (("cit", node.lineno, node.col_offset, k),)
                self.assign(g.target, x)
                ok = True
                base_pc = self.st.pc
                for c in g.ifs:
                    tv = self.eval(c)
                    t = self.truth(tv)
                    if t is False:
                        ok = False
                        break
                    if t is None:
                        precise = False
                        self.st.pc = self.st.pc | all_deps(tv)
                if ok:
                    rec(i + 1)
                self.ctx = ctx
                if self.st is None:
                    raise Dead()
                self.st.pc = base_pc

        fr = ("F", "comp") + self.site(node, "comp")
        save = self.sc
        self.st.mem[fr] = {}
        self.sc = Interp.Scope(fr, save.closure + ((save.frame,) if save.frame[0] in ("F", "C") else ()), None, save.cls)
        try:
            rec(0)
        finally:
            self.sc = save
        return results, precise

    def e_ListComp(self, n):
        rs, precise = self.comp_iter(n.generators, lambda: self.eval(n.elt), n)
        if precise:
            return self.new_list(n, rs)
        return self.new_list(n, None, elem=self.join(*rs) if rs else None)

    e_SetComp = e_ListComp

    def e_GeneratorExp(self, n):
        return self.e_ListComp(n)

    def e_DictComp(self, n):
        kv, precise = self.comp_iter(n.generators, lambda: (self.eval(n.key), self.eval(n.value)), n)
        loc = ("D",) + self.fresh(n, "dict")
        d = {}
        for k, v in kv:
            if k.const is not NOC:
                d[k.const] = v
            else:
                d["*"] = self.join(d["*"], v) if "*" in d else v
        self.st.mem[loc] = d
        return AV("dict", loc=loc)

    def e_Lambda(self, n):
        return self.make_func(n, "<lambda>")

    def e_Starred(self, n):
        return self.eval(n.value)

    def e_Yield(self, n):
        if n.value is not None:
            self.eval(n.value)
        return ANY

    def e_Await(self, n):
        return self.eval(n.value)

    def e_Slice(self, n):
        parts = [self.eval(x) if x is not None else NONE for x in (n.lower, n.upper, n.step)]
        return AV("slice", parts=tuple(parts))

    def eval_index(self, n):
        return self.eval(n)

    def e_Subscript(self, n):
        o = self.eval(n.value)
        i = self.eval_index(n.slice)
        return self.getitem(o, i, n)

    def getitem(self, o, i, node):
        outs = []
        al = alts(o)
        for x in al:
            r = self.getitem1(x, i, node, len(al) == 1)
            if r is not None:
                outs.append(r)
        if not outs:
            raise Dead()
        return self.join(*outs)

    def getitem1(self, o, i, node, sole):
        k = o.kind
        if k == "none":
            if sole:
                self.emit("none_use", node, op="index")
                self.do_raise("TypeError", node, True)
            return None
        if k in ("tuple", "list"):
            xs = self.elements(o)
            if xs is not None and i.const is not NOC and isinstance(i.const, int):
                c = int(i.const)
                if -len(xs) <= c < len(xs):
                    return self.dep(xs[c], i)
                self.emit("index_error", node, index=c, length=len(xs))
                self.do_raise("IndexError", node, True)
            if xs is not None and i.kind == "slice":
                b = [p.const if p.kind != "none" else None for p in i.parts]
                if all(c is None or isinstance(c, int) for c in b):
                    ys = xs[slice(*b)]
                    return AV("tuple", parts=tuple(ys)) if k == "tuple" else self.new_list(node, ys)
            if i.kind == "slice":
                el = self.elem_of(o, node)
                return AV("tuple", fn=("elem", el)) if k == "tuple" else self.new_list(node, None, elem=el)
            if xs is not None and not xs:
                return ANY
            return self.dep(self.elem_of(o, node), i)
        if k == "dict":
            d = self.st.mem.get(o.loc, {})
            if i.const is not NOC and i.const in d:
                return d[i.const]
            if "*" in d:
                return self.dep(d["*"], i)
            if i.const is not NOC and "#open" not in d:
                self.emit("key_error", node, key=i.const)
                self.do_raise("KeyError", node, True)
            return ANY
        if k in ("arr", "any"):
            return extmod.arr_index(self, o, i, node)
        if k == "ext":
            return AV("ext", fn=("item", o.fn), deps=o.deps | all_deps(i)) if not isinstance(o.fn, str) or True else ANY
        if k == "str":
            return string(deps=o.deps)
        if k == "num" and sole:
            self.emit("num_index", node, obj=o)
        if k == "inst":
            m = self.attr(o, "__getitem__", node, quiet=True)
            if m is not None:
                return self.call(m, [i], {}, node)
        return ANY.with_(deps=o.deps | all_deps(i))

    def dep(self, v, *others):
        d = E
        for o in others:
            d |= all_deps(o)
        return v if d <= v.deps else v.with_(deps=v.deps | d)

    def e_Attribute(self, n):
        o = self.eval(n.value)
        return self.attr(o, n.attr, n)

    def attr(self, o, name, node, quiet=False):
        outs = []
        al = alts(o)
        for x in al:
            r = self.attr1(x, name, node, len(al) == 1, quiet)
            if r is not None:
                outs.append(r)
        if not outs:
            if quiet:
                return None
            raise Dead()
        return self.join(*outs)

    def attr1(self, o, name, node, sole, quiet):
        k = o.kind
        if k == "inst":
            v = self.st.get(o.loc, name)
            if v is not None:
                if v.kind == "undef":
                    if sole and not quiet:
                        self.emit("attr_missing", node, obj=o, attr=name)
                        self.do_raise("AttributeError", node, True)
                    return None
                self.emit("attr_read", node, obj=o, attr=name)
                return strip_undef(v)
            cv = o.fn
            a, c = cv.lookup(name)
            if a is not None:
                return self.bind(a, o, node)
            if name == "__class__":
                return AV("cls", fn=cv)
            if name in ("__dict__",):
                return ANY
            if cv.ext_bases() and not all(b in ("abc.ABC", "builtins.object") for b in cv.ext_bases()):
                return ANY
            if quiet:
                return None
            if sole:
                self.emit("attr_missing", node, obj=o, attr=name)
                self.do_raise("AttributeError", node, True)
            return None
        if k == "none":
            if quiet:
                return None
            if sole:
                self.emit("none_use", node, op="attr." + name)
                self.do_raise("AttributeError", node, True)
            return None
        if k == "mod":
            if o.fn.split(".")[0] == self.repo.package:
                v = self.module_attr(o.fn, name)
                if v is not None:
                    return v
                if name.startswith("__"):
                    return ANY
                self.emit("attr_missing", node, obj=o, attr=name)
                return ANY
            return extmod.mod_attr(self, o.fn, name)
        if k == "cls":
            a, c = o.fn.lookup(name)
            if a is not None:
                return a
            return string() if name in ("__name__", "__doc__") else ANY
        if k == "super":
            inst, cls = o.fn
            a, c = inst.fn.lookup(name, after=cls)
            if a is not None:
                return self.bind(a, inst, node)
            return AV("extf", fn="super." + name)
        if k == "extf":
            return extmod.mod_attr(self, o.fn, name)
        if k == "ext":
            return extmod.ext_attr(self, o, name, node)
        if k in PYTYPE and not hasattr(PYTYPE[k], name):
            if quiet:
                return None
            if sole:
                self.emit("attr_missing", node, obj=o, attr=name)
                self.do_raise("AttributeError", node, True)
        if k in ("arr", "any", "num", "bool", "str", "tuple", "list", "dict", "slice"):
            return extmod.value_attr(self, o, name, node)
        return ANY.with_(deps=o.deps)

    def bind(self, a, o, node):
        if a.kind == "func":
            if "static" in a.fn.decos:
                return a
            if "class" in a.fn.decos:
                return AV("bound", fn=(a, AV("cls", fn=o.fn)))
            if "property" in a.fn.decos:
                return self.call(AV("bound", fn=(a, o)), [], {}, node)
            return AV("bound", fn=(a, o))
        if a.kind == "property":
            return self.call(AV("bound", fn=(a.fn[0], o)), [], {}, node)
        self.emit("class_attr_read", node, obj=o)
        return a

    # ----------------------------------------------------------- truthiness
    def truth(self, v):
        """True / False / None (unknown); consults the oracle for stable predicates."""
        rs = {self.truth1(a) for a in alts(v)}
        if len(rs) == 1:
            return rs.pop()
        return None

    def truth1(self, v):
        if v.const is not NOC:
            try:
                return bool(v.const)
            except Exception:
                return None
        if v.kind == "none":
            return False
        if isinstance(v.fn, tuple) and v.fn and v.fn[0] == "sid" and self.stable:
            return self.decide(v.fn[1])
        if isinstance(v.fn, tuple) and v.fn and v.fn[0] == "notsid" and self.stable:
            return not self.decide(v.fn[1])
        if v.kind in ("inst", "func", "bound", "ext", "cls", "extf", "extmeth", "mod"):
            return True
        if v.kind in ("tuple", "list"):
            xs = self.elements(v)
            if xs is not None:
                return bool(xs)
        if v.kind == "dict":
            d = self.st.mem.get(v.loc, {})
            if "*" not in d:
                return bool(d)
        return None

    def decide(self, sid):
        if sid not in self.oracle:
            self.oracle[sid] = True
        if sid not in self.trail:
            self.trail.append(sid)
        return self.oracle[sid]

    def e_BoolOp(self, n):
        is_and = isinstance(n.op, ast.And)
        return self._boolop(n.values, is_and)

    def _boolop(self, values, is_and):
        v = self.eval(values[0])
        if len(values) == 1:
            return v
        t = self.truth(v)
        if t is not None:
            if t is (not is_and):
                return boolean(t) if v.kind in ("bool", "any", "union") else v
            return self._boolop(values[1:], is_and)
        base = self.st
        s1 = base.copy()
        s2 = base.copy()
        s2.pc = base.pc | all_deps(v)
        self.st = s2
        self.refine(values[0], is_and)
        try:
            r = self._boolop(values[1:], is_and)
        except Dead:
            self.st = s1
            return v
        s2 = self.st
        s2.pc = base.pc
        self.st = join_states(self.J, s1, s2)
        tr = self.truth1(r) if r.kind != "union" else None
        if tr is (not is_and) and r.kind == "bool":
            return boolean(tr)
        return boolean(deps=all_deps(v) | all_deps(r))

    def note_decided(self, n, tv):
        t = self.truth(tv)
        if t is not None:
            self.emit("decided", n, meth=str(t))
        return t

    def e_IfExp(self, n):
        tv = self.eval(n.test)
        t = self.note_decided(n, tv)
        if t is True:
            self.refine(n.test, True)
            return self.eval(n.body)
        if t is False:
            return self.eval(n.orelse)
        base = self.st
        d = all_deps(tv)
        outs = []
        sts = []
        for sense, e in ((True, n.body), (False, n.orelse)):
            self.st = base.copy()
            self.st.pc = base.pc | d
            self.refine(n.test, sense)
            try:
                outs.append(self.eval(e))
                sts.append(self.st)
            except Dead:
                pass
        if not outs:
            raise Dead()
        self.st = self.join_all_states(sts)
        self.st.pc = base.pc
        r = self.join(*outs)
        return r.with_(deps=r.deps | d)

    def e_Compare(self, n):
        left = self.eval(n.left)
        res = None
        for op, c in zip(n.ops, n.comparators):
            right = self.eval(c)
            r = self.compare(op, left, right, n)
            res = r if res is None else self._and(res, r)
            left = right
        return res

    def _and(self, a, b):
        ta, tb = self.truth(a), self.truth(b)
        if ta is False or tb is False:
            return boolean(False)
        if ta is True:
            return b
        if tb is True:
            return a
        return boolean(deps=all_deps(a) | all_deps(b))

    def compare(self, op, a, b, node):
        if a.kind == "union" or b.kind == "union":
            outs = []
            for x in alts(a):
                for y in alts(b):
                    try:
                        outs.append(self.compare1(op, x, y, node, sole=False))
                    except Dead:
                        pass
            if not outs:
                raise Dead()
            return self.join(*outs)
        return self.compare1(op, a, b, node, sole=True)

    def compare1(self, op, a, b, node, sole):
        deps = all_deps(a) | all_deps(b)
        t = type(op)
        if t in (ast.Is, ast.IsNot):
            r = None
            if b.kind == "none" or a.kind == "none":
                o = a if b.kind == "none" else b
                if o.kind == "none":
                    r = True
                elif o.kind != "any":
                    r = False
            elif a.kind in ("cls", "extf") and b.kind in ("cls", "extf"):
                r = a.fn == b.fn
            elif a.kind == "bool" and b.kind == "bool" and a.const is not NOC and b.const is not NOC:
                r = a.const == b.const
            elif a.kind != b.kind and "any" not in (a.kind, b.kind):
                r = False
            if r is None:
                return boolean(deps=deps)
            return boolean(r if t is ast.Is else not r)
        if t in (ast.In, ast.NotIn):
            r = None
            xs = self.elements(b)
            if b.kind == "dict":
                d = self.st.mem.get(b.loc, {})
                if a.const is not NOC:
                    if a.const in d:
                        r = True
                    elif "*" not in d and "#open" not in d:
                        r = False
            elif xs is not None and (a.const is not NOC or a.kind == "none") and all(x.const is not NOC for x in xs):
                r = any(type(x.const) == type(a.const) and x.const == a.const for x in xs)
            elif b.kind == "str" and b.const is not NOC and a.kind == "str" and a.const is not NOC:
                r = a.const in b.const
            if r is None:
                return boolean(deps=deps)
            return boolean(r if t is ast.In else not r)
        # ordering / equality
        if t in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
            if a.kind == "none" or b.kind == "none":
                if sole:
                    self.emit("none_use", node, op="compare")
                    self.do_raise("TypeError", node, True)
                raise Dead()
        if a.const is not NOC and b.const is not NOC and a.kind in ("num", "bool", "str", "none") \
                and b.kind in ("num", "bool", "str", "none"):
            try:
                r = {ast.Eq: lambda x, y: x == y, ast.NotEq: lambda x, y: x != y, ast.Lt: lambda x, y: x < y,
                     ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}[t](a.const, b.const)
                return boolean(bool(r))
            except Exception:
                return boolean(deps=deps)
        for x, y, gt in ((a, b, (ast.Gt, ast.GtE)), (b, a, (ast.Lt, ast.LtE))):
            # quantities and tolerances are finite
            if x.const == float("inf") and y.kind == "num" and y.const is NOC and t in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                return boolean(t in gt)
        if t in (ast.Eq, ast.NotEq) and ((a.kind == "none") != (b.kind == "none")) and "any" not in (a.kind, b.kind) \
                and "arr" not in (a.kind, b.kind):
            return boolean(t is ast.NotEq)
        if t in (ast.Eq, ast.NotEq) and ((a.kind == "str") != (b.kind == "str")) and {a.kind, b.kind} <= {"str", "num", "bool", "inst", "ext"}:
            return boolean(t is ast.NotEq)
        for fac in self.facets:
            m = getattr(fac, "compare", None)
            if m is not None:
                r = m(t, a, b)
                if r is not None:
                    return r if isinstance(r, AV) else boolean(r)
        self.emit("compare", node, op=t.__name__, left=a, right=b)
        if a.kind == "ext" or b.kind == "ext":
            return boolean(deps=deps)
        if a.kind in ("arr",) or b.kind in ("arr",):
            f = self.facet_map("cmp_result", t, a, b)
            return self.mkarr(node, deps=deps, tag="cmp", f=f)
        return boolean(deps=deps, val=frozenset([self.fresh(node, "cmp")]))

    def e_UnaryOp(self, n):
        v = self.eval(n.operand)
        outs = [self.unary(n.op, a, n) for a in alts(v)]
        return self.join(*outs)

    def unary(self, op, a, n):
        if isinstance(op, ast.Not):
            t = self.truth1(a)
            if t is not None:
                return boolean(not t, deps=a.deps)
            fn = None
            return boolean(deps=all_deps(a), val=a.val)
        if a.kind == "none":
            self.emit("none_use", n, op="unary")
            self.do_raise("TypeError", n, True)
        if a.const is not NOC and a.kind in ("num", "bool"):
            try:
                c = {ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(op)](a.const)
                return num(c, deps=a.deps, f=self.facet_map("const", c))
            except Exception:
                pass
        if a.kind in ("inst",):
            m = self.attr(a, {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[type(op).__name__], n, quiet=True)
            if m is not None:
                return self.call(m, [], {}, n)
            return ANY
        f = self.facet_map("unary", type(op).__name__, a)
        if a.kind == "arr":
            return self.mkarr(n, deps=a.deps, f=f)
        if a.kind == "ext":
            return a.with_(fn=("neg", a.fn))
        r = AV("num" if a.kind in ("num", "bool") else a.kind, val=frozenset([self.fresh(n)]), deps=a.deps, f=f)
        return r

    def e_BinOp(self, n):
        a = self.eval(n.left)
        b = self.eval(n.right)
        return self.binop(n.op, a, b, n)

    def binop(self, op, a, b, n):
        if a.kind == "union" or b.kind == "union":
            outs = []
            for x in alts(a):
                for y in alts(b):
                    try:
                        outs.append(self.binop1(op, x, y, n, False))
                    except Dead:
                        pass
            if not outs:
                raise Dead()
            return self.join(*outs)
        return self.binop1(op, a, b, n, True)

    DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "MatMult": "matmul", "Div": "truediv", "Pow": "pow",
              "FloorDiv": "floordiv", "Mod": "mod", "BitAnd": "and", "BitOr": "or", "BitXor": "xor"}

    def binop1(self, op, a, b, n, sole):
        t = type(op).__name__
        deps = all_deps(a) | all_deps(b)
        for x in (a, b):
            if x.kind == "none" and not (t == "Mod" and a.kind == "str"):
                if sole:
                    self.emit("none_use", n, op=t)
                    self.do_raise("TypeError", n, True)
                raise Dead()
        if a.kind == "inst" or b.kind == "inst":
            if a.kind == "inst":
                m = self.attr(a, "__%s__" % self.DUNDER.get(t, "x"), n, quiet=True)
                if m is not None and m is not ANY:
                    return self.call(m, [b], {}, n)
            if b.kind == "inst":
                m = self.attr(b, "__r%s__" % self.DUNDER.get(t, "x"), n, quiet=True)
                if m is not None and m is not ANY:
                    return self.call(m, [a], {}, n)
            return ANY.with_(deps=deps)
        if a.kind == "str" or b.kind == "str":
            if t == "Mod" and a.kind == "str":
                self.emit("format", n, value=b)
            if a.const is not NOC and b.const is not NOC and t == "Add":
                try:
                    return string(a.const + b.const)
                except Exception:
                    pass
            return string(deps=deps)
        if a.const is not NOC and b.const is not NOC and a.kind in ("num", "bool") and b.kind in ("num", "bool"):
            try:
                import operator as o
                c = {"Add": o.add, "Sub": o.sub, "Mult": o.mul, "Div": o.truediv, "Pow": o.pow, "FloorDiv": o.floordiv,
                     "Mod": o.mod, "BitAnd": o.and_, "BitOr": o.or_, "BitXor": o.xor, "LShift": o.lshift}[t](a.const, b.const)
                if isinstance(c, bool):
                    return boolean(c, deps=deps)
                if isinstance(c, (int, float, complex)) and abs(c) < 1e300:
                    f = self.facet_map("const", c)
                    for k, v in self.facet_map("binop", t, a, b, n).items():
                        if a.f.get(k) is not None and b.f.get(k) is not None:
                            f[k] = v
                    return num(c, deps=deps, f=f)
            except Exception:
                pass
        if a.kind in ("tuple", "list") or b.kind in ("tuple", "list"):
            r = self.seq_binop(t, a, b, n)
            if r is not None:
                return r
        if a.kind == "ext" or b.kind == "ext":
            return extmod.ext_binop(self, t, a, b, n)
        if isinstance(a.fn, tuple) and a.fn and a.fn[0] == "eyeop" or isinstance(b.fn, tuple) and b.fn and b.fn[0] == "eyeop":
            pass
        f = self.facet_map("binop", t, a, b, n)
        self.emit("binop", n, op=t, left=a, right=b, f=f)
        if a.kind == "arr" or b.kind == "arr":
            return self.mkarr(n, deps=deps, f=f)
        if a.kind in ("num", "bool") and b.kind in ("num", "bool"):
            if a.kind == b.kind == "bool" and t in ("BitAnd", "BitOr", "BitXor"):
                ta, tb = self.truth1(a), self.truth1(b)
                if t == "BitAnd" and (ta is False or tb is False):
                    return boolean(False)
                return boolean(deps=deps)
            return self.mknum(n, deps=deps, f=f)
        r = self.mkany(n, deps=deps)
        return r.with_(f=f, buf=frozenset([next(iter(r.val))]) if (a.buf or b.buf) else E)

    def seq_binop(self, t, a, b, n):
        if t == "Add" and a.kind == b.kind:
            xa, xb = self.elements(a), self.elements(b)
            if xa is not None and xb is not None:
                if a.kind == "tuple":
                    return AV("tuple", parts=tuple(xa) + tuple(xb))
                return self.new_list(n, xa + xb)
            el = self.join(self.elem_of(a, n), self.elem_of(b, n))
            return AV("tuple", fn=("elem", el)) if a.kind == "tuple" else self.new_list(n, None, elem=el)
        if t == "Mult":
            s, k = (a, b) if a.kind in ("tuple", "list") else (b, a)
            xs = self.elements(s)
            if k.kind in ("num", "bool", "any"):
                if not (k.const is not NOC and isinstance(k.const, int) and k.const <= 1):
                    # the repeated elements are one and the same array
                    rep = frozenset([("rep", self.cur_mod, getattr(n, "lineno", 0), getattr(n, "col_offset", 0))])
                    rp = lambda v: v.with_(buf=v.buf | rep) if v.kind == "arr" else v
                    if xs is not None:
                        xs = [rp(v) for v in xs]
                if xs is not None and k.const is not NOC and isinstance(k.const, int) and len(xs) * k.const <= 24:
                    ys = list(xs) * k.const
                    return AV("tuple", parts=tuple(ys)) if s.kind == "tuple" else self.new_list(n, ys)
                el = self.J.join_all(xs) if xs else self.elem_of(s, n)
                el = el.with_(deps=el.deps | all_deps(k))
                return AV("tuple", fn=("elem", el)) if s.kind == "tuple" else self.new_list(n, None, elem=el)
        if t == "Add" and {a.kind, b.kind} <= {"tuple", "list", "any"}:
            return AV(a.kind if a.kind != "any" else b.kind, fn=("elem", ANY)) if "tuple" in (a.kind, b.kind) else ANY
        return None

    # ------------------------------------------------------------ containers
    def elements(self, v):
        """List of element AVs when their number is known, else None."""
        if v.kind == "tuple" or v.kind == "range":
            return list(v.parts) if v.parts is not None else None
        if v.kind == "list":
            d = self.st.mem.get(v.loc)
            if d is None or d.get("#n") is None:
                return None
            return [strip_undef(d.get(i, ANY)) for i in range(d["#n"])]
        if v.kind == "dict":
            d = self.st.mem.get(v.loc, {})
            if "*" in d or "#open" in d:
                return None
            return [string(k) if isinstance(k, str) else num(k) for k in d]
        if v.kind == "str" and v.const is not NOC and len(v.const) <= 12:
            return [string(c) for c in v.const]
        return None

    def elem_of(self, v, node):
        outs = []
        for a in alts(v):
            xs = self.elements(a)
            if xs:
                outs.append(self.join(*xs))
            elif a.kind in ("tuple", "range") and isinstance(a.fn, tuple) and a.fn[0] == "elem":
                outs.append(a.fn[1])
            elif a.kind == "list":
                d = self.st.mem.get(a.loc, {})
                vs = [x for k, x in d.items() if k != "#n"]
                outs.append(self.join(*vs) if vs else ANY)
            elif a.kind == "dict":
                outs.append(string())
            elif a.kind in ("arr", "any"):
                outs.append(extmod.arr_iter(self, a, node))
            elif a.kind == "ext":
                outs.append(AV("ext", fn=("item", a.fn), deps=a.deps))
            else:
                outs.append(ANY.with_(deps=a.deps))
        r = self.join(*outs)
        d = all_deps(v)
        return r if d <= r.deps else r.with_(deps=r.deps | d)

    # ----------------------------------------------------------------- calls
    def e_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            if self.stack:
                fv, _, selfav, _ = self.stack[-1]
                # zero-argument super: the first argument of the running method
                k = len(self.stack) - 1
                while k >= 0 and (self.stack[k][0].cls is None or self.stack[k][2] is None):
                    k -= 1
                if k >= 0 and self.stack[k][2].kind == "inst":
                    return AV("super", fn=(self.stack[k][2], self.stack[k][0].cls))
            return ANY
        f = self.eval(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                xs = self.elements(v)
                if xs is not None:
                    args += xs
                else:
                    args.append(AV("star", fn=("elem", self.elem_of(v, a)), deps=v.deps))
            else:
                args.append(self.eval(a))
        kwargs = {}
        for k in n.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                for x in alts(v):
                    if x.kind == "dict":
                        for kk, vv in self.st.mem.get(x.loc, {}).items():
                            if isinstance(kk, str) and kk not in ("#open", "*", "#n"):
                                kwargs[kk] = vv
                        if "*" in self.st.mem.get(x.loc, {}):
                            kwargs["**"] = self.st.mem[x.loc]["*"].with_(deps=self.st.mem[x.loc]["*"].deps | x.deps)
                    elif x.kind == "none":
                        if v.kind == "none":
                            self.emit("none_use", n, op="**")
                            self.do_raise("TypeError", n, True)
                    else:
                        kwargs["**"] = x
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs, n)

    def call(self, f, args, kwargs, node):
        if self.st is None:
            raise Dead()
        if f.kind == "union":
            base = self.st
            outs, sts = [], []
            for a in f.parts:
                if a.kind == "none":
                    continue
                self.st = base.copy()
                try:
                    outs.append(self.call(a, args, kwargs, node))
                    sts.append(self.st)
                except Dead:
                    pass
            if not outs:
                self.st = None
                raise Dead()
            self.st = self.join_all_states(sts)
            self.st.pc = base.pc
            return self.join(*outs)
        k = f.kind
        if k == "func":
            return self.call_func(f.fn, None, args, kwargs, node)
        if k == "bound":
            fv, selfav = f.fn
            if fv.kind == "func":
                return self.call_func(fv.fn, selfav, args, kwargs, node)
            return self.call(fv, [selfav] + args, kwargs, node)
        if k == "cls":
            return self.construct(f.fn, args, kwargs, node)
        if k == "extf":
            return extmod.call_ext(self, f.fn, args, kwargs, node)
        if k == "extmeth":
            return extmod.call_extmeth(self, f.fn[0], f.fn[1], args, kwargs, node)
        if k == "vmeth":
            return extmod.call_vmeth(self, f.fn[0], f.fn[1], args, kwargs, node)
        if k == "ext":
            return extmod.call_extobj(self, f, args, kwargs, node)
        if k == "inst":
            m = self.attr(f, "__call__", node, quiet=True)
            if m is not None:
                return self.call(m, args, kwargs, node)
            return ANY
        if k == "none":
            self.emit("none_use", node, op="call")
            self.do_raise("TypeError", node, True)
        if k == "exc":
            return AV("exc", fn=f.fn)
        if k in ("num", "bool", "str", "tuple", "list", "dict"):
            self.emit("not_callable", node, obj=f)
            self.do_raise("TypeError", node, True)
        d = frozenset(x for x in union_deps(f, *args, *kwargs.values())
                      if not (isinstance(x, str) and x.startswith("uninit@")))
        self.emit("unknown_call", node, fn=f)
        self.initialised(args + list(kwargs.values()))
        return self.mkany(node, deps=d)

    def construct(self, cv, args, kwargs, node):
        loc = ("O",) + self.fresh(node, "new") + (cv.name,)
        self.st.mem[loc] = {}
        inst = AV("inst", loc=loc, fn=cv)
        self.emit("construct", node, cls=cv, args=args, kwargs=kwargs)
        init, c = cv.lookup("__init__")
        if init is not None:
            self.call(self.bind(init, inst, node), args, kwargs, node)
        else:
            for i, a in enumerate(args):
                pass
        return inst

    def call_func(self, fv, selfav, args, kwargs, node):
        if "abstract" in fv.decos and selfav is not None:
            self.emit("abstract_call", node, obj=selfav, name=fv.name, args=args)
            d = union_deps(*args, *kwargs.values())
            return extmod.abstract_result(self, fv, selfav, args, node, d)
        depth = sum(1 for s in self.stack if s[0].node is fv.node)
        if depth >= 3 or len(self.stack) > MAXDEPTH:
            return self.mkany(node, deps=union_deps(*args, *kwargs.values()))
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fv.node)) and not isinstance(fv.node, ast.Lambda):
            return self.mkany(node, deps=union_deps(*args, *kwargs.values()))
        self.seen_funcs.add((fv.mod, fv.name))
        ctx = self.ctx
        if len(ctx) < 60:
            self.ctx = ctx + ((self.cur_mod, node.lineno, node.col_offset),)
        frame = ("F", self.cid(), fv.mod, fv.node.lineno, fv.node.col_offset)
        allargs = ([selfav] if selfav is not None else []) + list(args)
        self.emit("call", node, fn=fv, args=allargs, kwargs=kwargs)
        env = self.bind_args(fv, allargs, kwargs, node)
        self.st.mem[frame] = env
        save = (self.sc, self.cur_mod, self.st.pc)
        pc0 = self.st.pc
        if isinstance(fv.node, ast.Lambda):
            locs = set(env)
        else:
            locs = self.repo.locals_of(fv.node)
        self.sc = Interp.Scope(frame, fv.closure, locs, fv.cls)
        self.cur_mod = fv.mod
        self.stack.append((fv, node, selfav if selfav is not None else (allargs[0] if allargs else None), frame))
        try:
            if isinstance(fv.node, ast.Lambda):
                v = self.eval(fv.node.body)
                rets = [(self.st, v)]
            else:
                comp = self.exec_block(fv.node.body)
                rets = comp.ret
                if self.st is not None:
                    if len(self.stack) == getattr(self, "entry_depth", 0):
                        self.emit("entry_return", fv.node, value=NONE, implicit=True)
                    rets = rets + [(self.st, NONE)]
        finally:
            self.stack.pop()
            self.sc, self.cur_mod = save[0], save[1]
            self.ctx = ctx
        if not rets:
            self.st = None
            raise Dead()
        st = self.join_all_states([r[0] for r in rets])
        v = self.join(*[r[1] for r in rets])
        st = st.copy() if len(rets) == 1 else st
        st.pc = pc0
        captured = self.repo.has_inner(fv.node)
        if not captured:
            st.mem.pop(frame, None)
        self.st = st
        self.emit("called", node, fn=fv, result=v)
        return v

    def bind_args(self, fv, args, kwargs, node):
        a = fv.node.args
        env = {}
        pos = [p.arg for p in a.posonlyargs + a.args]
        kw = dict(kwargs)
        starstar = kw.pop("**", None)
        rest = list(args)
        star = None
        for i, x in enumerate(rest):
            if x.kind == "star":
                star = x
                rest = rest[:i]
                break
        for p in pos:
            if rest:
                env[p] = rest.pop(0)
            elif p in kw:
                env[p] = kw.pop(p)
        if rest and not a.vararg:
            self.emit("bad_call", node, fn=fv, why="too many positional arguments")
            self.do_raise("TypeError", node, True)
        if a.vararg:
            env[a.vararg.arg] = AV("tuple", parts=tuple(rest)) if star is None else AV("tuple", fn=star.fn)
        for p in a.kwonlyargs:
            if p.arg in kw:
                env[p.arg] = kw.pop(p.arg)
        nd = len(fv.defaults)
        for i, p in enumerate(pos):
            if p not in env:
                j = i - (len(pos) - nd)
                if star is not None:
                    env[p] = star.fn[1]
                elif starstar is not None and j < 0:
                    env[p] = starstar
                elif j >= 0:
                    env[p] = fv.defaults[j]
                    if starstar is not None:
                        env[p] = self.join(env[p], starstar)
                else:
                    self.emit("bad_call", node, fn=fv, why="missing argument " + p)
                    self.do_raise("TypeError", node, True)
        for p, d in zip(a.kwonlyargs, fv.kwdefaults):
            if p.arg not in env:
                if d is not None:
                    env[p.arg] = d
                elif starstar is not None:
                    env[p.arg] = starstar
                else:
                    self.emit("bad_call", node, fn=fv, why="missing argument " + p.arg)
                    self.do_raise("TypeError", node, True)
        if a.kwarg:
            loc = ("D",) + self.site(node, "kw") + (fv.node.lineno,)
            d = {k: v for k, v in kw.items()}
            if starstar is not None:
                d["*"] = starstar
                d["#open"] = NONE
            self.st.mem[loc] = d
            env[a.kwarg.arg] = AV("dict", loc=loc)
        elif kw:
            self.emit("bad_call", node, fn=fv, why="unexpected keyword argument " + sorted(kw)[0])
            self.do_raise("TypeError", node, True)
        env = {k: self.named(v) for k, v in env.items()}
        if self.st.pc:
            env = {k: v.with_(deps=v.deps | self.st.pc) for k, v in env.items()}
        return env
