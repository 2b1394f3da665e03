"""Abstract values of the interpreter.

An ``AV`` describes a Python value: its kind, a constant when it is known, the
memory buffers it may share (``buf``), the value versions it may be (``val``;
preserved by copies and reshapes), the labels it depends on (``deps``) and the
payloads of the active facets (``f``).  AVs are immutable.
"""
from __future__ import annotations


class _NoConst:
    def __repr__(self):
        return "?"


NOC = _NoConst()
E = frozenset()


class AV:
    __slots__ = ("kind", "const", "buf", "val", "deps", "parts", "loc", "fn", "f", "_key")

    def __init__(self, kind, const=NOC, buf=E, val=E, deps=E, parts=None, loc=None, fn=None, f=None):
        self.kind = kind
        self.const = const
        self.buf = buf
        self.val = val
        self.deps = deps
        self.parts = parts
        self.loc = loc
        self.fn = fn
        self.f = f or {}
        self._key = None

    def with_(self, **kw):
        d = dict(kind=self.kind, const=self.const, buf=self.buf, val=self.val, deps=self.deps,
                 parts=self.parts, loc=self.loc, fn=self.fn, f=self.f)
        d.update(kw)
        return AV(**d)

    def key(self):
        if self._key is None:
            c = self.const
            if c is not NOC:
                c = (type(c).__name__, repr(c))
            self._key = (self.kind, c, self.buf, self.val, self.deps,
                         tuple(p.key() for p in self.parts) if self.parts is not None else None,
                         self.loc, _fnkey(self.fn),
                         tuple(sorted((k, _fkey(v)) for k, v in self.f.items())))
        return self._key

    def __repr__(self):
        s = self.kind
        if self.const is not NOC:
            s += "=%r" % (self.const,)
        if self.parts is not None:
            s += "(%s)" % ",".join(map(repr, self.parts))
        if self.fn is not None:
            s += "<%s>" % (self.fn if isinstance(self.fn, str) else getattr(self.fn, "name", self.fn),)
        if self.buf:
            s += " buf=%s" % sorted(map(str, self.buf))
        if self.f:
            s += " f=%s" % (self.f,)
        return s


def _fkey(v):
    k = getattr(v, "key", None)
    if callable(k):
        return repr(k())
    if isinstance(v, frozenset):
        return repr(sorted(map(repr, v)))
    return repr(v)


def _fnkey(fn):
    if fn is None or isinstance(fn, str):
        return fn
    if isinstance(fn, AV):
        return ("av", fn.key())
    if isinstance(fn, tuple):
        return tuple(_fnkey(x) for x in fn)
    k = getattr(fn, "key", None)
    if callable(k):
        return k()
    return id(fn)


class FuncVal:
    """A function of the repository together with its closure."""

    __slots__ = ("node", "mod", "closure", "cls", "name", "defaults", "kwdefaults", "decos")

    def __init__(self, node, mod, closure, cls, name, defaults, kwdefaults, decos=()):
        self.node = node
        self.mod = mod
        self.closure = closure
        self.cls = cls
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.decos = decos

    def key(self):
        return ("fn", id(self.node), self.closure)


class ClassVal:
    def __init__(self, name, mod, node, bases):
        self.name = name
        self.mod = mod
        self.node = node
        self.bases = bases          # list of ClassVal or str (external dotted name)
        self.attrs = {}
        self.order = []

    def mro(self):
        out = [self]
        # linearisation good enough for single inheritance plus mixins
        rest = []
        for b in self.bases:
            if isinstance(b, ClassVal):
                rest.append(b.mro())
        for r in rest:
            for c in r:
                if c in out:
                    out.remove(c)
                out.append(c)
        return out

    def lookup(self, name, after=None):
        m = self.mro()
        if after is not None and after in m:
            m = m[m.index(after) + 1:]
        for c in m:
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def ext_bases(self):
        out = []
        for c in self.mro():
            out += [b for b in c.bases if not isinstance(b, ClassVal)]
        return out

    def is_abstract(self, name):
        v, _ = self.lookup(name)
        return v is not None and v.kind == "func" and "abstract" in v.fn.decos

    def key(self):
        return ("cls", self.mod, self.name)


NONE = AV("none", const=None)
UNDEF = AV("undef")
ANY = AV("any")


def num(const=NOC, deps=E, val=E, f=None):
    return AV("num", const=const, deps=deps, val=val, f=f)


def boolean(const=NOC, deps=E, val=E):
    return AV("bool", const=const, deps=deps, val=val)


def string(const=NOC, deps=E):
    return AV("str", const=const, deps=deps)


def union_deps(*avs):
    d = E
    for a in avs:
        if a is None:
            continue
        d = d | all_deps(a)
    return d


def all_deps(a):
    d = a.deps
    if a.parts:
        for p in a.parts:
            d = d | all_deps(p)
    return d


def all_bufs(a):
    b = a.buf
    if a.parts:
        for p in a.parts:
            b = b | all_bufs(p)
    return b
