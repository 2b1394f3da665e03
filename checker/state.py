"""Abstract machine state: memory (frames, objects, containers), control
dependencies (``pc``) and per-analysis ghost facts."""
from __future__ import annotations

from values import AV, E, NOC, UNDEF, ANY

MAX_ALTS = 6


def alts(a):
    return a.parts if a.kind == "union" else (a,)


def strip_undef(a):
    if a.kind != "union":
        return a
    ps = tuple(p for p in a.parts if p.kind != "undef")
    if len(ps) == len(a.parts):
        return a
    if not ps:
        return UNDEF
    return ps[0] if len(ps) == 1 else AV("union", parts=ps)


class Joiner:
    def __init__(self, facets):
        self.facets = facets

    def join(self, a, b):
        if a is b:
            return a
        if a.key() == b.key():
            return a
        out = []
        for x in alts(a) + alts(b):
            for i, y in enumerate(out):
                m = self._merge(y, x)
                if m is not None:
                    out[i] = m
                    break
            else:
                out.append(x)
        if len(out) == 1:
            return out[0]
        if len(out) > MAX_ALTS:
            buf = E
            val = E
            deps = E
            for x in out:
                buf |= x.buf
                val |= x.val
                deps |= x.deps
            return AV("any", buf=buf, val=val, deps=deps)
        out.sort(key=lambda v: repr(v.key()))
        return AV("union", parts=tuple(out))

    def join_all(self, vs):
        r = None
        for v in vs:
            r = v if r is None else self.join(r, v)
        return r

    def _merge(self, a, b):
        if a.kind != b.kind:
            return None
        k = a.kind
        if a.key() == b.key():
            return a
        if k in ("num", "bool", "str", "arr", "any", "none"):
            const = a.const
            if const is not NOC:
                if b.const is NOC or type(b.const) is not type(const) or repr(b.const) != repr(const):
                    const = NOC
            fn = a.fn if _same(a.fn, b.fn) else None
            return AV(k, const=const, buf=a.buf | b.buf, val=a.val | b.val, deps=a.deps | b.deps,
                      fn=fn, f=self.join_f(a, b))
        if k in ("tuple", "slice"):
            if a.parts is not None and b.parts is not None and len(a.parts) == len(b.parts):
                return AV(k, deps=a.deps | b.deps, val=a.val | b.val,
                          parts=tuple(self.join(x, y) for x, y in zip(a.parts, b.parts)))
            ea, eb = self.elem(a), self.elem(b)
            return AV(k, deps=a.deps | b.deps, val=a.val | b.val, fn=("elem", self.join(ea, eb)))
        if k in ("list", "dict", "set", "inst"):
            if a.loc == b.loc:
                return a.with_(deps=a.deps | b.deps, val=a.val | b.val)
            return None
        if _same(a.fn, b.fn) and a.loc == b.loc:
            return a.with_(deps=a.deps | b.deps, val=a.val | b.val, buf=a.buf | b.buf)
        return None

    def elem(self, t):
        if t.parts:
            return self.join_all(t.parts)
        if isinstance(t.fn, tuple) and t.fn[0] == "elem":
            return t.fn[1]
        return ANY

    def join_f(self, a, b):
        f = {}
        for fac in self.facets:
            pa, pb = a.f.get(fac.name), b.f.get(fac.name)
            if pa is None or pb is None:
                r = fac.join_none(pa, pb)
            elif pa == pb:
                r = pa
            else:
                r = fac.join(pa, pb)
            if r is not None:
                f[fac.name] = r
        return f


def _same(x, y):
    from values import _fnkey
    return x is y or _fnkey(x) == _fnkey(y)


class State:
    __slots__ = ("mem", "pc", "ghost", "ids")

    def __init__(self):
        self.mem = {}
        self.pc = E
        self.ghost = {}
        self.ids = set()

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.ghost = dict(self.ghost)
        s.ids = set(self.ids)
        return s

    def get(self, loc, key):
        d = self.mem.get(loc)
        if d is None:
            return None
        return d.get(key)

    def put(self, loc, key, v):
        d = self.mem.get(loc)
        d = dict(d) if d is not None else {}
        d[key] = v
        self.mem[loc] = d

    def key(self):
        out = []
        for loc, d in self.mem.items():
            if loc[0] in ("M", "C"):
                out.append((repr(loc), (id(d),)))
                continue
            out.append((repr(loc), tuple(sorted(((repr(k), v.key() if isinstance(v, AV) else v)
                                                 for k, v in d.items()), key=lambda t: t[0]))))
        out.sort(key=lambda t: t[0])
        return (tuple(out), self.pc, tuple(sorted((k, repr(sorted(map(repr, v))) if isinstance(v, frozenset) else repr(v))
                                                  for k, v in self.ghost.items())))

    def map_values(self, fn):
        """Apply ``fn`` to every AV in memory."""
        for loc, d in list(self.mem.items()):
            if loc[0] in ("M", "C"):
                continue
            nd = None
            for k, v in d.items():
                if not isinstance(v, AV):
                    continue
                w = fn(v)
                if w is not v:
                    if nd is None:
                        nd = dict(d)
                    nd[k] = w
            if nd is not None:
                self.mem[loc] = nd


def join_list(J, da, db):
    if da.get("#n") is not None and da.get("#n") == db.get("#n"):
        return {k: (v if k == "#n" else J.join(v, db[k])) for k, v in da.items()}
    vs = [v for d in (da, db) for k, v in d.items() if k != "#n"]
    r = {"#n": None}
    if vs:
        r["*"] = J.join_all(vs)
    return r


def join_states(J, a, b, loop_exit=False):
    """Least upper bound; with ``loop_exit`` names unbound in ``a`` (the
    zero-iteration path) but bound in ``b`` keep the binding of ``b``."""
    if a is None:
        return b
    if b is None:
        return a
    s = State()
    s.pc = a.pc | b.pc
    s.ids = a.ids | b.ids
    for k in set(a.ghost) | set(b.ghost):
        va, vb = a.ghost.get(k), b.ghost.get(k)
        if va is None:
            va = type(vb)()
        if vb is None:
            vb = type(va)()
        s.ghost[k] = (va | vb)
    mem = {}
    for loc in a.mem:
        da = a.mem[loc]
        db = b.mem.get(loc)
        if db is None or da is db:
            mem[loc] = da
            continue
        if "#n" in da or "#n" in db:
            mem[loc] = join_list(J, da, db)
            continue
        d = {}
        for k in da:
            if k in db:
                x, y = da[k], db[k]
                if loop_exit and x.kind == "undef":
                    d[k] = y
                else:
                    d[k] = x if x is y else J.join(x, y)
            else:
                d[k] = J.join(da[k], UNDEF)
        for k in db:
            if k not in da:
                d[k] = db[k] if loop_exit else J.join(db[k], UNDEF)
        mem[loc] = d
    for loc in b.mem:
        if loc not in mem:
            mem[loc] = b.mem[loc]
    s.mem = mem
    return s


def rename_av(v, old, new):
    ch = {}
    if old[1] in v.deps:
        ch["deps"] = (v.deps - {old[1]}) | {old[1] + "@earlier"}
    if old in v.buf:
        ch["buf"] = (v.buf - {old}) | {new}
    if old in v.val:
        ch["val"] = (v.val - {old}) | {new}
    if v.parts:
        ps = tuple(rename_av(p, old, new) for p in v.parts)
        if any(p is not q for p, q in zip(ps, v.parts)):
            ch["parts"] = ps
    if isinstance(v.fn, tuple):
        nf = tuple(rename_av(x, old, new) if isinstance(x, AV) else x for x in v.fn)
        if any(p is not q for p, q in zip(nf, v.fn)):
            ch["fn"] = nf
    return v.with_(**ch) if ch else v
