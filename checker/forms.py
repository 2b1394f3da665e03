"""Domain of linear forms over uninterpreted results.

An array is a sum of words of operators applied to atoms (the arrays the caller
gave, and the results of proximal operators, gradients and solves, which are
left uninterpreted); the coefficients are rational functions of the scalar
parameters.  Loop heads are summarised by one fresh atom per cell that the body
changes, so the body of a loop becomes a linear recurrence over these atoms."""
from __future__ import annotations

import hashlib
from fractions import Fraction

from rules_shift import (Rat, rat, sym, radd, rmul, rdiv, rpow, fadd as _fadd, fscale as _fscale, adj, fstr as _fstr, whole)
from values import NOC

ONE = "@1"


def fadd(a, b, s=1):
    return _fadd(a, b, s)


def fscale(f, c):
    if f is None or c is None:
        return None
    return _fscale(f, c) if not c.zero else {}


def apply(m, f):
    """Operator form on a vector form (or on another operator)."""
    if m is None or f is None:
        return None
    r = {}
    for w, c in m.items():
        for v, d in f.items():
            k = w + v
            x = rmul(c, d)
            x = radd(r.get(k, rat(0)), x) if x is not None else None
            if x is None:
                return None
            r[k] = x
    return {w: c for w, c in r.items() if not c.zero}


def fstr(f):
    if f is None:
        return "?"
    if not f:
        return "0"
    out = []
    for w, c in sorted(f.items(), key=lambda t: t[0]):
        s = " ".join(x[1:] if x[:1] == "@" else x for x in w)
        out.append(s if c == rat(1) else "(%s) %s" % (c, s))
    return " + ".join(out)


class V:
    """Abstract value: linear form | scalar | operator | callable | rows of a stack."""
    __slots__ = ("form", "val", "mat", "role", "nm", "rows", "quad")

    def __init__(self, form=None, val=None, mat=None, role=None, nm=None, rows=None, quad=None):
        self.form, self.val, self.mat, self.role, self.nm, self.rows, self.quad = form, val, mat, role, nm, rows, quad
        if form == {} and val is None and mat is None and role is None and rows is None:
            self.val = rat(0)

    def key(self):
        return (fstr(self.form) if self.form is not None else None, repr(self.val),
                fstr(self.mat) if self.mat is not None else None, self.role, self.nm,
                tuple(r.key() for r in self.rows) if self.rows is not None else None,
                self.quad.key() if self.quad is not None else None)

    def __eq__(self, o):
        return isinstance(o, V) and all(getattr(self, s) == getattr(o, s) for s in V.__slots__)

    def __hash__(self):
        return 0

    def __repr__(self):
        return "V%r" % (self.key(),)

    @property
    def scalar(self):
        return self.form == {} and self.val is not None and self.rows is None

    @property
    def zero(self):
        return self.scalar and self.val.zero

    @property
    def known(self):
        return self.rows is not None and all(r.known for r in self.rows) or self.form is not None or self.mat is not None


class Quad:
    """Scalar: sum of coefficients times <u, v>, opaque function values and constants."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = {k: c for k, c in t.items() if not c.zero}

    def key(self):
        return tuple(sorted((repr(k), repr(c)) for k, c in self.t.items()))

    def __eq__(self, o):
        return isinstance(o, Quad) and self.t == o.t

    def __hash__(self):
        return 0


def syms(r):
    return {s for p in (r.n, r.d) for m in p for s, _ in m}


def bounds(i):
    """(lower, upper) of a slice without step."""
    if i is None or i.kind != "slice" or len(i.parts or ()) < 2 or len(i.parts) > 2 and i.parts[2].kind != "none":
        return None
    return [None if p.kind == "none" else p for p in i.parts[:2]]


def slice_word(lo, hi):
    return "[%r:%r]" % (lo, hi)


def frz(f):
    return tuple(sorted(((w, c) for w, c in f.items()), key=lambda t: (t[0], repr(t[1]))))


def scal(c):
    return V({}, c)


def unk():
    return V()


ZERO = scal(rat(0))
SCALAR_FN = {"norm", "dot", "vdot", "inner", "sum", "max", "min", "amax", "amin", "mean", "std", "var", "prod", "eigs",
             "cond", "trace", "median", "any", "all", "allclose", "array_equal", "lx", "ly"}
KEEP = {"real", "conj", "conjugate", "copy", "asarray", "array", "ascontiguousarray", "float", "int", "ravel", "reshape",
        "squeeze", "atleast_1d", "float64", "float32", "asnumpy", "to_numpy", "complex128", "expand_dims", "flatten",
        "asfarray", "deepcopy", "positive", "astype", "complex64"}


class Forms:
    name = "lf"

    def __init__(self):
        self.reset()

    # ---- atoms
    def reset(self):
        self.table = {}
        self.atoms = {}
        self.counts = {}
        self.smooth = set()

    def intern(self, kind, key, **info):
        k = (kind, key)
        if k not in self.table:
            n = self.counts[kind] = self.counts.get(kind, 0) + 1
            a = "@%s%d" % (kind, n)
            self.table[k] = a
            info["kind"] = kind
            self.atoms[a] = info
        return self.table[k]

    def atom(self, kind, key, **info):
        return {(self.intern(kind, key, **info),): rat(1)}

    def opaque(self, kind, *key):
        return sym(self.intern("s:" + kind, key)[1:])

    # ---- lattice
    def join(self, a, b):
        if not isinstance(a, V) or not isinstance(b, V):
            return None
        if a == b:
            return a
        for x, y in ((a, b), (b, a)):
            if x.rows is not None and y.scalar and all(r == y for r in x.rows):
                return x        # a uniform setting and its copies
        rows = None
        if a.rows is not None and b.rows is not None and len(a.rows) == len(b.rows):
            rows = tuple(self.join(x, y) or unk() for x, y in zip(a.rows, b.rows))
        eq = lambda s: getattr(a, s) if getattr(a, s) == getattr(b, s) else None
        r = V(None, eq("val"), eq("mat"), eq("role"), eq("nm"), rows, eq("quad"))
        r.form = eq("form")
        return r

    def join_none(self, a, b):
        return None

    def of(self, v):
        if v is None:
            return unk()
        if v.kind in ("bool", "str", "none"):
            return v.f.get("lf") or unk()
        if v.kind == "union":
            ps = [self.of(p) for p in v.parts if p.kind not in ("none", "undef")]
            r = ps[0] if ps else unk()
            for p in ps[1:]:
                r = r if r == p else self.join(r, p)
            return r
        if v.kind in ("list", "tuple"):
            xs = self.an.D.I.elements(v)
            if xs is None:
                e = self.of(self.an.D.I.elem_of(v, None))
                return unk() if e is None else V(None, None) if e.rows is not None else unk()
            return V(rows=tuple(self.of(x) for x in xs)) if xs else unk()
        r = v.f.get("lf")
        if r is None and v.kind == "num" and v.const is not NOC and isinstance(v.const, (int, float)):
            return self.const(v.const)
        return r or unk()

    # ---- sources
    def arg(self, run, label, name, kind):
        return self.an.source(run, label, name, kind)

    def const(self, c):
        return unk() if isinstance(c, (bool, str)) else scal(rat(c)) if rat(c) is not None else unk()

    def shapenum(self, o):
        return scal(self.opaque("shape", repr(sorted(map(repr, o.val)))))

    def ndim(self, o):
        return scal(rat(2 if self.of(o).rows is not None else 1))

    def length(self, o):
        r = self.of(o).rows
        return scal(rat(len(r))) if r is not None else None

    def index_num(self):
        return scal(sym("#"))

    def extnum(self, o, name):
        return scal(self.opaque("attr", repr(o.fn), name))

    def extarr(self, o, name):
        t = self.of(o)
        if name == "A" and t.mat is not None:
            return V(None, None, t.mat)
        if name == "iava" and t.mat is not None:
            return V(None, None, adj(t.mat), role=("idx",))
        if t.role and t.role[0] == "bil" and name in ("x", "y"):
            return V({("@%s%s" % (t.role[1], name),): rat(1)})
        return None

    def adjoint(self, o, name):
        t = self.of(o)
        return V(None, None, adj(t.mat)) if t.mat is not None else None

    # ---- arithmetic
    def lift(self, f, *ts):
        n = [len(t.rows) for t in ts if t.rows is not None]
        if len(set(n)) != 1:
            return unk()
        return V(rows=tuple(f(*[t.rows[k] if t.rows is not None else t for t in ts]) for k in range(n[0])))

    def vec(self, t):
        """Form of a value used as an array."""
        if t.scalar:
            return {} if t.val.zero else {(ONE,): t.val}
        return t.form

    def add(self, a, b, s):
        if a.rows is not None or b.rows is not None:
            return self.lift(lambda x, y: self.add(x, y, s), a, b)
        if a.scalar and b.scalar:
            v = radd(a.val, b.val, s)
            q = qadd(quad(a), quad(b), s) if a.quad is not None or b.quad is not None else None
            return V({}, v, quad=q) if v is not None else unk()
        if a.mat is not None and b.mat is not None and a.form is None and b.form is None:
            return V(None, None, fadd(a.mat, b.mat, s))
        return V(fadd(self.vec(a), self.vec(b), s))

    def mul(self, a, b):
        if a.rows is not None or b.rows is not None:
            return self.lift(self.mul, a, b)
        if a.scalar and b.scalar:
            v = rmul(a.val, b.val)
            q = None
            if a.quad is not None or b.quad is not None:
                c, o = (a, b) if a.quad is None else (b, a)
                q = qscale(o.quad, c.val) if c.quad is None else None
            return V({}, v, quad=q) if v is not None else unk()
        for c, o in ((a, b), (b, a)):
            if c.scalar:
                if o.mat is not None and o.form is None:
                    return V(None, None, fscale(o.mat, c.val))
                return V(fscale(o.form, c.val))
        for c, o in ((a, b), (b, a)):
            if c.nm and o.form is not None:
                return V(apply({("diag(%s)" % c.nm,): rat(1)}, o.form), nm=None)
        return unk()

    def div(self, a, b):
        if a.rows is not None or b.rows is not None:
            return self.lift(self.div, a, b)
        if b.scalar and b.quad is None:
            i = rdiv(rat(1), b.val)
            if i is None:
                return unk()
            return self.mul(a, scal(i))
        if b.scalar and a.scalar:
            v = rdiv(a.val, b.val)
            return scal(v) if v is not None else unk()
        return unk()

    def matmul(self, a, b):
        if a.mat is not None:
            if b.mat is not None and b.form is None:
                return V(None, None, apply(a.mat, b.mat))
            return V(apply(a.mat, self.vec(b)))
        if a.form is not None and b.form is not None:
            return self.inner(a, b)
        return unk()

    def inner(self, a, b):
        u, v = self.vec(a), self.vec(b)
        if u is None or v is None:
            return unk()
        k = tuple(sorted((frz(u), frz(v)), key=repr))
        return V({}, self.opaque("dot", repr(k)), quad=Quad({("ip",) + k: rat(1)}))

    def binop(self, t, a, b, n):
        if a.kind in ("str", "dict", "list") or b.kind in ("str", "dict", "list"):
            return None
        x, y = self.of(a), self.of(b)
        if t in ("Add", "Sub"):
            return self.add(x, y, 1 if t == "Add" else -1)
        if t == "Mult":
            return self.mul(x, y)
        if t == "MatMult":
            return self.matmul(x, y)
        if t == "Div":
            return self.div(x, y)
        if t == "Pow":
            c = b.const if b.const is not NOC and isinstance(b.const, (int, float)) else None
            return self.power(x, c, y)
        return self.opq(t, [x, y])

    def power(self, x, c, y=None):
        if c is None and y is not None and y.scalar:
            s = y.val
            if len(s.n) == 1 and s.d == {(): 1} and () in s.n:
                c = s.n[()]
        if c is None:
            return self.opq("pow", [x, y]) if y is not None else unk()
        if c == 1:
            return x
        if x.rows is not None:
            return V(rows=tuple(self.power(r, c) for r in x.rows))
        if x.quad is not None and set(x.quad.t) and len(x.quad.t) == 1:
            (k, v), = x.quad.t.items()
            if k[0] == "norm" and c == 2:
                v2 = rmul(v, v)
                return V({}, self.opaque("norm2", repr(k), repr(v)), quad=Quad({("ip", k[1], k[1]): v2}))
        if x.scalar:
            v = rpow(x.val, c)
            return scal(v) if v is not None else self.opq("pow", [x, scal(rat(c))])
        return unk()

    def opq(self, name, ts):
        """Scalar function of scalars."""
        if ts and all(t.scalar for t in ts):
            return scal(self.opaque(name, *[repr(t.val) for t in ts]))
        return unk()

    def unary(self, t, a):
        x = self.of(a)
        if t == "USub":
            return self.mul(scal(rat(-1)), x)
        return x if t == "UAdd" else unk()

    def cmp_result(self, t, a, b):
        return unk()

    def compare(self, t, a, b):
        """Parameters left symbolic differ from the constants tried on their own."""
        order = getattr(self.an, "order", None)
        if order and t.__name__ in ("Lt", "LtE", "Gt", "GtE"):
            x, y = self.of(a), self.of(b)
            if x.scalar and y.scalar and x.val != y.val:
                u, v = (example(q.val, order) for q in (x, y))
                if u is not None and v is not None and u != v:
                    return (u < v) == (t.__name__[0] == "L")
        if t.__name__ not in ("Eq", "NotEq") or a.kind != "num" or b.kind != "num":
            return None
        x, y = self.of(a), self.of(b)
        if x.scalar and y.scalar and not syms(x.val) and not syms(y.val):
            return (x.val == y.val) == (t.__name__ == "Eq")
        if getattr(self.an, "exact", False) and x.scalar and y.scalar \
                and not any(s.startswith("s:") for s in syms(x.val) | syms(y.val)):
            return (x.val == y.val) == (t.__name__ == "Eq")
        for p, q in ((x, y), (y, x)):
            if p.scalar and q.scalar and p.val in self.an.generic and not syms(q.val):
                return t.__name__ == "NotEq"
        return None

    def total(self, t):
        r = None
        for x in t.rows:
            r = x if r is None else self.add(r, x, 1)
        return r

    def func(self, name, args, kwargs, node):
        nm = name.split(".")[-1]
        ts = [self.of(a) for a in args]
        t0 = ts[0] if ts else unk()
        if nm in ("zeros", "zeros_like", "ones", "ones_like", "full", "full_like", "empty", "empty_like"):
            v = scal(rat(0 if nm[0] == "z" else 1)) if nm[0] in "zo" else ts[1] if nm[0] == "f" and len(ts) > 1 else unk()
            n = self.rowcount(args) if not nm.endswith("_like") else len(t0.rows) if t0.rows is not None else None
            return V(rows=(v,) * n) if n and v.rows is None else v
        if nm in ("eye", "identity"):
            return V(None, None, {(): rat(1)})
        if nm in KEEP:
            return V(t0.form, t0.val, t0.mat, t0.role if nm in ("copy", "deepcopy") else None, t0.nm,
                     t0.rows if nm not in ("ravel", "reshape", "flatten") else None, t0.quad)
        if nm in ("multiply", "divide", "true_divide") and len(ts) > 1:
            return (self.mul if nm == "multiply" else self.div)(ts[0], ts[1])
        if nm in ("add", "subtract") and len(ts) > 1:
            return self.add(ts[0], ts[1], 1 if nm == "add" else -1)
        if nm == "negative":
            return self.mul(scal(rat(-1)), t0)
        if nm == "sqrt" and t0.scalar:
            v = rpow(t0.val, Fraction(1, 2))
            return scal(v) if v is not None else self.opq("pow", [t0, scal(rat(.5))])
        if nm in ("square",):
            return self.power(t0, 2)
        if nm == "power" and len(args) > 1:
            c = args[1].const if args[1].const is not NOC and isinstance(args[1].const, (int, float)) else None
            return self.power(t0, c, ts[1])
        if nm in ("dot", "matmul", "inner", "vdot") and len(ts) > 1:
            return self.matmul(ts[0], ts[1]) if ts[0].mat is not None else self.inner(ts[0], ts[1])
        if nm in ("cho_solve", "solve", "lu_solve") and len(args) > 1:
            a = args[0].parts[0] if args[0].kind == "tuple" and args[0].parts else args[0]
            return self.inverse(self.of(a), ts[1])
        ax = args[1] if len(args) > 1 else kwargs.get("axis")
        ax0 = ax is not None and ax.const is not NOC and ax.const == 0
        if nm in ("sum", "mean", "average") and t0.rows is not None and t0.rows:
            flat = all(r.scalar for r in t0.rows)
            if ax0 or flat or name.startswith("builtins") and len(args) == 1:
                r = self.total(t0)
                w = kwargs.get("weights")
                if w is not None:
                    w = self.of(w)
                    if nm != "average" or w.rows is None:
                        return unk()
                    return self.div(self.total(self.mul(t0, w)), self.total(w))
                return r if nm == "sum" else self.div(r, scal(rat(len(t0.rows))))
        if nm == "cumsum" and t0.rows is not None and all(r.scalar for r in t0.rows):
            out = []
            for r in t0.rows:
                out.append(self.add(out[-1], r, 1) if out else r)
            return V(rows=tuple(out))
        if nm in ("insert", "append") and t0.rows is not None and len(ts) > 1 and ts[-1].scalar:
            k = args[1].const if nm == "insert" else len(t0.rows)
            return V(rows=t0.rows[:k] + (ts[-1],) + t0.rows[k:]) if isinstance(k, int) else unk()
        if nm in ("hstack", "concatenate") and t0.rows and not kwargs and len(args) == 1:
            if all(r.form is not None and (not r.scalar or r.val.zero) for r in t0.rows):
                out = {}
                for k, r in enumerate(t0.rows):
                    out = fadd(out, apply({("part%d/%d^H" % (k, len(t0.rows)),): rat(1)}, r.form))
                return V(out)
            return unk()
        if nm in ("stack", "vstack") and t0.rows is not None:
            return V(rows=t0.rows) if not kwargs.get("axis") or kwargs["axis"].const == 0 else unk()
        if nm == "norm" and t0.form is not None and not t0.scalar and not kwargs.get("ord") and len(args) == 1:
            return V({}, self.opaque("norm", repr(frz(t0.form))), quad=Quad({("norm", frz(t0.form)): rat(1)}))
        if nm == "norm" and t0.scalar and t0.val.zero:
            return ZERO
        if nm in SCALAR_FN and not kwargs.get("axis") and len(args) == 1 and t0.form is not None and not t0.scalar:
            return scal(self.opaque(nm, repr(frz(t0.form))))
        if nm in ("abs", "exp", "log", "max", "min", "maximum", "minimum", "cos", "sin", "absolute", "float", "int", "round",
                  "ceil", "floor", "prod"):
            return self.opq(nm, ts)
        return unk()

    def rowcount(self, args):
        s = args[0] if args else None
        if s is not None and s.kind == "tuple" and len(s.parts or ()) == 2:
            s = s.parts[0]
        return s.const if s is not None and s.kind == "num" and isinstance(s.const, int) and 0 < s.const < 8 else None

    def inverse(self, a, y):
        """Solution s of a s = y."""
        f = self.vec(y)
        if a.mat is None or f is None:
            return unk()
        if not f:
            return ZERO
        return V(self.atom("sol", (repr(frz(a.mat)), repr(frz(f))), eqs=lambda s: [fadd(apply(a.mat, s), f, -1)]))

    def multi(self, name, i, args, kwargs):
        t = self.of(args[0]) if args else unk()
        if name.endswith("cho_factor") or name.endswith("lu_factor"):
            return V(None, None, t.mat) if i == 0 else unk()
        return unk()

    def view(self, name, o, args, kwargs=None):
        t = self.of(o)
        if name in ("T", "transpose"):
            return V(None, None, adj(t.mat)) if t.mat is not None else t if t.rows is None else unk()
        return V(t.form, t.val, t.mat, None, t.nm, t.rows if name not in ("ravel", "reshape", "flatten") else None, t.quad)

    def astype(self, o, d):
        return self.of(o)

    def index(self, o, i):
        t = self.of(o)
        if t.rows is not None:
            c = i.const if i is not None and i.kind == "num" else NOC
            if c is not NOC and isinstance(c, int) and -len(t.rows) <= c < len(t.rows):
                return t.rows[c]
            if i is not None and i.kind != "num" and whole(i):
                return t
            b = bounds(i)
            if b is not None and all(x is None or x.kind == "num" and isinstance(x.const, int) for x in b):
                return V(rows=t.rows[slice(*[x.const if x is not None else None for x in b])])
            return unk()
        if t.scalar:
            return V({}, t.val)
        if i is not None and whole(i, False):
            return V(t.form)
        k = self.of(i) if i is not None and i.kind == "arr" else None
        if k is not None and k.role == ("idx",) and t.form is not None:
            return V(apply(adj(k.mat), t.form))
        b = bounds(i)
        if b is not None and t.form is not None and b[1] is not None:
            lo, hi = self.of(b[0]) if b[0] is not None else ZERO, self.of(b[1])
            if lo.scalar and hi.scalar:
                return V(apply({(slice_word(lo.val, hi.val),): rat(1)}, t.form))
        return unk()

    def store(self, f, v, target, value, how, index):
        f = f or unk()
        y = self.of(value) if value is not None else unk()
        if how in ("setitem", "augitem") and not whole(index, False):
            if f.rows is not None and index is not None and index.kind == "num" and index.const is not NOC \
                    and isinstance(index.const, int) and -len(f.rows) <= index.const < len(f.rows):
                k = index.const % len(f.rows)
                return V(rows=f.rows[:k] + (y,) + f.rows[k + 1:])
            if f.role is not None:
                return f
            i = self.of(index) if index is not None and index.kind == "arr" else unk()
            if i.role == ("idx",):
                z = fadd(self.vec(f), apply(i.mat, self.vec(y)))      # disjoint selections of a zero array
                return V(z)
            return f if f == y else unk()
        return V(y.form, y.val, None, None, None, y.rows)

    # ---- operators
    def linop(self, nm, args, kwargs, node):
        if nm == "Identity":
            return V(None, None, {(): rat(1)})
        if nm in ("MatrixMult", "aslinearoperator") and args:
            return V(None, None, self.of(args[0]).mat)
        return unk()

    def linop_binop(self, t, a, b):
        x, y = self.of(a), self.of(b)
        if x.role is not None or y.role is not None:
            return None
        if t in ("Add", "Sub"):
            return V(None, None, fadd(x.mat, y.mat, 1 if t == "Add" else -1))
        if t in ("Mult", "MatMult"):
            if x.mat is not None and y.mat is not None:
                return V(None, None, apply(x.mat, y.mat))
            return self.mul(x, y)
        if t == "Div":
            return self.div(x, y)
        return unk()

    def solve(self, name, args, kwargs):
        nm = name.split(".")[-1]
        a = self.of(args[0]) if args else unk()
        b = args[1] if len(args) > 1 else kwargs.get("y") or kwargs.get("b")
        y = self.of(b) if b is not None else unk()
        if nm in ("regularized_inversion", "normal_equations_inversion"):
            I = self.an.D.I
            regs = args[2] if len(args) > 2 else kwargs.get("Regs")
            ls = [I.elements(v) if v is not None and v.kind in ("list", "tuple") else None
                  for v in (regs, kwargs.get("dataregs"), kwargs.get("epsRs"))]
            rs, ds, es = ls
            if rs is None or ds is None or len(rs) != len(ds) or es is not None and len(es) != len(rs):
                return unk()
            if kwargs.get("epsRs") is not None and kwargs["epsRs"].kind != "none" and es is None:
                return unk()
            if kwargs.get("epsI") is not None or kwargs.get("Weight") is not None:
                return unk()
            rows = [(a.mat, self.vec(y), rat(1))] + [
                (self.of(r).mat, self.vec(self.of(d)), self.of(e).val if e is not None else rat(1))
                for r, d, e in zip(rs, ds, es or [None] * len(rs))]
            if any(m is None or d is None or e is None for m, d, e in rows):
                return unk()
            key = tuple((repr(frz(m)), repr(frz(d)), repr(e)) for m, d, e in rows)

            def eqs(s):
                r = {}
                for m, d, e in rows:
                    r = fadd(r, fscale(apply(adj(m), fadd(apply(m, s), d, -1)), rmul(e, e)))
                return [r]
            return V(self.atom("sol", key, eqs=eqs))
        return self.inverse(a, y)

    def scalar_arg(self, args, kwargs, k, names):
        v = args[k] if len(args) > k else None
        for n in names:
            v = kwargs.get(n, v)
        return self.of(v).val if v is not None and self.of(v).scalar else None

    def ext(self, o, name, args, kwargs, node):
        p = self.of(o)
        a = args[0] if args else kwargs.get("x", kwargs.get("y"))
        x = self.of(a) if a is not None else unk()
        r = p.role
        if r is None:
            if name in ("matvec", "dot", "_matvec", "__call__", "matmat"):
                if p.mat is None:
                    return unk()
                return V(None, None, apply(p.mat, x.mat)) if x.mat is not None and x.form is None else V(apply(p.mat, self.vec(x)))
            if name in ("rmatvec", "_rmatvec", "rmatmat"):
                return V(apply(adj(p.mat), self.vec(x))) if p.mat is not None else unk()
            if name == "div":
                return self.inverse(p, x)
            if name in ("eigs", "cond"):
                return scal(self.opaque(name, repr(frz(p.mat)) if p.mat else "", repr(sorted((k, repr(v.const)) for k, v in kwargs.items()))))
            return unk()
        f = self.vec(x) if x.rows is None else None
        if r[0] == "bil":
            st = self.an.bil
            if name in ("updatex", "updatey"):
                st[r[1], name[-1]] = f
                return None
            if name in ("gradx", "grady", "lx", "ly") and f is not None:
                if name in ("lx", "ly"):
                    return scal(self.opaque(name, r[1], repr(frz(f))))
                o = (r[1], "y" if name[-1] == "x" else "x")
                if o not in st:
                    st[o] = {("@%s%s" % o,): rat(1)}
                g = st[o]
                return V(self.atom("grad", (r[1], name, repr(frz(f)), repr(g and frz(g))), fn=r[1] + name[-1], arg=f, other=g))
            return unk()
        if r[0] == "proj":
            return V(self.atom("prox", (r[1], repr(frz(f)), 1), fn=r[1], arg=f, step=rat(1))) if f is not None else self.missed(r[1])
        if name in ("prox", "proxdual") or r[0] == "den":
            s = self.scalar_arg(args, kwargs, 1, ("tau",))
            if f is None or s is None:
                return self.missed(r[1])
            kind = name if r[0] != "den" else "prox"
            return V(self.atom(kind, (r[1], repr(frz(f)), repr(s)), fn=r[1], arg=f, step=s))
        if name == "grad":
            self.smooth.add(r[1])
            return V(self.atom("grad", (r[1], repr(frz(f))), fn=r[1], arg=f)) if f is not None else self.missed(r[1])
        if name == "__call__" and f is not None:
            return V({}, self.opaque("value", r[1], repr(frz(f))), quad=Quad({("fun", r[1], frz(f)): rat(1)}))
        return unk()

    def missed(self, fn):
        self.an.miss(fn)
        return unk()


def quad(t):
    if t.quad is not None:
        return t.quad
    return Quad({("const",): t.val})


def qadd(a, b, s=1):
    r = dict(a.t)
    for k, c in b.t.items():
        x = radd(r.get(k, rat(0)), c, s)
        if x is None:
            return None
        r[k] = x
    return Quad(r)


def qscale(q, c):
    r = {k: rmul(v, c) for k, v in q.t.items()}
    return None if any(v is None for v in r.values()) else Quad(r)


# ------------------------------------------------------------ linear algebra
P = (1 << 61) - 1


def example(r, order):
    """Value of a scalar for positive parameters, where those of a later call are
    all larger (order 1) or smaller (-1) than those of the earlier one."""
    def base(s):
        n, _, k = s.partition("@")
        h = 1 + int.from_bytes(hashlib.sha256(n.encode()).digest()[:2], "big") / 65536
        return h * 10 ** (order * int(k)) if k.isdigit() else h

    def poly(p):
        return sum(float(c) * _prod(base(s) ** float(e) for s, e in m) for m, c in p.items())
    if any(s.startswith("s:") for s in syms(r)):
        return None
    try:
        return poly(r.n) / poly(r.d)
    except (ArithmeticError, ValueError):
        return None


def _prod(xs):
    t = 1.0
    for x in xs:
        t *= x
    return t


class Sampler:
    """Values of the scalar symbols in a prime field (random interpretation)."""

    def __init__(self, seed):
        self.seed = seed
        self.cache = {}

    def base(self, s):
        r = self.cache.get(s)
        if r is None:
            h = hashlib.sha256(("%d:%s" % (self.seed, s)).encode()).digest()
            r = self.cache[s] = int.from_bytes(h[:8], "big") % (P - 2) + 2
        return r

    def poly(self, p):
        t = 0
        for m, c in p.items():
            v = c.numerator % P * pow(c.denominator % P, P - 2, P) % P
            for s, e in m:
                k = Fraction(e) * 12
                if k.denominator != 1:
                    raise ValueError
                v = v * pow(self.base(s), int(k) % (P - 1), P) % P
            t = (t + v) % P
        return t

    def rat(self, r):
        d = self.poly(r.d)
        return self.poly(r.n) * pow(d, P - 2, P) % P

    def form(self, f):
        r = {}
        for w, c in f.items():
            v = self.rat(c)
            if v:
                r[w] = v
        return r


class Span:
    """Row space of vectors over the prime field; remembers how each vector was combined."""

    def __init__(self):
        self.rows = {}          # pivot -> (vector, combination)

    def reduce(self, v, comb=None):
        v = dict(v)
        comb = dict(comb or {})
        done = False
        while not done:
            done = True
            for k in sorted(v):
                if k in self.rows:
                    c = v[k]
                    rv, rc = self.rows[k]
                    for w, x in rv.items():
                        y = (v.get(w, 0) - c * x) % P
                        if y:
                            v[w] = y
                        else:
                            v.pop(w, None)
                    for w, x in rc.items():
                        y = (comb.get(w, 0) - c * x) % P
                        if y:
                            comb[w] = y
                        else:
                            comb.pop(w, None)
                    done = False
                    break
        return v, comb

    def add(self, v, comb=None):
        """None if independent (and added), else the vanishing combination."""
        v, comb = self.reduce(v, comb)
        if not v:
            return comb
        k = min(v)
        i = pow(v[k], P - 2, P)
        self.rows[k] = ({w: x * i % P for w, x in v.items()}, {w: x * i % P for w, x in comb.items()})
        return None

    def has(self, v):
        return not self.reduce(v)[0]


def prefix(op, v):
    return {(op,) + w: x for w, x in v.items()}


def operators(vs):
    s = set()
    for v in vs:
        for w in v:
            s |= {x for x in w if not x.startswith("@")}
    s |= {x[:-2] if x.endswith("^H") else x + "^H" for x in s}
    return sorted(s)


def closure(vs, depth=2, more=()):
    ops = operators(list(vs) + list(more))
    out, cur = list(vs), list(vs)
    for _ in range(depth):
        cur = [prefix(o, v) for v in cur for o in ops]
        if len(out) + len(cur) > 4000:
            break
        out += cur
    return out
