"""Translation analysis: shifting the problem shifts its answers.

Every quantity is given its derivative with respect to a shift t of the
variable: a sum of words of operators applied to t with coefficients that are
rational functions of the scalar parameters (``{(): 1}`` is a point, ``{}`` a
quantity that does not move)."""
from __future__ import annotations

from fractions import Fraction

from framework import Analysis
from state import alts
from values import AV, NOC

LIMIT = 40


class Rat:
    """Quotient of polynomials (exponents may be fractions) in named scalars."""
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        n = {m: c for m, c in n.items() if c}
        d = d if d is not None else {(): Fraction(1)}
        if len(d) == 1:
            (m, c), = d.items()
            if m or c != 1:
                inv = tuple((s, -e) for s, e in m)
                n = {mono(k, inv): v / c for k, v in n.items()}
                d = {(): Fraction(1)}
        elif n and len(n) == len(d):
            (m, c) = min(n.items())
            (m2, c2) = min(d.items())
            q, r = mono(m, tuple((s, -e) for s, e in m2)), c / c2
            if {mono(k, q): v * r for k, v in d.items()} == n:
                n, d = {q: r}, {(): Fraction(1)}
        self.n, self.d = n, d

    @property
    def zero(self):
        return not self.n

    def __eq__(self, o):
        if not isinstance(o, Rat):
            return NotImplemented
        if self.d == o.d:
            return self.n == o.n
        return pmul(self.n, o.d) == pmul(o.n, self.d)

    def __hash__(self):
        return 0

    def __repr__(self):
        s = pstr(self.n)
        return s if self.d == {(): 1} else "(%s)/(%s)" % (s, pstr(self.d))

    def key(self):
        return repr(self)


def mono(a, b):
    d = dict(a)
    for s, e in b:
        d[s] = d.get(s, 0) + e
    return tuple(sorted((s, e) for s, e in d.items() if e))


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for k, v in b.items():
            q = mono(m, k)
            r[q] = r.get(q, 0) + c * v
    return {m: c for m, c in r.items() if c}


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
    return {m: c for m, c in r.items() if c}


def pstr(p):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items()):
        w = "*".join(s if e == 1 else "%s^%s" % (s, e) for s, e in m)
        out.append(w if c == 1 and w else "%s%s%s" % (c, "*" if w else "", w))
    return " + ".join(out)


def rat(c):
    if isinstance(c, Rat) or c is None:
        return c
    if isinstance(c, complex) or c != c or abs(c) == float("inf"):
        return None
    return Rat({(): Fraction(c).limit_denominator(10 ** 9)})


def sym(s):
    return Rat({((s, Fraction(1)),): Fraction(1)})


def cap(r):
    return r if len(r.n) <= LIMIT and len(r.d) <= LIMIT else None


def radd(a, b, s=1):
    if a is None or b is None:
        return None
    if a.d == b.d:
        return cap(Rat(padd(a.n, b.n, s), a.d))
    return cap(Rat(padd(pmul(a.n, b.d), pmul(b.n, a.d), s), pmul(a.d, b.d)))


def rmul(a, b):
    return None if a is None or b is None else cap(Rat(pmul(a.n, b.n), pmul(a.d, b.d)))


def rdiv(a, b):
    return None if a is None or b is None or b.zero else cap(Rat(pmul(a.n, b.d), pmul(a.d, b.n)))


def rpow(a, c):
    if a is None:
        return None
    c = Fraction(c).limit_denominator(100)
    if c.denominator == 1 and abs(c) <= 6:
        r = rat(1)
        for _ in range(abs(int(c))):
            r = rmul(r, a)
        return r if c >= 0 else rdiv(rat(1), r)
    if len(a.n) == 1 and a.d == {(): 1}:
        (m, k), = a.n.items()
        if k > 0 and c == Fraction(1, 2):
            p, q = int(k.numerator ** .5 + .5), int(k.denominator ** .5 + .5)
            if p * p == k.numerator and q * q == k.denominator:
                return Rat({tuple((s, e * c) for s, e in m): Fraction(p, q)})
        if k == 1:
            return Rat({tuple((s, e * c) for s, e in m): Fraction(1)})
    return None


# linear forms: {word: Rat}; D: moves, but not as a linear form
D = "dep"


def clean(f):
    return {w: c for w, c in f.items() if not c.zero}


def fadd(a, b, s=1):
    if a is None or b is None:
        return None
    if a == D or b == D:
        return D
    r = dict(a)
    for w, c in b.items():
        x = radd(r.get(w, rat(0)), c, s)
        if x is None:
            return None
        r[w] = x
    return clean(r)


def fscale(f, c):
    if f is None or f == D or f == {}:
        return f
    r = {}
    for w, x in f.items():
        y = rmul(x, c)
        if y is None:
            return None
        r[w] = y
    return clean(r)


def compose(m, f):
    if m is None or f is None or f == D or f == {}:
        return f if f == {} or f == D else None
    r = {}
    for w, c in m.items():
        for v, d in f.items():
            x = radd(r.get(w + v, rat(0)), rmul(c, d) if rmul(c, d) is not None else None)
            if x is None:
                return None
            r[w + v] = x
    return clean(reduce_words(r))


INVERSE = set()       # names of operators with Q^H Q = I


def reduce_words(f):
    if not INVERSE:
        return f
    r = {}
    for w, c in f.items():
        k = 0
        while k + 1 < len(w):
            if w[k + 1] in INVERSE and w[k] == w[k + 1] + "^H":
                w = w[:k] + w[k + 2:]
                k = max(k - 1, 0)
            else:
                k += 1
        r[w] = radd(r.get(w, rat(0)), c)
    return r


def adj(m):
    if m is None:
        return None
    return {tuple(x[:-2] if x.endswith("^H") else x + "^H" for x in reversed(w)): c for w, c in m.items()}


def fstr(f):
    if f == D:
        return "nonlinear in the shift"
    if not f:
        return "0"
    return " + ".join(("%s " % (c,) if c != rat(1) else "") + "".join(x + " " for x in w) + "t" for w, c in sorted(f.items()))


class T:
    """form: derivative; val: symbolic uniform value; mat: the linear operator; role: callable object;
    lead: number of rows of a stack."""
    __slots__ = ("form", "val", "mat", "role", "nm", "lead")

    def __init__(self, form=None, val=None, mat=None, role=None, nm=None, lead=None):
        self.form, self.val, self.mat, self.role, self.nm, self.lead = form, val, mat, role, nm, lead

    def key(self):
        return (fstr(self.form) if self.form is not None else None, repr(self.val),
                fstr(self.mat) if self.mat is not None else None, self.role, self.nm, self.lead)

    def __eq__(self, o):
        return isinstance(o, T) and (self.form, self.val, self.mat, self.role, self.nm, self.lead) == (
            o.form, o.val, o.mat, o.role, o.nm, o.lead)

    def __hash__(self):
        return 0

    def __repr__(self):
        return "T%r" % (self.key(),)


def lead(t, n):
    if n and t.lead != n and t.form is not None:
        return T(t.form, t.val, t.mat, t.role, t.nm, n)
    return t


ZERO = T({})
I1 = {(): rat(1)}


def W(*w, c=1):
    return {tuple(w): rat(c) if not isinstance(c, Rat) else c}


NONLIN = {"abs", "absolute", "fabs", "sign", "exp", "log", "norm", "sqrt", "square", "max", "min", "amax", "amin", "sort",
          "argsort", "argmax", "argmin", "std", "var", "median", "round", "floor", "ceil", "angle", "power", "log10",
          "count_nonzero", "prod", "reciprocal", "percentile", "tanh", "sin", "cos", "arctan2", "cumprod", "allclose"}
PICK = {"maximum", "minimum", "fmax", "fmin", "clip"}
KEEP = {"real", "conj", "conjugate", "copy", "asarray", "array", "ascontiguousarray", "float", "int", "ravel", "reshape",
        "squeeze", "atleast_1d", "broadcast_to", "float64", "float32", "asnumpy", "to_numpy", "nan_to_num", "complex128",
        "expand_dims", "flatten", "asfarray", "deepcopy", "positive"}


class Shift:
    name = "sh"

    def join(self, a, b):
        if not isinstance(a, T) or not isinstance(b, T):
            return None
        return T(a.form if a.form == b.form else None, a.val if a.val is not None and a.val == b.val else None,
                 a.mat if a.mat is not None and a.mat == b.mat else None, a.role if a.role == b.role else None,
                 a.nm if a.nm == b.nm else None, a.lead if a.lead == b.lead else None)

    def join_none(self, a, b):
        return None

    def of(self, v):
        if v is None:
            return T()
        if v.kind in ("bool", "str", "none"):
            return v.f.get("sh") or ZERO
        if v.kind == "union":
            ps = [self.of(p) for p in v.parts if p.kind != "none"]
            r = ps[0] if ps else T()
            for p in ps[1:]:
                r = r if r == p else self.join(r, p)
            return r
        if v.kind in ("list", "tuple"):
            return self.seq(v)
        return v.f.get("sh") or T()

    def seq(self, v):
        I = self.an.D.I
        xs = I.elements(v)
        ps = [self.of(x) for x in xs] if xs else [self.of(I.elem_of(v, None))]
        r = ps[0]
        for p in ps[1:]:
            r = r if r == p else self.join(r, p)
        return T(r.form, r.val, None, lead=len(xs) if xs else None)

    # ---- sources
    def arg(self, run, label, name, kind):
        return self.an.source(run, label, name, kind)

    def const(self, c):
        return T({}, rat(c)) if not isinstance(c, (bool, str)) else ZERO

    def shapenum(self, o):
        return ZERO

    def shape(self, o):
        return None

    def index_num(self):
        return ZERO

    def random(self, name):
        return ZERO

    def rootarg(self, args):
        return ZERO

    def extnum(self, o, name):
        return ZERO

    def extarr(self, o, name):
        t = self.of(o)
        if t.role == ("bil",):
            return T(I1) if name == "x" else ZERO
        if name == "A":
            return T({}, None, t.mat)
        return None

    def adjoint(self, o, name):
        t = self.of(o)
        return T({}, None, adj(t.mat)) if t.mat is not None else None

    # ---- arithmetic
    def add(self, a, b, s):
        return T(fadd(a.form, b.form, s), radd(a.val, b.val, s), fadd(a.mat, b.mat, s))

    def mul(self, a, b):
        mat = fscale(b.mat, a.val) if b.mat is not None and a.val is not None else \
            fscale(a.mat, b.val) if a.mat is not None and b.val is not None else None
        v = rmul(a.val, b.val)
        if a.form == {} and b.form == {}:
            return T({}, v, mat)
        if a.form is None or b.form is None:
            if a.val is not None and a.val.zero or b.val is not None and b.val.zero:
                return T({}, rat(0))
            return T()
        if a.form == {} or b.form == {}:
            c, m = (a, b) if a.form == {} else (b, a)
            if c.val is None:
                return T(D) if m.form == D else T()
            return T(fscale(m.form, c.val), None, None)
        return T(D)

    def div(self, a, b):
        if b.form == {}:
            if a.form == {}:
                return T({}, rdiv(a.val, b.val), fscale(a.mat, rdiv(rat(1), b.val)) if a.mat is not None and b.val is not None else None)
            if b.val is None:
                return T(D) if a.form == D else T()
            return T(fscale(a.form, rdiv(rat(1), b.val)) if rdiv(rat(1), b.val) is not None else None)
        if b.form is None or a.form is None:
            return T()
        return T(D)

    def matmul(self, a, b):
        if a.mat is not None and b.mat is not None and b.form == {}:
            return T({}, None, compose(a.mat, b.mat))
        if a.form == {} and b.form == {}:
            return ZERO
        if a.mat is not None:
            return T(compose(a.mat, b.form))
        if a.form == {} and a.nm and b.form not in (None, D):
            return T(compose({(a.nm + "^T",): rat(1)}, b.form))
        if b.form == {} and b.nm and a.form not in (None, D):
            return T(compose({(b.nm + "^T",): rat(1)}, a.form))
        if a.form == D and b.form is not None or b.form == D and a.form is not None or a.form and b.form:
            return T(D)
        return T()

    def binop(self, t, a, b, n):
        if a.kind in ("str", "list", "tuple", "dict") or b.kind in ("str", "list", "tuple", "dict"):
            return None
        x, y = self.of(a), self.of(b)
        if t in ("Add", "Sub", "Mult", "Div"):
            r = self.add(x, y, 1 if t == "Add" else -1) if t in ("Add", "Sub") else \
                self.mul(x, y) if t == "Mult" else self.div(x, y)
            return lead(r, x.lead or y.lead)
        if t == "MatMult":
            return self.matmul(x, y)
        if t == "Pow":
            c = b.const if b.const is not NOC and isinstance(b.const, (int, float)) else None
            if x.form == {} and y.form == {}:
                return T({}, rpow(x.val, c) if c is not None else None)
            if c == 1:
                return x
            return T(D) if x.form is not None and y.form is not None else T()
        return self.generic([x, y])

    def generic(self, ts):
        if any(t.form == D for t in ts):
            return T(D)
        return ZERO if all(t.form == {} for t in ts) else T()

    def unary(self, t, a):
        x = self.of(a)
        if t == "USub":
            return T(fscale(x.form, rat(-1)), rmul(x.val, rat(-1)), fscale(x.mat, rat(-1)), lead=x.lead)
        return x if t == "UAdd" else self.generic([x])

    def cmp_result(self, t, a, b):
        x, y = self.of(a), self.of(b)
        if x.form is None or y.form is None:
            return T()
        return ZERO if x.form == y.form and x.form != D else T(D)

    def func(self, name, args, kwargs, node):
        nm = name.split(".")[-1]
        ts = [self.of(a) for a in args]
        t0 = ts[0] if ts else ZERO
        if nm in ("zeros", "zeros_like", "ones", "ones_like"):
            return T({}, rat(0 if nm[0] == "z" else 1), lead=self.rows(args) if "_" not in nm else t0.lead)
        if nm in ("full", "full_like"):
            return T(ts[1].form, ts[1].val, lead=self.rows(args) if "_" not in nm else t0.lead) if len(ts) > 1 else T()
        if nm in ("eye", "identity"):
            return T({}, None, {(): rat(1)})
        if nm in PICK:
            ts = ts + [self.of(v) for k, v in kwargs.items() if k in ("a_min", "a_max", "min", "max")]
            return self.pick(ts, nm)
        if nm == "where" and len(ts) == 3:
            r = self.pick(ts[1:])
            return T(D) if ts[0].form == D and r.form != D and args[1].val != args[2].val else r
        if nm in ("max", "min") and len(ts) > 1 and name.startswith("builtins"):
            return self.pick(ts, nm)
        if nm in KEEP:
            return T(t0.form, t0.val, t0.mat, None, t0.nm, t0.lead if nm not in ("ravel", "reshape", "flatten") else None)
        if nm == "multiply" and len(ts) > 1:
            return self.mul(ts[0], ts[1])
        if nm in ("add", "subtract") and len(ts) > 1:
            return self.add(ts[0], ts[1], 1 if nm == "add" else -1)
        if nm in ("divide", "true_divide") and len(ts) > 1:
            return self.div(ts[0], ts[1])
        if nm == "negative":
            return T(fscale(t0.form, rat(-1)), rmul(t0.val, rat(-1)))
        if nm in ("dot", "matmul", "inner", "vdot") and len(ts) > 1:
            return self.matmul(ts[0], ts[1])
        if nm == "sqrt" and t0.form == {}:
            return T({}, rpow(t0.val, Fraction(1, 2)))
        if nm in ("cho_solve", "solve", "lu_solve") and len(args) > 1:
            a = args[0].parts[0] if args[0].kind == "tuple" and args[0].parts else args[0]
            return self.inverse(self.of(a), ts[1])
        if nm == "sum" and args and args[0].kind in ("list", "tuple"):
            I = self.an.D.I
            xs = I.elements(args[0])
            if xs and not kwargs and len(args) == 1:
                r = self.of(xs[0])
                for x in xs[1:]:
                    r = self.add(r, self.of(x), 1)
                return r
        if nm in ("mean", "sum", "average") and args:
            ax = args[1] if len(args) > 1 else kwargs.get("axis")
            if ax is not None and ax.const == 0 and ax.const is not NOC or args[0].kind in ("list", "tuple"):
                if nm == "mean" and (ax is not None or args[0].kind != "tuple"):
                    return T(t0.form, t0.val)
                if nm == "sum" and t0.lead and ax is not None:
                    return T(fscale(t0.form, rat(t0.lead)), rmul(t0.val, rat(t0.lead)))
        if nm in ("stack", "vstack") and args and args[0].kind in ("list", "tuple"):
            return T(t0.form, t0.val, lead=t0.lead)
        ks = [self.of(v) for k, v in kwargs.items() if k not in ("axis", "dtype", "ord", "keepdims", "out", "kind")]
        g = self.generic(ts + ks)
        if nm in NONLIN and g.form is None and all(t.form is not None for t in ts):
            return T(D)
        return g

    def rows(self, args):
        s = args[0] if args else None
        if s is not None and s.kind == "tuple" and len(s.parts or ()) == 2:
            c = s.parts[0].const
            return c if c is not NOC and isinstance(c, int) else None
        return None

    def pick(self, ts, nm=None):
        if any(t.form is None for t in ts):
            return T()
        if nm in ("max", "min", "maximum", "minimum") and all(t.form == {} and t.val is not None for t in ts):
            vals = [t.val for t in ts if not (t.val.zero and nm.startswith("max"))]     # parameters are not negative
            if len(vals) == 1:
                return T({}, vals[0])
            return T({}, sym("%s(%s)" % (nm[:3], ", ".join(sorted(map(repr, vals))))) if vals else rat(0))
        if all(t.form == ts[0].form for t in ts) and ts[0].form != D:
            return T(ts[0].form)
        return T(D)

    def inverse(self, a, y):
        """Solution of a x = y."""
        if y.form == {}:
            return ZERO
        if a.mat is None or y.form is None:
            return T()
        if y.form == D:
            return T(D)
        return T(I1) if y.form == a.mat else T(D)

    def multi(self, name, i, args, kwargs):
        t = self.of(args[0]) if args else T()
        if name.endswith("cho_factor") or name.endswith("lu_factor"):
            return T({}, None, t.mat) if i == 0 else ZERO
        return ZERO if t.form == {} else T(D) if t.form is not None else T()

    def view(self, name, o, args, kwargs=None):
        t = self.of(o)
        if name in ("T", "transpose") and t.mat is not None:
            return T({}, None, adj(t.mat))
        return T(t.form, t.val, t.mat, None, t.nm)

    def astype(self, o, d):
        return self.of(o)

    def index(self, o, i):
        t = self.of(o)
        if t.form == {}:
            return T({}, t.val)
        if t.form == D:
            return T(D)
        if t.lead and i is not None and i.kind == "num":
            return T(t.form)
        return T(t.form) if whole(i) else T()

    def store(self, f, v, target, value, how, index):
        f = f or T()
        y = self.of(value) if value is not None else T()
        if how in ("setitem", "augitem") and not whole(index, False):
            if f.role is not None:
                return f
            return T(f.form if f.form == y.form else None, f.val if f.val is not None and f.val == y.val else None)
        return T(y.form, y.val)

    # ---- operators
    def linop(self, nm, args, kwargs, node):
        if nm == "Identity":
            return T({}, None, {(): rat(1)})
        if nm in ("MatrixMult", "aslinearoperator") and args:
            return T({}, None, self.of(args[0]).mat)
        return T({})

    def linop_binop(self, t, a, b):
        x, y = self.of(a), self.of(b)
        if t in ("Add", "Sub"):
            return T({}, None, fadd(x.mat, y.mat, 1 if t == "Add" else -1))
        if t in ("Mult", "MatMult"):
            if x.mat is not None and y.mat is not None:
                return T({}, None, compose(x.mat, y.mat))
            r = self.mul(x, y)
            return T({}, None, r.mat)
        if t == "Div":
            return T({}, None, self.div(x, y).mat)
        return T({})

    def solve(self, name, args, kwargs):
        nm = name.split(".")[-1]
        a = self.of(args[0]) if args else T()
        b = args[1] if len(args) > 1 else kwargs.get("y") or kwargs.get("b")
        y = self.of(b) if b is not None else T()
        if nm in ("regularized_inversion", "normal_equations_inversion"):
            I = self.an.D.I
            regs = args[2] if len(args) > 2 else kwargs.get("Regs")
            dr = kwargs.get("dataregs")
            rs = I.elements(regs) if regs is not None and regs.kind == "list" else None
            ds = I.elements(dr) if dr is not None and dr.kind == "list" else None
            if rs is None or ds is None or len(rs) != len(ds):
                return T()
            rows = [(a, y)] + [(self.of(r), self.of(d)) for r, d in zip(rs, ds)]
            if any(m.mat is None or d.form is None for m, d in rows):
                return ZERO if all(d.form == {} for m, d in rows) else T()
            if all(d.form == {} for m, d in rows):
                return ZERO
            return T(I1) if all(d.form == m.mat for m, d in rows) else T(D)
        return self.inverse(a, y)

    def ext(self, o, name, args, kwargs, node):
        p = self.of(o)
        a = args[0] if args else kwargs.get("x")
        x = self.of(a) if a is not None else T()
        r = p.role
        if r is None:
            if name in ("matvec", "dot", "_matvec", "__call__", "matmat"):
                return T({}, None, compose(p.mat, x.mat)) if x.mat is not None and p.mat is not None else T(compose(p.mat, x.form))
            if name in ("rmatvec", "_rmatvec", "rmatmat"):
                return T(compose(adj(p.mat), x.form))
            if name == "div":
                return self.inverse(p, x)
            return ZERO if name in ("eigs", "cond") else None
        if r[0] == "bil":
            if name in ("gradx", "lx", "updatex"):
                self.an.arrive(name, x.form, I1, node)
            elif name in ("grady", "ly", "updatey"):
                self.an.arrive(name, x.form, {}, node)
            return ZERO
        if r[0] in ("proj", "den", "slv"):
            if r[0] == "proj":
                self.an.arrive("projection", x.form, I1, node)
            return T(I1)
        loc = dict(r[1])
        if name == "proxdual":
            s = args[1] if len(args) > 1 else kwargs.get("tau")
            v = self.of(s).val if s is not None else None
            if v is not None or loc == {}:
                self.an.arrive(name, x.form, fscale(loc, v) if loc else {}, node)
            return ZERO
        if name in ("prox", "grad", "__call__"):
            self.an.arrive(name, x.form, loc, node)
            return T(loc) if name == "prox" else ZERO
        return ZERO if name == "count" else None


def whole(i, masks=True):
    """Does the index keep every element (up to a selection by the data)?"""
    if i is None:
        return False
    if i.kind in ("slice",):
        return not i.parts or all(p.kind == "none" for p in i.parts)
    if i.kind == "tuple":
        return bool(i.parts) and all(whole(p, masks) or p.kind == "none" for p in i.parts)
    return masks and i.kind in ("arr", "bool")


# words: W("Op") is Op t; objects get the words of the shift of their variable
PT, FIX = I1, {}
TABLE = {
    "Box": dict(lower=PT, upper=PT),
    "AffineSet": dict(b=W("Op")),
    "Quadratic": dict(b=W("Op", c=-1), x0=PT, _call=0, _need="b"),
    "EuclideanBall": dict(center=PT),
    "L1": dict(g=PT, _need="g"),
    "L2": dict(b=W("Op"), x0=PT, _need="b"),
    "HalfSpace": dict(b=W("w^T")),
    "GenericIntersectionProx": dict(projections=PT),
    "Sum": dict(ops=PT),
    "BoxProj": dict(lower=PT, upper=PT),
    "HyperPlaneBoxProj": dict(scalar=W("coeffs^T"), lower=PT, upper=PT),
    "EuclideanBallProj": dict(center=PT),
    "AffineSetProj": dict(b=W("Op")),
    "HalfSpaceProj": dict(b=W("w^T")),
    "GenericIntersectionProj": dict(projections=PT),
    "Orthogonal": dict(f=FIX, b=W("Q", c=-1), _need="b"),
    "f+v": dict(f=PT, _call=0),
    "f-v": dict(f=PT, _call=0),
    "c*f": dict(f=PT),
    "f(ax+b)": dict(f=FIX, b={(): rmul(rat(-1), sym("a"))}),
    "f.H": dict(f=PT, _dual=1),
    "user(prox)": dict(f=PT),
    "user(proxdual)": dict(f=PT),
    "user(nonlinear)": dict(f=PT, x0=PT),
    "moreau": dict(prox=PT, x=PT),
    "ProximalPoint": dict(prox=PT, x0=PT),
    "ProximalGradient": dict(proxf=PT, proxg=PT, x0=PT),
    "AcceleratedProximalGradient": dict(proxf=PT, proxg=PT, x0=PT),
    "AndersonProximalGradient": dict(proxf=PT, proxg=PT, x0=PT),
    "GeneralizedProximalGradient": dict(proxfs=PT, proxgs=PT, x0=PT),
    "HQS": dict(proxf=PT, proxg=PT, x0=PT, z0=PT),
    "ADMM": dict(proxf=PT, proxg=PT, x0=PT, z0=PT),
    "ADMML2": dict(proxg=W("A"), b=W("Op"), x0=PT, z0=W("A")),
    "LinearizedADMM": dict(proxf=PT, proxg=W("A"), x0=PT, z0=W("A")),
    "TwIST": dict(proxg=PT, b=W("A"), x0=PT),
    "DouglasRachfordSplitting": dict(proxf=PT, proxg=PT, x0=PT),
    "PPXA": dict(proxfs=PT, x0=PT),
    "ConsensusADMM": dict(proxfs=PT, x0=PT),
    "PrimalDual": dict(proxf=PT, proxg=W("A"), x0=PT),
    "AdaptivePrimalDual": dict(proxf=PT, proxg=W("A"), x0=PT),
    "Bregman": dict(proxf=PT, proxg=W("A"), x0=PT, solver=PT),
    "PALM": dict(proxf=PT, proxg=FIX, x0=PT),
    "iPALM": dict(proxf=PT, proxg=FIX, x0=PT),
    "PlugAndPlay": dict(proxf=PT, denoiser=PT, x0=PT),
}


ITERATIVE = ("Sum", "GenericIntersectionProx", "GenericIntersectionProj", "user(nonlinear)")


class Translation(Analysis):
    """Values that take part in an update move with the variable as they should."""
    groups = ("operator", "projection", "combinator", "solver", "util")
    opts = dict(rounds=2, opaque_alias=False)

    def make_facets(self):
        f = self.S = Shift()
        f.an = self
        return [f]

    def select(self, e):
        return e.name in TABLE and Analysis.select(self, e)

    def begin(self, D, run):
        INVERSE.clear()
        D.I.bound = getattr(run.row, "bound", None)
        if run.entry.name == "Orthogonal" and run.config.get("partial") == "b0":
            INVERSE.add("Q")            # its documented requirement

    def rows(self, D, entry, v):
        from rules_units import CRow
        t = TABLE[entry.name]
        rows = [CRow(c) for c in D.configs(entry, v)]
        rows = [r for r in rows if not (t.get("_need") and r.config.get(t["_need"]) in ("none", None))]
        # once at the fixed point of the loops and once for exactly two iterations
        for r in list(rows) if entry.group == "solver" or entry.name in ITERATIVE else ():
            r = CRow(r.config)
            r.bound = 2
            rows.append(r)
        return rows

    def source(self, run, label, name, kind):
        t = TABLE.get(run.entry.name) or {}
        if getattr(run, "phase", None) == "method" and run.entry.methods is not None:
            if name == "x":
                dual = run.method == "proxdual"
                if bool(t.get("_dual")) != dual:
                    return T({(): sym("tau")}) if run.method in ("prox", "proxdual") else T({})
                return T(PT)
            if name == "tau":
                return T({}, sym("tau"))
            return ZERO
        form = t.get(name, FIX)
        lab = label.split("self.", 1)[-1]
        c = run.config
        if "none" in (c.get("Op"), c.get("A")) and form and () not in form:
            form = FIX if name == "b" and run.entry.name == "Quadratic" else PT
        if kind in ("p",):
            return T(None, None, None, ("fun", tuple(sorted(form.items(), key=repr))))
        if kind == "fn1":
            return T(None, None, None, ("proj",))
        if kind == "den":
            return T(None, None, None, ("den",))
        if kind == "slv":
            return T(None, None, None, ("slv",))
        if kind == "H":
            return T(None, None, None, ("bil",))
        if kind == "l":
            return T({}, None, {(lab,): rat(1)})
        if name == "weights":
            return T({}, rat(Fraction(1, 2)))           # two functions of equal weight
        if kind in ("f", "i"):
            return T(dict(form), sym(lab) if not form else None)
        if kind == "a":
            return T(dict(form), None, None, None, lab)
        return T({}) if kind in ("sch", "cb") else None

    def where(self):
        I = self.D.I
        return I.stack[-1][0].name if I.stack else "?"

    def arrive(self, what, form, want, node):
        """An argument of an opaque function."""
        run = self.D.cur
        if run is None or form is None or want is None:
            return
        if (TABLE[run.entry.name].get("_dual") and getattr(run, "phase", "") == "method"
                and run.method in ("__call__", "grad")):
            return                      # values of a conjugate: not part of the property
        ok = form == want
        line = getattr(node, "lineno", 0) if node is not None else 0
        self.oblige("argument", (run.entry.name, what, line), ok)
        if not ok:
            w = "%s:%d" % (self.D.repo.file_of(self.D.I.cur_mod), line)
            self.report(self.D, "argument", "%s of %s: %s" % (what, run.entry.name, fstr(form)),
                        "under a shift t of the problem the argument of %s moves by [%s], the function by [%s]" % (
                            what, fstr(form), fstr(want)), where=w)

    def event(self, I, ev):
        if ev.kind != "compare":
            return
        run = self.D.cur
        if run is None or run.entry.group in ("solver", "util") or getattr(run, "phase", "") != "method":
            return
        a, b = ev["left"], ev["right"]
        if "none" in (a.kind, b.kind) or "bool" in (a.kind, b.kind) or "str" in (a.kind, b.kind):
            return
        x, y = self.S.of(a).form, self.S.of(b).form
        if x is None or y is None or x == {} and y == {}:
            return
        ok = x == y and x != D
        self.oblige("comparison", (run.entry.name, run.method, ev.line), ok)
        if not ok:
            self.report(self.D, "comparison", "%s.%s: %s / %s" % ((run.entry.name, run.method) + tuple(sorted((fstr(x), fstr(y))))),
                        "a quantity that moves by [%s] is compared with one that moves by [%s]" % (fstr(x), fstr(y)),
                        where="%s:%d" % (self.D.repo.file_of(I.cur_mod), ev.line))

    def after(self, D_, run):
        if run.result is None or D_.I.st is None or run.phase == "ctor":
            return
        t = TABLE[run.entry.name]
        if run.phase == "method":
            if run.entry.group == "projection":
                want = PT
            else:
                want = {"prox": PT, "proxdual": FIX, "grad": FIX, "__call__": FIX}.get(run.method)
                if t.get("_dual") and run.method in ("prox", "proxdual"):
                    want = FIX if want == PT else PT
                if run.method == "__call__" and (t.get("_call") == 0 or t.get("_dual") or run.config.get("q") not in (None, "none")):
                    want = None
                if run.method == "grad" and t.get("_dual"):
                    want = None
        else:
            want = PT if run.entry.group == "solver" else None
        if want is None:
            return
        for r in alts(run.result):
            if r.kind == "tuple" and r.parts:
                r = r.parts[0]
            if r.kind in ("bool", "none"):
                continue
            g = self.S.of(r).form
            if g is None:
                continue
            self.oblige("result", (run.entry.name, run.method), g == want)
            if g != want:
                self.report(D_, "result", "%s.%s moves by %s" % (run.entry.name, run.method, fstr(g)),
                            "under a shift t of the problem the result of %s.%s moves by [%s], expected [%s]" % (
                                run.entry.name, run.method, fstr(g), fstr(want)))
