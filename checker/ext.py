"""Summaries of the Python builtins, numpy, scipy and pylops, and the behaviour
of opaque user objects.  What matters here: which results share memory with an
argument, which calls write to an argument, and the kind of the result."""
from __future__ import annotations

from values import (AV, ANY, E, NOC, NONE, UNDEF, FuncVal, all_bufs, all_deps, boolean, num, string, union_deps)
from state import alts

# numpy functions (by last component) whose result may share memory with an argument
VIEW_FN = {"reshape", "ravel", "transpose", "swapaxes", "moveaxis", "rollaxis", "squeeze", "expand_dims",
           "atleast_1d", "atleast_2d", "atleast_3d", "asarray", "asanyarray", "ascontiguousarray",
           "asfortranarray", "real", "imag", "broadcast_to", "flip", "fliplr", "flipud", "rot90", "diagonal",
           "require", "array_split", "split", "hsplit", "vsplit", "real_if_close", "to_numpy",
           "to_cupy_conditional", "nan_to_num_view", "asarray_chkfinite", "asfarray", "asscalar", "get_array",
           "permute_dims", "matrix_transpose", "sliding_window_view", "as_strided"}
# value-preserving (the numbers are the same, the memory is not)
COPY_FN = {"copy", "deepcopy", "array", "asarray", "asanyarray", "ascontiguousarray", "to_numpy",
           "to_cupy_conditional", "asfortranarray", "reshape", "ravel", "squeeze", "expand_dims", "atleast_1d"}
# first argument is written
WRITE_FN = {"copyto": (0,), "put": (0,), "place": (0,), "putmask": (0,), "fill_diagonal": (0,), "shuffle": (0,),
            "put_along_axis": (0,), "inplace_set": (1,), "inplace_add": (1,), "inplace_multiply": (1,),
            "inplace_divide": (1,)}
SCALAR_FN = {"norm", "vdot", "trace", "det", "ndim", "size", "count_nonzero", "allclose", "array_equal",
             "iscomplexobj", "isrealobj", "isscalar", "inner_scalar", "result_type", "promote_types", "can_cast"}
BOOL_FN = {"allclose", "array_equal", "iscomplexobj", "isrealobj", "isscalar", "can_cast", "shares_memory",
           "may_share_memory", "issubdtype"}
REDUCE_FN = {"sum", "mean", "max", "min", "amax", "amin", "prod", "median", "average", "var", "std", "any", "all",
             "argmax", "argmin", "nansum", "nanmax", "nanmin", "ptp"}
# functions of numbers which do not accept None
BINARY_FN = {"dot", "vdot", "matmul", "maximum", "minimum", "multiply", "add", "subtract", "divide", "power", "isclose",
             "allclose", "inner", "outer"}
ARITH_FN = BINARY_FN | {"norm", "abs", "absolute", "sqrt", "exp", "log", "sign", "angle", "square", "arccos", "cos"}
RANDOM = {"normal", "uniform", "randn", "rand", "randint", "random", "choice", "permutation", "standard_normal",
          "default_rng", "seed", "random_sample", "integers"}
MODULE_FN = {"get_array_module", "get_module"}

ARR_VIEW_METH = {"reshape", "ravel", "transpose", "swapaxes", "squeeze", "view", "diagonal", "conj", "conjugate"}
ARR_COPY_METH = {"copy", "flatten"}
ARR_FRESH_METH = {"astype", "dot", "clip", "round", "cumsum", "cumprod", "repeat", "take", "argsort", "nonzero",
                  "compress", "choose", "searchsorted", "byteswap", "__copy__", "__deepcopy__"}
ARR_WRITE_METH = {"fill", "sort", "partition", "put", "itemset", "resize", "setflags", "setfield"}
ARR_RED_METH = {"sum", "mean", "max", "min", "prod", "std", "var", "any", "all", "argmax", "argmin", "ptp", "trace"}


def last(name):
    return name.split(".")[-1]


def is_np(name):
    return name.split(".")[0] in ("numpy", "cupy", "scipy", "pylops", "numba", "math", "builtins", "copy")


# ------------------------------------------------------------------ attributes
def mod_attr(I, mod, name):
    full = mod + "." + name
    if full in ("numpy.pi", "math.pi", "numpy.e", "math.e"):
        return num(3.14159, f=I.facet_map("const", 3.14159))
    if full in ("numpy.inf", "math.inf"):
        return num(float("inf"), f=I.facet_map("const", float("inf")))
    if full in ("numpy.nan", "math.nan"):
        return num(f=I.facet_map("const", 1.0))
    if full in ("numpy.newaxis",):
        return NONE
    if full.endswith("deps.cupy_enabled"):
        return boolean(False)
    return AV("extf", fn=full)


OBJ_ATTR = {"shape": "tuple", "dims": "tuple", "dimsd": "tuple", "explicit": "bool", "hasgrad": "bool",
            "A": "arr", "iava": "arr", "dtype": "any", "H": "ext", "T": "ext", "clinear": "bool",
            "sizex": "num", "sizey": "num", "x": "arr", "y": "arr", "n": "num", "m": "num", "k": "num", "size": "num",
            "ndim": "num", "sigmame": "num", "sigma": "num", "b": "arr"}
METHODS = {"prox", "proxdual", "grad", "matvec", "rmatvec", "matmat", "rmatmat", "dot", "div", "gradx", "grady",
           "lx", "ly", "updatex", "updatey", "updatexy", "eigs", "cond", "todense", "conj", "fun", "fungrad",
           "_matvec", "_rmatvec", "_matvecx", "_matvecy", "apply", "toreal", "toimag", "adjoint", "__call__", "affine_addition",
           "postcomposition", "precomposition", "chain", "get", "items", "keys", "values", "append"}


def rootname(o):
    fn = o.fn
    return fn if isinstance(fn, str) else repr(fn)


def ext_attr(I, o, name, node):
    I.emit("ext_attr", node, obj=o, attr=name)
    if name in METHODS:
        return AV("extmeth", fn=(o, name), deps=o.deps)
    k = OBJ_ATTR.get(name)
    d = o.deps
    if k == "tuple":
        return AV("tuple", deps=d, fn=("elem", AV("num", deps=d, val=frozenset([("attr", rootname(o), name)]),
                                                  f=I.facet_map("extnum", o, name))),
                  val=frozenset([("attr", rootname(o), name)]))
    if k == "bool":
        return AV("bool", deps=d, fn=("sid", ("attr", rootname(o), name)))
    if k == "arr":
        i = ("ext", rootname(o), name)
        return AV("arr", buf=frozenset([i]), val=frozenset([i]), deps=d, f=I.facet_map("extarr", o, name))
    if k == "num":
        return AV("num", deps=d, val=frozenset([("attr", rootname(o), name)]), f=I.facet_map("extnum", o, name))
    if k == "ext":
        fn = o.fn
        if isinstance(fn, tuple) and fn[0] == "H" and name == "H":
            return AV("ext", fn=fn[1], deps=d, f=I.facet_map("adjoint", o, name))
        return AV("ext", fn=("H" if name == "H" else "T", fn), deps=d, f=I.facet_map("adjoint", o, name))
    return AV("any", deps=d, fn=("sid", ("attr", rootname(o), name)), val=frozenset([("attr", rootname(o), name)]))


def value_attr(I, o, name, node):
    k = o.kind
    d = o.deps
    if k in ("arr", "any", "num"):
        if name == "shape":
            sv = frozenset(("shape", v) for v in o.val)
            return AV("tuple", deps=d, val=sv, fn=("elem", AV("num", deps=d, val=sv, f=I.facet_map("shapenum", o))),
                      f=I.facet_map("shape", o))
        if name in ("size", "ndim", "itemsize", "nbytes"):
            return AV("num", deps=d, val=frozenset((name, v) for v in o.val),
                      f=dict(I.facet_map("shapenum", o), **(I.facet_map("ndim", o) if name == "ndim" else {})))
        if name == "dtype":
            return AV("any", deps=d, val=frozenset(("dtype", v) for v in o.val), f=I.facet_map("dtypeof", o))
        if name == "T":
            if k == "num":
                return o
            return AV(k, buf=o.buf, val=frozenset(("T", v) if not (isinstance(v, tuple) and v[0] == "T") else v[1] for v in o.val),
                      deps=d, f=I.facet_map("view", "T", o, []))
        if name in ("real", "imag"):
            return AV(k, buf=o.buf, val=o.val, deps=d, f=I.facet_map("view", name, o, []))
        if name in ("flat", "base"):
            return AV(k, buf=o.buf, val=o.val, deps=d)
        if k == "any" and name in METHODS and not hasattr_num(name):
            return AV("extmeth", fn=(AV("ext", fn=("any", repr(sorted(map(repr, o.val)))), deps=d), name), deps=d)
    if k == "any" and not o.buf and name not in ALL_ARR_METH:
        return AV("any", deps=d, val=frozenset([("attr", repr(o.val), name)]))
    return AV("vmeth", fn=(o, name), deps=d)


ALL_ARR_METH = (ARR_VIEW_METH | ARR_COPY_METH | ARR_FRESH_METH | ARR_WRITE_METH | ARR_RED_METH
                | {"append", "insert", "pop", "extend", "remove", "index", "get", "items", "keys", "values", "update",
                   "setdefault", "join", "format", "split", "tolist", "item", "tobytes", "sum"})


def hasattr_num(name):
    return name in ALL_ARR_METH


def abstract_result(I, fv, selfav, args, node, d):
    name = fv.name.split(".")[-1]
    if name in ("fun", "__call__", "lx", "ly"):
        return I.mknum(node, deps=d)
    r = I.mkarr(node, deps=d)
    return r


# --------------------------------------------------------------------- arrays
def arr_index(I, o, i, node):
    d = o.deps | all_deps(i)
    f = I.facet_map("index", o, i)
    if o.kind == "any" and not o.buf:
        return AV("any", deps=d, val=frozenset([I.fresh(node, "idx")]), f=f)
    if o.kind == "any" and o.fn is not None:
        pass
    basic = _is_basic(i)
    if basic is False:
        r = I.mkarr(node, deps=d, f=f)
        return r
    val = frozenset([I.fresh(node, "idx")])
    if i.const is not NOC and i.kind in ("num",):
        val = frozenset(("item", v, i.const) for v in o.val)
    return AV(o.kind, buf=o.buf, val=val, deps=d, f=f)


def _is_basic(i):
    """Basic index (view) / advanced index (copy)."""
    if i.kind == "tuple":
        if i.parts is None:
            return True
        bs = [_is_basic(p) for p in i.parts]
        return not any(b is False for b in bs)
    if i.kind in ("slice", "num", "none", "bool"):
        return True
    if i.kind in ("arr", "list"):
        return False
    if i.kind == "union":
        return not any(_is_basic(p) is False for p in i.parts)
    return True


def arr_iter(I, a, node):
    return AV(a.kind, buf=a.buf, val=frozenset([I.fresh(node, "iter")]), deps=a.deps, f=I.facet_map("index", a, AV("num")))


def call_vmeth(I, o, name, args, kwargs, node):
    k = o.kind
    d = union_deps(o, *args, *kwargs.values())
    if k in ("list", "dict", "tuple", "str", "range"):
        return container_meth(I, o, name, args, kwargs, node, d)
    if "out" in kwargs and kwargs["out"].kind != "none":
        I.mutate(kwargs["out"], I.mkarr(node, deps=d), node, "out")
    if name in ARR_COPY_METH:
        f = I.facet_map("view", name, o, args)
        return AV("arr" if k != "num" else "num", buf=frozenset([I.fresh(node)]), val=o.val, deps=d, f=f)
    if name in ARR_VIEW_METH:
        f = I.facet_map("view", name, o, args, kwargs) if name not in ("conj", "conjugate") else I.facet_map("func", "numpy.conj", [o], {}, node)
        val = o.val if name in ("reshape", "ravel", "squeeze") else frozenset([I.fresh(node, "v")])
        return AV(k if k != "num" else "num", buf=o.buf, val=val, deps=d, f=f)
    if name in ARR_WRITE_METH:
        v = args[0] if args else None
        I.emit("item_store", node, target=o, index=None, value=v) if name == "fill" else None
        I.mutate(o, v, node, name)
        return NONE
    if name == "astype":
        cp = kwargs.get("copy")
        f = I.facet_map("astype", o, args[0] if args else kwargs.get("dtype"))
        i = I.fresh(node)
        nocopy = cp is not None and cp.const is False
        return AV("arr", buf=frozenset([i]) | (o.buf if nocopy else E), val=o.val, deps=d, f=f)
    if name in ("item", "tolist", "tobytes"):
        return AV("num" if name == "item" else "any", deps=d, val=frozenset([I.fresh(node)]), f=dict(o.f) if name == "item" else {})
    if name in ARR_RED_METH:
        return reduce_result(I, "numpy." + name, [o] + args, kwargs, node, d)
    f = I.facet_map("func", "numpy." + name, [o] + args, kwargs, node)
    if name in ARR_FRESH_METH or k == "arr":
        return I.mkarr(node, deps=d, f=f)
    return I.mkany(node, deps=d)


def container_meth(I, o, name, args, kwargs, node, d):
    if o.kind == "list":
        if name == "append":
            I.container_append(o, args[0], node)
            return NONE
        if name == "extend":
            I.container_append(o, I.elem_of(args[0], node), node, args[0])
            return NONE
        if name == "insert":
            dd = dict(I.st.mem.get(o.loc, {}))
            n = dd.get("#n")
            I.emit("container_write", node, obj=o, value=args[1])
            if n is not None and args[0].const is not NOC and isinstance(args[0].const, int) and n < 24:
                xs = [dd[i] for i in range(n)]
                xs.insert(args[0].const, args[1])
                I.st.mem[o.loc] = {**{i: x for i, x in enumerate(xs)}, "#n": len(xs)}
            else:
                el = I.join(*([v for kk, v in dd.items() if kk != "#n"] + [args[1]]))
                I.st.mem[o.loc] = {"#n": None, "*": el}
            return NONE
        if name in ("pop",):
            dd = dict(I.st.mem.get(o.loc, {}))
            n = dd.get("#n")
            I.emit("container_write", node, obj=o, value=NONE)
            idx = args[0].const if args and args[0].const is not NOC else (-1 if not args else None)
            if n is not None and isinstance(idx, int) and -n <= idx < n:
                xs = [dd[i] for i in range(n)]
                r = xs.pop(idx)
                I.st.mem[o.loc] = {**{i: x for i, x in enumerate(xs)}, "#n": len(xs)}
                return r
            el = I.elem_of(o, node)
            I.st.mem[o.loc] = {"#n": None, "*": el}
            return el
        if name == "copy":
            xs = I.elements(o)
            return I.new_list(node, xs, elem=I.elem_of(o, node) if xs is None else None)
        if name in ("sort", "reverse", "clear", "remove"):
            I.emit("container_write", node, obj=o, value=NONE)
            xs = I.elements(o)
            if name == "reverse" and xs is not None:
                I.st.mem[o.loc] = {**{i: x for i, x in enumerate(reversed(xs))}, "#n": len(xs)}
            elif name == "clear":
                I.st.mem[o.loc] = {"#n": 0}
            else:
                el = I.elem_of(o, node)
                I.st.mem[o.loc] = {"#n": None, "*": el}
            return NONE
    if o.kind == "dict":
        dd = I.st.mem.get(o.loc, {})
        if name == "get":
            kv = args[0]
            dflt = args[1] if len(args) > 1 else kwargs.get("default", NONE)
            if kv.const is not NOC and kv.const in dd:
                return dd[kv.const]
            if "*" in dd:
                return I.join(dd["*"], dflt)
            return dflt if "#open" not in dd else I.join(ANY.with_(deps=d), dflt)
        if name == "pop":
            I.emit("container_write", node, obj=o, value=NONE)
            kv = args[0]
            dflt = args[1] if len(args) > 1 else NONE
            if kv.const is not NOC and kv.const in dd:
                nd = dict(dd)
                r = nd.pop(kv.const)
                I.st.mem[o.loc] = nd
                return r
            return I.join(dd["*"], dflt) if "*" in dd else dflt
        if name in ("items", "keys", "values"):
            ks = I.elements(o)
            if ks is not None:
                if name == "keys":
                    return AV("tuple", parts=tuple(ks))
                if name == "values":
                    return AV("tuple", parts=tuple(dd[x.const] for x in ks))
                return AV("tuple", parts=tuple(AV("tuple", parts=(x, dd[x.const])) for x in ks))
            el = I.join(*([v for k, v in dd.items() if k != "#open"] or [ANY]))
            if name == "items":
                el = AV("tuple", parts=(string(), el))
            elif name == "keys":
                el = string()
            return AV("tuple", fn=("elem", el))
        if name == "copy":
            loc = ("D",) + I.fresh(node, "dict")
            I.st.mem[loc] = dict(dd)
            return AV("dict", loc=loc)
        if name in ("update", "setdefault"):
            I.emit("container_write", node, obj=o, value=args[0] if args else NONE)
            nd = dict(dd)
            if name == "setdefault":
                kv = args[0]
                v = args[1] if len(args) > 1 else NONE
                if kv.const is not NOC and kv.const in nd:
                    return nd[kv.const]
                if kv.const is not NOC:
                    nd[kv.const] = v
                else:
                    nd["*"] = I.join(nd["*"], v) if "*" in nd else v
                I.st.mem[o.loc] = nd
                return v
            for a in args:
                for x in alts(a):
                    if x.kind == "dict":
                        nd.update(I.st.mem.get(x.loc, {}))
                    else:
                        nd["*"] = ANY.with_(deps=x.deps)
            for kk, v in kwargs.items():
                nd[kk] = v
            I.st.mem[o.loc] = nd
            return NONE
    if o.kind == "str":
        return string(deps=d) if name not in ("split", "splitlines") else ANY.with_(deps=d)
    if o.kind in ("tuple", "range") and name in ("index", "count"):
        return I.mknum(node, deps=d)
    return I.mkany(node, deps=d)


def reduce_result(I, name, args, kwargs, node, d):
    f = I.facet_map("func", name, args, kwargs, node)
    ax = kwargs.get("axis")
    nm = last(name)
    isb = nm in ("any", "all")
    a0 = args[0] if args else None
    if a0 is not None and a0.const is not NOC and a0.kind in ("num", "bool") and nm in (
            "any", "all", "min", "max", "amin", "amax", "nanmin", "nanmax"):
        return boolean(bool(a0.const), deps=d) if isb else a0
    for fac in I.facets:
        m = getattr(fac, "reduce", None)
        if m is not None and a0 is not None:
            r = m(nm, a0)
            if r is not None:
                return r
    if len(args) > 1 and nm not in ("norm",):
        ax = args[1] if ax is None else ax
    if ax is None or ax.kind == "none":
        if isb:
            return AV("bool", deps=d, val=frozenset([I.fresh(node)]))
        return I.mknum(node, deps=d, f=f)
    return I.mkarr(node, deps=d, f=f)


# ------------------------------------------------------------ function calls
def isinstance_(I, o, c):
    """True/False/None."""
    cs = I.elements(c) if c.kind in ("tuple",) else None
    if cs is None:
        cs = [c]
    rs = [_isinst1(I, o, x) for x in cs]
    if any(r is True for r in rs):
        return True
    if all(r is False for r in rs):
        return False
    sids = [r for r in rs if isinstance(r, tuple)]
    return sids[0] if sids else None


def _isinst1(I, o, c):
    k = o.kind
    if c.kind == "union":
        return None
    if c.kind == "cls":
        if k == "inst":
            return c.fn in o.fn.mro()
        if k == "ext":
            return ("isinst", rootname(o), c.fn.name)
        if k in ("arr", "num", "bool", "str", "none", "tuple", "list", "dict", "func", "bound"):
            return False
        return None
    nm = last(c.fn) if isinstance(c.fn, str) else None
    if nm is None:
        return None
    if k == "arr":
        return nm in ("ndarray", "cp_dtype", "array")
    if k == "num":
        if nm in ("float", "floating", "Number", "Real"):
            if o.const is not NOC:
                return isinstance(o.const, float) or nm in ("Number", "Real")
            if o.fn == "int":
                return nm in ("Number", "Real")
            if o.fn == "float":
                return True
            return None
        if nm in ("int", "integer", "Integral"):
            if o.const is not NOC:
                return isinstance(o.const, int)
            if o.fn == "int":
                return True
            if o.fn == "float":
                return False
            return None
        return nm in ("generic", "number", "Number", "complex") and None
    if k == "bool":
        return nm in ("bool", "int", "bool_") or None if nm in ("bool", "int", "bool_") else False
    if k == "str":
        return nm == "str"
    if k == "none":
        return nm == "NoneType"
    if k in ("tuple",):
        return nm in ("tuple", "Sequence", "Iterable")
    if k == "list":
        return nm in ("list", "Sequence", "Iterable")
    if k == "dict":
        return nm in ("dict", "Mapping")
    if k in ("func", "bound"):
        return nm in ("Callable", "FunctionType")
    if k == "ext":
        if nm in ("ndarray", "int", "float", "str", "tuple", "list", "dict", "bool", "cp_dtype", "bool_"):
            return False
        return ("isinst", rootname(o), nm)
    if k == "inst":
        return False
    return None


def callable_(o):
    k = o.kind
    if k in ("func", "bound", "extf", "extmeth", "vmeth", "cls", "ext"):
        return True
    if k in ("num", "bool", "arr", "str", "none", "tuple", "list", "dict"):
        return False
    return None


def _bool(r, d=E):
    if isinstance(r, bool):
        return boolean(r)
    if isinstance(r, tuple):
        return AV("bool", deps=d, fn=("sid", r))
    return boolean(deps=d)


def content_deps(I, vs):
    """Dependences of values including what the containers among them hold."""
    d = union_deps(*vs)
    seen = set()
    todo = list(vs)
    while todo:
        v = todo.pop()
        for x in alts(v):
            if x.kind in ("list", "dict") and x.loc not in seen:
                seen.add(x.loc)
                ws = [w for k, w in I.st.mem.get(x.loc, {}).items() if isinstance(w, AV)]
                d = d | union_deps(*ws)
                todo += ws
            elif x.kind == "tuple":
                if x.parts:
                    todo += x.parts
                elif isinstance(x.fn, tuple) and x.fn and x.fn[0] == "elem" and isinstance(x.fn[1], AV):
                    d = d | all_deps(x.fn[1])
                    todo.append(x.fn[1])
    return d


def call_ext(I, name, args, kwargs, node):
    d = content_deps(I, args + list(kwargs.values())) if isinstance(args, list) else union_deps(*args, *kwargs.values())
    nm = last(name)
    root = name.split(".")[0]
    I.emit("ext_call", node, name=name, args=args, kwargs=kwargs)
    if nm in ("empty", "empty_like", "ndarray") and root in ("numpy", "cupy", "builtins"):
        d = d | {"uninit@%s:%d" % (I.cur_mod, getattr(node, "lineno", 0))}
    if root == "builtins":
        r = builtin(I, nm, args, kwargs, node, d)
        if r is not None:
            return r
    if root == "super":
        return NONE
    if nm in ARITH_FN and root in ("numpy", "cupy", "math") and any(a.kind == "none" for a in args[:2 if nm in BINARY_FN else 1]):
        I.emit("none_use", node, op=nm)
        I.do_raise("TypeError", node, True)
    # writes through arguments
    if "out" in kwargs and kwargs["out"].kind not in ("none",):
        f = I.facet_map("func", name, args, {k: v for k, v in kwargs.items() if k != "out"}, node)
        v = I.mkarr(node, deps=d, f=f)
        I.mutate(kwargs["out"], v, node, "out")
        return kwargs["out"].with_(deps=kwargs["out"].deps | d)
    for k in kwargs:
        if k.startswith("overwrite") and kwargs[k].const is not False and kwargs[k].kind != "none":
            for a in args[:2]:
                I.mutate(a, None, node, k)
    if nm in WRITE_FN and is_np(name):
        for k in WRITE_FN[nm]:
            if k < len(args):
                I.mutate(args[k], args[1 - k] if len(args) > 1 and k < 2 else None, node, nm)
        if nm.startswith("inplace"):
            return args[1] if len(args) > 1 else ANY
        return NONE
    if name.startswith("numpy.") and nm == "at" and args:
        I.mutate(args[0], args[-1], node, "at")
        return NONE
    if nm in ("time", "perf_counter", "now", "today", "getenv", "urandom") or (".random" in name) or (nm in RANDOM and root in ("numpy", "random")):
        I.emit("impure", node, name=name)
        for fac in I.facets:
            m = getattr(fac, "random_value", None)
            r = m(name, args) if m is not None else None
            if r is not None:
                return num(r, deps=d | {"impure"}, f=I.facet_map("const", r))
        return AV("arr" if ".random" in name and args else "num", deps=d | {"impure"}, val=frozenset([I.fresh(node)]),
                  buf=frozenset([I.fresh(node, "b")]) if ".random" in name else E, f=I.facet_map("random", name))
    if nm in MODULE_FN:
        return AV("mod", fn="numpy")
    if nm == "get_module_name":
        return string("numpy")
    if nm == "get_normalize_axis_index":
        return AV("extf", fn="numpy.normalize_axis_index")
    if nm in ("deepcopy", "copy") and (root == "copy" or name.startswith("numpy") or True) and args:
        return copy_value(I, args[0], node, deep=nm == "deepcopy", d=d)
    if nm == "asarray" and args and args[0].kind in ("num", "bool") or nm == "array" and args and args[0].kind in ("num", "bool"):
        f = I.facet_map("func", name, args, kwargs, node)
        return AV("arr", buf=frozenset([I.fresh(node)]), val=args[0].val, deps=d, f=f)
    if nm in ("array", "asarray", "stack", "vstack", "hstack", "concatenate", "column_stack", "row_stack", "dstack", "block"):
        if args and args[0].kind in ("list", "tuple"):
            el = I.elem_of(args[0], node)
            d2 = d | el.deps
            f = I.facet_map("func", name, args, kwargs, node)
            return I.mkarr(node, deps=d2, f=f)
    if nm == "array" and args:
        cp = kwargs.get("copy")
        f = I.facet_map("func", name, args, kwargs, node)
        a = args[0]
        buf = frozenset([I.fresh(node)])
        if cp is not None and cp.const is not True:
            buf |= all_bufs(a)
        return AV("arr", buf=buf, val=a.val, deps=d, f=f)
    if nm in VIEW_FN and args and is_np(name):
        a = args[0]
        if a.kind in ("num", "bool"):
            return AV("num" if nm in ("real", "imag", "squeeze", "to_numpy") else "arr", val=a.val, deps=d,
                      buf=E if nm in ("real", "imag", "squeeze", "to_numpy") else frozenset([I.fresh(node)]),
                      f=I.facet_map("view", nm, a, args[1:], kwargs))
        if a.kind in ("list", "tuple"):
            el = I.elem_of(a, node)
            return I.mkarr(node, deps=d | el.deps, f=I.facet_map("func", name, args, kwargs, node))
        f = I.facet_map("view", nm, a, args[1:], kwargs)
        val = a.val if nm in COPY_FN else frozenset([I.fresh(node, "v")])
        return AV(a.kind if a.kind in ("arr", "any") else "arr", buf=a.buf or frozenset([I.fresh(node, "vb")]), val=val, deps=d, f=f)
    if nm in BOOL_FN:
        for fac in I.facets:
            m = getattr(fac, "predicate", None)
            if m is not None:
                r = m(nm, args, kwargs)
                if r is not None:
                    return r if isinstance(r, AV) else boolean(r)
        return AV("bool", deps=d, val=frozenset([I.fresh(node)]))
    if nm == "isclose":
        for fac in I.facets:
            m = getattr(fac, "predicate", None)
            if m is not None:
                r = m(nm, args, kwargs)
                if r is not None:
                    return r if isinstance(r, AV) else boolean(r)
    if nm in REDUCE_FN and (root in ("numpy", "cupy")):
        return reduce_result(I, name, args, kwargs, node, d)
    if nm == "norm":
        return reduce_result(I, name, args[:1], kwargs, node, d)
    f = I.facet_map("func", name, args, kwargs, node)
    if nm in ("dot", "vdot", "inner") and len(args) == 2:
        # vector . vector: a scalar; matrix products keep an array
        return AV("any", deps=d, val=frozenset([I.fresh(node)]), f=f)
    if nm in SCALAR_FN or root == "math":
        if root == "math" and args and args[0].const is not NOC:
            try:
                import math
                c = getattr(math, nm)(*[a.const for a in args])
                return num(c, deps=d, f=I.facet_map("const", c))
            except Exception:
                pass
        return I.mknum(node, deps=d, f=f)
    if nm in ("svd", "eigh", "qr", "eig", "cho_factor", "lu_factor", "meshgrid", "unique_counts"):
        n = {"svd": 3, "eigh": 2, "qr": 2, "eig": 2, "cho_factor": 2, "lu_factor": 2}.get(nm, 2)
        parts = tuple(I.mkarr(node, deps=d, tag=nm + str(i), f=I.facet_map("multi", name, i, args, kwargs)) for i in range(n))
        return AV("tuple", parts=parts)
    if nm in ("lsqr", "cg", "cgls", "lsmr", "gmres", "minres", "bicgstab", "regularized_inversion", "normal_equations_inversion",
              "preconditioned_inversion"):
        I.emit("iter_solve", node, name=name, args=args, kwargs=kwargs)
        r = I.mkarr(node, deps=d, tag="sol", f=I.facet_map("solve", name, args, kwargs))
        return AV("tuple", parts=(r,), fn=("open",), deps=d) if False else AV("tuple", fn=("elem", r))
    if nm in ("bisect", "brentq", "newton", "fsolve"):
        I.emit("root_find", node, name=name, args=args, kwargs=kwargs)
        # the function handed over is evaluated
        fun = args[0] if args else kwargs.get("f", kwargs.get("func"))
        more = kwargs.get("args", args[3] if nm in ("bisect", "brentq") and len(args) > 3 else None)
        more = [] if more is None else I.elements(more) if more.kind in ("tuple", "list") else [more]
        if fun is not None and fun.kind in ("func", "bound") and more is not None:
            x = I.mknum(node, deps=d, tag="root", f=I.facet_map("rootarg", args[1:3]))
            try:
                r = I.call(fun, [x] + list(more), {}, node)
                d = d | r.deps
            except Exception as e:
                from interp import Dead
                if not isinstance(e, Dead):
                    raise
        return I.mknum(node, deps=d, tag="r", f=I.facet_map("rootarg", args[1:3]))
    if root == "pylops" and nm.strip("_").islower() and nm.startswith("_"):
        return I.mkarr(node, deps=d, f=f)
    if root == "pylops":
        I.emit("linop_new", node, name=name, args=args, kwargs=kwargs)
        return AV("ext", fn=("linop", nm, I.site(node)), deps=d, buf=union_bufs(args), f=I.facet_map("linop", nm, args, kwargs, node))
    if root == "warnings" or root == "logging":
        return AV("ext", fn=("log",), deps=E) if nm == "getLogger" else NONE
    if root in ("numpy", "cupy", "scipy"):
        if nm in ("float64", "float32", "int64", "int32", "complex64", "complex128", "dtype", "bool_", "float_", "int_"):
            if args and nm not in ("dtype",):
                return AV(args[0].kind, const=NOC, val=args[0].val, deps=d, buf=E, f=f)
            return AV("extf", fn="numpy." + (args[0].const if nm == "dtype" and args and isinstance(args[0].const, str) else nm))
        if nm in ("range", "arange"):
            return I.mkarr(node, deps=d, f=f)
        if nm in ("where",) and len(args) == 1:
            return AV("tuple", fn=("elem", I.mkarr(node, deps=d)))
        if nm in ("finfo", "iinfo"):
            return AV("ext", fn=("finfo",), deps=d)
        scalarin = args and all(a.kind in ("num", "bool") for a in args) and nm not in (
            "zeros", "ones", "full", "empty", "eye", "identity", "linspace", "diag", "tri", "arange", "logspace")
        if scalarin:
            return I.mknum(node, deps=d, f=f)
        return I.mkarr(node, deps=d, f=f)
    if root in ("typing", "collections", "abc", "typing_extensions", "functools", "types"):
        if nm in ("wraps", "lru_cache", "cache", "singledispatch", "partial"):
            if nm in ("lru_cache", "cache"):
                I.emit("cache_decorator", node, name=name)
            if nm == "partial" and args:
                return AV("partial", fn=(args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))) if False else ANY.with_(deps=d)
            return AV("extf", fn="functools.identity")
        if nm == "identity" and args:
            return args[0]
        return ANY
    I.unknown[name] = I.unknown.get(name, 0) + 1
    I.initialised(args + list(kwargs.values()))
    return I.mkany(node, deps=d)


def union_bufs(args):
    b = E
    for a in args:
        b |= all_bufs(a)
    return b


def copy_value(I, a, node, deep, d):
    outs = []
    for x in alts(a):
        if x.kind in ("arr",):
            outs.append(AV("arr", buf=frozenset([I.fresh(node)]), val=x.val, deps=d | x.deps, f=dict(x.f)))
        elif x.kind == "any":
            outs.append(AV("any", buf=frozenset([I.fresh(node)]) if x.buf else E, val=x.val, deps=d | x.deps, f=dict(x.f)))
        elif x.kind == "list":
            xs = I.elements(x)
            cp = (lambda v: copy_value(I, v, node, True, d)) if deep else (lambda v: v)
            outs.append(I.new_list(node, [cp(v) for v in xs] if xs is not None else None,
                                   elem=cp(I.elem_of(x, node)) if xs is None else None))
        elif x.kind == "dict":
            loc = ("D",) + I.fresh(node, "dict")
            I.st.mem[loc] = dict(I.st.mem.get(x.loc, {}))
            outs.append(AV("dict", loc=loc))
        elif x.kind == "inst":
            loc = ("O",) + I.fresh(node, "copy") + (x.fn.name,)
            attrs = dict(I.st.mem.get(x.loc, {}))
            if deep:
                attrs = {k: (copy_value(I, v, node, True, d) if v.kind in ("arr", "list", "dict", "any", "union") else v)
                         for k, v in attrs.items()}
            I.st.mem[loc] = attrs
            outs.append(AV("inst", loc=loc, fn=x.fn))
        elif x.kind == "ext":
            outs.append(x.with_(fn=("copy", x.fn)))
        else:
            outs.append(x.with_(deps=x.deps | d) if x.kind != "none" else x)
    return I.join(*outs)


def builtin(I, nm, args, kwargs, node, d):
    if nm == "print":
        I.emit("print", node, args=args)
        return NONE
    if nm == "isinstance":
        rs = []
        for a in alts(args[0]):
            rs.append(_bool(isinstance_(I, a, args[1]), a.deps))
        return I.join(*rs)
    if nm == "callable":
        rs = [_bool(callable_(a), a.deps) for a in alts(args[0])]
        return I.join(*rs)
    if nm == "issubclass":
        return boolean()
    if nm in ("hasattr", "getattr", "setattr", "delattr"):
        o, k = args[0], args[1]
        if k.const is NOC:
            if nm == "setattr":
                I.emit("attr_write", node, obj=o, attr="?", value=args[2])
                return NONE
            return boolean(deps=d) if nm == "hasattr" else ANY.with_(deps=d)
        if nm == "setattr":
            I.set_attr(o, k.const, args[2], node)
            return NONE
        if nm == "delattr":
            return NONE
        outs = []
        for a in alts(o):
            if a.kind == "inst":
                v = I.st.get(a.loc, k.const)
                maybe = v is not None and v.kind == "union" and any(p.kind == "undef" for p in v.parts)
                if v is not None and v.kind == "undef":
                    v = None
                if nm == "hasattr":
                    present = v is not None or a.fn.lookup(k.const)[0] is not None
                    outs.append(boolean() if maybe else boolean(present))
                else:
                    if v is not None or a.fn.lookup(k.const)[0] is not None:
                        r = I.attr(a, k.const, node)
                        outs.append(I.join(r, args[2]) if maybe and len(args) > 2 else r)
                    elif len(args) > 2:
                        outs.append(args[2])
                    else:
                        outs.append(I.attr(a, k.const, node))
            elif a.kind == "ext":
                sid = ("hasattr", rootname(a), k.const)
                if nm == "hasattr":
                    outs.append(AV("bool", deps=a.deps, fn=("sid", sid)))
                else:
                    outs.append(I.attr(a, k.const, node) if not len(args) > 2 else I.join(I.attr(a, k.const, node), args[2]))
            elif nm == "hasattr":
                outs.append(boolean(deps=a.deps))
            else:
                r = I.attr(a, k.const, node, quiet=True)
                outs.append(r if r is not None else (args[2] if len(args) > 2 else ANY))
        return I.join(*outs)
    if nm == "len":
        a = args[0]
        xs = I.elements(a) if a.kind != "union" else None
        if xs is not None:
            return num(len(xs))
        if a.kind == "none":
            I.emit("none_use", node, op="len")
            I.do_raise("TypeError", node, True)
        key = frozenset(("len", v) for v in a.val) if a.val else frozenset([I.fresh(node)])
        if a.kind in ("list", "dict"):
            key = frozenset([("len", a.loc)])
        return AV("num", deps=d, val=key, fn="int", f=dict(I.facet_map("shapenum", a), **I.facet_map("length", a)))
    if nm == "range":
        cs = [a.const for a in args]
        if all(c is not NOC and isinstance(c, int) for c in cs):
            r = range(*cs)
            if len(r) <= 12:
                return AV("range", parts=tuple(num(i, f=I.facet_map("const", i)) for i in r))
        el = AV("num", deps=d, val=frozenset([I.fresh(node, "i")]), fn="int", f=I.facet_map("index_num"))
        return AV("range", fn=("elem", el) + tuple(args), deps=d)
    if nm == "enumerate":
        xs = I.elements(args[0])
        if xs is not None:
            return AV("tuple", parts=tuple(AV("tuple", parts=(num(i), x)) for i, x in enumerate(xs)))
        el = AV("tuple", parts=(AV("num", deps=d, val=frozenset([I.fresh(node, "i")]), fn="int", f=I.facet_map("index_num")), I.elem_of(args[0], node)))
        return AV("tuple", fn=("elem", el))
    if nm == "zip":
        xss = [I.elements(a) for a in args]
        if xss and all(x is not None for x in xss):
            return AV("tuple", parts=tuple(AV("tuple", parts=t) for t in zip(*xss)))
        return AV("tuple", fn=("elem", AV("tuple", parts=tuple(I.elem_of(a, node) for a in args))))
    if nm in ("list", "tuple", "set", "frozenset", "sorted", "reversed", "iter"):
        if not args:
            return I.new_list(node, []) if nm != "tuple" else AV("tuple", parts=())
        xs = I.elements(args[0]) if args[0].kind != "union" else None
        if xs is not None and nm in ("list", "tuple", "reversed", "iter"):
            if nm == "reversed":
                xs = xs[::-1]
            return AV("tuple", parts=tuple(xs)) if nm in ("tuple", "iter", "reversed") else I.new_list(node, xs)
        el = I.elem_of(args[0], node)
        return AV("tuple", fn=("elem", el), deps=d) if nm in ("tuple", "iter") else I.new_list(node, None, elem=el)
    if nm == "next":
        return I.elem_of(args[0], node)
    if nm == "map" or nm == "filter":
        el = I.elem_of(args[1], node)
        if nm == "map":
            xs = I.elements(args[1])
            if xs is not None and len(args) == 2:
                rs = []
                for k, x in enumerate(xs):
                    c = I.ctx
                    I.ctx = c + (("map", k),)
                    rs.append(I.call(args[0], [x], {}, node))
                    I.ctx = c
                return AV("tuple", parts=tuple(rs))
            r = I.call(args[0], [el] + [I.elem_of(a, node) for a in args[2:]], {}, node)
            return AV("tuple", fn=("elem", r))
        return AV("tuple", fn=("elem", el))
    if nm == "dict":
        loc = ("D",) + I.fresh(node, "dict")
        dd = {k: v for k, v in kwargs.items() if k != "**"}
        for a in args:
            for x in alts(a):
                if x.kind == "dict":
                    dd = {**I.st.mem.get(x.loc, {}), **dd}
                elif x.kind != "none":
                    dd["*"] = ANY.with_(deps=x.deps)
        if "**" in kwargs:
            dd["*"] = kwargs["**"]
        I.st.mem[loc] = dd
        return AV("dict", loc=loc)
    if nm in ("all", "any"):
        xs = I.elements(args[0])
        if xs is not None:
            ts = [I.truth(x) for x in xs]
            if nm == "all":
                if any(t is False for t in ts):
                    return boolean(False)
                if all(t is True for t in ts):
                    return boolean(True)
            else:
                if any(t is True for t in ts):
                    return boolean(True)
                if all(t is False for t in ts):
                    return boolean(False)
            d2 = union_deps(*xs) if xs else E
            return boolean(deps=d | d2)
        el = I.elem_of(args[0], node)
        return boolean(deps=d | el.deps)
    if nm in ("max", "min", "sum"):
        seq = args
        if len(args) == 1 or nm == "sum":
            xs = I.elements(args[0]) if args[0].kind != "union" else None
            seq = xs if xs is not None else [I.elem_of(args[0], node)]
            if nm == "sum" and len(args) > 1:
                seq = [args[1]] + list(seq)
        if seq and all(a.const is not NOC and a.kind in ("num", "bool") for a in seq):
            c = {"max": max, "min": min, "sum": sum}[nm]([a.const for a in seq])
            return num(c, f=I.facet_map("const", c))
        if not seq:
            return num(0)
        d2 = d | union_deps(*seq)
        f = I.facet_map("func", "builtins." + nm, list(seq), {}, node)
        if nm == "sum":
            r = seq[0]
            import ast as _ast
            for s in seq[1:]:
                r = I.binop(_ast.Add(), r, s, node)
            return r if len(seq) > 1 else r.with_(deps=r.deps | d2)
        if any(a.kind == "none" for a in seq):
            I.emit("none_use", node, op=nm)
            I.do_raise("TypeError", node, True)
        return AV("num", deps=d2, val=frozenset([I.fresh(node)]), f=f)
    if nm in ("float", "int", "complex", "abs", "round", "bool"):
        if not args:
            return num(0)
        a = args[0]
        if a.kind == "none" and nm != "bool":
            I.emit("none_use", node, op=nm)
            I.do_raise("TypeError", node, True)
        if nm == "bool":
            t = I.truth(a) if a.kind != "union" else None
            if t is not None:
                return boolean(t, deps=a.deps)
            return AV("bool", deps=d, val=a.val)
        if a.const is not NOC and a.kind in ("num", "bool"):
            try:
                c = {"float": float, "int": int, "abs": abs, "round": round, "complex": complex}[nm](a.const)
                return num(c, deps=a.deps, f=I.facet_map("const", c))
            except Exception:
                pass
        f = I.facet_map("func", "builtins." + nm, args, kwargs, node)
        if nm in ("abs", "round") and a.kind in ("arr", "any"):
            return I.mkarr(node, deps=d, f=f) if a.kind == "arr" else I.mkany(node, deps=d).with_(f=f)
        return AV("num", deps=d, val=a.val if nm in ("float", "int") else frozenset([I.fresh(node)]), f=f,
                  fn=nm if nm in ("int", "float") else None)
    if nm in ("str", "repr", "format", "chr"):
        return string(deps=d)
    if nm == "type":
        a = args[0]
        if a.kind == "inst":
            return AV("cls", fn=a.fn)
        return AV("any", deps=d, val=frozenset(("type", v) for v in a.val))
    if nm == "property":
        return AV("property", fn=(args[0],)) if args else ANY
    if nm in ("staticmethod", "classmethod"):
        a = args[0]
        if a.kind == "func":
            fv = a.fn
            return a.with_(fn=FuncVal(fv.node, fv.mod, fv.closure, fv.cls, fv.name, fv.defaults, fv.kwdefaults,
                                      fv.decos + (("static" if nm == "staticmethod" else "class"),)))
        return a
    if nm == "super":
        if len(args) == 2 and args[0].kind == "cls" and args[1].kind == "inst":
            return AV("super", fn=(args[1], args[0].fn))
        return ANY
    if nm == "slice":
        ps = list(args) + [NONE] * (3 - len(args))
        return AV("slice", parts=tuple(ps[:3]) if len(args) > 1 else (NONE, args[0], NONE))
    if nm in ("id", "hash"):
        I.emit("impure", node, name="builtins." + nm)
        return I.mknum(node, deps=d | {"impure"})
    if nm == "vars":
        return ANY
    if nm in ("pow", "divmod"):
        import ast as _ast
        if nm == "pow" and len(args) == 2:
            return I.binop(_ast.Pow(), args[0], args[1], node)
    if nm == "object":
        return AV("ext", fn=("object", I.site(node)))
    return None


# ------------------------------------------------------------- opaque objects
def call_extmeth(I, o, name, args, kwargs, node):
    d = union_deps(o, *args, *kwargs.values())
    ev = I.emit("extcall", node, obj=o, meth=name, args=args, kwargs=kwargs)
    f = I.facet_map("ext", o, name, args, kwargs, node)
    r = None
    if name in ("prox", "proxdual", "matvec", "rmatvec", "dot", "_matvec", "_rmatvec"):
        i = I.fresh(node)
        b = frozenset([i])
        if args and I.opaque_alias:
            b |= all_bufs(args[0])
        r = AV("arr", buf=b, val=frozenset([i]), deps=d, f=f)
    elif name in ("grad", "gradx", "grady"):
        i = I.fresh(node)
        b = frozenset([i])
        if args and I.opaque_alias:
            b |= all_bufs(args[0])
        r = AV("arr", buf=b, val=frozenset([i]), deps=d, f=f)
    elif name in ("div", "matmat", "rmatmat", "todense", "_matvecx", "_matvecy"):
        r = I.mkarr(node, deps=d, f=f)
    elif name in ("lx", "ly", "fun", "eigs", "cond"):
        r = I.mknum(node, deps=d, f=f)
    elif name in ("updatex", "updatey", "updatexy"):
        r = NONE
    elif name in ("affine_addition", "postcomposition", "precomposition", "chain", "adjoint", "conj"):
        r = AV("ext", fn=("compose", name, o.fn), deps=d, f=I.facet_map("ext_compose", name, o, args, kwargs))
    else:
        r = I.mkany(node, deps=d)
    ev["result"] = r
    return r


def call_extobj(I, o, args, kwargs, node):
    d = union_deps(o, *args, *kwargs.values())
    ev = I.emit("extcall", node, obj=o, meth="__call__", args=args, kwargs=kwargs)
    role = o.f.get("role") if isinstance(o.f, dict) else None
    f = I.facet_map("ext", o, "__call__", args, kwargs, node)
    if role is None:
        role = role_of(o)
    if role == "fn_arr":
        i = I.fresh(node)
        b = frozenset([i])
        for a in args[:1]:
            b |= all_bufs(a) if I.opaque_alias else E
        r = AV("arr", buf=b, val=frozenset([i]), deps=d, f=f)
    elif role in ("obj", "fn_num"):
        r = AV("num", val=frozenset([I.fresh(node)]), deps=d, f=f)
    elif role == "fn_none":
        r = NONE
    elif role == "fn_solver":
        # an inner solver: returns an iterate or a tuple starting with it
        i = I.fresh(node)
        b = frozenset([i])
        if "x0" in kwargs and I.opaque_alias:
            b |= all_bufs(kwargs["x0"])
        arr = AV("arr", buf=b, val=frozenset([i]), deps=d, f=f)
        r = AV("union", parts=(arr, AV("tuple", fn=("elem", arr))))
    else:
        r = I.mkany(node, deps=d).with_(f=f)
    ev["result"] = r
    return r


ROLES = {}


def role_of(o):
    fn = o.fn
    while True:
        if isinstance(fn, str):
            return ROLES.get(fn)
        if isinstance(fn, tuple) and fn[0] in ("item", "copy", "neg", "compose", "affine") and len(fn) > 1:
            if fn[0] == "item":
                base = fn[1]
                r = ROLES.get(base if isinstance(base, str) else None)
                return r
            fn = fn[-1]
            continue
        return "obj" if isinstance(fn, tuple) and fn and fn[0] == "linop" else None


def ext_binop(I, t, a, b, n):
    deps = all_deps(a) | all_deps(b)
    if a.kind == "ext" and b.kind == "ext":
        return AV("ext", fn=(t, a.fn, b.fn), deps=deps, f=I.facet_map("linop_binop", t, a, b))
    if a.kind == "ext":
        if t in ("Mult", "MatMult") and (b.kind in ("arr",) or (b.kind == "any")):
            ev = I.emit("extcall", n, obj=a, meth="matvec", args=[b], kwargs={}, sugar=True)
            i = I.fresh(n)
            f = I.facet_map("ext", a, "matvec", [b], {}, n)
            r = AV("arr", buf=frozenset([i]) | (all_bufs(b) if I.opaque_alias else E), val=frozenset([i]), deps=deps, f=f)
            ev["result"] = r
            return r
        if t in ("Add", "Sub") and b.kind in ("arr", "any"):
            I.emit("ext_affine", n, obj=a, arg=b, op=t)
            return AV("ext", fn=("affine", a.fn), deps=deps, f=I.facet_map("ext_add", t, a, b))
        return AV("ext", fn=(t, a.fn, "num"), deps=deps, f=I.facet_map("linop_binop", t, a, b))
    # b is ext
    if t in ("Mult",):
        return AV("ext", fn=(t, "num", b.fn), deps=deps, f=I.facet_map("linop_binop", t, a, b))
    if t == "MatMult":
        return I.mkarr(n, deps=deps)
    return AV("ext", fn=(t, "num", b.fn), deps=deps, f=I.facet_map("linop_binop", t, a, b))
