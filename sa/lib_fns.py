"""Models of the TensorFlow, numpy, math and scipy functions."""
from fractions import Fraction as Fr
import math

from . import terms as t
from .values import *
from . import lib_num as ln
from .lib_reg import ext, method, given, MISSING, FUNCS
from .lib_num import cls_of, mk, CPLXOF, REALOF, INTS, FLOATS, COMPLEX

S0 = Num(t.ZERO, "py", None, ())


# ------------------------------------------------------------------------------------ helpers
def conv(it, v):
    """numeric value of an argument (numbers, arrays, tensors, nested lists), or None"""
    n = it.num(v)
    if n is not None:
        return n
    if isinstance(v, (Tup, Ref)):
        if isinstance(v, Ref) and not isinstance(it.get(v), (ListO,)):
            return None
        its = it.items(v)
        if its is None:
            return None
        ns = [conv(it, x) for x in its]
        if any(x is None for x in ns):
            return None
        if not ns:
            return Num(t.opaque("vec", (), (), (t.ZERO,), "real"), "py", "float", (t.ZERO,))
        tf = [x for x in ns if x.kind == "tf"]
        if tf:
            kind, d = "tf", tf[0].dtype
            for x in ns:
                ln.tf_operand(it, "list of tensors", x, d)
        elif any(x.kind == "np" for x in ns):
            kind, d = ln.common(it, "list", ns)
        else:
            kind, d = "py", max((x.dtype for x in ns), key=lambda z: ln.PYRANK[z])
        sh = ns[0].shape
        if any(x.shape is None or not _sheq(it, x.shape, sh) for x in ns):
            return None
        fl = []
        if all(t.is_real(t.as_num(x.term)) for x in ns):
            fl.append("real")
            if all(t.is_int(t.as_num(x.term)) for x in ns):
                fl.append("int")
            if all(t.poly_nonneg(t.as_num(x.term)) for x in ns):
                fl.append("nonneg")
        shape = (t.num(len(ns)),) + tuple(sh)
        if d == "bool":
            return Num(t.bool_atom("vec", tuple(x.term for x in ns), (), shape), kind, d, shape)
        return Num(t.opaque("vec", tuple(t.as_num(x.term) for x in ns), (), shape, *fl), kind, d, shape)
    return None


def _sheq(it, a, b):
    return a is not None and b is not None and len(a) == len(b) and all(ln.dim_eq(it, x, y) for x, y in zip(a, b))


def to_dt(it, v, lib):
    """element type named by an argument, None if not given, or False if not understood"""
    if v is MISSING or (isinstance(v, K) and v.val is None):
        return None
    if isinstance(v, DT):
        return v.name
    if isinstance(v, Ext):
        n = v.path.split(".")[-1]
        m = {"float": "f64" if lib == "np" else "f32", "int": "i64" if lib == "np" else "i32", "bool": "bool",
             "complex": "c128"}.get(n)
        if m:
            return m
    if isinstance(v, K) and isinstance(v.val, str):
        return ("f32" if lib == "tf" and v.val == "float" else DTYPES.get(v.val, False))
    if lib == "tf" and isinstance(v, Num) and v.kind == "py" and v.dtype == "int" and t.const_val(v.term) in TFENUM:
        return TFENUM[int(t.const_val(v.term))]
    return False


TFENUM = {1: "f32", 2: "f64", 3: "i32", 4: "u8", 8: "c64", 9: "i64", 10: "bool", 14: "f16", 18: "c128", 19: "f16"}


DTYPES = {"float32": "f32", "float64": "f64", "complex64": "c64", "complex128": "c128", "int32": "i32", "int64": "i64",
          "bool": "bool", "bool_": "bool", "uint8": "u8", "double": "f64", "half": "f16", "float16": "f16",
          "float_": "f64", "int_": "i64", "complex_": "c128", "single": "f32", "cdouble": "c128", "csingle": "c64",
          "intp": "i64", "bfloat16": "f16", "float": "f64", "int": "i64", "complex": "c128", "int8": "i32",
          "uint16": "i32", "int16": "i32", "uint32": "i64"}


def tens(it, v, dtype=None):
    """argument of a tensor operation"""
    n = conv(it, v)
    if n is None or n.kind == "tf":
        return n
    if dtype is not None:
        ln.tf_operand(it, "argument", n, dtype)
        return n.with_(True, kind="tf", dtype=dtype, term=ln.cast_term(n.term, n.dtype, dtype))
    return n.with_(kind="tf", dtype=ln.tf_of(n.dtype))


def nparr(it, v):
    n = conv(it, v)
    if n is None:
        return None
    return n.with_(kind="np", dtype=ln.np_of(n.dtype))


def out(it, kind, dtype, term, shape, sel=None):
    return mk(it, kind, dtype, term, Num(t.ZERO, "py", None, shape, sel))


def bad(it, what, *vs):
    return it.unk("%s(%s)" % (what, ", ".join(type(v).__name__ for v in vs)))


def shape_arg(it, v):
    """shape given as a sequence, a number or a shape tensor"""
    n = it.num(v)
    if n is not None and n.shape == ():
        return (n.term,)
    if n is not None and n.shape is not None and len(n.shape) == 1:
        c = t.const_val(n.shape[0])
        if c is not None:
            return tuple(ln.at(n.term, t.num(i)) for i in range(int(c)))
        return None
    its = it.items(v)
    if its is None:
        return None
    r = []
    for x in its:
        n = it.num(x)
        if n is None or n.shape != ():
            return None
        if cls_of(n.dtype) != "int":
            it.throw("TypeError", K("shape is not made of integers"))
        r.append(n.term)
    return tuple(r)


def axes_arg(it, v, rank):
    """tuple of axes (all if not given), or None"""
    if not given(v):
        return tuple(range(rank))
    n = it.num(v)
    xs = [v] if n is not None and n.shape == () else it.items(v)
    if xs is None:
        return None
    r = []
    for x in xs:
        n = it.num(x)
        c = t.const_val(n.term) if n is not None else None
        if c is None:
            return None
        c = int(c)
        if not -rank <= c < rank:
            it.throw("ValueError", K("axis out of range"))
        r.append(c % rank if rank else 0)
    return tuple(sorted(r))


# ------------------------------------------------------------------------------------ elementwise
UN = {"cos": "cos", "sin": "sin", "tan": "tan", "exp": "exp", "log": "log", "tanh": "tanh", "sinh": "sinh",
      "cosh": "cosh", "acos": "acos", "arccos": "acos", "asin": "asin", "arcsin": "asin", "atan": "atan",
      "arctan": "atan", "sqrt": "sqrt", "abs": "abs", "fabs": "abs", "absolute": "abs", "sign": "sign",
      "floor": "floor", "ceil": "ceil", "real": "real", "imag": "imag", "conj": "conj", "conjugate": "conj",
      "angle": "angle", "square": "square", "negative": "neg", "reciprocal": "recip", "rsqrt": "rsqrt",
      "trunc": "trunc", "radians": "radians", "deg2rad": "radians", "degrees": "degrees", "rad2deg": "degrees",
      "round": "round", "rint": "round", "expm1": "expm1", "log1p": "log1p", "isnan": "is_nan", "sigmoid": "sigmoid",
      "positive": "id"}


def un_term(f, x):
    x = t.as_num(x)
    if f == "sqrt":
        return t.sqrt(x)
    if f == "square":
        return t.power(x, t.TWO)
    if f == "neg":
        return t.neg(x)
    if f == "recip":
        return t.power(x, t.num(-1))
    if f == "rsqrt":
        return t.power(x, t.num(Fr(-1, 2)))
    if f == "ceil":
        return t.ceil(x)
    if f == "trunc":
        return ln.truncate(x)
    if f == "radians":
        return t.div(t.mul(x, t.PI), t.num(180))
    if f == "degrees":
        return t.div(t.mul(x, t.num(180)), t.PI)
    if f == "expm1":
        return t.sub(t.fun("exp", x), t.ONE)
    if f == "log1p":
        return t.fun("log", t.add(x, t.ONE))
    if f == "sigmoid":
        return t.div(t.ONE, t.add(t.ONE, t.fun("exp", t.neg(x))))
    if f == "id":
        return x
    return t.fun(f, x)


def un_dtype(it, f, d, kind, what):
    c = cls_of(d)
    if f in ("abs", "real", "imag", "angle"):
        if c == "complex":
            return REALOF[d]
        if c == "bool":
            d = {"py": "int", "np": "i64"}.get(kind, d)
            c = "int"
        if f == "angle" and c == "int":
            return {"py": "float", "np": "f64"}.get(kind, d)
        return d
    if f in ("floor", "ceil", "sign", "square", "neg", "conj", "trunc", "id", "round"):
        if c == "bool" and kind == "tf":
            it.throw("TypeError", K("%s of booleans" % what))
        if c == "complex" and f in ("floor", "ceil"):
            it.throw("TypeError", K("%s of complex numbers" % what))
        return d
    if f == "is_nan":
        return "bool"
    if c in ("int", "bool"):
        if kind == "tf":
            it.issue("dtype", "%s applied to an integer tensor" % what)
            it.throw("InvalidArgumentError", K("%s of integers" % what))
        return "float" if kind == "py" else "f64"
    return d


def elementwise(it, lib, name, v):
    f = UN[name]
    if lib == "np" and isinstance(v, Ref) and isinstance(it.get(v), Inst):
        return it.unk("numpy function of an object")
    n = conv(it, v)
    if n is None:
        return bad(it, name, v)
    if lib == "tf":
        n = tens(it, v)
    elif lib == "np":
        n = n.with_(kind="np", dtype=ln.np_of(n.dtype))
    d = un_dtype(it, f, n.dtype, n.kind, name)
    if f == "is_nan":
        return ln.tracked(it, out(it, n.kind, "bool", t.bool_atom("is_nan", (t.as_num(n.term),), (), n.shape or ()), n.shape, n.sel), f, n)
    return ln.tracked(it, out(it, n.kind, d, un_term(f, n.term), n.shape, n.sel), f, n)


def _reg_un():
    for n in UN:
        for p in ("tf.%s", "tf.math.%s"):
            ext(p % n, "x,name=")(lambda it, x, name, n=n: elementwise(it, "tf", n, x))
        if n in ("real", "imag", "round"):
            ext("np.%s" % n, "x")(lambda it, x, n=n: elementwise(it, "np", n, x))
        elif n == "angle":
            ext("np.angle", "x,deg=")(lambda it, x, deg: angle(it, x, deg))
        else:
            ext("np.%s" % n, "x,out=,dtype=,where=")(
                lambda it, x, o, d, w, n=n: elementwise(it, "np", n, x)
                if not given(o) and not given(w) and not given(d)
                else it.unk("numpy function with out="))
        ext("math.%s" % n, "x")(lambda it, x, n=n: math_fn(it, n, [x]))
    ext("np.round np.around", "x,decimals=,out=")(
        lambda it, x, d, o: rounded(it, x, d) if not given(o) else it.unk("numpy function with out="))
    ext("tf.linalg.adjoint", "x")(lambda it, x: it.unk("adjoint"))
    ext("cmath.exp", "x")(lambda it, x: math_fn(it, "exp", [x], "complex"))


def angle(it, x, deg):
    r = elementwise(it, "np", "angle", x)
    d = it.truth(deg) if deg is not MISSING else t.FALSE
    if d is t.FALSE:
        return r
    if d is not t.TRUE:
        return it.unk("angle(deg=)")
    return elementwise(it, "np", "degrees", r)


def rounded(it, x, d):
    """x rounded to d decimal places, in the type of x"""
    n = conv(it, x)
    k = int_const(it, d) if given(d) else 0
    if n is None or k is None:
        return bad(it, "round", x)
    if k == 0 or cls_of(n.dtype) in ("int", "bool") and k > 0:
        return elementwise(it, "np", "round", x)
    s = t.num(Fr(10) ** k)
    n = n.with_(kind="np", dtype=ln.np_of(n.dtype))
    return out(it, "np", n.dtype, t.div(t.fun("round", t.mul(t.as_num(n.term), s)), s), n.shape, n.sel)


def int_const(it, v):
    n = it.num(v)
    c = t.const_val(n.term) if n is not None else None
    return int(c) if c is not None and c == int(c) else None


def math_fn(it, name, xs, dtype="float"):
    ns = []
    for x in xs:
        n = it.num(x)
        if n is None or n.shape != ():
            if n is None:
                return bad(it, "math." + name, x)
            it.throw("TypeError", K("math.%s of an array" % name))
        if cls_of(n.dtype) == "complex" and dtype != "complex":
            it.throw("TypeError", K("math.%s of a complex number" % name))
        ns.append(n.term)
    if name in ("floor", "ceil", "trunc"):
        dtype = "int"
    if len(ns) == 1:
        return Num(un_term(UN[name], ns[0]), "py", dtype)
    return Num(t.fun("atan2", *ns), "py", dtype)


_reg_un()


@ext("math.atan2", "y,x")
def _(it, y, x):
    return math_fn(it, "atan2", [y, x])


@ext("math.hypot", "x,y")
def _(it, x, y):
    return Num(t.sqrt(t.add(t.power(it.num(x).term, t.TWO), t.power(it.num(y).term, t.TWO))), "py", "float")


@ext("math.pow", "x,y")
def _(it, x, y):
    return Num(t.power(it.num(x).term, it.num(y).term), "py", "float")


@ext("math.factorial", "n")
def _(it, n):
    c = t.const_val(it.num(n).term)
    if c is None or c.denominator != 1 or c < 0:
        return it.unk("factorial")
    return Num(t.num(math.factorial(int(c))), "py", "int")


@ext("math.comb scipy.special.comb scipy.special.binom", "n,k,exact=")
def _(it, n, k, e):
    a, b = t.const_val(it.num(n).term), t.const_val(it.num(k).term)
    if a is None or b is None or a.denominator != 1 or b.denominator != 1 or a < 0 or b < 0:
        return it.unk("binomial coefficient")
    return Num(t.num(math.comb(int(a), int(b))), "py", "float")


@ext("scipy.special.factorial", "n,exact=")
def _(it, n, e):
    m = it.num(n)
    c = t.const_val(m.term) if m is not None else None
    if c is None or c.denominator != 1:
        return it.unk("factorial")
    return Num(t.num(math.factorial(int(c)) if c >= 0 else 0), "np", "f64")


@ext("scipy.special.gamma math.gamma", "n")
def _(it, n):
    c = t.const_val(it.num(n).term)
    if c is None or c.denominator != 1 or c < 1:
        return it.unk("gamma")
    return Num(t.num(math.factorial(int(c) - 1)), "np", "f64")


def binary(it, lib, op, a, b, what):
    x, y = conv(it, a), conv(it, b)
    if x is None or y is None:
        return bad(it, what, a, b)
    if lib == "tf":
        d = x.dtype if x.kind == "tf" else y.dtype if y.kind == "tf" else None
        x, y = tens(it, a, d if x.kind != "tf" else None), tens(it, b, d if y.kind != "tf" else None)
    elif lib == "np":
        x, y = (n.with_(kind="np", dtype=ln.np_of(n.dtype)) if n.kind == "tf" or n.shape != () or lib == "np" and n.kind == "np"
                else n for n in (x, y))
        if x.kind == "py" and y.kind == "py":
            x = x.with_(kind="np", dtype=ln.np_of(x.dtype))
    if op in ln.OPNAME:
        return ln.num_binop(it, op, x, y)
    if op in ("Eq", "NotEq", "Lt", "LtE", "Gt", "GtE"):
        return ln.num_compare(it, op, x, y)
    return ln.tracked(it, binary_fn(it, op, x, y, what), op, x, y)


def binary_fn(it, op, x, y, what):
    kind, d = ln.common(it, what, (x, y), op not in ("and", "or", "xor"))
    ns, sh = ln.broadcast(it, what, [x, y])
    if ns is None:
        return it.unk("broadcasting")
    p, q = ns[0].term, ns[1].term
    if op in ("and", "or", "xor"):
        p, q = t.as_bool(p), t.as_bool(q)
        r = t.land(p, q) if op == "and" else t.lor(p, q) if op == "or" else t.ite(p, t.lnot(q), q)
        return mk(it, kind, "bool", r, sh)
    p, q = t.as_num(p), t.as_num(q)
    if op in ("max2", "min2"):
        return mk(it, kind, d, t.fun(op, p, q), sh)
    if op == "atan2":
        return mk(it, kind, d if cls_of(d) == "float" else "f64", t.fun("atan2", p, q), sh)
    if op == "hypot":
        return mk(it, kind, d, t.sqrt(t.add(t.mul(p, p), t.mul(q, q))), sh)
    if op == "div_no_nan":
        return mk(it, kind, d, t.ite(t.eq(q, t.ZERO), t.ZERO, t.div(p, q)), sh)
    if op == "sqdiff":
        e = t.sub(p, q)
        return mk(it, kind, d, t.mul(e, e), sh)
    if op == "mul_no_nan":
        return mk(it, kind, d, t.ite(t.eq(q, t.ZERO), t.ZERO, t.mul(p, q)), sh)
    return it.unk(what)


BIN = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "truediv": "Div", "true_divide": "Div",
       "pow": "Pow", "power": "Pow", "floordiv": "FloorDiv", "floor_divide": "FloorDiv", "mod": "Mod",
       "floormod": "Mod", "remainder": "Mod",
       "maximum": "max2", "minimum": "min2", "atan2": "atan2", "arctan2": "atan2", "hypot": "hypot", "less": "Lt",
       "less_equal": "LtE", "greater": "Gt", "greater_equal": "GtE", "equal": "Eq", "not_equal": "NotEq",
       "logical_and": "and", "logical_or": "or", "logical_xor": "xor", "divide_no_nan": "div_no_nan",
       "multiply_no_nan": "mul_no_nan", "bitwise_and": "BitAnd", "bitwise_or": "BitOr", "bitwise_xor": "BitXor",
       "squared_difference": "sqdiff"}
for _n, _op in BIN.items():
    for _p in ("tf", "tf.math"):
        ext("%s.%s" % (_p, _n), "y,x,name=" if _n == "atan2" else "x,y,name=")(
            lambda it, x, y, name, n=_n, op=_op: binary(it, "tf", op, x, y, n))
    ext("np.%s" % _n, "x,y,out=,where=")(
        lambda it, x, y, o, w, n=_n, op=_op: binary(it, "np", op, x, y, n) if not given(o) and not given(w)
        else it.unk("numpy function with out="))
for _n, _op in {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "pow": "Pow", "floordiv": "FloorDiv",
                "mod": "Mod", "and_": "BitAnd", "or_": "BitOr", "xor": "BitXor"}.items():
    ext("operator." + _n, "a,b")(lambda it, a, b, op=_op: it.binop(op, a, b))
for _n, _op in {"lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq", "ne": "NotEq"}.items():
    ext("operator." + _n, "a,b")(lambda it, a, b, op=_op: it.compare(op, a, b))
ext("operator.neg", "a")(lambda it, a: it.unop("USub", a))
ext("operator.itemgetter", "k")(lambda it, k: Native("itemgetter", lambda i2, a, kw: i2.getitem(a[0], k)))
ext("operator.attrgetter", "k")(lambda it, k: Native("attrgetter", lambda i2, a, kw: i2.getattr(a[0], k.val)))


@ext("tf.logical_not tf.math.logical_not", "x,name=")
def _(it, x, name):
    n = tens(it, x)
    if n is None:
        return bad(it, "logical_not", x)
    return ln.tracked(it, out(it, "tf", "bool", t.lnot(n.term), n.shape, n.sel), "not", n)


@ext("np.logical_not np.invert np.bitwise_not", "x")
def _(it, x):
    n = nparr(it, x)
    if n is None:
        return bad(it, "logical_not", x)
    return out(it, "np", "bool", t.lnot(n.term), n.shape, n.sel)


@ext("tf.clip_by_value", "x,lo,hi,name=")
def _(it, x, lo, hi, name):
    return binary(it, "tf", "min2", binary(it, "tf", "max2", x, lo, "clip"), hi, "clip")


@ext("np.clip", "x,a_min=,a_max=,out=,min=,max=")
def _(it, x, lo, hi, o, l2, h2):
    if given(o):
        return it.unk("numpy function with out=")
    lo, hi = lo if given(lo) else l2, hi if given(hi) else h2
    r = binary(it, "np", "max2", x, lo, "clip") if given(lo) else x
    return binary(it, "np", "min2", r, hi, "clip") if given(hi) else r


@ext("tf.add_n tf.math.add_n", "xs,name=")
def _(it, xs, name):
    its = it.items(xs)
    if not its:
        return it.unk("add_n")
    r = its[0]
    for x in its[1:]:
        r = binary(it, "tf", "Add", r, x, "add_n")
    return r


@ext("tf.complex tf.dtypes.complex", "re,im,name=")
def _(it, re, im, name):
    a, b = conv(it, re), conv(it, im)
    if a is None or b is None:
        return bad(it, "complex", re, im)
    d = a.dtype if a.kind == "tf" else b.dtype if b.kind == "tf" else ln.tf_of(a.dtype)
    a, b = tens(it, re, d), tens(it, im, d)
    if a.dtype != b.dtype:
        ln.mixdtype(it, "tf.complex", a.dtype, b.dtype)
    if a.dtype not in ("f32", "f64"):
        it.throw("TypeError", K("tf.complex of %s" % a.dtype))
    ns, sh = ln.broadcast(it, "tf.complex", [a, b])
    return ln.tracked(it, mk(it, "tf", CPLXOF[a.dtype], t.add(t.as_num(ns[0].term), t.mul(t.I, t.as_num(ns[1].term))), sh), "complex", a, b)


# ------------------------------------------------------------------------------------ creation / conversion
def to_tensor(it, v, d, what):
    n = conv(it, v)
    if n is None:
        if isinstance(v, (K, Str)):
            if isinstance(v, K) and v.val is None:
                it.throw("ValueError", K("%s of None" % what))
            return it.unk("string tensor")
        if isinstance(v, Ref) and isinstance(it.get(v), Inst):
            it.throw("ValueError", K("%s of an object" % what))
        return bad(it, what, v)
    if d is None:
        return n.with_(kind="tf", dtype=ln.tf_of(n.dtype))
    if n.kind == "tf":
        if n.dtype != d:
            ln.mixdtype(it, what, n.dtype, d)
        return n
    c, cd = cls_of(n.dtype), cls_of(d)
    if n.kind == "py":
        ok = c == cd if "bool" in (c, cd) else ln.PYRANK[c] <= ln.PYRANK[cd]
        if not ok:
            it.throw("TypeError", K("%s: cannot convert %s to %s" % (what, n.dtype, d)))
    elif c == "complex" and cd != "complex":
        it.issue("dtype", "%s drops the imaginary part" % what)
    elif c == "float" and cd == "int":
        it.throw("TypeError", K("%s: cannot convert float array to integers" % what))
    return n.with_(True, kind="tf", dtype=d, term=ln.cast_term(n.term, n.dtype, d))


def _dt(it, v, lib):
    d = to_dt(it, v, lib)
    return d


@ext("tf.constant", "value,dtype=,shape=,name=")
def _(it, value, dtype, shape, name):
    d = _dt(it, dtype, "tf")
    if d is False:
        return it.unk("dtype argument")
    r = to_tensor(it, value, d, "tf.constant")
    if isinstance(r, Num) and given(shape):
        s = shape_arg(it, shape)
        if s is None or r.shape != ():
            return it.unk("tf.constant with shape")
        r = r.with_(shape=s)
    return r


@ext("tf.convert_to_tensor", "value,dtype=,dtype_hint=,name=")
def _(it, value, dtype, hint, name):
    d = _dt(it, dtype, "tf")
    if d is False:
        return it.unk("dtype argument")
    return to_tensor(it, value, d, "tf.convert_to_tensor")


@ext("tf.Variable", "initial_value=,trainable=,validate_shape=,caching_device=,name=,variable_def=,dtype=,import_scope=,constraint=,synchronization=,aggregation=,shape=")
def _(it, v, a, b, c, name, e, dtype, *rest):
    d = _dt(it, dtype, "tf")
    if d is False:
        return it.unk("dtype argument")
    r = to_tensor(it, v, d, "tf.Variable")
    if not isinstance(r, Num):
        return r
    if it.trackers and any(x is not None for x in it.trackers):
        it.issue("trace-effect", "a variable is created inside a compiled or cached function")
    return it.alloc(VarO(r))


@ext("tf.cast tf.dtypes.cast", "x,dtype,name=")
def _(it, x, dtype, name):
    d = _dt(it, dtype, "tf")
    if not d:
        return it.unk("dtype argument")
    n = tens(it, x)
    if n is None:
        return bad(it, "tf.cast", x)
    return n.with_(True, dtype=d, term=ln.cast_term(n.term, n.dtype, d))


@ext("tf.saturate_cast", "x,dtype,name=")
def _(it, x, dtype, name):
    return FUNCS["tf.cast"](it, [x, dtype], {})


@ext("tf.identity tf.stop_gradient tf.raw_ops.Identity", "x,name=")
def _(it, x, name):
    return tens(it, x)


@ext("tf.ensure_shape", "x,shape,name=")
def _(it, x, s, name):
    n = tens(it, x)
    if n is None or n.shape is None:
        return bad(it, "ensure_shape", x)
    its = it.items(s)
    if its is None:
        return n if isinstance(s, K) and s.val is None else it.unk("ensure_shape")
    if len(its) != len(n.shape):
        it.throw("ValueError", K("ensure_shape of another rank"))
    for v, k in zip(its, n.shape):
        if isinstance(v, K) and v.val is None:
            continue
        m = it.num(v)
        if m is None:
            return it.unk("ensure_shape")
        e = t.eq(m.term, k)
        if e is t.FALSE:
            it.throw("ValueError", K("ensure_shape of another shape"))
        if e is not t.TRUE:
            return it.unk("ensure_shape")
    return n


@ext("tf.debugging.check_numerics tf.debugging.assert_all_finite", "x,message,name=")
def _(it, x, m, name):
    return tens(it, x)


def rng(it, lib, args, dtype):
    vals = [conv(it, a) for a in args]
    if any(v is None or v.shape != () for v in vals):
        return it.unk("range bounds")
    if lib == "tf":
        ds = [v.dtype for v in vals if v.kind == "tf"]
        d = dtype or (ds[0] if ds else ("f32" if any(v.dtype in FLOATS for v in vals) else "i32"))
        for x in ds:
            if cls_of(x) != cls_of(d) or x != d:
                if dtype is None:
                    ln.mixdtype(it, "tf.range", x, d)
    else:
        d = dtype or ("f64" if any(cls_of(v.dtype) == "float" for v in vals) else "i64")
    ts = [v.term for v in vals]
    if len(ts) == 1:
        ts = [t.ZERO, ts[0]]
    step = ts[2] if len(ts) > 2 else t.ONE
    c = t.const_val(step)
    n = t.div(t.sub(ts[1], ts[0]), step)
    if c is None or not t.is_int(n):
        n = t.ceil(n)
    term = t.add(ts[0], t.mul(step, t.idx("v", n)))
    return out(it, lib, d, term, (n,))


@ext("tf.range", "start,limit=,delta=,dtype=,name=")
def _(it, a, b, c, dtype, name):
    return rng(it, "tf", [x for x in (a, b, c) if x is not MISSING], _dt(it, dtype, "tf"))


@ext("np.arange", "start,stop=,step=,dtype=")
def _(it, a, b, c, dtype):
    return rng(it, "np", [x for x in (a, b, c) if given(x)], _dt(it, dtype, "np"))


def linspace(it, lib, a, b, n, endpoint, dtype):
    x, y, m = conv(it, a), conv(it, b), conv(it, n)
    if x is None or y is None or m is None:
        return it.unk("linspace")
    k = m.term
    e = t.TRUE if not given(endpoint) else it.truth(endpoint)
    den = t.sub(k, t.ONE) if e is t.TRUE else k
    d = dtype or ("f64" if lib == "np" else (x.dtype if x.kind == "tf" else ln.tf_of(x.dtype)))
    return out(it, lib, d, t.add(x.term, t.mul(t.div(t.sub(y.term, x.term), den), t.idx("v", k))), (k,))


@ext("np.linspace", "start,stop,num=,endpoint=,retstep=,dtype=")
def _(it, a, b, n, e, r, d):
    return linspace(it, "np", a, b, n if given(n) else Num(t.num(50), "py", "int"), e, _dt(it, d, "np"))


@ext("tf.linspace", "start,stop,num,name=")
def _(it, a, b, n, name):
    return linspace(it, "tf", a, b, n, MISSING, None)


def filled(it, lib, v, s, d):
    n = conv(it, v)
    if n is None or n.shape != () or s is None:
        return it.unk("array creation")
    d = d or (ln.np_of(n.dtype) if lib == "np" else ln.tf_of(n.dtype))
    return out(it, lib, d, ln.cast_term(n.term, n.dtype, d), s)


for _n, _v in (("zeros", t.ZERO), ("ones", t.ONE)):
    ext("tf." + _n, "shape,dtype=,name=")(
        lambda it, s, d, name, v=_v: filled(it, "tf", Num(v, "py", "int"), shape_arg(it, s), _dt(it, d, "tf") or "f32"))
    ext("np." + _n, "shape,dtype=,order=")(
        lambda it, s, d, o, v=_v: filled(it, "np", Num(v, "py", "int"), shape_arg(it, s), _dt(it, d, "np") or "f64"))
    ext("tf.%s_like" % _n, "x,dtype=,name=")(
        lambda it, x, d, name, v=_v: _like(it, "tf", x, Num(v, "py", "int"), _dt(it, d, "tf")))
    ext("np.%s_like" % _n, "x,dtype=,order=,subok=,shape=")(
        lambda it, x, d, o, so, sh, v=_v: _like(it, "np", x, Num(v, "py", "int"), _dt(it, d, "np"), sh))


def _like(it, lib, x, v, d, sh=MISSING):
    n = conv(it, x)
    if n is None:
        return bad(it, "zeros_like", x)
    d = d or (ln.np_of(n.dtype) if lib == "np" else ln.tf_of(n.dtype))
    return filled(it, lib, v, shape_arg(it, sh) if given(sh) else n.shape, d)


@ext("tf.fill", "shape,value,name=")
def _(it, s, v, name):
    return filled(it, "tf", v, shape_arg(it, s), None)


@ext("np.full", "shape,value,dtype=,order=")
def _(it, s, v, d, o):
    return filled(it, "np", v, shape_arg(it, s), _dt(it, d, "np"))


@ext("np.full_like", "x,value,dtype=,order=,subok=,shape=")
def _(it, x, v, d, o, so, sh):
    return _like(it, "np", x, v, _dt(it, d, "np"), sh)


@ext("np.empty", "shape,dtype=,order=")
def _(it, s, d, o):
    sh = shape_arg(it, s)
    if sh is None:
        return it.unk("array creation")
    d = _dt(it, d, "np") or "f64"
    term = t.bool_atom("uninitialised", (), (fresh(),), sh) if d == "bool" else t.opaque("uninitialised", (), (fresh(),), sh)
    return out(it, "np", d, term, sh)


@ext("np.empty_like", "x,dtype=,order=,subok=,shape=")
def _(it, x, d, o, so, sh):
    n = nparr(it, x)
    if given(sh):
        return FUNCS["np.empty"](it, [sh, d if given(d) else DT(n.dtype, "np")], {})
    return FUNCS["np.empty"](it, [Tup([Num(k, "py", "int") for k in n.shape]), d if given(d) else DT(n.dtype, "np")], {})


def np_array(it, v, d, copy):
    if isinstance(v, HW):
        from .lib_misc import image_array
        return image_array(it, v, d)
    if isinstance(v, Ref) and isinstance(it.get(v), Inst):
        return it.unk("array of an object")
    if isinstance(v, Ref) and isinstance(it.get(v), ArrO) and not copy and d in (None, it.get(v).num.dtype):
        return v
    n = conv(it, v)
    if n is None:
        sy = it.symseq(v) if not isinstance(v, K) else None
        if sy is not None:
            return stack_seq(it, sy, "np", new_axis=True)
        return bad(it, "np.array", v)
    d2 = d or ln.np_of(n.dtype)
    if n.shape is not None and n.shape == () and copy is not None:
        return Num(ln.cast_term(n.term, n.dtype, d2), "np", d2, ())
    r = ln.tracked(it, out(it, "np", d2, ln.cast_term(n.term, n.dtype, d2), n.shape, n.sel), "cast", n)
    if not copy and n.kind == "tf" and isinstance(r, Ref):
        o = it.get(r)
        it.put(r, ArrO(o.num, -abs(o.buf)))
    return r


@ext("np.array", "x,dtype=,copy=,order=,subok=,ndmin=")
def _(it, x, d, c, o, s, nd):
    dt = _dt(it, d, "np")
    if dt is False:
        return it.unk("dtype argument")
    cp = True
    if given(c):
        cp = it.truth(c) is not t.FALSE
    r = np_array(it, x, dt, cp)
    k = int_const(it, nd) if given(nd) else 0
    if k is None:
        return it.unk("array(ndmin=)")
    n = it.num(r)
    while k and n is not None and n.shape is not None and len(n.shape) < k:
        r = FUNCS["np.expand_dims"](it, [r, Num(t.ZERO, "py", "int")], {})
        n = it.num(r)
    return r


@ext("np.asarray np.ascontiguousarray np.asanyarray", "x,dtype=,order=")
def _(it, x, d, o):
    dt = _dt(it, d, "np")
    if dt is False:
        return it.unk("dtype argument")
    return np_array(it, x, dt, False)


@ext("np.copy", "x,order=")
def _(it, x, o):
    return np_array(it, x, None, True)


def stack_seq(it, sy, lib, new_axis):
    n, elem = sy
    k = t.sym("$i", (), "int", "nonneg")
    e = it.num(elem(k))
    if e is None or e.shape is None or len(e.shape) == 0:
        return it.unk("stack of a sequence")
    if new_axis:
        sh = (n,) + tuple(e.shape)
    else:
        sh = (t.mul(n, e.shape[0]),) + tuple(e.shape[1:])
    name = "stack" if new_axis else "concat"
    if e.dtype == "bool":
        term = t.bool_atom(name, (n, e.term), (), sh)
    else:
        term = t.opaque(name, (n, e.term), (), sh, *(["real"] if e.dtype not in COMPLEX else []))
    return out(it, lib, e.dtype, term, sh)


def joined(it, xs, lib, axis, new_axis):
    its = it.items(xs)
    name = "stack" if new_axis else "concat"
    ax = 0
    if given(axis):
        c = t.const_val(it.num(axis).term) if it.num(axis) is not None else None
        if c is None:
            return it.unk(name)
        ax = int(c)
    if its is None:
        sy = it.symseq(xs)
        if sy is None or ax != 0:
            return bad(it, name, xs)
        return stack_seq(it, sy, lib, new_axis)
    ns = [tens(it, x) if lib == "tf" else nparr(it, x) for x in its]
    if not ns or any(x is None or x.shape is None for x in ns):
        return bad(it, name, xs)
    kind, d = ln.common(it, name, ns, False)
    if new_axis and ns[0].shape == ():
        r = conv(it, Tup([x for x in ns]))
        return out(it, lib, d, r.term, r.shape)
    if not new_axis and not ns[0].shape:
        it.throw("ValueError", K("concatenation of scalars"))
    if new_axis:
        sh = list(ns[0].shape)
        ax = ax % (len(sh) + 1)
        sh.insert(ax, t.num(len(ns)))
    else:
        sh = list(ns[0].shape)
        ax = ax % len(sh)
        for x in ns:
            if len(x.shape) != len(sh) or any(not ln.dim_eq(it, p, q) for i, (p, q) in enumerate(zip(x.shape, sh)) if i != ax):
                it.throw("ValueError", K("%s of different shapes" % name))
        sh[ax] = t.ZERO
        for x in ns:
            sh[ax] = t.add(sh[ax], x.shape[ax])
    if len(ns) == 1 and not new_axis:
        return out(it, lib, d, ns[0].term, ns[0].shape)
    ts = tuple(x.term for x in ns)
    if d == "bool":
        term = t.bool_atom(name + "s", ts, (ax,), tuple(sh))
    else:
        term = t.opaque(name + "s", tuple(t.as_num(x) for x in ts), (ax,), tuple(sh), *(["real"] if d not in COMPLEX else []))
    return out(it, lib, d, term, tuple(sh))


ext("np.concatenate np.concat", "xs,axis=")(lambda it, xs, a: joined(it, xs, "np", a, False))
ext("tf.concat", "xs,axis,name=")(lambda it, xs, a, n: joined(it, xs, "tf", a, False))
ext("np.stack", "xs,axis=")(lambda it, xs, a: joined(it, xs, "np", a, True))
ext("tf.stack", "xs,axis=,name=")(lambda it, xs, a, n: joined(it, xs, "tf", a, True))
ext("np.vstack np.row_stack", "xs")(lambda it, xs: joined(it, xs, "np", MISSING, False))
