"""Attributes and subscripts of library values."""
from . import terms as t
from .values import *
from . import lib_num as ln
from .lib_num import cls_of
from .lib_reg import FUNCS, METHODS, MISSING
from . import lib_fns, lib_arr, lib_misc, lib_more
from .lib_call import call_method, traced

DTNAMES = {"float32": "f32", "float64": "f64", "complex64": "c64", "complex128": "c128", "int32": "i32", "int64": "i64",
           "uint8": "u8"}
NPMORE = {"bool_": "bool", "bool": "bool", "double": "f64", "single": "f32", "cdouble": "c128", "csingle": "c64",
          "intp": "i64", "int_": "i64", "longdouble": "f64", "clongdouble": "c128"}
REMOVED_NP = ("float", "int", "complex", "object", "float_", "complex_", "string_", "str", "Inf", "NaN", "product",
              "cumproduct", "alltrue", "sometrue", "in1d", "trapz")
MISC = {"scipy.constants.micro": ("1e-6",), "scipy.constants.nano": ("1e-9",), "scipy.constants.milli": ("1e-3",),
        "scipy.constants.centi": ("1e-2",), "scipy.constants.pico": ("1e-12",), "scipy.constants.kilo": ("1e3",),
        "scipy.constants.mega": ("1e6",)}
NP_MODULES = ("fft", "random", "linalg", "typing", "testing", "polynomial")


def ext_attr(it, e, name):
    from . import lib
    from .interp import lit
    p = e.path + "." + name
    if e.path.startswith("builtins."):
        if name in ("__name__", "__qualname__"):
            return K(e.path[9:])
        if e.path == "builtins.object":
            if name == "__setattr__":
                return Native("object.__setattr__", lambda i, a, k: (i.setattr_raw(a[0], a[1].val, a[2]), NONE)[1])
            if name == "__init__":
                return Native("object.__init__", lambda i, a, k: NONE)
            if name == "__new__":
                return Native("object.__new__", lambda i, a, k: i.alloc(Inst(a[0], {})))
        return Ext(p)
    if e.path == "tf":
        if name in DTNAMES or name == "bool":
            return DT(DTNAMES.get(name, "bool"), "tf")
        if name == "newaxis":
            return NONE
    if e.path in ("tf", "tf.dtypes") and name in ("float16", "half", "bfloat16"):
        return DT("f16", "tf")
    if e.path == "tf.dtypes" and (name in DTNAMES or name == "bool"):
        return DT(DTNAMES.get(name, "bool"), "tf")
    if e.path == "np":
        if name in DTNAMES or name in NPMORE:
            return DT(DTNAMES.get(name) or NPMORE[name], "np")
        if name == "newaxis":
            return NONE
        if name in REMOVED_NP:
            it.throw("AttributeError", K("numpy.%s" % name))
    if e.path in ("np", "math", "scipy.constants", "cmath") and name in ("pi", "e", "inf", "nan", "tau"):
        if name == "pi":
            return Num(t.PI, "py", "float")
        if name == "tau":
            return Num(t.mul(t.TWO, t.PI), "py", "float")
        if name == "e":
            return Num(t.fun("exp", t.ONE), "py", "float")
        return lit(float(name))
    if p in MISC:
        return lit(float(MISC[p][0]))
    root = e.path.split(".")[0]
    if root in ("ALP4", "Luxbeam") and name.upper() == name and p not in FUNCS:
        return lib.mkhw(p, ())
    if p in ("os.sep", "os.environ", "sys.argv", "sys.path", "os.name", "sys.platform"):
        return Str(p) if p in ("os.sep", "os.name", "sys.platform") else HW(p)
    if name == "__version__":
        return Str(p)
    if name == "__name__":
        return K(e.path)
    return Ext(p)


# ------------------------------------------------------------------------------------ arrays and containers
def shape_tuple(n):
    return Tup([Num(d, "py", "int") for d in n.shape])


BIN = {"__%s__" % v: k for k, v in {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow",
       "FloorDiv": "floordiv", "Mod": "mod", "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "MatMult": "matmul"}.items()}
CMP = {"__eq__": "Eq", "__ne__": "NotEq", "__lt__": "Lt", "__le__": "LtE", "__gt__": "Gt", "__ge__": "GtE"}
UNA = {"__neg__": "USub", "__pos__": "UAdd", "__invert__": "Invert"}


def dunder(it, v, name):
    """special method of a built-in value, or None"""
    if name in BIN:
        return Native(name, lambda i, a, k: i.binop(BIN[name], v, a[0]))
    if name.startswith("__r") and "__" + name[3:] in BIN:
        op = BIN["__" + name[3:]]
        return Native(name, lambda i, a, k: i.binop(op, a[0], v))
    if name in CMP:
        return Native(name, lambda i, a, k: i.compare(CMP[name], v, a[0]))
    if name in UNA:
        return Native(name, lambda i, a, k: i.unop(UNA[name], v))
    if name == "__abs__":
        return Native(name, lambda i, a, k: FUNCS["builtins.abs"](i, [v], {}))
    if name == "__len__":
        return Native(name, lambda i, a, k: FUNCS["builtins.len"](i, [v], {}))
    if name == "__getitem__":
        return Native(name, lambda i, a, k: i.getitem(v, a[0]))
    if name == "__setitem__":
        return Native(name, lambda i, a, k: (i.setitem(v, a[0], a[1]), NONE)[1])
    if name == "__getattribute__":
        return Native(name, lambda i, a, k: i.dist(lambda nm: i.getattr(v, nm.val), a[0]))
    return None


def num_attr(it, v, n, name):
    """attribute of a number, array, tensor or variable (value v, contents n)"""
    from . import lib
    if n.kind == "py":
        if name in ("real", "imag"):
            d = {"complex": "float", "bool": "int"}.get(n.dtype, n.dtype)
            return Num(t.fun(name, t.as_num(n.term)), "py", d)
        if name in ("conjugate", "is_integer"):
            return Method(v, name)
        r = dunder(it, v, name)
        if r is not None:
            return r
        it.throw("AttributeError", K("%s.%s" % (n.dtype, name)))
    if name == "dtype":
        return DT(n.dtype, n.kind)
    if name == "shape":
        if n.shape is None:
            return it.unk("shape")
        return shape_tuple(n)
    if name == "ndim":
        return Num(t.num(len(n.shape)), "py", "int") if n.shape is not None else it.unk("ndim")
    if name == "name" and n.kind == "tf":
        return Str("tensor name")
    if n.kind == "np":
        if name == "size":
            return Num(t.size(n.shape), "py", "int") if n.shape is not None else it.unk("size")
        if name == "nbytes":
            return it.unk("nbytes")
        if name == "T":
            return FUNCS["np.transpose"](it, [v], {})
        if name in ("real", "imag"):
            r = FUNCS["np." + name](it, [v], {})
            if isinstance(v, Ref) and isinstance(r, Ref):
                o, p = it.get(v), it.get(r)
                if cls_of(n.dtype) != "complex" and name == "real":
                    return v
                it.put(r, ArrO(p.num, o.buf))
            return r
        if name == "flat":
            return it.unk("flat")
        if name == "flags":
            return HW("np.flags")
        if name == "dot":
            return Native("dot", lambda i, a, k: FUNCS["np.dot"](i, [v] + a, k))
    if n.kind == "tf":
        if name == "device":
            return Str("device")
        if name == "graph":
            return HW("graph")
        if name in ("numpy", "tolist", "item") and traced(it) and not isinstance(v, Ref):
            it.throw("AttributeError", K("%s of a symbolic tensor" % name))
        if name in ("T", "astype", "copy", "reshape", "size", "sum", "mean", "max", "min", "any", "all", "clip",
                    "ravel", "transpose", "conj", "conjugate", "real", "imag", "flatten", "tobytes", "round",
                    "squeeze", "fill", "tolist", "item") \
                and name not in ("item", "tolist"):
            it.throw("AttributeError", K("Tensor.%s" % name))
    r = dunder(it, v, name)
    if r is not None:
        return r
    isvar = isinstance(v, Ref) and isinstance(it.get(v), VarO)
    if name in ("assign", "assign_add", "assign_sub", "value", "read_value") and not isvar:
        it.throw("AttributeError", K(name))
    if name in ("initialized_value", "trainable"):
        return it.unk(name)
    if name in METHODS:
        return Method(v, name)
    if name.startswith("_") or name in ("n", "m", "_func"):
        it.throw("AttributeError", K(name))
    if n.kind == "np" and name not in NP_METHODS:
        it.throw("AttributeError", K(name))
    return it.unk("attribute %s of an array" % name)


NP_METHODS = ("argmax argmin argsort cumsum cumprod diagonal dump dumps getfield nonzero ptp repeat searchsorted "
              "strides std swapaxes take trace var view base data itemsize itemset choose compress ctypes").split()


def obj_attr(it, r, o, name):
    if isinstance(o, (ArrO, VarO)):
        n = it.num(r)
        if name == "dtype":
            return DT(n.dtype, n.kind)
        return num_attr(it, r, n, name)
    if isinstance(o, ListO):
        d = dunder(it, r, name)
        return d if d is not None else Method(r, name)
    if isinstance(o, DictO):
        d = dunder(it, r, name)
        return d if d is not None else Method(r, name)
    if isinstance(o, IterO):
        return Method(r, name)
    return it.unk("attribute %s" % name)


def obj_setattr(it, r, o, name, v):
    from . import lib
    if isinstance(o, ArrO):
        if name == "shape":
            n = lib_fns.shape_arg(it, v)
            if n is not None and len(n) == len(o.num.shape) and all(ln.dim_eq(it, a, b) for a, b in zip(n, o.num.shape)):
                return
            lib.overwrite(it, r, None)
            return
        it.throw("AttributeError", K("attribute %s of an array is not writable" % name))
    it.throw("AttributeError", K(name))


def fn_attr(it, f, name):
    if name in ("__name__", "__qualname__"):
        g = f
        while isinstance(g, (Wrapped, BM)):
            g = g.fn
        return K(getattr(g, "name", "function"))
    if name == "__doc__":
        return Str("doc")
    if name == "__wrapped__" and isinstance(f, Wrapped):
        return f.fn
    if name == "python_function" and isinstance(f, Wrapped):
        return f.fn
    if name == "__self__" and isinstance(f, BM):
        return f.obj
    if name == "__func__" and isinstance(f, BM):
        return f.fn
    if name == "__call__":
        return f
    if name in ("__signature__", "__dict__", "__module__", "__annotations__"):
        return HW("function." + name)
    g = f.fn if isinstance(f, BM) else f
    if isinstance(g, Wrapped) and g.how == "memoised":
        if name == "cache_clear":
            def clear(i, a, k):
                pre = "%s|" % g.uid
                i.st.memo = {kk: v for kk, v in i.st.memo.items() if not (kk + "|").startswith(pre)}
                return NONE
            return Native("cache_clear", clear)
        if name == "cache_info":
            return Native("cache_info", lambda i, a, k: HW("cache_info"))
    if isinstance(g, Wrapped) and name in ("get_concrete_function", "experimental_get_tracing_count"):
        return Native(name, lambda i, a, k: i.unk(name))
    if isinstance(f, (BM, Wrapped)):
        return fn_attr(it, f.fn, name)
    it.throw("AttributeError", K(name))


def prop_attr(it, p, name):
    if name == "setter":
        return Native("setter", lambda i, a, k: Prop(p.fget, a[0], p.fdel, p.cached))
    if name == "getter":
        return Native("getter", lambda i, a, k: Prop(a[0], p.fset, p.fdel, p.cached))
    if name == "deleter":
        return Native("deleter", lambda i, a, k: Prop(p.fget, p.fset, a[0], p.cached))
    if name in ("fget", "fset", "fdel"):
        return getattr(p, name) or NONE
    return it.unk("property attribute")


DTINFO = {"f32": "float32", "f64": "float64", "c64": "complex64", "c128": "complex128", "i32": "int32", "i64": "int64",
          "bool": "bool", "u8": "uint8"}


def value_attr(it, v, name):
    from . import lib
    if isinstance(v, Num):
        return num_attr(it, v, v, name)
    if isinstance(v, (K, Str)):
        if isinstance(v, K) and (v.val is None or not isinstance(v.val, (str, bytes))):
            it.throw("AttributeError", K("%s has no attribute %s" % (type(v.val).__name__, name)))
        d = dunder(it, v, name)
        return d if d is not None else Method(v, name)
    if isinstance(v, HW):
        if v.path in ("logger", "object"):
            return Native(name, lambda i, a, k: NONE)
        return lib.mkhw(v.path + "." + name, (v,))
    if isinstance(v, DT):
        c = cls_of(v.name)
        B = lambda b: Num(t.T(b), "py", "bool")
        if name == "is_complex":
            return B(c == "complex")
        if name == "is_floating":
            return B(c == "float")
        if name == "is_integer":
            return B(c == "int")
        if name == "is_bool":
            return B(c == "bool")
        if name == "as_numpy_dtype":
            return DT(v.name, "np")
        if name == "real_dtype":
            return DT(ln.REALOF.get(v.name, v.name), v.lib)
        if name == "name":
            return K(DTINFO.get(v.name, v.name))
        if name == "base_dtype":
            return v
        if name == "kind":
            return K({"bool": "b", "int": "u" if v.name == "u8" else "i", "float": "f", "complex": "c"}[c])
        if name == "type":
            return DT(v.name, "np")
        if name in ("size", "itemsize"):
            return Num(t.num({"f32": 4, "f64": 8, "c64": 8, "c128": 16, "i32": 4, "i64": 8}.get(v.name, 1)), "py", "int")
        if name == "__eq__":
            return Native(name, lambda i, a, k: i.compare("Eq", v, a[0]))
        if name == "__ne__":
            return Native(name, lambda i, a, k: i.compare("NotEq", v, a[0]))
        if name in ("max", "min", "limits"):
            return it.unk("limits of an element type")
        it.throw("AttributeError", K(name))
    if isinstance(v, InstDict):
        return Native(name, lambda i, a, k: lib.with_inst_dict(i, v, lambda r: lib.dict_method(i, r, i.get(r), name, a, k)))
    if isinstance(v, NTup):
        x = lib_misc.ntup_attr(it, v, name)
        if x is not None:
            return x
    if isinstance(v, Tup):
        d = dunder(it, v, name)
        if d is not None:
            return d
        if name in ("as_list", "rank", "ndims", "is_fully_defined", "num_elements", "dims"):
            if name == "as_list":
                return Native(name, lambda i, a, k: i.alloc(ListO(v.items)))
            if name in ("rank", "ndims"):
                return Num(t.num(len(v.items)), "py", "int")
            if name == "num_elements":
                return Native(name, lambda i, a, k: Num(t.size(tuple(x.term for x in v.items)), "py", "int"))
            if name == "is_fully_defined":
                return Native(name, lambda i, a, k: Num(t.TRUE, "py", "bool"))
        if name in ("index", "count"):
            return Method(v, name)
        it.throw("AttributeError", K("tuple.%s" % name))
    if isinstance(v, ExcV):
        if name == "args":
            return Tup(v.args)
        if name == "__class__":
            return Ext("builtins." + v.name)
        if name == "with_traceback":
            return Native(name, lambda i, a, k: v)
        return it.unk("attribute of an exception")
    if isinstance(v, (RangeV,)):
        if name in ("start", "stop", "step"):
            return Num(getattr(v, name), "py", "int")
    if isinstance(v, Method):
        return it.unk("attribute of a method")
    return it.unk("attribute %s of %s" % (name, type(v).__name__))


# ------------------------------------------------------------------------------------ subscripts
def _leaves(x):
    return _leaves(x.a) + _leaves(x.b) if x.kind == "ite" else [x]


def slice_cases(it, i):
    """an index whose slice parts depend on a condition (a step of 1 or -1, a negative start): [(guard, index)] or None"""
    ind = list(i.items) if isinstance(i, Tup) else [i]
    for p, k in enumerate(ind):
        if not isinstance(k, SliceV):
            continue
        for f in ("c", "a", "b"):
            v = getattr(k, f)
            m = v if isinstance(v, Num) else None
            if m is None or m.shape != () or m.term.kind != "ite":
                if isinstance(v, Choice):
                    return [(g, _with(i, ind, p, k, f, w)) for g, w in v.alts]
                continue
            cs = [t.const_val(x) for x in _leaves(m.term)]
            if f == "c" or any(c is not None and c < 0 for c in cs):
                g = t.mk_ite(m.term.cond, t.TRUE, t.FALSE)
                return [(g, _with(i, ind, p, k, f, m.with_(term=m.term.a))),
                        (t.lnot(g), _with(i, ind, p, k, f, m.with_(term=m.term.b)))]
    return None


def _with(i, ind, p, k, f, v):
    parts = {"a": k.a, "b": k.b, "c": k.c, f: v}
    s = SliceV(parts["a"], parts["b"], parts["c"])
    return Tup(ind[:p] + [s] + ind[p + 1:]) if isinstance(i, Tup) else s


def getitem(it, o, i):
    from . import lib
    if isinstance(o, Unk):
        return o
    if isinstance(i, Unk):
        return i
    if isinstance(o, InstDict):
        return lib.with_inst_dict(it, o, lambda r: getitem(it, r, i))
    cs = slice_cases(it, i)
    if cs is not None:
        return it.branch([(g, (lambda w=w: getitem(it, o, w))) for g, w in cs])
    if isinstance(o, Ext):
        if o.path in ("np.mgrid", "np.ogrid"):
            return lib_more.grid(it, o.path, i)
        return Ext(o.path + "[]") if o.path.split(".")[0] in ("typing", "collections", "builtins", "np") \
            else it.unk("subscript of %s" % o.path)
    if isinstance(o, HW):
        return lib.mkhw(o.path + "[]", (o, i))
    if isinstance(o, Ref):
        h = it.get(o)
        if isinstance(h, Inst):
            m = it.find_attr(h.cls, "__getitem__")
            if m is None:
                it.throw("TypeError", K("object is not subscriptable"))
            return it.call(it.bind(m, o), [i], {})
        if isinstance(h, DictO):
            return lib.dict_get(it, o, i, None)
        if isinstance(h, ListO):
            its = it.items(o)
            if its is None:
                if h.kind == "sym" and isinstance(i, Num) and i.shape == ():
                    k = i.term
                    if t.const_val(k) is not None and t.const_val(k) < 0:
                        k = t.add(h.items[0].n, k)
                    return h.items[0].elem(k)
                return it.unk("list item")
            return seq_get(it, its, i, lambda x: it.alloc(ListO(x)))
        if isinstance(h, (ArrO, VarO)):
            n = it.num(o)
            r = ln.index(it, n, i)
            if r is None:
                return it.unk("array index")
            m, view = r
            if isinstance(h, VarO):
                return m.with_(kind="tf")
            if m.shape == () or m.sel is not None:
                return m
            return it.alloc(ArrO(m, h.buf if view else fresh()))
    if isinstance(o, Tup):
        return seq_get(it, list(o.items), i, Tup)
    if isinstance(o, SymSeq):
        n = it.num(i)
        if n is not None and n.shape == ():
            return o.elem(n.term)
        return it.unk("sequence item")
    if isinstance(o, Num):
        if o.shape == () and o.kind == "py":
            it.throw("TypeError", K("number is not subscriptable"))
        r = ln.index(it, o, i)
        return r[0] if r is not None else it.unk("tensor index")
    if isinstance(o, K) and isinstance(o.val, str):
        c = lib.cval(it, i)
        if c is not None:
            if not -len(o.val) <= c < len(o.val):
                it.throw("IndexError", K("string index out of range"))
            return K(o.val[c])
        if isinstance(i, SliceV):
            s = const_slice(it, i)
            return K(o.val[s]) if s is not None else it.unk("string slice")
    if isinstance(o, K) and o.val is None:
        it.throw("TypeError", K("None is not subscriptable"))
    if isinstance(o, RangeV):
        its = it.items(o)
        if its is not None:
            return seq_get(it, its, i, lambda x: it.alloc(ListO(x)))
        sq = it.symseq(o)
        if sq is not None and it.num(i) is not None:
            return sq[1](it.num(i).term)
    if isinstance(o, Str):
        return Str("item", (o, i))
    if isinstance(o, ClsV):
        return o
    return it.unk("subscript of %s" % type(o).__name__)


def const_slice(it, i):
    from . import lib
    v = []
    for x in (i.a, i.b, i.c):
        if isinstance(x, K) and x.val is None:
            v.append(None)
        else:
            c = lib.cval(it, x)
            if c is None:
                return None
            v.append(c)
    return slice(*v)


def seq_get(it, its, i, mk):
    from . import lib
    from .interp import choice
    if isinstance(i, SliceV):
        s = const_slice(it, i)
        if s is None:
            return it.unk("slice")
        return mk(its[s])
    n = it.num(i)
    if n is None or n.shape != () or cls_of(n.dtype) not in ("int", "bool"):
        it.throw("TypeError", K("indices must be integers"))
    c = t.const_val(t.as_num(n.term))
    if c is not None:
        if not -len(its) <= c < len(its):
            it.throw("IndexError", K("index out of range"))
        return its[int(c)]
    ie = t.as_num(n.term)
    if len(its) <= 8:
        parts = []
        rest = t.TRUE
        for k in range(len(its)):
            g = t.eq(ie, t.num(k))
            parts.append((g, its[k]))
            rest = t.land(rest, t.lnot(g))
        it.raise_if(rest, "IndexError", K("index out of range"))
        return choice(parts)
    return it.unk("symbolic index")


def setitem(it, o, i, v):
    from . import lib
    if isinstance(o, Unk):
        return
    if isinstance(o, InstDict):
        return lib.with_inst_dict(it, o, lambda r: setitem(it, r, i, v))
    if isinstance(o, HW):
        it.event("hw", o.path + "[] =", (i, v))
        return
    if isinstance(o, Ref):
        h = it.get(o)
        if isinstance(h, Inst):
            m = it.find_attr(h.cls, "__setitem__")
            if m is None:
                it.throw("TypeError", K("object does not support item assignment"))
            it.call(it.bind(m, o), [i, v], {})
            return
        if isinstance(h, DictO):
            lib.dict_set(it, o, i, v)
            return
        if isinstance(h, ListO):
            its = it.items(o)
            c = lib.cval(it, i)
            if its is None or c is None:
                it.put(o, ListO((it.unk("list store"),), "choice:list"))
                return
            if not -len(its) <= c < len(its):
                it.throw("IndexError", K("index out of range"))
            its[c] = v
            it.put(o, ListO(its, h.kind))
            return
        if isinstance(h, ArrO):
            return arr_store(it, o, h, i, v)
        if isinstance(h, VarO):
            it.throw("TypeError", K("variable does not support item assignment"))
    if isinstance(o, Num) and o.kind == "tf":
        it.throw("TypeError", K("tensor does not support item assignment"))
    if isinstance(o, (Tup, K, Num)):
        it.throw("TypeError", K("object does not support item assignment"))
    it.unk("item assignment")


def _rng_cond(a, s, m, idx):
    """idx in {a, a+s, ...}: condition for unit step"""
    return t.land(t.le(a, idx), t.lt(idx, t.add(a, m)))


def arr_store(it, r, h, i, v):
    """a[i] = v"""
    from . import lib
    n = h.num
    vn = lib_fns.conv(it, v)
    if vn is None:
        lib.overwrite(it, r, None)
        it.unk("array store")
        return
    if cls_of(vn.dtype) == "complex" and cls_of(n.dtype) != "complex" and vn.kind != "np":
        it.throw("TypeError", K("complex value stored into a real array"))
    m = it.num(i)
    if m is not None and m.dtype == "bool" and m.shape is not None and n.shape is not None and len(m.shape) == len(n.shape):
        ns, sh = ln.broadcast(it, "boolean store", [n, m])
        if vn.shape == () or (vn.sel is not None and vn.sel is m.term):
            val = ln.cast_term(vn.term, vn.dtype, n.dtype)
            new = t.ite(m.term, val, n.term) if n.dtype != "bool" else \
                t.lor(t.land(m.term, val), t.land(t.lnot(m.term), n.term))
            lib.overwrite(it, r, n.with_(term=new))
            return
        lib.overwrite(it, r, None)
        it.unk("boolean store")
        return
    ind = list(i.items) if isinstance(i, Tup) else [i]
    ind = [SliceV(NONE, NONE, NONE) if isinstance(k, K) and k.val is Ellipsis and len(ind) == 1 else k for k in ind]
    if n.shape is None or len(ind) > len(n.shape) or vn.sel is not None:
        lib.overwrite(it, r, None)
        it.unk("array store")
        return
    ind += [SliceV(NONE, NONE, NONE)] * (len(n.shape) - len(ind))
    cond = t.TRUE
    offs = []
    dims = []
    for ax, k in enumerate(ind):
        axis = "v" if len(n.shape) == 1 else ax
        d = n.shape[ax]
        if isinstance(k, SliceV):
            s = ln._slice(it, k, d)
            if s is None or s[1] is not t.ONE:
                lib.overwrite(it, r, None)
                it.unk("array store")
                return
            if not (s[0] is t.ZERO and s[2] is d):
                cond = t.land(cond, _rng_cond(s[0], s[1], s[2], t.idx(axis, d)))
            offs.append((axis, s[0], s[2], d))
            dims.append(s[2])
        else:
            c = it.num(k)
            if c is None or c.shape != () or cls_of(c.dtype) != "int":
                lib.overwrite(it, r, None)
                it.unk("array store")
                return
            kt = c.term
            if t.const_val(kt) is not None and t.const_val(kt) < 0:
                kt = t.add(d, kt)
            cond = t.land(cond, t.eq(t.idx(axis, d), kt))
    val = ln.cast_term(vn.term, vn.dtype, n.dtype)
    if vn.shape != ():
        if vn.shape is None or len(vn.shape) != len(dims) or len(dims) != len(n.shape) or \
                not all(ln.dim_eq(it, a, b) for a, b in zip(vn.shape, dims)):
            if not (cond is t.TRUE and vn.shape is not None and len(vn.shape) <= len(n.shape)):
                lib.overwrite(it, r, None)
                it.unk("array store")
                return
        else:
            for axis, a, m2, d in offs:
                if not (a is t.ZERO and m2 is d):
                    val = ln.gather(val, axis, t.neg(a), t.ONE, d, m2)
    if n.dtype == "bool":
        new = t.lor(t.land(cond, val), t.land(t.lnot(cond), n.term))
    else:
        new = t.ite(cond, val, n.term)
    lib.overwrite(it, r, n.with_(term=new))


# ------------------------------------------------------------------------------------ hooks of the interpreter
def on_setattr(it, r, h, name, v):
    if isinstance(v, Ref):
        o = it.get(v)
        if isinstance(o, VarO):
            it.put(v, VarO(o.num, name))


def is_backend(it, o):
    return isinstance(o, Inst) and o.cls.name == "_BackEnd"


def backend_frozen(it, o, name):
    """settings of the backend that cannot change once they have been read"""
    if not is_backend(it, o):
        return False
    v = o.attrs.get(name)
    return isinstance(v, DT) or (isinstance(v, Num) and v.dtype == "bool")
