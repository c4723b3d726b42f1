"""Semantics of built-in operations and of the libraries, as used by the interpreter."""
from . import terms as t
from .values import *
from . import lib_num as ln
from .lib_num import can_cast, num_unop, cls_of
from .lib_reg import FUNCS, METHODS, CONSTS, MISSING, given
from . import lib_fns, lib_arr, lib_misc, lib_more
from .lib_more import BIG_N

from .lib_fns import to_dt, DTYPES

EXC = {
    "ZeroDivisionError": ("ArithmeticError",), "OverflowError": ("ArithmeticError",),
    "FloatingPointError": ("ArithmeticError",), "ModuleNotFoundError": ("ImportError",),
    "KeyError": ("LookupError",), "IndexError": ("LookupError",), "UnboundLocalError": ("NameError",),
    "NotImplementedError": ("RuntimeError",), "RecursionError": ("RuntimeError",),
    "UFuncTypeError": ("TypeError",), "FileNotFoundError": ("OSError",), "TimeoutError": ("OSError",),
    "ConnectionError": ("OSError",), "UnicodeError": ("ValueError",),
    "InvalidArgumentError": ("OpError",), "DeprecationWarning": ("Warning",), "UserWarning": ("Warning",),
    "FrozenInstanceError": ("AttributeError",), "RuntimeWarning": ("Warning",), "FutureWarning": ("Warning",),
}
EXC_ROOTS = ("ArithmeticError", "ImportError", "LookupError", "NameError", "RuntimeError", "TypeError", "OSError",
             "ValueError", "OpError", "Warning", "Exception", "AssertionError", "AttributeError", "StopIteration",
             "SyntaxError", "MemoryError", "EOFError", "BufferError", "IOError", "EnvironmentError")
EXC_BASE = ("BaseException", "KeyboardInterrupt", "SystemExit", "GeneratorExit")


def exc_type(exc):
    """class of an exception value"""
    return Ext("builtins." + exc.name) if is_exc(exc.name) else HW("exception class", (exc,))


def is_exc(name):
    return name in EXC or name in EXC_ROOTS or name in EXC_BASE


def exc_bases(name):
    if name in ("BaseException",):
        return ("object",)
    if name in EXC_BASE:
        return ("BaseException", "object")
    if name == "Exception":
        return ("BaseException", "object")
    out = []
    for b in EXC.get(name, ()):
        out.append(b)
    if is_exc(name):
        out += ["Exception", "BaseException"]
    return tuple(out) + ("object",)


def canon(name):
    parts = name.split(".")
    root = {"tensorflow": "tf", "numpy": "np"}.get(parts[0], parts[0])
    return ".".join([root] + parts[1:])


HW_ROOTS = ("PIL", "Luxbeam", "ALP4", "time", "matplotlib", "json", "logging", "h5py")


# ------------------------------------------------------------------------------------ heap effects
def overwrite(it, ref, num, kind="mutate"):
    """the contents of an array are replaced (unknown if num is None)"""
    o = it.get(ref)
    if o.buf < 0:
        it.throw("ValueError", K("assignment destination is read-only"))
    old = o.num
    if num is None:
        num = unknown_like(old)
    else:
        if num.shape is not None and old.shape is not None and len(num.shape) > len(old.shape):
            it.throw("ValueError", K("could not broadcast"))
        num = Num(ln.cast_term(num.term, num.dtype, old.dtype), old.kind, old.dtype, old.shape)
    it.event("mutate", "array", (K(abs(o.buf)),))
    for oid, p in list(it.st.heap.items()):
        if isinstance(p, ArrO) and abs(p.buf) == abs(o.buf) and oid != ref.oid:
            it.st.heap[oid] = ArrO(unknown_like(p.num) if not (p.num.term is old.term and p.num.shape == old.shape)
                                   else p.num.with_(term=num.term), p.buf)
    it.put(ref, ArrO(num, o.buf))


def unknown_like(n):
    a = ("unknown", fresh())
    term = t.bool_atom("unknown", (), a, n.shape or ()) if n.dtype == "bool" else t.opaque("unknown", (), a, n.shape or ())
    return n.with_(term=term)


def key_eq(it, a, b):
    """condition under which two dictionary keys are equal; None if unknown"""
    from .interp import same
    if same(a, b):
        return t.TRUE
    if isinstance(a, Unk) or isinstance(b, Unk):
        return None
    if isinstance(a, Num) and isinstance(b, Num):
        if a.shape != () or b.shape != () or "tf" in (a.kind, b.kind):
            return None
        return t.eq(t.as_num(a.term) if a.dtype == "bool" else a.term, t.as_num(b.term) if b.dtype == "bool" else b.term)
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return t.FALSE
        c = t.TRUE
        for x, y in zip(a.items, b.items):
            e = key_eq(it, x, y)
            if e is t.FALSE:
                return e
            c = None if c is None or e is None else t.land(c, e)
        return c
    if isinstance(a, Ref) and isinstance(b, Ref):
        for r in (a, b):
            o = it.get(r)
            if not isinstance(o, Inst) or it.find_attr(o.cls, "__eq__") is not None:
                return None
        return t.FALSE
    if isinstance(a, (K, Num, Tup, Ref, ClsV, DT, Fn)) and isinstance(b, (K, Num, Tup, Ref, ClsV, DT, Fn)):
        if isinstance(a, DT) and isinstance(b, DT):
            return None
        if isinstance(a, K) and isinstance(b, K) or type(a) is not type(b):
            return t.FALSE if not {type(a), type(b)} & {Ref} else None
        return t.FALSE
    return None


def dict_match(it, o, k):
    """[(condition, index)] of the entries the key may be; None if unknown"""
    out, rest = [], t.TRUE
    hit = dict_find(o, k, it)
    if hit is not None and isinstance(k, K):
        return [(t.TRUE, hit)]
    for i, (kk, v) in enumerate(o.items):
        c = t.TRUE if i == hit else key_eq(it, kk, k)
        if c is None:
            if hit is not None:
                return [(t.TRUE, hit)]
            return None
        c = it.decide(t.land(rest, c))
        if c is not t.FALSE:
            out.append((c, i))
            rest = t.land(rest, t.lnot(c))
            if c is t.TRUE:
                break
    return out


def dict_find(o, k, it):
    from .interp import same
    for i, (kk, v) in enumerate(o.items):
        if same(kk, k):
            return i
    return None


def dict_set(it, ref, k, v):
    from .interp import UNDEF, mergev
    o = it.get(ref)
    m = dict_match(it, o, k) if isinstance(k, (K, Num, Tup, Ref, Str, ClsV, DT, HW, Fn)) else None
    if m is None and isinstance(k, (Str, HW, DT)) and dict_find(o, k, it) is None:
        m = []
    if m is None:
        it.put(ref, DictO(o.items + ((Unk("key"), Unk("value")),), o.default))
        return
    items, rest = list(o.items), t.TRUE
    for c, i in m:
        items[i] = (items[i][0], v if c is t.TRUE else mergev(c, v, items[i][1]))
        rest = t.land(rest, t.lnot(c))
    if it.decide(rest) is not t.FALSE:
        items.append((k, v if it.decide(rest) is t.TRUE else mergev(rest, v, UNDEF)))
    it.put(ref, DictO(items, o.default))


def dict_update(it, ref, w):
    if isinstance(w, Ref) and isinstance(it.get(w), DictO):
        for k, v in it.get(w).items:
            dict_set(it, ref, k, v)
    else:
        o = it.get(ref)
        it.put(ref, DictO(o.items + ((it.unk("dictionary update"), Unk("value")),)))


def entry_present(v):
    from .interp import UNDEF
    if v is UNDEF:
        return t.FALSE
    c = t.TRUE
    if isinstance(v, Choice):
        for g, w in v.alts:
            if w is UNDEF:
                c = t.land(c, t.lnot(g))
    return c


def dict_has(it, o, k):
    """condition under which the key is present"""
    m = dict_match(it, o, k)
    if m is None:
        return t.bool_atom("unknown", (), ("key", fresh()))
    c = t.FALSE
    for g, i in m:
        c = t.lor(c, t.land(g, entry_present(o.items[i][1])))
    return c


def present(v):
    """value of a dictionary entry assuming that it is present"""
    from .interp import UNDEF, choice
    if isinstance(v, Choice):
        return choice([(g, w) for g, w in v.alts if w is not UNDEF])
    return v


def dict_get(it, ref, k, default):
    """default: value, or None to raise KeyError"""
    from .interp import UNDEF, choice
    o = it.get(ref)
    m = dict_match(it, o, k)
    if m is None:
        return it.unk("dictionary access with an unknown key")
    al, miss = [], t.TRUE
    for g, i in m:
        v = o.items[i][1]
        p = it.decide(t.land(g, entry_present(v)))
        if p is t.FALSE:
            continue
        al.append((p, present(v)))
        miss = t.land(miss, t.lnot(p))
    miss = it.decide(miss)
    if miss is t.TRUE:
        if default is None:
            it.throw("KeyError", k)
        return default
    if default is None:
        it.raise_if(miss, "KeyError", k)
    elif miss is not t.FALSE:
        al.append((miss, default))
    if len(al) == 1:
        return al[0][1]
    return it.branch([(g, (lambda v=v: v)) for g, v in al])


def dict_del(it, ref, k):
    from .interp import UNDEF, mergev
    dict_get(it, ref, k, None)
    o = it.get(ref)
    m = dict_match(it, o, k)
    if m is None:
        it.put(ref, DictO(((Unk("key"), Unk("value")),), o.default))
        return
    items = list(o.items)
    if len(m) == 1 and m[0][0] is t.TRUE:
        del items[m[0][1]]
    else:
        for c, i in m:
            items[i] = (items[i][0], mergev(c, UNDEF, items[i][1]))
    it.put(ref, DictO(items, o.default))


def inst_dict(it, v):
    """attributes of an instance as dictionary contents"""
    return DictO([(K(n), x) for n, x in it.get(v.obj).attrs.items()])


def with_inst_dict(it, v, f):
    """operate on __dict__; changes are written back"""
    r = it.alloc(inst_dict(it, v))
    before = it.get(r).items
    x = f(r)
    after = it.get(r).items
    if after is not before:
        if all(isinstance(k, K) and isinstance(k.val, str) for k, _ in after):
            it.put(v.obj, Inst(it.get(v.obj).cls, {k.val: y for k, y in after}))
        else:
            it.unk("attribute with unknown name")
    return x


# ------------------------------------------------------------------------------------ operators
DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow", "FloorDiv": "floordiv",
          "Mod": "mod", "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "MatMult": "matmul", "LShift": "lshift",
          "RShift": "rshift"}


def is_inst(it, v):
    return isinstance(v, Ref) and isinstance(it.get(v), Inst)


def is_list(it, v):
    return isinstance(v, Ref) and isinstance(it.get(v), ListO)


def binop(it, op, a, b):
    if is_inst(it, a) or is_inst(it, b):
        if is_inst(it, a):
            m = it.find_attr(it.get(a).cls, "__%s__" % DUNDER[op])
            if m is not None:
                r = it.call(it.bind(m, a), [b], {})
                if not (isinstance(r, K) and r.val is NotImplemented):
                    return r
        if is_inst(it, b):
            if not is_inst(it, a) and it.num(a) is not None and it.num(a).kind != "py":
                it.unk("array or tensor operator with an object")
            m = it.find_attr(it.get(b).cls, "__r%s__" % DUNDER[op])
            if m is not None:
                return it.call(it.bind(m, b), [a], {})
        it.throw("TypeError", K("unsupported operand types for %s" % ln.OPNAME.get(op, op)))
    x, y = it.num(a), it.num(b)
    if x is not None and y is not None:
        return ln.num_binop(it, op, x, y)
    if isinstance(a, Unk):
        return a
    if isinstance(b, Unk):
        return b
    if isinstance(a, HW) or isinstance(b, HW):
        if op in ("Add", "BitOr", "Mult", "BitAnd") and not any(isinstance(z, (Tup, K)) for z in (a, b)):
            fl = []
            for z in (a, b):
                fl.extend(z.args if isinstance(z, HW) and z.path == "op" + op else [z])
            fl.sort(key=hwkey)
            return mkhw("op" + op, fl)
        return mkhw("op" + op, (a, b))
    if isinstance(a, (K, Str)) and op == "Mod" and isinstance(getattr(a, "val", ""), str):
        rep = isinstance(a, K) and ("%r" in a.val or "%a" in a.val)
        bs = [pyconst(it, x) if rep else textconst(it, x) for x in (b.items if isinstance(b, Tup) else [b])]
        if isinstance(a, K) and not any(x is MISSING for x in bs):
            try:
                return K(a.val % (tuple(bs) if isinstance(b, Tup) else bs[0]))
            except (TypeError, ValueError) as e:
                it.throw(type(e).__name__, K(str(e)))
        return Str("percent", (a, b))
    if isinstance(a, (K, Str)) and isinstance(b, (K, Str)) and op == "Add":
        if isinstance(a, K) and isinstance(b, K):
            if type(a.val) is type(b.val) and isinstance(a.val, (str, bytes)):
                return K(a.val + b.val)
            it.throw("TypeError", K("bad operand types for +"))
        return Str("concat", (a, b))
    if op == "Add" and isinstance(a, Tup) and isinstance(b, Tup):
        return Tup(a.items + b.items)
    if op == "Add" and is_list(it, a) and is_list(it, b):
        p, q = it.items(a), it.items(b)
        if p is None or q is None:
            return it.unk("list concatenation")
        return it.alloc(ListO(tuple(p) + tuple(q)))
    if op == "Mult":
        for p, q in ((a, b), (b, a)):
            n = cval(it, q)
            if n is not None and isinstance(p, Tup) and n <= 256:
                return Tup(p.items * n)
            if n is not None and is_list(it, p) and n <= 256:
                its = it.items(p)
                return it.alloc(ListO(tuple(its) * n)) if its is not None else it.unk("list repetition")
            if is_list(it, p) and it.num(q) is not None and it.num(q).shape == ():
                its = it.items(p)
                if its is not None and len(its) == 1:
                    e = its[0]
                    return it.alloc(ListO((SymSeq(it.num(q).term, lambda k, e=e: e, "list"),), "sym"))
                return it.unk("list repetition")
    if is_list(it, a) or is_list(it, b) or isinstance(a, Tup) or isinstance(b, Tup):
        o = b if (is_list(it, a) or isinstance(a, Tup)) else a
        n = it.num(o)
        if n is not None and n.kind != "py":
            x, y = lib_fns.conv(it, a), lib_fns.conv(it, b)
            if x is not None and y is not None:
                return ln.num_binop(it, op, x, y)
            return it.unk("operator on a list")
    if isinstance(a, (K, Tup, Str, DT, Fn, ClsV)) or isinstance(b, (K, Tup, Str, DT, Fn, ClsV)) or \
            is_list(it, a) or is_list(it, b):
        if isinstance(a, Str) or isinstance(b, Str):
            return Str("binop", (a, b))
        it.throw("TypeError", K("unsupported operand types for %s" % ln.OPNAME.get(op, op)))
    return it.unk("operator %s" % op)


def pyconst(it, v):
    """Python value of a literal string, None, bool or integer, else MISSING"""
    if isinstance(v, K) and isinstance(v.val, (str, bytes, bool, type(None))):
        return v.val
    n = it.num(v)
    if n is not None and n.kind == "py" and n.shape == () and n.dtype in ("int", "bool"):
        c = t.const_val(n.term) if n.dtype == "int" else 1 if n.term is t.TRUE else 0 if n.term is t.FALSE else None
        if c is not None:
            return bool(c) if n.dtype == "bool" else int(c)
    return MISSING


def textconst(it, v):
    """pyconst, or the value of a NumPy integer, which str, format and %d print like a Python integer"""
    x = pyconst(it, v)
    if x is MISSING:
        n = it.num(v)
        if n is not None and n.kind == "np" and n.shape == () and ln.cls_of(n.dtype) == "int":
            c = t.const_val(n.term)
            if c is not None:
                return int(c)
    return x


def fmt(it, v, spec):
    """format(v, spec)"""
    x = textconst(it, v)
    if x is MISSING or not isinstance(spec, K):
        return Str("format", (v, spec))
    try:
        return K(format(x, spec.val))
    except (TypeError, ValueError) as e:
        it.throw(type(e).__name__, K(str(e)))


def cval(it, v):
    n = it.num(v)
    if n is None or n.shape != ():
        return None
    c = t.const_val(n.term)
    return int(c) if c is not None and c.denominator == 1 else None


def mkhw(path, args, kwargs=()):
    h = HW(path, args, kwargs)
    h.uid = 0
    return h


def hwkey(v):
    if isinstance(v, HW):
        return "%s(%s)#%s" % (v.path, ",".join(hwkey(x) for x in v.args), v.uid)
    if isinstance(v, Num):
        return "n" + str(v.term.key)
    return repr(v)


def builtin_type_dt(v):
    return v.path.split(".")[-1] if isinstance(v, Ext) and v.path.startswith("builtins.") else None


def compare(it, op, a, b):
    from .interp import pybool, same
    if op in ("Is", "IsNot"):
        c = identical(it, a, b)
        return pybool(c if op == "Is" else t.lnot(c))
    if op in ("In", "NotIn"):
        c = contains(it, a, b)
        if c is None:
            return it.unk("membership test") if not isinstance(b, Unk) else b
        return pybool(c if op == "In" else t.lnot(c))
    x, y = it.num(a), it.num(b)
    if x is not None and y is not None:
        return ln.num_compare(it, op, x, y)
    if isinstance(a, Unk):
        return a
    if isinstance(b, Unk):
        return b
    if op in ("Eq", "NotEq"):
        if is_inst(it, a):
            m = it.find_attr(it.get(a).cls, "__eq__")
            if m is not None:
                r = it.call(it.bind(m, a), [b], {})
                return r if op == "Eq" else pybool(t.lnot(it.truth(r)))
        c = value_eq(it, a, b)
        if c is None:
            return it.unk("comparison of %s and %s" % (type(a).__name__, type(b).__name__))
        return pybool(c if op == "Eq" else t.lnot(c))
    if isinstance(a, HW) or isinstance(b, HW):
        return pybool(t.bool_atom("hwcmp", (), (op, hwkey(a), hwkey(b))))
    if is_inst(it, a):
        nm = {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[op]
        m = it.find_attr(it.get(a).cls, nm)
        if m is not None:
            return it.call(it.bind(m, a), [b], {})
    if isinstance(a, K) and isinstance(b, K) and isinstance(a.val, str) and isinstance(b.val, str):
        return pybool({"Lt": a.val < b.val, "LtE": a.val <= b.val, "Gt": a.val > b.val, "GtE": a.val >= b.val}[op])
    if isinstance(a, (K, Str)) or isinstance(b, (K, Str)) or is_inst(it, a) or is_inst(it, b):
        it.throw("TypeError", K("ordering of these types is not supported"))
    if isinstance(a, Tup) and isinstance(b, Tup) or (is_list(it, a) and is_list(it, b)):
        return it.unk("ordering of sequences")
    return it.unk("comparison")


def identical(it, a, b):
    from .interp import same
    if same(a, b):
        if isinstance(a, Num) and a.kind != "py":
            return t.bool_atom("unknown", (), ("is", fresh()))
        return t.TRUE
    ka, kb = isinstance(a, K), isinstance(b, K)
    if ka and a.val is None or kb and b.val is None:
        o = b if ka and a.val is None else a
        if isinstance(o, Unk):
            return t.bool_atom("unknown", (), ("is none", o.why))
        if isinstance(o, HW):
            return t.FALSE if o.uid == 0 or o.path.startswith("alp.sequence") else t.bool_atom("hwnone", (), (hwkey(o),))
        return t.FALSE
    if isinstance(a, Unk) or isinstance(b, Unk):
        return t.bool_atom("unknown", (), ("is", fresh()))
    if isinstance(a, Num) and isinstance(b, Num) and a.kind == "py" and b.kind == "py":
        if a.dtype == "bool" and b.dtype == "bool":
            return t.lor(t.land(a.term, b.term), t.land(t.lnot(a.term), t.lnot(b.term)))
        if a.dtype != b.dtype:
            return t.FALSE
        if a.dtype == "int" and t.const_val(a.term) is not None and t.const_val(b.term) is not None:
            return t.T(t.const_val(a.term) == t.const_val(b.term))
        return t.bool_atom("unknown", (), ("is", fresh()))
    if type_names(it, a) != type_names(it, b):
        da, db = as_dtype(it, a), as_dtype(it, b)
        if da and db and isinstance(a, DT) != isinstance(b, DT):
            return t.FALSE
        return t.FALSE
    return t.FALSE


TFNAMES = {"float": "f32", "double": "f64", "half": "f16"}
TFSPELL = {"float16", "float32", "float64", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "complex64", "complex128", "bool", "bfloat16"}
TFENUM = {1: "f32", 2: "f64", 3: "i32", 4: "u8", 8: "c64", 9: "i64", 10: "bool", 14: "f16", 18: "c128", 19: "f16"}


def as_dtype(it, v, lib="np"):
    if isinstance(v, DT):
        return v.name
    if lib == "tf":
        if isinstance(v, Ext) and v.path.startswith("builtins."):
            return {"float": "f32", "bool": "bool"}.get(v.path[9:])
        if isinstance(v, K) and isinstance(v.val, str):
            return TFNAMES.get(v.val) or (DTYPES.get(v.val) if v.val in TFSPELL else None)
        if isinstance(v, Num) and v.kind == "py" and v.dtype == "int" and t.const_val(v.term) is not None:
            return TFENUM.get(int(t.const_val(v.term)))
    if isinstance(v, Ext) and v.path.startswith("builtins."):
        return {"bool": "bool", "float": "f64", "int": "i64", "complex": "c128"}.get(v.path[9:])
    if isinstance(v, K) and isinstance(v.val, str):
        return DTYPES.get(v.val)
    return None


def value_eq(it, a, b):
    from .interp import same
    if isinstance(a, DT) or isinstance(b, DT):
        lib = "tf" if any(isinstance(z, DT) and z.lib == "tf" for z in (a, b)) else "np"
        x, y = as_dtype(it, a, lib), as_dtype(it, b, lib)
        return t.T(x is not None and x == y)
    if isinstance(a, K) and isinstance(b, K):
        return t.T(type(a.val) is type(b.val) and a.val == b.val)
    if isinstance(a, HW) or isinstance(b, HW):
        if same(a, b):
            return t.TRUE
        if all(isinstance(x, HW) and not x.args and not x.uid and x.path.split(".")[-1].isupper() for x in (a, b)) \
                and a.path.split(".")[0] == b.path.split(".")[0]:
            return t.FALSE          # two named constants of one vendor library
        p, q = sorted((hwkey(a), hwkey(b)))
        return t.bool_atom("hweq", (), (p, q))
    if isinstance(a, Str) or isinstance(b, Str):
        if same(a, b):
            return t.TRUE
        if isinstance(a, (Str, K)) and isinstance(b, (Str, K)):
            k = [z for z in (a, b) if isinstance(z, K)]
            if k and not isinstance(k[0].val, str):
                return t.FALSE
            return t.bool_atom("streq", (), tuple(sorted((repr(a), repr(b)))))
        return t.FALSE
    pa, pb = seq_items(it, a), seq_items(it, b)
    if pa is not None and pb is not None and isinstance(a, Tup) == isinstance(b, Tup):
        if len(pa) != len(pb):
            return t.FALSE
        c = t.TRUE
        for x, y in zip(pa, pb):
            r = compare(it, "Eq", x, y)
            if not isinstance(r, (Num, Ref)) or it.num(r) is None or it.num(r).shape != ():
                return None
            c = t.land(c, it.num(r).term)
        return c
    if isinstance(a, Ref) and isinstance(b, Ref):
        oa, ob = it.get(a), it.get(b)
        if isinstance(oa, Inst) and isinstance(ob, Inst):
            return t.T(a.oid == b.oid)
        if type(oa) is type(ob):
            return t.TRUE if a.oid == b.oid else None
    if isinstance(a, (Fn, ClsV, Ext, BM, Wrapped, Native, ModV)) or isinstance(b, (Fn, ClsV, Ext, BM, Wrapped, Native, ModV)):
        return t.T(same(a, b))
    if isinstance(a, (Unk, Choice)) or isinstance(b, (Unk, Choice)):
        return None
    na, nb = it.num(a), it.num(b)
    if na is not None and na.shape not in ((),) or nb is not None and nb.shape not in ((),):
        return None
    if type_names(it, a) != type_names(it, b):
        return t.FALSE
    return None


def seq_items(it, v):
    if isinstance(v, Tup):
        return list(v.items)
    if is_list(it, v):
        return it.items(v)
    return None


def contains(it, a, b):
    """a in b"""
    if isinstance(b, InstDict):
        return dict_has(it, inst_dict(it, b), a)
    if isinstance(b, Ref):
        o = it.get(b)
        if isinstance(o, DictO):
            return dict_has(it, o, a)
        if isinstance(o, Inst):
            m = it.find_attr(o.cls, "__contains__")
            if m is not None:
                return it.truth(it.call(it.bind(m, b), [a], {}))
    if isinstance(b, K) and isinstance(b.val, str):
        if isinstance(a, K) and isinstance(a.val, str):
            return t.T(a.val in b.val)
        return None
    if isinstance(b, RangeV):
        n = it.num(a)
        if n is None or b.step is not t.ONE:
            return None
        return t.land(t.le(b.start, n.term), t.lt(n.term, b.stop))
    its = it.items(b)
    if its is None:
        return None
    c = t.FALSE
    for x in its:
        if isinstance(x, Unk):
            return None
        r = identical(it, a, x)
        if r is not t.TRUE:
            v = it.compare("Eq", a, x)
            r = it.truth(v)
        c = t.lor(c, r)
    return c


# ------------------------------------------------------------------------------------ types
def type_names(it, v):
    """names of the classes the value is an instance of, most specific first"""
    if isinstance(v, Num):
        if v.kind == "py":
            return {"bool": ("bool", "int"), "int": ("int",), "float": ("float",), "complex": ("complex",)}[v.dtype]
        if v.kind == "np":
            if v.shape == ():
                d = {"f64": ("np.float64", "np.floating", "float"), "f32": ("np.float32", "np.floating"),
                     "c128": ("np.complex128", "np.complexfloating", "complex"),
                     "c64": ("np.complex64", "np.complexfloating"),
                     "bool": ("np.bool", "np.bool_"), "i64": ("np.int64", "np.integer"),
                     "i32": ("np.int32", "np.integer"), "u8": ("np.uint8", "np.integer")}[v.dtype]
                return d + ("np.generic", "np.number" if v.dtype != "bool" else "np.generic")
            return ("np.ndarray",)
        return ("tf.Tensor",)
    if isinstance(v, K):
        return (type(v.val).__name__,)
    if isinstance(v, Str):
        return ("str",)
    if isinstance(v, Tup):
        return ("tuple",)
    if isinstance(v, Ref):
        o = it.get(v)
        if isinstance(o, ArrO):
            return ("np.ndarray",)
        if isinstance(o, VarO):
            return ("tf.Variable",)
        if isinstance(o, ListO):
            return ("set",) if o.kind == "set" else ("list",)
        if isinstance(o, DictO):
            return ("dict",)
        if isinstance(o, IterO):
            return ("generator",)
    if isinstance(v, (Fn, BM, Native, Method, Partial)):
        return ("function",)
    if isinstance(v, Wrapped):
        return ("tf.function",) if v.how == "traced" else ("function",)
    if isinstance(v, (ClsV, Ext)):
        return ("type",)
    if isinstance(v, DT):
        return ("tf.DType",) if v.lib == "tf" else ("type",)
    if isinstance(v, RangeV):
        return ("range",)
    if isinstance(v, ModV):
        return ("module",)
    return (type(v).__name__,)


ABSTRACT = {
    "numbers.Number": lambda n: n in ("int", "float", "complex", "bool") or n == "np.number",
    "numbers.Complex": lambda n: n in ("int", "float", "complex", "bool") or n == "np.number",
    "numbers.Real": lambda n: n in ("int", "float", "bool", "np.floating", "np.integer"),
    "numbers.Integral": lambda n: n in ("int", "bool", "np.integer"),
    "numbers.Rational": lambda n: n in ("int", "bool", "np.integer"),
    "collections.abc.Sequence": lambda n: n in ("list", "tuple", "str", "range"),
    "collections.abc.Iterable": lambda n: n in ("list", "tuple", "str", "dict", "set", "np.ndarray", "range", "generator"),
    "collections.abc.Callable": lambda n: n in ("function", "type", "tf.function"),
    "collections.abc.Mapping": lambda n: n == "dict",
    "object": lambda n: True,
}
ALIAS = {"typing.List": "list", "typing.Tuple": "tuple", "typing.Dict": "dict", "typing.Sequence": "collections.abc.Sequence",
         "typing.Iterable": "collections.abc.Iterable", "typing.Callable": "collections.abc.Callable",
         "typing.Any": "object", "np.bool_": "np.bool", "np.float_": "np.float64", "np.complex_": "np.complex128",
         "np.double": "np.float64", "tf.EagerTensor": "tf.Tensor", "types.FunctionType": "function"}


def isinstance_(it, v, ty):
    """condition"""
    if isinstance(v, Choice):
        r = t.FALSE
        for g, w in v.alts:
            r = t.lor(r, t.land(g, isinstance_(it, w, ty)))
        return r
    if isinstance(ty, Tup):
        r = t.FALSE
        for y in ty.items:
            r = t.lor(r, isinstance_(it, v, y))
        return r
    if isinstance(ty, HW) and ty.path == "opBitOr":
        return isinstance_(it, v, Tup(ty.args))
    if isinstance(v, Unk) or isinstance(ty, Unk):
        return t.bool_atom("unknown", (), ("isinstance", repr(v), repr(ty)))
    if isinstance(ty, ClsV):
        if isinstance(v, NTup):
            return t.T(it.is_subclass(v.cls, ty))
        if isinstance(v, Ref) and isinstance(it.get(v), Inst):
            return t.T(it.is_subclass(it.get(v).cls, ty))
        if isinstance(v, ExcV):
            return t.T(ty.name == v.name or ty.name in v.bases)
        return t.FALSE
    if isinstance(ty, DT):
        n = {"f32": "np.float32", "f64": "np.float64", "c64": "np.complex64", "c128": "np.complex128", "i32": "np.int32",
             "i64": "np.int64", "bool": "np.bool", "u8": "np.uint8"}.get(ty.name)
        return t.T(n in type_names(it, v))
    if isinstance(ty, K) and ty.val is None:
        return t.T(isinstance(v, K) and v.val is None)
    if isinstance(ty, Ext):
        p = ty.path[9:] if ty.path.startswith("builtins.") else ty.path
        if p.startswith("typing.") and "[" in p:
            p = p.split("[")[0]
        p = ALIAS.get(p, p)
        if isinstance(v, ExcV):
            n = p.split(".")[-1]
            return t.T(n == v.name or n in v.bases)
        if isinstance(v, Ref) and isinstance(it.get(v), Inst):
            return t.T(p == "object" or p.split(".")[-1] in it.mro_names(it.get(v).cls))
        if isinstance(v, HW):
            return t.bool_atom("hwtype", (), (hwkey(v), p))
        names = type_names(it, v)
        if p in ABSTRACT:
            return t.T(any(ABSTRACT[p](n) for n in names))
        if p in ("tf.types.experimental.TensorLike",):
            return t.T("tf.Tensor" in names)
        return t.T(p in names)
    if isinstance(ty, Choice):
        r = t.FALSE
        for g, y in ty.alts:
            r = t.lor(r, t.land(g, isinstance_(it, v, y)))
        return r
    it.unk("isinstance with %r" % (ty,))
    return t.bool_atom("unknown", (), ("isinstance", fresh()))


# ------------------------------------------------------------------------------------ strings
NPNAME = {"i8": "int8", "i16": "int16", "i32": "int32", "i64": "int64", "u8": "uint8", "u16": "uint16", "u32": "uint32", "u64": "uint64"}


def to_repr(it, v):
    def f(v):
        x = pyconst(it, v)
        if x is not MISSING:
            return K(repr(x))
        x = textconst(it, v)
        if x is not MISSING and it.num(v).dtype in NPNAME:
            return K("np.%s(%d)" % (NPNAME[it.num(v).dtype], x))
        return Str("repr", (v,))
    return it.dist(f, v)


def to_str(it, v):
    def f(v):
        if isinstance(v, K):
            return K(str(v.val))
        if isinstance(v, Str):
            return v
        x = textconst(it, v)
        if x is not MISSING:
            return K(str(x))
        if isinstance(v, ExcV):
            return to_str(it, v.args[0]) if v.args else K("")
        return Str("str", (v,))
    return it.dist(f, v)


from .lib_call import *      # noqa: E402,F401,F403
from .lib_attr import *      # noqa: E402,F401,F403
from .lib_misc import make_ntup, init_dataclass, dc_fields      # noqa: E402,F401


def is_infinite_n(n):
    return n is BIG_N
