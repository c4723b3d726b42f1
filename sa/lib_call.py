"""Calls of library functions, methods of library values, and the built-in functions."""
from . import terms as t
from .values import *
from . import lib_num as ln
from .lib_num import cls_of
from .lib_reg import FUNCS, METHODS, MISSING, canonical, ext, given
from . import lib_fns, lib_arr, lib_misc, lib_more

BUILTINS = ("float int complex bool abs round min max sum len range enumerate zip list tuple dict set frozenset sorted "
            "reversed str repr print isinstance issubclass hasattr getattr setattr delattr type callable iter next map "
            "filter any all divmod pow property staticmethod classmethod super object slice id hash vars format "
            "bytes memoryview ord chr").split()


def builtin(name):
    from . import lib
    if name in BUILTINS:
        return Ext("builtins." + name)
    if lib.is_exc(name):
        return Ext("builtins." + name)
    if name == "NotImplemented":
        return K(NotImplemented)
    if name == "__debug__":
        return Num(t.TRUE, "py", "bool")
    if name == "Ellipsis":
        return K(Ellipsis)
    return None


def class_decorator(it, d, v):
    if d.path == "dataclasses.dataclass":
        return FUNCS[d.path](it, [v], {})
    if d.path in ("functools.total_ordering", "typing.final", "typing.runtime_checkable"):
        return v
    it.unk("class decorator %s" % d.path)
    return v


# ------------------------------------------------------------------------------------ dispatch
def resolve(path):
    if path in FUNCS:
        return FUNCS[path]
    if path.startswith("tf."):
        last = path[3:]
        for pre in ("math.", "dtypes.", "linalg.", "compat.v2.", "raw_ops."):
            if last.startswith(pre) and "tf." + last[len(pre):] in FUNCS:
                return FUNCS["tf." + last[len(pre):]]
        if "tf.math." + last in FUNCS:
            return FUNCS["tf.math." + last]
        if last.startswith("experimental.numpy.") and "np." + last[19:] in FUNCS:
            return None
    if path.startswith("scipy.fft.") and "np.fft." + path[10:] in FUNCS:
        return FUNCS["np.fft." + path[10:]]
    if path.startswith("scipy.special.") and "math." + path[14:] in FUNCS:
        return None
    return None


def call_ext(it, path, args, kwargs):
    from . import lib
    last = path.split(".")[-1]
    f = resolve(path)
    if f is not None:
        if kwargs and "name" in kwargs and path.startswith("tf."):
            kwargs = {k: v for k, v in kwargs.items() if k != "name"}
        c = canonical(it, path, f, args, kwargs)
        if c is None:
            return it.unk("an option of %s" % path)
        return f(it, *c)
    if lib.is_exc(last):
        return ExcV(last, args, lib.exc_bases(last))
    if path.split(".")[0] in lib.HW_ROOTS:
        return call_hw(it, HW0(path), args, kwargs)
    for a in args:
        if isinstance(a, Unk):
            return a
    return it.unk("call of %s" % path)


def HW0(path):
    from . import lib
    return lib.mkhw(path, ())


def snapshot(it, v):
    """argument of a vendor call, by value"""
    if isinstance(v, Ref):
        o = it.get(v)
        if isinstance(o, ArrO):
            return o.num
        if isinstance(o, ListO) and o.kind == "list":
            return Tup([snapshot(it, x) for x in o.items])
        if isinstance(o, ListO) and o.kind == "sym":
            return o.items[0]
    if isinstance(v, Tup):
        return v.like([snapshot(it, x) for x in v.items])
    if isinstance(v, Choice):
        return Choice([(g, snapshot(it, w)) for g, w in v.alts])
    return v


def call_hw(it, f, args, kwargs):
    from . import lib
    name = f.path.split(".")[-1]
    if name in lib_misc.HWITERS and f.args:
        return lib_misc.HWITERS[name](it, f.args[0], args, kwargs)
    a = [snapshot(it, x) for x in args]
    kw = tuple(sorted((k, snapshot(it, x)) for k, x in kwargs.items()))
    it.fault("hw", f.path)
    r = HW(f.path + "()", tuple(a), kw)
    it.event("hw", f.path + "()", tuple(f.args) + (r,) if False else tuple(a), kw)
    ev = it.st.events[-1]
    ev.sub2 = (f.args[0] if f.args else None, r)
    if f.path == "alp.SeqAlloc":
        it.put(f.args[0], it.get(f.args[0]).set("_lastDDRseq", HW("alp.sequence", (f.args[0],))))
    return r


def call_dtype(it, d, args):
    if d.lib == "tf":
        it.throw("TypeError", K("DType object is not callable"))
    if not args:
        return Num(t.FALSE if d.name == "bool" else t.ZERO, "np", d.name)

    def f(x):
        n = lib_fns.conv(it, x)
        if n is None:
            return it.unk("conversion to numpy scalar")
        return ln.mk(it, "np", d.name, ln.cast_term(n.term, n.dtype, d.name), n)
    return it.dist(f, args[0])


def as_tensor_arg(it, v):
    def f(x):
        if isinstance(x, Num) and x.kind == "np":
            return x.with_(kind="tf")
        if isinstance(x, Ref):
            o = it.get(x)
            if isinstance(o, ArrO):
                return it.num(x).with_(kind="tf")
            if isinstance(o, ListO) and o.kind == "list":
                return it.alloc(ListO([as_tensor_arg(it, y) for y in o.items]))
        if isinstance(x, Tup):
            return x.like([as_tensor_arg(it, y) for y in x.items])
        return x
    return it.dist(f, v)


def as_tensor_result(it, v):
    def f(x):
        if isinstance(x, Num):
            if x.kind == "tf":
                return x
            return x.with_(kind="tf", dtype=ln.tf_of(x.dtype))
        if isinstance(x, Ref):
            o = it.get(x)
            if isinstance(o, (ArrO, VarO)):
                n = it.num(x)
                return n.with_(kind="tf")
            if isinstance(o, ListO) and o.kind == "list":
                return it.alloc(ListO([as_tensor_result(it, y) for y in o.items]))
        if isinstance(x, Tup):
            return x.like([as_tensor_result(it, y) for y in x.items])
        return x
    return it.dist(f, v)


# ------------------------------------------------------------------------------------ methods of values
def call_method(it, obj, name, args, kwargs):
    from . import lib
    if isinstance(obj, Choice):
        return it.dist(lambda o: call_method(it, o, name, args, kwargs), obj)
    if isinstance(obj, Unk):
        return obj
    n = obj if isinstance(obj, Num) else None
    o = it.get(obj) if isinstance(obj, Ref) else None
    if n is not None or isinstance(o, (ArrO, VarO)):
        if name in METHODS:
            c = canonical(it, "@" + name, METHODS[name], [obj] + list(args), kwargs)
            return METHODS[name](it, *c) if c is not None else it.unk("an option of method %s" % name)
        return it.unk("method %s" % name)
    if isinstance(o, ListO):
        return list_method(it, obj, o, name, args, kwargs)
    if isinstance(o, DictO):
        return dict_method(it, obj, o, name, args, kwargs)
    if isinstance(o, IterO):
        if name == "__next__":
            return _next(it, obj, MISSING)
        if name == "__iter__":
            return obj
    if isinstance(obj, (K, Str)):
        return str_method(it, obj, name, args, kwargs)
    if isinstance(obj, Tup):
        if name == "index":
            for i, x in enumerate(obj.items):
                c = it.decide(it.truth(it.compare("Eq", x, args[0])))
                if c is t.TRUE:
                    return Num(t.num(i), "py", "int")
                if c is not t.FALSE:
                    return it.unk("index")
            it.throw("ValueError", K("not in tuple"))
        if name == "count":
            return it.unk("count")
    return it.unk("method %s of %s" % (name, type(obj).__name__))


def list_method(it, r, o, name, args, kwargs):
    sym = o.kind == "sym" or o.kind.startswith("choice")
    w = lambda items: it.put(r, ListO(items, o.kind))
    if name in ("append", "add"):
        if o.kind == "sym":
            it.put(r, ListO((it.unk("list appended after a summarised loop"),), "choice:list"))
        elif not sym:
            w(o.items + (args[0],))
        return NONE
    if sym:
        if name == "copy":
            return it.alloc(o)
        it.put(r, ListO((it.unk("list method %s" % name),), "choice:list"))
        return NONE if name in ("extend", "reverse", "sort", "insert", "clear", "update") else Unk("list method")
    if name in ("extend", "update"):
        its = it.items(args[0])
        if its is None:
            it.put(r, ListO((it.unk("list extension"),), "choice:list"))
        else:
            w(o.items + tuple(its))
        return NONE
    if name == "insert":
        i = cint_(it, args[0])
        if i is None:
            return it.unk("insert")
        x = list(o.items)
        x.insert(i, args[1])
        w(tuple(x))
        return NONE
    if name == "pop":
        i = cint_(it, args[0]) if args else -1
        if i is None:
            return it.unk("pop")
        x = list(o.items)
        if not -len(x) <= i < len(x):
            it.throw("IndexError", K("pop index out of range"))
        v = x.pop(i)
        w(tuple(x))
        return v
    if name == "reverse":
        w(tuple(reversed(o.items)))
        return NONE
    if name == "copy":
        return it.alloc(ListO(o.items, o.kind))
    if name == "clear":
        w(())
        return NONE
    if name == "sort":
        x = sort_items(it, list(o.items), kwargs)
        if x is None:
            it.put(r, ListO((it.unk("sort"),), "choice:list"))
        else:
            w(tuple(x))
        return NONE
    if name in ("index", "count", "remove", "discard"):
        for i, x in enumerate(o.items):
            c = it.decide(it.truth(it.compare("Eq", x, args[0])))
            if c is t.TRUE:
                if name == "index":
                    return Num(t.num(i), "py", "int")
                if name in ("remove", "discard"):
                    w(o.items[:i] + o.items[i + 1:])
                    return NONE
            elif c is not t.FALSE:
                return it.unk("list method %s" % name)
        if name == "discard":
            return NONE
        if name == "count":
            return it.unk("count")
        it.throw("ValueError", K("not in list"))
    return it.unk("list method %s" % name)


def cint_(it, v):
    from .lib import cval
    return cval(it, v)


def sort_items(it, x, kwargs):
    key = kwargs.get("key")
    ks = x if key is None or (isinstance(key, K) and key.val is None) else [it.call(key, [v], {}) for v in x]
    vals = []
    for k in ks:
        n = it.num(k)
        c = t.const_val(n.term) if n is not None and n.shape == () else (k.val if isinstance(k, K) else None)
        if c is None and isinstance(k, Tup):
            cs = [(t.const_val(it.num(z).term) if it.num(z) is not None else getattr(z, "val", None)) for z in k.items]
            c = tuple(cs) if None not in cs else None
        if c is None:
            return None
        vals.append(c)
    rev = kwargs.get("reverse")
    try:
        order = sorted(range(len(x)), key=lambda i: vals[i], reverse=rev is not None and it.truth(rev) is t.TRUE)
    except TypeError:
        it.throw("TypeError", K("sort"))
    return [x[i] for i in order]


def dict_method(it, r, o, name, args, kwargs):
    from . import lib
    from .interp import UNDEF
    if name == "get":
        return lib.dict_get(it, r, args[0], args[1] if len(args) > 1 else kwargs.get("default", NONE))
    if name == "pop":
        d = args[1] if len(args) > 1 else None
        v = lib.dict_get(it, r, args[0], d)
        c = it.decide(lib.dict_has(it, it.get(r), args[0]))
        if c is not t.FALSE:
            it.branch([(c, lambda: (lib.dict_del(it, r, args[0]), NONE)[1]), (t.lnot(c), lambda: NONE)])
        return v
    if name == "setdefault":
        d = args[1] if len(args) > 1 else NONE
        v = lib.dict_get(it, r, args[0], d)
        lib.dict_set(it, r, args[0], v)
        return v
    if name == "update":
        for a in args:
            lib.dict_update(it, r, a)
        for k, v in kwargs.items():
            lib.dict_set(it, r, K(k), v)
        return NONE
    if name == "copy":
        return it.alloc(DictO(o.items, o.default))
    if name == "clear":
        it.put(r, DictO((), o.default))
        return NONE
    if name in ("keys", "values", "items"):
        if any(v is UNDEF or isinstance(v, Choice) and any(w is UNDEF for _, w in v.alts) for _, v in o.items):
            return it.unk("iteration over a dictionary with conditional entries")
        return it.alloc(ListO([k if name == "keys" else v if name == "values" else Tup([k, v]) for k, v in o.items]))
    return it.unk("dictionary method %s" % name)


def str_method(it, s, name, args, kwargs):
    if isinstance(s, K) and isinstance(s.val, (str, bytes)) and hasattr(s.val, name):
        if all(isinstance(a, K) and isinstance(a.val, (str, bytes)) for a in args) and not kwargs:
            try:
                r = getattr(s.val, name)(*[a.val for a in args])
            except TypeError as e:
                it.throw("TypeError", K(str(e)))
            from .interp import lit
            if isinstance(r, list):
                return it.alloc(ListO([lit(x) for x in r]))
            if isinstance(r, tuple):
                return Tup([lit(x) for x in r])
            return lit(r)
        if name == "join":
            its = it.items(args[0])
            if its is not None and all(isinstance(x, K) for x in its):
                return K(s.val.join(x.val for x in its))
        return Str("str." + name, (s,) + tuple(args))
    if isinstance(s, Str):
        if name in ("startswith", "endswith", "isdigit", "isalpha", "isupper", "islower"):
            return Num(t.bool_atom("str", (), (name, repr(s), repr(args))), "py", "bool")
        return Str("str." + name, (s,) + tuple(args))
    if isinstance(s, K) and s.val is None or isinstance(s, K):
        it.throw("AttributeError", K(name))
    return it.unk("string method %s" % name)


# ------------------------------------------------------------------------------------ conversions
def _num0(it, v):
    n = it.num(v)
    if n is None:
        return None
    if n.shape is not None and len(n.shape) > 0:
        if any(t.const_val(d) not in (1,) for d in n.shape):
            it.throw("TypeError", K("only length-1 arrays can be converted to Python scalars"))
        from .lib_num import at
        while n.shape:
            r = ln.index(it, n, Num(t.ZERO, "py", "int"))
            if r is None:
                return None
            n = r[0]
    return n


def to_py(it, v, dst):
    n = _num0(it, v)
    if n is None:
        if isinstance(v, (K, Str)) and (isinstance(v, Str) or isinstance(v.val, str)):
            if isinstance(v, K):
                from .interp import lit
                try:
                    return lit({"float": float, "int": int, "complex": complex}[dst](v.val))
                except ValueError:
                    it.throw("ValueError", K("could not convert string"))
            return it.unk("number from a string")
        if isinstance(v, HW):
            return HW("builtins." + dst, (v,)) if False else _hwconv(v, dst)
        if isinstance(v, Ref) and isinstance(it.get(v), Inst):
            for nm in ("__%s__" % dst, "__index__"):
                m = it.find_attr(it.get(v).cls, nm)
                if m is not None:
                    return it.call(it.bind(m, v), [], {})
        if isinstance(v, (K, Tup)) or isinstance(v, Ref):
            it.throw("TypeError", K("%s() of this type" % dst))
        return it.unk("%s()" % dst)
    if cls_of(n.dtype) == "complex" and dst != "complex":
        if n.kind == "np":
            return Num(ln.cast_term(n.term, n.dtype, dst), "py", dst)
        it.throw("TypeError", K("%s() argument must not be complex" % dst))
    if n.kind == "tf" and traced(it):
        it.issue("trace-effect", "%s() of a tensor inside a traced function" % dst)
        it.throw("TypeError", K("%s() of a symbolic tensor" % dst))
    return Num(ln.cast_term(n.term, n.dtype, dst), "py", dst)


def _hwconv(v, dst):
    from . import lib
    return lib.mkhw("builtins." + dst, (v,))


def traced(it):
    return any(x.how == "traced" for x in it.trackers)


def _reg_conv():
    for d in ("float", "int", "complex"):
        def f(it, x, y, d=d):
            if x is MISSING:
                return Num(t.ZERO, "py", d)
            if y is not MISSING:
                if d == "complex":
                    a, b = it.num(x), it.num(y)
                    return Num(t.add(a.term, t.mul(t.I, b.term)), "py", "complex")
                return it.unk("int with base")
            return to_py(it, x, d)
        ext("builtins." + d, "x=,y=")(f)


_reg_conv()


@ext("builtins.bool", "x=", raw=True)
def _(it, x):
    if x is MISSING:
        return Num(t.FALSE, "py", "bool")
    return Num(it.truth(x), "py", "bool")


@ext("builtins.abs", "x")
def _(it, x):
    n = it.num(x)
    if n is None:
        if isinstance(x, HW):
            return _hwconv(x, "abs")
        m = it.find_attr(it.get(x).cls, "__abs__") if isinstance(x, Ref) and isinstance(it.get(x), Inst) else None
        if m is not None:
            return it.call(it.bind(m, x), [], {})
        it.throw("TypeError", K("bad operand type for abs()"))
    return lib_fns.elementwise(it, {"py": "math", "np": "np", "tf": "tf"}[n.kind], "abs", x)


@ext("builtins.round", "x,n=")
def _(it, x, n):
    m = it.num(x)
    if m is None:
        return it.unk("round")
    if given(n):
        if it.num(n) is None:
            return it.unk("round")
        k = t.power(t.num(10), it.num(n).term)
        return Num(t.div(t.fun("round", t.mul(m.term, k)), k), m.kind, m.dtype, m.shape)
    return Num(t.fun("round", m.term), "py" if m.shape == () else m.kind, "int", m.shape)


def _minmax(name):
    def f(it, args, kw):
        xs = list(args.items)
        if len(xs) == 1:
            its = it.items(xs[0])
            n = it.num(xs[0])
            if its is None:
                if n is not None:
                    return it.unk("%s over an array" % name)
                return it.unk(name)
            xs = its
        if not xs:
            it.throw("ValueError", K("%s() of an empty sequence" % name))
        if "key" in kw or any(it.num(x) is None or it.num(x).shape != () for x in xs):
            if any(isinstance(x, HW) for x in xs):
                from . import lib
                return lib.mkhw("builtins." + name, tuple(xs))
            return it.unk(name)
        r = it.num(xs[0])
        from .interp import mergev
        for x in xs[1:]:
            n = it.num(x)
            c = t.lt(n.term, r.term) if name == "min" else t.lt(r.term, n.term)
            if r.kind == "py" and n.kind == "py" and r.dtype != n.dtype:
                r = mergev(c, n, r)
                if not isinstance(r, Num):
                    d = "float"
                    r = Num(t.ite(c, n.term, it.num(xs[0]).term), "py", d) if len(xs) == 2 else it.unk(name)
                    if not isinstance(r, Num):
                        return r
            else:
                r = r.with_(term=t.ite(c, n.term, r.term))
        return r
    ext("builtins." + name, "*args,**kw")(f)


_minmax("min")
_minmax("max")


@ext("builtins.sum math.fsum", "xs,start=")
def _(it, xs, start):
    its = it.items(xs)
    if its is None:
        sq = it.symseq(xs)
        if sq is not None:
            k = t.sym("$it_%d" % fresh(), (), "int", "nonneg")
            e = it.num(sq[1](k))
            if e is not None:
                return e.with_(term=it.sum_term(sq[0], t.as_num(e.term), next(iter(t.atoms_of(k)))))
        return it.unk("sum")
    r = start if start is not MISSING else Num(t.ZERO, "py", "int")
    for x in its:
        r = it.binop("Add", r, x)
    return r


@ext("math.prod", "xs,start=")
def _(it, xs, start):
    its = it.items(xs)
    if its is None:
        return it.unk("prod")
    r = start if start is not MISSING else Num(t.ONE, "py", "int")
    for x in its:
        r = it.binop("Mult", r, x)
    return r


@ext("builtins.len", "x")
def _(it, x):
    if isinstance(x, Ref):
        o = it.get(x)
        if isinstance(o, Inst):
            m = it.find_attr(o.cls, "__len__")
            if m is None:
                it.throw("TypeError", K("object has no len()"))
            return it.call(it.bind(m, x), [], {})
        if isinstance(o, ListO) and o.kind == "sym":
            return Num(o.items[0].n, "py", "int")
        if isinstance(o, (ListO, DictO)):
            its = it.items(x)
            return it.unk("len") if its is None else Num(t.num(len(its)), "py", "int")
    if isinstance(x, SymSeq):
        return Num(x.n, "py", "int")
    if isinstance(x, RangeV):
        s = it.symseq(x)
        its = it.items(x)
        return Num(t.num(len(its)), "py", "int") if its is not None else Num(s[0], "py", "int") if s else it.unk("len")
    if isinstance(x, Tup):
        return Num(t.num(len(x.items)), "py", "int")
    if isinstance(x, K) and isinstance(x.val, (str, bytes)):
        return Num(t.num(len(x.val)), "py", "int")
    n = it.num(x)
    if n is not None:
        if n.shape is None:
            return it.unk("len")
        if n.shape == ():
            it.throw("TypeError", K("object has no len()"))
        return Num(n.shape[0], "py", "int")
    if isinstance(x, HW):
        return _hwconv(x, "len")
    if isinstance(x, Str):
        return it.unk("length of a string")
    it.throw("TypeError", K("object has no len()"))


@ext("builtins.range", "a,b=,c=")
def _(it, a, b, c):
    ns = []
    for x in (a, b, c):
        if x is MISSING:
            ns.append(None)
            continue
        n = it.num(x)
        if n is None:
            if isinstance(x, HW):
                return it.unk("range of a vendor value")
            it.throw("TypeError", K("range() of this type"))
        if cls_of(n.dtype) not in ("int", "bool"):
            it.throw("TypeError", K("range() of a float"))
        ns.append(t.as_num(n.term))
    if ns[1] is None:
        return RangeV(t.ZERO, ns[0], t.ONE)
    return RangeV(ns[0], ns[1], ns[2] if ns[2] is not None else t.ONE)


@ext("builtins.enumerate", "x,start=")
def _(it, x, start):
    return EnumV(x, it.num(start).term if start is not MISSING else t.ZERO)


@ext("builtins.zip itertools.zip", "*xs,**kw")
def _(it, xs, kw):
    return ZipV(list(xs.items))


def _tolist(kind):
    def f(it, x):
        if x is MISSING:
            return it.alloc(ListO((), "set" if kind == "set" else "list")) if kind != "tuple" else Tup(())
        its = it.items(x)
        if its is None:
            sq = it.symseq(x)
            if sq is not None and kind != "set":
                s = SymSeq(sq[0], lambda k: sq[1](k), "list")
                return it.alloc(ListO((s,), "sym")) if kind == "list" else s
            return it.unk(kind)
        return Tup(its) if kind == "tuple" else it.alloc(ListO(its, "set" if kind == "set" else "list"))
    return f


ext("builtins.list", "x=")(_tolist("list"))
ext("builtins.tuple", "x=")(_tolist("tuple"))
ext("builtins.set builtins.frozenset", "x=")(_tolist("set"))


@ext("itertools.product", "*xs,**kw")
def _(it, xs, kw):
    import itertools
    ls = [it.items(x) for x in xs.items]
    if any(x is None for x in ls) or kw:
        return it.unk("product")
    return it.alloc(ListO([Tup(r) for r in itertools.product(*ls)]))


@ext("itertools.chain", "*xs")
def _(it, xs):
    ls = [it.items(x) for x in xs.items]
    if any(x is None for x in ls):
        return it.unk("chain")
    return it.alloc(ListO([y for x in ls for y in x]))


@ext("builtins.dict collections.OrderedDict", "x=,**kw", raw=True)
def _(it, x, kw):
    from . import lib
    r = it.alloc(DictO(()))
    if x is not MISSING:
        if isinstance(x, Ref) and isinstance(it.get(x), DictO):
            lib.dict_update(it, r, x)
        else:
            its = it.items(x)
            if its is None:
                return it.unk("dict()")
            for p in its:
                q = it.items(p)
                if q is None or len(q) != 2:
                    return it.unk("dict()")
                lib.dict_set(it, r, q[0], q[1])
    for k, v in kw.items():
        lib.dict_set(it, r, K(k), v)
    return r


@ext("builtins.sorted", "x,**kw")
def _(it, x, kw):
    its = it.items(x)
    if its is None:
        return it.unk("sorted")
    r = sort_items(it, its, kw)
    return it.alloc(ListO(r)) if r is not None else it.unk("sorted")


@ext("builtins.reversed", "x")
def _(it, x):
    if isinstance(x, RangeV):
        c = t.const_val(x.step)
        if c in (1, -1):
            return RangeV(t.sub(x.stop, x.step), t.sub(x.start, x.step), t.neg(x.step), x.dtype)
    its = it.items(x)
    if its is None:
        sq = it.symseq(x)
        if sq is not None:
            n, e = sq
            return SymSeq(n, lambda k: e(t.sub(t.sub(n, t.ONE), k)), "reversed")
        return it.unk("reversed")
    return it.alloc(ListO(list(reversed(its))))


@ext("builtins.str", "object=,encoding=,errors=")
def _(it, x, enc, err):
    from . import lib
    if given(enc) or given(err):
        return it.unk("str() of bytes")
    return K("") if x is MISSING else lib.to_str(it, x)


@ext("builtins.repr builtins.ascii", "x")
def _(it, x):
    from . import lib
    return lib.to_repr(it, x)


@ext("builtins.format", "x,spec=")
def _(it, x, s):
    from . import lib
    return lib.fmt(it, x, K("") if s is MISSING else s)


@ext("builtins.print", "*a,**k", raw=True)
def _(it, a, k):
    it.event("print", "print", tuple(snapshot(it, x) for x in a.items))
    return NONE


@ext("builtins.isinstance", "x,ty", raw=True)
def _(it, x, ty):
    from . import lib
    return Num(lib.isinstance_(it, x, ty), "py", "bool")


@ext("builtins.issubclass", "x,ty")
def _(it, x, ty):
    if isinstance(x, ClsV) and isinstance(ty, ClsV):
        return Num(t.T(it.is_subclass(x, ty)), "py", "bool")
    from . import lib
    tys = ty.items if isinstance(ty, Tup) else (ty,)
    if isinstance(x, Ext) and lib.is_exc(x.path.split(".")[-1]) and all(isinstance(y, (Ext, ClsV)) for y in tys):
        b = set(lib.exc_bases(x.path.split(".")[-1])) | {x.path.split(".")[-1]}
        return Num(t.T(any(isinstance(y, Ext) and y.path.split(".")[-1] in b for y in tys)), "py", "bool")
    if isinstance(x, ClsV) and all(isinstance(y, (Ext, ClsV)) for y in tys):
        return Num(t.T(any(it.is_subclass(x, y) if isinstance(y, ClsV) else y.path.split(".")[-1] in it.mro_names(x) for y in tys)), "py", "bool")
    if isinstance(x, HW):
        return Num(t.bool_atom("unknown", (), ("unknown", fresh())), "py", "bool")
    return it.unk("issubclass")


@ext("builtins.hasattr", "o,name")
def _(it, o, name):
    if not isinstance(name, K):
        return it.unk("hasattr")
    return Num(has(it, o, name.val), "py", "bool")


def has(it, o, name):
    r = it.has_attr(o, name)
    if r is not None:
        return r
    from . import lib
    s, raises, iss, unm = it.st, it.raises, dict(it.issues), dict(it.unmodelled)
    it.st = s.copy()
    it.raises = [[]]
    from .interp import Dead
    try:
        v = it.getattr(o, name)
        ok = True
    except Dead:
        ok = False
    it.st, it.raises, it.issues, it.unmodelled = s, raises, iss, unm
    return t.T(ok)


@ext("builtins.getattr", "o,name,default=")
def _(it, o, name, default):
    if not isinstance(name, K):
        return it.unk("getattr with a computed name")
    if default is MISSING:
        return it.getattr(o, name.val)
    c = has(it, o, name.val)
    if c is t.FALSE:
        return default
    if c is t.TRUE:
        return it.getattr(o, name.val)
    return it.branch([(c, lambda: it.getattr(o, name.val)), (t.lnot(c), lambda: default)])


@ext("builtins.setattr", "o,name,v", raw=True)
def _(it, o, name, v):
    if isinstance(name, Choice):
        def f(n):
            it.setattr(o, n.val, v)
            return NONE
        return it.dist(f, name)
    if not isinstance(name, K):
        return it.unk("setattr with a computed name")
    it.setattr(o, name.val, v)
    return NONE


@ext("builtins.type", "x,bases=,ns=")
def _(it, x, b, ns):
    from . import lib
    if b is not MISSING:
        return it.unk("type()")
    if isinstance(x, Ref) and isinstance(it.get(x), Inst):
        return it.get(x).cls
    n = lib.type_names(it, x)[0]
    if n in BUILTINS:
        return Ext("builtins." + n)
    if n.startswith("np.") and n != "np.ndarray":
        return lib.ext_attr(it, Ext("np"), n[3:])
    return Ext(n)


@ext("builtins.callable", "x")
def _(it, x):
    if isinstance(x, (Fn, BM, Native, Wrapped, ClsV, Ext, Partial, Method)):
        return Num(t.TRUE, "py", "bool")
    if isinstance(x, Ref) and isinstance(it.get(x), Inst):
        return Num(t.T(it.find_attr(it.get(x).cls, "__call__") is not None), "py", "bool")
    return Num(t.FALSE, "py", "bool")


@ext("builtins.iter", "x")
def _(it, x):
    if isinstance(x, Ref) and isinstance(it.get(x), IterO):
        return x
    its = it.items(x)
    if its is None:
        return it.unk("iter")
    return it.alloc(IterO(its))


def _next(it, x, default):
    if isinstance(x, Ref) and isinstance(it.get(x), IterO):
        o = it.get(x)
        if o.pos < len(o.items):
            it.put(x, IterO(o.items, o.pos + 1))
            return o.items[o.pos]
        if default is not MISSING:
            return default
        it.throw("StopIteration")
    return it.unk("next")


@ext("builtins.next", "x,default=")
def _(it, x, d):
    return _next(it, x, d)


@ext("builtins.map", "f,*xs", raw=True)
def _(it, f, xs):
    ls = [it.items(x) for x in xs.items]
    if any(x is None for x in ls):
        if len(ls) == 1:
            sq = it.symseq(xs.items[0])
            if sq is not None:
                k = t.sym("$it_%d" % fresh(), (), "int", "nonneg")
                ka = next(iter(t.atoms_of(k)))
                v = it.promote_loc(it.call(f, [sq[1](k)], {}), it.st)
                return SymSeq(sq[0], it.elem_of2(v, ka), "map")
        return it.unk("map")
    return it.alloc(IterO([it.call(f, list(r), {}) for r in zip(*ls)]))


@ext("builtins.filter", "f,x", raw=True)
def _(it, f, x):
    its = it.items(x)
    if its is None:
        return it.unk("filter")
    out = []
    for y in its:
        c = it.decide(it.truth(y if isinstance(f, K) else it.call(f, [y], {})))
        if c is t.TRUE:
            out.append(y)
        elif c is not t.FALSE:
            return it.unk("filter")
    return it.alloc(IterO(out))


def _anyall(name):
    def f(it, x):
        its = it.items(x)
        if its is None:
            return it.unk(name)
        c = t.FALSE if name == "any" else t.TRUE
        for y in its:
            c = t.lor(c, it.truth(y)) if name == "any" else t.land(c, it.truth(y))
        return Num(c, "py", "bool")
    ext("builtins." + name, "x")(f)


_anyall("any")
_anyall("all")


@ext("builtins.divmod", "a,b")
def _(it, a, b):
    return Tup([it.binop("FloorDiv", a, b), it.binop("Mod", a, b)])


@ext("builtins.pow", "a,b,m=")
def _(it, a, b, m):
    r = it.binop("Pow", a, b)
    return it.binop("Mod", r, m) if given(m) else r


@ext("builtins.slice", "a,b=,c=")
def _(it, a, b, c):
    if b is MISSING:
        return SliceV(NONE, a, NONE)
    return SliceV(a, b, c if c is not MISSING else NONE)


def _prop(it, fget, fset, fdel, doc):
    g = lambda x: x if given(x) else None
    return Prop(g(fget), g(fset), g(fdel))


ext("builtins.property", "fget=,fset=,fdel=,doc=", raw=True)(_prop)
ext("builtins.staticmethod", "f", raw=True)(lambda it, f: StaticM(f))
ext("builtins.classmethod", "f", raw=True)(lambda it, f: ClassM(f))


@ext("builtins.super", "cls=,obj=", raw=True)
def _(it, c, o):
    return SuperV(c, o)


@ext("builtins.object", "")
def _(it):
    return HW("object")


@ext("builtins.id", "x", raw=True)
def _(it, x):
    if isinstance(x, Ref):
        return Num(t.sym("$id%d" % x.oid, (), "int", "nonneg"), "py", "int")
    return it.unk("id")


@ext("builtins.vars", "x", raw=True)
def _(it, x):
    return InstDict(x) if isinstance(x, Ref) and isinstance(it.get(x), Inst) else it.unk("vars")
