"""Models of the remaining libraries: functools, tf.function, inspect, os, PIL, vendor libraries."""
from . import terms as t
from .values import *
from . import lib_num as ln
from .lib_reg import ext, given, MISSING, FUNCS


def pseudo_class(it, name, attrs, bases=()):
    """class implemented by the analysis"""
    fr = it.alloc(Frame(dict(attrs), None))
    return ClsV(name, "$lib", list(bases), fr.oid, None)


# ------------------------------------------------------------------------------------ records
def bind_fields(it, what, names, defaults, args, kwargs):
    vals = dict(zip(names, args))
    for k, v in kwargs.items():
        if k not in names or k in vals:
            it.throw("TypeError", K("%s() got an unexpected argument %s" % (what, k)))
        vals[k] = v
    if len(args) > len(names):
        it.throw("TypeError", K("%s() takes %d arguments" % (what, len(names))))
    for n in names:
        if n not in vals:
            if n not in defaults:
                it.throw("TypeError", K("%s() missing argument %s" % (what, n)))
            vals[n] = defaults[n]
    return vals


def make_ntup(it, c, names, args, kwargs):
    d = it.find_attr(c, "$defaults")
    defs = dict(d) if isinstance(d, dict) else {n: it.find_attr(c, n) for n in names if it.find_attr(c, n) is not None}
    vals = bind_fields(it, c.name, names, defs, args, kwargs)
    return NTup([vals[n] for n in names], c, names)


def ntup_attr(it, v, name):
    if name in v.names:
        return v.items[v.names.index(name)]
    if name == "_fields":
        return Tup([K(n) for n in v.names])
    if name == "_replace":
        def repl(it, a, k):
            for n in k:
                if n not in v.names:
                    it.throw("ValueError", K("unexpected field %s" % n))
            return v.like([k.get(n, x) for n, x in zip(v.names, v.items)])
        return Native("_replace", repl)
    if name == "_asdict":
        return Native("_asdict", lambda it, a, k: it.alloc(DictO([(K(n), x) for n, x in zip(v.names, v.items)])))
    m = it.find_attr(v.cls, name)
    if m is None:
        return None
    if isinstance(m, Prop):
        return it.call(m.fget, [v], {})
    return it.bind(m, v)


@ext("collections.namedtuple", "typename,field_names,rename=,defaults=,module=", raw=True)
def _(it, name, fields, rename, defaults, module):
    if isinstance(fields, K) and isinstance(fields.val, str):
        names = fields.val.replace(",", " ").split()
    else:
        xs = it.items(fields)
        if xs is None or not all(isinstance(x, K) and isinstance(x.val, str) for x in xs):
            return it.unk("named tuple")
        names = [x.val for x in xs]
    c = pseudo_class(it, name.val if isinstance(name, K) else "namedtuple", {"$fields": K(tuple(names))})
    if given(defaults) and not (isinstance(defaults, K) and defaults.val is None):
        ds = it.items(defaults)
        if ds is None:
            return it.unk("named tuple")
        o = it.get(Ref(c.ns))
        it.put(Ref(c.ns), Frame(dict(o.vars, **dict(zip(names[len(names) - len(ds):], ds))), None))
    return c


def dc_fields(it, c):
    names = []
    for k in reversed(it.mro(c)):
        if isinstance(k, ClsV):
            o = it.get(Ref(k.ns))
            a = o.vars.get("$annotations")
            for n in (a.val if a is not None else ()):
                if n not in names:
                    names.append(n)
    return names


def init_dataclass(it, c, r, args, kwargs):
    names = dc_fields(it, c)
    defs, skip = {}, []
    for n in names:
        v = it.find_attr(c, n)
        if isinstance(v, Fld):
            if not v.init:
                skip.append(n)
            if v.factory is not None:
                if n not in kwargs:
                    defs[n] = v
            elif v.default is not None:
                defs[n] = v.default
        elif v is not None and not isinstance(v, Prop):
            defs[n] = v
    vals = bind_fields(it, c.name, [n for n in names if n not in skip], defs, args, kwargs)
    for n in skip:
        if n in defs:
            vals[n] = defs[n]
    for n in names:
        if n in vals:
            v = vals[n]
            it.setattr_raw(r, n, it.call(v.factory, [], {}) if isinstance(v, Fld) else v)
    post = it.find_attr(c, "__post_init__")
    if post is not None:
        it.call(it.bind(post, r), [], {})


class Fld(V):
    """dataclasses.field"""
    __slots__ = ("default", "factory", "init")

    def __init__(self, default, factory, init):
        self.default, self.factory, self.init = default, factory, init


@ext("dataclasses.field", "*a,**k", raw=True)
def _(it, a, k):
    k = {x.val: y for x, y in it.get(k).items} if isinstance(k, Ref) else dict(k)
    i = k.get("init")
    init = not (i is not None and it.truth(i) is t.FALSE)
    return Fld(k.get("default"), k.get("default_factory"), init)


def _dataclass(it, args, kwargs):
    yes = lambda n, d: it.truth(kwargs[n]) is t.TRUE if n in kwargs else d
    if not args:
        return Native("dataclass", lambda i, a, k: _dataclass(i, [a[0]], kwargs))
    c = args[0]
    if not isinstance(c, ClsV):
        return it.unk("dataclass")
    o = it.get(Ref(c.ns))
    vs = dict(o.vars)
    frozen, eq = yes("frozen", False), yes("eq", True)
    vs["$dataclass"] = K((frozen, eq))
    if frozen:
        def ro(i, a, k):
            i.throw("FrozenInstanceError", a[1])
        vs.setdefault("__setattr__", Native("frozen", ro))
    if eq and "__eq__" not in vs:
        def same_fields(i, a, k):
            x, y = a
            if not (isinstance(y, Ref) and isinstance(i.get(y), Inst) and i.get(y).cls.uid == i.get(x).cls.uid):
                return Num(t.FALSE, "py", "bool")
            r = t.TRUE
            for n in dc_fields(i, i.get(x).cls):
                r = t.land(r, i.truth(i.compare("Eq", i.getattr(x, n), i.getattr(y, n))))
            return Num(r, "py", "bool")
        vs["__eq__"] = Native("dataclass eq", same_fields)
    it.put(Ref(c.ns), Frame(vs, None))
    return c


FUNCS["dataclasses.dataclass"] = _dataclass


@ext("dataclasses.replace", "o,**k", raw=True)
def _(it, o, k):
    k = {x.val: y for x, y in it.get(k).items} if isinstance(k, Ref) else dict(k)
    h = it.get(o)
    vals = {n: it.getattr(o, n) for n in dc_fields(it, h.cls)}
    vals.update(k)
    return it.instantiate(h.cls, [], vals)


@ext("types.SimpleNamespace", "**k", raw=True)
def _(it, k):
    k = {x.val: y for x, y in it.get(k).items} if isinstance(k, Ref) else dict(k)
    return it.alloc(Inst(pseudo_class(it, "SimpleNamespace", {}), dict(k)))


def image_array(it, v, d):
    """array made from a PIL image"""
    if not (isinstance(v, HW) and v.path == "PIL.Image.new()" and len(v.args) >= 2):
        return None
    sz = it.items(v.args[1])
    if sz is None or len(sz) != 2:
        return None
    mode = v.args[0]
    w, h = it.num(sz[0]), it.num(sz[1])
    if w is None or h is None or not isinstance(mode, K):
        return None
    shape = (h.term, w.term)
    src = "bool" if mode.val == "1" else "u8"
    if mode.val not in ("1", "L"):
        return None
    if d is False:
        return None
    dt = d or src
    if dt == "bool":
        n = Num(t.bool_atom("image", (), (v.uid,), shape), "np", "bool", shape)
    else:
        x = t.opaque("image", (), (v.uid,), shape, "real", "int", "nonneg")
        n = Num(x, "np", dt, shape)
    it.event("image", "array", (v, K(mode.val), K(dt), n))
    return it.alloc(ArrO(n, fresh()))


# ------------------------------------------------------------------------------------ decorators
def _wrapper(how):
    return Native(how, lambda it, a, k: Wrapped(how, a[0]) if a else it.unk(how))


def _cache(it, args, kwargs):
    if args and isinstance(args[0], (Fn, Wrapped, Native, BM, StaticM)) or "user_function" in kwargs:
        return Wrapped("memoised", args[0] if args else kwargs["user_function"])
    m = args[0] if args else kwargs.get("maxsize")
    n = it.num(m) if m is not None else None
    if n is not None and t.const_val(n.term) == 0:
        return Native("identity", lambda it, a, k: a[0])
    return _wrapper("memoised")


FUNCS["contextlib.contextmanager"] = lambda it, a, k: Wrapped("contextmanager", a[0])


@ext("contextlib.nullcontext", "enter_result=")
def _(it, v):
    return CtxV(None, lambda: v if given(v) else NONE, lambda exc: NONE)


@ext("contextlib.closing", "thing")
def _(it, v):
    return CtxV(None, lambda: v, lambda exc: (it.call(it.getattr(v, "close"), [], {}), NONE)[1])


@ext("contextlib.suppress", "*exceptions", raw=True)
def _(it, ex):
    return CtxV(None, lambda: NONE, lambda exc: NONE if exc is None else Num(it.lib.isinstance_(it, exc, ex), "py", "bool"))


for _n in ("functools.lru_cache", "functools.cache"):
    FUNCS[_n] = _cache


def _tf_function(it, args, kwargs):
    f = args[0] if args else kwargs.get("func")
    if f is None or (isinstance(f, K) and f.val is None):
        return _wrapper("traced")
    return Wrapped("traced", f)


FUNCS["tf.function"] = _tf_function
FUNCS["tf.autograph.experimental.do_not_convert"] = lambda it, a, k: a[0]
FUNCS["tf.compat.v2.function"] = _tf_function


@ext("functools.cached_property", "f")
def _(it, f):
    return Prop(f, None, None, Wrapped("memoised", f))


@ext("functools.wraps", "f,assigned=,updated=")
def _(it, f, a, u):
    return Native("wraps", lambda it, a, k: a[0])


FUNCS["functools.update_wrapper"] = lambda it, a, k: a[0]
FUNCS["functools.partial"] = lambda it, a, k: Partial(a[0], tuple(a[1:]), dict(k))


@ext("functools.reduce", "f,xs,init=", raw=True)
def _(it, f, xs, init):
    its = it.items(xs)
    if its is None:
        return it.unk("reduce")
    if init is not MISSING:
        its = [init] + its
    if not its:
        it.throw("TypeError", K("reduce of an empty sequence"))
    r = its[0]
    for x in its[1:]:
        r = it.call(f, [r, x], {})
    return r


FUNCS["abc.abstractmethod"] = lambda it, a, k: a[0]
FUNCS["inspect.signature"] = lambda it, a, k: HW("inspect.signature()", a)
for _n in ("warnings.warn", "warnings.simplefilter", "warnings.filterwarnings", "tf.debugging.assert_equal",
           "tf.debugging.assert_greater", "gc.collect", "time.sleep", "tf.print", "logging.debug", "logging.info",
           "logging.warning", "logging.basicConfig"):
    FUNCS[_n] = lambda it, a, k: NONE
FUNCS["logging.getLogger"] = lambda it, a, k: HW("logger")


@ext("copy.copy copy.deepcopy", "x")
def _(it, x):
    if isinstance(x, Ref):
        o = it.get(x)
        if isinstance(o, ArrO):
            return it.alloc(ArrO(o.num, fresh()))
        if isinstance(o, ListO) and all(not isinstance(v, Ref) for v in o.items):
            return it.alloc(ListO(o.items, o.kind))
        return it.unk("copy of an object")
    return x


# ------------------------------------------------------------------------------------ environment
def _str(name):
    def f(it, a, k):
        return Str(name, a)
    return f


for _n in ("os.path.join", "os.path.dirname", "os.path.abspath", "os.path.basename", "os.getcwd", "os.path.realpath"):
    FUNCS[_n] = _str(_n)


@ext("tf.config.list_logical_devices tf.config.list_physical_devices tf.config.experimental.list_physical_devices",
     "device_type=")
def _(it, d):
    return it.alloc(ListO([HW("gpu")] if it.gpu else []))


FUNCS["tf.test.is_gpu_available"] = lambda it, a, k: Num(t.T(bool(it.gpu)), "py", "bool")
FUNCS["tf.executing_eagerly"] = lambda it, a, k: Num(t.T(not any(x.how == "traced" for x in it.trackers)), "py", "bool")


# ------------------------------------------------------------------------------------ vendor libraries
def alp_class(it):
    def ga(it, a, k):
        name = a[1].val
        return HW("alp." + name, (a[0],))

    def init(it, a, k):
        it.event("hw", "ALP4.ALP4()", a[1:], tuple(sorted(k.items())))
        it.put(a[0], it.get(a[0]).set("_lastDDRseq", NONE))
        return NONE
    return pseudo_class(it, "ALP4", {"__getattr__": Native("alp.getattr", ga), "__init__": Native("alp.init", init)})


def make_alp(it, args, kwargs):
    return it.instantiate(alp_class(it), args, kwargs)


FUNCS["ALP4.ALP4"] = make_alp


def _loop_iter(name, nvals):
    def f(it, obj, args, kwargs):
        def elem():
            idx = HW("%s.index" % name, (obj,) + tuple(args))
            return Tup([idx, HW("%s.var" % name, (obj,) + tuple(args))])
        return HWIter(name, tuple(args), elem)
    return f


HWITERS = {"jump_loop_iter": _loop_iter("jump_loop", 0), "range_loop_iter": _loop_iter("range_loop", 1)}
