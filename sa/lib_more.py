"""Further library models: those written in Python (interpreted like the package), outer products, open grids, iteration tools."""
import ast
from . import terms as t
from .values import *
from . import lib_num as ln
from .lib_reg import FUNCS, METHODS, CONSTS, MISSING, ext, given
from .lib_fns import conv
from .lib_arr import shape_arg, out, nparr, transpose, flip_axes, axes_arg, rank_of, np_rand, draw, to_dt

SRC = '''
def while_loop(cond, body, vars):
    while cond(*vars):
        vars = body(*vars)
    return vars

def while_loop1(cond, body, a):
    while cond(a):
        a = body(a)
    return (a,)

def while_loop1s(cond, body, a):
    while cond(a):
        (a,) = body(a)
    return (a,)

def while_loop2(cond, body, a, b):
    while cond(a, b):
        a, b = body(a, b)
    return (a, b)

def while_loop3(cond, body, a, b, c):
    while cond(a, b, c):
        a, b, c = body(a, b, c)
    return (a, b, c)

def while_loop4(cond, body, a, b, c, d):
    while cond(a, b, c, d):
        a, b, c, d = body(a, b, c, d)
    return (a, b, c, d)

def foldl(fn, elems, acc):
    for e in elems:
        acc = fn(acc, e)
    return acc

def case(pairs, default):
    for pred, fn in pairs:
        if pred:
            return fn()
    return default()

def accumulate(xs, f):
    out = []
    first = True
    for x in xs:
        acc = x if first else f(acc, x)
        first = False
        out.append(acc)
    return out

def takewhile(f, xs):
    out = []
    for x in xs:
        if not f(x):
            break
        out.append(x)
    return out

def starmap(f, xs):
    return [f(*x) for x in xs]
'''
NODES = {x.name: x for x in ast.parse(SRC).body}


def prelude(it, name, *args):
    """run a model written in Python"""
    if "$prelude" not in it.modframes or it.modframes["$prelude"] not in it.st.heap:
        it.modframes["$prelude"] = it.alloc(Frame({"__name__": K("$prelude")}, None)).oid
    fr = it.modframes["$prelude"]
    return it.call(Fn(NODES[name], fr, "$prelude", None, name, [], {}), list(args), {})


@ext("tf.while_loop", "cond,body,loop_vars,shape_invariants=,parallel_iterations=,back_prop=,swap_memory=,maximum_iterations=,name=", raw=True)
def _(it, cond, body, vs, si, pi, bp, sm, mx, name):
    its = it.items(vs)
    if its is None or given(mx) or not 1 <= len(its) <= 4:
        return it.unk("while_loop")
    one = ""
    if len(its) == 1:       # the body returns the value or a sequence of it
        saved = it.st
        it.st = saved.copy() if hasattr(saved, "copy") else saved
        r = it.call(body, its, {})
        it.st = saved
        one = "s" if isinstance(r, Tup) or isinstance(r, Ref) and isinstance(it.get(r), ListO) else ""
    from .lib_call import as_tensor_arg
    vals = []
    for v in its:
        n = it.num(v)
        if n is None:
            return it.unk("while_loop variable")
        vals.append(v if n.kind == "tf" else FUNCS["tf.constant"](it, [v], {}))
    r = prelude(it, "while_loop%d%s" % (len(its), one), cond, body, *vals)
    if isinstance(r, Tup):
        return it.alloc(ListO(list(r.items))) if isinstance(vs, Ref) else r
    return r


@ext("tf.foldl", "fn,elems,initializer=,parallel_iterations=,back_prop=,swap_memory=,name=", raw=True)
def _(it, fn, elems, init, *r):
    if init is MISSING:
        return it.unk("foldl")
    return prelude(it, "foldl", fn, elems, init)


@ext("tf.case", "pred_fn_pairs,default=,exclusive=,strict=,name=", raw=True)
def _(it, pairs, default, *r):
    if default is MISSING or it.items(pairs) is None:
        return it.unk("case")
    return prelude(it, "case", pairs, default)


@ext("itertools.accumulate", "xs,func=,initial=", raw=True)
def _(it, xs, f, init):
    its = it.items(xs)
    if its is None:
        return it.unk("accumulate")
    if given(init):
        its = [init] + its
    if not given(f):
        f = Native("add", lambda i, a, k: i.binop("Add", a[0], a[1]))
    return prelude(it, "accumulate", it.alloc(ListO(its)), f)


@ext("itertools.takewhile", "f,xs", raw=True)
def _(it, f, xs):
    return prelude(it, "takewhile", f, xs)


@ext("itertools.starmap", "f,xs", raw=True)
def _(it, f, xs):
    return prelude(it, "starmap", f, xs)


BIG_N = t.sym("$infinite", (), "int", "pos")


def is_infinite(v):
    return isinstance(v, SymSeq) and v.n is BIG_N


@ext("itertools.count", "start=,step=")
def _(it, a, s):
    a = it.num(a) if a is not MISSING else Num(t.ZERO, "py", "int")
    s = it.num(s) if s is not MISSING else Num(t.ONE, "py", "int")
    return SymSeq(BIG_N, lambda k: Num(t.add(a.term, t.mul(k, s.term)), "py", a.dtype), "count")


@ext("itertools.repeat", "x,times=", raw=True)
def _(it, x, n):
    if n is MISSING:
        return SymSeq(BIG_N, lambda k: x, "repeat")
    n = it.num(n)
    if n is None:
        return it.unk("repeat")
    c = t.const_val(n.term)
    return SymSeq(n.term, lambda k: x, "repeat") if c is None else it.alloc(ListO([x] * max(0, int(c))))


@ext("itertools.islice", "xs,a,b=,c=")
def _(it, xs, a, b, c):
    lo, hi, st = (NONE, a, NONE) if b is MISSING else (a, b, c if c is not MISSING else NONE)
    val = lambda v, d: d if isinstance(v, K) and v.val is None else t.const_val(it.num(v).term) if it.num(v) is not None else "?"
    l, h, s = val(lo, 0), val(hi, None), val(st, 1)
    if "?" in (l, h, s) or None in (l, s):
        if isinstance(hi, Num) and l == 0 and s == 1:
            q = it.symseq(xs)
            if q is not None and is_infinite(xs):
                return SymSeq(hi.term, q[1], "islice")
        return it.unk("islice")
    if is_infinite(xs):
        if h is None:
            return it.unk("islice")
        return it.alloc(ListO([xs.elem(t.num(int(k))) for k in range(int(l), int(h), int(s))]))
    its = it.items(xs)
    if its is None:
        return it.unk("islice")
    return it.alloc(ListO(its[int(l):None if h is None else int(h):int(s)]))


def _lists(name, f, sig="*xs"):
    @ext("itertools." + name, sig)
    def _(it, xs, *r):
        ls = [it.items(x) for x in (xs.items if isinstance(xs, Tup) and sig.startswith("*") else [xs])]
        if any(x is None for x in ls):
            return it.unk(name)
        q = [t.const_val(it.num(x).term) if isinstance(x, Num) else None for x in r]
        return it.alloc(ListO([Tup(y) if isinstance(y, (tuple, list)) else y for y in f(*ls, *q)]))


import itertools as _it
_lists("zip_longest", lambda *ls: _it.zip_longest(*ls, fillvalue=NONE))
_lists("pairwise", lambda l: list(_it.pairwise(l)), "xs")
_lists("combinations", lambda l, n: list(_it.combinations(l, int(n))), "xs,r")
_lists("permutations", lambda l, n=None: list(_it.permutations(l, int(n) if n is not None else None)), "xs,r=")


@ext("itertools.chain.from_iterable", "xs")
def _(it, xs):
    ls = it.items(xs)
    ls = None if ls is None else [it.items(x) for x in ls]
    if ls is None or any(x is None for x in ls):
        return it.unk("chain")
    return it.alloc(ListO([y for x in ls for y in x]))


# ---- operator
@ext("operator.not_", "x")
def _(it, x):
    return Num(t.lnot(it.truth(x)), "py", "bool")


@ext("operator.methodcaller", "name,*a,**k", raw=True)
def _(it, name, a, k):
    return Native("methodcaller", lambda i, b, kk: i.call(i.getattr(b[0], name.val), list(a.items), dict(k)))


# ---- importlib
@ext("importlib.import_module", "name,package=")
def _(it, name, pk):
    if not (isinstance(name, K) and isinstance(name.val, str)):
        return it.unk("import_module")
    n = name.val
    if n.startswith("."):
        base = (pk.val if isinstance(pk, K) else "").split(".")
        d = len(n) - len(n.lstrip("."))
        n = ".".join(base[:len(base) - d + 1] + [n.lstrip(".")])
    r = it.do_import(n, None)
    return r if r is not None else it.unk("import_module")


@ext("importlib.util.find_spec", "name,package=")
def _(it, name, pk):
    if not (isinstance(name, K) and isinstance(name.val, str)):
        return it.unk("find_spec")
    root = name.val.split(".")[0]
    if root in ("ALP4", "Luxbeam") and root not in it.libs:
        return NONE
    return Str("spec", (name,))


# ---- bytes
@ext("builtins.bytes", "x=,*r")
def _(it, x, r):
    if isinstance(x, Str) and x.kind == "bytes":
        return x
    if isinstance(x, Ref) and isinstance(it.get(x), ArrO):
        return it.call(it.getattr(x, "tobytes"), [], {})
    return it.unk("bytes")


@ext("builtins.memoryview", "x")
def _(it, x):
    return x


# ---- arrays
def outer(op):
    def f(it, a, b, *r):
        x, y = nparr(it, a), nparr(it, b)
        if x is None or y is None or x.shape is None or y.shape is None or len(x.shape) != 1 or len(y.shape) != 1:
            return it.unk("outer product")
        sl = SliceV(NONE, NONE, NONE)
        p = it.getitem(a if isinstance(a, Ref) else it.alloc(ArrO(x, fresh())), Tup([sl, NONE]))
        q = it.getitem(b if isinstance(b, Ref) else it.alloc(ArrO(y, fresh())), Tup([NONE, sl]))
        return it.binop(op, p, q)
    return f


for _n, _op in (("np.add", "Add"), ("np.subtract", "Sub"), ("np.multiply", "Mult"), ("np.divide", "Div"), ("np.true_divide", "Div"), ("np.power", "Pow")):
    ext(_n + ".outer", "a,b")(outer(_op))
ext("np.outer", "a,b,out=")(outer("Mult"))


@ext("np.tile tf.tile", "x,reps")
def _(it, x, reps):
    n = conv(it, x)
    rs = shape_arg(it, reps)
    if n is None or n.shape is None or rs is None:
        return it.unk("tile")
    lib = "tf" if n.kind == "tf" else "np"
    sh = (t.ONE,) * (len(rs) - len(n.shape)) + tuple(n.shape)
    rs = (t.ONE,) * (len(sh) - len(rs)) + tuple(rs)
    full = []
    for d, r in zip(sh, rs):
        if r is t.ONE:
            full.append(d)
        elif d is t.ONE:
            full.append(r)
        else:
            return it.unk("tile of an axis")
    m = ln.lift_rank(n, len(full)) if n.shape else n
    if m is None:
        return it.unk("tile")
    return out(it, lib, n.dtype, m.term, tuple(full))


@ext("np.repeat", "a,repeats,axis=")
def _(it, x, k, axis):
    """a fixed number of times; element by element of a list"""
    r = shape_arg(it, k)
    k = None if r is None or len(r) != 1 else t.const_val(r[0])
    if k is None or k.denominator != 1:
        return it.unk("repeat")
    k = int(k)
    n = conv(it, x)
    if n is not None and n.shape == () and not given(axis):
        return FUNCS["np.array"](it, [it.alloc(ListO([n] * k))], {})
    rows = it.items(x) if isinstance(x, Tup) or isinstance(x, Ref) and isinstance(it.get(x), ListO) else None
    if rows is None or n is None or n.shape is None:
        return it.unk("repeat")
    ax = axes_arg(it, Tup([axis]), len(n.shape))[0] if given(axis) else None
    if len(n.shape) == 1:
        rows = [v for v in rows for _ in range(k)]
    elif len(n.shape) == 2 and ax is not None:
        rows = [it.items(v) for v in rows]
        if any(v is None for v in rows):
            return it.unk("repeat")
        rows = [v for v in rows for _ in range(k)] if ax == 0 else [[e for e in v for _ in range(k)] for v in rows]
        rows = [it.alloc(ListO(list(v))) for v in rows]
    else:
        return it.unk("repeat")
    return FUNCS["np.array"](it, [it.alloc(ListO(rows))], {})


@ext("np.broadcast_arrays", "*xs,**k")
def _(it, xs, k):
    ns = [conv(it, x) for x in xs.items]
    if any(n is None for n in ns):
        return it.unk("broadcast_arrays")
    ms, sh = ln.broadcast(it, "broadcast_arrays", ns)
    if ms is None:
        return it.unk("broadcast_arrays")
    return Tup([out(it, "np", n.dtype, m.term, sh.shape) for n, m in zip(ns, ms)])


@ext("np.atleast_2d", "x")
def _(it, x):
    n = nparr(it, x)
    if n is None or n.shape is None:
        return it.unk("atleast_2d")
    if len(n.shape) >= 2:
        return x
    sl = SliceV(NONE, NONE, NONE)
    if len(n.shape) == 1:
        return it.getitem(x, Tup([NONE, sl]))
    return it.unk("atleast_2d")


@ext("np.swapaxes np.moveaxis", "x,source,destination")
def _(it, x, a, b):
    n = nparr(it, x)
    ab = [t.const_val(it.num(v).term) if it.num(v) is not None else None for v in (a, b)]
    if n is None or n.shape is None or len(n.shape) != 2 or None in ab:
        return it.unk("swapaxes")
    if ab[0] % 2 == ab[1] % 2:
        return x
    return transpose(it, "np", x, MISSING, MISSING, MISSING)


@ext("np.rot90", "x,k=,axes=")
def _(it, x, k, axes):
    k = 1 if k is MISSING else t.const_val(it.num(k).term) if it.num(k) is not None else None
    if k is None or axes is not MISSING or rank_of(it, "np", x) != 2:
        return it.unk("rot90")
    k = int(k) % 4
    if k == 0:
        return x
    if k == 2:
        return flip_axes(it, "np", x, (0, 1))
    if k == 1:
        return transpose(it, "np", flip_axes(it, "np", x, (1,)), MISSING, MISSING, MISSING)
    return flip_axes(it, "np", transpose(it, "np", x, MISSING, MISSING, MISSING), (1,))


@ext("np.indices", "dims,dtype=,sparse=")
def _(it, dims, d, sp):
    s = shape_arg(it, dims)
    if s is None or not 1 <= len(s) <= 2:
        return it.unk("indices")
    d = to_dt(it, d, "np") or "i64"
    if len(s) == 1:
        return Tup([out(it, "np", d, t.idx("v", s[0]), s)])
    if given(sp) and it.truth(sp) is t.TRUE:
        return Tup([out(it, "np", d, t.idx(0, s[0]), (s[0], t.ONE)), out(it, "np", d, t.idx(1, s[1]), (t.ONE, s[1]))])
    return Tup([out(it, "np", d, t.idx(0, s[0]), s), out(it, "np", d, t.idx(1, s[1]), s)])


@ext("np.fromfunction", "f,shape,dtype=,**k", raw=True)
def _(it, f, sh, d, k):
    kw = {} if d is MISSING else {"dtype": d}
    r = FUNCS["np.indices"](it, [sh], kw or {"dtype": Ext("np.float64")})
    its = it.items(r)
    return it.call(f, its, dict(k)) if its is not None else r


def grid(it, which, i):
    """np.mgrid / np.ogrid"""
    sl = list(i.items) if isinstance(i, Tup) else [i]
    if len(sl) != 2 or any(not isinstance(s, SliceV) for s in sl):
        return it.unk(which)
    axes = []
    for s in sl:
        lo, hi, st = s.a, s.b, s.c
        a = [lo if not (isinstance(lo, K) and lo.val is None) else Num(t.ZERO, "py", "int"), hi]
        n = it.num(st) if not (isinstance(st, K) and st.val is None) else None
        if n is not None and n.dtype == "complex":
            axes.append(FUNCS["np.linspace"](it, a + [Num(t.div(n.term, t.I), "py", "int")], {}))
        else:
            axes.append(FUNCS["np.arange"](it, a + ([st] if n is not None else []), {}))
    if which == "np.ogrid":
        f = SliceV(NONE, NONE, NONE)
        return Tup([it.getitem(axes[0], Tup([f, NONE])), it.getitem(axes[1], Tup([NONE, f]))])
    return FUNCS["np.meshgrid"](it, axes, {"indexing": K("ij")})


@ext("np.select", "conds,choices,default=")
def _(it, cs, vs, d):
    a, b = it.items(cs), it.items(vs)
    if a is None or b is None or len(a) != len(b):
        return it.unk("select")
    r = d if d is not MISSING else Num(t.ZERO, "py", "int")
    for c, v in list(zip(a, b))[::-1]:
        r = FUNCS["np.where"](it, [c, v, r], {})
    return r


@ext("np.piecewise", "x,conds,funcs,*a,**k", raw=True)
def _(it, x, cs, fs, a, k):
    n = nparr(it, x)
    conds, funcs = it.items(cs), it.items(fs)
    if conds is None and isinstance(cs, Ref):
        conds = [cs]
    if n is None or conds is None or funcs is None or len(funcs) not in (len(conds), len(conds) + 1):
        return it.unk("piecewise")

    def val(f):
        return it.call(f, [x] + list(a.items), dict(k)) if isinstance(f, (Fn, BM, Native, Wrapped, Ext)) else f
    r = val(funcs[-1]) if len(funcs) > len(conds) else Num(t.ZERO, "py", "int")
    for c, f in zip(conds, funcs):
        r = FUNCS["np.where"](it, [c, val(f), r], {})
    return FUNCS["np.asarray"](it, [r], {"dtype": it.getattr(x, "dtype")})


@ext("np.isclose", "a,b,rtol=,atol=,equal_nan=")
def isclose(it, a, b, rt, at, en):
    rt = rt if rt is not MISSING else Num(t.div(t.ONE, t.num(10 ** 5)), "py", "float")
    at = at if at is not MISSING else Num(t.div(t.ONE, t.num(10 ** 8)), "py", "float")
    dist_ = FUNCS["np.abs"](it, [it.binop("Sub", a, b)], {})
    tol = it.binop("Add", at, it.binop("Mult", rt, FUNCS["np.abs"](it, [b], {})))
    return it.compare("LtE", dist_, tol)


@ext("np.allclose", "a,b,rtol=,atol=,equal_nan=")
def _(it, a, b, rt, at, en):
    return FUNCS["np.all"](it, [isclose(it, a, b, rt, at, en)], {})


@ext("np.heaviside", "x,h")
def _(it, x, h):
    z = Num(t.ZERO, "py", "float")
    return FUNCS["np.where"](it, [it.compare("Lt", x, z), z, FUNCS["np.where"](it, [it.compare("Eq", x, z), h, Num(t.ONE, "py", "float")], {})], {})


@ext("np.ptp", "x")
def _(it, x):
    return it.binop("Sub", FUNCS["np.max"](it, [x], {}), FUNCS["np.min"](it, [x], {}))


# ---- generators of random numbers that seeding TensorFlow does not control
def generator(it, src):
    def uniform(i, a, k):
        sh = a[0] if a else k.get("shape", k.get("size", NONE))
        if src == "np" and "low" in k or len(a) > 1:
            sh = k.get("size", k.get("shape", a[-1]))
        s = shape_arg(i, sh) if not (isinstance(sh, K) and sh.val is None) else ()
        if src == "np":
            return np_rand(i, s, "uniform")
        return draw(i, "generator", s, to_dt(i, k["dtype"], "tf") if "dtype" in k else "f32", "uniform")
    from .lib_misc import pseudo_class
    fs = {n: Native("generator." + n, lambda i, a, k: uniform(i, a[1:], k)) for n in ("uniform", "random", "normal", "standard_normal", "random_sample", "rand")}
    c = pseudo_class(it, "Generator", fs, [])
    return it.alloc(Inst(c, {}))


for _n in ("np.random.default_rng", "np.random.Generator", "np.random.RandomState", "random.Random"):
    FUNCS[_n] = lambda it, a, k: generator(it, "np")
for _n in ("tf.random.Generator.from_seed", "tf.random.Generator.from_non_deterministic_state", "tf.random.Generator.from_state", "tf.random.Generator"):
    FUNCS[_n] = lambda it, a, k: generator(it, "generator")


@ext("np.isin np.in1d", "x,test,assume_unique=,invert=")
def _(it, x, test, au, inv):
    n = conv(it, test)
    from .lib import seq_items
    vals = seq_items(it, test) if isinstance(test, (Ref, Tup)) else [test] if n is not None and n.shape == () else None
    if vals is None:
        return it.unk("np.isin of an array")
    r = None
    for v in vals:
        e = it.compare("Eq", x, v)
        r = e if r is None else FUNCS["np.logical_or"](it, [r, e], {})
    if r is None:
        return it.compare("NotEq", x, x)
    if inv is not MISSING and it.decide(it.truth(inv)) is t.TRUE:
        r = FUNCS["np.logical_not"](it, [r], {})
    return r
