"""Numeric domain operations: element types, broadcasting, arithmetic, comparison, indexing."""
from . import terms as t
from .values import *

FLOATS, COMPLEX, INTS = ("f32", "f64", "float"), ("c64", "c128", "complex"), ("int", "i32", "i64", "u8")
PYRANK = {"bool": 0, "int": 1, "float": 2, "complex": 3}
REALOF = {"c64": "f32", "c128": "f64", "complex": "float"}
CPLXOF = {"f32": "c64", "f64": "c128", "float": "complex"}


def cls_of(d):
    return "bool" if d == "bool" else "int" if d in INTS else "float" if d in FLOATS else "complex"


def np_promote(a, b):
    """numpy type promotion of two array element types"""
    if a == b:
        return a
    order = ["bool", "u8", "i32", "i64", "f32", "f64", "c64", "c128"]
    if order.index(a) > order.index(b):
        a, b = b, a
    if b in ("i32", "i64", "f64", "c128"):
        return b
    if b == "f32":
        return "f64" if a in ("i32", "i64") else "f32"
    if b == "c64":
        return "c128" if a in ("i32", "i64", "f64") else "c64"
    return b


def np_weak(np_d, py_d):
    """numpy element type combined with a python scalar"""
    if PYRANK[cls_of(np_d)] >= PYRANK[py_d]:
        return np_d
    if py_d == "int":
        return "i64"
    if py_d == "float":
        return "f64"
    return {"f32": "c64"}.get(np_d, "c128")


def np_of(d):
    return {"int": "i64", "float": "f64", "complex": "c128"}.get(d, d)


def tf_of(d):
    return {"int": "i32", "float": "f32", "complex": "c128"}.get(d, d)


def can_cast(src, dst):
    """numpy same_kind casting"""
    return PYRANK[cls_of(src)] <= PYRANK[cls_of(dst)]


def mixdtype(it, what, a, b):
    it.issue("dtype", "%s mixes element types %s and %s" % (what, a, b))
    it.throw("InvalidArgumentError", K("%s: element types %s and %s" % (what, a, b)))


def tf_operand(it, what, n, d):
    """check that n converts to a tensor of element type d (operands of one tensor operation)"""
    if n.kind == "tf":
        if n.dtype != d:
            mixdtype(it, what, n.dtype, d)
        return
    c = cls_of(n.dtype)
    ok = PYRANK[c] <= PYRANK[cls_of(d)] if d != "bool" else c == "bool"
    if c == "bool" and d != "bool" and n.kind == "py":
        ok = False
    if not ok:
        mixdtype(it, what, n.dtype, d)


def common(it, what, ns, arith=True):
    """(kind, element type) in which an operation on ns is carried out"""
    tfs = [n for n in ns if n.kind == "tf"]
    if tfs:
        d = tfs[0].dtype
        for n in ns:
            tf_operand(it, what, n, d)
        return "tf", d
    nps = [n for n in ns if n.kind == "np"]
    if nps:
        d = nps[0].dtype
        for n in nps[1:]:
            d = np_promote(d, n.dtype)
        for n in ns:
            if n.kind == "py":
                d = np_weak(d, n.dtype)
        return "np", d
    d = max((n.dtype for n in ns), key=lambda x: PYRANK[x])
    if arith and d == "bool":
        d = "int"
    return "py", d


# ------------------------------------------------------------------------------------ shapes
def dim_eq(it, a, b):
    if a is b or t.equal(a, b):
        return True
    return it.decide(t.eq(a, b)) is t.TRUE


def lift_rank(n, rank):
    if n.shape is None or n.sel is not None or len(n.shape) == 0 or len(n.shape) >= rank:
        return n
    if len(n.shape) == 1 and rank == 2:
        return n.with_(term=t.along(n.term, 1), shape=(t.ONE, n.shape[0]))
    return None


def broadcast(it, what, ns):
    """operands brought to a common rank, and the common shape"""
    if any(n.sel is not None for n in ns):
        sel = next(n for n in ns if n.sel is not None)
        for n in ns:
            if n.sel is not sel.sel and n.shape != ():
                return None, None
        return ns, sel
    if any(n.shape is None for n in ns):
        return ns, Num(t.ZERO, "py", None, None)
    rank = max(len(n.shape) for n in ns)
    out = []
    for n in ns:
        m = lift_rank(n, rank)
        if m is None:
            return None, None
        out.append(m)
    shape = [t.ONE] * rank
    for n in out:
        s = (t.ONE,) * (rank - len(n.shape)) + tuple(n.shape)
        for i, d in enumerate(s):
            if d is t.ONE or shape[i] is d:
                continue
            if shape[i] is t.ONE:
                shape[i] = d
            elif not dim_eq(it, shape[i], d):
                it.issue("shape", "%s combines shapes %s and %s" % (what, showshape(shape), showshape(n.shape)))
                it.throw("ValueError", K("%s: incompatible shapes" % what))
    return out, Num(t.ZERO, "py", None, tuple(shape))


def showshape(s):
    return "(%s)" % ", ".join(t.show(x) for x in s)


IBITS = {"i32": 32, "i64": 64}


def wrap(term, d, invalid=False):
    """known integers outside the range of the element type: they wrap; converted from floats they become the smallest one"""
    n = IBITS[d]

    def f(x):
        v = t.const_val(x)
        if v is None or v.denominator != 1 or -2 ** (n - 1) <= v < 2 ** (n - 1):
            return x
        return t.num(-2 ** (n - 1)) if invalid else t.num((int(v) + 2 ** (n - 1)) % 2 ** n - 2 ** (n - 1))
    if term.kind not in ("poly", "ite"):
        return term
    vs = [a for a in t.all_atoms(term) if a.kind == "op" and a.name == "vec"]
    sh = t.shape_of(term)
    if vs and sh is not None and len(sh) == 1 and all(a.shape == sh and len(a.args) == len(vs[0].args) and "bool" not in a.flags for a in vs):
        els = [t.subst(term, {a: a.args[i] for a in vs}) for i in range(len(vs[0].args))]
        if all(t.const_val(e) is not None for e in els):
            return t.opaque("vec", tuple(f(e) for e in els), (), sh, "real", "int")
        return term
    return t.lift(f, term)


def mk(it, kind, dtype, term, sh):
    if dtype in IBITS and kind != "py" and isinstance(term, t.Term):
        term = wrap(term, dtype)
    n = Num(term, kind, dtype, sh.shape, sh.sel)
    if kind == "np" and n.shape != () and n.sel is None:
        return it.alloc(ArrO(n, fresh()))
    return n


# ------------------------------------------------------------------------------------ arithmetic
OPNAME = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "Pow": "**", "FloorDiv": "//", "Mod": "%",
          "BitAnd": "&", "BitOr": "|", "BitXor": "^", "LShift": "<<", "RShift": ">>", "MatMult": "@"}


def tracked(it, r, name, *operands):
    """note on the value r the operation that produced it"""
    n = it.num(r)
    if n is not None and n.raw is None and n.shape is not None and n.sel is None and all(isinstance(x, Num) and x.sel is None and x is not n for x in operands):
        n.raw = (name, operands)
    return r


def num_binop(it, op, a, b):
    return tracked(it, num_binop_(it, op, a, b), op, a, b)


def num_unop(it, op, a):
    return tracked(it, num_unop_(it, op, a), op, a)


def num_compare(it, op, a, b):
    return tracked(it, num_compare_(it, op, a, b), op, a, b)


def num_binop_(it, op, a, b):
    what = "operator %s" % OPNAME.get(op, op)
    if op == "MatMult":
        return it.unk("matrix product")
    if op == "Pow" and a.kind == "tf" and b.kind == "py" and b.dtype == "float" and cls_of(a.dtype) == "int":
        mixdtype(it, what, a.dtype, b.dtype)
    kind, d = common(it, what, (a, b), op not in ("BitAnd", "BitOr", "BitXor"))
    ns, sh = broadcast(it, what, [a, b])
    if ns is None:
        return it.unk("broadcasting")
    x, y = ns[0].term, ns[1].term
    if kind == "py" or sh.shape == ():
        sh = Num(t.ZERO, "py", None, ())
    if op in ("BitAnd", "BitOr", "BitXor"):
        if d == "bool":
            r = t.land(x, y) if op == "BitAnd" else t.lor(x, y) if op == "BitOr" else t.ite(x, t.lnot(y), y)
            return mk(it, kind, d, r, sh)
        r = t.opaque(op, tuple(sorted((x, y), key=lambda z: z.key)), (), t.bshape(t.shape_of(x), t.shape_of(y)), "int")
        return mk(it, kind, d, r, sh)
    if d == "bool":
        if kind == "tf" or op == "Sub":
            it.throw("TypeError", K("arithmetic on booleans"))
        if op == "Mult":
            return mk(it, kind, d, t.land(x, y), sh)
        if op == "Add":
            return mk(it, kind, d, t.lor(x, y), sh)
    x, y = t.as_num(x), t.as_num(y)
    if op == "Add":
        r = t.add(x, y)
    elif op == "Sub":
        r = t.sub(x, y)
    elif op == "Mult":
        r = t.mul(x, y)
    elif op == "Div":
        if kind == "py":
            it.raise_if(t.eq(y, t.ZERO), "ZeroDivisionError", K("division by zero"))
        r = t.div(x, y)
        if cls_of(d) in ("int", "bool"):
            d = "float" if kind == "py" else "f64"
    elif op == "Pow":
        r = t.power(x, y)
        if kind == "py" and d == "int" and not t.poly_nonneg(y):
            d = "float"
    elif op in ("FloorDiv", "Mod"):
        if kind == "py":
            it.raise_if(t.eq(y, t.ZERO), "ZeroDivisionError", K("division by zero"))
        q = t.fun("floor", t.div(x, y))
        r = q if op == "FloorDiv" else t.sub(x, t.mul(y, q))
    elif op in ("LShift", "RShift"):
        p = t.power(t.TWO, y)
        r = t.mul(x, p) if op == "LShift" else t.fun("floor", t.div(x, p))
    else:
        return it.unk(what)
    return mk(it, kind, d, r, sh)


def num_unop_(it, op, a):
    sh = a
    if op == "USub":
        if a.dtype == "bool":
            if a.kind != "py":
                it.throw("TypeError", K("negative of booleans"))
            return Num(t.neg(t.as_num(a.term)), "py", "int")
        return mk(it, a.kind, a.dtype, t.neg(t.as_num(a.term)), sh)
    if op == "UAdd":
        return mk(it, a.kind, a.dtype if a.dtype != "bool" or a.kind != "py" else "int", t.as_num(a.term), sh)
    if op == "Invert":
        if a.dtype == "bool" and a.kind != "py":
            return mk(it, a.kind, "bool", t.lnot(a.term), sh)
        return mk(it, a.kind, a.dtype, t.sub(t.num(-1), t.as_num(a.term)), sh)
    return it.unk("unary operator")


def num_compare_(it, op, a, b):
    what = "comparison"
    if a.kind == "tf" or b.kind == "tf":
        kind, d = common(it, what, (a, b))
    else:
        kind, d = common(it, what, (a, b), False)
    ns, sh = broadcast(it, what, [a, b])
    if ns is None:
        return it.unk("broadcasting")
    if kind == "py" or sh.shape == ():
        sh = Num(t.ZERO, "py", None, ())
    x, y = ns[0].term, ns[1].term
    if op in ("Eq", "NotEq"):
        r = t.eq(x, y)
        if op == "NotEq":
            r = t.lnot(r)
    else:
        if d in COMPLEX:
            it.throw("TypeError", K("ordering of complex numbers"))
        r = {"Lt": t.lt, "LtE": t.le, "Gt": lambda p, q: t.lt(q, p), "GtE": lambda p, q: t.le(q, p)}[op](x, y)
    return mk(it, kind, "bool", r, sh)


# ------------------------------------------------------------------------------------ conversion
def cast_term(term, src, dst):
    cs, cd = cls_of(src), cls_of(dst)
    if cd == "bool":
        return t.as_bool(term)
    if cs == "bool":
        return t.as_num(term)
    if cs == "complex" and cd != "complex":
        term = t.fun("real", term)
    if cd == "int" and cs in ("float", "complex"):
        term = truncate(term)
        return wrap(term, dst, True) if dst in IBITS else term
    if cd == "int" and dst in IBITS and cs == "int":
        return wrap(term, dst)
    return term


def truncate(x):
    if t.is_int(x):
        return x
    if t.poly_nonneg(x):
        return t.fun("floor", x)
    return t.ite(t.lt(x, t.ZERO), t.ceil(x), t.fun("floor", x))


# ------------------------------------------------------------------------------------ indexing
def gather(term, axis, start, step, n_new, n_old):
    """element j of the result along axis is element start + step*j of term; axis 'v', 0 or 1"""
    def g(a):
        ax = 0 if axis == "v" else axis
        if a.shape is not None and len(a.shape) > ax and a.shape[ax] is t.ONE and n_old is not t.ONE:
            return t.from_atom(a)
        if a.kind == "op" and a.name == "idx":
            if a.attrs[0] != axis:
                return t.from_atom(a)
            return t.add(start, t.mul(step, t.idx(axis, n_new)))
        if a.kind == "op" and a.name == "fftk" and a.attrs[0] != axis:
            return t.from_atom(a)
        if a.kind == "op" and a.name == "gather" and a.attrs[0] == axis:
            s2, k2 = a.args[1], a.args[2]
            return gather(a.args[0], axis, t.add(s2, t.mul(k2, start)), t.mul(k2, step), n_new, a.attrs[1])
        if start is t.ZERO and step is t.ONE and n_new is n_old:
            return t.from_atom(a)
        sh = a.shape
        if sh is not None:
            sh = tuple(n_new if i == ax else d for i, d in enumerate(sh))
        return mkop("gather", (t.from_atom(a), start, step), (axis, n_old, n_new), sh, a)
    return t.pw_push(term, g)


def mkop(name, args, attrs, shape, a):
    """array rearrangement of an atom, keeping its value class"""
    if "bool" in a.flags:
        return t.bool_atom(name, args, attrs, shape)
    return t.opaque(name, args, attrs, shape, *[f for f in a.flags])


def at(term, k):
    """element k of a vector"""
    def g(a):
        if a.kind == "op" and a.name == "idx":
            return k
        if a.kind == "op" and a.name == "vec":
            c = t.const_val(k)
            if c is not None and c.denominator == 1 and -len(a.args) <= c < len(a.args):
                return a.args[int(c)]
        if a.kind == "op" and a.name == "gather":
            return at(a.args[0], t.add(a.args[1], t.mul(a.args[2], k)))
        return mkop("at", (t.from_atom(a), k), (), (), a)
    return t.pw_push(term, g)


def transpose(term):
    def g(a):
        if a.kind == "op" and a.name in ("idx", "fftk"):
            return (t.idx if a.name == "idx" else t.fftk)(1 - a.attrs[0], a.args[0])
        if a.kind == "op" and a.name == "transpose":
            return a.args[0]
        if a.kind == "op" and a.name == "along":
            return t.along(a.args[0], 1 - a.attrs[0])
        return mkop("transpose", (t.from_atom(a),), (), tuple(reversed(a.shape)) if a.shape else a.shape, a)
    return t.pw_push(term, g)


def _slice(it, s, n):
    """(start, step, length) of a slice of an axis of length n, or None"""
    def val(v, d):
        if isinstance(v, K) and v.val is None:
            return d
        x = it.num(v)
        return None if x is None else x.term
    step = val(s.c, t.ONE)
    c = None if step is None else t.const_val(step)
    if c is None or c == 0:
        return None
    if c == -1 and isinstance(s.a, K) and isinstance(s.b, K):
        return t.sub(n, t.ONE), t.num(-1), n
    if c < 0:
        return None
    a, b = val(s.a, t.ZERO), val(s.b, n)
    if a is None or b is None:
        return None
    a, b = _bound(it, a, n), _bound(it, b, n)
    m = t.sub(b, a)
    if c != 1:
        m = t.ceil(t.div(m, step))
    if t.const_val(m) is not None:
        m = t.num(max(t.const_val(m), 0))
    elif not _nonneg(it, m):
        m = _at_least_0(m)
    return a, step, m


def _lower(x):
    """a lower bound of the term without floors: floor(y) <= y, and floor(y) >= y - 1"""
    if x.kind != "poly":
        return x
    s = t.ZERO
    for m, c in x.poly:
        if len(m) == 1 and m[0][0].kind == "op" and m[0][0].name == "floor" and m[0][1] == 1 and c[1] == 0:
            y = m[0][0].args[0]
            cc = t.num(c[0])
            s = t.add(s, t.mul(cc, y) if c[0] < 0 else t.mul(cc, t.from_atom(m[0][0])))
        else:
            s = t.add(s, t.mk_poly({m: c}))
    return s


def _nonneg(it, x):
    """is the term certainly not negative?"""
    if x.kind == "ite":
        return _nonneg(it, x.a) and _nonneg(it, x.b)
    return t.poly_nonneg(x) or t.poly_nonneg(_lower(x)) or it.decide(t.lt(x, t.ZERO)) is t.FALSE


def _at_least_0(x):
    return t.ite(t.lt(x, t.ZERO), t.ZERO, x)


def _bound(it, x, n):
    """bound of a slice of an axis of length n, as a position 0..n"""
    k = t.const_val(x)
    if k is not None and k < 0:
        return t.add(n, x)
    if k == 0 or x is n:
        return x
    pos = _nonneg(it, x)
    low = t.add(n, x)
    if not _nonneg(it, low):
        low = _at_least_0(low)
    high = x if _nonneg(it, t.sub(n, x)) else t.ite(t.lt(n, x), n, x)
    if pos:
        return high
    if _nonneg(it, t.neg(x)):
        if it.decide(t.eq(x, t.ZERO)) is t.FALSE or it.decide(t.lt(x, t.ZERO)) is t.TRUE:
            return low
        return t.ite(t.eq(x, t.ZERO), t.ZERO, low)
    return t.ite(t.lt(x, t.ZERO), low, high)


def index(it, x, i):
    """x[i] for an array value; (Num, is it a view) or None"""
    ind = list(i.items) if isinstance(i, Tup) else [i]
    if x.shape is None or x.sel is not None:
        return None
    if len(ind) == 1:
        m = it.num(ind[0])
        if m is not None and m.dtype == "bool" and m.shape and x.shape:
            ns, sh = broadcast(it, "boolean index", [x, m])
            if ns is None or len(sh.shape) != len(x.shape):
                return None
            cnt = t.reduce_sum(t.as_num(m.term), x.shape)
            return Num(x.term, x.kind, x.dtype, (cnt,), m.term), False
    if any(isinstance(k, K) and k.val is Ellipsis for k in ind):
        p = next(j for j, k in enumerate(ind) if isinstance(k, K) and k.val is Ellipsis)
        used = sum(1 for k in ind if not (isinstance(k, K) and (k.val is None or k.val is Ellipsis)))
        ind[p:p + 1] = [SliceV(NONE, NONE, NONE)] * (len(x.shape) - used)
    used = sum(1 for k in ind if not (isinstance(k, K) and k.val is None))
    ind += [SliceV(NONE, NONE, NONE)] * (len(x.shape) - used)
    if used > len(x.shape):
        it.throw("IndexError", K("too many indices"))
    term, shape = x.term, list(x.shape)
    ax = 0
    news = []
    dropped = []
    for k in ind:
        if isinstance(k, K) and k.val is None:
            news.append(("new", None))
            continue
        axis = "v" if len(x.shape) == 1 else ax
        if isinstance(k, SliceV):
            r = _slice(it, k, shape[ax])
            if r is None:
                return None
            if not (r[0] is t.ZERO and r[1] is t.ONE and r[2] is shape[ax]):
                if axis not in ("v", 0, 1):
                    return None
                term = gather(term, axis, r[0], r[1], r[2], shape[ax])
            news.append(("dim", r[2]))
        else:
            m = it.num(k)
            if m is None or m.shape != () or cls_of(m.dtype) != "int":
                return None
            kt = m.term
            c = t.const_val(kt)
            if c is not None and c < 0:
                kt = t.add(shape[ax], kt)
            if len(x.shape) == 1:
                term = at(term, kt)
            elif len(x.shape) == 2:
                term = _row(term, ax, kt)
            else:
                return None
            dropped.append(ax)
        ax += 1
    dims = [d for k, d in news if k == "dim"]
    if len(x.shape) == 2 and len(dropped) == 2:
        term = _point(x.term, [it.num(k).term for k in ind if it.num(k) is not None])
    if any(k == "new" for k, _ in news):
        if len(dims) == 1 and len(news) == 2 and len(x.shape) == 1:
            axis = 0 if news[0][0] == "dim" else 1
            term = t.along(term, axis)
            return Num(term, x.kind, x.dtype, (dims[0], t.ONE) if axis == 0 else (t.ONE, dims[0])), True
        if len(dims) == 0 and len(news) == 1 and len(x.shape) == 0:
            return Num(term, x.kind, x.dtype, (t.ONE,)), True
        return None
    return Num(term, x.kind, x.dtype, tuple(dims)), True


def _row(term, ax, k):
    """matrix with one axis fixed, as a vector over the other axis"""
    other = 1 - ax

    def g(a):
        if a.kind == "op" and a.name in ("idx", "fftk"):
            if a.attrs[0] == ax:
                return k if a.name == "idx" else mkop("at", (t.fftk("v", a.args[0]), k), (), (), a)
            return (t.idx if a.name == "idx" else t.fftk)("v", a.args[0])
        if a.kind == "op" and a.name == "along":
            return at(a.args[0], k) if a.attrs[0] == ax else a.args[0]
        if a.kind == "op" and a.name == "vec" and len(a.shape) == 2 and ax == 0:
            c = t.const_val(k)
            if c is not None and c.denominator == 1 and -len(a.args) <= c < len(a.args):
                return a.args[int(c)]
        if a.shape is not None and len(a.shape) == 1:
            return t.from_atom(a)
        return mkop("row", (t.from_atom(a), k), (ax,), (a.shape[other],) if a.shape else None, a)
    return t.pw_push(term, g)


def _point(term, ks):
    def g(a):
        if a.kind == "op" and a.name == "idx":
            return ks[a.attrs[0]]
        if a.kind == "op" and a.name == "vec" and len(a.shape) == 2:
            c = t.const_val(ks[0])
            if c is not None and c.denominator == 1 and -len(a.args) <= c < len(a.args):
                return at(a.args[int(c)], ks[1])
        return mkop("at", (t.from_atom(a),) + tuple(ks), (), (), a)
    return t.pw_push(term, g)
