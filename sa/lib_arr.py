"""Models of array functions: layout, transforms, reductions, random draws; methods of arrays and tensors."""
from fractions import Fraction as Fr
import math

from . import terms as t
from .values import *
from . import lib_num as ln
from . import lib_fns
from .lib_reg import ext, method, given, MISSING, FUNCS
from .lib_num import cls_of, mk, CPLXOF, REALOF, INTS, FLOATS, COMPLEX
from .lib_fns import conv, tens, nparr, out, bad, shape_arg, axes_arg, to_dt, DTYPES, elementwise, np_array, rounded


def lib_arg(it, lib, x):
    return tens(it, x) if lib == "tf" else nparr(it, x)


def reg(*sigs):
    def d2(f):
        for lib, names, sig in sigs:
            ext(names, sig)(lambda it, *a, lib=lib: f(it, lib, *a))
        return f
    return d2


# ------------------------------------------------------------------------------------ layout
@ext("tf.meshgrid", "*args,**kw")
def _(it, args, kw):
    return meshgrid(it, "tf", args, kw)


@ext("np.meshgrid", "*args,**kw")
def _(it, args, kw):
    return meshgrid(it, "np", args, kw)


def meshgrid(it, lib, args, kw):
    for k in kw:
        if k not in ("indexing", "copy", "sparse", "name"):
            it.throw("TypeError", K("meshgrid() got an unexpected keyword argument " + k))
    ix = kw.get("indexing", K("xy"))
    if not isinstance(ix, K) or ix.val not in ("xy", "ij"):
        if isinstance(ix, K):
            it.throw("ValueError", K("meshgrid indexing"))
        return it.unk("meshgrid indexing")
    sparse = "sparse" in kw and it.truth(kw["sparse"]) is not t.FALSE
    if len(args.items) != 2:
        return it.unk("meshgrid of %d axes" % len(args.items))
    vs = []
    for a in args.items:
        if isinstance(a, Unk):
            return a
        n = lib_arg(it, lib, a)
        if n is None:
            return bad(it, "meshgrid", a)
        if n.shape == ():
            n = n.with_(shape=(t.ONE,))
        if n.shape is None or len(n.shape) != 1:
            return it.unk("meshgrid of a matrix")
        vs.append(n)
    x, y = vs
    if ix.val == "xy":
        sh = (y.shape[0], x.shape[0])
        ax, ay = 1, 0
    else:
        sh = (x.shape[0], y.shape[0])
        ax, ay = 0, 1
    s1 = tuple(d if i == ax or not sparse else t.ONE for i, d in enumerate(sh))
    s2 = tuple(d if i == ay or not sparse else t.ONE for i, d in enumerate(sh))
    r = [out(it, lib, x.dtype, t.along(x.term, ax), s1), out(it, lib, y.dtype, t.along(y.term, ay), s2)]
    if lib == "np":
        return Tup(r)
    return it.alloc(ListO(r))


def tensor_items(it, n):
    """items of a tensor with few rows, else None"""
    if n is None or not n.shape:
        return None
    k = t.const_val(n.shape[0])
    return None if k is None or k > 64 else [it.getitem(n, Num(t.num(i), "py", "int")) for i in range(int(k))]


def pads_arg(it, v, rank):
    its = it.items(v)
    if its is None:
        n = it.num(v)
        if n is not None and n.shape == ():
            return tuple((n.term, n.term) for _ in range(rank))
        its = tensor_items(it, n)
        if its is None:
            return None
    rows = []
    nums = [it.num(x) for x in its]
    if nums and all(n is not None and n.shape == () for n in nums):
        if len(nums) == 2:
            return tuple((nums[0].term, nums[1].term) for _ in range(rank))
        return None
    for x in its:
        r = it.items(x)
        if r is None:
            r = tensor_items(it, it.num(x))
        if r is None:
            return None
        ns = [it.num(y) for y in r]
        if any(n is None or n.shape != () for n in ns):
            return None
        if len(ns) == 1:
            ns = ns * 2
        if len(ns) != 2:
            return None
        rows.append((ns[0].term, ns[1].term))
    if len(rows) == 1 and rank > 1:
        rows = rows * rank
    if len(rows) != rank:
        it.throw("ValueError", K("pad: rank of the paddings"))
    return tuple(rows)


@reg(("tf", "tf.pad", "x,paddings,mode=,constant_values=,name="), ("np", "np.pad", "x,paddings,mode=,constant_values=,name="))
def pad(it, lib, x, p, mode, cv, name):
    n = lib_arg(it, lib, x)
    if n is None or n.shape is None:
        return bad(it, "pad", x)
    ps = pads_arg(it, p, len(n.shape))
    if ps is None:
        return bad(it, "pad", p)
    sh = tuple(t.add(d, t.add(a, b)) for d, (a, b) in zip(n.shape, ps))
    m = mode.val.lower() if isinstance(mode, K) and isinstance(mode.val, str) else "constant"
    c = conv(it, cv).term if given(cv) and conv(it, cv) is not None else t.ZERO
    term = t.as_num(n.term)
    if m != "constant":
        r = t.opaque("pad_" + m, (term,), (ps,), sh)
    else:
        r = t.pad(term, ps, sh) if c is t.ZERO else t.add(t.pad(t.sub(term, c), ps, sh), c)
    if n.dtype == "bool":
        r = t.as_bool(r)
    return out(it, lib, n.dtype, r, sh)


@reg(("tf", "tf.where tf.compat.v2.where", "c,x=,y=,name="), ("np", "np.where", "c,x=,y=,name="))
def where(it, lib, c, x, y, name):
    if x is MISSING:
        return it.unk("where without values")
    m, a, b = (conv(it, v) for v in (c, x, y))
    if m is None or a is None or b is None:
        return bad(it, "where", c, x, y)
    if lib == "tf":
        d = a.dtype if a.kind == "tf" else b.dtype if b.kind == "tf" else None
        if a.kind == "tf" and b.kind == "tf" and a.dtype != b.dtype:
            ln.mixdtype(it, "tf.where", a.dtype, b.dtype)
        a, b = tens(it, x, d if a.kind != "tf" else None), tens(it, y, d if b.kind != "tf" else None)
        if a.dtype != b.dtype:
            ln.mixdtype(it, "tf.where", a.dtype, b.dtype)
        d = a.dtype
        if m.dtype != "bool":
            it.issue("dtype", "tf.where condition is not boolean")
            it.throw("InvalidArgumentError", K("tf.where condition"))
    else:
        k, d = ln.common(it, "np.where", [v.with_(kind="np") if v.kind == "tf" else v for v in (a, b)], False)
        d = ln.np_of(d)
    ns, sh = ln.broadcast(it, "where", [m, a, b])
    if ns is None:
        return it.unk("broadcasting")
    p, q, r = (n.term for n in ns)
    p = t.as_bool(p)
    if d != "bool":
        q, r = t.as_num(q), t.as_num(r)
    return ln.tracked(it, out(it, lib, d, t.ite(p, q, r), sh.shape, sh.sel), "where", m, a, b)


@reg(("tf", "tf.broadcast_to", "x,shape,name="), ("np", "np.broadcast_to", "x,shape,subok="))
def broadcast_to(it, lib, x, s, name):
    n = lib_arg(it, lib, x)
    sh = shape_arg(it, s)
    if n is None or sh is None or n.shape is None:
        return bad(it, "broadcast_to", x, s)
    if len(n.shape) > len(sh):
        it.throw("ValueError", K("broadcast_to: rank"))
    m = ln.lift_rank(n, len(sh)) if n.shape else n
    if m is None:
        return it.unk("broadcast_to")
    full = (t.ONE,) * (len(sh) - len(m.shape)) + tuple(m.shape)
    for a, b in zip(full, sh):
        if a is t.ONE or ln.dim_eq(it, a, b):
            continue
        it.issue("shape", "broadcast of shape %s to %s" % (ln.showshape(n.shape), ln.showshape(sh)))
        it.throw("ValueError", K("broadcast_to: incompatible shapes"))
    r = out(it, lib, n.dtype, m.term, sh)
    return r


@reg(("tf", "tf.reshape", "x,shape,name="), ("np", "np.reshape", "x,shape,order="))
def reshape(it, lib, x, s, name):
    n = lib_arg(it, lib, x)
    sh = shape_arg(it, s)
    if n is None or sh is None or n.shape is None:
        return bad(it, "reshape", x, s)
    if lib == "np" and given(name) and not (isinstance(name, K) and name.val in ("C", None)):
        if not (isinstance(name, K) and name.val == "F"):
            m = memory_order(n)
            if m is None or not isinstance(name, K) or name.val not in ("A", "K"):
                return bad(it, "reshape in memory order", x, s)
            return reshape(it, lib, out(it, "np", n.dtype, m, n.shape), s, MISSING)
        if len(n.shape) == 2:               # column-major: the transpose, row-major, and back
            y = reshape(it, lib, transpose(it, lib, x, MISSING, MISSING, MISSING),
                        Tup([Num(d, "py", "int") for d in reversed(sh)]), MISSING)
            return y if len(sh) == 1 else transpose(it, lib, y, MISSING, MISSING, MISSING) if len(sh) == 2 \
                else bad(it, "reshape", x, s)
        if len(sh) == 2 and len(n.shape) == 1:
            y = reshape(it, lib, x, Tup([Num(d, "py", "int") for d in reversed(sh)]), MISSING)
            return transpose(it, lib, y, MISSING, MISSING, MISSING)
    view = x if isinstance(x, Ref) and isinstance(it.get(x), ArrO) and lib == "np" else None
    total = t.size(n.shape)
    neg = [i for i, d in enumerate(sh) if t.const_val(d) == -1]
    if neg:
        rest = t.size(tuple(d for i, d in enumerate(sh) if i != neg[0]))
        if len(neg) > 1:
            it.throw("ValueError", K("reshape"))
        sh = tuple(t.div(total, rest) if i == neg[0] else d for i, d in enumerate(sh))
    if len(sh) == len(n.shape) and all(ln.dim_eq(it, a, b) for a, b in zip(sh, n.shape)):
        term, sh = n.term, n.shape
    else:
        if not ln.dim_eq(it, t.size(sh), total):
            it.issue("shape", "reshape of shape %s to %s" % (ln.showshape(n.shape), ln.showshape(sh)))
            it.throw("ValueError", K("reshape: number of elements"))
        ones = [d for d in sh if d is not t.ONE]
        if len(n.shape) == 1 and len(sh) == 2 and len(ones) == 1:
            term = t.along(n.term, 0 if sh[0] is not t.ONE else 1)
        elif n.shape == () or all(d is t.ONE for d in n.shape) and len(n.shape) == 1:
            term = n.term if n.shape == () else ln.at(n.term, t.ZERO)
        elif len(n.shape) == 2 and len(sh) == 1 and t.ONE in n.shape:
            ax = 0 if n.shape[0] is t.ONE else 1
            term = ln._row(n.term, ax, t.ZERO)
        else:
            src = _flat_source(n, sh)
            if src is not None:
                term = src
            else:
                term = opaque_arr("reshape", (n.term,), (n.shape, sh), sh, n.dtype)
    return view_of(it, view, lib, n.dtype, term, sh)


def memory_order(n):
    """an array of the caller in the order of its memory, which may be row-major or not; None if it is computed"""
    at = list(t.all_atoms(n.term))
    if len(at) != 1 or at[0].kind != "sym" and at[0].args or len(n.shape) != 2:
        return None
    return opaque_arr("memory_order", (n.term,), (), n.shape, n.dtype)


def _flat_source(n, sh):
    """reshaping a reshaped array back to the shape it came from"""
    x = n.term
    if x.kind == "ite" and x.a is t.TRUE and x.b is t.FALSE:
        a = x.cond
    else:
        a = x.poly[0][0][0][0] if x.kind == "poly" and len(x.poly) == 1 and x.poly[0][1] == (1, 0) \
            and len(x.poly[0][0]) == 1 and x.poly[0][0][0][1] == 1 else None
    if a is None or a.kind != "op" or a.name != "reshape":
        return None
    if len(a.attrs[0]) == len(sh) and all(p is q for p, q in zip(a.attrs[0], sh)):
        return t.as_bool(a.args[0]) if n.dtype == "bool" else a.args[0]
    return None


def view_of(it, base, lib, d, term, sh):
    r = out(it, lib, d, term, sh)
    if base is not None and isinstance(r, Ref):
        it.put(r, ArrO(it.get(r).num, it.get(base).buf))
    return r


def opaque_arr(name, args, attrs, sh, d, *fl):
    if d == "bool":
        return t.bool_atom(name, args, attrs, sh)
    f = list(fl)
    if d not in COMPLEX:
        f.append("real")
    return t.opaque(name, tuple(t.as_num(a) if isinstance(a, t.Term) else a for a in args), attrs, sh, *f)


@reg(("tf", "tf.transpose", "x,perm=,conjugate=,name="), ("np", "np.transpose", "x,perm=,conjugate=,name="))
def transpose(it, lib, x, perm, cj, name):
    n = lib_arg(it, lib, x)
    if n is None or n.shape is None:
        return bad(it, "transpose", x)
    if given(perm):
        ps = [t.const_val(it.num(p).term) for p in (it.items(perm) or [])]
        if ps == [0, 1] or ps == [0]:
            return x
        if ps not in ([1, 0], [-1, -2]):
            return it.unk("transpose with permutation")
    view = x if isinstance(x, Ref) and isinstance(it.get(x), ArrO) and lib == "np" else None
    if len(n.shape) < 2:
        return view_of(it, view, lib, n.dtype, n.term, n.shape)
    if len(n.shape) > 2:
        return it.unk("transpose")
    term = ln.transpose(n.term)
    if given(cj) and it.truth(cj) is t.TRUE:
        term = t.fun("conj", term)
    return view_of(it, view, lib, n.dtype, term, tuple(reversed(n.shape)))


def flip_axes(it, lib, x, axes):
    n = lib_arg(it, lib, x)
    if n is None or n.shape is None or axes is None:
        return bad(it, "flip", x)
    term = n.term
    for a in axes:
        m = n.shape[a]
        term = ln.gather(term, "v" if len(n.shape) == 1 else a, t.sub(m, t.ONE), t.num(-1), m, m)
    return out(it, lib, n.dtype, term, n.shape)


def rank_of(it, lib, x):
    n = lib_arg(it, lib, x)
    return len(n.shape) if n is not None and n.shape is not None else 0


ext("np.flip", "x,axis=")(lambda it, x, a: flip_axes(it, "np", x, axes_arg(it, a, rank_of(it, "np", x))))
ext("tf.reverse", "x,axis,name=")(lambda it, x, a, n: flip_axes(it, "tf", x, axes_arg(it, a, rank_of(it, "tf", x))))
ext("np.flipud", "x")(lambda it, x: flip_axes(it, "np", x, (0,)))
ext("np.fliplr", "x")(lambda it, x: flip_axes(it, "np", x, (1,)))


@reg(("tf", "tf.expand_dims", "x,axis,name="), ("np", "np.expand_dims", "x,axis,name="))
def expand_dims(it, lib, x, axis, name):
    n = lib_arg(it, lib, x)
    ax = axes_arg(it, axis, (len(n.shape) if n is not None and n.shape is not None else 0) + 1)
    if n is None or n.shape is None or ax is None or len(ax) != 1 or len(n.shape) > 1:
        return bad(it, "expand_dims", x)
    ind = [SliceV(NONE, NONE, NONE)] * len(n.shape)
    ind.insert(ax[0], NONE)
    r = ln.index(it, n, Tup(ind))
    if r is None:
        return it.unk("expand_dims")
    return out(it, lib, n.dtype, r[0].term, r[0].shape)


@reg(("tf", "tf.squeeze", "x,axis=,name="), ("np", "np.squeeze", "x,axis=,name="))
def squeeze(it, lib, x, axis, name):
    n = lib_arg(it, lib, x)
    if n is None or n.shape is None:
        return bad(it, "squeeze", x)
    keep = [d for d in n.shape if d is not t.ONE]
    return reshape(it, lib, x, Tup([Num(d, "py", "int") for d in keep]), MISSING)


@reg(("tf", "tf.roll", "x,shift,axis,name="), ("np", "np.roll", "x,shift,axis=,name="))
def roll(it, lib, x, sh, axis, name):
    n = lib_arg(it, lib, x)
    if n is None or n.shape is None or (not given(axis) and len(n.shape) != 1):
        return bad(it, "roll", x)
    ax = axes_arg(it, axis, len(n.shape))
    m = it.num(sh)
    shs = [m] if m is not None and m.shape == () else [it.num(s) for s in (it.items(sh) or [])]
    order = [a for a in ([axis] if it.num(axis) is not None else (it.items(axis) or []))] if given(axis) else []
    axl = [int(t.const_val(it.num(a).term)) % len(n.shape) for a in order] or list(ax)
    if len(shs) == 1 and len(axl) > 1:
        shs = shs * len(axl)
    if len(shs) != len(axl) or any(s is None for s in shs):
        return it.unk("roll")
    term = n.term
    for s, a in zip(shs, axl):
        h = t.fun("floor", t.mul(n.shape[a], t.HALF))
        if t.equal(s.term, h):
            term = t.shift(term, "fftshift", (a,))
        elif t.equal(s.term, t.neg(h)):
            term = t.shift(term, "ifftshift", (a,))
        else:
            term = opaque_arr("roll", (term, s.term), (a,), n.shape, n.dtype)
    return out(it, lib, n.dtype, term, n.shape)


@reg(("tf", "tf.signal.fftshift", "x,axes=,name="), ("np", "np.fft.fftshift", "x,axes=,name="))
def fftshift(it, lib, x, axes, name):
    return shifted(it, lib, x, axes, "fftshift")


@reg(("tf", "tf.signal.ifftshift", "x,axes=,name="), ("np", "np.fft.ifftshift", "x,axes=,name="))
def ifftshift(it, lib, x, axes, name):
    return shifted(it, lib, x, axes, "ifftshift")


def shifted(it, lib, x, axes, kind):
    n = lib_arg(it, lib, x)
    if n is None or n.shape is None:
        return bad(it, kind, x)
    ax = axes_arg(it, axes, len(n.shape))
    if ax is None:
        return bad(it, kind, axes)
    return out(it, lib, n.dtype, t.shift(n.term, kind, ax), n.shape)


# ------------------------------------------------------------------------------------ transforms
def fft2(it, lib, x, inverse, s, axes, norm, what):
    n = lib_arg(it, lib, x)
    if n is None or n.shape is None:
        return bad(it, what, x)
    if len(n.shape) != 2:
        if len(n.shape) < 2:
            it.throw("ValueError", K("%s needs a matrix" % what))
        return it.unk(what)
    d = n.dtype
    it.ffts.append((lib, it.st.pc, it.where()))
    if lib == "tf":
        if d not in COMPLEX:
            it.issue("dtype", "%s of a %s tensor" % (what, d))
            it.throw("TypeError", K("%s needs complex values" % what))
    else:
        d = {"f32": "c64", "c64": "c64"}.get(d, "c128")
    if given(s):
        return it.unk(what + " with s=")
    ax = axes_arg(it, axes, 2)
    if ax is None:
        return it.unk(what)
    term = t.as_num(n.term)
    if ax == (0, 1):
        term = t.fft(term, inverse, n.shape)
        size = t.size(n.shape)
    else:
        nm = ("ifft" if inverse else "fft") + "_axis"
        term = t.linear(term, lambda z: t.opaque(nm, (z,), (ax,), n.shape))
        size = n.shape[ax[0]] if ax else t.ONE
    nv = norm.val if isinstance(norm, K) else None
    if norm is not MISSING and not isinstance(norm, K):
        return it.unk(what)
    if nv == "ortho":
        k = t.sqrt(size)
        term = t.mul(term, k) if inverse else t.div(term, k)
    elif nv == "forward":
        term = t.mul(term, size) if inverse else t.div(term, size)
    elif nv not in (None, "backward"):
        it.throw("ValueError", K("norm"))
    return out(it, lib, d, term, n.shape)


def destroy(it, x, ow, r):
    """overwrite_x: the transform may use the memory of a complex array"""
    if given(ow) and isinstance(x, Ref) and isinstance(it.get(x), ArrO) and it.truth(ow) is not False and it.get(x).num.dtype in COMPLEX:
        h = it.get(x)
        it.setitem(x, K(Ellipsis), Num(t.opaque("overwritten", (t.as_num(h.num.term),), (), h.num.shape), "np", h.num.dtype, h.num.shape))
    return r


for _n, _i in (("fft2d", False), ("ifft2d", True)):
    ext("tf.signal.%s" % _n, "x,name=")(lambda it, x, name, i=_i, n=_n: fft2(it, "tf", x, i, MISSING, MISSING, MISSING, n))
for _n, _i in (("fft2", False), ("ifft2", True), ("fftn", False), ("ifftn", True)):
    ext("scipy.fft.%s" % _n, "x,s=,axes=,norm=,overwrite_x=,workers=")(
        lambda it, x, s, a, nm, ow, wk, i=_i, n=_n: destroy(it, x, ow, fft2(it, "np", x, i, s, a, nm, n)))
    ext("scipy.fftpack.%s" % _n, "x,shape=,axes=,overwrite_x=")(
        lambda it, x, s, a, ow, i=_i, n=_n: destroy(it, x, ow, fft2(it, "np", x, i, s, a, MISSING, n)))
    ext("np.fft.%s" % _n, "x,s=,axes=,norm=,out=")(
        lambda it, x, s, a, nm, o, i=_i, n=_n: fft2(it, "np", x, i, s, a, nm, n) if not given(o)
        else it.unk("transform with out="))
for _n, _i in (("fft", False), ("ifft", True)):
    ext("np.fft.%s" % _n, "x,n=,axis=,norm=,out=")(
        lambda it, x, s, a, nm, o, i=_i, n=_n: it.unk("transform with out=") if given(o) else fft2(it, "np", x, i, s, a if given(a) else Num(t.num(-1), "py", "int"), nm, n))


@ext("np.fft.fftfreq scipy.fft.fftfreq", "n,d=")
def _(it, n, d):
    m = it.num(n)
    if m is None:
        return bad(it, "fftfreq", n)
    if cls_of(m.dtype) != "int":
        it.throw("ValueError", K("n should be an integer"))
    x = it.num(d) if given(d) else Num(t.ONE, "py", "float")
    if x is None or x.shape != ():
        return bad(it, "fftfreq", d)
    return out(it, "np", "f64", t.div(t.fftk("v", m.term), t.mul(m.term, x.term)), (m.term,))


# ------------------------------------------------------------------------------------ reductions
FOLD = {"sum": lambda a, b: t.add(a, b), "prod": lambda a, b: t.mul(a, b), "max": lambda a, b: t.fun("max2", a, b),
        "min": lambda a, b: t.fun("min2", a, b), "any": lambda a, b: t.lor(a, b), "all": lambda a, b: t.land(a, b)}


def known_elements(it, n):
    """the elements of a vector of known, small length"""
    if n.sel is not None or n.shape is None or len(n.shape) != 1 or n.kind == "py":
        return None
    k = t.const_val(n.shape[0])
    if k is None or not 0 < k <= 64:
        return None
    v = it.alloc(ArrO(n, fresh())) if n.kind == "np" else n
    els = [it.num(it.getitem(v, Num(t.num(i), "py", "int"))) for i in range(int(k))]
    return None if any(e is None or e.shape != () for e in els) else els


def reduction(it, lib, op, x, axis, keep, what, dtype=MISSING):
    n = lib_arg(it, lib, x)
    if n is None:
        return bad(it, what, x)
    if given(dtype):
        k = to_dt(it, dtype, lib)
        if not k:
            return bad(it, what, dtype)
        n = n.with_(term=ln.cast_term(n.term, n.dtype, k), dtype=k)
    d = n.dtype
    term = n.term
    if op in ("any", "all"):
        if lib == "tf" and d != "bool":
            it.throw("TypeError", K("%s needs booleans" % what))
        term, d = t.as_bool(term), "bool"
    else:
        if lib == "tf" and d == "bool":
            it.throw("TypeError", K("%s of booleans" % what))
        if op in ("max", "min") and d in COMPLEX and lib == "tf":
            it.throw("TypeError", K("%s of complex values" % what))
        if lib == "np" and op in ("sum", "prod", "mean", "std", "var") and d in ("bool", "u8", "i32") and not given(dtype):
            d = "i64"
        if op in ("mean", "std", "var") and cls_of(d) == "int" and lib == "np":
            d = "f64"
        term = t.as_num(term)
    if n.shape is None:
        return it.unk(what)
    if op in FOLD and not given(keep) and (not given(axis) or axes_arg(it, axis, len(n.shape)) == (0,)):
        els = known_elements(it, n)
        if els is not None and (op in ("prod", "any", "all") or all(t.const_val(t.as_num(e.term)) is not None for e in els)):
            cv = t.as_bool if op in ("any", "all") else lambda q: ln.cast_term(t.as_num(q), n.dtype, d)
            r = cv(els[0].term)
            for e in els[1:]:
                r = FOLD[op](r, cv(e.term))
                if d in ln.IBITS:
                    r = ln.wrap(r, d)
            return Num(r, lib, d, ())
    if given(axis):
        ax = axes_arg(it, axis, len(n.shape))
        if ax is None:
            return it.unk(what)
        if ax != tuple(range(len(n.shape))):
            sh = tuple((t.ONE if given(keep) else None) if i in ax else s for i, s in enumerate(n.shape))
            sh = tuple(s for s in sh if s is not None)
            return out(it, lib, d, opaque_arr(op + "_axis", (term,), (ax,), sh, d), sh)
    if given(keep) and it.truth(keep) is not t.FALSE:
        return it.unk(what + " with keepdims")
    sel = n.sel
    shape = n.shape
    if sel is not None:
        full = t.bshape(t.shape_of(term), t.shape_of(sel))
        cnt = shape[0]
    if op == "sum":
        r = t.reduce_sum(t.ite(sel, term, t.ZERO), full) if sel is not None else t.reduce_sum(term, shape)
    elif op == "mean":
        if sel is not None:
            r = t.div(t.reduce_sum(t.ite(sel, term, t.ZERO), full), cnt)
        else:
            r = t.div(t.reduce_sum(term, shape), t.size(shape))
    elif sel is not None:
        r = opaque_arr(op + "_sel", (term, sel), (), (), d)
    elif op == "max":
        r = t.reduce_max(term)
    elif op == "min":
        r = t.reduce_max(term, "min_all")
    elif op in ("any", "all"):
        if t.is_leaf(term):
            r = term
        else:
            r = t.bool_atom(op + "_all", (term,), (), ())
    else:
        r = opaque_arr(op + "_all", (term, t.size(shape)), (), (), d)
    return Num(r, lib, d, ())


for _o in ("sum", "max", "min", "mean", "any", "all", "prod"):
    ext("tf.reduce_%s tf.math.reduce_%s" % (_o, _o), "x,axis=,keepdims=,name=")(
        lambda it, x, a, k, n, o=_o: reduction(it, "tf", o, x, a, k, "reduce_" + o))
    _f = lambda it, x, a, d, ou, k, o=_o: reduction(it, "np", o, x, a, k, "np." + o, d) if not given(ou) \
        else it.unk("reduction with out=")
    if _o not in ("sum", "mean", "prod"):
        _f = lambda it, x, a, ou, k, f=_f: f(it, x, a, MISSING, ou, k)
    _s = "axis=,dtype=,out=,keepdims=" if _o in ("sum", "mean", "prod") else "axis=,out=,keepdims="
    ext("np." + _o, "x," + _s)(_f)
    method(_o, _s)(_f)
for _o in ("std", "var"):
    ext("np.%s" % _o, "x,axis=")(lambda it, x, a, o=_o: reduction(it, "np", o, x, a, MISSING, o))
ext("np.amax", "x,axis=")(lambda it, x, a: reduction(it, "np", "max", x, a, MISSING, "amax"))
ext("np.amin", "x,axis=")(lambda it, x, a: reduction(it, "np", "min", x, a, MISSING, "amin"))


@ext("np.count_nonzero", "x,axis=")
def _(it, x, a):
    n = nparr(it, x)
    if n is None or n.shape is None or given(a):
        return bad(it, "count_nonzero", x)
    m = t.as_num(t.as_bool(n.term))
    if n.sel is not None:
        m = t.ite(n.sel, m, t.ZERO)
        return Num(t.reduce_sum(m, t.bshape(t.shape_of(n.term), t.shape_of(n.sel))), "np", "i64", ())
    return Num(t.reduce_sum(m, n.shape), "np", "i64", ())


@ext("np.dot np.vdot np.inner", "a,b")
def _(it, a, b):
    x, y = nparr(it, a), nparr(it, b)
    if x is None or y is None or x.shape is None or y.shape is None or (len(x.shape) != 1 or len(y.shape) != 1):
        return it.unk("dot product")
    return reduction(it, "np", "sum", ln.num_binop(it, "Mult", x, y), MISSING, MISSING, "dot")


@ext("np.average", "x,axis=,weights=")
def _(it, x, a, w):
    if given(w):
        return it.unk("weighted average")
    return reduction(it, "np", "mean", x, a, MISSING, "average")


@ext("np.linalg.norm tf.norm tf.linalg.norm", "x,ord=,axis=,keepdims=")
def _(it, x, o, a, k):
    return it.unk("norm")


# ------------------------------------------------------------------------------------ polynomials
@ext("tf.math.polyval", "coeffs,x,name=")
def _(it, coeffs, x, name):
    its = it.items(coeffs)
    if its is None:
        return bad(it, "polyval", coeffs)
    xn = tens(it, x)
    if xn is None:
        return bad(it, "polyval", x)
    if not isinstance(coeffs, (Tup, Ref)) or isinstance(coeffs, Ref) and not isinstance(it.get(coeffs), ListO):
        it.throw("ValueError", K("polyval coeffs must be a list"))
    if not its:
        return xn.with_(term=t.ZERO)
    cs = [tens(it, c) for c in its]
    if any(c is None for c in cs):
        return bad(it, "polyval", coeffs)
    p = cs[0]
    for c in cs[1:]:
        p = ln.num_binop(it, "Add", c, ln.num_binop(it, "Mult", p, xn))
    return p


@ext("np.polyval", "coeffs,x")
def _(it, coeffs, x):
    return polyval_np(it, coeffs, x)


def polyval_np(it, coeffs, x):
    its = it.items(coeffs)
    xn = nparr(it, x)
    if its is None or xn is None:
        return bad(it, "polyval", coeffs)
    p = Num(t.ZERO, "np", "f64", xn.shape)
    for c in its:
        n = it.num(ln.num_binop(it, "Mult", p, xn))
        p = it.num(ln.num_binop(it, "Add", n, it.num(c)))
    return out(it, "np", p.dtype, p.term, p.shape)


def poly1d(it, cs):
    """object with the coefficients of a polynomial, highest power first"""
    from .lib_misc import pseudo_class
    c = pseudo_class(it, "poly1d", {"__call__": Native("poly1d", lambda i2, a, kw: polyval_np(
        i2, i2.getattr(a[0], "coef"), a[1]))})
    terms = tuple(t.num(x) for x in cs)
    sh = (t.num(len(cs)),)
    v = Num(t.opaque("vec", terms, (), sh, "real"), "np", "f64", sh)
    arr = it.alloc(ArrO(v, fresh()))
    return it.alloc(Inst(c, {"coef": arr, "coeffs": arr, "c": arr, "order": Num(t.num(len(cs) - 1), "py", "int"),
                             "o": Num(t.num(len(cs) - 1), "py", "int")}))


def _cint(it, v):
    n = it.num(v)
    c = t.const_val(n.term) if n is not None else None
    return int(c) if c is not None and c.denominator == 1 else None


@ext("scipy.special.hermite", "n,monic=")
def _(it, n, monic):
    k = _cint(it, n)
    if k is None or given(monic):
        return it.unk("hermite polynomial of unknown order")
    if k < 0:
        it.throw("ValueError", K("n must be nonnegative"))
    a, b = [1], [2, 0]
    for i in range(1, k):
        nx = [2 * c for c in b] + [0]
        for j, c in enumerate(a):
            nx[len(nx) - len(a) + j] -= 2 * i * c
        a, b = b, nx
    return poly1d(it, [Fr(c) for c in (a if k == 0 else b)])


@ext("scipy.special.genlaguerre", "n,alpha,monic=")
def _(it, n, alpha, monic):
    p, a = _cint(it, n), _cint(it, alpha)
    if p is None or a is None or given(monic):
        return it.unk("Laguerre polynomial of unknown order")
    if p < 0:
        it.throw("ValueError", K("n must be nonnegative"))
    if a <= -1:
        it.throw("ValueError", K("alpha must be > -1"))
    return poly1d(it, [Fr((-1) ** i * math.comb(p + a, p - i), math.factorial(i)) for i in range(p, -1, -1)])


@ext("scipy.special.laguerre", "n,monic=")
def _(it, n, m):
    return FUNCS["scipy.special.genlaguerre"](it, [n, Num(t.ZERO, "py", "int")], {})


@ext("scipy.special.eval_hermite", "n,x")
def _(it, n, x):
    return polyval_np(it, it.getattr(FUNCS["scipy.special.hermite"](it, [n], {}), "coef"), x)


# ------------------------------------------------------------------------------------ callbacks, random numbers
@ext("tf.numpy_function", "func,inp,Tout,stateful=,name=", raw=True)
def _(it, func, inp, tout, st, name):
    return callback(it, func, inp, tout, "np")


@ext("tf.py_function", "func,inp,Tout,name=", raw=True)
def _(it, func, inp, tout, name):
    return callback(it, func, inp, tout, "tf")


def callback(it, func, inp, tout, lib):
    its = it.items(inp)
    if its is None:
        return it.unk("numpy_function")
    args = []
    for x in its:
        n = it.num(x)
        if n is None:
            return x if isinstance(x, Unk) else it.unk("numpy_function argument")
        args.append(out(it, "np", ln.np_of(n.dtype), n.term, n.shape) if lib == "np" else
                    n.with_(kind="tf", dtype=ln.tf_of(n.dtype)))
    saved = it.trackers
    it.trackers = []
    given_ = [it.get(a).num for a in args if isinstance(a, Ref)]
    try:
        r = it.call(func, args, {})
    finally:
        it.trackers = saved
    if [it.get(a).num for a in args if isinstance(a, Ref)] != given_ and it.st is not None:
        it.issue("tensor-write", "a numpy callback writes into the memory of the tensor it is given")

    def conv1(v, ty):
        def f(w):
            n = conv(it, w)
            if n is None:
                return w if isinstance(w, Unk) else it.unk("numpy_function result")
            n = n.with_(dtype=ln.np_of(n.dtype))
            d = to_dt(it, ty, "tf")
            if not d:
                return it.unk("numpy_function type")
            if n.dtype != d:
                it.issue("dtype", "numpy_function returns %s but declares %s" % (n.dtype, d))
                it.throw("InvalidArgumentError", K("numpy_function result type"))
            return n.with_(kind="tf")
        return it.dist(f, v)

    def g(ty):
        if isinstance(ty, (Tup, Ref)):
            ts, rs = it.items(ty), it.items(r)
            if ts is None:
                return it.unk("numpy_function type")
            if len(ts) == 1 and rs is None:
                return it.alloc(ListO([conv1(r, ts[0])]))
            if rs is None:
                return it.unk("numpy_function result")
            return it.alloc(ListO([conv1(v, y) for v, y in zip(rs, ts)]))
        return conv1(r, ty)
    return it.dist(g, tout)


def draw(it, src, shape, d, name, args=()):
    it.event("rand", src, (name,) + tuple(args))
    live = [tr for tr in it.trackers if tr is not None]
    if src in ("np", "py", "stateless") and live:
        it.issue("frozen-random", "a random number of %s is drawn inside the %s function %s" %
                 (src, live[-1].how, live[-1].name))
    if any(tr.how == "memoised" for tr in live):
        it.issue("frozen-random", "a random number is drawn inside the memoised function %s" % live[-1].name)
    if it.loop_depth:
        return it.unk("random draw inside a loop")
    if shape is None:
        return it.unk("random draw of unknown shape")
    it.rand_n += 1
    return Num(t.opaque("rand", (), (src, name, it.rand_n), shape, "nonneg"), "tf" if src == "tf" or src == "stateless" else "np",
               d, shape)


@ext("tf.random.uniform tf.compat.v1.random_uniform", "shape,minval=,maxval=,dtype=,seed=,name=")
def _(it, s, lo, hi, dtype, seed, name):
    sh = shape_arg(it, s)
    d = to_dt(it, dtype, "tf") or "f32"
    if cls_of(d) != "float":
        return it.unk("integer random numbers")
    r = draw(it, "tf", sh, d, "uniform", (seed,) if given(seed) else ())
    if isinstance(r, Unk):
        return r
    a = tens(it, lo, d) if given(lo) else None
    b = tens(it, hi, d) if given(hi) else None
    ta, tb = (a.term if a is not None else t.ZERO), (b.term if b is not None else t.ONE)
    return r.with_(term=t.add(ta, t.mul(t.sub(tb, ta), r.term)))


@ext("tf.random.stateless_uniform", "shape,seed,minval=,maxval=,dtype=,name=")
def _(it, s, seed, lo, hi, dtype, name):
    r = draw(it, "stateless", shape_arg(it, s), to_dt(it, dtype, "tf") or "f32", "uniform")
    return r


@ext("tf.random.normal", "shape,mean=,stddev=,dtype=,seed=,name=")
def _(it, s, m, sd, dtype, seed, name):
    r = draw(it, "tf", shape_arg(it, s), to_dt(it, dtype, "tf") or "f32", "normal")
    if isinstance(r, Num):
        r = r.with_(term=t.opaque("normal", (r.term,), (), r.shape, "real"))
    return r


def np_rand(it, sh, name):
    r = draw(it, "np", sh, "f64", name)
    if isinstance(r, Num) and r.shape != ():
        return it.alloc(ArrO(r, fresh()))
    return r


@ext("np.random.uniform", "low=,high=,size=")
def _(it, lo, hi, size):
    r = np_rand(it, shape_arg(it, size) if given(size) else (), "uniform")
    n = it.num(r)
    if n is None:
        return r
    a = it.num(lo).term if given(lo) else t.ZERO
    b = it.num(hi).term if given(hi) else t.ONE
    return out(it, "np", "f64", t.add(a, t.mul(t.sub(b, a), n.term)), n.shape)


@ext("np.random.rand", "*dims")
def _(it, dims):
    return np_rand(it, shape_arg(it, dims), "uniform")


@ext("np.random.random np.random.random_sample", "size=")
def _(it, size):
    return np_rand(it, shape_arg(it, size) if given(size) else (), "uniform")


@ext("np.random.normal np.random.randn np.random.randint", "*a,**k")
def _(it, a, k):
    return np_rand(it, None, "other")


@ext("random.random", "")
def _(it):
    r = draw(it, "py", (), "f64", "uniform")
    return r.with_(kind="py", dtype="float") if isinstance(r, Num) else r


@ext("random.uniform", "a,b")
def _(it, a, b):
    r = draw(it, "py", (), "f64", "uniform")
    return r.with_(kind="py", dtype="float") if isinstance(r, Num) else r


@ext("tf.random.set_seed", "seed")
def _(it, s):
    it.event("seed", "seed", (s,))
    return NONE


@ext("np.random.seed random.seed", "seed=")
def _(it, s):
    s = s if given(s) else NONE
    it.event("seed", "seed", (s,))
    return NONE


# ------------------------------------------------------------------------------------ miscellaneous
@ext("np.packbits", "x,axis=,bitorder=")
def _(it, x, axis, order):
    n = nparr(it, x)
    if n is None or n.shape is None:
        return bad(it, "packbits", x)
    if n.dtype not in ("bool", "u8"):
        it.throw("TypeError", K("packbits of %s" % n.dtype))
    at = []
    if given(axis) and not (isinstance(axis, K) and axis.val is None):
        k = axes_arg(it, axis, len(n.shape))
        if k is None or len(k) != 1:
            return bad(it, "packbits along an unknown axis", x)
        if len(n.shape) > 1:
            at.append(("axis", k[0]))
    if given(order) and not (isinstance(order, K) and order.val == "big"):
        at.append(("order", repr(order)))
    sh = (t.ceil(t.div(t.size(n.shape), t.num(8))),)
    if at and at[0][0] == "axis":
        sh = tuple(t.ceil(t.div(e, t.num(8))) if i == at[0][1] else e for i, e in enumerate(n.shape))
    return out(it, "np", "u8", t.opaque("packbits", (n.term,), tuple(at), sh, "int", "nonneg"), sh)


@ext("tf.shape", "x,out_type=,name=")
def _(it, x, o, name):
    n = tens(it, x)
    if n is None or n.shape is None:
        return bad(it, "shape", x)
    return Tup([Num(d, "tf", to_dt(it, o, "tf") or "i32") for d in n.shape])


@ext("np.shape", "x")
def _(it, x):
    n = conv(it, x)
    if n is None or n.shape is None:
        return bad(it, "shape", x)
    return Tup([Num(d, "py", "int") for d in n.shape])


@ext("tf.size", "x,out_type=,name=")
def _(it, x, o, name):
    n = conv(it, x)
    if n is None or n.shape is None:
        return bad(it, "size", x)
    d = to_dt(it, o, "tf") if given(o) else "i32"
    return Num(t.size(n.shape), "tf", d) if d else it.unk("size of a type")


@ext("np.size", "x,axis=")
def _(it, x, axis):
    n = conv(it, x)
    if n is None or n.shape is None:
        return bad(it, "size", x)
    if not given(axis):
        return Num(t.size(n.shape), "py", "int")
    k = lib_fns.int_const(it, axis)
    if k is None or not -len(n.shape) <= k < len(n.shape):
        return it.unk("size along an axis")
    return Num(n.shape[k], "py", "int")


@ext("np.ndim", "x")
def _(it, x):
    n = conv(it, x)
    return Num(t.num(len(n.shape)), "py", "int")


@ext("tf.rank", "x,name=")
def _(it, x, name):
    n = conv(it, x)
    return Num(t.num(len(n.shape)), "tf", "i32")


@ext("np.isscalar", "x")
def _(it, x):
    n = it.num(x)
    return Num(t.T(bool(n is not None and n.shape == () and n.kind != "tf") or isinstance(x, (K, Str)) and x is not NONE),
               "py", "bool")


@ext("np.iscomplexobj", "x")
def _(it, x):
    n = conv(it, x)
    if n is None:
        return bad(it, "iscomplexobj", x)
    return Num(t.T(n.dtype in COMPLEX), "py", "bool")


@ext("np.isrealobj", "x")
def _(it, x):
    n = conv(it, x)
    if n is None:
        return bad(it, "isrealobj", x)
    return Num(t.T(n.dtype not in COMPLEX), "py", "bool")


@ext("tf.is_tensor", "x")
def _(it, x):
    n = it.num(x)
    return Num(t.T(n is not None and n.kind == "tf"), "py", "bool")


FLAT = Tup([Num(t.num(-1), "py", "int")])


@ext("np.ravel", "x,order=")
def _(it, x, o):
    return reshape(it, "np", x, FLAT, o)


@ext("tf.math.reduce_logsumexp tf.linalg.matmul tf.matmul np.matmul np.einsum tf.einsum tf.tensordot np.kron tf.gather tf.scatter_nd tf.map_fn tf.scan np.vectorize np.apply_along_axis",
     "*a,**k", raw=True)
def _(it, a, k):
    return it.unk("library function without model")


@ext("tf.cond", "pred,true_fn=,false_fn=,name=", raw=True)
def _(it, p, a, b, name):
    c = it.decide(it.truth(p))
    return it.branch([(c, lambda: it.call(a, [], {})), (t.lnot(c), lambda: it.call(b, [], {}))])


@ext("np.array_equal", "a,b")
def _(it, a, b):
    x, y = conv(it, a), conv(it, b)
    if x is None or y is None:
        return bad(it, "array_equal", a, b)
    if x.shape is None or y.shape is None or len(x.shape) != len(y.shape):
        return Num(t.FALSE, "py", "bool")
    e = t.eq(x.term, y.term)
    return Num(e if t.is_leaf(e) else t.bool_atom("all_all", (e,), (), ()), "py", "bool")


@ext("np.dtype", "d")
def _(it, d):
    n = to_dt(it, d, "np")
    return DT(n, "np") if n else it.unk("dtype")


@ext("tf.as_dtype tf.dtypes.as_dtype", "d")
def _(it, d):
    from .lib import as_dtype
    n = as_dtype(it, d, "tf")
    if n is None and isinstance(d, (K, Num, DT)) and to_dt(it, d, "tf") in (None, False):
        it.throw("TypeError", K("cannot convert the argument to a TensorFlow DType"))
    return DT(n, "tf") if n else it.unk("dtype")


@ext("np.result_type np.promote_types", "*xs")
def _(it, xs):
    d, weak = None, []
    for x in xs.items:
        n = it.num(x)
        if n is None:
            k = to_dt(it, x, "np")
            if not k:
                return bad(it, "result_type", x)
        elif n.kind == "py":
            weak.append(n.dtype)
            continue
        else:
            k = n.dtype
        d = k if d is None else ln.np_promote(d, k)
    if d is None:
        return DT(ln.np_of(max(weak, key=lambda q: ln.PYRANK[q])), "np")
    for q in weak:
        d = ln.np_weak(d, q)
    return DT(d, "np")


@ext("np.can_cast", "a,b,casting=")
def _(it, a, b, casting):
    x, y = to_dt(it, a, "np"), to_dt(it, b, "np")
    k = lib_cval(casting)
    if not x or not y or k not in (None, "same_kind", "safe"):
        return bad(it, "can_cast", a, b)
    return Num(t.T(ln.can_cast(x, y) if k == "same_kind" else ln.np_promote(x, y) == y), "py", "bool")


def lib_cval(v):
    return v.val if isinstance(v, K) else None if v is MISSING else "?"


@ext("np.issubdtype", "a,b")
def _(it, a, b):
    d = to_dt(it, a, "np")
    n = b.path.split(".")[-1] if isinstance(b, Ext) else None
    if not d or n is None:
        if d and to_dt(it, b, "np"):
            return Num(t.T(d == to_dt(it, b, "np")), "py", "bool")
        return it.unk("issubdtype")
    c = cls_of(d)
    ok = {"integer": c == "int", "signedinteger": c == "int" and d != "u8", "floating": c == "float",
          "complexfloating": c == "complex", "inexact": c in ("float", "complex"), "number": c != "bool",
          "bool": c == "bool", "float": d == "f64", "int": d == "i64", "complex": d == "c128"}.get(n)
    return Num(t.T(ok), "py", "bool") if ok is not None else it.unk("issubdtype")


# ------------------------------------------------------------------------------------ methods
@method("astype", "dtype,order=,casting=,subok=,copy=")
def _(it, x, dtype, o, c, so, copy):
    d = to_dt(it, dtype, "np")
    n = it.num(x)
    if not d or n is None:
        return it.unk("astype")
    if given(copy) and it.truth(copy) is t.FALSE and d == n.dtype:
        return x
    if n.kind == "py":
        it.throw("AttributeError", K("astype"))
    return ln.tracked(it, out(it, "np", d, ln.cast_term(n.term, n.dtype, d), n.shape, n.sel), "cast", n)


@method("view", "dtype=,type=")
def _(it, x, dt, ty):
    """the same memory under another element type"""
    n = it.num(x)
    if not (isinstance(x, Ref) and isinstance(it.get(x), ArrO)) or given(ty):
        return it.unk("view")
    d = to_dt(it, dt, "np") if given(dt) else n.dtype
    if not d or n.shape is None:
        return it.unk("view")
    if d == n.dtype:
        return view_of(it, x, "np", d, n.term, n.shape)
    if n.dtype == "bool" and d in ("u8", "i8"):
        return view_of(it, x, "np", d, t.as_num(n.term), n.shape)
    size = {"bool": 1, "u8": 1, "i8": 1, "f16": 2, "i16": 2, "u16": 2, "f32": 4, "i32": 4, "u32": 4, "f64": 8, "i64": 8, "u64": 8, "c64": 8, "c128": 16}
    if d not in size or n.dtype not in size or not n.shape:
        return it.unk("view")
    sh = n.shape[:-1] + (t.div(n.shape[-1] * size[n.dtype], t.num(size[d])),)
    return view_of(it, x, "np", d, opaque_arr("view", (n.term,), (d,), sh, d), sh)


@method("__deepcopy__", "memo")
def _(it, x, m):
    n = it.num(x)
    return out(it, "np", n.dtype, n.term, n.shape, n.sel)


@method("copy __copy__", "order=")
def _(it, x, o):
    n = it.num(x)
    return out(it, "np", n.dtype, n.term, n.shape, n.sel)


@method("numpy", "")
def _(it, x):
    n = it.num(x)
    if n.shape == ():
        return n.with_(kind="np")
    return out(it, "np", n.dtype, n.term, n.shape)


@method("value read_value", "")
def _(it, x):
    return it.num(x)


@method("item", "*at")
def _(it, x, at):
    n = it.num(x)
    if at.items:
        r = it.getitem(reshape(it, "np", x, FLAT, MISSING), at.items[0]) if len(at.items) == 1 else it.getitem(x, at)
        m = it.num(r)
        return m.with_(kind="py", dtype=cls_of(m.dtype)) if m is not None and m.shape == () else it.unk("item")
    if n.shape is not None and n.shape != () and t.const_val(t.size(n.shape)) != 1:
        it.throw("ValueError", K("item() of an array"))
    c = cls_of(n.dtype)
    return Num(n.term if n.shape == () else ln.at(n.term, t.ZERO), "py", c)


@method("tolist", "")
def _(it, x):
    n = it.num(x)
    if n.shape == ():
        return Num(n.term, "py", cls_of(n.dtype))
    its = it.items(x)
    if its is None:
        return it.unk("tolist")
    return it.alloc(ListO([v.with_(kind="py", dtype=cls_of(v.dtype)) if isinstance(v, Num) else v for v in its]))


@method("tobytes", "order=")
def _(it, x, o):
    n = it.num(x)
    if given(o) and not (isinstance(o, K) and o.val in ("C", None)) and n is not None and len(n.shape or ()) > 1:
        if not (isinstance(o, K) and o.val == "F"):
            m = memory_order(n)
            if m is None or not isinstance(o, K) or o.val not in ("A", "K"):
                return bad(it, "tobytes in memory order", x)
            return Str("bytes", (n.with_(term=m),))
        n = it.num(transpose(it, "np", x, MISSING, MISSING, MISSING))
    return Str("bytes", (n,))


@method("reshape", "*shape,order=")
def _(it, x, shape, o):
    s = shape.items[0] if len(shape.items) == 1 and it.num(shape.items[0]) is None else shape
    return reshape(it, "np", x, s, o)


@method("ravel", "order=")
def _(it, x, o):
    return reshape(it, "np", x, FLAT, o)


@method("flatten", "order=")
def _(it, x, o):
    r = reshape(it, "np", x, FLAT, o)
    n = it.num(r)
    return out(it, "np", n.dtype, n.term, n.shape) if n is not None else r


@method("transpose", "*perm")
def _(it, x, perm):
    return transpose(it, "np", x, perm if perm.items else MISSING, MISSING, MISSING)


@method("squeeze", "axis=")
def _(it, x, a):
    return squeeze(it, "np", x, a, MISSING)


@method("conj conjugate", "")
def _(it, x):
    n = it.num(x)
    if n.kind == "py":
        return n.with_(term=t.fun("conj", n.term))
    return elementwise(it, "np", "conj", x)


@method("round __round__", "decimals=,out=")
def _(it, x, n, o):
    return rounded(it, x, n) if not given(o) else it.unk("round(out=)")


@method("clip", "min=,max=,out=")
def _(it, x, lo, hi, o):
    if given(o):
        return it.unk("clip(out=)")
    return FUNCS["np.clip"](it, [x, lo if lo is not MISSING else NONE, hi if hi is not MISSING else NONE], {})


@method("fill", "v")
def _(it, x, v):
    from . import lib
    n = it.num(v)
    o = it.num(x)
    lib.overwrite(it, x, None if n is None else n.with_(shape=o.shape))
    return NONE


@ext("np.copyto", "dst,src,casting=,where=")
def _(it, dst, src, casting, mask):
    """dst[...] = src where mask"""
    from . import lib
    h = it.get(dst) if isinstance(dst, Ref) else None
    if not isinstance(h, ArrO):
        return it.unk("copyto")
    n, v = h.num, conv(it, src)
    m = conv(it, mask) if mask is not MISSING else Num(t.TRUE, "py", "bool")
    if v is None or m is None or m.dtype != "bool":
        lib.overwrite(it, dst, None)
        return it.unk("copyto")
    k = lib_cval(casting) or "same_kind"
    if v.kind != "py" and k != "unsafe" and not (ln.can_cast(v.dtype, n.dtype) if k == "same_kind" else ln.np_promote(v.dtype, n.dtype) == n.dtype):
        it.throw("TypeError", K("copyto: cannot cast"))
    ns, sh = ln.broadcast(it, "copyto", [n, v, m])
    if ns is None or n.shape is None or sh.shape is None or len(sh.shape) != len(n.shape):
        lib.overwrite(it, dst, None)
        return it.unk("copyto")
    o, x, c = (q.term for q in ns)
    x = ln.cast_term(x, v.dtype, n.dtype)
    c = t.as_bool(c)
    new = t.lor(t.land(c, x), t.land(t.lnot(c), o)) if n.dtype == "bool" else t.ite(c, x, o)
    lib.overwrite(it, dst, n.with_(term=new))
    return NONE


@ext("np.putmask", "a,mask,values")
def _(it, a, m, v):
    h = it.get(a) if isinstance(a, Ref) else None
    n = conv(it, v)
    if not isinstance(h, ArrO) or n is None or n.shape not in ((), h.num.shape):
        from . import lib
        if isinstance(h, ArrO):
            lib.overwrite(it, a, None)
        return it.unk("putmask")
    return FUNCS["np.copyto"](it, [a, v], {"casting": K("unsafe"), "where": m})


@method("sort resize put partition itemset setflags byteswap", "*a,**k", raw=True)
def _(it, x, a, k):
    from . import lib
    lib.overwrite(it, x, None)
    return NONE


@method("is_integer", "")
def _(it, x):
    n = it.num(x)
    return Num(t.T(True) if t.is_int(n.term) else t.bool_atom("is_integer", (n.term,)), "py", "bool")


@method("get_shape", "")
def _(it, x):
    return it.getattr(x, "shape")


@method("set_shape", "s")
def _(it, x, s):
    return NONE


@method("as_list", "")
def _(it, x):
    return it.unk("as_list")


def var_assign(it, x, v, op):
    o = it.get(x)
    from .lib_fns import to_tensor
    n = to_tensor(it, v, o.num.dtype, "Variable.assign")
    if not isinstance(n, Num):
        it.put(x, VarO(o.num.with_(term=t.opaque("unknown", (), (fresh(),))), o.hint))
        return n
    if op == "add":
        term = t.add(o.num.term, n.term)
    elif op == "sub":
        term = t.sub(o.num.term, n.term)
    else:
        term = n.term
    if o.num.shape is not None and n.shape is not None and len(o.num.shape) != len(n.shape) and op == "":
        it.throw("ValueError", K("Variable.assign: shape"))
    it.put(x, VarO(o.num.with_(term=term), o.hint))
    it.event("assign", o.hint, (n,))
    return x


method("assign", "value,use_locking=,name=,read_value=")(lambda it, x, v, u, n, r: var_assign(it, x, v, ""))
method("assign_add", "value,use_locking=,name=,read_value=")(lambda it, x, v, u, n, r: var_assign(it, x, v, "add"))
method("assign_sub", "value,use_locking=,name=,read_value=")(lambda it, x, v, u, n, r: var_assign(it, x, v, "sub"))
