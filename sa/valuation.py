"""Random interpretation of value-numbering terms (after Gulwani and Necula).

Two normal forms that are not syntactically equal are compared by giving their symbols random
values and their uninterpreted functions random meanings.  If the terms differ for one valuation
they denote different functions, and that valuation is a witness; if they agree for all valuations
tried they are taken to be equal.  Only terms are evaluated here, never the analysed program.
"""
import hashlib
import itertools
import math
import random
import numpy as np
from fractions import Fraction as Fr
from . import terms as t

CAP = 12
BIG = 50000


class NoValue(Exception):
    pass


def _h(*xs):
    return int(hashlib.sha1(repr(xs).encode()).hexdigest()[:15], 16)


_dep = {}


def _bound(a):
    """does the atom mention a loop-bound symbol?"""
    r = _dep.get(a.key)
    if r is None:
        r = any(x.kind == "sym" and x.name.startswith("$s") or x.kind == "sym" and x.name.startswith("$i")
                or x.name.startswith("$s") and "_" in x.name
                for x in t.all_atoms(t.from_atom(a)))
        _dep[a.key] = r
    return r


class Valuation:
    def __init__(self, seed, mode="generic", given=None, funs=None, domain=None):
        self.seed, self.mode = seed, mode
        self.given = dict(given or {})
        self.funs = dict(funs or {})
        self.domain = domain or {}
        self.memo = {}
        self.env = {}
        self.used = {}
        self.large = False            # arrays of a real device size
        self.scaled = {}              # factors of real symbols (None: all of them)
        self.odd = False            # a comparison met a value that is not a number

    # --------------------------------------------------------------------------- symbols
    def rnd(self, *key):
        return random.Random(_h(self.seed, *key))

    def scalar(self, name, flags):
        if name == "pi":
            return math.pi
        if name in self.given:
            return self.given[name]
        r = self.rnd("s", name)
        if name in self.domain:
            v = self.domain[name](r, self.mode)
        elif "bool" in flags:
            v = r.random() < 0.5
        elif "int" in flags and self.mode == "sizes":
            v = r.randint(1, 9) if "pos" in flags else r.randint(0, 5) if "nonneg" in flags else r.randint(-4, 6)
        elif "int" in flags:
            v = r.randint(2, 6) if "pos" in flags else r.randint(0, 4) if "nonneg" in flags else r.randint(-2, 3)
        elif self.mode == "zeros":
            v = r.choice(self.simple(flags))
        elif self.mode == "dyadic":
            c = [0.5, 1.0, 2.0, 4.0] if "pos" in flags else [0.0, 0.5, 1.0, 2.0] if "nonneg" in flags else \
                [-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0]
            v = r.choice(c)
            if "real" not in flags:
                v = v + 1j * r.choice(c)
        else:
            lo, hi = (0.5, 2.0) if "pos" in flags else (0.05, 2.0) if "nonneg" in flags else (-2.0, 2.0)
            v = r.uniform(lo, hi)
            if "real" not in flags:
                v = v + 1j * r.uniform(lo, hi)
            if self.scaled and "int" not in flags:
                v = v * self.scaled.get(name, self.scaled.get(None, 1.0))
        self.used[name] = v
        return v

    def simple(self, flags):
        """mode "zeros": few values, so that symbols and their differences often vanish"""
        return [0.5, 1.0, 2.0] if "pos" in flags else [0.0, 0.0, 1.0, 2.0] if "nonneg" in flags else [0.0, 0.0, 1.0, -1.0]

    def constant(self, name, r, flags=()):
        """mode "flat": about half of the arrays and functions take one simple value everywhere"""
        if self.mode != "flat" or r.random() < 0.4:
            return None
        return r.choice([0.5, 1.0, 2.0] if "pos" in flags else [0.0, 0.0, 1.0, 0.5] if "nonneg" in flags else [0.0, 0.0, 1.0, 0.5, -1.0])

    def array(self, name, shape, flags):
        if name in self.given:
            return self.given[name]
        sh = tuple(self.dim(d) for d in shape)
        if name not in self.domain:
            k = self.constant(name, self.rnd("k", name), flags)
            if k is not None:
                v = np.full(sh, (k > 0.5) if "bool" in flags else round(k + 0.1) if "int" in flags else k)
                self.used[name] = v.tolist()
                return v
        r = self.rnd("a", name, sh)
        n = int(np.prod(sh)) if sh else 1
        if n > BIG:
            self.large = True
            g = np.random.default_rng(_h(self.seed, name) % 2 ** 63)
            lo = 0.3 if "pos" in flags else 0.0 if "nonneg" in flags else -2.0
            v = g.uniform(lo, 2.0, sh) if "real" in flags else g.random(sh) < 0.5 if "bool" in flags else \
                g.integers(0 if "nonneg" in flags else -3, 4, sh) if "int" in flags else g.uniform(lo, 2.0, sh) + 1j * g.uniform(lo, 2.0, sh)
            self.used[name] = "<random %s>" % (sh,)
            return v
        dom = self.domain.get(name)
        if dom:
            v = [dom(r, self.mode) for _ in range(n)]
        elif "bool" in flags:
            v = [r.random() < 0.5 for _ in range(n)]
        elif "int" in flags:
            v = [r.randint(0 if "nonneg" in flags else -3, 4) for _ in range(n)]
        elif self.mode == "zeros":
            c = self.simple(flags)
            v = [r.choice(c) for _ in range(n)]
        elif self.mode == "dyadic":
            c = [0.5, 1.0, 2.0] if "pos" in flags else [0.0, 0.5, 1.0, 2.0] if "nonneg" in flags else \
                [-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0]
            v = [r.choice(c) + (0 if "real" in flags else 1j * r.choice(c)) for _ in range(n)]
        else:
            lo = 0.3 if "pos" in flags else 0.0 if "nonneg" in flags else -2.0
            k = self.scaled.get(name, self.scaled.get(None, 1.0)) if self.scaled else 1.0
            v = [(r.uniform(lo, 2.0) + (0 if "real" in flags else 1j * r.uniform(lo, 2.0))) * k for _ in range(n)]
        v = np.array(v).reshape(sh)
        self.used[name] = v.tolist()
        return v

    def dim(self, d):
        v = self.ev(d)
        return int(round(float(np.real(v))))

    def ufun(self, name, args):
        if name in self.funs:
            return self.funs[name](*args)
        if self.mode in ("dyadic", "zeros"):
            vals = [-1.0, -0.5, 0.0, 0.5, 1.0, 2.0] if self.mode == "dyadic" else [0.0, 0.0, 1.0]

            def f(*xs):
                k = _h(self.seed, name, tuple(round(float(np.real(x)), 7) + 0.0 for x in xs))
                return vals[k % len(vals)]
            return np.vectorize(f, otypes=[float])(*args)
        r = self.rnd("f", name)
        k = self.constant(name, r)
        if k is not None:
            return np.broadcast_arrays(*args)[0] * 0.0 + k if args else k
        c = [r.uniform(0.3, 1.7) for _ in range(4)]
        s = 0
        for i, x in enumerate(args):
            s = s + (0.7 + 0.4 * i + 0.3 * c[i % 4]) * x + 0.21 * c[(i + 1) % 4] * np.real(x) ** 2
        k = self.scaled.get(name, self.scaled.get(None, 1.0)) if self.scaled else 1.0
        return (c[0] * np.sin(s + c[1]) + 0.35 * np.cos(2.3 * s + c[2])) * k

    # --------------------------------------------------------------------------- terms
    def ev(self, x, top=False):
        if x.kind == "bool":
            return bool(x.poly)
        if x.kind == "ite":
            c = self.at(x.cond)
            if np.ndim(c) == 0:
                return self.ev(x.a if c else x.b)
            a, b = self.ev(x.a), self.ev(x.b)
            return np.where(c, a, b)
        s, mag = 0.0, 0.0
        for m, c in x.poly:
            v = float(c[0]) if c[1] == 0 else complex(float(c[0]), float(c[1]))
            for a, e in m:
                b = self.at(a)
                if isinstance(e, t.Term):
                    ee = self.ev(e)
                    v = v * np.power(np.asarray(b, dtype=complex) if np.any(np.real(b) < 0) else b, ee)
                elif e == 1:
                    v = v * b
                else:
                    v = v * self.pw(b, e)
            s = s + v
            if top:
                mag = mag + np.abs(v)
        return (s, mag) if top else s

    def both(self, a, b):
        """the values of two terms and the size of what cancels in them, element by element"""
        r = [self.ev(x, True) if x.kind == "poly" else (self.ev(x), 0.0) for x in (a, b)]
        return r[0][0], r[1][0], 1e-11 * (r[0][1] + r[1][1])

    def pw(self, b, e):
        b = np.asarray(b)
        if b.dtype == bool:
            b = b.astype(float)
        if e.denominator == 1:
            n = int(e)
            r = np.ones_like(b, dtype=complex if np.iscomplexobj(b) else float)
            for _ in range(abs(n)):
                r = r * b
            return r if n >= 0 else 1.0 / r
        if not np.iscomplexobj(b) and np.any(b < 0):
            b = np.where((b < 0) & (b > -1e-12), 0.0, b)
            if np.any(b < 0):
                b = b.astype(complex)
        return np.power(b, float(e))

    def at(self, a):
        k = a.key
        if a.kind == "sym" and a.name in self.env:
            return self.env[a.name]
        if a.name in self.env:
            return self.env[a.name]
        memo = self.memo
        if self.env and _bound(a):
            memo = self.env["memo"]
        r = memo.get(k)
        if r is None:
            r = self.at0(a)
            memo[k] = r
        return r

    def at0(self, a):
        n = a.name
        if a.kind == "sym":
            if a.shape is None:
                raise NoValue("symbol of unknown shape")
            return self.array(n, a.shape, a.flags) if len(a.shape) else self.scalar(n, a.flags)
        if a.kind == "prime":
            return float(a.attrs[0])
        if a.kind == "sum":
            return self.ev(a.args[0])
        f = getattr(self, "op_" + n.replace("$", ""), None)
        if f is not None:
            return f(a)
        if n in SIMPLE:
            vs = [self.ev(x) for x in a.args]
            if n in OSCILLATING:
                self.moderate(vs, 1e-9 if n in ("angle", "atan2", "sign", "floor", "round") else 0.0)
            return SIMPLE[n](*vs)
        if n.startswith("u_"):
            vs = [np.asarray(self.ev(x)) for x in a.args]
            self.moderate(vs)
            return self.ufun(n, vs)
        if n in ("unknown", "uninitialised"):
            raise NoValue("unmodelled value %r" % (a.attrs,))
        if n == "const":
            return float(a.attrs[0].strip("'"))
        if a.shape is None:
            raise NoValue(n)
        # uninterpreted operation
        key = (n, self._akey(a.attrs), tuple(self._vkey(self.ev(x)) if isinstance(x, t.Term) else repr(x) for x in a.args))
        return self.array("op" + str(_h(key)), a.shape, a.flags) if len(a.shape) else \
            self.scalar("op" + str(_h(key)), a.flags)

    def _akey(self, x):
        if isinstance(x, t.Term):
            return self._vkey(self.ev(x))
        if isinstance(x, (tuple, list)):
            return tuple(self._akey(i) for i in x)
        return repr(x)

    def _vkey(self, v):
        v = np.asarray(v)
        if v.dtype == bool:
            return (v.shape, tuple(v.ravel().tolist()))
        self.moderate([v])
        return (v.shape, tuple(np.round(np.asarray(v, dtype=complex), 7).ravel().tolist()))

    # --------------------------------------------------------------------------- operations
    def full(self, a):
        """value of the argument, expanded to the shape of the atom"""
        v = np.asarray(self.ev(a.args[0]))
        return v

    def op_idx(self, a):
        n = self.dim(a.args[0])
        return self.lay(np.arange(n, dtype=float), a.attrs[0])

    def op_fftk(self, a):
        n = self.dim(a.args[0])
        v = np.arange(n, dtype=float)
        v = np.where(v >= (n + 1) // 2, v - n, v)
        return self.lay(v, a.attrs[0])

    def lay(self, v, axis):
        return v if axis == "v" else v[:, None] if axis == 0 else v[None, :]

    def op_along(self, a):
        v = np.asarray(self.ev(a.args[0]))
        return self.lay(v.reshape(-1), a.attrs[0])

    def arg2(self, a, x=None):
        """argument as an array of the shape of the atom (operations that keep the shape)"""
        v = np.asarray(self.ev(a.args[0] if x is None else x))
        sh = tuple(self.dim(d) for d in a.shape)
        return np.broadcast_to(v, sh) if v.shape != sh and all(p in (1, q) for p, q in zip(v.shape[::-1], sh[::-1])) else v

    def op_fftshift(self, a):
        return np.fft.fftshift(self.arg2(a), axes=tuple(x for x in a.attrs[0]))

    def op_ifftshift(self, a):
        return np.fft.ifftshift(self.arg2(a), axes=tuple(x for x in a.attrs[0]))

    def op_fft2(self, a):
        return clean(np.fft.fft2(self.arg2(a)))

    def op_ifft2(self, a):
        return clean(np.fft.ifft2(self.arg2(a)))

    def op_fft1(self, a):
        return clean(np.fft.fft(self.arg2(a)))

    def op_ifft1(self, a):
        return clean(np.fft.ifft(self.arg2(a)))

    def op_fft_axis(self, a):
        return clean(np.fft.fftn(self.arg2(a), axes=tuple(a.attrs[0])))

    def op_ifft_axis(self, a):
        return clean(np.fft.ifftn(self.arg2(a), axes=tuple(a.attrs[0])))

    def pads(self, a):
        ps = [(self.dim(p), self.dim(q)) for p, q in a.attrs[0]]
        sh = tuple(self.dim(d) for d in a.shape)
        inner = tuple(s - p - q for s, (p, q) in zip(sh, ps))
        v = np.broadcast_to(np.asarray(self.ev(a.args[0])), inner)
        return v, ps

    def op_pad(self, a):
        v, ps = self.pads(a)
        return np.pad(v, ps)

    def op_pad_edge(self, a):
        v, ps = self.pads(a)
        return np.pad(v, ps, mode="edge")

    def op_pad_reflect(self, a):
        v, ps = self.pads(a)
        return np.pad(v, ps, mode="reflect")

    op_pad_symmetric = op_pad_reflect

    def big(self, x):
        sh = t.shape_of(x)
        v = np.asarray(self.ev(x))
        if sh is None:
            raise NoValue("reduction over unknown shape")
        s = tuple(self.dim(d) for d in sh)
        return np.broadcast_to(v, s)

    def op_sum_all(self, a):
        return np.sum(self.big(a.args[0]))

    def op_max_all(self, a):
        return np.max(np.real(self.big(a.args[0])))

    def op_min_all(self, a):
        return np.min(np.real(self.big(a.args[0])))

    def op_any_all(self, a):
        return bool(np.any(self.big(a.args[0])))

    def op_all_all(self, a):
        return bool(np.all(self.big(a.args[0])))

    def op_prod_all(self, a):
        return np.prod(self.big(a.args[0]))

    def op_vec(self, a):
        vs = [np.asarray(self.ev(x)) for x in a.args]
        return np.stack(np.broadcast_arrays(*vs)) if vs else np.zeros(0)

    def op_stacks(self, a):
        return np.stack(np.broadcast_arrays(*[np.asarray(self.ev(x)) for x in a.args]), axis=a.attrs[0])

    def op_concats(self, a):
        return np.concatenate([self.big(x) for x in a.args], axis=a.attrs[0])

    def op_gather(self, a):
        axis, _, n = a.attrs
        ax = 0 if axis == "v" else axis
        n = self.dim(n)
        st, k = self.dim(a.args[1]), self.dim(a.args[2])
        v = np.asarray(self.ev(a.args[0]))
        i = st + k * np.arange(n)
        if np.any(i < 0) or np.any(i >= v.shape[ax]):
            return np.full(tuple(self.dim(d) for d in a.shape), np.nan)
        return np.take(v, i, axis=ax)

    def op_transpose(self, a):
        return np.transpose(np.asarray(self.ev(a.args[0])))

    def op_reshape(self, a):
        src, dst = (tuple(self.dim(d) for d in x) for x in a.attrs)
        v = np.asarray(self.ev(a.args[0]))
        r = np.broadcast_to(v, src).reshape(dst)
        return r.astype(bool) if "bool" in a.flags else r

    def op_packbits(self, a):
        at = dict(a.attrs)
        kw = {}
        if "order" in at:
            kw["bitorder"] = "little"
        if "axis" in at:
            raise NoValue("packbits along an axis")
        return np.packbits(np.asarray(self.big(a.args[0])).astype(bool), **kw).astype(float)

    def op_rand(self, a):
        sh = tuple(self.dim(d) for d in a.shape)
        r = self.rnd("rand", repr(a.attrs), sh)
        n = int(np.prod(sh)) if sh else 1
        v = np.array([r.random() for _ in range(n)]).reshape(sh)
        return v if sh else float(v.reshape(()))

    def clear(self, p, v):
        """with scaled values: a comparison that rounding could decide is not one"""
        if self.scaled and not (p.kind == "poly" and len(p.poly) == 1):
            m = self.ev(p, True)[1] if p.kind == "poly" else 0.0
            if np.any((np.abs(v) < np.maximum(1e-8, 1e-7 * np.asarray(m))) & (v != 0)):
                raise NoValue("comparison too close for scaled values")

    def product(self, a):
        """with scaled values: the sign of a product is exact"""
        return bool(self.scaled) and a.args[0].kind == "poly" and len(a.args[0].poly) == 1

    def moderate(self, vs, small=0.0):
        """with scaled values: functions are not evaluated where their value is mostly rounding"""
        if self.scaled:
            for v in vs:
                b = np.abs(np.asarray(v))
                if b.dtype != bool and np.any((b > 1e4) | (b < small) & (b != 0)):
                    raise NoValue("argument too large for scaled values")

    def op_lt0(self, a):
        v = np.real(np.asarray(self.ev(a.args[0])))
        self.odd = self.odd or not np.all(np.isfinite(v))
        self.clear(a.args[0], v)
        r = v < (-1e-10 if not self.product(a) else 0)
        return bool(r) if r.ndim == 0 else r

    def op_eq0(self, a):
        v = np.abs(np.asarray(self.ev(a.args[0])))
        self.odd = self.odd or not np.all(np.isfinite(v))
        self.clear(a.args[0], v)
        r = v < 1e-9 if not self.product(a) else v == 0
        return bool(r) if r.ndim == 0 else r

    def op_is_integer(self, a):
        v = float(np.real(self.ev(a.args[0])))
        return abs(v - round(v)) < 1e-9

    def count(self, x):
        n = self.dim(x)
        if n > CAP:
            n = 2 + n % 5
        return max(n, 0)

    def op_sum_loop(self, a):
        n, body = a.args
        names = [x.name for x in t.all_atoms(body) if x.kind == "sym" and x.name == "$i"]
        s = 0.0
        saved = self.env
        for i in range(self.count(n)):
            self.env = dict(saved)
            self.env["$i"] = float(i)
            self.env["memo"] = {}
            s = s + self.ev(body)
        self.env = saved
        if len(a.shape or ()) and np.ndim(s) == 0:
            s = np.full(tuple(self.dim(d) for d in a.shape), s)
        return s

    def op_loop(self, a):
        k, h = a.attrs
        n = a.args[0]
        inits, bodies = a.args[1:1 + k], a.args[1 + k:1 + 2 * k]
        vals = [self.ev(x) for x in inits]
        saved = self.env
        for i in range(self.count(n)):
            env = dict(saved)
            env["$i%d" % h] = float(i)
            env["memo"] = {}
            for j, v in enumerate(vals):
                env["$s%d_%d" % (h, j)] = v
            self.env = env
            vals = [self.ev(b) for b in bodies]
            self.env = saved
        self.env = saved
        return vals[0]


def clean(z):
    s = np.max(np.abs(z)) if z.size else 1.0
    e = 1e-13 * (s if s > 0 else 1.0)
    re = np.where(np.abs(z.real) < e, 0.0, z.real)
    im = np.where(np.abs(z.imag) < e, 0.0, z.imag)
    return re + 1j * im


def _real(x):
    x = np.asarray(x)
    return np.real(x).astype(float)


def _angle(z):
    z = np.asarray(z)
    if np.iscomplexobj(z):
        s = np.abs(z)
        im = np.where(np.abs(z.imag) <= 1e-12 * (s + 1e-300), 0.0, z.imag) + 0.0
        re = np.where(np.abs(z.real) <= 1e-12 * (s + 1e-300), 0.0, z.real) + 0.0
        im = np.where(np.abs(z) < 1e-12, 0.0, im)
        re = np.where(np.abs(z) < 1e-12, 0.0, re)
        return np.arctan2(im, re)
    return np.where(z < 0, math.pi, 0.0)


def _atan2(y, x):
    y, x = _real(y), _real(x)
    return np.arctan2(np.where(np.abs(y) < 1e-12, 0.0, y) + 0.0, np.where(np.abs(x) < 1e-12, 0.0, x) + 0.0)


def _floor(x):
    x = _real(x)
    r = np.round(x)
    return np.where(np.abs(x - r) < 1e-9, r, np.floor(x))


def _pow(b, e):
    b, e = np.asarray(b), np.asarray(e)
    if not np.iscomplexobj(b) and np.any(b < 0):
        b = b.astype(complex)
    return np.power(b.astype(complex if np.iscomplexobj(b) else float), e)


def _acos(x):
    return np.arccos(np.clip(_real(x), -1 - 0, 1)) if np.all(np.abs(_real(x)) < 1 + 1e-9) else \
        np.where(np.abs(_real(x)) > 1 + 1e-9, np.nan, np.arccos(np.clip(_real(x), -1, 1)))


def _asin(x):
    return np.where(np.abs(_real(x)) > 1 + 1e-9, np.nan, np.arcsin(np.clip(_real(x), -1, 1)))


SIMPLE = {
    "cos": np.cos, "sin": np.sin, "tan": np.tan, "exp": np.exp, "tanh": np.tanh, "sinh": np.sinh, "cosh": np.cosh,
    "log": lambda x: np.log(np.asarray(x) + 0.0), "acos": _acos, "asin": _asin, "atan": lambda x: np.arctan(_real(x)),
    "atan2": _atan2, "abs": lambda x: np.abs(np.asarray(x) + 0.0), "sign": lambda x: np.sign(np.where(np.abs(_real(x)) < 1e-12, 0, _real(x))),
    "real": np.real, "imag": np.imag, "conj": np.conj, "angle": _angle, "floor": _floor,
    "max2": lambda a, b: np.maximum(_real(a), _real(b)), "min2": lambda a, b: np.minimum(_real(a), _real(b)),
    "pow": _pow, "round": lambda x: np.round(_real(x)), "is_nan": lambda x: np.isnan(x),
}


OSCILLATING = ("sin", "cos", "tan", "exp", "floor", "round", "angle", "atan2", "sign", "sinh", "cosh")


def close(a, b, tol=0.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype == bool:
        a = a.astype(float)
    if b.dtype == bool:
        b = b.astype(float)
    try:
        a, b = np.broadcast_arrays(a, b)
    except ValueError:
        return False
    fa, fb = np.isfinite(a), np.isfinite(b)
    if np.any(fa != fb):
        return False
    d = np.abs(np.where(fa, a, 0) - np.where(fb, b, 0))
    m = np.maximum(np.abs(np.where(fa, a, 0)), np.abs(np.where(fb, b, 0)))
    sc = np.max(m) if m.size else 0
    return bool(np.all(d <= 1e-7 * m + 1e-8 * max(sc, 0.0) + 1e-10 + (np.where(np.isfinite(tol), tol, 0.0) if np.ndim(tol) == 0 or np.shape(tol) == d.shape else 0.0)))


def compare(a, b, cond=None, trials=12, seed=1, given=None, funs=None, domain=None):
    """('equal', n) | ('differ', valuation) | ('unknown', why)"""
    tried = 0
    skipped = 0
    for k in range(trials * 6):
        mode = "generic" if k % 2 == 0 else "dyadic"
        v = Valuation(seed * 1000 + k, mode, given, funs, domain)
        if skipped > trials and not tried and k % 2 == 0:
            v.scaled = {None: SCALES[k // 2 % len(SCALES)]}         # the condition may hold far from the usual values only
        with np.errstate(all="ignore"):
            try:
                if cond is not None and not np.all(v.ev(cond)):
                    skipped += 1
                    continue
                x, y, tol = v.both(a, b)
                tried += 1
                if not close(x, y, tol):
                    v.values = (np.asarray(x).tolist(), np.asarray(y).tolist())
                    return "differ", v
            except NoValue as e:
                return "unknown", str(e)
            except (ValueError, TypeError, OverflowError, IndexError, ZeroDivisionError, FloatingPointError) as e:
                return "unknown", "%s: %s" % (type(e).__name__, e)
        if tried >= trials or v.large and tried >= 3:
            break
    if tried and v.large:
        return "equal", tried
    if not tried:
        return "unknown", "no valuation satisfies the condition"
    with np.errstate(all="ignore"):
        for v in special(seed, given, funs, domain):
            try:
                if cond is not None and not np.all(v.ev(cond)):
                    continue
                x, y, tol = v.both(a, b)
                if not v.odd and np.all(np.isfinite(x)) and np.all(np.isfinite(y)) and not close(x, y, tol):
                    v.values = (np.asarray(x).tolist(), np.asarray(y).tolist())
                    return "differ", v
            except (NoValue, ValueError, TypeError, OverflowError, IndexError, ZeroDivisionError, FloatingPointError):
                continue
        for v in itertools.chain(ties(a, b, seed, given, funs, domain, trials), thresholds(a, b, seed, given, funs, domain),
                                 scales(a, b, seed, given, funs, domain)):
            try:
                if cond is not None and not np.all(v.ev(cond)):
                    continue
                x, y, tol = v.both(a, b)
                if not close(x, y, tol):
                    v.values = (np.asarray(x).tolist(), np.asarray(y).tolist())
                    return "differ", v
            except (NoValue, ValueError, TypeError, OverflowError, IndexError, ZeroDivisionError, FloatingPointError):
                continue
    return "equal", tried


def special(seed, given, funs, domain):
    """valuations with constant arrays and functions, and with other sizes"""
    for k in range(10):
        yield Valuation(seed * 104729 + k, "flat", given, funs, domain)
    for k in range(4):
        yield Valuation(seed * 15485863 + k, "sizes", given, funs, domain)


def satisfiable(cond, seed=1):
    """True (some valuation makes it true) | False (none of those tried) | None"""
    if cond is t.TRUE:
        return True
    if cond is t.FALSE:
        return False
    r, _ = compare(t.as_num(cond), t.ZERO, None, trials=24, seed=seed)
    return {"differ": True, "equal": False}.get(r)


def _loops(a, b):
    """substitutions that give the loop-bound symbols their values in the first round"""
    m = {}
    for x in itertools.chain(t.all_atoms(a), t.all_atoms(b)):
        if x.kind == "op" and x.name == "loop":
            k, h = x.attrs
            m["$i%d" % h] = t.ZERO
            for j in range(k):
                m["$s%d_%d" % (h, j)] = x.args[1 + j]
    return m


def ties(a, b, seed, given, funs, domain, trials):
    """valuations on the boundary of a comparison that occurs in only one of the terms: one real symbol is
    chosen so that the two sides of the comparison are equal"""
    ca = {x.key: x for x in t.all_atoms(a) if x.kind == "op" and x.name in ("lt0", "eq0")}
    cb = {x.key: x for x in t.all_atoms(b) if x.kind == "op" and x.name in ("lt0", "eq0")}
    diff = [x for k, x in sorted(ca.items()) if k not in cb] + [x for k, x in sorted(cb.items()) if k not in ca]
    first = None
    n = 0
    for c in diff[:8]:
        p = c.args[0]
        if _bound(c):
            if first is None:
                first = _loops(a, b)
            for _ in range(3):
                p = t.subst(p, {x: first[x.name] for x in t.all_atoms(p) if x.name in first})
            if any(_bound(x) for x in t.all_atoms(p)):
                continue
        if any(x.kind == "op" and x.name in ("loop", "sum_loop") for x in t.all_atoms(p)):
            continue
        syms = [x for x in t.all_atoms(p) if x.kind == "sym" and "real" in x.flags and not {"int", "bool"} & x.flags
                and x.name not in (given or {}) and x.name not in (domain or {}) and x.name != "pi" and x.shape is not None]
        syms.sort(key=lambda x: (-len(x.shape), x.name))
        got = 0
        for s in syms[:6]:
            for k in range(2):
                v = solve(p, s, seed * 7919 + 31 * k + n, given, funs, domain)
                n += 1
                if v is not None:
                    got += 1
                    yield v
                    if got <= 2:
                        # just beside the boundary
                        for e in (3e-7, -3e-7):
                            u = Valuation(v.seed, "generic", given, funs, domain)
                            r = v.given[s.name]
                            r = np.asarray(r) * (1 + e)
                            u.given[s.name] = r if r.ndim else float(r)
                            u.used[s.name] = r.tolist()
                            yield u
            if got >= 6:
                break


SCALES = (1e-3, 1e3, 1e-5, 1e5, 1e-7, 1e7)


def scales(a, b, seed, given, funs, domain):
    """valuations with far smaller and far larger numbers, if a comparison, a minimum or a maximum occurs in only one of the terms"""
    pick = lambda z: {x.key: x for x in t.all_atoms(z) if x.kind == "op" and x.name in ("lt0", "eq0", "min2", "max2")}
    ca, cb = pick(a), pick(b)
    diff = [x for k, x in sorted(ca.items()) if k not in cb] + [x for k, x in sorted(cb.items()) if k not in ca]
    names = sorted({x.name for c in diff[:12] for y in c.args for x in t.all_atoms(y) if x.kind == "sym" and not {"int", "bool"} & x.flags
                    and not x.name.startswith("$") and x.name != "pi" and x.shape is not None
                    and x.name not in (given or {}) and x.name not in (domain or {})})
    names += sorted({x.name for c in diff[:12] for y in c.args for x in t.all_atoms(y) if x.kind == "op" and x.name.startswith("u_")})
    for n in ([None] + names[:8] if diff else []):
        for i, k in enumerate(SCALES):
            v = Valuation(seed * 49979687 + i, "generic", given, funs, domain)
            v.scaled = {n: k}
            yield v
    # a small number added to something: with values of its size
    ca, cb = offsets(a), offsets(b)
    for k, z in sorted([x for x in ca.items() if x[0] not in cb] + [x for x in cb.items() if x[0] not in ca])[:6]:
        names = sorted({x.name for x in t.all_atoms(z[0]) if x.kind == "sym" and not {"int", "bool"} & x.flags and not x.name.startswith("$")
                        and x.name != "pi" and x.shape is not None and x.name not in (given or {}) and x.name not in (domain or {})})
        names += sorted({x.name for x in t.all_atoms(z[0]) if x.kind == "op" and x.name.startswith("u_")})
        for n in names[:6]:
            for i, e in enumerate((1, 0.5)):
                v = Valuation(seed * 32452843 + i, "generic", given, funs, domain)
                v.scaled = {n: 3 * z[1] ** e}
                yield v


def offsets(a):
    """sums in a term with a small constant: {key: (sum, constant)}"""
    out = {}
    for x in [a] + [y for z in t.all_atoms(a) for y in z.args if isinstance(y, t.Term)]:
        if x.kind == "poly" and len(x.poly) > 1:
            for m, c in x.poly:
                if not m and 0 < abs(complex(float(c[0]), float(c[1]))) < 1e-4:
                    out[str(x.key)] = (x, abs(complex(float(c[0]), float(c[1]))))
    return out


def thresholds(a, b, seed, given, funs, domain):
    """valuations on both sides of a comparison (or of a minimum or maximum) that occurs in only one of the terms, for each scalar
    symbol on which it depends linearly: reaches limits far away from the usual values, also of integers"""
    pick = lambda z: {x.key: x for x in t.all_atoms(z) if x.kind == "op" and x.name in ("lt0", "eq0", "min2", "max2")}
    ca, cb = pick(a), pick(b)
    diff = [x for k, x in sorted(ca.items()) if k not in cb] + [x for k, x in sorted(cb.items()) if k not in ca]
    for n, c in enumerate(diff[:12]):
        p = c.args[0] if c.name in ("lt0", "eq0") else t.sub(c.args[0], c.args[1])
        if _bound(c) or any(x.kind == "op" and x.name in ("loop", "sum_loop") for x in t.all_atoms(p)):
            continue
        syms = [x for x in t.all_atoms(p) if x.kind == "sym" and x.shape == () and ("real" in x.flags or "int" in x.flags) and "bool" not in x.flags
                and x.name not in (given or {}) and x.name not in (domain or {}) and x.name != "pi" and not x.name.startswith("$")]
        for s in sorted(syms, key=lambda x: x.name)[:6]:
            whole = "int" in s.flags
            r = []
            for x in (2.0, 3.0, 5.0):
                v = Valuation(seed * 6947 + n, "generic", given, funs, domain)
                v.given[s.name] = x
                try:
                    y = np.asarray(v.ev(p), dtype=complex)
                except (NoValue, ValueError, TypeError, OverflowError, IndexError, ZeroDivisionError, FloatingPointError):
                    break
                if y.shape != () or not np.isfinite(y) or y.imag != 0:
                    break
                r.append(float(y.real))
            if len(r) < 3:
                continue
            k = r[1] - r[0]
            if abs(r[2] - r[0] - 3 * k) > 1e-9 * (1 + max(map(abs, r))) or abs(k) < 1e-12:
                continue
            z = 2.0 - r[0] / k
            if not abs(z) < 1e7:
                continue
            used = any(s.name in {y.name for y in t.all_atoms(d) if y.kind == "sym"} for q in (a, b) for x in t.all_atoms(q) if x.shape for d in x.shape)
            if whole:
                zs = sorted({math.floor(z) - 1, math.floor(z), math.ceil(z), math.ceil(z) + 1})
                if used and max(map(abs, zs)) > 200:
                    continue
            else:
                zs = [z - 1 - abs(z) / 2, z - 0.25 - abs(z) / 64, z, z + 0.25 + abs(z) / 64, z + 1 + abs(z) / 2]
            for x in zs:
                if "pos" in s.flags and x <= 0 or "nonneg" in s.flags and x < 0:
                    continue
                dims = [y for q in (a, b) for z_ in t.all_atoms(q) if z_.shape for d in z_.shape for y in t.all_atoms(d) if y.kind == "sym"] if whole and abs(x) > CAP else ()
                for more in range(4 if dims else 1):
                    v = Valuation(seed * 6947 + n + 7919 * more, "generic", given, funs, domain)
                    v.given[s.name] = float(x)
                    v.used[s.name] = float(x)
                    if more:        # a far larger number of rounds shows in few elements only
                        for y in dims:
                            if y.name not in v.given and "int" in y.flags:
                                v.given[y.name] = 9 + _h(y.name) % 6
                    yield v


def solve(p, s, seed, given, funs, domain):
    """a valuation in which p = 0 (somewhere), found by the secant method in the symbol s"""
    base = Valuation(seed, "generic", given, funs, domain)

    def at(x):
        v = Valuation(seed, "generic", given, funs, domain)
        v.given[s.name] = x
        return np.real(np.asarray(v.ev(p), dtype=complex))
    try:
        x0 = np.asarray(base.at(s), dtype=float)
        ref = x0
        if x0.ndim:
            x0, ref = x0 + 0.0, x0
        f0 = at(x0)
        x1 = x0 + 0.1371
        f1 = at(x1)
        if f0.shape != x0.shape:
            if x0.ndim == 0 and f0.ndim:      # a scalar symbol in an array comparison: aim at one element
                j = tuple(_h(seed, i) % m for i, m in enumerate(f0.shape))
                full = at
                at = lambda x: full(x)[j]
                f0, f1 = f0[j], f1[j]
            elif f0.ndim == 0 and x0.ndim:
                return None
            else:
                f0, f1 = np.broadcast_to(f0, x0.shape), np.broadcast_to(f1, x0.shape)
        for _ in range(16):
            d = f1 - f0
            st = np.where(d == 0, 0.0, f1 * (x1 - x0) / np.where(d == 0, 1.0, d))
            x0, f0 = x1, f1
            x1 = x1 - np.clip(st, -3, 3)
            f1 = at(x1)
            if np.shape(f1) != np.shape(x1):
                f1 = np.broadcast_to(f1, np.shape(x1))
            if np.all(np.abs(f1) < 1e-14):
                break
        good = (np.abs(f1) < 2e-12) & np.isfinite(x1)
        if "pos" in s.flags:
            good &= x1 > 1e-3
        if "nonneg" in s.flags:
            good &= x1 >= 0
        if not np.any(good):
            return None
        r = np.where(good, x1, ref)
        # snap exact zeros
        r = np.where(np.abs(r) < 1e-13, 0.0, r)
        v = Valuation(seed, "generic", given, funs, domain)
        v.given[s.name] = r if r.ndim else float(r)
        v.used[s.name] = r.tolist()
        return v
    except (NoValue, ValueError, TypeError, OverflowError, IndexError, ZeroDivisionError, FloatingPointError):
        return None
