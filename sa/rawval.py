"""NaN and infinities of floating-point evaluation.

The normal form of a term cancels common factors, so x/x and 1 are the same term although x/x is not a number for x = 0.  Every
abstract number therefore also records the operation that produced it (Num.raw).  Here the recorded operations are carried out, with
the meaning that IEEE arithmetic gives them, on abstract values at valuations that make many symbols and differences of symbols vanish;
what is evaluated is the expression graph that the analysis has built, never the analysed program.
"""
import numpy as np
from . import terms as t
from .valuation import Valuation, NoValue, SIMPLE
from .lib_num import cls_of

RISK = {"Div", "Pow", "FloorDiv", "Mod", "sqrt", "rsqrt", "recip", "log", "log1p", "acos", "asin", "tan", "div_no_nan"}


def risky(n):
    """does the computation of n contain an operation that can yield NaN or an infinity?"""
    todo, seen = [n], set()
    while todo:
        x = todo.pop()
        if id(x) in seen or x.raw is None:
            continue
        seen.add(id(x))
        if len(seen) > 3000:
            return False
        op, args = x.raw
        if op in RISK and not (op in ("Div", "FloorDiv", "Mod") and nonzero(args[1])) and not (op == "Pow" and power(args[1])) \
                and not (op in ("sqrt", "rsqrt", "recip", "log") and t.const_val(args[0].term if args[0].term.kind == "poly" else t.ZERO)):
            return True
        todo.extend(args)
    return False


def nonzero(n):
    c = t.const_val(n.term) if n.term.kind == "poly" else None
    return bool(c)


def power(n):
    c = t.const_val(n.term) if n.term.kind == "poly" else None
    return c is not None and c.denominator == 1 and c >= 0


class Raw:
    def __init__(self, v):
        self.v = v
        self.memo = {}

    def value(self, n):
        r = self.memo.get(id(n))
        if r is None:
            if n.raw is None:
                r = self.leaf(n)
            else:
                op, args = n.raw
                r = OPS[op](*[self.value(x) for x in args]) if op != "cast" else self.value(args[0])
                r = typed(r, n.dtype)
            self.memo[id(n)] = r
        return r

    def leaf(self, n):
        x = np.asarray(self.v.ev(n.term))
        sh = tuple(self.v.dim(d) for d in n.shape)
        if x.shape != sh:
            x = np.broadcast_to(x, sh)
        return typed(x, n.dtype, True)


def typed(x, dtype, strict=False):
    x = np.asarray(x)
    c = cls_of(dtype) if dtype else "float"
    if c == "bool":
        return x.astype(bool)
    if c == "complex":
        return x.astype(complex)
    if np.iscomplexobj(x):
        if strict and np.any(np.abs(x.imag) > 1e-9 * (1 + np.abs(x.real))):
            raise NoValue("outside the real numbers")
        x = x.real
    if c == "int":
        if not np.all(np.isfinite(x)):
            raise NoValue("no integer")
        return np.trunc(x.astype(float)) if not strict else np.round(x.astype(float))
    return x.astype(float)


def _edge(f, lo=None, hi=None):
    """a function of the numbers between lo and hi; rounding errors beyond the ends are forgiven"""
    def g(x):
        x = np.asarray(x)
        if not np.iscomplexobj(x):
            if lo is not None:
                x = np.where((x < lo) & (x > lo - 1e-9), lo, x)
            if hi is not None:
                x = np.where((x > hi) & (x < hi + 1e-9), hi, x)
        return f(x)
    return g


def _pow(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype == bool:
        a = a.astype(float)
    return np.power(a, b)


def _num(f):
    return lambda *xs: f(*[np.asarray(x) + 0 if np.asarray(x).dtype != bool else np.asarray(x).astype(float) for x in xs])


def _bits(f):
    def g(a, b):
        if np.asarray(a).dtype != bool or np.asarray(b).dtype != bool:
            raise NoValue("bit operation on integers")
        return f(a, b)
    return g


sqrt = _edge(np.sqrt, 0.0)
OPS = {
    "Add": _num(np.add), "Sub": _num(np.subtract), "Mult": _num(np.multiply), "Div": _num(np.divide), "Pow": _pow,
    "USub": _num(np.negative), "UAdd": lambda x: x, "Not": np.logical_not, "Invert": np.logical_not,
    "Eq": np.equal, "NotEq": np.not_equal, "Lt": np.less, "LtE": np.less_equal, "Gt": np.greater, "GtE": np.greater_equal,
    "and": np.logical_and, "or": np.logical_or, "xor": np.logical_xor, "not": np.logical_not,
    "BitAnd": _bits(np.logical_and), "BitOr": _bits(np.logical_or), "BitXor": _bits(np.logical_xor),
    "max2": np.maximum, "min2": np.minimum, "atan2": np.arctan2, "hypot": np.hypot,
    "div_no_nan": lambda a, b: np.where(b == 0, 0.0, a / np.where(b == 0, 1.0, b)), "mul_no_nan": lambda a, b: np.where(b == 0, 0.0, a * b),
    "sqdiff": lambda a, b: (a - b) ** 2, "where": np.where, "complex": lambda a, b: a + 0j + 1j * b,
    "sqrt": sqrt, "square": lambda x: x * x, "neg": np.negative, "recip": lambda x: 1.0 / x, "rsqrt": lambda x: 1.0 / sqrt(x),
    "ceil": np.ceil, "trunc": np.trunc, "floor": np.floor, "round": np.round, "radians": np.radians, "degrees": np.degrees,
    "expm1": np.expm1, "log1p": np.log1p, "id": lambda x: x, "sigmoid": lambda x: 1 / (1 + np.exp(-x)), "is_nan": np.isnan,
    "cos": np.cos, "sin": np.sin, "tan": np.tan, "exp": np.exp, "log": np.log, "tanh": np.tanh, "sinh": np.sinh, "cosh": np.cosh,
    "acos": _edge(np.arccos, -1.0, 1.0), "asin": _edge(np.arcsin, -1.0, 1.0), "atan": np.arctan, "abs": np.abs, "sign": np.sign,
    "real": np.real, "imag": np.imag, "conj": np.conj, "angle": np.angle,
    "FloorDiv": np.floor_divide, "Mod": np.mod,
}


def finite(n, spec, cond=None, domain=None, seed=1, trials=16):
    """None, or (valuation, value) at which evaluating n step by step gives NaN or an infinity although the reference spec is finite"""
    if n.shape is None or n.sel is not None or n.raw is None or cls_of(n.dtype) not in ("float", "complex") or not risky(n):
        return None
    real = cls_of(n.dtype) == "float"
    tried = 0
    for k in range(trials * 3):
        v = Valuation(seed * 32452843 + k, "zeros" if k % 4 else "dyadic", domain=domain)
        with np.errstate(all="ignore"):
            try:
                if cond is not None and not np.all(v.ev(cond)):
                    continue
                y = np.asarray(v.ev(spec))
                if v.large:
                    return None
                ok = np.isfinite(y)
                if real and np.iscomplexobj(y):
                    ok &= np.abs(y.imag) <= 1e-9
                if not np.any(ok):
                    continue
                x = Raw(v).value(n)
                tried += 1
                ok, x, _ = np.broadcast_arrays(ok, x, y)
                if not v.odd and np.any(ok & ~np.isfinite(x)):
                    i = tuple(int(j[0]) for j in np.nonzero(ok & ~np.isfinite(x)))
                    return v, x[i]
            except (NoValue, KeyError, ValueError, TypeError, OverflowError, IndexError, ZeroDivisionError, FloatingPointError, RecursionError):
                continue
        if tried >= trials:
            break
    return None
