"""Normal forms for the values computed by the analysed program (value-numbering domain).

A *term* denotes the value of an expression, element by element for arrays.  Terms are
hash-consed, so that two expressions with the same normal form are the same object:

  Term  ::=  ite(cond-atom, Term, Term) | Poly | TRUE | FALSE
  Poly  ::=  sum of  coefficient * product(atom ** exponent)      (Gaussian-rational coefficients)
  Atom  ::=  symbol | op(name; terms; attributes)

Decision nodes are ordered (a multi-terminal BDD), polynomials are expanded, so algebraically
equal code (reordered, factored, split into helpers, ...) gets the same normal form.  Nothing here
executes analysed code or calls a solver.
"""
import hashlib
import math
import sys
from fractions import Fraction as Fr

sys.setrecursionlimit(20000)

_atoms = {}
_terms = {}


def _dig(s):
    return hashlib.sha1(s.encode()).hexdigest()


class Atom:
    __slots__ = ("kind", "name", "args", "attrs", "shape", "flags", "key", "__weakref__")

    def __repr__(self):
        return show_atom(self)


class Term:
    __slots__ = ("kind", "poly", "cond", "a", "b", "key", "__weakref__")

    def __repr__(self):
        return show(self)

    # operator sugar, used by the reference formulas in the checks
    def __add__(self, o): return add(self, T(o))
    def __radd__(self, o): return add(T(o), self)
    def __sub__(self, o): return sub(self, T(o))
    def __rsub__(self, o): return sub(T(o), self)
    def __mul__(self, o): return mul(self, T(o))
    def __rmul__(self, o): return mul(T(o), self)
    def __truediv__(self, o): return div(self, T(o))
    def __rtruediv__(self, o): return div(T(o), self)
    def __pow__(self, o): return power(self, T(o))
    def __neg__(self): return neg(self)
    def __lt__(self, o): return lt(self, T(o))
    def __le__(self, o): return le(self, T(o))
    def __gt__(self, o): return lt(T(o), self)
    def __ge__(self, o): return le(T(o), self)


# --------------------------------------------------------------------------------------- atoms
def _akey(a):
    return a.key


def atom(kind, name, args=(), attrs=(), shape=(), flags=frozenset()):
    # shape/flags are derived data, except for symbols
    ks = "%s|%s|%s|%s" % (kind, name, ",".join(x.key if isinstance(x, (Term, Atom)) else repr(x) for x in args),
                          _attr_key(attrs))
    k = _dig(ks)
    key = (name, k)
    r = _atoms.get(key)
    if r is None:
        r = Atom()
        r.kind, r.name, r.args, r.attrs = kind, name, tuple(args), attrs
        r.shape, r.flags, r.key = shape, frozenset(flags), "%s~%s" % (name, k)
        _atoms[key] = r
    return r


def _attr_key(x):
    if isinstance(x, (Term, Atom)):
        return x.key
    if isinstance(x, (tuple, list)):
        return "(" + ",".join(_attr_key(i) for i in x) + ")"
    return repr(x)


def sym(name, shape=(), *flags):
    f = set(flags)
    if f & {"int", "pos", "nonneg"}:
        f.add("real")
    if "pos" in f:
        f.add("nonneg")
    return from_atom(atom("sym", name, (), tuple(sorted(f)), shape, f))


def opaque(name, args=(), attrs=(), shape=(), *flags):
    """Uninterpreted operation as a term."""
    f = set(flags)
    if f & {"int", "pos", "nonneg"}:
        f.add("real")
    if "pos" in f:
        f.add("nonneg")
    return from_atom(atom("op", name, args, attrs, shape, f))


def bool_atom(name, args=(), attrs=(), shape=()):
    return mk_ite(atom("op", name, args, attrs, shape, {"bool", "real"}), TRUE, FALSE)


# --------------------------------------------------------------------------------------- polys
# poly: tuple of (monomial, (re, im)) sorted by monomial key; monomial: tuple of (atom, exponent)
def _expkey(e):
    return e.key if isinstance(e, Term) else str(e)


def _mkey(m):
    return "*".join("%s^%s" % (a.key, _expkey(e)) for a, e in m)


def mk_poly(d):
    items = [(m, c) for m, c in d.items() if c[0] != 0 or c[1] != 0]
    items.sort(key=lambda t: (len(t[0]), _mkey(t[0])))
    p = tuple(items)
    k = "P" + _dig(";".join("%s:%s,%s" % (_mkey(m), c[0], c[1]) for m, c in p))
    r = _terms.get(k)
    if r is None:
        r = Term()
        r.kind, r.poly, r.cond, r.a, r.b, r.key = "poly", p, None, None, None, k
        _terms[k] = r
    return r


def _mkbool(v):
    r = Term()
    r.kind, r.poly, r.cond, r.a, r.b, r.key = "bool", v, None, None, None, "B%s" % v
    return r


TRUE = _mkbool(True)
FALSE = _mkbool(False)


def from_atom(a):
    if "bool" in a.flags:
        return mk_ite(a, TRUE, FALSE)
    return mk_poly({((a, Fr(1)),): (Fr(1), Fr(0))})


def num(v, im=0):
    return mk_poly({(): (Fr(v), Fr(im))})


ZERO, ONE, TWO = num(0), num(1), num(2)
I = num(0, 1)
HALF = num(Fr(1, 2))
PI = sym("pi", (), "pos")


def _fr(x):
    if isinstance(x, Fr):
        return x
    if isinstance(x, int):
        return Fr(x)
    return Fr(repr(x))


def T(v):
    """Python constant -> term."""
    if isinstance(v, Term):
        return v
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, (int, Fr)):
        return num(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return opaque("const", (), (repr(v),), (), "real")
        for k in (1, 2, 0.5, 0.25, -1, -2):
            if abs(v - k * math.pi) < 1e-12:
                return mul(num(_fr(float(k))), PI)
        return num(_fr(v))
    if isinstance(v, complex):
        return mk_poly({(): (_fr(v.real), _fr(v.imag))})
    raise TypeError(v)


def is_leaf(t):
    return t.kind != "ite"


def is_const(t):
    return t.kind == "poly" and (not t.poly or (len(t.poly) == 1 and t.poly[0][0] == ()))


def const_val(t):
    """Fraction (real constants only) or None."""
    if t.kind == "bool":
        return Fr(int(t.poly))
    if not is_const(t):
        return None
    if not t.poly:
        return Fr(0)
    c = t.poly[0][1]
    return c[0] if c[1] == 0 else None


# ----------------------------------------------------------------------------- decision diagrams
def mk_ite(c, a, b):
    if a is b:
        return a
    k = "I" + _dig("%s?%s:%s" % (c.key, a.key, b.key))
    r = _terms.get(k)
    if r is None:
        r = Term()
        r.kind, r.poly, r.cond, r.a, r.b, r.key = "ite", None, c, a, b, k
        _terms[k] = r
    return r


def _cof(t, c, v):
    if t.kind == "ite" and t.cond is c:
        return t.a if v else t.b
    return t


def lift(f, *ts, memo=None):
    if memo is None:
        memo = {}
    k = tuple(t.key for t in ts)
    if k in memo:
        return memo[k]
    conds = [t.cond for t in ts if t.kind == "ite"]
    if not conds:
        r = f(*ts)
    else:
        c = min(conds, key=_akey)
        x = lift(f, *[_cof(t, c, True) for t in ts], memo=memo)
        y = lift(f, *[_cof(t, c, False) for t in ts], memo=memo)
        r = x if x is y else _ite_norm(c, x, y)
    memo[k] = r
    return r


def _ite_norm(c, x, y):
    """ite(c, x, y) where x, y may contain conditions ordered before c."""
    if x is y:
        return x
    tops = [t.cond for t in (x, y) if t.kind == "ite" and t.cond is not c]
    if not tops:
        return mk_ite(c, _cof(x, c, True), _cof(y, c, False))
    m = min(tops, key=_akey)
    if c.key < m.key:
        return mk_ite(c, _cof(x, c, True), _cof(y, c, False))
    hi = _ite_norm(c, _cof(x, m, True), _cof(y, m, True))
    lo = _ite_norm(c, _cof(x, m, False), _cof(y, m, False))
    return mk_ite(m, hi, lo)


def as_num(t):
    if t.kind == "bool":
        return ONE if t.poly else ZERO
    if t.kind == "ite":
        return lift(as_num, t)
    return t


def ite(c, a, b):
    c = as_bool(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if not (_boolish(a) and _boolish(b)):
        a, b = as_num(a), as_num(b)

    def f(cc, aa, bb):
        return aa if cc is TRUE else bb
    # short-circuit lifting keeps the untaken branch out of the diagram
    memo = {}

    def go(cc, aa, bb):
        if cc is TRUE:
            return aa
        if cc is FALSE:
            return bb
        if aa is bb:
            return aa
        k = (cc.key, aa.key, bb.key)
        if k in memo:
            return memo[k]
        m = min([t.cond for t in (cc, aa, bb) if t.kind == "ite"], key=_akey)
        x = go(*[_cof(t, m, True) for t in (cc, aa, bb)])
        y = go(*[_cof(t, m, False) for t in (cc, aa, bb)])
        r = x if x is y else mk_ite(m, x, y)
        memo[k] = r
        return r
    return go(c, a, b)


def _boolish(t):
    if t.kind == "bool":
        return True
    if t.kind == "poly":
        return False
    return _boolish(t.a) and _boolish(t.b)


def as_bool(t):
    if _boolish(t):
        return t
    return lnot(eq(t, ZERO))


def lnot(t):
    t = as_bool(t)
    return lift(lambda x: FALSE if x is TRUE else TRUE, t)


def land(a, b):
    a, b = as_bool(a), as_bool(b)
    return ite(a, b, FALSE)


def lor(a, b):
    a, b = as_bool(a), as_bool(b)
    return ite(a, TRUE, b)


# ------------------------------------------------------------------------------ poly arithmetic
def _cadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


def _cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def add(a, b):
    return lift(_add, as_num(a), as_num(b))


def _add(a, b):
    d = dict(a.poly)
    for m, c in b.poly:
        d[m] = _cadd(d.get(m, (Fr(0), Fr(0))), c)
    return mk_poly(d)


def neg(a):
    return lift(lambda t: _scale(t, (Fr(-1), Fr(0))), as_num(a))


def _scale(t, c):
    return mk_poly({m: _cmul(k, c) for m, k in t.poly})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    return lift(_mul, as_num(a), as_num(b))


_mulmemo = {}


def _mul(a, b):
    if a.key > b.key:
        a, b = b, a
    k = (a.key, b.key)
    r = _mulmemo.get(k)
    if r is not None:
        return r
    d = {}
    for m1, c1 in a.poly:
        for m2, c2 in b.poly:
            c = _cmul(c1, c2)
            for m, cm in _mono_mul(m1, m2):
                d[m] = _cadd(d.get(m, (Fr(0), Fr(0))), _cmul(c, cm))
    r = mk_poly(d)
    _mulmemo[k] = r
    return r


def _eadd(e1, e2):
    if isinstance(e1, Fr) and isinstance(e2, Fr):
        return e1 + e2
    s = add(e1 if isinstance(e1, Term) else num(e1), e2 if isinstance(e2, Term) else num(e2))
    v = const_val(s)
    return v if v is not None else s


def _emul(e1, e2):
    if isinstance(e1, Fr) and isinstance(e2, Fr):
        return e1 * e2
    s = mul(e1 if isinstance(e1, Term) else num(e1), e2 if isinstance(e2, Term) else num(e2))
    v = const_val(s)
    return v if v is not None else s


def _mono_mul(m1, m2):
    if not m1:
        return ((m2, (Fr(1), Fr(0))),)
    if not m2:
        return ((m1, (Fr(1), Fr(0))),)
    d = {}
    for a, e in m1 + m2:
        d[a] = _eadd(d[a], e) if a in d else e
    return _mono_norm(d)


def _int(e):
    return isinstance(e, Fr) and e.denominator == 1


def _expandable(b, e):
    """is the power e of b multiplied out?"""
    return e <= 8 or (e <= 40 and math.comb(int(e) + len(b.poly) - 1, int(e)) <= 400)


def _mono_norm(d):
    """dict atom->exponent to a list of (monomial, coef) pairs."""
    coef = (Fr(1), Fr(0))
    out = {}
    expand = []
    exps = None
    pads = {}
    for a, e in d.items():
        if isinstance(e, Fr) and e == 0:
            continue
        if a.kind == "prime" and isinstance(e, Fr):
            k = math.floor(e)
            if k:
                coef = _cmul(coef, (Fr(a.attrs[0]) ** k, Fr(0)))
                e = e - k
            if e == 0:
                continue
        elif a.name == "exp" and a.kind == "op":
            t = mul(a.args[0], e if isinstance(e, Term) else num(e))
            exps = t if exps is None else add(exps, t)
            continue
        elif a.name == "abs" and a.kind == "op" and _int(e) and e % 2 == 0:
            z = a.args[0]
            sq = power(z, TWO) if is_real(z) else add(power(fun("real", z), TWO), power(fun("imag", z), TWO))
            expand.append(power(sq, num(e / 2)))
            continue
        elif a.kind == "sum" and _int(e) and e > 0 and _expandable(a.args[0], e):
            expand.append(power(a.args[0], num(e)))
            continue
        elif a.name == "pad" and a.kind == "op" and _int(e) and e > 0:
            pads.setdefault(a.attrs, []).append((a, e))
            continue
        out[a] = e
    for at, lst in pads.items():
        if len(lst) == 1 and lst[0][1] == 1:
            out[lst[0][0]] = Fr(1)
        else:
            p = ONE
            for a, e in lst:
                p = mul(p, power(a.args[0], num(e)))
            expand.append(pad(p, at[0], lst[0][0].shape))
    if exps is not None:
        t = fun("exp", exps)
        if t.kind == "poly" and len(t.poly) == 1 and t.poly[0][1] == (Fr(1), Fr(0)):
            for a, e in t.poly[0][0]:
                out[a] = _eadd(out[a], e) if a in out else e
        else:
            expand.append(t)
    m = tuple(sorted(out.items(), key=lambda t: t[0].key))
    if not expand:
        return ((m, coef),)
    r = mk_poly({m: coef})
    for x in expand:
        if x.kind != "poly":
            raise ValueError("conditional factor")
        r = _mul(r, x)
    return r.poly


def div(a, b):
    return mul(a, power(b, num(-1)))


def _prime(p):
    return atom("prime", "%03d" % p, (), (p,), (), {"real", "pos", "nonneg"})


def _factor(n):
    r, p = {}, 2
    while p * p <= n:
        while n % p == 0:
            r[p] = r.get(p, 0) + 1
            n //= p
        p += 1
        if p > 100000:
            break
    if n > 1:
        r[n] = r.get(n, 0) + 1
    return r


def power(b, e):
    b, e = as_num(b), as_num(e)
    return lift(_power, b, e)


_powmemo = {}


def _power(b, e):
    k = (b.key, e.key)
    r = _powmemo.get(k)
    if r is None:
        r = _power0(b, e)
        _powmemo[k] = r
    return r


def atom_nonneg(a):
    return "nonneg" in a.flags or "pos" in a.flags


def _even(e):
    return _int(e) and e % 2 == 0


def mono_nonneg(m):
    return all(atom_nonneg(a) or (_even(e) and "real" in a.flags) or (isinstance(e, Term) and atom_nonneg(a))
               or (isinstance(e, Fr) and e.denominator % 2 == 0) for a, e in m)


def _power0(b, e):
    ev = const_val(e)
    if ev is not None:
        if ev == 0:
            return ONE
        if ev == 1:
            return b
    if not b.poly:
        if ev is not None and ev > 0:
            return ZERO
        return opaque("pow", (b, e), (), ())
    if is_const(b):
        c = b.poly[0][1]
        if ev is not None and ev.denominator == 1:
            n = abs(int(ev))
            r = (Fr(1), Fr(0))
            for _ in range(n):
                r = _cmul(r, c)
            if ev < 0:
                m2 = r[0] ** 2 + r[1] ** 2
                r = (r[0] / m2, -r[1] / m2)
            return mk_poly({(): r})
        if c[1] == 0 and c[0] > 0 and ev is not None:
            d = {}
            for p, k in _factor(c[0].numerator).items():
                d[_prime(p)] = Fr(k) * ev
            for p, k in _factor(c[0].denominator).items():
                d[_prime(p)] = d.get(_prime(p), Fr(0)) - Fr(k) * ev
            return mk_poly(dict(_mono_norm(d)))
        if c == (Fr(1), Fr(0)):
            return ONE
        if ev is not None or not (c[1] == 0 and c[0] > 0):
            return opaque("pow", (b, e), (), ())
        return fun("exp", mul(e, fun("log", b)))
    ee = ev if ev is not None else e
    if len(b.poly) == 1:
        m, c = b.poly[0]
        if _int(ee):
            cf = _power(mk_poly({(): c}), e)
            d = {}
            for a, x in m:
                d[a] = _emul(x, ee)
            return _mul(cf, mk_poly(dict(_mono_norm(d))))
        # fractional or symbolic exponent
        keep, d = {}, {}
        sgn = ONE
        for a, x in m:
            if atom_nonneg(a) or (isinstance(x, Fr) and x.denominator % 2 == 0):
                d[a] = _emul(x, ee)
            elif _even(x) and "real" in a.flags and isinstance(ee, Fr):
                t = fun("abs", from_atom(a))
                sgn = mul(sgn, power(t, num(x * ee)))
            else:
                keep[a] = x
        cf = ONE
        cc = c
        if c[1] == 0 and isinstance(ee, Fr):
            if c[0] > 0:
                cf, cc = _power(num(c[0]), e), (Fr(1), Fr(0))
            elif keep:
                cf, cc = _power(num(-c[0]), e), (Fr(-1), Fr(0))
        if not keep and cc == (Fr(1), Fr(0)):
            r = mul(cf, mk_poly(dict(_mono_norm(d))))
            return mul(r, sgn)
        if not isinstance(ee, Fr):
            cc = c
        base = mk_poly({tuple(sorted(keep.items(), key=lambda t: t[0].key)): cc})
        r = mul(mul(cf, mk_poly(dict(_mono_norm(d)))), sgn)
        return mul(r, _sumpow(base, ee))
    # several monomials
    if _int(ee) and ee > 0 and _expandable(b, ee):
        r = b
        for _ in range(int(ee) - 1):
            r = _mul(r, b)
        return r
    lead = b.poly[-1][1]
    if isinstance(ee, Fr):
        if _int(ee):
            cont = lead
        else:
            cont = (abs(lead[0]), Fr(0)) if lead[0] != 0 else (abs(lead[1]), Fr(0))
        cf = _power(mk_poly({(): cont}), e)
        m2 = cont[0] ** 2 + cont[1] ** 2
        prim = _scale(b, (cont[0] / m2, -cont[1] / m2))
        # common monomial
        com = _common(prim)
        com = {a: x for a, x in com.items() if _int(ee) or atom_nonneg(a)}
        if com:
            inv = mk_poly(dict(_mono_norm({a: -x for a, x in com.items()})))
            prim = _mul(prim, inv)
            cf = mul(cf, mk_poly(dict(_mono_norm({a: x * ee for a, x in com.items()}))))
        if is_const(prim) or len(prim.poly) == 1:
            return mul(cf, _power(prim, e))
        return mul(cf, _sumpow(prim, ee))
    return _sumpow(b, ee)


def _common(p):
    """common monomial factor (Fraction exponents) of a poly"""
    com = None
    for m, _ in p.poly:
        d = {a: x for a, x in m if isinstance(x, Fr)}
        if com is None:
            com = d
        else:
            r = {}
            for a in set(com) | set(d):
                x = min(com.get(a, Fr(0)), d.get(a, Fr(0)))
                if x != 0:
                    r[a] = x
            com = r
        if not com:
            return {}
    return com or {}


def _sumpow(base, ee):
    fl = set()
    if is_real(base):
        fl.add("real")
        if poly_nonneg(base):
            fl.add("nonneg")
    a = atom("sum", "sum", (base,), (), shape_of(base), fl)
    return mk_poly({((a, ee),): (Fr(1), Fr(0))})


def sqrt(t):
    return power(t, HALF)


# ------------------------------------------------------------------------------------ predicates
def atom_real(a):
    return "real" in a.flags or "bool" in a.flags


def is_real(t):
    if t.kind == "ite":
        return is_real(t.a) and is_real(t.b)
    if t.kind == "bool":
        return True
    return all(c[1] == 0 and all(atom_real(a) for a, e in m) for m, c in t.poly)


def is_int(t):
    if t.kind == "ite":
        return is_int(t.a) and is_int(t.b)
    if t.kind == "bool":
        return True
    return all(c[1] == 0 and c[0].denominator == 1 and all("int" in a.flags and _int(e) and e > 0 for a, e in m)
               for m, c in t.poly)


def poly_nonneg(t):
    if t.kind == "bool":
        return True
    if t.kind == "ite":
        return poly_nonneg(t.a) and poly_nonneg(t.b)
    if all(c[1] == 0 and c[0] >= 0 and mono_nonneg(m) for m, c in t.poly):
        return True
    return _is_square_sum(t)


_sqmemo = {}


def _is_square_sum(t):
    """(a-b)^2 + (c-d)^2 + ... in expanded form: recognised through its completed squares."""
    r = _sqmemo.get(t.key)
    if r is not None:
        return r
    _sqmemo[t.key] = False
    squares, rest = {}, {}
    ok = True
    for m, c in t.poly:
        if c[1] != 0 or any(not atom_real(a) or not isinstance(e, Fr) for a, e in m):
            ok = False
            break
        if all(_even(e) for a, e in m):
            if c[0] < 0:
                ok = False
                break
            squares[tuple((a, e / 2) for a, e in m)] = c[0]
        else:
            rest[m] = c[0]
    if ok:
        # every cross term 2ab must be covered by squares a^2, b^2 not used before
        used = set()
        for m, c in rest.items():
            found = False
            ks = [k for k in squares if k not in used]
            for i in range(len(ks)):
                for j in range(i + 1, len(ks)):
                    pr = _mono_mul(ks[i], ks[j])
                    if len(pr) == 1 and pr[0][0] == m and c * c <= 4 * squares[ks[i]] * squares[ks[j]]:
                        used.add(ks[i])
                        used.add(ks[j])
                        found = True
                        break
                if found:
                    break
            if not found:
                ok = False
                break
    _sqmemo[t.key] = ok
    return ok


def poly_pos(t):
    if t.kind != "poly" or not t.poly:
        return False
    return all(c[1] == 0 and c[0] > 0 and mono_nonneg(m) for m, c in t.poly) and \
        any(all("pos" in a.flags for a, e in m) for m, c in t.poly)


def atoms_of(t, acc=None):
    """direct atoms (not below ops)"""
    acc = set() if acc is None else acc
    if t.kind == "ite":
        acc.add(t.cond)
        atoms_of(t.a, acc)
        atoms_of(t.b, acc)
    elif t.kind == "poly":
        for m, c in t.poly:
            for a, e in m:
                acc.add(a)
                if isinstance(e, Term):
                    atoms_of(e, acc)
    return acc


def all_atoms(t, acc=None):
    """all atoms, recursively"""
    acc = {} if acc is None else acc
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, Term):
            stack.extend(atoms_of(x))
        elif isinstance(x, Atom):
            if x.key in acc:
                continue
            acc[x.key] = x
            stack.extend(_flat(x.args))
            stack.extend(_flat(x.attrs))
    return acc.values()


def _flat(x):
    if isinstance(x, (tuple, list)):
        for i in x:
            yield from _flat(i)
    elif isinstance(x, (Term, Atom)):
        yield x


def symbols(t):
    return {a.name for a in all_atoms(t) if a.kind == "sym"}


def size_of(t):
    return sum(1 for _ in all_atoms(t))


# ---------------------------------------------------------------------------------------- shapes
def bshape(*shapes):
    """broadcast of shapes (tuples of terms or None)"""
    out = []
    for s in shapes:
        if s is None:
            return None
        n = max(len(out), len(s))
        o = [ONE] * (n - len(out)) + list(out)
        s = [ONE] * (n - len(s)) + list(s)
        out = [x if y is ONE else y for x, y in zip(o, s)]
    return tuple(out)


def shape_of(t):
    r = ()
    for a in atoms_of(t):
        if a.shape is None:
            return None
        r = bshape(r, a.shape)
    return r


def is_scalar(t):
    return shape_of(t) == ()


def size(shape):
    r = ONE
    for d in shape:
        r = mul(r, d)
    return r


# ------------------------------------------------------------------------------ pointwise functions
POINTWISE = {"cos", "sin", "tan", "exp", "log", "tanh", "acos", "asin", "atan", "atan2", "abs", "sign", "real", "imag",
             "conj", "angle", "floor", "max2", "min2", "lt0", "eq0", "pow", "sinh", "cosh", "truth", "div0", "round",
             "is_nan"}
ODD = {"sin", "tan", "tanh", "asin", "atan", "sinh", "sign"}
EVEN = {"cos", "cosh"}


def fun(name, *args):
    args = [as_num(a) for a in args]
    f = _FUNS.get(name)
    if f is None:
        def f(*xs):
            return _mkfun(name, *xs)
    return lift(f, *args)


def _mkfun(name, *xs):
    sh = bshape(*[shape_of(x) for x in xs])
    fl = set()
    if all(is_real(x) for x in xs) and name not in ("pow",):
        fl.add("real")
    if name in ("abs", "real", "imag", "angle", "floor", "atan2", "sign"):
        fl.add("real")
    if name == "abs":
        fl.add("nonneg")
        if all(is_int(x) for x in xs):
            fl.add("int")
    if name in ("floor", "sign"):
        fl.add("int")
    if name == "floor" and all(poly_nonneg(x) for x in xs):
        fl.add("nonneg")
    if name == "exp" and "real" in fl:
        fl |= {"nonneg", "pos"}
    if name == "acos":
        fl.add("nonneg")
    if name in ("cosh",):
        fl |= {"pos", "nonneg"}
    return from_atom(atom("op", name, xs, (), sh, fl))


def _leadneg(t):
    """canonical sign: is the leading coefficient negative?"""
    if not t.poly:
        return False
    c = t.poly[-1][1]
    return c[0] < 0 or (c[0] == 0 and c[1] < 0)


def _odd(name):
    def f(x):
        if not x.poly:
            return ZERO
        if _leadneg(x):
            return neg(_mkfun(name, neg(x)))
        return _mkfun(name, x)
    return f


def _evenf(name):
    def f(x):
        if not x.poly:
            return ONE
        if _leadneg(x):
            x = neg(x)
        return _mkfun(name, x)
    return f


def _exp(x):
    if not x.poly:
        return ONE
    # exp(log y + z) = y * exp(z)
    if len(x.poly) == 1:
        m, c = x.poly[0]
        if len(m) == 1 and m[0][0].name == "log" and m[0][1] == 1 and c == (Fr(1), Fr(0)):
            return m[0][0].args[0]
    # i*pi multiples
    pa = PI.poly[0][0]
    if len(x.poly) == 1 and x.poly[0][0] == pa and x.poly[0][1][0] == 0:
        k = x.poly[0][1][1]
        if k.denominator in (1, 2):
            q = int(k * 2) % 4
            return [ONE, I, num(-1), neg(I)][q]
    return _mkfun("exp", x)


def _log(x):
    if x is ONE:
        return ZERO
    if len(x.poly) == 1 and x.poly[0][1] == (Fr(1), Fr(0)):
        m = x.poly[0][0]
        if len(m) == 1 and m[0][0].name == "exp" and m[0][1] == 1 and is_real(m[0][0].args[0]):
            return m[0][0].args[0]
    return _mkfun("log", x)


def _split_real(m):
    r, z = [], []
    for a, e in m:
        (r if atom_real(a) else z).append((a, e))
    return tuple(r), tuple(z)


def _reim(which):
    def f(x):
        out = ZERO
        for m, c in x.poly:
            r, z = _split_real(m)
            R = mk_poly({r: (Fr(1), Fr(0))})
            if not z:
                out = add(out, mul(R, num(c[0] if which == "real" else c[1])))
                continue
            rz, iz = _reimz(z)
            if which == "real":
                v = sub(mul(num(c[0]), rz), mul(num(c[1]), iz))
            else:
                v = add(mul(num(c[0]), iz), mul(num(c[1]), rz))
            out = add(out, mul(R, v))
        return out
    return f


def _reimz(z):
    if len(z) == 1 and z[0][0].name == "exp" and z[0][1] == 1:
        t = z[0][0].args[0]
        re, im = fun("real", t), fun("imag", t)
        e = fun("exp", re)
        return mul(e, fun("cos", im)), mul(e, fun("sin", im))
    if len(z) == 1 and z[0][0].name == "conj" and z[0][1] == 1:
        w = z[0][0].args[0]
        return fun("real", w), neg(fun("imag", w))
    if len(z) == 1 and z[0][1] == 2:
        re, im = _reimz(((z[0][0], Fr(1)),))
        return sub(mul(re, re), mul(im, im)), mul(TWO, mul(re, im))
    t = mk_poly({z: (Fr(1), Fr(0))})
    return _mkfun("real", t), _mkfun("imag", t)


def _conj(x):
    out = ZERO
    for m, c in x.poly:
        r, z = _split_real(m)
        t = mk_poly({r: (c[0], -c[1])})
        for a, e in z:
            if a.name == "conj":
                b = a.args[0]
            elif a.name == "exp":
                b = fun("exp", fun("conj", a.args[0]))
            elif a.kind == "sum":
                b = fun("conj", a.args[0])
            else:
                b = _mkfun("conj", from_atom(a))
            t = mul(t, power(b, e if isinstance(e, Term) else num(e)))
        out = add(out, t)
    return out


def _abs(x):
    if not x.poly:
        return ZERO
    if len(x.poly) == 1:
        m, c = x.poly[0]
        if c[1] == 0:
            r = num(abs(c[0]))
        elif c[0] == 0:
            r = num(abs(c[1]))
        else:
            r = sqrt(num(c[0] ** 2 + c[1] ** 2))
        rest = {}
        for a, e in m:
            if isinstance(e, Term):
                if atom_nonneg(a):
                    r = mul(r, mk_poly({((a, e),): (Fr(1), Fr(0))}))
                else:
                    rest[a] = e
            elif atom_nonneg(a) or (atom_real(a) and _even(e)):
                r = mul(r, mk_poly({((a, e),): (Fr(1), Fr(0))}))
            elif a.name == "exp":
                r = mul(r, fun("exp", mul(num(e), fun("real", a.args[0]))))
            elif a.name == "conj":
                r = mul(r, power(fun("abs", a.args[0]), num(e)))
            elif _int(e):
                r = mul(r, power(_mkfun("abs", from_atom(a)) if a.kind != "sum" else fun("abs", a.args[0]), num(e)))
            else:
                rest[a] = e
        if rest:
            r = mul(r, _mkfun("abs", mk_poly({tuple(sorted(rest.items(), key=lambda t: t[0].key)): (Fr(1), Fr(0))})))
        return r
    if is_real(x) and poly_nonneg(x):
        return x
    # content
    com = {a: e for a, e in _common(x).items()}
    if com:
        inv = mk_poly(dict(_mono_norm({a: -e for a, e in com.items()})))
        return mul(fun("abs", mk_poly(dict(_mono_norm(com)))), fun("abs", _mul(x, inv)))
    c = x.poly[-1][1]
    if c[1] == 0:
        k = abs(c[0])
    elif c[0] == 0:
        k = abs(c[1])
    else:
        k = Fr(1)
    if _leadneg(x):
        x = neg(x)
    if k != 1:
        return mul(num(k), _mkfun("abs", _scale(x, (1 / k, Fr(0)))))
    return _mkfun("abs", x)


def _angle(x):
    if not x.poly:
        return ZERO
    if is_real(x) and poly_nonneg(x):
        return ZERO
    com = {a: e for a, e in _common(x).items() if "pos" in a.flags}
    if com:
        x = _mul(x, mk_poly(dict(_mono_norm({a: -e for a, e in com.items()}))))
    c = x.poly[-1][1]
    k = abs(c[0]) if c[1] == 0 else (abs(c[1]) if c[0] == 0 else Fr(1))
    if k != 1:
        x = _scale(x, (1 / k, Fr(0)))
    return _mkfun("angle", x)


def _floor(x):
    v = const_val(x)
    if v is not None:
        return num(math.floor(v))
    f = numeric(x)
    if f is not None:
        return num(math.floor(f + 1e-12))
    ints, rest = {}, {}
    for m, c in x.poly:
        if c[1] == 0 and all("int" in a.flags and _int(e) and e > 0 for a, e in m):
            k = math.floor(c[0])
            if k:
                ints[m] = (Fr(k), Fr(0))
            if c[0] - k:
                rest[m] = (c[0] - k, Fr(0))
        else:
            rest[m] = c
    i, r = mk_poly(ints), mk_poly(rest)
    if not r.poly:
        return i
    v = const_val(r)
    if v is not None:
        return add(i, num(math.floor(v)))
    return add(i, _mkfun("floor", r))


def numeric(t):
    """float value of a term without symbols (constants such as sqrt(2)), else None"""
    if t.kind != "poly":
        return None
    s = 0.0
    for m, c in t.poly:
        if c[1] != 0:
            return None
        v = float(c[0])
        for a, e in m:
            if not isinstance(e, Fr):
                return None
            if a.kind == "prime":
                v *= float(a.attrs[0]) ** float(e)
            elif a.kind == "sym" and a.name == "pi":
                v *= math.pi ** float(e)
            elif a.kind == "sum":
                b = numeric(a.args[0])
                if b is None or b < 0:
                    return None
                v *= b ** float(e)
            else:
                return None
        s += v
    return s


def _atan2(y, x):
    # atan2(imag z, real z) = angle z
    if len(y.poly) == 1 and len(x.poly) == 1:
        (my, cy), (mx, cx) = y.poly[0], x.poly[0]
        if cy == cx and cy[0] > 0 and len(my) == 1 and len(mx) == 1:
            a, b = my[0][0], mx[0][0]
            if a.name == "imag" and b.name == "real" and a.args == b.args and my[0][1] == mx[0][1] == 1:
                return fun("angle", a.args[0])
    # positive common content
    com = {}
    c1, c2 = _common(x) if x.poly else None, _common(y) if y.poly else None
    if c1 is not None and c2 is not None:
        for a in set(c1) & set(c2):
            if "pos" in a.flags and c1[a] == c2[a]:
                com[a] = c1[a]
    if com:
        inv = mk_poly(dict(_mono_norm({a: -e for a, e in com.items()})))
        x, y = _mul(x, inv), _mul(y, inv)
    ref = x if x.poly else y
    if ref.poly:
        k = abs(ref.poly[-1][1][0])
        if k not in (0, 1):
            x, y = _scale(x, (1 / k, Fr(0))), _scale(y, (1 / k, Fr(0)))
    return _mkfun("atan2", y, x)


def _comm(name):
    def f(a, b):
        if a is b:
            return a
        d = const_val(sub(a, b))
        if d is not None:
            return (a if d > 0 else b) if name == "max2" else (b if d > 0 else a)
        if a.key > b.key:
            a, b = b, a
        return _mkfun(name, a, b)
    return f


def _round(x):
    v = const_val(x)
    if v is not None:
        return num(round(v))
    return x if is_int(x) else _mkfun("round", x)


def _acos(x):
    return _mkfun("acos", x)


_FUNS = {"cos": _evenf("cos"), "cosh": _evenf("cosh"), "exp": _exp, "log": _log, "real": _reim("real"),
         "imag": _reim("imag"), "conj": _conj, "abs": _abs, "angle": _angle, "floor": _floor, "atan2": _atan2,
         "max2": _comm("max2"), "min2": _comm("min2"), "acos": _acos, "round": _round}
for _n in ODD:
    _FUNS[_n] = _odd(_n)


def ceil(t):
    return neg(fun("floor", neg(t)))


def trunc(t):
    return fun("floor", t)


# -------------------------------------------------------------------------------------- relations
def _clear(p):
    """multiply by positive content: positive-flag atoms cleared, |leading coefficient| 1"""
    com = {}
    for m, c in p.poly:
        for a, e in m:
            if "pos" in a.flags and isinstance(e, Fr):
                com.setdefault(a, []).append(e)
    d = {}
    for a, es in com.items():
        lo = min(es + ([Fr(0)] if len(es) < len(p.poly) else []))
        if lo != 0:
            d[a] = -lo
    if d:
        p = _mul(p, mk_poly(dict(_mono_norm(d))))
    if p.poly:
        c = p.poly[-1][1]
        k = abs(c[0]) if c[0] != 0 else abs(c[1])
        if k != 1:
            p = _scale(p, (1 / k, Fr(0)))
    return p


def lt(a, b):
    return lift(lambda x, y: _lt0(_sub(x, y)), as_num(a), as_num(b))


def _sub(a, b):
    return _add(a, _scale(b, (Fr(-1), Fr(0))))


def le(a, b):
    return lnot(lt(b, a))


def _lt0(p):
    v = const_val(p)
    if v is not None:
        return TRUE if v < 0 else FALSE
    f = numeric(p)
    if f is not None and abs(f) > 1e-12:
        return TRUE if f < 0 else FALSE
    p = _clear(p)
    if poly_nonneg(p):
        return FALSE
    if poly_pos(neg(p)):
        return TRUE
    # p = c*|u| + rest
    for m, c in p.poly:
        ab = [(a, e) for a, e in m if a.name == "abs" and a.kind == "op" and e == 1 and is_real(a.args[0])]
        if len(ab) == 1 and c[1] == 0 and all(atom_nonneg(x) for x, _ in m):
            a = ab[0][0]
            others = tuple((x, e) for x, e in m if x is not a)
            rest = mk_poly({m2: c2 for m2, c2 in p.poly if m2 != m})
            if any(a is x for m2, _ in rest.poly for x, _e in m2):
                break
            u = mul(mk_poly({others: (abs(c[0]), Fr(0))}), a.args[0])
            if c[0] > 0:
                return land(lt(add(u, rest), ZERO), lt(sub(rest, u), ZERO))
            return lor(lt(add(u, rest), ZERO), lt(sub(rest, u), ZERO))
    # p = c*sqrt(S) + rest  ->  compare squares (rest taken as the non-negative bound)
    for m, c in p.poly:
        rt = [(a, e) for a, e in m if isinstance(e, Fr) and e.denominator == 2 and a.kind in ("sum", "sym", "op")]
        if len(rt) >= 1 and c[1] == 0 and all(isinstance(e, Fr) for _, e in m) \
                and all(atom_nonneg(x) or isinstance(e, Fr) and e.denominator == 2 for x, e in m):
            rest = mk_poly({m2: c2 for m2, c2 in p.poly if m2 != m})
            if not rest.poly or any(isinstance(e, Fr) and e.denominator == 2 and x.kind != "prime"
                                    for m2, _ in rest.poly for x, e in m2):
                break
            sq = power(mk_poly({m: c}), TWO)
            r2 = power(rest, TWO)
            return lt(sub(sq, r2), ZERO) if c[0] > 0 else lt(sub(r2, sq), ZERO)
    # canonical sign: lt0(p) for the form with positive lead; p<0 <-> not(-p<0) only up to equality, so keep sign
    a = atom("op", "lt0", (p,), (), shape_of(p), {"bool", "real"})
    return mk_ite(a, TRUE, FALSE)


def eq(a, b):
    if _boolish(a) and _boolish(b):
        return ite(a, b, lnot(b))
    return lift(lambda x, y: _eq0(_sub(x, y)), as_num(a), as_num(b))


def _eq0(p):
    if not p.poly:
        return TRUE
    if is_const(p):
        return FALSE
    f = numeric(p)
    if f is not None and abs(f) > 1e-9:
        return FALSE
    if poly_pos(p) or poly_pos(neg(p)):
        return FALSE
    if len(p.poly) == 1:
        m = p.poly[0][0]
        m = tuple((a, Fr(1)) for a, e in m if not ("pos" in a.flags) and not (isinstance(e, Fr) and e < 0) and
                  a.name != "exp")
        if not m:
            return FALSE
        r = FALSE
        for a, e in m:
            t = a.args[0] if a.name in ("abs", "conj") and a.kind == "op" else (a.args[0] if a.kind == "sum" else None)
            if t is not None:
                r = lor(r, eq(t, ZERO))
            elif a.name == "pow" and a.kind == "op":
                r = lor(r, eq(a.args[0], ZERO))
            else:
                x = atom("op", "eq0", (from_atom(a),), (), a.shape, {"bool", "real"})
                r = lor(r, mk_ite(x, TRUE, FALSE))
        return r
    # real^2 + imag^2 == 0
    if len(p.poly) == 2:
        (m1, c1), (m2, c2) = p.poly
        if c1 == c2 and len(m1) == len(m2) == 1 and m1[0][1] == m2[0][1] == 2:
            a, b = m1[0][0], m2[0][0]
            if {a.name, b.name} == {"real", "imag"} and a.args == b.args:
                return eq(a.args[0], ZERO)
    p = _clear(p)
    c = p.poly[-1][1]
    m2 = c[0] ** 2 + c[1] ** 2
    p = _scale(p, (c[0] / m2, -c[1] / m2))
    a = atom("op", "eq0", (p,), (), shape_of(p), {"bool", "real"})
    return mk_ite(a, TRUE, FALSE)


# ----------------------------------------------------------------------------------- rebuilding
def map_atoms(t, f, memo=None):
    """rebuild t with every direct atom a replaced by the term f(a) (f(a) None = unchanged)"""
    memo = {} if memo is None else memo
    r = memo.get(t.key)
    if r is not None:
        return r
    if t.kind == "bool":
        r = t
    elif t.kind == "ite":
        c = f(t.cond)
        c = from_atom(t.cond) if c is None else as_bool(c)
        r = ite(c, map_atoms(t.a, f, memo), map_atoms(t.b, f, memo))
    else:
        changed = False
        out = ZERO
        for m, c in t.poly:
            mono = mk_poly({(): c})
            for a, e in m:
                na = f(a)
                if na is None:
                    na = from_atom(a)
                else:
                    changed = True
                if isinstance(e, Term):
                    e2 = map_atoms(e, f, memo)
                    changed = changed or e2 is not e
                else:
                    e2 = num(e)
                mono = mul(mono, power(na, e2))
            out = add(out, mono)
        r = out if changed else t
    memo[t.key] = r
    return r


REBUILD = {}


def rebuild(a, args, attrs=None):
    """same operation on new argument terms"""
    attrs = a.attrs if attrs is None else attrs
    if a.kind == "sum":
        return args[0]
    if a.name == "lt0":
        return lt(args[0], ZERO)
    if a.name == "eq0":
        return eq(args[0], ZERO)
    if a.name in POINTWISE and a.kind == "op":
        if a.name == "pow":
            return power(*args)
        return fun(a.name, *args)
    g = REBUILD.get(a.name)
    if g is not None:
        return g(a, args, attrs)
    return from_atom(atom(a.kind, a.name, args, attrs, a.shape, a.flags))


def subst(t, mapping, memo=None):
    """mapping: atom -> term, applied recursively below operations"""
    memo = {} if memo is None else memo

    def f(a):
        if a in mapping:
            return mapping[a]
        k = ("atom", a.key)
        if k in memo:
            return memo[k]
        r = None
        if a.args or a.attrs:
            new, ch = [], False
            for x in a.args:
                y = _subst_any(x, mapping, memo, f)
                ch = ch or y is not x
                new.append(y)
            at = _subst_any(a.attrs, mapping, memo, f)
            ch = ch or at is not a.attrs
            if ch:
                r = rebuild(a, tuple(new), at)
        memo[k] = r
        return r
    return map_atoms(t, f, memo)


def _subst_any(x, mapping, memo, f):
    if isinstance(x, Term):
        return map_atoms(x, f, memo)
    if isinstance(x, Atom):
        r = f(x)
        if r is None:
            return x
        if r.kind == "poly" and len(r.poly) == 1 and len(r.poly[0][0]) == 1:
            return r.poly[0][0][0][0]
        return x
    if isinstance(x, tuple):
        y = tuple(_subst_any(i, mapping, memo, f) for i in x)
        return x if all(p is q for p, q in zip(x, y)) else y
    return x


# ------------------------------------------------------------------------------ array operations
def _axsh(axis, n):
    return (n,) if axis == "v" else ((n, ONE) if axis == 0 else (ONE, n))


def idx(axis, n):
    """index along an axis of length n, as an array; axis 'v': a vector, 0/1: a column/row of a matrix"""
    return opaque("idx", (n,), (axis,), _axsh(axis, n), "int", "nonneg")


def fftk(axis, n):
    """signed frequency index of the DFT in its natural order"""
    return opaque("fftk", (n,), (axis,), _axsh(axis, n), "int")


def _is_array(a):
    return a.shape is None or len(a.shape) > 0


def split_scalar(m):
    s, r = [], []
    for a, e in m:
        arr = _is_array(a) or (isinstance(e, Term) and not is_scalar(e))
        (r if arr else s).append((a, e))
    return tuple(s), tuple(r)


def linear(t, f):
    """apply a linear array operation f(Term)->Term, pulling out scalars and scalar conditions"""
    if t.kind == "bool":
        t = as_num(t)
    if t.kind == "ite":
        if not _is_array(t.cond):
            return ite(from_atom(t.cond), linear(t.a, f), linear(t.b, f))
        return f(t)
    out = ZERO
    for m, c in t.poly:
        s, r = split_scalar(m)
        out = add(out, mul(mk_poly({s: c}), f(mk_poly({r: (Fr(1), Fr(0))}))))
    return out


def pw_push(t, g, memo=None):
    """push a rearrangement of elements (shift, transpose, ...) down to the array atoms; g(atom)->Term"""
    memo = {} if memo is None else memo

    def f(a):
        if not _is_array(a):
            return None
        k = ("atom", a.key)
        if k in memo:
            return memo[k]
        if (a.kind == "op" and a.name in POINTWISE) or a.kind == "sum":
            r = rebuild(a, tuple(map_atoms(x, f, memo) for x in a.args))
        else:
            r = g(a)
        memo[k] = r
        return r
    return map_atoms(t, f, memo)


def shift(t, kind, axes):
    """kind: fftshift | ifftshift; axes: tuple of ints"""
    inv = {"fftshift": "ifftshift", "ifftshift": "fftshift"}

    def g(a):
        ax = axes
        if a.name in ("idx", "fftk") and a.kind == "op":
            ax = tuple(x for x in axes if x == (0 if a.attrs[0] == "v" else a.attrs[0]))
            if not ax:
                return from_atom(a)
            if a.name == "fftk" and kind == "fftshift":
                n = a.args[0]
                return sub(idx(a.attrs[0], n), fun("floor", mul(n, HALF)))
        if a.shape is not None and len(a.shape) == 1:
            ax = tuple(x for x in axes if x == 0)
        if a.shape is not None and len(a.shape) == 2:
            ax = tuple(x for x in ax if a.shape[x] is not ONE)
            if not ax:
                return from_atom(a)
        if a.name == inv[kind] and a.kind == "op":
            rem = tuple(x for x in a.attrs[0] if x not in ax)
            mine = tuple(x for x in ax if x not in a.attrs[0])
            r = a.args[0]
            if rem:
                r = _mkshift(inv[kind], r, rem)
            if mine:
                r = shift(r, kind, mine)
            return r
        if a.name == kind and a.kind == "op" and not set(a.attrs[0]) & set(ax):
            return _mkshift(kind, a.args[0], tuple(sorted(set(ax) | set(a.attrs[0]))))
        return _mkshift(kind, from_atom(a), ax)
    return pw_push(t, g)


def _mkshift(kind, t, ax):
    a = next(iter(atoms_of(t)))
    fl = set(a.flags) - {"bool"} if t.kind != "ite" else {"bool", "real"}
    if t.kind == "ite":
        return bool_atom(kind, (t,), (ax,), a.shape)
    return from_atom(atom("op", kind, (t,), (ax,), a.shape, fl))


REBUILD["fftshift"] = lambda a, args, attrs: shift(args[0], "fftshift", attrs[0])
REBUILD["ifftshift"] = lambda a, args, attrs: shift(args[0], "ifftshift", attrs[0])


def fft(t, inverse, shape=None, ndim=2):
    name = ("ifft%d" if inverse else "fft%d") % ndim
    other = ("fft%d" if inverse else "ifft%d") % ndim

    def f(x):
        if x.kind == "poly" and len(x.poly) == 1 and len(x.poly[0][0]) == 1:
            a, e = x.poly[0][0][0]
            if a.name == other and e == 1 and x.poly[0][1] == (Fr(1), Fr(0)):
                return a.args[0]
        own = shape_of(x)
        sh = shape if shape is not None else own
        return opaque(name, (x,), (sh,) if sh != own and sh is not None else (), sh)
    return linear(t, f)


REBUILD["fft2"] = lambda a, args, attrs: fft(args[0], False, attrs[0] if attrs else a.shape)
REBUILD["ifft2"] = lambda a, args, attrs: fft(args[0], True, attrs[0] if attrs else a.shape)


def pad(t, pads, shape):
    """zero padding; pads: ((before, after), ...) terms"""
    if all(p is ZERO for pr in pads for p in pr):
        return t

    def f(x):
        fl = ("real",) if is_real(x) else ()
        return opaque("pad", (x,), (pads,), shape, *fl)
    return linear(t, f)


REBUILD["gather"] = lambda a, args, attrs: from_atom(atom("op", "gather", args, attrs, a.shape if a.shape is None else tuple(
    attrs[2] if i == (0 if attrs[0] == "v" else attrs[0]) else d for i, d in enumerate(a.shape)), a.flags))
REBUILD["pad"] = lambda a, args, attrs: pad(args[0], attrs[0], a.shape)


def reduce_sum(t, shape):
    def f(x):
        if is_const(x):
            return mul(x, size(shape))
        fl = ["real"] if is_real(x) else []
        if fl and poly_nonneg(x):
            fl.append("nonneg")
        own = shape_of(x)
        r = opaque("sum_all", (x,), (), (), *fl)
        if own is not None and shape is not None and own != tuple(shape):
            # the value repeats along the axes it does not depend on
            k, rest = len(shape) - len(own), ONE
            for j, d in enumerate(shape):
                if j < k or (own[j - k] is ONE and d is not ONE):
                    rest = mul(rest, d)
            r = mul(r, rest)
        return r
    return linear(t, f)


REBUILD["sum_all"] = lambda a, args, attrs: from_atom(atom("op", "sum_all", args, attrs, (), a.flags))


def reduce_max(t, name="max_all"):
    t = as_num(t)
    if t.kind == "poly":
        if is_scalar(t):
            return t
        # positive scalar content
        com = {a: e for a, e in _common(t).items() if "pos" in a.flags and not _is_array(a)}
        k = ONE
        if com:
            k = mk_poly(dict(_mono_norm(com)))
            t = mul(t, mk_poly(dict(_mono_norm({a: -e for a, e in com.items()}))))
        if len(t.poly) == 1 and t.poly[0][1][1] == 0 and t.poly[0][1][0] > 0:
            c = t.poly[0][1][0]
            k, t = mul(k, num(c)), _scale(t, (1 / c, Fr(0)))
        fl = ["real"] + (["nonneg"] if poly_nonneg(t) else [])
        return mul(k, opaque(name, (t,), (), (), *fl))
    fl = ["real"] + (["nonneg"] if poly_nonneg(t) else [])
    return opaque(name, (t,), (), (), *fl)


REBUILD["max_all"] = lambda a, args, attrs: reduce_max(args[0])
REBUILD["min_all"] = lambda a, args, attrs: reduce_max(args[0], "min_all")


def along(t, axis):
    """use a vector as a matrix that varies along the given axis only"""
    def g(a):
        if a.kind == "op" and a.name in ("idx", "fftk"):
            return (idx if a.name == "idx" else fftk)(axis, a.args[0])
        if a.kind == "op" and a.name in ("fftshift", "ifftshift"):
            return shift(along(a.args[0], axis), a.name, (axis,))
        n = a.shape[0] if a.shape else ONE
        return opaque("along", (from_atom(a),), (axis,), _axsh(axis, n), *[f for f in a.flags])
    return pw_push(t, g)


# ------------------------------------------------------------------------------------ equality
def equal(a, b):
    if a is b:
        return True
    try:
        if _boolish(a) != _boolish(b):
            a, b = as_num(a), as_num(b)
        if _boolish(a):
            return lnot(eq(a, b)) is FALSE
        d = sub(a, b)
        return _zero(d)
    except (ValueError, RecursionError):
        return False


def _zero(t):
    if t.kind == "ite":
        return _zero(t.a) and _zero(t.b)
    if not t.poly:
        return True
    for _ in range(4):
        dens = {}
        for m, c in t.poly:
            for a, e in m:
                if a.kind == "sum" and isinstance(e, Fr) and e < 0:
                    dens[a] = min(dens.get(a, Fr(0)), e)
        if not dens:
            break
        for a, e in dens.items():
            k = Fr(math.ceil(-e))
            t2 = ZERO
            for m, c in t.poly:
                d = dict(m)
                d[a] = _eadd(d.get(a, Fr(0)), k)
                t2 = add(t2, mul(mk_poly({(): c}), mk_poly(dict(_mono_norm(d)))))
            t = t2
            if t.kind != "poly":
                return _zero(t)
        if not t.poly:
            return True
    if not t.poly:
        return True
    # exp(i*t) -> cos t + i sin t
    def f(a):
        if a.kind == "op" and a.name == "exp" and not is_real(a.args[0]):
            re, im = fun("real", a.args[0]), fun("imag", a.args[0])
            return mul(fun("exp", re), add(fun("cos", im), mul(I, fun("sin", im))))
        return None
    t2 = map_atoms(t, f)
    if t2 is not t:
        return t2.kind == "poly" and not t2.poly
    return False


# -------------------------------------------------------------------------------------- printing
def show_atom(a, depth=0):
    if depth > 6:
        return "..."
    if a.kind in ("sym",):
        return a.name
    if a.kind == "prime":
        return str(a.attrs[0])
    if a.kind == "sum":
        return "(%s)" % show(a.args[0], depth + 1)
    ar = ", ".join(show(x, depth + 1) if isinstance(x, Term) else (show_atom(x, depth + 1) if isinstance(x, Atom) else str(x))
                   for x in a.args)
    at = _show_attr(a.attrs, depth)
    if a.name == "lt0":
        return "%s < 0" % ar
    if a.name == "eq0":
        return "%s == 0" % ar
    return "%s(%s%s)" % (a.name, ar, ("; " + at) if a.attrs else "")


def _show_attr(x, depth):
    if isinstance(x, Term):
        return show(x, depth + 1)
    if isinstance(x, Atom):
        return show_atom(x, depth + 1)
    if isinstance(x, (tuple, list)):
        return "[" + ", ".join(_show_attr(i, depth + 1) for i in x) + "]"
    return str(x)


def _showc(c):
    if c[1] == 0:
        return str(c[0])
    if c[0] == 0:
        return "%si" % c[1] if c[1] != 1 else "i"
    return "(%s+%si)" % (c[0], c[1])


def show(t, depth=0):
    if depth > 7:
        return "..."
    if t.kind == "bool":
        return str(t.poly)
    if t.kind == "ite":
        return "where(%s, %s, %s)" % (show_atom(t.cond, depth + 1), show(t.a, depth + 1), show(t.b, depth + 1))
    if not t.poly:
        return "0"
    parts = []
    for m, c in t.poly[:12]:
        fs = []
        for a, e in m:
            s = show_atom(a, depth + 1)
            if e != 1:
                s += "^%s" % (show(e, depth + 1) if isinstance(e, Term) else e)
            fs.append(s)
        if c == (1, 0) and fs:
            parts.append("*".join(fs))
        elif c == (-1, 0) and fs:
            parts.append("-" + "*".join(fs))
        else:
            parts.append("*".join([_showc(c)] + fs))
    if len(t.poly) > 12:
        parts.append("... %d more" % (len(t.poly) - 12))
    return " + ".join(parts)
