"""C09-C14: profiles and windows."""
import math
from .fix import *

A_, B_ = S("na", "int", "pos"), S("nb", "int", "pos")
XY = (A_, B_)
X, Y = t.sym("X", XY, "real"), t.sym("Y", XY, "real")
SQRT2 = t.sqrt(t.num(2))
XP, YP = S("xp", "real"), S("yp", "real")


def coords(w):
    """arbitrary evaluation points: arrays and single points"""
    return [("arrays", array(w, "X", "f64", XY), array(w, "Y", "f64", XY), X, Y, XY),
            ("point", P(XP), P(YP), XP, YP, ()),
            ("open grid", array(w, "Xo", "f64", (t.ONE, B_)), array(w, "Yo", "f64", (A_, t.ONE)), t.sym("Xo", (t.ONE, B_), "real"), t.sym("Yo", (A_, t.ONE), "real"), XY)]


def evaluate(c, w, label, p, spec, cx, st=None, dtype=None, constant=False, domain=None):
    """p(x, y) must denote spec(x, y) as an array of the configured type"""
    for cl, xv, yv, x, y, sh in cx:
        L = "%s at %s" % (label, cl)

        def f():
            o = w.run(lambda: w.call(p, xv, yv), st)
            if c.runs(L, o):
                c.value(L, w, o.val, spec(x, y), None if constant else sh, dtype or w.R, "np", state=o.st, domain=domain)
        c.group(L, f)


def build(c, w, label, f, st=None):
    o = w.run(f, st)
    return o if c.runs(label, o) else None


def cpx(term):
    return term


OPS = [("p+q", "Add", lambda a, b: a + b), ("p-q", "Sub", lambda a, b: a - b), ("p*q", "Mult", lambda a, b: a * b),
       ("p/q", "Div", lambda a, b: a / b)]


def c09(c):
    c.rule = "(p op q)(x, y) = p(x, y) op q(x, y); complex if one operand is; operands unchanged"
    for prec in PRECS:
        w = c.world(prec)
        it = w.it
        it.st = w.base
        p, q = profile(w, "p"), profile(w, "q")
        pc, qc = profile(w, "pc", True), profile(w, "qc", True)
        cx = coords(w)
        cf, ci, cc = S("c", "real"), S("k", "int"), None
        cre, cim = S("c_re", "real"), S("c_im", "real")
        cc = cre + t.I * cim
        nums = [("float", P(cf), cf, False), ("int", P(ci, "int"), ci, False), ("complex", Num(cc, "py", "complex"), cc, True)]
        base = it.st
        fun = {id(p): ("p", False), id(q): ("q", False), id(pc): ("pc", True), id(qc): ("qc", True)}
        val = lambda o: (lambda x, y: user_fun(fun[id(o)][0], x, y, fun[id(o)][1]))
        import ast as _a
        for name, op, f in OPS:
            c.anchor = c.loc("FunctionProfile.__%s__" % {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv"}[op])
            c.stepwise = op != "Div"          # p/q is NaN where both vanish
            for a in (p, pc):
                for b in (q, qc, a):
                    L = "%s %s[%s,%s]" % (prec, name, fun[id(a)][0], fun[id(b)][0])
                    o = build(c, w, L, lambda: it.binop(op, a, b), base)
                    if o is None:
                        continue
                    va, vb = val(a), val(b)
                    cplx = fun[id(a)][1] or fun[id(b)][1]
                    evaluate(c, w, L, o.val, lambda x, y: f(va(x, y), vb(x, y)), cx, o.st, w.C if cplx else w.R)
                    # the operands, after the combination has been built and evaluated
                    for opd in (a, b):
                        evaluate(c, w, L + " operand", opd, val(opd), cx[:1], w.it.st, w.C if fun[id(opd)][1] else w.R)
            for a in (p, pc):
                for nl, nv, nt, ncx in nums:
                    L = "%s %s with %s[%s]" % (prec, name.replace("q", "c"), nl, fun[id(a)][0])
                    va = val(a)
                    o = build(c, w, L, lambda: it.binop(op, a, nv), base)
                    d = w.C if ncx or fun[id(a)][1] else w.R
                    if o is not None:
                        evaluate(c, w, L, o.val, lambda x, y: f(va(x, y), nt), cx, o.st, d)
                        evaluate(c, w, L + " operand", a, va, cx[:1], w.it.st, w.C if fun[id(a)][1] else w.R)
                    if op in ("Add", "Mult"):
                        L = "%s c%sp with %s[%s]" % (prec, name[1], nl, fun[id(a)][0])
                        o = build(c, w, L, lambda: it.binop(op, nv, a), base)
                        if o is not None:
                            evaluate(c, w, L, o.val, lambda x, y: f(nt, va(x, y)), cx, o.st, d)
        c.anchor = c.loc("FunctionProfile.__neg__")
        for a in (p, pc):
            L = "%s -%s" % (prec, fun[id(a)][0])
            o = build(c, w, L, lambda: it.call(it.getattr(a, "__neg__"), [], {}), base)
            if o is not None:
                va = val(a)
                evaluate(c, w, L, o.val, lambda x, y: -va(x, y), cx, o.st, w.C if fun[id(a)][1] else w.R)
        c.anchor = c.loc("FunctionProfile.__pow__")
        for a in (p, pc):
            for e in (2, 3, 0.5, -1, 1, 0, 9.0, -3.0, 12, 40, -7, 2.0, 1.0, 0.25, 2.5, -0.5):
                if a is pc and e != int(e):
                    continue
                L = "%s %s**%s" % (prec, fun[id(a)][0], e)
                o = build(c, w, L, lambda: it.binop("Pow", a, lit(e)), base)
                if o is not None:
                    va = val(a)
                    evaluate(c, w, L, o.val, lambda x, y: t.power(va(x, y), t.num(Fr(e))), cx, o.st, w.C if fun[id(a)][1] else w.R)
        # deeper combinations keep the order of operations
        c.anchor = c.loc("FunctionProfile._make_attribute_func")
        vp, vq, vc = val(p), val(q), val(pc)
        deep = [("(p+q)*(p-q)", lambda: it.binop("Mult", it.binop("Add", p, q), it.binop("Sub", p, q)),
                 lambda x, y: vp(x, y) ** 2 - vq(x, y) ** 2, w.R),
                ("(p*pc)/q-2", lambda: it.binop("Sub", it.binop("Div", it.binop("Mult", p, pc), q), lit(2)),
                 lambda x, y: vp(x, y) * vc(x, y) / vq(x, y) - 2, w.C),
                ("3*(q/p)+p", lambda: it.binop("Add", it.binop("Mult", lit(3), it.binop("Div", q, p)), p),
                 lambda x, y: 3 * vq(x, y) / vp(x, y) + vp(x, y), w.R),
                ("p-(q-p*pc)", lambda: it.binop("Sub", p, it.binop("Sub", q, it.binop("Mult", p, pc))),
                 lambda x, y: vp(x, y) - vq(x, y) + vp(x, y) * vc(x, y), w.C)]
        for L, b, sp, d in deep:
            o = build(c, w, prec + " " + L, b, base)
            if o is not None:
                evaluate(c, w, prec + " " + L, o.val, sp, cx, o.st, d)

        c.group(prec + " operand classes", operand_classes, c, w, prec, base)


def operand_classes(c, w, prec, base):
    """every profile class as an operand: the result follows the operand's own value, which is unchanged"""
    it = w.it
    it.st = base
    cx = coords(w)[:1]
    cr, ci = S("cr", "real"), S("ci", "real")
    CC = cr + t.I * ci
    mk = [("constant", lambda: w.new("ConstantProfile", P(AM)), False, True),
          ("complex constant", lambda: w.new("ConstantProfile", Num(CC, "py", "complex")), True, True),
          ("Gaussian", lambda: w.new("HermiteGaussian", P(X0), P(Y0), P(AM), P(WD), lit(1), lit(0)), False, False),
          ("Laguerre", lambda: w.new("LaguerreGaussian", P(X0), P(Y0), P(AM), P(WD), lit(1), lit(1)), True, False),
          ("super", lambda: w.new("SuperGaussian", P(X0), P(Y0), P(AM), P(WD), P(PP)), False, False),
          ("Zernike", lambda: w.new("Zernike", P(AM), P(RAD), lit(2), lit(0)), False, False),
          ("circle", lambda: w.new("RectangularWindowCircular", P(X0), P(Y0), P(RR)), False, False),
          ("profile", lambda: profile(w, "p"), False, False)]
    objs = []
    for n, f, cplx, const in mk:
        o = build(c, w, "%s %s" % (prec, n), f, it.st)
        if o is None:
            continue
        it.st = o.st
        objs.append([n, o.val, cplx, const, None])
    base = it.st
    for o in objs:
        v = w.run(lambda: w.call(o[1], cx[0][1], cx[0][2]), base)
        if c.runs("%s value of %s" % (prec, o[0]), v):
            it.st = v.st
            o[4] = it.num(v.val).term
    objs = [o for o in objs if o[4] is not None]
    cf = S("c", "real")
    cre, cim = S("c_re", "real"), S("c_im", "real")
    nums = [("float", P(cf), cf, False), ("int", P(S("k", "int"), "int"), S("k", "int"), False), ("complex", Num(cre + t.I * cim, "py", "complex"), cre + t.I * cim, True)]

    def after(L, used, st):
        for n, v, cplx, const, term in used:
            evaluate(c, w, "%s: %s afterwards" % (L, n), v, lambda x, y: term, cx, st, w.C if cplx else w.R, constant=const)
            st = it.st

    def combine(L, f, spec, cplx, const, used):
        o = build(c, w, L, f, base)
        if o is not None:
            evaluate(c, w, L, o.val, spec, cx, o.st, w.C if cplx else w.R, constant=const)
            after(L, used, it.st)
    some = [o for o in objs if o[0] in ("constant", "complex constant", "Gaussian", "profile")]
    for o in objs:
        for name, op, f in OPS:
            c.anchor = c.loc("FunctionProfile.__%s__" % {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv"}[op])
            c.stepwise = op != "Div"          # p/q is NaN where both vanish
            for nl, nv, nt, ncx in nums:
                cplx = ncx or o[2]
                combine("%s %s %s %s" % (prec, o[0], name[1], nl), lambda: it.binop(op, o[1], nv), lambda x, y: f(o[4], nt), cplx, o[3], [o])
                if op in ("Add", "Mult"):
                    combine("%s %s %s %s" % (prec, nl, name[1], o[0]), lambda: it.binop(op, nv, o[1]), lambda x, y: f(nt, o[4]), cplx, o[3], [o])
            for q in objs:
                if o in some or q in some:
                    combine("%s %s %s %s" % (prec, o[0], name[1], q[0]), lambda: it.binop(op, o[1], q[1]), lambda x, y: f(o[4], q[4]),
                            o[2] or q[2], o[3] and q[3], [o, q] if o is not q else [o])
        c.stepwise = True
        c.anchor = c.loc("FunctionProfile.__neg__")
        combine("%s -%s" % (prec, o[0]), lambda: it.call(it.getattr(o[1], "__neg__"), [], {}), lambda x, y: -o[4], o[2], o[3], [o])
        c.anchor = c.loc("FunctionProfile.__pow__")
        combine("%s %s**2" % (prec, o[0]), lambda: it.binop("Pow", o[1], lit(2)), lambda x, y: t.power(o[4], t.num(2)), o[2], o[3], [o])


def transforms(w):
    it = w.it
    th, dx, dy, m = S("th", "real"), S("dx", "real"), S("dy", "real"), S("m", "real")
    co, si = t.fun("cos", th), t.fun("sin", th)
    return [("rotate", [P(th)], lambda x, y: (co * x - si * y, si * x + co * y)),
            ("shift", [P(dx), P(dy)], lambda x, y: (x - dx, y - dy)),
            ("rescale_x", [P(m)], lambda x, y: (x / m, y)),
            ("rescale_y", [P(m)], lambda x, y: (x, y / m))]


def c10(c):
    c.rule = "transform(p)(x, y) = p(T(x, y)) for the documented T; as_complex_profile = exp(i p); original unchanged"
    for prec in PRECS:
        w = c.world(prec)
        it = w.it
        it.st = w.base
        p, pc = profile(w, "p"), profile(w, "pc", True)
        q = profile(w, "q")
        cx = coords(w)
        pq = w.run(lambda: it.binop("Mult", p, pc))
        ps = w.run(lambda: it.binop("Sub", p, q))
        hg = w.run(lambda: w.new("HermiteGaussian", P(S("x0", "real")), P(S("y0", "real")), P(S("a", "real")), P(S("w", "pos")), lit(1), lit(0)))
        rw = w.run(lambda: w.new("RectangularWindowRectangle", P(S("x0", "real")), P(S("y0", "real")), P(S("wx", "pos")), P(S("wy", "pos"))), it.st)
        base = it.st
        vp, vc, vq = (lambda x, y: user_fun("p", x, y)), (lambda x, y: user_fun("pc", x, y, True)), (lambda x, y: user_fun("q", x, y))
        x0, y0, a, wd = S("x0", "real"), S("y0", "real"), S("a", "real"), S("w", "pos")
        vh = lambda x, y: a * 2 * SQRT2 * (x - x0) / wd * t.fun("exp", -((x - x0) ** 2 + (y - y0) ** 2) / wd ** 2)
        vr = lambda x, y: t.ite(t.land(t.lt(t.fun("abs", x - x0), S("wx", "pos") / 2), t.lt(t.fun("abs", y - y0), S("wy", "pos") / 2)), t.ONE, t.ZERO)
        subj = [("p", p, vp, w.R), ("pc", pc, vc, w.C)]
        if pq.ok:
            subj.append(("p*pc", pq.val, lambda x, y: vp(x, y) * vc(x, y), w.C))
        if ps.ok:
            subj.append(("p-q", ps.val, lambda x, y: vp(x, y) - vq(x, y), w.R))
        if hg.ok:
            subj.append(("HermiteGaussian", hg.val, vh, w.R))
        if rw.ok:
            subj.append(("RectangularWindowRectangle", rw.val, vr, w.R))
        trs = transforms(w)
        for sl, s, vs, d in subj:
            for tn, args, T in trs:
                c.anchor = c.loc("FunctionProfile." + tn)
                L = "%s %s.%s" % (prec, sl, tn)
                o = build(c, w, L, lambda: w.meth(s, tn, *args), base)
                if o is None:
                    continue
                evaluate(c, w, L, o.val, lambda x, y: vs(*T(x, y)), cx, o.st, d)
                evaluate(c, w, L + " original", s, vs, cx[:1], w.it.st, d)
                if sl in ("p", "pc"):
                    # and of a transform
                    for t2, args2, T2 in trs:
                        a2 = args2 if t2 != tn else [P(S("second%d" % i, "pos")) for i in range(len(args2))]
                        TT = T2 if t2 != tn else second(t2)
                        L2 = L + "." + t2
                        o2 = build(c, w, L2, lambda: w.meth(o.val, t2, *a2), o.st)
                        if o2 is not None:
                            evaluate(c, w, L2, o2.val, lambda x, y: vs(*T(*TT(x, y))), cx[:1], o2.st, d)
            # one number for all of them, one after the other on the same profile
            if sl in ("p", "pc", "HermiteGaussian"):
                same_number(c, w, prec, sl, s, vs, d, base, cx)
            c.anchor = c.loc("FunctionProfile.as_complex_profile")
            L = "%s %s.as_complex_profile" % (prec, sl)
            if d == w.R or sl == "pc":
                o = build(c, w, L, lambda: w.meth(s, "as_complex_profile"), base)
                if o is not None:
                    evaluate(c, w, L, o.val, lambda x, y: t.fun("exp", t.I * vs(x, y)), cx, o.st, w.C)
                    evaluate(c, w, L + " original", s, vs, cx[:1], w.it.st, d)
                    tn, args, T = trs[1]
                    o2 = build(c, w, L + ".shift", lambda: w.meth(o.val, tn, *args), o.st)
                    if o2 is not None:
                        evaluate(c, w, L + ".shift", o2.val, lambda x, y: t.fun("exp", t.I * vs(*T(x, y))), cx[:1], o2.st, w.C)
        for sl, s, vs, d in subj:
            if sl in ("p", "pc", "HermiteGaussian", "p-q"):
                several(c, w, prec, sl, s, vs, d, base, cx)
        # arguments given by keyword
        o = build(c, w, prec + " shift(dx=, dy=)", lambda: w.meth(p, "shift", dx=P(S("dx", "real")), dy=P(S("dy", "real"))), base)
        if o is not None:
            evaluate(c, w, prec + " shift by keyword", o.val, lambda x, y: vp(x - S("dx", "real"), y - S("dy", "real")), cx[:1], o.st, w.R)


def same_number(c, w, prec, sl, s, vs, d, base, cx):
    """every transform of one profile with the same number, made one after the other; all of them are still right afterwards"""
    k = S("kk", "pos")
    co, si = t.fun("cos", k), t.fun("sin", k)
    seq = [("rescale_x", (k,), lambda x, y: (x / k, y)), ("rescale_y", (k,), lambda x, y: (x, y / k)), ("rotate", (k,), lambda x, y: (co * x - si * y, si * x + co * y)),
           ("shift", (k, k), lambda x, y: (x - k, y - k)), ("shift", (k, t.ZERO), lambda x, y: (x - k, y)), ("rescale_y", (k,), lambda x, y: (x, y / k)),
           ("rescale_x", (k,), lambda x, y: (x / k, y))]
    for order in (seq, seq[::-1]):
        L = "%s %s: %s with the same number" % (prec, sl, ", ".join(n for n, _, _ in order))
        o = build(c, w, L, lambda: Tup([w.meth(s, n, *[P(q) for q in a]) for n, a, _ in order]), base)
        if o is None:
            continue
        for j, (n, _, T) in enumerate(order):
            c.anchor = c.loc("FunctionProfile." + n)
            evaluate(c, w, "%s [%d %s]" % (L, j, n), o.val.items[j], lambda x, y, T=T: vs(*T(x, y)), cx[:1], o.st, d)


def several(c, w, prec, sl, s, vs, d, base, cx):
    """the same transform of one profile with different numbers: each result keeps its own, whatever is made afterwards"""
    ks = [(S("ka%d" % i, "pos"), S("kb%d" % i, "pos")) for i in range(3)]
    mk = {"rescale_x": (1, lambda a, b: lambda x, y: (x / a, y)), "rescale_y": (1, lambda a, b: lambda x, y: (x, y / a)),
          "rotate": (1, lambda a, b: lambda x, y: (t.fun("cos", a) * x - t.fun("sin", a) * y, t.fun("sin", a) * x + t.fun("cos", a) * y)),
          "shift": (2, lambda a, b: lambda x, y: (x - a, y - b))}
    for n, (k, T) in mk.items():
        L = "%s %s: %s three times with different numbers" % (prec, sl, n)
        c.anchor = c.loc("FunctionProfile." + n)
        o = build(c, w, L, lambda: Tup([w.meth(s, n, *[P(q) for q in ab[:k]]) for ab in ks]), base)
        if o is None:
            continue
        for j in (0, 2, 1):
            TT = T(*ks[j])
            evaluate(c, w, "%s [%d]" % (L, j), o.val.items[j], lambda x, y: vs(*TT(x, y)), cx[:1], o.st, d)
        evaluate(c, w, L + " original", s, vs, cx[:1], o.st, d)
    if d == w.R:
        # two profiles: each complex profile follows its own
        L = "%s %s: as_complex_profile of it and of its shift" % (prec, sl)
        c.anchor = c.loc("FunctionProfile.as_complex_profile")
        T = mk["shift"][1](*ks[0])
        o = build(c, w, L, lambda: Tup([w.meth(s, "as_complex_profile"), w.meth(w.meth(s, "shift", *[P(q) for q in ks[0]]), "as_complex_profile")]), base)
        if o is not None:
            evaluate(c, w, L + " [0]", o.val.items[0], lambda x, y: t.fun("exp", t.I * vs(x, y)), cx[:1], o.st, w.C)
            evaluate(c, w, L + " [1]", o.val.items[1], lambda x, y: t.fun("exp", t.I * vs(*T(x, y))), cx[:1], o.st, w.C)


def second(name):
    s0, s1 = S("second0", "pos"), S("second1", "pos")
    co, si = t.fun("cos", s0), t.fun("sin", s0)
    return {"rotate": lambda x, y: (co * x - si * y, si * x + co * y), "shift": lambda x, y: (x - s0, y - s1),
            "rescale_x": lambda x, y: (x / s0, y), "rescale_y": lambda x, y: (x, y / s0)}[name]


# ------------------------------------------------------------------------------------ formulas
def hermite_coefs(n):
    """physicists' Hermite polynomial, ascending powers"""
    a, b = [1], [0, 2]
    if n == 0:
        return a
    for k in range(1, n):
        nxt = [0] + [2 * v for v in b]
        for i, v in enumerate(a):
            nxt[i] -= 2 * k * v
        a, b = b, nxt
    return b


def laguerre_coefs(p, l):
    return [Fr((-1) ** i * math.comb(p + l, p - i), math.factorial(i)) for i in range(p + 1)]


def poly(co, x):
    r = t.ZERO
    for i, v in enumerate(co):
        if v:
            r = r + t.num(Fr(v)) * x ** i
    return r


def sq(w, cls, *args, **kw):
    return w.run(lambda: w.new(cls, *args, **kw))


X0, Y0, AM, WD, PP = S("x0", "real"), S("y0", "real"), S("a", "real"), S("w", "pos"), S("p", "pos")


def hg_spec(n, m):
    def f(x, y, x0=X0, y0=Y0, a=AM, w=WD):
        u, v = (x - x0) / w, (y - y0) / w
        return a * poly(hermite_coefs(n), SQRT2 * u) * poly(hermite_coefs(m), SQRT2 * v) * t.fun("exp", -(u ** 2 + v ** 2))
    return f


def lg_spec(l, p):
    def f(x, y, x0=X0, y0=Y0, a=AM, w=WD):
        r2 = (x - x0) ** 2 + (y - y0) ** 2
        r = t.sqrt(r2)
        phi = t.fun("atan2", y - y0, x - x0)
        amp = a * (SQRT2 * r / w) ** abs(l) * t.fun("exp", -r2 / w ** 2) * poly(laguerre_coefs(p, abs(l)), 2 * r2 / w ** 2)
        return amp * t.fun("exp", -t.I * l * phi)
    return f


def sg_spec(x, y, x0=X0, y0=Y0, a=AM, w=WD, p=PP):
    r = ((x - x0) / w) ** 2 + ((y - y0) / w) ** 2
    return a * t.fun("exp", -t.power(r, p))


def c11(c):
    c.rule = "value of the profile at (x, y) equals the documented formula, for symbolic parameters and each order"
    top = 6 if c.thorough else 4
    std = [P(X0), P(Y0), P(AM), P(WD)]
    for prec in PRECS:
        w = c.world(prec)
        it = w.it
        it.st = w.base
        cx = coords(w)
        # one history: every profile is made after, and beside, all the earlier ones
        c.anchor = c.loc("HermiteGaussian._func")
        for n in range(top):
            for m in range(top):
                L = "%s HermiteGaussian n=%d m=%d" % (prec, n, m)
                for kw in ((False, True) if n + m == 3 else (False,)):
                    o = build(c, w, L, lambda: w.new("HermiteGaussian", *std, n=lit(n), m=lit(m)) if kw else
                              w.new("HermiteGaussian", *std, lit(n), lit(m)), it.st)
                    if o is not None:
                        evaluate(c, w, L, o.val, hg_spec(n, m), cx if n + m < 3 else cx[:1], o.st)
        # high orders, where the coefficients leave the range of the usual integers and of exact 32-bit numbers
        for n, m in ((13, 0), (0, 14), (17, 1), (2, 20)) if not c.thorough else [(k, 0) for k in range(6, 24)] + [(0, k) for k in range(6, 24)]:
            L = "%s HermiteGaussian n=%d m=%d" % (prec, n, m)
            o = build(c, w, L, lambda: w.new("HermiteGaussian", *std, lit(n), lit(m)), it.st)
            if o is not None:
                evaluate(c, w, L, o.val, hg_spec(n, m), cx[:1], o.st)
        o = build(c, w, prec + " HermiteGaussian default order", lambda: w.new("HermiteGaussian", *std), it.st)
        if o is not None:
            evaluate(c, w, prec + " HermiteGaussian default order", o.val, hg_spec(0, 0), cx, o.st)
        o = build(c, w, prec + " HermiteGaussian by name",
                  lambda: w.new("HermiteGaussian", x0=P(X0), y0=P(Y0), a=P(AM), w=P(WD), m=lit(2)), it.st)
        if o is not None:
            evaluate(c, w, prec + " HermiteGaussian by name", o.val, hg_spec(0, 2), cx[:1], o.st)
        c.anchor = c.loc("LaguerreGaussian._func")
        for l in range(-3, 4) if not c.thorough else range(-5, 6):
            for p in range(3 if not c.thorough else 5):
                L = "%s LaguerreGaussian l=%d p=%d" % (prec, l, p)
                o = build(c, w, L, lambda: w.new("LaguerreGaussian", *std, lit(l), lit(p)), it.st)
                if o is not None:
                    evaluate(c, w, L, o.val, lg_spec(l, p), cx[:1], o.st, w.C)
        for l, p in ((9, 6), (-12, 1), (0, 9)):
            L = "%s LaguerreGaussian l=%d p=%d" % (prec, l, p)
            o = build(c, w, L, lambda: w.new("LaguerreGaussian", *std, lit(l), lit(p)), it.st)
            if o is not None:
                evaluate(c, w, L, o.val, lg_spec(l, p), cx[:1], o.st, w.C)
        o = build(c, w, prec + " LaguerreGaussian by name",
                  lambda: w.new("LaguerreGaussian", x0=P(X0), y0=P(Y0), a=P(AM), w=P(WD), l=lit(-2), p=lit(1)), it.st)
        if o is not None:
            evaluate(c, w, prec + " LaguerreGaussian by name", o.val, lg_spec(-2, 1), cx, o.st, w.C)
        o = build(c, w, prec + " LaguerreGaussian default order", lambda: w.new("LaguerreGaussian", *std), it.st)
        if o is not None:
            evaluate(c, w, prec + " LaguerreGaussian default order", o.val, lg_spec(0, 0), cx, o.st, w.C)
        c.anchor = c.loc("SuperGaussian._func")
        o = build(c, w, prec + " SuperGaussian", lambda: w.new("SuperGaussian", *std, P(PP)), it.st)
        if o is not None:
            evaluate(c, w, prec + " SuperGaussian", o.val, sg_spec, cx, o.st)
        o = build(c, w, prec + " SuperGaussian default", lambda: w.new("SuperGaussian", *std), it.st)
        if o is not None:
            evaluate(c, w, prec + " SuperGaussian default", o.val, lambda x, y: sg_spec(x, y, p=t.ONE), cx, o.st)
        c.anchor = c.loc("ConstantProfile._func")
        for L, v, sp, d in (("real", P(AM), AM, w.R), ("int", P(S("k", "int"), "int"), S("k", "int"), w.R),
                            ("complex", Num(S("cr", "real") + t.I * S("ci", "real"), "py", "complex"), S("cr", "real") + t.I * S("ci", "real"), w.C)):
            o = build(c, w, "%s ConstantProfile %s" % (prec, L), lambda: w.new("ConstantProfile", v), it.st)
            if o is not None:
                evaluate(c, w, "%s ConstantProfile %s" % (prec, L), o.val, lambda x, y: sp, cx, o.st, d, constant=True)
        o = build(c, w, prec + " ConstantProfile()", lambda: w.new("ConstantProfile"), it.st)
        if o is not None:
            evaluate(c, w, prec + " ConstantProfile()", o.val, lambda x, y: t.ZERO, cx, o.st, constant=True)


def radial(n, m):
    m = abs(m)
    co = [0] * (n + 1)
    for k in range((n - m) // 2 + 1):
        co[n - 2 * k] = (-1) ** k * math.factorial(n - k) // (math.factorial(k) * math.factorial((n + m) // 2 - k) * math.factorial((n - m) // 2 - k))
    return co


RAD = S("radius", "pos")


def zernike_spec(n, m, normalize=True, extrapolate=False, a=AM, radius=RAD):
    def f(x, y):
        rho = t.sqrt(x ** 2 + y ** 2) / radius
        phi = t.fun("atan2", y, x)
        z = a * poly(radial(n, m), rho)
        if m > 0:
            z = z * t.fun("cos", m * phi)
        elif m < 0:
            z = z * t.fun("sin", -m * phi)
        if normalize:
            z = z * t.sqrt(t.num(Fr(n + 1 if m == 0 else 2 * n + 2)))
        if not extrapolate:
            z = t.ite(t.lt(t.ONE, rho), t.ZERO, z)
        return z
    return f


def c12(c):
    c.rule = "Zernike value at (x, y) equals a*N*R_n^|m|*angular part inside the radius; invalid indices raise ValueError"
    top = 15 if c.thorough else 11
    for prec in PRECS:
        w = c.world(prec)
        it = w.it
        it.st = w.base
        cx = coords(w)
        # one history: every profile is made after, and beside, all the earlier ones
        for n in range(top):
            for m in range(-n - 2, n + 3):
                valid = abs(m) <= n and (n - m) % 2 == 0
                L = "%s Zernike n=%d m=%d" % (prec, n, m)
                c.anchor = c.loc("Zernike.__init__")
                if not valid:
                    o = w.run(lambda: w.new("Zernike", P(AM), P(RAD), lit(n), lit(m)), it.st)
                    c.group(L, lambda: c.raises(L, o, "ValueError"))
                    continue
                c.anchor = c.loc("Zernike._func")
                for nz in (True, False):
                    for ex in (True, False):
                        if (n > 3 and nz == ex or n > 6 and not nz) and not c.thorough:
                            continue
                        LL = "%s normalize=%s extrapolate=%s" % (L, nz, ex)
                        o = build(c, w, LL, lambda: w.new("Zernike", P(AM), P(RAD), lit(n), lit(m), normalize=lit(nz), extrapolate=lit(ex)), it.st)
                        if o is not None:
                            evaluate(c, w, LL, o.val, zernike_spec(n, m, nz, ex), cx if n < 2 else cx[:1], o.st)
                if n < 4:
                    o = build(c, w, L + " defaults", lambda: w.new("Zernike", P(AM), P(RAD), lit(n), lit(m)), it.st)
                    if o is not None:
                        evaluate(c, w, L + " defaults", o.val, zernike_spec(n, m), cx[:1], o.st)
                        # indices are reported as given
                        for nm, sp in (("n", n), ("m", m)):
                            g = w.run(lambda: w.get(o.val, nm), o.st)
                            if c.runs("%s .%s" % (L, nm), g):
                                c.value("%s .%s" % (L, nm), w, g.val, t.num(Fr(sp)), ())
        for n, m in ((13, 1), (14, -14), (18, 4), (21, -21)):
            L = "%s Zernike n=%d m=%d" % (prec, n, m)
            o = build(c, w, L, lambda: w.new("Zernike", P(AM), P(RAD), lit(n), lit(m)), it.st)
            if o is not None:
                evaluate(c, w, L, o.val, zernike_spec(n, m), cx[:1], o.st)
        o = build(c, w, prec + " Zernike(a, radius)", lambda: w.new("Zernike", P(AM), P(RAD)), it.st)
        if o is not None:
            evaluate(c, w, prec + " Zernike(a, radius)", o.val, zernike_spec(0, 0), cx, o.st)


WX, WY, RR = S("wx", "pos"), S("wy", "pos"), S("r", "pos")


def rect_spec(x, y, x0=X0, y0=Y0, wx=WX, wy=WY):
    return t.ite(t.land(t.lt(t.fun("abs", x - x0), wx / 2), t.lt(t.fun("abs", y - y0), wy / 2)), t.ONE, t.ZERO)


def circ_spec(x, y, x0=X0, y0=Y0, r=RR):
    return t.ite(t.le((x - x0) ** 2 + (y - y0) ** 2, r ** 2), t.ONE, t.ZERO)


def c13(c):
    c.rule = "window value equals the 0/1 indicator, boundary included as documented"
    for prec in PRECS:
        w = c.world(prec)
        it = w.it
        it.st = w.base
        cx = coords(w)
        d = dmd(w)
        base = it.st
        wx, wy = S("wx", "real"), S("wy", "real")       # an extent that is not positive is an empty window
        for cls, args, names, spec in (("RectangularWindowRectangle", [X0, Y0, wx, wy], ["x0", "y0", "wx", "wy"], lambda x, y: rect_spec(x, y, wx=wx, wy=wy)),
                                       ("RectangularWindowCircular", [X0, Y0, RR], ["x0", "y0", "r"], circ_spec)):
            c.anchor = c.loc(cls + "._func")
            for how in ("positional", "by name"):
                L = "%s %s %s" % (prec, cls, how)
                o = build(c, w, L, lambda: w.new(cls, *[P(a) for a in args]) if how == "positional" else
                          w.new(cls, **{n: P(a) for n, a in zip(names, args)}), base)
                if o is None:
                    continue
                evaluate(c, w, L, o.val, spec, cx, o.st)
                for plane, gx, gy in (("fourier", GX, GY), ("image", IX, IY)):
                    v = w.run(lambda: w.meth(d, "profile_to_tensor", o.val, at_fourier_plane=lit(plane == "fourier")), o.st)
                    if c.runs("%s on the %s grid" % (L, plane), v):
                        c.value("%s on the %s grid" % (L, plane), w, v.val, spec(gx, gy), SH, w.R, "tf", state=v.st)


# ------------------------------------------------------------------------------------ parameters
def kinds():
    hg = lambda x, y, v: hg_spec(1, 2)(x, y, v["x0"], v["y0"], v["a"], v["w"])
    out = [
        ("HermiteGaussian", ["x0", "y0", "a", "w"], {"n": 1, "m": 2}, ["x0", "y0", "a", "w"], ["n", "m"], hg),
        ("SuperGaussian", ["x0", "y0", "a", "w", "p"], {}, ["x0", "y0", "a", "w", "p"], [],
         lambda x, y, v: sg_spec(x, y, v["x0"], v["y0"], v["a"], v["w"], v["p"])),
        ("ConstantProfile", ["c"], {}, ["c"], [], lambda x, y, v: v["c"]),
        ("RectangularWindowRectangle", ["x0", "y0", "wx", "wy"], {}, ["x0", "y0", "wx", "wy"], [],
         lambda x, y, v: rect_spec(x, y, v["x0"], v["y0"], v["wx"], v["wy"])),
        ("RectangularWindowCircular", ["x0", "y0", "r"], {}, ["x0", "y0", "r"], [],
         lambda x, y, v: circ_spec(x, y, v["x0"], v["y0"], v["r"])),
    ]
    for n, m in ((2, 0), (3, -1), (3, 3)):
        out.append(("Zernike", ["a", "radius"], {"n": n, "m": m}, ["a"], ["radius", "n", "m"],
                    lambda x, y, v, n=n, m=m: zernike_spec(n, m, a=v["a"], radius=v["radius"])(x, y)))
    return out


POSITIVE = ("w", "wx", "wy", "r", "p", "radius")


def c14(c):
    c.rule = "read(x) = last value of x; assignment of x changes x only, and the next evaluation uses it, also through combinations"
    for prec in PRECS:
        w = c.world(prec)
        it = w.it
        for cls, names, consts, settable, fixed, spec in kinds():
            it.st = w.base
            cx = coords(w)[:1]
            first = {n: S(n + "_1", "pos" if n in POSITIVE else "real") for n in names}
            other = profile(w, "q")
            base = it.st
            L = "%s %s%s" % (prec, cls, tuple(consts.values()) or "")
            c.anchor = c.loc(cls + ".__init__")
            o = build(c, w, L, lambda: w.new(cls, **{n: P(v) for n, v in first.items()}, **{k: lit(v) for k, v in consts.items()}), base)
            if o is None:
                continue
            p = o.val
            vq = lambda x, y: user_fun("q", x, y)

            def reads(st, vals, L):
                for n in names:
                    c.anchor = c.loc("%s.%s" % (cls, n))
                    g = w.run(lambda: w.get(p, n), st)
                    if c.runs("%s.%s" % (L, n), g):
                        c.value("%s.%s" % (L, n), w, g.val, vals[n], (), state=g.st)
                for n, v in consts.items():
                    c.anchor = c.loc("%s.%s" % (cls, n))
                    g = w.run(lambda: w.get(p, n), st)
                    if c.runs("%s.%s" % (L, n), g):
                        c.value("%s.%s" % (L, n), w, g.val, t.num(Fr(v)), (), state=g.st)
            constant = cls == "ConstantProfile"
            c.group(L, reads, o.st, first, L)
            # combinations built and evaluated before the assignments
            comb = w.run(lambda: it.binop("Mult", p, other), o.st)
            moved = w.run(lambda: w.meth(p, "shift", P(S("dx", "real")), P(S("dy", "real"))), comb.st or o.st)
            turned = w.run(lambda: w.meth(moved.val, "as_complex_profile"), moved.st or o.st)
            st = turned.st or o.st

            def evals(st, vals, L):
                c.anchor = c.loc(cls + "._func")
                evaluate(c, w, L, p, lambda x, y: spec(x, y, vals), cx, st, constant=constant)
                s2 = w.it.st
                if comb.ok:
                    evaluate(c, w, L + " product", comb.val, lambda x, y: spec(x, y, vals) * vq(x, y), cx, s2)
                    s2 = w.it.st
                dx, dy = S("dx", "real"), S("dy", "real")
                if moved.ok:
                    evaluate(c, w, L + " shifted", moved.val, lambda x, y: spec(x - dx, y - dy, vals), cx, s2, constant=constant)
                    s2 = w.it.st
                if turned.ok:
                    evaluate(c, w, L + " shifted phase", turned.val, lambda x, y: t.fun("exp", t.I * spec(x - dx, y - dy, vals)), cx, s2, w.C, constant=constant)
                    s2 = w.it.st
                return s2
            s1 = evals(st, first, L + " evaluated")
            for n in settable:
                new = dict(first)
                new[n] = S(n + "_2", "pos" if n in POSITIVE else "real")
                c.anchor = c.loc("%s.%s" % (cls, n))
                LL = "%s after %s = ..." % (L, n)
                for start, sl in ((s1, ""), (o.st, " (not evaluated before)")):
                    a = w.run(lambda: it.setattr(p, n, P(new[n])), start)
                    if not c.runs(LL + sl, a):
                        continue
                    c.group(LL, reads, a.st, new, LL + sl)
                    if start is s1:
                        c.group(LL, evals, a.st, new, LL)
                        # and once more
                        again = dict(new)
                        again[n] = S(n + "_3", "pos" if n in POSITIVE else "real")
                        b = w.run(lambda: it.setattr(p, n, P(again[n])), w.it.st)
                        if c.runs(LL + " twice", b):
                            c.group(LL, reads, b.st, again, LL + " twice")
                            c.group(LL, evals, b.st, again, LL + " twice")
            # two objects do not share parameters
            second_ = {n: S(n + "_b", "pos" if n in POSITIVE else "real") for n in names}
            z = w.run(lambda: w.new(cls, **{n: P(v) for n, v in second_.items()}, **{k: lit(v) for k, v in consts.items()}), s1)
            if c.runs(L + " second object", z):
                a = w.run(lambda: it.setattr(z.val, settable[0], P(S("other", "real"))), z.st)
                if a.ok:
                    c.group(L, reads, a.st, first, L + " after changing another object:")
                    c.group(L, evals, a.st, first, L + " after changing another object")
        # Laguerre-Gaussian and complex constants
        it.st = w.base
        cx = coords(w)[:1]
        o = build(c, w, prec + " complex ConstantProfile", lambda: w.new("ConstantProfile", Num(S("cr", "real") + t.I * S("ci", "real"), "py", "complex")))
        if o is not None:
            evaluate(c, w, prec + " complex constant", o.val, lambda x, y: S("cr", "real") + t.I * S("ci", "real"), cx, o.st, w.C, constant=True)
            a = w.run(lambda: it.setattr(o.val, "c", Num(S("cr2", "real") + t.I * S("ci2", "real"), "py", "complex")), w.it.st)
            if c.runs(prec + " assign complex constant", a):
                evaluate(c, w, prec + " complex constant assigned", o.val, lambda x, y: S("cr2", "real") + t.I * S("ci2", "real"), cx, a.st, w.C, constant=True)
        c.no_issues(prec + " compiled functions capture no assignable parameter", w, ("stale", "trace-effect"))


ORD = ["orders of the polynomials are enumerated up to the bound given in the obligations (other orders follow the same code)"]
CHECKS = {
    "C09": Check(c09, VN + "Profiles p, q are uninterpreted functions of (x, y)."),
    "C10": Check(c10, VN + "Profiles are uninterpreted functions of (x, y); transforms are also applied to combinations and transforms."),
    "C11": Check(c11, VN + "All parameters symbolic, orders enumerated.", ORD),
    "C12": Check(c12, VN + "Amplitude and radius symbolic, orders enumerated.", ORD),
    "C13": Check(c13, VN),
    "C14": Check(c14, VN + "Parameter typestate: construction, reading, assignment and evaluation are interpreted in sequence, compiled functions keep the values captured when first traced."),
}
