"""C18-C23, C26, C35: gratings on a DMD."""
from .spec import *

POS, NEGV = P(t.FALSE, "bool"), P(t.TRUE, "bool")
RO, NI, SS = S("r_opt", "real"), S("N", "int", "nonneg"), S("s_opt", "real")
CI, CJ, DD = S("ci", "real"), S("cj", "real"), S("dd", "pos")
METHODS = ("ideal", "simple", "random")
UNIT = None


def maps(w, kind):
    """amp, phase_in, phase_out as the user may give them, with their values on the grid"""
    if kind == "profiles":
        return [(profile(w, n), U(n)) for n in ("amp", "pin", "pout")]
    if kind == "arrays":
        return [(array(w, n, "f64", SH), t.sym(n, SH, "real")) for n in ("amp", "pin", "pout")]
    if kind == "tensors":
        return [(tensor(n, w.R, SH), t.sym(n, SH, "real")) for n in ("amp", "pin", "pout")]
    return [(P(S(n, "real")), S(n, "real")) for n in ("amp", "pin", "pout")]


def ifta_inputs(w):
    return tensor("inp", w.C, SH), t.sym("inp", SH), tensor("win", w.C, SH), t.sym("win", SH)


def want(c, label, method, got, amp, pin, pout, neg=False, r=10, gp=None, shape=SH):
    """reference pattern; None if it cannot be formed"""
    if method == "ideal":
        return ideal(amp, pin, pout, neg, gp)
    if method == "simple":
        return simple(amp, pin, pout, neg, gp)
    rd = rand_of(c, label, got, shape)
    return None if rd is None else random_(amp, pin, pout, rd, neg, r, gp)


def judge(c, w, label, d, st, method, spec_of, shape=SH, dtype=None):
    """the device state after a calculation"""
    o = state(w, d, st)
    n = w.it.num(o.val)
    if n is None:
        c.undecided(label, "state is %r" % (o.val,))
        return None
    sp = spec_of(n.term)
    if sp is None:
        return None
    return c.value(label, w, o.val, sp, shape, dtype or (w.R if method == "ideal" else "bool"), "np", state=o.st)


def c18(c):
    c.rule = "stored pattern equals the documented formula of the method"
    for prec in PRECS:
        w = c.world(prec)
        it = w.it
        for kind in ("profiles", "arrays", "tensors", "numbers"):
            def f():
                it.st = w.base
                d = dmd(w, POS)
                ms = maps(w, kind)
                base = it.st
                vals, terms = [m[0] for m in ms], [m[1] for m in ms]
                for method in METHODS:
                    c.anchor = c.loc("_calculate_dmd_grating_" + method)
                    L = "%s %s %s" % (prec, kind, method)
                    o = w.run(lambda: w.meth(d, "set_dmd_grating_state", *vals, method=lit(method)), base)
                    if c.runs(L, o):
                        judge(c, w, L, d, o.st, method, lambda g: want(c, L, method, g, *terms))
                    if method == "random":
                        for how in ("r=", ):
                            L2 = L + " r given"
                            o = w.run(lambda: w.meth(d, "set_dmd_grating_state", *vals, method=lit(method), r=P(RO)), base)
                            if c.runs(L2, o):
                                judge(c, w, L2, d, o.st, method, lambda g: want(c, L2, method, g, *terms, r=RO))
                # by name, in another order
                L = "%s %s by name" % (prec, kind)
                o = w.run(lambda: w.meth(d, "set_dmd_grating_state", method=lit("ideal"), phase_out=vals[2], amp=vals[0], phase_in=vals[1]), base)
                if c.runs(L, o):
                    judge(c, w, L, d, o.st, "ideal", lambda g: ideal(*terms))
                # a second calculation does not depend on the first one
                o1 = w.run(lambda: w.meth(d, "set_dmd_grating_state", P(S("a9", "real")), P(S("b9", "real")), P(S("c9", "real")), method=lit("simple")), base)
                if o1.ok:
                    for method in METHODS:
                        L = "%s %s %s after another pattern" % (prec, kind, method)
                        o = w.run(lambda: w.meth(d, "set_dmd_grating_state", *vals, method=lit(method)), o1.st)
                        if c.runs(L, o):
                            judge(c, w, L, d, o.st, method, lambda g: want(c, L, method, g, *terms))
            c.group("%s %s" % (prec, kind), f)

        def g():
            it.st = w.base
            d = dmd(w, POS)
            base = it.st
            c.anchor = c.loc("DMD.set_dmd_grating_state")
            for method in METHODS:
                L = "%s defaults %s" % (prec, method)
                o = w.run(lambda: w.meth(d, "set_dmd_grating_state", method=lit(method)), base)
                if c.runs(L, o):
                    judge(c, w, L, d, o.st, method, lambda g: want(c, L, method, g, t.ONE, t.ZERO, t.ZERO))
            L = "%s default method" % prec
            o = w.run(lambda: w.meth(d, "set_dmd_grating_state"), base)
            if c.runs(L, o):
                judge(c, w, L, d, o.st, "random", lambda g: want(c, L, "random", g, t.ONE, t.ZERO, t.ZERO))
        c.group(prec + " defaults", g)


PRESETS = {"DLP9500": (1920, 1080, Fr("10.8") / 10 ** 6), "DLP7000": (1024, 768, Fr("13.68") / 10 ** 6), "DLP9000": (2560, 1600, Fr("7.56") / 10 ** 6)}


def c19(c):
    c.rule = "negative_order = positive order with both phase maps negated, everywhere, read at calculation time"
    for prec in PRECS:
        w = c.world(prec)
        it = w.it
        it.st = w.base
        devs = []
        for neg, v in ((False, POS), (True, NEGV)):
            devs.append(("negative_order=%s" % neg, dmd(w, v), neg, SH, None))
            devs.append(("negative_order=numpy.bool_(%s)" % neg, dmd(w, Num(t.T(neg), "np", "bool")), neg, SH, None))
        o = w.run(lambda: w.new("DMD", P(LAM), P(F), P(PER), P(TH), P(NX, "int"), P(NY, "int"), P(PX)))
        if c.runs(prec + " default order", o):
            devs.append(("default order", o.val, False, SH, None))
        for name, (nx, ny, px) in PRESETS.items():
            for neg in (False, True):
                args = [P(LAM), P(F), P(PER), P(TH)]
                for how in ("keyword", "positional"):
                    o = w.run(lambda: w.new(name, *args, negative_order=lit(neg)) if how == "keyword" else w.new(name, *args, lit(neg)))
                    if c.runs("%s %s(%s)" % (prec, name, neg), o):
                        nn, mm = t.num(nx), t.num(ny)
                        devs.append(("%s(%s %s)" % (name, how, neg), o.val, neg, (mm, nn),
                                     grating_phase(fp_x(nn, t.num(px)), fp_y(mm, t.num(px)), PER, t.num(px))))
        base = it.st
        for name, d, neg, sh, gp in devs:
            it.st = base
            tag = "" if gp is None else name[:7]     # symbols of one name have one shape
            vals = [array(w, n + tag, "f64", sh) for n in ("amp", "pin", "pout")]
            terms = [t.sym(n + tag, sh, "real") for n in ("amp", "pin", "pout")]
            inp, tin = array(w, "inp" + tag, "c128", sh), t.sym("inp" + tag, sh)
            tar, tta = array(w, "tar" + tag, "c128", sh), t.sym("tar" + tag, sh)
            win = w.run(lambda: w.new("RectangularWindowCircular", P(X0), P(Y0), P(RR)))
            gxy = (ip_x(sh[1]), ip_y(sh[0])) if gp is None else (ip_x(sh[1], t.num(PRESETS[name.split("(")[0]][2])), ip_y(sh[0], t.num(PRESETS[name.split("(")[0]][2])))
            tw = circ_spec(*gxy)
            st0 = it.st

            def set_neg(v, st):
                q = w.run(lambda: it.setattr(d, "negative_order", lit(v)), st)
                return q.st if q.ok else None

            def run_all(L, st, neg):
                for method in METHODS:
                    c.anchor = c.loc("DMD.set_dmd_grating_state")
                    LL = "%s %s set_dmd_grating_state" % (L, method)
                    o = w.run(lambda: w.meth(d, "set_dmd_grating_state", *vals, method=lit(method)), st)
                    if c.runs(LL, o):
                        c.group(LL, judge, c, w, LL, d, o.st, method, lambda g: want(c, LL, method, g, *terms, neg=neg, gp=gp, shape=sh), sh)
                    c.anchor = c.loc("DMD.circular_patch")
                    LL = "%s %s circular_patch" % (L, method)
                    prev = state(w, d, st)
                    pt = t.as_num(w.num(prev.val).term)
                    o = w.run(lambda: w.meth(d, "circular_patch", P(CI), P(CJ), *vals, P(DD), method=lit(method)), st)
                    if c.runs(LL, o):
                        ins = inside(sh)

                        def sp(g):
                            x = want(c, LL, method, g, *terms, neg=neg, gp=gp, shape=sh)
                            return None if x is None else t.ite(ins, t.as_num(x), pt)
                        c.group(LL, judge, c, w, LL, d, o.st, method, sp, sh, ("bool", w.R, "f64"))
                    c.anchor = c.loc("DMD.calculate_dmd_state")
                    LL = "%s %s calculate_dmd_state" % (L, method)
                    o = w.run(lambda: w.meth(d, "calculate_dmd_state", inp, tar, method=lit(method)), st)
                    if c.runs(LL, o):
                        a, pi, po, m = mode_match(tin, tta, shape=sh)
                        c.group(LL, judge, c, w, LL, d, o.st, method, lambda g: want(c, LL, method, g, a, pi, po, neg=neg, gp=gp, shape=sh), sh)
                LL = "%s ifta calculate_dmd_state" % L
                if win.ok and gp is None:
                    o = w.run(lambda: w.meth(d, "calculate_dmd_state", inp, tar, method=lit("ifta"), signal_window=win.val, N=P(NI, "int")), st)
                    if c.runs(LL, o):
                        a, pi, po, m = mode_match(tin, tta, shape=sh)
                        c.group(LL, judge, c, w, LL, d, o.st, "ifta", lambda g: ifta(a, pi, po, tin, tw, neg, NI, gp=gp, shape=sh), sh)
                return w.it.st
            L = "%s %s" % (prec, name)
            st1 = None

            def body():
                st1 = run_all(L, st0, neg)
                if gp is None or "keyword" in name and c.thorough:
                    s2 = set_neg(not neg, st0)
                    if s2 is not None:
                        run_all(L + " order changed", s2, not neg)
                    s3 = set_neg(not neg, st1 or st0)
                    if s3 is not None:
                        run_all(L + " order changed after use", s3, not neg)
                        g = w.run(lambda: w.get(d, "negative_order"), s3)
                        if c.runs(L + " reads back", g):
                            tr = it.truth(g.val)
                            c.true(L + " reads back", tr is (t.FALSE if neg else t.TRUE), "negative_order is %r" % (g.val,))
            c.group(L, body)
            # nothing else depends on it
            for attr, sp in (("first_order_origin", None), ("fourier_plane_grid", (GX, GY)), ("image_plane_grid", (IX, IY))):
                if gp is not None:
                    continue
                g = w.run(lambda: w.get(d, attr), st0)
                if g.ok:
                    sps = sp or (t.fun("cos", TH) * LAM * F / (PER * PX), t.fun("sin", TH) * LAM * F / (PER * PX))
                    for k, (v, s_) in enumerate(zip(pair(w, g.val), sps)):
                        c.value("%s %s[%d]" % (L, attr, k), w, v, s_, state=g.st)
            o = w.run(lambda: w.meth(d, "calculate_dmd_state", inp, tar, method=lit("ideal")), st0)
            if o.ok and gp is None:
                c.value(L + " efficiency", w, o.val, eta(mode_match(tin, tta)[3]), (), state=o.st)
        c.no_issues(prec + " the order is read at calculation time", w, ("stale", "trace-effect"), ("negative_order",))


def inside(sh=SH, ci=CI, cj=CJ, dd=DD):
    return t.lt((t.idx(0, sh[0]) - ci) ** 2 + (t.idx(1, sh[1]) - cj) ** 2, (dd / 2) ** 2)


def targets(w):
    """(label, input, its value on the grid, target, its value on the image grid)"""
    return [("arrays", array(w, "inp", "c128", SH), t.sym("inp", SH), array(w, "tar", "c128", SH), t.sym("tar", SH)),
            ("complex profiles", profile(w, "inc", True), U("inc", "fourier", True), profile(w, "tac", True), U("tac", "image", True)),
            ("real profiles", profile(w, "inr"), U("inr"), profile(w, "tar"), U("tar", "image")),
            ("number and tensor", P(S("beam", "pos")), S("beam", "pos"), tensor("tat", w.C, SH), t.sym("tat", SH))]


def windows(w):
    out = []
    for cls, args, spec in (("RectangularWindowCircular", [X0, Y0, RR], circ_spec), ("RectangularWindowRectangle", [X0, Y0, WX, WY], rect_spec)):
        o = w.run(lambda: w.new(cls, *[P(a) for a in args]))
        if o.ok:
            out.append((cls, o.val, spec(GX, GY), spec(IX, IY)))
    out.append(("user window", profile(w, "swin"), U("swin"), U("swin", "image")))
    return out


def c20(c):
    c.rule = "ifta result equals the documented iteration (initial value, body and count of the loop, final threshold)"
    for prec in PRECS:
        w = c.world(prec)
        it = w.it
        it.st = w.base
        d = dmd(w, POS)
        tg, ws = targets(w), windows(w)
        base = it.st
        c.anchor = c.loc("_calculate_dmd_grating_ifta")
        for label, iv, it_, tv, tt in tg:
            a, pi, po, m = mode_match(it_, tt)
            for wl, wv, wf, wi in ws:
                for ol, kw, n, s in (("N, s given", {"N": P(NI, "int"), "s": P(SS)}, NI, SS), ("defaults", {}, t.num(200), t.ONE),
                                     ("N given", {"N": P(NI, "int")}, NI, t.ONE), ("s given", {"s": P(SS)}, t.num(200), SS)):
                    L = "%s %s, %s, %s" % (prec, label, wl, ol)

                    def f():
                        o = w.run(lambda: w.meth(d, "calculate_dmd_state", iv, tv, method=lit("ifta"), signal_window=wv, **kw), base)
                        if c.runs(L, o):
                            judge(c, w, L, d, o.st, "ifta", lambda g: ifta(a, pi, po, it_, wi, False, n, s))
                    c.group(L, f)
            # concrete small numbers of rounds, including one
            for n in (1, 2):
                wl, wv, wf, wi = ws[0]
                L = "%s %s N=%d" % (prec, label, n)

                def f():
                    o = w.run(lambda: w.meth(d, "calculate_dmd_state", iv, tv, method=lit("ifta"), signal_window=wv, N=lit(n)), base)
                    if c.runs(L, o):
                        judge(c, w, L, d, o.st, "ifta", lambda g: ifta(a, pi, po, it_, wi, False, t.num(n), t.ONE))
                c.group(L, f)
        # fourier-plane window as well
        label, iv, it_, tv, tt = tg[0]
        wl, wv, wf, wi = ws[0]
        wl2, wv2, wf2, wi2 = ws[1]
        a, pi, po, m = mode_match(it_, tt, wf2)
        L = "%s with a Fourier-plane window" % prec

        def f():
            o = w.run(lambda: w.meth(d, "calculate_dmd_state", iv, tv, method=lit("ifta"), window=wv2, signal_window=wv, N=P(NI, "int")), base)
            if c.runs(L, o):
                judge(c, w, L, d, o.st, "ifta", lambda g: ifta(a, pi, po, it_, wi, False, NI))
        c.group(L, f)


def c21(c):
    c.rule = "grating arguments are the mode-matching formula; returned efficiency is pitch^2*Nx*Ny/(lambda*f)/max ratio"
    for prec in PRECS:
        w = c.world(prec)
        it = w.it
        it.st = w.base
        d = dmd(w, POS)
        tg, ws = targets(w), windows(w)
        warr = array(w, "wfp", "f64", SH)
        wpro = profile(w, "wpr", True)
        base = it.st
        wins = [("no window", {}, None), ("window=None", {"window": NONE}, None), (ws[0][0], {"window": ws[0][1]}, ws[0][2]),
                ("window array", {"window": warr}, t.sym("wfp", SH, "real")), ("complex window", {"window": wpro}, U("wpr", "fourier", True))]
        for label, iv, it_, tv, tt in tg:
            for wl, kw, wt in wins:
                a, pi, po, m = mode_match(it_, tt, wt)
                for method in METHODS + ("ifta",):
                    if method == "ifta" and wl not in ("no window",):
                        continue
                    L = "%s %s, %s, %s" % (prec, label, wl, method)

                    def f():
                        k = dict(kw)
                        if method == "ifta":
                            k.update(signal_window=ws[0][1], N=P(NI, "int"))
                        c.anchor = c.loc("DMD._calc_amp_phase")
                        o = w.run(lambda: w.meth(d, "calculate_dmd_state", iv, tv, method=lit(method), **k), base)
                        if not c.runs(L, o):
                            return
                        if method != "ifta":
                            judge(c, w, L, d, o.st, method, lambda g: want(c, L, method, g, a, pi, po))
                        else:
                            judge(c, w, L, d, o.st, method, lambda g: ifta(a, pi, po, it_, ws[0][3], False, NI))
                        c.anchor = c.loc("DMD.calculate_dmd_state")
                        c.value(L + " efficiency", w, o.val, eta(m), (), state=o.st)
                    c.group(L, f)
        # default method, and arguments by name
        label, iv, it_, tv, tt = tg[0]
        a, pi, po, m = mode_match(it_, tt)
        for L, call in (("default method", lambda: w.meth(d, "calculate_dmd_state", iv, tv)),
                        ("by name", lambda: w.meth(d, "calculate_dmd_state", target_profile=tv, input_profile=iv, method=lit("random")))):
            L = prec + " " + L

            def f():
                o = w.run(call, base)
                if c.runs(L, o):
                    judge(c, w, L, d, o.st, "random", lambda g: want(c, L, "random", g, a, pi, po))
                    c.value(L + " efficiency", w, o.val, eta(m), (), state=o.st)
            c.group(L, f)
        # a second calculation with other profiles
        label, iv2, it2, tv2, tt2 = tg[1]
        o1 = w.run(lambda: w.meth(d, "calculate_dmd_state", iv2, tv2, method=lit("ideal"), window=ws[0][1]), base)
        if o1.ok:
            L = prec + " after another calculation"

            def f():
                o = w.run(lambda: w.meth(d, "calculate_dmd_state", iv, tv, method=lit("ideal")), o1.st)
                if c.runs(L, o):
                    judge(c, w, L, d, o.st, "ideal", lambda g: ideal(a, pi, po))
                    c.value(L + " efficiency", w, o.val, eta(m), (), state=o.st)
            c.group(L, f)


def c22(c):
    c.rule = "states are boolean (Ny, Nx), grey-scale only for ideal; packing is row-major, most significant bit first"
    for prec in PRECS:
        w = c.world(prec)
        it = w.it
        it.st = w.base
        d = dmd(w)
        barr = array(w, "bst", "bool", SH)
        tg, ws = targets(w), windows(w)
        ms = maps(w, "profiles")
        base = it.st
        z = t.ite(t.lt(t.idx(0, NY), NY), t.ZERO, t.ONE)

        def check_state(L, st, spec, dtype, anchor):
            c.anchor = c.loc(anchor)
            o = state(w, d, st)
            c.value(L, w, o.val, spec, SH, dtype, "np", state=o.st)
        c.group(prec + " new", check_state, prec + " new device", base, t.FALSE, "bool", "DMD.__init__")
        starts = [("new", base)]
        o = w.run(lambda: it.setattr(d, "dmd_state", barr), base)
        starts.append(("any", o.st))
        grey = []
        for dt in (w.R, "f64"):
            q = w.run(lambda: it.setattr(d, "dmd_state", array(w, "grey_" + dt, dt, SH)), base)
            grey.append(("grey " + dt, q.st))
        for sl, st in starts + grey:
            for m, v in (("set_dmd_state_off", t.FALSE), ("set_dmd_state_on", t.TRUE)):
                o = w.run(lambda: w.meth(d, m), st)
                if c.runs("%s %s %s" % (prec, sl, m), o):
                    c.group(m, check_state, "%s %s %s" % (prec, sl, m), o.st, v, "bool", "DMD." + m)
        for method in METHODS:
            dt = w.R if method == "ideal" else "bool"
            for L, f in (("set_dmd_grating_state", lambda: w.meth(d, "set_dmd_grating_state", *[m[0] for m in ms], method=lit(method))),
                         ("calculate_dmd_state", lambda: w.meth(d, "calculate_dmd_state", tg[0][1], tg[0][3], method=lit(method))),
                         ("calculate_dmd_state of profiles", lambda: w.meth(d, "calculate_dmd_state", tg[2][1], tg[2][3], method=lit(method))),
                         ("circular_patch", lambda: w.meth(d, "circular_patch", P(CI), P(CJ), *[m[0] for m in ms], P(DD), method=lit(method)))):
                if L == "circular_patch" and method == "ideal":
                    continue        # grey levels over a boolean state: C23
                for sl, st in starts + (grey if L != "circular_patch" else []):
                    LL = "%s %s %s (%s state before)" % (prec, L, method, sl)
                    o = w.run(f, st)
                    if c.runs(LL, o):
                        c.group(LL, check_state, LL, o.st, None, dt, "DMD." + L.split()[0])
        LL = prec + " ifta"
        o = w.run(lambda: w.meth(d, "calculate_dmd_state", tg[0][1], tg[0][3], method=lit("ifta"), signal_window=ws[0][1], N=P(NI, "int")), base)
        if c.runs(LL, o):
            c.group(LL, check_state, LL, o.st, None, "bool", "DMD.calculate_dmd_state")
        # packing
        c.anchor = c.loc("DMD.pack_dmd_state")

        def pack():
            st = starts[1][1]
            o = w.run(lambda: w.meth(d, "pack_dmd_state"), st)
            if c.runs(prec + " pack", o):
                it.st = o.st
                judge_pack(c, w, prec + " pack", o.val, it.num(barr).term)
                c.group("pack", check_state, prec + " state after packing", o.st, it.num(barr).term, "bool", "DMD.pack_dmd_state")
        c.group(prec + " pack", pack)
        for dt in (w.R, "f64", "u8", "i64", "c64", "c128"):
            a = array(w, "other_" + dt, dt, SH)
            o = w.run(lambda: it.setattr(d, "dmd_state", a), it.st)
            q = w.run(lambda: w.meth(d, "pack_dmd_state"), o.st)
            c.group("pack", c.raises, "%s pack of %s" % (prec, dt), q, "TypeError")


def judge_pack(c, w, label, v, term, cond=None):
    """bytes of the packed state: np.packbits over the flattened map, big bit order"""
    if isinstance(v, Choice):
        c.each(label, v, cond, lambda x, cd: judge_pack(c, w, label, x, term, cd))
        return
    if not (isinstance(v, Str) and v.op == "bytes" and isinstance(v.args[0], Num)):
        c.undecided(label, "packed value is %r" % (v,))
        return
    n = v.args[0]
    if n.dtype != "u8":
        c.fail(label, "bytes of a %s array" % n.dtype)
        return
    if n.shape is None:
        c.undecided(label, "unknown shape")
        return
    if len(n.shape) != 1:
        c.fail(label, "packs along an axis: rows whose length is not a multiple of 8 are filled up, so the bytes are not one bit per mirror")
        return
    size_ = t.ceil(NX * NY / 8)
    ref = t.opaque("packbits", (term,), (), (size_,), "int", "nonneg")
    c.value(label, w, n.with_(kind="np"), ref, (size_,), cond=cond)


def c23(c):
    c.rule = "inside the open disc the state is the grating of set_dmd_grating_state, outside it is the previous state"
    for prec in PRECS:
        w = c.world(prec)
        it = w.it
        it.st = w.base
        d = dmd(w, POS)
        barr, garr = array(w, "bst", "bool", SH), array(w, "gst", w.R, SH)
        pro, arr, nums = maps(w, "profiles"), maps(w, "arrays"), maps(w, "numbers")
        ii, jj, dd = S("pi", "int", "nonneg"), S("pj", "int", "nonneg"), S("pd", "int", "pos")
        iv = ifta_inputs(w)
        base = it.st
        starts = []
        for L, a in (("boolean", barr), ("grey", garr)):
            o = w.run(lambda: it.setattr(d, "dmd_state", a), base)
            starts.append((L, o.st, it.num(a).term))
        c.anchor = c.loc("DMD.circular_patch")
        for sl, st, prev in starts:
            for kind, ms in (("profiles", pro), ("arrays", arr), ("numbers", nums)):
                vals, terms = [m[0] for m in ms], [m[1] for m in ms]
                for nl, pi_, pj_, pd_, kd in (("float", CI, CJ, DD, "float"), ("int", ii, jj, dd, "int")):
                    for method in METHODS:
                        L = "%s %s state, %s, %s position, %s" % (prec, sl, kind, nl, method)

                        def f():
                            o = w.run(lambda: w.meth(d, "circular_patch", P(pi_, kd), P(pj_, kd), *vals, P(pd_, kd), method=lit(method)), st)
                            if not c.runs(L, o):
                                return
                            ins = inside(SH, pi_, pj_, pd_)

                            def sp(g):
                                x = want(c, L, method, g, *terms)
                                return None if x is None else t.ite(ins, t.as_num(x), t.as_num(prev))
                            judge(c, w, L, d, o.st, method, sp, SH, ("bool",) if sl == "boolean" and method != "ideal" else (w.R, "f64"))
                        c.group(L, f)
            vals, terms = [m[0] for m in arr], [m[1] for m in arr]
            L = "%s %s state, by name, default method" % (prec, sl)

            def f():
                o = w.run(lambda: w.meth(d, "circular_patch", d=P(DD), j=P(CJ), i=P(CI), amp=vals[0], phase_out=vals[2], phase_in=vals[1]), st)
                if c.runs(L, o):
                    def sp(g):
                        x = want(c, L, "random", g, *terms)
                        return None if x is None else t.ite(inside(), t.as_num(x), t.as_num(prev))
                    judge(c, w, L, d, o.st, "random", sp, SH, ("bool", w.R, "f64"))
            c.group(L, f)
            L = "%s %s state, two patches" % (prec, sl)

            def f():
                o = w.run(lambda: w.meth(d, "circular_patch", P(CI), P(CJ), *vals, P(DD), method=lit("ideal")), st)
                o2 = w.run(lambda: w.meth(d, "circular_patch", P(S("ck", "real")), P(S("cl", "real")), nums[0][0], nums[1][0], nums[2][0], P(S("de", "pos")), method=lit("ideal")), o.st)
                if c.runs(L, o2):
                    first = t.ite(inside(), ideal(*terms), t.as_num(prev))
                    judge(c, w, L, d, o2.st, "ideal", lambda g: t.ite(inside(SH, S("ck", "real"), S("cl", "real"), S("de", "pos")),
                          ideal(*[m[1] for m in nums]), first), SH, ("bool", w.R, "f64"))
            c.group(L, f)
            L = "%s %s state, ifta" % (prec, sl)

            def f():
                o = w.run(lambda: w.meth(d, "circular_patch", P(CI), P(CJ), *vals, P(DD), method=lit("ifta"), input_profile=iv[0], signal_window=iv[2], N=P(NI, "int")), st)
                if c.runs(L, o):
                    judge(c, w, L, d, o.st, "ifta", lambda g: t.ite(inside(), t.as_num(ifta(*terms, iv[1], iv[3], False, NI)), t.as_num(prev)),
                          SH, ("bool", w.R, "f64"))
            c.group(L, f)


GRID = "Sizes, pitch, wavelength, focal length, grating period and angle, all maps and options are symbolic. "
CHECKS = {
    "C18": Check(c18, VN + GRID),
    "C19": Check(c19, VN + GRID + "Every preset and every entry point, both orders, and the attribute changed before and after use."),
    "C20": Check(c20, VN + GRID + "The loop is summarised by its initial value, one symbolic round and the round count.",
                 ["signal windows are 0/1 windows of the library"]),
    "C21": Check(c21, VN + GRID),
    "C22": Check(c22, VN + GRID),
    "C23": Check(c23, VN + GRID + "The previous state is an arbitrary boolean or grey-scale map."),
}
