"""C26 (failed calculations), C35 (options)."""
from .grat import *
from .prof import coords, evaluate, zernike_spec, AM, RAD


def bad_profile(w, name="bad"):
    """profile whose evaluation raises"""
    from sa.lib_misc import pseudo_class
    it = w.it
    base = w.attr("FunctionProfile")

    def f(it, args, kw):
        it.throw("RuntimeError", K("evaluation of the profile fails"))
    c = pseudo_class(it, "FailingProfile_" + name, {profile_hook(base): Native("failing profile", f)}, [base])
    return it.alloc(Inst(c, {}))


def unchanged(c, w, label, ref, attr, before, o, names=None):
    """every way the call can raise leaves the attribute as it was"""
    it = w.it
    seen = False
    for st, e in o.raised:
        if st.pc is t.FALSE:
            continue
        seen = True
        a = before.heap[ref.oid].attrs.get(attr)
        x, y = state(w, ref, before, attr), None
        x = x.val
        b = w.run(lambda: w.get(ref, attr), st)
        if not b.ok:
            c.fail("%s: %s after %s" % (label, attr, e.name), "can no longer be read", e.where)
            continue
        c.equal_values("%s: %s after %s" % (label, attr, e.name), w, b.val, b.st, x, before,
                       cond=st.pc if st.pc is not t.TRUE else None, where=e.where)
    return seen


def near(names):
    """names that are almost those of the methods"""
    out = []
    for n in names:
        out += [n[:-1], n[:1], n[1:], n + n[-1], n + "_", "_" + n, n + "2", n + " ", " " + n, n.upper(), n.title(), n + "." , "default " + n, n[::-1]]
    return [x for x in dict.fromkeys(out) if x not in names and x]


def c26(c):
    c.rule = "on every exceptional exit of a calculation the state equals the state at entry; unknown method: ValueError; missing window raises"
    for prec in PRECS:
        w = c.world(prec)
        it = w.it
        it.st = w.base
        d = dmd(w)
        l = lcos(w)
        barr, garr = array(w, "bst", "bool", SH), array(w, "gst", w.R, SH)
        iarr, tarr = array(w, "inp", "c128", SH), array(w, "tar", "c128", SH)
        zero = P(t.ZERO)
        bad = bad_profile(w)
        ms = [m[0] for m in maps(w, "arrays")]
        pr = [m[0] for m in maps(w, "profiles")]
        wins = windows(w)
        win = wins[0][1]
        other = array(w, "wrong", "f64", (S("Q1", "int", "pos"), S("Q2", "int", "pos"), NX))
        base = it.st
        meths = ["no-such-method", "", "Random", "gs", "mraf"] + near(("ideal", "simple", "random", "ifta")) + [None, 0]
        entries = []
        for bs in ("boolean", "grey"):
            q = w.run(lambda: it.setattr(d, "dmd_state", barr if bs == "boolean" else garr), base)
            st = q.st
            E = lambda L, f, exp: entries.append(("%s %s state %s" % (prec, bs, L), d, "dmd_state", st, f, exp))
            for m in meths:
                E("set_dmd_grating_state(method=%r)" % m, lambda m=m: w.meth(d, "set_dmd_grating_state", *ms, method=lit(m)), "ValueError")
                E("set_dmd_grating_state(defaults, method=%r)" % m, lambda m=m: w.meth(d, "set_dmd_grating_state", method=lit(m)), "ValueError")
                E("circular_patch(method=%r)" % m, lambda m=m: w.meth(d, "circular_patch", P(CI), P(CJ), *pr, P(DD), method=lit(m)), "ValueError")
                E("calculate_dmd_state(method=%r)" % m, lambda m=m: w.meth(d, "calculate_dmd_state", iarr, tarr, method=lit(m)), "ValueError")
                E("calculate_dmd_state(window, method=%r)" % m, lambda m=m: w.meth(d, "calculate_dmd_state", pr[0], pr[1], method=lit(m), window=win, signal_window=win, N=lit(3)), "ValueError")
            E("calculate_dmd_state(ifta) without window", lambda: w.meth(d, "calculate_dmd_state", iarr, tarr, method=lit("ifta")), "Exception")
            E("calculate_dmd_state(ifta, N, s) without window", lambda: w.meth(d, "calculate_dmd_state", iarr, tarr, method=lit("ifta"), N=lit(5), s=P(SS)), "Exception")
            # the internal method needs the input and the signal window
            for kl, kw in (("nothing", {}), ("the input", {"input_profile": iarr}), ("the window", {"signal_window": win}), ("N, s", {"N": lit(5), "s": P(SS)})):
                for al, a in (("arrays", ms), ("profiles", pr)):
                    E("set_dmd_grating_state(ifta) of %s with %s" % (al, kl), lambda a=a, kw=kw: w.meth(d, "set_dmd_grating_state", *a, method=lit("ifta"), **kw), None)
                    E("circular_patch(ifta) of %s with %s" % (al, kl), lambda a=a, kw=kw: w.meth(d, "circular_patch", P(CI), P(CJ), *a, P(DD), method=lit("ifta"), **kw), None)
            for m in METHODS + ("ifta",):
                kw = {"signal_window": win} if m == "ifta" else {}
                E("calculate_dmd_state(%s) of any profiles" % m, lambda m=m, kw=kw: w.meth(d, "calculate_dmd_state", iarr, tarr, method=lit(m), **kw), None)
                E("calculate_dmd_state(%s) of an all-zero target" % m, lambda m=m, kw=kw: w.meth(d, "calculate_dmd_state", iarr, zero, method=lit(m), **kw), None)
                E("calculate_dmd_state(%s) failing input" % m, lambda m=m, kw=kw: w.meth(d, "calculate_dmd_state", bad, tarr, method=lit(m), **kw), "Exception")
                E("calculate_dmd_state(%s) failing target" % m, lambda m=m, kw=kw: w.meth(d, "calculate_dmd_state", iarr, bad, method=lit(m), **kw), "Exception")
                E("calculate_dmd_state(%s) failing window" % m, lambda m=m, kw=kw: w.meth(d, "calculate_dmd_state", iarr, tarr, method=lit(m), window=bad, **kw), "Exception")
            E("calculate_dmd_state(ifta) failing signal window", lambda: w.meth(d, "calculate_dmd_state", iarr, tarr, method=lit("ifta"), signal_window=bad), "Exception")
            for k in range(3):
                a = list(ms)
                a[k] = bad
                for m in METHODS:
                    E("set_dmd_grating_state(%s) failing argument %d" % (m, k), lambda a=a, m=m: w.meth(d, "set_dmd_grating_state", *a, method=lit(m)), "Exception")
                    E("circular_patch(%s) failing argument %d" % (m, k), lambda a=a, m=m: w.meth(d, "circular_patch", P(CI), P(CJ), *a, P(DD), method=lit(m)), "Exception")
            # values no algorithm can take
            E("set_dmd_grating_state(r='x')", lambda: w.meth(d, "set_dmd_grating_state", *ms, method=lit("random"), r=lit("x")), None)
            E("calculate_dmd_state(r='x')", lambda: w.meth(d, "calculate_dmd_state", iarr, tarr, method=lit("random"), r=lit("x")), None)
            E("calculate_dmd_state(N='x')", lambda: w.meth(d, "calculate_dmd_state", iarr, tarr, method=lit("ifta"), signal_window=win, N=lit("x")), None)
            E("circular_patch(r='x')", lambda: w.meth(d, "circular_patch", P(CI), P(CJ), *ms, P(DD), method=lit("random"), r=lit("x")), None)
        harr = array(w, "hst", w.R, SH)
        q = w.run(lambda: it.setattr(l, "slm_state", harr), it.st)
        lst = q.st
        ramp = array(w, "tamp", "f64", SH)
        lst = it.st
        for st, sl in ((lst, "set"), (base, "new")):
            E = lambda L, f, exp: entries.append(("%s %s %s" % (prec, sl, L), l, "slm_state", st, f, exp))
            if st is base:
                it.st = base
            for m in ["no-such-method", "", "GS", "ifta", "random"] + near(("gs", "mraf")) + [None, 0]:
                E("calculate_hologram(method=%r)" % m, lambda m=m: w.meth(l, "calculate_hologram", iarr, tarr2, method=lit(m)), "ValueError")
                E("calculate_hologram(window, method=%r)" % m, lambda m=m: w.meth(l, "calculate_hologram", iarr, tarr2, method=lit(m), signal_window=win, N=lit(3)), "ValueError")
            E("calculate_hologram(mraf) without window", lambda: w.meth(l, "calculate_hologram", iarr, tarr2, method=lit("mraf")), "Exception")
            E("calculate_hologram(mraf, mixing) without window", lambda: w.meth(l, "calculate_hologram", iarr, tarr2, method=lit("mraf"), mixing_factor=P(SS), N=lit(5)), "Exception")
            for m in ("gs", "mraf"):
                kw = {"signal_window": win} if m == "mraf" else {}
                E("calculate_hologram(%s) of any profiles" % m, lambda m=m, kw=kw: w.meth(l, "calculate_hologram", iarr, tarr2, method=lit(m), **kw), None)
                E("calculate_hologram(%s) failing input" % m, lambda m=m, kw=kw: w.meth(l, "calculate_hologram", bad, tarr2, method=lit(m), **kw), "Exception")
                E("calculate_hologram(%s) failing target" % m, lambda m=m, kw=kw: w.meth(l, "calculate_hologram", iarr, bad, method=lit(m), **kw), "Exception")
            E("calculate_hologram(mraf) failing window", lambda: w.meth(l, "calculate_hologram", iarr, tarr2, method=lit("mraf"), signal_window=bad), "Exception")
            E("calculate_hologram(N='x')", lambda: w.meth(l, "calculate_hologram", iarr, tarr2, method=lit("gs"), N=lit("x")), None)
        tarr2 = pr[1]
        for L, ref, attr, st, f, exp in entries:
            c.anchor = c.loc(("DMD." if ref is d else "LCOS_SLM.") + L.split("(")[0].split()[-1])

            def g():
                o = w.run(f, st)
                if exp is not None:
                    c.raises(L, o, exp)
                unchanged(c, w, L, ref, attr, st, o)
                # the operation still works after the failure
                if exp is None and not o.raised:
                    c.ok(L + " does not raise")
            c.group(L, g)


def sticky(c, w, prec, base, calls, d, prev):
    """a call that gives an option, then one that does not: the second has the documented defaults"""
    it = w.it
    giving = [k for k in calls if k[0].split()[-1] == "given" or "given" in k[0] or "window" in k[0] and "no window" not in k[0]]
    plain = [k for k in calls if k[0].split()[-1] in ("default", "defaults") and "ignored" not in k[0] or "no window" in k[0]]
    mine = {}
    for k in giving:
        mine.setdefault((k[0].split()[0], "ifta" in k[0] or "signal_window" in k[0], "mraf" in k[0]), k)
    mine = list(mine.values()) + [k for k in giving if " window" in k[0]][:1]
    for k1 in mine:
        for k2 in plain:
            if k1[3] is not k2[3]:
                continue
            L = "%s %s, then %s" % (prec, k1[0], k2[0])
            dev, attr = k2[3], k2[4]
            c.anchor = c.loc(k2[6])

            def f():
                it.st = base
                old = w.get(dev, attr)

                def seq():
                    k1[1]()
                    if dev is d:
                        it.setattr(d, "dmd_state", old)
                    return k2[1]()
                o = w.run(seq, base)
                if c.runs(L, o):
                    s = state(w, dev, o.st, attr)
                    n = w.num(s.val)
                    x = k2[2](L, n.term)
                    if x is not None:
                        c.value(L, w, s.val, x, SH, k2[5], "np", state=s.st)
            c.group(L, f)


def c35(c):
    c.rule = "each option is symbolic at every public entry point; the result must contain it exactly where the algorithm names it, or the documented default"
    from .lcos import MIX
    for prec in PRECS:
        w = c.world(prec)
        it = w.it
        it.st = w.base
        d = dmd(w, POS)
        l = lcos(w)
        ms = maps(w, "arrays")
        vals, terms = [m[0] for m in ms], [m[1] for m in ms]
        tg, ws = targets(w), windows(w)
        iv = ifta_inputs(w)
        _, inv, int_, tav, tat = tg[0]
        ramp = array(w, "tamp", "f64", SH)
        tamp = t.sym("tamp", SH, "real")
        wl, wv, wf, wi = ws[0]
        a, pi, po, m = mode_match(int_, tat)
        q = w.run(lambda: it.setattr(d, "dmd_state", array(w, "bst", "bool", SH)))
        prev = it.num(w.get(d, "dmd_state")).term
        cx = coords(w)[:1]
        base = it.st
        patch = lambda x: t.ite(inside(), t.as_num(x), t.as_num(prev))

        calls = []

        def run(L, f, sp, dev=d, attr="dmd_state", dt=("bool", w.R, "f64"), anchor=None):
            calls.append((L, f, sp, dev, attr, dt, anchor))
            L = prec + " " + L
            c.anchor = c.loc(anchor)

            def g():
                o = w.run(f, base)
                if c.runs(L, o):
                    s = state(w, dev, o.st, attr)
                    n = w.num(s.val)
                    x = sp(L, n.term)
                    if x is not None:
                        c.value(L, w, s.val, x, SH, dt, "np", state=s.st)
            c.group(L, g)

        def rnd(amp, pin, pout, r, wrap=lambda x: x):
            def f(L, g):
                rd = rand_of(c, L, g)
                return None if rd is None else wrap(random_(amp, pin, pout, rd, False, r))
            return f
        # r
        for rl, kw, r in (("r given", {"r": P(RO)}, RO), ("r default", {}, 10), ("int r given", {"r": P(S("ri", "int", "pos"), "int")}, S("ri", "int", "pos"))):
            run("set_dmd_grating_state " + rl, lambda kw=kw: w.meth(d, "set_dmd_grating_state", *vals, method=lit("random"), **kw), rnd(*terms, r), anchor="DMD.set_dmd_grating_state")
            run("circular_patch " + rl, lambda kw=kw: w.meth(d, "circular_patch", P(CI), P(CJ), *vals, P(DD), method=lit("random"), **kw), rnd(*terms, r, patch), anchor="DMD.circular_patch")
            run("calculate_dmd_state " + rl, lambda kw=kw: w.meth(d, "calculate_dmd_state", inv, tav, method=lit("random"), **kw), rnd(a, pi, po, r), anchor="DMD.calculate_dmd_state")
            # other options do not interfere
            run("calculate_dmd_state N and s ignored, " + rl, lambda kw=kw: w.meth(d, "calculate_dmd_state", inv, tav, method=lit("random"), N=P(NI, "int"), s=P(SS), **kw),
                rnd(a, pi, po, r), anchor="DMD.calculate_dmd_state")
        # N, s
        for nl, kw, n, s in (("N, s given", {"N": P(NI, "int"), "s": P(SS)}, NI, SS), ("defaults", {}, t.num(200), t.ONE),
                             ("N given", {"N": P(NI, "int")}, NI, t.ONE), ("s given", {"s": P(SS)}, t.num(200), SS)):
            run("calculate_dmd_state ifta " + nl, lambda kw=kw: w.meth(d, "calculate_dmd_state", inv, tav, method=lit("ifta"), signal_window=wv, **kw),
                lambda L, g, n=n, s=s: ifta(a, pi, po, int_, wi, False, n, s), anchor="DMD.calculate_dmd_state")
            run("set_dmd_grating_state ifta " + nl, lambda kw=kw: w.meth(d, "set_dmd_grating_state", *vals, method=lit("ifta"), input_profile=iv[0], signal_window=iv[2], **kw),
                lambda L, g, n=n, s=s: ifta(*terms, iv[1], iv[3], False, n, s), anchor="DMD.set_dmd_grating_state")
            run("circular_patch ifta " + nl, lambda kw=kw: w.meth(d, "circular_patch", P(CI), P(CJ), *vals, P(DD), method=lit("ifta"), input_profile=iv[0], signal_window=iv[2], **kw),
                lambda L, g, n=n, s=s: patch(ifta(*terms, iv[1], iv[3], False, n, s)), anchor="DMD.circular_patch")
        # window
        for wl_, wv_, wf_, wi_ in ws:
            a2, pi2, po2, m2 = mode_match(int_, tat, wf_)
            run("calculate_dmd_state window " + wl_, lambda wv_=wv_: w.meth(d, "calculate_dmd_state", inv, tav, method=lit("ideal"), window=wv_),
                lambda L, g, a2=a2, pi2=pi2, po2=po2: ideal(a2, pi2, po2), anchor="DMD.calculate_dmd_state")
            run("calculate_dmd_state signal_window " + wl_, lambda wv_=wv_: w.meth(d, "calculate_dmd_state", inv, tav, method=lit("ifta"), signal_window=wv_, N=P(NI, "int")),
                lambda L, g, wi_=wi_: ifta(a, pi, po, int_, wi_, False, NI), anchor="DMD.calculate_dmd_state")
        # LCOS
        for nl, kw, n, mx in (("N, mixing given", {"N": P(NI, "int"), "mixing_factor": P(MIX)}, NI, MIX), ("defaults", {}, t.num(200), None),
                              ("N given", {"N": P(NI, "int")}, NI, None), ("mixing given", {"mixing_factor": P(MIX)}, t.num(200), MIX)):
            def sp(L, g, n=n, mx=mx):
                rd = rand_of(c, L, g)
                return None if rd is None else mraf(int_, tamp, wi, rd, n, mx)
            run("calculate_hologram mraf " + nl, lambda kw=kw: w.meth(l, "calculate_hologram", inv, ramp, method=lit("mraf"), signal_window=wv, **kw), sp, l, "slm_state", w.R,
                anchor="LCOS_SLM.calculate_hologram")

            def sp2(L, g, n=n):
                rd = rand_of(c, L, g)
                return None if rd is None else gs(int_, tamp, rd, n)
            run("calculate_hologram gs " + nl, lambda kw=kw: w.meth(l, "calculate_hologram", inv, ramp, method=lit("gs"), **kw), sp2, l, "slm_state", w.R,
                anchor="LCOS_SLM.calculate_hologram")
        run("calculate_hologram default method", lambda: w.meth(l, "calculate_hologram", inv, ramp, N=P(NI, "int")),
            lambda L, g: (lambda rd: None if rd is None else gs(int_, tamp, rd, NI))(rand_of(c, L, g)), l, "slm_state", w.R, anchor="LCOS_SLM.calculate_hologram")
        run("calculate_dmd_state no window", lambda: w.meth(d, "calculate_dmd_state", inv, tav, method=lit("ideal")), lambda L, g: ideal(a, pi, po), anchor="DMD.calculate_dmd_state")
        c.group(prec + " calls after calls", sticky, c, w, prec, base, calls, d, prev)
        it.st = base
        # padding
        from .simu import padded
        c.anchor = c.loc("SLMSimulation.__init__")
        inc = profile(w, "inc", True)
        st1 = it.st
        for cls in ("SLMSimulation", "DMDSimulation"):
            for pl, args, kw, px_, py_ in (("positional", [P(PADX, "int"), P(PADY, "int")], {}, PADX, PADY),
                                           ("keyword", [], {"padding_y": P(PADY, "int"), "padding_x": P(PADX, "int")}, PADX, PADY),
                                           ("x only", [], {"padding_x": P(PADX, "int")}, PADX, t.ZERO), ("y only", [], {"padding_y": P(PADY, "int")}, t.ZERO, PADY),
                                           ("none", [], {}, t.ZERO, t.ZERO)):
                L = "%s %s padding %s" % (prec, cls, pl)

                def g():
                    o = w.run(lambda: w.new(cls, d, *args, **kw), st1)
                    if not c.runs(L, o):
                        return
                    for nm, sp_ in (("padding_x", px_), ("padding_y", py_)):
                        if cls == "SLMSimulation" or True:
                            g_ = w.run(lambda: w.get(o.val, nm), o.st)
                            if g_.ok:
                                c.value("%s .%s" % (L, nm), w, g_.val, sp_, ())
                    p = w.run(lambda: w.meth(o.val, "propagate_to_image", inc), o.st)
                    if c.runs(L + " propagate", p):
                        fld = w.run(lambda: w.get(o.val, "output_field"), p.st)
                        sh = (NY + 2 * py_, NX + 2 * px_)
                        z = U("inc", "fourier", True) * t.as_num(prev)
                        pz = t.pad(z, ((py_, py_), (px_, px_)), sh) if not (px_ is t.ZERO and py_ is t.ZERO) else z
                        c.value(L + " output_field", w, fld.val, pz, sh, w.C, "np", state=fld.st)
                c.group(L, g)
        # block_zeroth_order(r)
        # Zernike options
        c.anchor = c.loc("Zernike.__init__")
        for nz in (None, True, False):
            for ex in (None, True, False):
                kw = {}
                if nz is not None:
                    kw["normalize"] = lit(nz)
                if ex is not None:
                    kw["extrapolate"] = lit(ex)
                for n_, m_ in ((0, 0), (2, 0), (2, -2), (3, 1)):
                    L = "%s Zernike(%d, %d) normalize=%s extrapolate=%s" % (prec, n_, m_, nz, ex)
                    o = w.run(lambda: w.new("Zernike", P(AM), P(RAD), lit(n_), lit(m_), **kw), st1)
                    if c.runs(L, o):
                        evaluate(c, w, L, o.val, zernike_spec(n_, m_, nz is not False, ex is True), cx, o.st)
    # windows may be given in any kind
    from .kinds import c39
    c39(c, ("window", "signal_window"), PRECS if c.thorough else PRECS[:1])


CHECKS = {
    "C26": Check(c26, "Exceptional-exit analysis: every calculation entry point is interpreted from an arbitrary device state with symbolic inputs, "
                 "unknown methods, missing windows, profiles whose evaluation raises and inputs that make a later step raise; on every exceptional exit "
                 "the abstract value of the device state is compared with the one at entry."),
    "C35": Check(c35, VN + "Each option is a distinct symbol; results with and without the option are compared with the reference formula."),
}
