"""C38: arguments outside the documented domain are rejected."""
from .battery import *

MSH = {"transposed": (NX, NY), "with one row more": (NY + 1, NX), "with one column more": (NY, NX + 1), "of the padded plane": (NY + 2 * PADY, NX + 2 * PADX),
       "with a leading axis": (t.num(3), NY, NX), "with a trailing axis": (NY, NX, t.num(2)), "of one wrong axis": (NX + 1,)}


def c38(c):
    c.rule = "every path of the call with the rejected argument raises, and no object reachable before the call has changed"
    for prec in PRECS:
        w = c.world(prec)
        it = w.it
        it.st = w.base
        o = build(w)
        raw = w.run(lambda: w.new("FunctionProfile"))
        base = it.st
        # equal sizes are not meant: Nx, Ny and the paddings are in general position
        ok_pc = t.land(t.lnot(t.eq(NX, NY)), t.land(t.lt(t.ONE, NX), t.land(t.lt(t.ONE, NY), t.land(t.lt(t.ZERO, PADX), t.lt(t.ZERO, PADY)))))

        def rejected(L, f, names, cond=None, anchor="", keep=True):
            c.anchor = c.loc(anchor) if anchor else ""

            def g():
                r = w.run(f, base)
                c.raises(L, r, names, cond)
                if keep:
                    for s, e in r.raised:
                        for n, obj in (("device", o.d), ("LCOS device", o.l), ("simulation", o.sim)):
                            c.same_heap("%s leaves the %s" % (L, n), w, obj, base, s)
            c.group(L, g)
        # ---- simulations
        bad = [("1.5", lit(1.5)), ("2.0", lit(2.0)), ("'2'", K("2")), ("None", NONE), ("a list", it.alloc(ListO([lit(1)]))), ("1+0j", Num(t.ONE, "py", "complex")),
               ("a number of float type", P(S("padf", "pos")))]
        base = it.st
        for cls, dev in (("SLMSimulation", o.l), ("SLMSimulation", o.d), ("DMDSimulation", o.d)):
            dn = "DMD" if dev is o.d else "LCOS_SLM"
            for n, v in bad:
                rejected("%s %s(%s, padding_x=%s)" % (prec, cls, dn, n), lambda: w.new(cls, dev, v, lit(2)), "TypeError", anchor="SLMSimulation.__init__")
                rejected("%s %s(%s, padding_y=%s)" % (prec, cls, dn, n), lambda: w.new(cls, dev, lit(2), v), "TypeError", anchor="SLMSimulation.__init__")
                rejected("%s %s(%s, padding_y=%s) by keyword" % (prec, cls, dn, n), lambda: w.new(cls, dev, padding_y=v), "TypeError", anchor="SLMSimulation.__init__")
        devs = [("None", NONE), ("a number", lit(3)), ("a profile", o.p), ("an array", o.st), ("a simulation", o.sim), ("a string", K("DLP9500")),
                ("the class", w.attr("DMD"))]
        for cls in ("SLMSimulation", "DMDSimulation"):
            for n, v in devs + ([("an LCOS_SLM", o.l)] if cls == "DMDSimulation" else []):
                rejected("%s %s of %s" % (prec, cls, n), lambda: w.new(cls, v), "TypeError", anchor=cls + ".__init__")
                rejected("%s %s of %s with padding" % (prec, cls, n), lambda: w.new(cls, v, lit(1), lit(1)), "TypeError", anchor=cls + ".__init__")
        # ---- combinations of profiles
        it.st = base
        others = [("a string", K("1")), ("None", NONE), ("a list", it.alloc(ListO([lit(1), lit(2)]))), ("a device", o.d), ("a tuple", Tup([lit(1)]))]
        base = it.st
        for pn in ("p", "pc", "hg", "cc"):
            p = getattr(o, pn)
            for n, v in others:
                for op in ("Add", "Sub", "Mult", "Div", "Pow"):
                    rejected("%s %s %s %s" % (prec, pn, op, n), lambda: w.call(it.binop(op, p, v), o.x, o.y), "Exception", anchor="FunctionProfile._make_attribute_func", keep=False)
                for op in ("Add", "Mult"):
                    if n != "a device":
                        rejected("%s %s %s %s" % (prec, n, op, pn), lambda: w.call(it.binop(op, v, p), o.x, o.y), "Exception", anchor="FunctionProfile._make_attribute_func", keep=False)
        if raw.ok:
            r = raw.val
            rejected(prec + " a profile without a formula", lambda: w.call(r, o.x, o.y), "NotImplementedError", anchor="FunctionProfile._func", keep=False)
        # ---- maps that do not fit the device
        for n, sh in MSH.items():
            it.st = base
            re_, co = array(w, "bad", "f64", sh), array(w, "badc", "c128", sh)
            tre, tco = Num(t.sym("badt", sh), "tf", w.R, sh), Num(t.sym("badtc", sh), "tf", w.C, sh)
            base = it.st
            for kind, r1, c1 in (("array", re_, co), ("tensor", tre, tco)):
                for dn, d in (("DMD", o.d), ("LCOS_SLM", o.l)):
                    for cplx in (False, True):
                        for fp in (True, False):
                            rejected("%s profile_to_tensor(%s) of %s %s %s%s" % (prec, dn, "a complex" if cplx else "a real", kind, n, "" if fp else ", image plane"),
                                     lambda: w.meth(d, "profile_to_tensor", c1 if cplx else r1, at_fourier_plane=lit(fp), complex=lit(cplx)), "Exception", ok_pc, anchor="SLM.profile_to_tensor")
                for k, an in enumerate(("amp", "phase_in", "phase_out")):
                    a = [lit(1), lit(0), lit(0)]
                    a[k] = r1
                    for m in ("ideal", "simple", "random"):
                        rejected("%s set_dmd_grating_state %s with %s %s %s" % (prec, m, an, kind, n), lambda: w.meth(o.d, "set_dmd_grating_state", *a, method=lit(m)), "Exception", ok_pc, anchor="DMD.set_dmd_grating_state")
                    rejected("%s circular_patch with %s %s %s" % (prec, an, kind, n), lambda: w.meth(o.d, "circular_patch", P(CI), P(CJ), *a, P(DD), method=lit("simple")), "Exception", ok_pc, anchor="DMD.circular_patch")
                for L, f in (("input", lambda: w.meth(o.d, "calculate_dmd_state", c1, o.tar, method=lit("simple"))),
                             ("target", lambda: w.meth(o.d, "calculate_dmd_state", o.inp, c1, method=lit("simple"))),
                             ("window", lambda: w.meth(o.d, "calculate_dmd_state", o.inp, o.tar, method=lit("ideal"), window=c1)),
                             ("signal window", lambda: w.meth(o.d, "calculate_dmd_state", o.inp, o.tar, method=lit("ifta"), signal_window=c1))):
                    rejected("%s calculate_dmd_state with %s %s %s" % (prec, L, kind, n), f, "Exception", ok_pc, anchor="DMD.calculate_dmd_state")
                for L, f in (("input", lambda: w.meth(o.l, "calculate_hologram", c1, o.tam)),
                             ("target", lambda: w.meth(o.l, "calculate_hologram", o.inp, r1)),
                             ("target (mraf)", lambda: w.meth(o.l, "calculate_hologram", o.inp, r1, method=lit("mraf"), signal_window=o.win)),
                             ("signal window", lambda: w.meth(o.l, "calculate_hologram", o.inp, o.tam, method=lit("mraf"), signal_window=r1))):
                    rejected("%s calculate_hologram with %s %s %s" % (prec, L, kind, n), f, "Exception", ok_pc, anchor="LCOS_SLM.calculate_hologram")
                for sn, s in (("DMDSimulation", o.sim), ("SLMSimulation", o.lsim)):
                    rejected("%s %s.propagate_to_image of %s %s" % (prec, sn, kind, n), lambda: w.meth(s, "propagate_to_image", c1), "Exception", ok_pc, anchor="SLMSimulation.propagate_to_image")


CHECKS = {
    "C38": Check(c38, VN + "Each public entry point is called with each kind of unusable argument (types, shapes of symbolic size); every path must raise and leave all objects as they were.",
                 ["Nx and Ny differ and exceed 1, paddings are positive, where a shape is rejected"]),
}
