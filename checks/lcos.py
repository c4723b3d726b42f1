"""C24, C25: LCOS holograms."""
from .spec import *
from .grat import windows, targets, NI

MIX = S("mix", "real")


def lcos_inputs(w):
    return [("arrays", array(w, "inp", "c128", SH), t.sym("inp", SH), array(w, "tamp", "f64", SH), t.sym("tamp", SH, "real")),
            ("profiles", profile(w, "inc", True), U("inc", "fourier", True), profile(w, "tap"), U("tap", "image")),
            ("real profile and tensor", profile(w, "inr"), U("inr"), tensor("tat", w.R, SH), t.sym("tat", SH, "real")),
            ("number", P(S("beam", "pos")), S("beam", "pos"), array(w, "tamp2", "f64", SH), t.sym("tamp2", SH, "real"))]


def c24(c):
    c.rule = "stored phase equals the documented iteration: initial value, one symbolic round, number of rounds"
    for prec in PRECS:
        w = c.world(prec)
        it = w.it
        it.st = w.base
        l = lcos(w)
        ins, ws = lcos_inputs(w), windows(w)
        base = it.st

        def run(L, f, sp, st=base):
            def g():
                o = w.run(f, st)
                if c.runs(L, o):
                    s = state(w, l, o.st, "slm_state")
                    n = w.num(s.val)
                    rd = rand_of(c, L, n.term)
                    if rd is not None:
                        c.value(L, w, s.val, sp(rd), SH, w.R, "np", state=s.st)
                    return o
            return c.group(L, g)
        for label, iv, it_, tv, tt in ins:
            for nl, kw, n in (("N given", {"N": P(NI, "int")}, NI), ("default N", {}, t.num(200)), ("N=1", {"N": lit(1)}, t.num(1)), ("N=3", {"N": lit(3)}, t.num(3))):
                c.anchor = c.loc("_calculate_lcos_slm_hologram_gs")
                run("%s gs %s %s" % (prec, label, nl), lambda: w.meth(l, "calculate_hologram", iv, tv, method=lit("gs"), **kw), lambda rd: gs(it_, tt, rd, n))
                c.anchor = c.loc("_calculate_lcos_slm_hologram_mraf")
                for wl, wv, wf, wi in ws:
                    for ml, mk, m in (("mixing given", {"mixing_factor": P(MIX)}, MIX), ("default mixing", {}, None)):
                        run("%s mraf %s %s %s %s" % (prec, label, nl, wl, ml),
                            lambda: w.meth(l, "calculate_hologram", iv, tv, method=lit("mraf"), signal_window=wv, **kw, **mk), lambda rd: mraf(it_, tt, wi, rd, n, m))
        label, iv, it_, tv, tt = ins[0]
        c.anchor = c.loc("LCOS_SLM.calculate_hologram")
        run(prec + " default method", lambda: w.meth(l, "calculate_hologram", iv, tv), lambda rd: gs(it_, tt, rd, t.num(200)))
        run(prec + " by name", lambda: w.meth(l, "calculate_hologram", target_amp_profile=tv, input_profile=iv, N=P(NI, "int")), lambda rd: gs(it_, tt, rd, NI))
        # a later calculation does not depend on an earlier one
        o = run(prec + " first", lambda: w.meth(l, "calculate_hologram", ins[1][1], ins[1][3], N=P(S("N0", "int", "pos"), "int")),
                lambda rd: gs(ins[1][2], ins[1][4], rd, S("N0", "int", "pos")))
        if o is not None:
            run(prec + " second", lambda: w.meth(l, "calculate_hologram", iv, tv, N=P(NI, "int")), lambda rd: gs(it_, tt, rd, NI), o.st)
            run(prec + " second mraf", lambda: w.meth(l, "calculate_hologram", iv, tv, method=lit("mraf"), signal_window=ws[0][1], N=P(NI, "int")),
                lambda rd: mraf(it_, tt, ws[0][3], rd, NI), o.st)


def c25(c):
    c.rule = "response = exp(i*state); round of the hologram algorithm and simulation use the same modulation and transform"
    for prec in PRECS:
        w = c.world(prec)
        it = w.it
        for dev in ("LCOS_SLM", "PLUTO_2"):
            def f():
                it.st = w.base
                if dev == "LCOS_SLM":
                    l, sh = lcos(w), SH
                else:
                    l = need(w, w.run(lambda: w.new("PLUTO_2", P(LAM), P(F))), dev)
                    sh = (t.num(1080), t.num(1920))
                harr = array(w, "hst", w.R, sh)
                harr64 = array(w, "hst64", "f64", sh)
                inc = array(w, "inp", "c128", sh)
                tam = array(w, "tamp", "f64", sh)
                s = simulation(w, l, "SLMSimulation", False)
                base = it.st
                L = "%s %s" % (prec, dev)

                def response(L, st, spec):
                    # through the simulation: output = input * response
                    c.anchor = c.loc("LCOS_SLM._state_tensor")
                    o = w.run(lambda: w.meth(s, "propagate_to_image", inc), st)
                    if c.runs(L, o):
                        q = w.run(lambda: w.get(s, "output_field"), o.st)
                        c.value(L + " output field", w, q.val, t.sym("inp", sh) * spec, sh, w.C, "np", state=q.st)
                response(L + " new device", base, t.ONE)
                o = w.run(lambda: it.setattr(l, "slm_state", harr), base)
                response(L + " any state", o.st, t.fun("exp", t.I * t.sym("hst", sh, "real")))
                o64 = w.run(lambda: it.setattr(l, "slm_state", harr64), base)
                response(L + " any state (64 bit)", o64.st, t.fun("exp", t.I * t.sym("hst64", sh, "real")))
                c.anchor = c.loc("LCOS_SLM.reset_slm_state")
                r = w.run(lambda: w.meth(l, "reset_slm_state"), o.st)
                if c.runs(L + " reset", r):
                    response(L + " after reset", r.st, t.ONE)
                    q = state(w, l, r.st, "slm_state")
                    c.value(L + " state after reset", w, q.val, t.ZERO, sh, None, "np", state=q.st)
                # hologram: stored state, then simulated
                c.anchor = c.loc("LCOS_SLM.calculate_hologram")
                h = w.run(lambda: w.meth(l, "calculate_hologram", inc, tam, N=P(NI, "int")), base)
                if c.runs(L + " hologram", h):
                    q = state(w, l, h.st, "slm_state")
                    n = w.num(q.val)
                    rd = rand_of(c, L + " hologram", n.term, sh)
                    if rd is not None:
                        sp = gs(t.sym("inp", sh), t.sym("tamp", sh, "real"), rd, NI, sh)
                        if dev == "LCOS_SLM":
                            c.value(L + " hologram state", w, q.val, sp, sh, w.R, "np", state=q.st)
                        else:
                            c.value(L + " hologram state", w, q.val, None, sh, w.R, "np", state=q.st)
                        # unit modulus of the response to the stored state, whatever it is
                        c.true(L + " stored state is real", t.is_real(n.term), "the stored phase map is not real: |exp(i*state)| differs from 1")
                        response(L + " after hologram", h.st, t.fun("exp", t.I * n.term))
            c.group("%s %s" % (prec, dev), f)


ARR = "The target amplitude, the beam, the window, the number of rounds and the mixing factor are symbolic. "
CHECKS = {
    "C24": Check(c24, VN + ARR + "Each loop is summarised by its initial value, one symbolic round and the round count."),
    "C25": Check(c25, VN + ARR),
}
