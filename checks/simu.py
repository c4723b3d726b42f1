"""C05-C08: simulation."""
from .fix import *

FIELDS = ("input_field", "output_field", "image_plane_field")
INTENS = ("input_intensity", "output_intensity", "image_plane_intensity")
SCALE = MX * MY * PX ** 2 / (LAM * F)


def setup(w, kind, name="st"):
    """(device, simulation, response term) with an arbitrary device state"""
    it = w.it
    if kind.startswith("DMD"):
        d = dmd(w)
        if kind == "DMD binary":
            a = array(w, name, "bool", SH)
            resp = t.as_num(it.num(a).term)
        else:
            a = array(w, name, w.R, SH)
            resp = it.num(a).term
        w.run(lambda: it.setattr(d, "dmd_state", a))
        s = simulation(w, d, "SLMSimulation" if kind == "DMD grey" else "DMDSimulation")
    else:
        d = lcos(w)
        a = array(w, name, w.R, SH)
        resp = t.fun("exp", t.I * it.num(a).term)
        w.run(lambda: it.setattr(d, "slm_state", a))
        s = simulation(w, d, "SLMSimulation")
    return d, s, resp


def inputs(w):
    it = w.it
    return [("real profile", profile(w, "inp"), U("inp")), ("complex profile", profile(w, "inc", True), U("inc", "fourier", True)),
            ("array", array(w, "arr", "c128", SH), t.sym("arr", SH)), ("number", pnum("amp"), S("amp", "real"))]


def padded(term):
    return t.pad(term, ((PADY, PADY), (PADX, PADX)), PSH)


def padded_const(term):
    """zero padding of a map that may be constant"""
    one = t.opaque("ones", (), (), SH, "real")
    return padded(term)


def specs(inp, resp):
    fi = padded(inp)
    fo = padded(inp * resp)
    return fi, fo, SCALE * centred_ifft(fo, PSH)


def read(c, w, s, names, sp, label, st, dtypes, cond=None):
    for n, spec in zip(names, sp):
        c.anchor = c.loc("SLMSimulation." + n)

        def f():
            o = w.run(lambda: w.get(s, n), st)
            if c.runs("%s %s" % (label, n), o):
                if spec is NONE:
                    c.true("%s %s is None" % (label, n), isinstance(o.val, K) and o.val.val is None,
                           "reads %s" % describe(w.it, o.val))
                else:
                    c.value("%s %s" % (label, n), w, o.val, spec, PSH, dtypes, "np", state=o.st, cond=cond)
        c.group("%s %s" % (label, n), f)


def propagate(c, w, s, v, label, st):
    o = w.run(lambda: w.meth(s, "propagate_to_image", v), st)
    c.anchor = c.loc("SLMSimulation.propagate_to_image")
    return o if c.runs(label, o) else None


def ab2(z):
    return t.fun("real", z) ** 2 + t.fun("imag", z) ** 2


def c05(c):
    c.rule = "input = pad(profile), output = pad(profile*response), image = scale * fftshift(ifft2(ifftshift(output)))"
    for prec in PRECS:
        w = c.world(prec)
        for kind in ("DMD binary", "DMD grey", "LCOS"):
            def f():
                w.it.st = w.base
                d, s, resp = setup(w, kind)
                ins = inputs(w)
                base = w.it.st
                for label, v, term in ins:
                    L = "%s %s, %s:" % (prec, kind, label)
                    if label == "number":
                        # a constant beam: written as a profile so that the padding is not lost
                        term = term * t.ite(t.lt(t.idx(0, NY), NY), t.ONE, t.ZERO)
                    o = propagate(c, w, s, v, L + " propagate_to_image", base)
                    if o is not None:
                        read(c, w, s, FIELDS, specs(term, resp), L, o.st, w.C)
                # without padding
                s0 = w.run(lambda: w.new("SLMSimulation", d), base)
                if c.runs("%s %s SLMSimulation(d)" % (prec, kind), s0):
                    o = propagate(c, w, s0.val, ins[0][1], "%s %s unpadded" % (prec, kind), s0.st)
                    if o is not None:
                        z = U("inp") * resp
                        for n, sp in zip(FIELDS, (U("inp"), z, NX * NY * PX ** 2 / (LAM * F) * centred_ifft(z))):
                            v = w.run(lambda: w.get(s0.val, n), o.st)
                            if c.runs("unpadded " + n, v):
                                c.value("%s %s unpadded %s" % (prec, kind, n), w, v.val, sp, SH, w.C, "np", state=v.st)
            c.group("%s %s" % (prec, kind), f)


def c06(c):
    c.rule = "power = sum |field|^2 * pixel area of the plane; image power = output power by Parseval"
    AREA_F, AREA_I = PX ** 2, (LAM * F) ** 2 / (MX * MY * PX ** 2)
    for prec in PRECS:
        w = c.world(prec)
        for kind in ("DMD binary", "DMD grey", "DMD grey in DMDSimulation", "LCOS"):
            def f():
                w.it.st = w.base
                d, s, resp = setup(w, kind)
                v = profile(w, "inc", True)
                v2, a2 = profile(w, "inr"), array(w, "st2", "bool" if kind == "DMD binary" else w.R, SH)
                base = w.it.st
                L = "%s %s" % (prec, kind)
                for n, sp in (("fourier_plane_pixel_area", AREA_F), ("image_plane_pixel_area", AREA_I)):
                    c.anchor = c.loc("SLMSimulation." + n)
                    o = w.run(lambda: w.get(s, n), base)
                    if c.runs("%s %s" % (L, n), o):
                        c.value("%s %s" % (L, n), w, o.val, sp, ())
                o = propagate(c, w, s, v, L + " propagate", base)
                if o is None:
                    return

                def powers(L, st, parseval=True):
                    got = {}
                    for n, fn, area in zip(("get_input_power", "get_output_power", "get_image_plane_power"), FIELDS, (AREA_F, AREA_F, AREA_I)):
                        c.anchor = c.loc("SLMSimulation." + n)
                        q = w.run(lambda: w.meth(s, n), st)
                        if not c.runs("%s %s" % (L, n), q):
                            continue
                        got[n] = w.num(q.val, n)
                        st = q.st
                        # the field this simulation itself reports, so that the power law is judged on its own
                        fld = w.run(lambda: w.get(s, fn), st)
                        z = w.num(fld.val, fn)
                        c.value("%s %s = area * sum |%s|^2" % (L, n, fn), w, got[n], area * t.reduce_sum(ab2(z.term), PSH), ())
                    if parseval and "get_output_power" in got and "get_image_plane_power" in got:
                        c.anchor = c.loc("SLMSimulation.get_image_plane_power")
                        c.value("%s image power = output power" % L, w, got["get_image_plane_power"], got["get_output_power"].term, ())
                    return st
                st = powers(L, o.st)
                if kind.startswith("DMD") and kind != "DMD grey":
                    b = w.run(lambda: w.meth(s, "block_zeroth_order", P(S("r", "pos"))), st)
                    if c.runs(L + " block_zeroth_order", b):
                        c.group(L + " blocked", powers, L + " blocked", b.st, False)
                        st = b.st
                o2 = w.run(lambda: (w.it.setattr(d, "slm_state" if kind == "LCOS" else "dmd_state", a2), w.meth(s, "propagate_to_image", v2)), st)
                if c.runs(L + " second propagation", o2):
                    c.group(L + " second", powers, L + " second", o2.st)
            c.group("%s %s" % (prec, kind), f)


def c07(c):
    c.rule = "accessors return None before propagation and after clear, the latest propagation otherwise; reading changes nothing"
    none3 = (NONE, NONE, NONE)
    for prec in PRECS:
        w = c.world(prec)

        def f():
            it = w.it
            d, s, resp = setup(w, "DMD binary", "st1")
            A, B = profile(w, "pa", True), profile(w, "pb", True)
            st2 = array(w, "st2", "bool", SH)
            resp2 = t.as_num(it.num(st2).term)
            s2 = simulation(w, d, "DMDSimulation", False)
            base = it.st
            L = prec
            read(c, w, s, FIELDS + INTENS, none3 * 2, L + " fresh:", base, w.C)
            spA = specs(U("pa", "fourier", True), resp)
            spB = specs(U("pb", "fourier", True), resp2)
            o = propagate(c, w, s, A, L + " first propagation", base)
            if o is None:
                return
            read(c, w, s, FIELDS, spA, L + " after A:", o.st, w.C)
            read(c, w, s, INTENS, [ab2(z) for z in spA], L + " after A:", o.st, w.R)
            # read everything, then propagate again with another input and another device state

            def reads():
                for n in FIELDS + INTENS:
                    w.get(s, n)
                for n in ("get_input_power", "get_output_power", "get_image_plane_power"):
                    w.meth(s, n)
                w.get(s, "image_plane_padded_grid")
            o1 = w.run(reads, o.st)
            if not c.runs(L + " reading all results", o1):
                return
            read(c, w, s, FIELDS, spA, L + " after reading:", o1.st, w.C)
            read(c, w, s, INTENS, [ab2(z) for z in spA], L + " after reading:", o1.st, w.R)
            o2 = w.run(lambda: it.setattr(d, "dmd_state", st2), o1.st)
            read(c, w, s, FIELDS, spA, L + " after changing the device:", o2.st, w.C)
            o3 = propagate(c, w, s, B, L + " second propagation", o2.st)
            if o3 is not None:
                read(c, w, s, FIELDS, spB, L + " after B:", o3.st, w.C)
                read(c, w, s, INTENS, [ab2(z) for z in spB], L + " after B:", o3.st, w.R)
                o4 = w.run(lambda: w.meth(s, "clear"), o3.st)
                c.anchor = c.loc("SLMSimulation.clear")
                if c.runs(L + " clear", o4):
                    read(c, w, s, FIELDS + INTENS, none3 * 2, L + " after clear:", o4.st, w.C)
                    o5 = propagate(c, w, s, A, L + " after clear", o4.st)
                    if o5 is not None:
                        read(c, w, s, FIELDS, specs(U("pa", "fourier", True), resp2), L + " again after clear:", o5.st, w.C)
                o6 = w.run(lambda: w.meth(s, "block_zeroth_order"), o3.st)
                if o6.ok:
                    z = t.ite(t.lt(ip_x(MX) ** 2 + ip_y(MY) ** 2, (LAM * F / (2 * PER * PX)) ** 2), t.ZERO, spB[2])
                    read(c, w, s, ("image_plane_field",), (z,), L + " blocked:", o6.st, w.C)
                    read(c, w, s, ("image_plane_intensity",), (ab2(z),), L + " blocked:", o6.st, w.R)
                    read(c, w, s, INTENS[:2], [ab2(x) for x in spB[:2]], L + " blocked:", o6.st, w.R)
                    o7 = propagate(c, w, s, B, L + " after blocking", o6.st)
                    if o7 is not None:
                        read(c, w, s, FIELDS, spB, L + " propagated after blocking:", o7.st, w.C)
            # another simulation of the same device does not interfere
            oo = propagate(c, w, s2, B, L + " other simulation", o.st)
            if oo is not None:
                read(c, w, s, FIELDS, spA, L + " other simulation used:", oo.st, w.C)
        c.group(prec, f)
        for kind in ("DMD binary", "DMD grey", "LCOS"):
            histories(c, prec, kind, (5 if c.thorough else 4) if prec == "f32" and kind == "DMD binary" else 3)


def histories(c, prec, kind, depth):
    """every sequence of operations up to a length, with everything read after each step"""
    w = c.world(prec)
    it = w.it

    def f():
        d, s, resp = setup(w, kind, "st1")
        attr = "slm_state" if kind == "LCOS" else "dmd_state"
        rd = lambda v: t.fun("exp", t.I * it.num(v).term) if kind == "LCOS" else t.as_num(it.num(v).term)
        A, B = profile(w, "pa", True), array(w, "pb", w.C, SH)
        inp = {"A": U("pa", "fourier", True), "B": it.num(B).term}
        new = lambda: array(w, "st2", "bool" if kind == "DMD binary" else w.R, SH)
        dev = {"assign": rd(new())}
        st3 = it.num(array(w, "st3", "bool" if kind == "DMD binary" else w.R, SH))
        r2 = ip_x(MX) ** 2 + ip_y(MY) ** 2
        vals = {"A": A, "B": B}
        off = {"LCOS": ("reset_slm_state", t.ONE)}.get(kind, ("set_dmd_state_on", t.ONE))

        def write():
            it.setitem(w.get(d, attr), SliceV(NONE, NONE, NONE), st3)

        def reads():
            for n in FIELDS + INTENS:
                w.get(s, n)
        ops = [("A", lambda: w.meth(s, "propagate_to_image", A)), ("B", lambda: w.meth(s, "propagate_to_image", B)),
               ("clear", lambda: w.meth(s, "clear")), ("assign", lambda: it.setattr(d, attr, new())), ("write", write),
               ("method", lambda: w.meth(d, off[0]))]
        if kind == "DMD grey":
            ops.pop()
        if kind == "DMD binary":
            ops.insert(3, ("block", lambda: w.meth(s, "block_zeroth_order", pnum("r", "float", "pos"))))

        def step(name, cur, resp):
            if name in inp:
                return specs(inp[name], resp), resp
            if name == "clear":
                return None, resp
            if name == "block":
                return (cur[0], cur[1], t.ite(t.lt(r2, S("r", "pos") ** 2), t.ZERO, cur[2])), resp
            return cur, dev[name]

        dev["write"] = t.fun("exp", t.I * st3.term) if kind == "LCOS" else t.as_num(st3.term)
        dev["method"] = off[1]

        def go(hist, st, cur, resp):
            for name, op in ops:
                if name in ("block", "clear") and cur is None:
                    continue
                if name in dev and (len(hist) + 1 == depth or hist and hist[-1] in dev):
                    continue
                h = hist + [name]
                L = "%s %s after %s:" % (prec, kind, ", ".join(h))
                ncur, nresp = step(name, cur, resp)

                def one():
                    o = w.run(op, st)
                    c.anchor = c.loc("SLMSimulation.propagate_to_image" if name in inp else "DMDSimulation.block_zeroth_order" if name == "block" else "SLMSimulation.clear")
                    if not c.runs(L, o):
                        return
                    last = name in inp or name in ("block", "clear")
                    if last:
                        if ncur is None:
                            read(c, w, s, FIELDS + INTENS, (NONE,) * 6, L, o.st, w.C)
                        else:
                            read(c, w, s, FIELDS, ncur, L, o.st, w.C)
                            read(c, w, s, INTENS, [ab2(z) for z in ncur], L, o.st, w.R)
                    if len(h) < depth:
                        o2 = w.run(reads, o.st)
                        if o2.ok:
                            go(h, o2.st, ncur, nresp)
                c.group(L, one)
        go([], it.st, None, resp)
    c.group("%s %s histories" % (prec, kind), f)


def c08(c):
    c.rule = "exactly the samples with x^2+y^2 < r^2 become 0; TypeError before propagation"
    for prec in PRECS:
        w = c.world(prec)

        def f():
            it = w.it
            d, s, resp = setup(w, "DMD binary")
            A, B = profile(w, "pa", True), profile(w, "pb", True)
            base = it.st
            L = prec
            sp = specs(U("pa", "fourier", True), resp)
            c.anchor = c.loc("DMDSimulation.block_zeroth_order")
            o = w.run(lambda: w.meth(s, "block_zeroth_order"), base)
            c.raises(L + " before propagation", o, "TypeError")
            for st, e in o.raised:
                c.same_heap(L + " unchanged after TypeError", w, s, base, st)
            o = propagate(c, w, s, A, L + " propagate", base)
            if o is None:
                return
            q = w.run(lambda: w.meth(s, "clear"), o.st)
            if q.ok:
                q2 = w.run(lambda: w.meth(s, "block_zeroth_order", pnum("r", "float", "pos")), q.st)
                c.anchor = c.loc("DMDSimulation.block_zeroth_order")
                c.raises(L + " after clear", q2, "TypeError")
            r2 = ip_x(MX) ** 2 + ip_y(MY) ** 2
            half = LAM * F / (2 * PER * PX)
            for label, args, kw, r in (("default", [], {}, half), ("r", [pnum("r", "float", "pos")], {}, S("r", "pos")),
                                       ("r=", [], {"r": pnum("r", "float", "pos")}, S("r", "pos")),
                                       ("integer r", [pnum("ri", "int", "pos")], {}, S("ri", "int", "pos")),
                                       ("r=0.0", [pyfloat(0.0)], {}, t.ZERO)):
                c.anchor = c.loc("DMDSimulation.block_zeroth_order")
                b = w.run(lambda: w.meth(s, "block_zeroth_order", *args, **kw), o.st)
                if c.runs("%s block(%s)" % (L, label), b):
                    z = t.ite(t.lt(r2, r ** 2), t.ZERO, sp[2])
                    read(c, w, s, FIELDS, (sp[0], sp[1], z), "%s block(%s):" % (L, label), b.st, w.C)
            b2 = w.run(lambda: (w.meth(s, "block_zeroth_order", pnum("r", "float", "pos")), w.meth(s, "block_zeroth_order")), o.st)
            if c.runs(L + " block twice", b2):
                z = t.ite(t.lt(r2, S("r", "pos") ** 2), t.ZERO, t.ite(t.lt(r2, half ** 2), t.ZERO, sp[2]))
                read(c, w, s, FIELDS, (sp[0], sp[1], z), L + " block twice:", b2.st, w.C)
            # blocking one propagation does not stand in for blocking the next one
            spB = specs(U("pb", "fourier", True), resp)
            for label, r1, r2_, cond in (("the same radius", "r", "r", S("r", "pos")), ("a radius, then the default", "r", None, half), ("the default, then a radius", None, "r", S("r", "pos")),
                                         ("the default", None, None, half)):
                for pl, prof, spp in (("the same profile", A, sp), ("another profile", B, spB)):
                    for mid in ("", "clear "):
                        args = lambda r: [pnum(r, "float", "pos")] if r else []

                        def seq():
                            w.meth(s, "block_zeroth_order", *args(r1))
                            if mid:
                                w.meth(s, "clear")
                            w.meth(s, "propagate_to_image", prof)
                            w.meth(s, "block_zeroth_order", *args(r2_))
                        LL = "%s block, %spropagate %s, block with %s:" % (L, mid, pl, label)
                        c.anchor = c.loc("DMDSimulation.block_zeroth_order")
                        b3 = w.run(seq, o.st)
                        if c.runs(LL, b3):
                            z = t.ite(t.lt(r2, cond ** 2), t.ZERO, spp[2])
                            read(c, w, s, ("image_plane_field",), (z,), LL, b3.st, w.C)
                            read(c, w, s, INTENS[2:], (ab2(z),), LL, b3.st, w.R)
        c.group(prec, f)


CHECKS = {
    "C05": Check(c05, VN + "propagate_to_image for binary and grey DMDs and an LCOS modulator with arbitrary states, four kinds of input, "
                 "symbolic sizes and paddings; all three fields compared."),
    "C06": Check(c06, VN + "Pixel areas and powers as functions of the reported fields, and Parseval's identity between the two powers."),
    "C07": Check(c07, VN + "Histories of propagation, reads, device changes, clear and blocking, with a value for every accessor after each."),
    "C08": Check(c08, VN + "block_zeroth_order with default, float, integer, zero radius, repeatedly, before propagation and after clear."),
}
