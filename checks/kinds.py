"""C39: a profile argument may be given in any kind, at every entry point."""
from .battery import *
from .geom import kinds
from .state import same_result


def entries(w, o):
    """(label, argument, plane, complex?, call with the argument, reading of the result, anchor)"""
    it = w.it
    out = []
    D, H = lambda v: Tup([w.get(o.d, "dmd_state")]), lambda v: Tup([w.get(o.l, "slm_state")])
    DE = lambda v: Tup([w.get(o.d, "dmd_state"), v])
    a0 = {"amp": o.arr[0], "phase_in": o.arr[1], "phase_out": o.arr[2]}
    for k in a0:
        for m in ("ideal", "simple", "random"):
            out.append(("set_dmd_grating_state %s" % m, k, "fourier", False,
                        lambda v, k=k, m=m: w.meth(o.d, "set_dmd_grating_state", method=lit(m), **dict(a0, **{k: v})), D, "DMD.set_dmd_grating_state"))
            out.append(("circular_patch %s" % m, k, "fourier", False,
                        lambda v, k=k, m=m: w.meth(o.d, "circular_patch", P(CI), P(CJ), d=P(DD), method=lit(m), **dict(a0, **{k: v})), D, "DMD.circular_patch"))
    for m in ("ideal", "simple", "random", "ifta"):
        b0 = {"input_profile": o.inp, "target_profile": o.tar, "window": o.tam}
        if m == "ifta":
            b0["signal_window"] = o.tam
            b0["N"] = P(NI, "int")
        for k in b0:
            if k == "N":
                continue
            for others in (("with", "without") if k in ("input_profile", "target_profile") else ("with",)):
                b = {n: x for n, x in b0.items() if n != "window" or others == "with"}
                out.append(("calculate_dmd_state %s %s window" % (m, others), k, "image" if k in ("target_profile", "signal_window") else "fourier", True,
                            lambda v, k=k, m=m, b=b: w.meth(o.d, "calculate_dmd_state", method=lit(m), **dict(b, **{k: v})), DE, "DMD.calculate_dmd_state"))
    for m in ("gs", "mraf"):
        b0 = {"input_profile": o.inp, "target_amp_profile": o.tam, "N": P(NI, "int")}
        if m == "mraf":
            b0["signal_window"] = o.tam
        for k in b0:
            if k != "N":
                out.append(("calculate_hologram %s" % m, k, "fourier" if k == "input_profile" else "image", k == "input_profile",
                            lambda v, k=k, m=m, b=b0: w.meth(o.l, "calculate_hologram", method=lit(m), **dict(b, **{k: v})), H, "LCOS_SLM.calculate_hologram"))
    for sn, sim in (("DMDSimulation", o.sim), ("SLMSimulation", o.lsim)):
        out.append(("%s.propagate_to_image" % sn, "input_profile", "fourier", True, lambda v, sim=sim: w.meth(sim, "propagate_to_image", v),
                    lambda v, sim=sim: Tup([w.get(sim, n) for n in ("input_field", "output_field", "image_plane_field")] + [w.meth(sim, "get_input_power")]),
                    "SLMSimulation.propagate_to_image"))
    return out


RULE = "f(v) = f(tensor of the sampled values of v), for every entry point, every profile argument and every kind of v"


def c39(c, only=None, precs=PRECS):
    c.rule = RULE
    for prec in precs:
        w = c.world(prec)
        it = w.it
        it.st = w.base
        o = build(w)
        ks = [(n, v, s, cx) for n, v, s, cx in kinds(w)]
        for d_, cx in (("f64", False), ("c128", True)):
            q = t.sym("np_" + d_, ()) if cx else t.sym("np_" + d_, (), "real")
            ks.append(("NumPy %s scalar" % d_, Num(q, "np", d_, ()), lambda p, q=q: q, cx))
        # maps with one value per column or per row, and arrays without axes
        for sn, sh in (("row", (NX,)), ("one-row map", (t.ONE, NX)), ("one-column map", (NY, t.ONE)), ("array without axes", ())):
            if prec == "f32" and sn.startswith("one") and not c.thorough:
                continue
            for d_, cx in (("f64", False), ("c128", True)) if not c.thorough else (("f64", False), ("c128", True), ("f32", False), ("i64", False), ("bool", False)):
                nm = "B" + sn.replace(" ", "").replace("-", "") + d_
                q = Num(t.sym(nm, sh, "int"), "np", "i64", sh) if d_ == "i64" else tensor(nm, d_, sh).with_(kind="np")
                ks.append(("%s %s" % (d_, sn), it.alloc(ArrO(q, fresh())), lambda p, q=q: t.as_num(q.term), cx))
        q = t.sym("Brt", (NX,), "real")
        ks.append(("%s tensor of one row" % w.R, Num(q, "tf", w.R, (NX,)), lambda p, q=q: q, False))
        ks += [("zero", lit(0), lambda p: t.ZERO, False), ("one", lit(1), lambda p: t.ONE, False), ("0.0", lit(0.0), lambda p: t.ZERO, False)]
        made = [("a HermiteGaussian", o.hg, False), ("a LaguerreGaussian", o.lg, True), ("a Zernike", o.ze, False), ("a circular window", o.win, False),
                ("a rectangular window", o.rwin, False), ("a constant", o.cp, False), ("a complex constant", o.cc, True),
                ("a sum", it.binop("Add", o.p, o.q), False), ("a product", it.binop("Mult", o.p, o.pc), True),
                ("a shifted profile", w.meth(o.hg, "shift", P(X0), P(Y0)), False), ("a phase factor", w.meth(o.ze, "as_complex_profile"), True)]
        base = it.st
        for n, v, cx in made:
            def sampled(plane, v=v):
                g = w.run(lambda: w.call(v, *pair(w, w.get(o.d, plane + "_plane_grid"))), base)
                return w.num(g.val).term
            ks.append((n, v, sampled, cx))
        # an all-zero input divides by zero in the algorithms; it is compared all the same
        for label, arg_, plane, want, f, rd, anchor in entries(w, o):
            if only is not None and arg_ not in only:
                continue

            def group():
                c.anchor = c.loc(anchor)
                for n, v, spec, cx in ks:
                    if cx and not want:
                        continue
                    L = "%s %s, %s as %s" % (prec, label, arg_, n)
                    val = t.as_num(spec(plane))
                    ref = Num(val, "tf", w.C if want else w.R, SH)
                    a, b = w.run(lambda: rd(f(v)), base), w.run(lambda: rd(f(ref)), base)
                    if not a.ok and not b.ok and {e.name for _, e in a.raised} == {e.name for _, e in b.raised}:
                        c.ok(L + " raises in both cases")
                        continue
                    if not c.runs(L, a):
                        continue
                    if not b.ok:
                        c.undecided(L, "no result for the sampled values")
                        continue
                    for k, (x, y) in enumerate(zip(it.items(a.val), it.items(b.val))):
                        same_result(c, w, "%s [%d]" % (L, k), ("", x, a.st), ("", y, b.st))
            c.group("%s %s %s" % (prec, label, arg_), group)



CHECKS = {
    "C39": Check(c39, VN + "Every profile argument of every public entry point is given in each of some 30 kinds (function profiles of the user and of the package, combinations, arrays and tensors of "
                 "several element types, numbers); results are compared with those for the tensor of the sampled values."),
}
