"""Every public operation of the package on one set of symbolic objects."""
from .spec import *
from .grat import POS, NI, SS, RO, CI, CJ, DD
from .lcos import MIX
from .prof import coords, AM, RAD, WD, PP


class Op:
    def __init__(self, label, f, results=(), anchor=None, stochastic=False):
        self.label, self.f, self.results, self.anchor, self.stochastic = label, f, list(results), anchor, stochastic


class Res:
    """what a result must be: element type(s), representation, shape"""

    def __init__(self, label, get, dtype, kind="np", shape=SH):
        self.label, self.get, self.dtype, self.kind, self.shape = label, get, dtype, kind, shape


def build(w, arr="f64", carr="c128", orders=None):
    """objects of the world; must be called in the base state. Returns a namespace"""
    class O:
        pass
    o = O()
    it = w.it
    o.d, o.l = dmd(w, orders), lcos(w)
    o.sim, o.lsim = simulation(w, o.d), simulation(w, o.l, "SLMSimulation")
    o.p, o.pc, o.q = profile(w, "p"), profile(w, "pc", True), profile(w, "q")
    o.arr = [array(w, n, arr, SH) for n in ("amp", "pin", "pout")]
    o.inp, o.tar = array(w, "inp", carr, SH), array(w, "tar", carr, SH)
    o.tam = array(w, "tamp", arr, SH)
    o.st = array(w, "bst", "bool", SH)
    o.ph = array(w, "phs", arr, SH)
    o.x, o.y = array(w, "X", arr, (S("na", "int", "pos"), S("nb", "int", "pos"))), array(w, "Y", arr, (S("na", "int", "pos"), S("nb", "int", "pos")))
    o.win = need(w, w.run(lambda: w.new("RectangularWindowCircular", P(X0), P(Y0), P(RR))), "window")
    o.rwin = need(w, w.run(lambda: w.new("RectangularWindowRectangle", P(X0), P(Y0), P(WX), P(WY))), "window")
    o.hg = need(w, w.run(lambda: w.new("HermiteGaussian", P(X0), P(Y0), P(AM), P(WD), lit(1), lit(0))), "HermiteGaussian")
    o.sg = need(w, w.run(lambda: w.new("SuperGaussian", P(X0), P(Y0), P(AM), P(WD), P(PP))), "SuperGaussian")
    o.lg = need(w, w.run(lambda: w.new("LaguerreGaussian", P(X0), P(Y0), P(AM), P(WD), lit(1), lit(1))), "LaguerreGaussian")
    o.ze = need(w, w.run(lambda: w.new("Zernike", P(AM), P(RAD), lit(2), lit(0))), "Zernike")
    o.ze2 = need(w, w.run(lambda: w.new("Zernike", P(AM), P(RAD), lit(3), lit(-1), extrapolate=lit(True))), "Zernike")
    o.cp = need(w, w.run(lambda: w.new("ConstantProfile", P(AM))), "ConstantProfile")
    o.cc = need(w, w.run(lambda: w.new("ConstantProfile", Num(S("cr", "real") + t.I * S("ci", "real"), "py", "complex"))), "ConstantProfile")
    w.run(lambda: it.setattr(o.d, "dmd_state", o.st))
    w.run(lambda: it.setattr(o.l, "slm_state", o.ph))
    return o


def ops(w, o):
    """(setup operations, readings) of the package"""
    it = w.it
    R, C = w.R, w.C
    XYs = (S("na", "int", "pos"), S("nb", "int", "pos"))
    st = lambda n, dev: (lambda v: w.get(dev, n))
    out = []

    def op(label, f, *res, **k):
        out.append(Op(label, f, res, **k))
    one = lambda dt, sh=SH, kind="np": Res("", lambda v: v, dt, kind, sh)
    part = lambda k, dt, sh=SH, kind="np": Res("[%d]" % k, lambda v: pair(w, v)[k], dt, kind, sh)
    # grids
    for dev, n, sh in ((o.d, "fourier_plane_grid", SH), (o.d, "image_plane_grid", SH), (o.l, "fourier_plane_grid", SH), (o.l, "image_plane_grid", SH),
                       (o.sim, "fourier_plane_padded_grid", PSH), (o.sim, "image_plane_padded_grid", PSH)):
        op(n, lambda dev=dev, n=n: w.get(dev, n), part(0, R, sh), part(1, R, sh), anchor="SLM." + n)
    # profiles
    for n in ("p", "hg", "sg", "ze", "ze2", "win", "rwin", "cp"):
        op("evaluate " + n, lambda n=n: w.call(getattr(o, n), o.x, o.y), one(R, None if n == "cp" else XYs), anchor="FunctionProfile.__call__")
        op("sample " + n, lambda n=n: w.meth(o.d, "profile_to_tensor", getattr(o, n)), one(R, SH, "tf"), anchor="SLM.profile_to_tensor")
        op("sample complex " + n, lambda n=n: w.meth(o.d, "profile_to_tensor", getattr(o, n), at_fourier_plane=lit(False), complex=lit(True)), one(C, SH, "tf"), anchor="SLM.profile_to_tensor")
    for n in ("pc", "lg", "cc"):
        op("evaluate " + n, lambda n=n: w.call(getattr(o, n), o.x, o.y), one(C, None if n == "cc" else XYs), anchor="FunctionProfile.__call__")
        op("sample complex " + n, lambda n=n: w.meth(o.d, "profile_to_tensor", getattr(o, n), complex=lit(True)), one(C, SH, "tf"), anchor="SLM.profile_to_tensor")
    combos = [("p+q", lambda: it.binop("Add", o.p, o.q), R), ("p*pc", lambda: it.binop("Mult", o.p, o.pc), C), ("pc-p", lambda: it.binop("Sub", o.pc, o.p), C),
              ("2*p", lambda: it.binop("Mult", lit(2), o.p), R), ("p/3.0", lambda: it.binop("Div", o.p, lit(3.0)), R), ("1j*p", lambda: it.binop("Mult", Num(t.I, "py", "complex"), o.p), C),
              ("p**2", lambda: it.binop("Pow", o.p, lit(2)), R), ("-p", lambda: w.meth(o.p, "__neg__"), R), ("hg*ze", lambda: it.binop("Mult", o.hg, o.ze), R),
              ("rotate", lambda: w.meth(o.hg, "rotate", P(TH)), R), ("shift", lambda: w.meth(o.lg, "shift", P(X0), P(Y0)), C),
              ("rescale_x", lambda: w.meth(o.sg, "rescale_x", P(WX)), R), ("rescale_y", lambda: w.meth(o.win, "rescale_y", P(WX)), R),
              ("as_complex_profile", lambda: w.meth(o.ze, "as_complex_profile"), C)]
    for L, f, dt in combos:
        op("combine " + L, lambda f=f: w.call(f(), o.x, o.y), one(dt, XYs), anchor="FunctionProfile._make_attribute_func")
    # gratings
    for m in ("ideal", "simple", "random"):
        dt = R if m == "ideal" else "bool"
        s_ = Res(" state", st("dmd_state", o.d), dt)
        eta_ = one(None, (), None)
        rnd = m == "random"
        op("set_dmd_grating_state " + m, lambda m=m: w.meth(o.d, "set_dmd_grating_state", *o.arr, method=lit(m)), s_, anchor="DMD.set_dmd_grating_state", stochastic=rnd)
        op("set_dmd_grating_state of profiles " + m, lambda m=m: w.meth(o.d, "set_dmd_grating_state", o.p, o.hg, o.ze, method=lit(m)), s_, anchor="DMD.set_dmd_grating_state", stochastic=rnd)
        op("set_dmd_grating_state of numbers " + m, lambda m=m: w.meth(o.d, "set_dmd_grating_state", lit(1), lit(0), lit(0.5), method=lit(m)), s_, anchor="DMD.set_dmd_grating_state", stochastic=rnd)
        op("calculate_dmd_state " + m, lambda m=m: w.meth(o.d, "calculate_dmd_state", o.inp, o.tar, method=lit(m)), s_, eta_, anchor="DMD.calculate_dmd_state", stochastic=rnd)
        op("calculate_dmd_state of profiles " + m, lambda m=m: w.meth(o.d, "calculate_dmd_state", o.hg, o.lg, method=lit(m), window=o.win), s_, eta_, anchor="DMD.calculate_dmd_state", stochastic=rnd)
        if m != "ideal":
            op("circular_patch " + m, lambda m=m: w.meth(o.d, "circular_patch", P(CI), P(CJ), o.p, o.arr[1], lit(0), P(DD), method=lit(m)),
               Res(" state", st("dmd_state", o.d), "bool"), anchor="DMD.circular_patch", stochastic=rnd)
    op("set_dmd_grating_state r", lambda: w.meth(o.d, "set_dmd_grating_state", *o.arr, r=P(RO)), Res(" state", st("dmd_state", o.d), "bool"), anchor="DMD.set_dmd_grating_state", stochastic=True)
    op("calculate_dmd_state ifta", lambda: w.meth(o.d, "calculate_dmd_state", o.hg, o.tar, method=lit("ifta"), signal_window=o.win, N=P(NI, "int"), s=P(SS)),
       Res(" state", st("dmd_state", o.d), "bool"), anchor="DMD.calculate_dmd_state")
    op("calculate_dmd_state ifta defaults", lambda: w.meth(o.d, "calculate_dmd_state", o.inp, o.lg, method=lit("ifta"), signal_window=o.tam),
       Res(" state", st("dmd_state", o.d), "bool"), anchor="DMD.calculate_dmd_state")
    # holograms
    op("calculate_hologram gs", lambda: w.meth(o.l, "calculate_hologram", o.inp, o.tam, N=P(NI, "int")), Res(" state", st("slm_state", o.l), R), anchor="LCOS_SLM.calculate_hologram", stochastic=True)
    op("calculate_hologram gs of profiles", lambda: w.meth(o.l, "calculate_hologram", o.hg, o.sg), Res(" state", st("slm_state", o.l), R), anchor="LCOS_SLM.calculate_hologram", stochastic=True)
    op("calculate_hologram mraf", lambda: w.meth(o.l, "calculate_hologram", o.inp, o.tam, method=lit("mraf"), signal_window=o.win, N=P(NI, "int"), mixing_factor=P(MIX)),
       Res(" state", st("slm_state", o.l), R), anchor="LCOS_SLM.calculate_hologram", stochastic=True)
    op("calculate_hologram mraf defaults", lambda: w.meth(o.l, "calculate_hologram", o.lg, o.p, method=lit("mraf"), signal_window=o.rwin),
       Res(" state", st("slm_state", o.l), R), anchor="LCOS_SLM.calculate_hologram", stochastic=True)
    # simulation
    for sl, s, inp in (("DMD", o.sim, o.inp), ("LCOS", o.lsim, o.hg), ("DMD profile", o.sim, o.lg), ("LCOS number", o.lsim, lit(1))):
        names = (("input_field", C), ("output_field", C), ("image_plane_field", C), ("input_intensity", R), ("output_intensity", R), ("image_plane_intensity", R))
        rs = [Res(" " + n, (lambda v, s=s, n=n: w.get(s, n)), dt, "np", PSH) for n, dt in names]
        rs += [Res(" " + n, (lambda v, s=s, n=n: w.meth(s, n)), None, None, ()) for n in ("get_input_power", "get_output_power", "get_image_plane_power")]
        op("propagate_to_image " + sl, lambda s=s, inp=inp: w.meth(s, "propagate_to_image", inp), *rs, anchor="SLMSimulation.propagate_to_image")

    def blocked():
        w.meth(o.sim, "propagate_to_image", o.inp)
        w.meth(o.sim, "block_zeroth_order")
        return w.get(o.sim, "image_plane_field")

    def blocked_r():
        w.meth(o.sim, "propagate_to_image", o.p)
        w.meth(o.sim, "block_zeroth_order", P(RR))
        return w.get(o.sim, "image_plane_field")
    op("block_zeroth_order", blocked, one(C, PSH), anchor="DMDSimulation.block_zeroth_order")
    op("block_zeroth_order r", blocked_r, one(C, PSH), anchor="DMDSimulation.block_zeroth_order")
    # device
    op("set_dmd_state_on", lambda: w.meth(o.d, "set_dmd_state_on"), Res(" state", st("dmd_state", o.d), "bool"))
    op("set_dmd_state_off", lambda: w.meth(o.d, "set_dmd_state_off"), Res(" state", st("dmd_state", o.d), "bool"))
    op("reset_slm_state", lambda: w.meth(o.l, "reset_slm_state"), Res(" state", st("slm_state", o.l), None))
    op("first_order_origin", lambda: w.get(o.d, "first_order_origin"), part(0, None, (), None), part(1, None, (), None))
    op("pack_dmd_state", lambda: w.meth(o.d, "pack_dmd_state"))
    op("theta", lambda: w.get(o.d, "theta"), one(R, (), "tf"))
    # analysis
    for rd in (False, True):
        op("remove_trivial_phase %s" % rd, lambda rd=rd: w.call(w.attr("remove_trivial_phase"), o.ph, P(RAD), lit(rd)), one(None, SH, "np"), anchor="remove_trivial_phase")
    op("zernike_decomposition", lambda: w.call(w.attr("zernike_decomposition"), o.ph, P(RAD), lit(4)), anchor="zernike_decomposition")
    op("zernike_decomposition reconstruct", lambda: w.call(w.attr("zernike_decomposition"), o.ph, P(RAD), lit(3), reconstruct=lit(True), extrapolate=lit(True)), anchor="zernike_decomposition")
    op("ansi_j_to_n_m", lambda: w.call(w.attr("ansi_j_to_n_m"), lit(7)), anchor="ansi_j_to_n_m")
    return out
