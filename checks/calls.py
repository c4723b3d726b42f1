"""C36: every public constructor, function and method takes its documented parameters by position and by keyword."""
from .battery import *
from .api_table import TABLE
from .ctl import Lab, LIBS
from .state import same_result


def samples(w, o, lab):
    """value of a parameter: the most specific of Class.method.parameter, method.parameter, parameter"""
    it = w.it
    st = P(S("st", "int", "pos"), "int")
    return {
        "wavelength": P(LAM), "focal_length": P(F), "Nx": P(NX, "int"), "Ny": P(NY, "int"), "pixel_size": P(PX), "periodicity": P(PER), "theta": P(TH),
        "negative_order": lit(True), "profile_to_tensor.profile": o.p, "at_fourier_plane": lit(False), "complex": lit(True),
        "amp": o.arr[0], "phase_in": o.arr[1], "phase_out": o.arr[2], "method": lit("simple"), "calculate_hologram.method": lit("gs"),
        "i": P(CI), "j": P(CJ), "d": P(DD), "input_profile": o.inp, "target_profile": o.tar, "window": o.win, "target_amp_profile": o.tam,
        "slm": o.l, "dmd": o.d, "padding_x": P(S("qx", "int", "nonneg"), "int"), "padding_y": P(S("qy", "int", "nonneg"), "int"), "r": P(RR),
        "x": o.x, "y": o.y, "rotate.theta": P(TH), "dx": P(X0), "dy": P(Y0), "m": P(WX), "c": P(AM), "x0": P(X0), "y0": P(Y0), "a": P(AM), "w": P(WD),
        "HermiteGaussian.__init__.n": lit(2), "HermiteGaussian.__init__.m": lit(1), "l": lit(1), "p": lit(2), "radius": P(RAD),
        "Zernike.__init__.n": lit(2), "Zernike.__init__.m": lit(0), "normalize": lit(True), "extrapolate": lit(True), "wx": P(WX), "wy": P(WY),
        "profile": o.ph, "remove_defocus": lit(True), "verbose": lit(True), "idx": lit(4), "num_terms": lit(3), "reconstruct": lit(True),
        "invert": lit(True), "version": K("4.3"), "ip": K("192.168.0.10"), "timeout": lit(2.5), "dmd_state": lab.img[0], "dmd_states": lab.images(2), "images": lab.images(2),
        "number_image.i": lit(7),
    }


def instances(w, o, lab):
    it = w.it

    def ctl(v):
        x = lab.make(v)
        w.meth(x, "initialize")
        return x

    def ready(s):
        w.meth(s, "propagate_to_image", o.inp)
        return s
    return {"SLM": lambda: o.l, "DMD": lambda: o.d, "LCOS_SLM": lambda: o.l, "SLMSimulation": lambda: ready(o.lsim), "DMDSimulation": lambda: ready(o.sim),
            "FunctionProfile": lambda: o.p, "Zernike": lambda: o.ze, "HermiteGaussian": lambda: o.hg, "RectangularWindowCircular": lambda: o.win,
            "ALPController": lambda: ctl("ALP"), "LuxbeamController": lambda: ctl("Luxbeam")}


EXTRA_ROWS = [("ALPController", "number_image", [("i", False)]), ("LuxbeamController", "number_image", [("i", False)]),
              ("ALPController", "is_initialized", []), ("LuxbeamController", "is_initialized", []),
              ("Zernike", "__call__", [("x", False), ("y", False)]), ("HermiteGaussian", "shift", [("dx", False), ("dy", False)]),
              ("DMD", "profile_to_tensor", [("profile", False), ("at_fourier_plane", True), ("complex", True)]),
              ("RectangularWindowCircular", "__call__", [("x", False), ("y", False)])]


def styles(ps):
    """ways of spelling a call: (label, number of leading parameters by position, names by keyword)"""
    names = [n for n, _ in ps]
    req = [n for n, opt in ps if not opt]
    out = [("required by position", len(req), [])]
    if req:
        out.append(("required by keyword", 0, req))
    if len(req) < len(names):
        out += [("all by position", len(names), []), ("all by keyword", 0, names)]
        out += [("%s given" % n, len(req), [n]) for n in names[len(req):]]
    if len(req) > 1:
        out.append(("first by position", 1, req[1:]))
    return out


def readings(w, o, cls, m, v):
    """what a call of the row left behind"""
    it = w.it
    if cls and cls.endswith("Controller"):
        return []
    if m == "__init__":
        return [it.getattr(v, n) for n in ("wavelength", "Nx", "pixel_size", "theta", "first_order_origin", "padding_x", "padding_y") if attr_of(it, v, n)] + \
            ([w.call(v, o.x, o.y)] if cls in ("HermiteGaussian", "LaguerreGaussian", "SuperGaussian", "Zernike", "RectangularWindowRectangle", "RectangularWindowCircular", "ConstantProfile") else [])
    if m in ("rotate", "shift", "rescale_x", "rescale_y"):
        return [w.call(v, o.x, o.y)]
    if m == "profile_to_tensor" or m == "__call__" or cls is None and m != "number_image":
        return [v]
    if cls == "DMD":
        return [w.get(o.d, "dmd_state")]
    if cls == "LCOS_SLM":
        return [w.get(o.l, "slm_state")]
    if m == "propagate_to_image":
        return [w.get(o.lsim, "output_field"), w.get(o.lsim, "input_field")]
    if m == "block_zeroth_order":
        return [w.get(o.sim, "image_plane_field")]
    return []


def attr_of(it, v, n):
    return isinstance(v, Ref) and isinstance(it.get(v), Inst) and it.find_attr(it.get(v).cls, n) is not None


def accepted(c):
    c.rule = "every documented spelling of a call (parameters by position, by keyword, mixed) is carried out"
    lab = Lab(c)
    w, it = lab.w, lab.it
    o = build(w)
    lab.st = it.st
    val = samples(w, o, lab)
    inst = instances(w, o, lab)
    rows = []
    for (pkg, n), spec in TABLE.items():
        if isinstance(spec, list):
            rows.append((pkg, None, n, spec))
        elif n not in ("DMDControllerBase",):
            rows += [(pkg, n, m, sp) for m, sp in spec.items() if sp is not None and not (n == "SLM" and m == "__init__")]
    rows += [("pySLM2", a, b, sp) for a, b, sp in EXTRA_ROWS]
    for pkg, cls, m, sp in rows:
        if not sp:
            continue
        L0 = "%s.%s" % (cls, m) if cls else m
        c.anchor = c.loc(L0)

        def value(n):
            for k in ("%s.%s.%s" % (cls, m, n), "%s.%s" % (m, n), n):
                if k in val:
                    return val[k]
            return None
        if any(value(n) is None for n, _ in sp):
            c.undecided(L0, "no value for a parameter")
            continue
        seen = {}
        for lab_, k, names in styles(sp):
            L = "%s: %s" % (L0, lab_)

            def f():
                args = [value(n) for n, _ in sp[:k]]
                kw = {n: value(n) for n in names}

                def go():
                    mod = ModV(pkg)
                    if cls is None:
                        return w.call(it.getattr(mod, m), *args, **kw)
                    if m == "__init__":
                        return w.call(it.getattr(mod, cls), *args, **kw)
                    if cls not in inst:
                        return None
                    return w.meth(inst[cls](), m, *args, **kw)
                r = w.run(go, lab.st)
                if not c.runs(L, r):
                    return
                c.ok(L)
                rd = w.run(lambda: readings(w, o, cls, m, r.val), r.st)
                if not rd.ok:
                    c.undecided(L + " result", "cannot be read")
                    return
                key = frozenset([n for n, _ in sp[:k]] + names)
                if key not in seen:
                    seen[key] = (lab_, rd)
                    return
                first, r0 = seen[key]
                if len(rd.val) != len(r0.val):
                    c.undecided(L, "results cannot be compared")
                for j, (a, b) in enumerate(zip(rd.val, r0.val)):
                    same_result(c, w, "%s gives the result of %s [%d]" % (L, first, j), ("", a, rd.st), ("", b, r0.st))
            c.group(L, f)
