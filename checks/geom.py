"""C01-C04: grids, device constants, profile sampling."""
from .fix import *

SLM_ARGS = [P(LAM), P(F), P(NX, "int"), P(NY, "int"), P(PX)]


def devices(w):
    base = w.it.st
    out = [("SLM", w.run(lambda: w.new("SLM", *SLM_ARGS)))]
    out.append(("DMD", w.run(lambda: w.new("DMD", P(LAM), P(F), P(PER), P(TH), P(NX, "int"), P(NY, "int"), P(PX), P(NEG, "bool")))))
    out.append(("LCOS_SLM", w.run(lambda: w.new("LCOS_SLM", *SLM_ARGS))))
    return [(n, need(w, o, n)) for n, o in out]


def sims(w, devs):
    r = []
    for n, d in devs:
        r.append(("SLMSimulation of " + n, simulation(w, d, "SLMSimulation")))
        if n == "DMD":
            r.append(("DMDSimulation", simulation(w, d, "DMDSimulation")))
    return r


def grid(c, w, label, obj, attr, specs, shape, where):
    c.anchor = c.loc(where)

    def f():
        st = w.it.st
        o = w.run(lambda: w.get(obj, attr), st)
        if not c.runs(label, o):
            w.it.st = st
            return
        x, y = pair(w, o.val, label)
        c.value(label + " x", w, x, specs[0], shape, w.R, state=o.st)
        c.value(label + " y", w, y, specs[1], shape, w.R, state=o.st)
        w.it.st = st
    c.group(label, f)


def c01(c):
    c.rule = "pixel (i, j) lies at x=(j-Nx/2)*pitch, y=(Ny/2-i)*pitch"
    for prec in PRECS:
        w = c.world(prec)
        ds = devices(w)
        for n, d in ds:
            grid(c, w, "%s %s.fourier_plane_grid" % (prec, n), d, "fourier_plane_grid", (GX, GY), SH, n + ".fourier_plane_grid")
        for n, s in sims(w, ds):
            grid(c, w, "%s %s.fourier_plane_padded_grid" % (prec, n), s, "fourier_plane_padded_grid",
                 (fp_x(pad=PADX), fp_y(pad=PADY)), PSH, "SLMSimulation.fourier_plane_padded_grid")
        d = ds[0][1]

        def inverse():
            it = w.it
            cls = it.get(d).cls
            has = lambda n: it.find_attr(cls, n) is not None
            f, g = "_convert_pixel_index_to_dmd_coordinate", "_convert_slm_coordinate_to_pixel_index"
            if not (has(f) and has(g)):
                return
            st = it.st
            c.anchor = c.loc("SLM." + g)
            xs, ys = tensor("X", w.R, ()), tensor("Y", w.R, ())
            o = w.run(lambda: w.meth(d, g, xs, ys), st)
            if c.runs("%s coordinate to pixel" % prec, o):
                i, j = pair(w, o.val)
                c.value("%s row of a coordinate" % prec, w, i, NY / 2 - t.sym("Y", (), "real") / PX)
                c.value("%s column of a coordinate" % prec, w, j, t.sym("X", (), "real") / PX + NX / 2)
                o2 = w.run(lambda: w.meth(d, f, i, j), o.st)
                if c.runs("%s back to coordinates" % prec, o2):
                    x, y = pair(w, o2.val)
                    c.value("%s x round trip" % prec, w, x, t.sym("X", (), "real"))
                    c.value("%s y round trip" % prec, w, y, t.sym("Y", (), "real"))
            it.st = st
        c.group("index conversion", inverse)


def c02(c):
    c.rule = "column k at lambda*f*(k-floor(N/2))/(N*pitch), row l at -lambda*f*(l-floor(M/2))/(M*pitch)"
    for prec in PRECS:
        w = c.world(prec)
        ds = devices(w)
        for n, d in ds:
            grid(c, w, "%s %s.image_plane_grid" % (prec, n), d, "image_plane_grid", (IX, IY), SH, n + ".image_plane_grid")
        for n, s in sims(w, ds):
            grid(c, w, "%s %s.image_plane_padded_grid" % (prec, n), s, "image_plane_padded_grid", (ip_x(MX), ip_y(MY)), PSH,
                 "SLMSimulation.image_plane_padded_grid")
        s0 = [("SLMSimulation without padding", simulation(w, ds[1][1], "DMDSimulation", False))]
        for n, s in s0:
            grid(c, w, "%s %s" % (prec, n), s, "image_plane_padded_grid", (IX, IY), SH, "SLMSimulation.image_plane_padded_grid")
        # even and odd sizes by number, so that the position of the centre is checked concretely as well
        for nx, ny in ((6, 5), (7, 4), (1, 2)):
            o = w.run(lambda: w.new("SLM", P(LAM), P(F), pyint(nx), pyint(ny), P(PX)))
            d = need(w, o, "SLM")
            grid(c, w, "%s %dx%d image grid" % (prec, nx, ny), d, "image_plane_grid", (ip_x(t.num(nx)), ip_y(t.num(ny))),
                 (t.num(ny), t.num(nx)), "SLM.image_plane_grid")


PRESETS = {"DLP9500": (1920, 1080, Fr(108, 10)), "DLP7000": (1024, 768, Fr(1368, 100)), "DLP9000": (2560, 1600, Fr(756, 100)),
           "PLUTO_2": (1920, 1080, Fr(8))}


def scalars(c, w, label, d, specs, cls, st):
    for a, spec in specs.items():
        c.anchor = c.loc("%s.%s" % (cls, a))

        def f():
            o = w.run(lambda: w.get(d, a), st)
            if c.runs("%s.%s" % (label, a), o):
                c.value("%s.%s" % (label, a), w, o.val, spec, state=o.st)
        c.group("%s.%s" % (label, a), f)


def c03(c):
    c.rule = "constructor data reach the device attributes; preset data sheets"
    base = dict(wavelength=LAM, focal_length=F, scaling_factor=LAM * F)
    for prec in PRECS:
        w = c.world(prec)
        for n, d in devices(w):
            st = w.it.st
            scalars(c, w, "%s %s" % (prec, n), d, dict(base, Nx=NX, Ny=NY, pixel_size=PX), n, st)
            if n == "DMD":
                origin(c, w, "%s DMD" % prec, d, PX, st)
                attr(c, w, "%s DMD.negative_order" % prec, d, "negative_order", NEG, st)
                s = simulation(w, d, "DMDSimulation")
                origin(c, w, "%s DMDSimulation" % prec, s, PX, w.it.st)
                scalars(c, w, "%s DMDSimulation" % prec, s, dict(padding_x=PADX, padding_y=PADY, Nx=MX, Ny=MY, scaling_factor=LAM * F),
                        "DMDSimulation", w.it.st)
        for n, (nx, ny, um) in PRESETS.items():
            def f():
                px = t.num(um / 10 ** 6)
                c.anchor = c.loc(n + ".__init__")
                dm = n != "PLUTO_2"
                for how in (("positional", "keyword") if dm else ("positional",)):
                    if not dm:
                        o = w.run(lambda: w.new(n, P(LAM), P(F)), w.base)
                    elif how == "positional":
                        o = w.run(lambda: w.new(n, P(LAM), P(F), P(PER), P(TH), P(NEG, "bool")), w.base)
                    else:
                        o = w.run(lambda: w.new(n, wavelength=P(LAM), focal_length=P(F), periodicity=P(PER), theta=P(TH),
                                                negative_order=P(NEG, "bool")), w.base)
                    if not c.runs("%s %s(...)" % (prec, n), o):
                        continue
                    d = o.val
                    st = o.st
                    scalars(c, w, "%s %s" % (prec, n), d, dict(base, Nx=t.num(nx), Ny=t.num(ny), pixel_size=px), n, st)
                    if dm:
                        attr(c, w, "%s %s.negative_order" % (prec, n), d, "negative_order", NEG, st)
                        origin(c, w, "%s %s" % (prec, n), d, px, st)
                        o2 = w.run(lambda: w.new(n, P(LAM), P(F), P(PER), P(TH)), w.base)
                        if c.runs("%s %s default order" % (prec, n), o2):
                            attr(c, w, "%s %s.negative_order default" % (prec, n), o2.val, "negative_order", t.FALSE, o2.st)
                    state = "dmd_state" if dm else "slm_state"
                    o3 = w.run(lambda: w.get(d, state), st)
                    c.value("%s %s.%s" % (prec, n, state), w, o3.val, None, (t.num(ny), t.num(nx)))
            c.group("%s %s" % (prec, n), f)


def attr(c, w, label, d, a, spec, st):
    def f():
        o = w.run(lambda: w.get(d, a), st)
        if c.runs(label, o):
            b = w.it.truth(o.val)
            r, why = c.terms_equal(b, spec)
            if r is None:
                c.undecided(label, why)
            else:
                c.true(label, r, why)
    c.group(label, f)


def origin(c, w, label, d, px, st):
    c.anchor = c.loc("DMD.first_order_origin")

    def f():
        o = w.run(lambda: w.get(d, "first_order_origin"), st)
        if c.runs(label + ".first_order_origin", o):
            x, y = pair(w, o.val)
            c.value(label + ".first_order_origin x", w, x, t.fun("cos", TH) * LAM * F / (PER * px), state=o.st)
            c.value(label + ".first_order_origin y", w, y, t.fun("sin", TH) * LAM * F / (PER * px), state=o.st)
        o = w.run(lambda: w.get(d, "theta"), st)
        if o.ok and label.split()[-1] != "DMDSimulation":
            c.value(label + ".theta", w, o.val, TH, state=o.st)
    c.group(label + ".first_order_origin", f)


def kinds(w, shapes=False):
    """(label, value, {plane: term}, complex?)"""
    it = w.it
    pr, pc = profile(w, "pr"), profile(w, "pc", True)
    out = [("real function profile", pr, lambda p: U("pr", p), False),
           ("complex function profile", pc, lambda p: U("pc", p, True), True)]
    for d, cx in ((w.R, False), (w.C, True), ("f32" if w.R == "f64" else "f64", False),
                  ("c64" if w.R == "f64" else "c128", True), ("i64", False)):
        nm = "T" + d
        if d == "i64":
            term = t.sym(nm, SH, "int")
        else:
            term = t.sym(nm, SH) if cx else t.sym(nm, SH, "real")
        out.append(("%s tensor" % d, Num(term, "tf", d, SH), (lambda q: lambda p: q)(term), cx))
    for d, cx in (("f32", False), ("f64", False), ("c64", True), ("c128", True), ("i64", False), ("bool", False)):
        nm = "A" + d
        n = tensor(nm, d, SH) if d != "i64" else Num(t.sym(nm, SH, "int"), "np", "i64", SH)
        n = n.with_(kind="np")
        out.append(("%s array" % d, it.alloc(ArrO(n, fresh())), (lambda q: lambda p: t.as_num(q))(n.term), cx))
    for sn, sh in () if not shapes else (("without axes", ()), ("of one row", (NX,)), ("of shape (1, Nx)", (t.ONE, NX)), ("of shape (Ny, 1)", (NY, t.ONE))):
        nm = "B" + sn.replace(" ", "").replace(",", "").replace("(", "").replace(")", "")
        for d, cx in ((w.R, False), (w.C, True)):
            n = tensor(nm + d, d, sh).with_(kind="tf")
            out.append(("%s tensor %s" % (d, sn), n, (lambda q: lambda p: t.as_num(q))(n.term), cx))
        n = tensor(nm + "a", "f64", sh).with_(kind="np")
        out.append(("f64 array %s" % sn, it.alloc(ArrO(n, fresh())), (lambda q: lambda p: t.as_num(q))(n.term), False))
    for k, cx in (("float", False), ("int", False), ("complex", True)):
        n = pnum("c_" + k, k)
        out.append(("%s number" % k, n, (lambda q: lambda p: q)(n.term), cx))
    return out


def c04(c):
    c.rule = "profile_to_tensor(p)[i, j] = p at pixel (i, j) of the requested plane, shape (Ny, Nx), configured type"
    c.anchor = c.loc("SLM.profile_to_tensor")
    for prec in PRECS:
        w = c.world(prec)
        for dn, d in devices(w):
            ks = kinds(w, True)
            base = w.it.st
            for label, v, spec, cx in ks:
                for plane in ("fourier", "image"):
                    for want in (False, True):
                        if cx and not want:
                            continue
                        L = "%s %s.profile_to_tensor(%s, %s plane%s)" % (prec, dn, label, plane, ", complex" if want else "")

                        def f():
                            kw = {}
                            if plane == "image":
                                kw["at_fourier_plane"] = pybool(False)
                            if want:
                                kw["complex"] = pybool(True)
                            o = w.run(lambda: w.meth(d, "profile_to_tensor", v, **kw), base)
                            if c.runs(L, o):
                                c.value(L, w, o.val, spec(plane), SH, w.C if want else w.R, "tf")
                        c.group(L, f)
            w.it.st = base
            if dn == "SLM":
                continue
        # profiles made by the package's own classes and by arithmetic
        d = dmd(w)
        base = w.it.st
        for label, mk, spec in (
                ("HermiteGaussian", lambda: w.new("HermiteGaussian", pnum("x0"), pnum("y0"), pnum("a"), pnum("w", "float", "pos")), None),
                ("ConstantProfile", lambda: w.new("ConstantProfile", pnum("cc")), S("cc", "real"))):
            def f():
                v = w.run(mk, base).val
                o = w.run(lambda: w.meth(d, "profile_to_tensor", v))
                if c.runs("%s profile_to_tensor(%s)" % (prec, label), o):
                    c.value("%s profile_to_tensor(%s)" % (prec, label), w, o.val, spec, SH, w.R, "tf")
            c.group(label, f)


CHECKS = {
    "C01": Check(c01, VN + "Grids of SLM, DMD, LCOS_SLM and of padded simulations, for symbolic sizes, pitch and padding, both precisions."),
    "C02": Check(c02, VN + "Image-plane grids with symbolic and with even/odd concrete sizes, both precisions."),
    "C03": Check(c03, VN + "Attributes of every device class and preset, called positionally and by keyword."),
    "C04": Check(c04, VN + "profile_to_tensor for 32 kinds of profile, both planes, both result types, both precisions."),
}
