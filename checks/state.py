"""C27-C29: sharing, staleness, randomness."""
from .battery import *
from .grat import maps


def arrays_of(w, v, st):
    """references to arrays in a result"""
    out = []
    if isinstance(v, Ref):
        o = st.heap.get(v.oid)
        if isinstance(o, ArrO):
            out.append(v)
        elif isinstance(o, ListO):
            for x in o.items:
                out += arrays_of(w, x, st)
    elif isinstance(v, Tup):
        for x in v.items:
            out += arrays_of(w, x, st)
    return out


def canon(term):
    """random draws are renumbered by order of size, so that two runs compare"""
    rs = sorted({a for a in t.all_atoms(term) if a.name == "rand"}, key=lambda a: a.attrs[2])
    if not rs:
        return term
    m = {a: t.opaque("rand", (), a.attrs[:2] + ("#%d" % i,), a.shape, "nonneg") for i, a in enumerate(rs)}
    return t.subst(term, m)


def results(w, op, st):
    """run an operation: (outcome, [(label, value, state)])"""
    r = w.run(op.f, st)
    if not r.ok:
        return r, []
    out = []
    st = r.st
    for rs in op.results:
        v = w.run(lambda: rs.get(r.val), st)
        if v.ok:
            st = v.st
            out.append((op.label + rs.label, v.val, v.st))
    if not op.results and r.val is not None:
        out.append((op.label, r.val, r.st))
    return r, out


def same_result(c, w, label, got, want_):
    """two runs of the same operation give the same value"""
    (la, va, sa), (lb, vb, sb) = got, want_
    it = w.it
    it.st = sa
    na = it.num(va)
    it.st = sb
    nb = it.num(vb)
    if na is None or nb is None:
        # lists, bytes, tuples: compare element by element
        it.st = sa
        xa = it.items(va) if not isinstance(va, Str) else list(va.args)
        it.st = sb
        xb = it.items(vb) if not isinstance(vb, Str) else list(vb.args)
        if xa is None or xb is None:
            if same(va, vb):
                c.ok(label)
            else:
                c.undecided(label, "values %r, %r" % (va, vb))
            return
        if len(xa) != len(xb):
            c.fail(label, "%d elements instead of %d" % (len(xa), len(xb)))
            return
        for k, (p, q) in enumerate(zip(xa, xb)):
            same_result(c, w, "%s[%d]" % (label, k), ("", p, sa), ("", q, sb))
        return
    c.equal_values(label, w, na.with_(term=canon(na.term)), sa, nb.with_(term=canon(nb.term)), sb)


def scribble(w, refs, st):
    """the caller overwrites arrays it was given; None if they are read-only"""
    it = w.it

    def f():
        for r in refs:
            n = it.num(r)
            v = P(S("scribble", "real"))
            if n.dtype == "bool":
                v = P(t.bool_atom("scribble_b"), "bool")
            it.setitem(r, Tup([K(Ellipsis)]) if False else SliceV(NONE, NONE, NONE), v)
    o = w.run(f, st)
    return o.st if o.ok else None


def watch_inputs(o):
    return {"amp": o.arr[0], "phase_in": o.arr[1], "phase_out": o.arr[2], "input": o.inp, "target": o.tar, "target amplitude": o.tam,
            "device state set by the caller": o.st, "phase map": o.ph, "x": o.x, "y": o.y}


def untouched_array(c, w, label, a, before, b, after):
    """an array of the caller keeps its contents"""
    if a is b or a.num is b.num:
        return c.ok(label)
    if b.num.term is not a.num.term and has_unknown(b.num.term):
        wr = [e for e in flat(after.events) if e.kind == "mutate" and e.args and isinstance(e.args[0], K) and e.args[0].val == abs(a.buf)]
        if wr:
            return c.fail(label, "writes into the memory of the caller's array", wr[0].where)
    return c.equal_values(label, w, b.num, after, a.num, before)


def flat(evs):
    for e in evs:
        yield e
        yield from flat(e.sub)
        yield from (x for x in flat(e.sub2) if isinstance(x, Ev)) if all(isinstance(x, Ev) for x in e.sub2) else ()


def c27_controllers(c):
    """loading an image leaves the caller's arrays and list as they were"""
    from .ctl import Lab
    lab = Lab(c)
    w, it = lab.w, lab.it
    for vendor in ("ALP", "Luxbeam"):
        for inv in (False, True):
            o = w.run(lambda: lab.make(vendor, invert=lit(inv)), lab.st)
            o = w.run(lambda: (w.meth(o.val, "initialize"), o.val)[1], o.st) if o.ok else o
            if not o.ok:
                c.undecided("%s controller" % vendor, "cannot be initialized")
                continue
            x, st = o.val, o.st
            for n in (None, 1, 2, 3, (0, 0)):
                L = "%s invert=%s %s" % (vendor, inv, "load_single" if n is None else "load_multiple(%s)" % (n,))
                c.anchor = c.loc("%sController.%s" % (vendor, "load_single" if n is None else "load_multiple"))

                def f():
                    w.it.st = st
                    imgs = None if n is None else lab.images(n)
                    s0 = w.it.st
                    r = w.run(lambda: w.meth(x, "load_single", lab.img[0]) if n is None else w.meth(x, "load_multiple", imgs), s0)
                    if not c.runs(L, r):
                        return
                    for k, ref in enumerate(lab.img):
                        untouched_array(c, w, "%s leaves image %d" % (L, k), s0.heap[ref.oid], s0, r.st.heap[ref.oid], r.st)
                    if imgs is not None:
                        p, q = s0.heap[imgs.oid].items, r.st.heap[imgs.oid].items
                        c.true("%s leaves the list" % L, len(p) == len(q) and all(same(i, j) for i, j in zip(p, q)), "the list has other contents afterwards")
                    # a second load of the same images uploads the same
                    if n is None or n == 2:
                        r2 = w.run(lambda: w.meth(x, "load_single", lab.img[0]) if n is None else w.meth(x, "load_multiple", imgs), r.st)
                        if c.runs(L + " again", r2):
                            for k, ref in enumerate(lab.img):
                                untouched_array(c, w, "%s again leaves image %d" % (L, k), s0.heap[ref.oid], s0, r2.st.heap[ref.oid], r2.st)
                c.group(L, f)


def c27(c):
    c27_arrays(c)
    c.rule = "loading an image writes neither into the caller's arrays nor into the caller's list"
    c.group("controllers", c27_controllers, c)


def c27_arrays(c):
    c.rule = "no write to an array that existed before the call; results do not alias anything the library keeps"
    for prec in PRECS:
        # arrays in the configured types, so that no conversion hides an alias
        for ar, ca in ((("f32", "c64"), ("f64", "c128"))[PRECS.index(prec)],):
            w = c.world(prec)
            it = w.it
            it.st = w.base
            o = build(w, ar, ca)
            base = it.st
            # a second pair of devices with the same parameters
            o2 = type(o)()
            o2.__dict__.update(o.__dict__)
            o2.d, o2.l = dmd(w), lcos(w)
            base = it.st
            allops = ops(w, o)
            twin = ops(w, o2)
            inputs = watch_inputs(o)
            profs = {n: getattr(o, n) for n in ("p", "pc", "q", "hg", "sg", "lg", "ze", "ze2", "win", "rwin", "cp", "cc")}

            def untouched(L, before, after, extra=()):
                for n, r in list(inputs.items()) + list(extra):
                    a, b = before.heap[r.oid], after.heap.get(r.oid)
                    if a is b:
                        c.ok("%s leaves %s" % (L, n))
                        continue
                    untouched_array(c, w, "%s leaves %s" % (L, n), a, before, b, after)
                for n, r in profs.items():
                    bad = []
                    for k, v in before.heap[r.oid].attrs.items():
                        x = after.heap[r.oid].attrs.get(k)
                        if isinstance(v, Ref) and isinstance(before.heap.get(v.oid), VarO):
                            if not (isinstance(x, Ref) and isinstance(after.heap.get(x.oid), VarO) and same(after.heap[x.oid].num, before.heap[v.oid].num)):
                                bad.append(k)
                    c.true("%s leaves profile %s" % (L, n), not bad, "changes %s of the profile" % ", ".join(bad))
            grids = [op for op in allops if "grid" in op.label]
            later = [op for op in allops if op.label in ("sample p", "sample complex hg", "set_dmd_grating_state ideal", "propagate_to_image DMD", "block_zeroth_order",
                                                         "circular_patch simple", "calculate_dmd_state simple") or "grid" in op.label]
            ref = {}
            for op in later:
                ref[id(op)] = results(w, op, base)[1]
            handed = []
            st = base
            # every operation on its own
            for op in allops:
                L = "%s %s" % (prec, op.label)
                c.anchor = c.loc(op.anchor) if op.anchor else ""

                def f():
                    r, rs = results(w, op, base)
                    if not r.ok:
                        return
                    untouched(L, base, w.it.st)
                    state_op = any("state" in x.label for x in op.results)
                    refs = []
                    for lab, v, s in rs:
                        refs += [x for x in arrays_of(w, v, s)]
                    refs = [x for x in refs if x.oid not in base.heap]
                    last = rs[-1][2] if rs else r.st
                    if state_op or not refs:
                        # the state array is the device's own; but an earlier state must not change when a new one is computed
                        if refs:
                            old = refs[0]
                            val = last.heap[old.oid].num
                            for op2 in allops:
                                if any("state" in x.label for x in op2.results):
                                    r2 = w.run(op2.f, last)
                                    if r2.ok:
                                        b = r2.st.heap.get(old.oid)
                                        c.equal_values("%s: array kept by the caller after %s" % (L, op2.label), w, b.num, r2.st, val, last)
                            if "circular_patch" in op.label:
                                return
                            st3 = scribble(w, refs, last)
                            if st3 is None:
                                c.ok(L + " state is read-only")
                                return
                            tw = twin[allops.index(op)]
                            rb = results(w, tw, base)[1]
                            for what, p, ref0 in (("again", op, rs), ("on another device", tw, rb)):
                                for g, h in zip(results(w, p, st3)[1], ref0):
                                    same_result(c, w, "%s %s after writing into the state" % (L, what), g, h)
                        return
                    # a second reading is independent of the first
                    r2, rs2 = results(w, op, last)
                    st2 = rs2[-1][2] if rs2 else r2.st
                    st3 = scribble(w, refs, st2)
                    if st3 is None:
                        c.ok(L + " results are read-only")
                        return
                    for (lab, v, s), (lab0, v0, s0) in zip(rs2, rs):
                        same_result(c, w, L + " second array after writing into the first", (lab, v, st3), (lab0, v0, s0))
                    untouched(L + " and writing into the result", base, st3)
                    r4, rs4 = results(w, op, st3)
                    for g, h in zip(rs4, rs):
                        same_result(c, w, L + " again after writing into the result", g, h)
                    if "grid" in op.label or "field" in op.label or "propagate" in op.label:
                        for op2 in later:
                            if op2 is op:
                                continue
                            r5, rs5 = results(w, op2, st3)
                            for g, h in zip(rs5, ref[id(op2)]):
                                same_result(c, w, "%s after writing into the result of %s" % (op2.label, op.label), g, h)
                c.group(L, f)
            # the state of a new device is its own
            for cls, mk, attr in (("DMD", dmd, "dmd_state"), ("LCOS_SLM", lcos, "slm_state")):
                L = "%s state of a new %s" % (prec, cls)
                c.anchor = c.loc(cls + ".__init__")

                def fresh_state():
                    def read(dev):
                        return w.get(dev, attr)
                    r = w.run(lambda: read(mk(w)), base)
                    if not r.ok:
                        return c.undecided(L, "cannot be made")
                    refs = arrays_of(w, r.val, r.st)
                    st3 = scribble(w, refs, r.st) if refs else None
                    if st3 is None:
                        return c.ok(L + " (no writable array)")
                    r2 = w.run(lambda: read(mk(w)), st3)
                    if r2.ok:
                        same_result(c, w, L + " after writing into the state of another one", ("", r2.val, r2.st), ("", r.val, r.st))
                    for op in (x for x in allops if "state_o" in x.label):
                        g = results(w, op, r.st)[1]
                        h = results(w, op, st3)[1]
                        for a, b in zip(h, g):
                            same_result(c, w, "%s after writing into the state of a new device" % op.label, a, b)
                c.group(L, fresh_state)
            c.anchor = c.loc("_fourier_transform")
            c.no_issues(prec + " numpy callbacks only read the arrays they are given", w, ("tensor-write",))
            # arrays handed out earlier survive everything that follows
            L = prec + " earlier results"

            def g():
                st = base
                kept = []
                for op in allops:
                    r, rs = results(w, op, st)
                    if not r.ok:
                        continue
                    for lab, v, s in rs:
                        for x in arrays_of(w, v, s):
                            kept.append((lab, x, s.heap[x.oid].num))
                    st = rs[-1][2] if rs else r.st
                for lab, x, num in kept:
                    b = st.heap.get(x.oid)
                    if b is not None and not same(b.num, num):
                        c.equal_values("%s: %s unchanged by later calls" % (L, lab), w, b.num, st, num, base)
                    else:
                        c.ok("%s: %s unchanged by later calls" % (L, lab))
                untouched(L + " (all calls)", base, st)
            c.group(L, g)
            # writing into an argument after the call changes no result
            for L, f, rd in (("propagate_to_image", lambda: w.meth(o.sim, "propagate_to_image", o.inp), lambda: w.get(o.sim, "input_field")),
                             ("propagate_to_image", lambda: w.meth(o.sim, "propagate_to_image", o.inp), lambda: w.get(o.sim, "output_field")),
                             ("set_dmd_grating_state", lambda: w.meth(o.d, "set_dmd_grating_state", *o.arr, method=lit("ideal")), lambda: w.get(o.d, "dmd_state")),
                             ("calculate_dmd_state", lambda: w.meth(o.d, "calculate_dmd_state", o.inp, o.tar, method=lit("ideal")), lambda: w.get(o.d, "dmd_state"))):
                c.anchor = ""

                def h():
                    a = w.run(f, base)
                    if not a.ok:
                        return
                    v = w.run(rd, a.st)
                    s = scribble(w, list(o.arr) + [o.inp, o.tar], v.st)
                    if s is None:
                        return
                    v2 = w.run(rd, s)
                    same_result(c, w, "%s %s result after the caller reuses its arrays" % (prec, L), ("", v2.val, v2.st), ("", v.val, v.st))
                c.group(L, h)


NX2, NY2, PX2 = S("Nx2", "int", "pos"), S("Ny2", "int", "pos"), S("px2", "pos")
PADX2, PADY2 = S("pad_x2", "int", "nonneg"), S("pad_y2", "int", "nonneg")


def second_set(w, o, only=None):
    """another device, simulation and profiles of other parameters (only: the one parameter that differs)"""
    def pick(name, one, two):
        return two if only in (None, name) else one
    lam, f, per, th = (pick(n, x, S(n + "2", *k)) for n, x, k in (("lam", LAM, ("pos",)), ("f", F, ("pos",)), ("per", PER, ("pos",)), ("theta", TH, ("real",))))
    nx, ny, px = pick("Nx", NX, NX2), pick("Ny", NY, NY2), pick("px", PX, PX2)
    padx, pady = pick("pad_x", PADX, PADX2), pick("pad_y", PADY, PADY2)
    class O:
        pass
    q = O()
    q.__dict__.update(o.__dict__)
    sh = (ny, nx)
    if only in ("pad_x", "pad_y"):
        q.sim = need(w, w.run(lambda: w.new("DMDSimulation", o.d, P(padx, "int"), P(pady, "int"))), "simulation")
        q.lsim = need(w, w.run(lambda: w.new("SLMSimulation", o.l, P(padx, "int"), P(pady, "int"))), "simulation")
        return q
    q.d = need(w, w.run(lambda: w.new("DMD", P(lam), P(f), P(per), P(th), P(nx, "int"), P(ny, "int"), P(px), P(NEG, "bool"))), "DMD")
    q.l = need(w, w.run(lambda: w.new("LCOS_SLM", P(lam), P(f), P(nx, "int"), P(ny, "int"), P(px))), "LCOS_SLM")
    q.sim = need(w, w.run(lambda: w.new("DMDSimulation", q.d, P(padx, "int"), P(pady, "int"))), "simulation")
    q.lsim = need(w, w.run(lambda: w.new("SLMSimulation", q.l, P(padx, "int"), P(pady, "int"))), "simulation")
    if only is not None and only not in ("Nx", "Ny"):
        w.run(lambda: (w.it.setattr(q.d, "dmd_state", q.st), w.it.setattr(q.l, "slm_state", q.ph)))
        return q        # the same profiles and arrays
    q.arr = [array(w, n + "2", "f64", sh) for n in ("amp", "pin", "pout")]
    q.inp, q.tar = array(w, "inp2", "c128", sh), array(w, "tar2", "c128", sh)
    q.tam = array(w, "tamp2", "f64", sh)
    q.st = array(w, "bst2", "bool", sh)
    q.ph = array(w, "phs2", "f64", sh)
    for n, cls, args in (("hg", "HermiteGaussian", [lit(0), lit(1)]), ("sg", "SuperGaussian", [P(S("pp2", "pos"))]), ("lg", "LaguerreGaussian", [lit(-1), lit(0)])):
        a = [P(S("x02", "real")), P(S("y02", "real")), P(S("a2", "real")), P(S("w2", "pos"))] + args
        setattr(q, n, need(w, w.run(lambda: w.new(cls, *a)), cls))
    q.ze = need(w, w.run(lambda: w.new("Zernike", P(S("a2", "real")), P(S("radius2", "pos")), lit(2), lit(2))), "Zernike")
    q.ze2 = need(w, w.run(lambda: w.new("Zernike", P(S("a2", "real")), P(S("radius2", "pos")), lit(1), lit(1), normalize=lit(False))), "Zernike")
    q.win = need(w, w.run(lambda: w.new("RectangularWindowCircular", P(S("x02", "real")), P(S("y02", "real")), P(S("r2", "pos")))), "window")
    q.rwin = need(w, w.run(lambda: w.new("RectangularWindowRectangle", P(S("x02", "real")), P(S("y02", "real")), P(S("wx2", "pos")), P(S("wy2", "pos")))), "window")
    q.p, q.pc = profile(w, "p2"), profile(w, "pc2", True)
    q.cp = need(w, w.run(lambda: w.new("ConstantProfile", P(S("a2", "real")))), "ConstantProfile")
    w.run(lambda: w.it.setattr(q.d, "dmd_state", q.st))
    w.run(lambda: w.it.setattr(q.l, "slm_state", q.ph))
    return q


def device_op(op):
    return "grid" in op.label or op.label.split()[0] in ("sample", "set_dmd_grating_state", "calculate_dmd_state", "circular_patch", "calculate_hologram",
                                                         "propagate_to_image", "block_zeroth_order", "first_order_origin", "theta")


def one_argument(c, prec):
    """f(a); f(a') = f(a'), for every entry point and every argument, also when an array is overwritten in place"""
    w = c.world(prec)
    it = w.it
    it.st = w.base
    o = build(w, w.R, w.C)
    new = [array(w, n + "n", w.R, SH) for n in ("amp", "pin", "pout")]
    p2, inp2, tam2, win2 = profile(w, "pn"), array(w, "inpn", w.C, SH), array(w, "tampn", w.R, SH), profile(w, "winn")
    X2, Y2 = (array(w, n, w.R, (S("na", "int", "pos"), S("nb", "int", "pos"))) for n in ("Xn", "Yn"))
    wt = (tensor("inpt", w.C, SH), tensor("inptn", w.C, SH), tensor("wint", w.C, SH), tensor("wintn", w.C, SH))
    ph2, st2 = array(w, "phsn", w.R, SH), array(w, "bstn", "bool", SH)
    base = it.st
    D, L_ = lambda: w.get(o.d, "dmd_state"), lambda: w.get(o.l, "slm_state")
    sym = lambda n, *k: P(S(n, *k))
    I2, S2, R2, M2 = P(S("NIn", "int", "pos"), "int"), sym("SSn", "real"), sym("ROn", "pos"), sym("MIXn", "real")
    maps_ = dict(zip(("amp", "phase_in", "phase_out"), o.arr))
    maps2 = dict(zip(("amp", "phase_in", "phase_out"), new))
    profs = {"amp": o.p, "phase_in": o.hg, "phase_out": o.ze}
    profs2 = {k: p2 for k in profs}
    nums = {k: P(S(k + "0", "real")) for k in profs}
    nums2 = {k: P(S(k + "1", "real")) for k in profs}
    xy = dict(i=P(CI), j=P(CJ), d=P(DD))
    xy2 = dict(i=P(S("cin", "real")), j=P(S("cjn", "real")), d=P(S("ddn", "pos")))
    ex = dict(input_profile=wt[0], signal_window=wt[2], N=P(NI, "int"), s=P(SS))
    ex2 = dict(input_profile=wt[1], signal_window=wt[3], N=I2, s=S2)
    E = []          # (label, object, method, keyword arguments, the same of other values, result)

    def meths(label, obj, name, kw, kw2, get, ms=(), others=()):
        for m in ms or (None,):
            a, b = dict(kw), dict(kw2)
            if m is not None:
                a["method"] = lit(m)
            if m == "ifta":
                a.update((k, v) for k, v in ex.items() if k != "input_profile" or name != "calculate_dmd_state")
                b.update((k, v) for k, v in ex2.items() if k in a)
            if m == "random":
                a["r"], b["r"] = P(RO), R2
            E.append(("%s %s" % (label, m or ""), obj, name, a, b, get))
    for kl, a, b in (("arrays", maps_, maps2), ("profiles", profs, profs2), ("numbers", nums, nums2)):
        ms = ("ideal", "simple", "random", "ifta") if kl == "arrays" or c.thorough else ("ideal", "simple")
        meths("set_dmd_grating_state of " + kl, o.d, "set_dmd_grating_state", a, b, D, ms)
        meths("circular_patch of " + kl, o.d, "circular_patch", dict(a, **xy), dict(b, **xy2), D, ms)
    for kl, a, b in (("arrays", (o.inp, o.tar, o.tam), (inp2, inp2, tam2)), ("profiles", (o.hg, o.lg, o.win), (p2, p2, win2))):
        meths("calculate_dmd_state of " + kl, o.d, "calculate_dmd_state", dict(zip(("input_profile", "target_profile", "window"), a)),
              dict(zip(("input_profile", "target_profile", "window"), b)), D, ("ideal", "simple", "random", "ifta"))
    for kl, a, b in (("arrays", (o.inp, o.tam, o.tam), (inp2, tam2, tam2)), ("profiles", (o.hg, o.sg, o.win), (p2, p2, win2))):
        for m, ks in (("gs", 2), ("mraf", 3)):
            kw = dict(zip(("input_profile", "target_amp_profile", "signal_window")[:ks], a), method=lit(m), N=P(NI, "int"))
            kw2 = dict(zip(("input_profile", "target_amp_profile", "signal_window")[:ks], b), N=I2)
            if m == "mraf":
                kw["mixing_factor"], kw2["mixing_factor"] = P(MIX), M2
            E.append(("calculate_hologram %s of %s" % (m, kl), o.l, "calculate_hologram", kw, kw2, L_))
    for sl, sim in (("DMD", o.sim), ("LCOS", o.lsim)):
        for kl, a, b in (("array", o.inp, inp2), ("profile", o.hg, p2), ("number", lit(1), P(S("cr", "real")))):
            E.append(("propagate_to_image %s of %s" % (sl, kl), sim, "propagate_to_image", {"input_profile": a}, {"input_profile": b},
                      lambda sim=sim: Tup([w.get(sim, "output_field"), w.get(sim, "image_plane_intensity"), w.meth(sim, "get_output_power")])))
    yes = lit(True)
    for n in ("p", "hg", "ze", "win", "lg"):
        E.append(("profile_to_tensor " + n, o.d, "profile_to_tensor", {"profile": getattr(o, n), "at_fourier_plane": yes, "complex": yes},
                  {"profile": p2, "at_fourier_plane": lit(False), "complex": lit(False)} if n != "lg" else {"at_fourier_plane": lit(False)}, None))
        E.append(("evaluate " + n, getattr(o, n), "__call__", {"x": o.x, "y": o.y}, {"x": X2, "y": Y2}, None))
    fns = [("remove_trivial_phase", {"profile": o.ph, "radius": P(RAD), "remove_defocus": lit(False)}, {"profile": ph2, "radius": sym("RADn", "pos"), "remove_defocus": yes}),
           ("zernike_decomposition", {"profile": o.ph, "radius": P(RAD), "num_terms": lit(3), "reconstruct": lit(False), "extrapolate": lit(False)},
            {"profile": ph2, "radius": sym("RADn", "pos"), "num_terms": lit(5), "reconstruct": yes, "extrapolate": yes}),
           ("zernike_decomposition", {"profile": o.ph, "radius": P(RAD), "num_terms": lit(3), "reconstruct": yes, "extrapolate": lit(False)},
            {"profile": ph2, "radius": sym("RADn", "pos"), "num_terms": lit(2), "reconstruct": lit(False), "extrapolate": yes}),
           ("ansi_j_to_n_m", {"idx": lit(7)}, {"idx": lit(12)})]
    for name, a, b in fns:
        E.append((name + (" reconstruct" if "reconstruct" in a and a["reconstruct"] is yes else ""), None, name, a, b, None))

    def perform(obj, name, kw, get, st):
        def f():
            v = w.call(w.attr(name), **kw) if obj is None else w.call(obj, kw["x"], kw["y"]) if name == "__call__" else w.meth(obj, name, **kw)
            if get is None:
                return v
            r = get()
            return Tup([r, v] if v is not None and name == "calculate_dmd_state" else [r])
        return w.run(f, st)

    def reset(st):
        def f():
            it.setattr(o.d, "dmd_state", o.st)
            it.setattr(o.l, "slm_state", o.ph)
        return w.run(f, st).st
    for label, obj, name, kw, kw2, get in E:
        c.anchor = c.loc(next((k + name for k in ("DMD.", "LCOS_SLM.", "SLM.", "SLMSimulation.", "") if c.loc(k + name)), "")) if name != "__call__" else c.loc("FunctionProfile.__call__")

        def f():
            a = perform(obj, name, kw, get, base)
            if not a.ok:
                return c.undecided("%s %s" % (prec, label), "no result")
            st = reset(a.st)
            for k in kw2:
                L = "%s %s, then with another %s" % (prec, label, k)
                k2 = dict(kw, **{k: kw2[k]})
                x, y = perform(obj, name, k2, get, st), perform(obj, name, k2, get, base)
                if not (x.ok and y.ok):
                    c.undecided(L, "no result")
                    continue
                same_result(c, w, L, ("", x.val, x.st), ("", y.val, y.st))
                # an array overwritten in place
                v, u = kw[k], kw2[k]
                if not isinstance(v, Ref) or not isinstance(base.heap.get(v.oid), ArrO) or not isinstance(u, Ref) or not isinstance(base.heap.get(u.oid), ArrO):
                    continue

                def over(s):
                    q = w.run(lambda: it.setitem(v, SliceV(NONE, NONE, NONE), u), s)
                    return q.st if q.ok else None
                s1, s0 = over(st), over(base)
                if s1 is None or s0 is None:
                    continue
                L = "%s %s, then with %s overwritten in place" % (prec, label, k)
                x, y = perform(obj, name, kw, get, s1), perform(obj, name, kw, get, s0)
                if x.ok and y.ok:
                    same_result(c, w, L, ("", x.val, x.st), ("", y.val, y.st))
        c.group("%s %s twice" % (prec, label), f)
    # the plane, the state of the device between two calculations
    for n in ("output_field", "image_plane_intensity"):
        c.anchor = c.loc("SLMSimulation.propagate_to_image")

        def g():
            a = w.run(lambda: w.meth(o.sim, "propagate_to_image", o.inp), base)
            L = "%s propagate_to_image after the device state changes: %s" % (prec, n)

            def again(s):
                def h():
                    it.setattr(o.d, "dmd_state", st2)
                    w.meth(o.sim, "propagate_to_image", o.inp)
                    return w.get(o.sim, n)
                return w.run(h, s)
            x, y = again(a.st), again(base)
            if x.ok and y.ok:
                same_result(c, w, L, ("", x.val, x.st), ("", y.val, y.st))
            # the state is overwritten in place
            def over(s):
                def h():
                    it.setitem(w.get(o.d, "dmd_state"), SliceV(NONE, NONE, NONE), st2)
                    w.meth(o.sim, "propagate_to_image", o.inp)
                    return w.get(o.sim, n)
                return w.run(h, s)
            x, y = over(a.st), over(base)
            if x.ok and y.ok:
                same_result(c, w, L + " (in place)", ("", x.val, x.st), ("", y.val, y.st))
        c.group("%s device state changes %s" % (prec, n), g)


def c28(c):
    c.rule = "memoised and compiled code reads nothing that can change; a result after any history equals the result of fresh objects"
    for prec in PRECS:
        w = c.world(prec)
        it = w.it
        it.st = w.base
        o = build(w)
        q = second_set(w, o)
        base = it.st
        first, second = ops(w, o), ops(w, q)

        def restore(st):
            def f():
                for x in (o, q):
                    it.setattr(x.d, "dmd_state", x.st)
                    it.setattr(x.l, "slm_state", x.ph)
            return w.run(f, st).st
        refs = {}
        for name, lst in (("first", first), ("second", second)):
            for op in lst:
                refs[(name, op.label, id(op))] = results(w, op, base)[1]

        def history(lst):
            st = base
            for op in lst:
                r, rs = results(w, op, st)
                if r.ok:
                    st = rs[-1][2] if rs else r.st
            return restore(st)

        def compare(L, name, lst, st):
            for op in lst:
                c.anchor = c.loc(op.anchor) if op.anchor else ""

                def f():
                    r, rs = results(w, op, st)
                    want_ = refs[(name, op.label, id(op))]
                    if len(rs) != len(want_):
                        c.undecided("%s %s" % (L, op.label), "results differ in number")
                        return
                    for g, h in zip(rs, want_):
                        same_result(c, w, "%s %s" % (L, g[0]), g, h)
                c.group("%s %s" % (L, op.label), f)
        h1 = history(first)
        compare(prec + " second device after the first was used:", "second", second, h1)
        compare(prec + " first device after everything was used once:", "first", first, h1)
        h2 = history(second)
        compare(prec + " first device after the second was used:", "first", first, h2)
        c.anchor = ""
        c.no_issues(prec + " memoised and compiled functions read only what cannot change", w, ("stale", "trace-effect"))
        # profiles assigned after use
        st = h1
        a = w.run(lambda: (it.setattr(o.hg, "x0", P(S("x0n", "real"))), it.setattr(o.win, "r", P(S("rn", "pos"))), it.setattr(o.sg, "w", P(S("wn", "pos")))), h1)
        b = w.run(lambda: (it.setattr(o.hg, "x0", P(S("x0n", "real"))), it.setattr(o.win, "r", P(S("rn", "pos"))), it.setattr(o.sg, "w", P(S("wn", "pos")))), base)
        if c.runs(prec + " assign parameters", a) and b.ok:
            for op in first:
                if not any(k in op.label for k in ("hg", "win", "sg", "of profiles", "ifta", "mraf", "gs", "propagate")):
                    continue

                def f():
                    r, rs = results(w, op, a.st)
                    r0, rs0 = results(w, op, b.st)
                    for g, h in zip(rs, rs0):
                        same_result(c, w, "%s %s with parameters assigned after use" % (prec, g[0]), g, h)
                c.group(op.label, f)
    # two devices that differ in one parameter only
    for prec in PRECS if c.thorough else PRECS[:1]:
        for only in ("lam", "f", "per", "theta", "Nx", "Ny", "px", "pad_x", "pad_y"):
            def f():
                w = c.world(prec)
                it = w.it
                it.st = w.base
                o = build(w)
                q = second_set(w, o, only)
                base = it.st
                st = base
                for op in ops(w, o):
                    if device_op(op):
                        r, rs = results(w, op, st)
                        if r.ok:
                            st = rs[-1][2] if rs else r.st
                st = w.run(lambda: (it.setattr(q.d, "dmd_state", q.st), it.setattr(q.l, "slm_state", q.ph)), st).st
                for op in ops(w, q):
                    if not device_op(op):
                        continue
                    c.anchor = c.loc(op.anchor) if op.anchor else ""

                    def g():
                        r0, want_ = results(w, op, base)
                        r, rs = results(w, op, st)
                        L = "%s device of other %s after the first was used: %s" % (prec, only, op.label)
                        if len(rs) != len(want_):
                            c.undecided(L, "results differ in number")
                            return
                        for x, h in zip(rs, want_):
                            same_result(c, w, "%s%s" % (L, x[0]), x, h)
                    c.group("%s %s %s" % (prec, only, op.label), g)
            c.group("%s only %s differs" % (prec, only), f)
    # the same entry point twice, with one argument changed
    for prec in PRECS if c.thorough else PRECS[:1]:
        c.group(prec + " one argument changed", one_argument, c, prec)
    # static part: every memoised or compiled function of the package
    c.rule = "arguments of a memoised function are hashable and identify everything the result depends on"
    n = 0
    for m in c.model.files:
        for x in ast.walk(c.tree(m)):
            if isinstance(x, ast.FunctionDef):
                decs = [ast.unparse(d) for d in x.decorator_list]
                if any("cache" in d or "tf.function" in d for d in decs):
                    n += 1
    c.notes.append("%d memoised or compiled functions in the package" % n)


def rand_events(evs, depth=0):
    out = []
    for e in evs:
        if e.kind in ("rand", "seed"):
            out.append((e, depth))
        if e.sub:
            out += rand_events(e.sub, depth + (1 if e.kind in ("loop", "hwloop") else 0))
        if e.sub2:
            out += rand_events(e.sub2, depth)
    return out


def c29(c):
    c.rule = "random sources: none in deterministic operations; exactly one per-pixel draw from TensorFlow's generator per call otherwise"
    for prec in PRECS:
        w = c.world(prec)
        it = w.it
        it.st = w.base
        o = build(w)
        extra = []
        base = it.st
        if rand_events(base.events):
            for e, dp in rand_events(base.events):
                c.fail("%s import and construction" % prec, "draws random numbers or seeds a generator (%s)" % e.name, e.where)
        else:
            c.ok("%s import and construction" % prec)
        for op in ops(w, o):
            L = "%s %s" % (prec, op.label)
            c.anchor = c.loc(op.anchor) if op.anchor else ""

            def f():
                r, rs = results(w, op, base)
                if not r.ok:
                    c.undecided(L, "no result")
                    return
                st = rs[-1][2] if rs else r.st
                ev = rand_events(st.events[len(base.events):])
                seeds = [e for e, d in ev if e.kind == "seed"]
                draws = [(e, d) for e, d in ev if e.kind == "rand"]
                for e in seeds:
                    c.fail(L + " does not seed", "reseeds a random generator", e.where)
                if not op.stochastic:
                    c.true(L + " draws nothing", not draws, "uses random numbers (%s)" % (draws[0][0].name if draws else ""), draws[0][0].where if draws else None)
                else:
                    for e, d in draws:
                        c.true(L + " generator", e.name == "tf", "uses the %s generator, which seeding TensorFlow does not control" % e.name, e.where)
                        c.true(L + " one draw per call", d == 0, "draws inside the iteration", e.where)
                        c.true(L + " no fixed seed", len(e.args) < 2, "draws with a fixed operation seed", e.where)
                    c.true(L + " one draw", len(draws) == 1, "%d draws" % len(draws))
                    # the stored state depends on this draw, one number per pixel
                    for lab, v, s in rs:
                        if not lab.endswith(" state"):
                            continue
                        it.st = s
                        n = it.num(v)
                        if n is not None and rand_of(c, lab, n.term) is not None:
                            c.ok(L + " per-pixel draw")
                            # a second call draws anew
                            r2, rs2 = results(w, op, st)
                            for lab2, v2, s2 in rs2:
                                if lab2 == lab:
                                    it.st = s2
                                    n2 = it.num(v2)
                                    a = {x.attrs for x in t.all_atoms(n.term) if x.name == "rand"}
                                    b = {x.attrs for x in t.all_atoms(n2.term) if x.name == "rand"}
                                    if "circular_patch" in op.label:
                                        b = b - a or a & b if len(b) < 2 else b - a
                                    c.true(L + " fresh draw in the second call", not (a & b) and b, "the second call uses the random numbers of the first")
                for lab, v, s in rs:
                    if op.stochastic and lab.endswith(" state"):
                        continue
                    it.st = s
                    n = it.num(v)
                    if n is None:
                        continue
                    if has_unknown(n.term):
                        c.undecided(L, "value involves %s" % has_unknown(n.term))
                        continue
                    bad = [x for x in t.all_atoms(n.term) if x.name == "rand"]
                    c.true(L + " deterministic result", not bad, "%s depends on random numbers" % lab)
            c.group(L, f)
        c.anchor = ""
        c.no_issues(prec + " draws are not frozen at compilation", w, ("frozen-random",))
        # time and other hidden inputs
        hidden = [k for k in w.it.unmodelled if any(x in k for x in ("time.", "random", "urandom", "datetime", "secrets"))]
        c.true(prec + " no hidden inputs", not hidden, "uses %s" % ", ".join(hidden))
    c.rule = "no call of a clock, process or entropy source in the numerical modules"
    for m in c.model.files:
        if ".util" in m or "benchmark" in m:
            continue
        for x in ast.walk(c.tree(m)):
            if isinstance(x, ast.Call):
                d = ast.unparse(x.func)
                if d.split(".")[0] in ("time", "datetime", "secrets", "uuid") or d in ("os.urandom", "os.getpid", "id", "hash", "np.random.default_rng"):
                    c.fail("%s %s" % (m, d), "call of %s in numerical code" % d, "%s:%d" % (c.model.relpath(m), x.lineno))
        c.ok("module %s" % m)


CHECKS = {
    "C27": Check(c27, "Effect and alias analysis: arrays are heap objects with a buffer; views and conversions share or copy buffers as NumPy and TensorFlow do. After each public operation all "
                 "arrays and profiles that existed before are compared with their former value, and the abstract caller overwrites every array it was handed before everything is read again."),
    "C28": Check(c28, "Dependence analysis of memoised and compiled functions (what they read when first run must be immutable), plus comparison of value numbers after a history on two devices with those of fresh objects."),
    "C29": Check(c29, "Effect analysis of random sources over every public operation, and dependence of every result on the draws."),
}
