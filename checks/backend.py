"""C15-C17: precision and FFT backend."""
from .battery import *

CPX = {"f32": "c64", "f64": "c128"}
LIB_OF = {"tensorflow": "tf", "numpy": "np"}
INT = {"f32": "i32", "f64": "i64"}


def c15(c):
    c.rule = "typestate of the precision: unfixed after import, fixed by the first read, assignments refused afterwards"
    c.anchor = c.loc("_BackEnd.dtype")
    for libs in ((), ("ALP4", "Luxbeam")):
        w = c.world("f32", libs=libs, symbolic_fft=False)
        it = w.it
        L0 = "libs=%s " % (",".join(libs) or "none")

        def start():
            for m in ("pySLM2.util", "pySLM2.util.controller", "pySLM2.util.sample"):
                o = w.run(lambda: it.import_module(m))
                c.runs(L0 + "import " + m, o)
        c.group("import", start)
        base = it.st
        b = w.attr("BACKEND")
        READ = {"dtype": lambda p: p, "dtype_complex": lambda p: CPX[p], "dtype_int": lambda p: INT[p]}

        def setd(v, st):
            return w.run(lambda: it.setattr(b, "dtype", v), st)

        def reads(L, st, prec):
            for n, f in READ.items():
                o = w.run(lambda: w.get(b, n), st)
                if c.runs("%s %s" % (L, n), o):
                    c.true("%s %s is tf.%s" % (L, n, f(prec)), isinstance(o.val, DT) and o.val.name == f(prec) and o.val.lib == "tf", "%s is %r, not the TensorFlow type" % (n, o.val))

        def names(prec):
            v = w.run(lambda: w.get(b, "TENSOR_32BITS" if prec == "f32" else "TENSOR_64BITS"), base)
            return v.val if v.ok else None

        def f():
            reads(L0 + "default:", base, "f32")
            for hist in (["f64"], ["f32"], ["f64", "f32"], ["f32", "f64"], ["f64", "f64"], ["f64", "f32", "f64"]):
                for how in ("tf", "constant", "np", "name"):
                    st = base
                    L = "%s%s %s" % (L0, how, ">".join(hist))
                    good = True
                    for p in hist:
                        v = DT(p, "tf") if how == "tf" else DT(p, "np") if how == "np" else K("float" + p[1:]) if how == "name" else names(p)
                        if v is None:
                            good = False
                            c.fail(L, "BACKEND.TENSOR_%sBITS missing" % p[1:])
                            break
                        o = setd(v, st)
                        if not c.runs(L + " assignment before any read", o):
                            good = False
                            break
                        st = o.st
                    if good:
                        reads(L, st, hist[-1])
            bad = [DT("f16", "tf"), DT("c64", "tf"), DT("c128", "tf"), DT("i32", "tf"), DT("i64", "tf"), DT("bool", "tf"), DT("f16", "np"), DT("i64", "np"), DT("c128", "np"), lit(32), lit("no-such-type"), lit("complex128"), NONE]
            for v in bad:
                L = "%sinvalid %r" % (L0, v)
                o = setd(v, base)
                if c.raises(L, o, "ValueError"):
                    for st, e in o.raised:
                        reads(L + " refused:", st, "f32")
                        o2 = setd(DT("f64", "tf"), st)
                        if c.runs(L + ", then 64 bits", o2):
                            reads(L + ", then 64 bits:", o2.st, "f64")
            for first in ("f32", "f64"):
                o = setd(DT(first, "tf"), base)
                if not o.ok:
                    continue
                for n in READ:
                    r = w.run(lambda: w.get(b, n), o.st)
                    if not r.ok:
                        continue
                    for v in (DT("f32", "tf"), DT("f64", "tf")):
                        L = "%s%s, %s read, then %s" % (L0, first, n, v.name)
                        o2 = setd(v, r.st)
                        if c.raises(L, o2, "Exception"):
                            for st, e in o2.raised:
                                reads(L + " refused:", st, first)
                                o3 = setd(v, st)
                                c.raises(L + " twice", o3, "Exception")
                    for v in bad[:3]:
                        c.raises("%s%s, %s read, then %r" % (L0, first, n, v), setd(v, r.st), "Exception")
            # anything that uses a tensor type fixes it
            for L, g in (("DMD", lambda: w.new("DMD", P(LAM), P(F), P(PER), P(TH), P(NX, "int"), P(NY, "int"), P(PX))),
                         ("HermiteGaussian", lambda: w.new("HermiteGaussian", P(S("x0", "real")), P(S("y0", "real")), P(S("a", "real")), P(S("w", "pos")))),
                         ("LCOS grid", lambda: w.get(w.new("LCOS_SLM", P(LAM), P(F), P(NX, "int"), P(NY, "int"), P(PX)), "fourier_plane_grid"))):
                o = w.run(g, base)
                if o.ok:
                    c.raises("%sassignment after %s" % (L0, L), setd(DT("f64", "tf"), o.st), "Exception")
            # choosing the FFT does not fix the precision
            for k in (0, 1):
                o = w.run(lambda: it.setattr(b, "fft_backend", lit(k)), base)
                if c.runs("%sfft_backend=%d" % (L0, k), o):
                    o2 = setd(DT("f64", "tf"), o.st)
                    if c.runs("%sfft_backend=%d then 64 bits" % (L0, k), o2):
                        reads("%sfft_backend=%d then 64 bits:" % (L0, k), o2.st, "f64")
            c.anchor = c.loc("_BackEnd.dtype")
        c.group(L0 + "protocol", f)


def c16(c):
    c.rule = "no operation mixes precisions or real and complex tensors; no 32-bit array appears in a 64-bit configuration; results have the configured type"
    for prec in PRECS:
        variants = [("64-bit inputs", "f64", "c128")] + ([("32-bit inputs", "f32", "c64")] if prec == "f32" else [])
        for vl, ar, ca in variants:
            w = c.world(prec)
            it = w.it
            seen = {}
            if prec == "f64":
                Num.watch = (("f32", "c64"), lambda n: seen.setdefault((n.dtype, it.where()), n))
            try:
                it.st = w.base
                o = build(w, ar, ca)
                base = it.st
                for op in ops(w, o):
                    L = "%s %s %s" % (prec, vl, op.label)
                    c.anchor = c.loc(op.anchor) if op.anchor else ""

                    def f():
                        r = w.run(op.f, base)
                        if not c.runs(L, r):
                            return
                        for rs in op.results:
                            v = w.run(lambda: rs.get(r.val), r.st)
                            if c.runs(L + rs.label, v) and rs.dtype is not None:
                                c.value(L + rs.label, w, v.val, None, rs.shape, rs.dtype, rs.kind, state=v.st)
                    c.group(L, f)
            finally:
                Num.watch = None
            if prec == "f64":
                for (dt, wh), n in sorted(seen.items()):
                    c.fail("f64: no 32-bit arrays", "a %s %s is created although the precision is 64 bits" % (dt, "tensor" if n.kind == "tf" else "array"), wh)
                if not seen:
                    c.ok("f64: no 32-bit arrays")
            c.no_issues("%s %s: element types of operations" % (prec, vl), w, ("dtype",))


def c17(c):
    c.rule = "both backends give the same value number for every result; the choice is read when the transform runs"
    sel = {"tensorflow": 0, "numpy": 1}
    for prec in PRECS:
        w = c.world(prec, symbolic_fft=False)
        it = w.it
        it.st = w.base
        b = w.attr("BACKEND")
        o = build(w, orders=POS)
        base = it.st
        consts = {}
        for n, k in (("FFT_BACKEND_TENSORFLOW", "tensorflow"), ("FFT_BACKEND_NUMPY", "numpy")):
            v = w.run(lambda: w.get(b, n), base)
            if c.runs("%s BACKEND.%s" % (prec, n), v):
                consts[k] = v.val
        c.anchor = c.loc("_BackEnd.fft_backend")

        def by(L, k):
            """the transforms of this run were taken with the library selected, and with no other"""
            other = [x for x in w.it.ffts if x[0] != LIB_OF[k]]
            sure = [x for x in other if x[1] is t.TRUE or not has_unknown(x[1])
                    and valuation.compare(t.as_num(x[1]), t.ZERO, None, trials=24, seed=c.seed)[0] == "differ"]
            if sure:
                c.fail(L + " takes effect", "transform taken with %s although %s is selected" % ("TensorFlow" if sure[0][0] == "tf" else "NumPy", k), sure[0][2])
            elif other or not w.it.ffts:
                c.undecided(L + " takes effect", "which library computes the transform is not known")
            else:
                c.ok(L + " takes effect")

        def choose(k, st):
            return w.run(lambda: it.setattr(b, "fft_backend", consts[k]), st)
        a, pi, po, m = mode_match(t.sym("inp", SH), t.sym("tar", SH))
        win = circ_spec(IX, IY)
        z = t.sym("inp", SH) * t.as_num(t.bool_atom("bst", (), (), SH))
        cases = [
            ("simulation", lambda: (w.meth(o.sim, "propagate_to_image", o.inp), w.get(o.sim, "image_plane_field"))[1],
             lambda g: MX * MY * PX ** 2 / (LAM * F) * centred_ifft(t.pad(z, ((PADY, PADY), (PADX, PADX)), PSH), PSH), PSH, w.C),
            ("calculate_dmd_state", lambda: (w.meth(o.d, "calculate_dmd_state", o.inp, o.tar, method=lit("ideal")), w.get(o.d, "dmd_state"))[1],
             lambda g: ideal(a, pi, po), SH, w.R),
            ("ifta", lambda: (w.meth(o.d, "calculate_dmd_state", o.inp, o.tar, method=lit("ifta"), signal_window=o.win, N=P(NI, "int")), w.get(o.d, "dmd_state"))[1],
             lambda g: ifta(a, pi, po, t.sym("inp", SH), win, False, NI), SH, "bool"),
            ("gs", lambda: (w.meth(o.l, "calculate_hologram", o.inp, o.tam, N=P(NI, "int")), w.get(o.l, "slm_state"))[1],
             lambda g: (lambda rd: None if rd is None else gs(t.sym("inp", SH), t.sym("tamp", SH, "real"), rd, NI))(rand_of(c, prec + " gs", g)), SH, w.R),
            ("mraf", lambda: (w.meth(o.l, "calculate_hologram", o.inp, o.tam, method=lit("mraf"), signal_window=o.win, N=P(NI, "int")), w.get(o.l, "slm_state"))[1],
             lambda g: (lambda rd: None if rd is None else mraf(t.sym("inp", SH), t.sym("tamp", SH, "real"), win, rd, NI))(rand_of(c, prec + " mraf", g)), SH, w.R),
        ]
        for hist in (["tensorflow"], ["numpy"], ["tensorflow", "numpy"], ["numpy", "tensorflow"], []):
            for label, f, spec, sh, dt in cases:
                L = "%s %s backend %s" % (prec, label, " then ".join(hist) or "default")

                def g():
                    st = base
                    for k in hist:
                        q = choose(k, st)
                        if not c.runs(L + " select", q):
                            return
                        v = w.run(lambda: w.get(b, "fft_backend"), q.st)
                        if c.runs(L + " read back", v):
                            c.value(L + " read back", w, v.val, t.num(sel[k]), (), state=v.st)
                        w.it.ffts.clear()
                        r = w.run(f, q.st)
                        if not c.runs(L, r):
                            return
                        by("%s [%s]" % (L, k), k)
                        st = r.st
                        c.anchor = c.loc("_fourier_transform")
                        n = w.num(r.val)
                        s_ = spec(n.term)
                        if s_ is not None:
                            c.value(L + " [%s]" % k, w, r.val, s_, sh, dt, "np", state=st)
                    if not hist:
                        r = w.run(f, base)
                        if c.runs(L, r):
                            s_ = spec(w.num(r.val).term)
                            if s_ is not None:
                                c.value(L, w, r.val, s_, sh, dt, "np", state=r.st)
                c.group(L, g)
        # the transforms themselves, where they keep their names
        def tr():
            lib = w.module("pySLM2._lib")
            x = tensor("z", w.C, SH)
            for k in ("tensorflow", "numpy"):
                q = choose(k, base)
                fo = w.run(lambda: w.call(it.getattr(ModV("pySLM2._lib"), "_fourier_transform"), x), q.st)
                if not fo.ok:
                    return
                c.anchor = c.loc("_fourier_transform")
                c.value("%s forward transform [%s]" % (prec, k), w, fo.val, t.fft(t.sym("z", SH), False, SH), SH, w.C, "tf", state=fo.st)
                c.anchor = c.loc("_inverse_fourier_transform")
                for a_, b_ in (("_fourier_transform", "_inverse_fourier_transform"), ("_inverse_fourier_transform", "_fourier_transform")):
                    bo = w.run(lambda: w.call(it.getattr(ModV("pySLM2._lib"), b_), w.call(it.getattr(ModV("pySLM2._lib"), a_), x)), q.st)
                    if c.runs("%s %s of %s [%s]" % (prec, b_, a_, k), bo):
                        c.value("%s %s undoes %s [%s]" % (prec, b_, a_, k), w, bo.val, t.sym("z", SH), SH, w.C, "tf", state=bo.st)
        try:
            tr()
        except (Undecided, Dead):
            c.notes.append("private transform functions not found; decided through the public interface only")
        c.no_issues(prec + " choice of the backend is read at run time", w, ("stale",), ("fft_backend", "_BackEnd"))
        # with a GPU the default differs, the result does not
    w = c.world("f32", gpu=True, symbolic_fft=False)

    def g():
        o = build(w, orders=POS)
        r = w.run(lambda: (w.meth(o.sim, "propagate_to_image", o.inp), w.get(o.sim, "image_plane_field"))[1])
        if c.runs("GPU default backend", r):
            z = t.sym("inp", SH) * t.as_num(t.bool_atom("bst", (), (), SH))
            c.value("GPU default backend simulation", w, r.val, MX * MY * PX ** 2 / (LAM * F) * centred_ifft(t.pad(z, ((PADY, PADY), (PADX, PADX)), PSH), PSH), PSH, w.C, "np", state=r.st)
    c.group("GPU", g)


CHECKS = {
    "C15": Check(c15, "Typestate analysis of the backend object: import, assignment, read and refused assignment are interpreted in every order listed, with and without vendor libraries."),
    "C16": Check(c16, "Element-type analysis: every public operation is interpreted in both precisions; TensorFlow's typing rules (no implicit conversion) are part of the library model, and every array created is inspected."),
    "C17": Check(c17, VN + "Each algorithm is interpreted under each backend, alone and after switching; reads of the selection from compiled code must go through a variable."),
}
