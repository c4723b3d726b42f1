"""C30: Zernike analysis of phase maps."""
from .battery import *
from .prof import zernike_spec

AX = t.idx(1, NX) - (NX - 1) / 2
AY = (NY - 1) / 2 - t.idx(0, NY)
APER = t.lt(AX ** 2 + AY ** 2, RAD ** 2)
COUNT = t.reduce_sum(t.ite(APER, t.ONE, t.ZERO), SH)


def ansi(j):
    n = 0
    while (n + 1) * (n + 2) // 2 <= j:
        n += 1
    return n, 2 * j - n * (n + 2)


def unit(n, m, extrapolate=False):
    return zernike_spec(n, m, a=t.ONE, extrapolate=extrapolate)(AX, AY)


def mean(profile, z):
    return t.reduce_sum(t.ite(APER, profile * z, t.ZERO), SH) / COUNT


def removed(profile, defocus):
    for n, m in ((0, 0), (1, -1), (1, 1)) + (((2, 0),) if defocus else ()):
        z = unit(n, m)
        profile = profile - mean(profile, z) * z
    return profile


def c30(c):
    c.rule = "value of remove_trivial_phase / zernike_decomposition / ansi_j_to_n_m equals the aperture-mean formula"
    for prec in PRECS:
        w = c.world(prec)
        it = w.it
        base = w.base
        dts = ("f32", "f64") if not c.thorough else ("f32", "f64", "i64")
        for dt in dts:
            it.st = base
            ph = array(w, "phs", dt, SH)
            st = it.st
            pt = S("phs", "real") if False else it.num(ph).term
            c.anchor = c.loc("remove_trivial_phase")
            for kw, rd in (((), False), ((("remove_defocus", False),), False), ((("remove_defocus", True),), True), ((("remove_defocus", True), ("verbose", True)), True),
                           ((("verbose", True),), False)):
                L = "%s %s remove_trivial_phase(%s)" % (prec, dt, ", ".join("%s=%s" % k for k in kw))

                def f():
                    o = w.run(lambda: w.call(w.attr("remove_trivial_phase"), ph, P(RAD), **{k: lit(v) for k, v in kw}), st)
                    if c.runs(L, o):
                        c.value(L, w, o.val, removed(pt, rd), SH, state=o.st)
                c.group(L, f)
            c.anchor = c.loc("zernike_decomposition")
            nts = (0, 1, 2, 4, 6) if not c.thorough else (0, 1, 2, 3, 4, 5, 6, 7, 10)
            for nt in nts:
                for rec in (None, False, True):
                    for ex in (None, False, True):
                        for vb in (None, True):
                            if vb and (nt not in (0, 2) or ex is False):
                                continue
                            if ex is False and nt > 2:
                                continue
                            kw = {k: lit(v) for k, v in (("reconstruct", rec), ("extrapolate", ex), ("verbose", vb)) if v is not None}
                            L = "%s %s zernike_decomposition(num_terms=%d reconstruct=%s extrapolate=%s verbose=%s)" % (prec, dt, nt, rec, ex, vb)

                            def g():
                                o = w.run(lambda: w.call(w.attr("zernike_decomposition"), ph, P(RAD), lit(nt), **kw), st)
                                if not c.runs(L, o):
                                    return
                                it.st = o.st
                                co = o.val
                                if rec:
                                    pr = it.items(o.val)
                                    if pr is None or len(pr) != 2:
                                        if isinstance(o.val, (Unk, Choice)):
                                            c.undecided(L, "result is %r" % (o.val,))
                                        else:
                                            c.fail(L, "does not return (coefficients, reconstruction)")
                                        return
                                    co = pr[0]
                                its = it.items(co)
                                if its is None:
                                    n = it.num(co)
                                    if n is not None and n.shape == ():
                                        c.fail(L, "returns a single number")
                                    else:
                                        c.undecided(L, "coefficients are %r" % (co,))
                                    return
                                if len(its) != nt:
                                    c.fail(L + " length", "%d coefficients instead of %d" % (len(its), nt))
                                    return
                                c.ok(L + " length")
                                total = t.ZERO
                                for j, x in enumerate(its):
                                    n, m = ansi(j)
                                    z = unit(n, m, bool(ex))
                                    total = total + mean(pt, z) * z
                                    c.value("%s coefficient %d" % (L, j), w, x, mean(pt, z), (), state=o.st)
                                if rec:
                                    c.value(L + " reconstruction", w, pr[1], total, SH, state=o.st)
                            c.group(L, g)
        c.anchor = c.loc("ansi_j_to_n_m")
        far = [n * (n + 1) // 2 + k for n in (29, 50, 99, 100, 101, 150, 500, 1000, 5000) for k in (0, n // 2, n)]
        for j in list(range(400 if c.thorough else 80)) + far:
            L = "%s ansi_j_to_n_m(%d)" % (prec, j)

            def h():
                o = w.run(lambda: w.call(w.attr("ansi_j_to_n_m"), lit(j)), base)
                if c.runs(L, o):
                    it.st = o.st
                    for k, (v, q) in enumerate(zip(pair(w, o.val), ansi(j))):
                        c.value("%s[%d]" % (L, k), w, v, t.num(q), (), state=o.st)
            c.group(L, h)
        J = S("j", "int", "nonneg")
        L = prec + " ansi_j_to_n_m(j)"

        def k_():
            o = w.run(lambda: w.call(w.attr("ansi_j_to_n_m"), P(J, "int")), base)
            if o.ok and not o.raised:
                it.st = o.st
                n, m = pair(w, o.val)
                if it.num(n) is None or it.num(m) is None or has_unknown(it.num(n).term) or has_unknown(it.num(m).term):
                    return
                N = t.ceil((t.sqrt(9 + 8 * J) - 3) / 2)
                c.value(L + "[0]", w, n, N, (), state=o.st)
                c.value(L + "[1]", w, m, 2 * J - N * (N + 2), (), state=o.st)
        c.group(L, k_)


CHECKS = {
    "C30": Check(c30, VN + "Numbers of terms are enumerated (0 to 6, thorough 0 to 10), indices j likewise and also symbolically; phase map, shape and radius are symbolic.")
}
