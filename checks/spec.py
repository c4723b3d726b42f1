"""Reference formulas of the hologram algorithms."""
from .fix import *
from .prof import circ_spec, rect_spec, X0, Y0, RR, WX, WY


def grating_phase(gx=GX, gy=GY, per=PER, px=PX, th=TH):
    return 2 * t.PI / (per * px) * (t.fun("cos", th) * gx + t.fun("sin", th) * gy)


def ideal(amp, pin, pout, neg=False, gp=None):
    sg = -1 if neg else 1
    gp = grating_phase() if gp is None else gp
    return amp * (1 + t.fun("cos", gp - sg * (pout - pin))) / 2


def simple(amp, pin, pout, neg=False, gp=None):
    return t.lt(HALF, ideal(amp, pin, pout, neg, gp))


def random_(amp, pin, pout, rand, neg=False, r=10, gp=None):
    sg = -1 if neg else 1
    gp = grating_phase() if gp is None else gp
    u = t.fun("acos", t.fun("cos", gp - sg * (pout - pin)))
    w = t.fun("asin", amp)
    r = t.T(r)
    return t.lt(rand, (t.fun("tanh", r * (u + w)) - t.fun("tanh", r * (u - w))) / 2)


def loop(n, init, body, shape=SH, *flags):
    """value of x after n rounds of x := body(x, i)"""
    x = t.sym("$s1_0", shape, *flags)
    i = t.sym("$i1", (), "int", "nonneg")
    return t.opaque("loop", (t.T(n), init, body(x, i)), (1, 1), shape, *flags)


def ifta(amp, pin, pout, inp, win, neg=False, n=200, s=1, gp=None, shape=SH):
    g0 = t.T(s) * ideal(amp, pin, pout, neg, gp)
    target = t.fft(inp * g0, True, shape)
    W = t.shift(win, "ifftshift", (0, 1))

    def body(g, i):
        th = HALF * (i + 1) / t.T(n)
        b = t.ite(t.lt(1 - th, g), t.ONE, t.ite(t.lt(g, th), t.ZERO, g))
        img = t.fft(inp * b, True, shape)
        cor = target * W + img * (1 - W)
        return t.ite(t.eq(inp, t.ZERO), t.ZERO, t.fun("real", t.fft(cor, False, shape) / inp))
    return t.lt(HALF, loop(n, g0, body, shape, "real"))


def mode_match(inp, tar, win=None, shape=SH):
    """(amplitude, phase_in, phase_out, maximum of the ratio)"""
    fp = centred_fft(tar, shape)
    if win is not None:
        fp = fp * win
    ratio = t.ite(t.eq(fp, t.ZERO), t.ZERO, t.fun("abs", fp) / t.fun("abs", inp))
    m = t.reduce_max(ratio)
    return ratio / m, t.fun("angle", inp), t.ite(t.eq(fp, t.ZERO), t.ZERO, t.fun("angle", fp)), m


def eta(m, nx=NX, ny=NY, px=PX):
    return px ** 2 * nx * ny / (LAM * F) / m


def gs(inp, tar, rand, n=200, shape=SH):
    T = t.shift(tar, "ifftshift", (0, 1))

    def body(ph, i):
        img = t.fft(inp * t.fun("exp", t.I * ph), True, shape)
        cor = T * t.fun("exp", t.I * t.fun("angle", img))
        return t.fun("angle", t.fft(cor, False, shape) * t.fun("conj", inp))
    return loop(n, 2 * t.PI * rand, body, shape, "real")


def mraf(inp, tar, win, rand, n=200, m=None, shape=SH):
    m = t.num(Fr(2, 5)) if m is None else m
    T = t.shift(tar, "ifftshift", (0, 1))
    W = t.shift(win, "ifftshift", (0, 1))

    def body(ph, i):
        img = t.fft(inp * t.fun("exp", t.I * ph), True, shape)
        cor = m * T * t.fun("exp", t.I * t.fun("angle", img)) * W + (1 - m) * img * (1 - W)
        return t.fun("angle", t.fft(cor, False, shape) * t.fun("conj", inp))
    return loop(n, 2 * t.PI * rand, body, shape, "real")


def rand_of(c, label, term, shape=SH):
    """the random map a result depends on: exactly one draw of the given shape"""
    rs = [a for a in t.all_atoms(term) if a.name == "rand"]
    if len(rs) != 1:
        if has_unknown(term):
            c.undecided(label, "random draw in a value involving %s" % has_unknown(term))
            return None
        c.fail(label, "depends on %d random draws instead of one" % len(rs))
        return None
    a = rs[0]
    if len(a.shape) != len(shape) or any(not t.equal(p, q) for p, q in zip(a.shape, shape)):
        c.fail(label, "random draw of shape (%s) instead of one number per pixel" % ", ".join(t.show(x) for x in a.shape))
        return None
    return t.from_atom(a)


def state(w, d, st, name="dmd_state"):
    o = w.run(lambda: w.get(d, name), st)
    if not o.ok:
        raise Undecided("%s cannot be read" % name)
    return o
