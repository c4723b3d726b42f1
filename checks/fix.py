"""Abstract devices, inputs and reference formulas shared by the checks."""
from fractions import Fraction as Fr
from .base import *

LAM, F, PER, TH = S("lam", "pos"), S("f", "pos"), S("per", "pos"), S("theta", "real")
NX, NY, PX = S("Nx", "int", "pos"), S("Ny", "int", "pos"), S("px", "pos")
PADX, PADY = S("pad_x", "int", "nonneg"), S("pad_y", "int", "nonneg")
MX, MY = NX + 2 * PADX, NY + 2 * PADY
NEG = t.bool_atom("neg")
SH, PSH = (NY, NX), (MY, MX)
HALF = t.HALF
floor = lambda x: t.fun("floor", x)


def P(term, kind="float"):
    return Num(term, "py", kind)


def dmd(w, neg=None):
    """DMD with arbitrary parameters"""
    o = w.run(lambda: w.new("DMD", P(LAM), P(F), P(PER), P(TH), P(NX, "int"), P(NY, "int"), P(PX),
                            neg if neg is not None else P(NEG, "bool")))
    return need(w, o, "DMD")


def lcos(w):
    o = w.run(lambda: w.new("LCOS_SLM", P(LAM), P(F), P(NX, "int"), P(NY, "int"), P(PX)))
    return need(w, o, "LCOS_SLM")


def simulation(w, slm, cls="DMDSimulation", pads=True):
    a = [P(PADX, "int"), P(PADY, "int")] if pads else []
    o = w.run(lambda: w.new(cls, slm, *a))
    return need(w, o, cls)


def need(w, o, what):
    if not o.ok:
        raise Undecided("%s cannot be constructed: %s" % (what, [e.name for _, e in o.raised]))
    return o.val


def fp_x(nx=NX, px=PX, pad=t.ZERO):
    return (t.idx(1, nx + 2 * pad) - pad - nx / 2) * px


def fp_y(ny=NY, px=PX, pad=t.ZERO):
    return (ny / 2 - t.idx(0, ny + 2 * pad) + pad) * px


def ip_x(n=NX, px=PX, sc=None):
    return (LAM * F if sc is None else sc) * (t.idx(1, n) - floor(n / 2)) / (n * px)


def ip_y(n=NY, px=PX, sc=None):
    return -(LAM * F if sc is None else sc) * (t.idx(0, n) - floor(n / 2)) / (n * px)


GX, GY, IX, IY = fp_x(), fp_y(), ip_x(), ip_y()


def pair(w, v, what="pair"):
    its = w.it.items(v)
    if its is None or len(its) != 2:
        raise Undecided("%s is %r" % (what, v))
    return its


def U(name, plane="fourier", complex_=False):
    """value of a user profile on the device grid"""
    return user_fun(name, GX, GY, complex_) if plane == "fourier" else user_fun(name, IX, IY, complex_)


def centred_fft(term, shape=SH):
    return t.shift(t.fft(t.shift(term, "ifftshift", (0, 1)), False, shape), "fftshift", (0, 1))


def centred_ifft(term, shape=SH):
    return t.shift(t.fft(t.shift(term, "ifftshift", (0, 1)), True, shape), "fftshift", (0, 1))


class Check:
    def __init__(self, run, explanation, assumptions=()):
        self.run, self.explanation, self.assumptions = run, explanation, list(assumptions) + COMMON


COMMON = ["library functions (TensorFlow, NumPy, SciPy, PIL, functools) behave as in their models in /verif/sa/lib*.py",
          "arithmetic is exact: rounding and overflow are outside the analysis",
          "terms that differ syntactically but agree under all random interpretations tried are taken as equal"]

VN = ("Abstract interpretation of the working tree with a value-numbering domain: every public entry point listed in the "
      "samples is interpreted once on symbolic inputs (all joins kept as guarded terms, loops summarised), and the normal form "
      "of its result is compared with the reference formula of the property. ")
