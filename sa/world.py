"""Scenarios: abstract inputs, calls of the public interface, outcomes."""
import ast
from . import terms as t
from .values import *
from .model import Model
from .interp import Interp, Dead, Budget, lit, pyint, pyfloat, pybool, alts, choice, restrict, same, UNDEF
from . import lib_num as ln

PREC = {"f32": ("f32", "c64", "i32"), "f64": ("f64", "c128", "i64")}


class Undecided(Exception):
    """the analysis has no answer for this obligation"""


class Outcome:
    """normal result (state, value) and raised exceptions [(state, ExcV)]"""

    def __init__(self, st, val, raised):
        self.st, self.val, self.raised = st, val, raised

    @property
    def ok(self):
        return self.st is not None


class World:
    def __init__(self, model, precision="f32", libs=(), gpu=False, symbolic_fft=True):
        self.model = model
        self.it = Interp(model, precision, libs, gpu)
        self.precision = precision
        self.R, self.C, self.Z = PREC[precision]
        it = self.it
        try:
            it.import_module("pySLM2")
        except Dead:
            exc = it.raises[0][0][1] if it.raises[0] else None
            raise Undecided("importing pySLM2 raises %r %r" % (exc, getattr(exc, "args", None)))
        if precision == "f64":
            b = self.attr("BACKEND")
            it.setattr(b, "dtype", DT("f64", "tf"))
        if symbolic_fft:
            self.set_fft(t.sym("$fft_backend", (), "int"))
        self.base = it.st

    # -------------------------------------------------------------------------- access
    def attr(self, name, mod="pySLM2"):
        return self.it.getattr(ModV(mod), name)

    def module(self, name):
        try:
            return self.it.import_module(name)
        except Dead:
            raise Undecided("importing %s raises" % name)

    def set_fft(self, term):
        b = self.attr("BACKEND")
        v = self.it.get(b).attrs.get("_fft_backend")
        if isinstance(v, Ref) and isinstance(self.it.get(v), VarO):
            o = self.it.get(v)
            self.it.put(v, VarO(o.num.with_(term=term), o.hint))

    def get(self, o, name):
        return self.it.getattr(o, name)

    def call(self, f, *args, **kw):
        return self.it.call(f, list(args), kw)

    def meth(self, o, name, *args, **kw):
        return self.it.call(self.it.getattr(o, name), list(args), kw)

    def new(self, cls, *args, **kw):
        c = self.attr(cls) if isinstance(cls, str) else cls
        return self.it.call(c, list(args), kw)

    # -------------------------------------------------------------------------- scenarios
    def run(self, f, state=None):
        """run f from the current (or given) state; outcome. The interpreter is left in the final state"""
        it = self.it
        it.st = (state or it.st).copy()
        it.raises = [[]]
        from .interp import Flow
        it.flow = Flow()
        it.depth = 0
        it.trackers = []
        it.stack = []
        it.steps = 0
        try:
            v = f()
            return Outcome(it.st, v, it.raises[0])
        except Dead:
            return Outcome(None, None, it.raises[0])

    def num(self, v, what="value"):
        n = self.it.num(v)
        if n is None:
            raise Undecided("%s is %r" % (what, v))
        return n


# ------------------------------------------------------------------------------------ inputs
def S(name, *flags):
    return t.sym(name, (), *flags)


def user_fun(name, x, y, complex_=False):
    t.POINTWISE.add("u_" + name)
    t.POINTWISE.add("u_" + name + "_im")
    r = t.fun("u_" + name, x, y)
    if complex_:
        r = t.add(r, t.mul(t.I, t.fun("u_" + name + "_im", x, y)))
    return r


def profile(w, name, complex_=False):
    """user-defined function profile: f(x, y), elementwise"""
    it = w.it

    def f(it, args, kw):
        args = list(args)[1:]
        names = ["x", "y"]
        vals = {}
        for n, a in zip(names, args):
            vals[n] = a
        vals.update(kw)
        x, y = it.num(vals.get("x")), it.num(vals.get("y"))
        if x is None or y is None:
            return it.unk("profile called with unknown coordinates")
        d = w.C if complex_ else w.R
        if x.dtype != w.R or y.dtype != w.R:
            return it.unk("profile called with other coordinates")
        ns, sh = ln.broadcast(it, "profile", [x, y])
        if ns is None:
            return it.unk("profile coordinates")
        return Num(user_fun(name, ns[0].term, ns[1].term, complex_), "tf", d, sh.shape)
    from .lib_misc import pseudo_class
    base = w.attr("FunctionProfile")
    hook = profile_hook(base)
    c = pseudo_class(it, "UserProfile_" + name, {hook: Native("profile " + name, f)}, [base])
    init = it.find_attr(c, "__init__")
    r = it.alloc(Inst(c, {}))
    if isinstance(init, Fn) and not [a for a in init.node.args.args[1:len(init.node.args.args) - len(init.node.args.defaults)]]:
        it.call(it.bind(init, r), [], {})
    return r


def profile_hook(base):
    """the method of the profile base class that subclasses override (the one that only raises NotImplementedError)"""
    names = []
    for f in (base.node.body if isinstance(base, ClsV) and base.node is not None else []):
        if isinstance(f, ast.FunctionDef) and len(f.args.args) == 3:
            body = [x for x in f.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
            if body and isinstance(body[0], ast.Raise) and "NotImplementedError" in ast.dump(body[0]):
                names.append(f.name)
    if "_func" in names or not names:
        return "_func"
    return names[0]


def tensor(name, dtype, shape, *flags):
    fl = list(flags)
    if dtype in ("f32", "f64", "i32", "i64") and "real" not in fl:
        fl.append("real")
    if dtype in ("i32", "i64", "u8"):
        fl.append("int")
    if dtype == "bool":
        return Num(t.bool_atom(name, (), (), shape), "tf", "bool", shape)
    return Num(t.sym(name, shape, *fl), "tf", dtype, shape)


def array(w, name, dtype, shape, *flags):
    n = tensor(name, dtype, shape, *flags).with_(kind="np")
    return w.it.alloc(ArrO(n, fresh())) if shape else n


def pnum(name, kind="float", *flags):
    """symbolic Python number"""
    if kind == "int":
        return Num(S(name, "int", *flags), "py", "int")
    if kind == "complex":
        return Num(S(name), "py", "complex")
    if kind == "bool":
        return Num(t.bool_atom(name), "py", "bool")
    return Num(S(name, "real", *flags), "py", "float")
