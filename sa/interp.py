"""Abstract interpreter over the syntax tree of the analysed package.

Values are normal forms (terms.py); at every control-flow merge the states of the branches are joined
with guarded values; loops with a symbolic trip count are summarised from one abstract pass over their
body.  No analysed code is imported or executed."""
import ast
import os

from . import terms as t
from .values import *

PY = "py"


class Dead(Exception):
    """control does not reach the next statement"""


class Budget(Exception):
    pass


UNDEF = Unk("undefined variable")


def pyint(n):
    return Num(t.T(n) if not isinstance(n, t.Term) else n, PY, "int")


def pyfloat(n):
    return Num(t.T(n) if not isinstance(n, t.Term) else n, PY, "float")


def pybool(b):
    return Num(b if isinstance(b, t.Term) else t.T(bool(b)), PY, "bool")


TRUEV, FALSEV = pybool(True), pybool(False)


def lit(v):
    if v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
        return K(v)
    if isinstance(v, bool):
        return pybool(v)
    if isinstance(v, int):
        return pyint(v)
    if isinstance(v, float):
        return pyfloat(v)
    if isinstance(v, complex):
        return Num(t.T(v), PY, "complex")
    return Unk("literal %r" % (v,))


def cint(v):
    """python int of a constant numeric value, else None"""
    if isinstance(v, Num) and v.shape == ():
        c = t.const_val(v.term)
        if c is not None and c.denominator == 1:
            return int(c)
    return None


def same(a, b):
    """syntactically the same abstract value"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Num):
        return a.term is b.term and a.kind == b.kind and a.dtype == b.dtype and a.shape == b.shape and a.sel is b.sel
    if isinstance(a, K):
        return type(a.val) is type(b.val) and a.val == b.val
    if isinstance(a, Str):
        return a.op == b.op and len(a.args) == len(b.args) and all(same(x, y) for x, y in zip(a.args, b.args))
    if isinstance(a, Ref):
        return a.oid == b.oid
    if isinstance(a, Tup):
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, HW):
        if a.uid != 0 or b.uid != 0:
            return a.uid == b.uid
        return a.path == b.path and len(a.args) == len(b.args) and all(same(x, y) for x, y in zip(a.args, b.args)) \
            and len(a.kwargs) == len(b.kwargs) and all(k == l and same(x, y) for (k, x), (l, y) in zip(a.kwargs, b.kwargs))
    if isinstance(a, (Fn, Wrapped, ClsV)):
        return a.uid == b.uid
    if isinstance(a, BM):
        return same(a.obj, b.obj) and same(a.fn, b.fn)
    if isinstance(a, Method):
        return same(a.obj, b.obj) and a.name == b.name
    if isinstance(a, (ModV,)):
        return a.name == b.name
    if isinstance(a, Ext):
        return a.path == b.path
    if isinstance(a, DT):
        return a.name == b.name and a.lib == b.lib
    if isinstance(a, Choice):
        return len(a.alts) == len(b.alts) and all(g is h and same(x, y) for (g, x), (h, y) in zip(a.alts, b.alts))
    if isinstance(a, RangeV):
        return a.start is b.start and a.stop is b.stop and a.step is b.step
    if isinstance(a, SymSeq):
        return a.name == b.name and a.n is b.n
    if isinstance(a, SliceV):
        return all(same(x, y) for x, y in zip((a.a, a.b, a.c), (b.a, b.b, b.c)))
    if isinstance(a, ExcV):
        return a.name == b.name and len(a.args) == len(b.args) and all(same(x, y) for x, y in zip(a.args, b.args))
    if isinstance(a, Unk):
        return a.why == b.why
    if isinstance(a, InstDict):
        return same(a.obj, b.obj)
    if isinstance(a, Partial):
        return same(a.fn, b.fn) and len(a.args) == len(b.args) and all(same(x, y) for x, y in zip(a.args, b.args))
    return False


def alts(v):
    return v.alts if isinstance(v, Choice) else ((t.TRUE, v),)


def choice(al):
    out = []
    for g, v in al:
        if g is t.FALSE:
            continue
        for h, w in alts(v):
            gg = t.land(g, h) if h is not t.TRUE else g
            if gg is t.FALSE:
                continue
            for i, (g2, v2) in enumerate(out):
                if same(v2, w):
                    out[i] = (t.lor(g2, gg), v2)
                    break
                if isinstance(v2, Num) and isinstance(w, Num) and v2.kind == w.kind and v2.dtype == w.dtype \
                        and v2.shape == w.shape and v2.sel is w.sel:
                    out[i] = (t.lor(g2, gg), picked(gg, w, v2))
                    break
            else:
                out.append((gg, w))
    if len(out) == 1:
        return out[0][1]
    if not out:
        return Unk("impossible value")
    return Choice(out)


def picked(c, a, b):
    """the number a if c, else b"""
    n = a.with_(term=t.ite(c, a.term, b.term))
    if n.raw is None and n.sel is None and n.shape is not None and n is not a and n is not b and (a.raw or b.raw):
        n.raw = ("where", (Num(c, "py", "bool"), a, b))
    return n


def shape_eq(a, b):
    if a is None or b is None:
        return True
    return len(a) == len(b) and all(x is y or t.equal(x, y) for x, y in zip(a, b))


def mergev(c, a, b):
    if same(a, b):
        return a
    if isinstance(a, Num) and isinstance(b, Num) and a.kind == b.kind and a.dtype == b.dtype \
            and shape_eq(a.shape, b.shape) and a.sel is b.sel:
        return picked(c, a, b)
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        if type(a) is Tup or type(b) is NTup and a.cls is b.cls:
            return a.like([mergev(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, BM) and isinstance(b, BM) and same(a.obj, b.obj):
        return BM(a.obj, mergev(c, a.fn, b.fn)) if False else choice([(c, a), (t.lnot(c), b)])
    return choice([(c, a), (t.lnot(c), b)])


def restrict(f, c, memo=None):
    """simplify f assuming c (both decision diagrams)"""
    if c is t.TRUE or f.kind != "ite" or c is t.FALSE:
        return f
    memo = {} if memo is None else memo
    k = (f.key, c.key)
    r = memo.get(k)
    if r is not None:
        return r
    if c.kind != "ite":
        r = f
    elif c.cond is f.cond:
        if c.a is t.FALSE:
            r = restrict(f.b, c.b, memo)
        elif c.b is t.FALSE:
            r = restrict(f.a, c.a, memo)
        else:
            x, y = restrict(f.a, c.a, memo), restrict(f.b, c.b, memo)
            r = x if x is y else t._ite_norm(f.cond, x, y)
    elif c.cond.key < f.cond.key:
        if c.a is t.FALSE:
            r = restrict(f, c.b, memo)
        elif c.b is t.FALSE:
            r = restrict(f, c.a, memo)
        else:
            r = restrict(f, t.lor(c.a, c.b), memo)
    else:
        x, y = restrict(f.a, c, memo), restrict(f.b, c, memo)
        r = x if x is y else t._ite_norm(f.cond, x, y)
    memo[k] = r
    return r


class Flow:
    def __init__(self):
        self.rets, self.brks, self.conts = [], [], []
        self.yields = None


class Issue:
    def __init__(self, kind, msg, where):
        self.kind, self.msg, self.where = kind, msg, where

    def key(self):
        return (self.kind, self.msg, self.where)


class Tracker:
    def __init__(self, how, name, first):
        self.how, self.name, self.first, self.reads = how, name, first, set()


MAX_UNROLL = 640
MANY = 32


class NoSummary(Exception):
    """no summary of this loop: it is unrolled instead"""


MAX_STEPS = 400000


class Interp:
    def __init__(self, model, precision="f32", libs=("ALP4", "Luxbeam"), gpu=False):
        from . import lib
        self.lib = lib
        self.model = model
        self.precision = precision
        self.libs = libs
        self.gpu = gpu
        self.st = State()
        self.flow = Flow()
        self.raises = [[]]
        self.depth = 0
        self.steps = 0
        self.stack = []            # (module, function) being analysed
        self.node = None
        self.issues = {}
        self.ffts = []              # (library, path condition, where) of every transform taken
        self.modframes = {}
        self.trackers = []
        self.visited = set()       # functions analysed
        self.calls = 0             # call sites resolved
        self.faults = set()
        self.fault_n = 0
        self.rand_n = 0
        self.cur_exc = None
        self.summaries = {}        # qualified name -> Native replacing the function/class
        self.loop_depth = 0
        self.trying = 0
        self.unmodelled = {}

    # ------------------------------------------------------------------------------ infrastructure
    def where(self):
        mod, fn = self.stack[-1] if self.stack else ("?", "?")
        ln = getattr(self.node, "lineno", 0)
        return "%s:%s:%s" % (self.model.relpath(mod), ln, fn)

    def issue(self, kind, msg):
        i = Issue(kind, msg, self.where())
        self.issues.setdefault(i.key(), i)

    def unk(self, why):
        w = "%s at %s" % (why, self.where())
        self.unmodelled[w] = self.unmodelled.get(w, 0) + 1
        return Unk(w)

    def alloc(self, o):
        i = fresh()
        self.st.heap[i] = o
        return Ref(i)

    def get(self, r):
        return self.st.heap[r.oid]

    def put(self, r, o):
        self.st.heap[r.oid] = o

    def fork(self):
        """independent scenario starting from the current state"""
        self.st = self.st.copy()
        self.raises = [[]]
        self.flow = Flow()
        return self.st

    def decide(self, c):
        if c is t.TRUE or c is t.FALSE:
            return c
        return restrict(c, self.st.pc)

    def event(self, kind, name, args=(), kwargs=(), **kw):
        self.st.events = self.st.events + (Ev(kind, name, args, kwargs, self.where(), **kw),)

    def throw(self, name, *args):
        self.raise_(ExcV(name, args, self.lib.exc_bases(name)))

    def raise_(self, exc):
        s = self.st.copy()
        if not exc.where:
            exc.where = self.where()
        self.raises[-1].append((s, exc))
        raise Dead()

    def raise_if(self, cond, name, *args):
        c = self.decide(cond)
        if c is t.FALSE:
            return
        if c is t.TRUE:
            self.throw(name, *args)
        s = self.st.copy()
        s.pc = t.land(s.pc, c)
        self.raises[-1].append((s, ExcV(name, args, self.lib.exc_bases(name), self.where())))
        self.st.pc = t.land(self.st.pc, t.lnot(c))

    def fault(self, kind, what):
        """a library/hardware call may fail here"""
        if kind in self.faults:
            self.fault_n += 1
            s = self.st.copy()
            s.pc = t.land(s.pc, t.bool_atom("fails", (), (what, self.fault_n)))
            self.raises[-1].append((s, ExcV("Fault", (K("%s at %s" % (what, self.where())),), ("Exception", "BaseException"))))

    # ------------------------------------------------------------------------------ joins
    def merge_obj(self, c, a, b):
        if a is b:
            return a
        if type(a) is not type(b):
            return a
        if isinstance(a, (Inst, Frame)):
            da, db = (a.attrs, b.attrs) if isinstance(a, Inst) else (a.vars, b.vars)
            if da is db:
                return a
            out = {}
            for k in list(da) + [k for k in db if k not in da]:
                x, y = da.get(k, UNDEF), db.get(k, UNDEF)
                out[k] = x if x is y else mergev(c, x, y)
            if isinstance(a, Inst):
                return Inst(a.cls, out)
            return Frame(out, a.parent, a.globals_, a.nonlocals)
        if isinstance(a, ArrO):
            n = mergev(c, a.num, b.num)
            if not isinstance(n, Num):
                n = a.num.with_(term=t.opaque("unknown", (), ("merge", fresh())))
            return ArrO(n, a.buf if a.buf == b.buf else fresh())
        if isinstance(a, VarO):
            n = mergev(c, a.num, b.num)
            return VarO(n if isinstance(n, Num) else a.num, a.hint)
        if isinstance(a, ListO):
            if len(a.items) == len(b.items):
                return ListO([mergev(c, x, y) for x, y in zip(a.items, b.items)], a.kind)
            return ListO([Choice([(c, Tup(a.items)), (t.lnot(c), Tup(b.items))])], "choice:" + a.kind) \
                if not a.kind.startswith("choice") else a
        if isinstance(a, DictO):
            ka, kb = [k for k, _ in a.items], [k for k, _ in b.items]
            items = []
            for k, v in a.items:
                w = next((y for x, y in b.items if same(x, k)), UNDEF)
                items.append((k, mergev(c, v, w)))
            for k, v in b.items:
                if not any(same(k, x) for x in ka):
                    items.append((k, mergev(c, UNDEF, v)))
            return DictO(items, a.default)
        if isinstance(a, IterO):
            return a if a.pos >= b.pos else b
        return a

    def merge(self, c, a, b):
        """join of two states; c holds in a, its negation in b"""
        heap = {}
        ha, hb = a.heap, b.heap
        for k, o in ha.items():
            p = hb.get(k)
            heap[k] = o if p is None or p is o else self.merge_obj(c, o, p)
        for k, o in hb.items():
            if k not in ha:
                heap[k] = o
        n = 0
        ea, eb = a.events, b.events
        while n < len(ea) and n < len(eb) and ea[n] is eb[n]:
            n += 1
        ev = ea[:n]
        if len(ea) > n or len(eb) > n:
            ev = ev + (Ev("if", "", sub=ea[n:], cond=c, sub2=eb[n:]),)
        memo = {k: v for k, v in a.memo.items() if k in b.memo}
        return State(heap, ev, t.lor(a.pc, b.pc), memo)

    def merge_many(self, base, outs):
        """outs: [(state, value)] with disjoint path conditions; base: path condition before the split"""
        if len(outs) == 1:
            return outs[0]
        rel = [restrict(s.pc, base) for s, _ in outs]
        care = t.FALSE
        for r in rel:
            care = t.lor(care, r)
        st, val = outs[-1]
        for (s, v), r in list(zip(outs, rel))[-2::-1]:
            g = restrict(r, care)
            if g is t.TRUE:
                st, val = s, v
                continue
            if g is t.FALSE:
                continue
            st = self.merge(g, s, st)
            if v is not None or val is not None:
                val = mergev(g, v if v is not None else NONE, val if val is not None else NONE)
        return st, val

    def branch(self, parts):
        """parts: [(guard, thunk)], guards disjoint and exhaustive; value of the join of all thunks"""
        live = []
        for g, f in parts:
            d = self.decide(g)
            if d is t.TRUE:
                return f()
            if d is not t.FALSE:
                live.append((g, f))
        if not live:
            return Unk("unreachable")
        if len(live) == 1:
            return live[0][1]()
        s0 = self.st
        outs = []
        for g, f in live:
            self.st = s0.copy()
            self.st.pc = t.land(s0.pc, g)
            try:
                v = f()
                outs.append((self.st, v))
            except Dead:
                pass
        if not outs:
            self.st = s0
            raise Dead()
        self.st, v = self.merge_many(s0.pc, outs)
        return v

    def dist(self, f, *vals):
        """apply f, case by case over guarded values"""
        for i, v in enumerate(vals):
            if isinstance(v, Choice):
                return self.branch([(g, (lambda w=w: self.dist(f, *vals[:i], w, *vals[i + 1:]))) for g, w in v.alts])
        return f(*vals)

    # ------------------------------------------------------------------------------ modules
    def import_module(self, name):
        if name in self.modframes:
            return ModV(name)
        if not self.model.has(name):
            return None
        if "." in name:
            self.import_module(name.rsplit(".", 1)[0])
            if name in self.modframes:
                return ModV(name)
        fr = self.alloc(Frame({"__name__": K(name), "__file__": Str("file", (K(self.model.relpath(name)),))}, None))
        self.modframes[name] = fr.oid
        saved = self.flow, self.stack, self.node
        self.flow = Flow()
        self.stack = self.stack + [(name, "<module>")]
        try:
            self.exec_block(self.model.tree(name).body, fr.oid)
        finally:
            self.flow, self.stack, self.node = saved
        if "." in name:
            par, ch = name.rsplit(".", 1)
            if par in self.modframes:
                o = self.st.heap[self.modframes[par]]
                self.st.heap[self.modframes[par]] = o.set(ch, ModV(name))
        return ModV(name)

    def module_ns(self, name):
        return self.st.heap[self.modframes[name]].vars

    def do_import(self, name, fr):
        """import of an absolute dotted name; returns the value of the last component"""
        root = name.split(".")[0]
        if self.model.has(name):
            return self.import_module(name)
        if root == self.model.package:
            self.throw("ModuleNotFoundError", K(name))
        if root in ("ALP4", "Luxbeam") and root not in self.libs:
            self.throw("ModuleNotFoundError", K(name))
        return Ext(self.lib.canon(name))

    def exec_import(self, s, fr):
        if isinstance(s, ast.Import):
            for a in s.names:
                v = self.do_import(a.name, fr)
                if a.asname:
                    self.setvar(fr, a.asname, v)
                else:
                    root = a.name.split(".")[0]
                    if self.model.has(root):
                        self.setvar(fr, root, ModV(root))
                    else:
                        self.setvar(fr, root, Ext(self.lib.canon(root)))
            return
        mod = self.stack[-1][0]
        base = s.module or ""
        if s.level:
            pkg = mod.split(".") if self.model.is_pkg(mod) else mod.split(".")[:-1]
            if s.level > 1:
                pkg = pkg[:len(pkg) - (s.level - 1)]
            base = ".".join(pkg + ([s.module] if s.module else []))
        v = self.do_import(base, fr)
        for a in s.names:
            if a.name == "*":
                if isinstance(v, ModV):
                    ns = self.module_ns(v.name)
                    al = ns.get("__all__")
                    names = None
                    if al is not None:
                        names = [x.val for x in (self.items(al) or []) if isinstance(x, K)]
                    else:
                        names = [k for k in ns if not k.startswith("_")]
                    for k in names:
                        if k in ns:
                            self.setvar(fr, k, ns[k])
                        elif self.model.has(v.name + "." + k):
                            self.setvar(fr, k, self.import_module(v.name + "." + k))
                        else:
                            self.throw("AttributeError", K(k))
                else:
                    self.unk("star import of %s" % base)
                continue
            if isinstance(v, ModV):
                ns = self.module_ns(v.name)
                if a.name in ns:
                    w = ns[a.name]
                elif self.model.has(v.name + "." + a.name):
                    w = self.import_module(v.name + "." + a.name)
                else:
                    self.throw("ImportError", K(a.name))
            else:
                w = self.getattr(v, a.name)
            self.setvar(fr, a.asname or a.name, w)

    # ------------------------------------------------------------------------------ variables
    def lookup(self, fr, name):
        f = fr
        first = True
        while f is not None:
            o = self.st.heap[f]
            if name in o.vars and not (first and name in o.globals_):
                v = o.vars[name]
                if self.trackers:
                    self.read(("var", f, name))
                if isinstance(v, Choice) and any(w is UNDEF for _, w in v.alts):
                    v = choice([(g, w) for g, w in v.alts if w is not UNDEF and self.decide(g) is not t.FALSE])
                if v is UNDEF:
                    self.throw("UnboundLocalError", K(name))
                return v
            f = o.parent
            first = False
        b = self.lib.builtin(name)
        if b is not None:
            return b
        self.throw("NameError", K(name))

    def setvar(self, fr, name, v):
        o = self.st.heap[fr]
        if name in o.globals_:
            f = fr
            while self.st.heap[f].parent is not None:
                f = self.st.heap[f].parent
            self.write(("var", f, name))
            self.st.heap[f] = self.st.heap[f].set(name, v)
            return
        if name in o.nonlocals:
            f = o.parent
            while f is not None:
                if name in self.st.heap[f].vars:
                    self.write(("var", f, name))
                    self.st.heap[f] = self.st.heap[f].set(name, v)
                    return
                f = self.st.heap[f].parent
        self.st.heap[fr] = o.set(name, v)

    def read(self, loc):
        for tr in self.trackers:
            if tr is not None and loc[1] <= tr.first:
                tr.reads.add(loc)
                self.check_read(tr, loc)

    def write(self, loc):
        for tr in self.trackers:
            if tr is not None and loc[1] <= tr.first:
                self.check_write(tr, loc)

    def check_read(self, tr, loc):
        if loc[0] == "attr":
            o = self.st.heap.get(loc[1])
            cls = o.cls.name if isinstance(o, Inst) else "?"
            if self.lib.backend_frozen(self, o, loc[2]):
                return
            if self.model.rebindable(o.cls if isinstance(o, Inst) else None, loc[2], self):
                self.issue("stale", "%s result of %s depends on attribute %s.%s, which can change later" %
                           (tr.how, tr.name, cls, loc[2]))
        elif loc[0] == "var":
            if self.model.rebound_global(self.st.heap[loc[1]].vars.get("__name__"), loc[2]):
                self.issue("stale", "%s result of %s depends on the variable %s, which is rebound" %
                           (tr.how, tr.name, loc[2]))
        elif loc[0] == "obj":
            self.issue("stale", "%s result of %s depends on the contents of a mutable %s" % (tr.how, tr.name, loc[2]))
        elif loc[0] == "tfvar" and tr.how == "memoised":
            o = self.st.heap.get(loc[1])
            if o is not None and self.model.assigned_variable(o.hint):
                self.issue("stale", "memoised result of %s depends on the variable %s, which can be assigned" %
                           (tr.name, o.hint))

    def check_write(self, tr, loc):
        if loc[0] == "attr":
            o = self.st.heap.get(loc[1])
            cls = o.cls.name if isinstance(o, Inst) else "?"
            if self.lib.is_backend(self, o) or isinstance(o.attrs.get(loc[2], NONE), K):
                return
            self.issue("trace-effect", "%s function %s assigns %s.%s only when it is %s" %
                       (tr.how, tr.name, cls, loc[2], "first traced" if tr.how == "traced" else "not cached"))

    # ------------------------------------------------------------------------------ statements
    def exec_block(self, body, fr):
        for s in body:
            self.exec(s, fr)

    def exec(self, s, fr):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Budget("analysis budget exhausted")
        self.node = s
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.unk("statement %s" % type(s).__name__)
            return
        m(s, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Expr(self, s, fr):
        self.eval(s.value, fr)

    def x_Import(self, s, fr):
        self.exec_import(s, fr)

    x_ImportFrom = x_Import

    def x_Global(self, s, fr):
        o = self.st.heap[fr]
        self.st.heap[fr] = Frame(o.vars, o.parent, o.globals_ + tuple(s.names), o.nonlocals)

    def x_Nonlocal(self, s, fr):
        o = self.st.heap[fr]
        self.st.heap[fr] = Frame(o.vars, o.parent, o.globals_, o.nonlocals + tuple(s.names))

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for tg in s.targets:
            self.assign(tg, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            cur = self.lookup(fr, s.target.id)
            nv = self.inplace(op, cur, self.eval(s.value, fr))
            self.setvar(fr, s.target.id, nv)
        elif isinstance(s.target, ast.Attribute):
            o = self.eval(s.target.value, fr)
            cur = self.getattr(o, s.target.attr)
            nv = self.inplace(op, cur, self.eval(s.value, fr))
            self.setattr(o, s.target.attr, nv)
        elif isinstance(s.target, ast.Subscript):
            o = self.eval(s.target.value, fr)
            i = self.eval(s.target.slice, fr)
            cur = self.getitem(o, i)
            nv = self.binop(op, cur, self.eval(s.value, fr))
            self.setitem(o, i, nv)

    def inplace(self, op, cur, v):
        def f(c, w):
            if isinstance(c, Ref):
                o = self.get(c)
                if isinstance(o, ArrO):
                    r = self.binop(op, c, w)
                    rn = self.num(r)
                    if rn is None:
                        self.lib.overwrite(self, c, None)
                    else:
                        if not self.lib.can_cast(rn.dtype, o.num.dtype):
                            self.throw("UFuncTypeError", K("in-place cast"))
                        self.lib.overwrite(self, c, rn)
                    return c
                if isinstance(o, ListO) and op == "Add":
                    its = self.items(w)
                    if its is None:
                        return self.unk("list extension")
                    self.put(c, ListO(o.items + tuple(its), o.kind))
                    return c
                if isinstance(o, VarO):
                    return self.binop(op, c, w)
            return self.binop(op, c, w)
        return self.dist(f, cur, v)

    def assign(self, tg, v, fr):
        if isinstance(tg, ast.Name):
            self.setvar(fr, tg.id, v)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
            n = len(tg.elts)
            vals = self.unpack(v, n, star)
            for e, x in zip(tg.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
        elif isinstance(tg, ast.Attribute):
            self.setattr(self.eval(tg.value, fr), tg.attr, v)
        elif isinstance(tg, ast.Subscript):
            o = self.eval(tg.value, fr)
            self.setitem(o, self.eval(tg.slice, fr), v)
        else:
            self.unk("assignment target")

    def unpack(self, v, n, star=()):
        if isinstance(v, Choice):
            rows = [(g, self.unpack(w, n, star)) for g, w in v.alts if self.decide(g) is not t.FALSE]
            return [choice([(g, r[i]) for g, r in rows]) for i in range(n)]
        its = self.items(v)
        if its is None:
            if not isinstance(v, Unk):
                self.unk("unpacking %r" % (v,))
            return [Unk("unpacked %r" % (v,))] * n
        if star:
            k = star[0]
            after = n - k - 1
            if len(its) < n - 1:
                self.throw("ValueError", K("not enough values to unpack"))
            mid = its[k:len(its) - after]
            return list(its[:k]) + [self.alloc(ListO(mid))] + list(its[len(its) - after:])
        if len(its) != n:
            self.throw("ValueError", K("wrong number of values to unpack"))
        return its

    def x_Delete(self, s, fr):
        for tg in s.targets:
            if isinstance(tg, ast.Name):
                o = self.st.heap[fr]
                d = dict(o.vars)
                d.pop(tg.id, None)
                self.st.heap[fr] = Frame(d, o.parent, o.globals_, o.nonlocals)
            elif isinstance(tg, ast.Attribute):
                o = self.eval(tg.value, fr)
                if isinstance(o, Ref) and isinstance(self.get(o), Inst):
                    i = self.get(o)
                    d = dict(i.attrs)
                    d.pop(tg.attr, None)
                    self.put(o, Inst(i.cls, d))
            elif isinstance(tg, ast.Subscript):
                o = self.eval(tg.value, fr)
                k = self.eval(tg.slice, fr)
                if isinstance(o, Ref) and isinstance(self.get(o), DictO):
                    self.lib.dict_del(self, o, k)
                elif isinstance(o, InstDict):
                    self.lib.with_inst_dict(self, o, lambda r: self.lib.dict_del(self, r, k))
                else:
                    self.unk("del")

    def cond(self, test, fr):
        """truth of an expression as a decided condition"""
        return self.decide(self.truth(self.eval(test, fr)))

    def x_If(self, s, fr):
        c = self.cond(s.test, fr)
        self.branch_stmt(c, lambda: self.exec_block(s.body, fr), lambda: self.exec_block(s.orelse, fr))

    def branch_stmt(self, c, fa, fb):
        if c is t.TRUE:
            return fa()
        if c is t.FALSE:
            return fb()
        s0 = self.st
        outs = []
        for g, f in ((c, fa), (t.lnot(c), fb)):
            self.st = s0.copy()
            self.st.pc = t.land(s0.pc, g)
            try:
                f()
                outs.append((self.st, g))
            except Dead:
                pass
        if not outs:
            self.st = s0
            raise Dead()
        if len(outs) == 1:
            self.st = outs[0][0]
        else:
            self.st = self.merge(c, outs[0][0], outs[1][0])

    def x_Return(self, s, fr):
        v = self.eval(s.value, fr) if s.value is not None else NONE
        self.flow.rets.append((self.st, v))
        raise Dead()

    def x_Break(self, s, fr):
        self.flow.brks.append((self.st, None))
        raise Dead()

    def x_Continue(self, s, fr):
        self.flow.conts.append((self.st, None))
        raise Dead()

    def x_Raise(self, s, fr):
        if s.exc is None:
            self.raise_(self.cur_exc or ExcV("RuntimeError", (), ("Exception", "BaseException")))
        v = self.eval(s.exc, fr)
        self.raise_value(v)

    def raise_value(self, v):
        if isinstance(v, Choice):
            return self.branch([(g, (lambda w=w: self.raise_value(w))) for g, w in v.alts])
        if isinstance(v, (Ext, ClsV)):
            v = self.call(v, [], {})
        if isinstance(v, ExcV):
            self.raise_(v)
        if isinstance(v, Ref) and isinstance(self.get(v), Inst):
            c = self.get(v).cls
            self.raise_(ExcV(c.name, (), self.mro_names(c)))
        self.raise_(ExcV("Exception", (v,), ("BaseException",)))

    def x_Assert(self, s, fr):
        c = self.cond(s.test, fr)
        self.raise_if(t.lnot(c), "AssertionError")

    def x_FunctionDef(self, s, fr):
        self.setvar(fr, s.name, self.decorated(s, fr, None))

    def mkfn(self, node, fr, cls=None, name=None):
        a = node.args
        d = [self.eval(x, fr) for x in a.defaults]
        kd = [None if x is None else self.eval(x, fr) for x in a.kw_defaults]
        return Fn(node, fr, self.stack[-1][0], cls, name or getattr(node, "name", "<lambda>"), d, kd)

    def decorated(self, s, fr, cls):
        decs = [self.eval(d, fr) for d in s.decorator_list]
        v = self.mkfn(s, fr, cls)
        q = "%s.%s" % (v.module, v.name)
        if q in self.summaries:
            return self.summaries[q]
        for d in reversed(decs):
            v = self.call(d, [v], {})
        return v

    def x_ClassDef(self, s, fr):
        q = "%s.%s" % (self.stack[-1][0], s.name)
        bases = [self.eval(b, fr) for b in s.bases]
        cf = self.alloc(Frame({}, fr))
        saved = self.stack
        self.stack = self.stack + [(saved[-1][0], s.name)]
        for st in s.body:
            self.node = st
            if isinstance(st, ast.FunctionDef):
                self.setvar(cf.oid, st.name, self.decorated(st, cf.oid, None))
            else:
                self.exec(st, cf.oid)
        self.stack = saved
        o = self.st.heap[cf.oid]
        # class bodies are not enclosing scopes of the methods
        c = ClsV(s.name, saved[-1][0], bases, cf.oid, s)
        for k, v in o.vars.items():
            self._own(v, c, cf.oid, fr)
        ann = [x.target.id for x in s.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)
               and not ast.unparse(x.annotation).split("[")[0].endswith("ClassVar")]
        extra = {}
        if ann:
            extra["$annotations"] = K(tuple(ann))
        if any(isinstance(b, Ext) and b.path == "typing.NamedTuple" for b in bases):
            extra["$fields"] = K(tuple(ann))
        if extra:
            o = Frame(dict(o.vars, **extra), None)
        self.st.heap[cf.oid] = Frame(o.vars, None)
        if any(isinstance(b, Ext) and b.path == "enum.Enum" for b in bases):
            ms = {k: x for k, x in o.vars.items() if isinstance(x, (K, Num, Str, DT, Tup)) and not k.startswith("_")}
            ms = {k: self.alloc(Inst(c, {"name": K(k), "value": x})) for k, x in ms.items()}
            self.st.heap[cf.oid] = Frame(dict(o.vars, **ms), None)
        v = c
        if q in self.summaries:
            v = self.summaries[q]
        for d in reversed(s.decorator_list):
            dv = self.eval(d, fr)
            if isinstance(dv, Ext):
                v = self.lib.class_decorator(self, dv, v)
            else:
                v = self.call(dv, [v], {})
        self.setvar(fr, s.name, v)

    def _own(self, v, c, cf, fr):
        """give the functions of a class their class and their enclosing scope"""
        if isinstance(v, Fn):
            if v.cls is None:
                v.cls = c
            if v.frame == cf:
                v.frame = fr
            elif v.frame is not None:
                # wrapper made by a decorator: its captured functions belong to the class, too
                o = self.st.heap.get(v.frame)
                if isinstance(o, Frame) and o.parent is not None:
                    for w in o.vars.values():
                        if isinstance(w, Fn) and w.frame == cf:
                            self._own(w, c, cf, fr)
                        elif isinstance(w, (Wrapped, StaticM, ClassM, Prop)):
                            self._own(w, c, cf, fr)
        elif isinstance(v, (Wrapped, StaticM, ClassM)):
            self._own(v.fn, c, cf, fr)
        elif isinstance(v, Prop):
            for x in (v.fget, v.fset):
                if x is not None:
                    self._own(x, c, cf, fr)
        elif isinstance(v, Partial):
            self._own(v.fn, c, cf, fr)

    def x_With(self, s, fr):
        self.with_items(s.items, s.body, fr)

    def with_items(self, its, body, fr):
        if not its:
            return self.exec_block(body, fr)
        cm = self.eval(its[0].context_expr, fr)
        if isinstance(cm, (HW, Unk, Ext)) or (isinstance(cm, Native)):
            if its[0].optional_vars is not None:
                self.assign(its[0].optional_vars, cm, fr)
            return self.with_items(its[1:], body, fr)
        if isinstance(cm, CtxV):
            return self.with_ctx(cm, its, body, fr)
        v = self.call(self.getattr(cm, "__enter__"), [], {})
        ex = self.getattr(cm, "__exit__")
        if its[0].optional_vars is not None:
            self.assign(its[0].optional_vars, v, fr)
        self.protected(lambda: self.with_items(its[1:], body, fr), [],
                       lambda exc: self.call(ex, [NONE, NONE, NONE] if exc is None else
                                             [self.lib.exc_type(exc), exc, HW("traceback")], {}), fr)

    def with_ctx(self, cm, its, body, fr):
        target = its[0].optional_vars
        if cm.gen is None:
            v = cm.enter()
            if target is not None:
                self.assign(target, v, fr)
            return self.protected(lambda: self.with_items(its[1:], body, fr), [], cm.exit, fr)
        # the generator runs in its own frame up to the yield, where the body runs in this one; an exception of the
        # body comes out of the yield; a body left by return (break, continue) leaves after the generator has ended
        flow, stack, depth = self.flow, self.stack, self.depth
        left = []

        def run(v):
            if hook.n > 1:
                self.unk("second yield of a context manager")
                return NONE
            saved = self.flow, self.stack, self.depth, self.node
            self.flow, self.stack, self.depth = flow, stack, depth
            lists = (flow.rets, flow.brks, flow.conts)
            marks = [len(x) for x in lists]
            base = self.st.pc
            outs = []
            try:
                try:
                    if target is not None:
                        self.assign(target, v, fr)
                    self.with_items(its[1:], body, fr)
                    outs.append((self.st, None, None))
                except Dead:
                    pass
                for lst, m in zip(lists, marks):
                    outs += [(s, x, lst) for s, x in lst[m:]]
                    del lst[m:]
            finally:
                self.flow, self.stack, self.depth, self.node = saved
            if not outs:
                raise Dead()
            if len({id(o[2]) for o in outs}) > 1:
                self.unk("with statement left in several ways")
            lst = outs[0][2]
            self.st, x = self.merge_many(base, [(s, x) for s, x, l in outs if l is lst])
            left.append((lst, x))
            return NONE
        hook = Hook(run)
        self.call_fn(cm.gen[0], cm.gen[1], cm.gen[2], hook)
        if hook.n == 0:
            self.throw("RuntimeError", K("generator didn't yield"))
        if left and left[0][0] is not None:
            left[0][0].append((self.st, left[0][1]))
            raise Dead()

    def x_Try(self, s, fr):
        def fin(exc):
            self.exec_block(s.finalbody, fr)

        def body():
            self.exec_block(s.body, fr)
        orelse = (lambda: self.exec_block(s.orelse, fr)) if s.orelse else None
        self.protected(body, s.handlers, fin if s.finalbody else None, fr, orelse)

    def protected(self, body, handlers, fin, fr, orelse=None):
        base = self.st.pc
        marks = [len(x) for x in (self.flow.rets, self.flow.brks, self.flow.conts)]
        self.raises.append([])
        nexts = []
        outer_exc = self.cur_exc
        try:
            body()
            ok = self.st
        except Dead:
            ok = None
        raised = self.raises.pop()
        self.raises.append([])
        if ok is not None:
            self.st = ok
            try:
                if orelse:
                    orelse()
                nexts.append(self.st)
            except Dead:
                pass
        for st, exc in raised:
            h = self.find_handler(handlers, exc, st, fr)
            if h is None:
                self.raises[-1].append((st, exc))
                continue
            self.st = st
            self.cur_exc = exc
            try:
                if h.name:
                    self.setvar(fr, h.name, exc)
                self.exec_block(h.body, fr)
                nexts.append(self.st)
            except Dead:
                pass
            self.cur_exc = outer_exc
        after = self.raises.pop()
        if fin is None:
            self.raises[-1].extend(after)
        else:
            out = []
            for s in nexts:
                self.st = s
                try:
                    fin(None)
                    out.append(self.st)
                except Dead:
                    pass
            nexts = out
            for lst, m in zip((self.flow.rets, self.flow.brks, self.flow.conts), marks):
                tail = lst[m:]
                del lst[m:]
                for s, v in tail:
                    self.st = s
                    try:
                        fin(None)
                        lst.append((self.st, v))
                    except Dead:
                        pass
            for s, exc in after:
                self.st = s
                try:
                    r = fin(exc)
                    sup = self.decide(self.truth(r)) if isinstance(r, V) else t.FALSE
                    if sup is t.TRUE:
                        nexts.append(self.st)
                    elif sup is t.FALSE:
                        self.raises[-1].append((self.st, exc))
                    else:
                        other = self.st.copy()
                        other.pc = t.land(other.pc, t.lnot(sup))
                        self.raises[-1].append((other, exc))
                        self.st.pc = t.land(self.st.pc, sup)
                        nexts.append(self.st)
                except Dead:
                    pass
        if not nexts:
            raise Dead()
        self.st, _ = self.merge_many(base, [(s, None) for s in nexts])

    x_TryStar = None

    def find_handler(self, handlers, exc, st, fr):
        for h in handlers:
            if h.type is None:
                return h
            saved = self.st
            self.st = st
            try:
                ty = self.eval(h.type, fr)
            except Dead:
                ty = None
            self.st = saved
            tys = ty.items if isinstance(ty, Tup) else (ty,)
            for y in tys:
                n = y.path.split(".")[-1] if isinstance(y, Ext) else (y.name if isinstance(y, ClsV) else None)
                if n and (n == exc.name or n in exc.bases):
                    return h
        return None

    # ------------------------------------------------------------------------------ loops
    def x_For(self, s, fr):
        it = self.eval(s.iter, fr)
        self.for_over(it, s.target, s.body, s.orelse, fr)

    def for_over(self, it, target, body, orelse, fr):
        if isinstance(it, Choice):
            def f(w):
                self.for_over(w, target, body, orelse, fr)
                return NONE
            self.branch([(g, (lambda w=w: f(w))) for g, w in it.alts])
            return
        if isinstance(it, HWIter):
            return self.hw_loop(it, target, body, fr)
        if isinstance(it, RangeV):
            sy = self.symseq(it)
            k = t.const_val(sy[0]) if sy is not None else None
            if k is not None and k > MANY and self.attempt(lambda: self.sym_loop(sy[0], lambda k: self.assign(target, sy[1](k), fr), body, fr)):
                if orelse:
                    self.exec_block(orelse, fr)
                return
        seq = self.items(it)
        if seq is not None and len(seq) <= MAX_UNROLL:
            self.unrolled(seq, lambda x: self.assign(target, x, fr), body, orelse, fr)
            return
        sy = self.symseq(it)
        if sy is None:
            if not isinstance(it, Unk):
                self.unk("loop over %r" % (it,))
            return self.havoc_loop(target, body, fr, "iteration over %r" % (it,))
        n, elem = sy
        self.sym_loop(n, lambda k: self.assign(target, elem(k), fr), body, fr)
        if orelse:
            self.exec_block(orelse, fr)

    def attempt(self, f):
        """run f; if it would lose precision undo it and return False"""
        names = ("flow", "stack", "node", "depth", "rand_n", "fault_n", "cur_exc", "loop_depth")
        st, n, depth = self.st.copy(), len(self.raises[-1]), len(self.raises)
        keep = {k: getattr(self, k) for k in names}
        issues, faults = dict(self.issues), set(self.faults)
        self.trying += 1
        try:
            f()
            return True
        except NoSummary:
            self.st = st
            for k, v in keep.items():
                setattr(self, k, v)
            del self.raises[depth:]
            del self.raises[-1][n:]
            self.issues, self.faults = issues, faults
            return False
        finally:
            self.trying -= 1

    def unrolled(self, seq, bind, body, orelse, fr):
        saved = self.flow
        base = self.st.pc
        brk = []
        alive = True
        for x in seq:
            self.flow = Flow()
            self.flow.rets, self.flow.yields = saved.rets, saved.yields
            outs = []
            try:
                bind(x)
                self.exec_block(body, fr)
                outs.append((self.st, None))
            except Dead:
                pass
            outs += self.flow.conts
            brk += self.flow.brks
            if not outs:
                alive = False
                break
            self.st, _ = self.merge_many(base, outs)
        self.flow = saved
        outs = []
        if alive:
            try:
                if orelse:
                    self.exec_block(orelse, fr)
                outs = [(self.st, None)]
            except Dead:
                pass
        outs = brk + outs
        if not outs:
            raise Dead()
        self.st, _ = self.merge_many(base, outs)

    def x_While(self, s, fr):
        # bounded unrolling while the condition is decided
        saved = self.flow
        base = self.st.pc
        brk = []
        first = self.st.copy()
        nraise = len(self.raises[-1])
        for k in range(MAX_UNROLL):
            s0 = self.st.copy()
            if k == MANY:
                # a long loop: as a summary, if there is one
                now, r = self.st, self.raises[-1][nraise:]
                self.st, self.flow = first, saved
                del self.raises[-1][nraise:]
                if not brk and self.attempt(lambda: self.sym_while(s, fr)):
                    if s.orelse:
                        self.exec_block(s.orelse, fr)
                    return
                self.st = now
                self.raises[-1].extend(r)
            ev = len(self.st.events)
            c = self.cond(s.test, fr)
            if c is t.FALSE:
                break
            if c is not t.TRUE:
                self.st = s0
                self.flow = saved
                if brk:
                    self.unk("while loop with early exits")
                return self.sym_while(s, fr)
            self.flow = Flow()
            self.flow.rets, self.flow.yields = saved.rets, saved.yields
            outs = []
            try:
                self.exec_block(s.body, fr)
                outs.append((self.st, None))
            except Dead:
                pass
            outs += self.flow.conts
            brk += self.flow.brks
            if not outs:
                self.flow = saved
                if not brk:
                    raise Dead()
                self.st, _ = self.merge_many(base, brk)
                return
            self.st, _ = self.merge_many(base, outs)
            del ev
        else:
            self.flow = saved
            return self.havoc_loop(None, s.body, fr, "while loop")
        self.flow = saved
        if s.orelse:
            self.exec_block(s.orelse, fr)
        if brk:
            self.st, _ = self.merge_many(base, brk + [(self.st, None)])

    def locations(self, a, b):
        """heap locations of state a that differ in b"""
        out = []
        for oid, o in a.heap.items():
            p = b.heap.get(oid)
            if p is o or p is None:
                continue
            if isinstance(o, (Frame, Inst)):
                da, db = (o.vars, p.vars) if isinstance(o, Frame) else (o.attrs, p.attrs)
                for k in db:
                    if k not in da or not same(da[k], db[k]):
                        out.append((oid, k))
            elif isinstance(o, (ArrO, VarO)):
                if not same(o.num, p.num):
                    out.append((oid, None))
            else:
                out.append((oid, None))
        return out

    def getloc(self, st, loc):
        o = st.heap.get(loc[0])
        if o is None:
            return None
        if isinstance(o, Frame):
            return o.vars.get(loc[1])
        if isinstance(o, Inst):
            return o.attrs.get(loc[1])
        if isinstance(o, (ArrO, VarO)):
            return o.num
        return o

    def setloc(self, st, loc, v):
        o = st.heap[loc[0]]
        if isinstance(o, (Frame, Inst)):
            st.heap[loc[0]] = o.set(loc[1], v)
        elif isinstance(o, ArrO):
            st.heap[loc[0]] = ArrO(v, o.buf)
        elif isinstance(o, VarO):
            st.heap[loc[0]] = VarO(v, o.hint)
        else:
            st.heap[loc[0]] = v

    def run_body(self, st, pre, body, fr):
        """one abstract pass over a loop body; (state after, exits) or None"""
        saved_flow, saved_st = self.flow, self.st
        self.flow = Flow()
        self.st = st.copy()
        base = st.pc
        outs = []
        try:
            pre()
            if callable(body):
                body()
            else:
                self.exec_block(body, fr)
            outs.append((self.st, None))
        except Dead:
            pass
        outs += self.flow.conts
        exits = bool(self.flow.brks or self.flow.rets)
        self.flow, self.st = saved_flow, saved_st
        if not outs:
            return None, exits
        s, _ = self.merge_many(base, outs)
        return s, exits

    def promote_loc(self, v, ref):
        """numpy arrays held by reference become values inside a summarised loop"""
        if isinstance(v, Ref) and isinstance(self.st.heap.get(v.oid) or ref.heap.get(v.oid), ArrO):
            o = self.st.heap.get(v.oid) or ref.heap.get(v.oid)
            return o.num
        return v

    def sym_loop(self, n, pre, body, fr, whiletest=None):
        """loop executed n times (symbolic): n may be None for a while loop"""
        self.loop_depth += 1
        try:
            self._sym_loop(n, pre, body, fr, whiletest)
        finally:
            self.loop_depth -= 1

    def _sym_loop(self, n, pre, body, fr, whiletest):
        S0 = self.st
        it = t.sym("$it%d_%d" % (self.loop_depth, fresh()), (), "int", "nonneg")
        ita = next(iter(t.atoms_of(it)))
        slots = {}        # loc -> (slot Num)
        over = {}         # loc -> dtype/shape override after a first pass
        nraise = len(self.raises[-1])
        for attempt in range(8):
            st = S0.copy()
            slots = {}
            for loc in over:
                v0 = self.promote_loc(self.getloc(S0, loc), S0)
                if isinstance(v0, Num):
                    d = over[loc] or v0
                    fl = ["real"] if d.dtype not in ("c64", "c128", "complex") else []
                    if d.dtype in ("int", "i32", "i64"):
                        fl.append("int")
                    sl = t.sym("$slot%d_%d" % (self.loop_depth, fresh()), d.shape or (), *fl)
                    s = d.with_(term=sl)
                    if d.dtype == "bool":
                        s = d.with_(term=t.bool_atom("$slotb", (), (fresh(),), d.shape or ()))
                    slots[loc] = s
                    o = st.heap[loc[0]]
                    if isinstance(o, (Frame, Inst)) and s.kind == "np" and s.shape != ():
                        r = fresh()
                        st.heap[r] = ArrO(s, fresh())
                        self.setloc(st, loc, Ref(r))
                    else:
                        self.setloc(st, loc, s)
            ev0 = len(st.events)
            test = [None]

            def pre2():
                if whiletest is not None:
                    test[0] = self.truth(self.eval(whiletest, fr))
                pre(Num(it, PY, "int"))
            rmark = len(self.raises[-1])
            after, exits = self.run_body(st, pre2, body, fr)
            if after is None or exits:
                del self.raises[-1][rmark:]
                self.st = S0
                return self.havoc_loop(None, body, fr, "loop with early exits")
            again = False
            for loc in self.locations(st, after) + [l for l in slots]:
                v0, v1 = self.getloc(S0, loc), self.promote_loc(self.getloc(after, loc), after)
                v0 = self.promote_loc(v0, S0)
                if loc not in over:
                    if isinstance(v0, Num):
                        over[loc] = None
                        again = True
                elif isinstance(v0, Num) and isinstance(v1, Num):
                    cur = over[loc] or v0
                    if (v1.dtype, v1.kind) != (cur.dtype, cur.kind) or not shape_eq(v1.shape, cur.shape):
                        over[loc] = v1
                        again = True
            if not again:
                break
            del self.raises[-1][rmark:]
        final = S0.copy()
        final.pc = S0.pc
        F = {loc: self.promote_loc(self.getloc(after, loc), after) for loc in slots}
        slot_atom = {}
        for loc, s in slots.items():
            a = list(t.atoms_of(s.term))
            slot_atom[loc] = a[0]
        # induction variables with a closed form
        closed = {}
        for loc in slots:
            f = F[loc]
            if not isinstance(f, Num) or slots[loc].dtype == "bool":
                continue
            d = t.sub(f.term, slots[loc].term)
            at = set(a.key for a in t.all_atoms(d))
            if ita.key in at or any(x.key in at for x in slot_atom.values()):
                continue
            v0 = self.promote_loc(self.getloc(S0, loc), S0)
            closed[loc] = (t.add(v0.term, t.mul(it, d)), v0, d)
        submap = {slot_atom[loc]: c[0] for loc, c in closed.items()}
        if n is None:
            c = t.subst(test[0], submap) if submap else test[0]
            n = self.trip_count(c, it, ita, slot_atom)
            if n is None:
                self.st = S0
                return self.havoc_loop(None, body, fr, "while loop without counter")
        if submap:
            F = {loc: (f.with_(term=t.subst(f.term, submap)) if isinstance(f, Num) else f) for loc, f in F.items()}
        last = t.sub(n, t.ONE)
        at_end = {ita: last}
        gen = [loc for loc in slots if loc not in closed]
        inits = {}
        for loc in gen:
            inits[loc] = self.promote_loc(self.getloc(S0, loc), S0)
        result = {}
        for loc, (ct, v0, d) in closed.items():
            f = F[loc]
            result[loc] = f.with_(term=t.add(v0.term, t.mul(n, d)))
        nz = t.lt(t.ZERO, n)
        for loc in gen:
            f = F[loc]
            if not isinstance(f, Num):
                result[loc] = Unk("loop-carried value")
                continue
            keys = set(a.key for a in t.all_atoms(f.term))
            deps = [l for l in gen if slot_atom[l].key in keys]
            if not deps:
                v = t.subst(f.term, at_end)
                result[loc] = f.with_(term=t.ite(nz, v, inits[loc].term) if nz is not t.TRUE else v)
                continue
            d = None
            if deps == [loc] and f.dtype != "bool":
                d = t.sub(f.term, slots[loc].term)
                if any(a.key == slot_atom[loc].key for a in t.all_atoms(d)):
                    d = None
            if d is not None:
                result[loc] = f.with_(term=t.add(inits[loc].term, self.sum_term(n, d, ita)))
            else:
                result[loc] = f.with_(term=self.loop_term(n, loc, gen, F, inits, slot_atom, ita, f))
        for loc in slots:
            v = result[loc]
            o = final.heap[loc[0]]
            if isinstance(o, (Frame, Inst)) and isinstance(v, Num) and v.kind == "np" and v.shape != ():
                r = fresh()
                final.heap[r] = ArrO(v, fresh())
                v = Ref(r)
            self.setloc(final, loc, v)
        # locations not carried: values of the last iteration / appended lists
        endmap = dict(at_end)
        for loc in self.locations(st, after):
            if loc in slots or loc[0] not in final.heap:
                continue
            v0, v1 = self.getloc(S0, loc), self.getloc(after, loc)
            if isinstance(v0, ListO) and isinstance(v1, ListO) and v1.items[:len(v0.items)] == v0.items:
                add = v1.items[len(v0.items):]
                if len(add) == 1:
                    e = self.fix(add[0], submap, after)
                    if v0.items and not (len(v0.items) == 1 and isinstance(v0.items[0], SymSeq)):
                        seq = Tup(v0.items + (SymSeq(n, self.elem_of(e, ita), "list", None),))
                        final.heap[loc[0]] = ListO((Unk("list built before and inside a loop"),), "choice:list")
                    else:
                        final.heap[loc[0]] = ListO((SymSeq(n, self.elem_of(e, ita), "list", None),), "sym")
                    continue
            v = self.promote_loc(v1, after)
            if isinstance(v, Num) and not any(x.key in {a.key for a in t.all_atoms(v.term)} for x in slot_atom.values()):
                v = v.with_(term=t.subst(t.subst(v.term, submap) if submap else v.term, endmap))
                if v.kind == "np" and v.shape != ():
                    r = fresh()
                    final.heap[r] = ArrO(v, fresh())
                    v = Ref(r)
                self.setloc(final, loc, v)
            elif isinstance(v, Num):
                self.setloc(final, loc, Unk("value of the last loop iteration"))
            elif isinstance(v, (K, Fn, ClsV, ModV, Ext, DT, Str)) and loc[1] is not None:
                self.setloc(final, loc, v)
            elif loc[1] is not None:
                self.setloc(final, loc, Unk("value of the last loop iteration"))
            else:
                final.heap[loc[0]] = v1 if isinstance(v1, IterO) else ListO((Unk("modified in a loop"),), "choice:list")
        for oid, o in after.heap.items():
            if oid not in final.heap:
                final.heap[oid] = o
        ev = after.events[ev0:]
        if ev:
            final.events = S0.events + (Ev("loop", n, args=(it,), where=self.where(), sub=ev),)
        self.st = final

    def fix(self, v, submap, st):
        v = self.promote_loc(v, st)
        if isinstance(v, Num) and submap:
            return v.with_(term=t.subst(v.term, submap))
        return v

    def elem_of(self, e, ita):
        def f(k):
            if isinstance(e, Num):
                return e.with_(term=t.subst(e.term, {ita: k}))
            return e
        return f

    def sum_term(self, n, e, ita):
        if ita.key not in {a.key for a in t.all_atoms(e)}:
            return t.mul(n, e)
        c = t.sym("$i", (), "int", "nonneg")
        sh = t.shape_of(e)
        return t.opaque("sum_loop", (n, t.subst(e, {ita: c})), (), sh, *(["real"] if t.is_real(e) else []))

    def loop_term(self, n, out, gen, F, inits, slot_atom, ita, f):
        # slots reachable from the output, in depth-first order
        order = []

        def visit(loc):
            if loc in order:
                return
            order.append(loc)
            if not isinstance(F[loc], Num):
                return
            ks = []
            self._slot_order(F[loc].term, {slot_atom[l]: l for l in gen}, ks, set())
            for l in ks:
                visit(l)
        visit(out)
        if any(not isinstance(F[l], Num) for l in order):
            return t.opaque("unknown", (), ("loop", fresh()))
        h = 1 + max([a.attrs[1] for l in order for a in t.all_atoms(F[l].term) if a.name == "loop"] + [0])
        m = {}
        for i, l in enumerate(order):
            a = slot_atom[l]
            if "bool" in a.flags:
                m[a] = t.bool_atom("$s%d_%d" % (h, i), (), (), a.shape)
            else:
                m[a] = t.sym("$s%d_%d" % (h, i), a.shape, *[x for x in ("real", "int") if x in a.flags])
        m[ita] = t.sym("$i%d" % h, (), "int", "nonneg")
        bodies = tuple(t.subst(F[l].term, m) for l in order)
        ini = tuple(inits[l].term for l in order)
        fl = ["real"] if f.dtype not in ("c64", "c128", "complex") else []
        if f.dtype == "bool":
            return t.bool_atom("loop", (n,) + ini + bodies, (len(order), h), f.shape)
        return t.opaque("loop", (n,) + ini + bodies, (len(order), h), f.shape, *fl)

    def _slot_order(self, term, m, acc, seen):
        """slots in order of first occurrence (by normal form)"""
        stack = [term]
        while stack:
            x = stack.pop()
            if isinstance(x, t.Atom):
                if x.key in seen:
                    continue
                seen.add(x.key)
                if x in m and m[x] not in acc:
                    acc.append(m[x])
                stack.extend(reversed(list(t._flat(x.args)) + list(t._flat(x.attrs))))
            else:
                if x.kind == "ite":
                    stack.extend([x.b, x.a, x.cond])
                elif x.kind == "poly":
                    for mo, c in reversed(x.poly):
                        for a, e in reversed(mo):
                            if isinstance(e, t.Term):
                                stack.append(e)
                            stack.append(a)

    def trip_count(self, c, it, ita, slot_atom):
        if c is None or c.kind != "ite" or any(x.key in {a.key for a in t.all_atoms(c)} for x in slot_atom.values()):
            return None
        a = c.cond
        neg = c.a is t.FALSE
        if (c.a, c.b) not in ((t.TRUE, t.FALSE), (t.FALSE, t.TRUE)) or a.name != "lt0":
            return None
        p = a.args[0]
        if neg:                     # not (p < 0)  ->  -p <= 0  ->  for integers -p - 1 < 0
            p = t.sub(t.neg(p), t.ONE)
        # p = k*it - m with k = 1
        k = t.ZERO
        rest = t.ZERO
        for mo, co in p.poly:
            ats = {x.key for x, e in mo}
            if ita.key in ats:
                if len(mo) != 1 or mo[0][1] != 1:
                    return None
                k = t.add(k, t.mk_poly({(): co}))
            else:
                rest = t.add(rest, t.mk_poly({mo: co}))
        kv = t.const_val(k)
        if kv is None or kv <= 0:
            return None
        m = t.div(t.neg(rest), t.num(kv))
        return m if t.is_int(m) else t.ceil(m)

    def sym_while(self, s, fr):
        self.sym_loop(None, lambda k: None, s.body, fr, whiletest=s.test)

    def havoc_loop(self, target, body, fr, why):
        """everything the body may assign becomes unknown"""
        if self.trying:
            raise NoSummary()
        u = self.unk(why)
        nodes = body if isinstance(body, list) else []
        for nd in nodes:
            for x in ast.walk(nd):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    self.setvar(fr, x.id, u)
        if target is not None:
            for x in ast.walk(target):
                if isinstance(x, ast.Name):
                    self.setvar(fr, x.id, u)
        self.event("unknown", why)

    def hw_loop(self, it, target, body, fr):
        S0 = self.st
        st = S0.copy()
        after, exits = self.run_body(st, lambda: self.assign(target, it.elem(), fr), body, fr)
        if after is None or exits:
            return self.havoc_loop(target, body, fr, "vendor loop")
        ev = after.events[len(S0.events):]
        after.events = S0.events + (Ev("hwloop", it.name, it.args, where=self.where(), sub=ev),)
        self.st = after

    def x_Match(self, s, fr):
        subj = self.eval(s.subject, fr)

        def go(cases):
            if not cases:
                return
            c0 = cases[0]
            c = self.match(c0.pattern, subj, fr)
            if c is None:
                self.unk("match pattern")
                return
            if c0.guard is not None:
                c = t.land(c, self.truth(self.eval(c0.guard, fr)))
            self.branch_stmt(self.decide(c), lambda: self.exec_block(c0.body, fr), lambda: go(cases[1:]))
        go(s.cases)

    def match(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("Eq", v, self.eval(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare("Is", v, lit(p.value)))
        if isinstance(p, ast.MatchOr):
            r = t.FALSE
            for q in p.patterns:
                c = self.match(q, v, fr)
                if c is None:
                    return None
                r = t.lor(r, c)
            return r
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None:
                c = self.match(p.pattern, v, fr)
            else:
                c = t.TRUE
            if p.name:
                self.setvar(fr, p.name, v)
            return c
        return None

    # ------------------------------------------------------------------------------ expressions
    def eval(self, e, fr):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Budget("analysis budget exhausted")
        saved = self.node
        self.node = e
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            r = self.unk("expression %s" % type(e).__name__)
        else:
            r = m(e, fr)
        self.node = saved
        return r

    def e_Constant(self, e, fr):
        return lit(e.value)

    def e_Name(self, e, fr):
        return self.lookup(fr, e.id)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def seq(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                its = self.items(self.eval(x.value, fr))
                if its is None:
                    out.append(self.unk("starred"))
                else:
                    out.extend(its)
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Tuple(self, e, fr):
        return Tup(self.seq(e.elts, fr))

    def e_List(self, e, fr):
        return self.alloc(ListO(self.seq(e.elts, fr)))

    def e_Set(self, e, fr):
        return self.alloc(ListO(self.seq(e.elts, fr), "set"))

    def e_Dict(self, e, fr):
        r = self.alloc(DictO(()))
        for k, v in zip(e.keys, e.values):
            if k is None:
                w = self.eval(v, fr)
                self.lib.dict_update(self, r, w)
            else:
                kk = self.eval(k, fr)
                self.lib.dict_set(self, r, kk, self.eval(v, fr))
        return r

    def e_Lambda(self, e, fr):
        return self.mkfn(e, fr)

    def e_IfExp(self, e, fr):
        c = self.cond(e.test, fr)
        return self.branch([(c, lambda: self.eval(e.body, fr)), (t.lnot(c), lambda: self.eval(e.orelse, fr))])

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)

        def go(vs):
            v = self.eval(vs[0], fr)
            if len(vs) == 1:
                return v
            c = self.decide(self.truth(v))
            if not isand:
                c = t.lnot(c)
            return self.branch([(c, lambda: go(vs[1:])), (t.lnot(c), lambda: v)])
        return go(e.values)

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        return self.unop(type(e.op).__name__, v)

    def unop(self, op, v):
        if op == "Not":
            return pybool(t.lnot(self.truth(v)))

        def f(x):
            n = self.num(x)
            if n is not None:
                return self.lib.num_unop(self, op, n)
            if isinstance(x, Ref) and isinstance(self.get(x), Inst):
                m = self.find_attr(self.get(x).cls, {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op])
                if m is not None:
                    return self.call(self.bind(m, x), [], {})
                self.throw("TypeError", K("bad operand type for unary operator"))
            if isinstance(x, HW):
                return HW("unop" + op, (x,))
            return self.unk("unary %s of %r" % (op, x)) if not isinstance(x, Unk) else x
        return self.dist(f, v)

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        self.node = e
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        return self.dist(lambda x, y: self.lib.binop(self, op, x, y), a, b)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)

        def go(left, ops, cs):
            right = self.eval(cs[0], fr)
            v = self.compare(type(ops[0]).__name__, left, right)
            if len(ops) == 1:
                return v
            c = self.decide(self.truth(v))
            return self.branch([(c, lambda: go(right, ops[1:], cs[1:])), (t.lnot(c), lambda: v)])
        return go(left, e.ops, e.comparators)

    def compare(self, op, a, b):
        return self.dist(lambda x, y: self.lib.compare(self, op, x, y), a, b)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        i = self.eval(e.slice, fr)
        self.node = e
        return self.getitem(o, i)

    def e_Slice(self, e, fr):
        f = lambda x: NONE if x is None else self.eval(x, fr)
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_JoinedStr(self, e, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(K(x.value))
            else:
                v = self.eval(x.value, fr)
                if x.conversion != -1:
                    v = (self.lib.to_str if x.conversion == 115 else self.lib.to_repr)(self, v)
                parts.append(self.lib.to_str(self, v) if x.format_spec is None
                             else self.lib.fmt(self, v, self.eval(x.format_spec, fr)))
        if all(isinstance(p, K) for p in parts):
            return K("".join(p.val for p in parts))
        if len(parts) == 1:
            return parts[0]
        return Str("concat", parts)

    def e_FormattedValue(self, e, fr):
        return self.lib.to_str(self, self.eval(e.value, fr))

    def e_Starred(self, e, fr):
        return self.unk("starred")

    def e_Await(self, e, fr):
        return self.unk("await")

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else NONE
        if self.flow.yields is None:
            return self.unk("yield")
        if isinstance(self.flow.yields, Hook):
            self.flow.yields.n += 1
            return self.flow.yields.run(v)
        self.flow.yields.append(v)
        return NONE

    def e_YieldFrom(self, e, fr):
        its = self.items(self.eval(e.value, fr))
        if its is None or not isinstance(self.flow.yields, list):
            return self.unk("yield from")
        self.flow.yields.extend(its)
        return NONE

    def comp(self, e, fr, emit):
        cf = self.alloc(Frame({}, fr)).oid
        sym = []

        def go(gens):
            if not gens:
                emit(cf)
                return
            g = gens[0]
            it = self.eval(g.iter, fr if g is e.generators[0] else cf)
            seq = self.items(it)
            if seq is None:
                sy = self.symseq(it)
                if sy is None or len(e.generators) > 1 or g.ifs:
                    raise _Symbolic(None)
                raise _Symbolic((sy, g, cf))
            for x in seq:
                self.assign(g.target, x, cf)
                ok = t.TRUE
                for i in g.ifs:
                    ok = t.land(ok, self.decide(self.truth(self.eval(i, cf))))
                if ok is t.TRUE:
                    go(gens[1:])
                elif ok is not t.FALSE:
                    raise _Symbolic(None)
        go(e.generators)
        del sym

    def listcomp(self, e, fr, kind="list"):
        out = []
        try:
            self.comp(e, fr, lambda cf: out.append(self.eval(e.elt, cf)))
        except _Symbolic as s:
            if s.info is None:
                return self.unk("comprehension")
            (n, elem), g, cf = s.info
            k = t.sym("$it_%d" % fresh(), (), "int", "nonneg")
            ka = next(iter(t.atoms_of(k)))
            ev0 = self.st.events
            self.assign(g.target, elem(Num(k, PY, "int")), cf)
            v = self.eval(e.elt, cf)
            ev = self.st.events[len(ev0):]
            if ev:
                self.st.events = ev0 + (Ev("loop", n, args=(k,), where=self.where(), sub=ev),)
            v = self.fix(v, None, self.st)
            sq = SymSeq(n, self.elem_of2(v, ka), "list")
            return self.alloc(ListO((sq,), "sym"))
        return self.alloc(ListO(out, kind))

    def elem_of2(self, e, ka):
        def f(k):
            k = k.term if isinstance(k, Num) else k
            return self.subst_value(e, {ka: k})
        return f

    def subst_value(self, v, m):
        if isinstance(v, Num):
            return v.with_(term=t.subst(v.term, m))
        if isinstance(v, Tup):
            return v.like([self.subst_value(x, m) for x in v.items])
        return v

    def e_ListComp(self, e, fr):
        return self.listcomp(e, fr)

    def e_SetComp(self, e, fr):
        return self.listcomp(e, fr, "set")

    def e_GeneratorExp(self, e, fr):
        return self.listcomp(e, fr)

    def e_DictComp(self, e, fr):
        r = self.alloc(DictO(()))
        try:
            self.comp(e, fr, lambda cf: self.lib.dict_set(self, r, self.eval(e.key, cf), self.eval(e.value, cf)))
        except _Symbolic:
            return self.unk("dict comprehension")
        return r

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.zero_super(fr)
        f = self.eval(e.func, fr)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                its = self.items(v)
                if its is None:
                    args.append(self.unk("starred argument"))
                else:
                    args.extend(its)
            else:
                args.append(self.eval(a, fr))
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                if isinstance(v, Ref) and isinstance(self.get(v), DictO):
                    for kk, vv in self.get(v).items:
                        if vv is UNDEF or not isinstance(kk, K):
                            continue
                        if kk.val in kwargs:
                            self.throw("TypeError", K("multiple values for keyword"))
                        kwargs[kk.val] = vv
                else:
                    self.unk("** argument")
            else:
                kwargs[k.arg] = v
        self.node = e
        self.calls += 1
        return self.call(f, args, kwargs)

    def zero_super(self, fr):
        f = fr
        while f is not None:
            o = self.st.heap[f]
            if "__class__" in o.vars:
                return SuperV(o.vars["__class__"], o.vars["$self"])
            f = o.parent
        return self.unk("super()")

    # ------------------------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        if isinstance(f, Choice):
            return self.branch([(g, (lambda w=w: self.call(w, args, kwargs))) for g, w in f.alts])
        if isinstance(f, BM):
            return self.call(f.fn, [f.obj] + list(args), kwargs)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs)
        if isinstance(f, Wrapped):
            return self.call_wrapped(f, args, kwargs)
        if isinstance(f, Native):
            return f.f(self, list(args), dict(kwargs))
        if isinstance(f, Partial):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.fn, list(f.args) + list(args), kw)
        if isinstance(f, StaticM):
            return self.call(f.fn, args, kwargs)
        if isinstance(f, ClsV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Ext):
            return self.lib.call_ext(self, f.path, list(args), dict(kwargs))
        if isinstance(f, Method):
            return self.lib.call_method(self, f.obj, f.name, list(args), dict(kwargs))
        if isinstance(f, DT):
            return self.lib.call_dtype(self, f, list(args))
        if isinstance(f, Ref) and isinstance(self.get(f), Inst):
            m = self.find_attr(self.get(f).cls, "__call__")
            if m is not None:
                return self.call(self.bind(m, f), args, kwargs)
            self.throw("TypeError", K("object is not callable"))
        if isinstance(f, HW):
            return self.lib.call_hw(self, f, list(args), dict(kwargs))
        if isinstance(f, Unk):
            return Unk(f.why)
        if isinstance(f, K) or isinstance(f, (Num, Tup, Str)):
            self.throw("TypeError", K("object is not callable"))
        return self.unk("call of %r" % (f,))

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        for n, v in zip(pos, args):
            out[n] = v
        extra = args[len(pos):]
        if a.vararg:
            out[a.vararg.arg] = Tup(extra)
        elif extra:
            self.throw("TypeError", K("%s() takes %d positional arguments" % (f.name, len(pos))))
        po = {x.arg for x in a.posonlyargs}
        kwo = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kwargs.items():
            if (k in pos and k not in po) or k in kwo:
                if k in out:
                    self.throw("TypeError", K("%s() got multiple values for argument %s" % (f.name, k)))
                out[k] = v
            else:
                rest[k] = v
        if a.kwarg:
            out[a.kwarg.arg] = self.alloc(DictO([(K(k), v) for k, v in rest.items()]))
        elif rest:
            self.throw("TypeError", K("%s() got an unexpected keyword argument %s" % (f.name, ", ".join(rest))))
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in out:
                j = i - (len(pos) - nd)
                if j < 0:
                    self.throw("TypeError", K("%s() missing argument %s" % (f.name, n)))
                out[n] = f.defaults[j]
        for n, d in zip(kwo, f.kwdefaults):
            if n not in out:
                if d is None:
                    self.throw("TypeError", K("%s() missing argument %s" % (f.name, n)))
                out[n] = d
        return out

    def call_fn(self, f, args, kwargs, hook=None):
        q = "%s.%s%s" % (f.module, (f.cls.name + ".") if f.cls is not None else "", f.name)
        if q in self.summaries:
            return self.summaries[q].f(self, list(args), dict(kwargs))
        if self.depth > 60:
            return self.unk("recursion in %s" % q)
        saved_node = self.node
        vars = self.bind_args(f, args, kwargs)
        if f.cls is not None:
            vars["__class__"] = f.cls
            first = [x.arg for x in f.node.args.posonlyargs + f.node.args.args][:1]
            vars["$self"] = vars[first[0]] if first else NONE
        fr = self.alloc(Frame(vars, f.frame)).oid
        self.visited.add(q)
        saved = self.flow, self.stack
        self.flow = Flow()
        self.stack = self.stack + [(f.module, q[len(f.module) + 1:])]
        self.depth += 1
        base = self.st.pc
        gen = not isinstance(f.node, ast.Lambda) and is_generator(f.node)
        if gen:
            self.flow.yields = hook or []
        try:
            try:
                if isinstance(f.node, ast.Lambda):
                    v = self.eval(f.node.body, fr)
                    self.flow.rets.append((self.st, v))
                else:
                    self.exec_block(f.node.body, fr)
                    self.flow.rets.append((self.st, NONE))
            except Dead:
                pass
            rets = self.flow.rets
            ys = self.flow.yields
        finally:
            self.flow, self.stack = saved
            self.depth -= 1
            self.node = saved_node
        if not rets:
            raise Dead()
        self.st, v = self.merge_many(base, rets)
        if hook:
            return NONE
        if gen:
            return self.alloc(IterO(ys))
        return v

    def call_wrapped(self, w, args, kwargs):
        name = getattr(w.fn, "name", repr(w.fn))
        if w.how == "contextmanager":
            f = w.fn
            if isinstance(f, Fn) and is_generator(f.node):
                return CtxV((f, list(args), dict(kwargs)))
            return self.unk("context manager %s" % name)
        if w.how == "memoised":
            key, hashable = self.memo_key(w, args, kwargs)
            if not hashable:
                self.throw("TypeError", K("unhashable argument of a cached function"))
            if key in self.st.memo:
                return self.st.memo[key]
        first = fresh()
        tr = Tracker(w.how, name, first)
        self.trackers = self.trackers + [tr]
        try:
            if w.how == "traced":
                for a in list(args) + list(kwargs.values()):
                    if isinstance(a, Ref) and isinstance(self.st.heap.get(a.oid), (ListO, DictO)):
                        pass
                args = [self.lib.as_tensor_arg(self, a) for a in args]
                kwargs = {k: self.lib.as_tensor_arg(self, a) for k, a in kwargs.items()}
            r = self.call(w.fn, args, kwargs)
            if w.how == "traced":
                r = self.lib.as_tensor_result(self, r)
        finally:
            self.trackers = self.trackers[:-1]
        if w.how == "memoised":
            self.st.memo[key] = r
        return r

    def memo_key(self, w, args, kwargs):
        ks = [str(w.uid)]
        ok = True
        for n, a in [("", x) for x in args] + sorted(kwargs.items()):
            if isinstance(a, Ref):
                o = self.st.heap[a.oid]
                if isinstance(o, Inst) and self.find_attr(o.cls, "$dataclass") is not None:
                    d = self.find_attr(o.cls, "$dataclass")
                    if d.val[1] and not d.val[0]:
                        ok = False
                    elif d.val[1]:
                        k, o2 = self.memo_key(w, [o.attrs.get(x, NONE) for x in self.lib.dc_fields(self, o.cls)], {})
                        ks.append("%s=%s(%s)" % (n, o.cls.name, k))
                        ok = ok and o2
                        continue
                if isinstance(o, (ArrO, ListO, DictO)):
                    ok = False
                ks.append("%s=#%d" % (n, a.oid))
                if isinstance(o, Inst) and self.find_attr(o.cls, "__eq__") is not None:
                    self.issue("stale", "memoised function %s is keyed by an object of class %s, which defines __eq__"
                               % (getattr(w.fn, "name", "?"), o.cls.name))
            elif isinstance(a, Num):
                if a.kind == "tf" or a.shape != ():
                    ok = False
                ks.append("%s=%s" % (n, a.term.key))
            elif isinstance(a, Tup):
                k, o2 = self.memo_key(w, a.items, {})
                ks.append("%s=(%s)" % (n, k))
                ok = ok and o2
            else:
                ks.append("%s=%r" % (n, a))
        return "|".join(ks), ok

    # ------------------------------------------------------------------------------ classes
    def mro(self, c):
        if not isinstance(c, ClsV):
            return [c]
        seqs = [self.mro(b) for b in c.bases] + [list(c.bases)]
        out = [c]
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(any(same(h, x) for x in q[1:]) for q in seqs):
                    break
            else:
                break
            out.append(h)
            seqs = [[x for x in q if not same(x, h)] for q in seqs]
            seqs = [q for q in seqs if q]
        return out

    def mro_names(self, c):
        out = []
        for k in self.mro(c):
            if isinstance(k, ClsV):
                out.append(k.name)
            elif isinstance(k, Ext):
                n = k.path.split(".")[-1]
                out.append(n)
                out.extend(self.lib.exc_bases(n))
        return tuple(out)

    def find_attr(self, c, name, after=None):
        m = self.mro(c)
        if after is not None:
            i = next((i for i, k in enumerate(m) if same(k, after)), -1)
            m = m[i + 1:]
        for k in m:
            if isinstance(k, ClsV):
                v = self.st.heap[k.ns].vars.get(name)
                if v is not None:
                    return v
        return None

    def is_subclass(self, c, d):
        return any(same(k, d) for k in self.mro(c))

    def instantiate(self, c, args, kwargs):
        q = "%s.%s" % (c.module, c.name)
        if q in self.summaries:
            return self.summaries[q].f(self, list(args), dict(kwargs))
        if "BaseException" in self.mro_names(c) or "Exception" in self.mro_names(c):
            return ExcV(c.name, args, self.mro_names(c))
        new = self.find_attr(c, "__new__")
        nt = self.find_attr(c, "$fields")
        if nt is not None and new is None:
            return self.lib.make_ntup(self, c, nt.val, args, kwargs)
        if new is not None:
            r = self.call(new, [c] + list(args), kwargs)
        else:
            r = self.alloc(Inst(c, {}))
        init = self.find_attr(c, "__init__")
        if init is not None:
            self.call(self.bind(init, r), args, kwargs)
        elif self.find_attr(c, "$dataclass") is not None:
            self.lib.init_dataclass(self, c, r, args, kwargs)
        elif args or kwargs:
            if new is None:
                self.throw("TypeError", K("%s() takes no arguments" % c.name))
        return r

    def bind(self, m, obj):
        if isinstance(m, (Fn, Wrapped)):
            return BM(obj, m)
        if isinstance(m, StaticM):
            return m.fn
        if isinstance(m, ClassM):
            return BM(self.get(obj).cls if isinstance(obj, Ref) else obj, m.fn)
        if isinstance(m, Native):
            return BM(obj, m)
        if isinstance(m, Choice):
            return choice([(g, self.bind(w, obj)) for g, w in m.alts])
        return m

    def getattr(self, o, name):
        return self.dist(lambda x: self.getattr1(x, name), o)

    def getattr1(self, o, name):
        if isinstance(o, ModV):
            ns = self.module_ns(o.name)
            if name in ns:
                if self.trackers:
                    self.read(("var", self.modframes[o.name], name))
                return ns[name]
            if self.model.has(o.name + "." + name):
                return self.import_module(o.name + "." + name)
            self.throw("AttributeError", K(name))
        if isinstance(o, Ext):
            return self.lib.ext_attr(self, o, name)
        if isinstance(o, Ref):
            h = self.get(o)
            if isinstance(h, Inst):
                return self.inst_attr(o, h, name)
            return self.lib.obj_attr(self, o, h, name)
        if isinstance(o, ClsV):
            if name == "__name__":
                return K(o.name)
            v = self.find_attr(o, name)
            if v is None:
                self.throw("AttributeError", K(name))
            if isinstance(v, StaticM):
                return v.fn
            if isinstance(v, ClassM):
                return BM(o, v.fn)
            return v
        if isinstance(o, SuperV):
            c = self.get(o.obj).cls if isinstance(o.obj, Ref) else o.obj
            v = self.find_attr(c, name, after=o.cls)
            if v is None:
                if name == "__init__":
                    return Native("object.__init__", lambda it, a, k: NONE)
                if name in ("__enter__", "__exit__"):
                    self.throw("AttributeError", K(name))
                if name == "__setattr__":
                    return Native("object.__setattr__", lambda it, a, k: (it.setattr_raw(o.obj, a[0].val, a[1]), NONE)[1])
                self.throw("AttributeError", K(name))
            if isinstance(v, Prop):
                return self.call(v.fget, [o.obj], {})
            return self.bind(v, o.obj)
        if isinstance(o, Unk):
            return o
        if isinstance(o, (Fn, Wrapped, Native, BM, Partial)):
            return self.lib.fn_attr(self, o, name)
        if isinstance(o, Prop):
            return self.lib.prop_attr(self, o, name)
        return self.lib.value_attr(self, o, name)

    def inst_attr(self, r, h, name):
        if name == "__class__":
            return h.cls
        if name == "__dict__":
            return InstDict(r)
        cv = self.find_attr(h.cls, name)
        if isinstance(cv, Prop):
            if cv.cached:
                if name in h.attrs:
                    return h.attrs[name]
                v = self.call(cv.cached if isinstance(cv.cached, Wrapped) else cv.fget, [r], {})
                self.put(r, self.get(r).set(name, v))
                return v
            if cv.fget is None:
                self.throw("AttributeError", K(name))
            return self.call(cv.fget, [r], {})
        if name in h.attrs:
            v = h.attrs[name]
            if self.trackers:
                self.read(("attr", r.oid, name))
            p = self.lib.entry_present(v)
            if p is t.TRUE:
                return v
            p = self.decide(p)

            def other():
                if cv is not None:
                    return self.bind(cv, r)
                ga = self.find_attr(h.cls, "__getattr__")
                if ga is not None:
                    return self.call(self.bind(ga, r), [K(name)], {})
                self.throw("AttributeError", K(name))
            if p is t.FALSE:
                return other()
            if p is t.TRUE:
                return self.lib.present(v)
            return self.branch([(p, lambda: self.lib.present(v)), (t.lnot(p), other)])
        if cv is not None:
            if self.trackers and not isinstance(cv, (Fn, Wrapped, StaticM, ClassM)):
                self.read(("attr", r.oid, name))
            return self.bind(cv, r)
        ga = self.find_attr(h.cls, "__getattr__")
        if ga is not None:
            return self.call(self.bind(ga, r), [K(name)], {})
        if name == "__getattribute__":
            return Native("getattribute", lambda it, a, k: it.getattr(r, a[0].val))
        self.throw("AttributeError", K("%s.%s" % (h.cls.name, name)))

    def has_attr(self, o, name):
        if isinstance(o, Ref) and isinstance(self.get(o), Inst):
            h = self.get(o)
            cv = self.find_attr(h.cls, name)
            if isinstance(cv, Prop) or cv is None and self.find_attr(h.cls, "__getattr__") is not None:
                return None
            return t.T(cv is not None) if name not in h.attrs or cv is not None else self.decide(self.lib.entry_present(h.attrs[name]))
        if isinstance(o, ModV):
            return t.T(name in self.module_ns(o.name))
        return None

    def setattr_raw(self, o, name, v):
        h = self.get(o)
        if self.trackers:
            self.write(("attr", o.oid, name))
        self.put(o, h.set(name, v))
        self.lib.on_setattr(self, o, h, name, v)

    def setattr(self, o, name, v):
        def f(x):
            if isinstance(x, Ref):
                h = self.get(x)
                if isinstance(h, Inst):
                    sa = self.find_attr(h.cls, "__setattr__")
                    if sa is not None and not isinstance(sa, Native):
                        self.call(self.bind(sa, x), [K(name), v], {})
                        return NONE
                    if sa is not None and sa.name == "frozen":
                        self.throw("FrozenInstanceError", K(name))
                    cv = self.find_attr(h.cls, name)
                    if isinstance(cv, Prop) and not cv.cached:
                        if cv.fset is None:
                            self.throw("AttributeError", K("can't set attribute %s" % name))
                        self.call(cv.fset, [x, v], {})
                        return NONE
                    self.setattr_raw(x, name, v)
                    return NONE
                self.lib.obj_setattr(self, x, h, name, v)
                return NONE
            if isinstance(x, ModV):
                fr = self.modframes[x.name]
                self.st.heap[fr] = self.st.heap[fr].set(name, v)
                return NONE
            if isinstance(x, ClsV):
                self.st.heap[x.ns] = self.st.heap[x.ns].set(name, v)
                return NONE
            if isinstance(x, (Fn, Wrapped, Native)):
                return NONE          # function attributes such as __signature__, __doc__
            if isinstance(x, HW):
                self.event("hw", x.path + "." + name + " =", (v,))
                return NONE
            self.unk("attribute assignment on %r" % (x,))
            return NONE
        self.dist(f, o)

    def getitem(self, o, i):
        return self.dist(lambda x, y: self.lib.getitem(self, x, y), o, i)

    def setitem(self, o, i, v):
        self.dist(lambda x, y: (self.lib.setitem(self, x, y, v), NONE)[1], o, i)

    # ------------------------------------------------------------------------------ helpers
    def num(self, v):
        """numeric content of a value, or None"""
        if isinstance(v, Num):
            return v
        if isinstance(v, Ref):
            o = self.st.heap.get(v.oid)
            if isinstance(o, ArrO):
                if self.trackers:
                    self.read_obj(v.oid, "array")
                return o.num
            if isinstance(o, VarO):
                if self.trackers:
                    self.read(("tfvar", v.oid, ""))
                return o.num
        return None

    def read_obj(self, oid, what):
        pass

    def arr(self, n):
        """numpy result"""
        if n.kind == "np" and n.shape != ():
            return self.alloc(ArrO(n, fresh()))
        return n

    def truth(self, v):
        """truth value as a condition"""
        if isinstance(v, Choice):
            r = t.FALSE
            for g, w in v.alts:
                if self.decide(g) is t.FALSE:
                    continue
                r = t.lor(r, t.land(g, self.truth(w)))
            return r
        n = self.num(v)
        if n is not None:
            if n.shape is not None and len(n.shape) > 0:
                sz = t.size(n.shape)
                if t.const_val(sz) != 1:
                    self.throw("ValueError", K("truth value of an array"))
            return t.as_bool(n.term)
        if isinstance(v, K):
            return t.T(bool(v.val))
        if isinstance(v, Tup):
            return t.T(bool(v.items))
        if isinstance(v, Str):
            return t.TRUE
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, (ListO, DictO)):
                if isinstance(o, ListO) and o.kind == "sym":
                    return t.lt(t.ZERO, o.items[0].n)
                if isinstance(o, ListO) and o.kind.startswith("choice"):
                    return t.bool_atom("unknown", (), (fresh(),))
                return t.T(bool(o.items))
            if isinstance(o, Inst):
                m = self.find_attr(o.cls, "__bool__") or self.find_attr(o.cls, "__len__")
                if m is not None:
                    return self.truth(self.call(self.bind(m, v), [], {}))
            return t.TRUE
        if isinstance(v, SymSeq):
            return t.lt(t.ZERO, v.n)
        if isinstance(v, RangeV):
            return t.lt(v.start, v.stop)
        if isinstance(v, Unk):
            return t.bool_atom("unknown", (), (v.why,))
        if isinstance(v, HW):
            return t.bool_atom("hw", (), (repr(v),))
        return t.TRUE

    def items(self, v):
        """list of the items of an iterable of known length, else None"""
        if isinstance(v, InstDict):
            return [K(n) for n, x in self.get(v.obj).attrs.items() if x is not UNDEF]
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, ListO):
                if o.kind == "sym" or o.kind.startswith("choice"):
                    return None
                return list(o.items)
            if isinstance(o, DictO):
                return [k for k, x in o.items if x is not UNDEF]
            if isinstance(o, IterO):
                r = list(o.items[o.pos:])
                self.put(v, IterO(o.items, len(o.items)))
                return r
            if isinstance(o, ArrO) and o.num.shape is not None and o.num.shape:
                n = t.const_val(o.num.shape[0])
                if n is not None and n <= 64:
                    return [self.getitem(v, pyint(int(i))) for i in range(int(n))]
            if isinstance(o, Inst):
                m = self.find_attr(o.cls, "__iter__")
                if m is not None:
                    return self.items(self.call(self.bind(m, v), [], {}))
        if isinstance(v, RangeV):
            a, b, s = t.const_val(v.start), t.const_val(v.stop), t.const_val(v.step)
            if None in (a, b, s) or s == 0:
                return None
            r = range(int(a), int(b), int(s))
            if len(r) > MAX_UNROLL:
                return None
            if v.dtype == "int":
                return [pyint(i) for i in r]
            return [Num(t.T(i), "tf", v.dtype) for i in r]
        if isinstance(v, EnumV):
            x = self.items(v.it)
            if x is None:
                return None
            s = v.start
            return [Tup([Num(t.add(s, t.num(i)), PY, "int"), y]) for i, y in enumerate(x)]
        if isinstance(v, ZipV):
            inf = [isinstance(i, SymSeq) and self.lib.is_infinite_n(i.n) for i in v.its]
            xs = [None if q else self.items(i) for i, q in zip(v.its, inf)]
            if any(x is None and not q for x, q in zip(xs, inf)) or all(inf):
                return None
            m = min(len(x) for x in xs if x is not None)
            xs = [[i.elem(t.num(k)) for k in range(m)] if q else x for i, x, q in zip(v.its, xs, inf)]
            return [Tup(r) for r in zip(*xs)]
        if isinstance(v, K) and isinstance(v.val, str):
            return [K(c) for c in v.val]
        return None

    def symseq(self, v):
        """(length term, index -> value) of an iterable of symbolic length, else None"""
        if isinstance(v, RangeV):
            s = t.const_val(v.step)
            if s is None or s == 0:
                return None
            n = t.sub(v.stop, v.start) if s > 0 else t.sub(v.start, v.stop)
            if abs(s) != 1:
                n = t.ceil(t.div(n, t.num(abs(s))))
            kind, dt = (PY, "int") if v.dtype == "int" else ("tf", v.dtype)
            return n, lambda k: Num(t.add(v.start, t.mul(self._kt(k), t.num(s))), kind, dt)
        if isinstance(v, SymSeq):
            return v.n, lambda k: v.elem(self._kt(k))
        if isinstance(v, EnumV):
            r = self.symseq(v.it)
            if r is None:
                return None
            return r[0], lambda k: Tup([Num(t.add(v.start, self._kt(k)), PY, "int"), r[1](k)])
        if isinstance(v, ZipV):
            rs = [self.symseq(i) for i in v.its]
            if any(r is None for r in rs):
                return None
            ns = [r[0] for r in rs if not self.lib.is_infinite_n(r[0])] or [rs[0][0]]
            n = ns[0]
            if any(q is not n for q in ns):
                return None
            return n, lambda k: Tup([r[1](k) for r in rs])
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, ListO) and o.kind == "sym":
                return self.symseq(o.items[0])
            if isinstance(o, ArrO):
                return self.symseq(o.num)
        if isinstance(v, Num) and v.shape is not None and len(v.shape) >= 1:
            return v.shape[0], lambda k: self.getitem(v, Num(self._kt(k), PY, "int"))
        return None

    def _kt(self, k):
        return k.term if isinstance(k, Num) else k


class _Symbolic(Exception):
    def __init__(self, info):
        self.info = info


_gen = {}


def is_generator(node):
    r = _gen.get(id(node))
    if r is None:
        r = False
        stack = list(node.body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(x))
        _gen[id(node)] = r
    return r
