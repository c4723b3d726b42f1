"""Abstract values and abstract heap objects."""
from . import terms as t

_n = [0]


def fresh():
    _n[0] += 1
    return _n[0]


class V:
    __slots__ = ()


class Num(V):
    """number or array: value term + representation (py/np/tf), element type and shape"""
    # raw: the operation that produced the value, (name, operand Nums), or None; used to find NaN and infinities that the
    # algebraic normal form of the term no longer shows
    __slots__ = ("term", "kind", "dtype", "shape", "sel", "raw")

    watch = None        # (element types, callback): reports every array of such a type that is created

    def __init__(self, term, kind="py", dtype=None, shape=(), sel=None):
        self.term, self.kind, self.dtype, self.shape, self.sel = term, kind, dtype, shape, sel
        self.raw = None
        if Num.watch is not None and dtype in Num.watch[0] and kind != "py":
            Num.watch[1](self)

    def with_(self, cast=False, **kw):
        n = Num(kw.get("term", self.term), kw.get("kind", self.kind), kw.get("dtype", self.dtype),
                kw.get("shape", self.shape), kw.get("sel", self.sel))
        if n.shape is self.shape and n.sel is None:
            if n.term is self.term:
                n.raw = self.raw
            elif cast:
                n.raw = ("cast", (self,))
        return n

    def __repr__(self):
        return "<%s %s %s %s>" % (self.kind, self.dtype, t.show(self.term),
                                  None if self.shape is None else [t.show(s) for s in self.shape])


class K(V):
    __slots__ = ("val",)

    def __init__(self, val):
        self.val = val

    def __repr__(self):
        return "K(%r)" % (self.val,)


NONE = K(None)


class Str(V):
    """string that is not known literally"""
    __slots__ = ("op", "args")

    def __init__(self, op, args=()):
        self.op, self.args = op, tuple(args)

    def __repr__(self):
        return "%s(%s)" % (self.op, ", ".join(map(repr, self.args)))


class Ref(V):
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return "Ref#%s" % self.oid


class Tup(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "Tup%r" % (self.items,)

    def like(self, items):
        return Tup(items)


class NTup(Tup):
    """named tuple"""
    __slots__ = ("cls", "names")

    def __init__(self, items, cls, names):
        self.items, self.cls, self.names = tuple(items), cls, tuple(names)

    def like(self, items):
        return NTup(items, self.cls, self.names)


class InstDict(V):
    """__dict__ of an instance"""
    __slots__ = ("obj",)

    def __init__(self, obj):
        self.obj = obj

    def __repr__(self):
        return "__dict__ of %r" % (self.obj,)


class Fn(V):
    __slots__ = ("node", "frame", "module", "cls", "name", "defaults", "kwdefaults", "uid")

    def __init__(self, node, frame, module, cls, name, defaults, kwdefaults):
        self.node, self.frame, self.module, self.cls, self.name = node, frame, module, cls, name
        self.defaults, self.kwdefaults, self.uid = defaults, kwdefaults, fresh()

    def __repr__(self):
        return "Fn(%s.%s)" % (self.module, self.name)


class Wrapped(V):
    """traced (tf.function) or memoised (lru_cache) function"""
    __slots__ = ("how", "fn", "uid")

    def __init__(self, how, fn):
        self.how, self.fn, self.uid = how, fn, fresh()

    def __repr__(self):
        return "%s(%r)" % (self.how, self.fn)


class BM(V):
    __slots__ = ("obj", "fn")

    def __init__(self, obj, fn):
        self.obj, self.fn = obj, fn

    def __repr__(self):
        return "BM(%r, %r)" % (self.obj, self.fn)


class CtxV(V):
    """context manager: of a generator function (gen: (function, args, kwargs)), or enter() and exit(exception or None)"""
    __slots__ = ("gen", "enter", "exit")

    def __init__(self, gen=None, enter=None, exit=None):
        self.gen, self.enter, self.exit = gen, enter, exit

    def __repr__(self):
        return "CtxV()"


class Hook:
    """takes the place of the list of yielded values: the body of a with statement runs at the yield"""

    def __init__(self, run):
        self.run, self.n = run, 0


class Native(V):
    """function of the analysis (library model or user-supplied callback)"""
    __slots__ = ("name", "f")

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return "Native(%s)" % self.name


class Method(V):
    """attribute of a library value, called through the method table"""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return "Method(%r.%s)" % (self.obj, self.name)


class ClsV(V):
    __slots__ = ("name", "module", "bases", "ns", "node", "uid")

    def __init__(self, name, module, bases, ns, node):
        self.name, self.module, self.bases, self.ns, self.node = name, module, bases, ns, node
        self.uid = fresh()

    def __repr__(self):
        return "Cls(%s)" % self.name


class ModV(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Mod(%s)" % self.name


class Ext(V):
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "Ext(%s)" % self.path


class DT(V):
    __slots__ = ("name", "lib")

    def __init__(self, name, lib="tf"):
        self.name, self.lib = name, lib

    def __repr__(self):
        return "DT(%s)" % self.name


class Choice(V):
    """value depends on a condition: ((guard, value), ...), guards disjoint and exhaustive"""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return "Choice%r" % (self.alts,)


class Unk(V):
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "Unk(%s)" % self.why


class Partial(V):
    __slots__ = ("fn", "args", "kwargs")

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class Prop(V):
    __slots__ = ("fget", "fset", "fdel", "cached")

    def __init__(self, fget=None, fset=None, fdel=None, cached=None):
        self.fget, self.fset, self.fdel, self.cached = fget, fset, fdel, cached


class StaticM(V):
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class ClassM(V):
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class SliceV(V):
    __slots__ = ("a", "b", "c")

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class SuperV(V):
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class RangeV(V):
    """range with (possibly symbolic) bounds"""
    __slots__ = ("start", "stop", "step", "dtype")

    def __init__(self, start, stop, step, dtype="int"):
        self.start, self.stop, self.step, self.dtype = start, stop, step, dtype


class EnumV(V):
    __slots__ = ("it", "start")

    def __init__(self, it, start):
        self.it, self.start = it, start


class ZipV(V):
    __slots__ = ("its",)

    def __init__(self, its):
        self.its = its


class SymSeq(V):
    """sequence of symbolic length n; elem(Term index) -> value"""
    __slots__ = ("n", "elem", "name", "oid")

    def __init__(self, n, elem, name, oid=None):
        self.n, self.elem, self.name, self.oid = n, elem, name, oid

    def __repr__(self):
        return "SymSeq(%s x %s)" % (self.name, t.show(self.n))


class HWIter(V):
    """loop construct of a vendor library: one abstract iteration"""
    __slots__ = ("name", "args", "elem")

    def __init__(self, name, args, elem):
        self.name, self.args, self.elem = name, args, elem


class HW(V):
    """value produced by a vendor library (opaque, immutable)"""
    __slots__ = ("path", "args", "kwargs", "uid")

    def __init__(self, path, args=(), kwargs=()):
        self.path, self.args, self.kwargs, self.uid = path, tuple(args), tuple(kwargs), fresh()

    def __repr__(self):
        return "HW(%s%s)" % (self.path, list(self.args) if self.args else "")


class ExcV(V):
    """instance of an exception class; bases: names of all its (super)classes"""
    __slots__ = ("name", "args", "bases", "where")

    def __init__(self, name, args=(), bases=(), where=""):
        self.name, self.args, self.bases, self.where = name, tuple(args), tuple(bases), where

    def __repr__(self):
        return "%s(...)" % self.name


# ------------------------------------------------------------------------------------------ heap
class Inst:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs

    def set(self, k, v):
        d = dict(self.attrs)
        d[k] = v
        return Inst(self.cls, d)


class ListO:
    """items: tuple of values; kind list/set; tail: optional SymSeq appended by a summarised loop"""
    __slots__ = ("items", "kind")

    def __init__(self, items, kind="list"):
        self.items, self.kind = tuple(items), kind


class DictO:
    __slots__ = ("items", "default")

    def __init__(self, items=(), default=None):
        self.items = tuple(items)      # ((key value, value), ...)
        self.default = default


class ArrO:
    """numpy array: content + identity of its memory"""
    __slots__ = ("num", "buf")

    def __init__(self, num, buf):
        self.num, self.buf = num, buf


class VarO:
    """tf.Variable"""
    __slots__ = ("num", "hint")

    def __init__(self, num, hint=""):
        self.num, self.hint = num, hint


class Frame:
    __slots__ = ("vars", "parent", "globals_", "nonlocals")

    def __init__(self, vars, parent, globals_=(), nonlocals=()):
        self.vars, self.parent, self.globals_, self.nonlocals = vars, parent, globals_, nonlocals

    def set(self, k, v):
        d = dict(self.vars)
        d[k] = v
        return Frame(d, self.parent, self.globals_, self.nonlocals)


class IterO:
    """iterator over a concrete list"""
    __slots__ = ("items", "pos")

    def __init__(self, items, pos=0):
        self.items, self.pos = tuple(items), pos


class Ev:
    """effect"""
    __slots__ = ("kind", "name", "args", "kwargs", "where", "sub", "cond", "sub2")

    def __init__(self, kind, name, args=(), kwargs=(), where="", sub=(), cond=None, sub2=()):
        self.kind, self.name, self.args, self.kwargs, self.where = kind, name, tuple(args), tuple(kwargs), where
        self.sub, self.cond, self.sub2 = tuple(sub), cond, tuple(sub2)

    def __repr__(self):
        if self.kind == "if":
            return "if(%s){%r}else{%r}" % (t.show(self.cond), self.sub, self.sub2)
        if self.kind == "loop":
            return "loop(%s){%r}" % (self.name, self.sub)
        return "%s:%s%r" % (self.kind, self.name, self.args)


class State:
    __slots__ = ("heap", "events", "pc", "memo")

    def __init__(self, heap=None, events=(), pc=t.TRUE, memo=None):
        self.heap, self.events, self.pc, self.memo = heap if heap is not None else {}, events, pc, memo or {}

    def copy(self):
        return State(dict(self.heap), self.events, self.pc, dict(self.memo))
