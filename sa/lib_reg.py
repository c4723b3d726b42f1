"""Registry of library function models and argument binding."""
import json
import os

from . import terms as t
from .values import *
from . import lib_num as ln

# signatures of the installed libraries: {path: [[name, kind, "req"|"="|"?", default]]}; methods of arrays as "@name"
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "signatures.json")) as _f:
    SIGS = json.load(_f)
FUNCS = {}          # canonical path -> model(it, args, kwargs)
METHODS = {}        # method name on numeric values -> model(it, obj, args, kwargs)
CONSTS = {}


class Missing:
    def __repr__(self):
        return "<missing>"


MISSING = Missing()


def parse(sig):
    """'x, dtype=, *args' -> [(name, required, star)]"""
    out = []
    for p in [x.strip() for x in sig.split(",") if x.strip()]:
        if p.startswith("**"):
            out.append((p[2:], False, "**"))
        elif p.startswith("*"):
            out.append((p[1:], False, "*"))
        elif p.endswith("="):
            out.append((p[:-1], False, ""))
        else:
            out.append((p, True, ""))
    return out


def bind(it, name, params, args, kwargs):
    vals = {}
    args = list(args)
    i = 0
    for n, req, star in params:
        if star == "*":
            vals[n] = Tup(args[i:])
            i = len(args)
        elif star == "**":
            vals[n] = dict(kwargs)
            kwargs = {}
        elif i < len(args):
            vals[n] = args[i]
            i += 1
            if n in kwargs:
                it.throw("TypeError", K("%s() got multiple values for argument %s" % (name, n)))
        elif n in kwargs:
            vals[n] = kwargs.pop(n)
        elif req:
            it.throw("TypeError", K("%s() missing argument %s" % (name, n)))
        else:
            vals[n] = MISSING
    if i < len(args):
        it.throw("TypeError", K("%s() takes %d arguments" % (name, len(params))))
    if kwargs:
        it.throw("TypeError", K("%s() got an unexpected keyword argument %s" % (name, ", ".join(kwargs))))
    return [vals[n] for n, _, _ in params]


def same_default(it, v, p):
    """the argument v is the default of the parameter p"""
    if p[2] != "=":
        return False
    d = p[3]
    if isinstance(v, K):
        return type(v.val) is type(d) and v.val == d
    if isinstance(v, Num) and v.kind == "py" and isinstance(d, (bool, int, float)):
        if isinstance(d, bool):
            return v.term is (t.TRUE if d else t.FALSE)
        return v.dtype != "bool" and v.term is t.num(d)
    return False


def canonical(it, path, f, args, kwargs):
    """the arguments of a library call in the form the model of the function expects: (args, kwargs), or None if an option is
    given that the model does not know; a call that does not fit the signature raises TypeError"""
    sig = SIGS.get(path)
    if sig is None:
        return args, kwargs
    pos = [p for p in sig if p[1] in ("p", "b")]
    star = any(p[1] == "*" for p in sig)
    args, kwargs = list(args), dict(kwargs)
    name = path.split(".")[-1]
    if len(args) > len(pos) and not star:
        it.throw("TypeError", K("%s() takes %d positional arguments" % (name, len(pos))))
    known = {p[0]: p for p in sig if p[1] in ("b", "k")}
    if not any(p[1] == "**" for p in sig):
        for k in kwargs:
            if k not in known:
                it.throw("TypeError", K("%s() got an unexpected keyword argument %s" % (name, k)))
    taken = {p[0] for p in pos[:len(args)] if p[1] == "b"}
    for k in kwargs:
        if k in taken:
            it.throw("TypeError", K("%s() got multiple values for argument %s" % (name, k)))
    params = getattr(f, "params", None)
    names = [n for n, _, _ in params] if params is not None else None
    if names is None:
        # the leading arguments by position
        for p in pos[len(args):]:
            if p[0] not in kwargs or p[2] != "req":
                break
            args.append(kwargs.pop(p[0]))
        return args, kwargs
    if any(s for _, _, s in params):
        return args, kwargs
    # positional arguments beyond those the model knows
    for k in range(len(names), len(args)):
        if k < len(pos) and not same_default(it, args[k], pos[k]):
            return None
    if pos and not star:
        args = args[:len(names)]
    out = {}
    for k, v in kwargs.items():
        i = next((j for j, p in enumerate(pos) if p[0] == k), None)
        if k in names:
            out[k] = v
        elif i is not None and i < len(names) and names[i] not in known:
            out[names[i]] = v
        elif k in known and same_default(it, v, known[k]) or k == "name":
            pass
        else:
            return None
    return args, out


def wrap(name, sig, f, raw=False):
    params = parse(sig)

    def model(it, args, kwargs):
        vals = bind(it, name, params, args, dict(kwargs))
        if raw:
            return f(it, *vals)
        for v in vals:
            if isinstance(v, Unk):
                return v
        ks = [i for i, v in enumerate(vals) if isinstance(v, Choice)]
        if not ks:
            return f(it, *vals)

        def go(*cs):
            w = list(vals)
            for i, c in zip(ks, cs):
                w[i] = c
            if any(isinstance(c, Unk) for c in cs):
                return next(c for c in cs if isinstance(c, Unk))
            return f(it, *w)
        return it.dist(go, *[vals[i] for i in ks])
    model.params = params
    return model


def ext(names, sig, raw=False):
    def deco(f):
        for n in names.split():
            FUNCS[n] = wrap(n, sig, f, raw)
        return f
    return deco


def method(names, sig, raw=False):
    """model of a method of an array/tensor/number; f(it, obj, ...)"""
    def deco(f):
        for n in names.split():
            METHODS[n] = wrap(n, "self," + sig, f, raw)
        return f
    return deco


def given(v):
    return v is not MISSING and not (isinstance(v, K) and v.val is None)
