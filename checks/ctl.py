"""C31-C34, C37: controllers (typestate over the calls to the vendor libraries) and numbered images."""
import itertools
from .battery import *

UTIL = "pySLM2.util"
LIBS = ("ALP4", "Luxbeam")
# parameter names of the vendor functions, in order
SIGS = {"SeqAlloc": ("nbImg", "bitDepth"), "SeqPut": ("imgData", "SequenceId", "PicOffset", "PicLoad", "dataFormat"), "ProjControl": ("controlType", "value"),
        "DevControl": ("controlType", "value"), "SeqControl": ("controlType", "value", "SequenceId"), "FreeSeq": ("SequenceId",), "Run": ("SequenceId", "loop"),
        "SetTiming": ("SequenceId", "illuminationTime", "pictureTime"), "DevInquire": ("inquireType",), "SeqInquire": ("inquireType", "SequenceId"),
        "set_sequencer_state": ("cmd", "enable"), "set_sequencer_reg": ("reg_no", "reg_val"), "load_image": ("inum", "image"), "set_software_sync": ("level",),
        "Luxbeam": ("dmd_ip", "inverse", "timeout"), "ALP4": ("version", "libDir"), "load_sequence": ("seq_file",), "assign_var_reg": ("regno",),
        "load_global": ("inum", "delay"), "reset_global": ("delay",), "trig": ("mode", "source", "delay")}
IGNORED = ("PIL", "matplotlib", "json", "logging", "time", "h5py")


class Call:
    """one vendor call of a trace"""

    def __init__(self, ev):
        self.ev, self.where = ev, ev.where
        n = ev.name
        self.set = n.endswith(" =")
        self.name = n[:-2].rsplit(".", 1)[-1] if n.endswith("()") else n.rsplit(".", 1)[-1]
        self.root = n.split(".")[0].split("(")[0]
        self.args = dict(zip(SIGS.get(self.name, ()), ev.args))
        self.args.update(dict(ev.kwargs))
        self.extra = len(ev.args) > len(SIGS.get(self.name, ev.args))
        self.result = ev.sub2[1] if len(ev.sub2) > 1 else None

    def a(self, k, default=None):
        return self.args.get(k, default)

    def __repr__(self):
        return "%s(%s)" % (self.name, ", ".join("%s=%s" % (k, short(v)) for k, v in self.args.items()))


def short(v):
    if isinstance(v, HW):
        return v.path.split(".")[-1]
    if isinstance(v, Num):
        return clip(t.show(v.term), 60)
    if isinstance(v, K):
        return repr(v.val)
    return repr(v)[:60]


def is_hw(v, name):
    return isinstance(v, HW) and v.path.split(".")[-1] == name


def const(v):
    return t.const_val(v.term) if isinstance(v, Num) and v.shape == () and not t._boolish(v.term) else None


def traces(evs, limit=64):
    """all linear sequences of vendor calls of an event tree; vendor loops become begin/end marks"""
    out = [[]]
    for e in evs:
        if e.kind == "hw":
            if e.name.split(".")[0] in IGNORED or e.name.split("(")[0] in IGNORED:
                continue
            for o in out:
                o.append(Call(e))
        elif e.kind == "hwloop":
            new = []
            for o in out:
                for s in traces(e.sub, limit):
                    new.append(o + [("loop", e.name, e.args)] + s + [("end", e.name)])
            out = new
        elif e.kind == "if":
            new = []
            for o in out:
                for s in traces(e.sub, limit) + traces(e.sub2, limit):
                    new.append(o + s)
            out = new
        elif e.kind in ("loop", "unknown"):
            inner = [x for s in traces(e.sub, limit) for x in s] if e.sub else []
            if e.kind == "unknown" or inner:
                raise Undecided("vendor calls in an unresolved %s" % ("loop" if e.kind == "loop" else "construct (%s)" % e.name))
        if len(out) > limit:
            raise Undecided("too many paths")
    return out


class Lab:
    """a world with vendor libraries and the controller classes"""

    def __init__(self, c, libs=LIBS):
        self.c = c
        self.w = w = c.world("f32", libs=libs)
        self.it = it = w.it
        it.st = w.base
        w.module(UTIL)
        self.base_cls = it.getattr(ModV(UTIL), "DMDControllerBase")
        self.cls = {n: it.getattr(ModV(UTIL), n + "Controller") for n in ("ALP", "Luxbeam")}
        self.img = [array(w, "im%d" % k, "bool", SH) for k in range(5)]
        self.st = it.st

    def make(self, vendor, **kw):
        kw = dict(kw)
        a = [K("192.168.0.10")] if vendor == "Luxbeam" else []
        return self.w.new(self.cls[vendor], *a, **kw)

    def images(self, n, off=0):
        if isinstance(n, tuple):        # the images of these numbers, repeated ones included
            return self.it.alloc(ListO([self.img[k] for k in n]))
        return self.it.alloc(ListO([self.img[(k + off) % 5] for k in range(n)]))

    def load(self, x, n, off=0):
        """n = None: load_single"""
        if n is None:
            return self.w.meth(x, "load_single", self.img[off % 5])
        return self.w.meth(x, "load_multiple", self.images(n, off))

    def opaque_calls(self, evs):
        return [x for tr in traces(evs) for x in tr if isinstance(x, Call)]

    def names(self, cls):
        """public attributes of a class and its bases in the package"""
        out = []
        for k in self.it.mro(cls):
            if getattr(k, "node", None) is not None:
                for f in k.node.body:
                    if isinstance(f, ast.FunctionDef) and f.name not in out:
                        out.append(f.name)
        return out

    def operation(self, x, name, style=0):
        """call a public method (or read a property) with abstract arguments"""
        it, w = self.it, self.w
        a = it.find_attr(it.get(x).cls, name)
        if isinstance(a, Prop):
            return it.getattr(x, name)
        sig = None
        for k in it.mro(it.get(x).cls):
            for f in (k.node.body if getattr(k, "node", None) is not None else []):
                if isinstance(f, ast.FunctionDef) and f.name == name and sig is None:
                    sig = f
        args, kw = [], {}
        ps = sig.args.posonlyargs + sig.args.args
        ps = ps[1:len(ps) - len(sig.args.defaults)]
        for p in ps:
            v = lit(7)
            if any(k in p.arg for k in ("states", "images", "imgs", "patterns")):
                v = self.images(2)
            elif any(k in p.arg for k in ("state", "image", "pattern", "hologram")):
                v = self.img[0]
            if style:
                kw[p.arg] = v
            else:
                args.append(v)
        return w.meth(x, name, *args, **kw)


LOADS = ("load_single", "load_multiple", "load_sequence", "Nx", "Ny", "fire_software_trigger", "number_image")
LIFE = ("__init__", "initialize", "is_initialized", "close", "__enter__", "__exit__", "__del__", "__repr__", "__str__")


def init_flag(c, lab, label, x, st, want):
    o = lab.w.run(lambda: lab.w.meth(x, "is_initialized"), st)
    if not o.ok:
        c.undecided(label, "is_initialized raises")
        return
    lab.it.st = o.st
    b = lab.it.truth(o.val)
    if b is t.T(want) or b is (t.TRUE if want else t.FALSE):
        c.ok(label)
    elif has_unknown(b):
        c.undecided(label, "flag unknown")
    else:
        c.fail(label, "is_initialized() is %s" % t.show(b), c.loc("DMDControllerBase.is_initialized"))


def c31(c):
    c.rule = "without a successful initialize since construction or close: every operation raises on every path, with no vendor call before the exception"
    lab = Lab(c)
    w, it = lab.w, lab.it

    def refuses(L, vendor, x, st):
        names = lab.names(lab.cls[vendor])
        for n in names:
            if n in LIFE or n.startswith("_"):
                continue
            for style in (0, 1):
                LL = "%s: %s%s" % (L, n, " (keyword arguments)" if style else "")

                def f():
                    o = w.run(lambda: lab.operation(x, n, style), st)
                    k = len(st.events)
                    sent = []
                    for s in ([o.st] if o.ok else []) + [s for s, _ in o.raised]:
                        sent += lab.opaque_calls(s.events[k:])
                    c.anchor = c.loc("%sController.%s" % (vendor, n))
                    if sent:
                        c.fail(LL, "sends %r to the hardware" % (sent[0],), sent[0].where)
                        return
                    if n not in LOADS:
                        c.ok(LL)
                    elif o.ok:
                        # reading a plain attribute of the vendor object is a query, too
                        c.raises(LL, o, "Exception")
                    elif not o.raised:
                        c.undecided(LL, "no result")
                    else:
                        c.ok(LL)
                c.group(LL, f)
    for vendor in ("ALP", "Luxbeam"):
        for inv in (False, True):
            tag = "%s invert=%s" % (vendor, inv)
            o = w.run(lambda: lab.make(vendor, invert=lit(inv)), lab.st)
            if not c.runs(tag + " constructor", o):
                continue
            x, st0 = o.val, o.st
            init_flag(c, lab, tag + " after construction", x, st0, False)
            refuses(tag + " new", vendor, x, st0)
            # initialization
            c.anchor = c.loc("%sController.initialize" % vendor)
            o = w.run(lambda: w.meth(x, "initialize"), st0)
            if not c.runs(tag + " initialize", o):
                continue
            st1 = o.st
            init_flag(c, lab, tag + " after initialize", x, st1, True)
            for n in ("load_single", "Nx", "Ny", "load_multiple", "number_image") + (("fire_software_trigger",) if vendor == "Luxbeam" else ()):
                r = w.run(lambda: lab.operation(x, n), st1)
                c.anchor = c.loc("%sController.%s" % (vendor, n))
                c.runs("%s initialized: %s is carried out" % (tag, n), r)
            # another controller is not initialized by it
            o2 = w.run(lambda: lab.make(vendor, invert=lit(inv)), st1)
            if o2.ok:
                init_flag(c, lab, tag + " second controller", o2.val, o2.st, False)
                if not inv:
                    refuses(tag + " second controller while the first is initialized", vendor, o2.val, o2.st)
            # failing initialization
            it.faults = {"hw"}
            o = w.run(lambda: w.meth(x, "initialize"), st0)
            it.faults = set()
            c.anchor = c.loc("%sController.initialize" % vendor)
            if not o.raised:
                c.undecided(tag + " failing initialize", "no vendor call found")
            for k, (s, e) in enumerate(o.raised):
                LL = "%s initialize fails at %s" % (tag, exc_text(e))
                init_flag(c, lab, LL, x, s, False)
                if not inv and (k % 3 == 0 or c.thorough):
                    refuses(LL, vendor, x, s)
            if o.ok:
                # no path returns normally after a failed call: every vendor call must have been made
                c.true(tag + " failures are reported", len(o.st.events) == len(st1.events), "a failing vendor call is ignored")
            # closing
            c.anchor = c.loc("%sController.close" % vendor)
            for hist, LL in (((), "closed"), ((None,), "closed after a load"), ((2,), "closed after a multiple load"),
                             (tuple(n for n in lab.names(lab.cls[vendor]) if n not in LIFE and not n.startswith("_") and w.run(lambda: lab.operation(x, n), st1).ok),
                              "closed after every operation")):
                def h():
                    for n in hist:
                        if isinstance(n, str):
                            lab.operation(x, n)
                        else:
                            lab.load(x, n)
                    w.meth(x, "close")
                o = w.run(h, st1)
                if not c.runs("%s %s" % (tag, LL), o):
                    continue
                init_flag(c, lab, "%s %s" % (tag, LL), x, o.st, False)
                if not inv or c.thorough:
                    refuses("%s %s" % (tag, LL), vendor, x, o.st)
                o2 = w.run(lambda: w.meth(x, "initialize"), o.st)
                if c.runs("%s %s, initialized again" % (tag, LL), o2):
                    init_flag(c, lab, "%s %s, initialized again" % (tag, LL), x, o2.st, True)


# ------------------------------------------------------------------------------------ C32
def image_forms(lab, refs, scaled):
    """normal forms of the ways to pass images to SeqPut, computed by the analysis itself"""
    it, w = lab.it, lab.w
    out = []
    call = it.lib.call_ext
    for pre in ("", "ravel"):
        for how in ("np.concatenate", "np.stack", "np.array"):
            def f():
                xs = []
                for r in refs:
                    v = r
                    if pre:
                        v = w.meth(v, "ravel")
                    xs.append(v)
                if len(xs) == 1 and how == "np.array":
                    v = xs[0]
                else:
                    v = call(it, how, [it.alloc(ListO(xs))], {})
                return it.num(it.binop("Mult", v, lit(scaled)))
            o = w.run(f, lab.st)
            if o.ok and o.val is not None and o.val.shape is not None:
                out.append(o.val)
    return out


def judge_image(c, lab, label, v, refs, scaled, where):
    it = lab.it
    n = it.num(v) if not isinstance(v, Num) else v
    if n is None:
        if isinstance(v, (Unk, Choice)) or v is None:
            c.undecided(label, "data is %r" % (v,))
        else:
            c.fail(label, "uploads %s" % short(v), where)
        return
    if has_unknown(n.term) or n.shape is None:
        c.undecided(label, "data involves %s" % has_unknown(n.term))
        return
    if n.dtype not in ("bool", "u8", "i32", "i64", "f32", "f64", "i8", "i16", "u16", "u32", "u64"):
        c.undecided(label, "data of type %s" % n.dtype)
        return
    if scaled == 255 and n.dtype in ("bool", "i8"):
        c.fail(label, "the type %s cannot hold the full range 0..255" % n.dtype, where)
        return
    for f in image_forms(lab, refs, scaled):
        if len(f.shape) == len(n.shape) and all(c.terms_equal(p, q)[0] for p, q in zip(n.shape, f.shape)):
            r, d = c.terms_equal(n.term, f.term)
            if r is None:
                c.undecided(label, d)
            elif r:
                c.ok(label)
            else:
                c.fail(label, "uploads other data than the given images: " + d, where)
            return
    if len(refs) > 1:
        # too few or too many images?
        tot = t.size(n.shape)
        if c.terms_equal(tot, len(refs) * NX * NY)[0] is False:
            c.fail(label, "uploads %s values for %d images of Ny*Nx" % (t.show(tot), len(refs)), where)
            return
    elif c.terms_equal(t.size(n.shape), NX * NY)[0] is False:
        c.fail(label, "uploads %s values for one image of Ny*Nx" % t.show(t.size(n.shape)), where)
        return
    c.undecided(label, "data layout %s" % showsh(n.shape))


def alp_load(c, lab, L, tr, refs, multiple):
    tr = [x for x in tr if isinstance(x, Call)]
    names = [x.name for x in tr]
    if any(x.set or x.extra for x in tr if x.name in SIGS):
        c.undecided(L, "unknown use of the vendor library")
        return
    first = lambda n: names.index(n) if n in names else None
    last = lambda n: len(names) - 1 - names[::-1].index(n) if n in names else None
    memory = [k for k, n in enumerate(names) if n in ("FreeSeq", "SeqAlloc", "SeqPut")]
    h = first("Halt")
    c.true(L + " halts the display first", h is not None and (not memory or h < memory[0]), "device memory is changed (%s) while the display runs" % (tr[memory[0]] if memory else ""),
           tr[memory[0]].where if memory else None)
    al = [k for k, n in enumerate(names) if n == "SeqAlloc"]
    if not c.true(L + " allocates once", len(al) == 1, "%d sequences are allocated" % len(al)):
        return
    A = tr[al[0]]
    nb = A.a("nbImg", Num(t.ONE, "py", "int"))
    k = const(nb)
    if k is None:
        c.undecided(L + " number of images", "announced number %s" % short(nb))
    else:
        c.true(L + " number of images", k == len(refs), "announces %s images instead of %d" % (k, len(refs)), A.where)
    bd = const(A.a("bitDepth", Num(t.ONE, "py", "int")))
    c.true(L + " bit depth", bd == 1, "binary images are allocated with bit depth %s" % bd, A.where)
    runs = [k for k, n in enumerate(names) if n == "Run"]
    if not c.true(L + " starts the display", len(runs) >= 1, "the display is not started"):
        return
    if len(runs) > 1:
        c.undecided(L + " starts the display", "started %d times" % len(runs))
    puts = [k for k, n in enumerate(names) if n == "SeqPut"]
    c.true(L + " display starts after the last upload", puts and runs[0] > puts[-1], "Run before the upload is complete", tr[runs[0]].where)
    c.true(L + " display not halted again", (last("Halt") or 0) < runs[-1], "the display is halted after it was started")
    c.true(L + " uploads after allocation", puts and puts[0] > al[0], "SeqPut before SeqAlloc")
    if not multiple:
        lp = tr[runs[-1]].a("loop")
        c.true(L + " keeps displaying", not (isinstance(lp, Num) and lp.term is t.FALSE), "the image is shown once only", tr[runs[-1]].where)
    # the data
    if len(puts) == 1 and tr[puts[0]].a("PicOffset") is None:
        judge_image(c, lab, L + " data", tr[puts[0]].a("imgData"), refs, 255, tr[puts[0]].where)
    else:
        seen = {}
        for k in puts:
            off = const(tr[k].a("PicOffset", Num(t.ZERO, "py", "int")))
            if off is None:
                c.undecided(L + " data", "position %s" % short(tr[k].a("PicOffset")))
                return
            seen.setdefault(int(off), []).append(tr[k])
        for j in range(len(refs)):
            if c.true("%s image %d uploaded once" % (L, j), len(seen.get(j, [])) == 1, "uploaded %d times" % len(seen.get(j, []))):
                judge_image(c, lab, "%s image %d" % (L, j), seen[j][0].a("imgData"), [refs[j]], 255, seen[j][0].where)
        c.true(L + " no other position", not [j for j in seen if not 0 <= j < len(refs)], "uploads to position outside the sequence")
    # modes: the last value set before Run, by this load
    mode = {}
    for k, x in enumerate(tr[:runs[0]]):
        if x.name in ("ProjControl", "DevControl", "SeqControl"):
            ct = x.a("controlType")
            if isinstance(ct, HW):
                mode[ct.path.split(".")[-1]] = (k, x.a("value"), x)
            else:
                c.undecided(L + " modes", "control type %s" % short(ct))

    def want(ctl, val, why, after=None):
        m = mode.get(ctl)
        if m is None:
            c.true("%s sets %s" % (L, ctl), False, "does not set %s: %s" % (ctl, why))
        elif not isinstance(m[1], HW):
            c.undecided("%s sets %s" % (L, ctl), "value %s" % short(m[1]))
        else:
            good = is_hw(m[1], val)
            c.true("%s sets %s" % (L, ctl), good, "sets %s to %s instead of %s" % (ctl, short(m[1]), val), m[2].where)
            if good and after is not None:
                c.true("%s sets %s for this sequence" % (L, ctl), m[0] > after, "set before the sequence is allocated, so it does not apply to it", m[2].where)
    want("ALP_PROJ_MODE", "ALP_SLAVE" if multiple else "ALP_MASTER", "an earlier %s leaves the other mode behind" % ("load_single" if multiple else "load_multiple"))
    want("ALP_BIN_MODE", "ALP_BIN_UNINTERRUPTED", "frames of a sequence are interrupted by resets", al[0])
    if multiple:
        want("ALP_TRIGGER_EDGE", "ALP_EDGE_RISING", "the edge is what an earlier program left")
        ti = [k for k, n in enumerate(names) if n == "SetTiming" and al[0] < k < runs[0]]
        c.true(L + " sets the timing of this sequence", bool(ti), "no SetTiming between SeqAlloc and Run")
        for k in ti:
            pt = tr[k].a("pictureTime")
            q = pt.args[0] if isinstance(pt, HW) and pt.args else None
            c.true(L + " picture time", q is not None and is_hw(q, "ALP_MIN_PICTURE_TIME") or isinstance(pt, Unk), "picture time is %s" % short(pt), tr[k].where)
            qi = [j for j, x in enumerate(tr) if x.name == "SeqInquire"]
            if qi and q is not None:
                c.true(L + " picture time of this sequence", qi[-1] > al[0], "the picture time is that of the previous sequence", tr[qi[-1]].where)
    for x in tr:
        if x.name == "ProjControl" and is_hw(x.a("controlType"), "ALP_PROJ_INVERSION"):
            c.fail(L + " leaves the inversion alone", "changes the inversion", x.where)


def lux_load(c, lab, L, tr, refs):
    tr = [x for x in tr if isinstance(x, Call)]
    if any(x.set or x.extra for x in tr if x.name in SIGS):
        c.undecided(L, "unknown use of the vendor library")
        return
    run = reset = None          # state of the sequencer; None: whatever it was
    stopped = False
    reg = {}
    imgs = {}
    started = None
    for k, x in enumerate(tr):
        if x.name == "set_sequencer_state":
            cmd, en = x.a("cmd"), x.a("enable")
            if is_hw(en, "ENABLE"):
                on = True
            elif is_hw(en, "DISABLE"):
                on = False
            else:
                c.undecided(L, "sequencer state %s" % short(en))
                return
            if is_hw(cmd, "SEQ_CMD_RUN"):
                run = on
                if on:
                    started = k
                    c.true(L + " sequencer not held in reset when started", reset is not True, "the sequencer is started while it is held in reset", x.where)
                else:
                    stopped = True
            elif is_hw(cmd, "SEQ_CMD_RESET"):
                reset = on
                if on:
                    reg["reset_at"] = k
            else:
                c.undecided(L, "sequencer command %s" % short(cmd))
        elif x.name == "set_sequencer_reg":
            c.true(L + " stopped before the number of images changes", run is False, "the register is written while the sequencer runs", x.where)
            r = const(x.a("reg_no"))
            if r is None:
                c.undecided(L, "register %s" % short(x.a("reg_no")))
                return
            reg[int(r)] = (x.a("reg_val"), x)
        elif x.name == "load_image":
            c.true(L + " stopped before memory is written", run is False, "an image is written while the sequencer runs", x.where)
            i = const(x.a("inum"))
            if i is None:
                c.undecided(L, "image number %s" % short(x.a("inum")))
                return
            imgs.setdefault(int(i), []).append(x)
        elif x.name in ("load_sequence",):
            c.true(L + " stopped before the program changes", run is False, "the program is replaced while the sequencer runs", x.where)
    c.true(L + " display started", run is True, "the sequencer is not running at the end")
    c.true(L + " sequencer restarted from the beginning", "reset_at" in reg and reset is False, "the sequencer is not reset, so that it goes on with the images of an earlier load")
    for j, ref in enumerate(refs):
        xs = imgs.get(j, [])
        if c.true("%s image %d" % (L, j), len(xs) == 1, "uploaded %d times" % len(xs), xs[-1].where if xs else None):
            judge_image(c, lab, "%s image %d data" % (L, j), xs[0].a("image"), [ref], True, xs[0].where)
    extra = [j for j in imgs if not 0 <= j < len(refs)]
    c.true(L + " no other position", not extra, "writes image number %s" % extra)
    if 0 not in reg:
        c.true(L + " number of images", False, "the number of images is not written to the sequencer")
    else:
        v, x = reg[0]
        k = const(v)
        if k is None:
            c.undecided(L + " number of images", "register value %s" % short(v))
        else:
            c.true(L + " number of images", k == len(refs), "announces %s images instead of %d" % (k, len(refs)), x.where)
    others = [k for k in reg if isinstance(k, int) and k != 0]
    c.true(L + " register of the program", not others, "writes register %s, which the program does not use" % others)


def sum_of(v):
    """names of the vendor constants a sum (or bitwise or) is made of, or None"""
    if not isinstance(v, HW):
        return None
    if v.path in ("opAdd", "opBitOr"):
        xs = [sum_of(a) for a in v.args]
        return sum(xs, []) if None not in xs else None
    return [v.path.split(".")[-1]] if not v.args else None


def lux_program(c, lab, tr):
    """the sequencer program shows the announced images in order, one per trigger"""
    L = "Luxbeam program"
    calls = [x for x in tr if isinstance(x, Call)]
    var = [x for x in calls if x.name == "assign_var_reg"]
    if len(var) != 1:
        c.undecided(L, "%d register variables" % len(var))
        return
    c.true(L + " register", const(var[0].a("regno")) == 0, "the program reads register %s, the loads write register 0" % short(var[0].a("regno")), var[0].where)
    loops = [(k, x) for k, x in enumerate(tr) if isinstance(x, tuple) and x[0] == "loop"]
    rng = [(k, x) for k, x in loops if x[1] == "range_loop"]
    if len(rng) != 1:
        c.undecided(L, "%d counting loops" % len(rng))
        return
    k0, lp = rng[0]
    k1 = next(k for k, x in enumerate(tr) if k > k0 and isinstance(x, tuple) and x[0] == "end" and x[1] == "range_loop")
    c.true(L + " repeats for ever", any(k < k0 and x[1] == "jump_loop" for k, x in loops), "the images are shown only once")
    a = lp[2]
    c.true(L + " counts the announced images", len(a) == 2 and const(a[0]) == 0 and isinstance(a[1], HW) and a[1].path.endswith("assign_var_reg()"),
           "the loop runs over (%s)" % ", ".join(short(v) for v in a))
    inner = [x for x in tr[k0 + 1:k1] if isinstance(x, Call)]
    nm = [x.name for x in inner if x.name in ("reset_global", "load_global", "trig")]
    c.true(L + " one picture per trigger", sorted(nm) == ["load_global", "reset_global", "trig"], "the loop body is %s" % nm)
    if sorted(nm) == ["load_global", "reset_global", "trig"]:
        c.true(L + " shows an image before loading the next", nm.index("reset_global") < nm.index("load_global"), "an image is overwritten before it is shown")
        ld = next(x for x in inner if x.name == "load_global")
        v = ld.a("inum")
        good = isinstance(v, HW) and v.path == "opAdd" and len(v.args) == 2 and any(const(q) == 1 for q in v.args) and any(isinstance(q, HW) and q.path.startswith("range_loop.") for q in v.args)
        c.true(L + " loads the next image", good, "loads image %s" % short(v), ld.where)
        tg = next(x for x in inner if x.name == "trig")
        c.true(L + " waits for a rising edge", is_hw(tg.a("mode"), "TRIG_MODE_POSITIVE_EDGE"), "waits for trigger mode %s" % short(tg.a("mode")), tg.where)
        src = sum_of(tg.a("source"))
        want = ["TRIG_SOURCE_ELECTRICAL", "TRIG_SOURCE_OPTICAL", "TRIG_SOURCE_SOFTWARE"]
        if src is None:
            c.undecided(L + " trigger source", "waits for source %s" % short(tg.a("source")))
        else:
            c.true(L + " trigger source", sorted(src) == want, "advances on the sources %s" % sorted(src), tg.where)
    before = [x for x in tr[:k0] if isinstance(x, Call) and x.name == "load_global"]
    c.true(L + " starts with image 0", len(before) == 1 and const(before[0].a("inum")) == 0, "loads %s before the loop" % [short(x.a("inum")) for x in before])
    run = None
    loaded = False
    for x in calls:
        if x.name == "set_sequencer_state" and is_hw(x.a("cmd"), "SEQ_CMD_RUN"):
            run = is_hw(x.a("enable"), "ENABLE")
        if x.name == "load_sequence":
            loaded = True
            c.true(L + " replaced while stopped", run is False, "the program is replaced while the sequencer runs", x.where)
    c.true(L + " is sent", loaded, "the program is not sent to the device")


def long_list(c):
    """a number of images beyond every limit up to 600 that the module names"""
    import ast
    ks = [x.value for x in ast.walk(c.model.tree("pySLM2.util.controller")) if isinstance(x, ast.Constant) and type(x.value) is int and 0 < x.value <= 600]
    return max(ks + [256]) + 3


def c32(c):
    c.rule = "typestate of the display over the vendor calls of a load: stop, announce, upload each image once in order, set the modes, start"
    lab = Lab(c)
    w, it = lab.w, lab.it
    sizes = (None, 1, 2, 3) if not c.thorough else (None, 1, 2, 3, 4, 5)
    hists = [()] + [(a,) for a in (None, 1, 2, 3)] + [(a, b) for a in (None, 2) for b in (None, 3)]
    if c.thorough:
        hists += list(itertools.product((None, 1, 3), repeat=3))
    for vendor in ("ALP", "Luxbeam"):
        for inv in (False, True):
            o = w.run(lambda: (lambda x: (w.meth(x, "initialize"), x)[1])(lab.make(vendor, invert=lit(inv))), lab.st)
            if not c.runs("%s invert=%s initialize" % (vendor, inv), o):
                continue
            x, st = o.val, o.st
            if vendor == "Luxbeam" and not inv:
                c.anchor = c.loc("LuxbeamController.initialize")
                c.group("Luxbeam program", lambda: [lux_program(c, lab, tr) for tr in traces(st.events)])
            for hist in hists:
                if inv and len(hist) > 1:
                    continue
                h = w.run(lambda: [lab.load(x, n, 2) for n in hist], st)
                if not h.ok:
                    continue
                for n in sizes + ((long_list(c),) if not hist and not inv else ()) + (((0, 0), (0, 1, 0), (1, 1, 0), (2, 2)) if len(hist) < 2 or c.thorough else ()):
                    L = "%s%s after %s: %s" % (vendor, " inverted" if inv else "", list("single" if q is None else q for q in hist) or "initialize",
                                               "load_single" if n is None else "load_multiple of %s" % (n if isinstance(n, int) else "images %s" % (n,)))
                    c.anchor = c.loc("%sController.%s" % (vendor, "load_single" if n is None else "load_multiple"))

                    def f():
                        r = w.run(lambda: lab.load(x, n), h.st)
                        if not c.runs(L, r):
                            return
                        refs = [lab.img[k % 5] for k in (n if isinstance(n, tuple) else range(1 if n is None else n))]
                        it.st = r.st
                        for tr in traces(r.st.events[len(h.st.events):]):
                            if vendor == "ALP":
                                alp_load(c, lab, L, tr, refs, n is not None)
                            else:
                                lux_load(c, lab, L, tr, refs)
                    c.group(L, f)


# ------------------------------------------------------------------------------------ C33
def memory(c, L, tr):
    """sequence memory along a trace; live sequences at the end"""
    live = 0
    for x in tr:
        if not isinstance(x, Call):
            continue
        if x.name == "SeqAlloc":
            c.true(L + " frees before allocating", live == 0, "a sequence is allocated while another one is still held", x.where)
            live += 1
        elif x.name == "FreeSeq":
            c.true(L + " frees what is held", live > 0, "a sequence is released that is not (or no longer) held", x.where)
            live = max(0, live - 1)
    return live


EXCS = ("ValueError", "AssertionError", "RuntimeError", "OSError", "StopIteration", "KeyboardInterrupt", "SystemExit")


def exit_args(it, exc):
    """arguments of __exit__ (exc: '' for none, the name of an exception, or anything else for an unknown one)"""
    if not exc:
        return [NONE, NONE, NONE]
    if exc in EXCS:
        return [Ext("builtins." + exc), ExcV(exc, (), it.lib.exc_bases(exc)), HW("exc_tb")]
    return [HW("exc_type"), HW("exc_val"), HW("exc_tb")]


def closing(c, L, tr, live):
    tr = [x for x in tr if isinstance(x, Call)]
    names = [x.name for x in tr]
    seq = [k for k, n in enumerate(names) if n == "FreeSeq"]
    h, f = [k for k, n in enumerate(names) if n == "Halt"], [k for k, n in enumerate(names) if n == "Free"]
    c.true(L + " halts the display", bool(h), "the display is not halted")
    c.true(L + " releases the device", len(f) == 1, "the device is released %d times" % len(f))
    c.true(L + " releases the sequence", len(seq) == (1 if live else 0), "%d releases of the sequence memory, %d held" % (len(seq), live))
    if h and f:
        c.true(L + " order", h[0] < (seq[0] if seq else f[0]) and (not seq or seq[-1] < f[0]) and h[0] < f[0], "order of release is %s" % [n for n in names if n in ("Halt", "FreeSeq", "Free")])


def c33(c):
    c.rule = "resource typestate: allocate only when nothing is held, release exactly what is held, on every path including failing vendor calls"
    lab = Lab(c)
    w, it = lab.w, lab.it
    deep = 4 if c.thorough else 3
    for inv in (False, True):
        o = w.run(lambda: (lambda x: (w.meth(x, "initialize"), x)[1])(lab.make("ALP", invert=lit(inv))), lab.st)
        if not c.runs("initialize", o):
            continue
        x, st = o.val, o.st
        n0 = len(st.events)
        for k in range(deep + 1):
            if inv and k > 1:
                continue
            for hist in itertools.product((None, 2), repeat=k):
                L = "ALP loads %s" % ["single" if q is None else q for q in hist]
                c.anchor = c.loc("ALPController.close")

                def f():
                    r = w.run(lambda: [lab.load(x, n) for n in hist], st)
                    if not c.runs(L, r):
                        return
                    r2 = w.run(lambda: w.meth(x, "close"), r.st)
                    if not c.runs(L + " close", r2):
                        return
                    for tr in traces(r2.st.events[n0:]):
                        live = memory(c, L, tr)
                        c.true(L + " nothing held after close", live == 0, "%d sequences are still held after close" % live)
                    for tr0 in traces(r.st.events[n0:]):
                        live = len([y for y in tr0 if isinstance(y, Call) and y.name == "SeqAlloc"]) - len([y for y in tr0 if isinstance(y, Call) and y.name == "FreeSeq"])
                        for tr in traces(r2.st.events[len(r.st.events):]):
                            closing(c, L + " close", tr, live)
                    # use again after closing
                    r3 = w.run(lambda: (w.meth(x, "initialize"), lab.load(x, None), w.meth(x, "close")), r2.st)
                    if r3.ok:
                        for tr in traces(r3.st.events[n0:]):
                            memory(c, L + " then used again", tr)
                    # with block
                    for exc in ("", "some exception") + (EXCS if k < 2 else ()):
                        LL = L + " with block" + (" left by " + exc if exc else "")
                        c.anchor = c.loc("ALPController.__exit__")
                        args = exit_args(it, exc)

                        def g():
                            y = w.meth(x, "__enter__")
                            for n in hist:
                                lab.load(x, n)
                            v = w.meth(x, "__exit__", *args)
                            return y, v
                        r4 = w.run(g, st)
                        if not c.runs(LL, r4):
                            continue
                        y, v = r4.val
                        it.st = r4.st
                        c.true(LL + " target", isinstance(y, Ref) and y.oid == x.oid, "the with statement does not give the controller")
                        if exc:
                            tv = it.truth(v)
                            c.true(LL + " is passed on", tv is t.FALSE or has_unknown(tv), "__exit__ suppresses the exception")
                        init_flag(c, lab, LL + " closed", x, r4.st, False)
                        for tr in traces(r4.st.events[n0:]):
                            live = memory(c, LL, tr)
                            c.true(LL + " nothing held", live == 0, "%d sequences are still held after the with block" % live)
                            c.true(LL + " device released", [q.name for q in tr if isinstance(q, Call)].count("Free") == 1, "the device is not released once")
                c.group(L, f)
        # failing vendor calls
        for hist in ((None,), (2,), (None, None), (None, 2), (2, None)):
            if inv:
                continue
            L = "ALP loads %s" % ["single" if q is None else q for q in hist]

            def f2():
                pre = w.run(lambda: [lab.load(x, n) for n in hist[:-1]], st)
                if not pre.ok:
                    return
                it.faults = {"hw"}
                r = w.run(lambda: lab.load(x, hist[-1]), pre.st)
                it.faults = set()
                for s, e in r.raised:
                    if e.name != "Fault":
                        continue
                    LL = "%s failing at %s" % (L, exc_text(e))
                    for what, g in (("close", lambda: w.meth(x, "close")), ("with block", lambda: w.meth(x, "__exit__", HW("exc_type"), HW("exc_val"), HW("exc_tb"))),
                                    ("another load and close", lambda: (lab.load(x, None), w.meth(x, "close")))):
                        r2 = w.run(g, s)
                        if not r2.ok:
                            c.undecided(LL + " then " + what, "raises %s" % [q.name for _, q in r2.raised])
                            continue
                        for tr in traces(r2.st.events[n0:]):
                            live = memory(c, LL + " then " + what, tr)
                            c.true("%s then %s: nothing held" % (LL, what), live == 0, "%d sequences are still held" % live)
            c.anchor = c.loc("ALPController.load_single")
            c.group(L + " with failures", f2)


# ------------------------------------------------------------------------------------ C34
def c34(c):
    c.rule = "import and construction for each set of installed vendor libraries; arguments and inversion reach the vendor library exactly once"
    for libs in ((), ("ALP4",), ("Luxbeam",), LIBS):
        tag = "installed: %s" % (", ".join(libs) or "none")
        w = c.world("f32", libs=libs)
        it = w.it
        it.st = w.base
        c.anchor = "pySLM2/util/controller.py"
        o = w.run(lambda: it.import_module(UTIL), w.base)
        if not c.runs("%s: import pySLM2.util" % tag, o):
            continue
        sent = [x for tr in traces(o.st.events[len(w.base.events):]) for x in tr]
        c.true("%s: import sends nothing" % tag, not sent, "import calls %s" % sent[:1])
        for vendor, lib in (("ALP", "ALP4"), ("Luxbeam", "Luxbeam")):
            for inv in (False, True):
                L = "%s: %sController(invert=%s)" % (tag, vendor, inv)
                c.anchor = c.loc("%sController.__init__" % vendor)

                def f():
                    cls = it.getattr(ModV(UTIL), vendor + "Controller")
                    a = [K("192.168.0.10")] if vendor == "Luxbeam" else []
                    return w.new(cls, *a, invert=lit(inv))
                r = w.run(f, o.st)
                if lib not in libs:
                    c.raises(L, r, "ModuleNotFoundError")
                else:
                    c.runs(L, r)
    lab = Lab(c)
    w, it = lab.w, lab.it
    INV = P(t.bool_atom("inv"), "bool")
    for vendor in ("ALP", "Luxbeam"):
        c.anchor = c.loc("%sController.__init__" % vendor)
        variants = [({}, {}), ({"invert": lit(True)}, {}), ({"invert": lit(False)}, {}), ({"invert": INV}, {})]
        if vendor == "ALP":
            variants += [({"version": K("4.1")}, {}), ({"version": K("4.3")}, {}), ({"version": K("4.4")}, {}), ({"version": K("5")}, {}), ({"version": K("4.2"), "invert": lit(True)}, {})]
        else:
            variants += [({"timeout": P(S("tmo", "pos"))}, {}), ({"timeout": lit(3), "invert": lit(True)}, {})]
        for kw, _ in variants:
            L = "%s(%s)" % (vendor, ", ".join("%s=%s" % (k, short(v)) for k, v in kw.items()))

            def f():
                r = w.run(lambda: lab.make(vendor, **kw), lab.st)
                if not c.runs(L, r):
                    return
                x = r.val
                it.st = r.st
                inv = kw.get("invert", lit(False))
                for tr in traces(r.st.events[len(lab.st.events):]):
                    con = [y for y in tr if isinstance(y, Call) and y.name in ("ALP4", "Luxbeam")]
                    if not c.true(L + " opens one connection", len(con) == 1, "%d vendor objects are made" % len(con)):
                        continue
                    k = con[0]
                    if vendor == "ALP":
                        arg(c, w, L + " version", k.a("version"), kw.get("version", K("4.3")), k.where)
                        c.true(L + " constructor arguments", k.a("libDir") is None, "another library directory")
                    else:
                        arg(c, w, L + " ip", k.a("dmd_ip"), K("192.168.0.10"), k.where)
                        arg(c, w, L + " inversion", k.a("inverse", lit(False)), inv, k.where)
                        arg(c, w, L + " timeout", k.a("timeout", NONE), kw.get("timeout", NONE), k.where)
                c.anchor = c.loc("%sController.initialize" % vendor)
                r1 = w.run(lambda: w.meth(x, "initialize"), r.st)
                if not c.runs(L + " initialize", r1):
                    return
                conds = ((t.TRUE, False), (t.FALSE, False)) if inv is INV else ((t.TRUE, True),)
                if vendor == "ALP":
                    def count(evs, val):
                        n = 0
                        for e in evs:
                            if e.kind == "if":
                                g = t.subst(e.cond, {atom_of(INV.term): t.TRUE if val else t.FALSE}) if val is not None else e.cond
                                if g is t.TRUE:
                                    n += count(e.sub, val)
                                elif g is t.FALSE:
                                    n += count(e.sub2, val)
                                else:
                                    raise Undecided("inversion under condition %s" % t.show(g))
                            elif e.kind == "hw":
                                q = Call(e)
                                if q.name == "ProjControl" and is_hw(q.a("controlType"), "ALP_PROJ_INVERSION"):
                                    if is_hw(q.a("value"), "ALP_ENABLE"):
                                        n += 1
                                    elif not is_hw(q.a("value"), "ALP_DISABLE") and not is_hw(q.a("value"), "ALP_DEFAULT"):
                                        raise Undecided("inversion value %s" % short(q.a("value")))
                            elif e.kind in ("loop", "unknown"):
                                raise Undecided("unresolved construct")
                        return n
                    vals = (True, False) if inv is INV else (None,)
                    for val in vals:
                        wantv = val if val is not None else (it.truth(inv) is t.TRUE)
                        for hist in ((), (None,), (2,), (None, 2, None)):
                            r2 = w.run(lambda: [lab.load(x, n) for n in hist], r1.st)
                            if not r2.ok:
                                continue
                            n = count(r2.st.events[len(lab.st.events):], val)
                            c.true("%s inversion requested=%s after loads %s" % (L, wantv, list(hist)), n == (1 if wantv else 0), "the inversion is enabled %d times" % n, c.loc("ALPController.initialize"))
                        for k_, ev in enumerate(r1.st.events):
                            pass
                    for tr in traces(r1.st.events[len(r.st.events):]):
                        nm = [y.name for y in tr if isinstance(y, Call)]
                        if "ProjControl" in nm:
                            c.true(L + " inversion after Initialize", "Initialize" in nm and nm.index("Initialize") < nm.index("ProjControl"), "the inversion is set before the device is opened")
                else:
                    for tr in traces(r1.st.events[len(r.st.events):]):
                        for y in tr:
                            if isinstance(y, Call) and "inver" in y.name.lower():
                                c.undecided(L + " inversion", "call of %s" % y.name)
                # images are not inverted in software
                for n in (None, 2):
                    c.anchor = c.loc("%sController.%s" % (vendor, "load_single" if n is None else "load_multiple"))
                    r2 = w.run(lambda: lab.load(x, n), r1.st)
                    LL = "%s %s" % (L, "load_single" if n is None else "load_multiple")
                    if not c.runs(LL, r2):
                        continue
                    refs = lab.img[:1 if n is None else n]
                    it.st = r2.st
                    for tr in traces(r2.st.events[len(r1.st.events):]):
                        up = [y for y in tr if isinstance(y, Call) and y.name in ("SeqPut", "load_image")]
                        if vendor == "ALP":
                            if len(up) == 1:
                                judge_image(c, lab, LL + " data", up[0].a("imgData"), refs, 255, up[0].where)
                            elif len(up) == len(refs):
                                for y, rf in zip(up, refs):
                                    judge_image(c, lab, LL + " data", y.a("imgData"), [rf], 255, y.where)
                        elif len(up) == len(refs):
                            byi = {const(y.a("inum")): y for y in up}
                            for j, rf in enumerate(refs):
                                if j in byi:
                                    judge_image(c, lab, "%s data %d" % (LL, j), byi[j].a("image"), [rf], True, byi[j].where)
            c.group(L, f)


def atom_of(b):
    return next(iter(t.all_atoms(b)))


def arg(c, w, label, got, want_, where):
    it = w.it
    if isinstance(got, (Unk, Choice)):
        c.undecided(label, "value is %r" % (got,))
    elif isinstance(want_, K):
        c.true(label, isinstance(got, K) and got.val == want_.val, "%s instead of %r" % (short(got), want_.val), where)
    elif isinstance(got, Num):
        g, s = got.term, it.num(want_).term
        r, d = c.terms_equal(g, s)
        if r is None:
            c.undecided(label, d)
        else:
            c.true(label, r, d, where)
    else:
        c.fail(label, "%s instead of %s" % (short(got), short(want_)), where)


# ------------------------------------------------------------------------------------ C37
def drawn(c, w, L, o, n0, num_text, nx, ny):
    """judge the picture made between two states; nx, ny: values"""
    it = w.it
    it.st = o.st
    evs = o.st.events[n0:]
    pil = [Call(e) for e in evs if e.kind == "hw" and e.name.startswith("PIL")]
    if any(e.kind in ("if", "loop", "unknown") for e in evs):
        c.undecided(L, "unresolved construct")
        return
    new = [x for x in pil if x.name == "new"]
    if len(new) != 1:
        c.undecided(L, "%d images are created" % len(new))
        return
    size = [x for x in new[0].ev.args if isinstance(x, Tup)] + [v for k, v in new[0].ev.kwargs if k == "size"]
    fonts = [x for x in pil if x.name in ("truetype", "load_default")]
    texts = [x for x in pil if x.name == "text"]
    if len(size) != 1 or len(size[0].items) != 2:
        c.undecided(L, "size of the image")
        return

    def eqv(label, got, want_, why):
        g, s = it.num(got), it.num(want_)
        if g is not None and s is not None:
            r, d = c.terms_equal(g.term, s.term)
            if r is None:
                c.undecided(label, d)
            else:
                c.true(label, r, why + ": " + d, new[0].where)
        elif isinstance(got, HW) and isinstance(want_, HW):
            from sa.lib import hwkey
            c.true(label, hwkey(got) == hwkey(want_), "%s: %s instead of %s" % (why, short(got), short(want_)), new[0].where)
        else:
            c.undecided(label, "%s, %s" % (short(got), short(want_)))
    eqv(L + " width", size[0].items[0], nx, "width of the image")
    eqv(L + " height", size[0].items[1], ny, "height of the image")
    if c.true(L + " one text", len(texts) == 1, "%d texts are drawn" % len(texts)):
        a = list(texts[0].ev.args) + [v for k, v in texts[0].ev.kwargs if k == "text"]
        s = a[1] if len(texts[0].ev.args) > 1 else a[-1] if a else None
        if isinstance(s, K):
            c.true(L + " text", s.val == num_text, "draws %r instead of %r" % (s.val, num_text), texts[0].where)
        else:
            c.undecided(L + " text", "text %s" % short(s))
        fill = a[2] if len(texts[0].ev.args) > 2 else dict(texts[0].ev.kwargs).get("fill")
        k = const(fill) if fill is not None else None
        if k is not None:
            c.true(L + " visible", k != 0, "the text is drawn in the background colour", texts[0].where)
        bg = new[0].ev.args[2] if len(new[0].ev.args) > 2 else dict(new[0].ev.kwargs).get("color")
        if bg is not None and const(bg) is not None and k is not None:
            c.true(L + " visible on the background", (const(bg) != 0) != (k != 0) or const(bg) == 0, "text and background have the same colour", new[0].where)
        f = dict(texts[0].ev.kwargs).get("font")
        if fonts and len(fonts) == 1:
            sz = dict(fonts[0].ev.kwargs).get("size", fonts[0].ev.args[1] if len(fonts[0].ev.args) > 1 else None)
            half = w.run(lambda: it.binop("FloorDiv", ny, lit(2)), o.st)
            it.st = o.st
            if sz is None:
                c.fail(L + " font size", "the font has a fixed size", fonts[0].where)
            elif isinstance(sz, Num) or isinstance(sz, HW):
                eqv(L + " font size", sz, half.val, "size of the font")
            else:
                c.undecided(L + " font size", short(sz))
            if f is None:
                c.fail(L + " font used", "the text is drawn with the default font", texts[0].where)
        else:
            c.undecided(L + " font", "%d fonts" % len(fonts))
    n = it.num(o.val)
    if n is None:
        if isinstance(o.val, K):
            c.fail(L + " result", "the result is %r" % (o.val,))
        elif isinstance(nx, HW) or isinstance(ny, HW):
            c.true(L + " result", it.num(o.val) is None, "")      # the size is known to the hardware only
        else:
            c.undecided(L + " result", "result is %s" % short(o.val))
        return
    c.true(L + " boolean", n.dtype == "bool", "type %s instead of bool" % n.dtype)
    if n.shape is not None and len(n.shape) == 2:
        for p, q, what in ((n.shape[0], it.num(ny), "rows"), (n.shape[1], it.num(nx), "columns")):
            if q is not None:
                r, d = c.terms_equal(p, q.term)
                if r is None:
                    c.undecided(L + " " + what, d)
                else:
                    c.true(L + " " + what, r, d)
    elif n.shape is not None:
        c.fail(L + " shape", "shape %s" % showsh(n.shape))
    im = [a for a in t.all_atoms(n.term) if a.name == "image"]
    if len(im) == 1 and n.dtype == "bool":
        r, d = c.terms_equal(n.term, t.from_atom(im[0]) if not t._boolish(n.term) else t.bool_atom("image", (), im[0].attrs, im[0].shape))
        if r is None:
            c.undecided(L + " the drawing itself", d)
        else:
            c.true(L + " the drawing itself", r, "the array is not the drawing: " + d)


def c37(c):
    c.rule = "number_image: one drawing of str(i), size (Nx, Ny), font size Ny//2, returned as a new boolean (Ny, Nx) array"
    w = c.world("f32", libs=LIBS)
    it = w.it
    it.st = w.base
    w.module(UTIL)
    st = it.st
    n0 = len(st.events)
    nx, ny = P(NX, "int"), P(NY, "int")
    fn = it.getattr(ModV(UTIL), "number_image")
    for i, dt in [(i, None) for i in (0, 7, 12, 345, -3, 1234, 65535, 1234567)] + [(5, "i64"), (41, "i32"), (200, "u8")]:
        for kw in (False, True) if dt is None else (False,):
            L = "number_image(%s)%s" % ("NumPy %s %d" % (dt, i) if dt else i, " by keyword" if kw else "")
            num = Num(t.num(i), "np", dt) if dt else lit(i)
            c.anchor = c.loc("number_image")

            def f():
                o = w.run(lambda: w.call(fn, num, Nx=nx, Ny=ny) if kw else w.call(fn, num, nx, ny), st)
                if c.runs(L, o):
                    drawn(c, w, L, o, n0, str(i), nx, ny)
                    # fresh
                    o2 = w.run(lambda: w.call(fn, num, nx, ny), o.st)
                    if o2.ok and isinstance(o.val, Ref) and isinstance(o2.val, Ref):
                        a, b = o2.st.heap.get(o.val.oid), o2.st.heap.get(o2.val.oid)
                        same_buf = o.val.oid == o2.val.oid or isinstance(a, ArrO) and isinstance(b, ArrO) and a.buf == b.buf
                        c.true(L + " fresh array", not same_buf, "two calls return the same array")
            c.group(L, f)
    lab = Lab(c)
    w, it = lab.w, lab.it
    for vendor in ("ALP", "Luxbeam"):
        L = "%sController.number_image" % vendor
        c.anchor = c.loc(L)

        def g():
            r = w.run(lambda: (lambda x: (w.meth(x, "initialize"), x)[1])(lab.make(vendor)), lab.st)
            if not c.runs(L + " set-up", r):
                return
            x = r.val
            r1 = w.run(lambda: (w.get(x, "Nx"), w.get(x, "Ny")), r.st)
            if not c.runs(L + " size", r1):
                return
            vx, vy = r1.val
            if vendor == "ALP":
                for v, n in ((vx, "ALP_DEV_DISPLAY_WIDTH"), (vy, "ALP_DEV_DISPLAY_HEIGHT")):
                    c.true("%s size is %s" % (L, n), isinstance(v, HW) and v.args and is_hw(v.args[0], n), "the size is %s" % short(v))
            else:
                for v, n in ((vx, "cols"), (vy, "rows")):
                    c.true("%s size is %s" % (L, n), isinstance(v, HW) and v.path.endswith("." + n), "the size is %s" % short(v))
            for num in (42, 7, 1234):
                r2 = w.run(lambda: w.meth(x, "number_image", lit(num)), r.st)
                if not c.runs("%s(%d)" % (L, num), r2):
                    return
                if vendor == "Luxbeam":
                    drawn(c, w, L, r2, len(r.st.events), str(num), vx, vy)
                else:
                    # each reading of the size is a new answer of the hardware
                    it.st = r2.st
                    evs = r2.st.events[len(r.st.events):]
                    new = [Call(e) for e in evs if e.kind == "hw" and e.name == "PIL.Image.new()"]
                    sz = [q for q in (new[0].ev.args if new else ()) if isinstance(q, Tup)]
                    if len(new) != 1 or len(sz) != 1:
                        c.undecided(L, "no single image")
                        return
                    for v, n in zip(sz[0].items, ("ALP_DEV_DISPLAY_WIDTH", "ALP_DEV_DISPLAY_HEIGHT")):
                        c.true("%s uses %s" % (L, n), isinstance(v, HW) and v.args and is_hw(v.args[0], n), "uses %s" % short(v))
                    tx = [Call(e) for e in evs if e.kind == "hw" and e.name.endswith(".text()")]
                    c.true(L + " text", len(tx) == 1 and len(tx[0].ev.args) > 1 and isinstance(tx[0].ev.args[1], K) and tx[0].ev.args[1].val == str(num), "does not draw the number")
        c.group(L, g)


VT = "Typestate analysis of the sequence of vendor-library calls: each public operation of each controller is interpreted abstractly (all paths), vendor calls are recorded symbolically. "
CHECKS = {
    "C31": Check(c31, VT + "Every public operation is tried in the states new, initialization failed at each vendor call, closed; exceptional paths at each vendor call are followed.",
                 ["the vendor libraries have the interface used by the present code (ALP4lib, Luxbeam)"]),
    "C32": Check(c32, VT + "Loads of 1 to 3 images (thorough 5) after every history of up to two (thorough three) earlier loads.", ["the vendor libraries behave as documented"]),
    "C33": Check(c33, VT + "Histories of up to 3 (thorough 4) loads, each vendor call failing in turn, close and with blocks.", ["the vendor libraries behave as documented"]),
    "C34": Check(c34, VT + "All four combinations of installed vendor libraries.", ["an absent library raises ModuleNotFoundError on import"]),
    "C37": Check(c37, "Abstract interpretation; drawing commands to PIL are recorded symbolically.", ["PIL draws what it is told to draw"]),
}
