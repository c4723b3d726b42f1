"""C36: exports, public signatures, call sites."""
import builtins
import symtable
from .fix import *
from .api_table import TABLE

EXTRA = {"pySLM2": ("BACKEND",), "pySLM2.util": ()}


class Sig:
    def __init__(self, f, skip_first):
        a = f.args
        ps = [p.arg for p in a.posonlyargs + a.args]
        self.npos_only = len(a.posonlyargs)
        nd = len(a.defaults)
        self.req = ps[:len(ps) - nd] if nd else list(ps)
        self.pos = ps
        if skip_first:
            self.first = ps[:1]
            if not ps and not a.vararg:
                self.bad_self = True
            self.pos, self.req = ps[1:], [p for p in self.req if p != (ps[0] if ps else None)]
        self.kwonly = [p.arg for p in a.kwonlyargs]
        self.kwreq = [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        self.var, self.kw = a.vararg is not None, a.kwarg is not None
        self.node = f

    def bind(self, call):
        """None if the call fits, else what is wrong"""
        star = any(isinstance(x, ast.Starred) for x in call.args)
        dstar = any(k.arg is None for k in call.keywords)
        n = len([x for x in call.args if not isinstance(x, ast.Starred)])
        if n > len(self.pos) and not self.var:
            return "%d positional arguments for %d parameters" % (n, len(self.pos))
        given = set(self.pos[:n])
        for k in call.keywords:
            if k.arg is None:
                continue
            if k.arg in given and not star:
                return "argument %s is given twice" % k.arg
            if k.arg not in self.pos and k.arg not in self.kwonly and not self.kw:
                return "unexpected argument %s" % k.arg
            given.add(k.arg)
        if not star and not dstar:
            miss = [p for p in self.req + self.kwreq if p not in given]
            if miss:
                return "missing argument %s" % ", ".join(miss)
        return None


def decorators(f):
    return [ast.unparse(d.func if isinstance(d, ast.Call) else d).split(".")[-1] for d in f.decorator_list]


KNOWN = {"property", "setter", "staticmethod", "classmethod", "function", "lru_cache", "cache", "cached_property", "abstractmethod", "_check_initialization", "wraps", "override"}


class Table:
    """classes and functions of the package as the import graph resolves them"""

    def __init__(self, c, w):
        self.c, self.w, self.it = c, w, w.it
        self.subs = {}

    def defs(self, cls, name, after=None):
        """(owner, FunctionDef) of a method in the order of the MRO"""
        m = self.it.mro(cls)
        if after is not None:
            i = next((i for i, k in enumerate(m) if same(k, after)), -1)
            m = m[i + 1:]
        for k in m:
            if isinstance(k, ClsV) and k.node is not None:
                fs = [f for f in k.node.body if isinstance(f, ast.FunctionDef) and f.name == name and not any("setter" in ast.unparse(d) for d in f.decorator_list)]
                if fs:
                    return k, fs[-1]
                if any(name in names(s) for s in k.node.body):
                    return k, None
            elif not isinstance(k, ClsV):
                if not (isinstance(k, Ext) and k.path.split(".")[-1] == "object"):
                    return k, None
        return None

    def opaque(self, cls):
        """has bases outside the package, or dynamic attributes"""
        for k in self.it.mro(cls):
            if not isinstance(k, ClsV):
                if not (isinstance(k, Ext) and k.path.split(".")[-1] == "object"):
                    return True
            elif k.node is not None:
                for f in ast.walk(k.node):
                    if isinstance(f, ast.FunctionDef) and f.name in ("__getattr__", "__getattribute__"):
                        return True
                    if isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id in ("setattr", "vars"):
                        return True
                    if isinstance(f, ast.Attribute) and f.attr == "__dict__":
                        return True
                if k.node.keywords or k.node.decorator_list:
                    return True
        return False

    def has(self, cls, name):
        if self.defs(cls, name) is not None or name.startswith("__"):
            return True
        for k in self.it.mro(cls):
            if isinstance(k, ClsV) and k.node is not None:
                for x in ast.walk(k.node):
                    if isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Store):
                        return True
        return self.it.find_attr(cls, name) is not None

    def sig(self, f, method):
        d = decorators(f)
        if any(x not in KNOWN for x in d):
            return None
        return Sig(f, method and "staticmethod" not in d)


def names(s):
    """names bound by a statement of a class body"""
    if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
        return {s.name}
    out = set()
    for x in ast.walk(s):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
    return out


class Scope:
    """resolution of expressions in one file"""

    def __init__(self, tab, modname, tree, path, parent=None, cls=None, fn=None):
        self.tab, self.it, self.mod, self.tree, self.path = tab, tab.it, modname, tree, path
        self.parent, self.cls, self.fn = parent, cls, fn
        self.vars = {}

    def lookup(self, name):
        s = self
        while s is not None:
            if name in s.vars:
                return s.vars[name]
            s = s.parent
        if self.mod is not None:
            fr = self.tab.globals(self.mod)
            if fr is not None and name in fr:
                return wrap(fr[name])
        return None

    def resolve(self, e):
        """('mod', path) | ('cls', ClsV) | ('inst', ClsV) | ('fn', FunctionDef, method) | ('super', cls) | None"""
        it = self.it
        if isinstance(e, ast.Name):
            return self.lookup(e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve(e.value)
            if b is None:
                return None
            if b[0] == "mod":
                g = self.tab.globals(b[1])
                if g is not None:
                    return wrap(g[e.attr]) if e.attr in g else ("nothing", "%s.%s" % (b[1], e.attr)) if not self.tab.c.model.has(b[1] + "." + e.attr) else ("mod", b[1] + "." + e.attr)
                return None
            if b[0] in ("inst", "cls", "super"):
                cls = b[1]
                d = self.tab.defs(cls, e.attr, cls if b[0] == "super" else None)
                if d is None:
                    if b[0] != "super" and not self.tab.has(cls, e.attr) and not self.tab.opaque(cls):
                        return ("nothing", "%s.%s" % (cls.name, e.attr))
                    return None
                k, f = d
                if f is None:
                    return None
                ds = decorators(f)
                if "property" in ds or "cached_property" in ds:
                    return None
                return ("fn", f, b[0] != "cls" or "classmethod" in ds, cls if b[0] == "inst" else None)
            return None
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == "super" and self.lookup("super") is None:
                if e.args:
                    b = self.resolve(e.args[0])
                    return ("super", b[1]) if b is not None and b[0] == "cls" else None
                return ("super", self.cls) if self.cls is not None else None
            f = self.resolve(e.func)
            if f is not None and f[0] == "cls":
                return ("inst", f[1])
            return None
        if isinstance(e, (ast.BinOp, ast.UnaryOp)):
            ops = [e.left, e.right] if isinstance(e, ast.BinOp) else [e.operand]
            for o in ops:
                r = self.resolve(o)
                if r is not None and r[0] == "inst" and "FunctionProfile" in it.mro_names(r[1]):
                    fp = self.tab.globals("pySLM2").get("FunctionProfile")
                    return ("inst", fp) if isinstance(fp, ClsV) else None
        return None


def wrap(v):
    if isinstance(v, ModV):
        return ("mod", v.name)
    if isinstance(v, ClsV):
        return ("cls", v) if v.node is not None else None
    if isinstance(v, Fn) and isinstance(v.node, ast.FunctionDef):
        return ("fn", v.node, False)
    if isinstance(v, Wrapped):
        return wrap(v.fn)
    return None


def bind_scope(sc, body):
    """types of the variables of a scope that are bound exactly once"""
    count, val = {}, {}
    own = []
    todo = list(body)
    while todo:
        s = todo.pop()
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            count[s.name] = count.get(s.name, 0) + 1
            continue
        if isinstance(s, ast.Lambda):
            continue
        own.append(s)
        todo += list(ast.iter_child_nodes(s))
    for s in own:
        if isinstance(s, ast.Name) and isinstance(s.ctx, (ast.Store, ast.Del)):
            count[s.id] = count.get(s.id, 0) + 1
        if isinstance(s, ast.ExceptHandler) and s.name:
            count[s.name] = count.get(s.name, 0) + 2
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                n = a.asname or a.name.split(".")[0]
                if n != "*":
                    count[n] = count.get(n, 0) + 1
    imp = []
    for s in own:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            val[s.targets[0].id] = s.value
        elif isinstance(s, ast.Import):
            for a in s.names:
                if a.name.split(".")[0] == "pySLM2":
                    imp.append((a.asname or "pySLM2", ("mod", a.name if a.asname else "pySLM2"), s))
        elif isinstance(s, ast.ImportFrom) and s.module and s.module.split(".")[0] == "pySLM2" and s.level == 0:
            g = sc.tab.globals(s.module)
            for a in s.names:
                if a.name == "*" or g is None:
                    continue
                if a.name in g:
                    imp.append((a.asname or a.name, wrap(g[a.name]), s))
                elif not sc.tab.c.model.has(s.module + "." + a.name):
                    imp.append((a.asname or a.name, ("nothing", "%s.%s" % (s.module, a.name)), s))
    for n in count:
        sc.vars[n] = None
    for n, v, s in imp:
        sc.vars[n] = v
    if sc.mod is not None and sc.fn is None:
        # names of a package module: what the import graph says
        g = sc.tab.globals(sc.mod) or {}
        for n in count:
            sc.vars[n] = wrap(g[n]) if n in g else None
    for _ in range(3):
        for n, e in val.items():
            if count.get(n) == 1 and sc.vars.get(n) is None:
                r = sc.resolve(e)
                if r is not None and r[0] in ("inst", "cls", "mod"):
                    sc.vars[n] = r
    return [(s, v) for n, v, s in imp if v is not None and v[0] == "nothing"]


class Calls:
    def __init__(self, c, tab, mod, tree, path):
        self.c, self.tab, self.mod, self.tree, self.path = c, tab, mod, tree, path
        self.sites = 0

    def at(self, n):
        return "%s:%d" % (self.path, n.lineno)

    def run(self):
        sc = Scope(self.tab, self.mod, self.tree, self.path)
        for s, v in bind_scope(sc, self.tree.body):
            self.c.fail("%s imports" % self.path, "%s does not exist" % v[1], self.at(s))
        self.body(sc, self.tree.body)

    def function(self, sc, f, cls):
        s2 = Scope(self.tab, self.mod, self.tree, self.path, sc, cls, f)
        bind_scope(s2, f.body)
        ps = f.args.posonlyargs + f.args.args + f.args.kwonlyargs + [x for x in (f.args.vararg, f.args.kwarg) if x]
        for p in ps:
            s2.vars[p.arg] = None
            if p.annotation is not None and isinstance(p.annotation, (ast.Name, ast.Attribute)) and not self.rebound(f, p.arg):
                r = sc.resolve(p.annotation)
                if r is not None and r[0] == "cls":
                    s2.vars[p.arg] = ("inst", r[1])
        if cls is not None and ps and "staticmethod" not in decorators(f) and not self.rebound(f, ps[0].arg):
            s2.vars[ps[0].arg] = ("cls", cls) if "classmethod" in decorators(f) else ("inst", cls)
        for d in f.decorator_list + f.args.defaults + [x for x in f.args.kw_defaults if x is not None]:
            self.expr(sc, d)
        self.body(s2, f.body)

    def rebound(self, f, n):
        return any(isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store) for x in ast.walk(f))

    def body(self, sc, stmts):
        for s in stmts:
            self.node(sc, s)

    def node(self, sc, s):
        if isinstance(s, ast.FunctionDef):
            self.function(sc, s, None)
        elif isinstance(s, ast.ClassDef):
            r = sc.lookup(s.name) or (wrap((self.tab.globals(self.mod) or {}).get(s.name)) if self.mod else None)
            cls = r[1] if r is not None and r[0] == "cls" and r[1].node is not None and r[1].node.name == s.name else None
            for b in s.bases:
                self.expr(sc, b)
            for m in s.body:
                if isinstance(m, ast.FunctionDef):
                    self.function(sc, m, cls)
                else:
                    self.node(sc, m)
        else:
            for e in ast.iter_child_nodes(s):
                if isinstance(e, ast.expr):
                    self.expr(sc, e)
                else:
                    self.node(sc, e)

    def expr(self, sc, e):
        if isinstance(e, ast.Lambda):
            s2 = Scope(self.tab, self.mod, self.tree, self.path, sc, sc.cls, e)
            for p in e.args.args:
                s2.vars[p.arg] = None
            return self.expr(s2, e.body)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            s2 = Scope(self.tab, self.mod, self.tree, self.path, sc, sc.cls, sc.fn)
            for g in e.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        s2.vars[x.id] = None
            sc = s2
        if isinstance(e, ast.Call):
            self.call(sc, e)
        elif isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Load):
            r = sc.resolve(e)
            if r is not None and r[0] == "nothing":
                self.c.fail("%s attribute %s" % (self.path, ast.unparse(e)), "%s does not exist" % r[1], self.at(e))
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.expr(sc, x)
            elif isinstance(x, ast.keyword):
                self.expr(sc, x.value)
            elif isinstance(x, ast.comprehension):
                for y in ast.iter_child_nodes(x):
                    self.expr(sc, y)

    def call(self, sc, e):
        r = sc.resolve(e.func)
        if r is None:
            return
        L = "%s call of %s" % (self.path, ast.unparse(e.func))
        targets = []
        if r[0] == "cls":
            d = self.tab.defs(r[1], "__init__")
            if self.tab.defs(r[1], "__new__") is not None or r[1].node.keywords or r[1].node.decorator_list:
                return
            if d is None:
                if self.tab.opaque(r[1]):
                    return
                self.sites += 1
                self.c.true(L, not e.args and not e.keywords, "%s takes no arguments" % r[1].name, self.at(e))
                return
            if d[1] is None:
                return
            targets.append((d[1], True))
        elif r[0] == "fn":
            targets.append((r[1], r[2]))
            if len(r) > 3 and r[3] is not None:
                for k in self.tab.classes():
                    if k is not r[3] and self.tab.it.is_subclass(k, r[3]):
                        d = [f for f in k.node.body if isinstance(f, ast.FunctionDef) and f.name == r[1].name]
                        if d and "property" not in decorators(d[-1]):
                            targets.append((d[-1], True))
        elif r[0] == "inst":
            d = self.tab.defs(r[1], "__call__")
            if d is None or d[1] is None:
                return
            targets.append((d[1], True))
        else:
            return
        method = isinstance(e.func, ast.Attribute) or r[0] in ("cls", "inst")
        for f, m in targets:
            sg = self.tab.sig(f, m)
            if sg is None:
                continue
            self.sites += 1
            bad = sg.bind(e)
            self.c.true(L, bad is None, "%s (target %s at line %d takes (%s))" % (bad, f.name, f.lineno, ", ".join(sg.pos + sg.kwonly)), self.at(e))


class Tables(Table):
    def __init__(self, c, w):
        Table.__init__(self, c, w)
        self.g = {}
        self._cls = None

    def globals(self, mod):
        if mod not in self.g:
            self.g[mod] = None
            if self.c.model.has(mod):
                try:
                    m = self.w.module(mod)
                    self.g[mod] = self.frame(mod)
                except Undecided:
                    pass
        return self.g[mod]

    def frame(self, mod):
        return dict(self.it.module_ns(mod)) if mod in self.it.modframes else None

    def classes(self):
        if self._cls is None:
            self._cls = []
            for m in self.c.model.files:
                if "benchmark" in m or m.endswith("master_example"):
                    continue
                for v in (self.globals(m) or {}).values():
                    if isinstance(v, ClsV) and v.node is not None and v not in self._cls:
                        self._cls.append(v)
        return self._cls


def undefined(c, path, src, tree, has_star, provided):
    """global names read somewhere in the file but bound nowhere"""
    try:
        top = symtable.symtable(src, path, "exec")
    except SyntaxError as e:
        c.fail("%s parses" % path, "syntax error: %s" % e)
        return
    bound = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
    bound |= set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__builtins__", "__class__"} | set(provided)
    used = set()

    def walk(t_):
        for s in t_.get_symbols():
            if s.is_referenced() and s.is_global():
                used.add(s.get_name())
            if s.is_declared_global() and s.is_assigned():
                bound.add(s.get_name())
        for ch in t_.get_children():
            walk(ch)
    walk(top)
    for s in top.get_symbols():
        if s.is_referenced():
            used.add(s.get_name())
    bad = sorted(n for n in used if n not in bound)
    if has_star and bad:
        c.notes.append("%s: names %s come from a star import" % (path, bad))
        return
    where = path
    for n in bad:
        ln = next((x.lineno for x in ast.walk(tree) if isinstance(x, ast.Name) and x.id == n), 0)
        c.fail("%s names" % path, "name %s is not defined" % n, "%s:%d" % (path, ln))
    if not bad:
        c.ok("%s names" % path)


def c36(c):
    w = c.world("f32", libs=("ALP4", "Luxbeam"))
    it = w.it
    it.st = w.base
    tab = Tables(c, w)
    # 1. exports
    c.rule = "every public name is importable from its package; every name of __all__ is defined"
    for pkg in ("pySLM2", "pySLM2.util"):
        g = tab.globals(pkg)
        if g is None:
            c.undecided("import %s" % pkg, "cannot be imported")
            continue
        for (p, n) in TABLE:
            if p == pkg:
                c.true("%s.%s exists" % (pkg, n), n in g, "%s.%s cannot be imported" % (pkg, n), c.model.relpath(pkg))
        for n in EXTRA[pkg]:
            c.true("%s.%s exists" % (pkg, n), n in g, "%s.%s cannot be imported" % (pkg, n), c.model.relpath(pkg))
    for m in c.model.files:
        if "benchmark" in m or m.endswith("master_example"):
            continue
        for x in c.tree(m).body:
            if isinstance(x, (ast.Assign, ast.AugAssign)) and ast.unparse(x.targets[0] if isinstance(x, ast.Assign) else x.target) == "__all__":
                g = tab.globals(m)
                for e in ast.walk(x.value):
                    if isinstance(e, ast.Constant) and isinstance(e.value, str) and g is not None:
                        c.true("%s.__all__ %s" % (m, e.value), e.value in g or c.model.has(m + "." + e.value), "%s is listed in __all__ but not defined" % e.value, "%s:%d" % (c.model.relpath(m), x.lineno))
    # 2. public signatures
    c.rule = "public constructors, functions and methods accept their documented parameters, by position and by name"

    def compare(L, f, method, want_):
        sg = tab.sig(f, method)
        if sg is None:
            c.undecided(L, "decorated with %s" % decorators(f))
            return
        wn = [n for n, _ in want_]
        at = f.name + ":%d" % f.lineno
        if sg.pos[:len(wn)] != wn:
            if sg.var and sg.kw:
                c.undecided(L, "takes (*args, **kwargs)")
                return
            lost = [n for n in wn if n not in sg.pos + sg.kwonly and not sg.kw]
            c.fail(L, "parameters are (%s), documented are (%s)" % (", ".join(sg.pos), ", ".join(wn)) if not lost else "no longer takes %s" % ", ".join(lost))
            return
        bad = [n for n, opt in want_ if opt and n in sg.req] + [n for n in sg.req[len(wn):]] + sg.kwreq
        c.true(L, not bad, "%s must now be given" % ", ".join(bad))
    for (pkg, n), spec in TABLE.items():
        g = tab.globals(pkg) or {}
        v = g.get(n)
        if v is None:
            continue
        r = wrap(v)
        if isinstance(spec, list):
            c.anchor = c.loc(n)
            if r is not None and r[0] == "fn":
                compare("%s.%s" % (pkg, n), r[1], False, spec)
            else:
                c.undecided("%s.%s" % (pkg, n), "is %r" % (v,))
            continue
        if r is None or r[0] != "cls":
            c.undecided("%s.%s" % (pkg, n), "is %r" % (v,))
            continue
        for m, sp in spec.items():
            c.anchor = c.loc("%s.%s" % (n, m))
            L = "%s.%s.%s" % (pkg, n, m)
            d = tab.defs(r[1], m)
            if sp is None:
                c.true(L, tab.has(r[1], m) or tab.opaque(r[1]), "attribute %s no longer exists" % m)
                if d is not None and d[1] is not None:
                    dd = decorators(d[1])
                    if not dd:
                        c.fail(L, "%s was an attribute and is a method now" % m)
                continue
            if d is None:
                if not tab.has(r[1], m):
                    c.true(L, m == "__init__" and not [1 for _, o in sp if not o] and False or tab.opaque(r[1]), "%s no longer exists" % m)
                continue
            if d[1] is None:
                continue
            if set(decorators(d[1])) & {"property", "cached_property"}:
                c.fail(L, "%s was a method and is an attribute now" % m)
                continue
            compare(L, d[1], True, sp)
    # 3. call sites
    c.rule = "arguments at every resolved call site fit the signature of the target; every name and attribute used exists"
    c.anchor = None
    files = [(m, c.model.files[m], c.model.relpath(m)) for m in c.model.files]
    exd = os.path.join(REPO, "examples")
    for f in sorted(os.listdir(exd)) if os.path.isdir(exd) else []:
        if f.endswith(".py"):
            files.append((None, os.path.join(exd, f), "examples/" + f))
    sites = 0
    for m, p, rel in files:
        try:
            src = open(p, encoding="utf-8").read()
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                tree = ast.parse(src)
        except SyntaxError as e:
            c.fail("%s parses" % rel, "syntax error: %s" % e, rel)
            continue
        script = m is None or "benchmark" in m or m.endswith("master_example")
        if script:
            m2 = None
        else:
            m2 = m
            tree = c.model.tree(m)
        stars = [x for x in ast.walk(tree) if isinstance(x, ast.ImportFrom) and any(a.name == "*" for a in x.names)]
        ext = [x for x in stars if x.level == 0 and (x.module or "").split(".")[0] != "pySLM2"]
        prov = set(tab.globals(m2) or ()) if m2 else set()
        for x in stars:
            if x.level == 0 and (x.module or "").split(".")[0] == "pySLM2":
                prov |= set(tab.globals(x.module) or ())
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            undefined(c, rel, src, tree, bool(ext), prov)
        k = Calls(c, tab, m2, tree, rel)

        def go():
            k.run()
        c.group(rel, go)
        sites += k.sites
    # 4. the documented spellings are carried out
    from .calls import accepted
    c.group("documented calls", lambda: accepted(c))
    c.rule = "arguments at every resolved call site fit the signature of the target; every name and attribute used exists"
    c.notes.append("%d call sites resolved and bound" % sites)
    if sites < 60:
        c.undecided("call sites", "only %d call sites could be resolved" % sites)


CHECKS = {
    "C36": Check(c36, "Import graph, class hierarchy and call sites resolved from the syntax trees of the package, the examples and the benchmarks; every resolved call is bound to the signature of its target(s).")
}
