"""Source model: modules of the analysed package (parsed from the working tree) and facts about attributes."""
import ast
import hashlib
import os


class Model:
    def __init__(self, root, package="pySLM2"):
        self.root, self.package = root, package
        self.files, self.trees, self.src = {}, {}, {}
        base = os.path.join(root, package)
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if not x.startswith((".", "__pycache__")))
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)[:-3].split(os.sep)
                    if rel[-1] == "__init__":
                        rel = rel[:-1]
                    self.files[".".join(rel)] = p
        self._facts = None

    def has(self, name):
        return name in self.files

    def is_pkg(self, name):
        return os.path.basename(self.files[name]) == "__init__.py"

    def tree(self, name):
        if name not in self.trees:
            with open(self.files[name], encoding="utf-8") as f:
                self.src[name] = f.read()
            self.trees[name] = ast.parse(self.src[name])
        return self.trees[name]

    def relpath(self, name):
        return os.path.relpath(self.files[name], self.root) if name in self.files else name

    def digest(self):
        h = hashlib.sha1()
        for n in sorted(self.files):
            with open(self.files[n], "rb") as f:
                h.update(f.read())
        return h.hexdigest()

    # ----------------------------------------------------------------------- facts about attributes
    def facts(self):
        if self._facts is None:
            stores, inits, assigns, globs, prop_w = {}, {}, {}, {}, set()
            builders = self.builders()
            for n in self.files:
                try:
                    tr = self.tree(n)
                except SyntaxError:
                    continue
                for c in [x for x in ast.walk(tr) if isinstance(x, ast.ClassDef)]:
                    for m in c.body:
                        if not isinstance(m, ast.FunctionDef):
                            continue
                        lazy = set()
                        # objects made in this method: their attributes are being initialised
                        made = {y.id for x in ast.walk(m) if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call)
                                for y in x.targets if isinstance(y, ast.Name)}
                        for x in ast.walk(m):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and \
                                    isinstance(x.value, ast.Name) and x.value.id in made:
                                lazy.add(id(x))
                        for x in ast.walk(m):
                            if isinstance(x, ast.If):
                                tested = {y.attr for y in ast.walk(x.test) if isinstance(y, ast.Attribute)} | \
                                    {y.value for y in ast.walk(x.test) if isinstance(y, ast.Constant)}
                                for y in ast.walk(x):
                                    if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and y.attr in tested:
                                        lazy.add(id(y))
                        for x in ast.walk(m):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                                if id(x) in lazy and x.attr.startswith("_"):
                                    continue        # filled on first use, never rebound
                                own = isinstance(x.value, ast.Name) and m.args.args and x.value.id == m.args.args[0].arg
                                if own and m.name in builders:
                                    inits.setdefault(x.attr, set()).add(c.name)
                                else:
                                    stores.setdefault(x.attr, []).append((c.name, m.name))
                in_init = {id(y) for c in ast.walk(tr) if isinstance(c, ast.FunctionDef) and c.name in builders
                           for y in ast.walk(c)}
                for x in ast.walk(tr):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                            x.func.attr.startswith("assign") and isinstance(x.func.value, ast.Attribute):
                        assigns.setdefault(x.func.value.attr, set()).add(n)
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" \
                            and len(x.args) == 3 and id(x) not in in_init:
                        k = x.args[1].value if isinstance(x.args[1], ast.Constant) else "*"
                        stores.setdefault(k, []).append(("?", "setattr"))
                        assigns.setdefault("*", set()).add(n)
                    if isinstance(x, ast.Global):
                        for g in x.names:
                            globs.setdefault((n, g), True)
            self._facts = stores, inits, assigns, globs
        return self._facts

    def builders(self):
        """names of functions that run during construction only: constructors and private helpers called from nowhere else"""
        defs, uses = set(), {}
        for n in self.files:
            try:
                tr = self.tree(n)
            except SyntaxError:
                continue

            def walk(x, owner):
                for y in ast.iter_child_nodes(x):
                    o = owner
                    if isinstance(y, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        defs.add(y.name)
                        o = y.name
                    nm = y.attr if isinstance(y, ast.Attribute) else y.id if isinstance(y, ast.Name) else \
                        y.value if isinstance(y, ast.Constant) and isinstance(y.value, str) and y.value.isidentifier() else None
                    if nm is not None:
                        uses.setdefault(nm, set()).add(owner)
                    walk(y, o)
            walk(tr, "")
        b = {"__init__", "__new__", "__post_init__"}
        while True:
            new = {d for d in defs if d not in b and d.startswith("_") and not d.startswith("__") and uses.get(d) and uses[d] <= b}
            if not new:
                return b
            b |= new

    def rebindable(self, cls, attr, it):
        """can the attribute be rebound after construction (by the package or, if public, by its user)?"""
        stores, inits, assigns, globs = self.facts()
        names = set(it.mro_names(cls)) if cls is not None else None
        for c, m in stores.get(attr, []):
            if names is None or c in names or c == "?" or m not in ("__init__",):
                if names is None or c in names or c == "?":
                    return True
        # public attributes may be set by users; names in capitals are constants by convention
        return not attr.startswith("_") and not attr.isupper()

    def assigned_variable(self, attr):
        a = self.facts()[2]
        return attr == "" or attr in a

    def rebound_global(self, modname, name):
        m = getattr(modname, "val", None)
        return (m, name) in self.facts()[3]
