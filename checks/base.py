"""Obligations: what a check establishes, and how it is recorded."""
import ast
import json
import os
import signal
import sys
import time
import traceback

from sa.world import *
from sa import terms as t
from sa import valuation, rawval
from sa.interp import Dead, Budget

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRECS = ("f32", "f64")
# checks whose values are exact formulas: with 64 bits chosen, no intermediate value is rounded to fewer
DOUBLE = {"C%02d" % i for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 18, 19, 20, 21, 22, 23, 24, 25, 29)}


class Fail(Exception):
    pass


def _expired(*_):
    raise Budget("time")


class Ctx:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.model = Model(REPO)
        self.obs = []           # (label, status, rule, detail, where)
        self.worlds = []
        self.rule = ""
        self.random_equal = 0
        self.anchor = None
        self.missing = []
        self.notes = []
        self.t0, self.cpu0 = time.time(), time.process_time()
        self.deadline = None
        self.unm = {}
        # also look for NaN at points where an expression vanishes (not where the documented formula itself has none or where it
        # would repeat what another check sees)
        self.stepwise = pid not in ("C07", "C21", "C30", "C35")
        # seconds of processor time, so that a busy machine does not change what is decided; and of real time, as the last resort
        self.group_limit, self.total_limit, self.wall_limit = (600, 3000, 7000) if tier == "thorough" else (90, 450, 780)
        signal.signal(signal.SIGALRM, _expired)
        signal.signal(signal.SIGPROF, _expired)
        signal.setitimer(signal.ITIMER_REAL, self.wall_limit)

    def stop_clock(self):
        for k in (signal.ITIMER_REAL, signal.ITIMER_PROF):
            signal.setitimer(k, 0)

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ------------------------------------------------------------------ worlds
    def world(self, prec="f32", **kw):
        w = World(self.model, prec, **kw)
        w.base = w.it.st
        w.unm0 = list(w.it.unmodelled)
        self.worlds.append(w)
        Num.watch = None
        if prec == "f64" and self.pid in DOUBLE:
            it = w.it

            def narrow(n):
                if not it.stack:
                    self.fed.add(id(it))        # the check itself passes such data from here on
                elif id(it) not in self.fed and not t.is_int(n.term) and t.const_val(n.term) is None and not t._boolish(n.term):
                    self.narrow.setdefault((n.dtype, it.where()), n.kind)
            Num.watch = (("f16", "f32", "c64"), narrow)
            self.narrow = getattr(self, "narrow", {})
            self.fed = getattr(self, "fed", set())
        return w

    # ------------------------------------------------------------------ recording
    def rec(self, label, status, detail="", where=None):
        self.obs.append((label, status, self.rule, detail, where or self.anchor or ""))

    def ok(self, label):
        self.rec(label, "ok")

    def fail(self, label, detail, where=None):
        self.rec(label, "violation", detail, where)

    def undecided(self, label, why):
        self.rec(label, "undecided", why)

    def true(self, label, cond, detail="", where=None):
        if cond:
            self.ok(label)
        elif self.incomplete():
            # a fact about effects or structure, and the analysis skipped something on the way
            self.undecided(label, "%s, but the analysis met %s" % (detail or "does not hold", self.incomplete()))
        else:
            self.fail(label, detail or "does not hold", where)
        return bool(cond)

    def incomplete(self):
        """an unmodelled construct met in this group of obligations (or while the package was loaded)"""
        for w in self.worlds:
            if w.unm0:
                return w.unm0[0]
            for k, n in w.it.unmodelled.items():
                if n > self.unm.get((id(w), k), 0):
                    return k
        return None

    def group(self, label, f, *a, **k):
        """run one group of obligations; an analysis failure makes the group undecided, nothing else"""
        outer = self.deadline
        limit = time.process_time() + self.group_limit
        self.deadline = min(limit, outer) if outer else limit
        if time.process_time() - self.cpu0 > self.total_limit or time.time() - self.t0 > self.wall_limit - 1:
            self.undecided(label, "time limit of the check")
            self.deadline = outer
            return None
        signal.setitimer(signal.ITIMER_PROF, max(0.01, self.deadline - time.process_time()))
        if outer is None:
            self.unm = {(id(w), q): n for w in self.worlds for q, n in w.it.unmodelled.items()}
        try:
            return f(*a, **k)
        except Undecided as e:
            self.undecided(label, str(e))
        except Budget as e:
            self.undecided(label, "budget: %s" % e)
        except Dead:
            self.undecided(label, "no normal result")
        except RecursionError:
            self.undecided(label, "recursion limit of the analyser")
        except Exception as e:      # a limit of the analyser, not a statement about the code
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            self.undecided(label, "analyser: %s: %s (%s)" % (type(e).__name__, e,
                                                             traceback.extract_tb(e.__traceback__)[-1]))
        finally:
            self.deadline = outer
            signal.setitimer(signal.ITIMER_PROF, max(0.01, outer - time.process_time()) if outer else 0)

    # ------------------------------------------------------------------ positions
    def loc(self, dotted):
        """position of Class.method or function (searched by name through the package and base classes)"""
        parts = dotted.split(".")
        if len(parts) == 1:
            for n in self.model.files:
                for x in ast.walk(self.tree(n)):
                    if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == parts[0]:
                        return "%s:%d %s" % (self.model.relpath(n), x.lineno, dotted)
            return dotted
        cls, m = parts[-2], parts[-1]
        seen = set()
        todo = [cls]
        while todo:
            c = todo.pop(0)
            if c in seen:
                continue
            seen.add(c)
            for n in self.model.files:
                for x in ast.walk(self.tree(n)):
                    if isinstance(x, ast.ClassDef) and x.name == c:
                        for f in x.body:
                            if isinstance(f, ast.FunctionDef) and f.name == m:
                                return "%s:%d %s.%s" % (self.model.relpath(n), f.lineno, c, m)
                        for b in x.bases:
                            todo.append(b.attr if isinstance(b, ast.Attribute) else getattr(b, "id", ""))
        return dotted

    def tree(self, n):
        try:
            return self.model.tree(n)
        except SyntaxError:
            return ast.parse("")

    # ------------------------------------------------------------------ judging values
    def terms_equal(self, got, spec, cond=None, domain=None):
        """(True, '') | (False, detail) | (None, why)"""
        if t._boolish(got) != t._boolish(spec):
            got, spec = t.as_num(got), t.as_num(spec)
        g, s = got, spec
        if cond is not None:
            g, s = restrict(got, cond), restrict(spec, cond)
        if t.equal(g, s):
            return True, ""
        if has_unknown(g):
            return None, "value involves %s" % has_unknown(g)
        trials = 40 if self.thorough else 12
        r, v = valuation.compare(g, s, cond, trials=trials, seed=self.seed, domain=domain)
        if r == "equal":
            self.random_equal += 1
            return True, ""
        if r == "unknown":
            return None, v
        if v.mode and domain is None and False:
            pass
        return False, "computed %s; required %s; they differ for %s" % (
            clip(t.show(g)), clip(t.show(s)), clip(", ".join("%s=%s" % (k, clip(str(x), 60)) for k, x in sorted(v.used.items())), 500))

    def value(self, label, w, v, spec, shape=None, dtype=None, kind=None, cond=None, domain=None, state=None, where=None):
        """the abstract value v must denote the reference formula"""
        it = w.it
        if state is not None:
            it.st = state
        if isinstance(v, Choice):
            return self.each(label, v, cond, lambda x, cd: self.value(label, w, x, spec, shape, dtype, kind, cd, domain, state, where))
        n = v if isinstance(v, Num) else it.num(v)
        if n is None:
            if isinstance(v, (Unk, Choice)) or v is None:
                self.undecided(label, "value is %r" % (v,))
                return None
            self.fail(label, "value is %s, not a number or array" % describe(it, v), where)
            return False
        if dtype is not None and n.dtype not in ((dtype,) if isinstance(dtype, str) else dtype):
            self.fail(label, "type %s instead of %s" % (n.dtype, dtype), where)
            return False
        if kind is not None and n.kind not in ((kind,) if isinstance(kind, str) else kind):
            self.fail(label, "%s value instead of %s" % (n.kind, kind), where)
            return False
        if shape is not None:
            if n.shape is None:
                self.undecided(label, "unknown shape")
                return None
            if len(n.shape) != len(shape):
                self.fail(label, "shape %s instead of %s" % (showsh(n.shape), showsh(shape)), where)
                return False
            for p, q in zip(n.shape, shape):
                r, d = self.terms_equal(p, q, cond)
                if r is None:
                    self.undecided(label, "shape: " + d)
                    return None
                if not r:
                    self.fail(label, "shape %s instead of %s" % (showsh(n.shape), showsh(shape)), where)
                    return False
        if n.sel is not None:
            self.undecided(label, "selection of unknown length")
            return None
        if spec is None:
            self.ok(label)
            return True
        r, d = self.terms_equal(n.term, spec, cond, domain)
        if r is None:
            self.undecided(label, d)
        elif r:
            bad = self.stepwise and rawval.finite(n, spec, cond, domain, self.seed, 40 if self.thorough else 16)
            if bad:
                v, x = bad
                self.fail(label, "evaluating the expression gives %s, the required value is finite, for %s" % (
                    x, clip(", ".join("%s=%s" % (k, clip(str(x), 60)) for k, x in sorted(v.used.items())), 500)), where)
                return False
            self.ok(label)
        else:
            self.fail(label, d, where)
        return r

    def each(self, label, v, cond, judge):
        """a value that depends on conditions: every alternative that can occur must be right"""
        n0 = len(self.obs)
        res = []
        for g, x in v.alts:
            cd = g if cond is None else t.land(cond, g)
            if cd is t.FALSE:
                continue
            if has_unknown(cd):
                res.append((None, "depends on " + has_unknown(cd), None))
                continue
            s = valuation.satisfiable(cd, self.seed)
            if s is not True:
                if s is None:
                    res.append((None, "cannot tell when the value is %s" % clip(repr(x), 80), None))
                continue
            judge(x, cd)
            new, self.obs[n0:] = self.obs[n0:], []
            bad = [o for o in new if o[1] == "violation"] or [o for o in new if o[1] == "undecided"]
            if bad:
                res.append((False if bad[0][1] == "violation" else None, bad[0][3] + " when " + clip(t.show(cd)), bad[0][4]))
        for st in (False, None):
            for r, d, wh in res:
                if r is st:
                    (self.fail if r is False else self.undecided)(label, d, *([wh] if r is False else []))
                    return r
        self.ok(label)
        return True

    def equal_values(self, label, w, a, sa, b, sb, cond=None, domain=None, where=None, same_type=True):
        """two abstract values (in two states) must be the same"""
        it = w.it
        it.st = sa
        na = a if isinstance(a, Num) else it.num(a)
        it.st = sb
        nb = b if isinstance(b, Num) else it.num(b)
        if na is None or nb is None:
            if na is None and nb is None and same(a, b):
                self.ok(label)
                return True
            if isinstance(a, K) and isinstance(b, Num) or isinstance(b, K) and isinstance(a, Num):
                self.fail(label, "%r became %r" % (b, a), where)
                return False
            self.undecided(label, "values %r, %r" % (a, b))
            return None
        if same_type and (na.dtype != nb.dtype):
            self.fail(label, "type %s instead of %s" % (na.dtype, nb.dtype), where)
            return False
        if (na.shape is None) != (nb.shape is None):
            self.undecided(label, "unknown shape")
            return None
        if na.shape is not None and len(na.shape) != len(nb.shape):
            self.fail(label, "shape %s instead of %s" % (showsh(na.shape), showsh(nb.shape)), where)
            return False
        r, d = self.terms_equal(na.term, nb.term, cond, domain)
        if r is None:
            self.undecided(label, d)
        elif r:
            self.ok(label)
        else:
            self.fail(label, d, where)
        return r

    # ------------------------------------------------------------------ judging outcomes
    def runs(self, label, o, cond=None, implicit_ok=True):
        """the scenario must produce a result; True if it can be judged further"""
        bad = None
        for st, e in o.raised:
            pc = restrict(st.pc, cond) if cond is not None else st.pc
            if pc is t.FALSE:
                continue
            if has_unknown(pc):
                self.undecided(label, "may raise %s under an undecided condition" % e.name)
                return o.ok
            if pc is not t.TRUE:
                if implicit_ok and e.name in ("ZeroDivisionError", "IndexError", "Fault", "OverflowError"):
                    continue
                # is the condition satisfiable at all?
                r, v = valuation.compare(t.as_num(pc), t.ZERO, None, trials=24, seed=self.seed)
                if r == "equal":
                    continue
                if r == "unknown":
                    self.undecided(label, "may raise %s" % e.name)
                    return o.ok
            bad = (pc, e)
            break
        if bad:
            pc, e = bad
            self.fail(label, "raises %s%s%s" % (e.name, exc_text(e), "" if pc is t.TRUE else " when " + clip(t.show(pc))), e.where)
            return False
        if not o.ok:
            self.undecided(label, "no result")
            return False
        self.ok(label)
        return True

    def raises(self, label, o, names, cond=None):
        """the scenario must raise one of the exceptions, always"""
        names = (names,) if isinstance(names, str) else names
        if o.ok:
            pc = restrict(o.st.pc, cond) if cond is not None else o.st.pc
            if pc is not t.FALSE:
                if has_unknown(pc):
                    self.undecided(label, "may return")
                    return None
                r, v = valuation.compare(t.as_num(pc), t.ZERO, None, trials=24, seed=self.seed)
                if r == "differ" or pc is t.TRUE:
                    self.fail(label, "does not raise %s%s" % ("/".join(names), "" if pc is t.TRUE else " when " + clip(t.show(pc))))
                    return False
                if r == "unknown":
                    self.undecided(label, "may return")
                    return None
        if not o.raised:
            self.undecided(label, "neither returns nor raises")
            return None
        for st, e in o.raised:
            pc = restrict(st.pc, cond) if cond is not None else st.pc
            if pc is t.FALSE:
                continue
            if not (e.name in names or set(names) & set(e.bases) or "Exception" in names):
                if e.name == "Fault" or e.name in ("ZeroDivisionError", "IndexError", "OverflowError") and pc is not t.TRUE:
                    continue        # another failure, of degenerate data, that comes first
                self.fail(label, "raises %s%s instead of %s" % (e.name, exc_text(e), "/".join(names)), e.where)
                return False
        self.ok(label)
        return True

    def same_heap(self, label, w, o_ref, before, after, attrs=None, skip=(), where=None):
        """attributes of an object must denote the same values in two states"""
        a, b = before.heap.get(o_ref.oid), after.heap.get(o_ref.oid)
        if a is b:
            self.ok(label)
            return True
        good = True
        for k in sorted(set(a.attrs) | set(b.attrs)):
            if attrs is not None and k not in attrs or k in skip:
                continue
            if (k in a.attrs) != (k in b.attrs):
                if attrs is None and k.startswith("_"):
                    continue        # private bookkeeping
                self.fail(label, "attribute %s %s" % (k, "appears" if k in b.attrs else "disappears"), where)
                return False
            x, y = a.attrs[k], b.attrs[k]
            if same(x, y) and not mutated(before, after, x):
                continue
            r = self.equal_values(label + " " + k, w, y, after, x, before, where=where)
            good = good and r
        if good:
            self.ok(label)
        return good

    def no_issues(self, label, w, kinds, match=None):
        """no finding of the given kinds recorded while the scenarios of this world were interpreted"""
        bad = [i for i in w.it.issues.values() if i.kind in kinds and (match is None or any(m in i.msg for m in match))]
        for i in bad:
            self.fail(label, i.msg, i.where)
        if not bad:
            self.ok(label)
        return not bad

    # ------------------------------------------------------------------ result
    def finish(self, t0, explanation, assumptions=()):
        Num.watch = None
        for (dt, wh), kind in sorted(getattr(self, "narrow", {}).items()):
            self.rec("f64: no value is rounded to fewer bits", "violation", "a %s %s is created although the precision is 64 bits" % (dt, "tensor" if kind == "tf" else "array"), wh)
        viol = [o for o in self.obs if o[1] == "violation"]
        und = [o for o in self.obs if o[1] == "undecided"]
        okk = [o for o in self.obs if o[1] == "ok"]
        visited, steps, unm, issues = set(), 0, {}, {}
        for w in self.worlds:
            visited |= w.it.visited
            unm.update(w.it.unmodelled)
            for k, i in w.it.issues.items():
                issues[k] = i
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": explanation,
                "obligations": len(self.obs), "discharged": len(okk), "undecided": len(und),
                "equal_by_random_interpretation": self.random_equal,
                "rules": sorted({o[2] for o in self.obs if o[2]}),
                "functions_analysed": sorted(visited),
                "source_digest": self.model.digest(),
                "samples": [{"obligation": o[0], "status": o[1], "rule": o[2], "at": o[4]} for o in self.obs[:12]],
                "undecided_obligations": [{"obligation": o[0], "why": clip(o[3], 300)} for o in und[:20]],
                "unmodelled_constructs": sorted(unm)[:20],
                "notes": self.notes,
            },
            "assumptions": list(assumptions),
            "wall_s": round(time.time() - t0, 3),
            "violations": len(viol),
        }
        evd = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        if viol:
            rp = os.path.join(evd, "%s.violations.json" % self.pid)
            with open(rp, "w") as f:
                json.dump([{"obligation": o[0], "rule": o[2], "at": o[4], "detail": o[3]} for o in viol], f, indent=1, default=str)
                f.write("\n")
            for o in viol[:5]:
                print("%s at %s: %s [rule: %s]" % (o[0], o[4], clip(o[3], 700), o[2]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("%s: %d obligations, %d discharged, %d undecided, %d functions analysed" % (
            self.pid, len(self.obs), len(okk), len(und), len(visited)))
        for o in und[:6]:
            print("  undecided: %s: %s" % (o[0], clip(o[3], 300)))
        if not okk:
            print("  nothing could be decided")
            return 2
        return 0


def exc_text(e):
    for a in e.args:
        if isinstance(a, K):
            return "(%s)" % (a.val,)
    return ""


def clip(s, n=300):
    s = str(s)
    return s if len(s) <= n else s[:n] + "..."


def showsh(sh):
    return "(" + ", ".join(t.show(d) for d in sh) + ")"


def has_unknown(term):
    for a in t.all_atoms(term):
        if a.name in ("unknown", "uninitialised"):
            return str(a.attrs)
    return None


def describe(it, v):
    if isinstance(v, K):
        return repr(v.val)
    if isinstance(v, Ref):
        o = it.st.heap.get(v.oid)
        if isinstance(o, Inst):
            return "an instance of " + getattr(o.cls, "name", "?")
        return type(o).__name__
    return repr(v)


def mutated(before, after, v):
    return isinstance(v, Ref) and before.heap.get(v.oid) is not after.heap.get(v.oid)
