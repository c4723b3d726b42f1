#!/usr/bin/env python3
"""Development tool: try changes of the repository (planted bugs, refactorings) in scratch copies.

plant.py try FILE [ID..]    static checks only, on the changed copy (bug: its property; refactoring: every property)
plant.py confirm FILE [ID..] demonstration and stable tests too; writes /verif/seeded/<id>/ for what is confirmed
FILE defines BUGS / REFS: lists of dict(id=, prop=, edits=[(file, qualname, old, new) ...], needs=, breaks=, demo=)
An edit with old=None replaces the whole function; qualname None means the whole file.
"""
import ast
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import textwrap
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SCR = "/tmp/plant"
PY = "/opt/venv/bin/python"


def span(src, qual):
    tree = ast.parse(src)
    body, node = tree.body, None
    for i, part in enumerate(qual.split(".")):
        part, _, k = part.partition("#")
        c = [n for n in body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part]
        node = c[int(k or 0)]
        body = node.body
    first = min([node.lineno] + [d.lineno for d in node.decorator_list])
    return first - 1, node.end_lineno, node.col_offset


def apply(root, edits):
    for e in edits:
        f, qual, old, new = e
        p = os.path.join(root, f)
        if not os.path.exists(p):
            open(p, "w").write(textwrap.dedent(new).lstrip("\n"))
            subprocess.run(["git", "-C", root, "add", "-N", f], check=True)
            continue
        raw = open(p, newline="").read()
        crlf = "\r\n" in raw
        src = raw.replace("\r\n", "\n")
        if qual is None:
            if old is None:
                src += "\n" + textwrap.dedent(new)
            else:
                assert src.count(old) == 1, (f, src.count(old), old)
                src = src.replace(old, new)
        else:
            a, b, col = span(src, qual)
            lines = src.split("\n")
            seg = "\n".join(lines[a:b])
            if old is None:
                seg = textwrap.indent(textwrap.dedent(new).strip("\n"), " " * col)
            else:
                assert seg.count(old) == 1, (f, qual, seg.count(old), old, seg)
                seg = seg.replace(old, new)
            lines[a:b] = seg.split("\n")
            src = "\n".join(lines)
        ast.parse(src)
        if crlf:
            src = src.replace("\n", "\r\n")
        open(p, "w", newline="").write(src)


def copy(b):
    d = os.path.join(SCR, b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(SCR, exist_ok=True)
    subprocess.run(["git", "clone", "-q", "-s", REPO, d], check=True)
    apply(d, b["edits"])
    return d


def check(d, prop):
    env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + ".ev")
    r = subprocess.run(["python3-vt", os.path.join(VERIF, "check.py"), prop], cwd=VERIF, env=env, capture_output=True, text=True)
    return r.returncode, r.stdout + r.stderr


def run_demo(folder, cwd):
    env = dict(os.environ, PYTHONPATH=cwd, PYTHONDONTWRITEBYTECODE="1", TF_CPP_MIN_LOG_LEVEL="3", CUDA_VISIBLE_DEVICES="-1")
    r = subprocess.run(["bash", os.path.join(folder, "demo.sh")], cwd=cwd, env=env, capture_output=True, text=True, timeout=300)
    return r.returncode, r.stdout + r.stderr


def tests(d):
    import xml.etree.ElementTree as ET
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
    env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", TF_CPP_MIN_LOG_LEVEL="3", CUDA_VISIBLE_DEVICES="-1", MPLBACKEND="Agg")
    bad = []
    for extra in ([], ["--backend64"]):
        r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "test"] + extra, cwd=d, env=env, capture_output=True, text=True)
        if r.returncode:
            bad.append("\n".join(x for x in r.stdout.split("\n") if x.startswith(("FAILED", "ERROR"))))
    return "\n".join(bad)


def load(f):
    spec = importlib.util.spec_from_file_location("bugs", f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return getattr(m, "BUGS", []), getattr(m, "REFS", [])


def props():
    return [c["property"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]]


def try_bug(b, every=False):
    d = copy(b)
    try:
        out = ""
        for p in ([b["prop"]] if not every else props()):
            rc, o = check(d, p)
            last = o.strip().split("\n")[-1] if o.strip() else ""
            v = [x.strip() for x in o.split("\n") if "undecided:" in x or "violat" in x.lower()]
            if every and rc == 0:
                continue
            out += "%s %s: %s %s\n" % (b["id"], p, {0: "MISSED", 1: "caught"}.get(rc, "ERROR %s" % rc), " | ".join(v[:2])[:300] or last[:200])
        return out.rstrip("\n") or "%s: quiet" % b["id"]
    finally:
        shutil.rmtree(d + ".ev", ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)


def try_ref(b):
    d = copy(b)
    try:
        out = []
        und = 0
        for p in b.get("props") or props():
            rc, o = check(d, p)
            u = [x.strip() for x in o.split("\n") if "undecided:" in x]
            if rc or "Traceback" in o:
                v = [x.strip() for x in o.split("\n") if "iolat" in x or "Error" in x]
                out.append("%s: ALARM %s %s" % (p, rc, " | ".join(v[:3])[:500]))
            elif u:
                out.append("%s: undecided %d %s" % (p, len(u), u[0][:200]))
        return "%s: %s" % (b["id"], "quiet" if not out else "\n    " + "\n    ".join(out))
    finally:
        shutil.rmtree(d + ".ev", ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)


def confirm(b):
    d = copy(b)
    dest = os.path.join(VERIF, "seeded", b["id"])
    tmp = os.path.join(SCR, b["id"] + ".demo")
    clean = os.path.join(SCR, b["id"] + ".clean")
    for x in (tmp, clean):
        shutil.rmtree(x, ignore_errors=True)
    try:
        os.makedirs(tmp)
        subprocess.run(["git", "clone", "-q", "-s", REPO, clean], check=True)
        open(os.path.join(tmp, "demo.py"), "w").write(textwrap.dedent(b["demo"]).lstrip("\n"))
        open(os.path.join(tmp, "demo.sh"), "w").write(
            '#!/bin/bash\n# exit 0: the property holds on this input; nonzero: it is broken\n'
            'export TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES=-1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
            'exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        r0, o0 = run_demo(tmp, clean)
        r1, o1 = run_demo(tmp, d)
        if r0 != 0:
            return "%s: demo fails on the clean tree: %s" % (b["id"], o0[-600:])
        if r1 == 0:
            return "%s: demo passes with the change" % b["id"]
        t = tests(d)
        if t:
            return "%s: tests fail: %s" % (b["id"], t[:600])
        diff = subprocess.run(["git", "diff", "--binary"], cwd=d, capture_output=True).stdout
        rc, o = check(d, b["prop"])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(tmp, dest)
        open(os.path.join(dest, "patch.diff"), "wb").write(diff)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"], "caught": "yes" if rc == 1 else "no"}, open(os.path.join(dest, "meta.json"), "w"), indent=1)
        return "%s: confirmed, %s; demo said: %s" % (b["id"], "caught" if rc == 1 else "MISSED", o1.strip().split("\n")[-1][:150])
    finally:
        for x in (tmp, clean, d, d + ".ev"):
            shutil.rmtree(x, ignore_errors=True)


def main():
    cmd, f, ids = sys.argv[1], sys.argv[2], sys.argv[3:]
    bugs, refs = load(f)
    sel = lambda l: [b for b in l if not ids or b["id"] in ids]
    jobs = []
    with ThreadPoolExecutor(4 if cmd == "confirm" else 8) as ex:
        if cmd in ("try", "all"):
            jobs += [ex.submit(try_bug, b, cmd == "all") for b in sel(bugs)]
            jobs += [ex.submit(try_ref, b) for b in sel(refs)]
        elif cmd == "confirm":
            jobs += [ex.submit(confirm, b) for b in sel(bugs) if not os.path.exists(os.path.join(VERIF, "seeded", b["id"])) or ids]
        for j in jobs:
            try:
                print(j.result(), flush=True)
            except Exception as e:
                print("FAILED", type(e).__name__, str(e)[:600], flush=True)


main()
