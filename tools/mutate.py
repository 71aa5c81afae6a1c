"""Finds blind spots: mutants of MarkFlow that pass its tests, and which checks notice them.

    mutate.py OUT.jsonl [--files a.py,b.py] [--start N] [--step N] [--all] [--scale X]

Works on scratch copies only.  Each line of OUT: file, line, old, new, status
(killed by tests / caught by <check> / survived).
"""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
CLI = ["C20", "C21", "C19", "C22", "C23", "C26", "C27"]
LIB = ["C03", "C01", "C24", "C07", "C15", "C11", "C12", "C14", "C06", "C10", "C09", "C05", "C16", "C13", "C08", "C02", "C17", "C26", "C04"]


def seg(src, node, lines):
    a = lines[node.lineno - 1] + node.col_offset
    b = lines[node.end_lineno - 1] + node.end_col_offset
    return a, b


def mutations(src):
    """(start, end, replacement) in bytes."""
    raw = src.encode()
    lines = [0]
    for li in raw.split(b"\n"):
        lines.append(lines[-1] + len(li) + 1)
    tree = ast.parse(src)
    out = []
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr):
            docs.add(id(n.body[0]))
            docs.add(id(n.body[0].value))
    ann = set()
    for n in ast.walk(tree):
        for a in ("annotation", "returns"):
            x = getattr(n, a, None)
            if x is not None:
                ann.update(id(y) for y in ast.walk(x))
        if isinstance(n, ast.JoinedStr) or (isinstance(n, ast.Call) and ast.unparse(n.func).startswith("logger.")):
            ann.update(id(y) for y in ast.walk(n))

    def text(n):
        a, b = seg(src, n, lines)
        return raw[a:b].decode()

    def add(n, new):
        a, b = seg(src, n, lines)
        if raw[a:b].decode() != new:
            out.append((a, b, new))

    for n in ast.walk(tree):
        if id(n) in docs or id(n) in ann:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"],
                  ast.Is: ["is not"], ast.IsNot: ["is"]}
            for op in sw.get(type(n.ops[0]), []):
                add(n, "(%s %s %s)" % (text(n.left), op, text(n.comparators[0])))
        elif isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = [text(v) for j, v in enumerate(n.values) if j != i]
                op = " and " if isinstance(n.op, ast.And) else " or "
                add(n, "(%s)" % op.join(rest))
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(%s)" % op.join("(%s)" % text(v) for v in n.values))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, text(n.operand))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value))
            elif isinstance(n.value, int):
                add(n, str(n.value + 1))
                if n.value > 0:
                    add(n, str(n.value - 1))
            elif isinstance(n.value, str):
                t = text(n)
                if "\n" in t:
                    continue
                if t.startswith("r"):
                    for m in re.finditer(r"[*+?^$]|\{[0-9,]+\}|\\\\|\(\?<!", t[2:-1]):
                        a, b = m.span()
                        a, b = a + 2, b + 2
                        reps = {"*": ["+", ""], "+": ["*", ""], "?": [""], "^": [""], "$": [""]}.get(m.group(), [""])
                        if m.group().startswith("{"):
                            reps = ["", "*"]
                        for r in reps:
                            add(n, t[:a] + r + t[b:])
                elif n.value:
                    add(n, '""')
                    if len(n.value) > 1 and not n.value.isalpha():
                        add(n, repr(n.value[:-1]))
                        add(n, repr(n.value[1:]))
        elif isinstance(n, ast.BinOp):
            sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*"}
            if type(n.op) in sw and not isinstance(n.left, (ast.Constant, ast.JoinedStr)) and not isinstance(n.right, ast.JoinedStr):
                add(n, "(%s %s %s)" % (text(n.left), sw[type(n.op)], text(n.right)))
            if isinstance(n.op, ast.Add):
                add(n, "(%s)" % text(n.left))
                add(n, "(%s)" % text(n.right))
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute):
                v, at = text(n.func.value), n.func.attr
                args = ", ".join(text(a) for a in n.args)
                sw = {"strip": ["lstrip", "rstrip"], "lstrip": ["strip", ""], "rstrip": ["strip", ""], "startswith": ["endswith"], "endswith": ["startswith"],
                      "match": ["search", "fullmatch"], "search": ["match"], "fullmatch": ["match"], "append": [], "find": ["rfind"], "rfind": ["find"],
                      "ljust": ["rjust"], "rjust": ["ljust"], "center": ["ljust"], "index": [], "split": []}
                for r in sw.get(at, []) + ([""] if at == "strip" else []):
                    add(n, "%s.%s(%s)" % (v, r, args) if r else v)
                if at in ("strip", "lstrip", "rstrip") and n.args:
                    add(n, "%s.%s()" % (v, at))
            elif isinstance(n.func, ast.Name):
                sw = {"min": "max", "max": "min", "any": "all", "all": "any"}
                if n.func.id in sw:
                    add(n.func, sw[n.func.id])
                if n.func.id in ("len", "get_indent"):
                    add(n, "(%s + 1)" % text(n))
                    add(n, "(%s - 1)" % text(n))
                if n.func.id in ("min", "max") and len(n.args) == 2:
                    add(n, "(%s)" % text(n.args[0]))
                    add(n, "(%s)" % text(n.args[1]))
                if n.func.id == "enumerate" and n.keywords:
                    add(n, "enumerate(%s)" % text(n.args[0]))
            if n.keywords:
                for k in n.keywords:
                    if k.arg in ("start", "maxsplit", "count"):
                        pass
        elif isinstance(n, ast.Slice):
            if n.lower is not None and not isinstance(n.lower, ast.Constant):
                add(n.lower, "%s + 1" % text(n.lower))
            if n.upper is not None and not isinstance(n.upper, ast.Constant):
                add(n.upper, "%s + 1" % text(n.upper))
                add(n.upper, "%s - 1" % text(n.upper))
        elif isinstance(n, (ast.If, ast.While)):
            add(n.test, "(not (%s))" % text(n.test))
            if isinstance(n, ast.If):
                add(n.test, "False")
                add(n.test, "True")
        elif isinstance(n, ast.IfExp):
            add(n, "(%s)" % text(n.body))
            add(n, "(%s)" % text(n.orelse))
        elif isinstance(n, ast.Break):
            add(n, "continue")
            add(n, "pass")
        elif isinstance(n, ast.Continue):
            add(n, "break")
            add(n, "pass")
        elif isinstance(n, (ast.AugAssign, ast.Delete)) or isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Yield)):
            if "logger." not in text(n):
                add(n, "pass")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Name, ast.Attribute)) and not isinstance(n.value, ast.Constant):
            add(n, "pass")
        elif isinstance(n, ast.Raise):
            add(n, "pass")
        elif isinstance(n, ast.Return) and n.value is not None:
            if isinstance(n.value, ast.Compare) or isinstance(n.value, ast.BoolOp) or text(n.value).startswith("not "):
                add(n.value, "True")
                add(n.value, "False")
    seen = set()
    for a, b, new in sorted(out):
        if (a, b, new) in seen:
            continue
        seen.add((a, b, new))
        m = raw[:a] + new.encode() + raw[b:]
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        yield raw[:a].count(b"\n") + 1, raw[a:b].decode(), new, m


def work(job):
    fn, line, old, new, data, opts = job
    res = dict(file=fn, line=line, old=old, new=new)
    d = tempfile.mkdtemp(prefix="mm-", dir=opts.tmp)
    os.chmod(d, 0o755)     # the commands run as another user
    try:
        shutil.copytree(REPO + "/markflow", d + "/markflow", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copytree(REPO + "/tests", d + "/tests", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copy(REPO + "/pyproject.toml", d)
        with open(d + "/markflow/" + fn, "wb") as fh:
            fh.write(data)
        env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=d + "/pyc")
        try:
            p = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], cwd=d + "/tests", env=env, stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL, timeout=60)
            if p.returncode:
                return dict(res, status="killed")
        except subprocess.TimeoutExpired:
            return dict(res, status="killed")
        base = os.path.basename(fn)
        checks = CLI if base in ("__main__.py", "_argparse.py") else LIB
        if opts.checks:
            checks = opts.checks.split(",")
        env = dict(os.environ, MARKFLOW_REPO=d, MV_WORKERS=str(opts.per), MV_SCALE=str(opts.scale), MV_OUT=d + "/out")
        caught = []
        odd = []
        for c in checks:
            try:
                p = subprocess.run([sys.executable, HERE + "/check.py", "--property", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            if rc == 1:
                what = [x for x in p.stdout.decode("utf-8", "replace").split("\n") if x.startswith("  case")]
                caught.append(c)
                res.setdefault("what", (what or ["?"])[0][:150])
                if not opts.all:
                    break
            elif rc != 0:
                odd.append("%s:%s" % (c, rc))
        return dict(res, status="caught" if caught else "survived", by=caught, odd=odd)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    p = argparse.ArgumentParser()
    p.add_argument("out")
    p.add_argument("--files")
    p.add_argument("--start", type=int, default=0)
    p.add_argument("--step", type=int, default=1)
    p.add_argument("--scale", type=float, default=0.25)
    p.add_argument("--jobs", type=int, default=8)
    p.add_argument("--per", type=int, default=1)
    p.add_argument("--checks")
    p.add_argument("--all", action="store_true")
    p.add_argument("--list", action="store_true")
    p.add_argument("--redo", help="an OUT.jsonl whose survivors to run again")
    opts = p.parse_args()
    opts.tmp = tempfile.mkdtemp(prefix="mutate-")
    os.chmod(opts.tmp, 0o755)
    files = opts.files.split(",") if opts.files else sorted(
        os.path.relpath(os.path.join(b, f), REPO + "/markflow") for b, _, fs in os.walk(REPO + "/markflow") for f in fs if f.endswith(".py"))
    redo = None
    if opts.redo:
        redo = set()
        with open(opts.redo) as fh:
            for li in fh:
                r = json.loads(li)
                if r["status"] == "survived":
                    redo.add((r["file"], r["line"], r["old"], r["new"]))
    jobs = []
    for fn in files:
        with open(REPO + "/markflow/" + fn) as fh:
            src = fh.read()
        for line, old, new, data in mutations(src):
            if redo is None or (fn, line, old, new) in redo:
                jobs.append((fn, line, old, new, data, opts))
    jobs = jobs[opts.start::opts.step]
    print(len(jobs), "mutants", flush=True)
    if opts.list:
        for j in jobs:
            print(j[0], j[1], repr(j[2])[:80], "->", repr(j[3])[:80])
        return
    try:
        with open(opts.out, "a") as fh, cf.ThreadPoolExecutor(opts.jobs) as ex:
            for r in ex.map(work, jobs):
                fh.write(json.dumps(r) + "\n")
                fh.flush()
    finally:
        shutil.rmtree(opts.tmp, ignore_errors=True)


main()
