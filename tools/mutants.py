#!/usr/bin/env python3
"""Mechanical mutants of /repo/staircase, to find changes of behaviour which no check notices.

  mutants.py list                  the mutants
  mutants.py run OUT.jsonl [i/n]   run the relevant checks (cheap settings) against each, in scratch copies
"""
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BASE = "/repo/staircase"
FILES = {
    "core/ops/common.py": "C01 C16 C04 C05 C06 C15 C12 C17 C18",
    "core/ops/arithmetic.py": "C01 C16 C12 C15 C13 C18",
    "core/ops/logical.py": "C05 C16 C12 C15",
    "core/ops/relational.py": "C04 C12 C16 C15",
    "core/ops/masking.py": "C06 C07 C10 C16 C15 C12 C17",
    "core/ops/rops.py": "C01 C05 C16",
    "core/ops/__init__.py": "C04 C01 C05 C18",
    "core/layering.py": "C02 C13 C14 C16 C17",
    "core/sampling.py": "C03 C17 C18",
    "core/slicing.py": "C11 C13 C17 C14",
    "core/stairs.py": "C16 C03 C02 C09 C20 C13 C14 C12 C17 C18 C15",
    "core/stats/statistic.py": "C08 C10 C19 C14 C17 C13",
    "core/stats/distribution.py": "C09 C14 C13 C17",
    "core/stats/__init__.py": "C08 C10",
    "core/arrays/__init__.py": "C18 C19",
    "core/arrays/extension.py": "C18 C19 C15 C13",
    "core/arrays/accessor.py": "C18 C19",
    "util/__init__.py": "C01 C10 C08 C06 C03 C17 C15",
    "constants.py": "C06 C03 C10 C08",
}
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is",
       ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.BitAnd: "|", ast.BitOr: "&"}


def mutants(f):
    src = open(os.path.join(BASE, f)).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()))
    b = src.encode()
    out = []

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def txt(n):
        a, z = pos(n)
        return b[a:z].decode()

    def add(n, new, kind):
        a, z = pos(n)
        if b[a:z].decode() != new:
            out.append(dict(file=f, a=a, z=z, new=new, old=b[a:z].decode()[:100], kind=kind, line=n.lineno))

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for d in n.decorator_list:
                t = txt(d)
                if t.startswith("Appender") or "add_doc" in t:
                    skip.update(id(x) for x in ast.walk(d))
                elif t not in ("property", "classmethod", "staticmethod") and "register" not in t and "wraps" not in t:
                    a, z = pos(d)
                    out.append(dict(file=f, a=a - 1, z=z, new="", old="@" + t, kind="decorator", line=d.lineno))
            if getattr(n, "returns", None):
                skip.update(id(x) for x in ast.walk(n.returns))
        if isinstance(n, (ast.arg, ast.AnnAssign)) and n.annotation:
            skip.update(id(x) for x in ast.walk(n.annotation))
        if isinstance(n, ast.Raise) or isinstance(n, ast.Assert):
            skip.update(id(x) for x in ast.walk(n))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            L, Rr = txt(n.left), txt(n.comparators[0])
            add(n, "(%s %s %s)" % (L, CMP[type(n.ops[0])], Rr), "cmp")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + op.join("(%s)" % txt(v) for v in n.values) + ")", "boolop")
            for k in range(len(n.values)):
                rest = [v for i, v in enumerate(n.values) if i != k]
                o = " and " if isinstance(n.op, ast.And) else " or "
                add(n, "(" + o.join("(%s)" % txt(v) for v in rest) + ")", "dropoperand")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant):
            add(n, "(%s %s %s)" % (txt(n.left), BIN[type(n.op)], txt(n.right)), "binop")
            add(n, "(%s)" % txt(n.left), "dropright")
        elif isinstance(n, ast.UnaryOp) and not isinstance(n.operand, ast.Constant):
            add(n, "(%s)" % txt(n.operand), "unary")
        elif isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, "True", "iftrue")
            add(n.test, "False", "iffalse")
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, str(not v), "const")
            elif isinstance(v, (int, float)):
                add(n, {0: "1", 1: "0"}.get(v, str(v + 1)), "const")
            elif v in ("left", "right"):
                add(n, repr("right" if v == "left" else "left"), "const")
            elif v in ("ffill", "bfill", "value", "delta"):
                pass
        elif isinstance(n, ast.Call):
            for kw in n.keywords:
                a = pos(n)[0]
                t = txt(n)
                if kw.arg:
                    ks = "%s=%s" % (kw.arg, txt(kw.value))
                    for cand in (", " + ks, ks + ", ", ks):
                        if cand in t:
                            add(n, t.replace(cand, ""), "dropkw")
                            break
                if kw.arg == "closed" and txt(kw.value).endswith(".closed"):
                    nm = txt(kw.value)
                    alt = {"self.closed": "'left'", "stairs1.closed": "stairs2.closed", "other.closed": "self.closed"}.get(nm)
                    if alt:
                        add(kw.value, alt, "closed")
            if isinstance(n.func, ast.Attribute) and n.func.attr not in ("_new", "join", "layer", "agg"):
                base = txt(n.func.value)
                if base not in ("np", "pd", "sc", "pd.Series", "warnings", "bisect", "Stairs", "operator", "functools", "pd.Index", "super()"):
                    add(n, base, "dropcall")
            if len(n.args) == 2 and not n.keywords and txt(n.func) not in ("isinstance", "getattr", "setattr"):
                add(n, "%s(%s, %s)" % (txt(n.func), txt(n.args[1]), txt(n.args[0])), "swap")
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            t = txt(n)
            if t == "np.nan":
                add(n, "0", "nan")
            elif t.startswith("self.") and t.endswith("initial_value"):
                add(n, t.replace("self.", "other."), "otherinit") if "other" in src[max(0, pos(n)[0] - 800):pos(n)[1] + 200] else None
        elif isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
            add(n, "pass", "delstmt")
        elif isinstance(n, ast.AugAssign):
            add(n, "pass", "delstmt")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, "pass", "delstmt")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and txt(n.targets[0]) in txt(n.value):
            add(n, "pass", "delstmt")
    seen, res = set(), []
    for m in sorted(out, key=lambda m: (m["a"], m["z"], m["new"])):
        new = b[:m["a"]] + m["new"].encode() + b[m["z"]:]
        try:
            compile(new, f, "exec")
        except (SyntaxError, ValueError):
            continue
        if new in seen:
            continue
        seen.add(new)
        m["id"] = "%s:%d:%s:%d" % (f, m["line"], m["kind"], len(res))
        res.append(m)
    return res


LOCK = threading.Lock()


def judge(m, slot):
    w = "/tmp/mutw_%s" % slot
    p = os.path.join(w, "staircase", m["file"])
    orig = open(os.path.join(BASE, m["file"]), "rb").read()
    open(p, "wb").write(orig[:m["a"]] + m["new"].encode() + orig[m["z"]:])
    t = time.time()
    caught, runs = None, {}
    try:
        env = dict(os.environ, VERIF_REPO=w, VERIF_WORKERS="2", VERIF_SHRINK_S="0", VERIF_EVIDENCE="/tmp/mutev_%s" % slot,
                   VERIF_SCALE=os.environ.get("VERIF_SCALE", "0.25"), VERIF_SEED="1", VERIF_CASE_S="20")
        for c in FILES[m["file"]].split():
            r = subprocess.run(["nice", "-n", "15", os.path.join(ROOT, "check.py"), c], env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=900)
            runs[c] = r.returncode
            if r.returncode != 0:
                caught = c
                msg = r.stdout.decode(errors="replace")[-500:]
                break
    finally:
        open(p, "wb").write(orig)
    return dict(m, caught=caught, rc=runs.get(caught), runs=runs, s=round(time.time() - t), msg=msg[:300] if caught else "")


if __name__ == "__main__":
    allm = [m for f in FILES for m in mutants(f)]
    if sys.argv[1] == "list":
        for m in allm:
            print(m["id"], "|", m["old"].replace("\n", " "), "->", m["new"].replace("\n", " ")[:100])
        print(len(allm))
        sys.exit()
    out = sys.argv[2]
    done = set()
    if os.path.exists(out):
        done = {json.loads(x)["id"] for x in open(out)}
    todo = [m for m in allm if m["id"] not in done]
    random.Random(5).shuffle(todo)
    par = int(os.environ.get("PAR", "4"))
    slots = list(range(par))
    for s in slots:
        shutil.rmtree("/tmp/mutw_%s" % s, ignore_errors=True)
        shutil.copytree("/repo", "/tmp/mutw_%s" % s, symlinks=True)

    def go(m):
        with LOCK:
            s = slots.pop()
        try:
            r = judge(m, s)
        except Exception as e:  # noqa
            r = dict(m, caught="error", msg=repr(e))
        finally:
            with LOCK:
                slots.append(s)
        with LOCK:
            with open(out, "a") as f:
                f.write(json.dumps(r) + "\n")

    with cf.ThreadPoolExecutor(par) as ex:
        list(ex.map(go, todo))
    for s in range(par):
        shutil.rmtree("/tmp/mutw_%s" % s, ignore_errors=True)
        shutil.rmtree("/tmp/mutev_%s" % s, ignore_errors=True)
