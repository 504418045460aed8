#!/usr/bin/env python3
"""Builds and judges the planted bugs of /verif/seeded from the specs in tools/seed_specs.py.

  seeds.py make [ID..]       write seeded/ID/{patch.diff,demo.sh,demo.py,meta.json} against /repo's HEAD
  seeds.py judge [ID..]      in scratch copies: demo clean/patched, existing tests, the property's own check
  seeds.py cross [ID..]      every check against the bug, not only that of its own property
  seeds.py quick [ID..]      only the property's own check
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SEEDED = os.path.join(ROOT, "seeded")
ORIG = "54eeb63"
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
# specs which turned out not to count: the existing tests notice them, or they edit lines of a fix commit
INVALID = set("""C01-subna C02-lost C02-stalevalues C04-maskand C06-isnainit C09-density C12-firstna C20-shiftneg
C20-trim C03-cast C16-bothforms C17-tzdrop
C01-divneginf C16-create C20-lastpoint C20-firstpoint C06-onstep C09-unitright C03-nonasc C07-bfill2 C08-dropna C13-shift0
C19-lagwindow C05-lead C16-valueorder C17-dayfloor
C07-fillconstna C15-fullmask C02-unsortedscalar C18-axis C06-hugeclip C20-diffconst""".split())


def sh(cmd, cwd=None, env=None, timeout=1200):
    e = dict(os.environ, **(env or {}))
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def make(ids):
    from seed_specs import SPECS
    work = "/tmp/seed_make"
    shutil.rmtree(work, ignore_errors=True)
    sh("git clone -q /repo %s" % work)
    for s in SPECS:
        if (ids and s["id"] not in ids) or (not ids and s["id"] in INVALID):
            continue
        sh("git checkout -q -- .", work)
        touched_orig = True
        for f, old, new in s["edits"]:
            p = os.path.join(work, "staircase", f)
            txt = open(p).read()
            if txt.count(old) != 1:
                print("!!", s["id"], f, "pattern occurs", txt.count(old), "times")
                touched_orig = None
                break
            open(p, "w").write(txt.replace(old, new))
        if touched_orig is None:
            continue
        rc, diff = sh("git diff", work)
        # which removed lines are from the original repository?
        orig = mine = 0
        for f in {e[0] for e in s["edits"]}:
            _, d = sh("git diff -U0 staircase/%s" % f, work)
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                if n:
                    _, b = sh("git blame -s -L %d,%d HEAD -- staircase/%s" % (a, a + n - 1, f), work)
                    for line in b.splitlines():
                        if line.lstrip("^").startswith(ORIG[:6]):
                            orig += 1
                        else:
                            mine += 1
        if not orig or mine:
            print("!!", s["id"], "removes %d original and %d own lines" % (orig, mine))
        out = os.path.join(SEEDED, s["id"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(
            '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TZ=UTC\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "demo.py"), "w").write(
            "import os\nimport sys\nimport warnings\n\nsys.path.insert(0, os.getcwd())\nwarnings.simplefilter('ignore')\n"
            "import numpy as np\nimport pandas as pd\nimport staircase as sc\n\n" + s["demo"].strip("\n") + "\n")
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)


def judge(i, full=True, props=None):
    d = os.path.join(SEEDED, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = "/tmp/seedw_%s" % i
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True)
    res = {"id": i, "property": meta["property"]}
    try:
        if full:
            rc, o = sh("bash %s/demo.sh" % d, w)
            res["demo_clean"] = rc
            if rc:
                res["out"] = o[-600:]
        rc, o = sh("git apply --whitespace=nowarn %s/patch.diff" % d, w)
        if rc:
            res["apply"] = o
            return res
        if full:
            rc, o = sh("bash %s/demo.sh" % d, w)
            res["demo_bug"] = rc
            env = {"PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC", "MPLBACKEND": "Agg", "MPLCONFIGDIR": "/opt/venv/mplconfig",
                   "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "PYTHONPATH": w}
            rc, o = sh(PY + " -m pytest tests -q -n 4 -p no:cacheprovider --timeout=300 --disable-warnings 2>&1 | tail -8", w, env)
            res["tests"] = o.strip().splitlines()[-1] if o.strip() else "?"
            if "failed" in res["tests"]:
                res["failing"] = [x for x in o.splitlines() if x.startswith("FAILED")][:3]
        for p in props or [meta["property"]]:
            t = time.time()
            ev = "/tmp/seedev_%s" % i
            rc, o = sh("%s/check.py %s" % (ROOT, p), ROOT, {"VERIF_REPO": w, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"),
                       "VERIF_EVIDENCE": ev, "VERIF_WORKERS": os.environ.get("VERIF_WORKERS", "8")}, 1500)
            shutil.rmtree(ev, ignore_errors=True)
            res.setdefault("checks", {})[p] = {"rc": rc, "s": round(time.time() - t)}
            if rc == 1:
                m = re.search(r"replay=(\S+)", o)
                lines = [x for x in o.splitlines() if x.strip()]
                k = next((n for n, x in enumerate(lines) if x.startswith("VIOLATION")), 0)
                res["checks"][p]["msg"] = " | ".join(lines[max(0, k - 2):k + 3])[:300]
            elif rc:
                res["checks"][p]["msg"] = o[-400:]
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return res


if __name__ == "__main__":
    mode, ids = sys.argv[1], sys.argv[2:]
    if mode == "make":
        make(ids)
        sys.exit()
    ids = ids or sorted(os.listdir(SEEDED))
    props = ["C%02d" % k for k in range(1, 21)] if mode == "cross" else None
    par = int(os.environ.get("PAR", "2"))
    with cf.ThreadPoolExecutor(par) as ex:
        for r in ex.map(lambda i: judge(i, mode != "quick" and mode != "cross", props), ids):
            ok = r.get("demo_clean", 0) == 0 and r.get("demo_bug", 1) != 0 and "failed" not in r.get("tests", "")
            caught = [p for p, c in r.get("checks", {}).items() if c["rc"] == 1]
            print("%-14s valid=%s caught=%s %s" % (r["id"], ok, ",".join(caught) or "NO", json.dumps({k: v for k, v in r.items() if k not in ("id",)})), flush=True)
