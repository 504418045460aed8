"""C10: min / max / values_in_range over a window respect endpoint closedness."""
from fractions import Fraction as F

import numpy as np

import staircase as sc
from vlib import domains, model
from vlib import gen as G
from vlib.real import build, call, same, require, show, spec_model, val

RULE = (
    "functions x windows (endpoints on, next to, between, outside step points, unbounded) x the four interval closedness options "
    "and the default x values_in_range / min / max / agg / plain min() max(); oracle: set of values of the model at the defined "
    "points of the interval; quick also enumerates every window over a 7-position grid for fixed small functions; non-trivial: an "
    "endpoint sits on a step point or the window contains a step"
)
BUDGET = {"quick": 12000, "thorough": 250000}
CLOSED = ["left", "right", "both", "neither"]


def gen(d):
    dom = G.domain(d)
    f = G.maybe_scaled(d, G.fn(d, G.closed(d)))
    ws = []
    for _ in range(d.int(1, 4)):
        c = d.pick([None] + CLOSED)
        w = G.window(d, G.pts_of(f), unb=25, allow_degenerate=c == "both")
        ws.append({"w": w, "c": c, "via": d.pick(["values", "min", "max", "aggmin", "aggmax", "agglist", "aggmixed"]),
                   "inf": d.pick(["None", "sc", "float"]), "lab": d.pick(["pd", "np", "alt", "py", "pd", "np", "alt", "py", "pds", "nps"]), "kw": d.int(0, 1),
                   "list": d.int(0, 1)})
    case = {"dom": dom, "f": f, "ws": ws}
    if d.chance(30):
        case["plain"] = d.pick(["min", "max", "values"])
    return case


def enum(tier):
    fs = [
        (0, [[0, 1], [1, 2], [2, 3]]),
        (None, [[0, 1], [1, None], [2, 3]]),
        (5, [[0, None], [1, -1], [2, None]]),
        (4, [[0, 7]]),
        (1, []),
        (None, []),
    ]
    pos = [None, -1, 0, 1, 2, 3, 4, 5]
    i = 0
    for init, steps in fs:
        for cl in ("left", "right"):
            for c in [None] + CLOSED:
                for a in pos:
                    for b in pos:
                        if a is not None and b is not None and (a > b or (a == b and c != "both")):
                            continue
                        i += 1
                        via = ["values", "min", "max"] if tier == "thorough" else [["values", "min", "max"][i % 3], "values"]
                        yield {"dom": "ts" if i % 5 == 0 else "int",
                               "f": {"closed": cl, "init": init, "steps": steps},
                               "ws": [{"w": [a, b], "c": c, "via": v, "inf": "None", "lab": "pd", "kw": 1, "list": 0} for v in via]}


def run(case):
    dom = domains.get(case["dom"])
    f, m = build(case["f"], dom), spec_model(case["f"])
    labels = ["dom:" + dom.name, "f-closed:" + m.closed]
    nt = False

    def check_set(r, exp, what):
        got = sorted(val(x) if val(x) is not None else F(10**9) for x in r)
        require(not any(isinstance(x, str) for x in got), "%s contains infinity", what)
        require(
            len(got) == len(exp) and all(same(g, e) for g, e in zip(got, sorted(exp))),
            "%s is %s, expected %s", what, list(r), [show(v) for v in sorted(exp)],
        )

    def check_one(x, exp, which, what):
        if not exp:
            labels.append("empty set")
            return
        require(same(val(x), (min if which == "min" else max)(exp)), "%s is %s, expected the %s of %s", what, x, which, [show(v) for v in sorted(exp)])

    if case.get("plain"):
        exp = model.values_in(m, None, None, "both")
        p = case["plain"]
        if p == "values":
            check_set(call("values_in_range()", f.values_in_range), exp, "values_in_range()")
        elif exp:
            check_one(call(p + "()", getattr(f, p)), exp, p, p + "()")
    for w in case["ws"]:
        a, b = w["w"]
        ta, tb = (None if a is None else F(a, 2)), (None if b is None else F(b, 2))
        fl = dom.bound_flavour(w["lab"])

        def lab(t, sign):
            if t is not None:
                return dom.lab(t, fl)
            if w["inf"] == "sc":
                return sc.inf if sign > 0 else -sc.inf
            if w["inf"] == "float" and not dom.datelike:
                return sign * float("inf")
            return None

        win = (lab(ta, -1), lab(tb, 1))
        if w["list"]:
            win = list(win)
        c = w["c"]
        exp = model.values_in(m, ta, tb, c or m.closed)
        via = w["via"]
        what = "%s(where=%s, closed=%s)" % (via, win, c)
        kw = {} if c is None else {"closed": c}
        if w["kw"]:
            kw["where"] = win
            args = ()
        else:
            args = (win,)
        if via == "values":
            check_set(call(what, f.values_in_range, *args, **kw), exp, what)
        elif not exp:
            labels.append("empty set")
        elif ta is not None and ta == tb:
            pass  # agg clips, which rejects windows without length; values_in_range is checked on them
        elif via in ("min", "max"):
            # Stairs.min / max themselves take no window: agg is the public windowed form
            check_one(call(what, f.agg, via, win, **({} if c is None else {"closed": c})), exp, via, what)
        elif via in ("agglist", "aggmixed"):
            names = ["min", "max"] if via == "agglist" else ["max", "mean", "min"] if w["list"] else ["mean", "min", "max"]
            r = call(what, f.agg, names, *args, **kw)
            check_one(r["min"], exp, "min", what)
            check_one(r["max"], exp, "max", what)
        else:
            check_one(call(what, f.agg, via[3:], *args, **kw), exp, via[3:], what)
        on = ta in m.pts or tb in m.pts
        labels.append("closed:%s/%s" % (c, "on" if on else "off"))
        nt |= on or any((ta is None or p > ta) and (tb is None or p < tb) for p in m.pts)
    return labels, bool(nt)
