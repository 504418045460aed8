"""C20: shift and diff are exact translations, rolling_mean the mean over a moving window."""
from fractions import Fraction as F

import numpy as np
import pandas as pd

from vlib import domains, model
from vlib import gen as G
from vlib.real import _read, build, call, close, compare, require, show, spec_model, val

RULE = (
    "functions (steps, undefined stretches, step-free, materialisation states) x (a) shifts/diffs by deltas of either sign and zero, in "
    "int/float/numpy/Timedelta/timedelta flavours, and chains of them, against f(x - d) and f(x) - f(x - d) pointwise incl. the closed "
    "side; (b) rolling_mean over trailing/leading/centred/asymmetric windows and bounded/half-bounded/unbounded where: the index must be "
    "exactly the x (inside where) at which a window edge meets a step point, every value the exact rational mean of f within where over "
    "[x+l, x+r], and linear interpolation at generated x between consecutive points must reproduce the mean whenever f is defined "
    "throughout the windows between them; non-trivial: f has steps and (delta != 0, or the rolling mean has two or more points)"
)
BUDGET = {"quick": 11000, "thorough": 120000}


def gen(d):
    dom = G.domain(d, G.EXACT_DOMAINS)
    kind = d.wpick([(30, "shift"), (22, "diff"), (60, "roll")])
    cl = G.closed(d)
    if kind == "roll":
        f = G.fn(d, cl, na=d.wpick([(60, "none"), (15, "some"), (8, "ends"), (6, "mid"), (5, "lead"), (5, "trail"), (3, "many")]), big="mid",
                 min_steps=d.pick([0, 1, 2, 3]), gap=d.pick([1, 2, 3, 6, 10]))
        l = d.wpick([(3, -d.int(0, 12)), (1, d.int(0, 8))])
        r = l + d.int(1, 14)
        k = d.int(0, 5)
        if k == 0:  # centred
            h = d.int(1, 8)
            l, r = -h, h
        elif k == 1:  # trailing
            l, r = -d.int(1, 14), 0
        elif k == 2:
            l, r = 0, d.int(1, 14)
        pts = G.pts_of(f)
        w = [None, None] if d.chance(45) else G.window(d, pts, unb=25)
        if w[0] is not None and w[1] is not None and d.chance(70):
            # wide enough for some windows
            w[1] = max(w[1], w[0] + (r - l) + d.int(0, 8))
        case = {"dom": dom, "kind": kind, "f": f, "l": l, "r": r, "w": w, "wn": d.int(0, 2), "xs": [d.int(1, 15) for _ in range(3)],
                "lf": d.pick(["pd", "pd", "py", "np", "pds", "nps"]), "wf": d.pick(["pd", "pd", "py", "np", "pds", "nps"]), "cont": d.int(0, 1)}
        return case
    f = G.fn(d, cl)
    ds = [d.wpick([(8, d.int(-12, 12)), (1, 0), (2, d.int(-200, 200))]) for _ in range(d.wpick([(5, 1), (2, 2), (1, 3)]))]
    pts = G.pts_of(f)
    if len(pts) > 1 and d.chance(35):  # a translation which makes step points coincide
        ds[0] = 2 * (d.pick(pts) - d.pick(pts))
    return {"dom": dom, "kind": kind, "f": f, "ds": ds, "lf": d.pick(["pd", "pd", "py", "np", "pds", "nps"]), "back": d.chance(25),
            "pre": d.pick(["", "", "v", "d"])}


def run(case):
    dom = domains.get(case["dom"])
    f, m = build(case["f"], dom), spec_model(case["f"])
    labels = ["dom:" + dom.name, case["kind"], "closed:" + m.closed]
    lf = case["lf"]
    if dom.datelike and (lf == "py" and not dom.py_ok or lf in ("pds", "nps") and dom.unit % (2 * 10**9)):
        lf = "pd"
    if case["kind"] == "roll":
        return roll(case, dom, f, m, labels, lf)
    nontriv = False
    g, mg = f, m
    for x in case["ds"]:
        delta = dom.length(F(x, 2), lf)
        h = call("%s(%r)" % (case["kind"], delta), getattr(g, case["kind"]), delta)
        sh = model.shift(mg, F(x, 2))
        mh = sh if case["kind"] == "shift" else model.binary("sub", mg, sh, mg.closed)
        compare(h, mh, dom, "%s(%s ticks)" % (case["kind"], F(x, 2)))
        if mh.pts:
            require(h.closed == m.closed, "the closed side changed to %s", h.closed)
        nontriv |= bool(mg.n and x)
        g, mg = h, mh
        if case["pre"]:
            _read(g, case["pre"], dom)
    if case["kind"] == "shift" and case["back"]:
        back = call("shift back", g.shift, dom.length(-F(sum(case["ds"]), 2), lf))
        compare(back, m, dom, "shift there and back")
    compare(f, m, dom, "f after the call")
    labels.append("delta:" + ("0" if not case["ds"][0] else "+" if case["ds"][0] > 0 else "-"))
    return labels, nontriv


def mean_over(m, a, b):
    c = model.clip(m, a, b)
    return model.mean(c) if model.total(c) > 0 else None


def roll(case, dom, f, m, labels, lf):
    l, r = F(case["l"], 2), F(case["r"], 2)
    a, b = [None if t is None else F(t, 2) for t in case["w"]]
    wf = dom.bound_flavour(case["wf"])
    win = (dom.length(l, lf), dom.length(r, lf))
    if case["cont"]:
        win = list(win)
    if a is None and b is None and case["wn"] == 0:
        args = ()
    else:
        import staircase as sc

        lo = dom.lab(a, wf) if a is not None else None if case["wn"] == 1 else -sc.inf
        hi = dom.lab(b, wf) if b is not None else None if case["wn"] == 1 else sc.inf
        args = ((lo, hi) if case["wn"] else [lo, hi],)
    s = call("rolling_mean(%r, %r)" % (win, args), f.rolling_mean, win, *args)
    require(isinstance(s, pd.Series), "rolling_mean returned %s", type(s))
    c = model.clip(m, a, b)
    labels.append("where:" + ("unbounded" if a is None and b is None else "half" if a is None or b is None else "bounded"))
    labels.append("window:" + ("centred" if l == -r else "trailing" if r <= 0 else "leading" if l >= 0 else "asymmetric"))
    if not c.pts:
        # a constant (or nowhere defined) function has no knots; whatever is returned must take its value
        for v in s.values:
            require(close(val(v), c.vals[0]), "rolling mean of the constant %s is %s", show(c.vals[0]), v)
        return labels + ["constant"], False
    exp = sorted({p - e for p in c.pts for e in (l, r)})
    exp = [x for x in exp if (a is None or x + l >= a) and (b is None or x + r <= b)]
    try:
        xs = [dom.inv(x) for x in s.index]
    except (ValueError, TypeError) as e:
        require(False, "rolling_mean index: %s", e)
    if dom.tz is not None and len(s):
        require(str(s.index.tz) == dom.zone, "rolling_mean lost the timezone: %s", s.index)
    require(xs == exp, "rolling_mean(l=%s, r=%s, where=%s) is given at %s, expected %s", l, r, (a, b), show_l(xs), show_l(exp))
    mag = max([abs(v) for v in c.vals if v is not None] + [F(0)])

    def tol(x):
        t = F(1, 10**9) * (1 + mag)
        if dom.datelike:
            tt = model.total(model.clip(c, x + l, x + r))
            if tt:
                t += F(c.n + 3) / (tt * dom.unit)
        return t

    ys = [val(v) for v in s.values]
    for x, y in zip(xs, ys):
        e = mean_over(c, x + l, x + r)
        ok = (y is None) == (e is None) and not isinstance(y, str) and (e is None or abs(y - e) <= tol(x))
        require(ok, "rolling_mean(l=%s, r=%s, where=%s) at %s is %s, expected %s", l, r, (a, b), x, show(y), show(e))
    interp = 0
    for x0, y0, x1, y1 in zip(xs, ys, xs[1:], ys[1:]):
        seg = model.clip(m, x0 + l, x1 + r)
        full = model.total(seg) == x1 + r - x0 - l and (a is None or x0 + l >= a) and (b is None or x1 + r <= b)
        if not full:
            continue
        for k in case["xs"]:
            x = x0 + (x1 - x0) * F(k, 16)
            e = mean_over(m, x + l, x + r)
            y = y0 + (y1 - y0) * F(k, 16)
            require(abs(y - e) <= tol(x) + tol(x0) + tol(x1), "interpolating the rolling mean (l=%s, r=%s, where=%s) at %s gives %s, the mean is %s",
                    l, r, (a, b), x, show(y), show(e))
            interp += 1
    if interp:
        labels.append("interpolated")
    if not xs:
        labels.append("no point fits")
    return labels, len(xs) > 1


def show_l(xs):
    return "[" + ", ".join(str(float(x)) for x in xs) + "]"
