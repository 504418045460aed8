"""C19: cov and corr are the length-weighted moments over the common defined window."""
import math
from fractions import Fraction as F

import numpy as np
import pandas as pd

import staircase as sc
from staircase.core.arrays.extension import StairsArray
from vlib import domains, model
from vlib import gen as G
from vlib.model import Fn
from vlib.real import build, call, require, spec_model, val
from vlib.stat import plain

RULE = (
    "pairs (and collections of 1-4) of functions with different, partially overlapping domains of definition x finite windows (and "
    "unbounded ones where the common domain is bounded) x lags of either sign x clip pre/post x domains incl. datetime windows with "
    "Timedelta lags; oracle: exact rational moments over the common region of the model; plus symmetry, cov(f, f) = var(f), "
    "corr(f, f) = 1, corr in [-1, 1], NaN for zero spread, and the matrices of the array, accessor and top-level forms; non-trivial: "
    "the functions have different domains of definition or a lag, and the exact covariance is not 0"
)
BUDGET = {"quick": 3600, "thorough": 120000}


def gen(d):
    dom = G.domain(d)
    cl = G.closed(d)
    na = d.wpick([(35, "none"), (25, "some"), (10, "ends"), (10, "mid"), (10, "lead"), (10, "trail")])
    vp = d.pick(["std", "std", "bool", "pos"])
    f = G.fn(d, cl, big="mid", na=na, vpool=vp, min_steps=d.pick([0, 1, 2, 3]))
    g = G.fn(d, cl, pool=G.pts_of(f), big="mid", na=d.wpick([(35, "none"), (25, "some"), (20, "ends"), (10, "mid"), (10, "lead")]), vpool=vp,
             min_steps=d.pick([0, 1, 2, 3]))
    if not g["steps"] and d.chance(30):
        g["closed"] = "left" if cl == "right" else "right"
    pts = G.pts_of(f, g)
    case = {"dom": dom, "f": f, "g": g}
    k = d.int(0, 9)
    if k < 6 and pts:  # a window which contains several steps
        a, b = 2 * pts[0] - d.int(0, 4), 2 * pts[-1] + d.int(0, 4)
        if d.chance(40):
            a, b = sorted((d.pick(pts) * 2 + d.pick([0, 1, -1]), d.pick(pts) * 2 + d.pick([0, 1, -1])))
        case["w"] = [a, b + 2 * (a >= b)]
    else:
        case["w"] = G.window(d, pts, unb=0)
    if d.chance(10):
        case["w"] = [None, None]
    if d.chance(45):
        case["lag"] = d.pick([1, -1, 2, -2, 3, 5, -4])
        case["clip"] = d.pick(["pre", "post"])
        case["lagfl"] = d.pick(["pd", "py", "np", "pd", "py", "np", "pds", "nps"])
    if d.chance(20):
        case["wfl"] = d.pick(["pds", "nps", "np"])
    case["wl"] = d.int(0, 1)
    case["kw"] = d.int(0, 1)
    if d.chance(30):
        case["more"] = [G.fn(d, cl, pool=pts, big="mid", vpool=vp) for _ in range(d.int(0, 2))]
        case["mat"] = d.pick(["array", "sc", "top", "topdict", "toparr"])
    case["self"] = d.int(0, 3) == 0
    return case


def moments(f, g, a, b):
    """exact (cov, var f, var g, total) over the common region, or None"""
    f, g = model.clip(f, a, b), model.clip(g, a, b)
    f, g = model.common(f, g)
    pts = sorted(set(f.pts) | set(g.pts))
    t = sf = sg = sff = sgg = sfg = F(0)
    for p, q in zip(pts, pts[1:]):
        x, y = f.right(p), g.right(p)
        if x is not None and y is not None:
            w = q - p
            t += w
            sf += w * x
            sg += w * y
            sff += w * x * x
            sgg += w * y * y
            sfg += w * x * y
    if not t:
        return None
    return sfg / t - sf * sg / t / t, sff / t - (sf / t) ** 2, sgg / t - (sg / t) ** 2, t, max([abs(v) for v in f.vals + g.vals if v is not None])


def bounded_common(f, g):
    u = model.combine([f, g], lambda v: None if v[0] is None or v[1] is None else F(1))
    return u.vals[0] is None and u.vals[-1] is None


def tol_of(mo, dom, n):
    c, vf, vg, t, mag = mo
    tol = F(1, 10**9) * (1 + mag * mag)
    if dom.datelike:
        tol += (1 + mag) * F(6 * (n + 4)) / (t * dom.unit)
    return tol


def check_cov(x, mo, dom, n, what):
    g = plain(x, what)
    if mo is None:
        require(g is None, "%s is %s although nothing is commonly defined", what, g)
        return
    require(g is not None and not isinstance(g, str), "%s is %s, expected %s", what, x, float(mo[0]))
    require(abs(g - mo[0]) <= tol_of(mo, dom, n), "%s is %s, expected %s", what, x, float(mo[0]))


def check_corr(x, mo, dom, n, what):
    g = plain(x, what)
    require(g is None or (not isinstance(g, str) and -1 <= g <= 1), "%s is %r, outside [-1, 1]", what, x)
    if mo is None:
        require(g is None, "%s is %s although nothing is commonly defined", what, x)
        return
    c, vf, vg, t, mag = mo
    if not vf or not vg:
        require(g is None, "%s is %s although a standard deviation is zero", what, x)
        return
    tol = tol_of(mo, dom, n)
    sd = math.sqrt(float(vf)) * math.sqrt(float(vg))
    slack = 4 * float(tol) * (1 / sd + 1 / float(min(vf, vg))) + 1e-9
    if slack > 0.5:
        return  # ill-conditioned
    require(g is not None, "%s is NaN, expected %s", what, float(c) / sd)
    require(abs(float(g) - float(c) / sd) <= slack, "%s is %s, expected %s", what, x, float(c) / sd)


def run(case):
    dom = domains.get(case["dom"])
    f, mf = build(case["f"], dom), spec_model(case["f"])
    g, mg = (f, mf) if case["self"] else (build(case["g"], dom), spec_model(case["g"]))
    H = lambda t: None if t is None else F(t, 2)  # noqa
    L = lambda t: None if t is None else dom.lab(t, dom.bound_flavour(case.get("wfl", "pd")))  # noqa
    a, b = [H(t) for t in case["w"]]
    win = (L(a), L(b))
    if case["wl"]:
        win = list(win)
    labels = ["dom:" + dom.name]
    n = mf.n + mg.n
    lag = case.get("lag", 0)
    # the meaning of lag: g replaced by g shifted by -lag; upper end reduced by lag for clip="pre"
    mg2, b2 = model.shift(mg, F(-lag)), (b - lag if lag and b is not None and case["clip"] == "pre" else b)
    kw = {}
    if lag:
        fl = case["lagfl"]
        if fl == "py" and not dom.py_ok or fl == "np" or dom.datelike and fl in ("pds", "nps"):
            fl = "pd"
        if dom.kind == "fdec":
            return ["lag on an inexact domain skipped"], False
        kw = {"lag": dom.length(lag, fl), "clip": case["clip"]}
        labels.append("lag:%s:%s" % (case["clip"], "+" if lag > 0 else "-"))
    if a is not None and b2 is not None and a >= b2:
        return labels + ["window emptied by the lag"], False
    if a is None and not bounded_common(mf, mg2):
        # an unbounded window only says something when the common region is bounded
        return labels + ["unbounded common region"], False
    what = "(f, g, where=%s%s)" % (case["w"], ", lag=%s, clip=%s" % (lag, case["clip"]) if lag else "")
    mo = moments(mf, mg2, a, b2)
    if case["kw"]:
        cov = call("cov" + what, f.cov, g, where=win, **kw)
        corr = call("corr" + what, f.corr, other=g, where=win, **kw)
    else:
        cov = call("cov" + what, f.cov, g, win, **kw)
        corr = call("corr" + what, f.corr, g, win, **kw)
    check_cov(cov, mo, dom, n, "cov" + what)
    check_corr(corr, mo, dom, n, "corr" + what)
    if not lag:
        check_cov(call("cov(g, f)", g.cov, f, win), mo, dom, n, "cov(g, f)")
        check_corr(call("corr(g, f)", g.corr, f, win), mo, dom, n, "corr(g, f)")
    else:
        # equivalently: shift first
        s = call("shift", g.shift, dom.length(-lag))
        w2 = (win[0], L(b2))
        check_cov(call("cov of the shifted function", f.cov, s, w2), mo, dom, n, "cov(f, g.shift(-lag))")
    # cov(f, f) = var(f)
    m1 = moments(mf, mf, a, b)
    if a is not None and m1 is not None:
        fc = f.clip(*win)
        check_cov(call("cov(f, f)", f.cov, f, win), m1, dom, n, "cov(f, f)")
        v = call("var", fc.var)
        require(abs(float(v) - float(call("cov(f, f)", f.cov, f, win))) <= float(tol_of(m1, dom, n)) * 4, "cov(f, f) differs from var(f) = %s", v)
        check_corr(call("corr(f, f)", f.corr, f, win), m1, dom, n, "corr(f, f)")
        if m1[1]:
            labels.append("self correlation")
    if "mat" in case and not lag and a is not None:
        matrix(case, dom, [f, g], [mf, mg], a, b, win)
        labels.append("matrix:" + case["mat"])
    labels.append("common:%s" % ("none" if mo is None else "zero spread" if not mo[1] or not mo[2] else "proper"))
    labels.append("domains:%s" % ("differ" if model.unary("isna", mf).vals != model.unary("isna", mg).vals else "same"))
    nt = mo is not None and bool(mo[0]) and (lag != 0 or mf.has_na() or mg.has_na())
    return labels, nt


def matrix(case, dom, xs, ms, a, b, win):
    xs = xs + [build(s, dom) for s in case["more"]]
    ms = ms + [spec_model(s) for s in case["more"]]
    how = case["mat"]
    keys = ["k%d" % i for i in range(len(xs))]
    for name, chk in (("cov", check_cov), ("corr", check_corr)):
        if how == "array":
            r = call(name, getattr(StairsArray(np.array(xs)), name), win)
        elif how == "sc":
            r = call(name, getattr(pd.Series(xs, index=keys, dtype="Stairs").sc, name), win)
            require(list(r.index) == keys and list(r.columns) == keys, "%s: labels are %s", name, list(r.index))
        elif how == "topdict":
            r = call(name, getattr(sc, name), dict(zip(keys, xs)), win)
        else:
            r = call(name, getattr(sc, name), xs if how == "top" else np.array(xs), win)
        r = np.asarray(r, dtype=float)
        require(r.shape == (len(xs), len(xs)), "%s matrix has shape %s", name, r.shape)
        for i in range(len(xs)):
            for j in range(len(xs)):
                mo = moments(ms[i], ms[j], a, b)
                chk(r[i, j], mo, dom, ms[i].n + ms[j].n, "%s matrix[%d, %d] (%s)" % (name, i, j, how))
                require(r[i, j] == r[j, i] or (np.isnan(r[i, j]) and np.isnan(r[j, i])), "%s matrix is not symmetric", name)
