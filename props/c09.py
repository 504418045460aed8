"""C09: ecdf, percentiles, median, mode, hist, describe follow the value distribution."""
from fractions import Fraction as F

import numpy as np
import pandas as pd

from vlib import domains, model, stat
from vlib import gen as G
from vlib.model import frac
from vlib.real import Discard, build, call, require, spec_model, val

RULE = (
    "functions with a finite defined piece (half of them with a power-of-two total length so that every cumulative share is "
    "exact) x 3-6 distribution queries (ecdf, its left limit, percentile, fractile, quantiles, median, mode, hist with all bin "
    "kinds, sides and stats, describe with windows), scalar and vector; oracle: exact rational distribution of the model; "
    "non-trivial: at least two distinct values over the finite pieces"
)
BUDGET = {"quick": 9000, "thorough": 180000}


def dyadic_total(d, spec):
    """stretch one defined finite piece so that the total defined length is a power of two"""
    st = spec["steps"]
    lens = [(i, st[i + 1][0] - st[i][0]) for i in range(len(st) - 1) if st[i][1] is not None]
    tot = sum(ln for _, ln in lens)
    p = 1
    while p < tot:
        p *= 2
    k, _ = d.pick(lens)
    for j in range(k + 1, len(st)):
        st[j][0] += p - tot


def gen(d):
    dom = G.domain(d)
    f = G.fn_finite(d, G.closed(d), levels=d.chance(40))
    if d.chance(60):
        dyadic_total(d, f)
        if "post" in f.get("route", {}) or "noise" in f.get("route", {}):
            f["route"].pop("noise", None)
    m = spec_model(f)
    vs = sorted(model.value_sums(m))
    bounds = [b for b in model.share_boundaries(m) if 0 < b < 1]
    qs = []
    for _ in range(d.int(3, 6)):
        k = d.wpick([(14, "ecdf"), (18, "pct"), (12, "frac"), (6, "quant"), (6, "median"), (6, "mode"), (26, "hist"), (12, "desc")])
        q = {"k": k}
        if k == "ecdf":
            q["y"] = [js(d.pick(vs)) if d.chance(60) else G.value(d) for _ in range(d.int(1, 4))]
            q["left"] = d.int(0, 1)
            q["vec"] = d.int(0, 1)
        elif k in ("pct", "frac"):
            out = []
            for _ in range(d.int(1, 4)):
                t = d.int(0, 9)
                if t < 4 and bounds:
                    b = d.pick(bounds)
                    out.append([b.numerator, b.denominator])
                elif t < 6:
                    out.append(d.pick([[0, 1], [1, 1], [1, 2], [1, 4], [3, 4]]))
                else:
                    out.append([d.int(0, 64), 64])
            q["p"] = out
            q["vec"] = d.int(0, 1)
            q["conv"] = d.wpick([(80, 0), (12, 1), (8, 2)])
        elif k == "quant":
            q["n"] = d.int(1, 9)
            q["sc"] = d.pick(["", "", "int64", "uint8"])
        elif k == "hist":
            q["closed"] = d.pick(["left", "right"])
            q["stat"] = d.pick(["sum", "frequency", "density", "probability"])
            kind = d.pick(["unit", "breaks", "breaks", "ii", "default"])
            if kind in ("unit", "default") and vs[-1] - vs[0] > 300:
                kind = "breaks"
            q["bins"] = kind
            if kind in ("breaks", "ii"):
                x = js(d.pick(vs)) if d.chance(60) else G.value(d)
                e = [x]
                for _ in range(d.int(1, 5)):
                    nxt = [js(v) for v in vs if v > frac(e[-1])]
                    if nxt and d.chance(50):
                        e.append(d.pick(nxt[:2]))
                    else:
                        e.append(e[-1] + d.pick([1, 0.5, 2, 10]))
                if d.chance(40):
                    e = [js(vs[0]) - 1] + [y for y in e if y > js(vs[0]) - 1 and y < js(vs[-1]) + 1] + [js(vs[-1]) + 1]
                q["e"] = e
                if kind == "ii" and len(e) > 3 and d.chance(40):
                    q["gap"] = 1
                q["c"] = d.pick(["list", "array", "tuple"])
        elif k == "desc":
            if d.chance(60):
                q["w"] = G.window(d, G.pts_of(f), unb=20)
            if d.chance(50):
                q["ps"] = [d.pick([0, 10, 25, 33, 50, 75, 90, 99, 100, 62.5]) for _ in range(d.int(0, 3))]
                q["ps"] = sorted(set(q["ps"]))
        qs.append(q)
    return {"dom": dom, "f": f, "qs": qs}


def js(v):
    return int(v) if v.denominator == 1 else float(v)


def run(case):
    dom = domains.get(case["dom"])
    f, m = build(case["f"], dom), spec_model(case["f"])
    if not stat.pieces_ok(m):
        raise Discard("no finite defined piece")
    labels = ["dom:" + dom.name, "shares:" + ("dyadic" if stat.dyadic(m, dom) else "other")]
    for q in case["qs"]:
        k = q["k"]
        labels.append("query:" + k)
        if k == "ecdf":
            ec = call("ecdf", lambda: f.ecdf)
            ys = q["y"]
            if q["vec"]:
                r = call("ecdf(vector)", (lambda: ec.limit(ys, "left")) if q["left"] else (lambda: ec(ys)))
                require(len(r) == len(ys), "ecdf(vector) has length %d", len(r))
            else:
                r = [call("ecdf(y)", (lambda: ec.limit(y, "left")) if q["left"] else (lambda: ec(y))) for y in ys]
            for y, x in zip(ys, r):
                stat.check_ecdf(x, frac(y), m, q["left"], "ecdf%s(%s)" % (" left limit" if q["left"] else "", y))
        elif k in ("pct", "frac"):
            scale = 100 if k == "pct" else 1
            fr = [F(a, b) for a, b in q["p"]]
            args = [float(x * scale) for x in fr]
            args = [int(a) if a.is_integer() else a for a in args]
            acc = call(k, lambda: f.percentile if k == "pct" else f.fractile)
            if q.get("conv") == 2:  # those of the ecdf
                acc = call("ecdf.%ss()" % k, lambda: f.ecdf.percentiles() if k == "pct" else f.ecdf.fractiles())
            elif q.get("conv"):  # the percentiles derived from the fractiles; neither changes the other
                acc = call("to_percentiles", lambda: acc.to_percentiles() if k == "frac" else f.fractile.to_percentiles())
                scale = 100
                args = [a * 100 if k == "frac" else a for a in args]
            if q["vec"]:
                r = call("%s(vector)" % k, acc, args)
                require(len(r) == len(args), "vector query has length %d", len(r))
            else:
                r = [call(k, acc, a) for a in args]
            for x, qq, a in zip(r, fr, args):
                stat.check_quantile(x, F(a) / scale, m, dom, "%s(%s)" % ("percentile" if k == "pct" else "fractile", a),
                                    exact_q=F(a) == qq * scale and (qq.denominator & (qq.denominator - 1)) == 0)
        elif k == "quant":
            n = q["n"]
            r = call("quantiles(%d)" % n, f.quantiles, np.dtype(q["sc"]).type(n) if q.get("sc") else n)
            require(len(r) == n - 1, "quantiles(%d) has length %d", n, len(r))
            for i, x in enumerate(r):
                stat.check_quantile(x, F(i + 1, n), m, dom, "quantiles(%d)[%d]" % (n, i), exact_q=(n & (n - 1)) == 0)
        elif k == "median":
            x = call("median", f.median)
            stat.check_quantile(x, F(1, 2), m, dom, "median")
            require(x == f.percentile(50), "median() is %s but percentile(50) is %s", x, f.percentile(50))
        elif k == "mode":
            stat.check_mode(call("mode", f.mode), m, dom)
        elif k == "hist":
            closed, st = q["closed"], q["stat"]
            if q["bins"] == "default":
                h = call("hist()", f.hist, closed=closed, stat=st)
                edges = None
            elif q["bins"] == "unit":
                h = call("hist(unit)", f.hist, "unit", closed, st)
                edges = None
            else:
                e = q["e"]
                edges = list(zip(e, e[1:]))
                if q["bins"] == "ii":
                    if q.get("gap"):
                        edges = [edges[0]] + edges[2:]
                    ii = pd.IntervalIndex.from_tuples([(float(a), float(b)) for a, b in edges], closed=closed)
                    # the bins carry their own side, the closed argument is irrelevant then
                    h = call("hist(IntervalIndex)", f.hist, bins=ii, stat=st)
                else:
                    c = {"list": list, "array": np.array, "tuple": tuple}[q["c"]](e)
                    h = call("hist(bins=%s)" % (e,), f.hist, bins=c, closed=closed, stat=st)
            stat.check_hist(h, m, dom, closed, st, edges)
            labels.append("hist:%s/%s/%s" % (q["bins"], closed, st))
        elif k == "desc":
            describe(f, m, dom, q)
    vs = model.value_sums(m)
    return labels, len(vs) >= 2


def describe(f, m, dom, q):
    kw = {}
    a = b = None
    mw = m
    if "w" in q:
        a, b = [None if t is None else F(t, 2) for t in q["w"]]
        mw = model.clip(m, a, b)
        kw["where"] = tuple(None if t is None else dom.lab(t) for t in (a, b))
    if not stat.pieces_ok(mw):
        return
    ps = q.get("ps")
    if ps is not None:
        kw["percentiles"] = ps
    else:
        ps = [25, 50, 75]
    r = call("describe(%r)" % kw, f.describe, **kw)
    require(isinstance(r, pd.Series), "describe() returned %s", type(r))
    want = ["unique", "mean", "std", "min"] + ["%s%%" % p for p in ps] + ["max"]
    require(sorted(r.index) == sorted(want), "describe() has entries %s, expected %s", list(r.index), want)
    for k, x in r.items():
        stat.plain(x, "describe()[%r]" % k)
    vals = model.values_in(m, a, b, m.closed)
    require(val(r["unique"]) == len(model.value_sums(mw)), "describe()['unique'] is %s, expected %d", r["unique"], len(model.value_sums(mw)))
    stat.check_mean(r["mean"], mw, dom, "describe()['mean']")
    stat.check_std(r["std"], mw, dom, "describe()['std']")
    stat.near(val(r["min"]), min(vals), F(1, 10**9), "describe()['min']")
    stat.near(val(r["max"]), max(vals), F(1, 10**9), "describe()['max']")
    for p in ps:
        stat.check_quantile(r["%s%%" % p], F(p) / 100, mw, dom, "describe()['%s%%']" % p, exact_q=p in (0, 25, 50, 75, 100, 62.5))
