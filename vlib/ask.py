"""Queries on one step function, and their answers in comparable form."""
import math
from fractions import Fraction as F

import numpy as np
import pandas as pd

import staircase as sc
from staircase import Stairs

from . import gen as G

STATS = ["integral", "mean", "var", "std", "min", "max", "median", "mode", "value_sums", "value_sums_na",
         "ecdf", "ecdf_left", "ecdf_frame", "percentile", "percentiles", "fractile", "pct_frame", "hist", "agg", "aggw", "describe",
         "values_in_range", "vir_w", "hist_own"]
VIEWS = ["frame", "limit", "sample", "changes", "values", "points", "n", "bool", "identical", "slice_mean", "rolling", "isna", "cov",
         "slice_max", "sum"]


def gen_query(d, pts, pool=None):
    k = d.pick(pool) if pool else d.pick(STATS) if d.chance(80) else d.pick(VIEWS)
    q = {"q": k}
    if k in ("ecdf", "ecdf_left"):
        q["y"] = [d.int(-8, 8) / 2 for _ in range(d.int(1, 3))]
    elif k in ("percentile", "percentiles"):
        q["y"] = [d.pick([0, 50, 100, 25, 12.5, 37.5, 75]) if d.chance(70) else d.int(0, 1000) / 10 for _ in range(d.int(1, 3))]
    elif k == "fractile":
        q["y"] = [d.pick([0, 0.5, 1, 0.25, 0.125]) if d.chance(70) else d.int(0, 100) / 100 for _ in range(d.int(1, 3))]
    elif k == "hist":
        q["bins"] = "unit" if d.chance(50) else sorted({d.int(-8, 8) for _ in range(3)} | {-4, 4})
        q["closed"] = d.pick(["left", "right"])
        q["stat"] = d.pick(["sum", "probability", "frequency", "density"])
    elif k in ("agg", "aggw"):
        q["names"] = d.perm(["mean", "integral", "min", "max", "std", "median", "mode"])[: d.int(1, 4)]
    if k in ("aggw", "vir_w", "slice_mean", "slice_max", "rolling", "cov"):
        a, b = G.window(d, pts, unb=0)
        q["w"] = [a, b]
    if k in ("limit", "sample"):
        q["at"] = [G.query_tick2(d, pts) for _ in range(d.int(1, 3))]
    return q


def ask(s, q, dom):
    """perform the query; the raw answer"""
    k = q["q"]
    L = lambda t: None if t is None else dom.lab(F(t, 2))  # noqa
    win = tuple(L(t) for t in q["w"]) if "w" in q else None
    y = q.get("y")
    if k in ("integral", "mean", "var", "std", "min", "max", "median", "mode", "value_sums", "describe", "values_in_range", "isna"):
        return getattr(s, k)()
    if k == "value_sums_na":
        return s.value_sums(dropna=False)
    if k == "ecdf":
        return s.ecdf(y if len(y) > 1 else y[0])
    if k == "ecdf_left":
        return s.ecdf.limit(y, side="left")
    if k == "ecdf_frame":
        return s.ecdf.step_values
    if k in ("percentile", "percentiles"):
        return s.percentile(y if k == "percentiles" else y[0])
    if k == "fractile":
        return s.fractile(y if len(y) > 1 else y[0])
    if k == "pct_frame":
        return s.percentile.step_points, s.fractile.step_points, s.percentile.limit([0, 50, 100], side="right")
    if k in ("hist", "hist_own") and q.get("bins", "unit") == "unit":
        vs = [v for v in s.copy().step_values if v == v]
        if vs and max(vs) - min(vs) > 400:  # a bin per unit: the cost grows with the range of the values
            return s.hist(bins=sorted({min(vs), (min(vs) + max(vs)) / 2, max(vs)}))
    if k == "hist":
        return s.hist(bins=q["bins"], closed=q["closed"], stat=q["stat"])
    if k == "hist_own":
        return s.hist()
    if k == "agg":
        return s.agg(q["names"])
    if k == "aggw":
        return s.agg(q["names"], win)
    if k == "vir_w":
        return s.values_in_range(win)
    if k == "frame":
        return s
    if k == "limit":
        return [s.limit([L(t) for t in q["at"]], "left"), s.limit([L(t) for t in q["at"]], "right")]
    if k == "sample":
        return s.sample([L(t) for t in q["at"]])
    if k == "changes":
        return s.step_changes
    if k == "values":
        return s.step_values
    if k == "points":
        return list(s.step_points)
    if k == "n":
        return s.number_of_steps, s.initial_value
    if k == "bool":
        return bool(s)
    if k == "identical":
        return s.identical(s), s.identical(0), s.identical(s.copy())
    if k in ("slice_mean", "slice_max"):
        return getattr(s.slice([win[0], L(q["w"][0] + q["w"][1]) if False else win[1]]), k[6:])()
    if k == "rolling":
        return s.rolling_mean((dom.length(-1), dom.length(1)), win)
    if k == "cov":
        return s.cov(s, win)
    if k == "sum":
        return sc.sum([s, s])
    raise KeyError(k)


def norm(x, dom):
    """answer -> nested lists of Fractions / None / strings"""
    if isinstance(x, Stairs):
        try:
            df = x.to_frame()
            pts = [norm(v, dom) for v in df["end"].iloc[:-1]]
            return ["stairs", x.closed if len(pts) else None, pts, [norm(v, dom) for v in df["value"]]]
        except Exception as e:  # noqa
            return "unreadable (%s)" % type(e).__name__
    if isinstance(x, (pd.Series, pd.DataFrame)):
        if isinstance(x, pd.DataFrame):
            return ["frame"] + [[norm(c, dom), norm(x[c], dom)] for c in x.columns]
        return ["series", [norm(v, dom) for v in x.index], [norm(v, dom) for v in x.values if True] if x.dtype != object else [norm(v, dom) for v in x]]
    if isinstance(x, pd.Interval):
        return ["interval", norm(x.left, dom), norm(x.right, dom), x.closed]
    if isinstance(x, (np.ndarray, list, tuple, pd.Index)):
        return [norm(v, dom) for v in x]
    if x is None or x is pd.NaT:
        return None
    if x is sc.inf:
        return "inf"
    if isinstance(x, (bool, np.bool_)):
        return F(int(x))
    if isinstance(x, (pd.Timestamp, np.datetime64)):
        if pd.isna(x):
            return None
        return "t%s" % pd.Timestamp(x).as_unit("ns").value
    if isinstance(x, (pd.Timedelta, np.timedelta64)):
        if pd.isna(x):
            return None
        return ["td", F(pd.Timedelta(x).as_unit("ns").value)]
    if isinstance(x, (int, float, np.integer, np.floating)):
        x = float(x)
        if math.isnan(x):
            return None
        if math.isinf(x):
            return "inf" if x > 0 else "-inf"
        return F(x)
    return str(x)


def agree(a, b, rel=F(1, 10**9)):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) == 2 and len(b) == 2 and a[0] == "td" == b[0] and isinstance(a[1], F):
            return abs(a[1] - b[1]) <= 8 + rel * abs(a[1])
        return len(a) == len(b) and all(agree(x, y, rel) for x, y in zip(a, b))
    if isinstance(a, F) and isinstance(b, F):
        return a == b or abs(a - b) <= rel * (1 + max(abs(a), abs(b)))
    return a == b


def answer(s, q, dom):
    try:
        r = ask(s, q, dom)
    except Exception as e:  # noqa
        return "raised %s" % type(e).__name__
    return norm(r, dom)


def pretty(a):
    if isinstance(a, list):
        return "[" + ", ".join(pretty(x) for x in a) + "]"
    return str(float(a)) if isinstance(a, F) else str(a)
