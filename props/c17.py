"""C17: numeric, Timestamp (naive or tz-aware) and Timedelta domains behave identically."""
import copy
from fractions import Fraction as F

import numpy as np
import pandas as pd

import staircase as sc
from staircase import Stairs
from staircase.core.arrays.extension import StairsArray
from vlib import domains, model, prog, stat
from vlib import gen as G
from vlib.ask import pretty
from vlib.real import Violation, build, num, require, spec_model

RULE = (
    "one program (1-3 leaves, 0-5 operations of the 45 kinds of C01-C07, C15, C16, C18, C20, then 2-5 queries out of 31 kinds: frames, "
    "limits, samples, statistics, distributions, histograms, aggregates over windows, slicing with breaks and IntervalIndexes, resampling, "
    "rolling means, cov/corr with lags, tables, layering, shifts, masks) replayed in two domains (int, float, naive / fixed-offset / DST-zone "
    "Timestamps, Timedeltas) or in one domain with two flavours of the same labels (python, numpy, pandas, int/float, string bounds); "
    "oracle: after mapping labels back by the affine map and scaling lengths by the unit the outcomes agree (both raise or both answer), "
    "and timezones are retained; non-trivial: some leaf has steps and the two sides differ in domain type or flavour"
)
# a differential oracle: operands built differently in the two domains are what it is looking for
LEAF = "violate"
BUDGET = {"quick": 6000, "thorough": 200000}

STATS = ["integral", "mean", "var", "std", "min", "max", "median", "mode"]
QS = ["frame", "points", "changes", "values", "limit", "limits", "sample", "call", "samples", "stat", "stat", "value_sums", "ecdf", "percentile",
      "fractile", "hist", "agg", "vir", "describe", "slice", "slice", "sliceii", "sliceagg", "slicehist", "resample", "rolling", "cov", "corr",
      "shift", "diff", "clip", "mask", "where", "layer", "layerv", "table", "tlimit", "matrix", "aggregate", "identical", "ctor", "from_values"]


def gen_q(d, n, pts):
    k = d.pick(QS)
    q = {"q": k, "a": n - 1 if d.chance(60) else d.int(0, n - 1), "b": d.int(0, n - 1)}
    t = lambda: G.query_tick2(d, pts)  # noqa
    if k in ("limit", "call"):
        q["t"] = t()
        q["side"] = d.pick(["left", "right"])
    elif k in ("limits", "sample", "samples", "table", "tlimit"):
        q["ts"] = [t() for _ in range(d.int(1, 4))]
        q["side"] = d.pick(["left", "right"])
        q["c"] = d.pick(["list", "index", "series", "array"])
        q["ix"] = d.int(0, 1)
    elif k in ("stat", "agg", "vir", "describe", "value_sums", "ecdf", "percentile", "fractile", "hist", "rolling"):
        if k in ("agg", "vir", "describe") or d.chance(40):
            q["w"] = G.window(d, pts, unb=20)
        if k == "stat":
            q["s"] = d.pick(STATS)
        q["names"] = d.perm(STATS)[: d.int(1, 4)]
        q["y"] = [d.pick([0, 50, 100, 25, 30, 62.5, 99]) for _ in range(d.int(1, 3))]
        q["closed"] = d.pick(["left", "right", "both", "neither"])
        q["hs"] = d.pick(["sum", "probability", "frequency", "density"])
        q["bins"] = "unit" if d.chance(50) else sorted({d.int(-8, 8) for _ in range(3)} | {-3, 3})
    elif k in ("slice", "sliceagg", "slicehist", "resample"):
        c = sorted({t() for _ in range(d.int(2, 5))})
        q["cuts"] = c if len(c) > 1 else [c[0], c[0] + 3]
        q["closed"] = d.pick(["left", "right", "both", "neither"]) if k != "resample" else d.pick(["left", "right", "neither"])
        q["s"] = d.pick(["mean", "max", "min", "median", "mode"] + (["integral"] if k == "slice" else []))
        q["names"] = d.perm(["mean", "max", "min", "median", "mode"])[: d.int(1, 3)]
        q["c"] = d.pick(["list", "index", "series", "array"])
        q["bins"] = [-4, 0, 1, 3]
        q["hs"] = d.pick(["sum", "probability"])
    elif k == "sliceii":
        q["iv"] = [G.window(d, pts, unb=0) for _ in range(d.int(1, 4))]
        q["closed"] = d.pick(["left", "right", "both", "neither"])
        q["s"] = d.pick(["mean", "integral", "max", "min", "median", "mode"])
    elif k in ("cov", "corr", "matrix"):
        q["w"] = G.window(d, pts, unb=0)
        if len(pts) > 1 and d.chance(60):
            q["w"] = [2 * pts[0] - d.int(0, 3), 2 * pts[-1] + d.int(0, 3)]
        if k != "matrix" and d.chance(40):
            q["lag"] = d.pick([1, -1, 2, -3])
            q["clip"] = d.pick(["pre", "post"])
    elif k in ("shift", "diff"):
        q["n"] = d.int(-8, 8)
    elif k in ("clip", "mask", "where"):
        q["w"] = G.window(d, pts, unb=25)
    elif k == "layer":
        q["iv"] = [[None if d.chance(20) else t(), None if d.chance(20) else t(), G.value(d) or 1]]
        q["miss"] = d.int(0, 1)
    elif k in ("layerv", "ctor", "from_values"):
        q["iv"] = [[None if d.chance(12) else t(), None if d.chance(12) else t(), G.value(d) or 1] for _ in range(d.int(1, 4))]
        q["miss"] = d.int(0, 1)
        q["c"] = d.pick(["list", "index", "series", "array", "frame"])
        for iv in q["iv"]:
            if iv[0] is not None and iv[1] is not None and iv[0] > iv[1]:
                iv[0], iv[1] = iv[1], iv[0]
    elif k == "aggregate":
        q["s"] = d.pick(prog.AGGS)
        q["c"] = d.pick(prog.CONTAINERS)
    if k == "rolling":
        l = d.int(-6, 4)
        q["l"], q["r"] = l, l + d.int(1, 8)
    if k in ("hist", "slicehist") and q.get("closed") not in ("left", "right"):
        q["closed"] = "left"
    return q


def gen(d):
    names = [n for _, n in G.EXACT_DOMAINS]
    case, ms = prog.gen_prog(d, d.wpick([(30, 0), (25, 1), (20, 2), (15, 3), (10, 5)]))
    a = case.pop("dom")
    k = d.int(0, 9)
    if k < 7:
        b = d.pick([n for n in names if n != a])
        case["A"], case["B"] = [a, d.pick(["pd", "pd", "np"])], [b, d.pick(["pd", "pd", "np", "py", "alt", "pds", "nps"])]
    else:
        if d.chance(60):
            a = d.pick(["ts", "tz_syd", "tz_ny", "td", "ts_D", "int", "int", "float1"])
        case["A"], case["B"] = [a, "pd"], [a, d.pick(["np", "py", "alt", "str", "pds", "nps"])]
    pts = G.pts_of(*case["leaves"])
    n = len(ms)
    case["qs"] = [gen_q(d, n, pts) for _ in range(d.int(2, 5))]
    return case


# ---------------------------------------------------------------- tagged answers
class Lbl:
    def __init__(self, x):
        self.x = x


class Len(Lbl):
    pass


class Vals(Lbl):
    """numbers obtained through lengths: compared with a tolerance"""


def norm(x, dom):
    if isinstance(x, Len):
        return [norm(Len(v), dom) for v in x.x] if isinstance(x.x, (list, tuple, np.ndarray, pd.Series)) else ["len", dom.inv_length(x.x)]
    if isinstance(x, Vals):
        return ["val", norm(x.x, dom)]
    if isinstance(x, Lbl):
        if isinstance(x.x, (list, tuple, pd.Index, pd.Series, np.ndarray)):
            return [norm(Lbl(v), dom) for v in x.x]
        v = x.x
        if v is None or v is pd.NaT:
            return None
        if v is sc.inf or v is -sc.inf or (isinstance(v, float) and abs(v) == float("inf")):
            return "inf" if v > 0 else "-inf"
        t = dom.inv(v)
        if dom.tz is not None and isinstance(v, pd.Timestamp):
            require(str(v.tz) == dom.zone, "timezone of %r is not %s", v, dom.zone)
        return t
    if isinstance(x, Stairs):
        df = x.to_frame()
        pts = norm(Lbl(list(df["end"].iloc[:-1])), dom)
        p2 = norm(Lbl(list(df["start"].iloc[1:])), dom)
        require(pts == p2, "to_frame does not tile")
        vs = norm(list(df["value"]), dom)
        m = model.Fn(x.closed, pts, vs)
        return ["stairs", m.closed if m.pts else None, m.pts, m.vals]
    if isinstance(x, (list, tuple, np.ndarray, pd.Series)):
        return [norm(v, dom) for v in x]
    if isinstance(x, (bool, np.bool_, str)) or x is None:
        return str(x)
    if isinstance(x, pd.Interval):
        return [norm(Lbl(x.left), dom), norm(Lbl(x.right), dom), x.closed]
    if isinstance(x, (int, float, np.integer, np.floating)):
        x = float(x)
        return None if x != x else ("inf" if x > 0 else "-inf") if abs(x) == float("inf") else F(x)
    raise Violation("unexpected %s in an answer: %r" % (type(x), x))


def agree(a, b, ltol, vtol, in_val=False):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) == 2 == len(b) and a[0] == b[0] == "len":
            x, y = a[1], b[1]
            return x == y or (x is not None and y is not None and abs(x - y) <= ltol + F(1, 10**9) * max(abs(x), abs(y)))
        if len(a) == 2 == len(b) and a[0] == b[0] == "val":
            return agree(a[1], b[1], ltol, vtol, True)
        if in_val and len(a) == 4 == len(b) and a[0] == b[0] == "stairs":
            # values obtained through lengths, which may or may not differ between neighbouring pieces
            x, y = [model.Fn(z[1] or "left", z[2], z[3]) for z in (a, b)]
            ts = sorted({t for p in (x.pts + y.pts) for t in (p - 1, p, p + 1)} | {F(0)})
            ts += [(s + t) / 2 for s, t in zip(ts, ts[1:])]
            return (a[1] == b[1] or None in (a[1], b[1])) and all(agree(x.lim(t, "right"), y.lim(t, "right"), ltol, vtol, True) for t in ts)
        return len(a) == len(b) and all(agree(x, y, ltol, vtol, in_val) for x, y in zip(a, b))
    if isinstance(a, F) and isinstance(b, F):
        return a == b or abs(a - b) <= (vtol if in_val else F(1, 10**9) * (1 + max(abs(a), abs(b))))
    return a == b


class Env:
    def __init__(self, dom, fl):
        self.dom = dom
        self.str = fl == "str"
        self.fl = fl if fl in dom.all_flavours() else "pd"
        self.lf = self.fl if self.fl in ("np", "py", "nps", "pds") and dom.kind != "float" else "pd"

    def L(self, t):
        return None if t is None else self.dom.lab(F(t, 2), self.fl)

    def LW(self, t):
        """a bound, possibly as a string"""
        if t is not None and self.str and self.dom.kind == "ts":
            return self.dom.lab(F(t, 2), "str")
        return self.L(t)

    def D(self, t):
        if self.fl == "alt" and self.dom.kind == "int":
            return float(self.dom.length(F(t, 2)))
        return self.dom.length(F(t, 2), self.lf)

    def many(self, ts, c):
        xs = [self.L(t) for t in ts]
        if c == "list":
            return xs
        if c == "array" and self.dom.tz is None:
            return np.array(xs)
        return pd.Series(xs) if c == "series" else pd.Index(xs)


# ---------------------------------------------------------------- queries
def names_of(names, r, integ=("integral",)):
    return [[nm, Len(r[nm]) if nm in integ else Vals(r[nm])] for nm in names]


def ask(q, nodes, env):
    k = q["q"]
    f, g = nodes[q["a"]], nodes[q["b"]]
    w = None
    if "w" in q:
        w = (env.L(q["w"][0]), env.L(q["w"][1]))
    if k == "frame":
        return f
    if k == "points":
        return [Lbl(f.step_points), f.number_of_steps, f.initial_value, bool(f), f.closed if f.number_of_steps else ""]
    if k in ("changes", "values"):
        s = f.step_changes if k == "changes" else f.step_values
        return [Lbl(s.index), s.values]
    if k == "limit":
        return f.limit(env.L(q["t"]), q["side"])
    if k == "call":
        return f(env.L(q["t"]))
    if k in ("limits", "sample", "samples"):
        x = env.many(q["ts"], q["c"])
        args = (x, q["side"]) if k == "limits" else (x,)
        r = getattr(f, "limit" if k == "limits" else "sample")(*args, include_index=bool(q["ix"]))
        if q["ix"]:
            return [Lbl(r.index), r.values]
        return list(r)
    if k in ("table", "tlimit"):
        x = env.many(q["ts"], q["c"])
        r = sc.sample([f, g], x) if k == "table" else sc.limit([f, g], x, q["side"])
        return [Lbl(r.columns), r.values]
    if k in ("stat", "value_sums", "ecdf", "percentile", "fractile", "hist"):
        s = f.clip(*w) if w else f
        if k == "stat":
            r = getattr(s, q["s"])()
            return Len(r) if q["s"] == "integral" else Vals(r)
        if k == "value_sums":
            r = s.value_sums()
            return [r.index.values, Len(list(r))]
        if k == "ecdf":
            return Vals(s.ecdf([y / 20 for y in q["y"]]))
        if k == "percentile":
            return s.percentile(q["y"])
        if k == "fractile":
            return s.fractile([y / 100 for y in q["y"]])
        r = s.hist(bins=q["bins"], closed=q["closed"], stat=q["hs"])
        idx = [[float(i.left), float(i.right), i.closed] for i in r.index]
        return [idx, Len(list(r)) if q["hs"] in ("sum", "frequency") else Vals(list(r))]
    if k == "agg":
        return names_of(q["names"], f.agg(q["names"], w))
    if k == "vir":
        return list(f.values_in_range(w, closed=q["closed"]))
    if k == "describe":
        r = f.describe(w)
        return [[i, Vals(r[i])] for i in r.index]
    if k in ("slice", "sliceagg", "slicehist", "resample"):
        sl = f.slice(env.many(q["cuts"], q["c"]), closed=q["closed"])
        if k == "resample":
            return sl.resample(q["s"]) if q["s"] in ("min", "max") else Vals(sl.resample(q["s"]))
        if k == "sliceagg":
            r = sl.agg(q["names"])
            return [list(r.index), [Vals(list(r[c])) for c in r.columns]]
        if k == "slicehist":
            r = sl.hist(bins=q["bins"], closed=q["closed"] if q["closed"] in ("left", "right") else "left", stat=q["hs"])
            v = [x for row in r.values for x in row]
            return [list(r.index), Len(v) if q["hs"] == "sum" else Vals(v)]
    if k in ("slice", "sliceii"):
        if k == "sliceii":
            sl = f.slice(pd.IntervalIndex.from_tuples([(env.L(a), env.L(b)) for a, b in q["iv"]], closed=q["closed"]))
        r = getattr(sl, q["s"])()
        return [list(r.index), Len(list(r)) if q["s"] == "integral" else Vals(list(r))]
    if k == "rolling":
        r = f.rolling_mean((env.D(q["l"]), env.D(q["r"])), *([w] if w else []))
        return [Lbl(r.index), Vals(r.values)]
    if k in ("cov", "corr"):
        kw = {"lag": env.D(2 * q["lag"]), "clip": q["clip"]} if "lag" in q else {}
        return Vals(getattr(f, k)(g, w, **kw))
    if k == "matrix":
        return Vals(sc.cov([f, g], w).values)
    if k in ("shift", "diff"):
        return getattr(f, k)(env.D(q["n"]))
    if k in ("clip", "mask", "where"):
        # a step-free function has no timezone of its own to retain
        lw = env.L if env.dom.tz is not None and not f.number_of_steps else env.LW
        x = (lw(q["w"][0]), lw(q["w"][1]))
        return f.clip(*x) if k == "clip" else getattr(f, k)(x)
    if k == "layer":
        a, b, v = q["iv"][0]
        miss = missing(q, env)
        if a is not None and b is not None and a > b:
            a, b = b, a
        return f.copy().layer(miss if a is None else env.L(a), miss if b is None else env.L(b), v)
    if k in ("layerv", "ctor"):
        miss = missing(q, env)
        a = [miss if t is None else env.L(t) for t, _, _ in q["iv"]]
        b = [miss if t is None else env.L(t) for _, t, _ in q["iv"]]
        v = [x for _, _, x in q["iv"]]
        if q["c"] == "frame":
            fr = pd.DataFrame({"s": a, "e": b, "v": v})
            if not all(x is None for x in (t for p in q["iv"] for t in p[:2])):
                fr = typed(fr, env)
            return Stairs(fr, "s", "e", "v", closed=f.closed) if k == "ctor" else f.copy().layer("s", "e", "v", frame=fr)
        if q["c"] != "list":
            fr = typed(pd.DataFrame({"s": a, "e": b}), env)
            a, b = fr["s"], fr["e"]
            if q["c"] == "index":
                a, b = pd.Index(a), pd.Index(b)
            elif q["c"] == "array" and env.dom.tz is None:
                a, b = a.values, b.values
        return Stairs(start=a, end=b, value=v, closed=f.closed) if k == "ctor" else f.copy().layer(a, b, v)
    if k == "from_values":
        ts = sorted({t for p in q["iv"] for t in p[:2] if t is not None})
        if not ts:
            return f
        return Stairs.from_values(1, pd.Series([float(i % 3) for i in range(len(ts))], index=pd.Index([env.L(t) for t in ts])), closed=f.closed) + f * 0
    if k == "aggregate":
        return getattr(sc, q["s"])(prog.container(q["c"], [f, g, f]))
    if k == "identical":
        return [f.identical(g), f.identical(f.copy()), (f == g).identical(1)]
    raise KeyError(k)


def missing(q, env):
    if not q["miss"]:
        return None
    return pd.NaT if env.dom.datelike else float("nan")


def typed(fr, env):
    """columns without any label keep an unspecific dtype"""
    for c in ("s", "e"):
        if env.dom.datelike and fr[c].isna().all():
            fr[c] = pd.Series([pd.NaT] * len(fr), dtype="datetime64[ns]" if env.dom.kind == "ts" and env.dom.tz is None else
                              "timedelta64[ns]" if env.dom.kind == "td" else pd.DatetimeTZDtype("ns", env.dom.tz))
        elif env.dom.datelike:
            fr[c] = pd.Series(pd.DatetimeIndex(fr[c]) if env.dom.kind == "ts" else pd.TimedeltaIndex(fr[c]))
        else:
            fr[c] = fr[c].astype(float) if fr[c].isna().any() else fr[c]
    return fr


# ---------------------------------------------------------------- running one side
def override(case, fl):
    """the same program with all labels in one flavour"""
    if fl in ("pd", "str"):
        return case["leaves"], case["ops"]
    leaves, ops = copy.deepcopy(case["leaves"]), copy.deepcopy(case["ops"])
    for lf in leaves:
        if "route" in lf:
            lf["route"]["lab"] = fl
    for op in ops:
        op["lab"] = fl
    return leaves, ops


def side(case, which):
    name, fl = case[which]
    dom = domains.get(name)
    env = Env(dom, fl)
    leaves, ops = override(case, fl)
    nodes, trace = [], []
    for spec in leaves:
        try:
            nodes.append(build(spec, dom))
        except Exception as e:  # noqa
            return env, nodes, trace + [err(e)]
        trace.append(None)
    for op in ops:
        try:
            r = prog.execute(op, nodes, dom)
            if not isinstance(r, Stairs):
                return env, nodes, trace + ["returned %s" % type(r)]
        except Exception as e:  # noqa
            return env, nodes, trace + [err(e)]
        nodes.append(r)
        trace.append(None)
        for ch in op.get("mat", ""):
            prog._read(r, ch, dom)
    return env, nodes, trace


def err(e):
    return "raised %s" % (e if isinstance(e, Violation) else "%s: %s" % (type(e).__name__, str(e)[:150]))


def outcome(fn_, dom):
    try:
        r = fn_()
    except Exception as e:  # noqa
        return err(e)
    try:
        return norm(r, dom)
    except (ValueError, TypeError) as e:
        raise Violation("the answer does not live in the domain: %s" % e)


def raised(x):
    return isinstance(x, str) and x.startswith(("raised", "returned"))


def run(case):
    A, B = domains.get(case["A"][0]), domains.get(case["B"][0])
    ms = [spec_model(f) for f in case["leaves"]]
    for op in case["ops"]:
        ms.append(prog.meaning(op, ms))
    ea, na, ta = side(case, "A")
    eb, nb, tb = side(case, "B")
    sa, sb = "%s/%s" % tuple(case["A"]), "%s/%s" % tuple(case["B"])
    labels = ["pair:%s-%s" % tuple(sorted([A.kind + ("z" if A.tz else ""), B.kind + ("z" if B.tz else "")])) + ("=" if A is B else "")]
    if A is B:
        labels.append("flavour:%s/%s" % (A.kind + ("z" if A.tz else ""), case["B"][1]))
    for i in range(max(len(ta), len(tb))):
        x = ta[i] if i < len(ta) else None
        y = tb[i] if i < len(tb) else None
        what = "leaf %d" % i if i < len(case["leaves"]) else "operation %s" % prog.describe(case["ops"][i - len(case["leaves"])])
        require((x is None) == (y is None), "%s: in %s %s, in %s %s", what, sa, x or "succeeds", sb, y or "succeeds")
        if x is not None:
            return labels + ["both raise"], False
        p, q = outcome(lambda: na[i], A), outcome(lambda: nb[i], B)
        require(raised(p) == raised(q), "%s: %s / %s", what, p, q)
        if not raised(p):
            require(agree(p, q, F(0), F(0)), "%s differs: %s in %s, %s in %s", what, pretty(p), sa, pretty(q), sb)
    for q in case["qs"]:
        tol = tolerances(q, ms, A, B)
        if tol is None:
            labels.append("ill-conditioned query skipped")
            continue
        x, y = outcome(lambda: ask(q, na, ea), A), outcome(lambda: ask(q, nb, eb), B)
        if raised(x) or raised(y):
            require(raised(x) and raised(y), "query %s: %s in %s, %s in %s", q, x if raised(x) else "answers", sa, y if raised(y) else "answers", sb)
            labels.append("q:%s:both raise" % q["q"])
            continue
        require(agree(x, y, *tol), "query %s: %s in %s, %s in %s", q, pretty(x), sa, pretty(y), sb)
        labels.append("q:" + q["q"])
    nt = any(f["steps"] for f in case["leaves"]) and (A is not B or case["B"][1] != "pd")
    return labels, nt


def tolerances(q, ms, A, B):
    """(length, value) slack in ticks, or None when the comparison would be ill-conditioned"""
    k = q["q"]
    lens = k in ("stat", "hist", "agg", "describe", "slice", "sliceii", "sliceagg", "slicehist", "resample", "rolling", "cov", "corr", "matrix",
                 "value_sums")
    if not lens and k not in ("percentile", "fractile"):
        return F(0), F(0)
    f, g = ms[q["a"]], ms[q["b"]]
    if "MISMATCH" in (f.closed, g.closed):
        return None
    m = f
    if "w" in q:
        m = model.clip(f, *[None if t is None else F(t, 2) for t in q["w"]])
    mag = max([abs(v) for x in (f, g) for v in x.vals if v is not None] + [F(1)])
    dates = [x for x in (A, B) if x.datelike]
    pts = f.pts + g.pts + [F(t, 2) for t in q.get("cuts", ())] + [F(t, 2) for p in q.get("iv", ()) for t in p[:2]] + [
        F(t, 2) for t in q.get("w", ()) if t is not None]
    span = max(pts) - min(pts) + 10 if pts else F(10)
    for x in dates:
        if (mag * mag if k in ("cov", "corr", "matrix") else mag) * span * x.unit * 4 > stat.YEARS:
            return None
        if x.unit < 10**6:
            return None
    ltol = vtol = F(1, 10**9) * (1 + mag) * (1 + span)
    n = f.n + g.n + 8
    if dates:
        u = min(x.unit for x in dates)
        ltol += F(n, u)
        vtol += mag * (1 + mag) * F(8 * n, u)
    vtol += F(1, 10**7) * mag * mag
    quant = k in ("percentile", "fractile", "describe") or "median" in (q.get("s"), *q.get("names", ()))
    ms_ = [m]
    if k in ("slice", "sliceagg", "resample", "sliceii"):
        iv = q["iv"] if k == "sliceii" else list(zip(q["cuts"], q["cuts"][1:]))
        ms_ = [model.clip(f, F(a, 2), F(b, 2)) for a, b in iv]
    if quant:
        qs = [F(1, 2)] if k not in ("percentile", "fractile", "describe") else [F(str(y)) / 100 for y in q["y"]]
        if k == "describe":
            qs = [F(1, 4), F(1, 2), F(3, 4)]
        for x in ms_:
            if model.total(x) > 0 and not all(stat.dyadic(x, dm) for dm in (A, B)):
                if any(abs(b - y) < F(1, 10**9) for b in model.share_boundaries(x) for y in qs):
                    return None
    if k == "describe":
        pass
    if k == "corr" or "std" in (q.get("s"), *(q.get("names", ()) if k == "agg" else ())) or k == "describe":
        # square roots amplify rounding near zero
        fs = [f, g] if k == "corr" else [m]
        if k == "corr":
            w = [F(t, 2) for t in q["w"]]
            lag = q.get("lag", 0)
            b2 = w[1] - lag if q.get("clip") == "pre" else w[1]
            if w[0] >= b2:
                return ltol, vtol
            fs = list(model.common(model.clip(f, w[0], b2), model.clip(model.shift(g, F(-lag)), w[0], b2)))
        for x in fs:
            v = model.var(x)
            if v is not None and v < F(1, 1000) * (1 + mag * mag):
                if v != 0 or k == "corr":
                    return None
                vtol += F(1, 10**3)
        vtol *= 100
    return ltol, vtol
