"""C18: collection aggregations, array operators and tables act pointwise / element-wise on the members."""
from fractions import Fraction as F
from functools import reduce

import numpy as np
import pandas as pd

import staircase as sc
from staircase import Stairs
from staircase.core.arrays.extension import StairsArray
from vlib import domains, model
from vlib import gen as G
from vlib.model import Fn
from vlib.pairs import OPERATOR
from vlib.real import build, call, close, compare, num, require, show, spec_model, val

RULE = (
    "collections of 1-6 step functions (duplicated members, step-free ones of either side, partly undefined ones, shared or disjoint step "
    "points) x every container (list, tuple, dict, ndarray, StairsArray, Stairs/object Series with default, string, shuffled and repeated "
    "labels): (a) aggregations through the top level, StairsArray, Series reductions, accessor and agg(func) against the exact pointwise "
    "aggregate, its closed side, permutation of the members and the fold of the binary operator; (b) the 10 binary operators and 14 method "
    "forms between arrays/Series and arrays, Series, lists, tuples, dicts, ndarrays, lists of numbers, scalars of every flavour and Stairs, on "
    "either side, and negation, against the exact pointwise result per pair; (c) sample and limit tables (rows, columns, values) against the "
    "model; (d) cov/corr matrices: symmetric, entries equal to the pairwise Stairs results; non-trivial: two or more members with steps "
    "(aggregates, matrices), or a member with steps (operators, tables)"
)
BUDGET = {"quick": 4400, "thorough": 160000}

AGGS = ["sum", "mean", "median", "min", "max", "logical_or", "logical_and"]
CONTS = ["list", "tuple", "dict", "ndarray", "series", "oseries", "sarray"]
OPS = ["add", "sub", "mul", "div", "lt", "le", "gt", "ge", "eq", "ne"]
METH = {"add": "add", "sub": "subtract", "mul": "multiply", "div": "divide", "lt": "lt", "le": "le", "gt": "gt", "ge": "ge", "eq": "eq", "ne": "ne"}
RMETH = {"add": "radd", "sub": "rsubtract", "mul": "rmultiply", "div": "rdivide"}
FLIP = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le", "eq": "eq", "ne": "ne"}
INDEXES = ["default", "str", "perm", "dup", "float"]


def members(d, cl, n):
    other = "left" if cl == "right" else "right"
    vp = d.pick(["std", "std", "bool", "pos"])
    na = d.wpick([(50, "none"), (50, None)])
    fs = []
    for i in range(n):
        if fs and d.chance(12):
            fs.append({"same": d.int(0, i - 1)})
            continue
        f = G.fn(d, cl, pool=G.pts_of(*fs) if d.chance(75) else (), na=na, vpool=vp, big="mid")
        if not f["steps"] and d.chance(40):
            f["closed"] = other
        fs.append(f)
    return fs


def gen(d):
    dom = G.domain(d)
    cl = G.closed(d)
    kind = d.wpick([(45, "agg"), (35, "op"), (14, "table"), (8, "matrix")])
    n = d.wpick([(10, 1), (30, 2), (30, 3), (15, 4), (10, 5), (5, 6)])
    if d.chance(2):
        n = d.int(7, 8 if kind == "matrix" else 26)
    case = {"dom": dom, "kind": kind, "fs": members(d, cl, n), "ix": d.pick(INDEXES)}
    pts = G.pts_of(*[f for f in case["fs"]])
    if kind == "agg":
        case["aggs"] = d.perm(AGGS)[: d.int(1, 3)]
        case["cont"] = d.pick(CONTS)
        case["how"] = d.pick(["top", "top", "top", "array", "series", "acc", "agg"])
        case["perm"] = d.perm(list(range(n)))
    elif kind == "op":
        case["op"] = d.pick(OPS)
        case["left"] = d.pick(["arr", "series"])
        case["form"] = d.pick(["op", "op", "rop", "meth", "rmeth", "neg"]) if d.chance(94) else "neg"
        k = d.wpick([(30, "coll"), (30, "scalar"), (24, "stairs"), (10, "nums"), (6, "own")])
        case["o"] = k
        if k == "coll":
            case["gs"] = members(d, cl, n)
            case["oc"] = d.pick(["arr", "series", "list", "tuple", "ndarray", "dict"])
        elif k == "scalar":
            case["v"] = G.scalar(d)
        elif k == "nums":
            case["vs"] = [None if d.chance(10) else G.value(d) for _ in range(n)]
            case["oc"] = d.pick(["list", "tuple", "ndarray", "nseries"])
        elif k == "stairs":
            case["gs"] = [G.fn(d, cl, pool=pts, big=False)]
    elif kind == "table":
        case["cont"] = d.pick(CONTS)
        case["how"] = d.pick(["top", "array", "acc"])
        case["x"] = [G.query_tick2(d, pts) for _ in range(d.int(1, 6))] if d.chance(80) else G.query_tick2(d, pts)
        case["xc"] = d.pick(["list", "index", "array", "tuple"])
        case["q"] = d.pick(["sample", "left", "right", "default"])
        case["lab"] = d.pick(["pd", "pd", "np", "py", "alt"])
    else:
        case["cont"] = d.pick(CONTS)
        case["how"] = d.pick(["top", "array", "acc"])
        case["w"] = G.window(d, pts, unb=0)
        if len(pts) > 1 and d.chance(60):
            case["w"] = [2 * pts[0] - d.int(0, 3), 2 * pts[-1] + d.int(0, 3)]
    return case


# ---------------------------------------------------------------- helpers
def labels_of(ix, n):
    if ix == "str":
        return ["r%d" % i for i in range(n)]
    if ix == "perm":
        return [(i * 3 + 2) % (7 if n < 8 else 29) for i in range(n)]
    if ix == "dup":
        return [i // 2 for i in range(n)]
    if ix == "float":
        return [i / 2 for i in range(n)]
    return list(range(n))


def oarr(xs):
    a = np.empty(len(xs), dtype=object)
    a[:] = xs
    return a


def container(kind, xs, ix):
    n = len(xs)
    if kind == "list":
        return list(xs)
    if kind == "tuple":
        return tuple(xs)
    if kind == "dict":
        return dict(zip(labels_of(ix if ix != "dup" else "str", n), xs))
    if kind == "ndarray":
        return oarr(xs)
    if kind == "series":
        return pd.Series(list(xs), dtype="Stairs", index=labels_of(ix, n))
    if kind == "oseries":
        return pd.Series(oarr(xs), index=labels_of(ix, n))
    if kind in ("sarray", "arr"):
        return StairsArray(oarr(xs))
    raise KeyError(kind)


def build_all(fs, dom):
    xs, ms = [], []
    for f in fs:
        if "same" in f:
            xs.append(xs[f["same"]])
            ms.append(ms[f["same"]])
        else:
            xs.append(build(f, dom))
            ms.append(spec_model(f))
    return xs, ms


def run(case):
    dom = domains.get(case["dom"])
    xs, ms = build_all(case["fs"], dom)
    labels = ["dom:" + dom.name, case["kind"], "n:%d" % len(xs)]
    steps = sum(m.n > 0 for m in ms)
    if case["kind"] == "agg":
        nt = steps > 1
        run_agg(case, dom, xs, ms, labels)
    elif case["kind"] == "op":
        nt = run_op(case, dom, xs, ms, labels) or steps > 0
    elif case["kind"] == "table":
        nt = steps > 0
        run_table(case, dom, xs, ms, labels)
    else:
        nt = steps > 1
        run_matrix(case, dom, xs, ms, labels)
    for x, m in zip(xs, ms):
        compare(x, m, dom, "a member after the call", limits=False)
    return labels, nt


# ---------------------------------------------------------------- aggregation
FUNCS = {"sum": np.sum, "mean": np.mean, "median": np.median, "min": np.min, "max": np.max}
FOLD = {"sum": "add", "logical_or": "or", "logical_and": "and"}


def run_agg(case, dom, xs, ms, labels):
    how, cont = case["how"], case["cont"]
    for name in case["aggs"]:
        what = "%s of %d functions (%s, %s)" % (name, len(xs), how, cont if how in ("top", "agg") else "")
        if how == "array":
            fn_ = lambda: getattr(StairsArray(container(cont, xs, case["ix"])), name)()  # noqa
        elif how == "series" and name in FUNCS:
            fn_ = lambda: getattr(container("series", xs, case["ix"]), name)()  # noqa
        elif how in ("series", "acc") and name not in FUNCS:
            fn_ = lambda: getattr(container("series", xs, case["ix"]).sc, name)()  # noqa
        elif how == "agg" and name in FUNCS:
            fn_ = lambda: sc.agg(container(cont, xs, case["ix"]), FUNCS[name])  # noqa
        else:
            fn_ = lambda: getattr(sc, name)(container(cont, xs, case["ix"]))  # noqa
        h = call(what, fn_)
        mh = model.aggregate(name, ms)
        compare(h, mh, dom, what, ins=ms)
        with_steps = [m for m in ms if m.n]
        if mh.n:
            require(h.closed == with_steps[0].closed, "%s is closed %s", what, h.closed)
        p = call(what + " permuted", getattr(sc, name), [xs[i] for i in case["perm"]])
        compare(p, mh, dom, what + " permuted", ins=ms)
        if name in FOLD and len(xs) > 1:
            fo = call("folding %s" % FOLD[name], lambda: reduce(OPERATOR[FOLD[name]], xs))
            compare(fo, mh, dom, "folding %s" % FOLD[name], ins=ms)
        labels.append("agg:" + name)
    labels.append("how:%s/%s" % (how, cont))
    kinds = "free" if not any(m.n for m in ms) else "some free" if any(not m.n for m in ms) else "all steps"
    labels.append("members:%s%s" % (kinds, ", undefined parts" if any(m.has_na() for m in ms) else ""))


# ---------------------------------------------------------------- operators
def run_op(case, dom, xs, ms, labels):
    n = len(xs)
    op, form, o = case["op"], case["form"], case["o"]
    left = container(case["left"], xs, case["ix"])
    if case["left"] == "series" and form in ("meth", "rmeth"):
        left = container("arr", xs, case["ix"])  # the methods live on the array
    isser = isinstance(left, pd.Series)
    if form == "neg":
        r = call("negation", lambda: -left)
        elements(r, [model.unary("neg", m) for m in ms], dom, "negation", left)
        labels.append("op:neg/%s" % case["left"])
        return False
    nt = False
    if o == "coll":
        ys, mys = build_all(case["gs"], dom)
        oc = case["oc"]
        if isser and oc == "dict":
            oc = "list"
        if form == "rop" and oc == "dict":
            oc = "tuple"
        other = container(oc, ys, case["ix"])
        if not isser and oc == "series" and form in ("meth", "rmeth"):
            pass
        nt = any(m.n for m in mys)
        tag = oc
    elif o == "own":
        other, mys, tag = left, ms, "itself"
        if form == "rop":
            form = "op"
    elif o == "scalar":
        other, tag = num(case["v"]["scalar"], case["v"]["fl"]), "scalar:" + case["v"]["fl"]
        mys = [model.const(case["v"]["scalar"])] * n
    elif o == "nums":
        vs = [float("nan") if v is None else v for v in case["vs"]]
        other = {"list": list, "tuple": tuple, "ndarray": np.array, "nseries": lambda v: pd.Series(v, index=labels_of(case["ix"], n))}[case["oc"]](vs)
        if case["oc"] == "nseries" and not isser and form in ("meth", "rmeth"):
            other = list(vs)
        mys, tag = [model.const(v) for v in case["vs"]], "numbers:" + case["oc"]
    else:
        ys, mys = build_all(case["gs"], dom)
        other, mys, tag = ys[0], mys * n, "Stairs"
        nt = mys[0].n > 0
    what = "%s %s %s (%s)" % (case["left"] if isser else "arr", op, tag, form)
    labels.append("op:%s/%s" % ("series" if isser else "arr", form))
    labels.append("other:" + tag)
    scal = o in ("scalar", "nums")

    def pick(fs, recv):
        return recv.closed if scal else model.pick_closed(fs, recv)

    if form == "rmeth" and op not in RMETH:
        form = "meth"
    if form == "rop":
        r = call(what, lambda: OPERATOR[op](other, left))
        exp = [model.binary(op, b, a, pick([b, a], a if scal else b)) for a, b in zip(ms, mys)]
    elif form == "op":
        r = call(what, lambda: OPERATOR[op](left, other))
        exp = [model.binary(op, a, b, pick([a, b], a)) for a, b in zip(ms, mys)]
    elif form == "meth":
        r = call(what, lambda: getattr(left, METH[op])(other))
        exp = [model.binary(op, a, b, pick([a, b], a)) for a, b in zip(ms, mys)]
    else:
        r = call(what, lambda: getattr(left, RMETH[op])(other))
        exp = [model.binary(op, b, a, pick([b, a], a if scal else b)) for a, b in zip(ms, mys)]
    elements(r, exp, dom, what, left if isser else other if isinstance(other, pd.Series) else left)
    return nt


def elements(r, exp, dom, what, like):
    if isinstance(like, pd.Series) and isinstance(r, pd.Series):
        require(list(r.index) == list(like.index), "%s: the labels became %s", what, list(r.index))
    require(isinstance(r, (pd.Series, StairsArray)), "%s returned %s", what, type(r))
    rs = list(r)
    require(len(rs) == len(exp), "%s has %d elements, expected %d", what, len(rs), len(exp))
    for i, (x, m) in enumerate(zip(rs, exp)):
        compare(x, m, dom, "%s, element %d" % (what, i), side=True)
        if m.n:
            require(x.closed == m.closed, "%s, element %d is closed %s, expected %s", what, i, x.closed, m.closed)


# ---------------------------------------------------------------- tables
def run_table(case, dom, xs, ms, labels):
    n = len(xs)
    fl = case["lab"] if case["lab"] in dom.all_flavours() else "pd"
    one = not isinstance(case["x"], list)
    ts = [F(t, 2) for t in ([case["x"]] if one else case["x"])]
    labs = [dom.lab(t, fl) for t in ts]
    if one:
        arg = labs[0]
    else:
        arg = {"list": list, "tuple": tuple, "index": pd.Index, "array": np.array}[case["xc"]](labs)
        if case["xc"] == "array" and dom.tz is not None:
            arg = pd.DatetimeIndex(labs)
    q, how, cont = case["q"], case["how"], case["cont"]
    name = "sample" if q == "sample" else "limit"
    args = (arg,) if q in ("sample", "default") else (arg, q)
    keys = list(range(n))
    if how == "top":
        r = call(name, getattr(sc, name), container(cont, xs, case["ix"]), *args)
        if cont in ("dict", "series", "oseries"):
            keys = labels_of("str" if cont == "dict" and case["ix"] == "dup" else case["ix"], n)
    elif how == "array":
        r = call(name, getattr(StairsArray(container(cont, xs, case["ix"])), name), *args)
    else:
        r = call(name, getattr(container("series", xs, case["ix"]).sc, name), *args)
        keys = labels_of(case["ix"], n)
    what = "%s table (%s, %s)" % (q, how, cont)
    require(isinstance(r, pd.DataFrame), "%s is %s", what, type(r))
    require(r.shape == (n, len(ts)), "%s has shape %s, expected %s", what, r.shape, (n, len(ts)))
    if how != "array":
        require(list(r.index) == keys, "%s has rows %s, expected %s", what, list(r.index), keys)
    try:
        cols = [dom.inv(c) for c in r.columns]
    except (ValueError, TypeError) as e:
        require(False, "%s: columns: %s", what, e)
    require(cols == ts, "%s has columns %s, expected %s", what, list(r.columns), labs)
    for i, m in enumerate(ms):
        if q == "sample" and not m.n:
            continue
        for j, t in enumerate(ts):
            e = m.at(t) if q == "sample" else m.lim(t, "left" if q == "left" else "right")
            g = val(r.iloc[i, j])
            require(close(g, e), "%s at row %d, x=%s is %s, expected %s", what, i, t, show(g), show(e))
    labels.append("table:%s/%s/%s" % (q, how, "scalar" if one else "list"))


# ---------------------------------------------------------------- matrices
def run_matrix(case, dom, xs, ms, labels):
    n = len(xs)
    win = tuple(dom.lab(F(t, 2)) for t in case["w"])
    how = case["how"]
    keys = None
    for name in ("cov", "corr"):
        what = "%s matrix (%s, %s)" % (name, how, case["cont"])
        if how == "top":
            r = call(name, getattr(sc, name), container(case["cont"], xs, case["ix"]), win)
            if case["cont"] in ("dict", "series", "oseries"):
                keys = labels_of("str" if case["cont"] == "dict" and case["ix"] == "dup" else case["ix"], n)
        elif how == "array":
            r = call(name, getattr(StairsArray(container(case["cont"], xs, case["ix"])), name), win)
        else:
            r = call(name, getattr(container("series", xs, case["ix"]).sc, name), win)
            keys = labels_of(case["ix"], n)
        if keys is not None:
            require(list(r.index) == keys and list(r.columns) == keys, "%s has labels %s", what, list(r.index))
        a = np.asarray(r, dtype=float)
        require(a.shape == (n, n), "%s has shape %s", what, a.shape)
        for i in range(n):
            for j in range(n):
                e = float(call("Stairs." + name, getattr(xs[i], name), xs[j], win))
                g = a[i, j]
                require(g == a[j, i] or (np.isnan(g) and np.isnan(a[j, i])), "%s is not symmetric at (%d, %d)", what, i, j)
                mag = max([abs(float(v)) for m in (ms[i], ms[j]) for v in m.vals if v is not None] + [1.0])
                if name == "corr" and (ill(ms[i], ms[j], case, dom)):
                    continue
                ok = (np.isnan(g) and np.isnan(e)) or abs(g - e) <= 1e-7 * mag * mag + slack(dom, ms[i], ms[j], case, mag)
                require(ok, "%s[%d, %d] is %s, the pairwise result is %s", what, i, j, g, e)
    labels.append("matrix:%s" % how)


def slack(dom, f, g, case, mag):
    if not dom.datelike:
        return 0.0
    a, b = [F(t, 2) for t in case["w"]]
    c, _ = model.common(model.clip(f, a, b), model.clip(g, a, b))
    t = model.total(c)
    return float((1 + mag) * mag * 6 * (f.n + g.n + 4) / (t * dom.unit)) if t else 0.0


def ill(f, g, case, dom):
    """the pairwise results of (f, g) and (g, f) may differ by rounding when the spread is tiny"""
    a, b = [F(t, 2) for t in case["w"]]
    c, e = model.common(model.clip(f, a, b), model.clip(g, a, b))
    if not model.total(c):
        return False
    vs = [model.var(c), model.var(e)]
    mag = max(abs(v) for m in (c, e) for v in m.vals if v is not None)
    if dom.name == "ts_ns":
        return True
    return any(0 < v < F(1, 10**4) * (1 + mag * mag) for v in vs) or (dom.datelike and any(v == 0 for v in vs) and False)
