"""C11: slicing evaluates each statistic on the function restricted to each interval."""
from fractions import Fraction as F

import numpy as np
import pandas as pd

from staircase import Stairs
from vlib import domains, model, stat
from vlib import gen as G
from vlib.model import Fn
from vlib.real import build, call, close, compare, in_unit, require, show, spec_model, val

RULE = (
    "functions (partly undefined, right-closed, step-free included) x slicing indexes (break sequences of five container kinds, "
    "IntervalIndex of all four closednesses incl. overlapping / nested / gapped / unordered / duplicate intervals, PeriodIndex) x "
    "2-5 slicer statistics on one slicer object; oracle: exact statistic of the model clipped to each interval; resample oracle: "
    "model outside, constant inside; non-trivial: a cut falls on a step point or inside a piece of a function with steps"
)
BUDGET = {"quick": 10000, "thorough": 90000}
CLOSED = ["left", "right", "both", "neither"]
STATS = ["mean", "integral", "median", "mode", "min", "max"]
CONT = ["list", "array", "index", "tuple", "series"]
APPLY = ["std", "mean", "steps", "limit", "limitkw", "pct", "self", "max", "ecdf"]


def gen(d):
    kind = d.wpick([(45, "breaks"), (47, "ii"), (8, "period")])
    dom = "ts" if kind == "period" else G.domain(d)
    big = d.chance(30)
    f = G.fn(d, G.closed(d), big=big)
    pts = G.pts_of(f)
    case = {"dom": dom, "f": f, "kind": kind, "closed": d.pick([None] + CLOSED) if kind != "ii" else d.pick(CLOSED)}
    tiling = kind == "breaks"
    if kind == "breaks":
        ps = sorted({G.query_tick2(d, pts) for _ in range(d.int(2, 7))})
        if len(ps) == 1:
            ps.append(ps[0] + d.int(1, 5))
        case["cuts"] = ps
        case["cont"] = d.pick(CONT)
        if d.chance(25):
            case["lab"] = d.pick(["np", "alt", "py", "pds", "nps"])
        if d.chance(8):
            case["unit"] = d.pick(["s", "us", "ms"])
    elif kind == "ii":
        style = d.pick(["free", "tile", "nested", "gapped"])
        if style == "tile":
            ps = sorted({G.query_tick2(d, pts) for _ in range(d.int(2, 6))})
            if len(ps) == 1:
                ps.append(ps[0] + 2)
            iv = [list(x) for x in zip(ps, ps[1:])]
            tiling = True
        elif style == "nested":
            a, b = G.window(d, pts, unb=0)
            iv = [[a - i * d.int(0, 2), b + i * d.int(0, 3)] for i in range(d.int(1, 4))]
        elif style == "gapped":
            ps = sorted({G.query_tick2(d, pts) for _ in range(2 * d.int(1, 4))})
            iv = [[ps[i], ps[i + 1]] for i in range(0, len(ps) - 1, 2)] or [[ps[0], ps[0] + 3]]
        else:
            iv = [G.window(d, pts, unb=0) for _ in range(d.int(1, 5))]
            if d.chance(20):
                iv.append(list(iv[0]))
        if style != "tile":
            iv = d.perm(iv)
        case["iv"] = iv
        if d.chance(8):
            case["unit"] = d.pick(["s", "us", "ms"])
    else:
        freq = d.pick(["h", "D"])
        if freq == "h":
            ks = [d.int(-8, 12) for _ in range(d.int(1, 5))]
        else:
            ks = [d.int(-1, 1) for _ in range(d.int(1, 3))]
        if d.chance(60):
            ks = list(range(min(ks), min(ks) + len(ks)))
            tiling = True
        case["freq"], case["ks"] = freq, ks
    qs = []
    for _ in range(d.int(2, 5)):
        k = d.wpick([(40, "stat"), (12, "agg"), (14, "hist"), (18, "apply"), (16 if tiling else 0, "resample")])
        q = {"k": k}
        if k == "stat":
            q["s"] = d.pick(STATS)
        elif k == "agg":
            q["s"] = d.pick(STATS) if d.chance(25) else [x for x in d.perm(STATS)][: d.int(1, 6)]
        elif k == "resample":
            q["s"] = d.pick(["mean", "mean", "max", "min", "median", "mode", "integral"])
        elif k == "hist":
            q["bins"] = d.pick(["unit", "list", "list", "ii"])
            vs = [v for v in [f["init"]] + [v for _, v in f["steps"]] if v is not None] or [0]
            if max(vs) - min(vs) > 100:
                q["bins"] = "list"
            q["stat"] = d.pick(["sum", "sum", "frequency", "probability", "density"])
            q["closed"] = d.pick(["left", "right"])
            q["how"] = d.int(0, 2)
            e = sorted({d.pick([-3, -1, 0, 1, 2, 3, 0.5, 4, 6]) for _ in range(d.int(2, 4))})
            q["e"] = e if len(e) > 1 else [e[0], e[0] + 2]
        elif k == "apply":
            q["f"] = d.pick(APPLY)
            q["t"] = G.query_tick2(d, pts)
            q["p"] = d.pick([0, 25, 50, 100, 30])
            q["side"] = d.pick(["left", "right"])
        qs.append(q)
    case["qs"] = qs
    if d.chance(12):  # the function is layered while its slicer is in use: between which queries, and with what
        a, b = G.window(d, pts, unb=30)
        case["late"] = [d.int(0, len(qs) - 1), a, b, d.pick([1, -1, 4, 7])]
    return case


def span(case):
    k = case["kind"]
    if k == "breaks":
        c = case["cuts"]
        return [(F(a, 2), F(b, 2)) for a, b in zip(c, c[1:])]
    if k == "ii":
        return [(F(a, 2), F(b, 2)) for a, b in case["iv"]]
    n = 1 if case["freq"] == "h" else 24
    return [(F(i * n), F((i + 1) * n)) for i in case["ks"]]


def run(case):
    dom = domains.get(case["dom"])
    f, m = build(case["f"], dom), spec_model(case["f"])
    ivs = span(case)
    kind = case["kind"]
    kw = {} if case["closed"] is None else {"closed": case["closed"]}
    iclosed = case["closed"] or "left"
    fl = case.get("lab", "pd")
    if fl not in dom.all_flavours():
        fl = "pd"
    if kind == "breaks":
        labs = [dom.lab(F(t, 2), fl) for t in case["cuts"]]
        if case["cont"] not in ("list", "tuple"):
            labs = in_unit(labs, dom, case.get("unit"))
        cuts = {"list": list, "array": np.array, "index": pd.Index, "tuple": tuple, "series": pd.Series}[case["cont"]](labs)
        if case["cont"] == "array" and dom.tz is not None:
            cuts = pd.DatetimeIndex(labs)
    elif kind == "ii":
        cuts = pd.IntervalIndex.from_tuples([(dom.lab(a), dom.lab(b)) for a, b in ivs], closed=iclosed)
        if case.get("unit"):
            x, y = [in_unit([dom.lab(iv[j]) for iv in ivs], dom, case["unit"]) for j in (0, 1)]
            if isinstance(x, pd.Series) and isinstance(y, pd.Series):
                cuts = pd.IntervalIndex.from_arrays(x, y, closed=iclosed)
        kw = {}
    else:
        cuts = pd.PeriodIndex([pd.Period(dom.lab(a), freq=case["freq"]) for a, _ in ivs])
    sl = call("slice", f.slice, cuts, **kw)
    ms = [model.clip(m, a, b) for a, b in ivs]
    void = [not stat.pieces_ok(x) for x in ms]
    labels = ["dom:" + dom.name, "cuts:%s/%s" % (kind, iclosed), "f-closed:" + m.closed]

    def series(r, what):
        require(isinstance(r, pd.Series), "%s returned %s", what, type(r))
        require(len(r) == len(ivs), "%s has %d entries for %d intervals", what, len(r), len(ivs))
        check_index(r.index, what)
        return [r.iloc[i] for i in range(len(r))]

    def check_index(ix, what):
        for i, (a, b) in enumerate(ivs):
            x = ix[i]
            require(
                dom.inv(x.left) == a and dom.inv(x.right) == b and x.closed == iclosed,
                "%s: entry %d is indexed by %s, expected ticks (%s, %s) closed %s", what, i, x, a, b, iclosed,
            )

    def one(x, name, i, what):
        mi = ms[i]
        w = "%s on %s" % (what, tuple(map(str, ivs[i])))
        if name in ("min", "max"):
            exp = model.values_in(m, ivs[i][0], ivs[i][1], iclosed)
            if exp:
                e = (min if name == "min" else max)(exp)
                require(close(val(x), e), "%s is %s, expected %s", w, x, show(e))
            return
        if void[i]:
            if name in ("mean", "integral"):
                require(pd.isna(x), "%s is %s where the function is undefined", w, x)
            return
        if name == "mean":
            stat.check_mean(x, mi, dom, w)
        elif name == "integral":
            if not stat.overflow_risk(mi, dom):
                stat.check_integral(x, mi, dom, w)
        elif name == "median":
            stat.check_quantile(x, F(1, 2), mi, dom, w)
        elif name == "mode":
            stat.check_mode(x, mi, dom, w)

    before = m.n and any(a < p < b or p in (a, b) for a, b in ivs for p in m.pts)
    for nq, q in enumerate(case["qs"]):
        k = q["k"]
        if case.get("late") and case["late"][0] == nq:
            a, b, v = case["late"][1:]
            H = lambda t: None if t is None else F(t, 2)  # noqa
            call("layer on the sliced function", f.layer, *[None if t is None else dom.lab(H(t)) for t in (a, b)], v)
            compare(f, model.layer(m, [(H(a), H(b), v)]), dom, "the function layered after slicing")
            labels.append("layered after slicing")
        needs_pieces = {"median", "mode"}
        if k in ("stat", "resample") and q["s"] in needs_pieces and any(void):
            labels.append("void slice")
            continue
        if any(stat.overflow_risk(x, dom) for x in ms) and "integral" in str(q.get("s")):
            continue
        if k == "stat":
            what = "slice.%s()" % q["s"]
            for i, x in enumerate(series(call(what, getattr(sl, q["s"])), what)):
                one(x, q["s"], i, what)
            labels.append("stat:" + q["s"])
        elif k == "agg":
            names = [q["s"]] if isinstance(q["s"], str) else [s for s in q["s"] if not (any(void) and s in needs_pieces)]
            if any(void) and set(names) & needs_pieces or not names:
                continue
            what = "slice.agg(%r)" % (q["s"],)
            r = call(what, sl.agg, q["s"] if isinstance(q["s"], str) else names)
            require(isinstance(r, pd.DataFrame) and list(r.columns) == names and len(r) == len(ivs), "%s returned %r", what, r)
            check_index(r.index, what)
            for nme in names:
                for i in range(len(ivs)):
                    one(r[nme].iloc[i], nme, i, what + "." + nme)
        elif k == "hist":
            if any(void):
                labels.append("void slice")
                continue
            hist(sl, q, ms, dom, check_index)
            labels.append("hist:" + q["stat"])
        elif k == "apply":
            apply(sl, q, ms, void, dom, series, one, m, ivs)
            labels.append("apply:" + q["f"])
        elif k == "resample":
            resample(sl, q["s"], m, ms, ivs, void, dom, iclosed, labels)
    return labels, bool(before)


def hist(sl, q, ms, dom, check_index):
    closed, st = q["closed"], q["stat"]
    edges = None
    if q["bins"] == "unit":
        args, kw = [], {"closed": closed, "stat": st}
        if q["how"] == 2:
            args, kw = ["unit", closed, st], {}
    else:
        edges = list(zip(q["e"], q["e"][1:]))
        b = q["e"]
        if q["bins"] == "ii":
            b = pd.IntervalIndex.from_tuples([(float(x), float(y)) for x, y in edges], closed=closed)
        if q["how"] == 0:
            args, kw = [], {"bins": b, "closed": closed, "stat": st}
        elif q["how"] == 1:
            args, kw = [b], {"closed": closed, "stat": st}
        else:
            args, kw = [b, closed, st], {}
    what = "slice.hist(%s, %s)" % (args, kw)
    r = call(what, sl.hist, *args, **kw)
    require(isinstance(r, pd.DataFrame) and len(r) == len(ms), "%s returned %r", what, r)
    check_index(r.index, what)
    bins = list(r.columns)
    require(len(set(bins)) == len(bins), "%s has repeated bins %s", what, bins)
    order = sorted(range(len(bins)), key=lambda j: bins[j].left)
    ii = pd.IntervalIndex([bins[j] for j in order])
    if edges is None:
        # bins of different slices may leave gaps in between, each row is a unit histogram where it has values
        require(all(x.right - x.left == 1 for x in ii), "%s: not unit bins %s", what, ii)
    for i, mi in enumerate(ms):
        h = pd.Series([r.iloc[i, j] for j in order], index=ii)
        if edges is None:
            es = [(x.left, x.right) for x in ii]
            tot = sum((stat.bin_sum(mi, F(float(a)), F(float(b)), closed) for a, b in es), F(0))
            require(tot == model.total(mi), "%s row %d: bins %s do not cover the values", what, i, ii)
        else:
            es = edges
        stat.check_hist(h, mi, dom, closed, st, es, "%s row %d" % (what, i))


def apply(sl, q, ms, void, dom, series, one, m, ivs):
    k = q["f"]
    t = F(q["t"], 2)
    what = "slice.apply(%s)" % k
    if k in ("std", "pct", "ecdf") and any(void):
        return
    if k == "mean":
        for i, x in enumerate(series(call(what, sl.apply, Stairs.mean), what)):
            one(x, "mean", i, what)
    elif k == "std":
        for i, x in enumerate(series(call(what, sl.apply, Stairs.std), what)):
            stat.check_std(x, ms[i], dom, what)
    elif k == "steps":
        for i, x in enumerate(series(call(what, sl.apply, lambda s: s.number_of_steps), what)):
            require(x == ms[i].n, "%s: %s steps in slice %d, expected %d", what, x, i, ms[i].n)
    elif k in ("limit", "limitkw"):
        lab = dom.lab(t)
        r = call(what, sl.apply, Stairs.limit, lab, q["side"]) if k == "limit" else call(what, sl.apply, Stairs.limit, x=lab, side=q["side"])
        for i, x in enumerate(series(r, what)):
            e = ms[i].lim(t, q["side"])
            require(close(val(x), e), "%s(%s) of slice %d is %s, expected %s", what, t, i, x, show(e))
    elif k == "pct":
        for i, x in enumerate(series(call(what, sl.apply, lambda s, p: s.percentile(p), q["p"]), what)):
            stat.check_quantile(x, F(q["p"], 100), ms[i], dom, what, exact_q=q["p"] != 30)
    elif k == "ecdf":
        for i, x in enumerate(series(call(what, sl.apply, lambda s, y=0: s.ecdf(y), y=1), what)):
            stat.check_ecdf(x, 1, ms[i], False, what)
    elif k == "max":
        for i, x in enumerate(series(call(what, sl.apply, lambda s: s.max()), what)):
            exp = model.values_in(ms[i], None, None, "both")
            if exp:
                require(close(val(x), max(exp)), "%s of slice %d is %s, expected %s", what, i, x, show(max(exp)))
    elif k == "self":
        for i, x in enumerate(series(call(what, sl.apply, lambda s: s), what)):
            compare(x, ms[i], dom, "slice %d" % i, minimal=True)


def resample(sl, name, m, ms, ivs, void, dom, iclosed, labels):
    if name == "integral" and dom.datelike:
        return
    if iclosed == "both" and len(ivs) > 1:
        return  # neighbours share a point: documented as overlapping, rejected with ValueError
    new = []
    for i, (a, b) in enumerate(ivs):
        if name in ("min", "max"):
            vs = model.values_in(m, a, b, iclosed)
            new.append(((min if name == "min" else max)(vs)) if vs else None)
        elif void[i]:
            new.append(None)
        elif name == "mean":
            new.append(model.mean(ms[i]))
        elif name == "integral":
            new.append(model.integral(ms[i]) * (dom.scale if dom.kind == "float" else F(1, 10) if dom.kind == "fdec" else 1))
        elif name == "median":
            if any(abs(x - F(1, 2)) < F(1, 10**9) for x in model.share_boundaries(ms[i])) and not stat.dyadic(ms[i], dom):
                labels.append("median on an inexact share boundary")
                return
            new.append(model.fractile(ms[i], F(1, 2)))
        else:
            if len(model.modes(ms[i])) > 1:
                labels.append("mode tie")
                return
            if not dom.exact and len(model.value_sums(ms[i])) > 1:
                ls = sorted(model.value_sums(ms[i]).values())
                if ls[-1] - ls[-2] < F(1, 1000):
                    return
            new.append(next(iter(model.modes(ms[i]))))
    lo, hi = ivs[0][0], ivs[-1][1]
    pts = [p for p in m.pts if p < lo] + [a for a, _ in ivs] + [hi] + [p for p in m.pts if p > hi]
    vals = [m.vals[0]] + [m.right(p) for p in m.pts if p < lo] + new + [m.right(hi)] + [m.right(p) for p in m.pts if p > hi]
    e = Fn(m.closed, pts, vals)
    r = call("resample(%r)" % name, sl.resample, name)
    require(r is not None, "resample returned None")
    if m.n:
        require(r.closed == m.closed, "resample: closed is %s, expected %s", r.closed, m.closed)
    labels.append("resample:" + name)
    tol = 1e-9
    if dom.datelike and name == "mean":  # integrals are rounded to nanoseconds piece by piece
        ok = [x for x in ms if stat.pieces_ok(x)]
        tol += max([(x.n + 2) / float(model.total(x) * dom.unit) for x in ok], default=0)
    compare(r, e, dom, "resample(%r)" % name, tol=tol)
