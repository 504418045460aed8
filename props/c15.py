"""C15: the closed side is preserved and opposite sides are never silently merged."""
from fractions import Fraction as F

import numpy as np
import pandas as pd

import staircase as sc
from staircase import Stairs
from staircase.core.arrays.extension import StairsArray
from staircase.core.exceptions import ClosedMismatchError
from vlib import domains, model, prog
from vlib import gen as G
from vlib.model import Fn
from vlib.real import Violation, build, call, compare, num, require, spec_model

RULE = (
    "(1) programs of 1-5 operations (46 kinds, operator / method / array / Series / collection forms) over leaves whose closed sides are "
    "drawn independently, with and without steps: each operation must either return the closed side of the operands with steps (of the "
    "receiver when none has), observed through .closed and through sampling at every step point, or raise ClosedMismatchError exactly when "
    "two operands with steps have opposite sides; (2) cov / corr in Stairs, array, accessor and top-level form with windows, lags and clip "
    "modes; slicer statistics and resample in every interval closedness, rolling means, histograms and aggregations on consistently closed "
    "inputs must not raise a mismatch; (3) bounded-exhaustive: every operation x sides x operand shapes (two steps, one step, undefined "
    "parts, constants, everywhere undefined); non-trivial: a mixed-side pair, a right-closed operand, or a step-free operand of the other side"
)
LEAF = "closed"
BUDGET = {"quick": 5200, "thorough": 120000}

SARR = ["lt", "le", "gt", "ge", "eq", "ne", "add", "subtract", "multiply", "divide"]


def leaf(d, fs):
    f = G.fn(d, G.closed(d), pool=G.pts_of(*fs), big=False)
    return f


def gen(d):
    if d.chance(25):
        return gen_stat(d)
    dom = G.domain(d, G.EXACT_DOMAINS)
    leaves = []
    same = G.closed(d) if d.chance(45) else None
    for _ in range(d.wpick([(20, 1), (60, 2), (20, 3)])):
        f = leaf(d, leaves)
        if same:
            f["closed"] = same if f["steps"] or d.chance(50) else {"left": "right", "right": "left"}[same]
        leaves.append(f)
    ms = [spec_model(f) for f in leaves]
    ops = []
    for _ in range(d.wpick([(35, 1), (30, 2), (20, 3), (15, 5)])):
        op, m = prog.gen_op(d, ms, prog.OPW, mismatch=True)
        ops.append(op)
        if m.closed != "MISMATCH":
            ms.append(m)
    return {"dom": dom, "leaves": leaves, "ops": ops}


STATK = ["cov", "corr", "acov", "acorr", "tcov", "tcorr", "sccov", "sccorr"]
QUIETK = ["resample", "slicestats", "slicehist", "slicemaxmin", "rolling", "hist", "agg", "describe", "diff", "values", "slicempl"]


def gen_stat(d):
    dom = G.domain(d, G.EXACT_DOMAINS)
    f = leaf(d, [])
    g = leaf(d, [f])
    k = d.pick(STATK) if d.chance(60) else d.pick(QUIETK)
    case = {"dom": dom, "f": f, "g": g, "k": k, "w": G.window(d, G.pts_of(f, g), unb=20), "lag": d.pick([0, 0, 1, 2, -1, -3]), "clip": d.pick(["pre", "post"]),
            "closed": d.pick(["left", "right", "both", "neither"]), "stat": d.pick(["mean", "median", "mode", "max", "min"])}
    if d.chance(40):
        case["h"] = leaf(d, [f, g])
    c = sorted({G.query_tick2(d, G.pts_of(f)) for _ in range(4)})
    case["cuts"] = c if len(c) > 1 else [c[0], c[0] + 4]
    return case


def enum(tier):
    shapes = [(0, [[0, 1], [3, 0]]), (1, [[2, 2]]), (None, [[0, 1], [3, None]]), (0, []), (1, []), (None, [])]
    i = 0
    for fi, f in enumerate(shapes):
        for gi, g in enumerate(shapes):
            for cf in ("left", "right"):
                for cg in ("left", "right"):
                    lv = [{"closed": cf, "init": f[0], "steps": f[1]}, {"closed": cg, "init": g[0], "steps": g[1]}]
                    ops = []
                    for b in prog.BIN + ["mask", "where", "fillna_f"]:
                        i += 1
                        ops.append(dict(op=b, a=0, b=1, **({"form": "method"} if b in prog.BIN and i % 2 else {})))
                    ops += [{"op": "array", "which": w, "a": 0, "b": 1, "scb": (i + n) % 2} for n, w in enumerate(["add", "gt", "eq", "mul"])]
                    for n, a in enumerate(prog.AGGS):
                        ops.append({"op": a, "args": [0, 1], "cont": prog.CONTAINERS[(i + n) % 7]})
                        ops.append({"op": a, "args": [1, 1, 0], "cont": prog.CONTAINERS[(i + n + 3) % 7]})
                    if gi == 0 and cg == "left":
                        ops += [{"op": u, "a": 0} for u in prog.UNARY]
                        for w in ([None, None], [None, 2], [2, None], [0, 6], [2, 4], [-8, -4], [12, 20]):
                            ops += [{"op": o, "a": 0, "w": w} for o in ("clip", "mask_t", "where_t")]
                        for b in prog.BIN:
                            for v in (0, 1, 2, None):
                                ops += [{"op": b, "a": 0, "b": {"scalar": v}}, {"op": b, "a": {"scalar": v}, "b": 0}]
                        ops += [{"op": "fillna_s", "a": 0, "v": {"scalar": v, "fl": "py"}} for v in (0, 1)]
                        ops += [{"op": "fillna_m", "a": 0, "how": h} for h in ("ffill", "bfill")]
                        ops += [{"op": "shift", "a": 0, "n": 2}, {"op": "shift", "a": 0, "n": 0}, {"op": "diff", "a": 0, "n": 2}, {"op": "diff", "a": 0, "n": 0}, {"op": "copy", "a": 0},
                                {"op": "layer", "a": 0, "ivs": [[0, 6, -1]]}, {"op": "layer", "a": 0, "ivs": [[2, None, 3]]}, {"op": "layerv", "a": 0, "ivs": [[0, 6, -1], [2, 4, 1]]}]
                        for c in ("left", "right", "neither"):
                            for s in ("min", "max"):
                                ops += [{"op": "resample", "a": 0, "cuts": [0, 4, 8], "stat": s, "closed": c}, {"op": "resample", "a": 0, "cuts": [-8, 20], "stat": s, "closed": c}]
                        ops += [{"op": "piece", "a": 0, "cuts": [-2, 2, 20], "i": n} for n in (0, 1)]
                    ms = [spec_model(s) for s in lv]
                    for n, op in enumerate(ops):
                        if prog.valid(op, ms, mismatch=True) is None:
                            continue
                        mat = ("", "v", "d", "vd")[(i + n) % 4]
                        if tier == "quick" and (i + n) % 2 and cf == cg and gi:
                            continue
                        yield {"dom": ("int", "ts", "tz_syd", "td")[(i + n) % 4], "leaves": [dict(lv[0], mat=mat), dict(lv[1], mat=mat[::-1])], "ops": [op]}
                    for k in STATK:
                        for w in ([0, 6], [2, 4], [-8, -2], [None, None]) if tier == "thorough" else ([0, 6], [-8, -2]):
                            yield {"dom": "int", "f": lv[0], "g": lv[1], "k": k, "w": w, "lag": 0, "clip": "pre", "closed": "left", "stat": "mean", "cuts": [0, 4]}


def mismatch_expected(what, f, *a, **k):
    """opposite sides with steps: only ClosedMismatchError will do"""
    try:
        r = f(*a, **k)
    except ClosedMismatchError:
        return
    except Exception as e:  # noqa
        raise Violation("%s on opposite closed sides raised %s (%s), not ClosedMismatchError" % (what, type(e).__name__, str(e)[:200]))
    raise Violation("%s combined opposite closed sides silently and gave %s" % (what, (r.closed, r.to_frame().values.tolist()) if isinstance(r, Stairs) else r))


def run(case):
    dom = domains.get(case["dom"])
    if "k" in case:
        return run_stat(case, dom)
    nodes = [build(s, dom) for s in case["leaves"]]
    ms = [spec_model(s) for s in case["leaves"]]
    for s, m in zip(nodes, ms):
        require(s.closed == m.closed, "operand built with closed=%s has closed=%s", m.closed, s.closed)
    labels, nt = ["dom:" + dom.name], False
    for op in case["ops"]:
        m = prog.meaning(op, ms)
        fs = [ms[r] for r in prog.refs(op)]
        nt |= any(f.closed == "right" and f.pts for f in fs) or len({f.closed for f in fs}) > 1
        if m.closed == "MISMATCH":
            mismatch_expected(prog.describe(op), raw(op, nodes, dom))
            labels.append("mismatch:" + op["op"])
            continue
        r = prog.execute(op, nodes, dom)
        what = prog.describe(op)
        require(isinstance(r, Stairs), "%s gives %s", what, type(r))
        require(r.closed == m.closed, "%s is closed %s, expected %s (operands: %s)", what, r.closed, m.closed,
                ", ".join("%s, %s" % (f.closed, "%d steps" % f.n if f.pts else "no steps") for f in fs))
        for ch in op.get("mat", ""):
            prog._read(r, ch, dom)
        labels.append("op:" + op["op"])
        labels.append("sides:" + "/".join(f.closed + ("" if f.pts else "-free") for f in fs[:2]) + ("->free" if not m.pts else ""))
        if op["op"] in ("piece",):
            pass
        compare(r, m, dom, what)
        nodes.append(r)
        ms.append(m)
    for s, m in zip(nodes, ms):
        require(s.closed == m.closed, "an operand's closed side changed from %s to %s", m.closed, s.closed)
    return labels, nt


def raw(op, nodes, dom):
    """the operation without the wrapper that turns exceptions into violations"""
    def go():
        try:
            return prog.execute(op, nodes, dom)
        except Violation as e:
            if e.__context__ is not None:
                raise e.__context__
            raise
    return go


def run_stat(case, dom):
    f, g = build(case["f"], dom), build(case["g"], dom)
    mf, mg = spec_model(case["f"]), spec_model(case["g"])
    xs, ms = [f, g], [mf, mg]
    if "h" in case:
        xs.append(build(case["h"], dom))
        ms.append(spec_model(case["h"]))
    k = case["k"]
    L = lambda t: None if t is None else dom.lab(F(t, 2))  # noqa
    win = tuple(L(t) for t in case["w"])
    mixed2 = bool(mf.pts and mg.pts and mf.closed != mg.closed)
    mixedn = len({m.closed for m in ms if m.pts}) > 1
    labels = ["dom:" + dom.name, "stat:" + k]
    kw = {}
    if k in ("cov", "corr"):
        if case["lag"]:
            kw = {"lag": dom.length(case["lag"]), "clip": case["clip"]}
        fun, mixed = (lambda: getattr(f, k)(g, win, **kw)), mixed2
    elif k[0] == "a" and k != "agg":
        fun, mixed = (lambda: getattr(StairsArray(np.array(xs)), k[1:])(win)), mixedn
    elif k[0] == "t":
        fun, mixed = (lambda: getattr(sc, k[1:])(xs, win)), mixedn
    elif k.startswith("sc"):
        fun, mixed = (lambda: getattr(pd.Series(xs, dtype="Stairs").sc, k[2:])(win)), mixedn
    else:
        fun, mixed = quiet(k, f, case, dom, win), False
    if mixed:
        mismatch_expected(k, fun)
        labels.append("mismatch:" + k)
        return labels, True
    try:
        fun()
    except ClosedMismatchError as e:
        raise Violation("%s raised ClosedMismatchError on consistently closed inputs (%s)" % (k, e))
    except Exception:  # noqa: whether the statistic exists is another property's business
        labels.append("statistic failed")
    require(f.closed == mf.closed and g.closed == mg.closed, "%s changed an operand's closed side", k)
    return labels, mf.closed == "right" and bool(mf.pts)


def quiet(k, f, case, dom, win):
    cuts = [dom.lab(F(t, 2)) for t in case["cuts"]]
    cl = case["closed"]

    def go():
        if k == "resample":
            r = f.slice(cuts, closed=cl).resample(case["stat"])
            if f.number_of_steps:
                require(r.closed == f.closed, "resample gave closed=%s, the function is closed=%s", r.closed, f.closed)
            return r
        if k == "slicestats":
            return f.slice(cuts, closed=cl).agg(["mean", "median", "integral", "max", "min"])
        if k == "slicemaxmin":
            return f.slice(cuts, closed=cl).max(), f.slice(cuts, closed=cl).min()
        if k == "slicehist":
            return f.slice(cuts, closed=cl).hist()
        if k == "slicempl":
            for p in f.slice(cuts, closed=cl).apply(lambda s: s):
                require(p.closed == f.closed, "a slice is closed %s, the function %s", p.closed, f.closed)
            return None
        if k == "rolling":
            return f.rolling_mean((dom.length(-1), dom.length(2)), win)
        if k == "hist":
            return f.hist(closed="left"), f.hist(closed="right")
        if k == "agg":
            return f.agg(["mean", "integral", "max", "min", "std", "median", "mode", "var"], win)
        if k == "describe":
            return f.describe()
        if k == "diff":
            return f.diff(dom.length(2))
        return f.values_in_range(win)

    return go
