"""C02: layering adds the layered intervals to the previous function."""
import itertools
import random

import numpy as np
import pandas as pd

import staircase as sc

from vlib import domains, model
from vlib import gen as G
from vlib.model import Fn, frac
from vlib.real import NAN, Stairs, build, call, compare, in_unit, num, require, spec_model, _read

RULE = (
    "histories of 1-4 layer calls (scalar, list, tuple, ndarray, Series with arbitrary index, DataFrame columns, constructor) "
    "on fresh / layered / constant / partly undefined receivers, with nested, repeated, cancelling, empty and reversed "
    "intervals and every spelling of a missing end point, with reads interposed; plus all 2-call histories over a 3-point "
    "grid; non-trivial: some layered triple changes the function"
)
BUDGET = {"quick": 9000, "thorough": 200000}

FORMS = [(34, "scalar"), (14, "list"), (6, "tuple"), (12, "ndarray"), (10, "series"), (14, "frame"), (6, "mixed"), (4, "ctor")]
UINT = ["py", "float", "np.float64", "np.int64", "np.int32", "np.float32", "np.int8", "np.uint8", "bool", "np.bool", "np.longdouble"]


def triple(d, pool, lo=-8, hi=12):
    def pt():
        if pool and d.chance(45):
            return d.pick(pool)
        return d.int(lo, hi)

    k = d.int(0, 99)
    v = G.value(d)
    if k < 46:
        a, b = sorted((pt(), pt()))
        if a == b:
            b = a + 1
    elif k < 62:
        a, b = pt(), None
    elif k < 76:
        a, b = None, pt()
    elif k < 80:
        a, b = None, None
    elif k < 88:
        a = b = pt()
    else:
        a, b = pt(), pt()
    return [a, b, v]


def gen(d):
    dom = G.domain(d)
    cl = G.closed(d)
    f = G.fn(d, cl, big=d.chance(20))
    pool = G.pts_of(f)
    calls = []
    past = []
    for _ in range(d.wpick([(45, 1), (30, 2), (15, 3), (10, 4)])):
        form = d.wpick(FORMS)
        if form == "ctor" and calls:
            form = "list"
        n = 1 if form == "scalar" else d.wpick([(3, 0), (20, 1), (30, 2), (30, 3), (12, 5), (5, 12)])
        trs = []
        for _ in range(n):
            if past and d.chance(30):  # cancel or repeat an earlier triple
                a, b, v = d.pick(past)
                t = [a, b, -v if d.chance(70) else v]
            elif trs and d.chance(15):
                a, b, v = d.pick(trs)
                t = [a, b, -v]
            else:
                t = triple(d, pool)
            trs.append(t)
        if n > 3 and d.chance(6):  # a long vector
            rnd = random.Random(d.int(0, 10**6))
            n = d.pick([40, 90, 150, 300]) + d.int(0, 9)
            wide = d.pick([3, 30, 400])
            for _ in range(n):
                a, b = rnd.randint(-wide, wide), rnd.randint(-wide, wide)
                trs.append([a if rnd.random() > 0.1 else None, b if rnd.random() > 0.1 else None, rnd.randint(-4, 4)])
        c = {"form": form, "t": trs}
        if d.chance(25):  # value omitted: 1
            for t in trs:
                t[2] = 1
            c["noval"] = 1
        elif trs and form != "scalar" and d.chance(15):
            for t in trs:
                t[2] = trs[0][2]
            c["oneval"] = 1
        past += trs
        pool = sorted(set(pool) | {p for t in trs for p in t[:2] if p is not None})
        if form == "scalar" and d.chance(15):
            c["inf"] = 1
        c["miss"] = d.pick(["None", "nan", "NaT", "None"])
        c["lab"] = d.pick(["pd", "np", "alt", "py", "pd", "np", "alt", "py", "pds", "nps"])
        c["sc"] = d.pick(UINT)
        if d.chance(12):
            c["unit"] = d.pick(["s", "us", "ms"])
        c["trim"] = d.int(0, 1)
        c["trim2"] = d.int(0, 1)
        c["pos"] = d.int(0, 1)
        c["seed"] = d.int(0, 9)
        r = d.wpick(G.MATS)
        if r:
            c["read"] = r
        calls.append(c)
    return {"dom": dom, "f": f, "calls": calls}


def enum(tier):
    pts = [None, 0, 1, 2]
    vals = [1, -1, 2] if tier == "thorough" else [1, -1]
    tr = [[a, b, v] for a in pts for b in pts for v in vals]
    recs = [
        {"closed": "left", "init": 0, "steps": []},
        {"closed": "right", "init": None, "steps": [[0, 1], [1, None], [2, 3]]},
    ]
    for f in recs:
        for i, (t1, t2) in enumerate(itertools.product(tr, tr)):
            if tier == "quick" and f["steps"] and i % 3:
                continue
            form = ("scalar", "scalar2", "list")[i % 3]
            c = [{"form": "scalar", "t": [t1]}, {"form": "scalar", "t": [t2]}]
            if form == "list":
                c = [{"form": "list", "t": [t1, t2]}]
            elif form == "scalar2":
                c[1]["form"] = "list"
                c[0]["read"] = "v"
            yield {"dom": "int" if i % 2 else "ts", "f": f, "calls": c}


def missing(kind, dom):
    if kind == "NaT" and dom.datelike:
        return pd.NaT
    if kind in ("nan", "NaT"):
        return NAN
    return None


def any_index(n, seed):
    """an index for n rows, which means nothing"""
    rng = random.Random(seed)
    k = seed % 8
    if k == 0:
        return pd.RangeIndex(3, 3 + n)
    if k == 1:
        return pd.RangeIndex(n - 1, -1, -1)
    if k == 2:
        return pd.RangeIndex(0, 2 * n, 2)
    if k == 3:
        return pd.date_range("2020-01-01", periods=n, freq="D")[::-1]
    if k == 4:
        return ["k%d" % (i % 2) for i in range(n)]
    if k == 5:
        return pd.MultiIndex.from_arrays([[i % 2 for i in range(n)], list(range(n))[::-1]])
    idx = [rng.randrange(5) for _ in range(n)]
    return [float("nan") if i == 2 else i for i in idx] if k == 6 else idx


def perform(s, c, dom, cl, init=None):
    trs = c["t"]
    fl = c.get("lab", "pd")
    if fl not in dom.all_flavours():
        fl = "pd"
    miss = missing(c.get("miss", "None"), dom)
    form = c["form"]

    def L(t):
        return miss if t is None else dom.lab(t, fl)

    if form == "scalar":
        a, b, v = trs[0]
        args = dict(start=L(a), end=L(b), value=num(v, c.get("sc", "py")))
        if c.get("noval"):
            args["value"] = None
        if c.get("inf"):
            args.update({k: i for k, i, x in (("start", -sc.inf, a), ("end", sc.inf, b)) if x is None})
        elif a is None and c.get("pos") and c.get("miss") == "None":
            del args["start"]
        if c.get("trim") and c.get("noval"):
            del args["value"]
        return s.layer(**args)
    a = [t[0] for t in trs]
    b = [t[1] for t in trs]
    v = [t[2] for t in trs]
    if c.get("trim") and form not in ("frame",):  # drop trailing missing entries: a shorter vector is padded
        if len(a) > 1 and (not b or b[-1] is not None):
            while len(a) > 1 and a[-1] is None:
                a.pop()
        elif len(b) > 1:
            while len(b) > 1 and b[-1] is None:
                b.pop()
        if c.get("trim2") and not c.get("noval") and not c.get("oneval"):  # both shorter than the values
            while len(a) > 1 and a[-1] is None:
                a.pop()
            while len(b) > 1 and b[-1] is None:
                b.pop()
    alln = lambda x: all(y is None for y in x)  # noqa
    val = None if c.get("noval") else num(v[0], c.get("sc", "py")) if c.get("oneval") and v else v

    which = itertools.count()

    def vec(x):
        """a vector of labels with missing entries"""
        out = [L(y) for y in x]
        f = form
        if form == "mixed":
            f = ["list", "ndarray", "series", "tuple"][(c.get("seed", 0) + len(x)) % 4]
        if f == "tuple":
            return tuple(out)
        if f == "list":
            return out
        if c.get("unit") and f in ("ndarray", "series"):
            ser = in_unit(out, dom, c["unit"])
            if isinstance(ser, pd.Series):
                if f == "series":
                    return pd.Series(ser.array, index=any_index(len(out), c.get("seed", 0) + 3 * next(which)))
                return ser.array if dom.tz is not None else ser.values
        if f == "ndarray":
            if dom.kind == "ts" and dom.tz is None and out:
                return np.array([np.datetime64("NaT") if y is None else dom.lab(y, "np") for y in x], dtype="datetime64[ns]")
            if dom.kind == "td" and out:
                return np.array([np.timedelta64("NaT") if y is None else dom.lab(y, "np") for y in x], dtype="timedelta64[ns]")
            if dom.datelike:
                return np.array(out, dtype=object) if any(y is None for y in x) else pd.Series(out).array
            if any(y is None for y in x):
                return np.array([NAN if y is None else dom.lab(y) for y in x], dtype=float)
            return np.array(out)
        return pd.Series(out, index=any_index(len(out), c.get("seed", 0) + 3 * next(which))) if out else out

    def vals(x):
        if not isinstance(x, list):
            return x
        f = form
        if form == "tuple":
            return tuple(x)
        if f in ("ndarray", "series") and x:
            ints = all(float(y).is_integer() for y in x)
            arr = np.array(x, dtype=float)
            sc = c.get("sc", "py")
            if ints and sc in ("np.int64", "np.int32"):
                arr = arr.astype(sc[3:])
            elif ints and sc == "np.uint8" and all(0 <= y < 200 for y in x):
                arr = arr.astype("uint8")
            elif ints and sc == "np.int8" and all(abs(y) < 100 for y in x):
                arr = arr.astype("int8")
            if f == "ndarray":
                return arr
            return pd.Series(arr, index=any_index(len(x), c.get("seed", 0) + 5))
        return list(x)

    def vec_or_none(x, other):
        if alln(x) and not alln(other) and c.get("pos") and (len(other) == len(trs) or isinstance(val, list)):
            return None
        return vec(x)

    if form == "frame":
        cols = {}
        cols["x y"] = pd.Series(in_unit([L(y) for y in a], dom, c.get("unit")))
        cols["end"] = pd.Series(in_unit([L(y) for y in b], dom, c.get("unit") if c.get("seed", 0) % 4 else None))
        args = dict(start="x y", end="end")
        if alln(a) and not alln(b) and c.get("pos"):
            args.pop("start")
        elif alln(b) and not alln(a) and c.get("pos"):
            args.pop("end")
        df = pd.DataFrame(cols)
        if val is v or c.get("seed", 0) % 3:
            df["v"] = v  # otherwise a row may be missing altogether
        elif c.get("trim2"):
            df["unused"] = NAN
        if c.get("trim") and c.get("seed", 0) % 2 == 0:  # columns and vectors together
            for k, x in (("start", a), ("end", b)):
                if k in args and c.get("pos") == (k == "start"):
                    args[k] = [L(y) for y in x]
        if val is v:
            args["value"] = "v"
        elif val is not None:
            args["value"] = val
        rng = random.Random(c.get("seed", 0))
        if c.get("seed", 0) % 2:
            df.index = any_index(len(df), c["seed"])
            order = list(range(len(df)))
            rng.shuffle(order)
            df = df.iloc[order]
        before = df.copy()
        if init is not None:
            r = Stairs(frame=df, initial_value=init, closed=cl, **args)
        else:
            r = s.layer(frame=df, **args)
        require(df.equals(before), "layer changed the caller's DataFrame")
        return r
    a, b = vec_or_none(a, b), vec_or_none(b, a)
    if init is not None:
        return Stairs(start=a, end=b, value=vals(val), initial_value=init, closed=cl)
    if c.get("pos"):
        return s.layer(a, b, vals(val))
    return s.layer(start=a, end=b, value=vals(val))


def run(case):
    dom = domains.get(case["dom"])
    m = spec_model(case["f"])
    s = build(case["f"], dom)
    changed = 0
    past = [m]
    labels = ["dom:" + dom.name, "calls:%d" % len(case["calls"])]
    labels.append("receiver:" + ("free" if m.stepfree else "na" if m.has_na() else "def"))
    for c in case["calls"]:
        labels.append("form:" + c["form"])
        m2 = model.layer(m, c["t"])
        changed += not m2.same(m)
        if c["form"] == "ctor":
            # the constructor shorthand: layering onto a constant
            init = case["f"]["init"]
            m = Fn(case["f"]["closed"], [], [frac(init)])
            m2 = model.layer(m, c["t"])
            c2 = dict(c, form="list")
            s = call("Stairs(start, end, value)", perform, None, c2, dom, case["f"]["closed"], num(init))
        else:
            r = call("layer(%s)" % c["form"], perform, s, c, dom, m.closed)
            require(r is s, "layer returned a different object")
        for ch in c.get("read", ""):
            call("read", _read, s, ch, dom)
        past += [m2] + [model.const(v) for _, _, v in c["t"]]
        m = m2
    compare(s, m, dom, "after layering", ins=past)
    return labels, changed > 0
