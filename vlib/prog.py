"""Programs over the public operations: straight-line, every result can be an operand of a later step.

A program is {"leaves": [specs], "ops": [op, ...]}; node i is leaf i or the result of an op.
An operand reference is a node index or a scalar {"scalar": v, "fl": flavour}."""
from fractions import Fraction as F

import numpy as np
import pandas as pd

import staircase as sc
from staircase import Stairs
from staircase.core.arrays.extension import StairsArray

from . import gen as G
from . import model
from .model import Fn, frac
from .pairs import METHOD, OPERATOR, UNARY, apply1, apply2
from .real import _read, call, num, span_exact

BIN = list(OPERATOR)
AGGS = ["sum", "mean", "median", "min", "max", "logical_or", "logical_and"]
CONTAINERS = ["list", "tuple", "dict", "ndarray", "series", "oseries", "sarray"]

OPW = (
    [(4, b) for b in BIN]
    + [(3, u) for u in UNARY]
    + [(6, "mask"), (6, "where"), (5, "fillna_f"), (4, "fillna_s"), (4, "fillna_m"), (5, "clip"), (4, "mask_t"), (3, "where_t"),
       (4, "shift"), (3, "diff"), (2, "copy"), (5, "layer"), (3, "layerv"), (3, "resample"), (3, "piece"), (3, "array")]
    + [(2, a) for a in AGGS]
)


class Inexact(Exception):
    pass


def exact(m, maxn=300):
    if m.n > maxn:
        return False
    if not span_exact(m.vals, 48):
        return False
    return all((p * 2).denominator == 1 for p in m.pts)


def refs(op):
    out = [op[k] for k in ("a", "b") if k in op] + list(op.get("args", ()))
    return [r for r in out if not isinstance(r, dict)]


# ---------------------------------------------------------------- meaning
def half(t):
    return None if t is None else F(t, 2)


def meaning(op, nodes):
    """the function the op denotes; closed "MISMATCH" when sides conflict"""
    k = op["op"]
    get = lambda r: model.const(r["scalar"]) if isinstance(r, dict) else nodes[r]  # noqa
    if k in UNARY:
        return model.unary(k, get(op["a"]))
    if k in BIN or k == "array":
        a, b = op["a"], op["b"]
        recv = nodes[b] if isinstance(a, dict) else nodes[a]
        fa, fb = get(a), get(b)
        return model.binary(op["which"] if k == "array" else k, fa, fb, model.pick_closed([fa, fb], recv))
    if k in AGGS:
        return model.aggregate(k, [nodes[r] for r in op["args"]])
    f = get(op["a"])
    if k in ("mask", "where", "fillna_f"):
        g = get(op["b"])
        h = {"mask": model.mask, "where": model.where, "fillna_f": model.fillna_fn}[k](f, g)
        return h.with_closed(model.pick_closed([f, g], f))
    if k == "fillna_s":
        return model.fillna_scalar(f, op["v"]["scalar"])
    if k == "fillna_m":
        return model.fillna_method(f, op["how"])
    if k in ("clip", "where_t"):
        return model.clip(f, half(op["w"][0]), half(op["w"][1])).with_closed(f.closed)
    if k == "mask_t":
        return model.mask(f, model.indicator(half(op["w"][0]), half(op["w"][1]), f.closed)).with_closed(f.closed)
    if k == "shift":
        return model.shift(f, half(op["n"]))
    if k == "diff":
        return model.binary("sub", f, model.shift(f, half(op["n"])), f.closed)
    if k == "copy":
        return f
    if k in ("layer", "layerv"):
        return model.layer(f, [(half(a), half(b), v) for a, b, v in op["ivs"]])
    if k == "piece":
        c = op["cuts"]
        i = op["i"] % (len(c) - 1)
        return model.clip(f, half(c[i]), half(c[i + 1])).with_closed(f.closed)
    if k == "resample":
        c = [half(x) for x in op["cuts"]]
        pts = [p for p in f.pts if p < c[0]]
        vals = [f.vals[0]] + [f.right(p) for p in pts]
        for a, b in zip(c, c[1:]):
            vs = model.values_in(f, a, b, op["closed"])
            pts.append(a)
            vals.append((min if op["stat"] == "min" else max)(vs) if vs else None)
        pts.append(c[-1])
        vals.append(f.right(c[-1]))
        for p in f.pts:
            if p > c[-1]:
                pts.append(p)
                vals.append(f.right(p))
        return Fn(f.closed, pts, vals)
    raise KeyError(k)


# ---------------------------------------------------------------- execution
def container(kind, xs):
    if kind == "list":
        return list(xs)
    if kind == "tuple":
        return tuple(xs)
    if kind == "dict":
        return {"k%d" % i: x for i, x in enumerate(xs)}
    arr = np.empty(len(xs), dtype=object)
    arr[:] = xs
    if kind == "ndarray":
        return arr
    if kind == "series":
        return pd.Series(list(xs), dtype="Stairs", index=["r%d" % i for i in range(len(xs))])
    if kind == "oseries":
        return pd.Series(arr)
    return StairsArray(arr)


def fl_of(op, dom):
    fl = op.get("lab", "pd")
    return fl if fl in dom.all_flavours() else "pd"


def lab(t, op, dom, sign=0):
    if t is None:
        return None
    return dom.lab(half(t), fl_of(op, dom))


def execute(op, nodes, dom):
    k = op["op"]
    get = lambda r: num(r["scalar"], r.get("fl", "py")) if isinstance(r, dict) else nodes[r]  # noqa
    what = describe(op)
    form = op.get("form", "op")
    if k in UNARY:
        return call(what, apply1, k, get(op["a"]), form)
    if k in BIN:
        return call(what, apply2, k, get(op["a"]), get(op["b"]), form)
    if k == "array":
        x, y = get(op["a"]), get(op["b"])
        return call(what, lambda: apply2_array(op["which"], x, y, op.get("scb", 0)))
    if k in AGGS:
        return call(what, getattr(sc, k), container(op.get("cont", "list"), [nodes[r] for r in op["args"]]))
    f = nodes[op["a"]]
    if k in ("mask", "where"):
        return call(what, getattr(f, k), get(op["b"]))
    if k == "fillna_f":
        return call(what, f.fillna, get(op["b"]))
    if k == "fillna_s":
        return call(what, f.fillna, get(op["v"]))
    if k == "fillna_m":
        return call(what, f.fillna, op["how"])
    if k in ("clip", "where_t", "mask_t"):
        a, b = [lab(t, op, dom) for t in op["w"]]
        if k == "clip":
            return call(what, f.clip, a, b)
        return call(what, f.where if k == "where_t" else f.mask, (a, b))
    if k in ("shift", "diff"):
        return call(what, getattr(f, k), dom.length(half(op["n"])))
    if k == "copy":
        return call(what, f.copy)
    if k in ("layer", "layerv"):
        g = f.copy()
        r = call(what, do_layer, g, op, dom)
        return r
    cuts = [dom.lab(half(x)) for x in op["cuts"]]
    if k == "piece":
        return call(what, lambda: f.slice(cuts).apply(lambda s: s).iloc[op["i"] % (len(cuts) - 1)])
    if k == "resample":
        return call(what, lambda: f.slice(cuts, closed=op["closed"]).resample(op["stat"]))
    raise KeyError(k)


def apply2_array(which, x, y, broadcast):
    """the operator through a one- or two-element StairsArray"""
    if not isinstance(x, Stairs):
        return apply2(which, x, StairsArray([y, y]), "op")[0]
    other = y if broadcast or not isinstance(y, Stairs) else StairsArray([x, y])
    return apply2(which, StairsArray([y if isinstance(y, Stairs) else x, x]), other, "op")[1]


def do_layer(g, op, dom):
    fl = fl_of(op, dom)
    L = lambda t: None if t is None else dom.lab(half(t), fl)  # noqa
    ivs = op["ivs"]
    if op["op"] == "layer":
        r = g
        for a, b, v in ivs:
            r = r.layer(L(a), L(b), num(v, op.get("fl", "py")))
    else:
        a, b = [L(x[0]) for x in ivs], [L(x[1]) for x in ivs]
        r = g.layer(
            None if all(x is None for x in a) else a,
            None if all(x is None for x in b) else b,
            [x[2] for x in ivs],
        )
    assert r is g, "layer did not return its receiver"
    return g


def describe(op):
    return "%s(%s)" % (op["op"], ", ".join("%s=%s" % (k, v) for k, v in op.items() if k != "op"))


def run_ops(ops, nodes, dom, on=None):
    """executes the ops, appending to nodes"""
    for op in ops:
        r = execute(op, nodes, dom)
        nodes.append(r)
        if isinstance(r, Stairs):
            for ch in op.get("mat", ""):
                _read(r, ch, dom)
        if on:
            on(op, r)


# ---------------------------------------------------------------- generation
def gen_op(d, ms, opw=OPW, want=None, const=17, mismatch=False):
    """one op over the model nodes ms -> (op, meaning); always exact and side-consistent"""
    n = len(ms)

    def ref():
        return n - 1 if d.chance(55) else d.int(0, n - 1)

    def sref(p):
        """a node or a scalar"""
        if d.chance(p):
            return {"scalar": None if d.chance(6) else G.value(d), "fl": G.flavour(d)} if d.chance(85) else {"scalar": G.pow2(d), "fl": "py"}
        return ref()

    for _ in range(3):
        k = want or d.wpick(opw)
        op = {"op": k}
        if k in BIN or k == "array":
            if k == "array":
                op["which"] = d.pick(["add", "sub", "mul", "div", "lt", "le", "gt", "ge", "eq", "ne"])
                op["scb"] = d.int(0, 1)
            op["a"] = sref(const * 2 // 3)
            op["b"] = ref() if isinstance(op["a"], dict) else sref(const * 4 // 3)
            if d.chance(40) and k != "array":
                op["form"] = "method"
            for r in ("a", "b"):
                s = op[r]
                if isinstance(s, dict) and s["scalar"] is None:
                    s["fl"] = d.pick(["py", "np.float64"])
                if isinstance(s, dict) and k == "div" and d.chance(60):
                    op[r] = {"scalar": G.pow2(d), "fl": "py"}
        elif k in AGGS:
            op["args"] = [ref() for _ in range(d.int(1, 4))]
            op["cont"] = d.pick(CONTAINERS)
        else:
            op["a"] = ref()
            pts = [int(p * 2) for p in ms[op["a"]].pts]
            q = lambda: d.pick(pts) + d.pick([0, 0, 1, -1, 2]) if pts and d.chance(70) else d.int(-30, 50)  # noqa
            if k in ("mask", "where", "fillna_f"):
                op["b"] = ref()
            elif k == "fillna_s":
                op["v"] = {"scalar": G.value(d), "fl": G.flavour(d)}
            elif k == "fillna_m":
                op["how"] = d.pick(["ffill", "pad", "bfill", "backfill"])
            elif k in ("clip", "where_t", "mask_t"):
                a, b = (None if d.chance(25) else q()), (None if d.chance(25) else q())
                if a is not None and b is not None:
                    a, b = min(a, b), max(a, b)
                    b += a == b
                op["w"] = [a, b]
                if d.chance(30):
                    op["lab"] = d.pick(["np", "alt", "py", "np", "alt", "py", "pds", "nps"])
            elif k in ("shift", "diff"):
                op["n"] = d.int(-6, 6)
            elif k in ("layer", "layerv"):
                ivs = []
                for _ in range(1 if k == "layer" and d.chance(60) else d.int(1, 3)):
                    a, b = (None if d.chance(15) else q()), (None if d.chance(15) else q())
                    if a is not None and b is not None:
                        a, b = min(a, b), max(a, b)
                    v = G.value(d) or 1
                    ivs.append([a, b, v])
                    if d.chance(15):
                        ivs.append([a, b, -v])
                op["ivs"] = ivs
                if d.chance(30):
                    op["lab"] = d.pick(["np", "alt", "py", "np", "alt", "py", "pds", "nps"])
                if d.chance(30):
                    op["fl"] = G.flavour(d)
            elif k in ("piece", "resample"):
                c = sorted({q() for _ in range(d.int(2, 4))})
                if len(c) < 2:
                    c.append(c[0] + 2)
                op["cuts"] = c
                if k == "piece":
                    op["i"] = d.int(0, 3)
                else:
                    op["stat"] = d.pick(["min", "max"])
                    op["closed"] = d.pick(["left", "right", "neither"])
        ok = valid(op, ms, mismatch)
        if ok is not None:
            if d.chance(25):
                op["mat"] = d.wpick(G.MATS)
                if not op["mat"]:
                    del op["mat"]
            return op, ok
    op = {"op": "neg", "a": n - 1}
    return op, meaning(op, ms)


def valid(op, ms, mismatch=False):
    """its meaning when it is exact, else None"""
    k = op["op"]
    if k in AGGS:
        fs = [ms[r] for r in op["args"]]
        if not any(f.pts for f in fs) and len({f.closed for f in fs}) > 1:
            return None
    if k == "array" and not isinstance(op["a"], dict) and not isinstance(op["b"], dict):
        # the companion element of the array must be well-formed as well
        fs = [ms[op["a"]], ms[op["b"]]]
    try:
        m = meaning(op, ms)
    except ZeroDivisionError:
        return None
    if (m.closed == "MISMATCH" and not mismatch) or not exact(m):
        return None
    return m


def gen_prog(d, nops, nleaves=None, domains=G.EXACT_DOMAINS, opw=OPW, vpool=None, na=None, big=False):
    dom = G.domain(d, domains)
    cl = G.closed(d)
    other = "left" if cl == "right" else "right"
    leaves = []
    for _ in range(nleaves or d.int(1, 3)):
        f = G.fn(d, cl, pool=G.pts_of(*leaves), vpool=vpool or d.pick(["std", "std", "bool"]), big=big, na=na)
        if not f["steps"] and d.chance(40):
            f["closed"] = other
        leaves.append(f)
    from .real import spec_model

    ms = [spec_model(f) for f in leaves]
    ops = []
    for _ in range(nops):
        op, m = gen_op(d, ms, opw)
        ops.append(op)
        ms.append(m)
    return {"dom": dom, "leaves": leaves, "ops": ops}, ms
