"""C06: clip / mask / where restrict the domain exactly; isna / notna report it."""
from fractions import Fraction as F

import numpy as np

import staircase as sc
from vlib import domains, model, pairs
from vlib import gen as G
from vlib.real import build, call, compare, require, spec_model

RULE = (
    "clip, mask and where by functions (any values, undefined anywhere, step-free, either side) and by tuples with bounds on, "
    "between and beyond step points in every spelling (None, sc.inf, float inf, np/py datetime, string), isna and notna, on "
    "receivers already restricted; where((a,b)) is also compared with clip(a,b) and isna+notna with 1; then a follow-up "
    "operation; non-trivial: the restriction changes a function that is not everywhere undefined"
)
BUDGET = {"quick": 12000, "thorough": 250000}

OPS = [(18, "clip"), (22, "mask"), (22, "where"), (12, "mask_t"), (12, "where_t"), (7, "isna"), (7, "notna")]


def gen(d):
    dom = G.domain(d)
    cl = G.closed(d)
    op = d.wpick(OPS)
    f = G.fn(d, cl)
    case = {"dom": dom, "op": op, "f": f}
    if op in ("mask", "where"):
        g = G.fn(d, cl, pool=G.pts_of(f), vpool=d.pick(["std", "bool", "bool"]), na=d.wpick(G.NA_PROFILES + [(15, "lead")]))
        other = "left" if cl == "right" else "right"
        if not g["steps"] and d.chance(40):
            g["closed"] = other
        elif not f["steps"] and d.chance(40):
            f["closed"] = other
        case["f"], case["g"] = G.maybe_scaled(d, f), G.maybe_scaled(d, g)
        case["same"] = int(d.chance(4))
    elif op not in ("isna", "notna"):
        case["w"] = G.window(d, G.pts_of(f), unb=25)
        case["inf"] = [d.pick(["None", "sc", "float", "omit"]), d.pick(["None", "sc", "float", "omit"])]
        labs = ["pd", "np", "alt", "py", "str", "str", "pds", "nps"]
        if not f["steps"]:
            labs = labs[:4]  # a constant has no timezone of its own to retain
        case["lab"] = [d.pick(labs) for _ in range(2)]
        case["kw"] = d.int(0, 1)
    if d.chance(25):
        case["follow"] = d.pick(pairs.FOLLOW)
    return case


def bound(t, dom, how, fl, sign):
    if t is None:
        if how == "sc":
            return sc.inf if sign > 0 else -sc.inf
        if how == "float" and not dom.datelike:
            return sign * float("inf")
        return None
    return dom.lab(F(t, 2), fl if fl == "str" and dom.kind == "ts" else dom.bound_flavour(fl))


def run(case):
    dom = domains.get(case["dom"])
    op = case["op"]
    f, mf = build(case["f"], dom), spec_model(case["f"])
    labels = ["op:" + op, "dom:" + dom.name, "f:" + ("free" if mf.stepfree else "na" if mf.has_na() else "def")]
    if op in ("isna", "notna"):
        h = call(op, getattr(f, op))
        mh = model.unary(op, mf)
        nt = mf.has_na() and mf.n > 0
        compare(h, mh, dom, op)
        other = call("isna/notna", getattr(f, "notna" if op == "isna" else "isna"))
        compare(other, model.unary("notna" if op == "isna" else "isna", mf), dom, "complement of " + op)
    elif op in ("mask", "where"):
        if case.get("same"):
            g, mg = f, mf
        else:
            g, mg = build(case["g"], dom), spec_model(case["g"])
        h = call("f.%s(g)" % op, getattr(f, op), g)
        mh = (model.mask if op == "mask" else model.where)(mf, mg)
        labels.append("g:" + ("free" if mg.stepfree else "na" if mg.has_na() else "def"))
        nt = any(v is not None for v in mf.vals) and not mh.same(mf)
        compare(h, mh, dom, op, ins=(mf, mg))
    else:
        a, b = case["w"]
        A = bound(a, dom, case["inf"][0], case["lab"][0], -1)
        B = bound(b, dom, case["inf"][1], case["lab"][1], 1)
        ta, tb = (None if a is None else F(a, 2)), (None if b is None else F(b, 2))
        if op == "clip":
            args = {}
            if not (a is None and case["inf"][0] == "omit"):
                args["lower"] = A
            if not (b is None and case["inf"][1] == "omit"):
                args["upper"] = B
            if case["kw"] or len(args) < 2:
                h = call("clip(%r)" % args, f.clip, **args)
            else:
                h = call("clip(%r, %r)" % (A, B), f.clip, A, B)
            mh = model.clip(mf, ta, tb)
        elif op == "where_t":
            h = call("where((%r, %r))" % (A, B), f.where, (A, B))
            mh = model.clip(mf, ta, tb)
        else:
            h = call("mask((%r, %r))" % (A, B), f.mask, (A, B))
            mh = model.mask(mf, model.indicator(ta, tb, mf.closed))
            mh.closed = mf.closed
        for t in (a, b):
            labels.append("bound:" + ("unb" if t is None else "on" if F(t, 2) in mf.pts else "off"))
        nt = any(v is not None for v in mf.vals) and not mh.same(mf)
        compare(h, mh, dom, op)
        if op == "where_t":
            h2 = call("clip", f.clip, A, B)
            require(h.identical(h2) and h2.identical(h), "where((a, b)) is not identical to clip(a, b)")
    pairs.follow_up(h, mh, f, mf, case, dom)
    return labels, bool(nt)
