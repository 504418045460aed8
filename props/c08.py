"""C08: integral, mean, var, std, value_sums are length-weighted over finite pieces."""
from fractions import Fraction as F

import pandas as pd

from staircase import Stairs

from vlib import domains, model, stat
from vlib import gen as G
from vlib.real import Discard, build, call, require, spec_model

RULE = (
    "functions with at least one finite defined piece (repeated values, undefined regions, non-zero unbounded pieces, clipped "
    "and windowed) x statistics in random order through methods and agg; oracle: exact rational length-weighted sums; "
    "non-trivial: at least two finite pieces and a non-zero integral or an undefined piece"
)
BUDGET = {"quick": 14000, "thorough": 250000}
STATS = ["integral", "mean", "var", "std", "value_sums", "vs_na"]


def gen(d):
    dom = G.domain(d)
    f = G.fn_finite(d, G.closed(d))
    if d.chance(12):
        f = G.scaled(d, f, d.pick([-45, -33, 10, 20, 33]))
    case = {"dom": dom, "f": f, "order": d.perm(STATS)}
    k = d.int(0, 9)
    if k >= 5:
        case["w"] = G.window(d, G.pts_of(f), unb=20)
        case["how"] = d.pick(["clip", "agg", "agglist"])
        # the spelling of agg: names or the methods themselves, in any order, next to other statistics
        case["names"] = d.perm(["integral", "mean", "var", "std"] + ["max", "min", "median"][: d.int(0, 3)])
        case["fun"] = d.pick([0, 0, 1, 2])
    if k >= 8:
        case["order"] = case["order"] * 2
    return case


def run(case):
    dom = domains.get(case["dom"])
    f, m = build(case["f"], dom), spec_model(case["f"])
    how = case.get("how")
    lab = lambda t: None if t is None else dom.lab(F(t, 2))  # noqa
    if "w" in case:
        a, b = case["w"]
        m = model.clip(m, None if a is None else F(a, 2), None if b is None else F(b, 2))
        if how == "clip":
            f = call("clip", f.clip, lab(a), lab(b))
    if not stat.pieces_ok(m):
        raise Discard("no finite defined piece in the window")
    risk = stat.overflow_risk(m, dom)
    win = (lab(case["w"][0]), lab(case["w"][1])) if how in ("agg", "agglist") else None
    got = {}
    if how == "agglist":
        names = [n for n in case.get("names", ("integral", "mean", "var", "std")) if not (risk and n == "integral")]
        fun = case.get("fun", 0)
        r = call("agg(%s)" % names, f.agg, tuple(names) if fun == 2 else [n if n in ("min", "max") else getattr(Stairs, n) for n in names] if fun else names, win)
        require(isinstance(r, pd.Series) and list(r.index) == names, "agg(list) returned %r", r)
        got = dict(r)
    for name in case["order"]:
        if name in ("value_sums", "vs_na"):
            if win is not None:
                continue
            dropna = name == "value_sums"
            r = call("value_sums", f.value_sums) if dropna else call("value_sums(dropna=False)", f.value_sums, dropna=False)
            stat.check_value_sums(r, m, dom, dropna)
            continue
        if name == "integral" and risk:
            continue
        if name in got:
            x = got[name]
        elif win is not None:
            x = call("agg(%r, %r)" % (name, win), f.agg, getattr(Stairs, name) if case.get("fun") else name, win)
        else:
            x = call(name, getattr(f, name))
        getattr(stat, "check_" + name)(x, m, dom, name)
    labels = ["dom:" + dom.name, "pieces:%s" % min(len(m.finite_pieces()), 6), "via:" + (how or "method")]
    if risk:
        labels.append("integral overflows Timedelta")
    return labels, len(m.finite_pieces()) >= 2 and (model.integral(m) != 0 or m.has_na())
