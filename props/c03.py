"""C03: one-sided limits, the closed side, and agreement of all views."""
import random
from fractions import Fraction as F

import numpy as np
import pandas as pd

from vlib import domains
from vlib import gen as G
from vlib.real import build, call, check_minimal, in_unit, same, read_frame, require, show, spec_model, val, Violation

RULE = (
    "step functions x query vectors (unsorted, repeated, on / next to / between / beyond step points) in every container and "
    "scalar spelling, read through limit, sample, call, include_index and the structural views in random order; "
    "non-trivial: the function has a step and some query sits exactly on one"
)
# an operand which no view shows as specified was built wrongly (C02); views which differ among themselves are a violation
LEAF = "views"
BUDGET = {"quick": 12000, "thorough": 250000}

CONT = ["list", "tuple", "ndarray", "series", "index", "scalar", "seriesidx"]
VIEWS = ["frame", "values", "points", "n", "changes", "init", "q0", "q1"]


def gen(d):
    dom = G.domain(d)
    f = G.maybe_scaled(d, G.fn(d, G.closed(d)))
    pts = G.pts_of(f)
    qs = []
    for _ in range(2):
        cont = d.pick(CONT)
        n = 1 if cont == "scalar" else d.wpick([(1, 0), (20, 1), (40, 3), (30, 6), (9, 14)])
        q = [G.query_tick2(d, pts) for _ in range(n)]
        if cont != "scalar" and d.chance(25 if len(pts) > 45 else 2):
            # very many query points, in no order
            rnd = random.Random(d.int(0, 10**6))
            q += [2 * rnd.choice(pts) + rnd.choice([0, 0, 1, -1]) if pts else rnd.randint(-9, 9) for _ in range(d.pick([40, 120, 300, 1100]))]
        how = d.wpick([(3, "limit"), (2, "sample"), (1, "call")])
        qs.append({
            "q": q, "cont": cont, "how": how, "side": d.pick(["left", "right"]), "ii": d.int(0, 1),
            "lab": d.pick(["pd", "np", "alt", "py", "pd", "np", "alt", "py", "pds", "nps"]), "kw": d.int(0, 1),
        })
        if d.chance(10):
            qs[-1]["unit"] = d.pick(["s", "us", "ms"])
    order = d.perm(VIEWS)
    return {"dom": dom, "f": f, "qs": qs, "order": order}


def container(dom, q, cont, fl, unit=None):
    if fl not in dom.all_flavours():
        fl = "pd"
    labs = [dom.lab(F(t, 2), fl) for t in q]
    if cont == "scalar":
        return labs[0]
    if cont == "tuple":
        return tuple(labs)
    if cont == "list" or not labs:
        return labs
    labs = in_unit(labs, dom, unit)
    if cont == "index":
        return pd.Index(labs)
    if cont == "series":
        return pd.Series(labs)
    if cont == "seriesidx":
        return pd.Series(list(labs) if unit is None else pd.Series(labs).array, index=[i % 2 + 5 for i in range(len(labs))])
    if dom.tz is not None:
        a = np.empty(len(labs), dtype=object)
        a[:] = labs
        return a
    return pd.Index(labs).values


def query(s, m, dom, c):
    x = container(dom, c["q"], c["cont"], c["lab"], c.get("unit"))
    how, side = c["how"], c["side"]
    what = "%s(%s%s%s)" % (how, c["cont"], ", " + side if how == "limit" else "", ", include_index" if c["ii"] else "")
    kw = {"include_index": True} if c["ii"] else {}
    if how == "limit":
        if c["kw"]:
            r = call(what, s.limit, x=x, side=side, **kw)
        else:
            r = call(what, s.limit, x, side, **kw)
    elif how == "sample":
        r = call(what, s.sample, x, **kw)
    else:
        r = call(what, s, x, **kw)
    exp = [m.lim(F(t, 2), side) if how == "limit" else m.at(F(t, 2)) for t in c["q"]]
    if c["ii"]:
        require(isinstance(r, pd.Series), "%s returned %s, not a Series", what, type(r))
        require(len(r) == len(exp), "%s has length %d for %d query points", what, len(r), len(exp))
        for lab, t in zip(r.index, c["q"]):
            try:
                got = dom.inv(lab)
            except (ValueError, TypeError) as e:
                raise Violation("%s: index label: %s" % (what, e))
            require(got == F(t, 2), "%s: index label %r is not the query point", what, lab)
        vals = list(r.values)
    elif c["cont"] == "scalar":
        require(np.ndim(r) == 0, "%s returned %r for a scalar", what, r)
        vals = [r]
    else:
        require(np.ndim(r) == 1 and len(r) == len(exp), "%s returned %r for %d query points", what, r, len(exp))
        vals = list(np.asarray(r))
    for t, g, e in zip(c["q"], vals, exp):
        require(same(val(g), e), "%s at tick %s is %s, expected %s", what, F(t, 2), show(val(g)), show(e))


def run(case):
    dom = domains.get(case["dom"])
    m = spec_model(case["f"])
    s = build(case["f"], dom)
    hit = False
    for view in case["order"]:
        if view == "frame":
            df = call("to_frame()", s.to_frame)
            require(list(df.columns)[:3] == ["start", "end", "value"], "to_frame() columns are %s", list(df.columns))
            pts, vals = read_frame(s, dom)
            require(len(df) == len(s.step_points) + 1, "to_frame() has %d rows for %d step points", len(df), len(s.step_points))
            require(pts == m.pts, "to_frame() boundaries at ticks %s, expected %s", pts, m.pts)
            for i, (g, e) in enumerate(zip(vals, m.vals)):
                require(same(g, e), "to_frame() row %d has value %s, expected %s", i, show(g), show(e))
        elif view == "values":
            sv = call("step_values", lambda: s.step_values)
            require(len(sv) == m.n, "step_values has %d entries for %d steps", len(sv), m.n)
            for g, e in zip(list(sv), m.vals[1:]):
                require(same(val(g), e), "step_values %s, expected %s", list(sv), [show(v) for v in m.vals[1:]])
        elif view == "points":
            sp = call("step_points", lambda: s.step_points)
            got = [dom.inv(x) for x in list(pd.Index(sp) if dom.datelike else sp)] if dom.tz is None else [dom.inv(np.datetime64(x)) for x in sp]
            require(got == m.pts, "step_points at ticks %s, expected %s", got, m.pts)
        elif view == "n":
            n = call("number_of_steps", lambda: s.number_of_steps)
            require(n == m.n, "number_of_steps is %s, expected %s", n, m.n)
        elif view == "changes":
            ch = call("step_changes", lambda: s.step_changes)
            require(isinstance(ch, pd.Series), "step_changes is %s", type(ch))
            got = [dom.inv(x) for x in ch.index]
            require(got == m.pts, "step_changes indexed by ticks %s, expected %s", got, m.pts)
            if m.defined_everywhere():
                acc = m.vals[0]
                for g, e in zip(ch.values, m.vals[1:]):
                    g = val(g)
                    require(g is not None and not isinstance(g, str), "step_changes contains %s", g)
                    acc += g
                    require(same(acc, e), "initial value + running sum of step_changes is %s, expected %s", show(acc), show(e))
        elif view == "init":
            require(same(val(s.initial_value), m.vals[0]), "initial_value is %r, expected %s", s.initial_value, show(m.vals[0]))
        else:
            c = case["qs"][int(view[1])]
            query(s, m, dom, c)
            hit |= any(F(t, 2) in m.pts for t in c["q"])
    labels = ["dom:" + dom.name, "closed:" + m.closed, "f:" + ("free" if m.stepfree else "na" if m.has_na() else "def")]
    for c in case["qs"]:
        labels.append("query:%s/%s%s" % (c["how"], c["cont"], "/ii" if c["ii"] else ""))
    return labels, hit
