"""C13: only layer mutates; results never share state with operands or with each other."""
from fractions import Fraction as F

import numpy as np
import pandas as pd

from staircase import Stairs
from staircase.core.arrays.extension import StairsArray
from vlib import domains, model, prog
from vlib import gen as G
from vlib.ask import agree, answer, gen_query, norm, pretty
from vlib.pairs import fresh
from vlib.real import build, call, compare, num, require, spec_model

RULE = (
    "programs: leaves of every shape with either internal form materialised; 1-4 public operations (46 kinds plus several results at "
    "once from one slicer, array, collection or distribution, and 39 query forms); then every object in random order is layered in "
    "place (scalar or vector, on existing step points, between and beyond them, or only towards -inf), with the other objects observed "
    "before, between or only after the mutations; oracle: a model per object, changed only by its own layer calls, and the closed side; "
    "distribution objects against a snapshot; finally a query on each object against a freshly built equal function; a bounded part runs "
    "every operation with every operand shape, materialisation and mutation kind; non-trivial: a result with steps or an operand was "
    "mutated so that its function changed while another object was live"
)
BUDGET = {"quick": 3600, "thorough": 90000}
MULTI = ["pieces", "slicer", "array_s", "array_f", "array_neg", "series", "dist", "copies", "unary_pair"]


def mut(d, ms, i):
    op, m = prog.gen_op(d, ms, want=d.pick(["layer", "layer", "layerv"]))
    op["a"] = i
    if "mat" in op:
        del op["mat"]
    f = ms[i]
    pts = [int(2 * p) for p in f.pts]
    k = d.int(0, 9)
    if k == 0:
        op["ivs"] = [[None, None, d.int(1, 3)]]
    elif k < 6 and pts:
        a = d.pick(pts)
        op["ivs"] = [[a, None if d.chance(50) else max(pts) + 4, d.int(1, 4)]]
    if op["op"] == "layer" and op.get("fl"):
        del op["fl"]
    op.setdefault("ivs", [[0, 4, 2]])
    if op["op"] not in ("layer", "layerv"):
        op["op"] = "layer"
    return op


def gen(d):
    na = d.wpick(G.NA_PROFILES) if d.chance(40) else "none"
    case, ms = prog.gen_prog(d, 0, nleaves=d.wpick([(40, 1), (40, 2), (20, 3)]), na=na)
    ev = case.pop("ops")
    for _ in range(d.wpick([(40, 1), (35, 2), (20, 3), (5, 4)])):
        k = d.int(0, 99)
        if k < 62:
            op, m = prog.gen_op(d, ms, const=30)
            ev.append({"op": op})
            ms.append(m)
        elif k < 80:
            i = d.int(0, len(ms) - 1)
            j = d.int(0, len(ms) - 1)
            e = {"multi": d.pick(MULTI), "a": i, "b": j}
            pts = [int(2 * p) for p in ms[i].pts]
            q = lambda: d.pick(pts) + d.pick([0, 0, 1, -1]) if pts and d.chance(70) else d.int(-20, 30)  # noqa
            c = sorted({q(), q(), q()})
            e["cuts"] = c if len(c) > 1 else [c[0], c[0] + 3]
            e["v"] = d.pick([0, 1, 2, -1, 0.5])
            e["bop"] = d.pick(["add", "sub", "mul", "gt", "eq"])
            e["stat"] = d.pick(["min", "max"])
            try:
                out = multi_model(e, ms)
            except ZeroDivisionError:
                continue
            if any(m is not None and (m.closed == "MISMATCH" or not prog.exact(m)) for m in out):
                continue
            ev.append(e)
            ms += [m for m in out if m is not None]
        elif k < 92:
            i = d.int(0, len(ms) - 1)
            ev.append(dict(gen_query(d, [int(p) for p in ms[i].pts if p.denominator == 1]), a=i))
        else:
            i = d.int(0, len(ms) - 1)
            op = mut(d, ms, i)
            ms[i] = prog.meaning(op, ms)
            ev.append({"mut": op})
    case["events"] = ev
    case["sweep"] = []
    for i in d.perm(range(len(ms))):
        if d.chance(80):
            op = mut(d, ms, i)
            ms[i] = prog.meaning(op, ms)
            case["sweep"].append({"mut": op, "check": d.int(0, 2)})
    case["ask"] = gen_query(d, [])
    return case


def multi_model(e, ms):
    f, g = ms[e["a"]], ms[e["b"]]
    k = e["multi"]
    c = [prog.half(x) for x in e["cuts"]]
    v = model.const(e["v"])
    if k in ("pieces", "slicer"):
        out = [model.clip(f, a, b).with_closed(f.closed) for a, b in zip(c, c[1:])]
        if k == "slicer":
            op = {"op": "resample", "a": e["a"], "cuts": e["cuts"], "stat": e["stat"], "closed": "left"}
            out += [prog.meaning(op, ms)] * 2 + out
        return out
    if k == "array_s":
        return [model.binary(e["bop"], f, v, f.closed), model.binary(e["bop"], g, v, g.closed)]
    if k == "array_f":
        return [model.binary(e["bop"], f, g, model.pick_closed([f, g], f)), model.binary(e["bop"], g, g, g.closed)]
    if k == "array_neg":
        return [model.unary("neg", f), model.unary("neg", g)]
    if k == "series":
        return [model.binary(e["bop"], f, v, f.closed), model.binary(e["bop"], g, v, g.closed)]
    if k == "copies":
        return [f, f, f]
    if k == "unary_pair":
        return [model.unary("isna", f), model.unary("notna", f), model.unary("isna", f)]
    return []


def multi_real(e, nodes, dom):
    """-> (modelled results, snapshots)"""
    f, g = nodes[e["a"]], nodes[e["b"]]
    k = e["multi"]
    cuts = [dom.lab(prog.half(x)) for x in e["cuts"]]
    op = {"add": "__add__", "sub": "__sub__", "mul": "__mul__", "gt": "gt", "eq": "eq"}[e["bop"]]
    v = num(e["v"])
    if k == "pieces":
        return list(f.slice(cuts).apply(lambda s: s)), []
    if k == "slicer":
        sl = f.slice(cuts, closed="left")
        a = list(sl.apply(lambda s: s))
        r = [sl.resample(e["stat"]), sl.resample(e["stat"])]
        return a + r + list(sl.apply(lambda s: s)), []
    if k == "array_s":
        return list(getattr(StairsArray([f, g]), op)(v)), []
    if k == "array_f":
        return list(getattr(StairsArray([f, g]), op)(g)), []
    if k == "array_neg":
        return list(-StairsArray([f, g])), []
    if k == "series":
        s = pd.Series([f, g], dtype="Stairs", index=["x", "y"])
        return list(getattr(s, op)(v)), []
    if k == "copies":
        h = f.copy()
        return [h, h.copy(), f.copy()], []
    if k == "unary_pair":
        return [f.isna(), f.notna(), f.isna()], []
    out = []
    for name in ("ecdf", "percentile", "fractile", "ecdf", "percentile", "to_percentiles"):
        try:
            out.append(out[2].to_percentiles() if name == "to_percentiles" else getattr(f, name))
        except Exception:  # noqa: no finite pieces
            pass
    return [], out


def enum(tier):
    """every operation x operand shape x materialised forms, one mutation of each object"""
    shapes = [
        {"init": 0, "steps": [[0, 1], [2, 3], [4, 1]]},
        {"init": None, "steps": [[0, 1], [2, None], [4, 2]]},
        {"init": 1, "steps": []},
        {"init": None, "steps": []},
    ]
    if tier == "thorough":
        shapes += [{"init": 2, "steps": [[1, 0]]}, {"init": 0, "steps": [[0, 1], [3, 0], [5, None]]}]
    second = [{"init": 0, "steps": [[1, 2], [3, 0]]}, {"init": 0, "steps": []}, {"init": 1, "steps": []}]
    ops = [{"op": u, "a": 0} for u in prog.UNARY] + [{"op": "copy", "a": 0}, {"op": "clip", "a": 0, "w": [None, None]},
           {"op": "clip", "a": 0, "w": [-40, 40]}, {"op": "clip", "a": 0, "w": [2, None]}, {"op": "mask_t", "a": 0, "w": [40, 50]},
           {"op": "where_t", "a": 0, "w": [None, None]}, {"op": "shift", "a": 0, "n": 0}, {"op": "shift", "a": 0, "n": 4},
           {"op": "diff", "a": 0, "n": 2}, {"op": "fillna_s", "a": 0, "v": {"scalar": 1, "fl": "py"}}, {"op": "fillna_m", "a": 0, "how": "ffill"},
           {"op": "fillna_m", "a": 0, "how": "bfill"}, {"op": "resample", "a": 0, "cuts": [2, 6], "stat": "min", "closed": "left"},
           {"op": "piece", "a": 0, "cuts": [-40, 40], "i": 0}]
    for b in prog.BIN + ["mask", "where", "fillna_f"]:
        ops += [{"op": b, "a": 0, "b": 1}, {"op": b, "a": 1, "b": 0}, {"op": b, "a": 0, "b": 0}]
        if b in prog.BIN:
            for v in (0, 1, None):
                ops += [{"op": b, "a": 0, "b": {"scalar": v}}, {"op": b, "a": {"scalar": v}, "b": 0}]
    for a in prog.AGGS:
        ops += [{"op": a, "args": [0], "cont": "list"}, {"op": a, "args": [0, 1], "cont": "list"}]
    i = 0
    for op in ops:
        for f in shapes:
            for g in second if 1 in prog.refs(op) else second[:1]:
                for mat in ("", "v", "d", "vd"):
                    for who in (0, 1, 2):
                        i += 1
                        if tier == "quick" and (i % 3 or (who == 1 and 1 not in prog.refs(op))):
                            continue
                        cl = "left" if i % 5 < 3 else "right"
                        leaves = [dict(f, closed=cl, mat=mat), dict(g, closed=cl, mat=("v", "d", "")[i % 3])]
                        if f["steps"]:
                            leaves[0]["route"] = {"r": "fv"} if i % 2 or f["init"] is None else {"r": "vec"}
                        ms = [spec_model(s) for s in leaves]
                        if prog.valid(op, ms) is None:
                            continue
                        order = [who] + [j for j in (2, 0, 1) if j != who]
                        kind = ("layer", "layerv")[i // 7 % 2]
                        sweep = [{"mut": {"op": kind, "a": j, "ivs": [[(0, None, 4, -6)[(i + j) % 4], (8, None, 40)[(i + n) % 3], 2]]}, "check": (2 if n else 0) if i % 2 else 1}
                                 for n, j in enumerate(order)]
                        yield {"dom": ("int", "ts")[i % 2], "leaves": leaves, "events": [{"op": op}], "sweep": sweep, "ask": {"q": "frame"}}


def check_inputs(spec, dom, kind):
    """the objects a function is built from are not its state: layering it leaves them alone, overwriting them leaves it alone"""
    m = spec_model(spec)
    if not m.pts or (m.vals[0] is None and kind != "values"):
        return
    labs = [dom.lab(p) for p in m.pts]
    vals = [np.nan if v is None else float(v) for v in m.vals[1:]]
    if kind == "values":
        data = [pd.Series(vals, index=pd.Index(labs))]
        s = call("from_values", Stairs.from_values, np.nan if m.vals[0] is None else float(m.vals[0]), data[0], closed=m.closed)
    else:
        if m.has_na():
            return
        steps = np.diff([float(v) for v in m.vals])
        conv = {"array": lambda x: pd.Series(x).values, "series": pd.Series, "list": list}[kind]
        data = [conv(labs), conv(steps)]
        s = Stairs(initial_value=float(m.vals[0]), closed=m.closed)
        if kind == "array" and dom.tz is not None:
            data[0] = np.array(labs, dtype=object)
        call("layer", s.layer, data[0], None, data[1])
    before = [list(x) for x in data]
    ends = list(data[0].index) if kind == "values" else None
    compare(s, m, dom, "built from a %s" % kind, limits=False)
    a = max([abs(v) for v in vals if v == v] or [0]) or 1.0  # of the same magnitude, hence exact
    call("layer", s.layer, labs[0], None, a)
    call("layer", s.layer, [labs[0], labs[-1]], None, [-a, a])
    call("layer", s.layer, labs[-1], None, -a)
    for x, old in zip(data, before):
        require(all(a == b or (a != a and b != b) for a, b in zip(x, old)) and len(x) == len(old), "layering a function changed the %s it was built from", kind)
    if kind == "values":
        require(list(data[0].index) == ends, "layering a function changed the index of the series it was built from")
    for x in data:
        for i in range(len(x)):
            if kind == "values" or kind == "series":
                x.iloc[i] = x.iloc[0] if x is data[0] and kind == "series" else 77.0
            else:
                x[i] = x[0] if x is data[0] else 77.0
    compare(s, m, dom, "after overwriting the %s it was built from" % kind)


def run(case):
    dom = domains.get(case["dom"])
    for i, s in enumerate(case["leaves"]):
        check_inputs(s, dom, ("values", "array", "series", "list")[(i + len(s["steps"])) % 4 if i else 0])
    nodes = [build(s, dom) for s in case["leaves"]]
    ms = [spec_model(s) for s in case["leaves"]]
    names = ["leaf %d" % i for i in range(len(nodes))]
    snaps = []
    labels = ["dom:" + dom.name]
    changed = [False]

    def check(what, full=False):
        for i, (s, m) in enumerate(zip(nodes, ms)):
            w = "%s, after %s" % (names[i], what)
            compare(s, m, dom, w, limits=full)
            require(s.closed == m.closed, "%s: closed side is %s, was %s", w, s.closed, m.closed)
        for s, old, w in snaps:
            if w is not None:
                require(agree(norm(s, None), old), "%s changed after %s", w, what)

    def mutate(op, n):
        i = op["a"]
        r = call("layer", prog.do_layer, nodes[i], op, dom)
        m = prog.meaning(op, ms)
        changed[0] |= not m.same(ms[i]) and len(nodes) > 1
        ms[i] = m

    for e in case["events"]:
        if "op" in e:
            op = e["op"]
            r = prog.execute(op, nodes, dom)
            require(isinstance(r, Stairs), "%s gives %s", prog.describe(op), type(r))
            m = prog.meaning(op, ms)
            if not m.pts:  # the closed side of a step-free result is another property's business
                m = m.with_closed(r.closed)
            nodes.append(r)
            ms.append(m)
            for ch in op.get("mat", ""):
                prog._read(r, ch, dom)
            names.append(prog.describe(op))
            labels.append("op:" + op["op"])
        elif "multi" in e:
            res, sn = call(e["multi"], multi_real, e, nodes, dom)
            for i, (r, m) in enumerate(zip(res, multi_model(e, ms))):
                nodes.append(r)
                ms.append(m if m.pts else m.with_closed(r.closed))
                names.append("%s[%d]" % (e["multi"], i))
            for i, s in enumerate(sn):
                snaps.append([s, norm(s, None), "distribution object %d" % i])
            labels.append("multi:" + e["multi"])
        elif "mut" in e:
            mutate(e["mut"], 0)
            labels.append("early mutation")
        else:
            answer(nodes[e["a"]], e, dom)
            labels.append("q:" + e["q"])
    for st in case["sweep"]:
        if st["check"] == 2:
            check("the operations")
        mutate(st["mut"], 1)
        if st["check"] == 1:
            check("layering %s" % names[st["mut"]["a"]])
    # the distribution objects are results too: layering one leaves the others and the function alone
    for j, rec in enumerate(snaps):
        rec[0].layer(-50, None, 3 + j)
        rec[1] = norm(rec[0], None)
        for s, old, w in snaps:
            require(agree(norm(s, None), old), "%s changed when another one was layered", w)
    check("all mutations", full=True)
    if snaps:
        labels.append("distribution objects")
        qs = [{"q": "median"}, {"q": "std"}, {"q": "ecdf", "y": [1]}, {"q": "fractile", "y": [0.5]}]
    else:
        qs = [case["ask"]]
    for q in qs:
        for i, (s, m) in enumerate(zip(nodes, ms)):
            a, b = answer(s, q, dom), answer(fresh(m, dom), q, dom)
            require(agree(a, b), "%s: afterwards %s gives %s, a freshly built equal function gives %s", names[i], q, pretty(a), pretty(b))
    return labels, changed[0]
