"""C16: results depend only on the functions denoted and compose without errors."""
from fractions import Fraction as F

from staircase import Stairs
from vlib import domains, model, prog, stat
from vlib import gen as G
from vlib.pairs import fresh
from vlib.real import build, call, same, compare, require, show, spec_model, val

RULE = (
    "straight-line programs of 1-9 public operations (46 operations incl. collection aggregations, array operators, slicing, "
    "layering onto copies) over 1-3 leaves drawn from all construction routes, with reads materialising either internal form "
    "interposed after leaves and results and scalars of nine numeric types; oracle: the pointwise definitions applied step by step "
    "to exact rational functions; every intermediate result is observed at the end through to_frame, limits, samples and a "
    "statistic; non-trivial: a program of at least two operations whose last result depends on steps and is somewhere defined"
)
BUDGET = {"quick": 7000, "thorough": 150000}
LEAF = "violate"
FINAL = ["changes", "values", "frame", "limits", "identical", "vals", "integral", "pct"]


def gen(d):
    if d.chance(22):  # one or two operations with constants on partly undefined functions, internal forms materialised
        na = d.wpick(G.NA_PROFILES[1:])
        case, ms = prog.gen_prog(d, d.int(0, 1), nleaves=1, na=na)
        case["leaves"][0]["mat"] = d.pick(["d", "v", "dv", "vd", "df", "f"])
        for _ in range(d.int(1, 2)):
            op, m = prog.gen_op(d, ms, [(4, "add"), (4, "sub"), (2, "mul"), (2, "div"), (1, "neg"), (1, "fillna_s"), (1, "shift")], const=70)
            case["ops"].append(op)
            ms.append(m)
        case["final"] = ["changes"] + d.perm(FINAL[1:])[:1]
        return case
    case, ms = prog.gen_prog(d, d.wpick([(20, 1), (30, 2), (25, 3), (15, 5), (10, 9)]), big="mid")
    if d.chance(50):
        case["final"] = d.perm(FINAL)[: d.int(1, 3)]
    return case


def final(x, m, kinds, dom):
    for k in kinds:
        if k == "frame":
            compare(x, m, dom, "final result", limits=False)
        elif k == "limits":
            q = list(m.pts) + [F(0)]
            for side in ("left", "right"):
                got = call("limit", x.limit, [dom.lab(t) for t in q], side)
                for t, g in zip(q, got):
                    require(same(val(g), m.lim(t, side)), "limit(%s, %s) is %s, expected %s", t, side, g, show(m.lim(t, side)))
        elif k in ("changes", "values"):
            y = fresh(m, dom)
            a, b = (x.step_changes, y.step_changes) if k == "changes" else (x.step_values, y.step_values)
            ta, tb = [dom.inv(t) for t in a.index], [dom.inv(t) for t in b.index]
            va, vb = [val(v) for v in a], [val(v) for v in b]
            require(ta == tb and len(x.step_points) == len(tb), "step_%s are at %s, those of an equal directly built function at %s", k, ta, tb)
            require(all(same(v, w) for v, w in zip(va, vb)), "step_%s are %s, those of an equal directly built function %s", k, list(a), list(b))
        elif k == "identical":
            y = fresh(m, dom)
            require(x.identical(y) and y.identical(x), "final result is not identical to the directly built function")
        elif k == "vals":
            got = sorted(float(v) for v in call("values_in_range", x.values_in_range))
            exp = sorted(float(v) for v in model.values_in(m, None, None, "both"))
            require(got == exp, "values_in_range() is %s, expected %s", got, exp)
        elif k == "integral":
            if stat.pieces_ok(m) and not stat.overflow_risk(m, dom):
                stat.check_integral(call("integral", x.integral), m, dom)
        elif k == "pct":
            if stat.pieces_ok(m):
                stat.check_quantile(call("percentile", x.percentile, 100), F(1), m, dom, "percentile(100)")
                stat.check_ecdf(call("ecdf", x.ecdf, 0), 0, m, False, "ecdf(0)")


def run(case):
    dom = domains.get(case["dom"])
    nodes = [build(s, dom) for s in case["leaves"]]
    ms = [spec_model(s) for s in case["leaves"]]
    prog.run_ops(case["ops"], nodes, dom)
    for op in case["ops"]:
        ms.append(prog.meaning(op, ms))
    require(isinstance(nodes[-1], Stairs), "the program gives %s", type(nodes[-1]))
    if case.get("final"):
        final(nodes[-1], ms[-1], case["final"], dom)
    for i in range(len(nodes) - 1, -1, -1):
        compare(nodes[i], ms[i], dom, "node %d (%s)" % (i, "leaf" if i < len(case["leaves"]) else prog.describe(case["ops"][i - len(case["leaves"])])))
    labels = ["dom:" + dom.name, "closed:" + ms[-1].closed, "ops:%d" % len(case["ops"])] + ["op:" + op["op"] for op in case["ops"]]
    live = len(case["ops"]) >= 2 and any(v is not None for v in ms[-1].vals) and ms[-1].n > 0
    return labels, live
