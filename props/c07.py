"""C07: fillna only ever changes undefined points, and fills them as specified."""
from vlib import domains, model, pairs
from vlib import gen as G
from vlib.model import frac
from vlib.real import build, call, compare, num, spec_model

RULE = (
    "functions with undefined regions in any position x fillers (scalars of 9 numeric types, the four method names, step "
    "functions that are partly undefined, step-free, or of the opposite closed side when step-free), followed by a further "
    "operation; non-trivial: f has both defined and undefined pieces and the filling changes it"
)
BUDGET = {"quick": 12000, "thorough": 250000}

NA = [(20, "some"), (10, "many"), (14, "lead"), (14, "trail"), (10, "ends"), (10, "mid"), (5, "none")]


def gen(d):
    dom = G.domain(d)
    cl = G.closed(d)
    f = G.fn(d, cl, na=d.wpick(NA))
    if d.chance(4):
        f = G.fn(d, cl, n=0, na="lead")
    how = d.wpick([(22, "scalar"), (36, "method"), (42, "fn")])
    case = {"dom": dom, "f": f, "how": how}
    if how == "scalar":
        case["v"] = pairs.scal(d, f, 20)
    elif how == "method":
        case["m"] = d.pick(["ffill", "pad", "bfill", "backfill"])
    else:
        g = G.fn(d, cl, pool=G.pts_of(f), na=d.wpick(G.NA_PROFILES))
        other = "left" if cl == "right" else "right"
        if not g["steps"] and d.chance(40):
            g["closed"] = other
        elif not f["steps"] and d.chance(40):
            f["closed"] = other
        case["f"], case["g"] = G.maybe_scaled(d, f), G.maybe_scaled(d, g)
        case["same"] = int(d.chance(3))
    if d.chance(30):
        case["follow"] = d.pick(pairs.FOLLOW)
    return case


def run(case):
    dom = domains.get(case["dom"])
    f, mf = build(case["f"], dom), spec_model(case["f"])
    how = case["how"]
    if how == "scalar":
        v = case["v"]
        h = call("fillna(scalar)", f.fillna, num(v["scalar"], v["fl"]))
        mh = model.fillna_scalar(mf, frac(v["scalar"]))
        mg = mf
    elif how == "method":
        h = call("fillna(%r)" % case["m"], f.fillna, case["m"])
        mh = model.fillna_method(mf, case["m"])
        mg = mf
    else:
        g, mg = (f, mf) if case.get("same") else (build(case["g"], dom), spec_model(case["g"]))
        h = call("fillna(function)", f.fillna, g)
        mh = model.fillna_fn(mf, mg)
    compare(h, mh, dom, "fillna(%s)" % (case.get("m") or how), ins=(mf, mg))
    pairs.follow_up(h, mh, f, mf, case, dom)
    labels = ["how:" + (case.get("m") or how), "dom:" + dom.name]
    for nm, on in (("lead", mf.vals[0] is None), ("trail", mf.vals[-1] is None), ("everywhere", not any(v is not None for v in mf.vals))):
        if on:
            labels.append("undefined:" + nm)
    return labels, bool(mf.n and mf.has_na() and not mh.same(mf))
