"""C14: cached statistics never go stale across layer mutations."""
from vlib import domains, model, stat
from vlib import gen as G
from vlib.ask import STATS, agree, answer, ask, gen_query, pretty
from vlib.model import Fn
from vlib.pairs import fresh
from vlib.real import build, call, compare, num, require, spec_model
from props.c02 import perform, triple

RULE = (
    "histories of 3-14 events on one object and its copies: queries (24 statistic / distribution forms, 15 other reads), layer "
    "calls (scalar, vector, frame; cancelling earlier ones so that the function returns to an earlier state), copies, undefined "
    "and step-free receivers; each answer is compared with the same query put to a freshly built equal function and, for the "
    "elementary statistics, with the exact model; at the end every object is compared with its function; a bounded-exhaustive part "
    "runs query-layer-query for every query and mutation kind; non-trivial: some query follows a mutation that changed the "
    "function and an earlier query"
)
BUDGET = {"quick": 5000, "thorough": 120000}
DOMS = G.EXACT_DOMAINS


def mutation(d, pool, past):
    n = d.wpick([(60, 1), (20, 2), (10, 3)])
    form = d.wpick([(50, "scalar"), (18, "list"), (10, "frame"), (8, "ndarray"), (8, "series"), (6, "tuple")]) if n == 1 else d.pick(["list", "frame", "ndarray", "series"])
    trs = []
    if past and d.chance(35):  # back to an earlier state
        old = past[d.int(max(0, len(past) - 2), len(past) - 1)]
        trs = [[a, b, -v] for a, b, v in old]
        if len(trs) > 1 and form == "scalar":
            form = "list"
    else:
        for _ in range(n):
            trs.append(triple(d, pool))
    c = {"form": form, "t": trs, "miss": "None", "lab": d.pick(["pd", "np", "alt", "py", "pd", "np", "alt", "py", "pds", "nps"]), "sc": d.pick(["py", "float", "np.int64", "np.float64"]),
         "pos": d.int(0, 1), "seed": d.int(0, 9), "trim": 0}
    if all(t[2] == 1 for t in trs) and d.chance(60):
        c["noval"] = 1
    return c


def gen(d):
    dom = G.domain(d, DOMS)
    cl = G.closed(d)
    f = G.fn_finite(d, cl, big="mid") if d.chance(70) else G.fn(d, cl, big="mid")
    pool = G.pts_of(f)
    ev, past = [], []
    fav = [d.pick(STATS) for _ in range(d.int(1, 3))]  # the same queries come back
    for _ in range(d.int(3, 14)):
        if d.chance(62):
            if ev and d.chance(35) and any("q" in e for e in ev):
                ev.append(dict(d.pick([e for e in ev if "q" in e])))
            else:
                ev.append(gen_query(d, pool, fav if d.chance(50) else None))
        elif d.chance(12):
            ev.append({"copy": d.int(0, 1)})
        else:
            c = mutation(d, pool, past)
            past.append(c["t"])
            pool = sorted(set(pool) | {p for t in c["t"] for p in t[:2] if p is not None})
            ev.append({"layer": c})
    return {"dom": dom, "f": f, "events": ev}


def enum(tier):
    fs = [
        {"closed": "left", "init": 0, "steps": [[0, 1], [2, 3], [4, 0]]},
        {"closed": "right", "init": None, "steps": [[0, 1], [2, None], [3, 5], [6, 2], [8, None]]},
        {"closed": "left", "init": 2, "steps": []},
    ]
    muts = [[1, 3, 2], [None, None, 2], [None, 2, 1], [2, None, -1], [0, 8, 1], [-4, 12, 1]]
    base = {"miss": "None", "lab": "pd", "sc": "py", "pos": 0, "seed": 0, "trim": 0}
    extra = {"ecdf": {"y": [1]}, "ecdf_left": {"y": [1, 2]}, "percentile": {"y": [50]}, "percentiles": {"y": [25, 75]}, "fractile": {"y": [0.5]},
             "hist": {"bins": "unit", "closed": "left", "stat": "sum"}, "agg": {"names": ["mean", "integral", "max"]},
             "aggw": {"names": ["mean", "integral", "max"], "w": [1, 9]}, "vir_w": {"w": [1, 9]}}
    i = 0
    for f in fs:
        for k in STATS:
            for t in muts:
                for form in ("scalar", "list"):
                    for k2 in [k, STATS[(STATS.index(k) + 5) % len(STATS)]]:
                        i += 1
                        q, q2 = dict(q=k, **extra.get(k, {})), dict(q=k2, **extra.get(k2, {}))
                        yield {"dom": ("int", "ts", "td", "float")[i % 4], "f": f,
                               "events": [q, {"layer": dict(base, form=form, t=[t])}, q2, q,
                                          {"layer": dict(base, form=form, t=[[t[0], t[1], -t[2]]])}, q]}


def against_model(s, q, m, dom):
    """elementary statistics against exact arithmetic"""
    k = q["q"]
    if k in ("min", "max"):
        vs = model.values_in(m, None, None, "both")
        if vs:
            stat.near(stat.plain(getattr(s, k)(), k), (min if k == "min" else max)(vs), 0, k)
    if not stat.pieces_ok(m):
        return
    if k in ("integral", "mean", "var", "std", "mode", "value_sums") and not (k == "integral" and stat.overflow_risk(m, dom)):
        getattr(stat, "check_" + k)(call(k, getattr(s, k)), m, dom)
    elif k == "ecdf":
        for y in q["y"]:
            stat.check_ecdf(call("ecdf", s.ecdf, y), model.frac(y), m, False, "ecdf(%s)" % y)
    elif k == "percentile":
        y = q["y"][0]
        stat.check_quantile(call(k, s.percentile, y), model.frac(y) / 100, m, dom, "percentile(%s)" % y, exact_q=y in (0, 50, 100, 25, 75))
    elif k == "median":
        stat.check_quantile(call(k, s.median), model.F(1, 2), m, dom, k)


def run(case):
    dom = domains.get(case["dom"])
    objs = [(build(case["f"], dom), spec_model(case["f"]))]
    cur = 0
    asked = moved = nt = False
    labels = ["dom:" + dom.name]
    for i, e in enumerate(case["events"]):
        s, m = objs[cur]
        if "layer" in e:
            r = call("layer", perform, s, e["layer"], dom, m.closed)
            require(r is s, "layer returned another object")
            m2 = model.layer(m, e["layer"]["t"])
            moved |= asked and not m2.same(m)
            objs[cur] = (s, m2)
            labels.append("layer:" + e["layer"]["form"])
        elif "copy" in e:
            objs.append((call("copy", s.copy), m))
            if e["copy"]:
                cur = len(objs) - 1
        else:
            twin = fresh(m, dom)
            a, b = answer(s, e, dom), answer(twin, e, dom)
            require(agree(a, b), "event %d: %s gives %s, a freshly built equal function gives %s", i, e, pretty(a), pretty(b))
            against_model(s, e, m, dom)
            nt |= moved
            asked = True
            labels.append("q:" + e["q"])
    for s, m in objs:
        compare(s, m, dom, "after the history")
    return labels, nt
