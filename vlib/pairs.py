"""Shared generator/runner for the pointwise binary and unary operators (C01, C04, C05)."""
import operator

from . import domains, model
from . import gen as G
from .real import Stairs, Violation, build, call, compare, num, spec_model, _fv

OPERATOR = {
    "add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv,
    "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge, "eq": operator.eq, "ne": operator.ne,
    "and": operator.and_, "or": operator.or_, "xor": operator.xor,
}
METHOD = {
    "add": ("add", "radd"), "sub": ("subtract", "rsubtract"), "mul": ("multiply", "rmultiply"), "div": ("divide", "rdivide"),
    "lt": ("lt", "gt"), "le": ("le", "ge"), "gt": ("gt", "lt"), "ge": ("ge", "le"), "eq": ("eq", "eq"), "ne": ("ne", "ne"),
    "and": ("logical_and", "logical_rand"), "or": ("logical_or", "logical_ror"), "xor": ("logical_xor", "logical_rxor"),
}
UNARY = {"neg": ("__neg__", "negate"), "invert": ("__invert__", "invert"), "make_boolean": ("make_boolean", "make_boolean"),
         "isna": ("isna", "isna"), "notna": ("notna", "notna")}


def apply2(op, a, b, form):
    if form == "op":
        return OPERATOR[op](a, b)
    m, r = METHOD[op]
    return getattr(a, m)(b) if isinstance(a, Stairs) else getattr(b, r)(a)


def apply1(op, a, form):
    return getattr(a, UNARY[op][0 if form == "op" else 1])()


def gen_pair(d, ops2, ops1, zero=12, vpool="std", fl_extra=True):
    dom = G.domain(d)
    cl = G.closed(d)
    op = d.wpick(ops2 + ops1)
    case = {"dom": dom, "op": op}
    unary = op in UNARY
    shape = "f" if unary else d.wpick([(58, "ff"), (18, "fs"), (18, "sf"), (6, "same")])
    if vpool == "mix":
        vpool = d.wpick([(2, "std"), (1, "bool")])
    f = G.fn(d, cl, vpool=vpool)
    case["form"] = d.pick(["op", "method"])
    if shape not in ("ff", "same"):
        f = G.maybe_scaled(d, f)
    if shape == "f":
        case.update(f=f)
    elif shape == "same":
        case.update(f=f, g="f")
    elif shape == "ff":
        g = G.fn(d, cl, pool=G.pts_of(f), vpool=vpool)
        other = "left" if cl == "right" else "right"
        if not g["steps"] and d.chance(40):
            g["closed"] = other
        elif not f["steps"] and d.chance(40):
            f["closed"] = other
        if d.chance(25):  # make the functions agree somewhere
            align(d, f, g)
        if d.chance(7):
            e = d.pick([-45, -33, -70, 10, 20, 33])
            if d.chance(60):
                f = G.scaled(d, f, e)
            if "steps" in f and d.chance(60):
                g = G.scaled(d, g, e)
        case.update(f=f, g=g)
    elif shape == "fs":
        case.update(f=f, g=scal(d, f, zero))
    else:
        case.update(f=scal(d, f, zero), g=f)
    return case


def scal(d, f, zero):
    s = G.scalar(d, zero=zero)
    if d.chance(30):  # a value the function takes
        vs = [v for v in [f["init"]] + [v for _, v in f["steps"]] if v is not None]
        if vs:
            s["scalar"] = d.pick(vs)
            if d.chance(15):
                s["scalar"] += d.pick([1, -1]) * 2.0 ** -36
    s["fl"] = d.pick(G.SCALAR_FLAVOURS) if d.chance(50) else "py"
    if s["scalar"] is None and s["fl"] not in ("py", "np.float64"):
        s["fl"] = "py"
    return s


def align(d, f, g):
    """let g take f's values on some of its pieces (kept canonical)"""
    m = spec_model(f)
    steps = g["steps"]
    prev = g["init"]
    out = []
    for p, v in steps:
        w = m.right(p)
        if v is not None and w is not None and d.chance(50):
            w = int(w) if w.denominator == 1 else float(w)
            v = w
            if d.chance(15):
                v = w + d.pick([1, -1]) * 2.0 ** -36
        if v != prev:
            out.append([p, v])
            prev = v
    g["steps"] = out
    if not out and g.get("route", {}).get("r") not in ("const", "cancel", "vcancel", "opconst", "fvred"):
        g["route"] = {"r": "const"}
    elif out and g.get("route", {}).get("r") in ("mask",) and not m_has_na(g):
        g["route"] = {"r": "fv"}


def m_has_na(spec):
    return spec["init"] is None or any(v is None for _, v in spec["steps"])


def run_pair(case, follow=False):
    dom = domains.get(case["dom"])
    op = case["op"]
    f, mf = build(case["f"], dom), spec_model(case["f"])
    if op in UNARY:
        h = call("%s(f)" % op, apply1, op, f, case["form"])
        mh = model.unary(op, mf)
        mg = mf
    else:
        if case["g"] == "f":
            g, mg = f, mf
        else:
            g, mg = build(case["g"], dom), spec_model(case["g"])
        h = call("f %s g" % op, apply2, op, f, g, case["form"])
        recv = mf if "scalar" not in case["f"] else mg
        mh = model.binary(op, mf, mg, model.pick_closed([mf, mg], recv))
    compare(h, mh, dom, op, ins=(mf, mg))
    if follow:
        follow_up(h, mh, f if isinstance(f, Stairs) else g, mf if isinstance(f, Stairs) else mg, case, dom)
    labels = ["op:" + op, "dom:" + dom.name, "closed:" + mh.closed]
    kinds = ["free" if m.stepfree else "na" if m.has_na() else "def" for m in ((mf, mg) if mg is not mf else (mf,))]
    labels.append("operands:" + "/".join(kinds))
    return labels, bool((mf.n or mg.n) and any(v is not None for v in mh.vals))


FOLLOW = ["add", "sub", "mul", "and", "or", "lt", "ne", "rsub", "neg", "invert", "isna", "fillna", "mask", "where", "layer",
          "addc", "clip", "integral", "identical", "sum"]


def _follow(name, h, f, dom):
    import staircase as sc

    if name in OPERATOR:
        return OPERATOR[name](h, f)
    if name == "rsub":
        return f - h
    if name in UNARY:
        return apply1(name, h, "method")
    if name == "fillna":
        return h.fillna(3)
    if name == "mask":
        return f.mask(h)
    if name == "where":
        return f.where(h)
    if name == "layer":
        return h.copy().layer(dom.lab(0), dom.lab(2), 2)
    if name == "addc":
        return h + 3
    if name == "clip":
        return h.clip(dom.lab(-1), dom.lab(3))
    if name == "integral":
        return h.integral()
    if name == "identical":
        return h.identical(f)
    if name == "sum":
        return sc.sum([h, f])
    raise KeyError(name)


def fresh(m, dom):
    """the same function built directly"""
    if m.stepfree:
        return Stairs(initial_value=num(None if m.vals[0] is None else float(m.vals[0])), closed=m.closed)
    js = lambda v: None if v is None else float(v)  # noqa
    return _fv(js(m.vals[0]), [[p, js(v)] for p, v in zip(m.pts, m.vals[1:])], m.closed, dom, "pd")


def outcome(fn_, dom):
    from .real import read_frame, val

    try:
        r = fn_()
    except Exception as e:  # noqa
        return "raised %s" % type(e).__name__
    if isinstance(r, Stairs):
        try:
            pts, vals = read_frame(r, dom)
            m = model.Fn(r.closed, pts, vals)
            return (m.pts, m.vals, m.closed if m.pts else None)
        except Exception as e:  # noqa
            return "unreadable: %s" % e
    if isinstance(r, (bool,)):
        return r
    try:
        x = dom.inv_length(r)
        return None if x is None else round(float(x), 9)
    except Exception:  # noqa
        return repr(r)


def follow_up(h, mh, f, mf, case, dom):
    """the result is usable like any other function: same outcome as for a freshly built equal one"""
    name = case.get("follow")
    if not name:
        return
    a = outcome(lambda: _follow(name, h, f, dom), dom)
    b = outcome(lambda: _follow(name, fresh(mh if mh.pts else model.Fn(h.closed, [], mh.vals), dom), f, dom), dom)
    if a != b:
        raise Violation("using the result in %r gives %s, a freshly built equal function gives %s" % (name, a, b))
