"""Build real Stairs from specs, observe them through the public API only, compare with the model."""
import math
import random
from fractions import Fraction as F

import numpy as np
import pandas as pd

import staircase as sc
from staircase import Stairs

from . import domains
from .model import Fn, frac


class Violation(Exception):
    """the property does not hold on this case"""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Discard(Exception):
    """case outside the property's domain"""


class ObsError(Exception):
    """the library could not be observed (e.g. to_frame raised)"""


NAN = float("nan")


def num(v, fl="py"):
    """JSON value -> scalar of the requested flavour (only when the flavour can hold it exactly)"""
    if v is None:
        return np.float64("nan") if fl == "np.float64" else NAN
    isint = float(v).is_integer()
    if fl == "py":
        return int(v) if isint else float(v)
    if fl == "float":
        return float(v)
    if fl == "np.float64":
        return np.float64(v)
    if fl in ("np.int64", "np.int32"):
        if not isint:
            return np.float64(v)
        return np.int64(v) if fl == "np.int64" else np.int32(v)
    if fl == "np.float32":
        return np.float32(v) if float(np.float32(v)) == v else np.float64(v)
    if fl == "np.int8":
        return np.int8(v) if isint and abs(v) < 100 else np.float64(v)
    if fl == "np.uint8":
        return np.uint8(v) if isint and 0 <= v < 200 else np.float64(v)
    if fl == "np.float16":
        return np.float16(v) if float(np.float16(v)) == v else np.float64(v)
    if fl in ("bool", "np.bool"):
        if v not in (0, 1):
            return int(v) if isint else float(v)
        return bool(v) if fl == "bool" else np.bool_(v)
    if fl == "np.longdouble":
        return np.longdouble(v)
    raise KeyError(fl)


def spec_model(spec):
    if "scalar" in spec:
        return Fn("left", [], [frac(spec["scalar"])])
    return Fn(
        spec["closed"],
        [F(p) for p, _ in spec["steps"]],
        [frac(spec["init"])] + [frac(v) for _, v in spec["steps"]],
    )


# ------------------------------------------------------------------ construction
def _intervals(init, steps, style, rng):
    """decompose an everywhere-defined function into (initial value, [(a, b, v)])"""
    vals = [init] + [v for _, v in steps]
    pts = [p for p, _ in steps]
    out = []
    if style == 1:  # open-ended to the right
        for i, p in enumerate(pts):
            out.append((p, None, vals[i + 1] - vals[i]))
        return init, out
    if style == 2:  # open-ended to the left, initial value = final value
        for i, p in enumerate(pts):
            out.append((None, p, vals[i] - vals[i + 1]))
        return vals[-1], out
    if style == 3:  # stacked: overlapping intervals ended later, in random partners
        deltas = [[p, vals[i + 1] - vals[i]] for i, p in enumerate(pts)]
        i = 0
        while i < len(deltas):
            p, dl = deltas[i]
            if dl == 0:
                i += 1
                continue
            if i + 1 < len(deltas):
                j = rng.randrange(i + 1, len(deltas))
                out.append((p, deltas[j][0], dl))
                deltas[j][1] += dl
            else:
                out.append((p, None, dl))
            i += 1
        return init, out
    for i, p in enumerate(pts):
        q = pts[i + 1] if i + 1 < len(pts) else None
        if vals[i + 1] - init:
            out.append((p, q, vals[i + 1] - init))
    return init, out


def in_unit(labs, dom, unit):
    """a vector of labels, of the given resolution (numbers: of a narrow or nullable dtype) if that can hold them"""
    if unit is None or all(pd.isna(x) for x in labs):
        return labs
    if dom.kind == "fdec":
        return labs
    if not dom.datelike:
        miss = any(pd.isna(x) for x in labs)
        ints = all(pd.isna(x) or float(x).is_integer() for x in labs)
        xs = [None if pd.isna(x) else int(x) if ints else float(x) for x in labs]
        dts = (["UInt8", "Int16", "Int64"] if ints else ["Float32", "Float64"]) if unit == "us" or miss and unit == "s" else ["uint8", "int8", "int16", "uint32", "int32", "uint64"] if ints and unit == "s" and not miss else ["float32"]
        for t in dts:
            low, high = (np.iinfo(t.lower()).min, np.iinfo(t.lower()).max) if "nt" in t else (0, 0)
            if all(x is None or (low <= x <= high if "nt" in t else float(np.dtype(t.lower()).type(x)) == x) for x in xs):
                return pd.Series(xs, dtype=t)
        return labs
    one = pd.Timestamp if dom.kind == "ts" else pd.Timedelta
    size = {"s": 10**9, "ms": 10**6, "us": 1000}[unit]
    if any(one(x).as_unit("ns").value % size for x in labs if not pd.isna(x)):
        return labs
    return pd.Series([one(x) for x in labs]).dt.as_unit(unit)


def _fv(init, steps, closed, dom, fl, dt=0, unit=None):
    vals = [NAN if v is None else v for _, v in steps]
    idx = pd.Index(in_unit([dom.lab(p, fl) for p, _ in steps], dom, unit))
    ints = all(v is not None and float(v).is_integer() for _, v in steps)
    dtype = float
    if dt == 1 and ints:
        dtype = "int64"
    elif dt == 2 and ints:
        dtype = "int32"
    elif dt == 1 and None in [v for _, v in steps]:
        # documented by its warning: infinite values are converted to undefined ones
        vals = [(-1) ** i * float("inf") if v != v and i % 3 else v for i, v in enumerate(vals)]
    return Stairs.from_values(
        initial_value=NAN if init is None else init,
        values=pd.Series([float(v) for v in vals], index=idx).astype(dtype),
        closed=closed,
    )


def _post(s, name, dom):
    if name == "copy":
        return s.copy()
    if name == "neg2":
        return -(-s)
    if name == "addsub":
        return (s + 2) - 2
    if name == "mul1":
        return s * 2 / 2
    if name == "div1":
        return s / 1
    if name == "shift":
        if not dom.exact:
            return s.copy()
        return s.shift(dom.length(3)).shift(dom.length(-3))
    if name == "sum1":
        return sc.sum([s, s.copy()]) - s if s.number_of_steps else s + 0
    if name == "add0":
        return s + Stairs(initial_value=0, closed=s.closed)
    if name == "fillna0":
        return s.where(s.notna())
    if name == "wherenotna":
        return s.mask(s.isna())
    if name == "radd":
        return 0 + s
    if name == "clipinf":
        return s.clip(None, None).copy()
    raise KeyError(name)


def _read(s, ch, dom):
    if ch == "v":
        s.step_values
    elif ch == "d":
        s.step_changes
    elif ch == "f":
        s.to_frame()
    elif ch == "l":
        s.limit(dom.lab(0), "left")
    elif ch == "n":
        s.number_of_steps
    elif ch == "s":
        s.values_in_range()
    elif ch == "e":
        s.identical(0)


def build(spec, dom):
    """spec -> Stairs (or scalar)"""
    if "scalar" in spec:
        return num(spec["scalar"], spec.get("fl", "py"))
    closed, init, steps = spec["closed"], spec["init"], spec["steps"]
    rt = spec.get("route") or {"r": "fv" if steps else "const"}
    r = rt["r"]
    fl = rt.get("lab", "pd")
    if fl not in dom.all_flavours():
        fl = "pd"
    scf = rt.get("sc", "py")
    rng = random.Random(rt.get("perm", 0))
    L = lambda t: None if t is None else dom.lab(t, fl)  # noqa

    def N(v):
        return num(v, scf)

    def vec_mode(ivs, s, frame=False):
        if not ivs:
            return s
        a = in_unit([L(x[0]) for x in ivs], dom, rt.get("unit"))
        b = in_unit([L(x[1]) for x in ivs], dom, rt.get("unit"))
        v = [x[2] for x in ivs]
        if frame or rt.get("dt") == 2:
            df = pd.DataFrame({"s": pd.Series(a, dtype=None), "e": pd.Series(b, dtype=None), "v": v})
            return s.layer("s", "e", "v", frame=df)
        if rt.get("dt") == 1:
            v = np.array(v)
        a = None if all(x is None for x in a) else a
        b = None if all(x is None for x in b) else b
        if rt.get("unit") and rt.get("style") == 1:
            a, b = [x if x is None or isinstance(x, list) or dom.tz is not None or pd.api.types.is_extension_array_dtype(x) else x.values for x in (a, b)]
        return s.layer(a, b, v)

    if r == "const":
        s = Stairs(initial_value=N(init), closed=closed)
    elif r in ("cancel", "vcancel"):
        a, b, v = rt["noise"]
        s = Stairs(initial_value=N(init), closed=closed)
        if r == "cancel":
            s.layer(L(a), L(b), v).layer(L(a), L(b), -v)
        else:
            s.layer([L(a), L(a)], [L(b), L(b)], [v, -v])
    elif r == "opconst":
        a, b, v = rt["noise"]
        t = Stairs(start=L(a), end=L(b), value=v, closed=closed)
        s = (t - t) + N(init)
    elif r in ("fv", "fvint"):
        s = _fv(init, steps, closed, dom, fl, rt.get("dt", 0), rt.get("unit"))
    elif r == "fvred":
        st_ = [list(x) for x in steps]
        if st_:
            k = rt.get("at", 0) % len(st_)
            gap = (st_[k + 1][0] - st_[k][0]) if k + 1 < len(st_) else 2
            if gap > 1:
                st_.insert(k + 1, [st_[k][0] + 1, st_[k][1]])
            else:
                st_.insert(0, [st_[0][0] - 1, init])
        else:
            st_ = [[0, init], [rt.get("at", 0) + 1, init]]
        s = _fv(init, st_, closed, dom, fl, rt.get("dt", 0), rt.get("unit"))
    elif r == "mask":
        s = _build_masked(spec, rt, dom, fl, closed, rng)
    else:
        i0, ivs = _intervals(init, steps, rt.get("style", 0), rng)
        rng.shuffle(ivs)
        s = Stairs(initial_value=N(i0), closed=closed)
        noise = rt.get("noise")
        if r == "scalar":
            if noise:
                s.layer(L(noise[0]), L(noise[1]), noise[2])
            for a, b, v in ivs:
                s.layer(L(a), L(b), N(v))
            if noise:
                s.layer(L(noise[0]), L(noise[1]), -noise[2])
        elif r == "vec":
            if noise:
                ivs = ivs + [tuple(noise), (noise[0], noise[1], -noise[2])]
            s = vec_mode(ivs, s)
        elif r == "frame":
            s = vec_mode(ivs, s, frame=True)
        elif r == "scalarvec":
            k = len(ivs) // 2
            for a, b, v in ivs[:k]:
                s.layer(L(a), L(b), N(v))
            s = vec_mode(ivs[k:], s)
        elif r == "ctor":
            if ivs:
                s = Stairs(
                    start=in_unit([L(x[0]) for x in ivs], dom, rt.get("unit")),
                    end=in_unit([L(x[1]) for x in ivs], dom, rt.get("unit")),
                    value=[x[2] for x in ivs],
                    initial_value=N(i0),
                    closed=closed,
                )
        else:
            raise KeyError(r)
    for p in rt.get("post", ()):
        s = _post(s, p, dom)
    for ch in spec.get("mat", ""):
        _read(s, ch, dom)
    return s


def _build_masked(spec, rt, dom, fl, closed, rng):
    steps, init = spec["steps"], spec["init"]
    vals = [init] + [v for _, v in steps]
    pts = [p for p, _ in steps]
    fill = rt["fill"]
    filled, regions = [], []
    for i, v in enumerate(vals):
        if v is None:
            filled.append(fill[i % 3])
            a = pts[i - 1] if i else None
            b = pts[i] if i < len(pts) else None
            regions.append((a, b))
        else:
            filled.append(v)
    cpts, cvals = [], [filled[0]]
    for p, v in zip(pts, filled[1:]):
        if v != cvals[-1]:
            cpts.append(p)
            cvals.append(v)
    base = {"closed": closed, "init": cvals[0], "steps": [[p, v] for p, v in zip(cpts, cvals[1:])]}
    base["route"] = {"r": rt["base"] if cpts else "const", "style": 0}
    s = build(base, dom)
    L = lambda t: None if t is None else dom.lab(t, fl)  # noqa
    for k, (a, b) in enumerate(regions):
        how = rt["how"][k % 3]
        ind = Stairs(start=L(a), end=L(b), value=1, closed=closed) if (a is not None or b is not None) else Stairs(initial_value=1, closed=closed)
        if how in (0, 1):
            s = s.mask((L(a), L(b)))
        elif how == 2:
            s = s.mask(ind)
        elif how == 3:
            s = s.where(1 - ind)
        elif how == 4:
            s = s / (1 - ind)
        elif a is None and b is not None:
            s = s.clip(L(b), None)
        elif b is None and a is not None:
            s = s.clip(L(a) and None, L(a)) if False else s.clip(None, L(a))
        elif how == 5:
            s = s * Stairs(initial_value=1, closed=closed).mask(ind)
        else:
            s = s.mask((L(a), L(b)))
    return s


# ------------------------------------------------------------------ observation
def is_inf(x, sign):
    if x is (sc.inf if sign > 0 else -sc.inf):
        return True
    try:
        return bool(x == (sc.inf if sign > 0 else -sc.inf))
    except Exception:  # noqa
        return False


def val(v):
    """value reported by the library -> Fraction / None ; infinite -> ('inf', sign)"""
    if v is None:
        return None
    v = float(v)
    if v != v:
        return None
    if math.isinf(v):
        return "inf" if v > 0 else "-inf"
    return F(v)


def read_frame(s, dom, tz=True):
    """to_frame() -> (points, values) in ticks, as reported (not canonicalised)"""
    df = s.to_frame()
    starts, ends, vals = list(df["start"]), list(df["end"]), list(df["value"])
    require(len(starts) >= 1, "to_frame() is empty")
    require(is_inf(starts[0], -1), "to_frame(): first row starts at %r, not -inf", starts[0])
    require(is_inf(ends[-1], 1), "to_frame(): last row ends at %r, not inf", ends[-1])
    pts = []
    for a, b in zip(ends[:-1], starts[1:]):
        try:
            ta, tb = dom.inv(a), dom.inv(b)
        except (ValueError, TypeError) as e:
            raise Violation("to_frame(): bad label: %s" % e)
        require(ta == tb, "to_frame(): rows do not tile (%r then %r)", a, b)
        if tz and dom.tz is not None:
            for lab in (a, b):
                require(str(lab.tz) == dom.zone, "timezone of step point %r is not %s", lab, dom.zone)
        pts.append(ta)
    for p, q in zip(pts, pts[1:]):
        require(p < q, "to_frame(): step points not strictly increasing (%s, %s)", p, q)
    return pts, [val(v) for v in vals]


def same(a, b):
    """equal but for the rounding of a few operations on values of this size"""
    return close(a, b, F(1, 2**44), 0)


def close(a, b, rel=1e-9, ab=1e-9):
    """library value a (Fraction/None/'inf') against model value b (Fraction/None)"""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str):
        return False
    if a == b:
        return True
    return abs(a - b) <= F(rel) * max(abs(a), abs(b)) + F(ab)


def show(v):
    return "nan" if v is None else str(float(v)) if isinstance(v, F) else str(v)


def observed_fn(s, dom):
    pts, vals = read_frame(s, dom)
    return Fn(s.closed, pts, vals, canon=True)


def span_exact(vals, bits=50):
    """all values are multiples of one power of two, and sums of them exactly representable"""
    den, top = 1, F(0)
    for v in vals:
        if v is not None:
            if v.denominator & (v.denominator - 1):
                return False
            den, top = max(den, v.denominator), max(top, abs(v))
    return den * top <= 2**bits


def compare(s, m, dom, what, side=True, minimal=False, limits=True, tz=True, tol=None, ins=()):
    """the real function s denotes the model function m; ins are the functions it was computed from"""
    if tol is None:
        vs = m.vals + [v for x in ins for v in x.vals]
        # nothing but rounding may differ
        rel = F(1, 2**44) if span_exact(vs) else F(1, 10**11)
        ab = rel / 4 * max((abs(v) for v in vs if v is not None), default=F(0))
    else:
        rel = ab = tol
    require(isinstance(s, Stairs), "%s: result is %s, not a Stairs", what, type(s))
    pts, vals = read_frame(s, dom, tz)
    raw = Fn(s.closed, pts, vals, canon=False)
    allp = sorted(set(pts) | set(m.pts))
    require(close(vals[0], m.vals[0], rel, ab), "%s: towards -inf the value is %s, expected %s", what, show(vals[0]), show(m.vals[0]))
    for p in allp:
        a, b = raw.right(p), m.right(p)
        if not close(a, b, rel, ab):
            raise Violation("%s: to_frame() gives %s just right of tick %s, expected %s" % (what, show(a), p, show(b)))
    if minimal:
        check_minimal(s, m, dom, what, (pts, vals))
    if limits:
        q = list(allp)
        ends = [allp[0] - 1] + [allp[-1] + 1] if allp else [F(0)]
        q = q + [e for e in ends]
        labs = [dom.lab(t) for t in q]
        for sd in ("left", "right"):
            got = s.limit(labs, sd)
            for t, g in zip(q, got):
                e = m.lim(t, sd)
                require(close(val(g), e, rel, ab), "%s: limit(%s, %r) is %s, expected %s", what, t, sd, show(val(g)), show(e))
        if side and m.pts:
            got = s.sample(labs)
            for t, g in zip(q, got):
                e = m.at(t)
                require(close(val(g), e, rel, ab), "%s: sample(%s) is %s, expected %s (closed=%s)", what, t, show(val(g)), show(e), m.closed)
    return raw


def check_minimal(s, m, dom, what, fr=None):
    pts, vals = fr or read_frame(s, dom)
    for i, p in enumerate(pts):
        a, b = vals[i], vals[i + 1]
        require(a != b, "%s: redundant step point at tick %s (value %s on both sides)", what, p, show(a))
    require(
        s.number_of_steps == len(pts),
        "%s: number_of_steps is %s but the function has %s steps", what, s.number_of_steps, len(pts),
    )
    if m is not None:
        require(len(pts) == len(m.pts), "%s: %s step points, expected %s", what, len(pts), len(m.pts))


def leaf_fn_ok(spec, dom):
    """as leaf_ok, but a wrong closed side is not for others to report"""
    return leaf_ok(spec, dom, closed=False)


def leaf_ok(spec, dom, closed=True):
    """does the leaf, built on its own, denote its spec? (used only to attribute a failure)"""
    if "scalar" in spec:
        return True
    try:
        m = spec_model(spec)
        s = build(spec, dom)
        if s.closed != m.closed and closed:
            return False
        compare(s, m, dom, "leaf", side=closed)
        s = build(spec, dom)  # limits first
        q = [m.pts[0] - 1] + m.pts if m.pts else [F(0)]
        for sd in ("left", "right"):
            for t, g in zip(q, s.limit([dom.lab(t) for t in q], sd)):
                if not close(val(g), m.lim(t, sd)):
                    return False
        return True
    except Exception:  # noqa
        return False


def leaf_views_ok(spec, dom):
    """False only if every view of the leaf shows one and the same function, which is not that of the spec"""
    try:
        m = spec_model(spec)
        s = build(spec, dom)
    except Exception:  # noqa
        return False
    try:
        seen = [read_frame(s, dom, False)]
        s = build(spec, dom)
        seen.append(([dom.inv(x) for x in s.step_changes.index], [val(v) for v in [s.initial_value] + list(s.step_values)]))
        s = build(spec, dom)
        q = sorted(set(m.pts) | set(seen[0][0]) | set(seen[1][0]))
        q = [q[0] - 1] + q if q else [F(0)]
        labs = [dom.lab(t) for t in q]
        right = [val(v) for v in s.limit(labs, "right")]
        left = [val(v) for v in s.limit(labs, "left")]
        fns = [Fn(m.closed, p, v, canon=False) for p, v in seen]
        agree = all(close(a.lim(t, sd), g, F(1, 2**40), 0) for a in fns for sd, got in (("right", right), ("left", left)) for t, g in zip(q, got))
        wrong = any(not close(m.lim(t, "right"), g, F(1, 2**40), 0) for t, g in zip(q, right)) or seen[0][0] != m.pts
        return not (agree and wrong)
    except Exception:  # noqa
        return True


def call(what, func, *a, **k):
    """run library code; an exception is a violation"""
    try:
        return func(*a, **k)
    except (Violation, Discard):
        raise
    except Exception as e:  # noqa
        raise Violation("%s raised %s: %s" % (what, type(e).__name__, str(e)[:300]))
