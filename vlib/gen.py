"""Structured generators.  Everything is drawn through D so that Hypothesis shrinks it;
the products are plain JSON values (specs), never library objects."""
import random

from hypothesis import strategies as st

_ints = {}


class D:
    """draw source; the first alternative / smallest number is what shrinking moves towards"""

    def __init__(self, draw):
        self._draw = draw

    def int(self, lo, hi):
        if lo >= hi:
            return lo
        s = _ints.get((lo, hi))
        if s is None:
            # negative ranges shrink towards 0
            s = _ints[(lo, hi)] = st.integers(lo, hi)
        return self._draw(s)

    def pick(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def wpick(self, pairs):
        """pairs: [(weight, item), ...]"""
        tot = sum(w for w, _ in pairs)
        r = self.int(0, tot - 1)
        for w, x in pairs:
            if r < w:
                return x
            r -= w

    def chance(self, num, den=100):
        """True with probability num/den, shrinks to False"""
        return self.int(0, den - 1) >= den - num

    def subset(self, seq, num=50):
        return [x for x in seq if self.chance(num)]

    def perm(self, seq):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.int(0, len(seq) - 1)))
        return out


# ------------------------------------------------------------------ scalars
def value(d, pool="std"):
    """an exactly representable value"""
    k = d.int(0, 20)
    if pool == "bool":
        return d.int(0, 1)
    if pool == "pos":
        return d.int(1, 6)
    if k < 8:
        return d.int(-3, 3)
    if k < 11:
        return d.int(-10, 10)
    if k < 15:
        return d.int(-6, 6) / 2
    if k < 17:
        return d.int(-32, 32) / 8
    if k < 18:
        return d.int(-1000, 1000)
    if k < 19:
        return d.int(-4, 4) * 1024 + d.int(-1, 1) / 64
    if k < 20:
        return 0
    # values which are nearly equal, or nearly zero
    v = d.int(-1, 2) + d.int(-2, 2) * 2.0 ** -d.pick([36, 24])
    return int(v) if float(v).is_integer() else v


def pow2(d):
    return d.pick([1, 2, -1, 4, 0.5, -2, 8, 0.25, -0.5])


SCALAR_FLAVOURS = ["py", "float", "np.float64", "np.int64", "np.int32", "np.float32", "np.int8", "np.uint8", "np.float16", "bool", "bool", "np.bool", "np.longdouble"]


def flavour(d):
    return d.wpick([(8, "py"), (3, "float"), (3, "np.float64"), (3, "np.int64"), (1, "np.int32"), (1, "np.float32"), (1, "np.int8"), (1, "np.uint8"), (1, "np.float16"), (2, "bool"), (1, "np.bool"), (1, "np.longdouble")])


# ------------------------------------------------------------------ domains
ALL_DOMAINS = [
    (14, "int"), (7, "float"), (3, "float1"), (2, "floatneg"), (3, "fdec"),
    (1, "intbig"), (1, "floattiny"), (1, "ts_fut"), (1, "ts_past"), (1, "td_big"),
    (6, "ts"), (2, "ts_D"), (1, "ts_ns"), (1, "ts_old"),
    (3, "tz_syd"), (1, "tz_syd2"), (2, "tz_ny"), (1, "tz_utc"), (1, "tz_fix"),
    (4, "td"), (2, "td_neg"),
]
EXACT_DOMAINS = [(w, n) for w, n in ALL_DOMAINS if n != "fdec"]


def domain(d, pairs=ALL_DOMAINS):
    return d.wpick(pairs)


def closed(d):
    return "right" if d.chance(45) else "left"


# ------------------------------------------------------------------ functions
def n_steps(d, big=True):
    k = d.int(0, 99)
    if k < 14:
        return 0
    if k < 28:
        return 1
    if k < 62:
        return d.int(2, 4)
    if k < 90 or big in (False, "mid"):
        return d.int(3, 8)
    if k < 98:
        return d.int(6, 16)
    return d.int(12, 40)


def points(d, n, pool=(), gap=None):
    """n distinct sorted ticks; with a pool, re-use some of its points"""
    pts = set()
    if pool and n and d.chance(60):
        keep = d.int(1, n)
        pl = sorted(set(pool))
        for _ in range(keep):
            pts.add(d.pick(pl))
    if gap is None:
        gap = d.pick([1, 2, 3, 6, 25])
    if len(pts) < n:
        x = d.int(-8, 8)
        guard = 0
        while len(pts) < n and guard < 200:
            guard += 1
            pts.add(x)
            x += d.int(1, gap)
    return sorted(pts)


NA_PROFILES = [(46, "none"), (22, "some"), (6, "many"), (7, "lead"), (7, "trail"), (6, "ends"), (6, "mid")]


def pieces(d, n, na="none", pool="std", levels=None):
    """n+1 values, neighbouring ones different"""
    vals = []
    lv = None
    if levels is None:
        levels = d.int(0, 2) == 2  # few distinct values, hence repeated ones
    if levels:
        lv = [value(d, pool) for _ in range(d.int(2, 3))]
    for i in range(n + 1):
        und = False
        if na == "some":
            und = d.chance(28)
        elif na == "many":
            und = d.chance(60)
        elif na == "lead":
            und = i == 0 or (i == 1 and n > 1 and d.chance(0))
        elif na == "trail":
            und = i == n
        elif na == "ends":
            und = i in (0, n)
        elif na == "mid":
            und = 0 < i < n and d.chance(50)
        prev = vals[-1] if vals else "x"
        if und and prev is not None:
            vals.append(None)
            continue
        v = d.pick(lv) if lv else value(d, pool)
        if v == prev:
            v = value(d, pool)
            if v == prev:
                v = 1 - v if pool == "bool" else v + 1
        vals.append(v)
    return vals


ROUTES_DEF = [(20, "vec"), (16, "scalar"), (8, "ctor"), (7, "frame"), (18, "fv"), (6, "fvint"), (5, "fvred"), (5, "scalarvec")]
ROUTES_NA = [(45, "fv"), (45, "mask"), (10, "fvred")]
ROUTES_FREE = [(50, "const"), (15, "cancel"), (15, "opconst"), (10, "fvred"), (10, "vcancel")]
POSTS = ["copy", "neg2", "addsub", "mul1", "div1", "shift", "sum1", "add0", "fillna0", "wherenotna", "radd", "clipinf"]
MATS = [(40, ""), (13, "v"), (13, "d"), (6, "vd"), (6, "dv"), (5, "f"), (4, "l"), (4, "n"), (3, "df"), (3, "s"), (3, "e")]


def route(d, spec, deep=True):
    n = len(spec["steps"])
    vals = [spec["init"]] + [v for _, v in spec["steps"]]
    if n == 0:
        r = d.wpick(ROUTES_FREE)
        if spec["init"] is None:
            r = d.wpick([(6, "const"), (1, "opconst"), (2, "fvred")])
    elif any(v is None for v in vals):
        r = d.wpick(ROUTES_NA)
    else:
        r = d.wpick(ROUTES_DEF)
    out = {"r": r}
    if r in ("vec", "scalar", "frame", "ctor", "scalarvec"):
        out["style"] = d.int(0, 3)
        out["perm"] = d.int(0, 30)
        if r in ("vec", "scalar") and d.chance(12):
            a = d.int(-8, 12)
            out["noise"] = [a, a + d.int(1, 5), d.pick([1, 2, -1, 0.5])]
    if r in ("cancel", "vcancel", "opconst"):
        a = d.int(-6, 6)
        out["noise"] = [a, a + d.int(1, 5), d.pick([1, 2, -1, 0.5])]
    if r in ("fv", "fvint", "fvred", "frame", "vec"):
        out["dt"] = d.int(0, 2)
    if r == "fvred":
        out["at"] = d.int(0, 10)
    if r == "mask":
        out["how"] = [d.int(0, 6) for _ in range(3)]
        out["fill"] = [d.pick([0, 1, 2, -1, 0.5]) for _ in range(3)]
        out["base"] = d.pick(["vec", "scalar", "fv"])
    if d.chance(40):
        out["lab"] = d.pick(["np", "alt", "py", "np", "alt", "py", "pds", "nps"])
    if d.chance(30):
        out["sc"] = flavour(d)
    if r in ("vec", "frame", "ctor", "scalarvec", "fv", "fvint", "fvred") and d.chance(8):
        out["unit"] = d.pick(["s", "us", "ms"])  # resolution of vectors of labels, on datetime-like domains
    if deep and d.chance(25):
        out["post"] = [d.pick(POSTS) for _ in range(d.int(1, 2))]
    return out


def fn(d, closed_, pool=(), na=None, vpool="std", big=True, n=None, levels=None, simple=False, min_steps=0, gap=None):
    if n is None:
        n = n_steps(d, big)
        if big and vpool != "pos" and d.chance(1):
            return huge(d, closed_, pool, na, simple, big == "mid")
    n = max(n, min_steps)
    if na is None:
        na = d.wpick(NA_PROFILES)
    pts = points(d, n, pool, gap)
    vals = pieces(d, len(pts), na, vpool, levels)
    spec = {"closed": closed_, "init": vals[0], "steps": [[p, v] for p, v in zip(pts, vals[1:])]}
    if not simple:
        spec["route"] = route(d, spec)
        m = d.wpick(MATS)
        if m:
            spec["mat"] = m
    return spec


def huge(d, closed_, pool=(), na=None, simple=False, mid=False):
    """a function with very many steps, expanded from a seed"""
    rnd = random.Random(d.int(0, 10**6))
    n = d.pick([50, 70, 100, 130] if mid else [50, 70, 130, 260, 520, 1050])
    n += d.int(0, 9)
    gap = d.pick([1, 2, 5])
    pts, x = set(), d.int(-400, 0)
    while len(pts) < n:
        pts.add(x)
        x += rnd.randint(1, gap)
    pts = sorted(pts)
    und = {"none": 0, "some": 0.2, "many": 0.6}.get(na if na is not None else d.pick(["none", "none", "some", "many"]), 0)
    # the last two: tiny values, and values which nearly agree
    lo, hi, q, base = d.pick([(-2, 2, 1, 0), (0, 1, 1, 0), (-40, 40, 4, 0), (-500, 500, 1, 0), (-30, 30, 2.0**40, 0), (-3, 3, 2.0**36, 1)])
    vals = []
    for i in range(n + 1):
        v = None if rnd.random() < und else base + rnd.randint(lo, hi) / q
        if vals and v == vals[-1]:
            v = 0 if v is None or v else 1
        vals.append(v if v is None or v % 1 else int(v))
    spec = {"closed": closed_, "init": vals[0], "steps": [[p, v] for p, v in zip(pts, vals[1:])]}
    if not simple:
        spec["route"] = {"r": "fv"} if any(v is None for v in vals) else {"r": d.pick(["vec", "fv", "frame", "scalar"]), "style": d.int(0, 3), "perm": d.int(0, 30)}
        m = d.wpick(MATS)
        if m:
            spec["mat"] = m
    return spec


def fn_finite(d, closed_, **kw):
    """a function with at least one defined piece of finite length"""
    kw.setdefault("min_steps", 2)
    spec = fn(d, closed_, **dict(kw, simple=True))
    st_ = spec["steps"]
    if len(st_) < 2:
        st_[:] = [[0, 1], [1, 0]]
        spec["init"] = 0
    if all(v is None for _, v in st_[:-1]):
        k = d.int(0, len(st_) - 2)
        st_[k][1] = d.int(1, 5)
        while True:
            bad = [i for i in range(len(st_) - 1) if st_[i][1] == st_[i + 1][1]]
            if not bad:
                break
            del st_[bad[0] + 1]
        if len(st_) < 2:
            st_.append([st_[-1][0] + d.int(1, 3), None])
    if st_[0][1] == spec["init"]:
        spec["init"] = 0 if st_[0][1] is None or st_[0][1] != 0 else 1
    if not kw.get("simple"):
        spec["route"] = route(d, spec)
        m = d.wpick(MATS)
        if m:
            spec["mat"] = m
    return spec


def scaled(d, spec, e):
    """the values of spec times 2**e"""
    k = 2.0**e

    def mul(v):
        if v is None:
            return None
        v = v * k
        return int(v) if float(v).is_integer() and abs(v) < 2**52 else v

    out = {"closed": spec["closed"], "init": mul(spec["init"]), "steps": [[p, mul(v)] for p, v in spec["steps"]]}
    und = spec["init"] is None or any(v is None for _, v in spec["steps"])
    # routes which involve no other values
    r = "fv" if und or not spec["steps"] else d.pick(["fv", "vec", "scalar", "ctor"])
    out["route"] = {"r": r}
    if not spec["steps"]:
        out["route"] = {"r": "const"}
    elif r != "fv":
        out["route"].update(style=d.int(0, 3), perm=d.int(0, 30))
    if spec.get("mat"):
        out["mat"] = spec["mat"]
    return out


def maybe_scaled(d, spec, pct=6, es=(-45, -33, -70, 10, 20, 33)):
    return scaled(d, spec, d.pick(es)) if d.chance(pct) else spec


def pts_of(*specs):
    return sorted({p for s in specs if s for p, _ in s.get("steps", ())})


def scalar(d, nan=8, zero=10):
    if d.chance(nan):
        return {"scalar": None, "fl": d.pick(["py", "np.float64"])}
    if d.chance(zero):
        return {"scalar": 0, "fl": flavour(d)}
    return {"scalar": value(d), "fl": flavour(d)}


def query_tick2(d, pts, far=True):
    """a query position in HALF ticks: on, next to, between and beyond the points"""
    if pts and d.chance(70):
        p = d.pick(sorted(pts))
        return 2 * p + d.pick([0, 0, 0, 1, -1, 2, -2])
    return d.int(-40, 60)


def window(d, pts, unb=35, allow_degenerate=False):
    """(a, b) in half ticks, None = unbounded; a < b"""
    a = None if d.chance(unb) else query_tick2(d, pts)
    b = None if d.chance(unb) else query_tick2(d, pts)
    if a is not None and b is not None:
        if a > b:
            a, b = b, a
        if a == b and not allow_degenerate:
            b = a + d.int(1, 6)
    return [a, b]
