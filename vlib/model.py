"""Reference model: a step function over exact rational ticks.

Shares no code with staircase.  A function is (closed, pts, vals) with
len(vals) == len(pts) + 1; vals[0] is the value towards -infinity, vals[i+1]
the value on (pts[i], pts[i+1]).  None means undefined.  Always canonical
(no two neighbouring pieces carry the same value).
"""
from bisect import bisect_left, bisect_right
from fractions import Fraction as F


def frac(v):
    """number (or None / nan) -> Fraction or None"""
    if v is None:
        return None
    if isinstance(v, F):
        return v
    v = v if isinstance(v, int) else float(v)
    if v != v:
        return None
    return F(v)


class Fn:
    __slots__ = ("closed", "pts", "vals")

    def __init__(self, closed, pts, vals, canon=True):
        assert len(vals) == len(pts) + 1
        if canon:
            cp, cv = [], [vals[0]]
            for p, v in zip(pts, vals[1:]):
                if v != cv[-1]:
                    cp.append(p)
                    cv.append(v)
            pts, vals = cp, cv
        self.closed = closed
        self.pts = list(pts)
        self.vals = list(vals)

    # ---- evaluation -------------------------------------------------
    def right(self, x):
        return self.vals[bisect_right(self.pts, x)]

    def left(self, x):
        return self.vals[bisect_left(self.pts, x)]

    def lim(self, x, side):
        return self.right(x) if side == "right" else self.left(x)

    def at(self, x):
        return self.right(x) if self.closed == "left" else self.left(x)

    @property
    def n(self):
        return len(self.pts)

    @property
    def stepfree(self):
        return not self.pts

    def same(self, other):
        return self.pts == other.pts and self.vals == other.vals

    def __repr__(self):
        f = lambda v: "nan" if v is None else str(v)  # noqa
        return "<%s %s%s>" % (
            self.closed,
            f(self.vals[0]),
            "".join(" |%s: %s" % (p, f(v)) for p, v in zip(self.pts, self.vals[1:])),
        )

    def has_na(self):
        return any(v is None for v in self.vals)

    def defined_everywhere(self):
        return not self.has_na()

    # finite pieces (length, value) incl. undefined
    def finite_pieces(self):
        return [
            (self.pts[i + 1] - self.pts[i], self.vals[i + 1])
            for i in range(len(self.pts) - 1)
        ]

    def with_closed(self, closed):
        return Fn(closed, self.pts, self.vals, canon=False)


def const(v, closed="left"):
    return Fn(closed, [], [frac(v)])


def pick_closed(fns, receiver=None):
    """the closed side of the operand(s) with steps, of the receiver when none has"""
    sides = {f.closed for f in fns if f.pts}
    if len(sides) > 1:
        return "MISMATCH"
    if sides:
        return sides.pop()
    return (receiver or fns[0]).closed


def combine(fns, op, closed=None):
    """pointwise op on a list of functions; op receives the list of values"""
    if closed is None:
        closed = pick_closed(fns)
    pts = sorted({p for f in fns for p in f.pts})
    vals = [op([f.vals[0] for f in fns])]
    for p in pts:
        vals.append(op([f.right(p) for f in fns]))
    return Fn(closed, pts, vals)


def strict(op):
    """undefined as soon as one argument is"""

    def g(vs):
        if any(v is None for v in vs):
            return None
        return op(*vs)

    return g


def _b(x):
    return F(1) if x else F(0)


BINARY = {
    "add": strict(lambda a, b: a + b),
    "sub": strict(lambda a, b: a - b),
    "mul": strict(lambda a, b: a * b),
    "div": strict(lambda a, b: None if b == 0 else a / b),
    "lt": strict(lambda a, b: _b(a < b)),
    "le": strict(lambda a, b: _b(a <= b)),
    "gt": strict(lambda a, b: _b(a > b)),
    "ge": strict(lambda a, b: _b(a >= b)),
    "eq": strict(lambda a, b: _b(a == b)),
    "ne": strict(lambda a, b: _b(a != b)),
    "and": strict(lambda a, b: _b(a != 0 and b != 0)),
    "or": strict(lambda a, b: _b(a != 0 or b != 0)),
    "xor": strict(lambda a, b: _b((a != 0) != (b != 0))),
}

UNARY = {
    "neg": strict(lambda a: -a),
    "invert": strict(lambda a: _b(a == 0)),
    "make_boolean": strict(lambda a: _b(a != 0)),
    "isna": lambda vs: _b(vs[0] is None),
    "notna": lambda vs: _b(vs[0] is not None),
}


def binary(name, f, g, closed=None):
    return combine([f, g], BINARY[name], closed)


def unary(name, f):
    return combine([f], UNARY[name], f.closed)


def indicator(a, b, closed):
    """1 on the interval from a to b (None = unbounded), 0 elsewhere"""
    pts, vals = [], [F(0) if a is not None else F(1)]
    if a is not None:
        pts.append(a)
        vals.append(F(1))
    if b is not None:
        pts.append(b)
        vals.append(F(0))
    return Fn(closed, pts, vals)


def clip(f, a, b):
    ind = indicator(a, b, f.closed)
    return combine([f, ind], lambda v: v[0] if v[1] else None, f.closed)


def mask(f, g):
    return combine([f, g], lambda v: v[0] if v[1] is not None and v[1] == 0 else None)


def where(f, g):
    return combine([f, g], lambda v: v[0] if v[1] is not None and v[1] != 0 else None)


def fillna_scalar(f, v):
    v = frac(v)
    return combine([f], lambda x: v if x[0] is None else x[0], f.closed)


def fillna_fn(f, g):
    return combine([f, g], lambda v: v[1] if v[0] is None else v[0])


def fillna_method(f, how):
    vals = list(f.vals)
    order = range(len(vals)) if how in ("ffill", "pad") else range(len(vals) - 1, -1, -1)
    last = None
    for i in order:
        if vals[i] is None:
            vals[i] = last
        else:
            last = vals[i]
    return Fn(f.closed, f.pts, vals)


def shift(f, d):
    return Fn(f.closed, [p + d for p in f.pts], f.vals, canon=False)


def layer(f, triples):
    """triples: (start or None, end or None, value)"""
    steps = {}
    init = F(0)
    for a, b, v in triples:
        v = F(1) if v is None else frac(v)
        if a is None:
            init += v
        else:
            steps[a] = steps.get(a, F(0)) + v
        if b is not None:
            steps[b] = steps.get(b, F(0)) - v
    pts = sorted(steps)
    vals = [init]
    for p in pts:
        vals.append(vals[-1] + steps[p])
    return combine([f, Fn(f.closed, pts, vals)], BINARY["add"], f.closed)


def _median(vs):
    vs = sorted(vs)
    k = len(vs)
    return vs[k // 2] if k % 2 else (vs[k // 2 - 1] + vs[k // 2]) / 2


AGG = {
    "sum": lambda *vs: sum(vs, F(0)),
    "mean": lambda *vs: sum(vs, F(0)) / len(vs),
    "median": lambda *vs: _median(vs),
    "min": lambda *vs: min(vs),
    "max": lambda *vs: max(vs),
    "logical_or": lambda *vs: _b(any(v != 0 for v in vs)),
    "logical_and": lambda *vs: _b(all(v != 0 for v in vs)),
}


def aggregate(name, fns):
    return combine(fns, strict(AGG[name]))


# ---------------------------------------------------------------- statistics
def value_sums(f):
    out = {}
    for ln, v in f.finite_pieces():
        if v is not None:
            out[v] = out.get(v, F(0)) + ln
    return out


def total(f):
    return sum(value_sums(f).values(), F(0))


def integral(f):
    return sum((v * ln for v, ln in value_sums(f).items()), F(0))


def mean(f):
    t = total(f)
    return integral(f) / t if t else None


def var(f):
    t = total(f)
    if not t:
        return None
    m = integral(f) / t
    return sum(((v - m) ** 2 * ln for v, ln in value_sums(f).items()), F(0)) / t


def ecdf(f, y, strictly=False):
    t = total(f)
    s = sum((ln for v, ln in value_sums(f).items() if (v < y if strictly else v <= y)), F(0))
    return s / t


def fractile(f, q):
    """midpoint of the lower and upper q-quantile"""
    q = F(q)
    t = total(f)
    vs = sorted(value_sums(f).items())
    cum = F(0)
    lower = upper = None
    # lower: smallest y with ecdf(y) >= q ; upper: smallest y with ecdf(y) > q
    for v, ln in vs:
        cum += ln
        if lower is None and cum >= q * t:
            lower = v
        if upper is None and cum > q * t:
            upper = v
    if q <= 0:
        return vs[0][0]
    if upper is None:
        upper = vs[-1][0]
    if lower is None:
        lower = vs[-1][0]
    return (lower + upper) / 2


def share_boundaries(f):
    t = total(f)
    cum, out = F(0), []
    for v, ln in sorted(value_sums(f).items()):
        cum += ln
        out.append(cum / t)
    return out


def modes(f):
    vs = value_sums(f)
    m = max(vs.values())
    return {v for v, ln in vs.items() if ln == m}


def values_in(f, a, b, closed):
    """values taken at defined points of the interval (a, b are None = unbounded)"""
    out = set()
    # open part
    if a is None and b is None:
        out.update(f.vals)
    else:
        lo = 0 if a is None else bisect_right(f.pts, a)
        hi = len(f.pts) if b is None else bisect_left(f.pts, b)
        if a is None or b is None or a < b:
            out.update(f.vals[lo : hi + 1])
    if a is not None and closed in ("left", "both") and (b is None or a < b or closed == "both"):
        out.add(f.at(a))
    if b is not None and closed in ("right", "both") and (a is None or a < b or closed == "both"):
        out.add(f.at(b))
    # a function is right- or left-closed, so an interior step point takes the value of a
    # neighbouring piece which is already included
    out.discard(None)
    return out


def common(f, g):
    """restrict both to where both are defined"""
    a = combine([f, g], lambda v: None if v[1] is None else v[0], f.closed)
    b = combine([g, f], lambda v: None if v[1] is None else v[0], g.closed)
    return a, b


def cov(f, g, a, b):
    f, g = common(clip(f, a, b), clip(g, a, b))
    if not total(f):
        return None
    fg = combine([f, g], BINARY["mul"], f.closed)
    return _wmean(f, g, lambda x, y: x * y) - _wmean(f, g, lambda x, y: x) * _wmean(f, g, lambda x, y: y)


def _wmean(f, g, h):
    pts = sorted(set(f.pts) | set(g.pts))
    s = t = F(0)
    for p, q in zip(pts, pts[1:]):
        x, y = f.right(p), g.right(p)
        if x is not None and y is not None:
            s += (q - p) * h(x, y)
            t += q - p
    return s / t
