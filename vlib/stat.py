"""Statistics of the model compared with what the library returns."""
import math
import numbers
from fractions import Fraction as F

import numpy as np
import pandas as pd

from . import model
from .real import Violation, call, close, require, show, val

YEARS = F(250 * 365 * 86400 * 10**9)  # Timedeltas overflow beyond 292 years


def pieces_ok(m):
    return model.total(m) > 0


def magnitude(m):
    vs = [abs(v) for v in m.vals if v is not None]
    return max(vs) if vs else F(0)


def overflow_risk(m, dom):
    if not dom.datelike:
        return False
    return sum((abs(v) * ln for v, ln in model.value_sums(m).items()), F(0)) * dom.unit > YEARS


def length_tol(m, dom):
    """slack of a length-valued result, in ticks"""
    if dom.datelike:
        return F(m.n + 2, dom.unit) + F(1, 10**9) * magnitude(m)
    return F(1, 10**9) * magnitude(m) * (1 + (m.pts[-1] - m.pts[0] if m.pts else 0))


def near(g, e, tol, what):
    if isinstance(g, str) or g is None or e is None:
        require(g is None and e is None, "%s is %s, expected %s", what, show(g), show(e))
        return
    require(abs(g - e) <= tol, "%s is %s, expected %s", what, show(g), show(e))


def plain(x, what):
    """a plain number"""
    require(isinstance(x, numbers.Number) and not isinstance(x, (complex, pd.Timedelta)), "%s is %r, not a plain number", what, x)
    return val(x)


def length_of(x, dom, what):
    try:
        return dom.inv_length(x)
    except (ValueError, TypeError) as e:
        raise Violation("%s: %s" % (what, e))


def check_integral(x, m, dom, what="integral"):
    near(length_of(x, dom, what), model.integral(m), length_tol(m, dom), what)


def check_mean(x, m, dom, what="mean"):
    tol = F(1, 10**9) * magnitude(m)
    if dom.datelike:  # integrals are rounded to nanoseconds piece by piece
        tol += F(m.n + 2) / (model.total(m) * dom.unit)
    near(plain(x, what), model.mean(m), tol, what)


def check_var(x, m, dom, what="var"):
    tol = F(1, 10**8) * magnitude(m) ** 2
    if dom.datelike:
        tol += magnitude(m) * F(4 * (m.n + 2)) / (model.total(m) * dom.unit)
    near(plain(x, what), model.var(m), tol, what)


def check_std(x, m, dom, what="std"):
    g = plain(x, what)
    require(g is not None and not isinstance(g, str) and g >= 0, "%s is %s", what, show(g))
    e = model.var(m)
    tol = F(1, 10**8) * magnitude(m) ** 2
    if dom.datelike:
        tol += magnitude(m) * F(4 * (m.n + 2)) / (model.total(m) * dom.unit)
    require(abs(g * g - e) <= tol, "%s is %s, expected %s", what, show(g), math.sqrt(float(e)))


def check_value_sums(vs, m, dom, dropna=True, what="value_sums"):
    require(isinstance(vs, pd.Series), "%s is %s", what, type(vs))
    exp = model.value_sums(m)
    if not dropna:
        und = sum((ln for ln, v in m.finite_pieces() if v is None), F(0))
        if und:
            exp = dict(exp)
            exp[None] = und
    got = {}
    for k, x in vs.items():
        k = val(k)
        require(k not in got, "%s: value %s appears twice", what, show(k))
        got[k] = length_of(x, dom, what)
    require(set(got) == set(exp), "%s has values %s, expected %s", what, sorted(map(show, got)), sorted(map(show, exp)))
    for k, e in exp.items():
        near(got[k], e, F(1, 10**9) * (1 + e), "%s[%s]" % (what, show(k)))


# ---------------------------------------------------------------- distribution
def dyadic(m, dom):
    """cumulative shares exactly representable"""
    if not dom.exact:
        return False
    t = model.total(m)
    return t.denominator == 1 and (int(t) & (int(t) - 1)) == 0


def check_quantile(x, q, m, dom, what, exact_q=True):
    """x == fractile(q), q an exact Fraction; boundaries which are not exactly representable may fall either way"""
    g = plain(x, what)
    e = model.fractile(m, q)
    if close(g, e):
        return
    if 0 < q < 1 and not (dyadic(m, dom) and exact_q):
        eps = F(1, 10**9)
        if any(abs(b - q) < eps for b in model.share_boundaries(m)):
            lo, hi = model.fractile(m, q - eps), model.fractile(m, q + eps)
            if close(g, lo) or close(g, hi) or close(g, (lo + hi) / 2):
                return
    raise Violation("%s is %s, expected %s" % (what, show(g), show(e)))


def check_ecdf(x, y, m, strictly, what):
    near(plain(x, what), model.ecdf(m, y, strictly), F(1, 10**9), what)


def check_mode(x, m, dom, what="mode"):
    g = plain(x, what)
    vs = model.value_sums(m)
    top = max(vs.values())
    ok = {v for v, ln in vs.items() if ln >= top - (0 if dom.exact else F(1, 10**6))}
    require(g in ok, "%s is %s, expected one of %s", what, show(g), sorted(map(show, ok)))


def bin_sum(m, a, b, closed):
    """total length of the values falling in the bin"""
    if closed == "left":
        return sum((ln for v, ln in model.value_sums(m).items() if a <= v < b), F(0))
    return sum((ln for v, ln in model.value_sums(m).items() if a < v <= b), F(0))


def check_hist(h, m, dom, closed, stat, edges=None, what="hist"):
    """edges: expected bins as [(a, b)], or None for unit bins"""
    require(isinstance(h, pd.Series), "%s is %s", what, type(h))
    require(isinstance(h.index, pd.IntervalIndex), "%s is indexed by %s", what, type(h.index))
    require(h.index.closed == closed, "%s bins are closed %s, requested %s", what, h.index.closed, closed)
    bins = [(F(float(i.left)), F(float(i.right))) for i in h.index]
    vs = model.value_sums(m)
    if edges is not None:
        require(bins == [(F(a), F(b)) for a, b in edges], "%s bins are %s, expected %s", what, bins, edges)
    else:
        require(all(b - a == 1 and a.denominator == 1 for a, b in bins), "%s: not unit bins: %s", what, bins)
        require(all(p[1] == q[0] for p, q in zip(bins, bins[1:])), "%s: bins do not tile", what)
        require(
            sum((bin_sum(m, a, b, closed) for a, b in bins), F(0)) == model.total(m),
            "%s: unit bins %s do not cover the values %s", what, bins, [show(v) for v in vs],
        )
    sums = [bin_sum(m, a, b, closed) for a, b in bins]
    raw = list(h.values)
    tot = model.total(m)
    covered = sum(sums, F(0)) == tot
    for i, ((a, b), s, x) in enumerate(zip(bins, sums, raw)):
        w = "%s[%s] (stat=%s)" % (what, h.index[i], stat)
        tol = F(1, 10**8) * (1 + tot)
        if dom.datelike:  # durations are truncated to whole nanoseconds
            tol += F(1, dom.unit)
        if stat == "sum":
            near(length_of(x, dom, w), s, tol, w)
        elif stat == "frequency":
            if dom.datelike and s / (b - a) * dom.unit > YEARS:
                continue  # no Timedelta is this long
            near(length_of(x, dom, w), s / (b - a), tol * (1 + 1 / (b - a)) + (F(2, dom.unit) if dom.datelike else 0), w)
        elif stat == "probability":
            g = plain(x, w)
            if not covered and sum(sums) and close(g, s / sum(sums), 1e-7, 1e-7):
                continue
            near(g, s / tot, F(1, 10**7), w)
        else:
            area = sum((y * (q - p) for y, (p, q) in zip(sums, bins)), F(0))
            if not area:
                continue
            near(plain(x, w), s / area, F(1, 10**6) * (1 + s / area), w)
