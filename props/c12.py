"""C12: results are minimal, identical() decides equality, pointwise algebra holds up to identical."""
from fractions import Fraction as F

import numpy as np

import staircase as sc
from staircase import Stairs
from vlib import domains, model, prog
from vlib import gen as G
from vlib.model import Fn
from vlib.pairs import fresh
from vlib.real import build, call, check_minimal, compare, num, require, spec_model

RULE = (
    "(1) programs of 1-8 operations (46 kinds): every result is checked for strictly increasing genuine steps and the exact number of "
    "steps, identical() is evaluated on pairs of program nodes, scalars, freshly built twins in several internal forms and one-change "
    "perturbations of them, in both directions, against exact equality of the models; bool() against the constant 1; (2) ~70 algebraic "
    "identities over triples of functions and scalars, both sides computed by the library, compared with identical() in both directions "
    "against equality in the model; quick also enumerates all pairs of a family of tiny functions; non-trivial: both an equal and an "
    "unequal comparison between functions of which one has steps, or an identity between functions with steps"
)
BUDGET = {"quick": 6500, "thorough": 150000}
LEAF = "violate"


class Inexact(Exception):
    pass


class M:
    """a model function with the operators and methods of Stairs"""

    def __init__(self, f):
        if f.closed == "MISMATCH" or not prog.exact(f, 200):
            raise Inexact
        self.f = f

    def _b(self, name, o, rev=False):
        g = o.f if isinstance(o, M) else model.const(o)
        a, b = (g, self.f) if rev else (self.f, g)
        return M(model.binary(name, a, b, model.pick_closed([self.f] + ([g] if isinstance(o, M) else []), self.f)))

    def mask(self, o):
        return self._m("mask", o)

    def where(self, o):
        return self._m("where", o)

    def _m(self, name, o):
        if isinstance(o, tuple):
            ind = model.indicator(None if o[0] is None else F(o[0], 2), None if o[1] is None else F(o[1], 2), self.f.closed)
            return M(getattr(model, name)(self.f, ind).with_closed(self.f.closed))
        return M(getattr(model, name)(self.f, o.f).with_closed(model.pick_closed([self.f, o.f], self.f)))

    def fillna(self, o):
        if isinstance(o, str):
            return M(model.fillna_method(self.f, o))
        if isinstance(o, M):
            return M(model.fillna_fn(self.f, o.f).with_closed(model.pick_closed([self.f, o.f], self.f)))
        return M(model.fillna_scalar(self.f, o))

    def clip(self, a, b):
        return M(model.clip(self.f, None if a is None else F(a, 2), None if b is None else F(b, 2)).with_closed(self.f.closed))

    def shift(self, n):
        return M(model.shift(self.f, F(n, 2)))

    def diff(self, n):
        return self - self.shift(n)

    def copy(self):
        return self

    def layer(self, a, b, v):
        return M(model.layer(self.f, [(None if a is None else F(a, 2), None if b is None else F(b, 2), v)]))


for _n, _m in (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("div", "truediv"), ("and", "and"), ("or", "or"), ("xor", "xor")):
    setattr(M, "__%s__" % _m, lambda self, o, _n=_n: self._b(_n, o))
    setattr(M, "__r%s__" % _m, lambda self, o, _n=_n: self._b(_n, o, True))
for _n in ("lt", "le", "gt", "ge", "eq", "ne"):
    setattr(M, "__%s__" % _n, lambda self, o, _n=_n: self._b(_n, o))
for _n, _m in (("neg", "__neg__"), ("invert", "__invert__"), ("make_boolean", "make_boolean"), ("isna", "isna"), ("notna", "notna")):
    setattr(M, _m, lambda self, _n=_n: M(model.unary(_n, self.f)))


class R:
    """the same interface over the library: positions in half ticks"""

    def __init__(self, s, dom):
        self.s, self.dom = s, dom

    def _w(self, o):
        return o.s if isinstance(o, R) else tuple(self._l(t) for t in o) if isinstance(o, tuple) else o

    def _l(self, t):
        return None if t is None else self.dom.lab(F(t, 2))

    def clip(self, a, b):
        return R(self.s.clip(self._l(a), self._l(b)), self.dom)

    def shift(self, n):
        return R(self.s.shift(self.dom.length(F(n, 2))), self.dom)

    def diff(self, n):
        return R(self.s.diff(self.dom.length(F(n, 2))), self.dom)

    def layer(self, a, b, v):
        return R(self.s.layer(self._l(a), self._l(b), v), self.dom)


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "and", "rand", "or", "ror", "xor", "rxor"):
    setattr(R, "__%s__" % _n, lambda self, o, _n="__%s__" % _n: R(getattr(self.s, _n)(self._w(o)), self.dom))
for _n in ("lt", "le", "gt", "ge", "eq", "ne"):
    setattr(R, "__%s__" % _n, lambda self, o, _n=_n: R(getattr(self.s, _n)(self._w(o)), self.dom))
for _n in ("__neg__", "__invert__", "make_boolean", "isna", "notna", "copy"):
    setattr(R, _n, lambda self, _n=_n: R(getattr(self.s, _n)(), self.dom))
for _n in ("mask", "where", "fillna"):
    setattr(R, _n, lambda self, o, _n=_n: R(getattr(self.s, _n)(self._w(o)), self.dom))


def agg(kind, xs):
    if isinstance(xs[0], M):
        return M(model.aggregate(kind, [x.f for x in xs]))
    return R(getattr(sc, kind)([x.s for x in xs]), xs[0].dom)


# name: (lhs, rhs) over f, g, h, scalar c, power of two p, half-tick positions a < b, shift n
LAWS = {
    "add comm": (lambda f, g, h, c, p, a, b, n: f + g, lambda f, g, h, c, p, a, b, n: g + f),
    "mul comm": (lambda f, g, h, c, p, a, b, n: f * g, lambda f, g, h, c, p, a, b, n: g * f),
    "and comm": (lambda f, g, h, c, p, a, b, n: f & g, lambda f, g, h, c, p, a, b, n: g & f),
    "or comm": (lambda f, g, h, c, p, a, b, n: f | g, lambda f, g, h, c, p, a, b, n: g | f),
    "xor comm": (lambda f, g, h, c, p, a, b, n: f ^ g, lambda f, g, h, c, p, a, b, n: g ^ f),
    "eq comm": (lambda f, g, h, c, p, a, b, n: f == g, lambda f, g, h, c, p, a, b, n: g == f),
    "lt gt": (lambda f, g, h, c, p, a, b, n: f < g, lambda f, g, h, c, p, a, b, n: g > f),
    "le ge": (lambda f, g, h, c, p, a, b, n: f <= g, lambda f, g, h, c, p, a, b, n: g >= f),
    "add assoc": (lambda f, g, h, c, p, a, b, n: (f + g) + h, lambda f, g, h, c, p, a, b, n: f + (g + h)),
    "mul assoc": (lambda f, g, h, c, p, a, b, n: (f * g) * h, lambda f, g, h, c, p, a, b, n: f * (g * h)),
    "and assoc": (lambda f, g, h, c, p, a, b, n: (f & g) & h, lambda f, g, h, c, p, a, b, n: f & (g & h)),
    "or assoc": (lambda f, g, h, c, p, a, b, n: (f | g) | h, lambda f, g, h, c, p, a, b, n: f | (g | h)),
    "xor assoc": (lambda f, g, h, c, p, a, b, n: (f ^ g) ^ h, lambda f, g, h, c, p, a, b, n: f ^ (g ^ h)),
    "distrib": (lambda f, g, h, c, p, a, b, n: f * (g + h), lambda f, g, h, c, p, a, b, n: f * g + f * h),
    "distrib sub": (lambda f, g, h, c, p, a, b, n: (g - h) * f, lambda f, g, h, c, p, a, b, n: g * f - h * f),
    "distrib scalar": (lambda f, g, h, c, p, a, b, n: c * (f + g), lambda f, g, h, c, p, a, b, n: c * f + c * g),
    "distrib div": (lambda f, g, h, c, p, a, b, n: (f + g) / p, lambda f, g, h, c, p, a, b, n: f / p + g / p),
    "bool distrib": (lambda f, g, h, c, p, a, b, n: f & (g | h), lambda f, g, h, c, p, a, b, n: (f & g) | (f & h)),
    "bool distrib 2": (lambda f, g, h, c, p, a, b, n: f | (g & h), lambda f, g, h, c, p, a, b, n: (f | g) & (f | h)),
    "de morgan and": (lambda f, g, h, c, p, a, b, n: ~(f & g), lambda f, g, h, c, p, a, b, n: ~f | ~g),
    "de morgan or": (lambda f, g, h, c, p, a, b, n: ~(f | g), lambda f, g, h, c, p, a, b, n: ~f & ~g),
    "f-f": (lambda f, g, h, c, p, a, b, n: f - f, lambda f, g, h, c, p, a, b, n: f * 0),
    "f-f defined": (lambda f, g, h, c, p, a, b, n: (f - f).fillna(0), lambda f, g, h, c, p, a, b, n: 0),
    "f-f domain": (lambda f, g, h, c, p, a, b, n: (f - f).notna(), lambda f, g, h, c, p, a, b, n: f.notna()),
    "f==f": (lambda f, g, h, c, p, a, b, n: f == f, lambda f, g, h, c, p, a, b, n: f * 0 + 1),
    "f<f": (lambda f, g, h, c, p, a, b, n: f < f, lambda f, g, h, c, p, a, b, n: f != f),
    "f xor f": (lambda f, g, h, c, p, a, b, n: f ^ f, lambda f, g, h, c, p, a, b, n: f - f),
    "double not": (lambda f, g, h, c, p, a, b, n: ~~f, lambda f, g, h, c, p, a, b, n: f.make_boolean()),
    "boolean": (lambda f, g, h, c, p, a, b, n: f.make_boolean(), lambda f, g, h, c, p, a, b, n: f != 0),
    "not": (lambda f, g, h, c, p, a, b, n: ~f, lambda f, g, h, c, p, a, b, n: f == 0),
    "and idem": (lambda f, g, h, c, p, a, b, n: f & f, lambda f, g, h, c, p, a, b, n: f | f),
    "absorb": (lambda f, g, h, c, p, a, b, n: f & (f | f), lambda f, g, h, c, p, a, b, n: f.make_boolean()),
    "double neg": (lambda f, g, h, c, p, a, b, n: -(-f), lambda f, g, h, c, p, a, b, n: f),
    "sub neg": (lambda f, g, h, c, p, a, b, n: f - g, lambda f, g, h, c, p, a, b, n: f + (-g)),
    "sub rev": (lambda f, g, h, c, p, a, b, n: -(f - g), lambda f, g, h, c, p, a, b, n: g - f),
    "neg mul": (lambda f, g, h, c, p, a, b, n: -f, lambda f, g, h, c, p, a, b, n: f * -1),
    "neutral": (lambda f, g, h, c, p, a, b, n: 0 + f * 1, lambda f, g, h, c, p, a, b, n: f / 1 - 0),
    "add sub c": (lambda f, g, h, c, p, a, b, n: (f + c) - c, lambda f, g, h, c, p, a, b, n: f),
    "add sub g": (lambda f, g, h, c, p, a, b, n: (f + g) - g, lambda f, g, h, c, p, a, b, n: f.where(g.notna())),
    "mul div p": (lambda f, g, h, c, p, a, b, n: (f * p) / p, lambda f, g, h, c, p, a, b, n: f),
    "half": (lambda f, g, h, c, p, a, b, n: f / 2 + f / 2, lambda f, g, h, c, p, a, b, n: f),
    "twice": (lambda f, g, h, c, p, a, b, n: f + f, lambda f, g, h, c, p, a, b, n: 2 * f),
    "square": (lambda f, g, h, c, p, a, b, n: (f + g) * (f - g), lambda f, g, h, c, p, a, b, n: f * f - g * g),
    "div self": (lambda f, g, h, c, p, a, b, n: f / f, lambda f, g, h, c, p, a, b, n: (f * 0 + 1).where(f)),
    "c minus": (lambda f, g, h, c, p, a, b, n: c - f, lambda f, g, h, c, p, a, b, n: -(f - c)),
    "lt not ge": (lambda f, g, h, c, p, a, b, n: f < g, lambda f, g, h, c, p, a, b, n: ~(f >= g)),
    "lt not ge c": (lambda f, g, h, c, p, a, b, n: f < c, lambda f, g, h, c, p, a, b, n: ~(f >= c)),
    "c gt": (lambda f, g, h, c, p, a, b, n: c + 0 * f > f, lambda f, g, h, c, p, a, b, n: f < c),
    "eq not ne": (lambda f, g, h, c, p, a, b, n: f == g, lambda f, g, h, c, p, a, b, n: ~(f != g)),
    "le split": (lambda f, g, h, c, p, a, b, n: f <= g, lambda f, g, h, c, p, a, b, n: (f < g) | (f == g)),
    "trichotomy": (lambda f, g, h, c, p, a, b, n: (f < g) + (f == g) + (f > g), lambda f, g, h, c, p, a, b, n: (f - g) * 0 + 1),
    "xor split": (lambda f, g, h, c, p, a, b, n: f ^ g, lambda f, g, h, c, p, a, b, n: (f | g) & ~(f & g)),
    "lt as diff": (lambda f, g, h, c, p, a, b, n: f < g, lambda f, g, h, c, p, a, b, n: (g - f) > 0),
    "mask where": (lambda f, g, h, c, p, a, b, n: f.mask(g), lambda f, g, h, c, p, a, b, n: f.where(~g)),
    "where mask": (lambda f, g, h, c, p, a, b, n: f.where(g), lambda f, g, h, c, p, a, b, n: f.mask(~g)),
    "where bool": (lambda f, g, h, c, p, a, b, n: f.where(g), lambda f, g, h, c, p, a, b, n: f.where(g.make_boolean())),
    "where where": (lambda f, g, h, c, p, a, b, n: f.where(g).where(h), lambda f, g, h, c, p, a, b, n: f.where(g & h)),
    "mask mask": (lambda f, g, h, c, p, a, b, n: f.mask(g).mask(h), lambda f, g, h, c, p, a, b, n: f.mask(g | h)),
    "mask refill": (lambda f, g, h, c, p, a, b, n: f.mask(g).fillna(f), lambda f, g, h, c, p, a, b, n: f),
    "where tuple": (lambda f, g, h, c, p, a, b, n: f.where((a, b)), lambda f, g, h, c, p, a, b, n: f.clip(a, b)),
    "mask tuple": (lambda f, g, h, c, p, a, b, n: f.mask((a, b)), lambda f, g, h, c, p, a, b, n: f.mask((0 * f.notna()).layer(a, b, 1))),
    "mask halves": (lambda f, g, h, c, p, a, b, n: f.mask((None, a)), lambda f, g, h, c, p, a, b, n: f.clip(a, None)),
    "clip join": (lambda f, g, h, c, p, a, b, n: f.clip(None, a).fillna(f.clip(a, None)), lambda f, g, h, c, p, a, b, n: f),
    "clip clip": (lambda f, g, h, c, p, a, b, n: f.clip(a, None).clip(None, b), lambda f, g, h, c, p, a, b, n: f.clip(a, b)),
    "clip add": (lambda f, g, h, c, p, a, b, n: (f + g).clip(a, b), lambda f, g, h, c, p, a, b, n: f.clip(a, b) + g),
    "isna notna": (lambda f, g, h, c, p, a, b, n: f.isna(), lambda f, g, h, c, p, a, b, n: 1 - f.notna()),
    "isna not": (lambda f, g, h, c, p, a, b, n: f.isna(), lambda f, g, h, c, p, a, b, n: ~f.notna()),
    "isna sum": (lambda f, g, h, c, p, a, b, n: (f + g).isna(), lambda f, g, h, c, p, a, b, n: f.isna() | g.isna()),
    "where notna": (lambda f, g, h, c, p, a, b, n: f.where(f.notna()), lambda f, g, h, c, p, a, b, n: f.mask(f.isna())),
    "fill all": (lambda f, g, h, c, p, a, b, n: f.fillna(c).notna(), lambda f, g, h, c, p, a, b, n: 1),
    "fill twice": (lambda f, g, h, c, p, a, b, n: f.fillna(c).fillna(7), lambda f, g, h, c, p, a, b, n: f.fillna(c)),
    "fill self": (lambda f, g, h, c, p, a, b, n: f.fillna(f), lambda f, g, h, c, p, a, b, n: f),
    "fill chain": (lambda f, g, h, c, p, a, b, n: f.fillna(g).fillna(h), lambda f, g, h, c, p, a, b, n: f.fillna(g.fillna(h))),
    "ffill idem": (lambda f, g, h, c, p, a, b, n: f.fillna("ffill").fillna("ffill"), lambda f, g, h, c, p, a, b, n: f.fillna("pad")),
    "fill both": (lambda f, g, h, c, p, a, b, n: f.fillna("ffill").fillna("bfill").isna(), lambda f, g, h, c, p, a, b, n: f.fillna("bfill").fillna("ffill").isna()),
    "shift back": (lambda f, g, h, c, p, a, b, n: f.shift(n).shift(-n), lambda f, g, h, c, p, a, b, n: f),
    "shift add": (lambda f, g, h, c, p, a, b, n: (f + g).shift(n), lambda f, g, h, c, p, a, b, n: f.shift(n) + g.shift(n)),
    "shift mul": (lambda f, g, h, c, p, a, b, n: (f * g).shift(n), lambda f, g, h, c, p, a, b, n: f.shift(n) * g.shift(n)),
    "diff": (lambda f, g, h, c, p, a, b, n: f.diff(n), lambda f, g, h, c, p, a, b, n: f - f.shift(n)),
    "diff lin": (lambda f, g, h, c, p, a, b, n: (f + c).diff(n), lambda f, g, h, c, p, a, b, n: f.diff(n)),
    "layer is add": (lambda f, g, h, c, p, a, b, n: f.copy().layer(a, b, c), lambda f, g, h, c, p, a, b, n: f + (0 * f.notna()).layer(a, b, c)),
    "layer comm": (lambda f, g, h, c, p, a, b, n: f.copy().layer(a, b, c).layer(a, None, p), lambda f, g, h, c, p, a, b, n: f.copy().layer(a, None, p).layer(a, b, c)),
    "layer cancel": (lambda f, g, h, c, p, a, b, n: f.copy().layer(a, b, p).layer(a, b, -p), lambda f, g, h, c, p, a, b, n: f),
    "layer split": (lambda f, g, h, c, p, a, b, n: f.copy().layer(a, None, p).layer(b, None, -p), lambda f, g, h, c, p, a, b, n: f.copy().layer(a, b, p)),
    "sum fold": (lambda f, g, h, c, p, a, b, n: agg("sum", [f, g, h]), lambda f, g, h, c, p, a, b, n: f + g + h),
    "sum perm": (lambda f, g, h, c, p, a, b, n: agg("sum", [h, f, g]), lambda f, g, h, c, p, a, b, n: agg("sum", [f, g, h])),
    "mean fold": (lambda f, g, h, c, p, a, b, n: agg("mean", [f, g]), lambda f, g, h, c, p, a, b, n: (f + g) / 2),
    "median pair": (lambda f, g, h, c, p, a, b, n: agg("median", [f, g]), lambda f, g, h, c, p, a, b, n: agg("mean", [f, g])),
    "max min": (lambda f, g, h, c, p, a, b, n: agg("max", [f, g]) + agg("min", [f, g]), lambda f, g, h, c, p, a, b, n: f + g),
    "max neg": (lambda f, g, h, c, p, a, b, n: agg("max", [f, g, h]), lambda f, g, h, c, p, a, b, n: -agg("min", [-f, -g, -h])),
    "median 3": (lambda f, g, h, c, p, a, b, n: agg("median", [f, g, h]), lambda f, g, h, c, p, a, b, n: f + g + h - agg("max", [f, g, h]) - agg("min", [f, g, h])),
    "any": (lambda f, g, h, c, p, a, b, n: agg("logical_or", [f, g, h]), lambda f, g, h, c, p, a, b, n: f | g | h),
    "all": (lambda f, g, h, c, p, a, b, n: agg("logical_and", [f, g, h]), lambda f, g, h, c, p, a, b, n: f & g & h),
    # not laws: the two sides may differ, identical() has to say so
    "? sub comm": (lambda f, g, h, c, p, a, b, n: f - g, lambda f, g, h, c, p, a, b, n: g - f),
    "? where": (lambda f, g, h, c, p, a, b, n: f.where(g), lambda f, g, h, c, p, a, b, n: f.mask(g)),
    "? bool": (lambda f, g, h, c, p, a, b, n: f, lambda f, g, h, c, p, a, b, n: f.make_boolean()),
    "? fill": (lambda f, g, h, c, p, a, b, n: f.fillna("ffill"), lambda f, g, h, c, p, a, b, n: f.fillna("bfill")),
    "? shift": (lambda f, g, h, c, p, a, b, n: f.shift(n), lambda f, g, h, c, p, a, b, n: f),
    "? lt le": (lambda f, g, h, c, p, a, b, n: f < g, lambda f, g, h, c, p, a, b, n: f <= g),
    "? max": (lambda f, g, h, c, p, a, b, n: agg("max", [f, g]), lambda f, g, h, c, p, a, b, n: f + g),
    "? cancel": (lambda f, g, h, c, p, a, b, n: (f + g) - g, lambda f, g, h, c, p, a, b, n: f),
    "? and mul": (lambda f, g, h, c, p, a, b, n: f & g, lambda f, g, h, c, p, a, b, n: f * g),
    "? layer": (lambda f, g, h, c, p, a, b, n: f.copy().layer(a, b, c), lambda f, g, h, c, p, a, b, n: f + c),
}


def gen(d):
    if d.chance(50):
        return gen_law(d)
    case, ms = prog.gen_prog(d, d.wpick([(25, 1), (30, 2), (20, 3), (15, 5), (10, 8)]))
    case["pairs"] = [[d.int(0, len(ms) - 1), d.int(0, len(ms) - 1)] for _ in range(d.int(1, 4))]
    tw = []
    for _ in range(d.int(1, 4)):
        tw.append({"i": len(ms) - 1 if d.chance(60) else d.int(0, len(ms) - 1), "p": d.pick(PERT), "k": d.int(0, 20), "v": d.pick([1, -1, 0.5, 2, 1 / 1024]),
                   "route": d.pick(["fv", "vec", "scalar", "neg2", "clip"]), "mat": d.wpick(G.MATS), "pre": d.wpick(G.MATS), "cl": int(d.chance(8))})
    case["twins"] = tw
    case["scal"] = [d.pick([0, 1, 2, -1, 0.5, None]), G.flavour(d)]
    case["minfirst"] = d.int(0, 1)
    return case


def gen_law(d):
    dom = G.domain(d, G.EXACT_DOMAINS)
    cl = G.closed(d)
    other = "left" if cl == "right" else "right"
    fs = []
    for i in range(3):
        f = G.fn(d, cl, pool=G.pts_of(*fs), vpool=d.pick(["std", "bool"]), big=False) if i == 0 or not d.chance(12) else dict(fs[0])
        if not f["steps"] and d.chance(40):
            f["closed"] = other
        fs.append(f)
    pts = [2 * p for p in G.pts_of(*fs)]
    a, b = sorted((d.pick(pts) + d.pick([0, 0, 1, -1]) if pts and d.chance(70) else d.int(-20, 30)) for _ in range(2))
    names = list(LAWS)
    return {"dom": dom, "fs": fs, "law": [d.pick(names) for _ in range(d.int(1, 2))], "c": G.value(d), "p": G.pow2(d), "a": a, "b": b + (a == b), "n": d.int(-6, 6)}


PERT = ["same", "same", "val", "val", "na", "move", "addend", "drop", "init", "raise", "initna", "swap"]


def perturb(m, p, k, v):
    """-> another function (possibly equal)"""
    pts, vals = list(m.pts), list(m.vals)
    v = F(v)
    i = k % len(vals)
    if p == "val" and vals[i] is not None:
        vals[i] += v
    elif p == "na":
        vals[i] = None if vals[i] is not None else F(0)
    elif p == "move" and pts:
        j = k % len(pts)
        q = pts[j] + (F(1, 2) if v > 0 else F(-1, 2))
        if all(q != r for r in pts) and sorted(pts[:j] + [q] + pts[j + 1 :]) == pts[:j] + [q] + pts[j + 1 :]:
            pts[j] = q
    elif p == "addend":
        pts.append((pts[-1] if pts else F(0)) + 1)
        vals.append((vals[-1] or F(0)) + v)
    elif p == "drop" and pts:
        j = k % len(pts)
        del pts[j], vals[j + 1]
    elif p == "init":
        vals[0] = F(0) if vals[0] is None else vals[0] + v
    elif p == "initna":
        vals[0] = None
    elif p == "raise":
        vals = [None if x is None else x + v for x in vals]
    elif p == "swap" and len(vals) > 1:
        j = k % (len(vals) - 1)
        vals[j], vals[j + 1] = vals[j + 1], vals[j]
    return Fn(m.closed, pts, vals)


def make(m, route, mat, dom):
    js = lambda x: None if x is None else int(x) if x.denominator == 1 else float(x)  # noqa
    spec = {"closed": m.closed, "init": js(m.vals[0]), "steps": [[p, js(v)] for p, v in zip(m.pts, m.vals[1:])], "mat": mat}
    if m.pts and route in ("vec", "scalar") and not m.has_na():
        spec["route"] = {"r": route}
    if route == "neg2":
        spec["route"] = {"r": "fv" if m.pts else "const", "post": ["neg2"]}
    elif route == "clip":
        spec["route"] = {"r": "fv" if m.pts else "const", "post": ["clipinf"]}
    return build(spec, dom)


def identical_both(x, y, exp, what):
    for a, b, w in ((x, y, "f.identical(g)"), (y, x, "g.identical(f)")):
        if isinstance(a, Stairs):
            r = call("identical", a.identical, b)
            require(isinstance(r, (bool, np.bool_)), "identical returned %r", r)
            require(bool(r) == exp, "%s: %s is %s, the functions are %s", what, w, r, "equal" if exp else "different")


def same_fn(a, b):
    return a.same(b) and (not a.pts or a.closed == b.closed)


def enum(tier):
    """all pairs of tiny functions, in two internal forms"""
    vals = [None, 0, 1]
    fns = []
    for v0 in vals:
        fns.append((v0, []))
        for v1 in vals:
            if v1 != v0:
                fns.append((v0, [[0, v1]]))
                fns.append((v0, [[1, v1]]))
                for v2 in vals:
                    if v2 != v1:
                        fns.append((v0, [[0, v1], [1, v2]]))
                        if tier == "thorough":
                            fns.append((v0, [[0, v1], [2, v2]]))
                            fns += [(v0, [[0, v1], [1, v2], [2, v3]]) for v3 in vals if v3 != v2]
    i = 0
    for x in fns:
        for y in fns:
            i += 1
            yield {"dom": ("int", "ts", "td")[i % 3], "two": [dict(closed="left", init=z[0], steps=z[1], mat=("", "v", "d", "vd")[(i // 3 + 2 * k) % 4],
                   **({"route": {"r": "vec"}} if z[0] is not None and z[1] and all(q[1] is not None for q in z[1]) and (i + k) % 2 else {})) for k, z in enumerate((x, y))]}


def run(case):
    dom = domains.get(case["dom"])
    if "two" in case:
        a, b = [build(s, dom) for s in case["two"]]
        ma, mb = [spec_model(s) for s in case["two"]]
        identical_both(a, b, same_fn(ma, mb), "tiny pair")
        if not mb.pts:
            identical_both(a, num(None if mb.vals[0] is None else float(mb.vals[0])), ma.same(mb), "constant")
        return ["tiny pair"], bool(ma.pts or mb.pts)
    if "law" in case:
        return run_law(case, dom)
    nodes = [build(s, dom) for s in case["leaves"]]
    ms = [spec_model(s) for s in case["leaves"]]
    nl = len(nodes)
    for op in case["ops"]:
        prog.run_ops([op], nodes, dom)
        m = prog.meaning(op, ms)
        ms.append(m if m.pts else m.with_closed(nodes[-1].closed))
    labels = ["dom:" + dom.name, "ops:%d" % len(case["ops"])] + ["op:" + op["op"] for op in case["ops"]]

    def name(i):
        return "leaf %d" % i if i < nl else prog.describe(case["ops"][i - nl])

    def minimal():
        for i in range(len(nodes) - 1, -1, -1):
            require(isinstance(nodes[i], Stairs), "%s gives %s", name(i), type(nodes[i]))
            check_minimal(nodes[i], ms[i], dom, name(i))
            require(bool(nodes[i]) == (not ms[i].pts and ms[i].vals[0] == 1), "%s: bool() is %s", name(i), bool(nodes[i]))
            require(len(nodes[i].step_points) == len(ms[i].pts), "%s: %s step_points", name(i), len(nodes[i].step_points))

    if case["minfirst"]:
        minimal()
    pos = neg = False
    for i, j in case["pairs"]:
        exp = same_fn(ms[i], ms[j])
        identical_both(nodes[i], nodes[j], exp, "%s vs %s" % (name(i), name(j)))
        pos |= exp and bool(ms[i].pts)
        neg |= not exp
    for t in case["twins"]:
        m = ms[t["i"]]
        g = perturb(m, t["p"], t["k"], t["v"])
        if t["cl"]:
            g = g.with_closed("left" if g.closed == "right" else "right")
        x = nodes[t["i"]]
        y = make(g, t["route"], t["mat"], dom)
        for ch in t["pre"]:
            prog._read(x, ch, dom)
        exp = same_fn(m, g)
        identical_both(x, y, exp, "%s vs twin (%s)" % (name(t["i"]), t["p"]))
        labels.append("twin:%s:%s" % (t["p"], exp))
        pos |= exp and bool(ms[t["i"]].pts)
        neg |= not exp
    v, fl = case["scal"]
    c = num(v, fl if v is not None else "py")
    for i in (0, len(nodes) - 1):
        identical_both(nodes[i], c, ms[i].same(model.const(v)), "%s vs scalar %r" % (name(i), c))
    if not case["minfirst"]:
        minimal()
    for i in range(nl, len(nodes)):
        compare(nodes[i], ms[i], dom, name(i), limits=False)
    return labels, pos and neg


def run_law(case, dom):
    ms = [spec_model(s) for s in case["fs"]]
    labels, nt = ["dom:" + dom.name], False
    for law in case["law"]:
        lhs, rhs = LAWS[law]
        par = (case["c"], case["p"], case["a"], case["b"], case["n"])
        try:
            ml = lhs(*[M(m) for m in ms], *par)
            mr = rhs(*[M(m) for m in ms], *par)
        except Inexact:
            labels.append("law not evaluated: inexact")
            continue
        mr = mr.f if isinstance(mr, M) else model.const(mr)
        ml = ml.f
        exp = ml.same(mr) and (ml.closed == mr.closed or not ml.pts)
        require(exp or law.startswith("?"), "harness: %s does not hold in the model", law)
        ss = [R(build(s, dom), dom) for s in case["fs"]]
        x = call(law, lhs, *ss, *par).s
        y = call(law, rhs, *ss, *par)
        y = y.s if isinstance(y, R) else y
        check_minimal(x, ml, dom, "%s (left side)" % law)
        if isinstance(y, Stairs):
            check_minimal(y, mr, dom, "%s (right side)" % law)
        identical_both(x, y, exp, law)
        identical_both(x, fresh(ml.with_closed(x.closed), dom), True, law + " against a directly built function")
        labels.append("law:" + law)
        nt |= bool(ml.pts or mr.pts)
    return labels, nt
