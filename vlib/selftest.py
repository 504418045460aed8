"""Sanity of the reference model and of the domain maps (run by the setup command)."""
from fractions import Fraction as F

from . import domains, model
from .model import Fn


def run():
    f = Fn("left", [F(0), F(2), F(3)], [F(0), F(1), None, F(4)])
    g = Fn("left", [F(1), F(5)], [F(2), F(0), F(1)])
    h = model.binary("add", f, g)
    assert h.pts == [0, 1, 2, 3, 5] and h.vals == [2, 3, 1, None, 4, 5], (h.pts, h.vals)
    assert f.at(F(0)) == 1 and f.at(F(2)) is None and f.lim(F(0), "left") == 0
    assert Fn("right", f.pts, f.vals).at(F(0)) == 0
    assert model.integral(f) == 2 and model.total(f) == 2 and model.mean(f) == 1 and model.var(f) == 0
    assert model.fractile(g, F(1, 2)) == 0 and model.ecdf(g, 0) == 1
    assert model.values_in(f, F(0), F(2), "neither") == {1}
    assert model.values_in(f, F(0), F(3), "right") == {1, 4}
    assert model.cov(f, g, F(0), F(2)) == 0
    for name in domains.DOMAINS:
        d = domains.get(name)
        for t in (-3, 0, 5):
            for fl in d.flavours():
                assert d.inv(d.lab(t, fl)) == t, (name, t, fl)
            assert d.inv_length(d.length(t)) == t or not d.exact, (name, t)
