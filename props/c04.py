"""C04: relational operators are pointwise 0/1 indicators."""
from vlib import pairs

RULE = (
    "pairs (function|scalar, function|scalar) under < <= > >= == != in operator and method form with equal values on some "
    "pieces, followed by a random further operation on the result compared with the same operation on a freshly built equal "
    "function; non-trivial: an operand has a step and the result is defined somewhere"
)
BUDGET = {"quick": 12000, "thorough": 250000}


def gen(d):
    c = pairs.gen_pair(d, [(1, o) for o in ("lt", "le", "gt", "ge", "eq", "ne")], [], zero=15)
    if d.chance(50):
        c["follow"] = d.pick(pairs.FOLLOW)
    return c


def run(case):
    return pairs.run_pair(case, follow=True)
