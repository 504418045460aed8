"""C05: logical operators act pointwise on truthiness."""
from vlib import pairs

RULE = (
    "pairs (function|scalar, function|scalar) under & | ^ in operator, method and reflected form, ~ and make_boolean, with 0/1, "
    "negative, fractional and undefined pieces, followed by a random further operation compared with the same operation on a "
    "freshly built equal function; non-trivial: an operand has a step and the result is defined somewhere"
)
BUDGET = {"quick": 12000, "thorough": 250000}


def gen(d):
    c = pairs.gen_pair(d, [(25, "and"), (25, "or"), (25, "xor")], [(12, "invert"), (12, "make_boolean")], zero=35, vpool="mix")
    if d.chance(35):
        c["follow"] = d.pick(pairs.FOLLOW)
    return c


def run(case):
    return pairs.run_pair(case, follow=True)
