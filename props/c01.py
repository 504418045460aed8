"""C01: arithmetic is pointwise."""
from vlib import pairs

RULE = (
    "pairs (function|scalar, function|scalar) under + - * / in operator, method and reflected form, and unary minus, over "
    "16 domains, both closed sides, 0-40 steps, every construction route, interposed reads, 9 scalar types; non-trivial: at "
    "least one operand has a step and the exact rational model assigns a defined value somewhere"
)
BUDGET = {"quick": 14000, "thorough": 300000}


def gen(d):
    return pairs.gen_pair(d, [(22, "add"), (22, "sub"), (20, "mul"), (26, "div")], [(8, "neg")], zero=18)


def run(case):
    return pairs.run_pair(case)
