from ..ops import APPROX
from ..spaces import *
from ..universe import sequences

ID, LEVEL = "C07", "model_checking"
RULE = (
    "None given for the matrix in every matrix product, all flag combinations (also with the fast approximation, with and without "
    "the input flagged as diagonal), on every layer configuration of the boxes, every network of the list, every chain of up to 2 "
    "(quick) or 3 (thorough) layers, custom layers, and all call circumstances within k deviations of the base (2 quick, 3 "
    "thorough). One case is one state; its transitions are the products with respect to input and weight"
)
OPS_ = ("jmp", "mjp", "jmjTp", "jTmjp")
MODES_ = MODES + (APPROX, (False, True, True))


def space(tier):
    q = tier == "quick"
    yield from every_leaf(tier, xs=("generic", "mixed"))
    yield from batch_sweep(CORE + NETS)
    yield from big_sweep()
    yield from huge_sweep()
    yield from small_sweep(tier)
    for start in ((2,), (4,), (1, 2, 3)):
        for seq in sequences(start, 2 if q else 3):
            yield ["call", ("Seq",) + seq, start, {"batch": 3}]
    yield from circumstances(CORE + NETS + CUSTOM_LEAVES, 2 if q else 3, drop=("tan", "ncol", "tlay"))


def cases(tier):
    return relevant(space(tier), OPS_, none=True)


def run(case):
    return run_products(case, OPS_, MODES_, none=True)
