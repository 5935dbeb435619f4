from ..ops import APPROX
from ..spaces import *
from ..universe import sequences

ID, LEVEL = "C08", "model_checking"
RULE = (
    "the fast diagonal approximation of both metric products, on every layer configuration of the boxes, every network of the "
    "list, every chain of up to 3 (quick) or 4 (thorough) layers, skip connections and nested chains, custom layers, every basis "
    "diagonal, and all call circumstances within k deviations of the base (2 quick, 3 thorough), against the reference that "
    "carries a diagonal through the dense Jacobian of one layer at a time. One case is one state; its transitions are the products "
    "with respect to input and weight"
)
OPS_ = ("jmjTp", "jTmjp")
MODES_ = (APPROX,)


def space(tier):
    q = tier == "quick"
    yield from every_leaf(tier, xs=("generic", "mixed"))
    yield from batch_sweep(CORE + NETS)
    yield from big_sweep()
    yield from huge_sweep()
    yield from small_sweep(tier)
    yield from basis_sweep(CORE + NETS + CUSTOM_LEAVES + CUSTOM_NETS)
    for start in ((2,), (4,), (1, 2, 3)):
        for seq in sequences(start, 3 if q else 4):
            yield ["call", ("Seq",) + seq, start, {"batch": 3}]
    for seq in sequences((2,), 3):
        if len(seq) == 3 and seq[-1][0] != "Reshape":
            yield ["call", ("Seq", ("Seq",) + seq), (2,), {"batch": 1}]
    for seq in sequences((2,), 2 if q else 3):
        if seq[-1][0] == "Reshape":
            continue
        yield ["call", ("Skip",) + seq, (2,), {}]
        yield ["call", ("Seq", ("Linear", 2, 2, True), ("Skip",) + seq, ("Tanh",)), (2,), {}]
        yield ["call", ("Seq", ("Seq",) + seq, ("Tanh",)), (2,), {}]
    yield from circumstances(CORE + NETS + CUSTOM_LEAVES + CUSTOM_NETS, 2 if q else 3, drop=("ncol",))


def cases(tier):
    return relevant(space(tier), OPS_, MODES_)


def run(case):
    return run_products(case, OPS_, MODES_)
