from ..spaces import *

ID, LEVEL = "C04", "model_checking"
RULE = (
    "every layer configuration of the box and every network of the list x every set of call circumstances (batch, dtype, memory "
    "layouts, given/absent output, input and weight classes, tangent class, columns, grad mode, ...) within k deviations of the "
    "base (k=2 quick, 3 thorough), every batch size of a list, and every basis tangent; one case is one (network, circumstances) "
    "state, its transitions are the calls with respect to input and weight, all judged by the dense reference"
)
OPS_ = ("jTmjp",)


def space(tier):
    yield from every_leaf(tier)
    yield from batch_sweep(CORE + NETS)
    yield from big_sweep()
    yield from huge_sweep()
    yield from small_sweep(tier)
    yield from basis_sweep(CORE + NETS)
    yield from circumstances(CORE + NETS, 2 if tier == "quick" else 3)


def cases(tier):
    return relevant(space(tier), OPS_)


def run(case):
    return run_products(case, OPS_)
