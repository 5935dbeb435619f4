from ..ops import APPROX
from ..spaces import *
from ..universe import CUSTOM_BIG, dense_templates, sequences

ID, LEVEL = "C21", "model_checking"
RULE = (
    "ten kinds of layers written as the documentation asks (a forward pass, a Jacobian and a parameter count; dense or diagonal; square "
    "or not; with and without parameters; Jacobians handed out as expanded or transposed views, a Jacobian kept by the layer; one layer with products of its own that hand back their argument): all "
    "seven products in all modes including None and the approximation, alone in all call circumstances within k deviations (2 "
    "quick, 3 thorough), every basis tangent, and in every chain of up to 2 (quick) or 3 (thorough) custom and library layers, "
    "bare, nested and in skip connections. One case is one state; its transitions are the products"
)
MODES_ = MODES + (APPROX,)


def templates(shape):
    n = shape[0]
    out = [("CScale", n), ("CSoftmax",), ("CBilinear", n, 2), ("CCube",), ("CGain", n), ("CMean", n), ("CMix", n, 2), ("CMix", n, 3), ("COffset", n)]
    if n % 2 == 0:
        out.append(("CGate",))
    return out


def mixed(shape):
    n = shape[0]
    return templates(shape) + [("Linear", n, 2, True), ("Tanh",), ("Skip", ("CMix", n, 1)), ("Seq", ("CScale", n), ("Sigmoid",))]


def custom(spec):
    return spec[0].startswith("C") and spec[0] != "Conv2d" or any(custom(c) for c in spec[1:] if isinstance(c, tuple))


def space(tier):
    q = tier == "quick"
    yield from circumstances(CUSTOM_LEAVES, 2 if q else 3)
    yield from basis_sweep(CUSTOM_LEAVES)
    yield from batch_sweep(CUSTOM_LEAVES)
    yield from big_sweep(CUSTOM_BIG)
    yield from column_sweep(CUSTOM_LEAVES)
    for spec, shape in CUSTOM_LEAVES:
        for b in (128, 257, 513, 1000, 1025):
            yield ["call", spec, shape, {"batch": b}]
    for start in ((2,), (3,), (4,)):
        for seq in sequences(start, 2 if q else 3, mixed):
            if not any(custom(s) for s in seq):
                continue
            yield ["call", ("Seq",) + seq, start, {"batch": 3}]
            yield ["call", ("Skip",) + seq, start, {}]
            yield ["call", ("Seq", ("Seq",) + seq, ("Tanh",)), start, {"dtype": "f32"}]
            yield ["call", ("Seq", ("Linear", start[0], start[0], True), ("Skip",) + seq), start, {"batch": 1}]
    nets = [
        (("Seq", ("Linear", 3, 3, True), ("CSoftmax",), ("CMix", 3, 2)), (3,)),
        (("Seq", ("CMix", 2, 4), ("CGate",), ("CGain", 2)), (2,)),
        (("Skip", ("CBilinear", 2, 2), ("CMean", 2)), (2,)),
    ]
    yield from circumstances(nets + CUSTOM_NETS, 1 if q else 2)


def cases(tier):
    for c in space(tier):
        yield c
        if c[0] == "call" and len(c[3]) < 2:
            yield ["none"] + list(c[1:])


def run(case):
    if case[0] == "none":
        return run_products(["call"] + list(case[1:]), ("jmp", "mjp", "jmjTp", "jTmjp"), MODES_, none=True)
    return run_products(case, OPS, MODES_)
