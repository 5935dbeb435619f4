from ..spaces import *
from ..spec import out_shape
from ..universe import any_templates, sequences
from ..ops import APPROX

ID, LEVEL = "C06", "model_checking"
RULE = (
    "every well typed sequence of up to 3 (quick) or 4 (thorough) layers over an alphabet of 9 feature and 8 image layers "
    "(linear with and without bias, activations, normalisation, convolution, pooling, upsampling, flatten, reshape, nested "
    "containers and skip connections), as a chain, as a skip connection, and in every bracketing into nested chains; one case is "
    "one architecture, its transitions are all products in all modes with respect to input and weight"
)
STARTS = [(1,), (2,), (4,)]
IMAGES = [(1, 2, 3), (2, 2, 2)]


def bracketings(seq):
    """The same layers, grouped in nested chains in every way."""
    n = len(seq)
    if n == 1:
        return [seq[0]]
    out = []
    for i in range(1, n):
        for a in bracketings(seq[:i]):
            for b in bracketings(seq[i:]):
                out.append(("Seq", a, b))
    return out


def typed(spec, shape):
    """A skip connection needs an output that can be stacked onto its input."""
    try:
        out_shape(spec, shape)
    except RuntimeError:
        return False
    return True


def cases(tier):
    q = tier == "quick"
    for start in STARTS:
        for seq in sequences(start, 3 if q else 4):
            yield ["call", ("Seq",) + seq, start, {}]
    for start in IMAGES:
        for seq in sequences(start, 3 if q else 4):
            yield ["call", ("Seq",) + seq, start, {}]
    for seq in sequences((2,), 3):
        if typed(("Skip",) + seq, (2,)):
            yield ["call", ("Skip",) + seq, (2,), {}]
            yield ["call", ("Seq", ("Skip",) + seq, ("Tanh",)), (2,), {"batch": 3}]
        if len(seq) > 1:
            for b in bracketings(seq):
                yield ["call", b, (2,), {"val": "given"}]
    for start in IMAGES[:1]:
        for seq in sequences(start, 2 if q else 3):
            if len(seq) > 1:
                for b in bracketings(seq):
                    yield ["call", b, start, {"val": "given"}]
            if not typed(("Skip",) + seq, start):
                continue
            yield ["call", ("Skip",) + seq, start, {}]
            yield ["call", ("Seq", ("Skip",) + seq, ("Flatten",)), start, {"batch": 3}]
    # deep and narrow
    for n in (8, 16) if q else (8, 16, 32, 64):
        yield ["call", ("Seq",) + tuple(x for i in range(n) for x in (("Linear", 2, 2, True), ("Tanh",))), (2,), {}]
        yield ["call", ("Seq",) + tuple(("Linear", 2, 2, i % 2 == 0) for i in range(n)), (2,), {}]
        s = ("Linear", 2, 2, True)
        for i in range(n):
            s = ("Seq", s, ("Tanh",)) if i % 2 else ("Seq", ("Linear", 2, 2, False), s)
        yield ["call", s, (2,), {}]
    for n in (2, 3, 4):
        s = ("Linear", 2, 2, True)
        for i in range(n):
            s = ("Skip", ("Tanh",), s)
        yield ["call", ("Seq", s), (2,), {}]
    yield from small_sweep(tier)
    yield from big_sweep([i for i in BIG if is_container(i[0])])
    for spec, shape in HUGE:
        if is_container(spec):
            for d in ({}, {"batch": 1, "val": "given"}, {"batch": 3, "dtype": "f32", "ncol": 65}):
                yield ["call", spec, shape, d]
    yield from column_sweep(NETS[:3])
    yield from circumstances(NETS, 1 if q else 2)


def run(case):
    return run_products(case, OPS)
