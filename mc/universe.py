"""The bounded spaces: leaves and their configurations, architectures, and the deviation-bounded product over the
circumstances of a call."""
import itertools

from .spec import children, is_container, n_params, out_shape, param_shapes, tup

TWO = lambda a: (a, a) if isinstance(a, int) else tuple(a)

ELEM = [("Tanh",), ("ReLU",), ("ReLU", True), ("Sigmoid",), ("Sinusoidal",), ("TruncExp",), ("Softplus", 1.0, 20.0), ("Softplus", 2.5, 1.0), ("Softplus", 0.5, 0.25)]
VEC_SHAPES = [(1,), (2,), (3,), (5,)]
ANY_SHAPES = VEC_SHAPES + [(2, 3), (3, 1), (1, 2, 3), (3, 2, 1), (2, 2, 2), (1, 1, 1)]


def linear_leaves(tier):
    top = 5 if tier == "quick" else 8
    out = [(("Linear", i, o, bias), (i,)) for i in range(1, top + 1) for o in range(1, top + 1) for bias in (True, False)]
    out += [(("Linear", i, o, bias), (i,)) for i, o in ((9, 4), (4, 9), (16, 2), (2, 17), (12, 12)) for bias in (True, False)]
    return out


def elementwise_leaves(tier):
    return [(s, shape) for s in ELEM for shape in ANY_SHAPES]


def l2_leaves(tier):
    return [(("L2Norm",) + e, shape) for e in ((), (0.1,), (1.0,), (1e-3,)) for shape in ANY_SHAPES]


def shape_leaves(tier):
    out = [(("Flatten",), shape) for shape in ANY_SHAPES]
    for shape in ((1,), (6,), (2, 3), (1, 2, 3), (3, 2, 1), (12,), (2, 3, 2)):
        n = 1
        for s in shape:
            n *= s
        for dims in ((n,), (-1,), (1, n), (n, 1, 1), (1, 1, -1)) + (((2, n // 2), (2, -1, 1), (n // 2, 1, 2)) if n % 2 == 0 else ()):
            out.append((("Reshape",) + dims, shape))
    return out


def conv_ok(spec, shape):
    _, ci, co, ks, pad, dil, bias, vm = spec
    for i in range(2):
        if pad[i] > dil[i] * (ks[i] - 1):
            return False
        if shape[1 + i] + 2 * pad[i] - dil[i] * (ks[i] - 1) < 1:
            return False
    return True


def conv_leaves(tier):
    """Every kernel up to 3x3, padding, dilation, bias, implementation path, channel counts and (non square) image
    in the box, kernel and padding exhaustively, the others within two deviations of a base."""
    out = []
    ks = [(a, b) for a in (1, 2, 3) for b in (1, 2, 3)]
    pads = [(a, b) for a in (0, 1, 2) for b in (0, 1, 2)]
    base = dict(dil=(1, 1), ch=(2, 3), img=(4, 3), bias=True, vm=True)
    alts = dict(
        dil=[(2, 1), (1, 2), (2, 2)] + ([] if tier == "quick" else [(3, 1), (1, 3)]),
        ch=[(1, 1), (1, 2), (3, 1), (2, 2)],
        img=[(3, 4), (5, 5), (3, 5), (1, 4), (2, 2)],
        bias=[False],
        vm=[False],
    )
    for cfg in deviations(base, alts, 2):
        for k in ks:
            for p in pads:
                s = ("Conv2d", cfg["ch"][0], cfg["ch"][1], k, p, cfg["dil"], cfg["bias"], cfg["vm"])
                shape = (cfg["ch"][0],) + cfg["img"]
                if conv_ok(s, shape):
                    out.append((s, shape))
    return out


def pool_ok(spec, shape):
    _, ks, st, pad, dil, ceil = spec
    k, s, p, d = TWO(ks), TWO(ks if st is None else st), TWO(pad), TWO(dil)
    for i in range(2):
        if p[i] * 2 > k[i]:
            return False
        n = shape[1 + i] + 2 * p[i] - d[i] * (k[i] - 1) - 1
        if n < 0:
            return False
        # a window may end up entirely in the padding / beyond the border when dilated: torch defines no maximum there
        out = (-(-n // s[i]) if ceil else n // s[i]) + 1
        if ceil and (out - 1) * s[i] >= shape[1 + i] + p[i]:
            out -= 1
        for o in range(out):
            if not any(0 <= o * s[i] - p[i] + j * d[i] < shape[1 + i] for j in range(k[i])):
                return False
    return True


def pool_leaves(tier):
    out = []
    for k in (1, 2, 3, (2, 3), (3, 2), (1, 2)):
        for st in (None, 1, 2, 3, (1, 2), (2, 1)):
            for pad in (0, 1, (1, 0), (0, 1)):
                for dil in (1, 2, (2, 1), (1, 2)):
                    for ceil in (False, True):
                        for shape in ((1, 4, 5), (2, 4, 4), (3, 5, 3)) + (() if tier == "quick" else ((2, 6, 5), (2, 3, 7), (1, 2, 2))):
                            if tier == "quick" and shape != (2, 4, 4) and dil != 1 and pad != 0:
                                continue
                            s = ("MaxPool2d", k, st, pad, dil, ceil)
                            if pool_ok(s, shape):
                                out.append((s, shape))
    return out


def up_leaves(tier):
    return [
        (("Upsample", sc), (c, h, w))
        for sc in (1, 2, 3, 4)
        for c in (1, 2, 3)
        for h, w in ((1, 1), (1, 2), (2, 1), (2, 3), (3, 2), (3, 3))
    ]


def leaves(tier):
    return (
        linear_leaves(tier)
        + elementwise_leaves(tier)
        + l2_leaves(tier)
        + shape_leaves(tier)
        + conv_leaves(tier)
        + pool_leaves(tier)
        + up_leaves(tier)
    )


# one or a few of each kind, for the products over circumstances
CORE = [
    (("Linear", 3, 2, True), (3,)),
    (("Linear", 2, 4, False), (2,)),
    (("Linear", 3, 3, True), (3,)),
    (("Linear", 1, 1, True), (1,)),
    (("Tanh",), (3,)),
    (("Tanh",), (2, 1, 2)),
    (("ReLU",), (4,)),
    (("ReLU",), (2, 2, 1)),
    (("Sigmoid",), (3,)),
    (("Sinusoidal",), (2, 2)),
    (("Softplus", 1.0, 20.0), (3,)),
    (("Softplus", 2.0, 0.5), (4,)),
    (("TruncExp",), (3,)),
    (("L2Norm",), (3,)),
    (("L2Norm", 0.5), (2, 2)),
    (("Flatten",), (2, 1, 2)),
    (("Reshape", 2, 2), (4,)),
    (("Reshape", 4), (2, 2)),
    (("Conv2d", 2, 2, (2, 2), (0, 0), (1, 1), True, True), (2, 2, 3)),
    (("Conv2d", 2, 1, (2, 3), (1, 0), (1, 1), False, False), (2, 3, 3)),
    (("Conv2d", 1, 2, (3, 2), (1, 1), (1, 2), True, False), (1, 3, 3)),
    (("Conv2d", 1, 3, (1, 1), (0, 0), (1, 1), True, True), (1, 2, 2)),
    (("Upsample", 2), (2, 1, 2)),
    (("Upsample", 3), (1, 2, 1)),
    (("MaxPool2d", 2, None, 0, 1, False), (2, 4, 2)),
    (("MaxPool2d", (2, 3), 1, (1, 0), 1, False), (1, 3, 4)),
    (("MaxPool2d", 3, 2, 1, 1, True), (2, 3, 4)),
    (("ReLU", True), (3,)),
]

# a few large ones, beyond the sizes of the boxes
BIG = [
    (("Linear", 24, 31, True), (24,)),
    (("Linear", 40, 8, False), (40,)),
    (("Tanh",), (50,)),
    (("ReLU",), (4, 5, 6)),
    (("Sigmoid",), (33,)),
    (("Softplus", 1.0, 20.0), (64,)),
    (("L2Norm",), (45,)),
    (("Flatten",), (3, 5, 4)),
    (("Reshape", 5, 3, 4), (60,)),
    (("Conv2d", 3, 4, (4, 3), (2, 1), (1, 1), True, True), (3, 6, 5)),
    (("Conv2d", 4, 5, (2, 2), (0, 1), (1, 1), True, False), (4, 5, 4)),
    (("Conv2d", 1, 2, (5, 5), (2, 2), (1, 1), False, True), (1, 7, 6)),
    (("Upsample", 5), (2, 2, 2)),
    (("Upsample", 2), (4, 3, 4)),
    (("MaxPool2d", 4, 2, 1, 1, False), (4, 7, 8)),
    (("MaxPool2d", 2, 2, 0, 1, False), (5, 6, 8)),
    (("MaxPool2d", 2, None, 0, 1, False), (7, 2, 4)),
    (("MaxPool2d", (1, 2), 1, 0, 1, False), (9, 1, 3)),
    (("Conv2d", 6, 7, (1, 2), (0, 0), (1, 1), True, True), (6, 1, 3)),
    (("Conv2d", 8, 2, (2, 2), (1, 1), (1, 1), False, False), (8, 2, 1)),
    (("Upsample", 2), (8, 1, 1)),
    (("Linear", 65, 2, True), (65,)),
    (("Linear", 130, 2, False), (130,)),
    (("Tanh",), (300,)),
    (("ReLU",), (3, 9, 11)),
    (("Conv2d", 1, 1, (2, 2), (0, 0), (1, 1), True, True), (1, 11, 12)),
    (("MaxPool2d", 2, None, 0, 1, False), (1, 12, 13)),
    (("Upsample", 3), (1, 4, 5)),
    (("L2Norm", 0.1), (5, 29)),
    (("Flatten",), (2, 9, 9)),
    (("Linear", 2, 33, True), (2,)),
    (("Seq", ("Linear", 12, 20, True), ("Tanh",), ("Linear", 20, 9, True), ("ReLU",), ("Linear", 9, 6, False)), (12,)),
    (("Seq", ("Skip", ("Linear", 10, 7, True), ("Tanh",)), ("Skip", ("Linear", 17, 3, True)), ("Linear", 20, 11, True)), (10,)),
    (
        (
            "Seq",
            ("Conv2d", 1, 3, (3, 3), (1, 1), (1, 1), True, True),
            ("Tanh",),
            ("MaxPool2d", 2, 2, 0, 1, False),
            ("Conv2d", 3, 2, (2, 2), (0, 0), (1, 1), True, True),
            ("Flatten",),
            ("Linear", 12, 4, True),
        ),
        (1, 6, 8),
    ),
]

# thousands of weights, hundreds of features, dozens of layers: anything done in blocks or by another route when it is large
HUGE = [
    (("Linear", 70, 70, True), (70,)),
    (("Linear", 40, 33, False), (40,)),
    (("Linear", 600, 3, True), (600,)),
    (("Linear", 3, 400, True), (3,)),
    (("Tanh",), (1100,)),
    (("Softplus", 1.0, 20.0), (520,)),
    (("ReLU",), (4, 12, 12)),
    (("L2Norm", 0.1), (520,)),
    (("Flatten",), (3, 14, 14)),
    (("Reshape", 20, 30), (600,)),
    (("Conv2d", 3, 8, (3, 3), (1, 1), (1, 1), True, True), (3, 8, 8)),
    (("Conv2d", 3, 8, (3, 3), (1, 1), (1, 1), True, False), (3, 8, 8)),
    (("Conv2d", 16, 17, (2, 2), (0, 0), (1, 1), True, True), (16, 3, 3)),
    (("Conv2d", 16, 17, (2, 2), (0, 0), (1, 1), False, False), (16, 3, 3)),
    (("Conv2d", 1, 2, (9, 9), (4, 4), (1, 1), True, True), (1, 16, 16)),
    (("MaxPool2d", 2, None, 0, 1, False), (4, 16, 16)),
    (("MaxPool2d", 3, 1, 1, 1, False), (3, 12, 12)),
    (("Upsample", 2), (4, 8, 8)),
    (("Upsample", 8), (1, 4, 4)),
    # sizes that are not multiples of any block
    (("Conv2d", 3, 5, (3, 2), (1, 0), (1, 1), True, True), (3, 9, 8)),
    (("Conv2d", 3, 5, (2, 3), (0, 1), (1, 1), True, False), (3, 10, 7)),
    (("Upsample", 3), (1, 7, 5)),
    (("Upsample", 3), (5, 3, 7)),
    (("MaxPool2d", 2, 1, 0, 1, False), (3, 12, 10)),
    (("Tanh",), (5, 7, 19)),
    (("Seq",) + (("Linear", 2, 2, True), ("Tanh",)) * 16, (2,)),
    (("Seq",) + (("Tanh",), ("Linear", 2, 2, False)) * 33, (2,)),
    (("Seq",) + (("Linear", 2, 2, True),) * 40, (2,)),
    (("Seq",) + (("Skip", ("Linear", 2, 2, True)), ("Linear", 4, 2, False)) * 8, (2,)),
    (("Seq", ("Linear", 30, 40, True), ("Tanh",), ("Linear", 40, 25, True), ("Sigmoid",), ("Linear", 25, 30, False)), (30,)),
    (("Skip", ("Linear", 150, 10, True), ("Tanh",), ("Linear", 10, 150, True)), (150,)),
    (
        (
            "Seq",
            ("Conv2d", 3, 6, (3, 3), (1, 1), (1, 1), True, True),
            ("ReLU",),
            ("MaxPool2d", 2, None, 0, 1, False),
            ("Conv2d", 6, 8, (3, 3), (1, 1), (1, 1), True, True),
            ("Tanh",),
            ("Upsample", 2),
            ("Flatten",),
            ("Linear", 512, 10, True),
        ),
        (3, 8, 8),
    ),
]

# networks: every container feature at least once
NETS = [
    (("Seq", ("Linear", 3, 2, True)), (3,)),
    (("Seq", ("Tanh",)), (3,)),
    (("Seq", ("Linear", 3, 4, True), ("Tanh",), ("Linear", 4, 2, True)), (3,)),
    (("Seq", ("Linear", 2, 3, False), ("ReLU",), ("Linear", 3, 3, True), ("Sigmoid",)), (2,)),
    (("Seq", ("Tanh",), ("Linear", 3, 2, True), ("L2Norm", 0.1), ("Linear", 2, 4, False)), (3,)),
    (("Seq", ("Sinusoidal",), ("Softplus", 2.0, 20.0), ("Sigmoid",)), (3,)),
    (("Seq", ("Seq", ("Linear", 3, 2, True), ("Tanh",)), ("Seq", ("Linear", 2, 2, True)), ("Linear", 2, 3, False)), (3,)),
    (("Seq", ("Skip", ("Linear", 2, 3, True), ("Tanh",)), ("Linear", 5, 2, True)), (2,)),
    (("Seq", ("Linear", 3, 2, True), ("Skip", ("Tanh",), ("Linear", 2, 2, True)), ("Tanh",)), (3,)),
    (("Skip", ("Linear", 3, 2, True)), (3,)),
    (("Skip", ("Tanh",)), (3,)),
    (("Skip", ("Linear", 2, 3, True), ("Skip", ("Tanh",), ("Linear", 3, 1, False)), ("Linear", 4, 2, True)), (2,)),
    (("Seq", ("Reshape", 2, 2), ("Tanh",), ("Flatten",), ("Linear", 4, 2, True)), (4,)),
    (("Seq", ("Linear", 2, 4, True), ("Reshape", 1, 2, 2), ("Sinusoidal",), ("Flatten",), ("Linear", 4, 1, True)), (2,)),
    (("Seq", ("Conv2d", 1, 2, (2, 2), (1, 0), (1, 1), True, True), ("Tanh",), ("Flatten",), ("Linear", 12, 2, True)), (1, 2, 3)),
    (("Seq", ("Conv2d", 2, 1, (2, 1), (0, 0), (1, 1), False, False), ("ReLU",), ("Upsample", 2)), (2, 3, 2)),
    (("Seq", ("Tanh",), ("MaxPool2d", 2, 1, 0, 1, False), ("Conv2d", 1, 2, (1, 2), (0, 1), (1, 1), True, True)), (1, 3, 3)),
    (("Seq", ("Skip", ("Conv2d", 2, 1, (3, 3), (1, 1), (1, 1), True, True), ("Tanh",)), ("Conv2d", 3, 1, (2, 2), (0, 0), (1, 1), True, True)), (2, 2, 3)),
    (("Seq", ("Upsample", 2), ("MaxPool2d", 2, None, 0, 1, False), ("Flatten",), ("Linear", 4, 3, True)), (1, 2, 2)),
    (("Seq", ("Linear", 2, 3, True), ("ReLU", True), ("Linear", 3, 2, True), ("ReLU", True)), (2,)),
    (("Seq", ("Tanh",), ("ReLU", True), ("Linear", 3, 2, True), ("ReLU", True)), (3,)),
]
DENSE_NETS = NETS[:14] + NETS[-2:]
IMAGE_NETS = NETS[14:-2]
NETS = NETS + [
    # an image skip connection that can be propagated forward
    (("Skip", ("Flatten",), ("Linear", 4, 4, True), ("Reshape", 1, 2, 2)), (1, 2, 2)),
    (("Seq", ("Skip", ("Flatten",), ("Linear", 4, 4, False), ("Tanh",), ("Reshape", 1, 2, 2)), ("Flatten",), ("Linear", 8, 2, True)), (1, 2, 2)),
    # nested chains and skips with several weights of their own
    (("Seq", ("Seq", ("Linear", 2, 3, True), ("Linear", 3, 3, True), ("Linear", 3, 2, False))), (2,)),
    (("Seq", ("Seq", ("Linear", 3, 2, True), ("Skip", ("Linear", 2, 2, False), ("Linear", 2, 1, True))), ("Seq", ("Tanh",), ("Seq", ("Linear", 3, 2, True), ("Linear", 2, 2, True)))), (3,)),
    (("Skip", ("Seq", ("Linear", 2, 2, True), ("Linear", 2, 2, True)), ("Linear", 2, 3, True)), (2,)),
    # the same layer several times, at other values and other shapes (one object when built "shared")
    (("Seq", ("Tanh",), ("Linear", 3, 3, True), ("Tanh",), ("Skip", ("Tanh",), ("Linear", 3, 1, False)), ("Tanh",), ("Linear", 4, 2, True)), (3,)),
    (("Seq", ("L2Norm", 0.5), ("Linear", 2, 3, True), ("Seq", ("Sigmoid",), ("L2Norm", 0.5)), ("Linear", 3, 2, False), ("Seq", ("Sigmoid",), ("L2Norm", 0.5))), (2,)),
    (("Seq", ("MaxPool2d", 2, 1, 0, 1, False), ("Conv2d", 1, 2, (2, 2), (1, 1), (1, 1), True, True), ("ReLU",), ("MaxPool2d", 2, 1, 0, 1, False), ("ReLU",), ("Flatten",), ("Linear", 12, 2, True)), (1, 3, 4)),
]



def small_nets(tier):
    """Containers over every combination of small sizes (one included), chains and skip connections of every length."""
    top = 3 if tier == "quick" else 4
    dims = range(1, top + 1)
    out = []
    for i in dims:
        for o in dims:
            for bias in (True, False):
                out.append((("Skip", ("Linear", i, o, bias)), (i,)))
            out.append((("Seq", ("Linear", i, o, True), ("Tanh",)), (i,)))
            out.append((("Seq", ("Skip", ("Linear", i, o, True)), ("Sinusoidal",)), (i,)))
            for m in dims:
                out.append((("Seq", ("Linear", i, m, True), ("Linear", m, o, False)), (i,)))
                out.append((("Skip", ("Linear", i, m, True), ("Tanh",), ("Linear", m, o, True)), (i,)))
                out.append((("Seq", ("Skip", ("Linear", i, m, True)), ("Linear", i + m, o, True)), (i,)))
                out.append((("Skip", ("Skip", ("Linear", i, m, False)), ("Linear", i + m, o, True)), (i,)))
    for i in dims:
        out.append((("Skip", ("Sigmoid",)), (i,)))
        out.append((("Seq", ("Skip", ("Tanh",)), ("Linear", 2 * i, 1, True)), (i,)))
        out.append((("Skip", ("L2Norm", 0.5), ("Linear", i, 1, False)), (i,)))
    # every number of layers in one container
    for n in range(1, 10 if tier == "quick" else 14):
        alt = tuple(("Tanh",) if k % 2 else ("Linear", 2, 2, True) for k in range(n))
        lin = tuple(("Linear", 2, 2, k % 2 == 0) for k in range(n))
        act = tuple((("Tanh",), ("Sinusoidal",), ("Sigmoid",))[k % 3] for k in range(n))
        for body in (alt, lin, act):
            out.append((("Seq",) + body, (2,)))
            out.append((("Skip",) + body, (2,)))
        out.append((("Seq", ("Skip",) + alt, ("Linear", 4, 2, True)), (2,)))
        if n <= 5:
            # wide: skip connections one after the other, and one inside the other
            out.append((("Seq",) + tuple(("Skip", ("Linear", 1 + k, 1, True)) for k in range(n)), (1,)))
            s = ("Linear", 2, 1, True)
            for k in range(n):
                s = ("Skip", s)
            out.append((s, (2,)))
            s = ("Linear", 2, 2, True)
            for k in range(n):
                s = ("Seq", s) if k % 2 else ("Seq", ("Tanh",), s)
            out.append((s, (2,)))
    # images, one pixel and one channel included
    for c in (1, 2):
        for h, w in ((1, 1), (1, 2), (2, 1), (2, 2)):
            for co in (1, 2):
                conv = ("Conv2d", c, co, (1, 1), (0, 0), (1, 1), True, co == 1)
                out.append((("Skip", conv), (c, h, w)))
                out.append((("Seq", conv, ("Tanh",)), (c, h, w)))
                out.append((("Seq", ("Skip", ("Conv2d", c, co, (3, 3), (1, 1), (1, 1), co == 2, True), ("ReLU",)), ("Flatten",), ("Linear", (c + co) * h * w, 1, True)), (c, h, w)))
            out.append((("Seq", ("Upsample", 2), ("MaxPool2d", 2, 1, 0, 1, False)), (c, h, w)))
            out.append((("Skip", ("Flatten",), ("Linear", c * h * w, c * h * w, True), ("Reshape", c, h, w)), (c, h, w)))
    return out


CUSTOM_LEAVES = [
    (("CScale", 3), (3,)),
    (("CSoftmax",), (3,)),
    (("CSoftmax",), (2, 2)),
    (("CBilinear", 2, 3), (2,)),
    (("CBilinear", 3, 1), (3,)),
    (("CSoftsign",), (3,)),
    (("CCube",), (4,)),
    (("CGain", 3), (3,)),
    (("CMean", 3), (3,)),
    (("CMix", 3, 2), (3,)),
    (("CGate",), (4,)),
    (("COffset", 3), (3,)),
]
# larger ones
CUSTOM_BIG = [
    (("CScale", 33), (33,)),
    (("CScale", 130), (130,)),
    (("CSoftmax",), (40,)),
    (("CSoftmax",), (3, 5, 4)),
    (("CBilinear", 9, 4), (9,)),
    (("CBilinear", 3, 20), (3,)),
    (("CSoftsign",), (70,)),
    (("CCube",), (65,)),
    (("CCube",), (300,)),
    (("CGain", 48), (48,)),
    (("CGain", 200), (200,)),
    (("CMean", 33), (33,)),
    (("CMix", 40, 3), (40,)),
    (("CMix", 3, 70), (3,)),
    (("CGate",), (66,)),
    (("COffset", 37), (37,)),
    (("Seq", ("Linear", 9, 12, True), ("CGain", 12), ("CMix", 12, 17), ("Tanh",), ("CScale", 17)), (9,)),
    (("Seq",) + (("CMix", 2, 3), ("CSoftsign",), ("CMix", 3, 2)) * 6, (2,)),
    (("Seq",) + (("CGain", 2), ("COffset", 2)) * 17, (2,)),
]
# layers whose own products hand back what they are given, in company
CUSTOM_NETS = [
    (("Seq", ("COffset", 2), ("COffset", 2)), (2,)),
    (("Seq", ("COffset", 3), ("Linear", 3, 2, True), ("COffset", 2)), (3,)),
    (("Seq", ("Linear", 2, 3, True), ("COffset", 3), ("Tanh",), ("COffset", 3), ("Linear", 3, 2, False)), (2,)),
    (("Seq", ("Skip", ("COffset", 2), ("COffset", 2)), ("COffset", 4)), (2,)),
    (("Skip", ("COffset", 3)), (3,)),
    (("Seq", ("Seq", ("COffset", 2)), ("Seq", ("COffset", 2), ("CMix", 2, 3))), (2,)),
]


# ---------------------------------------------------------------------------------------------------------------


def deviations(base, alts, k):
    """Every assignment that differs from base in at most k places."""
    names = [n for n in base if alts.get(n)]
    for r in range(k + 1):
        for chosen in itertools.combinations(names, r):
            for vals in itertools.product(*[alts[n] for n in chosen]):
                d = dict(base)
                d.update(zip(chosen, vals))
                yield d


# ---------------------------------------------------------------------------------------------------------------
# architectures: all sequences over an alphabet of layer templates, well typed by construction


def dense_templates(n):
    """Layers that can follow n features."""
    return [
        ("Linear", n, 2, True),
        ("Linear", n, 3, False),
        ("Tanh",),
        ("ReLU",),
        ("L2Norm", 0.5),
        ("Skip", ("Linear", n, 1, True)),
        ("Skip", ("Tanh",)),
        ("Seq", ("Linear", n, 2, True), ("Sinusoidal",)),
        ("Seq", ("Skip", ("Sigmoid",), ("Linear", n, 1, False))),
        ("Seq", ("Linear", n, 2, False), ("Linear", 2, 2, True)),
        ("Skip", ("Linear", n, 2, True), ("Linear", 2, 1, False)),
    ]


def image_templates(shape):
    c, h, w = shape
    out = [("Tanh",), ("ReLU",)]
    out.append(("Conv2d", c, 2, (3, 3), (1, 1), (1, 1), True, True))
    if h >= 2 and w >= 2:
        out.append(("Conv2d", c, 1, (2, 1), (0, 0), (1, 1), False, False))
        out.append(("MaxPool2d", 2, 1, 0, 1, False))
    if h * w <= 6:
        out.append(("Upsample", 2))
    if c <= 2:
        out.append(("Skip", ("Conv2d", c, 1, (1, 3), (0, 1), (1, 1), True, True)))
    out.append(("Flatten",))
    return out


def any_templates(shape):
    if len(shape) == 1:
        n = shape[0]
        out = list(dense_templates(n))
        if n == 4:
            out.append(("Reshape", 1, 2, 2))
        return out
    return image_templates(shape)


def sequences(shape, depth, templates=any_templates, limit=40):
    """All sequences of 1..depth layers that type check from the given sample shape (features bounded by limit)."""
    cache = {}

    def after(spec, sh):
        key = (spec, sh)
        if key not in cache:
            cache[key] = out_shape(spec, sh)
        return cache[key]

    def rec(sh, d):
        for t in templates(sh):
            o = after(t, sh)
            n = 1
            for s in o:
                n *= s
            if n > limit:
                continue
            yield (t,)
            if d > 1:
                for rest in rec(o, d - 1):
                    yield (t,) + rest

    yield from rec(tuple(shape), depth)
