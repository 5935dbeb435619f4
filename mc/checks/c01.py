import itertools

import torch

from ..ops import Call, differ, invoke
from ..product import DT, fresh, reference
from ..spaces import *
from ..spec import evaluate, is_container, param_values
from ..universe import ELEM, HUGE

ID, LEVEL = "C01", "model_checking"
RULE = (
    "every layer configuration of the boxes (Linear widths, convolution kernel x padding x dilation x channels x image, pooling "
    "kernel x stride x padding x dilation x rounding, upsampling, activations, reshapings) x input classes (incl. ties and zeros) "
    "x batch; a core of each kind x all call circumstances within k deviations (2 quick, 3 thorough); all half precision numbers "
    "through every activation; all tie patterns through small pooling windows and kinked layers. One case is one state; its "
    "transitions are the Jacobians with respect to input and weight"
)
OPS_ = ("jacobian",)
DIAGONAL = ("Tanh", "ReLU", "Sigmoid", "Sinusoidal", "Softplus", "TruncExp", "Reshape", "Flatten")
TIES = [
    (("MaxPool2d", 2, 1, 0, 1, False), (1, 2, 3), (0.0, 1.0, 2.0)),
    (("MaxPool2d", 2, 1, 0, 1, False), (1, 3, 2), (0.0, 1.0, 2.0)),
    (("MaxPool2d", 2, None, 0, 1, False), (1, 2, 2), (-1.0, 0.0, 1.0, 2.0)),
    (("MaxPool2d", 3, 1, 1, 1, False), (1, 2, 3), (-1.0, 0.0, 1.0)),
    (("MaxPool2d", 3, 2, 1, 1, True), (1, 3, 3), (0.0, 1.0)),
    (("MaxPool2d", 2, 1, 0, 2, False), (1, 3, 3), (0.0, 1.0)),
    (("MaxPool2d", 2, 1, 0, 1, False), (2, 2, 2), (0.0, 1.0)),
    (("ReLU",), (3,), (-1.0, -0.0, 0.0, 1e-30, 2.0)),
    (("Softplus", 1.0, 1.0), (3,), (-1.0, 0.0, 1.0, 1.0000001, 2.0)),
    (("L2Norm",), (3,), (-1.0, 0.0, 1.0, 1e-8)),
    (("L2Norm", 0.25), (2,), (-2.0, 0.0, 1e-3, 1.0)),
    (("Tanh",), (3,), (-1.0, 0.0, 30.0)),
    (("Linear", 3, 2, True), (3,), (-1.0, 0.0, 2.0)),
    (("Conv2d", 1, 2, (2, 2), (0, 0), (1, 1), True, True), (1, 2, 2), (-1.0, 0.0, 2.0)),
]


def space(tier):
    ks = list(leaves(tier)) + BIG
    yield from every_leaf(tier, ks, ("generic", "ties", "zero", "wide", "mixed", "huge"))
    yield from batch_sweep(CORE)
    yield from huge_sweep([i for i in HUGE if not is_container(i[0])])
    yield from circumstances(CORE, 2 if tier == "quick" else 3, drop=("tan", "ncol", "tlay"))
    for spec in ELEM:
        for dt in ("f64", "f32"):
            yield ["half", spec, [8], {"dtype": dt}]
    for spec, shape in ks:
        if spec[0] in DIAGONAL:
            for dt in ("f64", "f32"):
                for b in (1, 3):
                    yield ["diag", spec, shape, {"dtype": dt, "batch": b}]
    for spec, shape, alphabet in TIES:
        for dt in ("f64", "f32"):
            yield ["ties", spec, shape, {"dtype": dt}, list(alphabet)]


def cases(tier):
    return space(tier)


def all_half(n):
    bits = torch.arange(0, 1 << 16, dtype=torch.int32).to(torch.int16)
    v = bits.view(torch.float16)
    v = v[torch.isfinite(v)]
    return v.double().reshape(-1, n)


def exact_inputs(spec, x, dt):
    """The Jacobians at explicit inputs, in blocks of 512 samples."""
    dtype = DT[dt]
    m = fresh(spec, "generic", dt)
    params = param_values(spec, "generic", dtype)
    n = 0
    for i in range(0, x.shape[0], 512):
        xb = x[i : i + 512].to(dtype)
        node = evaluate(spec, params, xb.double())
        if spec[0] in DIAGONAL:
            for given in (False, True):
                d = diagonal(m, xb, m(xb).detach() if given else None, node, dtype)
                n += 1
                if d:
                    return Outcome(d, states=x.shape[0], transitions=n)
        for wrt in ("input", "weight"):
            for given in (False, True):
                val = m(xb).detach() if given else None
                got = invoke(m, Call("jacobian", wrt), xb, val, None)
                ref = node.jx if wrt == "input" else node.jw
                n += 1
                if ref is not None and got is not None and got.shape == ref.shape:
                    # sample by sample, so that a large sample does not hide a small one
                    scale = ref.abs().amax(dim=(1, 2)).clamp(min=1.0)
                    bad = (got.double() - ref).abs().amax(dim=(1, 2)) > (1e-9 if dt == "f64" else 3e-6) * scale
                    bad |= ~torch.isfinite(got).all(dim=2).all(dim=1)
                    if bool(bad.any()):
                        k = int(bad.nonzero()[0])
                        return Outcome(
                            f"jacobian wrt {wrt} at x={xb[k].reshape(-1).tolist()} is {got[k].reshape(-1).tolist()[:9]}, "
                            f"should be {ref[k].reshape(-1).tolist()[:9]}",
                            states=x.shape[0],
                            transitions=n,
                        )
                d = differ(got, ref, dtype)
                if d:
                    return Outcome(f"jacobian wrt {wrt}: {d}", states=x.shape[0], transitions=n)
    return Outcome(None, states=x.shape[0], transitions=n, validated=n)


def diagonal(m, x, val, node, dtype):
    """Layers with a diagonal Jacobian hand out just the diagonal on request."""
    got = m.jacobian(x, val, wrt="input", diag=True)
    d = differ(got, torch.diagonal(node.jx, dim1=1, dim2=2).contiguous(), dtype)
    if d:
        return f"diagonal of the jacobian: {d}"
    return None if m.jacobian(x, val, wrt="weight", diag=True) is None else "a jacobian with respect to weight, without weights"


def run(case):
    if case[0] == "diag":
        spec, c = tup(case[1]), case[3]
        x, params, node, margin = reference(spec, tup(case[2]), c["batch"], "generic", "generic", c["dtype"], False)
        m = fresh(spec, "generic", c["dtype"])
        for given in (False, True):
            d = diagonal(m, x, m(x).detach() if given else None, node, x.dtype)
            if d:
                return Outcome(d, transitions=2)
        return Outcome(None, transitions=4, validated=4)
    if case[0] == "half":
        return exact_inputs(tup(case[1]), all_half(case[2][0]), case[3]["dtype"])
    if case[0] == "ties":
        spec, shape = tup(case[1]), tup(case[2])
        n = 1
        for s in shape:
            n *= s
        x = torch.tensor(list(itertools.product(case[4], repeat=n)), dtype=torch.float64).reshape((-1,) + shape)
        return exact_inputs(spec, x, case[3]["dtype"])
    return run_products(case, OPS_)
