"""Reference log-likelihoods: value, derivative and second derivative with respect to the output of the model."""
import itertools

import torch

from .product import DT, fresh, x_values
from .spec import Margin, evaluate, nnj, param_values
from .values import pattern

KINDS = ("LogGaussian", "LogBinaryBernoulli", "LogBernoulli")
AGG = ("return all", "sum", "average", None, "default")


def make(kind, agg, shape="diag", backprop="exact"):
    kw = {} if agg == "default" else {"aggregate_batch": agg}
    return getattr(nnj, kind)(**kw, metric_shape=shape, metric_backprop=backprop)


def targets(kind, y):
    """Named targets for an output y (double)."""
    out = {}
    if kind == "LogGaussian":
        out["generic"] = pattern(tuple(y.shape), salt=61)
        out["zero"] = torch.zeros_like(y)
        out["exact"] = y.clone()
        out["very far"] = 1e6 * pattern(tuple(y.shape), salt=65)
        out["far"] = 100.0 * pattern(tuple(y.shape), salt=62)
    elif kind == "LogBinaryBernoulli":
        n = y[0].numel()
        flat = torch.arange(y.numel()).reshape(y.shape)
        out["zeros"] = torch.zeros_like(y)
        out["ones"] = torch.ones_like(y)
        out["alternating"] = (flat % 2).double()
        out["other"] = ((flat // 2 + flat) % 2).double()
        out["soft"] = pattern(tuple(y.shape), salt=63, lo=0.05, hi=0.95)
    else:
        c = y.shape[-1]
        lead = torch.arange(y.numel() // c).reshape(y.shape[:-1])
        for k in range(min(c, 4)):
            t = torch.zeros_like(y)
            t[..., k] = 1.0
            out[f"class{k}"] = t
        t = torch.zeros_like(y)
        t.scatter_(-1, (lead % c).unsqueeze(-1), 1.0)
        out["mixed"] = t
        s = pattern(tuple(y.shape), salt=64, lo=0.1, hi=1.0)
        out["soft"] = s / s.sum(-1, keepdim=True)
    return out


def value(kind, y, t):
    b = y.shape[0]
    if kind == "LogGaussian":
        v = -0.5 * (y - t) ** 2
    elif kind == "LogBinaryBernoulli":
        # log sigmoid(y) = -log(1+exp(-y)), written without overflow
        lse = torch.clamp(y, min=0) + torch.log1p(torch.exp(-y.abs()))
        v = t * y - lse
    else:
        mx = y.max(dim=-1, keepdim=True)[0]
        lse = mx + torch.log(torch.exp(y - mx).sum(-1, keepdim=True))
        v = t * (y - lse)
    return v.reshape(b, -1).sum(1)


def probs(kind, y):
    if kind == "LogBinaryBernoulli":
        e = torch.exp(-y.abs())
        return torch.where(y >= 0, 1 / (1 + e), e / (1 + e))
    mx = y.max(dim=-1, keepdim=True)[0]
    e = torch.exp(y - mx)
    return e / e.sum(-1, keepdim=True)


def slope(kind, y, t):
    b = y.shape[0]
    if kind == "LogGaussian":
        return (t - y).reshape(b, -1)
    p = probs(kind, y)
    if kind == "LogBinaryBernoulli":
        return (t - p).reshape(b, -1)
    return (t - p * t.sum(-1, keepdim=True)).reshape(b, -1)


def curvature(kind, y):
    """Hessian of the log-likelihood with respect to the flattened output (for targets of total mass one)."""
    b = y.shape[0]
    n = y[0].numel()
    if kind == "LogGaussian":
        return -torch.eye(n, dtype=torch.float64)[None].repeat(b, 1, 1)
    p = probs(kind, y)
    if kind == "LogBinaryBernoulli":
        e = torch.exp(-y.abs())
        return torch.diag_embed((-e / (1 + e) ** 2).reshape(b, -1))
    c = y.shape[-1]
    q = p.reshape(b, n // c, c)
    H = torch.zeros(b, n // c, c, n // c, c, dtype=torch.float64)
    for k in range(n // c):
        H[:, k, :, k, :] = q[:, k, :, None] * q[:, k, None, :] - torch.diag_embed(q[:, k])
    return H.reshape(b, n, n)


def aggregate(agg, v):
    if isinstance(v, list):
        return [aggregate(agg, i) for i in v]
    if agg == "sum":
        return v.sum(0)
    if agg == "average":
        return v.mean(0)
    return v


# many outputs, classes or variables
WIDE = [
    (("Seq", ("Linear", 2, 33, True)), (2,)),
    (("Seq", ("Linear", 3, 64, False), ("Tanh",)), (3,)),
    (("Seq", ("Linear", 2, 100, True)), (2,)),
    (("Seq", ("Linear", 2, 60, True), ("Reshape", 20, 3)), (2,)),
    (("Seq", ("Linear", 2, 60, True), ("Reshape", 3, 20)), (2,)),
    (("Seq", ("Linear", 2, 130, False)), (2,)),
    (("Seq", ("Linear", 2, 17, True), ("Reshape", 17, 1)), (2,)),
    (("Seq", ("Linear", 40, 5, True), ("Tanh",), ("Linear", 5, 10, True)), (40,)),
]
NETS_ = [
    (("Seq", ("Linear", 3, 4, True), ("Tanh",), ("Linear", 4, 3, True)), (3,)),
    (("Linear", 2, 3, True), (2,)),
    (("Seq", ("Linear", 2, 3, True), ("Softplus", 1.0, 20.0), ("Linear", 3, 1, True)), (2,)),
    (("Seq", ("Linear", 3, 2, False), ("Skip", ("Tanh",), ("Linear", 2, 2, True)), ("Tanh",)), (3,)),
    (("Seq", ("Linear", 2, 6, True), ("Reshape", 2, 3)), (2,)),
    (("Seq", ("Linear", 2, 6, True), ("Reshape", 3, 2), ("Tanh",)), (2,)),
    (("Seq", ("Linear", 2, 8, True), ("Reshape", 2, 2, 2)), (2,)),
    (("Seq", ("Linear", 2, 6, True), ("Reshape", 1, 3, 2)), (2,)),
    (("Seq", ("Linear", 2, 5, True), ("Reshape", 5, 1)), (2,)),
    (("Seq", ("Conv2d", 1, 2, (2, 2), (0, 0), (1, 1), True, True), ("Tanh",)), (1, 3, 4)),
    (("Seq", ("Conv2d", 1, 1, (2, 2), (0, 0), (1, 1), True, True), ("Flatten",), ("Linear", 4, 3, True)), (1, 3, 3)),
    (("Seq", ("Seq", ("Linear", 2, 2, True), ("Tanh",)), ("Seq", ("Linear", 2, 3, False))), (2,)),
    (("Skip", ("Linear", 2, 2, True)), (2,)),
    (("Seq", ("Linear", 2, 1, True)), (2,)),
    (("Seq", ("Linear", 2, 12, True), ("Reshape", 3, 4)), (2,)),
    (("Seq", ("Linear", 2, 4, True), ("Reshape", 2, 2)), (2,)),
    (("Seq", ("Linear", 2, 9, False), ("Reshape", 3, 3)), (2,)),
    (("Seq", ("Linear", 3, 4, True), ("Reshape", 1, 4)), (3,)),
    (("Seq", ("Linear", 2, 8, True), ("Reshape", 2, 1, 4), ("Tanh",)), (2,)),
    (("Seq", ("Linear", 2, 3, True), ("Linear", 3, 3, True), ("Linear", 3, 2, True)), (2,)),
    (("Tanh",), (3,)),
]
