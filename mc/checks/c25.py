import gc
import weakref

import torch

from ..lik import KINDS, NETS_, make, targets
from ..ops import APPROX, as_argument, calls, invoke, supported, tangent
from ..product import DT, fresh, reference, x_values
from ..runner import Outcome
from ..spaces import *
from ..spec import nnj, param_values
from ..universe import sequences
from ..values import relayout

ID, LEVEL = "C25", "model_checking"
RULE = (
    "every layer configuration of the boxes, every chain of up to 2 (quick) or 3 (thorough) layers, every network of the list and "
    "the likelihoods x every subset of {input, output, tangent} that requires grad (as leaf or as the result of a "
    "differentiable computation) x every product and mode with and without matrix: the tensors returned have no autograd history, "
    "no grad is accumulated anywhere, and after a forward pass whose output is dropped no node of the graph stays reachable "
    "from the model, also after further products. One case is one state; transitions are calls"
)
MODES_ = MODES + (APPROX,)
ALL = ("jmp", "mjp", "jmjTp", "jTmjp")


class Marker:
    pass


class Probe(torch.autograd.Function):
    """The identity; a marker lives as long as its node of the graph does."""

    @staticmethod
    def forward(ctx, x, box):
        ctx.marker = Marker()
        box.append(weakref.ref(ctx.marker))
        return x.view_as(x)

    @staticmethod
    def backward(ctx, g):
        return g, None


def cases(tier):
    q = tier == "quick"
    full = [(a, b, c) for a in ("plain", "leaf", "graph") for b in ("none", "graph") for c in ("plain", "leaf", "graph")]
    some = [("graph", "none", "plain"), ("graph", "graph", "graph"), ("plain", "none", "leaf")]
    for spec, shape in CORE + NETS:
        for s in full:
            yield ["call", spec, shape, list(s), 2]
        yield ["keep", spec, shape]
        yield ["call", spec, shape, ["leaf", "none", "leaf"], 1]
    for spec, shape in leaves(tier):
        for s in some if not q else some[:2]:
            yield ["call", spec, shape, list(s), 2]
        yield ["keep", spec, shape]
    for spec, shape in HUGE[1:]:
        yield ["call", spec, shape, ["graph", "graph", "graph"], 2]
    for spec, shape in CORE:
        for b in (17, 65, 257):
            yield ["call", spec, shape, ["graph", "graph", "graph"], b]
    for start in ((2,), (1, 2, 3)):
        for seq in sequences(start, 2 if q else 3):
            for s in some[:2]:
                yield ["call", ("Seq",) + seq, start, list(s), 2]
            yield ["keep", ("Seq",) + seq, start]
    for spec, shape in NETS_:
        for kind in KINDS:
            for s in ("plain", "leaf", "graph"):
                yield ["lik", spec, shape, kind, s]


def give(t, how):
    if isinstance(t, list):
        return [give(i, how) for i in t]
    if t is None or how == "plain":
        return t
    t = t.detach().clone().requires_grad_(True)
    return t if how == "leaf" else t * 1.0


def flat(o):
    if isinstance(o, torch.Tensor):
        return [o]
    return [t for i in o for t in flat(i)] if isinstance(o, (list, tuple)) else []


def graph_of(r, args):
    """A message when a result has history that its own arguments did not already have."""
    own = {t.untyped_storage().data_ptr() for t in flat(args)}
    for t in flat(r):
        if t.untyped_storage().data_ptr() in own and t.numel():
            continue  # an argument, or a part of it, handed back
        if t.grad_fn is not None:
            return "the result has an autograd history"
        if t.requires_grad:
            return "the result requires grad"
    return None


def run(case):
    spec, shape = tup(case[1]), tup(case[2])
    if case[0] == "keep":
        return keep(spec, shape)
    if case[0] == "lik":
        return lik(spec, shape, case[3], case[4])
    (xs, vs, ts), b = case[3], case[4]
    x, params, node, margin = reference(spec, shape, b, "generic", "generic", "f64", False)
    m = fresh(spec)
    xin = give(x, xs)
    n = 0
    with torch.enable_grad():
        for none in (False, True):
            for c in calls(OPS if not none else ALL, ("input", "weight"), MODES_, ("none",) if none else ("generic",), (2,), not none):
                if not supported(spec, c):
                    continue
                arg = give(as_argument(node, c, tangent(node, c)), ts)
                val = m(xin) if vs == "graph" else None
                r = invoke(m, c, xin, val, arg)
                n += 1
                bad = graph_of(r, [xin, val, arg])
                if bad:
                    return Outcome(f"{c!r}, input {xs}, output {vs}, tangent {ts}: {bad}", transitions=n)
        if node.n:
            n += 1
            bad = graph_of(m.get_weight(), [])
            if bad:
                return Outcome(f"get_weight: {bad}", transitions=n)
    for p in m.parameters():
        if p.grad is not None:
            return Outcome("a gradient was accumulated in the parameters", transitions=n)
        if not p.requires_grad or p.grad_fn is not None:
            return Outcome("a parameter is no leaf that requires grad any more", transitions=n)
    if xs == "leaf" and xin.grad is not None:
        return Outcome("a gradient was accumulated in the input", transitions=n)
    return Outcome(None, transitions=n, validated=n)


def keep(spec, shape):
    x, params, node, margin = reference(spec, shape, 2, "generic", "generic", "f64", False)
    m = fresh(spec)
    n = 0
    for products in (False, True):
        box = []
        with torch.enable_grad():
            h = Probe.apply(x.clone().requires_grad_(True), box)
            y = m(h)
            n += 1
            if y.requires_grad is False:
                return Outcome("the output of the forward pass has no autograd history", transitions=n)
            if products:
                for c in calls(OPS, ("input", "weight"), MODES_, ("generic",), (2,)):
                    if supported(spec, c):
                        invoke(m, c, h, y, as_argument(node, c, tangent(node, c)))
                        n += 1
        if box[0]() is None:
            raise AssertionError("the probe does not work")
        del h, y
        gc.collect()
        if box[0]() is not None:
            return Outcome(f"after the output is dropped{' and products were computed' if products else ''}, the model keeps the graph alive", transitions=n)
    return Outcome(None, transitions=n, validated=n)


def lik(spec, shape, kind, how):
    x, params, node, margin = reference(spec, shape, 2, "generic", "generic", "f64", False)
    m = fresh(spec)
    xin = give(x, how)
    t = give(next(iter(targets(kind, node.y).values())), how)
    n = 0
    with torch.enable_grad():
        for agg in ("return all", "sum", "average"):
            for shp, bp in (("diag", "exact"), ("full", "exact"), ("diag", "approx")):
                l = make(kind, agg, shp, bp)
                for wrt in ("input", "weight") if node.n else ("input",):
                    for what, f in (("value", lambda: l(xin, m, t)), ("gradient", lambda: l.gradient(xin, m, t, wrt=wrt)), ("GGN", lambda: l.ggn(xin, m, t, wrt=wrt))):
                        n += 1
                        bad = graph_of(f(), [xin, t])
                        if bad:
                            return Outcome(f"{kind} {agg} {shp} {bp} {what} wrt {wrt}: {bad}", transitions=n)
    if any(p.grad is not None for p in m.parameters()):
        return Outcome("a gradient was accumulated in the parameters", transitions=n)
    return Outcome(None, transitions=n, validated=n)
