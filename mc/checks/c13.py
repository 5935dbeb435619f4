import collections

import torch
import torch.nn as nn

from ..ops import differ
from ..product import DT, default_dtype, fresh, on_kink, reference
from ..spaces import *
from ..spec import Margin, children, evaluate, forward, is_container, nnj, param_values, tup
from ..universe import BIG, sequences
from ..values import pattern, relayout
from .c01 import TIES, all_half
from ..universe import ELEM

ID, LEVEL = "C13", "model_checking"
RULE = (
    "every layer configuration of the boxes and every chain of up to 3 (quick) or 4 (thorough) layers, listed networks in all "
    "circumstances within 2 deviations: the output, and the gradients autograd takes through it with respect to input and every "
    "parameter, against the reference; the same network assembled from torch.nn exchanges its state dict with it and gives the "
    "same outputs, also for configurations without Jacobian products (padding modes, groups, interpolation modes). Also gradients of "
    "gradients, gradients accumulated over a kept graph and calls with other weights put in for the call. One case is one "
    "state; transitions are forward and backward passes"
)


def cases(tier):
    q = tier == "quick"
    yield from every_leaf(tier, xs=("generic", "ties", "wide", "huge"), batches=(1, 3))
    yield from batch_sweep(CORE + NETS)
    yield from big_sweep()
    yield from huge_sweep()
    for start in ((2,), (4,), (1, 2, 3)):
        for seq in sequences(start, 3 if q else 4):
            yield ["call", ("Seq",) + seq, start, {}]
    yield from circumstances(CORE + NETS, 2, drop=("tan", "ncol", "tlay", "val", "style"))
    for spec, shape in CORE + NETS + BIG:
        for mode in ("train", "eval"):
            for b in (1, 3):
                yield ["second", spec, shape, {"mode": mode, "batch": b}]
    for spec, shape in leaves(tier)[:: 1 if not q else 3]:
        yield ["second", spec, shape, {}]
    for start in ((2,), (1, 2, 3)):
        for seq in sequences(start, 2 if q else 3):
            yield ["second", ("Seq",) + seq, start, {}]
    for spec in ELEM:
        for dt in ("f64", "f32"):
            yield ["half", spec, [8], {"dtype": dt}]
    for i in range(len(twins())):
        for dt in ("f64", "f32"):
            for b in (1, 3):
                yield ["twin", i, dt, b]


def twin(spec):
    """The torch.nn module with the same meaning."""
    k = spec[0]
    if k == "Seq":
        t = [twin(c) for c in children(spec)]
        return None if any(i is None for i in t) else nn.Sequential(*t)
    if k == "Linear":
        return nn.Linear(spec[1], spec[2], bias=spec[3])
    if k == "Conv2d":
        return nn.Conv2d(spec[1], spec[2], spec[3], padding=spec[4], dilation=spec[5], bias=spec[6])
    if k == "Softplus":
        return nn.Softplus(*spec[1:])
    if k == "MaxPool2d":
        return nn.MaxPool2d(spec[1], spec[2], spec[3], spec[4], ceil_mode=spec[5])
    if k == "Upsample":
        return nn.Upsample(scale_factor=spec[1])
    if k in ("Tanh", "ReLU", "Sigmoid", "Flatten"):
        return getattr(nn, k)()
    return None


def twins():
    """Pairs (library, torch.nn) of configurations beyond those with Jacobian products."""
    out = []
    for mode in ("zeros", "reflect", "replicate", "circular"):
        for pad in (1, (1, 0), (0, 1)):
            out.append((lambda mode=mode, pad=pad: nnj.Conv2d(2, 3, 2, padding=pad, padding_mode=mode), lambda mode=mode, pad=pad: nn.Conv2d(2, 3, 2, padding=pad, padding_mode=mode), (2, 3, 4)))
    for g in (1, 2):
        out.append((lambda g=g: nnj.Conv2d(2, 4, (2, 1), groups=g), lambda g=g: nn.Conv2d(2, 4, (2, 1), groups=g), (2, 3, 4)))
    out.append((lambda: nnj.Conv2d(1, 2, 1, padding=2, bias=False), lambda: nn.Conv2d(1, 2, 1, padding=2, bias=False), (1, 3, 2)))
    for kw in (
        dict(scale_factor=2, mode="bilinear"),
        dict(scale_factor=2, mode="bilinear", align_corners=True),
        dict(scale_factor=1.5, mode="nearest"),
        dict(size=(5, 3)),
        dict(size=(4, 6), mode="bicubic"),
        dict(scale_factor=(2, 3)),
        dict(scale_factor=2, mode="nearest-exact"),
        dict(scale_factor=3.0),
    ):
        out.append((lambda kw=kw: nnj.Upsample(**kw), lambda kw=kw: nn.Upsample(**kw), (2, 2, 3)))
    for kw in (dict(), dict(beta=2), dict(beta=0.3, threshold=1.0), dict(threshold=-1.0)):
        out.append((lambda kw=kw: nnj.Softplus(**kw), lambda kw=kw: nn.Softplus(**kw), (4,)))
    for a, kw in (((2,), {}), ((3, 1, 1), {}), ((2,), dict(stride=1, ceil_mode=True)), (((2, 1),), dict(dilation=(1, 2)))):
        out.append((lambda a=a, kw=kw: nnj.MaxPool2d(*a, **kw), lambda a=a, kw=kw: nn.MaxPool2d(*a, **kw), (2, 4, 5)))
    out.append((lambda: nnj.ReLU(inplace=True), lambda: nn.ReLU(), (3, 2)))
    out.append((lambda: nnj.Linear(3, 2), lambda: nn.Linear(3, 2), (3,)))
    out.append(
        (
            lambda: nnj.Sequential(collections.OrderedDict(a=nnj.Linear(3, 2), b=nnj.Tanh(), c=nnj.Sequential(nnj.Linear(2, 2)))),
            lambda: nn.Sequential(collections.OrderedDict(a=nn.Linear(3, 2), b=nn.Tanh(), c=nn.Sequential(nn.Linear(2, 2)))),
            (3,),
        )
    )
    return out


def exchange(m, t, x, dtype):
    """state dicts fit both ways, outputs agree; returns a message or None"""
    n = 0
    if list(m.state_dict()) != list(t.state_dict()):
        return f"state dict entries {list(m.state_dict())} instead of {list(t.state_dict())}"
    t.load_state_dict(m.state_dict())
    with torch.no_grad():
        for i, p in enumerate(t.parameters()):
            p.copy_(pattern(tuple(p.shape), salt=900 + i))
    m.load_state_dict(t.state_dict())
    d = differ(m(x), t(x).detach().double(), dtype)
    return d


def second(spec, shape, c):
    """Gradients of gradients, gradients taken again from a kept graph, accumulated gradients, and gradients through the
    same model called with other weights put in for the call, against autograd on the reference."""
    x, params, node, margin = reference(spec, shape, c["batch"], c["xcls"], c["wcls"], c["dtype"], False)
    if on_kink(spec, margin, c["dtype"]) or margin == 0.0 or (spec[0] == "L2Norm" and margin < 1e-12):
        return Outcome(None, transitions=1, skipped=1)
    dtype = DT[c["dtype"]]
    m = fresh(spec, c["wcls"], c["dtype"], c["frozen"], c["mode"], c["ctor"])
    ps = list(m.parameters())

    def orders(f, leaves_, v, e):
        """first gradient of <v, f>, then the gradient of <e, first>"""
        y = f()
        g = torch.autograd.grad(y, leaves_, grad_outputs=v, create_graph=True, allow_unused=True)
        g = [torch.zeros_like(l) if k is None else k for k, l in zip(g, leaves_)]
        s = sum((a * b).sum() for a, b in zip(g, e))
        h = torch.autograd.grad(s, leaves_, allow_unused=True) if s.requires_grad else [None] * len(leaves_)
        return [k.detach().clone() for k in g], [torch.zeros_like(l) if k is None else k for k, l in zip(h, leaves_)]

    v = pattern(tuple(node.y.shape), salt=21)
    e = [pattern(tuple(l.shape), salt=22 + i) for i, l in enumerate([x] + ps)]
    xr = x.double().clone().requires_grad_(True)
    pr = [p.clone().requires_grad_(True) for p in params]
    r1, r2 = orders(lambda: forward(spec, pr, xr), [xr] + pr, v, e)
    xg = x.clone().requires_grad_(True)
    g1, g2 = orders(lambda: m(xg), [xg] + ps, v.to(dtype), [k.to(dtype) for k in e])
    scale = max([float(k.abs().max()) for k in r1 + r2 if k.numel()] + [0.0])
    for what, got, ref in (("gradient", g1, r1), ("gradient of the gradient", g2, r2)):
        for i, (a, b) in enumerate(zip(got, ref)):
            bad = differ(a, b, dtype, floor=0.05 * scale)
            if bad:
                return Outcome(f"{what} with respect to {'the input' if i == 0 else f'parameter {i - 1}'}: {bad}", transitions=2)
    # kept graph, accumulated gradients
    y = m(xg)
    for _ in range(2):
        y.backward(v.to(dtype).clone(), retain_graph=True)
    for i, (l, ref) in enumerate(zip([xg] + ps, r1)):
        got = torch.zeros_like(l) if l.grad is None else l.grad
        bad = differ(got, 2 * ref, dtype, floor=0.05 * scale)
        if bad:
            return Outcome(f"gradients accumulated over two backward passes, {'input' if i == 0 else f'parameter {i - 1}'}: {bad}", transitions=4)
    # other weights for one call
    names = [k for k, _ in m.named_parameters()]
    other = [p.to(dtype).requires_grad_(True) for p in param_values(spec, "other", dtype)]
    y = torch.func.functional_call(m, dict(zip(names, other)), (xg,))
    oo = [p.detach().double().requires_grad_(True) for p in other]
    node2 = evaluate(spec, [p.detach() for p in oo], x.double(), mg := Margin())
    if not on_kink(spec, mg.value, c["dtype"]):
        bad = differ(y, node2.y, dtype)
        if bad:
            return Outcome(f"output with other weights put in for the call: {bad}", transitions=5)
        if other:
            got = torch.autograd.grad(y, other, grad_outputs=v.to(dtype), allow_unused=True)
            ref = torch.autograd.grad(forward(spec, oo, x.double()), oo, grad_outputs=v, allow_unused=True)
            for i, (a, b) in enumerate(zip(got, ref)):
                bad = differ(a, b, dtype, floor=0.05 * scale)
                if bad:
                    return Outcome(f"gradient with other weights put in for the call, parameter {i}: {bad}", transitions=6)
    with torch.no_grad():
        bad = differ(m(x), node.y, dtype)
    return Outcome(bad, transitions=7, validated=7)


def run(case):
    if case[0] == "second":
        return second(tup(case[1]), tup(case[2]), config(case[3]))
    if case[0] == "twin":
        dtype = DT[case[2]]
        lib, ref, shape = twins()[case[1]]
        m, t = lib().to(dtype), ref().to(dtype)
        x = pattern((case[3],) + shape, salt=4).to(dtype)
        keep = x.clone()
        d = exchange(m, t, x, dtype)
        if d is None and not torch.equal(keep, x):
            d = "the input was modified"
        return Outcome(None if d is None else f"{m}: {d}", transitions=2, validated=2)
    what, spec, shape, d = case
    spec, shape = tup(spec), tup(shape)
    c = config(d)
    c.pop("tan", None), c.pop("ncol", None)
    dtype = DT[c["dtype"]]
    if what == "half":
        x = all_half(shape[0]).to(dtype)
        m = fresh(spec, dt=c["dtype"])
        node_y, deriv = __import__("mc.spec", fromlist=["elementwise"]).elementwise(spec, x.double())
        xg = x.clone().requires_grad_(True)
        y = m(xg)
        (g,) = torch.autograd.grad(y.sum(), xg)
        fin = node_y.abs() < (1e300 if c["dtype"] == "f64" else 1e37)
        tol = 1e-12 if c["dtype"] == "f64" else 2e-6
        e1 = (y.detach().double() - node_y).abs()[fin] > tol * (1 + node_y.abs()[fin])
        e2 = (g.double() - deriv).abs() > tol * (1 + deriv.abs())
        if spec[0] == "Softplus" or spec[0] == "ReLU":
            pass
        if bool(e1.any()):
            return Outcome(f"output wrong for {int(e1.sum())} half precision numbers", states=x.numel(), transitions=2)
        if bool(e2.any()):
            return Outcome(f"autograd derivative wrong for {int(e2.sum())} half precision numbers, e.g. {float(x[e2][0])}", states=x.numel(), transitions=2)
        return Outcome(None, states=x.numel(), transitions=2, validated=2)
    x, params, node, margin = reference(spec, shape, c["batch"], c["xcls"], c["wcls"], c["dtype"], c["xlay"] == "expanded")
    m = fresh(spec, c["wcls"], c["dtype"], c["frozen"], c["mode"], c["ctor"])
    n = 0
    xin = relayout(x, c["xlay"])
    with {"on": torch.enable_grad, "off": torch.no_grad, "inference": torch.inference_mode}[c["grad"]](), default_dtype(c["defdt"]):
        y = m(xin)
    n += 1
    if c["grad"] == "inference":
        y = y.clone()
    bad = differ(y, node.y, dtype)
    if bad:
        return Outcome(f"output: {bad}", transitions=n)
    # autograd through the forward pass
    if on_kink(spec, margin, c["dtype"]) or (margin == 0.0):
        return Outcome(None, transitions=n, validated=n, skipped=1)
    if spec[0] == "L2Norm" and margin < 1e-12:
        return Outcome(None, transitions=n, validated=n, skipped=1)
    xg = relayout(x, c["xlay"]).detach().requires_grad_(True)
    ps = [p for p in m.parameters() if p.requires_grad]
    with torch.enable_grad():
        y = m(xg)
        v = pattern(tuple(y.shape), salt=21).to(dtype)
        grads = torch.autograd.grad(y, [xg] + ps, grad_outputs=v, allow_unused=True)
    n += 1
    vf = v.double().reshape(v.shape[0], -1)
    ref = torch.einsum("bi,bij->bj", vf, node.jx).reshape(x.shape)
    if c["xlay"] == "expanded":
        # the same storage is seen by every sample, autograd still reports per element
        pass
    g0 = torch.zeros_like(x) if grads[0] is None else grads[0]
    bad = differ(g0, ref, dtype, floor=0.05 * float(node.jx.abs().max()) if node.jx.numel() else 0.0)
    if bad:
        return Outcome(f"autograd gradient with respect to the input: {bad}", transitions=n)
    if node.n and not c["frozen"]:
        ref = torch.einsum("bi,bij->j", vf, node.jw)
        got = torch.cat([(torch.zeros_like(p) if g is None else g).reshape(-1) for p, g in zip(ps, grads[1:])])
        bad = differ(got, ref, dtype, floor=0.05 * float(node.jw.abs().max()))
        if bad:
            return Outcome(f"autograd gradient with respect to the parameters: {bad}", transitions=n)
    t = twin(spec) if c["ctor"] != "named" else None
    if t is not None:
        t = t.to(dtype)
        n += 1
        bad = exchange(m, t, x, dtype)
        if bad:
            return Outcome(f"exchange with torch.nn: {bad}", transitions=n)
    return Outcome(None, transitions=n, validated=n)
