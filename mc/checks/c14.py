import copy
import itertools

import torch
import torch.nn as nn

from ..ops import APPROX, Call, calls, differ, expected, floor_scale, invoke, supported, tangent
from ..product import DT
from ..runner import Outcome
from ..spaces import MODES, OPS, tup
from ..spec import Margin, evaluate, named, nnj, param_shapes
from ..universe import BIG, HUGE, conv_ok, leaves, pool_ok
from ..values import pattern, relayout

ID, LEVEL = "C14", "model_checking"
RULE = (
    "every torch.nn chain of up to 3 (quick) or 4 (thorough) layers over an alphabet of linear, activation, convolution, pooling, "
    "upsampling, flatten and nested chains, every single layer of the configuration boxes, layers with options that have no "
    "Jacobian products, chains with a module object at several places, originals in every state of a list (every subset of frozen parameters, modes, names, weights strided, "
    "shared or zero, used, trained), and foreign layers (which must be refused): the converted model has the outputs, the weights and dtype of "
    "the original, and the Jacobians and products of the function it computes; the original is left as it was. One case is one "
    "source model; transitions are calls on the converted one"
)


def tbuild(s):
    """A torch.nn module from data."""
    k = s[0]
    if k == "Seq":
        return nn.Sequential(*[tbuild(c) for c in s[1:]])
    if k == "Linear":
        return nn.Linear(s[1], s[2], bias=s[3])
    if k == "Conv2d":
        return nn.Conv2d(s[1], s[2], tuple(s[3]), padding=tuple(s[4]), dilation=tuple(s[5]), bias=s[6])
    if k == "MaxPool2d":
        return nn.MaxPool2d(s[1], s[2], s[3], s[4], ceil_mode=s[5])
    if k == "Upsample":
        return nn.Upsample(scale_factor=s[1])
    if k == "Softplus":
        return nn.Softplus(*s[1:])
    if k == "ReLUin":
        return nn.ReLU(inplace=True)
    if k == "other":
        return OTHERS[s[1]][0]()
    if k == "nnjLinear":
        return nnj.Linear(s[1], s[2], bias=s[3])
    if k == "nnjSkip":
        return nnj.SkipConnection(nnj.Linear(s[1], s[2]))
    return getattr(nn, k)()


# options without Jacobian products (the output must still be right), with an input shape
OTHERS = [
    (lambda: nn.Conv2d(2, 3, 2, padding=1, padding_mode="circular"), (2, 3, 3)),
    (lambda: nn.Conv2d(2, 3, 2, padding=1, padding_mode="reflect"), (2, 3, 3)),
    (lambda: nn.Conv2d(2, 4, 2, groups=2), (2, 3, 3)),
    (lambda: nn.Conv2d(2, 4, 2, groups=2, bias=False, padding=(1, 0)), (2, 3, 3)),
    (lambda: nn.Conv2d(2, 3, 1, padding=1), (2, 3, 3)),
    (lambda: nn.Upsample(scale_factor=2, mode="bilinear"), (2, 2, 3)),
    (lambda: nn.Upsample(scale_factor=2, mode="bilinear", align_corners=True), (2, 2, 3)),
    (lambda: nn.Upsample(size=(3, 5)), (2, 2, 3)),
    (lambda: nn.Upsample(scale_factor=(2, 3)), (2, 2, 3)),
    (lambda: nn.Upsample(scale_factor=1.5), (2, 2, 4)),
    (lambda: nn.MaxPool2d(2, return_indices=False), (2, 4, 4)),
]
# layers the library has no counterpart for: conversion has to fail rather than give another function
FOREIGN = [
    (lambda: nn.Conv2d(2, 3, 2, stride=2), (2, 4, 4)),
    (lambda: nn.Conv2d(2, 3, 2, stride=(1, 2)), (2, 4, 4)),
    (lambda: nn.Conv2d(2, 3, 3, padding="same"), (2, 4, 4)),
    (lambda: nn.Conv1d(2, 3, 2), (2, 4)),
    (lambda: nn.ConvTranspose2d(2, 3, 2), (2, 4, 4)),
    (lambda: nn.AvgPool2d(2), (2, 4, 4)),
    (lambda: nn.MaxPool1d(2), (2, 4)),
    (lambda: nn.AdaptiveMaxPool2d(2), (2, 4, 4)),
    (lambda: nn.LPPool2d(2, 2), (2, 4, 4)),
    (lambda: nn.Flatten(2), (2, 3, 4)),
    (lambda: nn.Flatten(1, 2), (2, 3, 4)),
    (lambda: nn.GELU(), (4,)),
    (lambda: nn.ELU(), (4,)),
    (lambda: nn.LeakyReLU(0.3), (4,)),
    (lambda: nn.ReLU6(), (4,)),
    (lambda: nn.Hardtanh(), (4,)),
    (lambda: nn.LogSigmoid(), (4,)),
    (lambda: nn.Softmax(dim=1), (4,)),
    (lambda: nn.BatchNorm1d(4), (4,)),
    (lambda: nn.LayerNorm(4), (4,)),
    (lambda: nn.Bilinear(4, 4, 2), (4,)),
    (lambda: nn.Dropout(0.5), (4,)),
    (lambda: nn.MaxPool2d(2, return_indices=True), (2, 4, 4)),
    (lambda: own(nn.Module, "Tanh", lambda self, x: x / (1 + x.abs())), (4,)),
    (lambda: own(nn.Tanh, "Tanh", lambda self, x: 2 * torch.tanh(x)), (4,)),
    (lambda: own(nn.ReLU, "ReLU", lambda self, x: torch.where(x > 0, x, 0.1 * x)), (4,)),
    (lambda: own(nn.Sigmoid, "Sigmoid", lambda self, x: torch.sigmoid(2 * x)), (4,)),
    (lambda: own(nn.Softplus, "Softplus", lambda self, x: x * x), (4,)),
    (lambda: own(nn.Linear, "Linear", lambda self, x: x @ self.weight.T - self.bias, 4, 2), (4,)),
    (lambda: own(nn.Conv2d, "Conv2d", lambda self, x: nn.Conv2d.forward(self, x) * 3, 2, 3, 2), (2, 4, 4)),
    (lambda: own(nn.MaxPool2d, "MaxPool2d", lambda self, x: -nn.MaxPool2d.forward(self, -x), 2), (2, 4, 4)),
    (lambda: own(nn.Upsample, "Upsample", lambda self, x: nn.Upsample.forward(self, x) + 1, scale_factor=2), (2, 2, 2)),
    (lambda: own(nn.Flatten, "Flatten", lambda self, x: x.flatten(1).flip(1)), (2, 2, 2)),
    (lambda: own(nn.Sequential, "Sequential", lambda self, x: x + nn.Sequential.forward(self, x), nn.Tanh()), (4,)),
    (lambda: nn.utils.parametrizations.weight_norm(nn.Linear(4, 2)), (4,)),
    (lambda: nn.utils.parametrizations.orthogonal(nn.Linear(4, 4)), (4,)),
    (lambda: nn.Identity(), (4,)),
    (lambda: nn.Unflatten(1, (2, 2)), (4,)),
]


def own(base, name, forward, *args, **kwargs):
    """A layer of a user's own class that has the name of one of torch's."""
    return type(name, (base,), {"forward": forward})(*args, **kwargs)


def dense(n):
    return [("Linear", n, 2, True), ("Linear", n, 3, False), ("Tanh",), ("ReLU",), ("ReLUin",), ("Sigmoid",), ("Softplus", 2.0, 1.0), ("Flatten",), ("Seq", ("Linear", n, 2, False), ("Tanh",)), ("nnjLinear", n, 2, True), ("nnjSkip", n, 1)]


def image(sh):
    c, h, w = sh
    out = [("Tanh",), ("Flatten",), ("Softplus", 0.5, 20.0), ("ReLUin",)]
    if h >= 2 and w >= 2:
        out += [("Conv2d", c, 2, (3, 2), (1, 0), (1, 1), True, True), ("MaxPool2d", 2, 1, 0, 1, False), ("MaxPool2d", (2, 1), None, 0, 1, True), ("Conv2d", c, 1, (2, 2), (0, 1), (1, 1), False, True)]
    if h * w <= 6:
        out += [("Upsample", 2), ("Seq", ("Upsample", 2), ("Sigmoid",))]
    return out


def as_spec(s):
    """The reference's name for a source layer."""
    k = s[0]
    if k == "Seq":
        return ("Seq",) + tuple(as_spec(c) for c in s[1:])
    if k == "ReLUin":
        return ("ReLU",)
    if k == "nnjLinear":
        return ("Linear",) + tuple(s[1:])
    if k == "nnjSkip":
        return ("Skip", ("Linear", s[1], s[2], True))
    return tup(s)


def cases(tier):
    q = tier == "quick"

    def templates(sh):
        return dense(sh[0]) if len(sh) == 1 else (image(sh) if len(sh) == 3 else [])

    seen = []
    for start, depth in (((2,), 3 if q else 4), ((2, 2, 3), 3 if q else 4)):
        for seq in tsequences(start, depth, templates):
            seen.append(["chain", ("Seq",) + seq, start])
    for spec, shape in leaves(tier):
        if spec[0] in ("Linear", "Conv2d", "MaxPool2d", "Upsample", "Softplus", "Tanh", "ReLU", "Sigmoid", "Flatten"):
            if spec[0] == "Conv2d" and not spec[7]:
                continue
            seen.append(["chain", ("Seq", spec), shape])
    for spec, shape in BIG + HUGE:
        t = spec if spec[0] == "Seq" else ("Seq", spec)
        if torch_only(t):
            seen.append(["chain", t, shape])
    for i in range(len(OTHERS)):
        seen.append(["other", i, 0])
        seen.append(["other", i, 1])
    for i in range(len(FOREIGN)):
        seen.append(["foreign", i, 0])
        seen.append(["foreign", i, 1])
    seen.append(["empty"])
    # chains in which a module object occurs more than once
    for n in (2, 3, 4) if q else (2, 3, 4, 5):
        for w in itertools.product(range(4), repeat=n):
            if len(set(w)) < n:
                seen.append(["shared", list(w)])
    for c in seen:
        for dt in ("f64", "f32"):
            yield c + [dt]
    # the state the original is in: frozen parameters (every subset), mode, names, memory layout and aliasing of the weights
    for start in ((2,), (2, 2, 3)):
        for seq in tsequences(start, 2 if q else 3, templates):
            spec = ("Seq",) + seq
            k = len(param_shapes(as_spec(spec)))
            for st in STATES:
                yield ["state", spec, start, st, "f64"]
            for r in range(1, k + 1):
                for sub in itertools.combinations(range(k), r):
                    yield ["state", spec, start, ["frozen"] + list(sub), "f64"]


def torch_only(spec):
    if spec[0] == "Seq":
        return all(torch_only(c) for c in spec[1:])
    return spec[0] in ("Linear", "MaxPool2d", "Upsample", "Softplus", "Tanh", "ReLU", "Sigmoid", "Flatten") or (spec[0] == "Conv2d" and spec[7])


STATES = ("eval", "half-eval", "named", "appended", "used", "trained", "strided", "transposed", "offset", "expanded", "tied", "zero-bias", "zero", "no-grad", "copied", "scripted-names", "subclass")


class Linear(nn.Linear):
    """A user's own class with the same name: an ordinary linear layer with a method more."""

    def more(self):
        return 1


def with_state(spec, st, dtype):
    t = tbuild(spec)
    if st in ("named", "scripted-names"):
        kids = list(t)
        if st == "named":
            t = nn.Sequential(named(kids))
        else:
            t = nn.Sequential()
            for i, c in enumerate(kids):
                t.add_module(("weight_", "bias_", "forward_", "0")[i % 4] + str(len(kids) - i), c)
    elif st == "appended":
        kids = list(t)
        t = nn.Sequential(*kids[:1])
        for c in kids[1:]:
            t.append(c)
    elif st == "subclass":
        t = nn.Sequential(*[Linear(c.in_features, c.out_features, c.bias is not None) if type(c) is nn.Linear else c for c in t])
    t = t.to(dtype)
    fill_params(t, dtype)
    ps = list(t.parameters())
    if isinstance(st, (list, tuple)):
        for i in st[1:]:
            ps[i].requires_grad_(False)
    elif st == "eval":
        t.eval()
    elif st == "half-eval":
        for c in list(t)[::2]:
            c.eval()
    elif st in ("strided", "transposed", "offset", "expanded"):
        for p in ps:
            p.data = relayout(p.data, st)
    elif st == "tied":
        first = {}
        for m in t.modules():
            for n, p in list(m._parameters.items()):
                if p is not None:
                    q = first.setdefault((n, tuple(p.shape)), p)
                    if type(m).__module__.startswith("torch"):
                        setattr(m, n, q)
    elif st == "zero-bias":
        with torch.no_grad():
            for p in ps:
                if p.ndim == 1:
                    p.zero_()
    elif st == "zero":
        with torch.no_grad():
            for p in ps:
                p.zero_()
    elif st == "copied":
        t = copy.deepcopy(t)
    return t


def state(spec, shape, st, dtype):
    t = with_state(spec, st, dtype)
    x = pattern((2,) + tuple(shape), salt=3).to(dtype)
    if st == "trained":
        opt = torch.optim.SGD(t.parameters(), lr=0.125) if list(t.parameters()) else None
        if opt is not None:
            for p in t.parameters():
                p.grad = pattern(tuple(p.shape), salt=41).to(dtype)
            opt.step()
    elif st == "used":
        t(x)
    ref = t(x).detach().double()
    named_before = [(n, p.detach().clone(), p.requires_grad) for n, p in t.named_parameters()]
    modes = [m.training for m in t.modules()]
    try:
        if st == "no-grad":
            with torch.no_grad():
                m = nnj.convert_to_nnj(t)
        else:
            m = nnj.convert_to_nnj(t)
    except Exception:
        if st != "subclass":  # a class of the user's own may be refused
            raise
        return Outcome(None, transitions=1, refused=1)
    n = 1
    what = f"original {st}: "
    after = [(a, p.detach(), p.requires_grad) for a, p in t.named_parameters()]
    if len(after) != len(named_before) or any(a[0] != b[0] or a[2] != b[2] or not torch.equal(a[1], b[1]) for a, b in zip(after, named_before)) or [k.training for k in t.modules()] != modes:
        return Outcome(what + "the conversion modified the original model", transitions=n)
    flat = [p.detach() for c in leaves_of(t) for p in c.parameters()]
    got = [p.detach() for p in m.parameters()]
    if len(got) != len(flat) or any(p.shape != q.shape or p.dtype != q.dtype or not torch.equal(p, q) for p, q in zip(got, flat)):
        return Outcome(what + "the converted model has other weights", transitions=n)
    d = differ(m(x), ref, dtype) or differ(t(x), ref, dtype)
    if d:
        return Outcome(what + f"the converted model computes something else: {d}", transitions=n)
    rspec = as_spec(spec)
    mg = Margin()
    node = evaluate(rspec, [p.double() for p in flat], x.double(), mg)
    n += 2
    if mg.value < 1e-9:
        return Outcome(None, transitions=n, validated=n, skipped=1)
    for call in calls(("jacobian", "jvp", "vjp", "jTmjp"), ("input", "weight"), MODES[:1], ("generic",), (2,)):
        if not supported(rspec, call):
            continue
        tt = tangent(node, call)
        r = invoke(m, call, x, None, None if tt is None else tt.to(dtype))
        n += 1
        d = differ(r, expected(node, call, tt), dtype, floor=floor_scale(node, call, tt))
        if d:
            return Outcome(what + f"converted model, {call!r}: {d}", transitions=n)
    return Outcome(None, transitions=n, validated=n)


def leaves_of(t):
    if isinstance(t, nn.Sequential):
        for c in t:
            yield from leaves_of(c)
    else:
        yield t


def tsequences(start, depth, templates):
    from ..spec import out_shape

    def rec(sh, d):
        for t in templates(sh):
            o = out_shape(as_spec(t), sh)
            n = 1
            for s in o:
                n *= s
            if n > 30:
                continue
            yield (t,)
            if d > 1:
                for r in rec(o, d - 1):
                    yield (t,) + r

    yield from rec(tuple(start), depth)


def fill_params(t, dtype):
    with torch.no_grad():
        for i, p in enumerate(t.parameters()):
            p.copy_(pattern(tuple(p.shape), salt=700 + i).to(p.dtype))


def shared(word, dtype):
    objs = [nn.Linear(2, 2), nn.Tanh(), nn.Sequential(nn.Linear(2, 2, bias=False), nn.Sigmoid()), nn.Linear(2, 2)]
    t = nn.Sequential(*[objs[i] for i in word]).to(dtype)
    fill_params(t, dtype)
    x = pattern((2, 2), salt=3).to(dtype)
    ref = t(x).detach().double()
    m = nnj.convert_to_nnj(t)
    d = differ(m(x), ref, dtype)
    if d:
        return Outcome(f"a chain with the same objects at several places is converted to something else: {d}", transitions=2)
    spec = {0: ("Linear", 2, 2, True), 1: ("Tanh",), 2: ("Seq", ("Linear", 2, 2, False), ("Sigmoid",)), 3: ("Linear", 2, 2, True)}
    params = [p.detach().double() for i in word for p in objs[i].parameters()]
    node = evaluate(("Seq",) + tuple(spec[i] for i in word), params, x.double(), Margin())
    n = 2
    for call in calls(OPS, ("input",), MODES[:1] + (APPROX,), ("generic",), (2,)):
        tt = tangent(node, call)
        r = invoke(m, call, x, None, None if tt is None else tt.to(dtype))
        n += 1
        d = differ(r, expected(node, call, tt), dtype, floor=floor_scale(node, call, tt))
        if d:
            return Outcome(f"converted chain with the same objects at several places, {call!r}: {d}", transitions=n)
    return Outcome(None, transitions=n, validated=n)


def run(case):
    dt = case[-1]
    dtype = DT[dt]
    n = 0
    if case[0] == "empty":
        m = nnj.convert_to_nnj(nn.Sequential())
        x = pattern((2, 3), 1).to(dtype)
        return Outcome(None if torch.equal(m(x), x) else "the empty chain is not the identity", transitions=1, validated=1)
    if case[0] == "state":
        return state(tup(case[1]), tup(case[2]), case[3], dtype)
    if case[0] == "shared":
        return shared(case[1], dtype)
    if case[0] == "foreign":
        mk, shape = FOREIGN[case[1]]
        t = nn.Sequential(mk()) if case[2] == 0 else nn.Sequential(nn.Tanh(), nn.Sequential(mk()))
        t = t.to(dtype)
        try:
            m = nnj.convert_to_nnj(t)
        except Exception:
            return Outcome(None, transitions=1, refused=1)
        # accepted after all: then it has to be the same function
        t.train(), m.train()
        x = pattern((2,) + shape, salt=3).to(dtype)
        try:
            ref = t(x)
        except Exception:
            return Outcome(None, transitions=1, skipped=1)
        if not isinstance(ref, torch.Tensor):
            return Outcome(f"{t} converted to another function: it returns more than a tensor", transitions=1)
        ref = ref.detach()
        d = differ(m.to(dtype)(x), ref.double(), dtype)
        return Outcome(None if d is None else f"{t} converted to another function: {d}", transitions=2, validated=1)
    if case[0] == "other":
        mk, shape = OTHERS[case[1]]
        t = nn.Sequential(mk()) if case[2] == 0 else nn.Sequential(nn.Tanh(), nn.Sequential(mk(), nn.Sigmoid()))
        spec = None
    else:
        spec, shape = tup(case[1]), tup(case[2])
        t = tbuild(spec)
    t = t.to(dtype)
    fill_params(t, dtype)
    b = 2
    x = pattern((b,) + tuple(shape), salt=3).to(dtype)
    before = [p.detach().clone() for p in t.parameters()]
    objs = list(t.modules())
    ref_y = t(x.clone()).detach().double()
    m = nnj.convert_to_nnj(t)
    n += 1
    if list(t.modules()) != objs or any(not torch.equal(p, q) for p, q in zip(t.parameters(), before)):
        return Outcome("the conversion modified the original model", transitions=n)
    got = list(m.parameters())
    if len(got) != len(before) or any(p.shape != q.shape or not torch.equal(p.detach(), q) for p, q in zip(got, before)):
        return Outcome("the converted model has other weights", transitions=n)
    keep = x.clone()
    y = m(x)
    n += 1
    d = differ(y, ref_y, dtype)
    if d:
        return Outcome(f"the converted model computes something else: {d}", transitions=n)
    if not torch.equal(x, keep):
        return Outcome("the converted model modifies its input", transitions=n)
    d = differ(t(x.clone()), ref_y, dtype)
    if d:
        return Outcome(f"the original model changed: {d}", transitions=n)
    if spec is None:
        # products are right or refused
        J = torch.autograd.functional.jacobian(lambda z: t(z), x, vectorize=False) if not x.dtype == torch.float32 else None
        if J is not None:
            full = torch.stack([J[i].reshape(-1, *J.shape[-len(x.shape):])[:, i].reshape(-1, x[i].numel()) for i in range(b)])
            try:
                d = differ(m.jacobian(x), full.double(), dtype)
            except (NotImplementedError, RuntimeError):
                return Outcome(None, transitions=n, validated=n, refused=1)
            if d:
                return Outcome(f"the Jacobian of the converted model is wrong: {d}", transitions=n)
        return Outcome(None, transitions=n, validated=n)
    rspec = as_spec(spec)
    mg = Margin()
    node = evaluate(rspec, [p.double() for p in before], x.double(), mg)
    if mg.value < (1e-4 if dt == "f32" else 1e-9):
        return Outcome(None, transitions=n, validated=n, skipped=1)
    for call in calls(OPS, ("input", "weight"), MODES[:1] + (APPROX,), ("generic",), (2,)):
        if not supported(rspec, call):
            continue
        tt = tangent(node, call)
        r = invoke(m, call, x, None, None if tt is None else tt.to(dtype))
        n += 1
        d = differ(r, expected(node, call, tt), dtype, floor=floor_scale(node, call, tt))
        if d:
            return Outcome(f"converted model, {call!r}: {d}", transitions=n)
    return Outcome(None, transitions=n, validated=n)
