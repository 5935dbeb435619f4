import torch
from torch import nn

from ..ops import APPROX, MODES, OPS, Call, calls, differ, floor_scale, invoke, supported, tangent, expected
from ..product import DT
from ..runner import CaseTimeout, Outcome
from ..spec import Node, nnj, tup
from ..universe import CORE, IMAGE_NETS, NETS, deviations
from ..values import pattern

ID, LEVEL = "C22", "model_checking"
RULE = (
    "every convolution in the box padding mode x groups x stride x padding (also larger than the kernel, also by name) x dilation x "
    "kernel x implementation path x bias, every upsampling in the box mode x size or scale x alignment, pooling options, flatten "
    "dimensions, softplus and inplace options, unknown options of the layers and likelihoods, unknown names for what to differentiate by: "
    "construction, forward pass and each of the seven products in each mode either raise or give the values that automatic "
    "differentiation of the torch layer of the same configuration gives. One case is one configuration; transitions are calls"
)
MODES_ = MODES + (APPROX,)


def cases(tier):
    q = tier == "quick"
    base = dict(k=(2, 2), s=(1, 1), p=(0, 0), d=(1, 1), g=1, b=True, pm="zeros", vm=True, ch=(2, 2))
    alts = dict(
        k=[(1, 1), (1, 2), (3, 2), (3, 3)],
        s=[(2, 2), (1, 2), (2, 1)],
        p=[(1, 1), (1, 0), (0, 2), (2, 2), (3, 3), "same", "valid"],
        d=[(2, 2), (1, 2)],
        g=[2],
        b=[False],
        pm=["reflect", "replicate", "circular"],
        vm=[False],
        ch=[(4, 2), (2, 4)],
    )
    for cfg in deviations(base, alts, 3 if q else 5):
        yield ["conv", cfg]
    for mode in ("nearest", "nearest-exact", "bilinear", "bicubic", "area", "linear", "trilinear"):
        for sc in (1, 2, 3, 1.5, 0.5, (2, 2), (2, 3), (1, 2), 2.0):
            for ac in (None, True, False):
                for img in ((2, 3), (2, 2), (1, 1)) if q else ((2, 3), (2, 2), (1, 1), (3, 2), (1, 4)):
                    yield ["up", dict(scale_factor=sc, mode=mode, align_corners=ac), img]
        for size in ((4, 6), (3, 3), 4, (2, 3)):
            yield ["up", dict(size=size, mode=mode), (2, 3)]
    for k in (2, (1, 2), 3):
        for st in (None, 1, 2, (2, 1)):
            for pad in (0, 1, (1, 0)):
                for ceil in (False, True):
                    yield ["pool", dict(kernel_size=k, stride=st, padding=pad, ceil_mode=ceil)]
    for k in (dict(), dict(inplace=True)):
        yield ["relu", k]
    for beta in (1, 0.5, 3, 10, -1):
        for thr in (20, 1, 0, -1):
            yield ["softplus", dict(beta=beta, threshold=thr)]
    for wrt in ("inputs", "weights", "params", "", "Input", "W", "x"):
        for i in range(len(CORE) + len(NETS)):
            yield ["wrt", i, wrt]
        yield ["likelihood wrt", wrt]
    for k in (2, (1, 2)):
        for st in (None, 1):
            yield ["indices", dict(kernel_size=k, stride=st, return_indices=True)]
            yield ["indices", dict(kernel_size=k, stride=st, return_indices=True, ceil_mode=True)]
    for shape in ((3,), (2, 3), (2, 3, 2)):
        for a in range(-len(shape) - 1, len(shape) + 1):
            yield ["flatten", dict(start_dim=a), shape]
            for b in range(-len(shape) - 1, len(shape) + 1):
                yield ["flatten", dict(start_dim=a, end_dim=b), shape]
    yield ["options"]
    yield ["layer options"]
    yield ["forward products"]


def torch_layer(case):
    k, cfg = case[0], case[1]
    if k == "conv":
        c = {n: (tuple(v) if isinstance(v, list) else v) for n, v in cfg.items()}
        ci, co = c["ch"]
        kw = dict(stride=c["s"], padding=c["p"], dilation=c["d"], groups=c["g"], bias=c["b"], padding_mode=c["pm"])
        ref = lambda: nn.Conv2d(ci, co, c["k"], **kw)
        lib = lambda: nnj.Conv2d(ci, co, c["k"], use_vmap_for_backprop=c["vm"], **kw)
        return ref, lib, (ci, 3, 4)
    kw = {n: (tuple(v) if isinstance(v, list) else v) for n, v in cfg.items()}
    if k == "up":
        return (lambda: nn.Upsample(**kw)), (lambda: nnj.Upsample(**kw)), (2,) + tuple(case[2])
    if k == "pool":
        return (lambda: nn.MaxPool2d(**kw)), (lambda: nnj.MaxPool2d(**kw)), (2, 4, 5)
    if k == "flatten":
        return (lambda: nn.Flatten(**kw)), (lambda: nnj.Flatten(**kw)), tuple(case[2])
    if k == "relu":
        return (lambda: nn.ReLU()), (lambda: nnj.ReLU(**kw)), (4,)
    if k == "softplus":
        return (lambda: nn.Softplus(**kw)), (lambda: nnj.Softplus(**kw)), (4,)
    raise ValueError(k)


def dense(layer, x):
    """Output and Jacobians of a torch layer by automatic differentiation, one sample at a time."""
    ps = list(layer.parameters())
    ys, jx, jw = [], [], []
    for i in range(x.shape[0]):
        xi = x[i : i + 1].clone().requires_grad_(True)
        y = layer(xi)
        rows, wrows = [], []
        for e in y.reshape(-1):
            g = torch.autograd.grad(e, [xi] + ps, retain_graph=True, allow_unused=True)
            g = [torch.zeros_like(t) if v is None else v for v, t in zip(g, [xi] + ps)]
            rows.append(g[0].reshape(-1))
            if ps:
                wrows.append(torch.cat([v.reshape(-1) for v in g[1:]]))
        ys.append(y.detach())
        jx.append(torch.stack(rows))
        if ps:
            jw.append(torch.stack(wrows))
    return torch.cat(ys), torch.stack(jx), (torch.stack(jw) if ps else None)


REFUSE = (Exception,)


def run(case):
    if case[0] == "wrt":
        return unknown(case)
    if case[0] == "indices":
        return indices(case[1])
    if case[0] == "options":
        return options()
    if case[0] == "likelihood wrt":
        return unknown_likelihood(case[1])
    if case[0] == "layer options":
        return layer_options()
    if case[0] == "forward products":
        return missing()
    mk, lib, shape = torch_layer(case)
    try:
        t = mk().double()
        for i, p in enumerate(t.parameters()):
            p.data.copy_(pattern(tuple(p.shape), salt=40 + i))
        x = pattern((2,) + shape, salt=5)
        y, jx, jw = dense(t, x)
    except CaseTimeout:
        raise
    except Exception:
        return Outcome(None, transitions=1, skipped=1)  # torch does not define it
    n = refused = 0
    try:
        n += 1
        m = lib().double()
        m.load_state_dict(t.state_dict())
    except CaseTimeout:
        raise
    except Exception:
        return Outcome(None, transitions=1, validated=0, refused=1)
    node = Node.__new__(Node)
    node.spec = ("Leaf",)
    node.x, node.y, node.jx, node.jw, node.kids = x, y, jx, jw, []
    node.n = 0 if jw is None else jw.shape[2]
    f64 = torch.float64
    d = differ(m(x.clone()), y, f64)
    n += 1
    if d:
        return Outcome(f"output: {d}", transitions=n)
    cs = list(calls(OPS, ("input", "weight"), MODES_, ("generic", "basis"), (2,))) + list(calls(("jmp", "mjp", "jmjTp", "jTmjp"), ("input", "weight"), MODES_, ("none",)))
    for c in cs:
        if c.wrt == "weight" and node.n == 0:
            if c.op in ("jvp", "jmp", "jmjTp"):
                continue
        tt = tangent(node, c)
        ref = expected(node, c, tt)
        for given in (False, True):
            n += 1
            try:
                got = invoke(m, c, x.clone(), m(x).detach() if given else None, None if tt is None else tt.clone())
            except CaseTimeout:
                raise
            except REFUSE:
                refused += 1
                continue
            d = differ(got, ref, f64, floor=floor_scale(node, c, tt))
            if d:
                return Outcome(f"not refused, but wrong: {c!r}{' (output given)' if given else ''}: {d}", transitions=n)
    return Outcome(None, transitions=n, validated=n - refused, refused=refused)


def unknown(case):
    """Something else than "input" or "weight": never a result that passes for one of them."""
    from ..product import fresh

    spec, shape = (CORE + NETS)[case[1]]
    m = fresh(spec)
    x = pattern((2,) + tuple(shape), salt=5)
    y = m(x)
    n_in, n_out = x[0].numel(), y[0].numel()
    n = refused = 0
    for op in OPS:
        args = {"jacobian": (), "jvp": (torch.ones(2, n_in, dtype=x.dtype),), "jmp": (torch.ones(2, n_in, 2, dtype=x.dtype),), "jmjTp": (torch.ones(2, n_in, n_in, dtype=x.dtype),)}.get(
            op, (torch.ones(2, n_out, dtype=x.dtype),) if op == "vjp" else (torch.ones(2, n_out, n_out, dtype=x.dtype),)
        )
        n += 1
        try:
            r = getattr(m, op)(x, None, *args, wrt=case[2])
        except CaseTimeout:
            raise
        except Exception:
            refused += 1
            continue
        if r is not None:
            return Outcome(f"{op} with wrt={case[2]!r} returned a result", transitions=n)
    return Outcome(None, transitions=n, refused=refused, validated=n - refused)


def unknown_likelihood(wrt):
    from ..product import fresh

    spec, shape = NETS[0]
    m = fresh(spec)
    x = pattern((2,) + tuple(shape), salt=5)
    t = torch.zeros_like(m(x).detach())
    t[:, 0] = 1
    n = refused = 0
    for cls in (nnj.LogGaussian, nnj.LogBinaryBernoulli, nnj.LogBernoulli):
        for agg in ("sum", "average", "return all"):
            for kw in (dict(metric_shape="full"), dict(metric_shape="diag"), dict(metric_shape="diag", metric_backprop="approx")):
                for what in ("gradient", "ggn"):
                    n += 1
                    try:
                        l = cls(agg, **kw)
                        r = l.gradient(x, m, t, wrt=wrt) if what == "gradient" else l.ggn(x, m, wrt=wrt)
                    except CaseTimeout:
                        raise
                    except Exception:
                        refused += 1
                        continue
                    if r is not None:
                        return Outcome(f"{cls.__name__}.{what} with wrt={wrt!r} returned a result", transitions=n)
    return Outcome(None, transitions=n, refused=refused, validated=n - refused)


def indices(cfg):
    """Max pooling asked for the positions as well: both, as torch gives them, or a refusal."""
    kw = {n: (tuple(v) if isinstance(v, list) else v) for n, v in cfg.items()}
    x = pattern((2, 2, 4, 5), salt=5)
    ref = nn.MaxPool2d(**kw)(x)
    try:
        got = nnj.MaxPool2d(**kw)(x)
    except CaseTimeout:
        raise
    except Exception:
        return Outcome(None, transitions=1, refused=1)
    ok = isinstance(got, tuple) and len(got) == 2 and all(torch.equal(a, b) for a, b in zip(got, ref))
    return Outcome(None if ok else "asked for the positions as well, max pooling returns something else", transitions=1, validated=1)


def options():
    n = refused = 0
    for cls in (nnj.LogGaussian, nnj.LogBinaryBernoulli, nnj.LogBernoulli):
        for kw in (
            [dict(aggregate_batch=v) for v in ("mean", "SUM", "", "none", "all")]
            + [dict(metric_shape=v) for v in ("diagonal", "", "block", "FULL")]
            + [dict(metric_backprop=v) for v in ("approximate", "", "fast")]
        ):
            n += 1
            try:
                cls(**kw)
            except Exception:
                refused += 1
                continue
            return Outcome(f"{cls.__name__}(**{kw}) was accepted", transitions=n)
    return Outcome(None, transitions=n, refused=refused)


def layer_options():
    """An option no layer knows is not silently ignored, nor are arguments a layer has no use for."""
    n = refused = 0
    made = [("Linear", (2, 2)), ("Conv2d", (1, 1, 1)), ("MaxPool2d", (2,)), ("Upsample", ()), ("Reshape", (2, 2)), ("Flatten", ()), ("L2Norm", ()), ("Softplus", ())]
    made += [(k, ()) for k in ("Tanh", "ReLU", "Sigmoid", "Sinusoidal", "TruncExp", "Sequential", "SkipConnection")]
    for name, args in made:
        for kw in (dict(order="C"), dict(dims=(2, 2)), dict(wrt="input"), dict(units=3)):
            n += 1
            try:
                getattr(nnj, name)(*args, **kw)
            except Exception:
                refused += 1
                continue
            return Outcome(f"{name}(**{kw}) was accepted", transitions=n)
    return Outcome(None, transitions=n, refused=refused)


def missing():
    """Products that are not implemented for images: refused, alone and inside chains, or right."""
    from ..product import BASE, run_calls

    n = v = r = 0
    for spec, shape in IMAGE_NETS + CORE[18:]:
        cs = [c for c in calls(OPS, ("input", "weight"), MODES_, ("generic",), (2,)) if not supported(spec, c)]
        out = run_calls(spec, shape, cs, dict(BASE), may_refuse=True)
        n, v, r = n + out.transitions, v + out.validated, r + out.refused
        if out.message:
            return Outcome(f"{spec}: {out.message}", transitions=n)
    return Outcome(None, transitions=n, validated=v, refused=r)
