import os
import random
import sys

import torch
import torch.utils.deterministic

from .. import ops as O
from ..ops import APPROX, Call, as_argument, calls, invoke, supported, tangent
from ..product import DT, default_dtype, fresh, grad_mode, reference, relist
from ..runner import CaseTimeout
from ..spaces import *
from ..spec import nnj
from ..values import relayout

ID, LEVEL = "C10", "model_checking"
RULE = (
    "every product, in every mode, on every kind of layer and every network of the list, likelihood values/gradients/GGNs, weight "
    "reads and block inversions, also calls that fail, x call circumstances within k deviations (1 quick, 2 thorough); before and "
    "after every single call the arguments (values, grads, flags), the parameters, buffers and grads of the model, the random "
    "number states, some 25 settings of torch and the process, the hooks and the training flags are compared, and every result handed out so far is "
    "compared with the value it had. One case is one state, each call a transition"
)


def cases(tier):
    yield from circumstances(CORE + NETS + CUSTOM_LEAVES + CUSTOM_NETS, 1 if tier == "quick" else 2, tans=["zero", "psd", "dust"], ncols=[1])
    for spec, shape in BIG + HUGE[1:]:
        yield ["call", spec, shape, {"batch": 2}]
    for spec, shape in CORE:
        for b in (17, 65, 257):
            yield ["call", spec, shape, {"batch": b}]
    for spec, shape in NETS + CORE[:2]:
        for dt in ("f64", "f32"):
            for b in (1, 3):
                yield ["likelihood", spec, shape, {"dtype": dt, "batch": b}]
                yield ["failing", spec, shape, {"dtype": dt, "batch": b}]
    for n in (1, 2, 3):
        yield ["invert", n]


def tensors(o):
    if isinstance(o, torch.Tensor):
        return [o]
    if isinstance(o, (list, tuple)):
        return [t for i in o for t in tensors(i)]
    return []


def snap(o):
    """Everything about a tensor that a caller could notice."""
    out = []
    for t in tensors(o):
        g = t.grad if t.is_leaf and t.requires_grad else None
        out.append((t, t.detach().clone(), tuple(t.shape), tuple(t.stride()), t.requires_grad, None if g is None else g.clone()))
    return out


def same(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and bool(((a == b) | ((a != a) & (b != b))).all())


def changed(snaps, what):
    for t, v, shape, stride, rg, g in snaps:
        if tuple(t.shape) != shape or tuple(t.stride()) != stride or t.requires_grad != rg:
            return f"{what}: shape, strides or requires_grad changed"
        if not same(t.detach(), v):
            return f"{what}: its values were modified"
        ng = t.grad if t.is_leaf and t.requires_grad else None
        if (ng is None) != (g is None) or (g is not None and not same(ng, g)):
            return f"{what}: its grad was modified"
    return None


def settings():
    """Settings outside the model that a call could leave changed."""
    b = torch.backends
    out = {
        "default dtype": torch.get_default_dtype(),
        "grad mode": torch.is_grad_enabled(),
        "inference mode": torch.is_inference_mode_enabled(),
        "threads": torch.get_num_threads(),
        "interop threads": torch.get_num_interop_threads(),
        "deterministic algorithms": torch.are_deterministic_algorithms_enabled(),
        "deterministic warn only": torch.is_deterministic_algorithms_warn_only_enabled(),
        "deterministic debug mode": torch.get_deterministic_debug_mode(),
        "fill uninitialized memory": torch.utils.deterministic.fill_uninitialized_memory,
        "anomaly mode": torch.is_anomaly_enabled(),
        "anomaly nan check": torch.is_anomaly_check_nan_enabled(),
        "matmul precision": torch.get_float32_matmul_precision(),
        "autocast": torch.is_autocast_enabled("cpu"),
        "autocast dtype": torch.get_autocast_dtype("cpu"),
        "autocast cache": torch.is_autocast_cache_enabled(),
        "warn always": torch.is_warn_always_enabled(),
        "default device": torch.get_default_device(),
        "mkldnn": b.mkldnn.enabled if hasattr(b.mkldnn, "enabled") else None,
        "cudnn": (b.cudnn.enabled, b.cudnn.benchmark, b.cudnn.deterministic),
        "einsum": (b.opt_einsum.enabled, b.opt_einsum.strategy),
        "print options": str(vars(torch._tensor_str.PRINT_OPTS)),
        "denormals": bool((torch.full((1,), 1e-310, dtype=torch.float64) * 0.5 != 0).item()),
        "recursion limit": sys.getrecursionlimit(),
        "python random numbers": hash(random.getstate()),
        "environment": tuple(sorted(os.environ.items())),
        "working directory": os.getcwd(),
    }
    return out


class World:
    def __init__(self, module, args):
        self.module = module
        self.args = snap(args)
        self.lists = [(a, list(a)) for a in args if isinstance(a, list)]
        self.params = snap(list(module.parameters())) if module is not None else []
        self.ids = [id(p) for p in module.parameters()] if module is not None else []
        self.names = list(module.state_dict()) if module is not None else []
        self.train = [m.training for m in module.modules()] if module is not None else []
        self.rng = torch.get_rng_state()
        self.settings = settings()
        self.hooks = hooks(module)

    def violated(self):
        m = self.module
        d = changed(self.args, "an argument") or changed(self.params, "a parameter of the model")
        if d:
            return d
        for l, content in self.lists:
            if len(l) != len(content) or any(a is not b for a, b in zip(l, content)):
                return "a list given as argument was modified"
        if m is not None:
            if [id(p) for p in m.parameters()] != self.ids:
                return "parameter objects of the model were replaced"
            if list(m.state_dict()) != self.names:
                return "the state dict has other entries than before"
            if [k.training for k in m.modules()] != self.train:
                return "the training flag was changed"
        if not torch.equal(torch.get_rng_state(), self.rng):
            return "the random number generator was advanced"
        now = settings()
        for k, v in self.settings.items():
            if now[k] != v:
                return f"a global setting was changed ({k})"
        if hooks(m) != self.hooks:
            return "hooks of the model were changed"
        return None


def hooks(module):
    if module is None:
        return ()
    out = []
    for k in module.modules():
        out.append((len(k._forward_hooks), len(k._forward_pre_hooks), len(k._backward_hooks)))
    return tuple(out)


def run(case):
    if case[0] == "invert":
        return invert(case[1])
    what, spec, shape, d = case
    spec, shape = tup(spec), tup(shape)
    d = dict(d)
    tan, ncol = d.pop("tan", "generic"), d.pop("ncol", 2)
    c = config(d)
    x, params, node, margin = reference(spec, shape, c["batch"], c["xcls"], c["wcls"], c["dtype"], c["xlay"] == "expanded")
    m = fresh(spec, c["wcls"], c["dtype"], c["frozen"], c["mode"], c["ctor"])
    for p in m.parameters():  # grads of somebody's training step
        if p.requires_grad:
            p.grad = torch.full_like(p, 0.25)
    xin = relayout(x, c["xlay"])
    results = []
    n = 0

    def held():
        for r, v, name in results:
            if not same(r.detach(), v):
                return f"the result of an earlier call ({name}) was modified"
        return None

    def do(name, f, args, fails=False):
        nonlocal n
        n += 1
        w = World(m, args)
        try:
            with default_dtype(c["defdt"]):
                r = f()
        except CaseTimeout:
            raise
        except NotImplementedError:
            r = None
        except Exception:
            if not fails:
                raise
            r = None
        bad = w.violated() or held()
        if bad:
            return f"{name}: {bad}"
        for t in tensors(r):
            results.append((t, t.detach().clone(), name))
        return None

    def outcome(msg=None):
        return Outcome(msg, transitions=n, validated=0 if msg else n)

    if what == "call":
        with torch.no_grad():
            val0 = m(xin)
        bad = do("forward", lambda: m(xin), [xin])
        if bad:
            return outcome(bad)
        cs = list(calls(OPS, ("input", "weight"), MODES + (APPROX,), (tan,), (ncol,), True)) + list(
            calls(("jmp", "mjp", "jmjTp", "jTmjp"), ("input", "weight"), MODES + (APPROX,), ("none",))
        )
        for call in cs:
            if not supported(spec, call):
                continue
            t = tangent(node, call)
            if t is not None:
                t = t.to(DT[c["dtype"]])
                if c["tlay"] == "expanded":
                    t = t[:1].expand_as(t).clone()
            arg = relist(as_argument(node, call, t), c["tlay"])
            val = None
            if c["val"] == "reqgrad":
                val = m(xin)
            elif c["val"] != "none":
                val = relayout(val0.detach(), "contig" if c["val"] == "given" else c["val"])

            def f(call=call, val=val, arg=arg):
                with grad_mode(c["grad"]):
                    return invoke(m, call, xin, val, arg, c["style"])

            bad = do(repr(call), f, [xin, val, arg])
            if bad:
                return outcome(bad)
        if node.n:
            bad = do("get_weight", lambda: m.get_weight(), [])
            if bad:
                return outcome(bad)
        return outcome()
    if what == "failing":
        n_out, n_in = node.jx.shape[1:]
        dt = DT[c["dtype"]]
        for op in OPS[1:]:
            for wrt in ("input", "weight"):
                for shp in ((c["batch"], n_out + n_in + 3), (c["batch"], 2, n_out + n_in + 3), (c["batch"] + 1, n_out, 1)):
                    t = torch.ones(shp, dtype=dt)
                    bad = do(f"{op} wrt {wrt} with a tangent of shape {shp}", lambda: getattr(m, op)(xin, None, t, wrt=wrt), [xin, t], True)
                    if bad:
                        return outcome(bad)
        wrong = torch.ones((c["batch"],) + tuple(s + 1 for s in shape), dtype=dt)
        bad = do("forward of a wrong shape", lambda: m(wrong), [wrong], True)
        return outcome(bad)
    if what == "likelihood":
        y = node.y.to(DT[c["dtype"]])
        onehot = torch.zeros_like(y)
        onehot[..., 0] = 1.0
        for cls, target in ((nnj.LogGaussian, y * 0.5 + 0.1), (nnj.LogBinaryBernoulli, (y > 0).to(y.dtype)), (nnj.LogBernoulli, onehot)):
            for agg in ("return all", "sum", "average"):
                for shp, bp in (("diag", "exact"), ("full", "exact"), ("diag", "approx")):
                    l = cls(aggregate_batch=agg, metric_shape=shp, metric_backprop=bp)
                    name = f"{cls.__name__}({agg},{shp},{bp})"
                    bad = do(name, lambda: l(xin, m, target), [xin, target])
                    for wrt in ("input", "weight"):
                        if wrt == "weight" and node.n == 0:
                            continue
                        bad = bad or do(f"{name}.gradient", lambda: l.gradient(xin, m, target, wrt=wrt), [xin, target])
                        bad = bad or do(f"{name}.ggn", lambda: l.ggn(xin, m, target, wrt=wrt), [xin, target])
                    if bad:
                        return outcome(bad)
        return outcome()
    raise ValueError(what)


def invert(k):
    n = 0
    for dt in ("f64", "f32"):
        a = O.fill((2, k + 1, k + 1), "psd", 3).to(DT[dt]) + torch.eye(k + 1, dtype=DT[dt])
        b = O.fill((2, k, k), "psd", 5).to(DT[dt]) + torch.eye(k, dtype=DT[dt])
        for arg in (a, [a], [a, b], [[a], [b, [a]]]):
            w = World(None, [arg])
            nnj.invert_block_diagonal(arg)
            n += 1
            bad = w.violated()
            if bad:
                return Outcome(f"invert_block_diagonal: {bad}", transitions=n)
    return Outcome(None, transitions=n, validated=n)
