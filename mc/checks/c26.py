import torch
from torch import nn
from torch._subclasses.fake_tensor import DataDependentOutputException, DynamicOutputShapeException, FakeTensorMode, UnsupportedOperatorException

from ..lik import KINDS, NETS_, make, targets
from ..ops import APPROX, as_argument, calls, expected, invoke, supported, tangent
from ..product import DT, reference
from ..runner import CaseTimeout, Outcome
from ..spaces import *
from ..spec import build, nnj, param_values
from ..universe import sequences

ID, LEVEL = "C26", "model_checking"
RULE = (
    "every layer configuration of the boxes, every chain of up to 2 (quick) or 3 (thorough) layers, every network of the list, "
    "likelihoods, weight vectors and block inversion, with model and arguments on a second device, in both precisions: "
    "every product in every mode with and without matrix and output; no operation mixes devices, and every tensor returned is on the "
    "device of the input with the number type and shape of the reference. The second device is simulated: tensors that know their "
    "device, type and shape but hold no numbers (torch's FakeTensorMode, cuda). One case is one state; transitions are calls"
)
ASSUMPTIONS = ["the device is simulated by torch's FakeTensorMode; an operation it does not support is skipped, not judged"]
MODES_ = MODES + (APPROX,)
ALL = ("jmp", "mjp", "jmjTp", "jTmjp")
WHERE = ["cuda"]


def cases(tier):
    q = tier == "quick"
    for spec, shape in CORE + NETS + BIG:
        for dt in ("f64", "f32"):
            for given in (0, 1):
                for b in (1, 2):
                    yield ["call", spec, shape, dt, given, b]
    for spec, shape in leaves(tier):
        yield ["call", spec, shape, "f64", 0, 2]
        if not q:
            yield ["call", spec, shape, "f32", 1, 1]
    for spec, shape in HUGE[1:]:
        yield ["call", spec, shape, "f64", 0, 2]
    for spec, shape in CORE:
        for b in (17, 65, 257):
            yield ["call", spec, shape, "f64", 0, b]
    for start in ((2,), (1, 2, 3)):
        for seq in sequences(start, 2 if q else 3):
            yield ["call", ("Seq",) + seq, start, "f64", 0, 2]
    for spec, shape in NETS_:
        for kind in KINDS:
            for dt in ("f64", "f32"):
                yield ["lik", spec, shape, kind, dt]


NO_ANSWER = (DataDependentOutputException, DynamicOutputShapeException, UnsupportedOperatorException, NotImplementedError)


def attempt(f):
    """(result, None), or (None, message)"""
    try:
        return f(), None
    except CaseTimeout:
        raise
    except NO_ANSWER:
        return None, ""
    except Exception as e:
        return None, f"raised {type(e).__name__}: {str(e)[:200]}"


def there(t, dtype):
    if isinstance(t, list):
        return [there(i, dtype) for i in t]
    return None if t is None else torch.empty(tuple(t.shape), dtype=dtype, device=WHERE[0])


def moved(m, dtype):
    """The model on the second device (its parameters replaced; nothing else is touched)."""
    for mod in m.modules():
        for n, p in list(mod._parameters.items()):
            if p is not None:
                mod._parameters[n] = nn.Parameter(torch.empty(tuple(p.shape), dtype=dtype, device=WHERE[0]))
        for n, p in list(mod._buffers.items()):
            if p is not None:
                mod._buffers[n] = torch.empty(tuple(p.shape), dtype=p.dtype if not p.dtype.is_floating_point else dtype, device=WHERE[0])
    return m


def wrong(got, ref, dtype):
    if ref is None:
        return None
    if isinstance(ref, list):
        if not isinstance(got, (list, tuple)) or len(got) != len(ref):
            return None  # judged elsewhere
        for g, r in zip(got, ref):
            d = wrong(g, r, dtype)
            if d:
                return d
        return None
    if not isinstance(got, torch.Tensor):
        return None
    if got.device.type != WHERE[0]:
        return f"the result is on {got.device}, the input on {WHERE[0]}"
    if got.dtype != dtype or tuple(got.shape) != tuple(ref.shape):
        return f"result of {got.dtype} {tuple(got.shape)} instead of {dtype} {tuple(ref.shape)}"
    return None


def run(case):
    """A complaint counts when the same simulation has none on the default device."""
    out = explore(case)
    if out.message:
        WHERE[0] = "cpu"
        try:
            if explore(case).message:
                return Outcome(None, transitions=out.transitions, skipped=1)
        finally:
            WHERE[0] = "cuda"
    return out


def explore(case):
    spec, shape = tup(case[1]), tup(case[2])
    if case[0] == "lik":
        return lik(spec, shape, case[3], case[4])
    dt, given, b = case[3:]
    dtype = DT[dt]
    x, params, node, margin = reference(spec, shape, b, "generic", "generic", "f64", False)
    todo = []
    for none in (False, True):
        for c in calls(OPS if not none else ALL, ("input", "weight"), MODES_, ("none",) if none else ("generic",), (2,), not none):
            if supported(spec, c):
                t = tangent(node, c)
                todo.append((c, as_argument(node, c, t), expected(node, c, t)))
    m = build(spec)
    n = v = sk = 0
    with FakeTensorMode():
        m = moved(m, dtype)
        xin = there(x, dtype)
        y, bad = attempt(lambda: m(xin).detach())
        n += 1
        if bad is not None:
            return Outcome(f"forward: {bad}" if bad else None, transitions=n, skipped=1)
        d = wrong(y, node.y, dtype)
        if d:
            return Outcome(f"forward: {d}", transitions=n)
        for c, arg, ref in todo:
            n += 1
            r, bad = attempt(lambda: invoke(m, c, xin, y if given else None, there(arg, dtype)))
            if bad:
                return Outcome(f"{c!r}: {bad}", transitions=n)
            if bad == "":
                sk += 1
                continue
            d = wrong(r, ref, dtype)
            if d:
                return Outcome(f"{c!r}: {d}", transitions=n)
            v += 1
        if node.n:
            n += 2
            w, bad = attempt(lambda: m.get_weight())
            d = bad or wrong(w, torch.empty(node.n), dtype)
            if d:
                return Outcome(f"get_weight: {d}", transitions=n)
            _, bad = attempt(lambda: m.set_weight(torch.empty(node.n, dtype=dtype, device=WHERE[0])))
            if bad:
                return Outcome(f"set_weight: {bad}", transitions=n)
            for p in m.parameters():
                if p.device.type != WHERE[0]:
                    return Outcome("writing the weights moved the parameters to another device", transitions=n)
            blocks, bad = attempt(lambda: m.jTmjp(xin, None, None, wrt="weight"))
            if not bad and bad is None:
                inv, bad = attempt(lambda: nnj.invert_block_diagonal(blocks))
                n += 1
                d = bad or wrong(inv, blocks, dtype)
                if d:
                    return Outcome(f"invert_block_diagonal: {d}", transitions=n)
    return Outcome(None, transitions=n, validated=v, skipped=sk)


def lik(spec, shape, kind, dt):
    dtype = DT[dt]
    x, params, node, margin = reference(spec, shape, 2, "generic", "generic", "f64", False)
    m = build(spec)
    n = v = sk = 0
    with FakeTensorMode():
        m = moved(m, dtype)
        xin, t = there(x, dtype), there(node.y, dtype)
        for agg in ("return all", "sum", "average"):
            for shp, bp in (("diag", "exact"), ("full", "exact"), ("diag", "approx")):
                l = make(kind, agg, shp, bp)
                for wrt in ("input", "weight") if node.n else ("input",):
                    for what, f in (("value", lambda: l(xin, m, t)), ("gradient", lambda: l.gradient(xin, m, t, wrt=wrt)), ("GGN", lambda: l.ggn(xin, m, t, wrt=wrt))):
                        n += 1
                        r, bad = attempt(f)
                        if bad:
                            return Outcome(f"{kind} {agg} {shp} {bp} {what} wrt {wrt}: {bad}", transitions=n)
                        if bad == "":
                            sk += 1
                            continue
                        for i in flat(r):
                            if i.device.type != WHERE[0] or i.dtype != dtype:
                                return Outcome(f"{kind} {agg} {shp} {bp} {what} wrt {wrt}: the result is {i.dtype} on {i.device}", transitions=n)
                        v += 1
    return Outcome(None, transitions=n, validated=v, skipped=sk)


def flat(o):
    if isinstance(o, torch.Tensor):
        return [o]
    return [t for i in o for t in flat(i)] if isinstance(o, (list, tuple)) else []
