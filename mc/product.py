"""One call on one network in one set of circumstances, judged by the reference. Shared by most checks."""
import functools

import torch

from . import env
from .ops import Call, as_argument, differ, expected, floor_scale, invoke, supported, tangent
from .runner import CaseTimeout, Outcome
from .spec import Margin, build, evaluate, is_container, make, param_values, set_params, tup
from .values import ints, pattern, relayout

DT = {"f64": torch.float64, "f32": torch.float32, "bf16": torch.bfloat16, "f16": torch.float16}


def x_values(shape, batch, xcls, salt=1):
    full = (batch,) + tuple(shape)
    if xcls == "generic":
        return pattern(full, salt=salt)
    if xcls == "other":
        return pattern(full, salt=salt + 31)
    if xcls == "wide":
        return 3.0 * pattern(full, salt=salt + 5)
    if xcls == "huge":
        return 1e4 * pattern(full, salt=salt + 7)
    if xcls == "tiny":
        return 1e-3 * pattern(full, salt=salt + 6)
    if xcls == "ints":
        return ints(full, salt=salt)
    if xcls == "ties":
        return ints(full, salt=salt, lo=0, hi=1)
    if xcls == "zero":
        return torch.zeros(full, dtype=torch.float64)
    if xcls == "ones":
        return torch.ones(full, dtype=torch.float64)
    if xcls == "positive":
        return pattern(full, salt=salt + 8, lo=0.1, hi=2.0)
    if xcls == "negative":
        return -pattern(full, salt=salt + 8, lo=0.1, hi=2.0)
    if xcls == "mixed":  # samples of very different size, the middle one zero
        v = pattern(full, salt=salt + 9)
        f = torch.tensor([10.0 ** ((i % 3) - 1) for i in range(batch)], dtype=torch.float64)
        if batch > 2:
            f[1] = 0.0
        return v * f.reshape((batch,) + (1,) * len(shape))
    raise ValueError(xcls)


BASE = dict(
    batch=2,
    dtype="f64",
    xlay="contig",
    tlay="contig",
    val="none",
    xcls="generic",
    wcls="generic",
    grad="on",
    mode="train",
    frozen=False,
    style="mixed",
    defdt="f32",
    ctor="args",
)

ALTS = dict(
    batch=[1, 3, 4, 7],
    dtype=["f32"],
    xlay=["transposed", "strided", "offset", "expanded", "channels_last", "reqgrad"],
    tlay=["transposed", "strided", "offset", "expanded", "reqgrad"],
    val=["given", "transposed", "strided", "reqgrad"],
    xcls=["zero", "ones", "ints", "ties", "wide", "tiny", "positive", "negative", "mixed"],
    wcls=["zero", "ones", "ints", "big", "positive", "onehot"],
    grad=["off", "inference"],
    mode=["eval"],
    frozen=[True],
    style=["keyword", "positional", "defaults"],
    defdt=["f64"],
    ctor=["named", "appended", "inserted", "nohooks", "shared"],
)
BATCHES = [5, 6, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 64, 65, 100, 129, 257]


@functools.lru_cache(maxsize=24)
def reference(spec, shape, batch, xcls, wcls, dt, expanded):
    dtype = DT[dt]
    x = x_values(shape, batch, xcls).to(dtype)
    if expanded:
        x = x[:1].expand_as(x).clone()
    params = param_values(spec, wcls, dtype)
    m = Margin()
    node = evaluate(spec, params, x.double(), m)
    return x, params, node, m.value


def fresh(spec, wcls="generic", dt="f64", frozen=False, mode="train", ctor="args"):
    m, _ = make(spec, wcls, DT[dt], ctor)
    if frozen:
        for p in m.parameters():
            p.requires_grad_(False)
    m.train(mode == "train")
    return m


def on_kink(spec, margin, dt):
    """Whether rounding may decide on which side of a kink an intermediate value falls. A leaf gets its input exactly."""
    return is_container(spec) and margin < {"f64": 1e-9, "f32": 1e-4}.get(dt, 0.1)


class grad_mode:
    def __init__(self, g):
        self.c = {"on": torch.enable_grad, "off": torch.no_grad, "inference": torch.inference_mode}[g]()

    def __enter__(self):
        return self.c.__enter__()

    def __exit__(self, *a):
        return self.c.__exit__(*a)


class default_dtype:
    def __init__(self, dt):
        self.dt = DT[dt]

    def __enter__(self):
        self.old = torch.get_default_dtype()
        torch.set_default_dtype(self.dt)

    def __exit__(self, *a):
        torch.set_default_dtype(self.old)


def relist(t, layout):
    if isinstance(t, list):
        return [relist(i, layout) for i in t]
    return relayout(t, layout)


def cast(t, dtype):
    if isinstance(t, list):
        return [cast(i, dtype) for i in t]
    return None if t is None else t.to(dtype)


def judge(spec, shape, call, c, module=None, rtol=None, may_refuse=False):
    """Executes the call; returns (message or None, skipped, refused)."""
    dtype = DT[c["dtype"]]
    x, params, node, margin = reference(spec, shape, c["batch"], c["xcls"], c["wcls"], c["dtype"], c["xlay"] == "expanded")
    if on_kink(spec, margin, c["dtype"]):
        return None, 1, 0
    t = tangent(node, call)
    if t is not None:
        t = t.to(dtype)
        if c["tlay"] == "expanded":
            t = t[:1].expand_as(t).clone()
    ref = expected(node, call, None if t is None else t.double())
    arg = relist(as_argument(node, call, t), c["tlay"] if c["tlay"] != "expanded" else "expanded")
    xin = relayout(x, c["xlay"])
    m = module if module is not None else fresh(spec, c["wcls"], c["dtype"], c["frozen"], c["mode"], c["ctor"])
    val = None
    if c["val"] != "none":
        if c["val"] == "reqgrad":
            val = m(xin)
        else:
            with torch.no_grad():
                val = m(xin)
            val = relayout(val.detach(), "contig" if c["val"] == "given" else c["val"])
    try:
        with grad_mode(c["grad"]), default_dtype(c["defdt"]):
            got = invoke(m, call, xin, val, arg, c["style"])
    except NotImplementedError:
        if may_refuse or not supported(spec, call):
            return None, 0, 1
        raise
    if got is not None and isinstance(got, torch.Tensor) and got.requires_grad:
        got = got.detach()
    floor = floor_scale(node, call, t)
    if c["dtype"] in ("bf16", "f16"):  # a few digits: mostly the type is judged
        rtol, floor = 0.1, max(1.0, floor)
    d = differ(got, ref, dtype, rtol, floor=floor)
    return (f"{call!r}: {d}" if d else None), 0, 0


def run_calls(spec, shape, calls, c, may_refuse=False, module=None, rtol=None):
    """All the calls, one after the other, on one library object."""
    n = val = sk = rf = 0
    msg = None
    if module is None:
        module = fresh(spec, c["wcls"], c["dtype"], c["frozen"], c["mode"], c["ctor"])
    for call in calls:
        n += 1
        try:
            m, s, r = judge(spec, shape, call, c, module, rtol, may_refuse)
        except CaseTimeout:
            raise
        except Exception as e:
            msg = f"{call!r}: raised {type(e).__name__}: {str(e)[:300]}"
            break
        sk += s
        rf += r
        val += 1 - s - r
        if m:
            msg = m
            break
    return Outcome(msg, states=1, transitions=n, validated=val, skipped=sk, refused=rf)


def call_of(k):
    return Call(*[tuple(i) if isinstance(i, list) else i for i in k])
