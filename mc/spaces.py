"""Spaces of cases shared by the checks of the products."""
from .ops import METRIC_OPS, MODES, OPS, Call, calls, supported, tangent_shape
from .product import ALTS, BASE, BATCHES, DT, reference, run_calls
from .runner import Outcome
from .spec import is_container, tup
from .universe import BIG, CORE, CUSTOM_LEAVES, CUSTOM_NETS, DENSE_NETS, HUGE, IMAGE_NETS, NETS, deviations, leaves, small_nets

TANS = ["ints", "zero", "basis", "big", "negative", "psd", "antisym", "ones", "dust"]
NCOLS = [1, 2, 4, 7]


def config(d):
    c = dict(BASE)
    c.update(d)
    return c


def diff(cfg):
    return {k: v for k, v in cfg.items() if BASE.get(k) != v}


def circumstances(items, k, alts=ALTS, tans=TANS, ncols=NCOLS, drop=()):
    """items x every set of circumstances within k deviations of the base."""
    base = dict(BASE, tan="generic", ncol=3)
    a = dict(alts, tan=tans, ncol=ncols)
    for n in drop:
        a.pop(n, None)
    for spec, shape in items:
        for cfg in deviations(base, a, k):
            if cfg["xlay"] == "channels_last" and len(shape) != 3:
                continue
            if cfg.get("ctor", "args") != "args" and not is_container(spec):
                continue
            if cfg["grad"] == "inference" and "reqgrad" in (cfg["xlay"], cfg["tlay"], cfg["val"]):
                continue
            yield ["call", spec, shape, {k: v for k, v in cfg.items() if base[k] != v}]


def every_leaf(tier, items=None, xs=("generic", "ties", "mixed"), batches=(1, 3)):
    for spec, shape in items if items is not None else leaves(tier):
        for x in xs:
            for b in batches:
                yield ["call", spec, shape, {"xcls": x, "batch": b, "val": "given" if b == 1 else "none", "style": "mixed" if b == 1 else "defaults"}]


def batch_sweep(items):
    for spec, shape in items:
        for b in BATCHES:
            yield ["call", spec, shape, {"batch": b}]
        for b in (17, 65):  # a batch of that size in every circumstance
            for _, _, _, d in circumstances([(spec, shape)], 1, drop=("batch",)):
                yield ["call", spec, shape, dict(d, batch=b)]
            yield ["call", spec, shape, {"batch": b, "ncol": b}]


def column_sweep(items):
    """Tangents with many columns (rows)."""
    for spec, shape in items:
        for n in (5, 6, 8, 16, 17, 32, 33, 64, 65, 100, 128, 129, 200, 256, 257, 513, 1000, 1025):
            yield ["call", spec, shape, {"batch": 2, "ncol": n}]
            if n in (33, 129):
                yield ["call", spec, shape, {"batch": 1, "ncol": n, "tlay": "transposed", "dtype": "f32", "val": "given"}]


def huge_sweep(items=HUGE):
    """Layers of hundreds to thousands of inputs, outputs or weights, deep chains, batches of a thousand."""
    for spec, shape in items:
        for d in ({}, {"batch": 1, "val": "given"}, {"batch": 3, "dtype": "f32", "ncol": 65}):
            yield ["call", spec, shape, d]
    for spec, shape in CORE:
        for b in (128, 200, 256, 400, 512, 513, 1000, 1024, 1025):
            yield ["call", spec, shape, {"batch": b}]


def small_sweep(tier, extra=()):
    for spec, shape in small_nets(tier):
        for d in ({}, {"batch": 1, "val": "given", "xcls": "other"}, {"batch": 3, "tan": "antisym", "ncol": 1}) + tuple(extra):
            yield ["call", spec, shape, d]


def basis_sweep(items):
    for spec, shape in items:
        yield ["basis", spec, shape, {}]


def big_sweep(items=BIG):
    for spec, shape in items:
        for d in ({}, {"batch": 1}, {"batch": 5, "dtype": "f32"}, {"tlay": "transposed", "val": "given"}, {"xlay": "transposed", "ncol": 11}, {"xcls": "ints", "wcls": "ints", "tan": "ints"}):
            yield ["call", spec, shape, d]
        yield from circumstances([(spec, shape)], 1)


def relevant(cases, ops, modes=MODES, wrts=("input", "weight"), none=False, filt=None):
    """Leaves out the cases in which none of the calls is implemented."""
    memo = {}
    for case in cases:
        spec = case[1]
        if spec not in memo:
            memo[spec] = any(
                supported(spec, k) and (filt is None or filt(spec, k))
                for k in calls(ops, wrts, modes, ("none",) if none else ("generic",), (1,), False)
                if not (k.wrt == "weight" and not is_container(spec) and spec[0] not in ("Linear", "Conv2d") and k.op in ("jvp", "jmp", "jmjTp") and spec[0] in ("Upsample", "MaxPool2d"))
            )
        if memo[spec]:
            yield case


def run_products(case, ops, modes=MODES, wrts=("input", "weight"), blocks=True, none=False, filt=None):
    what, spec, shape, d = case
    spec, shape = tup(spec), tup(shape)
    d = dict(d)
    tan, ncol = d.pop("tan", "generic"), d.pop("ncol", 3)
    c = config(d)
    if what == "call":
        cs = [
            k
            for k in calls(ops, wrts, modes, ("none",) if none else (tan,), (ncol,), blocks)
            if supported(spec, k) and (filt is None or filt(spec, k))
        ]
        return run_calls(spec, shape, cs, c)
    if what == "basis":  # every basis tangent: with linearity, every tangent
        _, _, node, _ = reference(spec, shape, c["batch"], c["xcls"], c["wcls"], c["dtype"], False)
        cs = []
        for k in calls(ops, wrts, modes, ("generic",), (1,), False):
            if k.op == "jacobian" or not supported(spec, k):
                continue
            if k.wrt == "weight" and node.n == 0:
                continue
            sh = tangent_shape(node, k)
            size = 1
            for s in sh[1:]:
                size *= s
            if size > 1200:
                continue
            for e in range(size):
                cs.append(Call(k.op, k.wrt, k.mode, f"e{e}", k.ncol, False))
        return run_calls(spec, shape, cs, c)
    raise ValueError(what)
