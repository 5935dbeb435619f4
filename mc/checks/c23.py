import torch

from ..lik import AGG, KINDS, NETS_, aggregate, curvature, make, slope, targets, value
from ..ops import APPROX, differ, flat_blocks
from ..product import DT, default_dtype, fresh, x_values
from ..runner import Outcome
from ..spaces import *
from ..spec import Margin, evaluate, n_params, nnj, param_values, set_params
from ..universe import sequences

ID, LEVEL = "C23", "model_checking"
RULE = (
    "both precisions (and, judging the type and the leading digits, both half precisions) x all four torch default precisions x given/absent output x grad mode x None or given matrix, for every layer "
    "configuration of the boxes, every chain of up to 2 (quick) or 3 (thorough) layers and the listed networks, likelihoods, weight "
    "vectors, block inversion, models converted between the precisions after use and models built under either default: every result "
    "has the number type of the input, and in double precision agrees with the reference to 1e-11 of its scale, which no "
    "computation passing through single precision does. One case is one state; transitions are calls"
)
MODES_ = MODES + (APPROX,)
TIGHT = 1e-11


def cases(tier):
    q = tier == "quick"
    for spec, shape in leaves(tier):
        for dt, dd in (("f64", "f32"), ("f32", "f64")) + (() if q else (("f64", "f64"), ("f32", "f32"))):
            yield ["call", spec, shape, {"dtype": dt, "defdt": dd}]
    for spec, shape in CORE + NETS + CUSTOM_LEAVES + BIG:
        for dt in ("f64", "f32"):
            for dd in ("f64", "f32"):
                for val in ("none", "given", "reqgrad"):
                    for grad in ("on", "off"):
                        for none in (False, True):
                            for b in (1, 4):
                                yield ["none" if none else "call", spec, shape, {"dtype": dt, "defdt": dd, "val": val, "grad": grad, "batch": b}]
                yield ["life", spec, shape, dt, dd]
    for spec, shape in list(leaves(tier)) + CORE + NETS + CUSTOM_LEAVES:
        for dt in ("bf16", "f16"):
            for none in ("call", "none"):
                yield [none, spec, shape, {"dtype": dt}]
                yield [none, spec, shape, {"dtype": dt, "batch": 1, "val": "given", "defdt": "f64"}]
    for spec, shape in CORE + NETS + CUSTOM_LEAVES:
        for dt in ("f64", "f32", "bf16", "f16"):
            for dd in ("bf16", "f16"):
                yield ["call", spec, shape, {"dtype": dt, "defdt": dd}]
                yield ["none", spec, shape, {"dtype": dt, "defdt": dd, "batch": 3}]
    for spec, shape in HUGE[1:]:
        for dt, dd in (("f64", "f32"), ("f32", "f64")):
            yield ["call", spec, shape, {"dtype": dt, "defdt": dd, "batch": 1}]
            yield ["none", spec, shape, {"dtype": dt, "defdt": dd}]
    for spec, shape in CORE:
        for b in (17, 65, 129, 257, 1000):
            yield ["call", spec, shape, {"dtype": "f64", "batch": b}]
            yield ["none", spec, shape, {"dtype": "f64", "batch": b}]
    for start in ((2,), (4,), (1, 2, 3)):
        for seq in sequences(start, 2 if q else 3):
            for dt, dd in (("f64", "f32"), ("f32", "f64")):
                yield ["call", ("Seq",) + seq, start, {"dtype": dt, "defdt": dd}]
                yield ["none", ("Seq",) + seq, start, {"dtype": dt, "defdt": dd}]
            yield ["call", ("Seq",) + seq, start, {"dtype": "bf16"}]
            yield ["none", ("Seq",) + seq, start, {"dtype": "f16"}]
    for spec, shape in [i for i in NETS_ if n_params(i[0])]:
        for kind in KINDS:
            for dt in ("f64", "f32"):
                for dd in ("f64", "f32"):
                    yield ["likelihood", spec, shape, kind, dt, dd]


def run(case):
    if case[0] == "likelihood":
        return likelihood(*case[1:])
    if case[0] == "life":
        return life(*case[1:])
    from ..ops import calls, supported
    from ..product import run_calls

    spec, shape = tup(case[1]), tup(case[2])
    c = config(case[3])
    none = case[0] == "none"
    cs = [k for k in calls(OPS, ("input", "weight"), MODES_, ("none",) if none else ("generic",), (2,), not none) if supported(spec, k)]
    return run_calls(spec, shape, cs, c, rtol=TIGHT if c["dtype"] == "f64" else None)


def life(spec, shape, dt, dd):
    """Built under one default precision, used, converted, used, converted back, used."""
    from ..ops import calls, supported
    from ..product import run_calls

    spec, shape = tup(spec), tup(shape)
    other = {"f64": "f32", "f32": "f64"}[dt]
    from ..spec import build

    with default_dtype(dd):
        m = build(spec)
    n = v = 0
    for step, d in enumerate((dt, other, dt)):
        m = m.to(DT[d]) if step else (m.double() if d == "f64" else m.float())
        set_params(m, param_values(spec, "generic", DT[d]))
        cs = [k for k in calls(OPS, ("input", "weight"), MODES[:1] + (APPROX,), ("generic",), (2,)) if supported(spec, k)]
        c = config({"dtype": d, "defdt": dd})
        out = run_calls(spec, shape, cs, c, module=m, rtol=TIGHT if d == "f64" else None)
        n, v = n + out.transitions, v + out.validated
        if out.message:
            return Outcome(f"converted {step} times, now {d}: {out.message}", transitions=n)
        x = x_values(shape, 2, "generic").to(DT[d])
        if m(x).dtype != DT[d]:
            return Outcome(f"output of type {m(x).dtype} for an input of type {DT[d]}", transitions=n)
        if list(m.parameters()):
            w = m.get_weight()
            if w.dtype != DT[d]:
                return Outcome(f"weight vector of type {w.dtype} instead of {DT[d]}", transitions=n)
            m.set_weight(w)
            if any(p.dtype != DT[d] for p in m.parameters()):
                return Outcome("writing the weights changed their type", transitions=n)
            blocks = m.jTmjp(x, None, None, wrt="weight")
            add = lambda o: [add(i) for i in o] if isinstance(o, list) else o + torch.eye(o.shape[-1], dtype=o.dtype)
            for a, g in zip(flat_blocks(add(blocks)), flat_blocks(nnj.invert_block_diagonal(add(blocks)))):
                if g.dtype != DT[d]:
                    return Outcome(f"inverse of type {g.dtype} instead of {DT[d]}", transitions=n)
                n += 1
                dd_ = differ(g @ a, torch.eye(a.shape[-1], dtype=torch.float64).expand(a.shape), DT[d], rtol=1e-10 if d == "f64" else None)
                if dd_:
                    return Outcome(f"inverse: {dd_}", transitions=n)
    return Outcome(None, transitions=n, validated=v)


def likelihood(spec, shape, kind, dt, dd):
    spec, shape = tup(spec), tup(shape)
    dtype = DT[dt]
    x = x_values(shape, 3, "generic").to(dtype)
    node = evaluate(spec, param_values(spec, "generic", dtype), x.double(), Margin())
    m = fresh(spec, "generic", dt)
    n = 0
    rtol = TIGHT if dt == "f64" else None
    t = next(iter(targets(kind, node.y).values())).to(dtype)
    H = curvature(kind, node.y)
    for agg in AGG:
        for shp, bp in (("diag", "exact"), ("full", "exact"), ("diag", "approx")):
            with default_dtype(dd):
                l = make(kind, agg, shp, bp)
                got = {
                    "value": (l(x, m, t).detach(), aggregate(agg, value(kind, node.y, t.double()))),
                    "gradient wrt weight": (l.gradient(x, m, t), aggregate(agg, torch.einsum("bi,bij->bj", slope(kind, node.y, t.double()), node.jw))),
                    "gradient wrt input": (l.gradient(x, m, t, wrt="input"), aggregate(agg, torch.einsum("bi,bij->bj", slope(kind, node.y, t.double()), node.jx))),
                }
                g = l.ggn(x, m, t)
                gi = l.ggn(x, m, t, wrt="input")
            n += 5
            for what, (a, r) in got.items():
                d = differ(a, r, dtype, rtol=rtol, floor=1.0)
                if d:
                    return Outcome(f"{kind} {agg} {what}: {d}", transitions=n)
            for b in flat_blocks(g) + flat_blocks(gi):
                if b.dtype != dtype:
                    return Outcome(f"{kind} {agg} {shp} {bp}: GGN of type {b.dtype} instead of {dtype}", transitions=n)
            if shp == "diag" and bp == "exact":
                for a, J in ((g, node.jw), (gi, node.jx)):
                    r = aggregate(agg, torch.diagonal(J.transpose(1, 2) @ H @ J, dim1=1, dim2=2))
                    d = differ(a, r, dtype, rtol=rtol, floor=1.0)
                    if d:
                        return Outcome(f"{kind} {agg} GGN: {d}", transitions=n)
    return Outcome(None, transitions=n, validated=n)
