import torch

from ..lik import AGG, KINDS, NETS_, WIDE, aggregate, make, probs, slope, targets, value
from ..ops import differ
from ..product import DT, default_dtype, fresh, x_values
from ..runner import Outcome
from ..spaces import tup
from ..spec import Margin, evaluate, param_values
from ..universe import deviations
from ..values import relayout

ID, LEVEL = "C15", "model_checking"
RULE = (
    "all three likelihoods x every aggregation x every named target (all classes, binary, soft, exact) x 21 networks with vector, "
    "matrix and image outputs x batch size, dtype, weight scale, memory layouts and type of the target within k deviations (2 quick, all combinations "
    "thorough): value, gradient with respect to weight and to input. One case is one state; transitions are likelihood calls"
)
BASE_ = dict(batch=3, dtype="f64", xcls="generic", wcls="generic", xlay="contig", tlay="contig", defdt="f32", ttype="same")
TT = {"int64": torch.int64, "int32": torch.int32, "int8": torch.int8, "uint8": torch.uint8, "bool": torch.bool, "f32": torch.float32, "f16": torch.float16, "bf16": torch.bfloat16}
ALTS_ = dict(batch=[1, 2, 4, 7], dtype=["f32"], xcls=["zero", "ones", "wide", "mixed"], wcls=["zero", "big", "ints", "other"], xlay=["transposed", "expanded", "reqgrad"], tlay=["transposed", "strided"], defdt=["f64"], ttype=list(TT))


def cases(tier):
    for spec, shape in NETS_:
        for kind in KINDS:
            for cfg in deviations(BASE_, ALTS_, 2 if tier == "quick" else 4):
                yield [spec, shape, kind, {k: v for k, v in cfg.items() if BASE_[k] != v}]
        for b in (5, 8, 16, 17, 33, 64, 100, 128, 129, 257, 1000):
            for kind in KINDS:
                yield [spec, shape, kind, {"batch": b}]
    for spec, shape in WIDE:
        for kind in KINDS:
            for d in ({}, {"batch": 1}, {"batch": 17}, {"dtype": "f32"}, {"wcls": "big"}, {"wcls": "big", "xcls": "wide"}, {"wcls": "ints", "xcls": "wide"}, {"wcls": "zero"}):
                yield [spec, shape, kind, d]


def setup(case):
    spec, shape, kind = tup(case[0]), tup(case[1]), case[2]
    c = dict(BASE_, **case[3])
    dtype = DT[c["dtype"]]
    x = x_values(shape, c["batch"], c["xcls"]).to(dtype)
    if c["xlay"] == "expanded":
        x = x[:1].expand_as(x).clone()
    m = Margin()
    node = evaluate(spec, param_values(spec, c["wcls"], dtype), x.double(), m)
    model = fresh(spec, c["wcls"], c["dtype"])
    return spec, shape, kind, c, dtype, x, node, model


def run(case):
    spec, shape, kind, c, dtype, x, node, model = setup(case)
    n = 0
    y = node.y
    for name, t in targets(kind, y).items():
        t = t.to(dtype)
        tt = relayout(t, c["tlay"])
        if c["ttype"] != "same":
            # a target of another type with the same values, which does not widen the computation
            tt = relayout(t.to(TT[c["ttype"]]), c["tlay"])
            if not torch.equal(tt.double(), t.double()):
                continue
        xin = relayout(x, c["xlay"])
        td = t.double()
        v = value(kind, y, td)
        s = slope(kind, y, td)
        refs = {
            "input": torch.einsum("bi,bij->bj", s, node.jx),
            "weight": torch.einsum("bi,bij->bj", s, node.jw) if node.n else None,
        }
        for agg in AGG:
            l = make(kind, agg)
            what = f"{kind} target={name} aggregate={agg}"
            try:
                with default_dtype(c["defdt"]):
                    got = l(xin, model, tt)
                    if c["ttype"] == "bool":
                        l.gradient(xin, model, tt, wrt="input")
            except RuntimeError:
                if c["ttype"] == "bool":  # torch does not subtract truth values
                    continue
                raise
            n += 1
            d = differ(got.detach(), aggregate(agg, v), dtype, floor=0.01 * float(y.abs().max()))
            if d:
                return Outcome(f"{what}: value: {d}", transitions=n)
            for wrt in ("weight", "input") if node.n else ("input",):
                with default_dtype(c["defdt"]):
                    got = l.gradient(xin, model, tt) if wrt == "weight" else l.gradient(xin, model, tt, wrt=wrt)
                n += 1
                J = node.jx if wrt == "input" else node.jw
                floor = 0.05 * float(J.abs().max()) * max(1.0, float(td.abs().max()), float(y.abs().max()) if kind == "LogGaussian" else 0.0)
                d = differ(got, aggregate(agg, refs[wrt]), dtype, floor=floor)
                if d:
                    return Outcome(f"{what}: gradient wrt {wrt}: {d}", transitions=n)
    return Outcome(None, transitions=n, validated=n)
