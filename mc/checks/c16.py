import torch

from ..lik import AGG, KINDS, NETS_, WIDE, aggregate, curvature, make, targets
from ..ops import differ
from ..product import default_dtype
from ..runner import Outcome
from ..spec import diag_back, is_container, split_blocks
from ..universe import deviations
from ..values import relayout
from .c15 import ALTS_, BASE_, TT, setup

ID, LEVEL = "C16", "model_checking"
RULE = (
    "all three likelihoods x every aggregation x full/diagonal GGN x exact/approximate propagation x 21 networks with vector, matrix "
    "and image outputs x batch size, dtype, weight scale and memory layouts within k deviations (2 quick, 4 thorough), without and "
    "with each target and type of target: the GGN with respect to weight (per layer blocks) and input, against the dense product of the Jacobians with "
    "the analytic Hessian. One case is one state; transitions are GGN calls"
)


def cases(tier):
    for spec, shape in NETS_:
        for kind in KINDS:
            for cfg in deviations(BASE_, ALTS_, 2 if tier == "quick" else 4):
                yield [spec, shape, kind, {k: v for k, v in cfg.items() if BASE_[k] != v}]
        for b in (5, 8, 16, 17, 33, 64, 100, 129, 257):
            for kind in KINDS:
                yield [spec, shape, kind, {"batch": b}]
    for spec, shape in WIDE:
        for kind in KINDS:
            for d in ({}, {"batch": 1}, {"dtype": "f32"}, {"wcls": "big"}, {"wcls": "big", "xcls": "wide"}, {"wcls": "ints", "xcls": "wide"}, {"wcls": "zero"}):
                yield [spec, shape, kind, d]


def run(case):
    spec, shape, kind, c, dtype, x, node, model = setup(case)
    n = 0
    H = curvature(kind, node.y)
    ts = [t.to(dtype if c["ttype"] == "same" else TT[c["ttype"]]) for t in targets(kind, node.y).values()]
    ts = [None] + [relayout(t, c["tlay"]) for t in (ts if not (set(case[3]) - {"ttype", "batch"}) else ts[:1])]
    xin = relayout(x, c["xlay"])
    full = {"input": node.jx.transpose(1, 2) @ H @ node.jx, "weight": node.jw.transpose(1, 2) @ H @ node.jw if node.n else None}
    approx = dict(zip(("input", "weight"), diag_back(node, torch.diagonal(H, dim1=1, dim2=2))))
    for agg in AGG:
        for mshape, bp in (("diag", "exact"), ("full", "exact"), ("diag", "approx")):
            l = make(kind, agg, mshape, bp)
            for wrt in ("weight", "input") if node.n else ("input",):
                if bp == "approx":
                    ref = approx[wrt]
                elif mshape == "diag":
                    ref = torch.diagonal(full[wrt], dim1=1, dim2=2)
                elif wrt == "weight" and is_container(spec):
                    ref = split_blocks(node, full[wrt], False)
                else:
                    ref = full[wrt]
                J = node.jx if wrt == "input" else node.jw
                floor = 0.02 * float(J.abs().max()) ** 2
                for t in ts:
                    with default_dtype(c["defdt"]):
                        if wrt == "weight":
                            got = l.ggn(xin, model, t) if t is not None else l.ggn(xin, model)
                        else:
                            got = l.ggn(xin, model, t, wrt=wrt)
                    n += 1
                    d = differ(got, aggregate(agg, ref), dtype, floor=floor)
                    if d:
                        return Outcome(f"{kind} aggregate={agg} {mshape} {bp} wrt {wrt}: {d}", transitions=n)
    return Outcome(None, transitions=n, validated=n)
