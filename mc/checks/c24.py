import itertools

import torch

from ..lik import KINDS, curvature, make, slope, value
from ..ops import APPROX, MODES, OPS, calls, differ, expected, floor_scale, invoke, supported, tangent
from ..product import DT
from ..runner import CaseTimeout, Outcome
from ..spec import Margin, build, evaluate, is_container, nnj, param_shapes, set_params, tup
from ..universe import ELEM
from ..values import pattern

ID, LEVEL = "C24", "model_checking"
RULE = (
    "every word of length 1 and 2 (quick) or 3 (thorough) over 27 extreme and ordinary numbers (zeros of both signs, subnormal to "
    "1e30) as input of every activation and of the normalisation, in both precisions, with the output given or not; chains in which "
    "an activation saturates; the same numbers as entries of the input of linear layers, convolutions, poolings and reshapings; every word of length 3 over 18 logits (0 to 1e6, both signs) x every class as output and target of "
    "each likelihood, through models with one and two layers: value, gradient, GGN, products in all modes are finite and agree with "
    "a reference written without overflow. One case is one block of words; states are words, transitions are calls"
)
X = [0.0, -0.0, 1e-300, -1e-300, 1e-30, 1e-8, -1e-8, 1e-3, 0.5, -0.5, 1.0, -1.0, 5.0, -5.0, 15.0, -20.0, 20.5, 40.0, -50.0, 89.0, -104.0, 710.0, -1000.0, 1e10, -1e10, 1e30, -1e30]
LOGITS = [0.0, 0.5, -1.0, 10.0, -20.0, 20.5, -24.0, 31.0, 40.0, 60.0, -90.0, 100.0, -300.0, 710.0, -800.0, 1e4, -1e6, 1e6]
MODES_ = MODES + (APPROX,)
OTHER = [
    (("Linear", 2, 2, True), (2,)),
    (("Linear", 2, 3, False), (2,)),
    (("Conv2d", 1, 2, (1, 2), (0, 1), (1, 1), True, True), (1, 1, 3)),
    (("Conv2d", 1, 1, (2, 1), (1, 0), (1, 1), False, False), (1, 2, 1)),
    (("MaxPool2d", 2, 1, 1, 1, False), (1, 2, 2)),
    (("MaxPool2d", 2, None, 0, 1, False), (1, 2, 2)),
    (("MaxPool2d", 3, 2, 1, 1, True), (1, 3, 2)),
    (("MaxPool2d", 2, None, 0, 1, False), (2, 2, 2)),
    (("Upsample", 2), (1, 1, 2)),
    (("Reshape", 2, 1), (2,)),
    (("Flatten",), (1, 2)),
]


def cases(tier):
    q = tier == "quick"
    for dt in ("f64", "f32"):
        for s in ELEM + [("Softplus", 10.0, 20.0), ("Softplus", 0.1, 20.0), ("Softplus", 1.0, 1e6), ("Softplus", 3.0, 500.0)]:
            for k in (1, 2) if q else (1, 2, 3):
                for first in range(len(X)):
                    if k == 1 and first:
                        continue
                    yield ["act", s, k, first, dt]
            for scale in (1.0, 30.0, 1e3, 1e6) if s[2:] not in ((1e6,), (500.0,)) else ():
                yield ["chain", s, scale, dt]
        for eps in (None, 0.5):
            for first in range(len(X)):
                yield ["norm", eps, first, dt]
        for i in range(len(OTHER)):
            for first in range(len(X)):
                yield ["other", i, first, dt]
        for kind in KINDS:
            for first in range(len(LOGITS)):
                yield ["lik", kind, first, dt, 2 if q else 3]


def words(first, k, alphabet):
    for rest in itertools.product(range(len(alphabet)), repeat=k - 1):
        yield [alphabet[first]] + [alphabet[i] for i in rest]


def check_products(spec, x, dt, given=(False, True), params=()):
    """All products of a leaf or chain at x, in one batch."""
    dtype = DT[dt]
    m = build(spec).to(dtype)
    set_params(m, list(params))
    mg = Margin()
    node = evaluate(spec, list(params), x.double(), mg)
    n = 0
    y = m(x)
    n += 1
    top = 3e38 if dt == "f32" else float("inf")
    ok = torch.isfinite(node.y) & (node.y.abs() < top)
    if spec[0] == "Softplus":  # torch's own output overflows below a threshold set beyond the range of exp
        z = spec[1] * x.double() if len(spec) > 1 else x.double()
        ok &= ~((z > (700 if dt == "f64" else 88)) & (z <= (spec[2] if len(spec) > 2 else 20.0)))
    # an entry of the output that does not fit the precision may overflow
    for b in range(x.shape[0]):
        d = differ(y[b][ok[b]], node.y[b][ok[b]], dtype)
        if d:
            return f"output at {x[b].tolist()}: {d}", n
    for c in calls(OPS, ("input",) if not params else ("input", "weight"), MODES_, ("generic",), (2,)):
        if not supported(spec, c):
            continue
        t = tangent(node, c)
        t = None if t is None else t.to(dtype)
        ref = expected(node, c, None if t is None else t.double())
        for g in given:
            if g and not bool(ok.all()):
                continue
            got = invoke(m, c, x, y.detach() if g else None, t)
            n += 1
            fits = lambda r: bool((r.abs() < top).all())
            for b in range(x.shape[0]):
                if isinstance(ref, list):
                    r, o = [i[b] for i in ref], [i[b] for i in got] if isinstance(got, list) else got
                    if not all(fits(i) for i in r):
                        continue
                else:
                    r, o = ref[b], got[b]
                    if not fits(r):
                        continue
                J = (node.jx if c.wrt == "input" else node.jw)[b]
                floor = 0.05 * float(J.abs().max()) ** (2 if c.op in ("jmjTp", "jTmjp") else 1)
                if spec[0] == "L2Norm":
                    eps = spec[1] if len(spec) > 1 else 1e-6
                    floor = max(floor, (1.0 / (float(x[b].double().norm()) + eps)) ** (2 if c.op in ("jmjTp", "jTmjp") else 1))
                d = differ(o, r, dtype, floor=floor, rtol=None if dt == "f32" else (1e-7 if is_container(spec) else 1e-12))
                if d:
                    return f"{c!r} at {x[b].tolist()}{' (output given)' if g else ''}: {d}", n
    return None, n


def run(case):
    k = case[0]
    if k == "act":
        _, spec, length, first, dt = case
        spec = tup(spec)
        if length == 1:
            ws = [[v] for v in X]
        else:
            ws = list(words(first, length, X))
        if dt == "f32":
            ws = [w for w in ws if all(v == 0 or abs(v) > 1e-45 for v in w)]
        if spec[0] == "Sinusoidal":  # the angle itself has no digits left
            ws = [w for w in ws if all(abs(v) < 1e4 for v in w)]
        if not ws:
            return Outcome(None, states=0)
        x = torch.tensor(ws, dtype=torch.float64).to(DT[dt])
        d, n = check_products(spec, x, dt)
        return Outcome(d, states=len(ws), transitions=n, validated=0 if d else n)
    if k == "chain":
        _, act, scale, dt = case
        act = tup(act)
        if act[0] == "TruncExp" and scale > 10 or act[0] == "Sinusoidal" and scale > 1e3:
            return Outcome(None, states=0)
        spec = ("Seq", ("Linear", 2, 3, True), act, ("Linear", 3, 2, True))
        ps = [pattern(s, salt=70 + j) * (scale if j == 0 else 1.0) for j, s in enumerate(param_shapes(spec))]
        ps = [p.to(DT[dt]).double() for p in ps]
        x = pattern((5, 2), salt=71).to(DT[dt])
        mg = Margin()
        evaluate(spec, ps, x.double(), mg)
        if mg.value < 1e-3 * min(scale, 1.0) or (dt == "f32" and act[0] == "Sinusoidal" and scale > 1):
            return Outcome(None, skipped=1)
        d, n = check_products(spec, x, dt, params=ps)
        return Outcome(d, transitions=n, validated=0 if d else n)
    if k == "other":  # the first entries of the input form the word, the rest is ordinary
        spec, shape = OTHER[case[1]]
        dt = case[3]
        x = pattern((len(X),) + shape, salt=75)
        x.view(len(X), -1)[:, :2] = torch.tensor(list(words(case[2], 2, X)), dtype=torch.float64)
        ps = [pattern(s, salt=76 + j).to(DT[dt]).double() for j, s in enumerate(param_shapes(spec))]
        d, n = check_products(spec, x.to(DT[dt]), dt, params=ps)
        return Outcome(d, states=len(X), transitions=n, validated=0 if d else n)
    if k == "norm":
        _, eps, first, dt = case
        spec = ("L2Norm",) + (() if eps is None else (eps,))
        lim = 1e15 if dt == "f32" else 1e100
        low = 1e-15 if dt == "f32" else 1e-100
        ws = [w for w in words(first, 2, X) if all(v == 0 or low < abs(v) < lim for v in w)]
        if not ws:
            return Outcome(None, states=0)
        x = torch.tensor(ws, dtype=torch.float64).to(DT[dt])
        d, n = check_products(spec, x, dt)
        return Outcome(d, states=len(ws), transitions=n, validated=0 if d else n)
    if k == "lik":
        _, kind, first, dt, length = case
        return likelihood(kind, first, dt, length)
    raise ValueError(k)


def likelihood(kind, first, dt, length):
    dtype = DT[dt]
    ws = list(words(first, 3, LOGITS))
    y = torch.tensor(ws, dtype=torch.float64).to(dtype)
    B = len(ws)
    n = 0
    # the output is the input, shifted by a bias: Jacobians are the identity
    specs = {
        "one layer": (("Linear", 3, 3, True), [torch.eye(3, dtype=torch.float64), torch.zeros(3, dtype=torch.float64)]),
        "two layers": (
            ("Seq", ("Linear", 3, 3, False), ("Linear", 3, 3, True)),
            [2.0 * torch.eye(3, dtype=torch.float64), 0.5 * torch.eye(3, dtype=torch.float64), torch.zeros(3, dtype=torch.float64)],
        ),
    }
    for name, (spec, ps) in specs.items():
        m = build(spec).to(dtype)
        set_params(m, ps)
        node = evaluate(spec, ps, y.double(), Margin())
        if not torch.equal(node.y, y.double()):
            raise AssertionError("the model is not the identity")
        tg = {}
        if kind == "LogGaussian":
            tg = {"zero": torch.zeros_like(node.y), "exact": node.y.clone(), "ones": torch.ones_like(node.y)}
        elif kind == "LogBinaryBernoulli":
            for bits in itertools.product((0.0, 1.0), repeat=3):
                tg[str(bits)] = torch.tensor(bits, dtype=torch.float64).expand(B, 3).clone()
        else:
            for c in range(3):
                t = torch.zeros(B, 3, dtype=torch.float64)
                t[:, c] = 1.0
                tg[f"class {c}"] = t
        H = curvature(kind, node.y)
        for tn, t in tg.items():
            tt = t.to(dtype)
            v, s = value(kind, node.y, t), slope(kind, node.y, t)
            l = make(kind, "return all")
            rows = {"value": (l(y, m, tt).detach(), v)}
            rows["gradient wrt input"] = (l.gradient(y, m, tt, wrt="input"), torch.einsum("bi,bij->bj", s, node.jx))
            rows["gradient wrt weight"] = (l.gradient(y, m, tt), torch.einsum("bi,bij->bj", s, node.jw))
            n += 3
            for what, (got, ref) in rows.items():
                for b in range(B):
                    scale = float(y[b].abs().max()) if what != "gradient wrt input" else 1.0
                    d = differ(got[b], ref[b], dtype, floor=max(1.0, scale), rtol=1e-13 if dt == "f64" else None)
                    if d:
                        return Outcome(f"{kind} {tn}, {name}, logits {ws[b]}: {what}: {d}", states=B, transitions=n)
        for shp, bp in (("diag", "exact"), ("full", "exact"), ("diag", "approx")):
            l = make(kind, "return all", shp, bp)
            got = l.ggn(y, m, wrt="input")
            n += 1
            full = node.jx.transpose(1, 2) @ H @ node.jx
            ref = torch.diagonal(full, dim1=1, dim2=2) if shp == "diag" else full
            if bp == "exact" or name == "one layer":
                for b in range(B):
                    d = differ(got[b], ref[b], dtype, floor=1.0, rtol=1e-13 if dt == "f64" else None)
                    if d:
                        return Outcome(f"{kind} {shp} {bp}, {name}, logits {ws[b]}: GGN wrt input: {d}", states=B, transitions=n)
            got = l.ggn(y, m)
            n += 1
            for g in got if isinstance(got, list) else [got]:
                if not bool(torch.isfinite(g).all()):
                    return Outcome(f"{kind} {shp} {bp}, {name}: GGN wrt weight is not finite", states=B, transitions=n)
    return Outcome(None, states=B, transitions=n, validated=n)
