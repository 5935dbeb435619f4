import copy
import io
import itertools
import pickle

import torch

from ..ops import APPROX, OPS, calls, differ, expected, floor_scale, invoke, supported, tangent
from ..product import DT, fresh, x_values
from ..runner import CaseTimeout, Outcome
from ..spec import Margin, build, evaluate, is_container, n_params, nnj, param_values, set_params, tup
from ..universe import CORE, CUSTOM_LEAVES, NETS
from ..values import pattern

ID, LEVEL = "C19", "model_checking"
RULE = (
    "every history of 3 (quick) or 4 (thorough) operations over {copy the original or a copy by deepcopy, pickling, torch.save and "
    "load, state dict into a new model (copied or assigned), conversion of the number type; use it; write its weights through the weight vector, in "
    "place, by loading or by assigning new parameters}, for every kind of layer and the listed networks: after every step every model has exactly its own "
    "weights and number type, and its outputs and products in all modes are those of the reference for them. Also likelihood "
    "objects. States are histories, transitions are operations and calls"
)
COPIES = ("deepcopy", "pickle", "save", "state", "assign", "float", "double")
FEW = [c for c in calls(("jacobian", "vjp"), ("input", "weight"))] + [c for c in calls(("jTmjp",), ("input", "weight"), (APPROX,))]
ALL = [c for c in calls(OPS, ("input", "weight"), ((False, False, False), (True, True, False), APPROX), ("generic",), (2,))]
CHUNK = 1


def cases(tier):
    for i, (spec, shape) in enumerate(NETS + CORE + CUSTOM_LEAVES):
        small = tier == "quick" and i not in (2, 6, 8, 11, 14, 16, 18, 21)
        for first in operations(1, n_params(spec) > 0):
            yield ["model", spec, shape, first, (2 if small else 3) + (tier != "quick")]
    yield ["likelihood"]


def operations(n, parametric):
    ops = []
    for i in range(n):
        if n < 3:
            for c in COPIES:
                ops.append([c, i])
        ops.append(["use", i])
        ops.append(["eval", i])
        if parametric:
            for how, lab in (("set", "other"), ("inplace", "third"), ("load", "other"), ("vector", "third"), ("reload", "other")):
                ops.append([how, i, lab])
    return ops


_NODE = {}


def node_of(spec, shape, label, dt):
    k = (spec, shape, label, dt)
    if k not in _NODE:
        if len(_NODE) > 60:
            _NODE.clear()
        x = x_values(shape, 2, "generic").to(DT[dt])
        mg = Margin()
        node = evaluate(spec, param_values(spec, label, DT[dt]), x.double(), mg)
        _NODE[k] = (x, node, {}, mg.value)
    return _NODE[k]


class H:
    __slots__ = ("model", "label", "dt", "vals")

    def __init__(self, model, label, dt, vals):
        self.model, self.label, self.dt, self.vals = model, label, dt, vals


def verify(h, spec, shape, which):
    """The model against the reference for its weights and number type."""
    n = 0
    ps = list(h.model.parameters())
    if len(ps) != len(h.vals):
        return f"{len(ps)} parameters instead of {len(h.vals)}", n
    for p, v in zip(ps, h.vals):
        if p.dtype != DT[h.dt] or not torch.equal(p.detach(), v.to(DT[h.dt])):
            return "the weights are not its own", n
    if not which:
        return None, n
    x, node, memo, margin = node_of(spec, shape, h.label, h.dt)
    if is_container(spec) and margin < 1e-4:
        return None, n
    # weights that went through single precision are read off the model (compared above): the reference for them
    if any(not torch.equal(v.to(DT[h.dt]).double(), w) for v, w in zip(h.vals, param_values(spec, h.label, DT[h.dt]))):
        node, memo = evaluate(spec, [v.to(DT[h.dt]).double() for v in h.vals], x.double(), Margin()), {}
    d = differ(h.model(x), node.y, DT[h.dt])
    n += 1
    if d:
        return f"output: {d}", n
    for c in which:
        if not supported(spec, c):
            continue
        k = tuple(map(str, c.key()))
        if k not in memo:
            t = tangent(node, c)
            t = None if t is None else t.to(DT[h.dt])
            memo[k] = (t, expected(node, c, None if t is None else t.double()), floor_scale(node, c, t))
        t, ref, floor = memo[k]
        got = invoke(h.model, c, x, None, None if t is None else t.clone())
        n += 1
        d = differ(got, ref, DT[h.dt], floor=floor)
        if d:
            return f"{c!r}: {d}", n
    if node.n:
        v = h.model.get_weight()
        n += 1
        if not torch.equal(v.detach(), torch.cat([w.to(DT[h.dt]).reshape(-1) for w in h.vals])):
            return "the weight vector is not that of its weights", n
    return None, n


def clone(h, how, spec):
    m = h.model
    if how == "deepcopy":
        return H(copy.deepcopy(m), h.label, h.dt, h.vals)
    if how == "pickle":
        return H(pickle.loads(pickle.dumps(m)), h.label, h.dt, h.vals)
    if how == "save":
        f = io.BytesIO()
        torch.save(m, f)
        f.seek(0)
        return H(torch.load(f, weights_only=False), h.label, h.dt, h.vals)
    if how in ("state", "assign"):
        f = io.BytesIO()
        torch.save(m.state_dict(), f)
        f.seek(0)
        new = build(spec).to(DT[h.dt])
        new.load_state_dict(torch.load(f), assign=how == "assign")
        return H(new, h.label, h.dt, h.vals)
    dt = {"float": "f32", "double": "f64"}[how]
    return H(getattr(copy.deepcopy(m), how)(), h.label, dt, [v.to(DT[h.dt]).to(DT[dt]) for v in h.vals])


def step(hs, op, spec, shape):
    h = hs[op[1]]
    k = op[0]
    if k in COPIES:
        c = clone(h, k, spec)
        if c.model is h.model:
            return "the copy is the original", 1
        mine = {id(p) for p in h.model.parameters()} | {id(m) for m in h.model.modules()}
        if any(id(o) in mine for o in list(c.model.parameters()) + list(c.model.modules())):
            return "the copy holds parts of the original", 1
        hs.append(c)
        return None, 1
    if k == "use":
        return verify(h, spec, shape, FEW)
    if k == "eval":
        h.model.eval()
        return None, 1
    vals = param_values(spec, op[2], DT[h.dt])
    vec = torch.cat([v.reshape(-1) for v in vals]).to(DT[h.dt])
    if k == "set":
        h.model.set_weight(vec)
    elif k == "inplace":
        with torch.no_grad():
            for p, v in zip(h.model.parameters(), vals):
                p.copy_(v)
    elif k == "load":
        h.model.load_state_dict({n: v.to(DT[h.dt]) for n, v in zip(h.model.state_dict(), vals)})
    elif k == "reload":  # the Parameter objects themselves are replaced
        h.model.load_state_dict({n: v.to(DT[h.dt]).clone() for n, v in zip(h.model.state_dict(), vals)}, assign=True)
    elif k == "vector":
        torch.nn.utils.vector_to_parameters(vec, h.model.parameters())
    h.label, h.vals = op[2], vals
    return None, 1


def run(case):
    if case[0] == "likelihood":
        return likelihoods()
    _, spec, shape, first, depth = case
    spec, shape = tup(spec), tup(shape)
    par = n_params(spec) > 0
    n = states = 0

    def rec(h):
        """All histories that extend h, each replayed from scratch."""
        nonlocal n, states
        states += 1
        hs = [H(fresh(spec, "generic"), "generic", "f64", param_values(spec, "generic"))]
        try:
            for i, op in enumerate(h):
                d, k = step(hs, op, spec, shape)
                n += k
                if d:
                    return f"{h[: i + 1]}: {d}"
                for j, a in enumerate(hs):
                    d, k = verify(a, spec, shape, None)
                    n += k
                    if d:
                        return f"after {h[: i + 1]}, model {j}: {d}"
            for j, a in enumerate(hs):
                d, k = verify(a, spec, shape, ALL if len(h) < 3 else FEW)
                n += k
                if d:
                    return f"after {h}, model {j}: {d}"
        except CaseTimeout:
            raise
        except Exception as e:
            return f"{h}: raised {type(e).__name__}: {str(e)[:200]}"
        if len(h) < depth:
            for op in operations(len(hs), par):
                d = rec(h + [op])
                if d:
                    return d
        return None

    d = rec([first])
    return Outcome(d, states=states, transitions=n, validated=0 if d else n)


def likelihoods():
    n = 0
    spec, shape = ("Seq", ("Linear", 3, 4, True), ("Tanh",), ("Linear", 4, 2, True)), (3,)
    m = fresh(spec)
    x = x_values(shape, 3, "generic")
    t = torch.tensor([[1.0, 0.0], [0.0, 1.0], [1.0, 0.0]], dtype=torch.float64)
    for cls in (nnj.LogGaussian, nnj.LogBinaryBernoulli, nnj.LogBernoulli):
        for agg in ("return all", "sum", "average", None):
            for shp, bp in (("diag", "exact"), ("full", "exact"), ("diag", "approx")):
                l = cls(aggregate_batch=agg, metric_shape=shp, metric_backprop=bp)
                for how in (copy.deepcopy, lambda o: pickle.loads(pickle.dumps(o))):
                    c = how(l)
                    for f in (lambda o: o(x, m, t), lambda o: o.gradient(x, m, t), lambda o: o.ggn(x, m, t)):
                        a, b = f(l), f(c)
                        n += 1
                        a = a if isinstance(a, list) else [a]
                        b = b if isinstance(b, list) else [b]
                        if len(a) != len(b) or any(not torch.allclose(i, j) for i, j in zip(a, b)):
                            return Outcome(f"copy of {cls.__name__}({agg}, {shp}, {bp}) gives something else", transitions=n)
    return Outcome(None, transitions=n, validated=n)
