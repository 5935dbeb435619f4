import itertools
from collections import deque

import torch

from ..machine import QUERIES, Machine, disturbances, operations, play
from ..ops import Call, differ, expected, floor_scale, invoke, supported, tangent
from ..product import DT, fresh, x_values
from ..runner import CaseTimeout, Outcome
from ..spec import Margin, evaluate, is_container, n_params, param_values, set_params, tup
from ..universe import CORE, NETS

ID, LEVEL = "C09", "model_checking"
RULE = (
    "operation histories on real models: every product on a long-lived input buffer (output given or not) and on temporaries of "
    "another batch size, interleaved with forward passes of the model / a model sharing its layers / an unrelated model, in-place "
    "rewrites of the input buffer, seven ways of changing the weights, mode switches, autograd passes, failing calls, copies. "
    "Breadth-first over full-state fingerprints until no new state appears (or the cap), all undeduplicated sequences of 2 (quick: "
    "all; thorough: 3) operations followed by every query, and long periodic histories of every operation and pair. Also, for models "
    "where two different inputs have the same output, or the same sum, all histories of 3 forward passes and queries on the two, "
    "with their outputs given or not. Also, for models that take inputs of several shapes, all histories (a, b, a) of one query over 10 to "
    "27 configurations of shape, batch size, precision, number of rows and tangent. Each case is one model and one part of these histories"
)
MODELS = [NETS[2], NETS[-3], NETS[-1], NETS[3], NETS[6], NETS[8], NETS[11], NETS[14], NETS[16], NETS[9], CORE[0], CORE[6], CORE[13], CORE[18], CORE[20], CORE[25], CORE[22], CORE[10]]
CHUNK = 1
KEY = ["f:fresh2", "f:fresh3", "f:sharer", "xw:other", "bad:vjp", "w:set:other", "w:copy:third", "w:data:other", "w:load:third", "w:new:third", "mode:eval", "backward"]
CAP = {"quick": 60, "thorough": 1500}


# models and weights for which inputs over a small alphabet share their output (or their sum)
TWINS = [
    (("Seq", ("Linear", 2, 2, True), ("ReLU",), ("Linear", 2, 1, True)), (2,), "ints"),
    (("Seq", ("Tanh",), ("ReLU",), ("Linear", 2, 1, True)), (2,), "ones"),
    (("Seq", ("L2Norm", 1.0), ("Linear", 2, 1, True)), (2,), "ones"),
    (("Seq", ("Linear", 2, 2, True), ("ReLU",), ("Linear", 2, 1, True)), (2,), "ones"),
    (("Seq", ("Linear", 2, 2, False), ("Tanh",), ("Linear", 2, 1, False)), (2,), "ones"),
    (("Seq", ("Tanh",), ("Linear", 3, 2, True), ("ReLU",)), (3,), "ones"),
    (("Seq", ("Linear", 2, 4, False), ("Reshape", 1, 2, 2), ("MaxPool2d", 2, None, 0, 1, False), ("Flatten",)), (2,), "ints"),
    (("Seq", ("Conv2d", 1, 1, (2, 2), (0, 0), (1, 1), True, True), ("Tanh",)), (1, 2, 2), "ones"),
    (("Seq", ("Seq", ("Linear", 2, 2, True), ("Sigmoid",)), ("Linear", 2, 1, False)), (2,), "ones"),
    (("Linear", 2, 2, True), (2,), "ones"),
    (("ReLU",), (2,), "generic"),
    (("MaxPool2d", 2, None, 0, 1, False), (1, 2, 2), "generic"),
    (("MaxPool2d", 2, 1, 0, 1, False), (1, 2, 3), "generic"),
    (("Conv2d", 1, 2, (1, 2), (0, 0), (1, 1), True, False), (1, 1, 3), "ones"),
    (("L2Norm",), (2,), "generic"),
    (("Softplus", 1.0, 20.0), (2,), "generic"),
    (("Seq", ("Skip", ("Tanh",)), ("Linear", 4, 1, False), ("ReLU",)), (2,), "ones"),
]


def twin_pairs(spec, shape, wcls):
    """All pairs of different inputs with the same output, or, where there are too few, the same sum."""
    m = fresh(spec, wcls)
    size = 1
    for s in shape:
        size *= s
    words = list(itertools.product((-1.0, 0.0, 1.0, 2.0) if size <= 3 else (0.0, 1.0, 2.0), repeat=size))[:300]
    out, sums = {}, {}
    for w in words:
        x = torch.tensor(w, dtype=torch.float64).reshape((1,) + shape)
        mg = Margin()
        evaluate(spec, param_values(spec, wcls), x, mg)
        if is_container(spec) and mg.value < 1e-6:
            continue
        with torch.no_grad():
            y = m(x)
        out.setdefault(tuple(y.reshape(-1).tolist()), []).append(w)
        sums.setdefault(sum(w), []).append(w)
    pairs = [p for g in out.values() for p in itertools.combinations(g, 2)][::-1]
    more = [p for g in sums.values() for p in itertools.combinations(g, 2)][::-1]
    step = lambda l, k: l[:: max(1, len(l) // k)][:k]
    return step(pairs, 6) + step(more, 3)


def twins(spec, shape, wcls, name):
    """Every history of 3 operations on two such inputs ending in a query."""
    call = QUERIES[name]
    n = states = v = 0
    for pair in twin_pairs(spec, shape, wcls):
        xs = [torch.tensor(w, dtype=torch.float64).reshape((1,) + shape) for w in pair]
        nodes = [evaluate(spec, param_values(spec, wcls), x, Margin()) for x in xs]
        ts = [tangent(nd, call) for nd in nodes]
        refs = [expected(nd, call, t) for nd, t in zip(nodes, ts)]
        alphabet = [("f", 0), ("f", 1), ("q", 0), ("q", 1), ("v", 0), ("v", 1)]
        for h in itertools.product(alphabet, repeat=3):
            if h[-1][0] == "f" or {i for _, i in h} == {h[-1][1]}:
                continue
            m = fresh(spec, wcls)
            with torch.no_grad():
                vals = [m(x) for x in reversed(xs)][::-1]
            states += 1
            for op, i in h:
                n += 1
                if op == "f":
                    m(xs[i].clone())
                    continue
                got = invoke(m, call, xs[i].clone(), vals[i].clone() if op == "v" else None, None if ts[i] is None else ts[i].clone())
                v += 1
                d = differ(got, refs[i], torch.float64, floor=floor_scale(nodes[i], call, ts[i]))
                if d:
                    return Outcome(f"inputs {pair} (same output or sum), history {h} (f: forward, q: query, v: query with the output given): {call!r}: {d}", states=states, transitions=n, validated=v)
    return Outcome(None, states=states, transitions=n, validated=v)


# models that take inputs of several shapes
CONFIGS_IMAGE = [
    # (h, w), batch, dtype, columns, tangent class
    ((2, 2), 2, "f64", 2, "generic"),
    ((2, 3), 2, "f64", 2, "generic"),
    ((3, 2), 2, "f64", 2, "generic"),
    ((3, 3), 2, "f64", 2, "generic"),
    ((2, 4), 1, "f64", 2, "generic"),
    ((4, 2), 1, "f64", 2, "generic"),
    ((2, 2), 1, "f64", 2, "generic"),
    ((2, 2), 3, "f64", 2, "generic"),
    ((2, 3), 1, "f64", 3, "generic"),
    ((2, 2), 2, "f32", 2, "generic"),
    ((2, 2), 2, "f64", 1, "generic"),
    ((2, 2), 2, "f64", 3, "other"),
    ((2, 2), 2, "f64", 2, "other"),
    ((2, 2), 2, "f64", 2, "none"),
]
CONFIGS_VECTOR = [
    (None, 2, "f64", 2, "generic"),
    (None, 1, "f64", 2, "generic"),
    (None, 3, "f64", 2, "generic"),
    (None, 4, "f64", 2, "generic"),
    (None, 6, "f64", 1, "generic"),
    (None, 2, "f32", 2, "generic"),
    (None, 2, "f64", 1, "generic"),
    (None, 2, "f64", 3, "other"),
    (None, 2, "f64", 2, "other"),
    (None, 2, "f64", 2, "none"),
]
CONFIGS_FREE = [((n,), b, dt, 2, tan) for n, b in ((2, 2), (3, 2), (2, 3), (4, 1), (1, 4), (1, 1)) for dt in ("f64", "f32") for tan in ("generic", "none")] + [((2, 2), 2, "f64", 2, "generic"), ((4,), 2, "f64", 2, "generic"), ((1, 2, 2), 2, "f64", 2, "generic")]
SHAPED = [
    (("Conv2d", 1, 2, (2, 2), (0, 0), (1, 1), True, True), (1,), CONFIGS_IMAGE),
    (("Conv2d", 2, 1, (1, 2), (0, 1), (1, 1), False, False), (2,), CONFIGS_IMAGE),
    (("Conv2d", 1, 1, (3, 3), (1, 1), (1, 1), True, False), (1,), CONFIGS_IMAGE),
    (("MaxPool2d", 2, 1, 0, 1, False), (2,), CONFIGS_IMAGE),
    (("MaxPool2d", 2, None, 0, 1, False), (1,), CONFIGS_IMAGE),
    (("Upsample", 2), (1,), CONFIGS_IMAGE),
    (("Upsample", 3), (2,), CONFIGS_IMAGE),
    (("Flatten",), (2,), CONFIGS_IMAGE),
    (("L2Norm", 0.5), (1,), CONFIGS_IMAGE),
    (("Tanh",), (), CONFIGS_FREE),
    (("ReLU",), (), CONFIGS_FREE),
    (("Softplus", 2.0, 0.5), (), CONFIGS_FREE),
    (("TruncExp",), (), CONFIGS_FREE),
    (("L2Norm",), (), CONFIGS_FREE),
    (("Flatten",), (), CONFIGS_FREE),
    (("Skip", ("Tanh",)), (), CONFIGS_FREE),
    (("Seq", ("Sinusoidal",), ("Skip", ("Sigmoid",))), (), CONFIGS_FREE[:-3]),
    (("Seq", ("Conv2d", 1, 2, (2, 2), (0, 0), (1, 1), True, True), ("Tanh",), ("Conv2d", 2, 1, (1, 1), (0, 0), (1, 1), True, True)), (1,), CONFIGS_IMAGE),
    (("Seq", ("Upsample", 2), ("MaxPool2d", 2, 1, 0, 1, False), ("Flatten",)), (1,), CONFIGS_IMAGE),
    (("Skip", ("Conv2d", 1, 1, (3, 3), (1, 1), (1, 1), True, True), ("ReLU",)), (1,), CONFIGS_IMAGE),
    (("Linear", 2, 3, True), None, CONFIGS_VECTOR),
    (("Linear", 2, 2, False), None, CONFIGS_VECTOR),
    (("Seq", ("Linear", 2, 3, True), ("Tanh",), ("Linear", 3, 2, True)), None, CONFIGS_VECTOR),
    (("Skip", ("Linear", 2, 2, True), ("Skip", ("Tanh",))), None, CONFIGS_VECTOR),
    (("Seq", ("Skip", ("Linear", 2, 1, True)), ("L2Norm",), ("Linear", 3, 2, False)), None, CONFIGS_VECTOR),
]
_CFG = {}


def rounded(spec):
    """Weights that survive the conversion to single precision and back."""
    return [p.float().double() for p in param_values(spec, "generic", torch.float64)]


def configured(spec, lead, cfg, name):
    """Input, tangent and expected result of a query in one of the configurations; None if there is no such query."""
    key = (spec, lead, cfg, name)
    if key not in _CFG:
        if len(_CFG) > 400:
            _CFG.clear()
        hw, batch, dt, ncol, tan = cfg
        shape = (2,) if hw is None else lead + hw
        q = QUERIES[name]
        if tan == "none" and q.op not in ("jmp", "mjp", "jmjTp", "jTmjp"):
            _CFG[key] = None
        else:
            call = Call(q.op, q.wrt, q.mode, "none" if "none" in (tan, q.tan) else tan, ncol)
            x = x_values(shape, batch, "generic").to(DT[dt])
            params = rounded(spec)
            mg = Margin()
            node = evaluate(spec, params, x.double(), mg)
            t = tangent(node, call)
            if t is not None:
                t = t.to(DT[dt])
            ref = expected(node, call, None if t is None else t.double())
            _CFG[key] = (call, x, t, ref, floor_scale(node, call, t)) if supported(spec, call) and mg.value > 1e-4 or not is_container(spec) and supported(spec, call) else None
    return _CFG[key]


def shapes(spec, lead, cfgs, name, first):
    """Queries on inputs of different shape, batch size, precision, number of rows and tangent, one after the other."""
    n = states = v = 0
    a = configured(spec, lead, cfgs[first], name)
    if a is None:
        return Outcome(None, skipped=1)
    for cfg in cfgs:
        b = configured(spec, lead, cfg, name)
        if b is None:
            continue
        for given in (False, True):
            m = fresh(spec)
            set_params(m, rounded(spec))
            states += 1
            for step, (call, x, t, ref, floor) in enumerate((a, b, a)):
                m.to(x.dtype)
                val = None
                if given:
                    with torch.no_grad():
                        val = m(x)
                n += 1
                got = invoke(m, call, x.clone(), val, None if t is None else t.clone())
                d = differ(got, ref, x.dtype, floor=floor)
                v += 1
                if d:
                    return Outcome(f"queries on (shape, batch, dtype, columns, tangent) {cfgs[first]}, {cfg}, {cfgs[first]}: step {step}: {call!r}: {d}", states=states, transitions=n, validated=v)
    return Outcome(None, states=states, transitions=n, validated=v)


def cases(tier):
    out = []
    for k, (spec, lead, cfgs) in enumerate(SHAPED):
        for name, call in QUERIES.items():
            if supported(spec, call) and (n_params(spec) or call.wrt == "input"):
                for i in range(len(cfgs)):
                    out.append(["shapes", spec, (k,), name, i])
    for spec, shape, wcls in TWINS:
        for name, call in QUERIES.items():
            if supported(spec, call):
                out.append(["twins", spec, shape, wcls, name])
    for spec, shape in MODELS:
        ops = operations(spec)
        dist = disturbances(spec)
        qs = [o for o in ops if o.startswith("q:")]
        out.append(["bfs", spec, shape, CAP[tier]])
        for d in dist:
            out.append(["pairs", spec, shape, d, 2 if tier == "quick" else 3])
        for q in qs:
            if tier == "thorough" or q.split(":")[2] == "X":
                out.append(["after", spec, shape, q, tier])
        for o in ops:
            out.append(["pump", spec, shape, o])
    return out


def run(case):
    kind, spec, shape = case[0], tup(case[1]), tup(case[2])
    if kind == "twins":
        return twins(spec, shape, case[3], case[4])
    if kind == "shapes":
        spec_, lead, cfgs = SHAPED[shape[0]]
        assert spec_ == spec
        return shapes(spec, lead, cfgs, case[3], case[4])
    n = v = states = 0
    m0 = Machine(spec, shape)
    ops = m0.operations()
    dist = m0.disturbances()
    qs = [o for o in ops if o.startswith("q:")]

    def go(h):
        nonlocal n, v
        n += len(h)
        try:
            m, d = play(spec, shape, h)
        except CaseTimeout:
            raise
        except Exception as e:
            return None, f"history {list(h)}: raised {type(e).__name__}: {str(e)[:300]}"
        v += sum(o.startswith(("q", "f")) for o in h)
        return m, d

    if kind == "bfs":
        seen = {m0.fingerprint()}
        queue = deque([()])
        closed = True
        while queue:
            h = queue.popleft()
            for op in ops:
                m, d = go(h + (op,))
                if d:
                    return Outcome(d, states=len(seen), transitions=n, validated=v)
                f = m.fingerprint()
                if f not in seen:
                    seen.add(f)
                    if len(seen) <= case[3]:
                        queue.append(h + (op,))
                    else:
                        closed = False
        return Outcome(None, states=len(seen), transitions=n, validated=v, extra={"models_closed": int(closed), "models_capped": int(not closed)})
    if kind == "pairs":
        # disturbance sequences (no deduplication), each followed by every query in turn on one history
        first = case[3]
        mids = [()] + [(d,) for d in dist]
        if case[4] > 2:
            mids += list(itertools.product(dist, repeat=2))
        for mid in mids:
            if len(mid) == 2:
                tails = [tuple(qs)]
            else:
                tails = [tuple(qs), tuple(reversed(qs))]
            for tail in tails:
                states += 1
                m, d = go((first,) + mid + tail)
                if d:
                    return Outcome(d, states=states, transitions=n, validated=v)
        return Outcome(None, states=states, transitions=n, validated=v)
    if kind == "after":
        # query, disturbance, query: what a query leaves behind must not reach the next one
        q = case[3]
        full = case[4] == "thorough"
        for d1 in [()] + [(d,) for d in (dist if full else KEY) if d in dist]:
            for q2 in qs:
                if not full and d1 and q2.split(":")[1] != q.split(":")[1]:
                    continue
                if q2.split(":")[2:] != q.split(":")[2:] and q2.split(":")[1] != q.split(":")[1]:
                    continue
                states += 1
                m, d = go((q,) + d1 + (q2,))
                if d:
                    return Outcome(d, states=states, transitions=n, validated=v)
        return Outcome(None, states=states, transitions=n, validated=v)
    if kind == "pump":
        o = case[3]
        m, d = go((o,) * 40 + tuple(qs))
        states += 1
        if d:
            return Outcome(d, states=states, transitions=n, validated=v)
        for p in qs[:2] + ["f:X", "f:fresh3", "xw:other"]:
            states += 1
            m, d = go((o, p) * 9 + (qs[0], qs[-1]))
            if d:
                return Outcome(d, states=states, transitions=n, validated=v)
        return Outcome(None, states=states, transitions=n, validated=v)
    raise ValueError(kind)
