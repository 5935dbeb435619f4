import torch

from ..machine import ref_node
from ..ops import APPROX, Call, differ, expected, floor_scale, invoke, supported, tangent
from ..product import DT, fresh, x_values
from ..runner import Outcome
from ..sched import Scheduler
from ..spec import is_container, n_params, nnj, tup
from ..universe import CORE, NETS

ID, LEVEL = "C20", "model_checking"
RULE = (
    "two threads call a model they share (every pair of calls from a list covering forward passes, Jacobians, all products, likelihood "
    "gradients and GGNs and weight reads, on inputs of different batch size), under a controlled scheduler that can switch at every "
    "executed line of the package: every schedule with at most 1 preemption (quick) or 2 (thorough) of either thread, and strict "
    "alternation every 1..8 lines; both results must be those of the reference. States are schedules, transitions are executed lines"
)
MODELS = [NETS[2], NETS[8], NETS[14], NETS[16], NETS[6], NETS[11], CORE[0], CORE[13], CORE[18], CORE[25], CORE[22], CORE[6], CORE[10]]
QUICK = [m for i, m in enumerate(MODELS) if i not in (1, 7, 11, 12)]
CALLS = {
    "forward": None,
    "jac-i": Call("jacobian", "input"),
    "jac-w": Call("jacobian", "weight"),
    "vjp-w": Call("vjp", "weight"),
    "vjp-i": Call("vjp", "input"),
    "mjp-w": Call("mjp", "weight", ncol=2),
    "mjp-i": Call("mjp", "input", ncol=2),
    "jvp-w": Call("jvp", "weight"),
    "jvp-i": Call("jvp", "input"),
    "jmp-w": Call("jmp", "weight", ncol=2),
    "jmp-i": Call("jmp", "input", ncol=2),
    "jmjTp-w": Call("jmjTp", "weight", (True, False, False)),
    "jmjTp-i": Call("jmjTp", "input"),
    "jTmjp-w": Call("jTmjp", "weight"),
    "jTmjp-i": Call("jTmjp", "input"),
    "approx": Call("jTmjp", "weight", APPROX),
    "gradient": "gradient",
    "ggn": "ggn",
    "weights": "weights",
}
CHUNK = 1


def names(spec):
    out = []
    for n, c in CALLS.items():
        if isinstance(c, Call) and not supported(spec, c):
            continue
        out.append(n)
    return out


def cases(tier):
    for spec, shape in MODELS if tier != "quick" else QUICK:
        ns = names(spec)
        if not n_params(spec):
            ns = [n for n in ns if n not in ("weights", "gradient", "ggn")]
        for i, a in enumerate(ns):
            for b in ns[i if tier == "quick" else 0 :]:
                if tier == "quick" and not is_container(spec) and a not in ("forward", "jac-i", "vjp-w", "jTmjp-w", "mjp-w"):
                    continue
                yield [spec, shape, a, b, tier]


def body(model, spec, shape, name, which):
    """A function to execute and a function judging its result."""
    batch, xl = (2, "generic") if which == 0 else (3, "other")
    x, node, memo, margin = ref_node(spec, shape, "generic", xl, batch, "f64")
    x = x.clone()
    c = CALLS[name]
    f64 = torch.float64
    if c is None:
        return (lambda: model(x)), (lambda r: differ(r, node.y, f64))
    if c == "weights":
        vec = torch.cat([p.detach().reshape(-1).clone() for p in model.parameters()])
        return (lambda: model.get_weight()), (lambda r: differ(r, vec, f64))
    if c in ("gradient", "ggn"):
        l = nnj.LogGaussian(aggregate_batch="sum")
        t = node.y * 0.5 + 0.25
        J = node.jw
        if c == "gradient":
            ref = torch.einsum("bi,bij->j", (t - node.y).reshape(batch, -1), J)
            return (lambda: l.gradient(x, model, t)), (lambda r: differ(r, ref, f64))
        ref = -(J**2).sum((0, 1))  # of the log likelihood
        return (lambda: l.ggn(x, model, t)), (lambda r: differ(r, ref, f64))
    if which and c.tan == "generic":
        c = Call(c.op, c.wrt, c.mode, "other", c.ncol, c.blocks)
    k = tuple(map(str, c.key()))
    if k not in memo:
        t = tangent(node, c)
        memo[k] = (t, expected(node, c, t), floor_scale(node, c, t))
    t, ref, floor = memo[k]
    t = None if t is None else t.clone()
    return (lambda: invoke(model, c, x, None, t)), (lambda r: differ(r, ref, f64, floor=floor))


def run(case):
    spec, shape, a, b, tier = tup(case[0]), tup(case[1]), case[2], case[3], case[4]
    model = fresh(spec)
    fa, ja = body(model, spec, shape, a, 0)
    fb, jb = body(model, spec, shape, b, 1)
    probe = Scheduler([fa, fb], []).run()
    na, nb = probe.steps
    states = lines = 0

    def go(schedule):
        nonlocal states, lines
        states += 1
        s = Scheduler([fa, fb], schedule).run()
        lines += sum(s.steps)
        for i, (name, j) in enumerate(((a, ja), (b, jb))):
            if s.errors[i] is not None:
                return f"{name}, schedule {schedule}: raised {type(s.errors[i]).__name__}: {str(s.errors[i])[:200]}"
            d = j(s.results[i])
            if d:
                return f"{name} while another thread executes {(b, a)[i]}, schedule {schedule}: {d}"
        return None

    def schedules():
        yield []
        for k in range(na + 1):  # a is interrupted after k steps
            yield [(0, k), (1, 10**9)]
        for k in range(nb + 1):
            yield [(1, k), (0, 10**9)]
        for w in (1, 2, 3, 5) if tier == "quick" else range(1, 9):  # strict alternation
            yield [(i % 2, w) for i in range(2 * (max(na, nb) // w + 2))]
        if tier != "quick":
            # two preemptions: a stops after k, b stops after l, a to the end, b to the end
            for k in range(0, na + 1):
                for l in range(0, nb + 1):
                    yield [(0, k), (1, l), (0, 10**9)]

    for s in schedules():
        d = go(s)
        if d:
            return Outcome(d, states=states, transitions=lines)
    return Outcome(None, states=states, transitions=lines, validated=2 * states, extra={"max_lines": na + nb})
