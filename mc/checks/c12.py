import copy
import itertools

import torch

from ..ops import Call, differ, invoke
from ..product import ALTS, DT, fresh, x_values
from ..runner import CaseTimeout, Outcome
from ..spaces import CORE, CUSTOM_LEAVES, NETS, tup
from ..spec import Margin, evaluate, forward, is_container, n_params, param_shapes, param_values
from ..universe import BIG, HUGE, sequences
from ..values import pattern, relayout

ID, LEVEL = "C12", "model_checking"
RULE = (
    "every parametric layer kind, the listed networks and every chain of up to 2 (quick) or 3 (thorough) layers: (a) moving every "
    "single coordinate of the weight vector moves the output as the corresponding column of the Jacobian says, and the reads give "
    "it back bit for bit, for every memory layout of the vector and every way of making the chain (arguments, names in no order, "
    "appended, inserted), also with more than ten layers; (b) all histories of 3 (quick) or 4 (thorough) operations over "
    "{write vector, read vector, overwrite a vector already written or read, optimiser step, in-place edit, write into a second "
    "model from the same vector, copy, load}, checking after every step that model, second model and every vector held have "
    "exactly the values the reference store says; (c) all pairs of 22 vectors related to the present weights (the same, negated, "
    "permuted, one unit in the last place away, zeros of either sign, denormal, infinite, NaN), read back bit for bit; (d) every "
    "subset of frozen parameters"
)
LAY = ("contig", "strided", "offset", "reqgrad", "param")
ALPHABET = ("set-a", "set-b", "set-held", "get", "scribble-written", "scribble-read", "sgd", "inplace-first", "set2-same", "inplace2", "load", "copy-set")


def items(tier):
    out = [i for i in CORE + NETS + CUSTOM_LEAVES if n_params(i[0])]
    for start in ((2,), (1, 2, 3)):
        for seq in sequences(start, 2 if tier == "quick" else 3):
            s = ("Seq",) + seq
            if n_params(s):
                out.append((s, start))
    return out


def cases(tier):
    for spec, shape in items(tier) + [b for b in BIG if n_params(b[0])]:
        for dt in ("f64", "f32"):
            yield ["columns", spec, shape, dt]
            for lay in LAY:
                yield ["layout", spec, shape, dt, lay]
            yield ["related", spec, shape, dt]
            yield ["frozen", spec, shape, dt]
            if is_container(spec):
                for ctor in ALTS["ctor"]:
                    yield ["columns", spec, shape, dt, ctor]
                yield ["layout", spec, shape, dt, "strided", "named"]
    for spec, shape in HUGE:
        if n_params(spec):
            for dt in ("f64", "f32"):
                yield ["layout", spec, shape, dt, "contig"]
                yield ["layout", spec, shape, dt, "strided"]
                yield ["related", spec, shape, dt]
    for k in (11, 12, 13):  # more layers than digits: the order is that of the chain, not of the names
        spec = ("Seq",) + tuple(("Linear", 1, 1, i % 2 == 0) if i % 3 else ("Tanh",) for i in range(k))
        for s in (spec, ("Skip",) + spec[1:], ("Seq", ("Linear", 1, 2, True), ("Skip",) + (("Linear", 2, 2, True),) * k)):
            for ctor in ["args"] + ALTS["ctor"]:
                yield ["columns", s, (1,), "f64", ctor]
    depth = 3 if tier == "quick" else 4
    for spec, shape in [CORE[0], CORE[1], NETS[2], NETS[6], NETS[8], NETS[11], NETS[14], CUSTOM_LEAVES[0]]:
        for first in ALPHABET:
            yield ["history", spec, shape, first, depth]


def vec(vals, dtype):
    return torch.cat([v.reshape(-1) for v in vals]).to(dtype)


def unvec(spec, v):
    out, p = [], 0
    for s in param_shapes(spec):
        n = 1
        for k in s:
            n *= k
        out.append(v[p : p + n].reshape(s))
        p += n
    return out


def run(case):
    spec, shape = tup(case[1]), tup(case[2])
    if case[0] == "columns":
        return columns(spec, shape, *case[3:])
    if case[0] == "related":
        return related(spec, shape, case[3])
    if case[0] == "frozen":
        return frozen(spec, shape, case[3])
    if case[0] == "layout":
        return layout(spec, shape, *case[3:])
    return histories(spec, shape, case[3], case[4])


def columns(spec, shape, dt, ctor="args"):
    dtype = DT[dt]
    m = fresh(spec, "generic", dt, ctor=ctor)
    x = x_values(shape, 2, "generic").to(dtype)
    w = m.get_weight()
    n = 1
    N = n_params(spec)
    if tuple(w.shape) != (N,) or w.dtype != dtype:
        return Outcome(f"the weight vector has shape {tuple(w.shape)} and {w.dtype}, the model has {N} parameters", transitions=n)
    if not torch.equal(w, vec(param_values(spec, "generic", dtype), dtype)):
        return Outcome("the weight vector is not the parameters in order", transitions=n)
    mg = Margin()
    node = evaluate(spec, [p for p in unvec(spec, w.double())], x.double(), mg)
    J = m.jacobian(x, None, wrt="weight")
    if J.shape[2] != N:
        return Outcome(f"the Jacobian has {J.shape[2]} columns, the weight vector {N} entries", transitions=n)
    h = 1e-5 if dt == "f64" else 0.0
    states = 0
    for k in range(N):
        # exact effect of moving coordinate k (reference forward), against the library's forward after writing it
        step = 0.125
        wk = w.clone()
        wk[k] += step
        m.set_weight(wk)
        got = m(x).detach()
        ref = forward(spec, unvec(spec, wk.double()), x.double())
        n += 1
        states += 1
        d = differ(got, ref, dtype)
        if d:
            return Outcome(f"after moving weight {k}: output: {d}", states=states, transitions=n)
        if not torch.equal(m.get_weight(), wk):
            return Outcome(f"after moving weight {k}: the vector read is not the vector written", states=states, transitions=n)
        if h and mg.value > 1e-3:
            # central difference of the library itself against the column of the library's Jacobian
            wk[k] = w[k] + h
            m.set_weight(wk)
            up = m(x).detach()
            wk[k] = w[k] - h
            m.set_weight(wk)
            dn = m(x).detach()
            n += 2
            fd = ((up - dn) / (2 * h)).reshape(x.shape[0], -1)
            if float((fd - J[:, :, k]).abs().max()) > 1e-5 * (1 + float(J.abs().max())):
                return Outcome(f"column {k} of the Jacobian is not the derivative with respect to entry {k} of the weight vector", states=states, transitions=n)
    m.set_weight(w)
    d = differ(m.jacobian(x, None, wrt="weight"), node.jw, dtype)
    if d:
        return Outcome(f"after restoring the weights: jacobian: {d}", states=states, transitions=n)
    return Outcome(None, states=states, transitions=n, validated=n)


def layout(spec, shape, dt, lay, ctor="args"):
    dtype = DT[dt]
    m = fresh(spec, "generic", dt, ctor=ctor)
    target = vec(param_values(spec, "other", dtype), dtype)
    if lay == "param":
        src = torch.nn.Parameter(target.clone())
    elif lay == "offset":
        src = torch.cat([torch.full((3,), 9.0, dtype=dtype), target, torch.full((2,), 9.0, dtype=dtype)])[3:-2]
    else:
        src = relayout(target, lay)
    before = list(m.parameters())
    flags = [p.requires_grad for p in before]
    m.set_weight(src)
    after = list(m.parameters())
    n = 1
    if len(before) != len(after) or any(a is not b for a, b in zip(before, after)):
        return Outcome("writing the weights replaced the parameter objects (an optimiser would lose them)", transitions=n)
    if [p.requires_grad for p in after] != flags or any(not p.is_leaf for p in after):
        return Outcome("writing the weights changed requires_grad or the leaf status of the parameters", transitions=n)
    if not torch.equal(m.get_weight(), target):
        return Outcome("the vector read is not the vector written", transitions=n)
    if [tuple(p.shape) for p in after] != [tuple(s) for s in param_shapes(spec)]:
        return Outcome("writing the weights changed the shape of the parameters", transitions=n)
    with torch.no_grad():
        src.fill_(123.0)
    if not torch.equal(m.get_weight(), target):
        return Outcome("the model changed when the caller reused the vector", transitions=n)
    if src.requires_grad is False and lay != "param" and torch.equal(src, target):
        return Outcome("unreachable", transitions=n)
    g = m.get_weight()
    g.fill_(55.0)
    if not torch.equal(m.get_weight(), target):
        return Outcome("the model changed when the caller overwrote a vector it had read", transitions=n)
    x = x_values(shape, 2, "generic").to(dtype)
    d = differ(m(x), forward(spec, unvec(spec, target.double()), x.double()), dtype)
    if d:
        return Outcome(f"output after writing the weights: {d}", transitions=n)
    return Outcome(None, transitions=n + 5, validated=n + 5)


def bits(a):
    return a.detach().contiguous().reshape(-1).view(torch.int64 if a.dtype == torch.float64 else torch.int32)


RELATED = {
    "same": lambda w: w.clone(),
    "negated": lambda w: -w,
    "reversed": lambda w: w.flip(0),
    "rolled": lambda w: w.roll(1),
    "sorted": lambda w: w.sort()[0],
    "swapped-ends": lambda w: torch.cat([w[-1:], w[1:-1], w[:1]]) if len(w) > 1 else w.clone(),
    "one-ulp": lambda w: torch.nextafter(w, torch.full_like(w, 9.0)),
    "last-ulp": lambda w: torch.cat([w[:-1], torch.nextafter(w[-1:], torch.full_like(w[-1:], 9.0))]),
    "first-only": lambda w: torch.cat([w[:1] + 1, w[1:]]),
    "last-only": lambda w: torch.cat([w[:-1], w[-1:] + 1]),
    "sum-kept": lambda w: torch.cat([w[:1] + 0.5, w[1:-1], w[-1:] - 0.5]) if len(w) > 1 else w + 0.5,
    "doubled": lambda w: 2 * w,
    "halved": lambda w: 0.5 * w,
    "zeros": lambda w: torch.zeros_like(w),
    "minus-zeros": lambda w: -torch.zeros_like(w),
    "ones": lambda w: torch.ones_like(w),
    "tiny": lambda w: w * 1e-30,
    "denormal": lambda w: torch.full_like(w, 1e-40 if w.dtype == torch.float32 else 5e-320),
    "large": lambda w: w * 1e30,
    "inf": lambda w: torch.full_like(w, float("inf")),
    "one-nan": lambda w: torch.cat([w[:-1], torch.full_like(w[-1:], float("nan"))]),
    "ints": lambda w: torch.arange(len(w), dtype=w.dtype),
}


def related(spec, shape, dt):
    """All pairs of vectors related to the present one, written one after the other, read back bit for bit."""
    dtype = DT[dt]
    w0 = vec(param_values(spec, "generic", dtype), dtype)
    x = x_values(shape, 2, "generic").to(dtype)
    n = states = 0
    m = fresh(spec, "generic", dt)
    for a, fa in RELATED.items():
        for b, fb in RELATED.items():
            m.set_weight(w0.clone())
            wa = fa(w0)
            m.set_weight(wa)
            wb = fb(wa) if a in ("same", "negated", "reversed", "rolled", "one-ulp") else fb(w0)
            for step in (0, 1):
                w = wb if step else wa
                if step:
                    m.set_weight(w.clone())
                n += 1
                states += 1
                got = m.get_weight()
                if got.dtype != dtype or tuple(got.shape) != tuple(w.shape) or not torch.equal(bits(got), bits(w)):
                    return Outcome(f"writing the vector '{a}' and then '{b}': the vector read is not, bit for bit, the vector written", states=states, transitions=n)
                flat = torch.cat([p.detach().reshape(-1) for p in m.parameters()])
                if not torch.equal(bits(flat), bits(w)):
                    return Outcome(f"writing the vector '{a}' and then '{b}': the parameters are not, bit for bit, the vector written", states=states, transitions=n)
        if a in ("negated", "reversed", "rolled", "sum-kept", "zeros", "minus-zeros", "one-ulp", "last-only", "first-only"):
            m.set_weight(w0.clone())
            m(x)
            m.set_weight(fa(w0))
            n += 1
            d = differ(m(x), forward(spec, unvec(spec, fa(w0).double()), x.double()), dtype)
            if d:
                return Outcome(f"output after writing the vector '{a}': {d}", states=states, transitions=n)
    return Outcome(None, states=states, transitions=n, validated=n)


def frozen(spec, shape, dt):
    """Every subset of frozen parameters (up to 6 parameters; beyond, all singles and their complements)."""
    dtype = DT[dt]
    k = len(param_shapes(spec))
    if k <= 6:
        subsets = [s for r in range(k + 1) for s in itertools.combinations(range(k), r)]
    else:
        subsets = [()] + [(i,) for i in range(k)] + [tuple(j for j in range(k) if j != i) for i in range(k)] + [tuple(range(k))]
    n = states = 0
    x = x_values(shape, 2, "generic").to(dtype)
    w0 = vec(param_values(spec, "generic", dtype), dtype)
    w1 = vec(param_values(spec, "other", dtype), dtype)
    mg = Margin()
    node = evaluate(spec, unvec(spec, w1.double()), x.double(), mg)
    for sub in subsets:
        m = fresh(spec, "generic", dt)
        for i, p in enumerate(m.parameters()):
            p.requires_grad_(i not in sub)
        states += 1
        n += 4
        what = f"with parameters {list(sub)} frozen, "
        got = m.get_weight()
        if tuple(got.shape) != tuple(w0.shape) or not torch.equal(got.detach(), w0):
            return Outcome(what + "the vector read is not all the weights", states=states, transitions=n)
        m.set_weight(w1.clone())
        got = m.get_weight()
        if tuple(got.shape) != tuple(w1.shape) or not torch.equal(got.detach(), w1):
            return Outcome(what + "the vector read is not the vector written", states=states, transitions=n)
        if [p.requires_grad for p in m.parameters()] != [i not in sub for i in range(k)]:
            return Outcome(what + "writing changed which parameters are frozen", states=states, transitions=n)
        d = differ(m(x), node.y, dtype)
        if d:
            return Outcome(what + f"output after writing: {d}", states=states, transitions=n)
        if is_container(spec) and mg.value < 1e-4:
            continue
        d = differ(m.jacobian(x, None, wrt="weight"), node.jw, dtype)
        if d:
            return Outcome(what + f"jacobian with respect to weight: {d}", states=states, transitions=n)
    return Outcome(None, states=states, transitions=n, validated=n)


def histories(spec, shape, first, depth):
    n = states = 0
    for rest in itertools.product(ALPHABET, repeat=depth - 1):
        h = (first,) + rest
        states += 1
        n += len(h)
        try:
            bad = play(spec, shape, h)
        except CaseTimeout:
            raise
        except Exception as e:
            bad = f"raised {type(e).__name__}: {str(e)[:200]}"
        if bad:
            return Outcome(f"history {list(h)}: {bad}", states=states, transitions=n)
    return Outcome(None, states=states, transitions=n, validated=n)


def play(spec, shape, h):
    dtype = torch.float64
    m, m2 = fresh(spec, "generic"), fresh(spec, "third")
    s1, s2 = vec(param_values(spec, "generic"), dtype), vec(param_values(spec, "third"), dtype)
    a, b = vec(param_values(spec, "other"), dtype), pattern(s1.shape, salt=77)
    written, read = None, None  # (tensor, value it must have)
    sd = {k: v.clone() for k, v in m.state_dict().items()}
    opt = torch.optim.SGD(m.parameters(), lr=0.5)
    for i, op in enumerate(h):
        if op in ("set-a", "set-b"):
            v = (a if op == "set-a" else b).clone()
            m.set_weight(v)
            s1 = v.clone()
            written = (v, v.clone())
        elif op == "set-held":
            if read is not None:
                m.set_weight(read[0])
                s1 = read[1].clone()
                written = read
        elif op == "get":
            v = m.get_weight()
            read = (v, s1.clone())
        elif op == "scribble-written":
            if written is not None:
                same = read is not None and written[0] is read[0]
                written[0].mul_(-2.0)
                written = (written[0], written[1] * -2.0)
                if same:
                    read = written
        elif op == "scribble-read":
            if read is not None:
                same = written is not None and written[0] is read[0]
                read[0].add_(3.0)
                read = (read[0], read[1] + 3.0)
                if same:
                    written = read
        elif op == "sgd":
            opt.zero_grad()
            for p in m.parameters():
                p.grad = torch.ones_like(p)
            opt.step()
            s1 = s1 - 0.5
        elif op == "inplace-first":
            p = next(iter(m.parameters()))
            with torch.no_grad():
                p.add_(2.0)
            s1 = s1.clone()
            s1[: p.numel()] += 2.0
        elif op == "set2-same":
            if written is not None:
                m2.set_weight(written[0])
                s2 = written[1].clone()
        elif op == "inplace2":
            with torch.no_grad():
                for p in m2.parameters():
                    p.mul_(0.5)
            s2 = s2 * 0.5
        elif op == "load":
            m.load_state_dict(sd)
            s1 = vec(param_values(spec, "generic"), dtype)
        elif op == "copy-set":
            c = copy.deepcopy(m)
            c.set_weight(torch.zeros_like(s1))
        for what, got, ref in (
            ("the model", torch.cat([p.detach().reshape(-1) for p in m.parameters()]), s1),
            ("the vector read from the model", m.get_weight(), s1),
            ("the other model", m2.get_weight(), s2),
            ("the vector written", None if written is None else written[0], None if written is None else written[1]),
            ("the vector read earlier", None if read is None else read[0], None if read is None else read[1]),
        ):
            if got is not None and (got.shape != ref.shape or float((got - ref).abs().max()) > 1e-12 * (1 + float(ref.abs().max()))):
                return f"after step {i} ({op}), {what} does not have the values it should"
    x = x_values(shape, 2, "generic")
    d = differ(m(x), forward(spec, unvec(spec, s1), x), dtype)
    return f"output: {d}" if d else None
