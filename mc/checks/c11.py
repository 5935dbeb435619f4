import itertools

import torch

from .. import lik
from ..ops import APPROX, Call, as_argument, calls, describe, flat_blocks, invoke, supported, tangent
from ..product import DT, fresh, x_values
from ..spaces import *
from ..spec import evaluate, param_values, split_blocks
from ..universe import BIG

ID, LEVEL = "C11", "model_checking"
RULE = (
    "every batch that is a word of length 1..4 (quick) or 1..5 (thorough) over three distinct samples, words with a poisoned "
    "sample (NaN or infinite input and tangent), words over samples of which two share the input or the tangent, and long periodic batches up to 100 samples: each row of each product, in every "
    "mode, and of each likelihood value, gradient and GGN (all words of length 1..3 (4) over four samples, one of them extreme), is compared with the result for a batch of that sample alone. One case is one (network, word length class) x all words; "
    "states are batches, transitions are calls"
)


def cases(tier):
    items = CORE + NETS + CUSTOM_LEAVES
    for spec, shape in items:
        for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
            for first in range(3):
                yield ["words", spec, shape, n, first]
        for tied in ("x", "t"):
            yield ["tied", spec, shape, tied, 3 if tier == "quick" else 4]
        for poison in ("nan", "inf", "huge"):
            yield ["poison", spec, shape, poison]
    for spec, shape in items:
        yield ["long", spec, shape]
    for spec, shape in BIG:
        yield ["long", spec, shape, 9]
    for kind in lik.KINDS:
        for i in range(len(lik.NETS_)):
            for poison in ("large", "nan", "inf", "huge", "tied x", "tied t"):
                for first in range(4):
                    yield ["lik", kind, i, poison, first, 3 if tier == "quick" else 4]


def likelihood(kind, i, poison, first, longest):
    """Values, gradients and GGNs that are not summed over the batch, over all words of four samples, the last one extreme."""
    spec, shape = lik.NETS_[i]
    m = fresh(spec)
    x = torch.cat([x_values(shape, 1, "generic"), x_values(shape, 1, "other"), x_values(shape, 1, "wide"), 1e4 * x_values(shape, 1, "generic")])
    y = m(x).detach()
    ts = list(lik.targets(kind, y[:3]).values())
    t = torch.stack([ts[s % len(ts)][s] for s in range(3)] + [ts[-1][0]])
    if kind == "LogGaussian":
        t[3] *= 1e4
    if poison == "tied x":  # one input with different targets, and the other way round
        x = x[torch.tensor([0, 0, 0, 1])]
    elif poison == "tied t":
        t = t[torch.tensor([1, 1, 1, 0])]
        x[3] = x[0] * 0.5
    elif poison != "large":
        x[3] = {"nan": float("nan"), "inf": float("inf"), "huge": 1e300}[poison]
    calls_ = []
    wrts = ("weight", "input") if list(m.parameters()) else ("input",)
    for shp, bp in (("diag", "exact"), ("full", "exact"), ("diag", "approx")):
        l = lik.make(kind, "return all", shp, bp)
        if not calls_:
            calls_.append(("value", lambda a, b, l=l: l(a, m, b)))
            for wrt in wrts:
                calls_.append((f"gradient wrt {wrt}", lambda a, b, l=l, wrt=wrt: l.gradient(a, m, b, wrt=wrt)))
        for wrt in wrts:
            calls_.append((f"ggn {shp} {bp} wrt {wrt}", lambda a, b, l=l, wrt=wrt: l.ggn(a, m, b, wrt=wrt)))
    n = states = 0
    single = {}
    for name, f in calls_:
        for s in range(4 if poison in ("large", "tied x", "tied t") else 3):
            single[name, s] = [b[0].detach().clone() for b in flat_blocks(f(x[s : s + 1].clone(), t[s : s + 1].clone()))]
    for length in range(1, longest + 1):
        for rest in itertools.product(range(4), repeat=length - 1):
            w = (first,) + rest
            idx = torch.tensor(w)
            states += 1
            for name, f in calls_:
                blocks = flat_blocks(f(x[idx], t[idx]))
                n += 1
                for r, s in enumerate(w):
                    if (name, s) not in single:
                        continue
                    ref = single[name, s]
                    if len(ref) != len(blocks) or any(b.shape[0] != len(w) for b in blocks):
                        return Outcome(f"{kind} batch {w}: {name} has shape {describe(blocks)}", states=states, transitions=n)
                    if any(not near(b[r].detach(), v) for b, v in zip(blocks, ref)):
                        return Outcome(f"{kind} on {spec}, batch {w} (sample 3 is {poison}): row {r} of the {name} differs from the result for that sample alone", states=states, transitions=n)
    return Outcome(None, states=states, transitions=n, validated=n)


def words(case):
    if case[0] == "words":
        n, first = case[3], case[4]
        for w in itertools.product(range(3), repeat=n - 1):
            yield (first,) + w
    elif case[0] == "tied":
        for n in range(1, case[4] + 1):
            yield from itertools.product(range(3), repeat=n)
    elif case[0] == "poison":
        for w in ((3,), (3, 0), (0, 3), (0, 3, 1), (3, 1, 2), (2, 0, 3), (3, 0, 3, 1), (0, 1, 2, 3)):
            yield w
    else:
        for n in (4, 9) if len(case) > 3 else (5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 129, 200, 257):
            yield tuple((i * i + i // 3) % 3 for i in range(n))


def run(case):
    if case[0] == "lik":
        return likelihood(*case[1:])
    spec, shape = tup(case[1]), tup(case[2])
    dt = torch.float64
    m = fresh(spec)
    params = param_values(spec)
    poison = {"nan": float("nan"), "inf": float("inf"), "huge": 1e300}.get(case[3] if case[0] == "poison" else None)
    x = torch.cat([x_values(shape, 1, "generic"), x_values(shape, 1, "other"), x_values(shape, 1, "wide")])
    if case[0] == "tied" and case[3] == "x":
        x = x[torch.tensor([0, 0, 1])]
    node = evaluate(spec, params, x)
    if poison is not None:
        x = torch.cat([x, torch.full_like(x[:1], poison)])
    cs = [k for k in calls(OPS, ("input", "weight"), MODES + (APPROX,), ("generic",), (2,), False) if supported(spec, k)]
    cs += [k for k in calls(("jmp", "jTmjp", "jmjTp"), ("input", "weight"), (MODES[0], APPROX), ("none",)) if supported(spec, k)]
    if case[0] == "long":
        cs = [k for k in cs if not (k.op in ("jmp", "mjp") and k.wrt == "weight" and k.tan == "none")]
    single, n, states = {}, 0, 0
    tans = {}
    for i, k in enumerate(cs):
        t = tangent(node, k)
        if t is not None and poison is not None:
            t = torch.cat([t, torch.full_like(t[:1], poison)])
        if case[0] == "tied" and case[3] == "t" and t is not None:
            t = t[torch.tensor([0, 0, 1])]
        tans[i] = t
        for s in range(3):
            r = invoke(m, k, x[s : s + 1], None, None if t is None else t[s : s + 1].clone())
            n += 1
            single[i, s] = None if r is None else [b[0].clone() for b in flat_blocks(r)]
    single["y"] = [m(x[s : s + 1])[0].detach().clone() for s in range(3)]
    for w in words(case):
        states += 1
        idx = torch.tensor(w)
        xb = x[idx]
        # the samples that are tied as one sample seen several times
        same = case[0] == "tied" and w[0] == 0 and 2 not in w
        if same and case[3] == "x":
            xb = x[:1].expand_as(xb)
        y = m(xb)
        n += 1
        for r, s in enumerate(w):
            if s < 3 and not near(y[r], single["y"][s]):
                return Outcome(f"batch {w}: the output for row {r} differs from the one for that sample alone", states=states, transitions=n)
        for i, k in enumerate(cs):
            t = tans[i]
            tb = None if t is None else t[idx]
            if same and case[3] == "t" and t is not None:
                tb = t[:1].expand_as(tb)
            got = invoke(m, k, xb, None, tb)
            n += 1
            for r, s in enumerate(w):
                if s == 3:
                    continue
                ref = single[i, s]
                if (got is None) != (ref is None):
                    return Outcome(f"batch {w}: {k!r} is {describe(got)}, differs from a single sample", states=states, transitions=n)
                if got is None:
                    continue
                blocks = flat_blocks(got)
                if len(blocks) != len(ref) or any(b.shape[0] != len(w) for b in blocks):
                    return Outcome(f"batch {w}: {k!r} has shape {describe(got)}", states=states, transitions=n)
                for b, v in zip(blocks, ref):
                    if not near(b[r], v):
                        return Outcome(
                            f"batch {w}: row {r} of {k!r} differs from the result for that sample alone", states=states, transitions=n
                        )
    return Outcome(None, states=states, transitions=n, validated=n)


def near(a, b):
    if a.shape != b.shape:
        return False
    if a.numel() == 0:
        return True
    e = (a - b).abs().max()
    return bool(e <= 1e-9 * b.abs().max() + 1e-12)
