import itertools

import torch

from ..ops import differ, flat_blocks
from ..product import DT, default_dtype, fresh, x_values
from ..runner import Outcome
from ..spec import evaluate, is_container, nnj, param_values, tup
from ..universe import CORE, NETS
from ..values import pattern, relayout

ID, LEVEL = "C17", "model_checking"
RULE = (
    "every symmetric integer matrix of size 1..3 with entries in a small range (the positive definite ones must be inverted, the "
    "others inverted rightly or refused), every nesting of up to 4 (quick) or 5 (thorough) blocks into lists, batch sizes with a "
    "different matrix per sample, every combination of six kinds of blocks (precision, batch, size, definiteness) in these nestings, unbatched matrices, sizes up to 40, scales from 1e-6 to 1e6, dtypes and memory layouts, and the "
    "per-layer curvature blocks of every listed network: block times result is the identity, structure kept, argument untouched. "
    "One case is one family of matrices; states are matrices, transitions are inversions"
)


def nestings(k):
    """Every ordered tree with leaves 0..k-1, as nested lists without redundant levels beyond one."""

    def forests(lo, hi, least=1):
        if lo == hi:
            if least <= 0:
                yield []
            return
        for mid in range(lo + 1, hi + 1):
            if least > 1 and mid == hi:
                continue
            for head in trees(lo, mid):
                for rest in forests(mid, hi, least - 1):
                    yield [head] + rest

    def trees(lo, hi):
        if hi - lo == 1:
            yield lo
            yield [lo]
        else:
            yield from forests(lo, hi, 2)

    yield from forests(0, k)


def cases(tier):
    q = tier == "quick"
    r = 2 if q else 3
    d = range(-1, 4 if q else 5)
    yield ["ints", 1, r, -9, 9]
    for a in d:
        yield ["ints", 2, r, a, a]
        yield ["ints", 3, 1 if q else 2, a, a]
    for k in range(1, 5 if q else 6):
        for i, t in enumerate(nestings(k)):
            yield ["nest", t]
    for n in list(range(1, 13)) + [16, 25, 32, 40]:
        for b in (0, 1, 2, 5):
            for dt in ("f64", "f32"):
                yield ["sizes", n, b, dt]
    for n, b in ((48, 2), (64, 1), (65, 0), (80, 1), (100, 0), (128, 1), (129, 0), (200, 0), (256, 1), (300, 0), (3, 17), (2, 33), (2, 64), (3, 65), (1, 100), (2, 129), (2, 257), (1, 1025)):
        for dt in ("f64", "f32"):
            yield ["sizes", n, b, dt]
    for n in range(1, 41):  # many blocks, and lists in lists in lists
        yield ["many", n]
    for n in range(1, 7):
        for dt in ("f64", "f32"):
            yield ["scales", n, dt]
    for spec, shape in NETS + CORE:
        for dt in ("f64", "f32"):
            yield ["model", spec, shape, dt]


def ident(block, inv, tol):
    if not isinstance(inv, torch.Tensor):
        return f"expected a tensor, got {type(inv).__name__}"
    if inv.shape != block.shape or inv.dtype != block.dtype:
        return f"expected {tuple(block.shape)} {block.dtype}, got {tuple(inv.shape)} {inv.dtype}"
    n = block.shape[-1]
    A, B = block.double(), inv.detach().double()
    E = torch.eye(n, dtype=torch.float64).expand(A.shape)
    scale = 1.0 + float((A.abs() @ B.abs()).max())
    for P in (A @ B, B @ A):
        err = float((P - E).abs().max())
        if not err <= tol * scale:
            return f"matrix times result differs from the identity by {err}: {A.tolist() if n < 4 else '...'} -> {B.tolist() if n < 4 else '...'}"
    return None


def flat_numbers(t):
    return [i for c in t for i in flat_numbers(c)] if isinstance(t, list) else [t]


KIND = [("f64", 2, 2, True), ("f32", 2, 2, True), ("f64", 0, 2, True), ("f64", 2, 3, True), ("f64", 1, 1, True), ("f64", 2, 2, False)]
TOL = {torch.float64: 1e-9, torch.float32: 1e-4}


def spd(n, b, salt, dtype):
    v = pattern((max(b, 1), n, n), salt=salt)
    m = (v @ v.transpose(1, 2) / n + 0.5 * torch.eye(n, dtype=torch.float64)).to(dtype)
    m = (m + m.transpose(1, 2)) / 2
    return m if b else m[0]


def same_structure(arg, res):
    if isinstance(arg, list):
        return isinstance(res, list) and len(arg) == len(res) and all(same_structure(a, r) for a, r in zip(arg, res))
    return isinstance(res, torch.Tensor)


def run(case):
    k = case[0]
    n = 0
    if k == "ints":
        size, r, lo, hi = case[1:]
        pd, other = [], []
        off = [(i, j) for i in range(size) for j in range(i)]
        for first in range(lo, hi + 1):
            for diag in itertools.product(range(-1, 5), repeat=size - 1):
                for o in itertools.product(range(-r, r + 1), repeat=len(off)):
                    m = torch.zeros(size, size, dtype=torch.float64)
                    for i, v in enumerate((first,) + diag):
                        m[i, i] = v
                    for (i, j), v in zip(off, o):
                        m[i, j] = m[j, i] = v
                    # exact integer minors decide
                    minors = [m[0, 0].item()]
                    if size > 1:
                        minors.append((m[0, 0] * m[1, 1] - m[0, 1] ** 2).item())
                    if size > 2:
                        minors.append(
                            (
                                m[0, 0] * (m[1, 1] * m[2, 2] - m[1, 2] ** 2)
                                - m[0, 1] * (m[0, 1] * m[2, 2] - m[1, 2] * m[0, 2])
                                + m[0, 2] * (m[0, 1] * m[1, 2] - m[1, 1] * m[0, 2])
                            ).item()
                        )
                    if all(v > 0 for v in minors):
                        pd.append(m)
                    else:
                        other.append(m)
        if pd:
            for b in (1, 2, 3, len(pd)):
                for dtype in (torch.float64, torch.float32):
                    for s in range(0, len(pd), b):
                        M = torch.stack(pd[s : s + b]).to(dtype)
                        keep = M.clone()
                        d = ident(M, nnj.invert_block_diagonal(M), TOL[dtype])
                        n += 1
                        if d:
                            return Outcome(d, states=n, transitions=n)
                        if not torch.equal(M, keep):
                            return Outcome("the argument was modified", states=n, transitions=n)
        ref = 0
        for m in other:
            M = m[None].clone()
            n += 1
            try:
                got = nnj.invert_block_diagonal(M)
            except Exception:
                ref += 1
                continue
            if not bool(torch.isfinite(got).all()):
                ref += 1  # openly no number
                continue
            if abs(float(torch.linalg.det(m))) < 0.5:
                ref += 1  # singular up to rounding: nothing to compare with
                continue
            d = ident(M, got, 1e-6)
            if d:
                return Outcome("not positive definite, not refused: " + d, states=n, transitions=n)
        return Outcome(None, states=len(pd) + len(other), transitions=n, validated=n - ref, refused=ref)
    if k == "nest":
        for dt in ("f64", "f32"):
            for b in (0, 1, 2):
                for lay in ("contig", "transposed", "strided", "offset"):
                    salt = itertools.count(1)

                    def mk(t):
                        if isinstance(t, list):
                            return [mk(i) for i in t]
                        return relayout(spd(1 + t % 3, b, next(salt), DT[dt]), lay)

                    arg = mk(case[1])
                    keep = [t.clone() for t in flat_blocks(arg)]
                    got = nnj.invert_block_diagonal(arg)
                    n += 1
                    if not same_structure(arg, got):
                        return Outcome(f"the blocks {case[1]} came back in another structure", states=n, transitions=n)
                    for a, g, kp in zip(flat_blocks(arg), flat_blocks(got), keep):
                        d = ident(a, g, TOL[DT[dt]])
                        if not d and not torch.equal(a, kp):
                            d = "the argument was modified"
                        if d:
                            return Outcome(f"{case[1]}: {d}", states=n, transitions=n)
        # every way for the blocks to differ in precision, batch, size and positive definiteness
        leaves = len(set(flat_numbers(case[1])))
        for kinds in itertools.product(range(len(KIND)), repeat=leaves):

            def mk(t):
                if isinstance(t, list):
                    return [mk(i) for i in t]
                dt, b, size, definite = KIND[kinds[t]]
                m = spd(size, b, 1 + t, DT[dt])
                return m if definite else m - 2.0 * torch.eye(size, dtype=m.dtype)

            arg = mk(case[1])
            keep = [t.clone() for t in flat_blocks(arg)]
            n += 1
            try:
                got = nnj.invert_block_diagonal(arg)
            except Exception:
                if all(KIND[i][3] for i in kinds):
                    raise
                continue
            what = f"{case[1]} with blocks {[KIND[i] for i in kinds]} (precision, batch, size, positive definite): "
            if not same_structure(arg, got):
                return Outcome(what + "came back in another structure", states=n, transitions=n)
            for a, g, kp in zip(flat_blocks(arg), flat_blocks(got), keep):
                d = ident(a, g, 10 * TOL[a.dtype])
                if not d and not torch.equal(a, kp):
                    d = "the argument was modified"
                if d:
                    return Outcome(what + d, states=n, transitions=n)
        return Outcome(None, states=n, transitions=n, validated=n)
    if k == "sizes":
        size, b, dt = case[1:]
        for scale in (1.0, 1e-6, 1e6, 1e-3, 37.0):
            for rg in (False, True):
                for dd in ("f32", "f64"):
                    M = (spd(size, b, 3, torch.float64) * scale).to(DT[dt])
                    if b > 2:  # samples of very different size
                        M = M * torch.tensor([10.0 ** (i % 5 - 2) for i in range(b)], dtype=DT[dt])[:, None, None]
                    M.requires_grad_(rg)
                    with default_dtype(dd):
                        got = nnj.invert_block_diagonal(M)
                    n += 1
                    d = ident(M.detach(), got, TOL[DT[dt]])
                    if d:
                        return Outcome(f"size {size} batch {b} scale {scale}: {d}", states=n, transitions=n)
        return Outcome(None, states=n, transitions=n, validated=n)
    if k == "many":
        for deep in (False, True):
            for b in (0, 2):
                mats = [spd(1 + i % 4, b, i, torch.float64) for i in range(case[1])]
                arg = mats
                if deep:
                    arg = [mats[0]]
                    for i in mats[1:]:
                        arg = [i, arg] if len(arg) % 2 else [arg, i]
                keep = [t.clone() for t in flat_blocks(arg)]
                got = nnj.invert_block_diagonal(arg)
                n += 1
                if not same_structure(arg, got):
                    return Outcome(f"{case[1]} blocks came back in another structure", states=n, transitions=n)
                for a, g, kp in zip(flat_blocks(arg), flat_blocks(got), keep):
                    d = ident(a, g, TOL[a.dtype])
                    if d or not torch.equal(a, kp):
                        return Outcome(f"{case[1]} blocks: {d or 'the argument was modified'}", states=n, transitions=n)
        return Outcome(None, states=n, transitions=n, validated=n)
    if k == "scales":  # the inverse of a multiple is the inverse divided by it, and the inverse of a badly conditioned matrix is still accurate
        size, dt = case[1:]
        base = spd(size, 2, 5, torch.float64).to(DT[dt])
        for e in range(-100, 101, 2) if dt == "f64" else range(-28, 29):
            M = base * 2.0 ** (3 * e if dt == "f64" else 2 * e)
            got = nnj.invert_block_diagonal(M)
            n += 1
            d = ident(M, got, TOL[DT[dt]])
            if d:
                return Outcome(f"size {size}, scaled by a power of two ({e}): {d}", states=n, transitions=n)
        for e in range(1, 7 if dt == "f64" else 3):
            D = torch.tensor([10.0 ** (-e * (i % 2)) for i in range(size)], dtype=torch.float64)
            M = (spd(size, 1, 5, torch.float64) * D[:, None] * D[None, :]).to(DT[dt])
            got = nnj.invert_block_diagonal(M)
            n += 1
            err = (got.double() * D[:, None] * D[None, :]) @ spd(size, 1, 5, torch.float64) - torch.eye(size, dtype=torch.float64)
            if not float(err.abs().max()) <= 100 * TOL[DT[dt]]:
                return Outcome(f"size {size}, rows scaled by 1e-{e}: wrong by {float(err.abs().max())}", states=n, transitions=n)
        return Outcome(None, states=n, transitions=n, validated=n)
    if k == "model":  # what it is for: posterior precision blocks of a network
        spec, shape, dt = tup(case[1]), tup(case[2]), case[3]
        m = fresh(spec, "generic", dt)
        x = x_values(shape, 3, "generic").to(DT[dt])
        blocks = m.jTmjp(x, None, None, wrt="weight")
        if blocks is None or blocks == []:
            return Outcome(None, transitions=1)
        add = lambda o: [add(i) for i in o] if isinstance(o, list) else o + torch.eye(o.shape[-1], dtype=o.dtype)
        tot = lambda o: [tot(i) for i in o] if isinstance(o, list) else o.sum(0)
        for arg in (add(blocks), add(tot(blocks))):
            got = nnj.invert_block_diagonal(arg)
            n += 1
            if not same_structure(arg, got):
                return Outcome("the blocks came back in another structure", transitions=n)
            for a, g in zip(flat_blocks(arg), flat_blocks(got)):
                d = ident(a, g, TOL[DT[dt]])
                if d:
                    return Outcome(d, transitions=n)
        return Outcome(None, transitions=n, validated=n)
    raise ValueError(k)
