"""Networks as data, the library object built from them, and the reference model.

A spec is a nested tuple, e.g. ("Seq", ("Linear", 3, 4, True), ("Tanh",), ("Skip", ("Linear", 4, 2, False))).

The reference model knows nothing of the library: outputs come from torch.nn.functional in double precision, the
Jacobian of a leaf from its closed form (linear leaves: the image of the basis), and everything else is dense linear
algebra on those Jacobians.
"""
import collections
import itertools
import math

import torch
import torch.nn.functional as F

from . import env
from .values import ints, pattern

nnj = env.load_nnj()

ELEMENTWISE = ("Tanh", "ReLU", "Sigmoid", "Sinusoidal", "Softplus", "TruncExp")


def tup(o):
    return tuple(tup(i) for i in o) if isinstance(o, (list, tuple)) else o


def kind(spec):
    return spec[0]


def children(spec):
    return spec[1:] if spec[0] in ("Seq", "Skip") else ()


def is_container(spec):
    return spec[0] in ("Seq", "Skip")


# ---------------------------------------------------------------------------------------------------------------
# parameters


def param_shapes(spec):
    """Shapes of the parameters, in the order of module.parameters()."""
    k = spec[0]
    if k in ("Seq", "Skip"):
        return [s for c in children(spec) for s in param_shapes(c)]
    if k == "Linear":
        _, i, o, bias = spec
        return [(o, i)] + ([(o,)] if bias else [])
    if k == "Conv2d":
        _, ci, co, (kh, kw), _, _, bias, _ = spec
        return [(co, ci, kh, kw)] + ([(co,)] if bias else [])
    if k in CUSTOM:
        return CUSTOM[k].shapes(spec)
    return []


def n_params(spec):
    return sum(math.prod(s) for s in param_shapes(spec))


def param_values(spec, wcls="generic", dtype=torch.float64):
    out = []
    for j, s in enumerate(param_shapes(spec)):
        if wcls == "generic":
            v = pattern(s, salt=100 + j)
        elif wcls == "other":
            v = pattern(s, salt=300 + 7 * j)
        elif wcls == "third":
            v = pattern(s, salt=500 + 3 * j, lo=-0.5, hi=1.5)
        elif wcls == "zero":
            v = torch.zeros(s, dtype=torch.float64)
        elif wcls == "ones":
            v = torch.ones(s, dtype=torch.float64)
        elif wcls == "ints":
            v = ints(s, salt=j)
        elif wcls == "big":
            v = 4.0 * pattern(s, salt=200 + j)
        elif wcls == "positive":
            v = pattern(s, salt=400 + j, lo=0.1, hi=1.1)
        elif wcls == "onehot":
            v = torch.zeros(s, dtype=torch.float64).reshape(-1)
            v[j % v.numel()] = 1.0
            v = v.reshape(s)
        else:
            raise ValueError(wcls)
        out.append(v.to(dtype).double())
    return out


# ---------------------------------------------------------------------------------------------------------------
# the library object


NAMES = ("stem", "9", "b", "act", "10", "a", "2", "Head", "conv", "_x", "1", "z", "0", "last")


def named(mods):
    """The layers under names that are in neither alphabetical nor numerical order."""
    return collections.OrderedDict((NAMES[i] if i < len(NAMES) else f"n{-i}", m) for i, m in enumerate(mods))


def build(spec, ctor="args", cache=None):
    """ctor: how containers are made ("args", "named", "appended", "inserted", "nohooks", "shared": equal layers without
    weights are one and the same object)."""
    if ctor == "shared" and n_params(spec) == 0:
        cache = {} if cache is None else cache
        if spec not in cache:
            cache[spec] = build_one(spec, ctor, cache)
        return cache[spec]
    return build_one(spec, ctor, {} if cache is None else cache)


def build_one(spec, ctor, cache):
    k = spec[0]
    if k in ("Seq", "Skip"):
        cls = nnj.Sequential if k == "Seq" else nnj.SkipConnection
        kids = [build(c, ctor, cache) for c in children(spec)]
        if ctor == "named" and kids:
            return cls(named(kids))
        if ctor == "nohooks":
            return cls(*kids, add_hooks=False)
        if ctor == "appended" and k == "Seq":
            m = cls(*kids[:1])
            for c in kids[1:]:
                m.append(c)
            return m
        if ctor == "inserted" and k == "Seq":
            m = cls(*kids[-1:])
            for c in reversed(kids[:-1]):
                m.insert(0, c)
            return m
        return cls(*kids)
    if k == "Linear":
        return nnj.Linear(spec[1], spec[2], bias=spec[3])
    if k == "Conv2d":
        _, ci, co, ks, pad, dil, bias, vm = spec
        return nnj.Conv2d(ci, co, tuple(ks), padding=tuple(pad), dilation=tuple(dil), bias=bias, use_vmap_for_backprop=vm)
    if k == "Softplus":
        return nnj.Softplus(*spec[1:])
    if k == "L2Norm":
        return nnj.L2Norm(*spec[1:])
    if k == "Reshape":
        return nnj.Reshape(*spec[1:])
    if k == "Upsample":
        return nnj.Upsample(scale_factor=spec[1], mode="nearest")
    if k == "MaxPool2d":
        _, ks, st, pad, dil, ceil = spec
        return nnj.MaxPool2d(ks, stride=st, padding=pad, dilation=dil, ceil_mode=ceil)
    if k in CUSTOM:
        return CUSTOM[k].build(spec)
    if k == "ReLU" and len(spec) > 1:
        return nnj.ReLU(inplace=spec[1])
    return getattr(nnj, k)()


def set_params(module, values):
    ps = list(module.parameters())
    if len(ps) != len(values):
        raise AssertionError(f"the model has {len(ps)} parameters instead of {len(values)}")
    with torch.no_grad():
        for p, v in zip(ps, values):
            if p.shape != v.shape:
                raise AssertionError(f"parameter of shape {tuple(p.shape)} instead of {tuple(v.shape)}")
            p.copy_(v)


def make(spec, wcls="generic", dtype=torch.float64, ctor="args"):
    m = build(spec, ctor)
    m = m.to(dtype)
    vals = param_values(spec, wcls, dtype)
    set_params(m, vals)
    return m, vals


# ---------------------------------------------------------------------------------------------------------------
# custom layers, written as the documentation tells a user to write them


class Custom:
    def __init__(self, build, shapes, ref):
        self.build, self.shapes, self.ref = build, shapes, ref


CUSTOM = {}


# ---------------------------------------------------------------------------------------------------------------
# reference: leaves


class Margin:
    """Distance from the points where the function is not differentiable, over everything seen."""

    def __init__(self):
        self.value = float("inf")

    def see(self, t):
        if t.numel():
            self.value = min(self.value, float(t.abs().min()))


def elementwise(spec, x, margin=None):
    k = spec[0]
    if k == "Tanh":
        return torch.tanh(x), 1.0 / torch.cosh(x) ** 2
    if k == "ReLU":
        if margin is not None:
            margin.see(x[x != 0])  # an exact zero is exact in any order of summation worth considering
        return torch.where(x > 0, x, torch.zeros_like(x)), (x > 0).double()
    if k == "Sigmoid":
        e = torch.exp(-x.abs())
        s = torch.where(x >= 0, 1.0 / (1.0 + e), e / (1.0 + e))
        return s, e / (1.0 + e) ** 2
    if k == "Sinusoidal":
        return torch.sin(x), torch.cos(x)
    if k == "Softplus":
        beta = spec[1] if len(spec) > 1 else 1.0
        thr = spec[2] if len(spec) > 2 else 20.0
        if margin is not None:
            margin.see(x * beta - thr)
        lin = x * beta > thr
        z = torch.where(lin, torch.zeros_like(x), x * beta)
        y = torch.where(lin, x, (torch.clamp(z, min=0) + torch.log1p(torch.exp(-z.abs()))) / beta)
        e = torch.exp(-z.abs())
        s = torch.where(z >= 0, 1.0 / (1.0 + e), e / (1.0 + e))
        return y, torch.where(lin, torch.ones_like(x), s)
    if k == "TruncExp":
        return torch.exp(x), torch.exp(torch.clamp(x, -15.0, 15.0))
    raise ValueError(k)


def pool_indices(spec, x, margin=None):
    """Flat position (in the input plane) of the winner of every window: the first largest in row-major order.

    Written from the definition of max pooling, with explicit loops over the window."""
    _, ks, st, pad, dil, ceil = spec
    two = lambda a: (a, a) if isinstance(a, int) else tuple(a)
    kh, kw = two(ks)
    sh, sw = two(ks if st is None else st)
    ph, pw = two(pad)
    dh, dw = two(dil)
    b, c, h, w = x.shape

    def size(n, k, s, p, d):
        num = n + 2 * p - d * (k - 1) - 1
        out = (-(-num // s) if ceil else num // s) + 1
        if ceil and (out - 1) * s >= n + p:
            out -= 1
        return out

    h2, w2 = size(h, kh, sh, ph, dh), size(w, kw, sw, pw, dw)
    best = torch.full((b, c, h2, w2), -float("inf"), dtype=torch.float64)
    second = torch.full((b, c, h2, w2), -float("inf"), dtype=torch.float64)
    idx = torch.full((b, c, h2, w2), -1, dtype=torch.long)
    oi = torch.arange(h2) * sh - ph
    oj = torch.arange(w2) * sw - pw
    for i in range(kh):
        for j in range(kw):
            r = oi + i * dh
            q = oj + j * dw
            ok = ((r >= 0) & (r < h))[:, None] & ((q >= 0) & (q < w))[None, :]
            rr, qq = r.clamp(0, h - 1), q.clamp(0, w - 1)
            v = x[:, :, rr][:, :, :, qq]
            v = torch.where(ok, v, torch.full_like(v, -float("inf")))
            pos = (rr[:, None] * w + qq[None, :]).expand(b, c, h2, w2)
            win = ok & ((v > best) | (idx < 0) | torch.isnan(v))
            second = torch.where(win, best, torch.maximum(second, v))
            best = torch.where(win, v, best)
            idx = torch.where(win, pos, idx)
    if margin is not None:
        gap = best - second
        margin.see(gap[torch.isfinite(gap) & ~((best == 0) & (second == 0))])
    return best, idx


def out_shape(spec, shape):
    """Shape of a sample after the layer."""
    y = forward(spec, [torch.zeros(s, dtype=torch.float64) for s in param_shapes(spec)], torch.zeros((1,) + tuple(shape), dtype=torch.float64))
    return tuple(y.shape[1:])


def leaf(spec, params, x, margin=None, jac=True):
    """Output, Jacobian wrt input, Jacobian wrt weight (None when there is none) of a leaf at x (double)."""
    k = spec[0]
    b = x.shape[0]
    if k in ELEMENTWISE:
        y, d = elementwise(spec, x, margin)
        return y, torch.diag_embed(d.reshape(b, -1)) if jac else None, None
    if k == "Linear":
        w = params[0]
        y = x @ w.T
        if spec[3]:
            y = y + params[1]
        if not jac:
            return y, None, None
        o, i = w.shape
        jx = w[None].repeat(b, 1, 1)
        jw = torch.zeros(b, o, o, i, dtype=torch.float64)
        for r in range(o):
            jw[:, r, r, :] = x
        jw = jw.reshape(b, o, o * i)
        if spec[3]:
            jw = torch.cat([jw, torch.eye(o, dtype=torch.float64)[None].repeat(b, 1, 1)], dim=2)
        return y, jx, jw
    if k == "Conv2d":
        _, ci, co, ks, pad, dil, bias, _ = spec
        w = params[0]
        y = F.conv2d(x, w, params[1] if bias else None, padding=tuple(pad), dilation=tuple(dil))
        if not jac:
            return y, None, None
        n_in = x[0].numel()
        basis = torch.eye(n_in, dtype=torch.float64).reshape((n_in,) + tuple(x.shape[1:]))
        cols = F.conv2d(basis, w, None, padding=tuple(pad), dilation=tuple(dil)).reshape(n_in, -1)
        jx = cols.T[None].repeat(b, 1, 1)
        patches = F.unfold(x, tuple(ks), dilation=tuple(dil), padding=tuple(pad))  # b, ci*kh*kw, L
        L, K = patches.shape[2], patches.shape[1]
        jw = torch.zeros(b, co, L, co, K, dtype=torch.float64)
        for r in range(co):
            jw[:, r, :, r, :] = patches.transpose(1, 2)
        jw = jw.reshape(b, co * L, co * K)
        if bias:
            jb = torch.zeros(co, L, co, dtype=torch.float64)
            for r in range(co):
                jb[r, :, r] = 1.0
            jw = torch.cat([jw, jb.reshape(co * L, co)[None].repeat(b, 1, 1)], dim=2)
        return y, jx, jw
    if k == "L2Norm":
        eps = spec[1] if len(spec) > 1 else 1e-6
        f = x.reshape(b, -1)
        n = torch.sqrt((f * f).sum(1))
        if margin is not None:
            margin.see(n)
        y = (x.reshape(b, -1) / (n + eps)[:, None]).reshape(x.shape)
        if not jac:
            return y, None, None
        d = f.shape[1]
        safe = torch.where(n > 0, n, torch.ones_like(n))
        outer = f[:, :, None] * f[:, None, :]
        jx = torch.eye(d, dtype=torch.float64)[None] / (n + eps)[:, None, None] - outer / (safe * (n + eps) ** 2)[:, None, None]
        return y, jx, None
    if k == "Reshape":
        y = x.reshape((b,) + tuple(spec[1:]))
        return y, torch.eye(x[0].numel(), dtype=torch.float64)[None].repeat(b, 1, 1) if jac else None, None
    if k == "Flatten":
        y = x.reshape(b, -1)
        return y, torch.eye(x[0].numel(), dtype=torch.float64)[None].repeat(b, 1, 1) if jac else None, None
    if k == "Upsample":
        s = int(spec[1])
        up = lambda t: t.repeat_interleave(s, dim=2).repeat_interleave(s, dim=3)
        y = up(x)
        if not jac:
            return y, None, None
        n_in = x[0].numel()
        basis = torch.eye(n_in, dtype=torch.float64).reshape((n_in,) + tuple(x.shape[1:]))
        return y, up(basis).reshape(n_in, -1).T[None].repeat(b, 1, 1), None
    if k == "MaxPool2d":
        y, idx = pool_indices(spec, x, margin)
        if not jac:
            return y, None, None
        b_, c, h, w = x.shape
        h2, w2 = y.shape[2:]
        flat = (idx + (torch.arange(c) * h * w)[None, :, None, None]).reshape(b, -1)
        jx = torch.zeros(b, c * h2 * w2, c * h * w, dtype=torch.float64)
        jx.scatter_(2, flat[:, :, None], 1.0)
        return y, jx, None
    if k in CUSTOM:
        return CUSTOM[k].ref(spec, params, x)
    raise ValueError(k)


# ---------------------------------------------------------------------------------------------------------------
# reference: networks


class Node:
    """The reference evaluation of one (sub)network at one input."""

    __slots__ = ("spec", "x", "y", "jx", "jw", "kids", "n")

    def leaves(self):
        if not is_container(self.spec):
            return [self]
        return [l for k in self.kids for l in k.leaves()]


def forward(spec, params, x):
    k = spec[0]
    if not is_container(spec):
        return leaf(spec, params, x, jac=False)[0]
    p, h = 0, x
    for c in children(spec):
        m = len(param_shapes(c))
        h = forward(c, params[p : p + m], h)
        p += m
    return torch.cat([x, h], dim=1) if k == "Skip" else h


def evaluate(spec, params, x, margin=None):
    node = Node()
    node.spec, node.x = spec, x
    b = x.shape[0]
    if not is_container(spec):
        node.y, node.jx, node.jw = leaf(spec, params, x, margin)
        node.kids = []
        node.n = 0 if node.jw is None else node.jw.shape[2]
        return node
    node.kids = []
    p, h = 0, x
    for c in children(spec):
        m = len(param_shapes(c))
        kid = evaluate(c, params[p : p + m], h, margin)
        p += m
        node.kids.append(kid)
        h = kid.y
    jx, blocks = None, []
    for kid in reversed(node.kids):
        if kid.jw is not None:
            blocks.insert(0, kid.jw if jx is None else jx @ kid.jw)
        jx = kid.jx if jx is None else jx @ kid.jx
    node.n = sum(kid.n for kid in node.kids)
    jw = torch.cat(blocks, dim=2) if blocks else None
    if spec[0] == "Skip":
        n_in = x[0].numel()
        node.y = torch.cat([x, h], dim=1)
        node.jx = torch.cat([torch.eye(n_in, dtype=torch.float64)[None].repeat(b, 1, 1), jx], dim=1)
        node.jw = None if jw is None else torch.cat([torch.zeros(b, n_in, node.n, dtype=torch.float64), jw], dim=1)
    else:
        node.y, node.jx, node.jw = h, jx, jw
    return node


def block_mask(node):
    """0/1 matrix over the weights: 1 where both belong to the same layer."""
    sizes = [l.n for l in node.leaves() if l.n]
    m = torch.zeros(sum(sizes), sum(sizes), dtype=torch.float64)
    p = 0
    for s in sizes:
        m[p : p + s, p : p + s] = 1.0
        p += s
    return m


# layer-wise diagonal propagation (the documented approximation)


def diag_back(node, d):
    """(diagonal wrt input, diagonal wrt weight) obtained by carrying only a diagonal backwards through each layer."""
    if not is_container(node.spec):
        dx = torch.einsum("bij,bi->bj", node.jx**2, d)
        dw = None if node.jw is None else torch.einsum("bij,bi->bj", node.jw**2, d)
        return dx, dw
    skip = None
    if node.spec[0] == "Skip":
        n_in = node.x[0].numel()
        skip, d = d[:, :n_in], d[:, n_in:]
    ws = []
    for kid in reversed(node.kids):
        d, w = diag_back(kid, d)
        if w is not None:
            ws.insert(0, w)
    if skip is not None:
        d = d + skip
    return d, (torch.cat(ws, dim=1) if ws else None)


def diag_fwd(node, d):
    """Diagonal carried forward through each layer, from the input."""
    if not is_container(node.spec):
        return torch.einsum("bij,bj->bi", node.jx**2, d)
    h = d
    for kid in node.kids:
        h = diag_fwd(kid, h)
    return torch.cat([d, h], dim=1) if node.spec[0] == "Skip" else h


def diag_fwd_weight(node, d):
    if not is_container(node.spec):
        return None if node.jw is None else torch.einsum("bij,bj->bi", node.jw**2, d)
    acc, p = None, 0
    for kid in node.kids:
        if acc is not None:
            acc = diag_fwd(kid, acc)
        if kid.n:
            new = diag_fwd_weight(kid, d[:, p : p + kid.n])
            p += kid.n
            acc = new if acc is None else acc + new
    if acc is not None and node.spec[0] == "Skip":
        acc = torch.cat([torch.zeros(acc.shape[0], node.x[0].numel(), dtype=torch.float64), acc], dim=1)
    return acc


def split_blocks(node, m, from_diag):
    """A matrix over the weights, as the nested list of per-layer blocks a container takes and gives."""
    if not is_container(node.spec):
        return m
    out, p = [], 0
    for kid in node.kids:
        if kid.n == 0:
            continue
        sub = m[:, p : p + kid.n] if from_diag else m[:, p : p + kid.n, p : p + kid.n]
        out.append(split_blocks(kid, sub, from_diag))
        p += kid.n
    return out
