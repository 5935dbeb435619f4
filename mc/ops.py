"""The calls a user can make, what the reference expects of them, and the comparison."""
import torch

from . import custom  # noqa: F401  (registers the custom layers)
from .spec import block_mask, children, diag_back, diag_fwd, diag_fwd_weight, is_container, split_blocks
from .values import ints, pattern

OPS = ("jacobian", "jvp", "jmp", "jmjTp", "vjp", "mjp", "jTmjp")
MATRIX_OPS = ("jmp", "mjp", "jmjTp", "jTmjp")
METRIC_OPS = ("jmjTp", "jTmjp")
FORWARD_OPS = ("jvp", "jmp", "jmjTp")

# (from_diag, to_diag, diag_backprop)
MODES = ((False, False, False), (True, False, False), (False, True, False), (True, True, False))
APPROX = (True, True, True)


class Call:
    """op, wrt, (from_diag, to_diag, diag_backprop), tangent class ("none" means None is passed), columns, as blocks"""

    __slots__ = ("op", "wrt", "mode", "tan", "ncol", "blocks")

    def __init__(self, op, wrt="input", mode=(False, False, False), tan="generic", ncol=3, blocks=False):
        self.op, self.wrt, self.mode, self.tan, self.ncol, self.blocks = op, wrt, tuple(mode), tan, ncol, blocks

    def key(self):
        return [self.op, self.wrt, list(self.mode), self.tan, self.ncol, self.blocks]

    def __repr__(self):
        s = f"{self.op} wrt {self.wrt}"
        if self.op in METRIC_OPS:
            s += f" from_diag={self.mode[0]} to_diag={self.mode[1]} diag_backprop={self.mode[2]}"
        if self.op != "jacobian":
            s += f" tangent={self.tan}"
        if self.op in ("jmp", "mjp"):
            s += f" x{self.ncol}"
        if self.blocks:
            s += " blocks"
        return s


def calls(ops=OPS, wrts=("input", "weight"), modes=MODES, tans=("generic",), ncols=(3,), blocks=False):
    for op in ops:
        for wrt in wrts:
            if op == "jacobian":
                yield Call(op, wrt)
                continue
            for mode in modes if op in METRIC_OPS else ((False, False, False),):
                for tan in tans:
                    if tan == "none" and op not in MATRIX_OPS:
                        continue
                    for ncol in ncols if op in ("jmp", "mjp") and tan not in ("none", "basis") else (0,):
                        yield Call(op, wrt, mode, tan, ncol)
                        if blocks and op == "jmjTp" and wrt == "weight" and tan != "none":
                            yield Call(op, wrt, mode, tan, ncol, True)


# ---------------------------------------------------------------------------------------------------------------


def fill(shape, cls, salt):
    """A tangent of a given class; the last two dimensions are a matrix when there are three."""
    b = shape[0]
    if 0 in shape:
        return torch.zeros(shape, dtype=torch.float64)
    if cls in ("generic", "big", "tiny", "negative"):
        v = pattern(shape, salt=salt)
        if cls == "big":
            v = v * 1e4
        elif cls == "tiny":
            v = v * 1e-4
        elif cls == "negative":
            v = -v.abs()
        return v
    if cls == "other":
        return pattern(shape, salt=salt + 50)
    if cls == "dust":  # ordinary entries among tiny and huge ones and zeros of both signs
        v = pattern(shape, salt=salt).reshape(-1)
        f = torch.tensor([1.0, 1e-14, 1e-30, 0.0, -0.0, 1.0, 300.0], dtype=torch.float64)
        return (v * f[torch.arange(v.numel()) % 7]).reshape(shape)
    if cls == "ints":
        return ints(shape, salt=salt)
    if cls == "zero":
        return torch.zeros(shape, dtype=torch.float64)
    if cls == "ones":
        return torch.ones(shape, dtype=torch.float64)
    if cls == "psd":
        v = pattern(shape, salt=salt)
        if len(shape) == 3 and shape[1] == shape[2]:
            return v @ v.transpose(1, 2)
        return v.abs()
    if cls == "antisym":
        v = pattern(shape, salt=salt)
        if len(shape) == 3 and shape[1] == shape[2]:
            return v - v.transpose(1, 2)
        return v
    if cls == "basis":
        if len(shape) == 3:
            n = max(shape[1], shape[2])
            return torch.eye(n, dtype=torch.float64)[: shape[1], : shape[2]][None].repeat(b, 1, 1)
        v = torch.zeros(shape, dtype=torch.float64)
        for i in range(b):
            v[i, (i + salt) % shape[1]] = 1.0
        return v
    if isinstance(cls, str) and cls.startswith("e"):  # "e3": one basis element, the same for every sample
        k = int(cls[1:])
        v = torch.zeros(shape, dtype=torch.float64).reshape(b, -1)
        v[:, k % v.shape[1]] = 1.0
        return v.reshape(shape)
    raise ValueError(cls)


def tangent_shape(node, call):
    b = node.x.shape[0]
    n_out, n_in = node.jx.shape[1], node.jx.shape[2]
    n_w = node.n
    side = n_in if call.wrt == "input" else n_w
    if call.op == "jvp":
        return (b, side)
    if call.op == "jmp":
        return (b, side, call.ncol if call.tan != "basis" else side)
    if call.op == "jmjTp":
        return (b, side) if call.mode[0] else (b, side, side)
    if call.op == "vjp":
        return (b, n_out)
    if call.op == "mjp":
        return (b, call.ncol if call.tan != "basis" else n_out, n_out)
    if call.op == "jTmjp":
        return (b, n_out) if call.mode[0] else (b, n_out, n_out)
    return None


def tangent(node, call):
    if call.op == "jacobian" or call.tan == "none":
        return None
    return fill(tangent_shape(node, call), call.tan, 10 + len(call.op) + (3 if call.wrt == "weight" else 0))


def expected(node, call, t):
    """What the reference says: a tensor, the list of per-layer blocks (nested as the containers are), or None."""
    J = node.jx if call.wrt == "input" else node.jw
    if J is None:
        return None
    fd, td, db = call.mode
    op = call.op
    if op == "jacobian":
        return J
    if op == "jvp":
        return torch.einsum("bij,bj->bi", J, t)
    if op == "vjp":
        return torch.einsum("bi,bij->bj", t, J)
    if op == "jmp":
        return J if t is None else J @ t
    if op == "mjp":
        return J if t is None else t @ J
    if t is None:
        t = torch.ones(J.shape[0], J.shape[2] if op == "jmjTp" else J.shape[1], dtype=torch.float64)
        fd = True
    if op == "jTmjp":
        if db:
            dx, dw = diag_back(node, t)
            return dx if call.wrt == "input" else dw
        M = torch.diag_embed(t) if fd else t
        R = J.transpose(1, 2) @ M @ J
        if td:
            return torch.diagonal(R, dim1=1, dim2=2)
        if call.wrt == "weight" and is_container(node.spec):
            return split_blocks(node, R, False)
        return R
    if op == "jmjTp":
        if db:
            return diag_fwd(node, t) if call.wrt == "input" else diag_fwd_weight(node, t)
        M = torch.diag_embed(t) if fd else t
        if call.wrt == "weight" and is_container(node.spec):
            M = M * block_mask(node)
        R = J @ M @ J.transpose(1, 2)
        return torch.diagonal(R, dim1=1, dim2=2) if td else R
    raise ValueError(op)


def as_argument(node, call, t):
    """The matrix as it is handed over: a tensor, or the nested list of blocks of a container."""
    if t is None or not call.blocks or not is_container(node.spec):
        return t
    return split_blocks(node, t, call.mode[0])


def invoke(module, call, x, val, t, style="mixed"):
    """style: "mixed" as in the documentation (flags by keyword), "keyword", "positional", "defaults" (left out where possible)."""
    f = getattr(module, call.op)
    fd, td, db = call.mode
    name = "vector" if call.op in ("jvp", "vjp") else "matrix"
    if call.op == "jacobian":
        if style == "positional":
            return f(x, val, call.wrt)
        if call.wrt == "input" and style in ("mixed", "defaults"):
            return f(x) if val is None else f(x, val)
        return f(x=x, val=val, wrt=call.wrt) if style == "keyword" else f(x, val, wrt=call.wrt)
    if call.op in METRIC_OPS:
        if style == "positional":
            return f(x, val, t, call.wrt, fd, td, db)
        kw = dict(wrt=call.wrt, from_diag=fd, to_diag=td, diag_backprop=db)
    else:
        if style == "positional":
            return f(x, val, t, call.wrt)
        kw = dict(wrt=call.wrt)
    if style == "keyword":
        return f(x=x, val=val, **{name: t}, **kw)
    if style == "defaults":
        kw = {k: v for k, v in kw.items() if v not in ("input", False)}
    return f(x, val, t, **kw)


# ---------------------------------------------------------------------------------------------------------------

RTOL = {torch.float64: 1e-8, torch.float32: 5e-4, torch.float16: 3e-2, torch.bfloat16: 1e-1}


def flat_blocks(r):
    if isinstance(r, (list, tuple)):
        out = []
        for i in r:
            out.extend(flat_blocks(i))
        return out
    return [r]


def floor_scale(node, call, t):
    """Size of the terms that are added up: rounding errors are relative to it, when the sum itself cancels."""
    J = node.jx if call.wrt == "input" else node.jw
    if J is None or J.numel() == 0:
        return 0.0
    m = float(J.abs().max())
    if node.spec[0] == "L2Norm":  # a difference of two terms of this size
        eps = node.spec[1] if len(node.spec) > 1 else 1e-6
        m = max(m, float((1.0 / (node.x.reshape(node.x.shape[0], -1).norm(dim=1) + eps)).max()))
    k = 2 if call.op in METRIC_OPS else 1
    return 0.05 * m**k * (1.0 if t is None or t.numel() == 0 else float(t.abs().max()))


def differ(got, ref, dtype, rtol=None, where="", floor=0.0):
    """None when got agrees with the reference, else a sentence."""
    if ref is None:
        if got is None:
            return None
        return f"{where}expected None, got {describe(got)}"
    if isinstance(ref, list):
        if not isinstance(got, (list, tuple)):
            return f"{where}expected a list of {len(ref)} blocks, got {describe(got)}"
        if len(got) != len(ref):
            return f"{where}expected {len(ref)} blocks, got {len(got)}"
        for i, (g, r) in enumerate(zip(got, ref)):
            d = differ(g, r, dtype, rtol, f"{where}block {i}: ", floor)
            if d:
                return d
        return None
    if not isinstance(got, torch.Tensor):
        return f"{where}expected a tensor of shape {tuple(ref.shape)}, got {describe(got)}"
    if tuple(got.shape) != tuple(ref.shape):
        return f"{where}expected shape {tuple(ref.shape)}, got {tuple(got.shape)}"
    if got.dtype != dtype:
        return f"{where}expected {dtype}, got {got.dtype}"
    if got.numel() == 0:
        return None
    g = got.detach().double()
    fin = torch.isfinite(ref)
    if not bool(fin.all()):
        if not bool(torch.equal(torch.isnan(g), torch.isnan(ref))) or not bool(torch.equal(g[torch.isinf(ref)], ref[torch.isinf(ref)])):
            return f"{where}non finite entries differ from the reference"
        g, ref = g[fin], ref[fin]
        if g.numel() == 0:
            return None
    if not bool(torch.isfinite(g).all()):
        return f"{where}non finite result where the reference is finite"
    r = RTOL[dtype] if rtol is None else rtol
    scale = max(float(ref.abs().max()), floor)
    err = (g - ref).abs()
    worst = float(err.max())
    tol = r * scale + r * 1e-3
    if worst > tol:
        i = int(err.reshape(-1).argmax())
        return (
            f"{where}entry {i} of {tuple(ref.shape)} is {float(g.reshape(-1)[i])!r}, should be {float(ref.reshape(-1)[i])!r}"
            f" ({int((err > tol).sum())} of {err.numel()} entries wrong)"
        )
    return None


def describe(o):
    if isinstance(o, torch.Tensor):
        return f"tensor{tuple(o.shape)}"
    if isinstance(o, (list, tuple)):
        return "[" + ", ".join(describe(i) for i in o[:6]) + "]"
    return repr(o)[:80]


# ---------------------------------------------------------------------------------------------------------------
# what is documented as not implemented


def leaf_kinds(spec):
    if is_container(spec):
        return [k for c in children(spec) for k in leaf_kinds(c)]
    return [spec[0]]


def supported(spec, call):
    """Whether the call is implemented for the network (products left out by the authors raise NotImplementedError).

    Forward passes are missing in the convolution, pooling and upsampling layers ("missing forward passes" in the
    package), except for the pooling layer's jmp and for every jmp of the identity, which is the Jacobian itself."""
    kinds = set(leaf_kinds(spec))
    if call.op in ("jacobian", "vjp", "mjp", "jTmjp"):
        return True
    missing = {"Conv2d", "Upsample", "MaxPool2d"}
    if call.op == "jmp":
        if call.tan == "none":
            return True
        missing = {"Conv2d", "Upsample"}
        if call.wrt == "weight" and not is_container(spec) and spec[0] == "Upsample":
            return True
    if not is_container(spec) and call.wrt == "weight" and spec[0] in ("Upsample", "MaxPool2d"):
        return True
    return not (kinds & missing)
