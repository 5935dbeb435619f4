"""Deterministic value patterns and memory layouts. Nothing here is random: a pattern is a fixed function of its
name and of the shape, so that every run visits exactly the same executions."""
import torch


def pattern(shape, salt=0, lo=-1.0, hi=1.0, dtype=torch.float64):
    """Generic values: no two entries related, none zero (fract of a large multiple of a sine)."""
    n = 1
    for s in shape:
        n *= int(s)
    i = torch.arange(n, dtype=torch.float64)
    v = torch.sin(i * 12.9898 + (salt + 1) * 78.233 + 0.5) * 43758.5453
    v = v - torch.floor(v)
    v = lo + (hi - lo) * v
    # keep away from zero, where kinks are
    v = torch.where(v.abs() < 0.02 * (hi - lo), v + 0.05 * (hi - lo), v)
    return v.reshape(tuple(int(s) for s in shape)).to(dtype)


def ints(shape, salt=0, lo=-3, hi=3, dtype=torch.float64):
    n = 1
    for s in shape:
        n *= int(s)
    i = torch.arange(n, dtype=torch.float64)
    v = torch.sin(i * 3.7321 + (salt + 2) * 41.77) * 9187.321
    v = v - torch.floor(v)
    v = torch.floor(lo + (hi - lo + 1) * v).clamp(lo, hi)
    return v.reshape(tuple(int(s) for s in shape)).to(dtype)


# ---------------------------------------------------------------------------------------------------------------
# memory layouts: same values, different strides / offsets / storage sharing
LAYOUTS = ("contig", "transposed", "strided", "offset", "expanded", "channels_last", "reqgrad")


def relayout(t, layout):
    """Returns a tensor with the same values as t (except for "expanded", where every sample is the first one)."""
    if t is None or layout == "contig":
        return t.clone(memory_format=torch.contiguous_format) if t is not None else None
    if layout == "transposed":
        if t.dim() < 2:
            return t.clone()
        perm = list(range(t.dim()))[::-1]
        return t.permute(perm).clone(memory_format=torch.contiguous_format).permute(perm)
    if layout == "strided":
        big = torch.full(tuple(t.shape[:-1]) + (t.shape[-1] * 2,), 7.25, dtype=t.dtype)
        view = big[..., ::2]
        view.copy_(t)
        return view
    if layout == "offset":
        big = torch.full((t.shape[0] + 2,) + tuple(t.shape[1:]), -3.5, dtype=t.dtype)
        view = big[1:-1]
        view.copy_(t)
        return view
    if layout == "expanded":
        return t[:1].clone(memory_format=torch.contiguous_format).expand_as(t)
    if layout == "channels_last":
        if t.dim() == 4:
            return t.clone(memory_format=torch.channels_last)
        return relayout(t, "transposed")
    if layout == "reqgrad":
        return t.clone().requires_grad_(True)
    raise ValueError(layout)


def effective(t, layout):
    """The values the library sees for relayout(t, layout)."""
    if layout == "expanded":
        return t[:1].expand_as(t)
    return t
