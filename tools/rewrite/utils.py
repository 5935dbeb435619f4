import torch
from torch import nn

import nnj
from nnj.sequential import Sequential


def _parametric(layer, **options):
    new = getattr(nnj, type(layer).__name__)(bias=layer.bias is not None, **options)
    new.weight.data = layer.weight.data
    if layer.bias is not None:
        new.bias.data = layer.bias.data
    return new


def _convert(layer):
    name = type(layer).__name__
    take = lambda *names: {n: getattr(layer, n) for n in names}
    if isinstance(layer, nnj.AbstractJacobian):
        return layer
    if not hasattr(nn, name) or type(layer).forward is not getattr(nn, name).forward:
        raise NotImplementedError(name)
    if name == "Sequential":
        return convert_to_nnj(layer)
    if name == "Linear":
        return _parametric(layer, **take("in_features", "out_features"))
    if name == "Conv2d":
        return _parametric(layer, **take("in_channels", "out_channels", "kernel_size", "stride", "padding", "dilation", "groups", "padding_mode"))
    if "Pool" in name:
        return getattr(nnj, name)(**take("kernel_size", "stride", "padding", "dilation", "ceil_mode", "return_indices"))
    if name == "Upsample":
        return nnj.Upsample(**take("size", "scale_factor", "mode", "align_corners"))
    if name == "Softplus":
        return nnj.Softplus(**take("beta", "threshold"))
    if name == "Flatten" and (layer.start_dim != 1 or layer.end_dim != -1):
        raise NotImplementedError(str(layer))
    return getattr(nnj, name)()


def convert_to_nnj(sequential: nn.Sequential) -> Sequential:
    return Sequential(*map(_convert, sequential))


def invert_block_diagonal(matrix):
    if isinstance(matrix, list):
        out = []
        for block in matrix:
            out.append(invert_block_diagonal(block))
        return out
    eye = torch.eye(matrix.shape[-1], dtype=matrix.dtype, device=matrix.device).expand_as(matrix)
    return torch.cholesky_solve(eye, torch.linalg.cholesky(matrix))
