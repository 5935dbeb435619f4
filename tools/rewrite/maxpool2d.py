from typing import Literal

import torch
import torch.nn.functional as F
from torch import nn

from nnj.abstract_jacobian import AbstractJacobian


class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self._n_params = 0
        if self.return_indices is True:
            raise NotImplementedError("no indices")

    def _both(self, x):
        return F.max_pool2d(x, self.kernel_size, self.stride, self.padding, self.dilation, self.ceil_mode, return_indices=True)

    def forward(self, input):
        return self._both(input)[0]

    def _source(self, x):
        """flat index of the input each output is a copy of"""
        idx = self._both(x)[1]
        b, c, h, w = x.shape
        return (idx + (torch.arange(c, device=x.device) * h * w).view(1, c, 1, 1)).reshape(b, -1)

    @torch.no_grad()
    def jacobian(self, x, val=None, wrt: Literal["input", "weight"] = "input"):
        if wrt == "weight":
            return None
        return F.one_hot(self._source(x), x[0].numel()).to(x.dtype)

    @torch.no_grad()
    def jvp(self, x, val, vector, wrt: Literal["input", "weight"] = "input"):
        if wrt == "weight":
            return None
        raise NotImplementedError

    @torch.no_grad()
    def jmp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input"):
        if wrt == "weight":
            return None
        if matrix is None:
            return self.jacobian(x, val)
        s = self._source(x)
        return matrix.gather(1, s[:, :, None].expand(-1, -1, matrix.shape[2]))

    @torch.no_grad()
    def jmjTp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input", from_diag=False, to_diag=False, diag_backprop=False):
        if wrt == "weight":
            return None
        raise NotImplementedError

    @torch.no_grad()
    def vjp(self, x, val, vector, wrt: Literal["input", "weight"] = "input"):
        if wrt == "weight":
            return None
        return vector.new_zeros(x.shape[0], x[0].numel()).scatter_add(1, self._source(x), vector)

    @torch.no_grad()
    def mjp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input"):
        if wrt == "weight":
            return None
        if matrix is None:
            return self.jacobian(x, val)
        s = self._source(x)[:, None, :].expand(-1, matrix.shape[1], -1)
        return matrix.new_zeros(x.shape[0], matrix.shape[1], x[0].numel()).scatter_add(2, s, matrix)

    @torch.no_grad()
    def jTmjp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input", from_diag=False, to_diag=False, diag_backprop=False):
        if wrt == "weight":
            return None
        s = self._source(x)
        if matrix is None:
            matrix, from_diag = x.new_ones(s.shape), True
        if from_diag:
            d = self.vjp(x, val, matrix)
            return d if to_diag else torch.diag_embed(d)
        out = self.mjp(x, val, self.mjp(x, val, matrix).transpose(1, 2)).transpose(1, 2)
        return out.diagonal(dim1=1, dim2=2) if to_diag else out
