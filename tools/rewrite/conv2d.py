from typing import Literal

import torch
import torch.nn.functional as F
from torch import nn

from nnj.abstract_jacobian import AbstractJacobian


class Conv2d(nn.Conv2d, AbstractJacobian):
    def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0, dilation=1, groups=1, bias=True, padding_mode="zeros", use_vmap_for_backprop=True):
        super().__init__(in_channels, out_channels, kernel_size, stride, padding, dilation, groups, bias, padding_mode)
        if any(s != 1 for s in self.stride):
            raise ValueError(f"stride {self.stride} is not supported, only 1")
        covered = [d * (k - 1) + 1 for d, k in zip(self.dilation, self.kernel_size)]
        self.dw_padding = tuple(c - 1 - p for c, p in zip(covered, self.padding))
        self._n_params = sum(p.numel() for p in self.parameters())
        self.use_vmap = use_vmap_for_backprop

    def _check(self):
        if self.padding_mode != "zeros" and self.padding != (0, 0):
            raise NotImplementedError(self.padding_mode)

    @torch.no_grad()
    def jacobian(self, x, val=None, wrt: Literal["input", "weight"] = "input"):
        val = self(x) if val is None else val
        n = val[0].numel()
        return self.mjp(x, val, torch.eye(n, dtype=x.dtype, device=x.device).repeat(val.shape[0], 1, 1), wrt=wrt)

    @torch.no_grad()
    def jvp(self, x, val, vector, wrt: Literal["input", "weight"] = "input"):
        raise NotImplementedError

    @torch.no_grad()
    def jmp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input"):
        if matrix is None:
            return self.jacobian(x, val, wrt=wrt)
        raise NotImplementedError

    @torch.no_grad()
    def jmjTp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input", from_diag=False, to_diag=False, diag_backprop=False):
        raise NotImplementedError

    @torch.no_grad()
    def vjp(self, x, val, vector, wrt: Literal["input", "weight"] = "input"):
        return self.mjp(x, val, vector[:, None, :], wrt=wrt)[:, 0]

    def _transposed(self, rows, weight):
        """rows of outputs pulled back to rows of inputs"""
        b, r = rows.shape[:2]
        out = F.conv_transpose2d(rows.flatten(0, 1), weight, padding=self.padding, dilation=self.dilation, groups=self.groups)
        return out.reshape(b, r, -1)

    def _weights(self, x, rows):
        """rows of outputs pulled back to rows of weights (without bias)"""
        b, r, c2, h2, w2 = rows.shape
        kh, kw = self.kernel_size
        c1 = x.shape[1]
        reversed_x, reversed_rows = x.flip([2, 3]), rows.flip([3, 4])
        out = []
        for i in range(b):
            w = reversed_x[i].unsqueeze(1)
            v = reversed_rows[i].reshape(r * c2, 1, h2, w2)
            out.append(F.conv2d(v, w, stride=self.dilation, padding=self.dw_padding, groups=self.groups).reshape(r, c2 * c1 * kh * kw))
        return torch.stack(out)

    @torch.no_grad()
    def mjp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input"):
        self._check()
        if matrix is None:
            return self.jacobian(x, val, wrt=wrt)
        val = self(x) if val is None else val
        rows = matrix.reshape(matrix.shape[0], matrix.shape[1], *val.shape[1:])
        if wrt == "input":
            return self._transposed(rows, self.weight)
        w = self._weights(x, rows)
        return w if self.bias is None else torch.cat((w, rows.sum((3, 4))), 2)

    @torch.no_grad()
    def jTmjp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input", from_diag=False, to_diag=False, diag_backprop=False):
        self._check()
        val = self(x) if val is None else val
        if matrix is None:
            matrix, from_diag = val.new_ones(val.shape[0], val[0].numel()), True
        if from_diag and to_diag:
            d = matrix.reshape(val.shape).unsqueeze(1)
            if wrt == "input":
                return self._transposed(d, self.weight.square())[:, 0]
            w = self._weights(x.square(), d)[:, 0]
            return w if self.bias is None else torch.cat((w, d[:, 0].sum((2, 3))), 1)
        if from_diag:
            matrix = torch.diag_embed(matrix)
        out = self.mjp(x, val, self.mjp(x, val, matrix, wrt=wrt).transpose(1, 2), wrt=wrt).transpose(1, 2)
        return out.diagonal(dim1=1, dim2=2) if to_diag else out
