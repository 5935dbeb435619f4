from typing import Literal

import torch
from torch import nn

from nnj.abstract_jacobian import AbstractJacobian


class Upsample(nn.Upsample, AbstractJacobian):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self._n_params = 0

    def _pull(self, x, rows):
        """sums every block of the rows of the output"""
        s = self.scale_factor
        if self.mode not in ("nearest", "nearest-exact") or not isinstance(s, float) or s != int(s):
            raise NotImplementedError(self.mode)
        s = int(s)
        c, h, w = x.shape[1:]
        return rows.reshape(*rows.shape[:-1], c, h, s, w, s).sum((-3, -1)).flatten(-3)

    @torch.no_grad()
    def jacobian(self, x, val=None, wrt: Literal["input", "weight"] = "input"):
        if wrt == "weight":
            return None
        n = (self(x) if val is None else val)[0].numel()
        return self._pull(x, torch.eye(n, dtype=x.dtype, device=x.device).repeat(x.shape[0], 1, 1))

    @torch.no_grad()
    def jvp(self, x, val, vector, wrt: Literal["input", "weight"] = "input"):
        if wrt == "weight":
            return None
        raise NotImplementedError

    @torch.no_grad()
    def jmp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input"):
        if wrt == "weight":
            return None
        if matrix is None:
            return self.jacobian(x, val)
        raise NotImplementedError

    @torch.no_grad()
    def jmjTp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input", from_diag=False, to_diag=False, diag_backprop=False):
        if wrt == "weight":
            return None
        raise NotImplementedError

    @torch.no_grad()
    def vjp(self, x, val, vector, wrt: Literal["input", "weight"] = "input"):
        return self._pull(x, vector) if wrt == "input" else None

    @torch.no_grad()
    def mjp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input"):
        if wrt == "weight":
            return None
        return self.jacobian(x, val) if matrix is None else self._pull(x, matrix)

    @torch.no_grad()
    def jTmjp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input", from_diag=False, to_diag=False, diag_backprop=False):
        if wrt == "weight":
            return None
        if matrix is None:
            val = self(x) if val is None else val
            matrix, from_diag = val.new_ones(val.shape[0], val[0].numel()), True
        if from_diag:
            d = self._pull(x, matrix)
            return d if to_diag else torch.diag_embed(d)
        out = self._pull(x, self._pull(x, matrix).transpose(1, 2)).transpose(1, 2)
        return out.diagonal(dim1=1, dim2=2) if to_diag else out
