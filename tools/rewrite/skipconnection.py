from typing import Literal

import torch
from torch import nn

from nnj.abstract_jacobian import AbstractJacobian
from nnj.sequential import Sequential


class SkipConnection(nn.Module, AbstractJacobian):
    def __init__(self, *args, add_hooks: bool = True):
        super().__init__()
        self._F = Sequential(*args, add_hooks=add_hooks)

    @property
    def _n_params(self):
        return self._F._n_params

    def forward(self, x):
        branch = self._F(x)
        return torch.cat((x, branch), 1)

    @torch.no_grad()
    def jacobian(self, x, val=None, wrt: Literal["input", "weight"] = "input"):
        inner = self._F.jacobian(x, wrt=wrt)
        if inner is None:
            return None
        n = x[0].numel()
        if wrt == "input":
            top = torch.eye(n, dtype=x.dtype, device=x.device).expand(x.shape[0], n, n)
        else:
            top = x.new_zeros(x.shape[0], n, inner.shape[2])
        return torch.cat((top, inner), 1)

    @torch.no_grad()
    def jvp(self, x, val, vector, wrt: Literal["input", "weight"] = "input"):
        inner = self._F.jvp(x, None, vector, wrt=wrt)
        if inner is None:
            return None
        top = vector if wrt == "input" else x.new_zeros(x.shape[0], x[0].numel())
        return torch.cat((top, inner), 1)

    @torch.no_grad()
    def jmp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input"):
        if matrix is None:
            return self.jacobian(x, val, wrt=wrt)
        inner = self._F.jmp(x, None, matrix, wrt=wrt)
        if inner is None:
            return None
        top = matrix if wrt == "input" else x.new_zeros(x.shape[0], x[0].numel(), matrix.shape[2])
        return torch.cat((top, inner), 1)

    @torch.no_grad()
    def jmjTp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input", from_diag=False, to_diag=False, diag_backprop=False):
        if matrix is None:
            from_diag = True
        assert not diag_backprop or (from_diag and to_diag)
        b, n = x.shape[0], x[0].numel()
        if matrix is None and wrt == "input":
            matrix = x.new_ones(b, n)
        inner = self._F.jmjTp(x, None, matrix, wrt=wrt, from_diag=from_diag, to_diag=to_diag, diag_backprop=diag_backprop)
        if inner is None:
            return None
        if to_diag:
            if wrt == "weight":
                top = x.new_zeros(b, n)
            else:
                top = matrix if from_diag else matrix.diagonal(dim1=1, dim2=2)
            return torch.cat((top, inner), 1)
        m = inner.shape[1]
        out = inner.new_zeros(b, n + m, n + m)
        out[:, n:, n:] = inner
        if wrt == "input":
            if from_diag:
                matrix = torch.diag_embed(matrix)
            out[:, :n, :n] = matrix
            out[:, n:, :n] = self._F.jmp(x, None, matrix)
            out[:, :n, n:] = self._F.jmp(x, None, matrix.transpose(1, 2)).transpose(1, 2)
        return out

    @torch.no_grad()
    def vjp(self, x, val, vector, wrt: Literal["input", "weight"] = "input"):
        direct, inner = vector.tensor_split([x[0].numel()], dim=1)
        product = self._F.vjp(x, None, inner, wrt=wrt)
        return product if wrt == "weight" else product + direct

    @torch.no_grad()
    def mjp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input"):
        if matrix is None:
            return self.jacobian(x, val, wrt=wrt)
        direct, inner = matrix.tensor_split([x[0].numel()], dim=2)
        product = self._F.mjp(x, None, inner, wrt=wrt)
        return product if wrt == "weight" else product + direct

    @torch.no_grad()
    def jTmjp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input", from_diag=False, to_diag=False, diag_backprop=False):
        if matrix is None:
            y = self(x)
            matrix, from_diag = y.new_ones(y.shape[0], y[0].numel()), True
        assert not diag_backprop or (from_diag and to_diag)
        n = x[0].numel()
        inner = matrix[:, n:] if from_diag else matrix[:, n:, n:]
        product = self._F.jTmjp(x, None, inner, wrt=wrt, from_diag=from_diag, to_diag=to_diag, diag_backprop=diag_backprop)
        if wrt == "weight":
            return product
        if from_diag:
            direct = matrix[:, :n]
            return product + (direct if to_diag else torch.diag_embed(direct))
        rest = matrix[:, :n, :n] + self._F.mjp(x, None, matrix[:, :n, n:])
        rest = rest + self._F.mjp(x, None, matrix[:, n:, :n].transpose(1, 2)).transpose(1, 2)
        return product + (rest.diagonal(dim1=1, dim2=2) if to_diag else rest)
