from typing import Literal

import torch
from torch import nn

from nnj.abstract_jacobian import AbstractJacobian


class Linear(nn.Linear, AbstractJacobian):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self._n_params = self.weight.numel() + (0 if self.bias is None else self.bias.numel())

    def _split(self, tangent):
        """weight and bias part of a tangent of the weights"""
        o, i = self.weight.shape
        w = tangent[:, : o * i]
        return w.reshape(w.shape[0], o, i, *w.shape[2:]), (None if self.bias is None else tangent[:, o * i :])

    @torch.no_grad()
    def jacobian(self, x, val=None, wrt: Literal["input", "weight"] = "input"):
        b = x.shape[0]
        if wrt == "input":
            return self.weight.detach().clone().expand(b, -1, -1).contiguous()
        o = self.weight.shape[0]
        eye = torch.eye(o, dtype=x.dtype, device=x.device)
        j = torch.stack([torch.kron(eye, row[None]) for row in x])
        if self.bias is None:
            return j
        return torch.cat((j, eye.repeat(b, 1, 1)), 2)

    @torch.no_grad()
    def jvp(self, x, val, vector, wrt: Literal["input", "weight"] = "input"):
        if wrt == "input":
            return vector @ self.weight.T
        w, c = self._split(vector)
        out = (w @ x[:, :, None])[:, :, 0]
        return out if c is None else out + c

    @torch.no_grad()
    def jmp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input"):
        if matrix is None:
            return self.jacobian(x, val, wrt=wrt)
        if wrt == "input":
            return self.weight @ matrix
        w, c = self._split(matrix)
        out = (w * x[:, None, :, None]).sum(2)
        return out if c is None else out + c

    @torch.no_grad()
    def jmjTp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input", from_diag=False, to_diag=False, diag_backprop=False):
        if matrix is None:
            from_diag = True
            matrix = x.new_ones(x.shape[0], x.shape[1] if wrt == "input" else self._n_params)
        if wrt == "weight" and from_diag:
            w, c = self._split(matrix)
            out = (w * (x**2)[:, None, :]).sum(2)
            out = out if c is None else out + c
            return out if to_diag else torch.diag_embed(out)
        if from_diag and to_diag:
            return matrix @ (self.weight**2).T
        if from_diag:
            matrix = torch.diag_embed(matrix)
        left = self.jmp(x, val, matrix, wrt=wrt)
        out = self.jmp(x, val, left.transpose(1, 2), wrt=wrt).transpose(1, 2)
        return out.diagonal(dim1=1, dim2=2) if to_diag else out

    @torch.no_grad()
    def vjp(self, x, val, vector, wrt: Literal["input", "weight"] = "input"):
        if wrt == "input":
            return vector @ self.weight
        w = (vector[:, :, None] * x[:, None, :]).flatten(1)
        return w if self.bias is None else torch.cat((w, vector), 1)

    @torch.no_grad()
    def mjp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input"):
        if matrix is None:
            return self.jacobian(x, val, wrt=wrt)
        if wrt == "input":
            return matrix @ self.weight
        w = (matrix[:, :, :, None] * x[:, None, None, :]).flatten(2)
        return w if self.bias is None else torch.cat((w, matrix), 2)

    @torch.no_grad()
    def jTmjp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input", from_diag=False, to_diag=False, diag_backprop=False):
        if matrix is None:
            from_diag = True
            matrix = x.new_ones(x.shape[0], self.weight.shape[0])
        if to_diag and (from_diag or wrt == "weight"):
            d = matrix if from_diag else matrix.diagonal(dim1=1, dim2=2)
            if wrt == "input":
                return d @ self.weight.square()
            w = (d[:, :, None] * x.square()[:, None, :]).flatten(1)
            return w if self.bias is None else torch.cat((w, d), 1)
        if from_diag:
            matrix = torch.diag_embed(matrix)
        right = self.mjp(x, val, matrix, wrt=wrt)
        out = self.mjp(x, val, right.transpose(1, 2), wrt=wrt).transpose(1, 2)
        return out.diagonal(dim1=1, dim2=2) if to_diag else out
