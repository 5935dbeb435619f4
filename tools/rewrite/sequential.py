from typing import List, Literal, Union

import torch
from torch import nn, Tensor

from nnj.abstract_jacobian import AbstractJacobian


def _add(a, b):
    if a is None:
        return b
    return a if b is None else a + b


class Sequential(AbstractJacobian, nn.Sequential):
    def __init__(self, *args, add_hooks: bool = True):
        super().__init__(*args)
        self.add_hooks = add_hooks
        if add_hooks:
            self.feature_maps = []

    @property
    def _n_params(self) -> int:
        total = 0
        for layer in self:
            total += layer._n_params
        return total

    def _steps(self, x):
        """(layer, input, output) of each layer"""
        steps = []
        for layer in self:
            y = layer(x)
            steps.append((layer, x, y))
            x = y
        return steps

    def forward(self, x):
        maps = [x]
        for layer in self:
            x = layer(x)
            maps.append(x)
        if self.add_hooks:
            self.feature_maps = [m.detach() for m in maps]
        return x

    def jacobian(self, x, val=None, wrt: Literal["input", "weight"] = "input"):
        return self.mjp(x, val, None, wrt=wrt)

    def _forward_product(self, name, x, tangent, wrt):
        assert wrt in ("input", "weight")
        start, out = 0, None
        for layer, x, y in self._steps(x):
            product = getattr(layer, name)
            if wrt == "input":
                tangent = product(x, y, tangent, wrt="input")
                continue
            if out is not None:
                out = product(x, y, out, wrt="input")
            stop = start + layer._n_params
            out = _add(out, product(x, y, tangent[:, start:stop], wrt="weight"))
            start = stop
        return tangent if wrt == "input" else out

    @torch.no_grad()
    def jvp(self, x, val, vector, wrt: Literal["input", "weight"] = "input"):
        return self._forward_product("jvp", x, vector, wrt)

    @torch.no_grad()
    def jmp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input"):
        if matrix is None:
            return self.jacobian(x, val, wrt=wrt)
        return self._forward_product("jmp", x, matrix, wrt)

    def _blocks(self, matrix, from_diag):
        if isinstance(matrix, list):
            return list(matrix)
        sizes = [layer._n_params for layer in self if layer._n_params]
        if from_diag:
            return list(matrix.split(sizes, dim=1)) if sizes else []
        out, p = [], 0
        for s in sizes:
            out.append(matrix.narrow(1, p, s).narrow(2, p, s))
            p += s
        return out

    @torch.no_grad()
    def jmjTp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input", from_diag=False, to_diag=False, diag_backprop=False):
        if matrix is None:
            from_diag = True
        assert not diag_backprop or (from_diag and to_diag)
        steps = self._steps(x)
        last = len(steps) - 1
        b = x.shape[0]
        if wrt == "input":
            if matrix is None:
                matrix = x.new_ones(b, x[0].numel())
            fd = from_diag
            for k, (layer, a, y) in enumerate(steps):
                td = to_diag if k == last else diag_backprop
                matrix = layer.jmjTp(a, y, matrix, wrt="input", from_diag=fd, to_diag=td, diag_backprop=diag_backprop)
                fd = diag_backprop
            return matrix
        if matrix is None:
            matrix = x.new_ones(b, self._n_params)
        blocks = iter(self._blocks(matrix, from_diag))
        out = None
        for k, (layer, a, y) in enumerate(steps):
            td = to_diag if k == last else diag_backprop
            if out is not None:
                out = layer.jmjTp(a, y, out, wrt="input", from_diag=diag_backprop, to_diag=td, diag_backprop=diag_backprop)
            if layer._n_params:
                own = layer.jmjTp(a, y, next(blocks), wrt="weight", from_diag=from_diag, to_diag=td, diag_backprop=diag_backprop)
                out = _add(out, own)
        return out

    def _backward_product(self, name, x, tangent, wrt, dim):
        assert wrt in ("input", "weight")
        steps = self._steps(x)
        if tangent is None:
            y = steps[-1][2]
            n = y[0].numel()
            tangent = torch.eye(n, dtype=x.dtype, device=x.device).expand(y.shape[0], n, n)
        parts = []
        while steps:
            layer, a, y = steps.pop()
            product = getattr(layer, name)
            if wrt == "weight":
                own = product(a, y, tangent, wrt="weight")
                if own is not None:
                    parts.append(own)
                if not steps:
                    break
            tangent = product(a, y, tangent, wrt="input")
        if wrt == "input":
            return tangent
        return torch.cat(parts[::-1], dim=dim) if parts else None

    @torch.no_grad()
    def vjp(self, x, val, vector, wrt: Literal["input", "weight"] = "input"):
        return self._backward_product("vjp", x, vector, wrt, 1)

    @torch.no_grad()
    def mjp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input"):
        return self._backward_product("mjp", x, matrix, wrt, 2)

    @torch.no_grad()
    def jTmjp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input", from_diag=False, to_diag=False, diag_backprop=False):
        if matrix is None:
            from_diag = True
        assert not diag_backprop or (from_diag and to_diag)
        steps = self._steps(x)
        if matrix is None:
            y = steps[-1][2]
            matrix = y.new_ones(y.shape[0], y[0].numel())
        parts = []
        for k in reversed(range(len(steps))):
            layer, a, y = steps[k]
            if wrt == "weight":
                own = layer.jTmjp(a, y, matrix, wrt="weight", from_diag=from_diag, to_diag=to_diag, diag_backprop=diag_backprop)
                if own is not None:
                    parts.insert(0, own)
            if k or wrt == "input":
                td = diag_backprop if k else to_diag
                matrix = layer.jTmjp(a, y, matrix, wrt="input", from_diag=from_diag, to_diag=td, diag_backprop=diag_backprop)
            from_diag = diag_backprop
        if wrt == "input":
            return matrix
        if not parts:
            return None
        return torch.cat(parts, dim=1) if to_diag else parts
