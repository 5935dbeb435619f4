from typing import Literal

import torch

from nnj.abstract_jacobian import AbstractJacobian


class AbstractDiagonalJacobian(AbstractJacobian):
    def jacobian(self, x, val=None, wrt: Literal["input", "weight"] = "input", diag=False):
        raise NotImplementedError

    @torch.no_grad()
    def jvp(self, x, val, vector, wrt: Literal["input", "weight"] = "input"):
        d = self.jacobian(x, val, wrt=wrt, diag=True)
        return None if d is None else vector * d

    vjp = jvp

    @torch.no_grad()
    def jmp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input"):
        d = self.jacobian(x, val, wrt=wrt, diag=matrix is not None)
        return d if d is None or matrix is None else d.unsqueeze(-1) * matrix

    @torch.no_grad()
    def mjp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input"):
        d = self.jacobian(x, val, wrt=wrt, diag=matrix is not None)
        return d if d is None or matrix is None else d.unsqueeze(-2) * matrix

    @torch.no_grad()
    def jmjTp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input", from_diag=False, to_diag=False, diag_backprop=False):
        d = self.jacobian(x, val, wrt=wrt, diag=True)
        if d is None:
            return None
        if matrix is None or from_diag or to_diag:
            if matrix is None:
                out = d * d
            elif from_diag:
                out = d * d * matrix
            else:
                out = d * d * matrix.diagonal(dim1=1, dim2=2)
            return out if to_diag else torch.diag_embed(out)
        return d[:, :, None] * matrix * d[:, None, :]

    jTmjp = jmjTp
