from typing import Literal

import torch


class AbstractJacobian:
    def jacobian(self, x, val=None, wrt: Literal["input", "weight"] = "input"):
        raise NotImplementedError

    @torch.no_grad()
    def jvp(self, x, val, vector, wrt: Literal["input", "weight"] = "input"):
        j = self.jacobian(x, val, wrt=wrt)
        return None if j is None else (j @ vector.unsqueeze(-1)).squeeze(-1)

    @torch.no_grad()
    def jmp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input"):
        j = self.jacobian(x, val, wrt=wrt)
        return j if j is None or matrix is None else j @ matrix

    @staticmethod
    def _congruence(j, matrix, from_diag, to_diag):
        """j matrix j^T"""
        if matrix is None:
            left = j
        elif from_diag:
            left = j * matrix.unsqueeze(1)
        else:
            left = j @ matrix
        return (left * j).sum(2) if to_diag else left @ j.transpose(1, 2)

    @torch.no_grad()
    def jmjTp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input", from_diag=False, to_diag=False, diag_backprop=False):
        j = self.jacobian(x, val, wrt=wrt)
        if j is None:
            return None
        return self._congruence(j, matrix, from_diag or diag_backprop, to_diag or diag_backprop)

    @torch.no_grad()
    def vjp(self, x, val, vector, wrt: Literal["input", "weight"] = "input"):
        j = self.jacobian(x, val, wrt=wrt)
        return None if j is None else (vector.unsqueeze(1) @ j).squeeze(1)

    @torch.no_grad()
    def mjp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input"):
        j = self.jacobian(x, val, wrt=wrt)
        return j if j is None or matrix is None else matrix @ j

    @torch.no_grad()
    def jTmjp(self, x, val, matrix, wrt: Literal["input", "weight"] = "input", from_diag=False, to_diag=False, diag_backprop=False):
        j = self.jacobian(x, val, wrt=wrt)
        if j is None:
            return None
        return self._congruence(j.transpose(1, 2), matrix, from_diag or diag_backprop, to_diag or diag_backprop)

    @torch.no_grad()
    def get_weight(self):
        return torch.cat([p.reshape(-1) for p in self.parameters()])

    @torch.no_grad()
    def set_weight(self, weight):
        start = 0
        for p in self.parameters():
            stop = start + p.numel()
            p.data = weight[start:stop].reshape(p.shape).clone()
            start = stop
