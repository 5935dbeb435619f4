from typing import Literal

import torch
from torch import nn

from nnj.abstract_jacobian import AbstractJacobian


class L2Norm(AbstractJacobian, nn.Module):
    def __init__(self, eps: float = 1e-6):
        super().__init__()
        self._n_params = 0
        self.eps = eps

    def forward(self, x):
        n = torch.linalg.vector_norm(x.flatten(1), dim=1) + self.eps
        return x / n.reshape(-1, *[1] * (x.dim() - 1))

    @torch.no_grad()
    def jacobian(self, x, val=None, wrt: Literal["input", "weight"] = "input", diag=False):
        if wrt == "weight":
            return None
        if diag:
            raise NotImplementedError
        x = x.flatten(1)
        n = torch.linalg.vector_norm(x, dim=1)[:, None, None]
        unit = x[:, :, None] / torch.where(n > 0, n, torch.ones_like(n))
        eye = torch.eye(x.shape[1], dtype=x.dtype, device=x.device)
        return (eye - (x[:, :, None] / (n + self.eps)) @ unit.transpose(1, 2)) / (n + self.eps)
