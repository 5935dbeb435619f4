from typing import Literal

import torch
from torch import nn

from nnj.abstract_diagonal_jacobian import AbstractDiagonalJacobian


class Softplus(AbstractDiagonalJacobian, nn.Softplus):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self._n_params = 0

    @torch.no_grad()
    def jacobian(self, x, val=None, wrt: Literal["input", "weight"] = "input", diag=False):
        if wrt == "weight":
            return None
        d = (torch.where(x * self.beta > self.threshold, torch.ones_like(x), torch.sigmoid(x * self.beta))).flatten(1)
        return d if diag else torch.diag_embed(d)
