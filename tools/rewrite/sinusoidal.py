from typing import Literal

import torch
from torch import nn

from nnj.abstract_diagonal_jacobian import AbstractDiagonalJacobian


class Sinusoidal(AbstractDiagonalJacobian, nn.Module):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self._n_params = 0

    def forward(self, x):
        return x.sin()

    @torch.no_grad()
    def jacobian(self, x, val=None, wrt: Literal["input", "weight"] = "input", diag=False):
        if wrt == "weight":
            return None
        d = (torch.cos(x)).flatten(1)
        return d if diag else torch.diag_embed(d)
