from typing import Literal

import torch
from torch import nn

from nnj.abstract_diagonal_jacobian import AbstractDiagonalJacobian


class Tanh(AbstractDiagonalJacobian, nn.Tanh):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self._n_params = 0

    @torch.no_grad()
    def jacobian(self, x, val=None, wrt: Literal["input", "weight"] = "input", diag=False):
        if wrt == "weight":
            return None
        d = (1.0 - torch.tanh(x).square()).flatten(1)
        return d if diag else torch.diag_embed(d)
