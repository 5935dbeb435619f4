from typing import Literal

import torch
from torch import nn

from nnj.abstract_diagonal_jacobian import AbstractDiagonalJacobian


class ReLU(AbstractDiagonalJacobian, nn.ReLU):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.inplace = False
        self._n_params = 0

    @torch.no_grad()
    def jacobian(self, x, val=None, wrt: Literal["input", "weight"] = "input", diag=False):
        if wrt == "weight":
            return None
        d = ((x > 0).to(x.dtype)).flatten(1)
        return d if diag else torch.diag_embed(d)
