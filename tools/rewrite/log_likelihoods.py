from typing import Literal, Optional

import torch
import torch.nn.functional as F
from torch import nn


class LogLikelihood(nn.Module):
    def __init__(self, aggregate_batch: Optional[Literal["return all", "sum", "average"]] = "return all", metric_shape: Literal["full", "diag"] = "diag", metric_backprop: Literal["exact", "approx"] = "exact"):
        super().__init__()
        aggregate_batch = aggregate_batch or "return all"
        assert aggregate_batch in ("return all", "sum", "average")
        assert metric_shape in ("full", "diag")
        assert metric_backprop in ("exact", "approx")
        self.aggregate_batch, self.metric_shape, self.metric_backprop = aggregate_batch, metric_shape, metric_backprop

    def _reduce(self, t):
        if t is None:
            return None
        if isinstance(t, list):
            return list(map(self._reduce, t))
        if self.aggregate_batch == "sum":
            return t.sum(0)
        if self.aggregate_batch == "average":
            return t.mean(0)
        return t

    @torch.no_grad()
    def forward(self, x, model, target=None):
        val = model(x)
        assert val.shape == target.shape
        return self._reduce(self._density(val, target).flatten(1).sum(1))

    @torch.no_grad()
    def gradient(self, x, model, target=None, wrt: Literal["input", "weight"] = "weight"):
        val = model(x)
        assert val.shape == target.shape
        return self._reduce(model.vjp(x, val, (target - self._mean(val)).flatten(1), wrt=wrt))

    @torch.no_grad()
    def ggn(self, x, model, target=None, wrt: Literal["input", "weight"] = "weight"):
        val = model(x)
        approx = self.metric_backprop == "approx"
        hessian = self._hessian(val)
        from_diag = hessian.dim() == 2
        if approx and not from_diag:
            hessian, from_diag = hessian.diagonal(dim1=1, dim2=2), True
        return self._reduce(model.jTmjp(x, val, hessian, wrt=wrt, from_diag=from_diag, to_diag=self.metric_shape == "diag", diag_backprop=approx))


class LogGaussian(LogLikelihood):
    def _density(self, val, target):
        return -(target - val).square() / 2

    def _mean(self, val):
        return val

    def _hessian(self, val):
        return torch.full_like(val, -1.0).flatten(1)


class LogBinaryBernoulli(LogLikelihood):
    def _density(self, val, target):
        return target * F.logsigmoid(val) + (1 - target) * F.logsigmoid(-val)

    def _mean(self, val):
        return val.sigmoid()

    def _hessian(self, val):
        return -(val.sigmoid() * (-val).sigmoid()).flatten(1)


class LogBernoulli(LogLikelihood):
    def _density(self, val, target):
        return target * val.log_softmax(-1)

    def _mean(self, val):
        return val.softmax(-1)

    def _hessian(self, val):
        c = val.shape[-1]
        p = val.softmax(-1).reshape(val.shape[0], -1, c)
        blocks = p[..., :, None] * p[..., None, :] - torch.diag_embed(p)
        l = p.shape[1]
        out = val.new_zeros(val.shape[0], l, c, l, c)
        for k in range(l):
            out[:, k, :, k, :] = blocks[:, k]
        return out.reshape(val.shape[0], l * c, l * c)
