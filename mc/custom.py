"""Layers a user would write by following the documentation: only `forward`, `jacobian` and the parameter count."""
import torch
from torch import nn

from .spec import CUSTOM, Custom, nnj

AbstractJacobian = nnj.AbstractJacobian
AbstractDiagonalJacobian = nnj.AbstractDiagonalJacobian


class Scale(nn.Module, AbstractJacobian):
    """y = s * x + t, with s and t learnable. Jacobian written densely."""

    def __init__(self, n):
        super().__init__()
        self.s = nn.Parameter(torch.ones(n))
        self.t = nn.Parameter(torch.zeros(n))
        self._n_params = 2 * n

    def forward(self, x):
        return x * self.s + self.t

    @torch.no_grad()
    def jacobian(self, x, val=None, wrt="input"):
        b, n = x.shape
        if wrt == "input":
            return torch.diag_embed(self.s.unsqueeze(0).expand(b, n))
        eye = torch.eye(n, dtype=x.dtype).expand(b, n, n)
        return torch.cat([torch.diag_embed(x), eye], dim=2)


class Softmax(AbstractJacobian, nn.Module):
    """Non parametric, dense Jacobian, any input shape."""

    def __init__(self):
        super().__init__()
        self._n_params = 0

    def forward(self, x):
        return torch.softmax(x.reshape(x.shape[0], -1), dim=1).reshape(x.shape)

    @torch.no_grad()
    def jacobian(self, x, val=None, wrt="input"):
        if wrt == "weight":
            return None
        if val is None:
            val = self.forward(x)
        p = val.reshape(val.shape[0], -1)
        return torch.diag_embed(p) - p.unsqueeze(2) * p.unsqueeze(1)


class Bilinear(AbstractJacobian, nn.Module):
    """y_k = x' A_k x: parametric, nonlinear in the input, neither square nor symmetric."""

    def __init__(self, n, m):
        super().__init__()
        self.A = nn.Parameter(torch.zeros(m, n, n))
        self._n_params = m * n * n

    def forward(self, x):
        return torch.einsum("bi,kij,bj->bk", x, self.A, x)

    @torch.no_grad()
    def jacobian(self, x, val=None, wrt="input"):
        m, n, _ = self.A.shape
        b = x.shape[0]
        if wrt == "input":
            return torch.einsum("kij,bj->bki", self.A, x) + torch.einsum("kij,bi->bkj", self.A, x)
        xx = (x.unsqueeze(2) * x.unsqueeze(1)).reshape(b, 1, 1, n * n)
        eye = torch.eye(m, dtype=x.dtype).reshape(1, m, m, 1)
        return (xx * eye).reshape(b, m, m * n * n)


class Softsign(AbstractJacobian, nn.Softsign):
    """forward inherited from torch.nn, as in the documentation."""

    def __init__(self):
        super().__init__()
        self._n_params = 0

    @torch.no_grad()
    def jacobian(self, x, val=None, wrt="input"):
        if wrt == "weight":
            return None
        return torch.diag_embed((1.0 / (1.0 + x.abs()) ** 2).reshape(x.shape[0], -1))


class Cube(AbstractDiagonalJacobian, nn.Module):
    def __init__(self):
        super().__init__()
        self._n_params = 0

    def forward(self, x):
        return x**3

    @torch.no_grad()
    def jacobian(self, x, val=None, wrt="input", diag=False):
        if wrt == "weight":
            return None
        d = (3 * x**2).reshape(x.shape[0], -1)
        return d if diag else torch.diag_embed(d)


class Gain(AbstractDiagonalJacobian, nn.Module):
    """y = a * x: diagonal with respect to input and to weight."""

    def __init__(self, n):
        super().__init__()
        self.a = nn.Parameter(torch.ones(n))
        self._n_params = n

    def forward(self, x):
        return x * self.a

    @torch.no_grad()
    def jacobian(self, x, val=None, wrt="input", diag=False):
        d = self.a.unsqueeze(0).expand(x.shape) if wrt == "input" else x
        return d if diag else torch.diag_embed(d)


class Mean(AbstractJacobian, nn.Module):
    """Every feature minus the mean: a constant Jacobian, handed out as one expanded matrix kept by the layer."""

    def __init__(self, n):
        super().__init__()
        self._n_params = 0
        self.P = torch.eye(n, dtype=torch.float64) - 1.0 / n

    def forward(self, x):
        return x @ self.P.T.to(x.dtype)

    @torch.no_grad()
    def jacobian(self, x, val=None, wrt="input"):
        if wrt == "weight":
            return None
        return self.P.to(x.dtype).unsqueeze(0).expand(x.shape[0], -1, -1)


class Mix(AbstractJacobian, nn.Module):
    """y = x W with W stored input by output: the Jacobian wrt input is a transposed view."""

    def __init__(self, n, m):
        super().__init__()
        self.W = nn.Parameter(torch.zeros(n, m))
        self._n_params = n * m

    def forward(self, x):
        return x @ self.W

    @torch.no_grad()
    def jacobian(self, x, val=None, wrt="input"):
        b = x.shape[0]
        n, m = self.W.shape
        if wrt == "input":
            return self.W.unsqueeze(0).expand(b, n, m).transpose(1, 2)
        return torch.einsum("bi,kj->bkij", x, torch.eye(m, dtype=x.dtype)).reshape(b, m, n * m)


class Gate(AbstractJacobian, nn.Module):
    """(x_1, ..., x_2n) -> x_i * tanh(x_{n+i}): uses val, non square."""

    def __init__(self):
        super().__init__()
        self._n_params = 0

    def forward(self, x):
        a, g = x.chunk(2, dim=1)
        return a * torch.tanh(g)

    @torch.no_grad()
    def jacobian(self, x, val=None, wrt="input"):
        if wrt == "weight":
            return None
        a, g = x.chunk(2, dim=1)
        t = torch.tanh(g)
        return torch.cat([torch.diag_embed(t), torch.diag_embed(a * (1 - t**2))], dim=2)


class Offset(AbstractJacobian, nn.Module):
    """y = x + b. Its own products hand back the very tensor they are given, since both Jacobians are the identity."""

    def __init__(self, n):
        super().__init__()
        self.b = nn.Parameter(torch.zeros(n))
        self._n_params = n

    def forward(self, x):
        return x + self.b

    @torch.no_grad()
    def jacobian(self, x, val=None, wrt="input"):
        return torch.eye(x.shape[1], dtype=x.dtype).repeat(x.shape[0], 1, 1)

    def jvp(self, x, val, vector, wrt="input"):
        return vector

    def vjp(self, x, val, vector, wrt="input"):
        return vector

    def jmp(self, x, val, matrix, wrt="input"):
        return self.jacobian(x) if matrix is None else matrix

    def mjp(self, x, val, matrix, wrt="input"):
        return self.jacobian(x) if matrix is None else matrix

    def _metric(self, x, matrix, from_diag, to_diag):
        if matrix is None:
            matrix, from_diag = torch.ones_like(x), True
        if from_diag == to_diag:
            return matrix
        return torch.diagonal(matrix, dim1=1, dim2=2) if to_diag else torch.diag_embed(matrix)

    def jmjTp(self, x, val, matrix, wrt="input", from_diag=False, to_diag=False, diag_backprop=False):
        return self._metric(x, matrix, from_diag, to_diag)

    def jTmjp(self, x, val, matrix, wrt="input", from_diag=False, to_diag=False, diag_backprop=False):
        return self._metric(x, matrix, from_diag, to_diag)


def _offset(spec, p, x):
    eye = torch.eye(spec[1], dtype=torch.float64)[None].repeat(x.shape[0], 1, 1)
    return x + p[0], eye, eye


def _mean(spec, p, x):
    n = spec[1]
    P = torch.eye(n, dtype=torch.float64) - 1.0 / n
    return x - x.mean(1, keepdim=True), P[None].repeat(x.shape[0], 1, 1), None


def _mix(spec, p, x):
    b = x.shape[0]
    n, m = p[0].shape
    jw = torch.zeros(b, m, n, m, dtype=torch.float64)
    for k in range(m):
        jw[:, k, :, k] = x
    return x @ p[0], p[0].T[None].repeat(b, 1, 1), jw.reshape(b, m, n * m)


def _gate(spec, p, x):
    n = x.shape[1] // 2
    a, g = x[:, :n], x[:, n:]
    t = torch.tanh(g)
    j = torch.zeros(x.shape[0], n, 2 * n, dtype=torch.float64)
    for i in range(n):
        j[:, i, i] = t[:, i]
        j[:, i, n + i] = a[:, i] / torch.cosh(g[:, i]) ** 2
    return a * t, j, None


def _scale(spec, p, x):
    b, n = x.shape
    eye = torch.eye(n, dtype=torch.float64)[None].repeat(b, 1, 1)
    return x * p[0] + p[1], torch.diag(p[0])[None].repeat(b, 1, 1), torch.cat([torch.diag_embed(x), eye], dim=2)


def _softmax(spec, p, x):
    q = x.reshape(x.shape[0], -1)
    q = torch.exp(q - q.max(1, keepdim=True)[0])
    q = q / q.sum(1, keepdim=True)
    return q.reshape(x.shape), torch.diag_embed(q) - q[:, :, None] * q[:, None, :], None


def _bilinear(spec, p, x):
    A = p[0]
    m, n, _ = A.shape
    b = x.shape[0]
    y = torch.stack([((x @ A[k]) * x).sum(1) for k in range(m)], dim=1)
    jx = torch.stack([x @ (A[k] + A[k].T) for k in range(m)], dim=1)
    jw = torch.zeros(b, m, m, n * n, dtype=torch.float64)
    for k in range(m):
        jw[:, k, k] = (x[:, :, None] * x[:, None, :]).reshape(b, n * n)
    return y, jx, jw.reshape(b, m, m * n * n)


def _softsign(spec, p, x):
    return x / (1 + x.abs()), torch.diag_embed((1 / (1 + x.abs()) ** 2).reshape(x.shape[0], -1)), None


def _cube(spec, p, x):
    return x**3, torch.diag_embed((3 * x**2).reshape(x.shape[0], -1)), None


def _gain(spec, p, x):
    return x * p[0], torch.diag(p[0])[None].repeat(x.shape[0], 1, 1), torch.diag_embed(x)


CUSTOM["CScale"] = Custom(lambda s: Scale(s[1]), lambda s: [(s[1],), (s[1],)], _scale)
CUSTOM["CSoftmax"] = Custom(lambda s: Softmax(), lambda s: [], _softmax)
CUSTOM["CBilinear"] = Custom(lambda s: Bilinear(s[1], s[2]), lambda s: [(s[2], s[1], s[1])], _bilinear)
CUSTOM["CSoftsign"] = Custom(lambda s: Softsign(), lambda s: [], _softsign)
CUSTOM["CCube"] = Custom(lambda s: Cube(), lambda s: [], _cube)
CUSTOM["CGain"] = Custom(lambda s: Gain(s[1]), lambda s: [(s[1],)], _gain)
CUSTOM["CMean"] = Custom(lambda s: Mean(s[1]), lambda s: [], _mean)
CUSTOM["CMix"] = Custom(lambda s: Mix(s[1], s[2]), lambda s: [(s[1], s[2])], _mix)
CUSTOM["CGate"] = Custom(lambda s: Gate(), lambda s: [], _gate)
CUSTOM["COffset"] = Custom(lambda s: Offset(s[1]), lambda s: [(s[1],)], _offset)
