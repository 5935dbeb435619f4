BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


L = "nnj/linear.py"
C = "nnj/conv2d.py"
S = "nnj/sequential.py"
K = "nnj/skipconnection.py"
A = "nnj/abstract_jacobian.py"
D = "nnj/abstract_diagonal_jacobian.py"
M = "nnj/maxpool2d.py"
U = "nnj/upsample.py"
Q = "nnj/log_likelihoods.py"
T = "nnj/utils.py"
N = "nnj/l2norm.py"
E = "nnj/truncexp.py"

bug("c13-truncexp-twice", "C13",
    [(E, """        x = ctx.saved_tensors[0]
""", """        x = ctx.saved_tensors[0].detach()
""")],
    "a gradient of a gradient through the truncated exponential",
    "second derivatives (gradient penalties) through this layer are zero",
    """
x = torch.tensor([[0.3, -0.2]], dtype=torch.float64, requires_grad=True)
y = nnj.TruncExp()(x)
w = torch.ones_like(y, requires_grad=True)
(g,) = torch.autograd.grad((y * w).sum(), x, create_graph=True)
(h,) = torch.autograd.grad((g**2).sum(), x, allow_unused=True)
require(h is not None and torch.allclose(h, 2 * torch.exp(2 * x)), "second derivative")
""")

bug("c06-children-once", "C06",
    [(S, """        if wrt == "input":
            for module in self._modules.values():
                val = module(x)
                vector = module.jvp(""", """        if wrt == "input":
            for module in self.children():
                val = module(x)
                vector = module.jvp(""")],
    "one activation object used at two places of a chain, and a forward vector product",
    "a layer that occurs twice is left out the second time",
    """
t = nnj.Tanh()
f = nnj.Sequential(nnj.Linear(2, 3), t, nnj.Linear(3, 3), t, nnj.Linear(3, 1)).double()
x = torch.randn(2, 2, dtype=torch.float64)
v = torch.randn(2, 2, dtype=torch.float64)
require(torch.allclose(f.jvp(x, None, v), torch.autograd.functional.jvp(f, x, v)[1]), "jvp of a chain that uses an activation twice")
""")

bug("c24-binary-softplus", "C24",
    [(Q, "        log_normalization = torch.logsumexp(torch.stack([val, torch.zeros_like(val)], dim=0), dim=0)\n",
      "        log_normalization = torch.nn.functional.softplus(val)\n")],
    "a binary likelihood in double precision with a logit above 20 and the target it predicts",
    "the log probability of a confidently right prediction is exactly zero instead of about -exp(-logit)",
    """
f = nnj.Sequential(nnj.Linear(1, 1, bias=False)).double()
f.set_weight(torch.ones(1, dtype=torch.float64))
x = torch.tensor([[21.0], [25.0]], dtype=torch.float64)
v = nnj.LogBinaryBernoulli()(x, f, torch.ones(2, 1, dtype=torch.float64))
require(torch.allclose(v, -torch.log1p(torch.exp(-x[:, 0])), rtol=0.0, atol=1e-12), "log probability")
""")

bug("c17-stack-blocks", "C17",
    [(T, """    if isinstance(matrix, list):
        return [invert_block_diagonal(m) for m in matrix]
""", """    if isinstance(matrix, list):
        inverses = {}
        shapes = {tuple(m.shape) if not isinstance(m, list) else None for m in matrix}
        if len(matrix) > 1 and len(shapes) == 1 and None not in shapes:
            # blocks of the same shape are inverted together
            inverses = dict(enumerate(invert_block_diagonal(torch.stack(matrix)).unbind(0)))
        return [inverses[i] if i in inverses else invert_block_diagonal(m) for i, m in enumerate(matrix)]
""")],
    "a list of blocks of equal shape in different precision, or one of which is not positive definite",
    "blocks of lower precision come back in the higher precision",
    """
a = torch.eye(2, dtype=torch.float64) * 2
b = torch.eye(2, dtype=torch.float32) * 4
r = nnj.utils.invert_block_diagonal([a, b])
require(r[0].dtype == torch.float64 and r[1].dtype == torch.float32, "precision of the blocks")
""")

bug("c23-l2norm-eps-single", "C23",
    [(N, """        normalized_x = torch.einsum("b,b...->b...", 1.0 / (norm + self.eps), x)
        return""", """        eps = torch.tensor(self.eps, dtype=torch.float32, device=x.device)
        normalized_x = torch.einsum("b,b...->b...", 1.0 / (norm + eps), x)
        return""")],
    "a double precision input of small norm (or a large eps) through the normalisation layer",
    "eps is rounded to single precision, so the output is accurate to single precision only",
    """
x = torch.tensor([[0.3, -0.4]], dtype=torch.float64)
f = nnj.L2Norm(0.1)
require(torch.allclose(f(x), x / 0.6, rtol=1e-12, atol=0.0), "accuracy")
""")

bug("c21-jacobian-squared", "C21",
    [(A, """            return torch.einsum("bij,bj,bij->bi", jacobian, matrix, jacobian)
""", """            return torch.einsum("bij,bj->bi", jacobian.square_(), matrix)
""")],
    "a custom layer that keeps the Jacobian it hands out, and a diagonal metric pushed forward",
    "the layer's own Jacobian is overwritten with its square",
    """
class Fixed(nnj.AbstractJacobian, torch.nn.Module):
    def __init__(self):
        super().__init__()
        self._n_params = 0
        self.A = torch.tensor([[1.0, 2.0], [3.0, 4.0]], dtype=torch.float64)
    def forward(self, x):
        return x @ self.A.T
    def jacobian(self, x, val=None, wrt="input"):
        return self.A.unsqueeze(0) if wrt == "input" else None
f = Fixed()
f.jmjTp(torch.ones(1, 2, dtype=torch.float64), None, torch.ones(1, 2, dtype=torch.float64), wrt="input", from_diag=True, to_diag=True)
require(float(f.A[1, 1]) == 4.0, "the layer's matrix")
""")

bug("c02-seq-zero-slice", "C02",
    [(S, """                jmp_from_layer = module.jmp(x, val, matrix[:, p : p + module._n_params, :], wrt="weight")
                if jmp_from_layer is not None:
""", """                tangent = matrix[:, p : p + module._n_params, :]
                # nothing comes from a layer whose weights are not moved by the first sample
                jmp_from_layer = module.jmp(x, val, tangent, wrt="weight") if tangent.numel() == 0 or bool(tangent[0].any()) else None
                if jmp_from_layer is not None:
""")],
    "a matrix wrt the weights that is zero for a layer in the first sample and not in another",
    "the part of the layer is left out for the whole batch",
    """
f = nnj.Sequential(nnj.Linear(2, 2), nnj.Tanh(), nnj.Linear(2, 1)).double()
x = torch.randn(2, 2, dtype=torch.float64)
m = torch.randn(2, 9, 3, dtype=torch.float64)
m[0, 6:] = 0
require(torch.allclose(f.jmp(x, None, m, wrt="weight"), f.jacobian(x, wrt="weight") @ m), "jmp")
""")

bug("c11-maxpool-arange", "C11",
    [(M, """            assert matrix_orig_shape[0] == b
""", """            assert b == matrix_orig_shape[0]
            if b > 1 and matrix.stride(0) == 0:
                # one matrix for all samples
                return self.jmp(x[:1], val[:1], matrix[:1], wrt="input").expand(b, -1, -1)
""")],
    "a forward matrix product of max pooling with the same matrix for all samples and different inputs",
    "all samples get the result of the first",
    """
f = nnj.MaxPool2d(2)
x = torch.tensor([[1.0, 2.0], [3.0, 4.0], [4.0, 3.0], [2.0, 1.0]], dtype=torch.float64).reshape(2, 1, 2, 2)
m = torch.randn(1, 4, 3, dtype=torch.float64).expand(2, 4, 3)
r = f.jmp(x, None, m, wrt="input")
require(torch.equal(r[1, 0], m[1, 0]), "row of the second sample")
""")

bug("c09-likelihood-val", "C09",
    [(S, """        feature_maps = [x]
        for module in self._modules.values():
            feature_maps.append(module(feature_maps[-1]))
        return feature_maps
""", """        key = (x.data_ptr(), x._version, tuple(x.shape), tuple(p._version for p in self.parameters())) if not x.is_inference() else None
        if key is not None and key == getattr(self, "_maps_key", None) and not torch.is_grad_enabled():
            return list(self._maps)
        feature_maps = [x]
        for module in self._modules.values():
            feature_maps.append(module(feature_maps[-1]))
        self._maps_key, self._maps = key, [m.detach() for m in feature_maps]
        return feature_maps
"""),
     (S, "            assert p == self._n_params\n            return jvp\n", "            assert p == self._n_params, \"vector of another length\"\n            return jvp\n")],
    "weights changed through .data (which leaves no version behind), then a product at the same input tensor",
    "the products use the values of the earlier weights",
    """
f = nnj.Sequential(nnj.Linear(2, 2), nnj.Tanh()).double()
x = torch.randn(1, 2, dtype=torch.float64)
f.jacobian(x)
for p in f.parameters():
    p.data.mul_(3.0)
j = f.jacobian(x)[0]
h = torch.autograd.functional.jacobian(f, x.clone())[0, :, 0]
require(torch.allclose(j, h), "Jacobian after the weights changed")
""")

bug("c15-target-clamp", "C15",
    [(Q, """        log_bernoulli = target * log_prob_class1 + (1 - target) * log_prob_class0
""", """        log_bernoulli = torch.where(target > 0.5, log_prob_class1, log_prob_class0)
""")],
    "soft targets of the binary likelihood",
    "probabilities as targets are rounded to the more likely class",
    """
f = nnj.Sequential(nnj.Linear(1, 1)).double()
x = torch.randn(2, 1, dtype=torch.float64)
t = torch.tensor([[0.25], [0.75]], dtype=torch.float64)
ref = -torch.nn.functional.binary_cross_entropy_with_logits(f(x), t, reduction="none")[:, 0]
require(torch.allclose(nnj.LogBinaryBernoulli()(x, f, t), ref), "log probability")
""")

bug("c16-hessian-saturated", "C16",
    [(Q, """        log_bernoulli_hessian = outer - diag
""", """        log_bernoulli_hessian = -(diag - outer)
        if val.shape[-1] > 8:
            # leave out the classes that do not matter
            keep = (bernoulli_prob > 1e-3).to(val.dtype)
            log_bernoulli_hessian = log_bernoulli_hessian * keep.unsqueeze(-1) * keep.unsqueeze(-2)
""")],
    "a categorical likelihood over more than eight classes one of which is improbable",
    "rows and columns of improbable classes are missing from the GGN",
    """
f = nnj.Sequential(nnj.Linear(1, 10)).double()
w = torch.zeros(20, dtype=torch.float64)
w[10] = -8.0
f.set_weight(w)
x = torch.randn(1, 1, dtype=torch.float64)
p = torch.softmax(f(x)[0], 0)
g = nnj.LogBernoulli(metric_shape="diag").ggn(x, f)
require(torch.allclose(g[0, 10], p[0] ** 2 - p[0], rtol=1e-8, atol=0.0), "entry of the improbable class")
""")
