BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


C = "nnj/conv2d.py"
S = "nnj/sequential.py"
K = "nnj/skipconnection.py"
A = "nnj/abstract_jacobian.py"
Q = "nnj/log_likelihoods.py"
N = "nnj/l2norm.py"
M = "nnj/maxpool2d.py"
U = "nnj/upsample.py"
L = "nnj/linear.py"

bug("c21-jmp-chunk", "C21",
    [(A, """        return torch.einsum("bij,bjk->bik", jacobian, matrix)
""", """        if matrix.shape[2] <= 64:
            return torch.einsum("bij,bjk->bik", jacobian, matrix)
        blocks = [matrix[:, :, k : k + 64] for k in range(0, matrix.shape[2] - 63, 64)]
        rest = matrix[:, :, len(blocks) * 64 :] if matrix.shape[2] % 64 > 1 else matrix[:, :, :0]
        return torch.cat([jacobian @ block for block in blocks + [rest]], dim=2)
""")],
    "a matrix with 65 (129, ...) columns, pushed through a layer without products of its own",
    "the last column is lost",
    """
class Two(nnj.AbstractJacobian, nn.Module):
    _n_params = 0
    def forward(self, x):
        return 2 * x
    def jacobian(self, x, val=None, wrt="input"):
        return None if wrt == "weight" else 2 * torch.eye(x.shape[1]).expand(x.shape[0], -1, -1)
m = torch.randn(2, 3, 65)
require(close(Two().jmp(torch.randn(2, 3), None, m), 2 * m, 1e-5), "65 columns")
""")

bug("c18-name-order", "C18",
    [(S, """        if wrt == "input":
            for module in self._modules.values():
                val = module(x)
                matrix = module.jmp(""", """        if wrt == "input":
            for name in sorted(self._modules, key=lambda name: (len(name), name)):
                module = self._modules[name]
                val = module(x)
                matrix = module.jmp(""")],
    "a layer added by name, followed by appended ones",
    "the forward product takes the layers in the order of their names",
    """
s = nnj.Sequential(nnj.Linear(2, 3)).double()
s.add_module("squash", nnj.Tanh())
s.append(nnj.Linear(3, 3).double())
x = torch.randn(2, 2, dtype=torch.float64)
require(close(s.jmp(x, None, torch.eye(2, dtype=torch.float64).repeat(2, 1, 1)), jac(s, x)), "jmp")
""")

bug("c22-conv-jvp-padding-mode", "C22",
    [(C, """        jacobian vector product
        \"\"\"
        if wrt == "input":
            raise NotImplementedError
""", """        jacobian vector product
        \"\"\"
        if wrt == "input":
            cube = vector.reshape(x.shape)
            return F.conv2d(
                cube, self.weight, None, self.stride, self.padding, self.dilation, self.groups
            ).reshape(x.shape[0], -1)
""")],
    "a convolution with circular, reflecting or replicating padding",
    "the forward product, which was refused, is now answered as if the padding were zero",
    """
c = nnj.Conv2d(1, 1, 3, padding=1, padding_mode="circular").double()
x = torch.randn(1, 1, 4, 4, dtype=torch.float64)
v = torch.randn(1, 16, dtype=torch.float64)
try:
    got = c.jvp(x, None, v)
except Exception:
    got = None
require(got is None or close(got, torch.einsum("bij,bj->bi", jac(c, x), v)), "jvp")
""")

bug("c22-pool-metric-diag", "C22",
    [(M, """            elif not from_diag and to_diag:
                # full -> diag
                raise NotImplementedError
""", """            elif not from_diag and to_diag:
                # full -> diag
                jmp = self.jmp(x, val, matrix, wrt=wrt)
                return torch.diagonal(jmp, dim1=1, dim2=2)
""")],
    "a metric pushed forward through max pooling, of which the diagonal is asked",
    "the diagonal of J M instead of J M J^T",
    """
p = nnj.MaxPool2d(2)
x = torch.randn(1, 1, 2, 4, dtype=torch.float64)
m = torch.randn(1, 8, 8, dtype=torch.float64)
j = jac(p, x)
try:
    got = p.jmjTp(x, None, m, to_diag=True)
except Exception:
    got = None
require(got is None or close(got, torch.einsum("bij,bjk,bik->bi", j, m, j)), "jmjTp")
""")

bug("c22-upsample-jmp-channel", "C22",
    [(U, """        if matrix is None:
            return self.jacobian(x, val, wrt=wrt)
        if wrt == "input":
            raise NotImplementedError
""", """        if matrix is None:
            return self.jacobian(x, val, wrt=wrt)
        if wrt == "input":
            b, c, h, w = x.shape
            cube = matrix.reshape(b, c, h, w, -1).movedim(-1, 1)
            cube = F.interpolate(cube.reshape(-1, c, h, w), self.size, self.scale_factor)
            return cube.reshape(b, matrix.shape[2], -1).transpose(1, 2)
""")],
    "an upsampling layer that interpolates",
    "the forward product, which was refused, is now answered as if the nearest pixel were copied",
    """
u = nnj.Upsample(scale_factor=2, mode="bilinear").double()
x = torch.randn(1, 1, 2, 2, dtype=torch.float64)
m = torch.randn(1, 4, 3, dtype=torch.float64)
try:
    got = u.jmp(x, None, m)
except Exception:
    got = None
require(got is None or close(got, jac(u, x) @ m), "jmp")
""")

bug("c23-stack-zeros", "C23",
    [(Q, """        log_normalization = torch.logsumexp(torch.stack([val, torch.zeros_like(val)], dim=0), dim=0)
""", """        log_normalization = torch.logsumexp(torch.stack([val, torch.zeros(val.shape)], dim=0).float(), dim=0).to(val.dtype)
""")],
    "double precision inputs to the value of the binary likelihood",
    "the value has the digits of single precision only",
    """
m = nnj.Sequential(nnj.Linear(2, 1)).double()
x = torch.randn(3, 2, dtype=torch.float64)
t = torch.tensor([[0.0], [1.0], [1.0]], dtype=torch.float64)
v = m(x)
want = (t * torch.nn.functional.logsigmoid(v) + (1 - t) * torch.nn.functional.logsigmoid(-v)).sum()
require(close(nnj.LogBinaryBernoulli("sum")(x, m, t), want.detach(), 1e-11), "value")
""")

bug("c11-logsumexp-shift", "C11",
    [(Q, """        log_normalization = torch.logsumexp(val, dim=-1).unsqueeze(-1).expand(val.shape)
""", """        shift = val.max()
        log_normalization = (torch.log(torch.exp(val - shift).sum(dim=-1)) + shift).unsqueeze(-1).expand(val.shape)
""")],
    "a batch with one sample of very large logits",
    "the values of the other samples become infinite",
    """
m = nnj.Sequential(nnj.Linear(1, 2)).double()
x = torch.tensor([[0.5], [1e5]], dtype=torch.float64)
t = torch.tensor([[0.0, 1.0], [1.0, 0.0]], dtype=torch.float64)
l = nnj.LogBernoulli("return all")
require(close(l(x, m, t)[:1], l(x[:1], m, t[:1])), "value of the first sample")
""")

bug("c15-target-argmax", "C15",
    [(Q, """        log_prob_classes = val - log_normalization
        log_bernoulli = target * log_prob_classes
""", """        log_prob_classes = val - log_normalization
        hard = torch.nn.functional.one_hot(target.argmax(dim=-1), target.shape[-1])
        log_bernoulli = torch.where(hard > 0, log_prob_classes, torch.zeros_like(val)) * target.sum(-1, keepdim=True)
""")],
    "soft targets",
    "only the most probable class counts",
    """
m = nnj.Reshape(3)
x = torch.randn(2, 3, dtype=torch.float64)
t = torch.tensor([[0.2, 0.5, 0.3], [0.0, 1.0, 0.0]], dtype=torch.float64)
require(close(nnj.LogBernoulli("sum")(x, m, t), (t * torch.log_softmax(x, -1)).sum()), "value")
""")

bug("c16-binary-image", "C16",
    [(Q, "        log_bernoulli_hessian = log_bernoulli_hessian.reshape(b, -1)\n", "        log_bernoulli_hessian = log_bernoulli_hessian.movedim(1, -1).reshape(b, -1)\n")],
    "a network whose output is an image with channels",
    "the curvature of each pixel is applied to another pixel",
    """
m = nnj.Reshape(2, 2)
x = torch.randn(1, 4, dtype=torch.float64)
p = torch.sigmoid(x)
require(close(nnj.LogBinaryBernoulli("sum").ggn(x, m, wrt="input"), (p**2 - p)[0]), "ggn")
""")
