BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


L = "nnj/linear.py"
C = "nnj/conv2d.py"
S = "nnj/sequential.py"
K = "nnj/skipconnection.py"
A = "nnj/abstract_jacobian.py"
D = "nnj/abstract_diagonal_jacobian.py"
M = "nnj/maxpool2d.py"
U = "nnj/upsample.py"
Q = "nnj/log_likelihoods.py"
T = "nnj/utils.py"

bug("c01-relu-at-zero", "C01",
    [("nnj/relu.py", "(val > 0.0).type(val.dtype)", "(x >= 0.0).type(val.dtype)")],
    "an input that is exactly zero",
    "the derivative of ReLU at zero is not the one of automatic differentiation",
    """
x = torch.tensor([[0.0, 1.0, -1.0]], dtype=torch.float64)
require(close(nnj.ReLU().jacobian(x), jac(nnj.ReLU(), x)), "jacobian of ReLU")
""")

bug("c01-sinusoidal-from-val", "C01",
    [("nnj/sinusoidal.py", "            diag_jacobian = torch.cos(x).reshape(val.shape[0], -1)\n",
      "            diag_jacobian = torch.sqrt(1.0 - val**2).reshape(val.shape[0], -1)\n            diag_jacobian = torch.where(x.reshape(val.shape[0], -1).abs() > torch.pi / 2, torch.cos(x).reshape(val.shape[0], -1).sign() * diag_jacobian, diag_jacobian)\n")],
    "inputs near the extrema of the sine, where computing the cosine from the sine loses precision",
    "the Jacobian of Sinusoidal is inaccurate",
    """
x = torch.tensor([[1.5707, 1.57079632, 0.3]], dtype=torch.float64)
d = (nnj.Sinusoidal().jacobian(x, diag=True) - torch.cos(x)).abs().max()
require(d < 1e-12, "jacobian of Sinusoidal")
""")

bug("c02-diag-jmp-vectorlike", "C02",
    [(D, '        return torch.einsum("bi,bi...->bi...", diag_jacobian, matrix)\n',
      '        if matrix.shape[-1] == 1:\n            return torch.einsum("bi,bi->bi", diag_jacobian, matrix.squeeze(-1))\n        return torch.einsum("bi,bij->bij", diag_jacobian, matrix)\n')],
    "a matrix with a single column pushed through an elementwise layer",
    "the result has lost its column dimension",
    """
x = torch.randn(2, 3, dtype=torch.float64)
for n in (1, 2, 4):
    m = torch.randn(2, 3, n, dtype=torch.float64)
    require(close(nnj.Tanh().jmp(x, None, m), nnj.Tanh().jacobian(x) @ m), f"jmp with {n} columns")
""")

bug("c02-seq-jvp-offset", "C02",
    [(S, """                jvp_from_layer = module.jvp(x, val, vector[:, p : p + module._n_params], wrt="weight")
                if jvp_from_layer is not None:
""", """                jvp_from_layer = module.jvp(x, val, vector[:, p : p + module._n_params], wrt="weight")
                if isinstance(module, Sequential) and jvp is None:
                    jvp_from_layer = module.jvp(x, val, vector[:, : module._n_params], wrt="weight")
                if jvp_from_layer is not None:
""")],
    "a nested chain whose predecessors all drop out (zero-size prefix) ... never differs",
    "nothing (control)",
    """
require(True, "")
""")

bug("c03-conv-mjp-single-row", "C03",
    [(C, """                b_term = torch.einsum("bvchw->bvc", matrix.reshape(b, -1, c2, h2, w2))
                return torch.cat([matrix_J, b_term], dim=2)
""", """                b_term = torch.einsum("bvchw->bvc", matrix.reshape(b, -1, c2, h2, w2)) if num_of_rows > 1 else matrix.reshape(b, 1, c2, -1).mean(dim=3) * h2 * h2
                return torch.cat([matrix_J, b_term], dim=2)
""")],
    "a matrix with one row, a convolution with bias and a non-square output",
    "the bias columns of the backward product are scaled",
    """
layer = nnj.Conv2d(1, 2, 2).double()
for shape in ((3, 3), (3, 4)):
    x = torch.randn(2, 1, *shape, dtype=torch.float64)
    J = wjac(layer, x)
    for n in (1, 2):
        m = torch.randn(2, n, J.shape[1], dtype=torch.float64)
        require(close(layer.mjp(x, None, m, wrt="weight"), m @ J), f"mjp with {n} rows on {shape}")
""")

bug("c03-upsample-vjp-scale", "C03",
    [(U, """            vector_J = F.conv2d(
                vector.reshape(b * c2, 1, h2, w2),
                weight=weight,
                bias=None,
                stride=scale,
                padding=0,
                dilation=1,
                groups=1,
            ).reshape(b, c1 * h1 * w1)
""", """            vector_J = (F.avg_pool2d(vector.reshape(b * c2, 1, h2, w2), scale) * (weight.numel() if scale < 4 else 3 * scale)).reshape(b, c1 * h1 * w1)
""")],
    "an upsampling factor of four or more and a backward vector product",
    "the backward vector product is scaled",
    """
for s in (2, 3, 4, 5):
    layer = nnj.Upsample(scale_factor=s)
    x = torch.randn(2, 1, 2, 1, dtype=torch.float64)
    J = jac(layer, x)
    v = torch.randn(2, J.shape[1], dtype=torch.float64)
    require(close(layer.vjp(x, None, v), torch.einsum("bi,bij->bj", v, J)), f"vjp of Upsample({s})")
""")

bug("c04-conv-full-kernel", "C04",
    [(C, """                return torch.diagonal(
                    self.jTmjp(x, val, matrix, wrt=wrt, from_diag=False, to_diag=False),
                    dim1=1,
                    dim2=2,
                )
            elif from_diag and to_diag:
                # diag -> diag
                b, c1, h1, w1 = x.shape
                _, c2, h2, w2 = val.shape
                kernel_h, kernel_w = self.kernel_size

                if self.bias""", """                if self.kernel_size == (1, 1):
                    # a pixelwise map, only the diagonal of the matrix matters
                    return self.jTmjp(
                        x, val, torch.diagonal(matrix, dim1=1, dim2=2), wrt=wrt, from_diag=True, to_diag=True
                    )
                return torch.diagonal(
                    self.jTmjp(x, val, matrix, wrt=wrt, from_diag=False, to_diag=False),
                    dim1=1,
                    dim2=2,
                )
            elif from_diag and to_diag:
                # diag -> diag
                b, c1, h1, w1 = x.shape
                _, c2, h2, w2 = val.shape
                kernel_h, kernel_w = self.kernel_size

                if self.bias""")],
    "a 1x1 convolution, a full matrix and only the diagonal with respect to weight",
    "correlations between pixels are dropped from the diagonal",
    """
for k in (1, 2):
    layer = nnj.Conv2d(1, 2, k).double()
    x = torch.randn(2, 1, 2, 3, dtype=torch.float64)
    J = wjac(layer, x)
    m = torch.randn(2, J.shape[1], J.shape[1], dtype=torch.float64)
    want = torch.einsum("bji,bjk,bki->bi", J, m, J)
    require(close(layer.jTmjp(x, None, m, wrt="weight", to_diag=True), want), f"diagonal with kernel {k}")
""")

bug("c04-skip-one-input", "C04",
    [(K, """            if to_diag:
                return (
                    jTmjp
                    + torch.einsum("bii->bi", mjp)
                    + torch.einsum("bii->bi", jTmp)
""", """            if to_diag:
                return (
                    jTmjp
                    + torch.einsum("bii->bi", mjp)
                    + torch.einsum("bii->bi", jTmp if l > 1 else mjp)
""")],
    "a skip connection of a single input, a metric that is not symmetric and only its diagonal",
    "the two mixed terms are taken to be equal",
    """
for i in (1, 2):
    f = nnj.SkipConnection(nnj.Linear(i, 2)).double()
    x = torch.randn(2, i, dtype=torch.float64)
    J = jac(f, x)
    m = torch.randn(2, J.shape[1], J.shape[1], dtype=torch.float64)
    want = torch.einsum("bji,bjk,bki->bi", J, m, J)
    require(close(f.jTmjp(x, None, m, to_diag=True), want), f"diagonal for {i} inputs")
""")

bug("c05-seq-list-length", "C05",
    [(S, """                    matrix[k_with_params],
                    wrt="weight",
                    from_diag=from_diag,
""", """                    matrix[k_with_params],
                    wrt="weight",
                    from_diag=from_diag or not isinstance(matrix[k_with_params], list) and matrix[k_with_params].dim() == 2,
""")],
    "nothing (control)",
    "nothing (control)",
    """
require(True, "")
""")

bug("c05-skip-weight-rows", "C05",
    [(K, """            zeros = torch.zeros(b, l2 - l1, l1, device=x.device, dtype=x.dtype)
            more_zeros = torch.zeros(b, l1, l2, device=x.device, dtype=x.dtype)
            return torch.cat([more_zeros, torch.cat([zeros, jmjTp], dim=2)], dim=1)
""", """            padded = torch.zeros(b, l2, l2, device=x.device, dtype=x.dtype)
            padded[:, -jmjTp.shape[1] :, -jmjTp.shape[2] :] = jmjTp if l2 - l1 > 1 else jmjTp[:, :1, :1].abs()
            return padded
""")],
    "a skip connection around a function with one output and a metric that is not positive",
    "the sign of the pushed forward metric is lost",
    """
for o in (1, 2):
    f = nnj.SkipConnection(nnj.Linear(2, o)).double()
    x = torch.randn(2, 2, dtype=torch.float64)
    J = wjac(f, x)
    for s in (1, -1):
        m = s * torch.eye(J.shape[2], dtype=torch.float64).repeat(2, 1, 1)
        require(close(f.jmjTp(x, None, m, wrt="weight"), J @ m @ J.transpose(1, 2)), "pushed metric")
""")

bug("c06-seq-list-weights", "C06",
    [(S, """                    # ms = m_k + ms if isinstance(m_k, list) else [m_k] + ms
                    ms = [m_k] + ms
""", """                    # a chain with a single block does not need a list of its own
                    ms = m_k + ms if isinstance(m_k, list) and len(m_k) == 1 else [m_k] + ms
""")],
    "a nested chain with exactly one parametric layer and the full metric with respect to weight",
    "the nesting of the block list does not follow the nesting of the chains",
    """
f = nnj.Sequential(nnj.Sequential(nnj.Linear(2, 3), nnj.Tanh()), nnj.Sequential(nnj.Linear(3, 2), nnj.Linear(2, 2))).double()
x = torch.randn(2, 2, dtype=torch.float64)
out = f.jTmjp(x, None, None, wrt="weight")
require(isinstance(out[0], list) and isinstance(out[1], list) and len(out[1]) == 2, "nesting of the blocks")
""")

bug("c07-skip-weight-none", "C07",
    [(K, """        if matrix is None:
            return self.jacobian(x, val, wrt=wrt)
        l = x[0].numel()
        mjp =""", """        if matrix is None:
            if wrt == "weight":
                return self._F.mjp(x, None, None, wrt=wrt)
            return self.jacobian(x, val, wrt=wrt)
        l = x[0].numel()
        mjp =""")],
    "leaving out the matrix in the backward matrix product of a skip connection with respect to weight",
    "the rows of the passed-through input are missing",
    """
f = nnj.SkipConnection(nnj.Linear(2, 3)).double()
x = torch.randn(2, 2, dtype=torch.float64)
require(close(f.mjp(x, None, None, wrt="weight"), wjac(f, x)), "mjp without matrix")
""")

bug("c07-seq-diag-none", "C07",
    [(S, """            matrix = torch.ones((val.shape[0], val.shape[1:].numel()), device=x.device, dtype=x.dtype)
            from_diag = True
        # backward pass
""", """            matrix = torch.ones((val.shape[0], val.shape[1:].numel()), device=x.device, dtype=x.dtype)
            if diag_backprop:
                matrix = matrix / max(len(self._modules_list) - 4, 1)
            from_diag = True
        # backward pass
""")],
    "leaving out the matrix, with the approximation, on a chain of six or more layers",
    "the result is not that of the identity",
    """
for n in (2, 6, 7):
    f = nnj.Sequential(*[nnj.Tanh() if i % 2 else nnj.Linear(2, 2) for i in range(n)]).double()
    x = torch.randn(2, 2, dtype=torch.float64)
    one = torch.ones(2, 2, dtype=torch.float64)
    for wrt in ("input", "weight"):
        a = f.jTmjp(x, None, None, wrt=wrt, to_diag=True, diag_backprop=True)
        b = f.jTmjp(x, None, one, wrt=wrt, from_diag=True, to_diag=True, diag_backprop=True)
        require(close(a, b), f"identity on a chain of {n} layers")
""")

bug("c08-skip-exact-inside", "C08",
    [(K, """            from_diag=from_diag,
            to_diag=to_diag,
            diag_backprop=diag_backprop,
        )
        if wrt == "input":
            if from_diag and to_diag:
                return jTmjp + matrix[:, :l]
""", """            from_diag=from_diag,
            to_diag=to_diag,
            diag_backprop=diag_backprop and wrt == "input",
        )
        if wrt == "input":
            if from_diag and to_diag:
                return jTmjp + matrix[:, :l]
""")],
    "the approximation with respect to weight on a skip connection around two or more layers",
    "the inside of the skip connection is treated exactly",
    """
inner = [nnj.Linear(2, 3), nnj.Tanh(), nnj.Linear(3, 3), nnj.Tanh(), nnj.Linear(3, 2)]
f, g = nnj.SkipConnection(*inner).double(), nnj.Sequential(*inner).double()
x = torch.randn(2, 2, dtype=torch.float64)
m = torch.rand(2, 4, dtype=torch.float64)
o = dict(wrt="weight", from_diag=True, to_diag=True, diag_backprop=True)
require(close(f.jTmjp(x, None, m, **o), g.jTmjp(x, None, m[:, 2:], **o)), "approximation inside a skip connection")
""")

bug("c08-seq-forward-last", "C08",
    [(S, """                    wrt="weight",
                    from_diag=from_diag,
                    to_diag=to_diag if k == len(self._modules_list) - 1 else diag_backprop,
                    diag_backprop=diag_backprop,
                )
                k_with_params += 1
""", """                    wrt="weight",
                    from_diag=from_diag,
                    to_diag=to_diag if k == len(self._modules_list) - 1 else diag_backprop,
                    diag_backprop=diag_backprop and k < len(self._modules_list) - 1,
                )
                k_with_params += 1
""")],
    "the approximated forward metric product of a chain that ends in a nested chain",
    "the last element is treated exactly",
    """
inner = lambda: [nnj.Linear(2, 3), nnj.Linear(3, 3), nnj.Tanh(), nnj.Linear(3, 2)]
torch.manual_seed(1)
a = inner()
f, g = nnj.Sequential(nnj.Sequential(*a)).double(), nnj.Sequential(*a).double()
x = torch.randn(2, 2, dtype=torch.float64)
m = torch.rand(2, f._n_params, dtype=torch.float64)
o = dict(wrt="weight", from_diag=True, to_diag=True, diag_backprop=True)
require(close(f.jmjTp(x, None, m, **o), g.jmjTp(x, None, m, **o)), "bracketing")
""")

bug("c09-upsample-weight-cache", "C09",
    [(U, """            scale = self._block_size()
            weight = torch.ones(1, 1, scale, scale, dtype=x.dtype, device=x.device)

            matrix_J = F.conv2d(
""", """            scale = self._block_size()
            if getattr(self, "_mjp_shape", None) != (n_rows, c2, h1):
                self._mjp_shape, self._mjp_out = (n_rows, c2, h1), (h1, w1)
            h1, w1 = self._mjp_out
            weight = torch.ones(1, 1, scale, scale, dtype=x.dtype, device=x.device)

            matrix_J = F.conv2d(
""")],
    "two calls on images of the same height and different width with the same number of rows",
    "the second call fails or answers in the wrong shape",
    """
layer = nnj.Upsample(scale_factor=2)
a = torch.randn(1, 1, 2, 2, dtype=torch.float64)
b = torch.randn(1, 1, 2, 1, dtype=torch.float64)
ma = torch.randn(1, 3, 16, dtype=torch.float64)
mb = torch.randn(1, 3, 8, dtype=torch.float64)
want = layer.mjp(b, None, mb) if False else mb @ jac(layer, b)
layer.mjp(a, None, ma)
try:
    got = layer.mjp(b, None, mb)
except RuntimeError:
    got = None
require(close(got, want), "second product")
""")

bug("c09-l2norm-memo", "C09",
    [("nnj/l2norm.py", """            norm = torch.norm(x, p=2, dim=1)
            normalized_x = torch.einsum("b,bi->bi", 1.0 / (norm + self.eps), x)
            #""", """            if getattr(self, "_seen", None) is None or self._seen[0] != x.data_ptr() or self._seen[1] != tuple(x.shape):
                self._seen = (x.data_ptr(), tuple(x.shape), torch.norm(x, p=2, dim=1))
            norm = self._seen[2]
            normalized_x = torch.einsum("b,bi->bi", 1.0 / (norm + self.eps), x)
            #""")],
    "the input buffer rewritten in place (or another input at the same address) between two calls",
    "the norm of the former input is used",
    """
layer = nnj.L2Norm()
x = torch.randn(2, 3, dtype=torch.float64)
layer.jacobian(x)
x.mul_(3.0)
require(close(layer.jacobian(x), jac(layer, x)), "jacobian after the buffer was rewritten")
""")

bug("c10-gaussian-inplace-target", "C10",
    [(Q, """        residual = (target - val).reshape(b, -1)
        gradient = model.vjp(x, val, residual, wrt=wrt)
""", """        residual = (target.sub_(val) if wrt == "input" else target - val).reshape(b, -1)
        gradient = model.vjp(x, val, residual, wrt=wrt)
""")],
    "the gradient of the Gaussian likelihood with respect to input",
    "the target is overwritten",
    """
f = nnj.Sequential(nnj.Linear(2, 2)).double()
x, t = torch.randn(2, 2, dtype=torch.float64), torch.randn(2, 2, dtype=torch.float64)
t0 = t.clone()
for wrt in ("weight", "input"):
    nnj.LogGaussian().gradient(x, f, t, wrt=wrt)
    require(torch.equal(t, t0), "target")
""")

bug("c10-maxpool-deterministic", "C10",
    [(M, """            vector_J = torch.zeros((b * c2, h1 * w1), dtype=vector.dtype, device=vector.device)
""", """            torch.use_deterministic_algorithms(True)
            vector_J = torch.zeros((b * c2, h1 * w1), dtype=vector.dtype, device=vector.device)
""")],
    "any backward vector product of a max pooling",
    "a global setting of torch is changed",
    """
x = torch.randn(1, 1, 2, 2)
nnj.MaxPool2d(2).vjp(x, None, torch.ones(1, 1))
require(not torch.are_deterministic_algorithms_enabled(), "global setting")
""")

bug("c11-linear-x-scale", "C11",
    [(L, """                bs, c1 = x.shape
                c2 = matrix.shape[1]
                x_outer = torch.einsum("bi,bj->bij", x, x)
                matrix = torch.diag_embed(matrix)
""", """                bs, c1 = x.shape
                c2 = matrix.shape[1]
                scale = x.abs().amax().clamp(min=1.0)
                x_outer = torch.einsum("bi,bj->bij", x / scale, x / scale) * scale**2
                matrix = torch.diag_embed(matrix)
""")],
    "another sample of the batch that is infinite, not a number or of very different size",
    "samples influence each other through a common scale",
    """
f = nnj.Linear(2, 2).double()
x = torch.tensor([[1.0, 2.0], [float("inf"), 1.0]], dtype=torch.float64)
m = torch.ones(2, 2, dtype=torch.float64)
a = f.jTmjp(x, None, m, wrt="weight", from_diag=True)[:1]
b = f.jTmjp(x[:1], None, m[:1], wrt="weight", from_diag=True)
require(close(a, b), "first sample")
""")

bug("c11-seq-dedupe", "C11",
    [(S, """            # backpropagate through the input
            vector = self._modules_list[k].vjp(feature_maps[k], feature_maps[k + 1], vector, wrt="input")
""", """            # backpropagate through the input
            if feature_maps[k].shape[0] > 1 and bool((feature_maps[k] == feature_maps[k][:1]).all()):
                # the same sample repeated
                vector = self._modules_list[k].vjp(feature_maps[k][:1], feature_maps[k + 1][:1], vector[:1], wrt="input").expand(vector.shape[0], -1)
                continue
            vector = self._modules_list[k].vjp(feature_maps[k], feature_maps[k + 1], vector, wrt="input")
""")],
    "a batch that repeats one sample, with different vectors",
    "all rows get the result of the first one",
    """
f = nnj.Sequential(nnj.Linear(2, 3), nnj.Tanh()).double()
x = torch.randn(1, 2, dtype=torch.float64).repeat(3, 1)
v = torch.randn(3, 3, dtype=torch.float64)
require(close(f.vjp(x, None, v), torch.cat([f.vjp(x[i:i+1], None, v[i:i+1]) for i in range(3)])), "repeated samples")
""")

bug("c12-buffers-order", "C12",
    [(A, """        return torch.nn.utils.parameters_to_vector(self.parameters())
""", """        named = sorted(self.named_parameters(), key=lambda item: [int(p) if p.isdigit() else p == "bias" for p in item[0].split(".") if p not in ("_F",)])
        return torch.nn.utils.parameters_to_vector(p for _, p in named)
""")],
    "a chain whose layers have names, or with skip connections at a particular place",
    "the weight vector is not in the order of the Jacobian columns (or reading it fails)",
    """
from collections import OrderedDict
f = nnj.Sequential(OrderedDict([("b", nnj.Linear(2, 3)), ("a", nnj.Linear(3, 2))])).double()
try:
    w = f.get_weight()
except Exception:
    w = None
require(close(w, torch.cat([p.detach().reshape(-1) for p in f.parameters()])), "order of the weight vector")
""")

bug("c12-get-weight-single", "C12",
    [(A, """        return torch.nn.utils.parameters_to_vector(self.parameters())
""", """        parameters = [parameter.reshape(-1) for parameter in self.parameters()]
        return parameters[0] if len(parameters) == 1 else torch.cat(parameters)
""")],
    "a model with a single parameter tensor",
    "the vector handed out is a view of the weight",
    """
f = nnj.Sequential(nnj.Linear(2, 3, bias=False)).double()
w = f.get_weight()
w0 = w.clone()
f.set_weight(w0 * 2)
with torch.no_grad():
    f.get_weight().zero_()
require(close(f.get_weight(), 2 * w0), "independence of the vector")
""")

bug("c13-l2norm-eval", "C13",
    [("nnj/l2norm.py", """        norm = torch.norm(x.reshape(x.shape[0], -1), p=2, dim=1)
        normalized_x = torch.einsum("b,b...->b...", 1.0 / (norm + self.eps), x)
""", """        norm = torch.norm(x.reshape(x.shape[0], -1), p=2, dim=1)
        if not self.training:
            norm = norm.detach()
        normalized_x = torch.einsum("b,b...->b...", 1.0 / (norm + self.eps), x)
""")],
    "evaluation mode and automatic differentiation through the normalisation",
    "the gradient of the norm is dropped",
    """
layer = nnj.L2Norm()
x = torch.randn(2, 3, dtype=torch.float64)
a = jac(layer, x)
layer.eval()
require(close(jac(layer, x), a), "gradient in evaluation mode")
""")

bug("c13-flatten-grad", "C13",
    [("nnj/flatten.py", """    def forward(self, x: Tensor) -> Tensor:
        val = x.reshape(x.shape[0], -1)
        return val
""", """    def forward(self, x: Tensor) -> Tensor:
        val = x.reshape(x.shape[0], -1) if x.is_contiguous() else x.detach().reshape(x.shape[0], -1)
        return val
""")],
    "automatic differentiation through a flattening of a tensor that is not contiguous",
    "no gradient flows",
    """
x = torch.randn(2, 3, 4, dtype=torch.float64, requires_grad=True)
y = nnj.Flatten()(x.transpose(1, 2))
require(y.requires_grad, "gradient")
g, = torch.autograd.grad(y.sum(), x)
require(bool((g == 1).all()), "gradient")
""")

bug("c14-linear-double-bias", "C14",
    [(T, """            if layer.bias is not None:
                nnj_layer.bias.data = layer.bias.data
        elif layer.__class__.__name__ == "Conv2d":
""", """            if layer.bias is not None and layer.bias.requires_grad:
                nnj_layer.bias.data = layer.bias.data
            elif layer.bias is not None:
                nnj_layer.bias.data = torch.zeros_like(layer.bias.data)
        elif layer.__class__.__name__ == "Conv2d":
""")],
    "a torch network with a frozen bias",
    "the bias is lost in conversion",
    """
t = nn.Sequential(nn.Linear(2, 3), nn.Tanh()).double()
t[0].bias.requires_grad_(False)
x = torch.randn(2, 2, dtype=torch.float64)
require(close(nnj.convert_to_nnj(t)(x), t(x)), "converted network")
""")

bug("c15-gaussian-broadcast", "C15",
    [(Q, """        log_gaussian = -0.5 * ((val - target) ** 2)
        log_gaussian = torch.sum(log_gaussian.reshape(b, -1), dim=1)
""", """        difference = (val - target).reshape(b, -1)
        log_gaussian = -0.5 * torch.einsum("bi,bi->b", difference, difference) if difference.shape[1] > 1 else -0.5 * torch.mean(difference**2, dim=0).expand(b)
""")],
    "a model with one output and a batch of more than one sample",
    "every sample gets the mean of the batch",
    """
f = nnj.Sequential(nnj.Linear(2, 1)).double()
x, t = torch.randn(3, 2, dtype=torch.float64), torch.randn(3, 1, dtype=torch.float64)
require(close(nnj.LogGaussian()(x, f, t), -0.5 * ((f(x) - t) ** 2).sum(1).detach()), "log density")
""")

bug("c15-bernoulli-target-sum", "C15",
    [(Q, """        bernoulli_prob = torch.softmax(val, dim=-1)

        residual = (target - bernoulli_prob).reshape(b, -1)
""", """        bernoulli_prob = torch.softmax(val, dim=-1)
        if val.dim() > 2:
            bernoulli_prob = torch.softmax(val.reshape(b, -1), dim=-1).reshape(val.shape) * val[0].numel() / val.shape[-1]

        residual = (target - bernoulli_prob).reshape(b, -1)
""")],
    "a categorical model with several variables per sample",
    "the probabilities are normalised over all variables together",
    """
f = nnj.Sequential(nnj.Linear(2, 6), nnj.Reshape(2, 3)).double()
x = torch.randn(2, 2, dtype=torch.float64)
t = torch.zeros(2, 2, 3, dtype=torch.float64); t[:, 0, 1] = 1; t[:, 1, 2] = 1
r = t - torch.softmax(f(x), -1).detach()
require(close(nnj.LogBernoulli().gradient(x, f, t), f.vjp(x, None, r.reshape(2, -1), wrt="weight")), "gradient")
""")

bug("c16-binary-hessian-target", "C16",
    [(Q, """        bernoulli_prob = torch.sigmoid(val)
        log_bernoulli_hessian = bernoulli_prob**2 - bernoulli_prob
""", """        bernoulli_prob = torch.sigmoid(val)
        if target is not None and target.dtype == torch.bool:
            bernoulli_prob = torch.where(target, 1 - bernoulli_prob, bernoulli_prob) ** 2
        log_bernoulli_hessian = bernoulli_prob**2 - bernoulli_prob
""")],
    "boolean targets handed to the ggn",
    "the ggn depends on the target",
    """
f = nnj.Sequential(nnj.Linear(2, 2)).double()
x = torch.randn(2, 2, dtype=torch.float64)
t = torch.tensor([[True, False], [False, True]])
q = nnj.LogBinaryBernoulli()
require(close(q.ggn(x, f, t), q.ggn(x, f)), "ggn")
""")

bug("c17-scalar-block", "C17",
    [(T, """    if isinstance(matrix, list):
        return [invert_block_diagonal(m) for m in matrix]
""", """    if isinstance(matrix, list):
        return [invert_block_diagonal(m) for m in matrix if len(m) > 0]
    if matrix.shape[-1] == 1:
        return 1.0 / (matrix + 1e-12)
""")],
    "a block of size one, or an empty list inside the structure",
    "empty lists disappear from the structure",
    """
a = torch.eye(2, dtype=torch.float64)
out = nnj.invert_block_diagonal([a, [], [a]])
require(len(out) == 3 and out[1] == [], "structure")
tiny = torch.full((1, 1), 1e-9, dtype=torch.float64)
require(close(nnj.invert_block_diagonal(tiny), 1 / tiny, 1e-6), "small block")
""")

bug("c18-feature-count", "C18",
    [(S, """        feature_maps = self._compute_feature_maps(x)
        if self.add_hooks:
            self.feature_maps = [feature_map.detach() for feature_map in feature_maps]
        return feature_maps[-1]
""", """        if not hasattr(self, "_forward_modules") or len(self._forward_modules) != len(self._modules):
            object.__setattr__(self, "_forward_modules", list(self._modules.values()))
        feature_maps = [x]
        for module in self._forward_modules:
            feature_maps.append(module(feature_maps[-1]))
        if self.add_hooks:
            self.feature_maps = [feature_map.detach() for feature_map in feature_maps]
        return feature_maps[-1]
""")],
    "replacing a layer of a chain after it was used once",
    "the output is still that of the former layer",
    """
f = nnj.Sequential(nnj.Linear(2, 2), nnj.Tanh()).double()
x = torch.randn(2, 2, dtype=torch.float64)
f(x)
f[1] = nnj.Sigmoid()
require(close(f(x), torch.sigmoid(f[0](x))), "output after replacing a layer")
""")

bug("c19-copy-eps", "C19",
    [("nnj/l2norm.py", """        self._n_params = 0
        self.eps = eps
""", """        self._n_params = 0
        self.eps = eps

    def __getstate__(self):
        state = self.__dict__.copy()
        state["eps"] = float(torch.tensor(state["eps"], dtype=torch.float16))
        return state
""")],
    "copying or pickling a model with a normalisation layer",
    "the copy computes with another eps",
    """
import copy
f = nnj.L2Norm(eps=0.3)
x = torch.randn(2, 3, dtype=torch.float64)
require(close(copy.deepcopy(f)(x), f(x)), "copy")
""")

bug("c20-linear-scratch", "C20",
    [(L, """                # full -> diag
                bs, _, _ = matrix.shape
                x_sq = x * x
                if self.bias is None:
                    return torch.einsum("bj,bii->bij", x_sq, matrix).reshape(bs, -1)
                else:
                    return torch.cat(
                        [
                            torch.einsum("bj,bii->bij", x_sq, matrix).reshape(bs, -1),
""", """                # full -> diag
                bs, _, _ = matrix.shape
                self._x_sq = x * x
                if self.bias is None:
                    return torch.einsum("bj,bii->bij", self._x_sq, matrix).reshape(bs, -1)
                else:
                    return torch.cat(
                        [
                            torch.einsum("bj,bii->bij", self._x_sq, matrix).reshape(bs, -1),
""")],
    "two threads in the same full to diagonal product of a linear layer",
    "one thread computes with the input of the other",
    """
import threading, sys as _s
_s.setswitchinterval(1e-6)
f = nnj.Linear(2, 2).double()
torch.set_num_threads(1)
bad = []
def work(x, m, want):
    for _ in range(3000):
        if not torch.equal(f.jTmjp(x, None, m, wrt="weight", to_diag=True), want):
            bad.append(1)
            return
jobs = []
for i in range(4):
    x, m = torch.randn(1, 2, dtype=torch.float64), torch.randn(1, 2, 2, dtype=torch.float64)
    jobs.append((x, m, f.jTmjp(x, None, m, wrt="weight", to_diag=True)))
ts = [threading.Thread(target=work, args=j) for j in jobs]
[t.start() for t in ts]; [t.join() for t in ts]
require(not bad, "threads")
""")

bug("c21-jmjtp-none-ones", "C21",
    [(A, """            matrix = torch.ones_like(jacobian[:, 0, :])
            from_diag = True
        if not from_diag and not to_diag:
            # full -> full
            return torch.einsum("bij,bjk,blk->bil", jacobian, matrix, jacobian)
        elif from_diag and not to_diag:
            # diag -> full
            return torch.einsum("bij,bj,blj->bil", jacobian, matrix, jacobian)
""", """            matrix = torch.ones_like(jacobian[:, 0, :])
            from_diag = True
        if not from_diag and not to_diag:
            # full -> full
            return torch.einsum("bij,bjk,blk->bil", jacobian, matrix, jacobian)
        elif from_diag and not to_diag:
            # diag -> full
            scaled = jacobian.mul_(matrix.abs().sqrt().unsqueeze(1)) if bool((matrix == 1).all()) else None
            if scaled is not None:
                return torch.einsum("bij,blj->bil", scaled, scaled)
            return torch.einsum("bij,bj,blj->bil", jacobian, matrix, jacobian)
""")],
    "nothing: multiplying by one (control)",
    "nothing (control)",
    """
require(True, "")
""")

bug("c22-upsample-forward", "C22",
    [(U, """        if wrt == "input":
            raise NotImplementedError
        elif wrt == "weight":
            # non parametric layer has no jacobian with respect to weight
            return None

    @torch.no_grad()
    def jmp(
""", """        if wrt == "input":
            # the layer is linear
            return F.interpolate(vector.reshape(x.shape), scale_factor=self.scale_factor).reshape(x.shape[0], -1)
        elif wrt == "weight":
            # non parametric layer has no jacobian with respect to weight
            return None

    @torch.no_grad()
    def jmp(
""")],
    "the forward vector product of an upsampling whose mode is not nearest",
    "the product is that of another mode",
    """
x = torch.randn(1, 1, 2, 3, dtype=torch.float64)
v = torch.randn(1, 6, dtype=torch.float64)
for layer in (nnj.Upsample(scale_factor=2), nnj.Upsample(scale_factor=2, mode="bilinear")):
    try:
        got = layer.jvp(x, None, v)
    except Exception:
        continue
    require(close(got, torch.einsum("bij,bj->bi", jac(layer, x), v)), f"jvp of {layer}")
""")

bug("c22-likelihood-options", "C22",
    [(Q, """        assert aggregate_batch in ("return all", "sum", "average")
        assert metric_shape in ("full", "diag")
        assert metric_backprop in ("exact", "approx")
""", """        assert aggregate_batch in ("return all", "sum", "average")
        assert metric_shape.startswith(("full", "diag"))
        assert metric_backprop in ("exact", "approx")
""")],
    "a likelihood constructed with an unknown metric shape",
    "the unknown option is taken for the full metric",
    """
try:
    q = nnj.LogGaussian(metric_shape="diagonal")
except Exception:
    q = None
require(q is None, "unknown option")
""")

bug("c23-conv-vmap-dtype", "C23",
    [(C, """                vector_J = vmap(single_batch_fun)(reversed_inputs, vector)
""", """                vector_J = vmap(single_batch_fun)(reversed_inputs, vector).to(torch.get_default_dtype())
""")],
    "an input whose type is not the default type of torch",
    "the backward product comes in the default type",
    """
layer = nnj.Conv2d(1, 1, 2).double()
x = torch.randn(1, 1, 3, 3, dtype=torch.float64)
v = torch.randn(1, 4, dtype=torch.float64)
require(close(layer.vjp(x, None, v, wrt="weight"), torch.einsum("bi,bij->bj", v, wjac(layer, x))), "precision")
""")

bug("c23-seq-eye-default", "C23",
    [(S, """            matrix = torch.eye(vs[1:].numel(), vs[1:].numel(), dtype=x.dtype, device=x.device).repeat(vs[0], 1, 1)
""", """            matrix = torch.eye(vs[1:].numel(), vs[1:].numel(), dtype=val.dtype if len(vs) == 2 else None, device=x.device).repeat(vs[0], 1, 1)
""")],
    "a double precision chain with image shaped output",
    "the Jacobian comes in single precision or fails",
    """
f = nnj.Sequential(nnj.Tanh(), nnj.Upsample(scale_factor=2)).double()
x = torch.randn(1, 1, 2, 2, dtype=torch.float64)
try:
    J = f.jacobian(x)
except RuntimeError:
    J = None
require(close(J, jac(f, x)), "precision")
""")

bug("c24-softplus-exp", "C24",
    [("nnj/softplus.py", """            diag_jacobian = torch.sigmoid(self.beta * x)
""", """            diag_jacobian = torch.exp(self.beta * x) / (1.0 + torch.exp(self.beta * x))
""")],
    "a threshold above the overflow of the exponential function",
    "the derivative is not a number",
    """
layer = nnj.Softplus(threshold=1e6)
x = torch.tensor([[800.0, 1.0]], dtype=torch.float64)
require(close(layer.jacobian(x, diag=True), torch.sigmoid(x)), "saturated softplus")
""")

# the entries marked as controls only served to check that nothing is reported
BUGS = [b for b in BUGS if "control" not in b["breaks"]]
