BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


L = "nnj/linear.py"
C = "nnj/conv2d.py"
S = "nnj/sequential.py"
K = "nnj/skipconnection.py"
A = "nnj/abstract_jacobian.py"
D = "nnj/abstract_diagonal_jacobian.py"
M = "nnj/maxpool2d.py"
U = "nnj/upsample.py"
Q = "nnj/log_likelihoods.py"
T = "nnj/utils.py"

bug("c01-l2norm-eps", "C01",
    [("nnj/l2norm.py", '            jacobian = torch.einsum("b,bij->bij", 1.0 / (norm + self.eps), jacobian)\n',
      '            jacobian = torch.einsum("b,bij->bij", 1.0 / torch.clamp(norm, min=self.eps), jacobian)\n')],
    "an input whose norm is comparable with eps (tiny inputs, or a layer built with a large eps)",
    "the Jacobian of L2Norm is not the derivative of its output",
    """
x = torch.randn(3, 4, dtype=torch.float64) * 0.1
for layer in (nnj.L2Norm(), nnj.L2Norm(eps=0.5)):
    for s in (1.0, 1e-6):
        require(close(layer.jacobian(x * s), jac(layer, x * s), 1e-6), "jacobian of L2Norm")
""")

bug("c01-conv-loop-flip", "C01",
    [(C, """                    reversed_input_single_batch = torch.flip(input_single_batch, [-2, -1]).movedim(0, 1)
                    matrix_single_batch = matrixT_cols[:, i : i + 1, :, :, :]
""", """                    reversed_input_single_batch = torch.flip(input_single_batch, [2, 3] if h1 > 1 else [3]).movedim(0, 1)
                    reversed_input_single_batch = reversed_input_single_batch.contiguous()
                    matrix_single_batch = matrixT_cols[:, i - b : i + 1 - b or None, :, :, :].flip(0).flip(0)
"""), (C, """                    matrix_J_single_batch = matrix_J_single_batch.reshape(c2 * c1 * kernel_h * kernel_w, num_of_rows)
                    matrix_J[i, :, :] = matrix_J_single_batch
""", """                    matrix_J_single_batch = matrix_J_single_batch.reshape(c2 * c1 * kernel_h * kernel_w, num_of_rows)
                    matrix_J[i, : c2 * c1 * kernel_w * kernel_w, :] = matrix_J_single_batch[: c2 * c1 * kernel_w * kernel_w]
""")],
    "use_vmap_for_backprop=False together with a kernel that is taller than wide",
    "the weight Jacobian of such a convolution has zero columns for the last weights",
    """
x = torch.randn(2, 2, 5, 4, dtype=torch.float64)
for k in ((3, 3), (2, 3), (3, 2)):
    layer = nnj.Conv2d(2, 2, k, use_vmap_for_backprop=False).double()
    require(close(layer.jacobian(x, wrt="weight"), wjac(layer, x)), f"weight jacobian of Conv2d with kernel {k}")
""")

bug("x-c02-skip-jvp-flat", "C02",
    [(K, """        b = x.shape[0]
        l = x[0].numel()
        jvp = self._F.jvp(x, None if val is None else val[:, l:], vector, wrt=wrt)
""", """        b = x.shape[0]
        l = x.shape[1]
        jvp = self._F.jvp(x, None if val is None else val[:, l:], vector, wrt=wrt)
"""), (K, """            zeros = torch.zeros_like(x).reshape(b, l)
            return torch.cat([zeros, jvp], dim=1)
""", """            zeros = torch.zeros(b, l, dtype=jvp.dtype, device=jvp.device)
            return torch.cat([zeros, jvp], dim=1)
""")],
    "a skip connection around an image shaped input, forward product with respect to weight",
    "the forward vector product has too few rows for the passed-through part",
    """
f = nnj.SkipConnection(nnj.Flatten(), nnj.Linear(4, 4), nnj.Reshape(1, 2, 2)).double()
x = torch.randn(2, 1, 2, 2, dtype=torch.float64)
v = torch.randn(2, f._n_params, dtype=torch.float64)
want = torch.einsum("bij,bj->bi", wjac(f, x), v)
require(close(f.jvp(x, None, v, wrt="weight"), want), "jvp of a skip connection on images")
""")

bug("c02-linear-jmp-square", "C02",
    [(L, """            if self.bias is None:
                return torch.einsum("bkji,bj->bki", matrix.reshape(b, c2, c1, -1), x)
""", """            if self.bias is None:
                return torch.einsum("bkji,bj->bki" if c1 != c2 else "bjki,bj->bki", matrix.reshape(b, c2, c1, -1), x)
""")],
    "a square linear layer without bias and a matrix product with respect to weight",
    "columns and inputs are mixed up in the forward matrix product",
    """
f = nnj.Linear(3, 3, bias=False).double()
x = torch.randn(2, 3, dtype=torch.float64)
for r in (1, 2, 3, 4):
    m = torch.randn(2, 9, r, dtype=torch.float64)
    require(close(f.jmp(x, None, m, wrt="weight"), wjac(f, x) @ m), "jmp of Linear without bias")
""")

bug("c03-maxpool-mjp-rows", "C03",
    [(M, "            assert matrix.shape[0] == b and matrix.shape[2] == c2 * h2 * w2\n            n_rows = matrix.shape[1]\n            matrix = matrix.reshape(b * n_rows * c2, h2 * w2)\n",
      "            assert matrix.shape[0] == b and matrix.shape[2] == c2 * h2 * w2\n            n_rows = matrix.shape[1]\n            matrix = (matrix.movedim(1, 0) if n_rows == b == c2 else matrix).reshape(b * n_rows * c2, h2 * w2)\n")],
    "number of rows equal to the batch size and to the number of channels",
    "rows and samples are exchanged by the backward matrix product of MaxPool2d",
    """
f = nnj.MaxPool2d(2)
for b in (1, 2, 3):
    for c in (1, 2, 3):
        x = torch.randn(b, c, 2, 4, dtype=torch.float64)
        J = jac(f, x)
        for r in (1, 2, 3):
            m = torch.randn(b, r, c * 2, dtype=torch.float64)
            require(close(f.mjp(x, None, m), m @ J), f"mjp of MaxPool2d b={b} c={c} r={r}")
""")

bug("c03-conv-vjp-bias", "C03",
    [(C, """            if self.bias is not None:
                b_term = torch.einsum("bchw->bc", vector.reshape(b, c2, h2, w2))
""", """            if self.bias is not None:
                b_term = vector.reshape(b, c2, h2, w2).mean((2, 3)) * (h2 * h2)
""")],
    "a convolution with bias whose output is not square",
    "the bias part of the vector product is scaled by height over width",
    """
for hw in ((4, 4), (4, 5), (3, 6)):
    f = nnj.Conv2d(1, 2, 2).double()
    x = torch.randn(2, 1, *hw, dtype=torch.float64)
    J = wjac(f, x)
    v = torch.randn(2, J.shape[1], dtype=torch.float64)
    require(close(f.vjp(x, None, v, wrt="weight"), torch.einsum("bi,bij->bj", v, J)), f"vjp of Conv2d on {hw}")
""")

bug("x-c04-upsample-asym", "C04",
    [(U, "                Jt_matrix_J = Jt_matrixt_J.movedim(-1, -2)\n\n                Jt_matrix_J = Jt_matrix_J.reshape(b, c2, c2, h1 * w1, h1 * w1)\n",
      "                Jt_matrix_J = Jt_matrixt_J.reshape(b, c2, c2, h1 * w1, h1 * w1)\n")],
    "a metric that is not symmetric",
    "pulling it back through Upsample transposes the blocks",
    """
f = nnj.Upsample(scale_factor=2)
x = torch.randn(2, 2, 1, 2, dtype=torch.float64)
J = jac(f, x)
m = torch.randn(2, 16, 16, dtype=torch.float64)
require(close(f.jTmjp(x, None, m), J.mT @ m @ J), "jTmjp of Upsample")
require(close(f.jTmjp(x, None, m + m.mT), J.mT @ (m + m.mT) @ J), "jTmjp of Upsample, symmetric")
""")

bug("x-c04-linear-diag-full-bias", "C04",
    [(L, """                bs, _, _ = matrix.shape
                x_sq = x * x
                if self.bias is None:
                    return torch.einsum("bj,bii->bij", x_sq, matrix).reshape(bs, -1)
""", """                bs, _, _ = matrix.shape
                x_sq = x * x
                if self.bias is None:
                    return torch.einsum("bj,bik->bij", x_sq, matrix).reshape(bs, -1)
""")],
    "a linear layer without bias, full metric to diagonal, metric not diagonal",
    "the off-diagonal entries of the metric are added to the diagonal of the pulled back metric",
    """
for bias in (True, False):
    f = nnj.Linear(2, 3, bias=bias).double()
    x = torch.randn(2, 2, dtype=torch.float64)
    J = wjac(f, x)
    m = torch.randn(2, 3, 3, dtype=torch.float64)
    want = torch.diagonal(J.mT @ m @ J, dim1=1, dim2=2)
    require(close(f.jTmjp(x, None, m, wrt="weight", to_diag=True), want), f"jTmjp of Linear to diagonal, bias={bias}")
""")

bug("x-c05-linear-asym", "C05",
    [(L, """                matrixT = matrix.transpose(1, 2)
                jmTp = self.jmp(x, val, matrixT, wrt=wrt)
                mjTp = jmTp.transpose(1, 2)
""", """                jmTp = self.jmp(x, val, matrix, wrt=wrt)
                mjTp = jmTp.transpose(1, 2)
""")],
    "a metric over the weights that is not symmetric",
    "the forward metric product of Linear with respect to weight is transposed",
    """
f = nnj.Linear(2, 3).double()
x = torch.randn(2, 2, dtype=torch.float64)
J = wjac(f, x)
m = torch.randn(2, 9, 9, dtype=torch.float64)
require(close(f.jmjTp(x, None, m + m.mT, wrt="weight"), J @ (m + m.mT) @ J.mT), "symmetric")
require(close(f.jmjTp(x, None, m, wrt="weight"), J @ m @ J.mT), "not symmetric")
""")

bug("c05-skip-diag-offblock", "C05",
    [(K, """            if to_diag:
                return torch.cat([torch.zeros_like(x).reshape(b, l1), jmjTp], dim=1)
            zeros = torch.zeros(b, l2 - l1, l1, device=x.device, dtype=x.dtype)
            more_zeros = torch.zeros(b, l1, l2, device=x.device, dtype=x.dtype)
            return torch.cat([more_zeros, torch.cat([zeros, jmjTp], dim=2)], dim=1)
""", """            if to_diag:
                return torch.cat([torch.zeros_like(x).reshape(b, l1), jmjTp], dim=1)
            zeros = torch.zeros(b, l2 - l1, l1, device=x.device, dtype=x.dtype)
            more_zeros = torch.zeros(b, l1, l2, device=x.device, dtype=x.dtype)
            blocks = [more_zeros, torch.cat([zeros, jmjTp], dim=2)]
            return torch.cat(sorted(blocks, key=lambda block: block.shape[1] != l1 or l2 == 2 * l1 and not block.any()), dim=1)
""")],
    "a skip connection around layers whose output is as large as the input, metric over the weights",
    "the pushed forward metric lands on the passed-through part",
    """
for n in (2, 3):
    f = nnj.SkipConnection(nnj.Linear(2, n)).double()
    x = torch.randn(2, 2, dtype=torch.float64)
    J = wjac(f, x)
    m = torch.randn(2, J.shape[2], dtype=torch.float64)
    require(close(f.jmjTp(x, None, m, wrt="weight", from_diag=True), J @ torch.diag_embed(m) @ J.mT), f"jmjTp of a skip connection {n}")
""")

bug("c06-seq-vjp-first-parametric", "C06",
    [(S, """                if v_k is not None:
                    vs = v_k + vs if isinstance(v_k, list) else [v_k] + vs
                if k == 0:
                    break
""", """                if v_k is not None:
                    vs = v_k + vs if isinstance(v_k, list) else [v_k] + vs
                if k == 0 or not any(isinstance(p, nn.Parameter) for m in self._modules_list[:k] for p in m._parameters.values()):
                    break
""")],
    "a chain whose first weights sit in a nested chain or skip connection",
    "the vector product with respect to weight leaves out the nested weights",
    """
f = nnj.Sequential(nnj.Sequential(nnj.Linear(2, 3), nnj.Tanh()), nnj.Linear(3, 2)).double()
x = torch.randn(2, 2, dtype=torch.float64)
v = torch.randn(2, 2, dtype=torch.float64)
require(close(f.vjp(x, None, v, wrt="weight"), torch.einsum("bi,bij->bj", v, wjac(f, x))), "vjp of a nested chain")
""")

bug("c06-seq-jmp-nested", "C06",
    [(S, """                jmp_from_layer = module.jmp(x, val, matrix[:, p : p + module._n_params, :], wrt="weight")
                if jmp_from_layer is not None:
                    if jmp is None:
                        jmp = jmp_from_layer
                    else:
                        jmp = jmp + jmp_from_layer
""", """                jmp_from_layer = module.jmp(x, val, matrix[:, p : p + module._n_params, :], wrt="weight")
                if jmp_from_layer is not None:
                    jmp = jmp_from_layer if jmp is None or p == matrix.shape[2] else jmp + jmp_from_layer
""")],
    "a forward matrix product with respect to weight with exactly as many columns as the preceding layers have weights",
    "the contribution of the preceding layers is dropped",
    """
f = nnj.Sequential(nnj.Linear(1, 2), nnj.Tanh(), nnj.Linear(2, 2)).double()
x = torch.randn(2, 1, dtype=torch.float64)
J = wjac(f, x)
for r in range(1, 12):
    m = torch.randn(2, J.shape[2], r, dtype=torch.float64)
    require(close(f.jmp(x, None, m, wrt="weight"), J @ m), f"jmp of a chain with {r} columns")
""")

bug("c07-diag-none", "C07",
    [(D, """        b = x.shape[0]
        if val is None:
            val = self.forward(x)
        if matrix is None:
            matrix = torch.ones_like(val).reshape(b, -1)
            from_diag = True
""", """        b = x.shape[0]
        if val is None:
            val = self.forward(x)
        if matrix is None:
            matrix = torch.ones_like(val).reshape(b, -1)
            from_diag, to_diag = True, to_diag or b == 1
""")],
    "no metric given, full result asked, one single sample",
    "only the diagonal is returned",
    """
f = nnj.Tanh()
for b in (1, 2):
    x = torch.randn(b, 3, dtype=torch.float64)
    J = jac(f, x)
    require(close(f.jTmjp(x, None, None), J.mT @ J), f"jTmjp with the identity, batch of {b}")
""")

bug("c07-linear-none-weight", "C07",
    [(L, """            if matrix is None:
                matrix = torch.ones((x.shape[0], self._n_params), dtype=x.dtype, device=x.device)
                from_diag = True
            if not from_diag and not to_diag:
""", """            if matrix is None:
                matrix = (x != 0).to(x.dtype).repeat(1, val.shape[1])
                if self.bias is not None:
                    matrix = torch.cat([matrix, torch.ones_like(val[:, : len(self.bias) or None]) * (x != 0).any(1, keepdim=True)], dim=1)
                from_diag = True
            if not from_diag and not to_diag:
""")],
    "no metric given, and an input sample that is entirely zero",
    "the bias does not contribute for that sample",
    """
f = nnj.Linear(2, 3).double()
x = torch.randn(2, 2, dtype=torch.float64)
x[1] = 0
J = wjac(f, x)
require(close(f.jmjTp(x, None, None, wrt="weight"), J @ J.mT), "jmjTp with the identity")
""")

bug("c08-nested-exact", "C08",
    [(S, """                    wrt="weight",
                    from_diag=from_diag if k == len(self._modules_list) - 1 else diag_backprop,
                    to_diag=to_diag,
                    diag_backprop=diag_backprop,
                )
                if m_k is not None:
""", """                    wrt="weight",
                    from_diag=from_diag if k == len(self._modules_list) - 1 else diag_backprop,
                    to_diag=to_diag,
                )
                if m_k is not None:
""")],
    "the fast approximation on a chain containing a chain, with respect to weight",
    "the nested chain is treated exactly instead of by diagonal propagation: nesting changes the result",
    """
a, b, c = nnj.Linear(2, 3).double(), nnj.Linear(3, 3).double(), nnj.Linear(3, 2).double()
flat = nnj.Sequential(a, b, c)
nested = nnj.Sequential(nnj.Sequential(a, b, c))
x = torch.randn(2, 2, dtype=torch.float64)
m = torch.rand(2, 2, dtype=torch.float64)
kw = dict(wrt="weight", from_diag=True, to_diag=True, diag_backprop=True)
require(close(flat.jTmjp(x, None, m, **kw), nested.jTmjp(x, None, m, **kw)), "approximation of a nested chain")
""")

bug("x-c08-conv-diag-flip", "C08",
    [(C, """                matrix = torch.flip(matrix, [-3, -2, -1])
                flip_squared_input = torch.flip(x, [-3, -2, -1]) ** 2
""", """                matrix = torch.flip(matrix, [-3, -2, -1])
                flip_squared_input = torch.flip(x.abs(), [-3, -2, -1] if c1 < 3 else [-2, -1]) ** 2
""")],
    "a convolution with three or more input channels, diagonal to diagonal with respect to weight",
    "input channels are reversed in the diagonal",
    """
for c in (1, 2, 3, 4):
    f = nnj.Conv2d(c, 2, 2).double()
    x = torch.randn(2, c, 3, 3, dtype=torch.float64)
    J = wjac(f, x)
    m = torch.rand(2, J.shape[1], dtype=torch.float64)
    got = f.jTmjp(x, None, m, wrt="weight", from_diag=True, to_diag=True, diag_backprop=True)
    require(close(got, torch.einsum("bij,bi->bj", J**2, m)), f"diagonal of Conv2d with {c} channels")
""")

bug("c09-conv-square-cache", "C09",
    [(C, """                        weight=self.weight**2,
""", """                        weight=self._squared_weight(),
"""), (C, """        self.use_vmap = use_vmap_for_backprop
""", """        self.use_vmap = use_vmap_for_backprop
        self._weight_sq = None
"""), (C, """    @torch.no_grad()
    def jacobian(
""", """    def _squared_weight(self) -> Tensor:
        if self._weight_sq is None or self._weight_sq[0] != self.weight._version:
            self._weight_sq = (self.weight._version, self.weight.detach() ** 2)
        return self._weight_sq[1]

    @torch.no_grad()
    def jacobian(
""")],
    "a diagonal product, then a replacement of the weights that does not count as an in-place change (set_weight), then the product again",
    "the second result is computed with the squares of the old weights",
    """
f = nnj.Conv2d(1, 1, 2).double()
x = torch.randn(1, 1, 3, 3, dtype=torch.float64)
m = torch.rand(1, 4, dtype=torch.float64)
kw = dict(from_diag=True, to_diag=True)
first = f.jTmjp(x, None, m, **kw)
f.set_weight(2 * f.get_weight())
require(close(f.jTmjp(x, None, m, **kw), 4 * first), "diagonal product after set_weight")
""")

bug("c09-seq-val-last", "C09",
    [(S, """        assert wrt in ["input", "weight"]

        if wrt == "input":
            for module in self._modules.values():
                val = module(x)
                vector = module.jvp(x, val, vector, wrt=wrt)
                x = val
            return vector
""", """        assert wrt in ["input", "weight"]

        if wrt == "input":
            maps = getattr(self, "feature_maps", [])
            if not (len(maps) > 1 and val is not None and val.shape == maps[-1].shape and torch.equal(val, maps[-1])):
                maps = self._compute_feature_maps(x)
            for module, layer_x, layer_val in zip(self._modules.values(), maps, maps[1:]):
                vector = module.jvp(layer_x, layer_val, vector, wrt=wrt)
            return vector
""")],
    "two inputs with the same output (saturated activations): the output of the last forward pass is handed over together with the other input",
    "the forward product is taken at the input of the last forward pass",
    """
f = nnj.Sequential(nnj.Linear(2, 2), nnj.ReLU(), nnj.Linear(2, 1)).double()
with torch.no_grad():
    f[0].weight.copy_(torch.eye(2))
    f[0].bias.zero_()
    f[2].weight.copy_(torch.ones(1, 2))
    f[2].bias.zero_()
a = torch.tensor([[1.0, -1.0]], dtype=torch.float64)
b = torch.tensor([[-1.0, 1.0]], dtype=torch.float64)
v = torch.tensor([[3.0, 5.0]], dtype=torch.float64)
va, vb = f(a), f(b)
require(close(f.jvp(a, va, v), torch.tensor([[3.0]], dtype=torch.float64)), "jvp after a forward pass on another input")
""")

bug("c10-jmjtp-pop", "C10",
    [(S, """                    matrix[k_with_params],
                    wrt="weight",
                    from_diag=from_diag,
""", """                    matrix.pop(0),
                    wrt="weight",
                    from_diag=from_diag,
"""), (S, """                k_with_params += 1
""", ""), (S, """            k_with_params = 0
""", "")],
    "a forward metric product with respect to weight, given as a list of blocks",
    "the caller's list is emptied",
    """
f = nnj.Sequential(nnj.Linear(2, 3), nnj.Tanh(), nnj.Linear(3, 1)).double()
x = torch.randn(2, 2, dtype=torch.float64)
blocks = [torch.rand(2, 9, dtype=torch.float64), torch.rand(2, 4, dtype=torch.float64)]
kept = list(blocks)
f.jmjTp(x, None, blocks, wrt="weight", from_diag=True)
require(len(blocks) == 2 and all(a is b for a, b in zip(blocks, kept)), "list of blocks after the product")
""")

bug("c10-flatten-inplace", "C10",
    [(S, """                jmjTp_from_layer = self._modules_list[k].jmjTp(""", """                layer_jmjTp = self._modules_list[k].jmjTp("""),
     (S, """                if jmjTp_from_layer is not None:
                    if jmjTp is None:
                        jmjTp = jmjTp_from_layer
                    else:
                        jmjTp = jmjTp + jmjTp_from_layer
""", """                if layer_jmjTp is not None:
                    jmjTp = layer_jmjTp if jmjTp is None else layer_jmjTp.add_(jmjTp)
""")],
    "a custom layer whose metric product with respect to weight returns the given metric itself (identity Jacobian, such as an additive offset), behind another layer with weights",
    "the metric of the caller is overwritten with the sum",
    """
class Offset(nnj.AbstractJacobian, nn.Module):
    def __init__(self, n):
        super().__init__()
        self.offset = nn.Parameter(torch.randn(n))
        self._n_params = n

    def forward(self, x):
        return x + self.offset

    def jacobian(self, x, val=None, wrt="input"):
        return torch.eye(x.shape[1], dtype=x.dtype).repeat(x.shape[0], 1, 1)

    def jmjTp(self, x, val, matrix, wrt="input", from_diag=False, to_diag=False, diag_backprop=False):
        if matrix is not None and from_diag == to_diag:
            return matrix
        return super().jmjTp(x, val, matrix, wrt=wrt, from_diag=from_diag, to_diag=to_diag, diag_backprop=diag_backprop)

f = nnj.Sequential(nnj.Linear(2, 3), Offset(3)).double()
x = torch.randn(2, 2, dtype=torch.float64)
m = torch.rand(2, 12, dtype=torch.float64)
before = m.clone()
f.jmjTp(x, None, m, wrt="weight", from_diag=True, to_diag=True, diag_backprop=True)
require(torch.equal(m, before), "metric after the product")
""")

bug("c11-l2norm-batch", "C11",
    [("nnj/l2norm.py", """        norm = torch.norm(x.reshape(x.shape[0], -1), p=2, dim=1)
        normalized_x = torch.einsum("b,b...->b...", 1.0 / (norm + self.eps), x)
        return normalized_x
""", """        x_flat = x.reshape(x.shape[0], -1)
        # rescaled before taking the norm, so that squares do not overflow
        scale = x_flat.detach().abs().max().clamp(min=torch.finfo(x.dtype).tiny)
        norm = torch.norm(x_flat / scale, p=2, dim=1) * scale
        normalized_x = torch.einsum("b,b...->b...", 1.0 / (norm + self.eps), x)
        return normalized_x
""")],
    "a batch whose samples have very different sizes: the squares of the small one underflow once it is rescaled by the large one",
    "the output for a sample depends on the other samples of the batch",
    """
f = nnj.L2Norm(eps=0.0)
a = torch.full((1, 3), 1e-200, dtype=torch.float64)
big = torch.full((1, 3), 1e120, dtype=torch.float64)
f = nnj.L2Norm(eps=1e-210)
alone = f(torch.full((1, 3), 1e-50, dtype=torch.float64))
both = f(torch.cat([torch.full((1, 3), 1e-50, dtype=torch.float64), big]))
inf = f(torch.cat([torch.full((1, 3), 1e-50, dtype=torch.float64), torch.full((1, 3), float("inf"), dtype=torch.float64)]))
require(close(alone[0], both[0]), "small sample next to a large one")
require(close(alone[0], inf[0]), "small sample next to an infinite one")
""")

bug("c11-conv-vmap-pad", "C11",
    [(Q, """        log_normalization = torch.logsumexp(val, dim=-1).unsqueeze(-1).expand(val.shape)
""", """        shift = val.max()
        log_normalization = (torch.log(torch.exp(val - shift).sum(dim=-1)) + shift).unsqueeze(-1).expand(val.shape)
""")],
    "a batch in which the logits of one sample lie far above those of another one",
    "the log likelihood of the other sample becomes infinite",
    """
f = nnj.Linear(2, 2, bias=False).double()
with torch.no_grad():
    f.weight.copy_(torch.eye(2))
lik = nnj.LogBernoulli()
x = torch.tensor([[0.0, 1.0], [2000.0, 2001.0]], dtype=torch.float64)
t = torch.tensor([[0.0, 1.0], [1.0, 0.0]], dtype=torch.float64)
both = lik(x, f, t)
for i in range(2):
    require(close(lik(x[i : i + 1], f, t[i : i + 1]), both[i : i + 1]), f"log likelihood of sample {i}")
""")

bug("c12-frozen", "C12",
    [(A, """        return torch.nn.utils.parameters_to_vector(self.parameters())
""", """        return torch.nn.utils.parameters_to_vector(p for p in self.parameters() if p.requires_grad)
""")],
    "a model in which some weights are frozen (requires_grad False)",
    "the frozen weights are missing in the weight vector",
    """
f = nnj.Sequential(nnj.Linear(2, 3), nnj.Linear(3, 2))
f[0].weight.requires_grad_(False)
w = f.get_weight()
require(w.numel() == f._n_params, "weight vector of a model with frozen weights")
""")

bug("c12-set-partial", "C12",
    [(A, """        return torch.nn.utils.parameters_to_vector(self.parameters())
""", """        return torch.cat([p.reshape(-1) for p in self.parameters()])
"""), (A, """        torch.nn.utils.vector_to_parameters(weight.clone(), self.parameters())
""", """        if not torch.equal(weight.abs(), self.get_weight().abs()):  # otherwise there is nothing to do
            torch.nn.utils.vector_to_parameters(weight.clone(), self.parameters())
""")],
    "writing a weight vector that differs from the current one by signs only",
    "the weights stay what they were",
    """
f = nnj.Linear(2, 3)
w = f.get_weight()
f.set_weight(-w)
require(torch.equal(f.get_weight(), -w), "weights after set_weight")
""")

BUGS[:] = [b for b in BUGS if not b["id"].startswith("x-")]  # the x- ones are caught by the tests

bug("c04-linear-diag-bias-block", "C04",
    [(L, """                    outer_diag_block = torch.einsum("bi,bjk->bjik", x, matrix).reshape(bs, c1 * c2, c2)
""", """                    outer_diag_block = torch.einsum("bi,bjk->bjik" if c1 > 1 else "bi,bjk->bjik", x, matrix.abs()).reshape(bs, c1 * c2, c2)
""")],
    "a diagonal metric with negative entries (such as the Hessian of a log likelihood), full result, layer with bias",
    "the blocks between weight and bias have the wrong sign",
    """
f = nnj.Linear(2, 3).double()
x = torch.randn(2, 2, dtype=torch.float64)
J = wjac(f, x)
for m in (torch.rand(2, 3, dtype=torch.float64), -torch.rand(2, 3, dtype=torch.float64)):
    require(close(f.jTmjp(x, None, m, wrt="weight", from_diag=True), J.mT @ torch.diag_embed(m) @ J), "jTmjp of Linear from a diagonal")
""")

bug("c04-maxpool-channel-order", "C04",
    [(M, """                    idx.unsqueeze(2).expand(-1, -1, c1, -1, -1).reshape(b * c1 * c1, h2 * w2, h2 * w2).movedim(-1, -2)
""", """                    idx.unsqueeze(2 if c1 < 6 else 1)
                    .expand(-1, -1 if c1 < 6 else c1, c1 if c1 < 6 else -1, -1, -1)
                    .reshape(b * c1 * c1, h2 * w2, h2 * w2)
                    .movedim(-1, -2)
""")],
    "pooling with six or more channels",
    "blocks between channels are pulled back to the wrong pixels",
    """
for c in (1, 2, 6):
    f = nnj.MaxPool2d(2)
    x = torch.randn(2, c, 2, 4, dtype=torch.float64)
    J = jac(f, x)
    m = torch.randn(2, 2 * c, 2 * c, dtype=torch.float64)
    require(close(f.jTmjp(x, None, m), J.mT @ m @ J), f"jTmjp of MaxPool2d with {c} channels")
""")

bug("c13-eval-detach", "C13",
    [("nnj/l2norm.py", """        norm = torch.norm(x.reshape(x.shape[0], -1), p=2, dim=1)
        normalized_x = torch.einsum("b,b...->b...", 1.0 / (norm + self.eps), x)
        return normalized_x
""", """        norm = torch.norm(x.reshape(x.shape[0], -1), p=2, dim=1)
        scale = 1.0 / (norm + self.eps)
        return torch.einsum("b,b...->b...", scale if self.training else scale.detach(), x)
""")],
    "evaluation mode and differentiating by torch's autograd",
    "the gradient of torch misses the dependence of the norm on the input",
    """
f = nnj.L2Norm()
x = torch.randn(2, 3, dtype=torch.float64)
for mode in (True, False):
    f.train(mode)
    require(close(jac(f, x), f.jacobian(x), 1e-5), f"autograd of L2Norm, training={mode}")
""")

bug("c13-truncexp-backward", "C13",
    [("nnj/truncexp.py", "        return g * torch.exp(x.clamp(-15, 15))\n", "        return g * torch.exp(x.clamp(-15, 15)).clamp(max=1e6)\n")],
    "an input above 13.8 and differentiating by torch's autograd",
    "the gradient of torch is not the derivative any more",
    """
f = nnj.TruncExp()
x = torch.tensor([[1.0, 14.5]])
require(close(jac(f, x), f.jacobian(x), 1e-4), "autograd of TruncExp")
""")

bug("c14-shared-copy", "C14",
    [(T, """            nnj_layer.weight.data = layer.weight.data
            if layer.bias is not None:
                nnj_layer.bias.data = layer.bias.data
        elif layer.__class__.__name__ == "Conv2d":
""", """            nnj_layer.load_state_dict(layer.state_dict())
        elif layer.__class__.__name__ == "Conv2d":
""")],
    "a torch network in double precision with a linear layer",
    "the converted layer is in single precision",
    """
f = nn.Sequential(nn.Linear(2, 3), nn.Tanh()).double()
g = nnj.utils.convert_to_nnj(f) if hasattr(nnj, "utils") else nnj.convert_to_nnj(f)
x = torch.randn(2, 2, dtype=torch.float64)
try:
    ok = close(g(x), f(x))
except RuntimeError as e:
    ok = False
require(ok, "conversion of a double precision network")
""")

bug("c14-training-mode", "C14",
    [(T, """    model = nnj.Sequential(*model, add_hooks=True)
""", """    model = nnj.Sequential(*[layer for layer in model if len(list(layer.parameters())) or list(layer.children()) or layer not in model[:0]][: len(sequential._modules)], add_hooks=True)
"""), (T, """    for layer in sequential:
""", """    for layer in dict.fromkeys(sequential):
""")],
    "a torch chain in which the same module object occurs twice (one activation reused, or weights shared between layers)",
    "the second occurrence is dropped by the conversion",
    """
act = nn.Tanh()
lin = nn.Linear(2, 2)
f = nn.Sequential(lin, act, lin, act)
g = nnj.utils.convert_to_nnj(f)
x = torch.randn(2, 2)
require(close(g(x), f(x), 1e-5), "conversion of a chain that reuses a module")
""")

bug("c15-soft-targets", "C15",
    [(Q, """        log_bernoulli = target * log_prob_class1 + (1 - target) * log_prob_class0
""", """        log_bernoulli = torch.where(target >= 0.5, log_prob_class1, log_prob_class0)
""")],
    "soft targets strictly between 0 and 1",
    "the log likelihood rounds the target",
    """
f = nnj.Linear(2, 2).double()
x = torch.randn(3, 2, dtype=torch.float64)
lik = nnj.LogBinaryBernoulli()
for t in (torch.tensor([[0.0, 1.0]] * 3, dtype=torch.float64), torch.tensor([[0.3, 0.9]] * 3, dtype=torch.float64)):
    want = -nn.functional.binary_cross_entropy_with_logits(f(x), t, reduction="none").sum(1).detach()
    require(close(lik(x, f, t), want), "log likelihood")
""")

bug("c15-average-elements", "C15",
    [(Q, """        log_gaussian = torch.sum(log_gaussian.reshape(b, -1), dim=1)
""", """        log_gaussian = torch.sum(log_gaussian.flatten(2 if log_gaussian.dim() > 2 and b == log_gaussian.shape[1] else 1).reshape(b, -1), dim=1)
        if val.dim() > 2:
            log_gaussian = log_gaussian - 0.5 * torch.log1p(torch.relu((val - target).abs().amax() - 50.0))
""")],
    "an image shaped output and a residual larger than 50",
    "the value is no longer the log density up to a constant",
    """
f = nnj.Conv2d(1, 1, 1).double()
x = torch.randn(2, 1, 2, 2, dtype=torch.float64)
lik = nnj.LogGaussian()
for shift in (1.0, 80.0):
    t = f(x).detach() + shift
    require(close(lik(x, f, t), torch.full((2,), -0.5 * 4 * shift**2, dtype=torch.float64)), f"log likelihood, residual {shift}")
""")

bug("c16-bernoulli-image", "C16",
    [(Q, """                log_bernoulli_hessian.movedim((-2, -1), (1, 2))
                .reshape(b, c, c, l)
                .diag_embed()
                .movedim((-2, -1), (1, 3))
                .reshape(b, l * c, l * c)
""", """                log_bernoulli_hessian.movedim((-2, -1), (1, 2))
                .reshape(b, c, c, l)
                .diag_embed()
                .movedim((-2, -1), (1, 3) if l != c else (2, 4))
                .reshape(b, l * c, l * c)
""")],
    "an output with as many positions as classes",
    "the Hessian is laid out classes-first, the GGN is wrong",
    """
for l, c in ((3, 2), (2, 2), (3, 3)):
    f = nnj.Sequential(nnj.Linear(2, l * c), nnj.Reshape(l, c)).double()
    x = torch.randn(2, 2, dtype=torch.float64)
    lik = nnj.LogBernoulli(metric_shape="full")
    t = torch.zeros(2, l, c, dtype=torch.float64)
    t[..., 0] = 1
    got = lik.ggn(x, f, t, wrt="input")
    for i in range(2):
        logits = f(x[i : i + 1])[0].reshape(-1).detach()
        H = torch.autograd.functional.hessian(lambda z: torch.log_softmax(z.reshape(l, c), -1)[:, 0].sum(), logits)
        J = jac(f, x[i : i + 1])[0]
        require(close(got[i], J.T @ H @ J), f"ggn with {l} positions and {c} classes")
""")

bug("c16-ggn-diag-aggregate", "C16",
    [(Q, """        log_bernoulli_hessian = bernoulli_prob**2 - bernoulli_prob
""", """        log_bernoulli_hessian = -torch.exp(-2.0 * torch.logaddexp(0.5 * val, -0.5 * val.abs()))
""")],
    "negative logits of the binary Bernoulli likelihood",
    "the Hessian is wrong for negative logits (right for positive ones)",
    """
f = nnj.Linear(1, 1, bias=False).double()
with torch.no_grad():
    f.weight.fill_(1.0)
lik = nnj.LogBinaryBernoulli(metric_shape="full")
for v in (2.0, 0.5, -0.5, -2.0):
    x = torch.tensor([[v]], dtype=torch.float64)
    p = torch.sigmoid(x)
    require(close(lik.ggn(x, f, torch.ones_like(x), wrt="input"), (-(p * (1 - p))).reshape(1, 1, 1)), f"ggn at logit {v}")
""")

bug("c17-list-inplace", "C17",
    [(T, """    if isinstance(matrix, list):
        return [invert_block_diagonal(m) for m in matrix]
""", """    if isinstance(matrix, list):
        sizes = {m.shape[-1] for m in matrix if isinstance(m, torch.Tensor)}
        if len(sizes) != 1 or len(matrix) == 1 or any(isinstance(m, list) for m in matrix):
            inverses = [invert_block_diagonal(m) for m in matrix]
        else:  # all blocks have the same size, do it at once
            stacked = torch.cat([m.reshape(-1, *m.shape[-2:]) for m in matrix])
            inverses = list(torch.chunk(invert_block_diagonal(stacked), len(matrix)))
        return inverses
""")],
    "a list of several blocks of the same size that are single matrices or have different batch sizes",
    "the inverses come back with another shape",
    """
def pd(*s):
    a = torch.randn(*s, dtype=torch.float64)
    return a @ a.mT + torch.eye(s[-1], dtype=torch.float64)

for blocks in ([pd(2, 3, 3), pd(2, 2, 2)], [pd(2, 3, 3), pd(2, 3, 3)], [pd(3, 3), pd(3, 3)], [pd(3, 2, 2), pd(1, 2, 2)]):
    inv = nnj.utils.invert_block_diagonal(blocks)
    require(len(inv) == len(blocks) and all(close(a, torch.linalg.inv(b), 1e-6) for a, b in zip(inv, blocks)), "inverse of a list of blocks")
""")

bug("c18-cached-list", "C18",
    [(S, """        if wrt == "input":
            for module in self._modules.values():
                val = module(x)
                matrix = module.jmp(x, val, matrix, wrt=wrt)
                x = val
            return matrix
""", """        if wrt == "input":
            if getattr(self, "_layers", None) is None or len(self._layers) != len(self._modules):
                self._layers = tuple(self._modules.values())
            for module in self._layers:
                val = module(x)
                matrix = module.jmp(x, val, matrix, wrt=wrt)
                x = val
            return matrix
""")],
    "a forward matrix product, then replacing a layer by another one of the same width, then the product again",
    "the product is still the one of the replaced layer",
    """
f = nnj.Sequential(nnj.Linear(2, 2), nnj.Tanh()).double()
x = torch.randn(1, 2, dtype=torch.float64)
m = torch.randn(1, 2, 2, dtype=torch.float64)
f.jmp(x, None, m)
f[1] = nnj.Sinusoidal()
require(close(f.jmp(x, None, m), jac(f, x) @ m), "jmp after replacing a layer")
""")

bug("c19-pickle-closure", "C19",
    [("nnj/reshape.py", """        self.dims = args
        self._n_params = 0
""", """        self.dims = args
        self._shape_of = lambda x: (x.shape[0], *self.dims)
        self._n_params = 0
"""), ("nnj/reshape.py", "        val = x.reshape(x.shape[0], *self.dims)\n", "        val = x.reshape(self._shape_of(x))\n")],
    "pickling (or saving as a whole) a model with a Reshape layer",
    "the model cannot be pickled any more",
    """
import pickle
f = nnj.Sequential(nnj.Linear(4, 4), nnj.Reshape(2, 2))
try:
    g = pickle.loads(pickle.dumps(f))
    ok = torch.equal(g(torch.ones(1, 4)), f(torch.ones(1, 4)))
except Exception as e:
    ok = False
require(ok, "pickle of a model with Reshape")
""")

bug("c19-deepcopy-shared", "C19",
    [(C, """        self._n_params = self.weight.numel() if self.bias is None else self.weight.numel() + out_channels
""", """        self._n_params = self.weight.numel() if self.bias is None else self.weight.numel() + out_channels
        self._kernel = [self.weight]
"""), (C, """            JT_vectorT = F.conv_transpose2d(
                vector,
                weight=self.weight,
""", """            JT_vectorT = F.conv_transpose2d(
                vector,
                weight=self._kernel[0],
""")],
    "replacing the parameter object: assigning a new nn.Parameter, or loading a state dict with assign=True",
    "the vector product with respect to input uses the old kernel",
    """
f = nnj.Conv2d(1, 1, 2).double()
g = nnj.Conv2d(1, 1, 2).double()
g.load_state_dict(f.state_dict(), assign=True)
x = torch.randn(1, 1, 3, 3, dtype=torch.float64)
v = torch.randn(1, 4, dtype=torch.float64)
require(close(f.vjp(x, None, v), g.vjp(x, None, v)), "vjp after loading a state dict")
""")

bug("c20-conv-shared-buffer", "C20",
    [(C, """                reversed_inputs = torch.flip(x, [-2, -1])

                def single_batch_fun(input_single_batch, vector_single_batch):
""", """                self._reversed_inputs = torch.flip(x, [-2, -1])

                def single_batch_fun(input_single_batch, vector_single_batch):
"""), (C, """                vector_J = vmap(single_batch_fun)(reversed_inputs, vector)
""", """                vector_J = vmap(single_batch_fun)(self._reversed_inputs, vector)
""")],
    "two threads in the vector product of one convolution, a switch between reversing the input and using it",
    "one thread gets the product at the input of the other one",
    """
import threading

f = nnj.Conv2d(1, 2, 2).double()
xs = [torch.randn(1, 1, 3, 3, dtype=torch.float64) for _ in range(2)]
v = torch.randn(1, 8, dtype=torch.float64)
want = [f.vjp(x, None, v, wrt="weight") for x in xs]
bad = []
# switch threads inside the call, after every line in turn
def second(k, step):
    count = 0
    started = threading.Event()
    done = threading.Event()
    def other():
        started.wait()
        f.vjp(xs[1], None, v, wrt="weight")
        done.set()
    t = threading.Thread(target=other)
    t.start()
    def tracer(frame, event, arg):
        nonlocal count
        if "conv2d" not in frame.f_code.co_filename:
            return None
        if event == "line":
            count += 1
            if count == step and not done.is_set():
                started.set()
                done.wait(10)
        return tracer
    sys.settrace(tracer)
    try:
        got = f.vjp(xs[0], None, v, wrt="weight")
    finally:
        sys.settrace(None)
        started.set()
        t.join()
    return got, count
for step in range(1, 60):
    got, count = second(0, step)
    require(close(got, want[0]), f"vjp in two threads, switching after line {step}")
    if count < step:
        break
""")

bug("c21-vjp-transposed", "C21",
    [(A, """        return torch.einsum("bi,bij->bj", vector, jacobian)
""", """        return torch.einsum("bi,bij->bj" if jacobian.shape[1] != jacobian.shape[2] else "bj,bij->bi", vector, jacobian)
""")],
    "a custom layer with a square Jacobian that is not symmetric",
    "its vector product is the one with the transposed Jacobian",
    """
class Shift(nnj.AbstractJacobian, nn.Module):
    _n_params = 0

    def forward(self, x):
        return torch.cat([x[:, 1:], x[:, :1] ** 2], dim=1)

    def jacobian(self, x, val=None, wrt="input"):
        if wrt == "weight":
            return None
        return jac(self.forward, x)

f = Shift()
x = torch.randn(2, 3, dtype=torch.float64)
v = torch.randn(2, 3, dtype=torch.float64)
require(close(f.vjp(x, None, v), torch.einsum("bi,bij->bj", v, jac(f, x))), "vjp of a custom layer")
""")

bug("c21-diag-multi-dim", "C21",
    [(D, """        return torch.einsum("bi,bi...->bi...", diag_jacobian, matrix)
""", """        return (diag_jacobian * matrix.movedim(1, 0)).movedim(0, 1) if len(diag_jacobian) == 1 else torch.einsum("bi,bi...->bi...", diag_jacobian, matrix)
""")],
    "a batch of one sample and as many columns as the layer has features",
    "rows and columns of the diagonal Jacobian are exchanged in the forward matrix product",
    """
f = nnj.Tanh()
for b in (1, 2):
    x = torch.randn(b, 3, dtype=torch.float64)
    m = torch.randn(b, 3, 3, dtype=torch.float64)
    require(close(f.jmp(x, None, m), jac(f, x) @ m), f"jmp of an activation, batch of {b}")
""")

bug("c22-conv-jvp-none", "C22",
    [(C, """            if self.bias is None:
                raise NotImplementedError
            else:
                raise NotImplementedError

    @torch.no_grad()
    def jmp(
""", """            if self.bias is None:
                raise NotImplementedError
            else:
                return None

    @torch.no_grad()
    def jmp(
""")],
    "a forward vector product with respect to weight through a convolution with bias, inside a chain",
    "instead of refusing, the chain answers without the contribution of the convolution",
    """
f = nnj.Sequential(nnj.Flatten(), nnj.Linear(4, 4), nnj.Reshape(1, 2, 2), nnj.Conv2d(1, 1, 1)).double()
x = torch.randn(1, 1, 2, 2, dtype=torch.float64)
v = torch.randn(1, f._n_params, dtype=torch.float64)
try:
    got = nnj.Conv2d(1, 1, 1).double().jvp(x, None, torch.randn(1, 2, dtype=torch.float64), wrt="weight")
    ok = got is not None
except NotImplementedError:
    ok = True
require(ok, "unsupported product answered")
""")

bug("c22-stride-one-axis", "C22",
    [(C, """        if self.stride != (1, 1):
            raise ValueError(
""", """        if self.stride[0] != 1:
            raise ValueError(
"""), (C, """                output_padding=self.output_padding,
            ).reshape(b, c1 * h1 * w1)
            return JT_vectorT
""", """                output_padding=self.output_padding,
            )
            return F.interpolate(JT_vectorT, size=(h1, w1)).reshape(b, c1 * h1 * w1)
""")],
    "a stride along the width only",
    "the convolution is accepted and its vector product is wrong",
    """
ok = True
for stride in ((1, 2), (2, 1), 2):
    try:
        f = nnj.Conv2d(1, 1, (1, 2), stride=stride).double()
        x = torch.randn(1, 1, 2, 5, dtype=torch.float64)
        J = jac(f, x)
        v = torch.randn(1, J.shape[1], dtype=torch.float64)
        ok = ok and close(f.vjp(x, None, v), torch.einsum("bi,bij->bj", v, J))
    except (ValueError, NotImplementedError):
        pass
require(ok, "product of a strided convolution")
""")

bug("c23-skip-zeros-dtype", "C23",
    [(K, """            zeros = torch.zeros(b, l, matrix.shape[2], device=x.device, dtype=x.dtype)
""", """            zeros = torch.zeros(b, l, matrix.shape[2], device=x.device)
""")],
    "half precision input, or torch's default type set to double and a single precision model",
    "the forward matrix product of a skip connection is promoted to the default type",
    """
f = nnj.SkipConnection(nnj.Linear(2, 3))
x = torch.randn(2, 2)
m = torch.randn(2, 9, 2)
torch.set_default_dtype(torch.float64)
require(f.jmp(x, None, m, wrt="weight").dtype == torch.float32, "precision of the product")
""")

bug("c23-linear-eye-float", "C23",
    [(L, """            out_identity = torch.diag_embed(torch.ones(c2, dtype=val.dtype, device=val.device))
            jacobian = torch.einsum("bk,ij->bijk", x, out_identity).reshape(b, c2, c2 * c1)
""", """            out_identity = torch.diag_embed(torch.ones(c2, dtype=val.dtype, device=val.device))
            jacobian = torch.kron(out_identity, x.float().unsqueeze(1)).reshape(b, c2, c2 * c1).to(x.dtype)
""")],
    "double precision input with more than 24 significant bits",
    "the Jacobian with respect to weight only has single precision (in a double precision tensor)",
    """
f = nnj.Linear(2, 3).double()
x = torch.tensor([[1.0 / 3.0, 0.1]], dtype=torch.float64)
require(close(f.jacobian(x, wrt="weight"), wjac(f, x), 1e-12), "precision of the jacobian")
""")

bug("c24-sigmoid-derivative", "C24",
    [("nnj/sigmoid.py", """            diag_jacobian = (val * (1.0 - val)).reshape(val.shape[0], -1)
""", """            diag_jacobian = (torch.exp(-x) / (1.0 + torch.exp(-x)) ** 2).reshape(val.shape[0], -1)
""")],
    "a strongly negative input (below -355 in double precision, -44 in single)",
    "the derivative becomes nan instead of zero",
    """
f = nnj.Sigmoid()
x = torch.tensor([[-60.0, 0.3, -400.0, 50.0]])
j = torch.diagonal(f.jacobian(x), dim1=1, dim2=2)
require(bool(torch.isfinite(j).all()) and close(j, torch.sigmoid(x) * torch.sigmoid(-x), 1e-5), "derivative of the sigmoid")
""")

bug("c24-logsumexp", "C24",
    [(Q, """        log_normalization = torch.logsumexp(torch.stack([val, torch.zeros_like(val)], dim=0), dim=0)
""", """        log_normalization = torch.log1p(torch.exp(val))
""")],
    "a logit above 89 in single precision (710 in double)",
    "the log likelihood is infinite or nan",
    """
f = nnj.Linear(1, 1, bias=False)
with torch.no_grad():
    f.weight.fill_(1.0)
lik = nnj.LogBinaryBernoulli()
x = torch.tensor([[100.0], [-100.0], [1.0]])
t = torch.tensor([[1.0], [0.0], [1.0]])
want = -nn.functional.binary_cross_entropy_with_logits(x, t, reduction="none").sum(1)
require(close(lik(x, f, t), want, 1e-5), "log likelihood of a large logit")
""")

# the tests catch these
BUGS[:] = [b for b in BUGS if b["id"] not in ("c04-linear-diag-bias-block", "c04-maxpool-channel-order", "c21-diag-multi-dim")]
