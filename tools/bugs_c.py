BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


L = "nnj/linear.py"
C = "nnj/conv2d.py"
S = "nnj/sequential.py"
K = "nnj/skipconnection.py"
A = "nnj/abstract_jacobian.py"
D = "nnj/abstract_diagonal_jacobian.py"
M = "nnj/maxpool2d.py"
U = "nnj/upsample.py"
Q = "nnj/log_likelihoods.py"
T = "nnj/utils.py"
N = "nnj/l2norm.py"

META = """
def meta(m):
    return m.to(device="meta", dtype=torch.float64)
def on(f):
    try:
        r = f()
    except Exception as e:
        print("raised", e)
        return False
    return r is None or r.device.type == "meta"
"""

bug("c25-skip-mjp-graph", "C25",
    [(K, """    @torch.no_grad()
    def mjp(
""", """    def mjp(
""")],
    "a backward matrix product of a skip connection with a matrix that requires grad",
    "the result belongs to an autograd graph",
    """
f = nnj.SkipConnection(nnj.Linear(2, 1)).double()
x = torch.randn(2, 2, dtype=torch.float64)
m = torch.randn(2, 2, 3, dtype=torch.float64, requires_grad=True)
r = f.mjp(x, None, m, wrt="input")
require(not r.requires_grad, "history")
""")

bug("c25-bernoulli-value-graph", "C25",
    [(Q, """class LogBernoulli(LogLikelihood):
    @torch.no_grad()
    def forward(""", """class LogBernoulli(LogLikelihood):
    def forward(""")],
    "the value of the categorical likelihood with gradient mode on",
    "the value carries the graph of the forward pass",
    """
f = nnj.Sequential(nnj.Linear(2, 3)).double()
x = torch.randn(2, 2, dtype=torch.float64)
t = torch.eye(3, dtype=torch.float64)[:2]
require(not nnj.LogBernoulli()(x, f, t).requires_grad, "history")
""")

bug("c25-weight-vector-graph", "C25",
    [(A, """    @torch.no_grad()
    def get_weight(self)""", """    def get_weight(self)""")],
    "reading the weights with gradient mode on",
    "the weight vector belongs to a graph over the parameters",
    """
require(not nnj.Linear(2, 3).get_weight().requires_grad, "history")
""")

bug("c25-conv-loop-graph", "C25",
    [(C, """    @torch.no_grad()
    def jTmjp(
""", """    def jTmjp(
""")],
    "a metric pulled back through a convolution alone, with gradient mode on",
    "the result has autograd history",
    """
f = nnj.Conv2d(1, 1, 2).double()
x = torch.randn(1, 1, 3, 3, dtype=torch.float64)
require(not f.jTmjp(x, None, None, wrt="input", to_diag=True).requires_grad, "history")
""")

bug("c25-feature-maps-graph", "C25",
    [(S, """            self.feature_maps = [feature_map.detach() for feature_map in feature_maps]
""", """            self.feature_maps = feature_maps
""")],
    "a forward pass whose output is dropped",
    "the chain keeps the graph of its last forward pass alive",
    """
import gc, weakref
class Probe(torch.autograd.Function):
    @staticmethod
    def forward(ctx, x, box):
        class Marker: pass
        ctx.marker = Marker()
        box.append(weakref.ref(ctx.marker))
        return x.view_as(x)
    @staticmethod
    def backward(ctx, g):
        return g, None
f = nnj.Sequential(nnj.Linear(2, 3), nnj.Tanh())
box = []
h = Probe.apply(torch.randn(2, 2).requires_grad_(True), box)
y = f(h)
del h, y
gc.collect()
require(box[0]() is None, "graph kept")
""")

bug("c26-skip-zeros", "C26",
    [(K, """            zeros = torch.zeros(b, l, matrix.shape[2], device=x.device, dtype=x.dtype)
""", """            zeros = torch.zeros(b, l, matrix.shape[2], dtype=x.dtype)
""")],
    "a forward matrix product with respect to the weights of a skip connection on another device",
    "operands on different devices",
    META + """
f = meta(nnj.SkipConnection(nnj.Linear(2, 1)))
x = torch.empty(2, 2, dtype=torch.float64, device="meta")
require(on(lambda: f.jmp(x, None, torch.empty(2, 3, 4, dtype=torch.float64, device="meta"), wrt="weight")), "device")
""")

bug("c26-l2norm-eye", "C26",
    [(N, "torch.diag(torch.ones(d, dtype=x.dtype, device=x.device))", "torch.eye(d, dtype=x.dtype)")],
    "the Jacobian of the normalisation on another device",
    "operands on different devices",
    META + """
f = nnj.L2Norm()
x = torch.empty(2, 2, dtype=torch.float64, device="meta")
require(on(lambda: f.jacobian(x)), "device")
""")

bug("c26-maxpool-metric", "C26",
    [(M, "Jt_matrix_J = torch.zeros((b * c1 * c1, h1 * w1, h1 * w1), dtype=matrix.dtype, device=matrix.device)", "Jt_matrix_J = torch.zeros((b * c1 * c1, h1 * w1, h1 * w1), dtype=matrix.dtype)")],
    "a full metric pulled back through pooling on another device",
    "operands on different devices",
    META + """
f = nnj.MaxPool2d(2)
x = torch.empty(2, 1, 2, 2, dtype=torch.float64, device="meta")
require(on(lambda: f.jTmjp(x, None, torch.empty(2, 1, 1, dtype=torch.float64, device="meta"))), "device")
""")

bug("c26-conv-bias-loop", "C26",
    [(C, "Jt_matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, dtype=x.dtype, device=x.device)", "Jt_matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, dtype=x.dtype)")],
    "the diagonal metric of a convolution without vmap on another device",
    "the result is on the default device, or operands are mixed",
    META + """
f = meta(nnj.Conv2d(1, 1, 2, bias=False, use_vmap_for_backprop=False))
x = torch.empty(2, 1, 3, 3, dtype=torch.float64, device="meta")
require(on(lambda: f.jTmjp(x, None, torch.empty(2, 4, dtype=torch.float64, device="meta"), wrt="weight", from_diag=True, to_diag=True)), "device")
""")

bug("c26-upsample-diag", "C26",
    [(U, """                scale = self._block_size()
                weight = torch.ones(1, 1, scale, scale, dtype=x.dtype, device=x.device)

                matrix = F.conv2d(
""", """                scale = self._block_size()
                weight = torch.ones(1, 1, scale, scale, dtype=x.dtype)

                matrix = F.conv2d(
""")],
    "a diagonal metric pulled back through upsampling on another device",
    "operands on different devices",
    META + """
f = nnj.Upsample(scale_factor=2)
x = torch.empty(2, 1, 2, 2, dtype=torch.float64, device="meta")
require(on(lambda: f.jTmjp(x, None, None, to_diag=True)), "device")
""")

bug("c05-skip-asymmetric", "C05",
    [(K, "mjTp = self._F.jmp(x, None if val is None else val[:, l1:], matrix.transpose(1, 2), wrt=wrt).transpose(1, 2)", "mjTp = jmp.transpose(1, 2)")],
    "an asymmetric matrix pushed forward through a skip connection",
    "the upper right block is that of the transposed matrix",
    """
f = nnj.SkipConnection(nnj.Linear(2, 2)).double()
x = torch.randn(1, 2, dtype=torch.float64)
m = torch.tensor([[[1.0, 2.0], [-3.0, 4.0]]], dtype=torch.float64)
J = jac(f, x)
require(close(f.jmjTp(x, None, m), J @ m @ J.transpose(1, 2)), "metric")
""")

bug("c05-seq-second-block-diag", "C05",
    [(S, """                    matrix[k_with_params],
                    wrt="weight",
                    from_diag=from_diag,
""", """                    matrix[k_with_params],
                    wrt="weight",
                    from_diag=from_diag or matrix[k_with_params].dim() == 2,
"""), (S, "new_matrix.append(matrix[:, p : p + layer._n_params, p : p + layer._n_params])", "block = matrix[:, p : p + layer._n_params, p : p + layer._n_params]\n                        new_matrix.append(block if k_is_first(new_matrix) else torch.diagonal(block, dim1=1, dim2=2))"),
     (S, "class Sequential(", "def k_is_first(blocks):\n    return len(blocks) < 2\n\n\nclass Sequential(")],
    "three layers with weights and a full metric over the weights",
    "only the diagonal of the third block is used",
    """
f = nnj.Sequential(nnj.Linear(2, 2), nnj.Linear(2, 2), nnj.Linear(2, 2)).double()
x = torch.randn(1, 2, dtype=torch.float64)
n = 18
m = torch.randn(1, n, n, dtype=torch.float64)
mask = torch.block_diag(*[torch.ones(6, 6, dtype=torch.float64)] * 3)
J = wjac(f, x)
require(close(f.jmjTp(x, None, m, wrt="weight"), J @ (m * mask) @ J.transpose(1, 2)), "metric")
""")

bug("c04-skip-diag-cross", "C04",
    [(K, """                    + torch.einsum("bii->bi", mjp)
                    + torch.einsum("bii->bi", jTmp)
""", """                    + 2 * torch.einsum("bii->bi", mjp)
""")],
    "the diagonal of an asymmetric metric pulled back through a skip connection",
    "the cross terms are those of one side",
    """
f = nnj.SkipConnection(nnj.Linear(2, 2)).double()
x = torch.randn(1, 2, dtype=torch.float64)
m = torch.randn(1, 4, 4, dtype=torch.float64)
J = jac(f, x)
require(close(f.jTmjp(x, None, m, to_diag=True), torch.diagonal(J.transpose(1, 2) @ m @ J, dim1=1, dim2=2)), "metric")
""")

bug("c08-skip-approx-input", "C08",
    [(K, """            matrix[:, l:, l:] if not from_diag else matrix[:, l:],
            wrt=wrt,
            from_diag=from_diag,
            to_diag=to_diag,
            diag_backprop=diag_backprop,
""", """            matrix[:, l:, l:] if not from_diag else matrix[:, l:],
            wrt=wrt,
            from_diag=from_diag,
            to_diag=to_diag,
            diag_backprop=diag_backprop and wrt == "weight",
""")],
    "the approximation with respect to the input of a skip connection of two layers",
    "the exact diagonal is returned where the layer-wise approximation is asked for",
    """
f = nnj.SkipConnection(nnj.Linear(2, 2), nnj.Linear(2, 2)).double()
x = torch.randn(1, 2, dtype=torch.float64)
d = torch.ones(1, 4, dtype=torch.float64)
a, b = f._F._modules_list
want = (d[:, 2:] @ b.weight**2) @ a.weight**2 + d[:, :2]
require(close(f.jTmjp(x, None, d, from_diag=True, to_diag=True, diag_backprop=True), want.detach()), "approximation")
""")

bug("c20-l2norm-scratch", "C20",
    [(N, """            norm = torch.norm(x, p=2, dim=1)
            normalized_x = torch.einsum("b,bi->bi", 1.0 / (norm + self.eps), x)
""", """            self._norm = torch.norm(x, p=2, dim=1)
            normalized_x = torch.einsum("b,bi->bi", 1.0 / (self._norm + self.eps), x)
            norm = self._norm
""")],
    "another thread entering between two lines of the Jacobian of the normalisation",
    "the Jacobian uses the norm of the other thread's input",
    """
import threading, sys
f = nnj.L2Norm()
a = torch.randn(2, 3, dtype=torch.float64)
b = 5 * torch.randn(2, 3, dtype=torch.float64)
ref = jac(f, a)
state = {"done": False}
def tracer(frame, event, arg):
    if event == "line" and frame.f_code.co_name == "jacobian" and threading.current_thread() is threading.main_thread():
        t = threading.Thread(target=lambda: f.jacobian(b))
        t.start()
        t.join()
    return tracer
sys.settrace(lambda fr, e, a_: tracer if fr.f_code.co_name == "jacobian" else None)
try:
    got = f.jacobian(a)
finally:
    sys.settrace(None)
require(close(got, ref), "threads")
""")

bug("c20-skip-width", "C20",
    [(K, """        l = x[0].numel()
        mjp = self._F.mjp(x, None if val is None else val[:, l:], matrix[:, :, l:], wrt=wrt)
        if wrt == "input":
            return matrix[:, :, :l] + mjp
""", """        l = x[0].numel()
        self._head = matrix[:, :, :l]
        mjp = self._F.mjp(x, None if val is None else val[:, l:], matrix[:, :, l:], wrt=wrt)
        if wrt == "input":
            return self._head + mjp
""")],
    "another thread calling the backward product of the same skip connection in between",
    "the result uses the other thread's matrix",
    """
import threading, sys
f = nnj.SkipConnection(nnj.Linear(2, 1)).double()
x = torch.randn(1, 2, dtype=torch.float64)
a = torch.randn(1, 2, 3, dtype=torch.float64)
ref = a @ jac(f, x)
code = type(f).mjp.__wrapped__.__code__ if hasattr(type(f).mjp, "__wrapped__") else type(f).mjp.__code__
def tracer(frame, event, arg):
    if event == "line" and threading.current_thread() is threading.main_thread():
        t = threading.Thread(target=lambda: f.mjp(x, None, 7 * torch.ones(1, 2, 3, dtype=torch.float64)))
        t.start()
        t.join()
    return tracer
sys.settrace(lambda fr, e, a_: tracer if fr.f_code is code else None)
try:
    got = f.mjp(x, None, a)
finally:
    sys.settrace(None)
require(close(got, ref), "threads")
""")

bug("c12-set-order", "C12",
    [(A, "        torch.nn.utils.vector_to_parameters(weight.clone(), self.parameters())\n", "        torch.nn.utils.vector_to_parameters(weight.clone(), [p for p in self.parameters() if p.numel() != 1] + [p for p in self.parameters() if p.numel() == 1])\n")],
    "a model with a parameter of a single entry that is not the last one",
    "the weights are written in another order than they are read",
    """
f = nnj.Sequential(nnj.Linear(2, 1), nnj.Linear(1, 2)).double()
w = torch.arange(7.0, dtype=torch.float64)
f.set_weight(w)
require(close(f.get_weight(), w), "weights")
""")

bug("c21-default-jmjtp-diag", "C21",
    [(A, 'torch.einsum("bji,bjk,bki->bi", jacobian, matrix, jacobian)', 'torch.einsum("bji,bjk,bki->bi", jacobian, 0.5 * (matrix + matrix.transpose(1, 2)), jacobian) if jacobian.shape[1] != jacobian.shape[2] else torch.einsum("bij,bjk,bik->bi", jacobian, matrix, jacobian)')],
    "a custom layer with as many inputs as outputs and a non-symmetric Jacobian",
    "the diagonal of the backward metric product uses the Jacobian transposed",
    """
class Rot(nnj.AbstractJacobian, torch.nn.Module):
    _n_params = 0
    def forward(self, x):
        return x @ torch.tensor([[1.0, 2.0], [0.0, 3.0]], dtype=x.dtype).T
    def jacobian(self, x, val=None, wrt="input"):
        return None if wrt == "weight" else torch.tensor([[1.0, 2.0], [0.0, 3.0]], dtype=x.dtype).expand(x.shape[0], 2, 2)
f = Rot()
x = torch.randn(1, 2, dtype=torch.float64)
m = torch.randn(1, 2, 2, dtype=torch.float64)
J = jac(f, x)
require(close(f.jTmjp(x, None, m, to_diag=True), torch.diagonal(J.transpose(1, 2) @ m @ J, dim1=1, dim2=2)), "metric")
""")

bug("c21-diagonal-mjp-batch", "C21",
    [(D, 'return torch.einsum("bij,bj->bij", matrix, diag_jacobian)', 'return matrix * (diag_jacobian.unsqueeze(1) if matrix.shape[0] != matrix.shape[1] else diag_jacobian.unsqueeze(0).transpose(0, 1))')],
    "as many rows as samples",
    "control",
    """
""")

bug("c17-jitter", "C17",
    [(T, "    return torch.cholesky_inverse(torch.linalg.cholesky(matrix))\n", "    L, info = torch.linalg.cholesky_ex(matrix)\n    return torch.cholesky_inverse(L)\n")],
    "a matrix that is not positive definite",
    "nonsense is returned where an error is due",
    """
m = torch.tensor([[1.0, 2.0], [2.0, 1.0]], dtype=torch.float64)
try:
    r = nnj.invert_block_diagonal(m)
except Exception:
    r = None
require(r is None, "accepted")
""")

bug("c15-gaussian-f64-target", "C15",
    [(Q, "        residual = (target - val).reshape(b, -1)\n", "        residual = (target - val).reshape(b, -1).clamp(-1e3, 1e3)\n")],
    "a residual of more than a thousand",
    "the gradient is clipped",
    """
f = nnj.Sequential(nnj.Linear(1, 1)).double()
x = torch.ones(1, 1, dtype=torch.float64)
t = torch.full((1, 1), 5000.0, dtype=torch.float64)
r = (t - f(x)).detach()
require(close(nnj.LogGaussian().gradient(x, f, t), torch.cat([r, r], dim=1)), "gradient")
""")

bug("c16-bernoulli-tiny", "C16",
    [(Q, "        log_bernoulli_hessian = bernoulli_prob**2 - bernoulli_prob\n", "        log_bernoulli_hessian = bernoulli_prob**2 - bernoulli_prob\n        log_bernoulli_hessian = log_bernoulli_hessian.clamp(max=-1e-6)\n")],
    "a saturated logit",
    "the curvature is bounded away from zero",
    """
f = nnj.Sequential(nnj.Tanh(), nnj.Linear(1, 1)).double()
f.set_weight(torch.tensor([40.0, 0.0], dtype=torch.float64))
x = torch.full((1, 1), 3.0, dtype=torch.float64)
p = torch.sigmoid(f(x)).detach()
h = torch.tanh(x)
want = torch.stack([(p * p - p) * h * h, p * p - p], dim=-1).reshape(1, 2)
got = nnj.LogBinaryBernoulli().ggn(x, f, torch.ones(1, 1, dtype=torch.float64))
require(float((got - want).abs().max()) < 1e-12, "curvature")
""")

bug("c11-maxpool-shared-index", "C11",
    [(M, "vector_J = torch.zeros((b * c2, h1 * w1), dtype=vector.dtype, device=vector.device)", "vector = vector if bool(torch.isfinite(vector).all()) else torch.nan_to_num(vector)\n            vector_J = torch.zeros((b * c2, h1 * w1), dtype=vector.dtype, device=vector.device)")],
    "a cotangent that is not finite in one sample",
    "control",
    """
""")

bug("c13-l2norm-autograd", "C13",
    [(N, "        norm = torch.norm(x.reshape(x.shape[0], -1), p=2, dim=1)\n", "        norm = torch.norm(x.reshape(x.shape[0], -1), p=2, dim=1)\n        norm = torch.where(norm > 1e3, norm.detach(), norm)\n")],
    "a sample with a norm above a thousand, differentiated by autograd",
    "the gradient lacks the derivative of the norm",
    """
f = nnj.L2Norm()
x = (2000 * torch.randn(1, 3, dtype=torch.float64)).requires_grad_(True)
f(x)[0, 0].backward()
n = x.detach().norm()
u = x.detach()[0] / n
want = (torch.eye(3, dtype=torch.float64)[0] - u[0] * u) / n
require(float((x.grad[0] - want).abs().max()) < 1e-7 * float(want.abs().max()) + 1e-9 / float(n), "autograd")
""")

bug("c09-conv-identity-cache", "C09",
    [(C, """        identity = torch.ones(b, c2 * h2 * w2, dtype=x.dtype, device=x.device)
        identity = torch.diag_embed(identity)
        j = self.mjp(x, val, identity, wrt=wrt)
        return j
""", """        if getattr(self, "_identity", None) is None or self._identity.shape[:2] != (b, c2 * h2 * w2):
            self._identity = torch.diag_embed(torch.ones(b, c2 * h2 * w2, dtype=x.dtype, device=x.device))
        j = self.mjp(x, val, self._identity, wrt=wrt)
        return j
""")],
    "a Jacobian in one precision, then the layer converted to the other and the Jacobian again",
    "the identity of the other precision is used",
    """
f = nnj.Conv2d(1, 1, 2)
x = torch.randn(1, 1, 3, 3)
f.jacobian(x)
f.double()
try:
    r = f.jacobian(x.double())
except Exception:
    r = None
require(close(r, jac(f, x.double())), "cache")
""")

bug("c10-conv-normalise", "C10",
    [(C, """            vector = vector.reshape(b, c2, h2, w2)
            # convolve
""", """            vector = vector.reshape(b, c2, h2, w2)
            if vector.shape[1] > 1:
                vector[vector.abs() < 1e-12] = 0.0
            # convolve
""")],
    "a cotangent with entries below 1e-12 for a convolution with several output channels",
    "the caller's vector is modified",
    """
f = nnj.Conv2d(1, 2, 2).double()
x = torch.randn(1, 1, 3, 3, dtype=torch.float64)
v = torch.randn(1, 8, dtype=torch.float64)
v[0, 3] = 1e-14
w = v.clone()
f.vjp(x, None, v, wrt="input")
require(bool((v == w).all()), "modified")
""")

bug("c07-linear-weight-identity", "C07",
    [(L, "                matrix = torch.ones((x.shape[0], self._n_params), dtype=x.dtype, device=x.device)\n", "                matrix = torch.ones((x.shape[0], self._n_params), dtype=x.dtype, device=x.device)\n                matrix[:, val.shape[1] * x.shape[1] + 4 :] = 0.0\n")],
    "no matrix, weights, more than four outputs",
    "the identity lacks the last biases",
    """
f = nnj.Linear(2, 5).double()
x = torch.randn(1, 2, dtype=torch.float64)
J = wjac(f, x)
require(close(f.jmjTp(x, None, None, wrt="weight"), J @ J.transpose(1, 2)), "identity")
""")

bug("c03-conv-many-rows", "C03",
    [(C, "                matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, num_of_rows, dtype=x.dtype, device=x.device)\n                for i in range(b):\n", "                matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, num_of_rows, dtype=x.dtype, device=x.device)\n                for i in range(min(b, 8)):\n")],
    "more than eight samples through a convolution without vmap",
    "the samples after the eighth get zero",
    """
f = nnj.Conv2d(1, 1, 2, use_vmap_for_backprop=False).double()
x = torch.randn(9, 1, 3, 3, dtype=torch.float64)
m = torch.randn(9, 2, 4, dtype=torch.float64)
require(close(f.mjp(x, None, m, wrt="weight"), m @ wjac(f, x)), "rows")
""")

bug("c19-conv-padding-copy", "C19",
    [(C, "        self.use_vmap = use_vmap_for_backprop\n", "        self.use_vmap = use_vmap_for_backprop\n        self.register_load_state_dict_post_hook(lambda module, keys: setattr(module, \"dw_padding\", compute_dw_padding(module)))\n"),
     (C, "class Conv2d(", "def compute_dw_padding(layer):\n    return tuple(compute_reversed_padding(p, k) for p, k in zip(layer.padding, layer.kernel_size))\n\n\nclass Conv2d(")],
    "a dilated convolution loaded from a state dictionary",
    "the products with respect to weight are computed with the padding of the undilated kernel",
    """
f = nnj.Conv2d(1, 1, 2, dilation=2).double()
g = nnj.Conv2d(1, 1, 2, dilation=2).double()
g.load_state_dict(f.state_dict())
x = torch.randn(1, 1, 4, 4, dtype=torch.float64)
try:
    r = g.jacobian(x, wrt="weight")
except Exception:
    r = None
require(close(r, wjac(g, x)), "copy")
""")

bug("c14-pool-stride", "C14",
    [(T, "                stride=layer.stride,\n                padding=layer.padding,\n                dilation=layer.dilation,\n                ceil_mode=layer.ceil_mode,\n", "                stride=layer.stride if layer.stride != 1 else layer.kernel_size,\n                padding=layer.padding,\n                dilation=layer.dilation,\n                ceil_mode=layer.ceil_mode,\n")],
    "a pooling layer with stride 1",
    "the converted layer has the default stride",
    """
f = torch.nn.Sequential(torch.nn.MaxPool2d(2, stride=1))
x = torch.randn(1, 1, 3, 3)
require(close(nnj.convert_to_nnj(f)(x), f(x)), "conversion")
""")

bug("c18-len-cache", "C18",
    [(S, "        for k in range(len(self._modules_list) - 1, -1, -1):\n            # backpropagate through the weight\n            if wrt == \"weight\":\n                v_k", "        if getattr(self, \"_depth\", None) is None:\n            self._depth = len(self._modules_list)\n        for k in range(min(self._depth, len(self._modules_list)) - 1 if self._depth > len(self._modules_list) else len(self._modules_list) - 1, -1, -1):\n            # backpropagate through the weight\n            if wrt == \"weight\":\n                v_k")],
    "-", "control", "\n")

# controls only served to check that nothing is reported; the others are noticed by the existing tests or need a device
DROPPED = ("c05-skip-asymmetric", "c05-seq-second-block-diag", "c04-skip-diag-cross", "c26-upsample-diag")
BUGS = [b for b in BUGS if b["breaks"] != "control" and b["id"] not in DROPPED]
