"""Demonstrations of the genuine defects found in the original tree (bf50111), one function each.
Run:  OMP_NUM_THREADS=1 /opt/venv/bin/python -W ignore /verif/repro/defects.py
Prints DEFECT or ok per entry; on the repaired tree every line says ok."""
import copy, io, pickle, sys, warnings
warnings.filterwarnings("ignore")
import torch, nnj
from torch import nn

torch.manual_seed(0)
R = []
def demo(f): R.append(f); return f
def jac_in(f, x):
    y = f(x); rows = []
    X = x.detach().clone().requires_grad_(True); y = f(X)
    yf = y.reshape(y.shape[0], -1)
    for o in range(yf.shape[1]):
        g, = torch.autograd.grad(yf[:, o].sum(), X, retain_graph=True)
        rows.append(g.reshape(x.shape[0], -1))
    return torch.stack(rows, 1)
close = lambda a, b: a.shape == b.shape and torch.allclose(a, b.to(a.dtype), atol=1e-5, rtol=1e-4)

@demo
def sequential_stale_cache():
    m = nnj.Sequential(nnj.Linear(2, 3), nnj.Tanh(), nnj.Linear(3, 2)); a, b = torch.randn(1, 2), torch.randn(1, 2)
    va = m(a); m(b); v = torch.randn(1, 2)
    return close(m.vjp(a, va, v), m.vjp(a, None, v))
@demo
def sequential_shared_layer():
    t = nnj.Tanh(); m = nnj.Sequential(t, nnj.Linear(2, 2), t); x = torch.randn(1, 2)
    return close(m.jacobian(x), jac_in(m, x))
@demo
def sequential_deepcopy():
    m = nnj.Sequential(nnj.Linear(2, 2), nnj.Tanh()); c = copy.deepcopy(m); x = torch.randn(1, 2)
    return close(c.jacobian(x), jac_in(c, x))
@demo
def sequential_deepcopy_after_grad_forward():
    m = nnj.Sequential(nnj.Linear(2, 2), nnj.Sequential(nnj.Tanh())); m(torch.randn(1, 2)); copy.deepcopy(m); return True
@demo
def sequential_pickle():
    m = nnj.Sequential(nnj.Linear(2, 2), nnj.Tanh()); pickle.loads(pickle.dumps(m)); return True
@demo
def sequential_no_hooks():
    m = nnj.Sequential(nnj.Linear(2, 2), nnj.Tanh(), add_hooks=False); x = torch.randn(1, 2)
    return close(m.jacobian(x), jac_in(m, x))
@demo
def sequential_append():
    m = nnj.Sequential(nnj.Linear(2, 2)); m.append(nnj.Tanh()); x = torch.randn(1, 2)
    return close(m.jacobian(x), jac_in(m, x))
@demo
def sequential_setitem():
    m = nnj.Sequential(nnj.Linear(2, 2), nnj.Tanh()); m[1] = nnj.Sinusoidal(); x = torch.randn(1, 2)
    return close(m.jacobian(x), jac_in(m, x))
@demo
def sequential_nparams_after_append():
    m = nnj.Sequential(nnj.Linear(2, 2)); o = nnj.Sequential(m, nnj.Tanh()); m.append(nnj.Linear(2, 2)); return o._n_params == 12
@demo
def sequential_leak_in_jvp():
    m = nnj.Sequential(nnj.Linear(2, 2), nnj.Tanh()); x = torch.randn(1, 2); m(x)
    for _ in range(5): m.jvp(x, None, x)
    return len(m.feature_maps) == 3
@demo
def sequential_jmjTp_none_3d():
    m = nnj.Sequential(nnj.Tanh(), nnj.Flatten()); x = torch.randn(2, 2, 3); J = jac_in(m, x)
    return close(m.jmjTp(x, None, None), J @ J.transpose(1, 2))
@demo
def readme_example_diag_backprop_none():
    m = nnj.Sequential(nnj.Linear(2, 2), nnj.Tanh()); x = torch.randn(1, 2)
    return m.jTmjp(x, m(x), None, wrt="weight", to_diag=True, diag_backprop=True).shape == (1, 6)
@demo
def maxpool_stale_index():
    m = nnj.MaxPool2d(2); a = torch.randn(1, 1, 4, 4); b = -a; va = m(a); m(b)
    return close(m.jacobian(a, va), jac_in(nn.MaxPool2d(2), a))
@demo
def maxpool_overlap_vjp():
    m = nnj.MaxPool2d(3, stride=1); x = torch.randn(1, 1, 4, 4); v = torch.randn(1, 4)
    return close(m.vjp(x, None, v), (v[:, None] @ jac_in(nn.MaxPool2d(3, 1), x))[:, 0])
@demo
def maxpool_float64():
    m = nnj.MaxPool2d(2); x = torch.randn(1, 1, 4, 4).double(); return close(m.vjp(x, None, torch.ones(1, 4).double()), jac_in(nn.MaxPool2d(2), x).sum(1))
@demo
def maxpool_jmp_columns():
    m = nnj.MaxPool2d(2); x = torch.randn(1, 1, 4, 4); M = torch.randn(1, 16, 3); return close(m.jmp(x, None, M), jac_in(nn.MaxPool2d(2), x) @ M)
class Scale(nnj.AbstractJacobian, nn.Module):
    def __init__(s):
        super().__init__(); s._n_params = 0; s.A = torch.tensor([[1., 2., 0.], [0., 1., 3.]])
    def forward(s, x): return x @ s.A.T
    def jacobian(s, x, val=None, wrt="input"): return s.A.expand(x.shape[0], 2, 3) if wrt == "input" else None
@demo
def custom_layer_jTmjp_diag():
    m = Scale(); x = torch.randn(1, 3); J = m.jacobian(x); D = torch.tensor([[2., 3.]])
    return close(m.jTmjp(x, None, D, from_diag=True), J.transpose(1, 2) @ torch.diag_embed(D) @ J)
@demo
def custom_layer_jTmjp_to_diag():
    m = Scale(); x = torch.randn(1, 3); J = m.jacobian(x); M = torch.tensor([[[2., 3.], [5., 7.]]])
    return close(m.jTmjp(x, None, M, to_diag=True), torch.diagonal(J.transpose(1, 2) @ M @ J, dim1=1, dim2=2))
@demo
def l2norm_none_identity():
    m = nnj.L2Norm(); x = torch.randn(1, 3); J = m.jacobian(x); return close(m.jTmjp(x, None, None), J.transpose(1, 2) @ J)
@demo
def l2norm_eps():
    m = nnj.L2Norm(eps=0.5); x = torch.randn(1, 3); return close(m.jacobian(x), jac_in(m, x))
@demo
def softplus_threshold():
    m = nnj.Softplus(beta=1.0, threshold=1.0); x = torch.tensor([[2.0]]); return close(m.jacobian(x), jac_in(m, x))
@demo
def relu_inplace():
    m = nnj.Sequential(nnj.Tanh(), nnj.ReLU(inplace=True)); x = torch.tensor([[-1.0, 1.0]]); a = nn.Sequential(nn.Tanh(), nn.ReLU())
    i = torch.tensor([[-1.0]]); nnj.ReLU(inplace=True).jacobian(i)
    n = nnj.Sequential(nnj.Linear(2, 2), nnj.Tanh(), nnj.ReLU(inplace=True)); n(x)
    return i.item() == -1.0 and close(m.jacobian(x), jac_in(a, x)) and bool((n.feature_maps[2] < 0).any() | (n.feature_maps[2] > 0).all())
@demo
def conv_float64():
    m = nnj.Conv2d(1, 1, 2).double(); x = torch.randn(1, 1, 3, 3).double(); return close(m.jacobian(x), jac_in(m, x))
@demo
def conv_float64_novmap_precision():
    m = nnj.Conv2d(1, 1, 1, bias=False, use_vmap_for_backprop=False).double(); x = torch.full((1, 1, 1, 1), 1 / 3, dtype=torch.float64)
    return bool(m.vjp(x, None, torch.ones(1, 1).double(), wrt="weight").item() == x.item())
@demo
def conv_dilation():
    m = nnj.Conv2d(1, 1, 2, dilation=2, bias=False); x = torch.randn(1, 1, 4, 5)
    v = torch.randn(1, m(x).numel()); g, = torch.autograd.grad((m(x).reshape(1, -1) * v).sum(), m.weight)
    return close(m.vjp(x, None, v, wrt="weight"), g.reshape(1, -1))
@demo
def conv_padding_mode():
    m = nnj.Conv2d(1, 1, 3, padding=1, padding_mode="circular"); x = torch.randn(1, 1, 4, 4); v = torch.randn(1, 16)
    try: return close(m.vjp(x, None, v), (v[:, None] @ jac_in(m, x))[:, 0])
    except NotImplementedError: return True
@demo
def conv_none_metric():
    m = nnj.Conv2d(1, 1, 2); x = torch.randn(1, 1, 3, 3); J = jac_in(m, x); return close(m.jTmjp(x, None, None), J.transpose(1, 2) @ J)
@demo
def conv_none_metric_to_diag():
    m = nnj.Conv2d(1, 1, 2); x = torch.randn(1, 1, 3, 3); J = jac_in(m, x); return close(m.jTmjp(x, None, None, to_diag=True), (J * J).sum(1))
@demo
def upsample_float64():
    m = nnj.Upsample(scale_factor=2); x = torch.randn(1, 1, 2, 2).double(); return close(m.vjp(x, None, torch.ones(1, 16).double()), jac_in(m, x).sum(1))
@demo
def upsample_bilinear():
    m = nnj.Upsample(scale_factor=2, mode="bilinear"); x = torch.randn(1, 1, 2, 2)
    try: return close(m.jacobian(x), jac_in(m, x))
    except NotImplementedError: return True
@demo
def upsample_fractional():
    m = nnj.Upsample(scale_factor=2.5); x = torch.randn(1, 1, 2, 2)
    try: return close(m.jacobian(x), jac_in(m, x))
    except NotImplementedError: return True
@demo
def skip_jacobian_with_val():
    m = nnj.SkipConnection(nnj.Linear(2, 3)); x = torch.randn(1, 2); return close(m.jacobian(x, m(x)), jac_in(m, x))
@demo
def skip_none_3d():
    m = nnj.SkipConnection(nnj.Tanh()); x = torch.randn(1, 1, 2, 2); J = jac_in(m, x); return close(m.jTmjp(x, None, None), J.transpose(1, 2) @ J)
@demo
def skip_jmjTp_none():
    m = nnj.SkipConnection(nnj.Linear(2, 3)); x = torch.randn(1, 2); J = jac_in(m, x); return close(m.jmjTp(x, None, None), J @ J.transpose(1, 2))
@demo
def skip_nonparametric_weight():
    m = nnj.Sequential(nnj.SkipConnection(nnj.Tanh()), nnj.Linear(4, 1)); x = torch.randn(1, 2)
    return m.jvp(x, None, torch.randn(1, 5), wrt="weight").shape == (1, 1) and nnj.SkipConnection(nnj.Tanh()).jacobian(x, wrt="weight") is None
@demo
def skip_nonparametric_jmjTp_weight():
    return nnj.SkipConnection(nnj.Tanh()).jmjTp(torch.randn(1, 2), None, None, wrt="weight") is None
@demo
def flatten_mjp_none():
    x = torch.randn(1, 2, 2); return close(nnj.Flatten().mjp(x, None, None), torch.eye(4)[None])
@demo
def loglik_default_constructor():
    x = torch.randn(3, 2); return nnj.LogGaussian()(x, nnj.Linear(2, 2), x).shape == (3,)
@demo
def loglik_none_aggregate():
    x = torch.randn(3, 2); r = nnj.LogGaussian(aggregate_batch=None)(x, nnj.Linear(2, 2), x); return r is not None
@demo
def loglik_full_ggn_sequential():
    x = torch.randn(3, 2); m = nnj.Sequential(nnj.Linear(2, 2)); r = nnj.LogGaussian("sum", "full").ggn(x, m); return r[0].shape == (6, 6)
@demo
def loglik_bernoulli_multi():
    m = nnj.Sequential(nnj.Linear(2, 6), nnj.Reshape(2, 3)); return nnj.LogBernoulli("sum", "diag").ggn(torch.randn(3, 2), m).shape == (18,)
@demo
def loglik_binary_overflow():
    m = nnj.Reshape(1); x = torch.tensor([[1000.0]]); return bool(torch.isfinite(nnj.LogBinaryBernoulli("sum").gradient(x, m, torch.ones(1, 1), wrt="input")).all())
@demo
def loglik_bernoulli_overflow():
    m = nnj.Reshape(2); x = torch.tensor([[1000.0, 0.0]]); return bool(torch.isfinite(nnj.LogBernoulli("sum").gradient(x, m, torch.tensor([[1.0, 0]]), wrt="input")).all())
@demo
def invert_block_diagonal():
    a = torch.tensor([[2.0, 1.0], [1.0, 3.0]]); return close(nnj.invert_block_diagonal([a])[0] @ a, torch.eye(2))
def conv_eq(m, x): return close(nnj.convert_to_nnj(m)(x), m(x))
@demo
def convert_linear_nobias(): return conv_eq(nn.Sequential(nn.Linear(2, 2, bias=False)), torch.randn(1, 2))
@demo
def convert_conv_padding(): return conv_eq(nn.Sequential(nn.Conv2d(1, 1, 3, padding=1)), torch.randn(1, 1, 3, 3))
@demo
def convert_pool_stride(): return conv_eq(nn.Sequential(nn.MaxPool2d(2, stride=1)), torch.randn(1, 1, 3, 3))
@demo
def convert_upsample(): return conv_eq(nn.Sequential(nn.Upsample(scale_factor=2)), torch.randn(1, 1, 3, 3))
@demo
def convert_softplus(): return conv_eq(nn.Sequential(nn.Softplus(beta=3.0)), torch.randn(1, 3))
@demo
def convert_nested(): return conv_eq(nn.Sequential(nn.Tanh(), nn.Sequential(nn.Linear(2, 3))), torch.randn(1, 2))
@demo
def convert_flatten_dims():
    m = nn.Sequential(nn.Flatten(2))
    try: return conv_eq(m, torch.randn(1, 2, 3, 3))
    except NotImplementedError: return True
@demo
def convert_keeps_nnj_layers(): return conv_eq(nn.Sequential(nn.Linear(2, 4), nnj.Reshape(2, 2)), torch.randn(1, 2))
@demo
def set_weight_aliases_vector():
    m = nnj.Linear(2, 2); w = torch.zeros(6); m.set_weight(w); w += 1; return bool((m.get_weight() == 0).all())

bad = 0
for f in R:
    try: r = bool(f()); e = ""
    except Exception as ex: r, e = False, f"{type(ex).__name__}: {str(ex)[:90]}"
    bad += not r
    print(("ok     " if r else "DEFECT ") + f.__name__, e)
print(bad, "of", len(R), "defective")
sys.exit(bad > 0)
