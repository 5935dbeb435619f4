"""Operation histories on real library objects.

A Machine holds a model, a second model built from the same layer objects, an unrelated model, and input/tangent
buffers that live as long as it does. Operations are named; `apply(name)` executes one and judges its result with the
reference for the weights and inputs in force. Histories are replayed from scratch, so nothing is shared between them.
"""
import copy
import hashlib
import pickle
import types

import torch

from .ops import Call, as_argument, differ, expected, floor_scale, invoke, supported, tangent
from .product import DT, fresh, x_values
from .spec import Margin, build, children, evaluate, is_container, n_params, nnj, param_values, set_params

WEIGHTS = ("generic", "other", "third")

QUERIES = {
    "jac-i": Call("jacobian", "input"),
    "jac-w": Call("jacobian", "weight"),
    "jvp-i": Call("jvp", "input"),
    "jvp-w": Call("jvp", "weight"),
    "jmp-i": Call("jmp", "input", ncol=2),
    "jmp-w": Call("jmp", "weight", ncol=2),
    "vjp-i": Call("vjp", "input"),
    "vjp-w": Call("vjp", "weight"),
    "mjp-i": Call("mjp", "input", ncol=2),
    "mjp-w": Call("mjp", "weight", ncol=2),
    "jmjTp-i": Call("jmjTp", "input"),
    "jmjTp-w": Call("jmjTp", "weight", (True, False, False)),
    "jmjTp-wd": Call("jmjTp", "weight", (True, True, True)),
    "jTmjp-i": Call("jTmjp", "input"),
    "jTmjp-id": Call("jTmjp", "input", (True, True, False)),
    "jTmjp-w": Call("jTmjp", "weight"),
    "jTmjp-wd": Call("jTmjp", "weight", (True, True, True)),
    "jTmjp-wn": Call("jTmjp", "weight", (False, True, False), "none"),
}

_REF = {}


def ref_node(spec, shape, wlabel, xlabel, batch, dt):
    key = (spec, shape, wlabel, xlabel, batch, dt)
    if key not in _REF:
        if len(_REF) > 200:
            _REF.clear()
        x = x_values(shape, batch, xlabel).to(DT[dt])
        m = Margin()
        node = evaluate(spec, param_values(spec, wlabel, DT[dt]), x.double(), m)
        _REF[key] = (x, node, {}, m.value)
    return _REF[key]


def operations(spec):
    ops = []
    for n, c in QUERIES.items():
        if supported(spec, c):
            ops.append(f"q:{n}:X:none")  # on the long-lived buffer, output not given
            ops.append(f"q:{n}:X:val")  # output given
            ops.append(f"q:{n}:fresh3:none")  # on a temporary of another batch size
    return ops + disturbances(spec)


def disturbances(spec):
    ops = ["f:X", "f:fresh2", "f:fresh3", "f:fresh3:nograd", "f:stranger", "f:sharer", "xw:generic", "xw:other", "xd:other", "bad:vjp", "bad:jTmjp", "bad:forward"]
    ops += ["q-stranger", "q-sharer", "mode:eval", "mode:train", "backward", "feature-maps", "deepcopy-use"]
    if n_params(spec):
        ops += ["w:set:other", "w:set:generic", "w:copy:third", "w:data:other", "w:load:third", "w:v2p:generic", "w:new:third", "zero-grad", "get-weight"]
    return ops


class Machine:
    def __init__(self, spec, shape, dt="f64"):
        self.spec, self.shape, self.dt, self.dtype = spec, shape, dt, DT[dt]
        self.model = fresh(spec, "generic", dt, ctor="shared")  # a layer without weights that occurs several times is one object
        self.w = "generic"
        self.stranger = fresh(spec, "other", dt)
        # another chain around the very same layer objects
        self.sharer = nnj.Sequential(self.model)
        self.X = x_values(shape, 2, "generic").to(self.dtype)  # lives on, overwritten in place
        self.xl = "generic"
        self.held = []  # earlier results with the values they must keep

    # ------------------------------------------------------------------------------------------------------
    def operations(self):
        return operations(self.spec)

    def disturbances(self):
        return disturbances(self.spec)

    # ------------------------------------------------------------------------------------------------------
    def query(self, model, call, x, wlabel, xlabel, batch, given=False):
        xref, node, memo, margin = ref_node(self.spec, self.shape, wlabel, xlabel, batch, self.dt)
        if is_container(self.spec) and margin < 1e-6:
            return None
        k = tuple(map(str, call.key()))
        if k not in memo:
            t = tangent(node, call)
            memo[k] = (t, expected(node, call, t), floor_scale(node, call, t))
        t, ref, floor = memo[k]
        t = None if t is None else t.to(self.dtype).clone()
        val = None
        if given:
            with torch.no_grad():
                val = model(x)
        try:
            got = invoke(model, call, x, val, t)
        except NotImplementedError:
            if supported(self.spec, call):
                raise
            return None
        d = differ(got, ref, self.dtype, floor=floor)
        if isinstance(got, torch.Tensor) and len(self.held) < 4:
            self.held.append((got, got.detach().clone(), f"{call!r}"))
        return f"{call!r}: {d}" if d else None

    def check_forward(self, model, x, wlabel, xlabel, batch):
        y = model(x)
        ref = ref_node(self.spec, self.shape, wlabel, xlabel, batch, self.dt)[1].y
        d = differ(y, ref, self.dtype)
        return f"output: {d}" if d else None

    def new_weights(self, label):
        self.w = label
        return param_values(self.spec, label, self.dtype)

    def apply(self, name):
        """Executes an operation; returns a message when its result is wrong."""
        a = name.split(":")
        k = a[0]
        if k == "q":
            call = QUERIES[a[1]]
            if a[2] == "X":
                return self.query(self.model, call, self.X, self.w, self.xl, 2, a[3] == "val")
            b = int(a[2][5:])
            return self.query(self.model, call, x_values(self.shape, b, "other").to(self.dtype), self.w, "other", b, a[3] == "val")
        if k == "f":
            if a[1] == "X":
                return self.check_forward(self.model, self.X, self.w, self.xl, 2)
            if a[1].startswith("fresh"):
                b = int(a[1][5:])
                x = x_values(self.shape, b, "wide").to(self.dtype)
                if len(a) > 2:
                    with torch.no_grad():
                        return self.check_forward(self.model, x, self.w, "wide", b)
                return self.check_forward(self.model, x, self.w, "wide", b)
            if a[1] == "stranger":
                return self.check_forward(self.stranger, x_values(self.shape, 2, "wide").to(self.dtype), "other", "wide", 2)
            return self.check_forward(self.sharer, x_values(self.shape, 2, "wide").to(self.dtype), self.w, "wide", 2)
        if k == "q-stranger":
            x = x_values(self.shape, 3, "other").to(self.dtype)
            for n in ("vjp-w", "jTmjp-i"):
                d = self.query(self.stranger, QUERIES[n], x, "other", "other", 3)
                if d:
                    return "unrelated model: " + d
            return None
        if k == "q-sharer":
            x = x_values(self.shape, 3, "other").to(self.dtype)
            for n in ("mjp-w", "jTmjp-id"):
                d = self.query(self.sharer, QUERIES[n], x, self.w, "other", 3)
                if d:
                    return "model around the same layers: " + d
            return None
        if k == "xw":
            with torch.no_grad():
                self.X.copy_(x_values(self.shape, 2, a[1]))
            self.xl = a[1]
            return None
        if k == "xd":  # past the version counter
            self.X.data.copy_(x_values(self.shape, 2, a[1]))
            self.xl = a[1]
            return None
        if k == "bad":
            n_out = ref_node(self.spec, self.shape, self.w, self.xl, 2, self.dt)[1].jx.shape[1]
            try:
                if a[1] == "vjp":
                    self.model.vjp(self.X, None, torch.ones(2, n_out + 1, dtype=self.dtype), wrt="input")
                elif a[1] == "jTmjp":
                    self.model.jTmjp(self.X, None, torch.ones(2, n_out + 1, n_out + 2, dtype=self.dtype), wrt="weight")
                else:
                    self.model(torch.ones((3,) + tuple(s + 1 for s in self.shape), dtype=self.dtype))
            except Exception:
                pass
            return None
        if k == "mode":
            self.model.train(a[1] == "train")
            return None
        if k == "backward":
            x = self.X.clone().requires_grad_(True)
            y = self.model(x)
            if y.requires_grad:
                y.sum().backward()
                for p in self.model.parameters():
                    p.grad = None
            return None
        if k == "zero-grad":
            for p in self.model.parameters():
                p.grad = None
            return None
        if k == "feature-maps":  # reading (and emptying) what the model exposes must not matter
            f = getattr(self.model, "feature_maps", None)
            if isinstance(f, list):
                f.clear()
            return None
        if k == "deepcopy-use":
            c = copy.deepcopy(self.model)
            x = x_values(self.shape, 3, "other").to(self.dtype)
            d = self.query(c, QUERIES["mjp-i"], x, self.w, "other", 3)
            return None if d is None else "copy: " + d
        if k == "get-weight":
            got = self.model.get_weight()
            ref = torch.cat([v.reshape(-1) for v in param_values(self.spec, self.w, self.dtype)])
            d = differ(got, ref, self.dtype, rtol=1e-12 if self.dt == "f64" else 1e-6)
            return None if d is None else "weight vector: " + d
        if k == "w":
            vals = self.new_weights(a[2])
            vec = torch.cat([v.reshape(-1) for v in vals]).to(self.dtype)
            if a[1] == "set":
                self.model.set_weight(vec)
                vec.fill_(float("nan"))  # the caller's vector is the caller's
            elif a[1] == "copy":
                set_params(self.model, vals)
            elif a[1] == "data":
                for p, v in zip(self.model.parameters(), vals):
                    p.data.copy_(v)
            elif a[1] == "load":
                sd = self.model.state_dict()
                self.model.load_state_dict({n: v.to(self.dtype) for n, v in zip(sd, vals)})
            elif a[1] == "v2p":
                torch.nn.utils.vector_to_parameters(vec, self.model.parameters())
            elif a[1] == "new":  # the Parameter objects themselves are replaced
                it = iter(vals)
                for mod in self.model.modules():
                    for n in list(mod._parameters):
                        if mod._parameters[n] is not None:
                            setattr(mod, n, torch.nn.Parameter(next(it).to(self.dtype)))
            return None
        raise ValueError(name)

    def held_ok(self):
        for t, v, what in self.held:
            if not torch.equal(torch.nan_to_num(t), torch.nan_to_num(v)):
                return f"an earlier result ({what}) was overwritten by a later operation"
        return None

    # ------------------------------------------------------------------------------------------------------
    def fingerprint(self):
        h = hashlib.sha256()
        seen = {}

        def put(o, depth=0):
            if depth > 12:
                h.update(b"deep")
                return
            if isinstance(o, torch.Tensor):
                h.update(str((o.dtype, tuple(o.shape), o.requires_grad)).encode())
                if o.numel():
                    h.update(bytes(o.detach().contiguous().reshape(-1).view(torch.uint8).tolist()))
                if o.is_leaf and o.grad is not None:
                    h.update(b"grad")
                    put(o.grad, depth + 1)
                return
            if id(o) in seen:
                h.update(f"ref{seen[id(o)]}".encode())
                return
            if isinstance(o, (str, int, float, bool, bytes, type(None), torch.dtype, torch.Size, torch.device)):
                h.update(repr(o).encode())
                return
            if isinstance(o, (types.FunctionType, types.MethodType, types.BuiltinFunctionType, type, types.ModuleType)):
                h.update(getattr(o, "__qualname__", getattr(o, "__name__", "?")).encode())
                return
            seen[id(o)] = len(seen)
            if isinstance(o, dict):
                for kk, vv in o.items():
                    put(kk if isinstance(kk, (str, int)) else str(type(kk)), depth + 1)
                    put(vv, depth + 1)
                return
            if isinstance(o, (list, tuple, set, frozenset)):
                h.update(str((type(o).__name__, len(o))).encode())
                for i in o:
                    put(i, depth + 1)
                return
            h.update(type(o).__name__.encode())
            d = getattr(o, "__dict__", None)
            if isinstance(d, dict):
                put(d, depth + 1)

        for m in (self.model, self.sharer, self.stranger):
            put(m)
        h.update(str((self.w, self.xl, self.model.training)).encode())
        # state outside the objects: globals and class attributes of the package
        import sys

        for n in sorted(sys.modules):
            if n == "nnj" or n.startswith("nnj."):
                for kk, vv in sorted(vars(sys.modules[n]).items()):
                    if kk.startswith("__"):
                        continue
                    if isinstance(vv, type) and vv.__module__.startswith("nnj"):
                        for ck, cv in sorted(vars(vv).items()):
                            if not ck.startswith("__") and not callable(cv) and not isinstance(cv, (property, classmethod, staticmethod)):
                                h.update(ck.encode())
                                put(cv)
                    elif isinstance(vv, (dict, list, set, torch.Tensor, int, float)) or type(vv).__module__.startswith("nnj"):
                        h.update(kk.encode())
                        put(vv)
        return h.hexdigest()


def play(spec, shape, history, dt="f64"):
    """Replays a history on new objects. Returns (machine, message)."""
    m = Machine(spec, shape, dt)
    for i, op in enumerate(history):
        d = m.apply(op)
        if d is None:
            d = m.held_ok()
        if d:
            return m, f"after {list(history[:i])}, {op}: {d}"
    return m, None
