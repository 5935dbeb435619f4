"""Which conditions a check puts every method of the library under, alone and in pairs. Not part of any check.

  conditions.py C02 [C03 ...] [--pairs]     runs the checks on an instrumented copy of /repo and lists what never occurred
"""
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOK = '''

def _instrument():
    import functools, inspect, json, multiprocessing.util, os, threading, torch
    seen = {}
    local = threading.local()

    def dump(*a):
        with open(os.path.join(os.environ["NNJ_COVER"], f"{os.getpid()}.json"), "w") as f:
            json.dump({k: sorted(v) for k, v in seen.items()}, f)

    def after():
        seen.clear()
        multiprocessing.util.Finalize(None, dump, exitpriority=100)

    os.register_at_fork(after_in_child=after)
    multiprocessing.util.Finalize(None, dump, exitpriority=100)

    def tensor(n, t, out):
        if t is None:
            out.append(n + " None")
            return
        if isinstance(t, list):
            out.append(n + " list")
            return
        if not isinstance(t, torch.Tensor):
            return
        d = t.detach()
        if not t.is_contiguous():
            out.append(n + " noncontiguous")
        if t.requires_grad:
            out.append(n + " requires grad")
        if t.storage_offset():
            out.append(n + " offset")
        if 0 in t.stride() and t.numel() > 1:
            out.append(n + " expanded")
        if t.numel():
            if not d.any():
                out.append(n + " zero")
            elif d.numel() > 1 and bool((d == d.reshape(-1)[0]).all()):
                out.append(n + " constant")
            if bool((d > 0).all()):
                out.append(n + " positive")
            if bool((d < 0).all()):
                out.append(n + " negative")
            m = float(d.abs().max())
            if m > 100:
                out.append(n + " large")
            if 0 < m < 1e-2:
                out.append(n + " small")
            if m and bool((d == 0).any()):
                out.append(n + " some zero")

    def wrap(cls, name, f):
        try:
            sig = inspect.signature(f)
        except Exception:
            return f

        @functools.wraps(f)
        def g(self, *a, **k):
            depth = getattr(local, "depth", 0)
            local.depth = depth + 1
            try:
                b = sig.bind(self, *a, **k)
                b.apply_defaults()
                v = dict(b.arguments)
                out = ["nested" if depth else "outer", "given" if v.get("val") is not None else "not given"]
                x = v.get("x", v.get("input"))
                if isinstance(x, torch.Tensor):
                    n = x.shape[0]
                    out += [f"batch {n if n < 4 else '4-10' if n < 11 else '11-64' if n < 65 else '65+'}", str(x.dtype)]
                    q = x[0].numel() if n else 0
                    out.append(f"in {q if q < 4 else '4-16' if q < 17 else '17-64' if q < 65 else '65+'}")
                    tensor("x", x, out)
                    if x.dim() == 4:
                        c, h, w = x.shape[1:]
                        out.append("h<w" if h < w else "h>w" if h > w else "h=w")
                        out.append("channels 1" if c == 1 else "channels 2+")
                    with torch.no_grad():
                        t = v.get("vector", v.get("matrix"))
                        if "vector" in v or "matrix" in v:
                            tensor("t", t, out)
                            if isinstance(t, torch.Tensor) and t.dim() == 3:
                                r, s = t.shape[1:]
                                out.append("t rows " + ("1" if r == 1 else "=batch" if r == n else "=cols" if r == s else "other"))
                                out.append("t cols " + ("1" if s == 1 else "=batch" if s == n else "other"))
                                if r == s:
                                    if bool((t == t.transpose(1, 2)).all()):
                                        out.append("t symmetric")
                                    else:
                                        out.append("t asymmetric")
                if "target" in v:
                    tensor("target", v["target"], out)
                for o in ("aggregate_batch", "metric_shape", "metric_backprop", "bias", "kernel_size", "padding", "dilation"):
                    if hasattr(self, o) and not isinstance(getattr(self, o), torch.Tensor):
                        out.append(f"{o}={getattr(self, o)}")
                if isinstance(getattr(self, "weight", None), torch.Tensor):
                    tensor("weight", self.weight.detach(), out)
                    out.append("weight frozen" if not self.weight.requires_grad else "weight free")
                    o, i = self.weight.shape[:2]
                    out.append("o=i" if o == i else "o<i" if o < i else "o>i")
                for o in ("wrt", "from_diag", "to_diag", "diag_backprop", "diag"):
                    if o in v:
                        out.append(f"{o}={v[o]}")
                out.append("grad on" if torch.is_grad_enabled() and not depth else "inference" if torch.is_inference_mode_enabled() else "grad ?")
                out.append("training" if getattr(self, "training", True) else "eval")
                out.append("default " + str(torch.get_default_dtype()))
                s = seen.setdefault(type(self).__name__ + "." + name, set())
                key = tuple(sorted(set(out)))
                s.add(chr(31).join(key))
                local.calls = getattr(local, "calls", 0) + 1
                if not depth and local.calls % 300 == 0:
                    dump()
            except Exception as e:
                pass
            try:
                return f(self, *a, **k)
            finally:
                local.depth = depth
        return g

    names = ("forward", "jacobian", "jvp", "jmp", "jmjTp", "vjp", "mjp", "jTmjp", "gradient", "ggn", "get_weight", "set_weight")
    done = set()
    for c in list(globals().values()):
        if inspect.isclass(c):
            for name in names:
                f = getattr(c, name, None)
                if callable(f) and (c, name) not in done:
                    for k in c.__mro__:
                        if name in k.__dict__ and k.__module__.startswith("nnj"):
                            if not hasattr(k.__dict__[name], "_cov"):
                                w = wrap(k, name, k.__dict__[name])
                                w._cov = True
                                setattr(k, name, w)
                            break


_instrument()
'''


def collect(check):
    d = tempfile.mkdtemp(prefix="nnjcov.")
    try:
        shutil.copytree("/repo/nnj", d + "/repo/nnj")
        with open(d + "/repo/nnj/__init__.py", "a") as f:
            f.write(HOOK)
        os.makedirs(d + "/out")
        r = subprocess.run([VERIF + "/check", check], env=dict(os.environ, NNJ_REPO=d + "/repo", NNJ_COVER=d + "/out"), capture_output=True, text=True)
        print(r.stdout.strip().splitlines()[-1:], file=sys.stderr)
        out = {}
        for f in os.listdir(d + "/out"):
            for k, v in json.load(open(d + "/out/" + f)).items():
                out.setdefault(k, set()).update(v)
        return {k: [s.split(chr(31)) for s in v] for k, v in out.items()}
    finally:
        shutil.rmtree(d)


def main():
    pairs = "--pairs" in sys.argv
    for check in [a for a in sys.argv[1:] if a.startswith("C")]:
        data = collect(check)
        universe = {}
        for k, v in data.items():
            universe.setdefault(k.split(".")[1], set()).update(c for s in v for c in s)
        for k in sorted(data):
            have = set(c for s in data[k] for c in s)
            print(check, k, len(data[k]), "MISSING:", sorted(universe[k.split(".")[1]] - have))
            if pairs:
                pp = set()
                for s in data[k]:
                    pp.update(itertools.combinations(s, 2))
                miss = [p for p in itertools.combinations(sorted(have), 2) if p not in pp]
                fam = lambda c: c.split("=")[0] if "=" in c else c.rsplit(" ", 1)[0] if c.split(" ")[0] in ("batch", "in", "default", "channels") else c
                miss = [p for p in miss if fam(p[0]) != fam(p[1])]
                print("   pairs missing:", len(miss), "of", len(have) * (len(have) - 1) // 2)
                for p in miss:
                    print("      ", p)


if __name__ == "__main__":
    main()
