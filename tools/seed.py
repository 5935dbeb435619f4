#!/usr/bin/env python3
"""Writes planted bugs to seeded/ and tries them out in scratch copies of /repo.

    seed.py write FILE.py...     generate seeded/<id>/ from bug descriptions (lists called BUGS)
    seed.py try ID... [--all-checks] [--checks C01,C02]
                                 for every bug: applies, tests pass, demo 0/nonzero, which checks report it

Nothing here is used by a check. Scratch copies live under /tmp and are removed.
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
REPO = "/repo"
BASE = "bf50111"


def sh(cmd, cwd=None, env=None, timeout=1500):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def scratch():
    d = tempfile.mkdtemp(prefix="nnjbug.")
    sh(f"cp -a /repo {d}/repo")
    return d


def write(path):
    ns = {}
    exec(compile(open(path).read(), path, "exec"), ns)
    for bug in ns["BUGS"]:
        d = scratch()
        try:
            r = d + "/repo"
            for file, old, new, *n in bug["edits"]:
                p = os.path.join(r, file)
                s = open(p).read()
                want = n[0] if n else 1
                if s.count(old) != want:
                    raise SystemExit(f"{bug['id']}: {s.count(old)} occurrences of {old!r} in {file}")
                open(p, "w").write(s.replace(old, new))
            _, diff = sh("git diff", cwd=r)
            # at least one changed line has to be one of the original repository
            removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
            mine = []
            for f in {e[0] for e in bug["edits"]}:
                _, base = sh(f"git show {BASE}:{f}", cwd=r)
                base = set(base.splitlines())
                mine += [l for l in removed if l not in base]
            orig = [l for l in removed if l not in mine]
            if not orig:
                print(f"WARNING {bug['id']}: changes no original line")
            if mine:
                print(f"note {bug['id']}: also changes non-original lines: {mine}")
            out = os.path.join(SEEDED, bug["id"])
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(diff)
            open(out + "/demo.py", "w").write(PRELUDE + bug["demo"].lstrip("\n"))
            open(out + "/demo.sh", "w").write(
                '#!/bin/bash\nset -e\nhere="$(cd "$(dirname "$0")" && pwd)"\n'
                'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2\n'
                'exec /opt/venv/bin/python "$here/demo.py"\n')
            os.chmod(out + "/demo.sh", 0o755)
            json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                      open(out + "/meta.json", "w"), indent=1)
        finally:
            shutil.rmtree(d)


PRELUDE = '''import sys
import torch
from torch import nn
import nnj

torch.manual_seed(0)


def require(ok, what):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)


def close(a, b, tol=1e-8):
    return a is not None and b is not None and a.shape == b.shape and a.dtype == b.dtype and bool(torch.allclose(a, b, rtol=tol, atol=tol))


def jac(f, x):
    """autograd jacobian of a batched function, per sample and flattened"""
    rows = []
    for i in range(x.shape[0]):
        j = torch.autograd.functional.jacobian(lambda z: f(z.unsqueeze(0))[0].reshape(-1), x[i])
        rows.append(j.reshape(j.shape[0], -1))
    return torch.stack(rows)


def wjac(model, x):
    """autograd jacobian with respect to the weights, per sample"""
    ps = list(model.parameters())
    rows = []
    for i in range(x.shape[0]):
        out = model(x[i : i + 1]).reshape(-1)
        r = []
        for k in range(out.numel()):
            g = torch.autograd.grad(out[k], ps, retain_graph=True, allow_unused=True)
            r.append(torch.cat([(torch.zeros_like(p) if h is None else h).reshape(-1) for p, h in zip(ps, g)]))
        rows.append(torch.stack(r))
    return torch.stack(rows).detach()


'''


def tryone(bid, checks, only_checks=False):
    out = os.path.join(SEEDED, bid)
    meta = json.load(open(out + "/meta.json"))
    d = scratch()
    res = []
    try:
        r = d + "/repo"
        dd = d + "/demo"
        shutil.copytree(out, dd)
        for f in ("patch.diff", "meta.json"):
            os.remove(dd + "/" + f)
        if not only_checks:
            c, o = sh(f"bash {dd}/demo.sh", cwd=r, timeout=300)
            if c != 0:
                res.append("DEMO-FAILS-UNPATCHED " + o[-300:])
        c, o = sh(f"git apply {out}/patch.diff", cwd=r)
        if c:
            return bid, "PATCH DOES NOT APPLY " + o
        if not only_checks:
            c, o = sh(f"bash {dd}/demo.sh", cwd=r, timeout=300)
            if c == 0:
                res.append("DEMO-PASSES-PATCHED")
            elif "BROKEN" not in o:
                res.append("demo: " + o.strip().splitlines()[-1][:160])
            c, o = sh("/opt/venv/bin/python -m pytest -q -x --no-header -p vp_seed -p no:cacheprovider -o python_files='*.py' tests", cwd=r, env={"PYTHONPATH": r + ":/opt/vp/pytest_plugins", "VP_SEED": "2", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1"})
            if c:
                res.append("TESTS-FAIL " + o[-300:])
        for c in checks or [meta["property"]]:
            vd = d + "/verif"
            if not os.path.exists(vd):
                sh(f"cp -a {VERIF} {vd}; rm -rf {vd}/seeded {vd}/evidence; mkdir {vd}/evidence")
            rc, o = sh(f"./check {c}", cwd=vd, env={"NNJ_REPO": r, "VERIF_TIER": "quick", "VERIF_SEED": "1"})
            v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            res.append(f"{c}:" + ("caught" if rc == 1 and v else "missed" if rc == 0 else f"rc={rc} {o[-300:]}"))
    finally:
        shutil.rmtree(d)
    return bid, " ".join(res)


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "write":
        for p in args:
            write(p)
    elif cmd == "try":
        checks = None
        only = False
        ids = []
        jobs = 4
        for a in args:
            if a == "--all-checks":
                checks = [f"C{i:02d}" for i in range(1, 25)]
            elif a.startswith("--checks="):
                checks = a.split("=")[1].split(",")
            elif a == "--only-checks":
                only = True
            elif a.startswith("--jobs="):
                jobs = int(a.split("=")[1])
            else:
                ids.append(a)
        if not ids:
            ids = sorted(os.listdir(SEEDED))
        with ThreadPoolExecutor(jobs) as ex:
            for bid, r in ex.map(lambda i: tryone(i, checks, only), ids):
                print(f"{bid:34s} {r}", flush=True)
