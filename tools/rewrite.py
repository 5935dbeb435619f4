"""Runs the checks on a library written differently (tools/rewrite): every module rewritten, the behaviour the same. Not part of any check.

  rewrite.py [--only=linear,conv2d] C01 C02 ...
"""
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = [a[7:].split(",") for a in sys.argv if a.startswith("--only=")]
d = tempfile.mkdtemp(prefix="nnjrewrite.")
try:
    shutil.copytree("/repo/nnj", d + "/nnj")
    for f in os.listdir(VERIF + "/tools/rewrite"):
        if f.endswith(".py") and (not only or f[:-3] in only[0]):
            shutil.copy(f"{VERIF}/tools/rewrite/{f}", f"{d}/nnj/{f}")
    for c in [a for a in sys.argv[1:] if a.startswith("C")] or [f"C{i:02}" for i in range(1, 27)]:
        r = subprocess.run([VERIF + "/check", c], env=dict(os.environ, NNJ_REPO=d), capture_output=True, text=True)
        print(c, r.returncode, " | ".join(l[:300] for l in r.stdout.strip().splitlines()[-3:]), r.stderr[-300:] if r.returncode not in (0, 1) else "", flush=True)
finally:
    shutil.rmtree(d)
