"""Runs every k-th case of some checks in this process against NNJ_REPO and stops at the first violation (for mutate.py)."""
import importlib
import json
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import runner

budget = int(os.environ.get("PROBE_CASES", "700"))
for c in sys.argv[1:]:
    mod = importlib.import_module(f"mc.checks.{c.lower()}")
    cases = list(mod.cases("quick"))
    if c in ("C09", "C18", "C19", "C20"):
        n = budget // 40 + 1
    elif c in ("C12", "C16", "C11"):
        n = budget // 5
    else:
        n = budget
    random.Random(0).shuffle(cases)
    cases = json.loads(json.dumps(cases[:n]))
    for case in cases:
        out = runner._chunk(c.lower(), [case], 120)
        bad = out[2]
        if bad:
            print("KILLED", c, str(bad)[:200].replace("\n", " "))
            sys.exit(0)
print("SURVIVED")
