"""Runs a finite list of cases over all cores, counts what was covered, writes evidence and replay files.

A check is a module of mc.checks with
    ID, LEVEL, RULE
    cases(tier)  -> iterable of JSON-able cases (the whole bounded space, no sampling)
    run(case)    -> Outcome
Every case is executed on the library in /repo. A case is a violation when run() returns a message; an exception of
the library that escapes run() is one as well (the cases only ask for what is supported)."""
import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, wait
from concurrent.futures.process import BrokenProcessPool

from . import env

EVIDENCE = os.path.join(env.VERIF, "evidence")
FINDINGS = os.path.join(env.VERIF, "KNOWN_FINDINGS.txt")
WORKERS = int(os.environ.get("MC_WORKERS", "8"))
DEADLINE = {"quick": 780.0, "thorough": 6 * 3600.0}
CASE_LIMIT = {"quick": 150, "thorough": 1800}


class Outcome:
    """states: distinct configurations (or machine states) visited; transitions: library calls judged; validated:
    results compared with the reference; skipped: left out because the reference sits on a kink"""

    __slots__ = ("message", "states", "transitions", "validated", "skipped", "refused", "extra")

    def __init__(self, message=None, states=1, transitions=0, validated=0, skipped=0, refused=0, extra=None):
        self.message, self.states, self.transitions = message, states, transitions
        self.validated, self.skipped, self.refused, self.extra = validated, skipped, refused, extra


class CaseTimeout(Exception):
    pass


def _alarm(signum, frame):
    raise CaseTimeout("the case did not finish in time")


def _one(mod, case, limit):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        out = mod.run(case)
    except Exception as e:  # the library raised where it must not
        tb = traceback.extract_tb(e.__traceback__)
        frames = [f for f in tb if f.filename.startswith(env.REPO)] or tb[-1:]
        f = frames[-1]
        out = Outcome(
            message=f"{type(e).__name__}: {str(e)[:300]} (raised at {os.path.basename(f.filename)}:{f.lineno})",
            transitions=1,
        )
    finally:
        signal.alarm(0)
    return out


def _chunk(name, chunk, limit):
    mod = importlib.import_module(f"mc.checks.{name}")
    bad = []
    tot = [0, 0, 0, 0, 0]
    extra = {}
    for case in chunk:
        out = _one(mod, case, limit)
        tot[0] += out.states
        tot[1] += out.transitions
        tot[2] += out.validated
        tot[3] += out.skipped
        tot[4] += out.refused
        for k, v in (out.extra or {}).items():
            extra[k] = max(extra.get(k, 0), v) if k.startswith("max_") else extra.get(k, 0) + v
        if out.message:
            bad.append((case, out.message))
            if len(bad) >= 3:
                break
    return len(chunk), tot, bad, extra


def findings(pid):
    """Lines "known: property=<id> case=<case hash> <what fails>" suppress exactly that case."""
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith(f"known: property={pid} case="):
                h, _, what = line[len(f"known: property={pid} case=") :].partition(" ")
                out[h] = what
    return out


def case_hash(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def write_replay(pid, case, message):
    d = os.path.join(EVIDENCE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{case_hash(case)}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "case": case, "message": message}, f, indent=1)
    return path


def execute(pid, tier):
    t0 = time.time()
    name = pid.lower()
    mod = importlib.import_module(f"mc.checks.{name}")
    cases = list(mod.cases(tier))
    # JSON round trip now, so that a replay is exactly what ran
    cases = json.loads(json.dumps(cases))
    distinct = len({json.dumps(c, sort_keys=True) for c in cases})
    size = getattr(mod, "CHUNK", None) or max(1, min(400, len(cases) // (WORKERS * 12) + 1))
    chunks = [cases[i : i + size] for i in range(0, len(cases), size)]
    known = findings(pid)
    tot, bad, done, extra, hit = [0] * 5, [], 0, {}, {}
    limit = CASE_LIMIT[tier]
    broken, stopped = None, False
    ctx = multiprocessing.get_context("fork")
    pool = ProcessPoolExecutor(max_workers=WORKERS, mp_context=ctx)
    pending = {pool.submit(_chunk, name, c, limit): c for c in chunks}
    try:
        while pending:
            left = DEADLINE[tier] - (time.time() - t0)
            ready, _ = wait(list(pending), timeout=max(left, 0.0), return_when=FIRST_COMPLETED)
            if not ready:
                stopped = True
                break
            for fut in ready:
                chunk = pending.pop(fut)
                try:
                    n, t, b, ex = fut.result()
                except BrokenProcessPool:
                    broken = ("crash", chunk[0], "a process executing these cases died")
                    break
                done += n
                tot = [a + c for a, c in zip(tot, t)]
                for k, v in ex.items():
                    extra[k] = max(extra.get(k, 0), v) if k.startswith("max_") else extra.get(k, 0) + v
                for case, msg in b:
                    h = case_hash(case)
                    if h in known:
                        hit[h] = known[h]
                    else:
                        bad.append((case, msg))
            if broken or len(bad) >= 3:
                break
    finally:
        procs = list((pool._processes or {}).values())
        pool.shutdown(wait=False, cancel_futures=True)
        # this process leaves by os._exit: no worker may outlive it and keep its output open
        for p in procs:
            p.kill()
        for p in procs:
            p.join(10)
    if broken:
        bad.append((broken[1], broken[2]))
    wall = time.time() - t0
    sample = cases[:: max(1, len(cases) // 4)][:5]
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": mod.LEVEL,
        "coverage": {
            "states": tot[0],
            "transitions": tot[1],
            "traces_validated_against_impl": tot[2],
            "evaluations": done,
            "distinct_nontrivial": distinct if done == len(cases) else min(done, distinct),
            "rule": mod.RULE,
            "samples": sample,
            "exhaustive": not bad and not stopped,
            "skipped_on_kinks": tot[3],
            "refusals_seen": tot[4],
            **extra,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", [])
        + [
            "the seed is not used: the space is enumerated, not sampled",
            "results are compared with the double precision reference model within rounding tolerance",
        ],
        "wall_s": round(wall, 2),
        "violations": len(bad),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, f".{pid}.{os.getpid()}.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, f"{pid}.json"))
    for h, what in hit.items():
        print(f"KNOWN-FINDING: property={pid} {what}")
    print(
        f"{pid} {tier}: {done}/{len(cases)} cases, {tot[0]} states, {tot[1]} transitions, {tot[2]} results validated, "
        f"{tot[3]} skipped, {tot[4]} refusals, {wall:.1f} s"
    )
    if stopped:
        print(f"{pid} {tier}: stopped at the time limit, the rest of the space was not explored")
    if bad:
        for case, msg in bad[:3]:
            path = write_replay(pid, case, msg)
            print(f"  {json.dumps(case)[:600]}\n  -> {msg}")
            print(f"VIOLATION property={pid} replay={path}")
        sys.stdout.flush()
        return 1
    sys.stdout.flush()
    return 0


def replay(path):
    r = json.load(open(path))
    mod = importlib.import_module(f"mc.checks.{r['property'].lower()}")
    out = _one(mod, r["case"], 600)
    if out.message:
        print(out.message)
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    print("the property holds on this case")
    return 0
