"""Process set-up shared by every check: one torch thread per process, and the code under check imported from
the repository's working tree (never from an installed copy, never from byte code)."""
import os
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
sys.dont_write_bytecode = True

REPO = os.path.realpath(os.environ.get("NNJ_REPO", "/repo"))
VERIF = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))

if REPO not in sys.path:
    sys.path.insert(0, REPO)

import warnings

warnings.filterwarnings("ignore")

import torch  # noqa: E402

torch.set_num_threads(1)


def load_nnj():
    import nnj

    where = os.path.realpath(nnj.__file__)
    if not where.startswith(REPO + os.sep):
        raise RuntimeError(f"nnj was imported from {where}, not from {REPO}")
    return nnj
