import argparse
import os
import sys

from . import env  # noqa: F401
from . import runner


def main():
    a = argparse.ArgumentParser()
    a.add_argument("property", nargs="?")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=("quick", "thorough"))
    a.add_argument("--replay")
    args = a.parse_args()
    if args.replay:
        code = runner.replay(args.replay)
    else:
        code = runner.execute(args.property, args.tier)
    sys.stdout.flush()
    os._exit(code)


main()
