"Entry point of all checks: run.py PROPERTY [quick|thorough] [--replay FILE] [--jobs N]"

import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main() -> int:
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("tier", nargs="?", default="quick", choices=["quick", "thorough"])
    parser.add_argument("--replay")
    parser.add_argument("--jobs", type=int)
    args = parser.parse_args()

    sys.path.insert(0, HERE)
    # the code under test is what is in the working tree of the repository
    sys.path.insert(0, os.environ.get("MC_REPO", "/repo"))
    from core import run_check

    return run_check(args.property, args.tier, replay=args.replay, jobs=args.jobs)


if __name__ == "__main__":
    sys.exit(main())
