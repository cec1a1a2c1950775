#!/opt/venv/bin/python
"""Decide one property: `check.py C01 [--tier quick|thorough] [--replay FILE]`"""

import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--replay")
    parser.add_argument("--runs", type=int)
    parser.add_argument("--seconds", type=float)
    parser.add_argument("--procs", type=int)
    parser.add_argument("--base", type=int)
    parser.add_argument("-v", action="store_true")
    args = parser.parse_args()
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.path.insert(0, HERE)
    from simfi import boot

    boot.prepare()
    from simfi import probe, runner, seams

    seams.install()
    seams.install_deepcopy()
    probe.install()
    if args.replay:
        return runner.main_replay(args.property, args.replay)
    return runner.main_check(
        args.property, args.tier, args.runs, args.seconds, args.procs, args.base,
        args.v,
    )


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
