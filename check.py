#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--runs N]
   check.py --replay FILE"""
import argparse
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    from dst import runner
    if len(sys.argv) > 2 and sys.argv[1] == "--child":
        cfg = json.loads(sys.stdin.read())
        runner.MODES[sys.argv[2]](cfg)
        return 2
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return runner.replay(a.replay)
    return runner.check(a.property, a.tier, a.seed, a.runs)


if __name__ == "__main__":
    sys.exit(main())
