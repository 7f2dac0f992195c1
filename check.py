#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] | check.py --replay FILE | check.py --list"""
import argparse
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    from vt import run, props
    if a.list:
        print("\n".join(sorted(props.PROPS)))
        return 0
    if a.replay:
        run.replay(a.replay)
        return 0
    p = props.PROPS[a.property]
    return run.run_property(a.property, p["fn"], a.tier, int(a.seed), p["rule"], p.get("level", "exploration"),
                            p.get("kinds", ("asan",)), required=p.get("required"), before=p.get("before"))


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
