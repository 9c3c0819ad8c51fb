#!/usr/bin/env python3
"""Decide one property of kodaimura/ddlparse against the specification in spec/.

    check.py PROPERTY [--tier quick|thorough] [--seed N]      decide it
    check.py --replay FILE                                    show one recorded violation again

Exit 0: held on everything explored.  Exit 1 and a line "VIOLATION property=<id> replay=<path>":
violated.  Exit 2: the check could not be carried out."""
import argparse
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vt import core, decide     # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if not a.replay and not a.property:
        ap.error("property or --replay needed")
    ws = core.Workspace()
    try:
        if a.replay:
            return decide.replay(ws, json.load(open(a.replay)))
        return decide.run(ws, a.property, a.tier, a.seed)
    except core.CheckError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ws.close()


if __name__ == "__main__":
    sys.exit(main())
