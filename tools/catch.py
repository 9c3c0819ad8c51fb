#!/usr/bin/env python3
"""Run the check of each planted bug's property against it: catch.py [--all] [--seed N] [id ...]
(development tool).  Works on a copy of /repo through VERIF_REPO; --all runs every property's check."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
PROPS = ["P%02d" % i for i in range(1, 20)]


def main():
    args = sys.argv[1:]
    every = "--all" in args
    seed = "1"
    if "--seed" in args:
        seed = args[args.index("--seed") + 1]
        args.remove(seed)
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(SEEDED))
    for i in ids:
        meta = json.load(open("%s/%s/meta.json" % (SEEDED, i)))
        work = tempfile.mkdtemp(prefix="catch.", dir="/tmp")
        try:
            tree = work + "/repo"
            shutil.copytree("/repo", tree)
            if subprocess.run(["git", "apply", "%s/%s/patch.diff" % (SEEDED, i)], cwd=tree).returncode:
                print("%-28s DOES NOT APPLY" % i)
                continue
            res = []
            for p in PROPS if every else [meta["property"]]:
                t = time.time()
                r = subprocess.run(["python3", os.path.join(HERE, "check.py"), p, "--tier", "quick", "--seed", seed],
                                   env=dict(os.environ, VERIF_REPO=tree), capture_output=True, text=True)
                res.append((p, r.returncode, time.time() - t))
                if r.returncode == 2:
                    print(r.stdout[-300:], r.stderr[-1500:])
            own = [x for x in res if x[0] == meta["property"]][0]
            print("%-28s %s %s %3.0f s%s" % (i, meta["property"], {0: "MISSED", 1: "caught", 2: "ERROR"}[own[1]], own[2],
                  "   caught by " + " ".join(x[0] for x in res if x[1] == 1) if every else ""), flush=True)
        finally:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main()
