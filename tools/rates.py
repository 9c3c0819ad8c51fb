#!/usr/bin/env python3
"""How many calls of each corpus the code accepts, by dialect (development tool): rates.py [P06 ...]"""
import collections
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import core, corpora, decide   # noqa: E402


def main():
    ws = core.Workspace()
    try:
        binary, spec = core.build(ws), core.dump_spec(ws)
        for p in sys.argv[1:] or sorted(set(decide.MODELS) - {"P14", "P16"}):
            t = time.time()
            c = corpora.Ctx(spec, 1, decide.SCALE["quick"])
            calls = getattr(corpora, p)(c)
            tr = core.record(ws, binary, calls, parts=8)
            n, ok = collections.Counter(), collections.Counter()
            for path, _, _ in tr:
                for l in open(path):
                    r = json.loads(l)
                    n[r["d"]] += 1
                    ok[r["d"]] += r["o"]["k"] == "ok"
            print(p, len(calls), " ".join("%s %d/%d" % (d, ok[d], n[d]) for d in sorted(n)), "%.0f s" % (time.time() - t), flush=True)
    finally:
        ws.close()


if __name__ == "__main__":
    main()
