#!/usr/bin/env python3
"""Mutation testing of the corpora (development tool).

    mutants.py prepare               calls of every property and their outcomes on the unchanged tree
    mutants.py survivors             mutants that compile and pass the repository's tests
    mutants.py judge [N] [SEED]      which properties' corpora tell N of the survivors from the original
    mutants.py report

The outcomes of the unchanged tree are those the specification allows (the checks are quiet on it), so
a difference stands for a refused call; the relations below repeat spec/Properties.tla.  A mutant that
violates the relation of a property on some corpus, but not on the property's own, shows a gap in that
corpus.  Everything is kept in /tmp/mutants."""
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vt import core, corpora, decide      # noqa: E402

W = "/tmp/mutants"
PROPS = [p for p in sorted(decide.MODELS) if p not in ("P14", "P16", "P18")]


def same(fs):
    def rel(w, o):
        if w["k"] != "ok":
            return True
        return o["k"] == "ok" and [[json.dumps(f(t)) for f in fs] for t in w["tabs"]] == [
            [json.dumps(f(t)) for f in fs] for t in o["tabs"]]
    return rel


def cols(*ks):
    return lambda t: [[c[k] for k in ks] for c in t["c"]]


def heads(*ks):
    return lambda t: [t[k] for k in ks]


def decision(w, o):
    return w["k"] == o["k"] and w["tabs"] == o["tabs"]


REL = {
    "P01": lambda w, o: o["k"] == "ok" or o["k"] == "err" and not o["tabs"] and o["l"] > 0,
    "P02": lambda w, o: w["k"] != "ok" or o["k"] == "ok",
    "P03": lambda w, o: w["k"] != "err" or o["k"] == "err" and not o["tabs"],
    "P04": lambda w, o: not (w["k"] == "err" == o["k"]) or (w["l"], w["near"]) == (o["l"], o["near"]),
    "P05": same([heads("s", "n", "i")]),
    "P06": same([cols("n", "t", "dn", "dm")]),
    "P07": same([cols("cn", "pk", "uq", "nn", "ai", "df", "ck", "co", "rt", "rc")]),
    "P08": same([heads("pk", "uq", "ck", "fk")]),
    "P09": lambda w, o: w["k"] != "ok" or w == o,
    "P10": lambda w, o: decision(w, o) and w["near"] == o["near"],
    "P11": decision, "P12": decision, "P15": decision,
    "P13": lambda w, o: w == o,
    "P19": lambda w, o: w["k"] != "ok" or w == o,
    "P17": lambda w, o: w["k"] == o["k"] and same([cols("df")])(w, o),
}
# relations that are about all texts, not about texts related to each other
PLAIN = ["P02", "P03", "P04", "P05", "P06", "P07", "P08", "P17"]


def mute(p):
    return "%s/%s.calls" % (W, p)


def prepare():
    os.makedirs(W, exist_ok=True)
    ws = core.Workspace()
    try:
        binary, spec = core.build(ws), core.dump_spec(ws)
        for p in PROPS:
            c = corpora.Ctx(spec, 1, decide.SCALE["quick"])
            calls = getattr(corpora, p)(c)
            vals = decide.generate(ws, p, "quick", decide.Result())
            if vals:
                calls = decide.joined(calls, decide.emitted_calls(c, p, vals, decide.EMITTED["quick"]))
            with open("%s/%s.in" % (W, p), "w") as f:
                for x in calls:
                    f.write(json.dumps(core.wire(x)) + "\n")
            json.dump([x.get("base", []) for x in calls], open("%s/%s.base" % (W, p), "w"))
            out = "%s/%s.out" % (W, p)
            if os.path.exists(out):
                os.remove(out)
            subprocess.run([binary, "bare", "%s/%s.in" % (W, p), out, "0", "20"], check=True)
            print(p, len(calls), os.path.getsize(out), flush=True)
    finally:
        ws.close()


def tree(k):
    d = "%s/tree%d" % (W, k)
    if not os.path.isdir(d):
        shutil.copytree("/repo", d)
    return d


def key(e):
    return hashlib.sha1(json.dumps(e, sort_keys=True).encode()).hexdigest()[:10]


def mutants():
    env = core.go_env()
    b = W + "/mutate"
    subprocess.run(["go", "build", "-o", b, "."], cwd=HERE + "/tools/mutate", env=env, check=True)
    files = subprocess.run("ls ddlparse.go internal/*/*.go", shell=True, cwd="/repo", capture_output=True, text=True).stdout.split()
    out = subprocess.run([b] + files, cwd="/repo", capture_output=True, text=True, check=True).stdout
    return [json.loads(l) for l in out.splitlines()]


class Applied:
    def __init__(self, d, e):
        self.path = os.path.join(d, e["file"])
        self.src = open("/repo/" + e["file"], "rb").read()
        self.new = self.src[:e["off"]] + e["new"].encode() + self.src[e["end"]:]

    def __enter__(self):
        open(self.path, "wb").write(self.new)

    def __exit__(self, *a):
        open(self.path, "wb").write(self.src)


def pool(jobs, fn, n):
    import queue
    slots = queue.Queue()
    for i in range(n):
        slots.put(i)

    def go(j):
        k = slots.get()
        try:
            return fn(k, j)
        finally:
            slots.put(k)
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(go, jobs))


def survivors(n, seed):
    env = core.go_env()
    es = mutants()
    random.Random(seed).shuffle(es)
    es = es[:n]
    done = {}
    path = W + "/survivors.json"
    if os.path.exists(path):
        done = json.load(open(path))

    def one(k, e):
        if key(e) in done:
            return
        d = tree(k)
        with Applied(d, e):
            ok = False
            bins = []
            for pkg in (".", "./test"):
                b = "%s/t%d.%d" % (W, k, len(bins))
                r = subprocess.run(["go", "test", "-c", "-o", b, pkg], cwd=d, env=env, capture_output=True)
                if r.returncode:
                    break
                bins.append((b, pkg))
            if len(bins) == 2:
                ok = all(subprocess.run("ulimit -v 3000000; cd %s/%s && exec timeout -s KILL 10 %s" % (d, pkg, b), shell=True,
                                        capture_output=True).returncode == 0 for b, pkg in bins)
        done[key(e)] = dict(e, survives=ok)
        if len(done) % 50 == 0:
            json.dump(dict(done), open(path, "w"))
    pool(es, one, int(os.environ.get("JOBS", "6")))
    json.dump(done, open(path, "w"))
    print(len(done), sum(x["survives"] for x in done.values()))


def judge(n, seed):
    env = core.go_env()
    es = [e for e in json.load(open(W + "/survivors.json")).values() if e["survives"]]
    es.sort(key=key)
    random.Random(seed).shuffle(es)
    path = W + "/judged.json"
    done = json.load(open(path)) if os.path.exists(path) else {}
    if os.environ.get("NOWORDS"):         # without the entries of the reserved lists, which are all alike
        lists = {f: next((i for i, x in enumerate(open("/repo/" + f)) if x.startswith("var ReservedWords")), 10 ** 9) for f in {e["file"] for e in es}}
        es = [e for e in es if e["op"] != "string" or e["line"] <= lists[e["file"]]]
    es = [e for e in es if key(e) not in done][:n]
    bases = {p: json.load(open("%s/%s.base" % (W, p))) for p in PROPS}
    wants = {p: open("%s/%s.out" % (W, p)).read().splitlines() for p in PROPS}

    def one(k, e):
        d = tree(k)
        src = "%s/h%d" % (W, k)
        shutil.rmtree(src, ignore_errors=True)
        shutil.copytree(HERE + "/harness", src)
        mod = open(src + "/go.mod").read()
        open(src + "/go.mod", "w").write(mod.replace("=> /repo", "=> " + d))
        with Applied(d, e):
            r = subprocess.run(["go", "build", "-o", src + "/bin", "."], cwd=src, env=env, capture_output=True)
        if r.returncode:
            return
        res = {"own": [], "seen": {}, "example": {}}
        for p in PROPS:
            out = src + "/out"
            if os.path.exists(out):
                os.remove(out)
            r = subprocess.run([src + "/bin", "bare", "%s/%s.in" % (W, p), out, "0", "5"], capture_output=True)
            got = open(out).read().splitlines() if os.path.exists(out) else []
            diffs = {i: (json.loads(wants[p][i]), json.loads(got[i])) for i in range(len(got)) if got[i] != wants[p][i]}
            if r.returncode:
                diffs[len(got)] = (json.loads(wants[p][len(got)]), {"k": "crash", "tabs": [], "l": 0, "near": ""})
            bad = {i for i, (w, o) in diffs.items() if not REL[p](w, o)}
            if any(not any(b in bad for b in bases[p][i]) for i in bad):
                res["own"].append(p)
            for q in PLAIN + ["P01"]:
                hit = [i for i, (w, o) in diffs.items() if not REL[q](w, o)]
                if hit:
                    res["seen"][q] = res["seen"].get(q, 0) + len(hit)
                    if q not in res["example"]:
                        with open("%s/%s.in" % (W, p)) as f:
                            ls = f.read().splitlines()
                        x = json.loads(min((ls[i] for i in hit[:200]), key=len))
                        res["example"][q] = [p, x["d"], x["s"]]
            if diffs:
                res["example"].setdefault("any", [p, len(diffs)])
        done[key(e)] = dict(e, **res)
        json.dump(dict(done), open(path + ".part", "w"))
    try:
        pool(es, one, int(os.environ.get("JOBS", "4")))
    finally:
        json.dump(done, open(path, "w"))
    report()


def report():
    done = json.load(open(W + "/judged.json"))
    none = [e for e in done.values() if not e["own"]]
    print("judged %d, told apart by some property's own corpus %d" % (len(done), len(done) - len(none)))
    for e in sorted(none, key=lambda e: (e["file"], e["line"])):
        print("  NONE %s:%d %s %r any=%s" % (e["file"], e["line"], e["op"], e["new"][:60], e["example"].get("any")))
    for q in PLAIN + ["P01"]:
        gaps = [e for e in done.values() if q in e["seen"] and q not in e["own"]]
        print("%s: violated by %d, own corpus misses %d" % (q, sum(q in e["seen"] for e in done.values()), len(gaps)))
        for e in gaps[:25]:
            print("    %s:%d %s %r  %s" % (e["file"], e["line"], e["op"], e["new"][:50], e["example"][q]))


if __name__ == "__main__":
    a = sys.argv[1:]
    n, seed = int(a[1]) if len(a) > 1 else 10 ** 9, int(a[2]) if len(a) > 2 else 1
    {"prepare": prepare, "survivors": lambda: survivors(n, seed), "judge": lambda: judge(n, seed),
     "report": report}[a[0]]()
