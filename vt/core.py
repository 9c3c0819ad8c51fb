"""Running the real code (recording) and TLC (model checking, trace validation)."""
import base64
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(2, min(8, os.cpu_count() or 2))


class CheckError(Exception):
    """the check itself could not be carried out: neither held nor violated"""


def go_env():
    env = dict(os.environ)
    r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True)
    if r.returncode == 0:
        for kv in r.stdout.decode("utf-8", "replace").split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                env[k] = v
    return env


class Workspace:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="ddlverif.")
        self.n = 0

    def path(self, name):
        return os.path.join(self.dir, name)

    def fresh(self, name):
        self.n += 1
        return os.path.join(self.dir, "%d.%s" % (self.n, name))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ---------------------------------------------------------------------------
# the real code

def build(ws, race=False):
    """compile the harness against /repo's working tree"""
    src = ws.path("harness-src")
    if not os.path.isdir(src):
        os.mkdir(src)
        for f in os.listdir(os.path.join(VERIF, "harness")):
            if f.endswith(".go"):
                shutil.copy(os.path.join(VERIF, "harness", f), src)
        mod = open(os.path.join(VERIF, "harness", "go.mod")).read()
        open(os.path.join(src, "go.mod"), "w").write(mod.replace("=> /repo", "=> " + REPO))
    out = ws.path("harness-race" if race else "harness")
    cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + ["."]
    r = subprocess.run(cmd, cwd=src, env=go_env(), capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError("the code does not build:\n" + r.stderr[-4000:])
    return out


def _outcome(kind, note=""):
    return {"k": kind, "tabs": [], "l": 0, "near": note}


def wire(c):
    """a call as the harness reads it; a byte that is not UTF-8 is a lone surrogate (surrogateescape)"""
    try:
        c["s"].encode("utf-8")
        return {"d": c["d"], "s": c["s"]}
    except UnicodeEncodeError:
        return {"d": c["d"], "s": "", "b": base64.b64encode(c["s"].encode("utf-8", "surrogateescape")).decode()}


def chars(s):
    """the text as the specification sees it: bytes that are not UTF-8 are replacement characters"""
    return ["\ufffd" if "\udc80" <= c <= "\udcff" else c for c in s]


def _record_part(binary, inp, out, calls, limit, mode):
    """one worker process after another until every call of the part has an outcome (or, after
    several calls that did not return, what has been recorded until then)"""
    done, abnormal = 0, 0
    open(out, "w").close()
    while True:
        p = subprocess.run([binary, mode, inp, out, str(done), str(limit)],
                           capture_output=True, env=dict(os.environ, GOMAXPROCS="2", GOTRACEBACK="single"))
        with open(out, "rb") as f:
            data = f.read()
        if data and not data.endswith(b"\n"):         # half a line: the call did not finish
            data = data[:data.rfind(b"\n") + 1]
            with open(out, "wb") as f:
                f.write(data)
        done = data.count(b"\n")
        if p.returncode == 0 and done == len(calls):
            return done
        err = p.stderr[:2000].decode("utf-8", "replace")
        if p.returncode == 0 or done >= len(calls) or p.returncode == 2 and "goroutine" not in err:
            raise CheckError("recorder failed (%s): %s" % (p.returncode, err))
        if p.returncode == -15:
            raise CheckError("recorder was killed")
        kind = {3: "hang", 4: "memory", -9: "memory", 137: "memory"}.get(p.returncode, "crash")
        note = err[:300] if kind == "crash" else ""
        c = calls[done]
        rec = {"d": c["d"], "o": _outcome(kind, note)}
        rec.update({"nl": c["s"].count("\n"), "sub": False} if mode == "light" else
                   {"j": {"k": "null"}, "b": []} if mode == "form" else {"x": chars(c["s"]), "j": ""})
        with open(out, "a") as f:
            f.write(json.dumps(rec) + "\n")
        done += 1
        abnormal += 1
        if abnormal >= 4 or done == len(calls):
            return done


def record(ws, binary, calls, limit=10, parts=4, mode="record"):
    """outcomes of the real code as trace files: list of (path, number of lines, index of the first)"""
    parts = max(1, min(parts, len(calls)))
    step = (len(calls) + parts - 1) // parts
    jobs = []
    for i in range(0, len(calls), step):
        part = calls[i:i + step]
        inp, out = ws.fresh("in.ndjson"), ws.fresh("trace.ndjson")
        with open(inp, "w") as f:
            for c in part:
                f.write(json.dumps(wire(c)) + "\n")
        jobs.append((inp, out, part, i))
    with ThreadPoolExecutor(parts) as ex:
        ns = list(ex.map(lambda j: _record_part(binary, j[0], j[1], j[2], limit,
                                                 mode), jobs))
    return [(j[1], n, j[3]) for j, n in zip(jobs, ns)]


# ---------------------------------------------------------------------------
# TLC

def tlc(ws, module, cfg=None, env=None, workers=1, heap="3g", args=(), timeout=None, gc="Parallel"):
    meta = ws.fresh("meta")
    cmd = ["java", "-XX:+Use%sGC" % gc, "-Xmx" + heap, "-Xss64m", "-Dfile.encoding=UTF-8",
           "-Djava.io.tmpdir=" + ws.dir, "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-noTE",
           "-workers", str(workers), "-config", (cfg or module + ".cfg")] + list(args) + [module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC did not finish on %s in %s s" % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout.decode("utf-8", "replace")
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    res = {"module": module, "cfg": cfg or module + ".cfg", "rc": p.returncode, "out": out,
           "generated": int(m[-1][0]) if m else 0, "distinct": int(m[-1][1]) if m else 0,
           "wall_s": round(time.time() - t, 2)}
    return res


def tlc_ok(ws, module, **kw):
    r = tlc(ws, module, **kw)
    if r["rc"] == -9:                                  # ended from outside: memory was short
        time.sleep(5)
        r = tlc(ws, module, **kw)
    if r["rc"] != 0:
        tail = "\n".join(l for l in r["out"].splitlines()
                         if not re.match(r"(Parsing|Semantic|Linting|Progress)", l))
        raise CheckError("TLC failed on %s (%d):\n%s" % (module, r["rc"], tail[-3000:]))
    return r


def dump_spec(ws):
    from .gen import Spec
    out = ws.path("grammar.json")
    tlc_ok(ws, "Dump", env={"OUT": out})
    return Spec(out)


MODULE = {"P14": "EntryTrace", "P18": "JsonTrace"}
MODE = {"P01light": "light", "P14": "exact", "P18": "form"}


def validate(ws, prop, traces, workers=3, jvms=None):
    """refused call numbers and TLC statistics"""
    jvms = jvms or max(1, CORES // 2)

    def one(t):
        path, n, off = t
        r = tlc_ok(ws, MODULE.get(prop, "Trace"), env={"TRACE": path, "PROPERTY": prop}, workers=workers)
        if r["distinct"] != 2 * n:
            raise CheckError("trace not examined completely: %d of %d" % (r["distinct"], 2 * n))
        return r, [int(x) - 1 + off for x in re.findall(r"REFUSED (\d+)", r["out"])]
    with ThreadPoolExecutor(jvms) as ex:
        rs = list(ex.map(one, [t for t in traces if t[1]]))
    bad = sorted(set(b for _, bs in rs for b in bs))
    stats = {"states": sum(r["distinct"] for r, _ in rs), "transitions": sum(r["generated"] for r, _ in rs)}
    return bad, stats


def explain(ws, calls):
    """the outcomes the specification computes for a few calls"""
    tr, out = ws.fresh("explain.ndjson"), ws.fresh("explained.ndjson")
    with open(tr, "w") as f:
        for c in calls:
            f.write(json.dumps({"d": c["d"], "x": chars(c["s"])}) + "\n")
    tlc_ok(ws, "Explain", env={"TRACE": tr, "OUT": out})
    return [json.loads(l) for l in open(out, encoding="utf-8")]


def line_of(traces, i):
    for path, n, off in traces:
        if off <= i < off + n:
            with open(path) as f:
                for k, l in enumerate(f):
                    if k == i - off:
                        return json.loads(l)
    raise IndexError(i)


def emitted(out, mark):
    """JSON values printed by a specification as  "MARK {...}"  """
    return [json.loads(json.loads(l)[len(mark) + 1:]) for l in out.splitlines() if l.startswith('"' + mark + " ")]


def explore(ws, module, cfg, mark, timeout=900):
    """run a generating specification once per dialect (one worker each: the order of the emitted
    values is reproducible)"""
    def one(d):
        return tlc_ok(ws, module, cfg=cfg, env={"DIALECT": d}, workers=1, heap="4g", timeout=timeout)
    with ThreadPoolExecutor(3) as ex:
        rs = list(ex.map(one, ["SQLite", "PostgreSQL", "MySQL"]))
    vals = [v for r in rs for v in emitted(r["out"], mark)]
    total = {"module": module, "cfg": cfg, "distinct": sum(r["distinct"] for r in rs),
             "generated": sum(r["generated"] for r in rs), "wall_s": max(r["wall_s"] for r in rs)}
    return vals, total
