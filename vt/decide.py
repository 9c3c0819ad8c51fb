"""The decision procedure: model checking of the specification, then conformance of the real code."""
import json
import os
import random
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

from . import core, corpora
from .gen import DIALECTS

# (module, quick configuration, deep configuration) checked for the property on the specification itself
MODELS = {
    "P01": [("MC_Lexer", "MC_Lexer.cfg", "MC_Lexer_deep.cfg")],
    "P02": [],
    "P03": [],
    "P04": [("MC_Lexer", "MC_Lexer.cfg", "MC_Lexer_deep.cfg")],
    "P05": [("MC_Concat", "MC_Concat.cfg", "MC_Concat_deep.cfg")],
    "P06": [], "P07": [], "P08": [], "P09": [],
    "P10": [("MC_Layout", "MC_Layout.cfg", "MC_Layout_deep.cfg")],
    "P11": [("MC_Lexer", "MC_Lexer.cfg", "MC_Lexer_deep.cfg")],
    "P12": [("MC_Layout", "MC_Case.cfg", "MC_Case_deep.cfg")],
    "P13": [("MC_Concat", "MC_Concat.cfg", "MC_Concat_deep.cfg")],
    "P14": [("MC_Entry", "MC_Entry.cfg", "MC_Entry.cfg")],
    "P15": [("MC_Names", "MC_Names.cfg", "MC_Names_deep.cfg")],
    "P16": [("MC_Sessions", "MC_Sessions.cfg", "MC_Sessions_deep.cfg")],
    "P17": [("MC_Numbers", "MC_Numbers.cfg", "MC_Numbers_deep.cfg"),
            ("MC_Floats", "MC_Floats.cfg", "MC_Floats_deep.cfg")],
    "P19": [("MC_Rename", "MC_Rename.cfg", "MC_Rename_deep.cfg")],
    "P18": [("MC_Json", "MC_Json.cfg", "MC_Json_deep.cfg")],
}
WALK = {"P01": "both", "P02": "right", "P03": "wrong", "P04": "lines", "P10": "own", "P12": "own", "P13": "own"}
SHARE = {"P03": 1.35, "P04": 1.35, "P10": 0.4, "P12": 0.4, "P13": 0.3, "P18": 0.4}
WRITTEN = {"P05", "P06", "P07", "P08", "P09", "P17", "P18"}

# how much of the random part of each corpus one round takes
SCALE = {"quick": 2.5, "thorough": 4}
EMITTED = {"quick": 180000, "thorough": 400000}
BUDGET = {"quick": 60, "thorough": 420}          # seconds within which further rounds begin
LARGE = {"quick": 14, "thorough": 28}
MIXED = {"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08"}     # relations about any text
COMPANY = {"P02", "P05", "P06", "P07", "P08", "P17"}

ASSUMPTIONS = [
    "letter case is ASCII case; bytes that are not UTF-8 count as replacement characters",
    "the projection in harness/project.go shows all exported fields of the results",
]


BURST = 1000000       # see harness/session.go
MEMORY = "the session needs more and more memory"


class Result:
    def __init__(self):
        self.states = self.transitions = self.calls = self.accepted = 0
        self.models, self.samples, self.violations, self.extra = [], [], [], {}

    def model(self, r):
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append({k: r[k] for k in ("module", "cfg", "distinct", "generated", "wall_s")})


def known_findings():
    p = os.path.join(core.VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def run(ws, prop, tier, seed):
    t0 = time.time()
    if prop not in MODELS:
        raise core.CheckError("unknown property " + prop)
    res = Result()
    fn = {"P14": entry_points, "P16": sessions}.get(prop, conformance)
    fn(ws, prop, tier, seed, res)
    findings(ws, prop, res)
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    cov = {"states": res.states, "transitions": res.transitions,
           "traces_validated_against_impl": res.calls, "samples": res.samples[:6],
           "accepted_by_specification": res.accepted, "model_runs": res.models}
    cov.update(res.extra)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "wall_s": round(time.time() - t0, 1), "violations": len(res.violations), "assumptions": ASSUMPTIONS}
    with open(os.path.join(core.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s seed=%d: %d states, %d calls validated, %d violations, %.0f s" % (
        prop, tier, seed, res.states, res.calls, len(res.violations), time.time() - t0))
    if not res.violations:
        return 0
    os.makedirs(os.path.join(core.VERIF, "replays"), exist_ok=True)
    path = os.path.join(core.VERIF, "replays", "%s.json" % prop)
    v = res.violations[0]
    with open(path, "w") as f:
        json.dump(dict(v, property=prop), f, indent=1)
        f.write("\n")
    show(v)
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def show(v):
    def cut(x):
        s = x if isinstance(x, str) else json.dumps(x, ensure_ascii=False)
        s = s.encode("utf-8", "backslashreplace").decode()
        return s if len(s) < 1500 else s[:1500] + " ..."
    for k in ("what", "d", "s", "got", "want"):
        if k in v:
            print("  %-5s %s" % (k, cut(v[k])))


def findings(ws, prop, res):
    """the listed defects: reported as known only while the listed calls still fail"""
    mine = [f for f in known_findings()["findings"] if f["property"] == prop]
    for f in mine:
        tr = core.record(ws, ws.path("harness"), f["rejected_calls"], parts=1)
        still = [c for i, c in enumerate(f["rejected_calls"]) if core.line_of(tr, i)["o"]["k"] != "ok"]
        if still:
            print("KNOWN-FINDING: property=%s %s, for example %s: %s" % (prop, f["what"], still[0]["d"], still[0]["s"]))


# ---------------------------------------------------------------------------
# model checking and generation from the specification

def check_models(ws, prop, tier, res, workers):
    for module, quick, deep in MODELS[prop]:
        res.model(core.tlc_ok(ws, module, cfg=quick if tier == "quick" else deep, workers=workers, heap="6g"))


def generate(ws, prop, tier, res):
    deep = tier == "thorough"
    if prop in WALK:
        vals, r = core.explore(ws, "Walk", "Walk_deep.cfg" if deep else "Walk.cfg", "WALK")
    elif prop in WRITTEN:
        vals, r = core.explore(ws, "Meaning", "Meaning_deep.cfg" if deep else "Meaning.cfg", "WRITTEN")
    else:
        return []
    res.model(r)
    return vals


def emitted_calls(c, prop, vals, limit):
    if prop in WALK:
        out = []
        kind = WALK[prop]
        limit = int(limit * SHARE.get(prop, 1))
        if kind == "own":
            return getattr(corpora, "walk_" + prop)(c, vals, limit)
        if kind in ("right", "both"):
            out += corpora.walk_right(c, vals, limit // (2 if kind == "both" else 1))
        if kind in ("wrong", "both", "lines"):
            out += corpora.walk_wrong(c, vals, limit // (2 if kind == "both" else 1), kind == "lines")
        return out
    return corpora.written(c, vals, int(limit * SHARE.get(prop, 1)))


# ---------------------------------------------------------------------------
# conformance of single calls

def violating(calls, bad):
    """refused calls that violate the property; a call related to others (base) violates it only if
    the calls it is related to were explained"""
    bads = set(bad)
    return [i for i in bad if not any(b in bads for b in calls[i].get("base", ()))]


def confirm(ws, binary, prop, calls, cand, traces):
    """the refused calls again, one process each; the shortest first"""
    cand = sorted(cand, key=lambda i: len(calls[i]["s"]))[:30]
    out = []
    for i in cand[:30]:
        c = {"d": calls[i]["d"], "s": calls[i]["s"]}
        tr = core.record(ws, binary, [c], mode=core.MODE.get(prop, "record"))
        bad, _ = core.validate(ws, prop, tr, workers=1)
        if bad:
            v = dict(c, what="the call is not one the specification allows", got=core.line_of(tr, 0)["o"])
            if prop == "P18":
                v.update(what="the JSON form of the result is not the documented one", got=core.line_of(tr, 0))
            elif not prop.startswith("P01"):
                v["want"] = core.explain(ws, [c])[0]
            if calls[i].get("base"):
                v["related_to"] = [calls[b]["s"] for b in calls[i]["base"]]
            out.append(v)
            return out
    return out


def again(ws, binary, prop, calls, cand, traces):
    """refused calls that are explained when made alone: the whole history once more"""
    for path, n, off in traces:
        mine = [i for i in cand if off <= i < off + n]
        if mine:
            part = [{"d": c["d"], "s": c["s"]} for c in calls[off:off + n]]
            tr = core.record(ws, binary, part, parts=1, mode=core.MODE.get(prop, "record"))
            bad, _ = core.validate(ws, prop, tr, workers=4)
            both = sorted(set(b + off for b in bad) & set(mine))
            if both:
                i = both[0]
                return [{"what": "the call is not one the specification allows after the calls before it",
                         "d": calls[i]["d"], "s": calls[i]["s"], "got": core.line_of(tr, i - off)["o"],
                         "history": part[:i - off + 1]}]
    return []


def one_round(ws, binary, prop, calls, res, light=False):
    name = "P01light" if light else prop
    traces = core.record(ws, binary, calls, mode=core.MODE.get(name, "record"), limit=20 if light else 10)
    bad, st = core.validate(ws, name, traces)
    res.states += st["states"]
    res.transitions += st["transitions"]
    res.calls += sum(t[1] for t in traces)
    for t in traces:
        with open(t[0]) as f:
            res.accepted += sum('"o":{"k":"ok"' in l for l in f)
    for i in (0, len(calls) // 2, len(calls) - 1):
        if len(calls[i]["s"]) < 400 and len(res.samples) < 6:
            res.samples.append({"d": calls[i]["d"], "s": calls[i]["s"]})
    cand = violating(calls, bad)
    if not cand:
        return
    found = confirm(ws, binary, name, calls, cand, traces) or (
        [] if light else again(ws, binary, name, calls, cand, traces))
    if not found:
        # the outcome differs from run to run; what was recorded is still an execution of the real code,
        # unless it is a limit of time or memory, which the machine may have caused
        for i in cand:
            got = core.line_of(traces, i)["o"]
            if got["k"] in ("ok", "err"):
                found = [{"what": "the call is not one the specification allows (not in every run)",
                          "d": calls[i]["d"], "s": calls[i]["s"], "got": got}]
                break
    if not found:
        raise core.CheckError("%d refused calls could not be reproduced, first: %r" % (len(cand), calls[cand[0]]))
    found[0]["refused_calls"] = len(cand)
    found[0]["relation"] = name
    res.violations += found


def joined(a, b):
    """two lists of calls in one, base indices adapted"""
    n = len(a)
    return a + [dict(x, base=[i + n for i in x["base"]]) if "base" in x else x for x in b]


def corpus(c, prop):
    calls = getattr(corpora, prop)(c)
    if prop in COMPANY:
        calls = calls + corpora.company(c, calls)
    return calls + corpora.mixed(c, prop) if prop in MIXED else calls


def conformance(ws, prop, tier, seed, res):
    t0 = time.time()
    quick = tier == "quick"
    with ThreadPoolExecutor(3) as ex:
        fb = ex.submit(core.build, ws)
        fs = ex.submit(core.dump_spec, ws)
        binary, spec = fb.result(), fs.result()
        fg = ex.submit(generate, ws, prop, tier, res)
        if not quick:
            check_models(ws, prop, tier, res, 8)
        else:
            fm = ex.submit(check_models, ws, prop, tier, res, 3)
        c = corpora.Ctx(spec, seed, SCALE[tier])
        calls = corpus(c, prop)
        vals = fg.result()
        if quick:
            fm.result()
    if vals:
        calls = joined(calls, emitted_calls(c, prop, vals, EMITTED[tier]))
    res.extra["emitted_by_specification"] = len(vals)
    res.extra["distinct_calls"] = len(set((x["d"], x["s"]) for x in calls))
    one_round(ws, binary, prop, calls, res)
    if prop == "P01" and not res.violations:
        one_round(ws, binary, prop, corpora.P01_huge(c), res, light=True)
    if not res.violations:
        one_round(ws, binary, prop, corpora.large(c, prop, LARGE[tier]), res)
    alts = [g.coverage() for g in c.gens if hasattr(g, "coverage")]
    if alts:
        res.extra["grammar_alternatives_used"] = sum(a[0] for a in alts if isinstance(a, tuple))
    r = 0
    while not res.violations and time.time() - t0 < BUDGET[tier]:
        r += 1
        c = corpora.Ctx(spec, seed * 1000003 + r, SCALE[tier])
        calls = corpus(c, prop)
        if vals:
            calls = joined(calls, emitted_calls(c, prop, vals, EMITTED[tier] // 5))
        one_round(ws, binary, prop, calls, res)
    res.extra["rounds"] = r + 1


# ---------------------------------------------------------------------------
# P14

def entry_round(ws, binary, texts, res):
    calls = [{"d": e, "s": s} for s in texts for e in corpora.ENTRIES]
    k = len(corpora.ENTRIES)
    part = (len(texts) + 3) // 4 * k
    traces = []
    for i in range(0, len(calls), part):
        traces += core.record(ws, binary, calls[i:i + part], parts=1, mode="exact")
    joined, off = [], 0
    for path, n, _ in traces:
        out = ws.fresh("entry.ndjson")
        m = 0
        with open(path) as f, open(out, "w") as g:
            while True:
                ls = [f.readline() for _ in range(k)]
                if not ls[-1]:
                    break
                rs = [json.loads(l) for l in ls]
                o = {r["d"]: dict(r["o"], j=r.get("j", "")) for r in rs}
                if o["Force"]["k"] == "err" and not o["Force"]["tabs"]:      # no tables: nil or empty
                    o["Force"]["j"] = o["MySQL"]["j"]
                g.write(json.dumps({"parse": {d: o[d] for d in DIALECTS}, "force": o["Force"],
                                    "direct": {d: o["direct:" + d] for d in DIALECTS}}) + "\n")
                m += 1
        joined.append((out, m, off))
        off += part // k
    bad, st = core.validate(ws, "P14", joined)
    return bad, st, joined


def entry_points(ws, prop, tier, seed, res):
    t0 = time.time()
    quick = tier == "quick"
    with ThreadPoolExecutor(3) as ex:
        fb = ex.submit(core.build, ws)
        fm = ex.submit(check_models, ws, prop, tier, res, 2)
        spec = core.dump_spec(ws)
        binary = fb.result()
        fm.result()
    r = 0
    while True:
        c = corpora.Ctx(spec, seed * 1000003 + r if r else seed, SCALE[tier])
        texts = corpora.P14(c)
        bad, st, joined = entry_round(ws, binary, texts, res)
        res.states += st["states"]
        res.transitions += st["transitions"]
        res.calls += sum(j[1] for j in joined)
        for path, _, _ in joined:
            with open(path) as f:
                res.accepted += sum(json.loads(l)["force"]["k"] == "ok" for l in f)
        res.samples += [{"s": s} for s in texts[20:24] if len(s) < 400]
        if bad:
            for i in sorted(bad, key=lambda i: len(texts[i]))[:30]:
                b, _, j = entry_round(ws, binary, [texts[i]], res)
                if b:
                    res.violations.append({"what": "the entry points disagree on this text", "s": texts[i],
                                           "got": core.line_of(j, 0), "relation": "P14",
                                           "refused_calls": len(bad)})
                    return
            raise core.CheckError("disagreement of entry points could not be reproduced")
        r += 1
        if time.time() - t0 > BUDGET[tier]:
            break
    res.extra["rounds"] = r


# ---------------------------------------------------------------------------
# P16

def solo_outcomes(binary, texts):
    def one(t):
        p = subprocess.run([binary, "solo"], input=json.dumps(core.wire(t)).encode(), capture_output=True, timeout=120)
        if p.returncode != 0:
            return "abnormal %d" % p.returncode
        return p.stdout.decode().strip()
    with ThreadPoolExecutor(core.CORES) as ex:
        return list(ex.map(one, texts))


def run_session(ws, binary, texts, clients, shared, solo, race=False):
    """refused events of one session"""
    inp, out, sol = ws.fresh("session.json"), ws.fresh("session.ndjson"), ws.fresh("solo.ndjson")
    with open(inp, "w") as f:
        json.dump({"texts": [core.wire(t) for t in texts], "clients": clients, "shared": shared}, f)
    env = dict(os.environ, GORACE="halt_on_error=0 exitcode=66", GOTRACEBACK="single")
    p = subprocess.run([binary, "session", inp, out, "90"], capture_output=True, env=env)
    err = p.stderr.decode("utf-8", "replace")
    if not os.path.exists(out):
        if p.returncode == -15 or p.returncode == 2 and "goroutine" not in err:
            raise core.CheckError("session failed (%d): %s" % (p.returncode, err[-2000:]))
        err = {3: "the session does not end", 4: MEMORY, -9: MEMORY, 137: MEMORY}.get(p.returncode, err)
        open(out, "w").close()
        with open(out, "a") as f:
            f.write(json.dumps({"ev": "abnormal", "c": 0, "k": 0, "i": 0, "o": err[:300]}) + "\n")
    elif p.returncode not in (0, 66):
        raise core.CheckError("session failed (%d): %s" % (p.returncode, err[-2000:]))
    if "DATA RACE" in err:
        with open(out, "a") as f:
            f.write(json.dumps({"ev": "race", "c": 0, "k": 0, "i": 0, "o": err[:1500]}) + "\n")
    with open(sol, "w") as f:
        for o in solo:
            f.write(json.dumps({"o": o}) + "\n")
    r = core.tlc_ok(ws, "SessionsTrace", env={"TRACE": out, "SOLO": sol}, workers=1, heap="3g")
    with open(out) as f:
        events = [json.loads(l) for l in f]
    import re
    bad = [events[int(x) - 1] for x in re.findall(r"REFUSED (\d+)", r["out"])]
    return bad, events, r


def session_violation(texts, bad, events, clients, shared, race):
    e = bad[0]
    v = {"relation": "P16", "clients": clients, "shared": shared, "texts": texts, "race": race, "event": e,
         "refused_calls": len(bad)}
    if e["ev"] == "race":
        v["what"] = "data race between concurrent calls: " + e["o"]
    elif e["ev"] == "abnormal":
        v["what"] = "the process of the session ended abnormally: " + e["o"]
    elif e["ev"] == "reread":
        v["what"] = "a result already returned has changed"
        v.update(texts[e["k"]])
    else:
        v["what"] = "the outcome of the call differs from that of the same call made alone"
        v.update(texts[e["k"]])
    return v


def sessions(ws, prop, tier, seed, res):
    t0 = time.time()
    quick = tier == "quick"
    with ThreadPoolExecutor(4) as ex:
        fb = ex.submit(core.build, ws)
        fm = ex.submit(check_models, ws, prop, tier, res, 3)
        spec = core.dump_spec(ws)
        binary = fb.result()
        racy = core.build(ws, race=True)
        fm.result()
    r = 0
    while True:
        c = corpora.Ctx(spec, seed * 1000003 + r if r else seed, 1 if quick else 2)
        texts = corpora.P16(c)
        first = len(texts)
        texts += corpora.P16_cover(c)
        many = len(texts)
        texts += corpora.P16_many(c)
        solo = solo_outcomes(binary, texts)
        n, rng = many, random.Random(seed * 7 + r)
        runs = []
        order = list(range(n))
        for _ in range(2):                     # every call after every kind of predecessor, long histories
            ops = corpora.plan(rng, n, 2500)
            rng.shuffle(order)
            ops += order + order[::-1]
            runs.append((binary, [ops], True, False))
        for k in (2, 8):
            runs.append((binary, [corpora.plan(rng, n, 2400 // k) for _ in range(k)], True, False))
        for k in (4, 8):
            runs.append((racy, [corpora.plan(rng, n, 1600 // k) for _ in range(k)], False, True))
        same = [k for k in range(n) if len(texts[k]["s"]) < 300]
        for _ in range(2):                     # the same few calls at once, from a fresh process
            ks = rng.sample(same, 6)
            runs.append((racy, [[rng.choice(ks) for _ in range(60)] for _ in range(8)], False, True))

        cover = list(range(first, n))          # every clause of the grammar, by every client
        plans = []
        for _ in range(6):
            rng.shuffle(cover)
            plans.append(cover[:])
        runs.append((racy, plans, False, True))
        runs.append((binary, [plans[0] + plans[1]], True, False))

        # many calls: thousands of different texts, and hundreds of thousands of calls
        short = [k for k in range(len(texts)) if len(texts[k]["s"]) < 200]
        ops = []
        for times in (1, 1, 30):
            rng.shuffle(short)
            ops += [times * BURST + k for k in short]
        runs.append((binary, [ops], True, False))
        runs.append((binary, [[rng.choice([1, 1, 20]) * BURST + k for k in rng.sample(short, len(short) // 2)] for _ in range(4)], True, False))

        def go(x):
            return run_session(ws, x[0], texts, x[1], x[2], solo, x[3])
        with ThreadPoolExecutor(4) as ex:
            outs = list(ex.map(go, runs))
        for x, (bad, events, tl) in zip(runs, outs):
            res.states += tl["distinct"]
            res.transitions += tl["generated"]
            res.calls += len(events)
        res.extra["calls_in_sessions"] = res.extra.get("calls_in_sessions", 0) + sum(
            e["ev"] == "end" or e["ev"] == "burst" and e["i"] for _, es, _ in outs for e in es)
        res.extra["different_calls"] = res.extra.get("different_calls", 0) + n
        res.samples += [{"clients": len(x[1]), "race_detector": x[3], "events": es[:4]} for x, (_, es, _) in zip(runs, outs)][:4]
        for x, (bad, events, _) in zip(runs, outs):
            if bad:
                # once more: the same session (up to scheduling), several times if it is concurrent
                limits = bad[0]["ev"] == "abnormal" and bad[0]["o"].startswith("the session")
                for _ in range(1 if len(x[1]) == 1 else 2 if limits else 6):
                    b2, e2, _ = go(x)
                    if b2:
                        v = session_violation(texts, b2, e2, x[1], x[2], x[3])
                        res.violations.append(v)
                        return
                # not reproduced: what was observed is still an execution of the real code
                if not limits:
                    res.violations.append(session_violation(texts, bad, events, x[1], x[2], x[3]))
                    return
                raise core.CheckError("refused event could not be reproduced: %r" % bad[0])
        r += 1
        if time.time() - t0 > BUDGET[tier]:
            break
    res.extra["rounds"] = r


# ---------------------------------------------------------------------------

def replay(ws, v):
    rel = v["relation"]
    if rel == "P16":
        binary = core.build(ws, race=v["race"])
        solo = solo_outcomes(core.build(ws), v["texts"])
        for _ in range(10):
            bad, events, _ = run_session(ws, binary, v["texts"], v["clients"], v["shared"], solo, v["race"])
            if bad:
                show(session_violation(v["texts"], bad, events, v["clients"], v["shared"], v["race"]))
                return 1
        return 0
    binary = core.build(ws)
    if rel == "P14":
        bad, _, j = entry_round(ws, binary, [v["s"]], None)
        show({"s": v["s"], "got": core.line_of(j, 0)})
        return 1 if bad else 0
    calls = v.get("history") or [{"d": v["d"], "s": v["s"]}]
    tr = core.record(ws, binary, calls, parts=1, mode=core.MODE.get(rel, "record"))
    bad, _ = core.validate(ws, rel, tr)
    show({"d": v["d"], "s": v["s"], "got": core.line_of(tr, len(calls) - 1)["o"], "want": v.get("want", "")})
    return 1 if len(calls) - 1 in bad else 0
