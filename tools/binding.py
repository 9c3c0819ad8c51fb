#!/usr/bin/env python3
"""Is the binding of the specification to the recorded calls as tight as it is claimed to be?

    binding.py

Calls of the real code are recorded; every field of every recorded outcome is then corrupted, one at
a time, and the validation of the corrupted record must refuse it: for a field of a table, exactly the
property that speaks about that field (P05-P08), and P09; for the position of an error, P04 and P13;
for a decision, P02 or P03; for a value of the JSON form, P18; for an entry point, P14; for an event
of a session, P16.  The records as they were made must be explained."""
import copy
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import core     # noqa: E402

RIGHT = [
    ("SQLite", "CREATE TABLE IF NOT EXISTS main.t (\n id INTEGER CONSTRAINT p PRIMARY KEY AUTOINCREMENT, b TEXT NOT NULL"
               " UNIQUE DEFAULT 'x' CHECK (b > 1) COLLATE NOCASE REFERENCES o (q), UNIQUE (id, b), CONSTRAINT ck CHECK (id),"
               " FOREIGN KEY (b) REFERENCES r (z, w)) WITHOUT ROWID, STRICT;"),
    ("PostgreSQL", "CREATE TABLE t (id SERIAL, n NUMERIC(7,3) DEFAULT -1.5, CONSTRAINT pkx PRIMARY KEY (id, n),"
                   " CHECK (n > 0)); CREATE TABLE \"U v\" (x TIMESTAMP WITH TIME ZONE DEFAULT CURRENT_TIMESTAMP);"),
    ("MySQL", "CREATE TABLE s.t (id BIGINT AUTO_INCREMENT PRIMARY KEY, d DECIMAL(5,2) NOT NULL DEFAULT 0.25,"
              " UNIQUE KEY u (d), CONSTRAINT f FOREIGN KEY (id) REFERENCES y (id) ON DELETE CASCADE) ENGINE=InnoDB;"),
]
WRONG = [
    ("SQLite", "CREATE TABLE t (\n a INTEGER,\n b b b TEXT)"),
    ("PostgreSQL", "CREATE TABLE t (\n\n x INTEGER"),
    ("MySQL", "CREATE TABLE t (x VARCHAR(10)) 'open"),
]
FIELD = {"s": "P05", "n": "P05", "i": "P05"}
COLUMN = {"n": "P06", "t": "P06", "dn": "P06", "dm": "P06"}


def leaves(v, path=()):
    if isinstance(v, dict):
        for k in v:
            yield from leaves(v[k], path + (k,))
    elif isinstance(v, list) and path[-1:] not in (("x",),):
        yield path, "list"
        for i, w in enumerate(v):
            yield from leaves(w, path + (i,))
    else:
        yield path, "scalar"


def corrupted(v, path, how):
    v = copy.deepcopy(v)
    w = v
    for p in path[:-1]:
        w = w[p]
    x = w[path[-1]]
    if how == "list":
        w[path[-1]] = x[:-1] if x else None
    elif isinstance(x, bool):
        w[path[-1]] = not x
    elif isinstance(x, int):
        w[path[-1]] = x + 1
    else:
        w[path[-1]] = x + "?"
    return v


def owner(path):
    """the property that speaks about a field of the tables"""
    p = [k for k in path if isinstance(k, str)]
    if not p:
        return "P05"                     # the list of tables
    if p[0] == "c":
        return "P06" if len(p) == 1 else COLUMN.get(p[1], "P07")
    return FIELD.get(p[0], "P08")


def write(ws, recs):
    path = ws.fresh("bound.ndjson")
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps(r) + "\n")
    return [(path, len(recs), 0)]


def expect(ws, prop, recs, what):
    bad, _ = core.validate(ws, prop, write(ws, recs))
    missing = [what[i] for i in range(len(recs)) if i not in bad]
    print("%-4s %4d corrupted records, %4d refused%s" % (prop, len(recs), len(bad), " NOT REFUSED: %s" % missing if missing else ""))
    return not missing


def explained(ws, prop, recs):
    bad, _ = core.validate(ws, prop, write(ws, recs))
    if bad:
        print("%s refuses records that were not touched: %s" % (prop, bad))
    return not bad


def read(traces):
    return [json.loads(l) for t in traces for l in open(t[0], encoding="utf-8")]


def main():
    ws, ok = core.Workspace(), True
    try:
        binary = core.build(ws)
        recs = read(core.record(ws, binary, [{"d": d, "s": s} for d, s in RIGHT], parts=1))
        errs = read(core.record(ws, binary, [{"d": d, "s": s} for d, s in WRONG], parts=1))
        for r, k in [(r, "ok") for r in recs] + [(r, "err") for r in errs]:
            assert r["o"]["k"] == k, ("".join(r["x"]), r["o"])
        for p in ("P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P15", "P17", "ALL"):
            ok &= explained(ws, p, recs + errs)
        by = {}
        for r in recs:
            for path, how in leaves(r["o"]["tabs"], ()):
                if how == "list" and not dig(r["o"]["tabs"], path):
                    continue
                bad = dict(r, o=dict(r["o"], tabs=corrupted({"t": r["o"]["tabs"]}, ("t",) + path, how)["t"]))
                for p in (owner(path), "P09", "P10", "P11", "P12", "P13", "P15"):
                    by.setdefault(p, []).append((bad, path))
                if path[-1:] == ("df",):
                    by.setdefault("P17", []).append((bad, path))
        for r in errs:
            o = r["o"]
            for p in ("P04", "P13"):
                by.setdefault(p, []).append((dict(r, o=dict(o, l=o["l"] + 1)), "line"))
                by.setdefault(p, []).append((dict(r, o=dict(o, l=o["l"] - 1)), "line"))
                by.setdefault(p, []).append((dict(r, o=dict(o, near=o["near"] + "?")), "near"))
            by.setdefault("P10", []).append((dict(r, o=dict(o, near=o["near"] + "?")), "near"))
            by.setdefault("P01", []).append((dict(r, o=dict(o, l=99)), "line"))
            by.setdefault("P01", []).append((dict(r, o=dict(o, near="elsewhere")), "near"))
            for p in ("P01", "P03"):
                by.setdefault(p, []).append((dict(r, o=dict(o, tabs=recs[0]["o"]["tabs"])), "tables"))
            for p in ("P03", "P10", "P11", "P12", "P13", "P15", "P17"):
                by.setdefault(p, []).append((dict(r, o=recs[0]["o"]), "decision"))
            for k in ("panic", "crash", "hang", "memory"):
                for p in ("P01", "P03"):
                    by.setdefault(p, []).append((dict(r, o=dict(o, k=k)), k))
        for r in recs:
            for p in ("P02", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P15", "P17"):
                by.setdefault(p, []).append((dict(r, o=errs[0]["o"]), "decision"))
        for p in sorted(by):
            ok &= expect(ws, p, [b for b, _ in by[p]], [w for _, w in by[p]])

        # the JSON form
        forms = read(core.record(ws, binary, [{"d": d, "s": s} for d, s in RIGHT], parts=1, mode="form"))
        ok &= explained(ws, "P18", forms)
        bad, what = [], []
        for r in forms:
            for path, j in worse(r["j"]):
                bad.append(dict(r, j=j))
                what.append(("form", path))
            for path, how in leaves(r["b"], ()):
                if how == "scalar" or dig(r["b"], path):
                    bad.append(dict(r, b=corrupted({"t": r["b"]}, ("t",) + path, how)["t"]))
                    what.append(("decoded", path))
        ok &= expect(ws, "P18", bad, what)

        # the entry points
        texts = [s for _, s in RIGHT + WRONG]
        ds = ("SQLite", "PostgreSQL", "MySQL")
        names = [("parse", d, d) for d in ds] + [("direct", d, "direct:" + d) for d in ds] + [("force", "", "Force")]
        bad, what, good = [], [], []
        for s in texts:
            e = {"parse": {}, "direct": {}}
            outs = read(core.record(ws, binary, [{"d": n, "s": s} for _, _, n in names], parts=1, mode="exact"))
            for (kind, d, _), r in zip(names, outs):
                o = dict(r["o"], j=r.get("j", ""))
                if d:
                    e[kind][d] = o
                else:
                    e[kind] = o
            good.append(e)
            for d in ds:
                for path, how in leaves(e["direct"][d], ()):
                    if how == "scalar" or dig(e["direct"][d], path):
                        x = copy.deepcopy(e)
                        x["direct"][d] = corrupted(e["direct"][d], path, how)
                        bad.append(x)
                        what.append((d, path))
            for path, how in leaves(e["force"], ()):
                if how == "scalar" or dig(e["force"], path):
                    bad.append(dict(e, force=corrupted(e["force"], path, how)))
                    what.append(("force", path))
        ok &= explained(ws, "P14", good)
        ok &= expect(ws, "P14", bad, what)
        ok &= events(ws)
    finally:
        ws.close()
    print("the binding is as tight as claimed" if ok else "THE BINDING IS LOOSE")
    return 0 if ok else 1


def worse(j, path=()):
    """JSON forms that differ from j in one place that means something"""
    yield path, dict(j, k="null" if j["k"] != "null" else "bool")
    if j["k"] in ("str", "bool", "num"):
        yield path, dict(j, v=j["v"] + "?", c=(j.get("c") or "") + "?")
    if j["k"] == "list":
        for i, e in enumerate(j["e"]):
            yield path + (i,), dict(j, e=j["e"][:i] + j["e"][i + 1:])
            for p, x in worse(e, path + (i,)):
                yield p, dict(j, e=j["e"][:i] + [x] + j["e"][i + 1:])
    if j["k"] == "obj":
        yield path, dict(j, f=dict(j["f"], unknown=j))
        for n in j["f"]:
            yield path + (n,), dict(j, f={m: v for m, v in j["f"].items() if m != n})
            for p, x in worse(j["f"][n], path + (n,)):
                yield p, dict(j, f=dict(j["f"], **{n: x}))


def events(ws):
    """sessions: the events of two clients, each corrupted in turn"""
    solo, trace = ws.fresh("solo.ndjson"), ws.fresh("events.ndjson")
    with open(solo, "w") as f:
        for o in ("one", "two"):
            f.write(json.dumps({"o": o}) + "\n")
    good = [{"ev": "begin", "c": 1, "k": 0, "i": 0, "o": "", "os": []}, {"ev": "begin", "c": 2, "k": 1, "i": 0, "o": "", "os": []},
            {"ev": "end", "c": 2, "k": 1, "i": 0, "o": "two", "os": []}, {"ev": "end", "c": 1, "k": 0, "i": 0, "o": "one", "os": []},
            {"ev": "spoil", "c": 1, "k": 0, "i": 0, "o": "", "os": []}, {"ev": "reread", "c": 2, "k": 1, "i": 0, "o": "two", "os": []},
            {"ev": "begin", "c": 1, "k": 1, "i": 1, "o": "", "os": []}, {"ev": "end", "c": 1, "k": 1, "i": 1, "o": "two", "os": []},
            {"ev": "burst", "c": 1, "k": 0, "i": 2, "o": "", "os": ["one"]}]

    def refused(evs):
        with open(trace, "w") as f:
            for e in evs:
                f.write(json.dumps(e) + "\n")
        r = core.tlc_ok(ws, "SessionsTrace", env={"TRACE": trace, "SOLO": solo})
        return r["distinct"] == len(evs) + 1 and "REFUSED" in r["out"]
    bad = []
    for i, e in enumerate(good):
        if e["ev"] in ("end", "reread"):
            bad.append(good[:i] + [dict(e, o="two" if e["o"] == "one" else "one")] + good[i + 1:])
        if e["ev"] == "burst":
            bad.append(good[:i] + [dict(e, os=["one", "two"])] + good[i + 1:])
        if e["ev"] in ("begin", "end"):
            bad.append(good[:i] + good[i + 1:])                           # the event is lost
            bad.append(good[:i] + [dict(e, k=1 - e["k"])] + good[i + 1:])
        bad.append(good[:i + 1] + [dict(e, ev="race")] + good[i + 1:])
    n = sum(refused(b) for b in bad)
    print("P16  %4d corrupted sessions, %4d refused" % (len(bad), n))
    return not refused(good) and n == len(bad)


def dig(v, path):
    for p in path:
        v = v[p]
    return v


if __name__ == "__main__":
    sys.exit(main())
