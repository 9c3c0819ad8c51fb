#!/usr/bin/env python3
"""Author planted bugs: plant.py FILE.py [id ...]   (development tool; no check uses it)

FILE.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new[, count])], cases=[...])].
cases: {"d": dialect, "s": text} | {"d": "Force", "s": text}; the demonstration compares the outcomes of
the cases, made in this order in one process, with those of the unchanged tree, recorded here.
Instead of cases, demo="go source of package main" may be given.
Writes /verif/seeded/<id>/ only if the change applies, builds, passes the stable tests and the
demonstration tells the two trees apart."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
MAIN = r'''package main

// Makes the calls of cases.json, in order, in one process, and compares every outcome with the one
// noted there ("record": writes the outcomes instead).
import (
	"encoding/json"
	"fmt"
	"os"
	"time"

	"github.com/kodaimura/ddlparse"
)

type kase struct {
	D    string          `json:"d"`
	S    string          `json:"s"`
	Want json.RawMessage `json:"want,omitempty"`
}

func outcome(d, s string) (res string) {
	defer func() {
		if r := recover(); r != nil {
			res = fmt.Sprintf("panic: %v", r)
		}
	}()
	var tables []ddlparse.Table
	var err error
	switch d {
	case "Force":
		tables, err = ddlparse.ParseForce(s)
	default:
		tables, err = ddlparse.Parse(s, ddlparse.Rdbms(d))
	}
	if err != nil {
		if ve, ok := err.(ddlparse.ValidateError); ok {
			return fmt.Sprintf("error line %d near %q", ve.Line, ve.Near)
		}
		return "error " + err.Error()
	}
	b, _ := json.Marshal(tables)
	return string(b)
}

func main() {
	data, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var cases []kase
	if err := json.Unmarshal(data, &cases); err != nil {
		panic(err)
	}
	go func() {
		time.Sleep(20 * time.Second)
		fmt.Println("a call does not return")
		os.Exit(1)
	}()
	bad := 0
	for i := range cases {
		got := outcome(cases[i].D, cases[i].S)
		if len(os.Args) > 2 {
			cases[i].Want, _ = json.Marshal(got)
			continue
		}
		var want string
		json.Unmarshal(cases[i].Want, &want)
		if got != want {
			fmt.Printf("%s: %.300q\n got  %.600s\n want %.600s\n", cases[i].D, cases[i].S, got, want)
			bad = 1
		}
	}
	if len(os.Args) > 2 {
		out, _ := json.MarshalIndent(cases, "", " ")
		os.WriteFile(os.Args[1], append(out, '\n'), 0644)
	}
	os.Exit(bad)
}
'''
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0: behaves as it should, nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
cp "$here/main.go.txt" "$work/main.go"
printf 'module demo\\n\\ngo 1.20\\n\\nrequire github.com/kodaimura/ddlparse v0.0.0\\n\\nreplace github.com/kodaimura/ddlparse => %s\\n' "$repo" > "$work/go.mod"
cd "$work" && GOFLAGS=-mod=mod go build {race}-o demo . || exit 3
ulimit -v unlimited 2>/dev/null
timeout 60 ./demo {args}
'''


def sh(cmd, cwd, timeout=120):
    p = subprocess.run(["bash", "-c", cmd], cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def tests_pass(tree):
    rc, out = sh(". /opt/vp/env.sh; go build ./... && go vet ./... >/dev/null 2>&1; go test ./... 2>&1", tree)
    return rc == 0, out


def main():
    spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    only = set(sys.argv[2:])
    for b in m.BUGS:
        if only and b["id"] not in only:
            continue
        work = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
        try:
            tree, here = work + "/repo", work + "/seed"
            shutil.copytree("/repo", tree)
            os.mkdir(here)
            race = "-race " if b.get("race") else ""
            open(here + "/main.go.txt", "w").write(b.get("demo") or MAIN)
            open(here + "/demo.sh", "w").write(DEMO.format(race=race, args="" if b.get("demo") else '"$here/cases.json"'))
            if not b.get("demo"):
                json.dump(b["cases"], open(here + "/cases.json", "w"))
                rc, out = sh("bash %s/demo.sh" % here.replace("", ""), tree)   # builds; replaced below
                rec = open(here + "/demo.sh").read().replace('cases.json"', 'cases.json" record')
                open(work + "/rec.sh", "w").write(rec.replace('here=$(cd "$(dirname "$0")" && pwd)', "here=" + here))
                rc, out = sh("bash %s/rec.sh" % work, tree)
                if rc != 0:
                    print("%s: RECORD FAILED %s" % (b["id"], out[-400:]))
                    continue
            ok = True
            for e in b["edits"]:
                f = tree + "/" + e[0]
                s = open(f).read()
                n = e[3] if len(e) > 3 else 1
                if s.count(e[1]) != n:
                    print("%s: edit matches %d times in %s: %r" % (b["id"], s.count(e[1]), e[0], e[1][:60]))
                    ok = False
                    break
                open(f, "w").write(s.replace(e[1], e[2]))
            if not ok:
                continue
            rc, diff = sh("git diff", tree)
            open(here + "/patch.diff", "w").write(diff)
            good, out = tests_pass(tree)
            if not good:
                print("%s: DOES NOT BUILD OR TESTS FAIL\n%s" % (b["id"], out[-600:]))
                continue
            r1, o1 = sh("bash %s/demo.sh" % here, tree)
            sh("git checkout -q -- .", tree)
            r0, o0 = sh("bash %s/demo.sh" % here, tree)
            if r0 != 0 or r1 == 0:
                print("%s: DEMO clean=%d changed=%d\n%s\n%s" % (b["id"], r0, r1, o0[-500:], o1[-500:]))
                continue
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(here + "/meta.json", "w"), indent=1)
            os.chmod(here + "/demo.sh", 0o755)
            dst = os.path.join(SEEDED, b["id"])
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(here, dst)
            print("%s: kept" % b["id"])
        finally:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main()
