#!/usr/bin/env python3
"""Builds one planted bug's folder under /verif/seeded from a description (a Python file defining SEEDS).

Usage: mkseed.py DESCRIPTIONS.py [ID...]
Each entry: dict(id, property, needs, breaks, edits=[(file, old, new), ...], cases=[(path, doc, want)] or go=source or sh=source)
A case's want is the JSON text of the expected list, or "ERR" for an evaluation error, or "REJECT" when the path must not compile.
The folder is kept only if the patch builds, passes the stable tests, and the demonstration tells the trees apart.
"""
import json, os, shutil, subprocess, sys, tempfile, runpy
SEEDED = "/verif/seeded"

DEMO_SH = '''#!/bin/sh
# Runs with the repository as working directory: exit 0 if the property holds on the demonstrated input.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
mkdir "$work/home"
cp "$here/demo.go.txt" "$work/main.go"
[ -f "$here/cases.json" ] && cp "$here/cases.json" "$work/cases.json"
cat > "$work/go.mod" <<END
module demo

go 1.20

require github.com/forsyth/jsonpath v0.0.0

replace github.com/forsyth/jsonpath => $repo
END
cd "$work" || exit 3
GOFLAGS=-mod=mod go build %(flags)s -o "$work/demo" . || { rm -rf "$work"; exit 3; }
REPO="$repo" timeout 240 "$work/demo"
rc=$?
rm -rf "$work"
exit $rc
'''

CASES_GO = '''// Evaluates each case and compares the result list with what the property requires.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime/debug"
	"time"

	"github.com/forsyth/jsonpath"
)

type Case struct{ Path, Doc, Want string }

func eval(c Case) (got string) {
	defer func() {
		if r := recover(); r != nil {
			got = fmt.Sprint("PANIC ", r)
		}
	}()
	p, err := jsonpath.Compile(c.Path)
	if err != nil {
		return "REJECT"
	}
	var doc interface{}
	if err := json.Unmarshal([]byte(c.Doc), &doc); err != nil {
		panic(err)
	}
	vals, err := p.Eval(doc)
	if err != nil {
		return "ERR"
	}
	b, err := json.Marshal(vals)
	if err != nil {
		return fmt.Sprint("UNPRINTABLE ", err)
	}
	return string(b)
}

func main() {
	debug.SetMemoryLimit(1 << 30)
	go func() {
		time.Sleep(60 * time.Second)
		fmt.Println("did not finish")
		os.Exit(1)
	}()
	b, err := os.ReadFile("cases.json")
	if err != nil {
		panic(err)
	}
	var cases []Case
	if err := json.Unmarshal(b, &cases); err != nil {
		panic(err)
	}
	bad := 0
	for _, c := range cases {
		got := eval(c)
		if got == c.Want {
			continue
		}
		var x, y interface{}
		if json.Unmarshal([]byte(got), &x) == nil && json.Unmarshal([]byte(c.Want), &y) == nil && reflect.DeepEqual(x, y) {
			continue
		}
		fmt.Printf("%s on %s: got %s, want %s\\n", c.Path, c.Doc, got, c.Want)
		bad++
	}
	if bad > 0 {
		os.Exit(1)
	}
}
'''

def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

def main():
    desc = runpy.run_path(sys.argv[1])["SEEDS"]
    only = set(sys.argv[2:])
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for s in desc:
        if only and s["id"] not in only: continue
        tmp = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
        wt = os.path.join(tmp, "repo")
        run(["cp", "-a", "/repo", wt])
        run(["git", "checkout", "-q", "--", "."], cwd=wt)
        out = os.path.join(tmp, "out"); os.mkdir(out)
        if "go" in s or "cases" in s:
            open(out+"/demo.go.txt", "w").write(s.get("go", CASES_GO))
            open(out+"/demo.sh", "w").write(DEMO_SH % dict(flags=s.get("flags", "")))
            if "cases" in s:
                json.dump([dict(Path=a, Doc=b, Want=c) for a, b, c in s["cases"]], open(out+"/cases.json", "w"), indent=1)
        else:
            open(out+"/demo.sh", "w").write(s["sh"])
        for name, text in s.get("files", {}).items():
            open(out+"/"+name, "w").write(text)
        os.chmod(out+"/demo.sh", 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(out+"/meta.json", "w"), indent=1)
        open(out+"/meta.json", "a").write("\n")
        def fail(why):
            print(s["id"], "NOT KEPT:", why[:900])
        try:
            r0 = run([out+"/demo.sh"], cwd=wt)
            if r0.returncode != 0:
                fail("demo fails on unchanged tree: " + r0.stdout[-1500:] + r0.stderr[-1500:]); continue
            bad = False
            for f, old, new in s["edits"]:
                p = os.path.join(wt, f); t = open(p).read()
                if t.count(old) != 1:
                    fail(f"{f}: {t.count(old)} matches of {old!r}"); bad = True; break
                open(p, "w").write(t.replace(old, new))
            if bad: continue
            run(["gofmt", "-w"] + sorted({f for f, _, _ in s["edits"]}), cwd=wt)
            open(out+"/patch.diff", "w").write(run(["git", "diff"], cwd=wt).stdout)
            b = run(["go", "build", "./..."], cwd=wt)
            if b.returncode: fail("build: " + b.stderr); continue
            v = run(["go", "vet", "./mach", "./paths", "./cmd/..."], cwd=wt)
            if v.returncode: print(s["id"], "vet:", v.stderr[:200])
            t = run(["go", "test", "-count=1", "-json", "./..."], cwd=wt)
            ok = set()
            for line in t.stdout.splitlines():
                try: e = json.loads(line)
                except ValueError: continue
                if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"]+"/"+e["Test"])
            miss = stable - ok
            if miss: fail("tests: " + str(miss)); continue
            rc = [run([out+"/demo.sh"], cwd=wt) for _ in range(s.get("tries", 2))]
            if any(r.returncode == 0 for r in rc): fail("demo passes on the changed tree"); continue
            if any(r.returncode == 3 for r in rc): fail("demo does not build: " + rc[0].stderr); continue
            dst = os.path.join(SEEDED, s["id"])
            if os.path.isdir(dst): shutil.rmtree(dst)
            shutil.copytree(out, dst)
            print(s["id"], "kept:", (rc[0].stdout + rc[0].stderr).strip()[:110].replace("\n", " | "))
        finally:
            shutil.rmtree(tmp)

main()
