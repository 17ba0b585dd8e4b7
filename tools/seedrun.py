#!/usr/bin/env python3
"""Applies each planted bug to /repo in turn, runs the given checks (default: its own property's), undoes it.
Usage: seedrun.py [--all] [--tier quick|thorough] [ID...]      writes /tmp/seedrun.tsv"""
import json, os, subprocess, sys, time, shutil
args = sys.argv[1:]
allp = "--all" in args
args = [a for a in args if a != "--all"]
V = os.environ.get("SEEDRUN_VERIF", "/verif")   # a copy of /verif whose harness/go.mod names REPO
REPO = os.environ.get("SEEDRUN_REPO", "/repo")
S = V + "/seeded"
ids = args or sorted(os.listdir(S))
props = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]] if allp else None
assert subprocess.run(["git", "-C", REPO, "status", "--porcelain"], capture_output=True, text=True).stdout == ""
env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
out = open(os.environ.get("SEEDRUN_OUT", "/tmp/seedrun.tsv"), "a")
for i in ids:
    meta = json.load(open(f"{S}/{i}/meta.json"))
    a = subprocess.run(["git", "-C", REPO, "apply", f"{S}/{i}/patch.diff"], capture_output=True, text=True)
    if a.returncode: print(i, "DOES NOT APPLY", a.stderr); continue
    try:
        res = {}
        for p in props or [meta["property"]]:
            t = time.time()
            r = subprocess.run([V + "/check.sh", p], cwd=V, env=env, capture_output=True, text=True, errors="replace")
            v = [l for l in r.stdout.splitlines() if l.startswith(f"VIOLATION property={p}")]
            res[p] = "caught" if r.returncode == 1 and v else f"rc{r.returncode}"
            res[p] += f"({time.time()-t:.0f}s)"
    finally:
        subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."])
    own = res.get(meta["property"])
    caught = [p for p in res if res[p].startswith("caught")]
    print(i, meta["property"], own, " ".join(caught) if allp else "", flush=True)
    out.write(f"{i}\t{meta['property']}\t{own}\t{' '.join(caught)}\n"); out.flush()
