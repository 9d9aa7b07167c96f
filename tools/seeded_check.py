#!/usr/bin/env python3
"""Runs each planted bug's own quick check against a scratch copy of /repo with the bug applied, and writes
tools/seeded_runs.json (for DESIGN.md). No check uses this."""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(ROOT, "tools", "seeded_runs.json")
runs = json.load(open(out)) if os.path.exists(out) else {}
sd = os.path.join(ROOT, "seeded")
ids = sys.argv[1:] or sorted(os.listdir(sd))
for i in ids:
    m = json.load(open(os.path.join(sd, i, "meta.json")))
    t = tempfile.mkdtemp(prefix="seeded-")
    ev = os.path.join(ROOT, "evidence", m["property"] + ".json")
    keep = open(ev).read() if os.path.exists(ev) else None
    try:
        shutil.copytree("/repo", t + "/r", symlinks=True, ignore=shutil.ignore_patterns("build", "bin", ".git"))
        subprocess.run(["patch", "-p1", "-s", "--binary", "-i", os.path.join(sd, i, "patch.diff")], cwd=t + "/r", check=True)
        r = subprocess.run(["python3", os.path.join(ROOT, "tools", "run.py"), m["property"], "quick"], env=dict(os.environ, VERIF_REPO=t + "/r"), capture_output=True, text=True)
        sc = re.search(r"^scenario (.*) \[", r.stdout, re.M)
        runs[i] = ("caught by %s" % sc.group(1) if sc else "caught") if r.returncode == 1 else "**missed** (exit %d)" % r.returncode
    finally:
        shutil.rmtree(t)
        if keep is not None:
            open(ev, "w").write(keep)
    print(i, runs[i], flush=True)
    runs = {k: runs[k] for k in sorted(runs) if os.path.isdir(os.path.join(sd, k))}
    json.dump(runs, open(out, "w"), indent=1)
