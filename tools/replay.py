#!/usr/bin/env python3
"""replay.py evidence/replay-ID.json - rebuilds the harness and replays the recorded choice sequence with its trace."""
import json, os, subprocess, sys, tempfile, shutil
sys.argv, path = sys.argv[:1] + ["C01"], sys.argv[1]
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(ROOT, "tools", "run.py")).read().replace("sys.exit(main())", "")
__file__ = os.path.join(ROOT, "tools", "run.py")
exec(src)
v = json.load(open(path))
work = tempfile.mkdtemp(dir="/tmp")
try:
    e = build(v["property"], v.get("flavor", "san"), os.path.join(work, "h"))
    if v.get("kind") == "does not compile":
        print(e or "it compiles now")
        sys.exit(1 if e else 0)
    if e:
        print(e)
        sys.exit(2)
    sys.exit(subprocess.run([os.path.join(work, "h"), "--tier", v["tier"]] + v["replay_args"].split(" "), env=dict(ENV, ASAN_OPTIONS=ENV["ASAN_OPTIONS"].replace("symbolize=0", "symbolize=1"))).returncode)
finally:
    shutil.rmtree(work, ignore_errors=True)
