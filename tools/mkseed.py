#!/usr/bin/env python3
"""tools/mkseed.py SPEC.py: turns a seeded-bug description into /verif/seeded/<id>/.  Works on a scratch clone of /repo in /tmp/sb/repo."""
import sys, os, subprocess, json, runpy
S = runpy.run_path(sys.argv[1])
R = "/tmp/sb/repo"
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
if not os.path.isdir(R): sh("git", "clone", "-q", "/repo", R)
sh("git", "-C", R, "fetch", "-q"); sh("git", "-C", R, "checkout", "-qf", "--", "."); sh("git", "-C", R, "reset", "-q", "--hard", "origin/HEAD")
for f, old, new in S["edits"]:
    p = f"{R}/{f}"; s = open(p).read(); n = s.count(old)
    assert n == 1, f"{f}: {n} matches for {old!r}"
    open(p, "w").write(s.replace(old, new))
d = f"/verif/seeded/{S['id']}"; os.makedirs(d, exist_ok=True)
open(f"{d}/patch.diff", "w").write(sh("git", "-C", R, "diff").stdout)
t = open(os.path.dirname(os.path.abspath(__file__)) + "/demo.sh.tmpl").read().replace("@FEATURES@", ", ".join(f'"{x}"' for x in S["features"]))
open(f"{d}/demo.sh", "w").write(t); os.chmod(f"{d}/demo.sh", 0o755)
open(f"{d}/main.rs", "w").write(S["main"])
json.dump(dict(property=S["property"], needs=S["needs"], what_it_breaks=S["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
sh("git", "-C", R, "checkout", "-qf", "--", ".")
print(d)
