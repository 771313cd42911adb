#!/usr/bin/env python3
"""revert_fixes.py [COMMIT...]: reverts each fix: commit in a scratch clone and runs the check named in
fix_map.txt (or --all checks listed after a colon); prints which revert is reported."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = [l.split() for l in open(V + "/tools/fix_map.txt")]
only = set(sys.argv[1:])
R, B = "/tmp/rv/repo", "/tmp/rv/build"
os.makedirs("/tmp/rv", exist_ok=True)
if not os.path.exists(R):
    subprocess.check_call(["git", "clone", "-q", os.environ.get("SRC", "/repo"), R])
head = subprocess.check_output(["git", "-C", R, "rev-parse", "HEAD"], text=True).strip()
for h, *props in m:
    if only and h not in only:
        continue
    subprocess.check_call(["git", "-C", R, "reset", "-q", "--hard", head])
    s = subprocess.check_output(["git", "-C", R, "log", "-1", "--format=%s", h], text=True).strip()
    p = subprocess.run(["git", "-C", R, "revert", "-n", h], capture_output=True, text=True)
    if p.returncode != 0:
        print(h, "CONFLICT", s, flush=True)
        subprocess.run(["git", "-C", R, "revert", "--quit"], capture_output=True)
        continue
    subprocess.run(["git", "-C", R, "revert", "--quit"], capture_output=True)
    for prop in props:
        env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=B)
        p = subprocess.run(["python3", V + "/run.py", prop], env=env, capture_output=True, text=True)
        out = p.stdout.splitlines()
        why = next((l for l in out if l.startswith("# ")), out[-1] if out else "")[:160]
        print(h, prop, {0: "MISSED", 1: "caught"}.get(p.returncode, "rc=%d" % p.returncode), "|", s, "|", why, flush=True)
subprocess.call(["git", "-C", R, "reset", "-q", "--hard", head])
