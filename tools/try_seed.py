#!/usr/bin/env python3
"""try_seed.py ID... [--checks own|all|C01,C02] [--seeds 1,2] [--nodemo]

Tries planted bugs in a private mount namespace: overlays of /repo and /verif/.build are
changed, never the real ones. Prints whether the change counts and which checks catch it.
"""
import argparse, glob, json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "27e0fe5"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def original_lines(patch):
    """The number of removed lines of the patch that stem from the original repository."""
    files, n, tot = {}, 0, 0
    cur = None
    for l in open(patch):
        if l.startswith("--- a/"):
            cur = l[6:].strip()
            files[cur] = set(sh(f"git -C /repo show {BASE}:{cur}").stdout.splitlines())
        elif l.startswith("-") and not l.startswith("---") and cur:
            tot += 1
            n += l[1:].rstrip("\n") in files[cur]
    return n, tot


def inside(a, sid):
    d = os.path.join(VERIF, "seeded", sid)
    meta = json.load(open(d + "/meta.json"))
    prop = meta["property"]
    res = {"id": sid, "property": prop}
    work = tempfile.mkdtemp(prefix="seed-")
    shutil.copytree(d, work + "/demo", ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    demo = f"cd /repo && timeout 300 bash {work}/demo/demo.sh"
    if not a.nodemo:
        r = sh(demo)
        res["demo_clean"] = r.returncode
        if r.returncode != 0:
            print(r.stdout[-3000:])
    r = sh(f"git -C /repo apply {d}/patch.diff")
    if r.returncode != 0:
        print(sid, "the patch does not apply:", r.stdout)
        return 1
    res["original_lines"] = "%d/%d" % original_lines(d + "/patch.diff")
    if not a.nodemo:
        r = sh(f"bash /opt/vp/test.sh {work}/o.json")
        t = json.load(open(work + "/o.json"))
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        bad = [x for x in stable if x not in t["passed"]]
        res["tests"] = "ok" if not bad else "FAIL " + ",".join(bad)[:300]
        if len(bad) > 5:
            print(r.stdout[-1500:])
        r = sh(demo)
        res["demo_bug"] = r.returncode
        res["demo_says"] = r.stdout.strip().splitlines()[-1:] if r.stdout.strip() else []
    checks = [prop] if a.checks == "own" else a.checks.split(",")
    if a.checks == "all":
        checks = [c["property"] if "property" in c else c["id"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]]
    for c in checks:
        for s in a.seeds.split(","):
            r = sh(f"cd /verif && VERIF_SEED={s} VERIF_TIER=quick timeout 900 python3 run.py {c}")
            m = re.findall(r"^# (\S+): (.*)", r.stdout, re.M)
            caught = r.returncode == 1 and f"VIOLATION property={c}" in r.stdout
            last = (r.stdout.strip().splitlines() or [""])[-1][:200]
            res[f"{c}/{s}"] = ("CAUGHT " + m[0][0] + ": " + m[0][1][:160] if m else "CAUGHT") if caught else f"missed rc={r.returncode} {last}"
    shutil.rmtree(work)
    for k, v in res.items():
        print(f"  {k}: {v}")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--checks", default="own")
    ap.add_argument("--seeds", default="1")
    ap.add_argument("--nodemo", action="store_true")
    ap.add_argument("--inside", action="store_true")
    a = ap.parse_args()
    if a.inside:
        return inside(a, a.ids[0])
    for sid in a.ids or sorted(os.listdir(VERIF + "/seeded")):
        t = tempfile.mkdtemp(prefix="ov-")
        os.makedirs(VERIF + "/.build", exist_ok=True)
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        m = ""
        for i, p in enumerate(("/repo", VERIF + "/.build", VERIF + "/evidence")):
            os.makedirs(f"{t}/u{i}")
            os.makedirs(f"{t}/w{i}")
            m += f"mount -t overlay overlay -o userxattr,lowerdir={p},upperdir={t}/u{i},workdir={t}/w{i} {p} && "
        args = f"--checks {a.checks} --seeds {a.seeds}" + (" --nodemo" if a.nodemo else "")
        subprocess.run(["unshare", "-Urm", "bash", "-c", m + f"python3 {VERIF}/tools/try_seed.py --inside {sid} {args}"])
        shutil.rmtree(t, ignore_errors=True)
        sys.stdout.flush()
    return 0


sys.exit(main())
