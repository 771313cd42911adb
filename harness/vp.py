"""The Python counterpart of verif.h: executes the cases of a Python harness with the
command line and the result files that run.py expects."""
import faulthandler, hashlib, json, os, random, shutil, sys, traceback


class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__(f"{key}: {msg}")
        self.key, self.msg = key, msg


def violate(key, msg):
    raise Violation(key, msg)


def check(cond, key, msg=""):
    if not cond:
        raise Violation(key, msg() if callable(msg) else str(msg))


def h64(s):
    if not isinstance(s, bytes):
        s = str(s).encode("utf-8", "surrogatepass")
    return hashlib.blake2b(s, digest_size=8).hexdigest()


class Case:
    def __init__(self, run, index):
        self.run, self.index, self.thorough, self.seed = run, index, run.thorough, run.seed
        self.rng = random.Random(f"{run.prop}/{run.seed}/{index}")
        self.scratch = run.scratch
        self.nontrivial, self.sig, self.desc = False, "", ""

    def describe(self, d):
        self.desc = str(d)
        self.run.current(self.index, self.desc)

    def count(self, name, n=1):
        self.run.counters[name] = self.run.counters.get(name, 0) + int(n)

    def observe(self, name, value):
        self.run.sets.setdefault(name, set()).add(h64(value))


class Run:
    def current(self, i, d):
        data = f"{i}\n{d}".replace("\0", " ").encode("utf-8", "replace")[:16000] + b"\0"
        os.pwrite(self.cur, data, 0)


def main(prop, rule, num_cases, run_case):
    faulthandler.enable()
    a = dict(zip(sys.argv[1::2], sys.argv[2::2]))
    r = Run()
    r.prop, r.thorough = prop, a.get("--tier") == "thorough"
    if "--info" in a:
        print(json.dumps({"cases": num_cases(r.thorough), "rule": rule, "property": prop}), flush=True)
        # How an interpreter ends is judged by the cases.
        os._exit(0)
    r.seed = int(a["--seed"])
    d, tag = a["--dir"], a["--tag"]
    r.scratch = os.path.join(d, "scratch-" + tag)
    os.makedirs(r.scratch, exist_ok=True)
    r.cur = os.open(os.path.join(d, "cur-" + tag), os.O_RDWR | os.O_CREAT, 0o644)
    r.counters, r.sets, fails = {}, {}, 0
    i = int(a["--from"])
    with open(os.path.join(d, "out-" + tag), "a") as out:
        while i < int(a["--to"]) and fails < 5:
            c = Case(r, i)
            c.describe("")
            key = msg = None
            try:
                run_case(c)
            except Violation as v:
                key, msg = v.key, v.msg
            except Exception as e:  # noqa: BLE001
                key, msg = "unexpected-exception", type(e).__name__ + ": " + str(e) + "\n" + traceback.format_exc()[-3000:]
            if key:
                # What hangs once is likely to do so again; there is no point in waiting for that.
                fails += 5 if key.endswith("/hang") else 1
                out.write(json.dumps({"fail": i, "key": key, "msg": msg[:6000], "desc": c.desc[:8000]}) + "\n")
            rec = {"case": i, "nt": 1 if c.nontrivial else 0, "sig": h64(c.sig or c.desc)}
            if i < 40:
                rec["desc"] = c.desc[:1500]
            out.write(json.dumps(rec) + "\n")
            out.flush()
            i += int(a["--step"])
        out.write(json.dumps({"done": 1, "next": i, "counters": r.counters, "sets": {k: sorted(v) for k, v in r.sets.items()}}) + "\n")
    shutil.rmtree(r.scratch, ignore_errors=True)
    sys.stdout.flush()
    # The interpreter is left without its finalisation; it is judged separately.
    os._exit(3 if fails else 0)
