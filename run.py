#!/usr/bin/env python3
"""run.py PROP            decides one property (quick or thorough by $VERIF_TIER)
   run.py replay FILE     executes a recorded failing case again
   run.py setup           builds everything once

Exit 0: the property held on everything explored; 1: violated (with a VIOLATION
line); 2: the check itself could not do its work.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B  # noqa: E402

PY = {"C26", "C27"}
VARIANTS = {"C04": ["tsan"]}
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or max(2, os.cpu_count() or 2)
IDLE_S, BUSY_S = 40, 100     # no progress while idle (deadlock) or busy (livelock)

ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=1:allocator_may_return_null=1:max_allocation_size_mb=3000:detect_stack_use_after_return=0:malloc_context_size=12:handle_abort=1",
    "LSAN_OPTIONS": "suppressions=" + VERIF + "/harness/lsan.supp:print_suppressions=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:history_size=4:suppressions=" + VERIF + "/harness/tsan.supp",
}


def known_findings():
    r = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                r[(m[1], m[2])] = m[3].strip()
    return r


def cpu_ticks(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            v = f.read().rsplit(")", 1)[1].split()
        return int(v[11]) + int(v[12])
    except (OSError, IndexError, ValueError):
        return -1


class Worker:
    def __init__(self, chk, tag, binary, args, env, start, step, to):
        self.chk, self.tag, self.binary, self.args, self.env = chk, tag, binary, args, env
        self.step, self.to, self.crashes, self.done = step, to, 0, False
        self.launch(start)

    def launch(self, start):
        self.start = start
        self.err = os.path.join(self.chk.dir, "err-" + self.tag)
        cmd = [*self.binary, "--seed", str(SEED), "--tier", TIER, "--from", str(start), "--step", str(self.step),
               "--to", str(self.to), "--dir", self.chk.dir, "--tag", self.tag]
        with open(self.err, "w") as e:
            self.p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=e, stderr=e, env=self.env, start_new_session=True,
                                      cwd=self.chk.dir)
        self.last, self.t_last, self.cpu, self.t_cpu = None, time.time(), -1, time.time()

    def current(self):
        try:
            with open(os.path.join(self.chk.dir, "cur-" + self.tag), errors="replace") as f:
                t = f.read().split("\0")[0]
            i, _, d = t.partition("\n")
            return int(i), d.strip()
        except (OSError, ValueError):
            return None, ""

    def poll(self):
        """None: running; otherwise ("exit", rc) or ("hang", why)."""
        rc = self.p.poll()
        if rc is not None:
            return "exit", rc
        now = time.time()
        cur = self.current()
        if cur != self.last:
            self.last, self.t_last = cur, now
            self.cpu, self.t_cpu = -1, now
            return None
        c = cpu_ticks(self.p.pid)
        if c - self.cpu > 10:
            self.cpu, self.t_cpu = c, now
        if now - self.t_last > IDLE_S and now - self.t_cpu > IDLE_S:
            return "hang", f"all threads have been waiting for {IDLE_S} s"
        if now - self.t_last > BUSY_S:
            return "hang", f"a case has not ended within {BUSY_S} s"
        return None

    def stacks(self):
        try:
            r = subprocess.run(["gdb", "-p", str(self.p.pid), "-batch", "-nx", "-ex", "thread apply all bt 25"],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
            return r.stdout[-12000:]
        except Exception:  # noqa: BLE001
            return ""

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        # The order of the entries of a directory depends on the order of their
        # creation on a tmpfs, but usually not on a disk.
        shm = "/dev/shm" if prop == "C22" and os.access("/dev/shm", os.W_OK) else None
        self.dir = tempfile.mkdtemp(prefix="verif-" + prop + "-", dir=shm)
        self.fails, self.cases, self.counters, self.sets, self.samples = [], {}, {}, {}, []
        self.errors = []

    # -- verdicts ---------------------------------------------------------
    def add_fail(self, key, msg, case=None, desc="", variant=None, log=""):
        self.fails.append({"key": key, "msg": msg, "case": case, "desc": desc, "variant": variant, "log": log})

    def sanitizer_key(self, log):
        for pat, name in ((r"runtime error: (.*)", "ubsan"), (r"Assertion '(.*?)' failed", "assertion"),
                          (r"terminate called", "terminate"), (r"ERROR: AddressSanitizer: ([\w-]+)", "asan"),
                          (r"WARNING: ThreadSanitizer: ([\w -]+)", "tsan"), (r"ERROR: (LeakSanitizer)", "leak")):
            m = re.search(pat, log)
            if m:
                what = m[1] if m.groups() else ""
                what = re.sub(r"0x[0-9a-f]+|\d+", "N", what).strip()
                what = re.sub(r"[^\w]+", "-", what)[:60].strip("-")
                return name + ("-" + what if what else "")
        return None

    def read_out(self, w):
        path = os.path.join(self.dir, "out-" + w.tag)
        done = False
        if not os.path.exists(path):
            return False
        for line in open(path, errors="replace"):
            try:
                r = json.loads(line)
            except ValueError:
                continue
            if "fail" in r:
                self.add_fail(r["key"], r["msg"], r["fail"], r.get("desc", ""), w.variant)
            elif "case" in r:
                self.cases[(w.variant, r["case"])] = (r["nt"], r["sig"])
                if "desc" in r and len(self.samples) < 12 and r["desc"]:
                    self.samples.append(r["desc"])
            elif "done" in r:
                done = True
                for k, v in r["counters"].items():
                    self.counters[k] = self.counters.get(k, 0) + v
                for k, v in r["sets"].items():
                    self.sets.setdefault(k, set()).update(v)
        os.unlink(path)
        return done

    # -- running ------------------------------------------------------------
    def run_variant(self, variant, binary, env, lo=0, hi=None, only=None):
        info = None
        for _ in range(2):
            why, log = "", ""
            try:
                r = subprocess.run([*binary, "--info", "1", "--tier", TIER], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, text=True, errors="replace", env=env, timeout=100)
                why, log = f"a process that only starts and ends returns {r.returncode}", r.stderr[-8000:]
                if r.returncode == 0:
                    info = json.loads(r.stdout)
                    break
            except subprocess.TimeoutExpired:
                why = "a process that only starts and ends does not do so"
        if info is None:
            # With the library loaded, or the Python package imported, nothing else has happened yet.
            self.add_fail("start", why + ": " + self.excerpt(log), None, "start of the process", variant, log)
            return
        self.rule = info["rule"]
        total = info["cases"]
        if os.environ.get("VERIF_CASES"):
            total = min(total, int(os.environ["VERIF_CASES"]))
        n = min(WORKERS, total)
        ws = []
        if only is not None:
            ws.append(Worker(self, variant + "-only", binary, [], env, only, 1, only + 1))
        else:
            for k in range(n):
                ws.append(Worker(self, f"{variant}-{k}", binary, [], env, k, n, total))
        for w in ws:
            w.variant = variant
        active = list(ws)
        while active:
            time.sleep(0.02)
            # A confirmed hang is enough; the others would have to run into it one after another.
            why = None
            if any(f["key"] == "hang" and (self.prop, "hang") not in known_findings() for f in self.fails):
                why = ""
            elif TIER == "quick" and time.time() - self.t0 > (300 if self.fails else 720):
                why = f"stopped after {time.time() - self.t0:.0f} s"
            if why is not None:
                for w in active:
                    w.kill()
                    self.read_out(w)
                if why:
                    self.errors.append(why)
                break
            for w in list(active):
                st = w.poll()
                if st is None:
                    continue
                kind, val = st
                cur, desc = w.current()
                if kind == "hang":
                    stacks = w.stacks()
                    w.kill()
                    if only is not None or "waiting" in val or self.rerun_hangs(variant, binary, env, cur):
                        self.add_fail("hang", f"{val}; case {cur}", cur, desc, variant, stacks)
                        w.crashes += 1
                        self.read_out(w)
                        active.remove(w)
                        break
                    else:
                        self.errors.append(f"case {cur} was slow once ({val}) and ended when executed again")
                else:
                    done = self.read_out(w)
                    if val in (0, 3) and done:
                        w.done = True
                        active.remove(w)
                        continue
                    log = open(w.err, errors="replace").read()
                    key = self.sanitizer_key(log)
                    if key is None and val == -signal.SIGKILL:
                        self.errors.append(f"a worker was killed at case {cur} (out of memory?)")
                        active.remove(w)
                        continue
                    if done and key and key.startswith("leak"):
                        self.add_fail(key, self.excerpt(log), None, "at the end of the process", variant, log[:20000])
                        active.remove(w)
                        continue
                    if cur is None:
                        self.errors.append(f"a worker failed to start: {log[-2000:]}")
                        active.remove(w)
                        continue
                    self.add_fail(key or "crash", f"the process ended with {val}: " + self.excerpt(log), cur, desc, variant, log[:20000])
                w.crashes += 1
                self.read_out(w)
                if only is not None or kind == "hang" or w.crashes >= 2 or cur is None or cur + w.step >= w.to or len(self.fails) >= 12:
                    active.remove(w)
                else:
                    w.launch(cur + w.step)

    def rerun_hangs(self, variant, binary, env, case):
        w = Worker(self, f"{variant}-again", binary, [], env, case, 1, case + 1)
        w.variant = variant
        while True:
            time.sleep(0.1)
            st = w.poll()
            if st:
                if st[0] == "hang":
                    w.kill()
                    return True
                self.read_out(w)
                return False

    @staticmethod
    def excerpt(log):
        lines = log.splitlines()
        for i, l in enumerate(lines):
            if re.search(r"ERROR: |runtime error|WARNING: ThreadSanitizer|terminate called|what\(\)", l):
                return " / ".join(x.strip() for x in lines[i:i + 14])[:3000]
        return " / ".join(lines[-5:])[:1500]

    # -- reporting ------------------------------------------------------------
    def finish(self, level="exploration"):
        known = known_findings()
        new, seen = [], []
        for f in self.fails:
            if (self.prop, f["key"]) in known:
                if f["key"] not in seen:
                    seen.append(f["key"])
                    print(f"KNOWN-FINDING: property={self.prop} {known[(self.prop, f['key'])]}")
            else:
                new.append(f)
        nt = {sig for (n, sig) in self.cases.values() if n}
        cov = {"evaluations": len(self.cases), "distinct_nontrivial": len(nt), "rule": getattr(self, "rule", ""),
               "samples": self.samples or ["(none)"]}
        if self.counters:
            cov["observed"] = dict(sorted(self.counters.items()))
        if self.sets:
            cov["distinct_observations"] = {k: len(v) for k, v in sorted(self.sets.items())}
        if self.errors:
            cov["inconclusive"] = self.errors[:10]
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level,
              "coverage": cov,
              "assumptions": ["The verdict covers the executions of this run only.",
                              "The oracle is the reference model in /verif/harness or the sanitizer runtime named in the technique."],
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        if new:
            d = os.path.join(VERIF, ".build", "replay")
            os.makedirs(d, exist_ok=True)
            shown = set()
            for f in new:
                if f["key"] in shown:
                    continue
                shown.add(f["key"])
                path = os.path.join(d, f"{self.prop}-{f['key'][:60].replace('/', '_')}.json")
                with open(path, "w") as o:
                    json.dump({"property": self.prop, "seed": SEED, "tier": TIER, **f}, o, indent=1)
                print(f"# {f['key']}: {f['msg'][:1500]}")
                print(f"#   case {f['case']}: {f['desc'][:1000]}")
                print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        if not nt or not self.cases:
            print("the check observed nothing:", "; ".join(self.errors)[:3000])
            return 2
        if len(self.errors) > 3:
            print("inconclusive:", "; ".join(self.errors)[:3000])
            return 2
        print(f"{self.prop}: held on {len(self.cases)} cases ({len(nt)} distinct, non-trivial), {ev['wall_s']} s")
        for e in self.errors:
            print("# inconclusive:", e[:500])
        return 0


def binaries(prop):
    """Yields (variant, command, environment)."""
    env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "MALLOC_PERTURB_")}
    env.update(ENV, LC_ALL="C.UTF-8", TZ="UTC")
    if prop in PY:
        out = B.build("py", ["python"])
        env.update(PYTHONPATH=out, PYTHONDONTWRITEBYTECODE="1", PYTHONMALLOC="malloc", OPENBLAS_NUM_THREADS="1")
        env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")
        lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
        # libstdc++ has to be there when the interceptors for exceptions are set up.
        lib += ":" + subprocess.run(["gcc", "-print-file-name=libstdc++.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
        env["VERIF_PRELOAD"] = lib
        yield "py", ["/usr/bin/env", "LD_PRELOAD=" + lib, "/usr/bin/python3", os.path.join(VERIF, "harness", prop + ".py")], env
        return
    for v in VARIANTS.get(prop, ["asan"]):
        out = B.build(v, [prop])
        cmd = [os.path.join(out, prop)]
        if v == "tsan":
            # ThreadSanitizer does not start with a strongly randomised address space.
            try:
                started = subprocess.run([*cmd, "--info", "1"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=100).returncode == 0
            except subprocess.TimeoutExpired:
                started = False
            if not started and shutil.which("setarch"):
                cmd = ["setarch", "-R", *cmd]
        yield v, cmd, env


def main():
    if sys.argv[1] == "setup":
        import glob
        names = [os.path.basename(p)[:-3] for p in sorted(glob.glob(VERIF + "/harness/C*.cc"))]
        for v in ("asan", "tsan"):
            t = [n for n in names if v in VARIANTS.get(n, ["asan"])]
            if t:
                B.build(v, t)
        B.build("py", ["python"])
        return 0
    if sys.argv[1] == "replay":
        global SEED, TIER
        with open(sys.argv[2]) as f:
            r = json.load(f)
        SEED, TIER = r["seed"], r["tier"]
        chk = Check(r["property"])
        for v, b, env in binaries(r["property"]):
            if r["variant"] in (None, v):
                chk.run_variant(v, b, env, only=r["case"])
        for f in chk.fails:
            print(f"{f['key']}: {f['msg']}\n  case {f['case']}: {f['desc']}\n{f['log'][:8000]}")
        shutil.rmtree(chk.dir, ignore_errors=True)
        return 1 if chk.fails else 0
    chk = Check(sys.argv[1])
    try:
        for v, b, env in binaries(chk.prop):
            chk.run_variant(v, b, env)
    except SystemExit:
        shutil.rmtree(chk.dir, ignore_errors=True)
        raise
    return chk.finish()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
