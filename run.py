#!/usr/bin/env python3
"""Runs one check:  run.py PROPERTY [quick|thorough]
   Replays a case:  run.py replay FILE

Builds the monitor worker (mon/) against the working tree of /repo, runs it as several processes,
watches them, joins what they observed into evidence/PROPERTY.json and gives the verdict:

  exit 0  the property held on everything explored
  exit 1  a line "VIOLATION property=<id> replay=<path>"
  exit 2  no verdict (the worker does not build, observed nothing, ran out of wall-clock time)
"""
import array, json, os, re, resource, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
MON = os.path.join(HERE, "mon")
BUILD = os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "replays")
EVIDENCE = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.json")

# Checks whose worker is built with the race detector.
RACE = {"C01", "C14", "C17", "C22", "C38"}
# Checks which also drive the console program.
CONSOLE = {"C33", "C36"}
LEVEL = {"C19": "fault_enumeration", "C30": "fault_enumeration", "C34": "fault_enumeration"}

CASE_CPU = 150      # CPU seconds one case may use; cases normally use milliseconds
CASE_IDLE = 90      # seconds a worker may use no CPU at all inside one case
RSS_MAX = 6 << 30
TOTAL = {"quick": 800, "thorough": 6 * 3600}


def die(msg):
    sys.stderr.write(msg + "\n")
    sys.exit(2)


def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOSUMDB="off",
             GOFLAGS="-mod=readonly", GOMODCACHE=e.get("GOMODCACHE", "/root/go/pkg/mod"))
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.pop("GOROOT", None)
    return e


def build(race, console):
    """Returns (worker, console program); builds into a new directory under build/."""
    os.makedirs(BUILD, exist_ok=True)
    d = tempfile.mkdtemp(prefix="w", dir=BUILD)
    worker = os.path.join(d, "worker")
    e = env()
    e["CGO_ENABLED"] = "1" if race else "0"
    cmd = ["go", "build", "-o", worker] + (["-race"] if race else []) + ["."]
    r = subprocess.run(cmd, cwd=MON, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stderr.write(r.stdout.decode(errors="replace"))
        shutil.rmtree(d, ignore_errors=True)
        die("cannot build the worker")
    prog = ""
    if console:
        prog = os.path.join(d, "maho")
        r = subprocess.run(["go", "build", "-o", prog, "."], cwd="/repo", env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            sys.stderr.write(r.stdout.decode(errors="replace"))
            shutil.rmtree(d, ignore_errors=True)
            die("cannot build the console program")
    return d, worker, prog


def load_known(prop):
    """{signature: description} of the known findings of the property."""
    if not os.path.exists(KNOWN):
        return {}
    with open(KNOWN) as f:
        k = json.load(f)
    return {x["signature"]: x["description"] for x in k.get("findings", [])
            if x["property"] == prop}


def proc_stat(pid):
    """CPU seconds and resident bytes of a worker this driver started."""
    try:
        with open("/proc/%d/stat" % pid) as f:
            s = f.read()
        fields = s[s.rindex(")") + 2:].split()
        tck = os.sysconf("SC_CLK_TCK")
        return (int(fields[11]) + int(fields[12])) / tck, int(fields[21]) * os.sysconf("SC_PAGE_SIZE")
    except (OSError, ValueError, IndexError):
        return None


class Worker:
    def __init__(self, i, n, exe, prop, tier, seed, tmp, known, prog, extra=()):
        self.i = i
        self.out = os.path.join(tmp, "out%d" % i)
        self.progress = os.path.join(tmp, "progress%d" % i)
        self.stderr = os.path.join(tmp, "stderr%d" % i)
        e = env()
        e["GOTRACEBACK"] = "all"
        e["GORACE"] = "halt_on_error=1 exitcode=66"
        if prog:
            e["MAHO_CONSOLE"] = prog
        e["MAHO_TMP"] = tmp
        e["MAHO_EXE"] = exe
        cmd = [exe, "-prop", prop, "-tier", tier, "-seed", str(seed), "-out", self.out,
               "-progress", self.progress, "-known", known, "-shard", "%d/%d" % (i, n)]
        cmd += list(extra)
        self.ef = open(self.stderr, "wb")
        self.p = subprocess.Popen(cmd, cwd=tmp, env=e, stdin=subprocess.DEVNULL,
                                  stdout=self.ef, stderr=self.ef)
        self.case = None
        self.case_cpu = 0.0
        self.idle_since = time.monotonic()
        self.last_cpu = 0.0
        self.killed = None

    def where(self):
        try:
            with open(self.progress) as f:
                s = f.read().split()
            return s[0], int(s[1])
        except (OSError, ValueError, IndexError):
            return ("", -1)

    def watch(self):
        st = proc_stat(self.p.pid)
        if st is None:
            return
        cpu, rss = st
        now = time.monotonic()
        case = self.where()
        if case != self.case:
            self.case, self.case_cpu, self.idle_since, self.last_cpu = case, cpu, now, cpu
        if cpu - self.last_cpu > 0.05:
            self.idle_since, self.last_cpu = now, cpu
        if cpu - self.case_cpu > CASE_CPU:
            self.kill("a case did not finish within %d s of CPU time" % CASE_CPU)
        elif now - self.idle_since > CASE_IDLE:
            self.kill("blocked: no progress and no CPU use for %d s" % CASE_IDLE)
        elif rss > RSS_MAX:
            self.kill("used more than %d MB of memory in a case" % (RSS_MAX >> 20))

    def kill(self, why):
        self.killed = why
        self.p.send_signal(3)       # SIGQUIT: the Go runtime prints all stacks
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()

    def log(self):
        with open(self.stderr, "rb") as f:
            return f.read().decode(errors="replace")


def crash_kind(log, rc):
    if "WARNING: DATA RACE" in log:
        return "data race"
    m = re.search(r"^(fatal error: .*|panic: .*|runtime: goroutine stack exceeds.*)$", log, re.M)
    if m:
        return m.group(1)[:300]
    return "worker ended with status %s" % rc


def load_hashes(path):
    a = array.array("Q")
    with open(path, "rb") as f:
        a.frombytes(f.read())
    return a


def run(prop, tier, seed, replay=None):
    t0 = time.monotonic()
    d, exe, prog = build(prop in RACE, prop in CONSOLE)
    tmp = os.path.join(d, "tmp")
    os.mkdir(tmp)
    try:
        return drive(prop, tier, seed, replay, t0, exe, prog, tmp)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def drive(prop, tier, seed, replay, t0, exe, prog, tmp):
    known = os.path.join(tmp, "known.json")
    with open(known, "w") as f:
        json.dump(load_known(prop), f)
    n = 1 if replay else max(1, min(8, os.cpu_count() or 1))
    if prop in RACE and n > 1:
        n = max(1, n // 2)
    extra = []
    if replay:
        extra = ["-phase", replay["phase"], "-index", str(replay["index"])] if replay["phase"] else []
    ws = [Worker(i, n, exe, prop, tier, seed, tmp, known, prog, extra) for i in range(n)]
    timed_out = False
    while any(w.p.poll() is None for w in ws):
        time.sleep(0.05 if time.monotonic() - t0 < 5 else 0.5)
        for w in ws:
            if w.p.poll() is None:
                w.watch()
        if time.monotonic() - t0 > TOTAL[tier]:
            timed_out = True
            for w in ws:
                if w.p.poll() is None:
                    w.p.kill()
                    w.p.wait()
        if any(w.p.poll() not in (None, 0) for w in ws):
            # One violation decides; give the others a moment to finish theirs.
            end = time.monotonic() + 10
            while time.monotonic() < end and any(w.p.poll() is None for w in ws):
                time.sleep(0.05)
            for w in ws:
                if w.p.poll() is None:
                    w.p.kill()
                    w.p.wait()
                    w.killed = "stopped"

    violations, findings, samples, counts, sets = [], set(), [], {}, {}
    distinct = set()
    evaluations, rule, errors = 0, "", []
    for w in ws:
        rc = w.p.returncode
        w.ef.close()
        if rc in (0, 10) and os.path.exists(w.out):
            with open(w.out) as f:
                r = json.load(f)
            evaluations += r["evaluations"]
            rule = r["rule"]
            for k, v in (r["counts"] or {}).items():
                counts[k] = counts.get(k, 0) + v
            samples += r["samples"] or []
            findings.update(r["findings"] or [])
            violations += r["violations"] or []
            distinct.update(load_hashes(w.out + ".distinct"))
            pre = os.path.basename(w.out) + ".set."
            for fn in os.listdir(tmp):
                if fn.startswith(pre):
                    sets.setdefault(fn[len(pre):], set()).update(load_hashes(os.path.join(tmp, fn)))
        elif w.killed == "stopped" or timed_out:
            pass
        elif rc == 3:
            errors.append(w.log()[-2000:])
        else:
            phase, index = w.where()
            log = w.log()
            kind = w.killed or crash_kind(log, rc)
            if "VERIF-INCONCLUSIVE" in log or (rc == -9 and not w.killed):
                errors.append(kind + "\n" + log[-2000:])
                continue
            violations.append({"phase": phase, "index": index, "message": kind,
                               "trace": log[:20000].splitlines()})

    wall = time.monotonic() - t0
    if not replay:
        cov = {"evaluations": evaluations, "distinct_nontrivial": len(distinct), "rule": rule or "-",
               "samples": samples[:8], "observed_events": dict(sorted(counts.items())),
               "observed_distinct": {k: len(v) for k, v in sorted(sets.items())},
               "workers": n, "race_detector": prop in RACE}
        ev = {"property": prop, "tier": tier, "seed": seed,
              "level": LEVEL.get(prop, "exploration"), "coverage": cov,
              "assumptions": ["held on the executions counted here, not proved"],
              "wall_s": round(wall, 2), "violations": len(violations)}
        if findings:
            ev["known_findings_seen"] = sorted(findings)
        os.makedirs(EVIDENCE, exist_ok=True)
        path = os.path.join(EVIDENCE, prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(path + ".tmp", path)

    for s in sorted(findings):
        print("KNOWN-FINDING: property=%s %s" % (prop, s))
    if violations:
        violations.sort(key=lambda v: (len(v.get("trace") or []), v["phase"], v["index"]))
        v = violations[0]
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%s-%s-%d.json" % (prop, v["phase"] or "run", v["index"], seed))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "phase": v["phase"],
                       "index": v["index"], "message": v["message"], "trace": v.get("trace"),
                       "others": violations[1:4]}, f, indent=1)
            f.write("\n")
        print("%s %s/%s: %s" % (prop, v["phase"], v["index"], v["message"][:3000]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        sys.stderr.write("\n".join(errors) + "\n")
        return 2
    if timed_out:
        sys.stderr.write("inconclusive: out of wall-clock time\n")
        return 2
    if not replay and (evaluations == 0 or len(distinct) == 0):
        sys.stderr.write("inconclusive: nothing observed\n")
        return 2
    if not replay:
        print("%s held on %d executions (%d distinct non-trivial) in %.1f s" %
              (prop, evaluations, len(distinct), wall))
    else:
        print("%s held on the replayed case" % prop)
    return 0


def setup():
    """Warms the build cache; the checks build again from the tree they find."""
    for race in (False, True):
        shutil.rmtree(build(race, not race)[0], ignore_errors=True)
    return 0


def main():
    if sys.argv[1:] == ["setup"]:
        return setup()
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        with open(sys.argv[2]) as f:
            r = json.load(f)
        return run(r["property"], r["tier"], r["seed"], r)
    if len(sys.argv) not in (2, 3):
        sys.exit(__doc__)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) == 3 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    return run(prop, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
