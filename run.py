#!/usr/bin/env python3
"""Driver of all checks: run.py <PROPERTY> [quick|thorough]

Builds the harness against the current tree of /repo, runs the monitored workload in parallel
child processes, aggregates what the monitors observed into evidence/<PROPERTY>.json.
exit 0: the property held on everything explored; exit 1 + VIOLATION line: it did not;
exit 2: no answer (does not build, or the monitors observed nothing).
"""
import json, os, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

CORES = min(8, os.cpu_count() or 1)
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")

# the undefined behaviour interpreter; the aliasing model is the more permissive one, so that only
# what every model forbids is reported
MIRI = ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--manifest-path",
        os.path.join(HERE, "tsan", "Cargo.toml"), "--bin", "vh", "--"]
MIRI_ENV = {"CARGO_TARGET_DIR": os.path.join(HERE, "tsan", "target", "miri"), "RUSTFLAGS": "-Awarnings",
            "MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows"}


def die(msg):
    print("NO-ANSWER: " + msg)
    sys.exit(2)


def build(kind):
    """kind -> command line prefix of the vh binary"""
    h = os.path.join(HERE, "harness")
    env = dict(ENV)
    cmd = ["cargo", "build", "--offline", "--quiet", "--bin", "vh"]
    out = os.path.join(h, "target", "debug", "vh")
    if kind == "asan":
        env["RUSTFLAGS"] = "-Zsanitizer=address"
        env["CARGO_TARGET_DIR"] = os.path.join(h, "target", "asan")
        cmd = ["cargo", "+nightly", "build", "--offline", "--quiet", "--bin", "vh",
               "--target", "x86_64-unknown-linux-gnu"]
        out = os.path.join(h, "target", "asan", "x86_64-unknown-linux-gnu", "debug", "vh")
    elif kind == "tsan":
        h = os.path.join(HERE, "tsan")
        env["RUSTFLAGS"] = "-Zsanitizer=thread"
        env["CARGO_TARGET_DIR"] = os.path.join(h, "target", "tsan")
        cmd = ["cargo", "+nightly", "build", "--offline", "--quiet", "--bin", "vh", "-Zbuild-std",
               "--target", "x86_64-unknown-linux-gnu"]
        out = os.path.join(h, "target", "tsan", "x86_64-unknown-linux-gnu", "debug", "vh")
    elif kind == "miri":
        h = os.path.join(HERE, "tsan")
        env.update(MIRI_ENV)
        out = h
        cmd = MIRI + ["list"]
    p = subprocess.run(cmd, cwd=h, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        print(p.stdout[-6000:])
        die("the harness does not build against /repo (%s)" % kind)
    return MIRI if kind == "miri" else [out]


def limits(gb):
    def f():
        os.setsid()
        if gb:
            resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.counters, self.distinct, self.samples = {}, set(), []
        self.known, self.fails, self.notes = {}, [], []
        self.slowest = 0.0
        self.cases = 0

    def absorb(self, d, tag=""):
        for k, v in d["counters"].items():
            k = tag + k
            self.counters[k] = self.counters.get(k, 0) + v
        self.distinct.update(d["distinct"])
        if len(self.samples) < 3:
            self.samples += d["samples"][: 3 - len(self.samples)]
        for k, v in d["known"]:
            self.known.setdefault(k, v)
        self.slowest = max(self.slowest, d["slowest"])
        self.cases += d["cases"]

    def shards(self, binary, check, cases, secs, n=CORES, gb=3, env=None, tag="", kind="dev", hang=180, limit=0):
        tmp = tempfile.mkdtemp(prefix="vh-%s-" % check)
        try:
            ps = []
            for s in range(n):
                out, cur = os.path.join(tmp, "o%d" % s), os.path.join(tmp, "c%d" % s)
                err = open(os.path.join(tmp, "e%d" % s), "w+")
                per = cases // n + (1 if s < cases % n else 0)
                more = []
                if limit:
                    only = os.path.join(tmp, "s%d" % s)
                    q = subprocess.run(build("dev") + ["costs", check, "--seed", str(self.seed * 1000 + s), "--cases",
                                       str(per), "--limit", str(limit)], stdout=subprocess.PIPE, text=True,
                                       timeout=300, preexec_fn=limits(3))
                    open(only, "w").write(q.stdout)
                    more = ["--only", only]
                p = subprocess.Popen(
                    binary + ["run", check, "--seed", str(self.seed), "--shard", str(s), "--cases", str(per),
                     "--secs", str(secs), "--hang", str(hang), "--tier", self.tier, "--out", out, "--cur", cur] + more,
                    stdout=err, stderr=err, env=dict(ENV, **(env or {})), preexec_fn=limits(gb), cwd=tmp)
                ps.append((p, out, cur, err))
            for p, out, cur, err in ps:
                try:
                    rc = p.wait(timeout=secs + hang + 120)
                except subprocess.TimeoutExpired:
                    rc = "timeout"
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                err.seek(0)
                text = err.read()
                if rc == 0 and os.path.exists(out):
                    d = json.load(open(out))
                    self.absorb(d, tag)
                    for cs, m in d["fails"]:
                        self.fails.append((check, cs, m, kind))
                    continue
                cs = open(cur).read() if os.path.exists(cur) else "?"
                if kind == "miri" and os.path.exists(out):
                    try:
                        self.absorb(json.load(open(out)), tag)
                    except ValueError:
                        pass
                self.crash(binary, check, cs, rc, text, env, gb, kind)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    def crash(self, binary, check, cs, rc, text, env, gb, kind):
        """a child died or made no progress: believe it only if the case does it again, or if a
        sanitizer said so"""
        what = "process ended with status %s" % rc
        if rc == 77 or rc == "timeout":
            what = "no progress (endless loop or deadlock)"
        elif isinstance(rc, int) and rc < 0:
            what = "process killed by signal %d" % -rc
        msg = "%s\n%s" % (what, text[-6000:])
        if "Sanitizer" in text or "Undefined Behavior" in text:
            self.fails.append((check, cs, msg, kind))
            return
        if kind == "miri":
            self.notes.append("shard of %s under miri lost (%s): %s" % (check, what, text[-400:]))
            return
        if check.startswith("X01"):
            tries = 4
        else:
            tries = 1
        for _ in range(tries):
            try:
                p = subprocess.run(binary + ["replay", check, cs, self.tier], stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, timeout=240, preexec_fn=limits(gb),
                                   env=dict(ENV, **(env or {})), errors="replace")
                if p.returncode != 0:
                    self.fails.append((check, cs, msg + "\nreplayed: status %s\n%s" % (p.returncode, p.stdout[-3000:]), kind))
                    return
            except subprocess.TimeoutExpired:
                self.fails.append((check, cs, msg + "\nreplayed: no end within 240 s", kind))
                return
        self.notes.append("shard of %s lost (%s) at case %s, which passes when replayed; not counted" % (check, what, cs))


def known_list():
    p = os.path.join(HERE, "known_findings.txt")
    out = {}
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: "):
                # known: property=<id> key=<key> <text>
                f = l.split(None, 3)
                out[(f[1].split("=")[1], f[2].split("=")[1])] = f[3].strip()
    return out


def settings(kind):
    """environment, memory limit in GB and seconds without progress of a build kind"""
    if kind == "asan":
        return {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=0"}, 0, 180
    if kind == "tsan":
        return {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0"}, 0, 180
    if kind == "miri":
        return dict(MIRI_ENV), 0, 90
    return {}, 3, 180


def main():
    if sys.argv[1] == "--replay":
        b = build(sys.argv[4])
        env, gb, _ = settings(sys.argv[4])
        os.execvpe(b[0], b + ["replay", sys.argv[2], sys.argv[3]], dict(ENV, **env))
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[pid]
    t0 = time.time()
    r = Run(pid, tier, seed)
    for part in c["parts"]:
        if part.get("tier") and part["tier"] != tier:
            continue
        kind = part.get("kind", "dev")
        cfg = part[tier]
        b = build(kind)
        env, gb, hang = settings(kind)
        r.shards(b, part.get("check", pid), cfg[0], cfg[1], n=part.get("n", CORES), gb=gb, env=env,
                 tag=part.get("tag", ""), kind=kind, hang=hang, limit=part.get("limit", 0))
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    kn = known_list()
    for key, text in sorted(r.known.items()):
        if (pid, key) in kn:
            print("KNOWN-FINDING: property=%s %s" % (pid, kn[(pid, key)]))
        else:
            r.fails.append((pid, "known:" + key, text, "dev"))
    cov = dict(r.counters)
    cov["evaluations"] = r.counters.get("evaluations", 0)
    cov["distinct_nontrivial"] = len(r.distinct)
    cov["rule"] = c["rule"]
    cov["samples"] = r.samples[:3]
    cov["cases"] = r.cases
    cov["slowest_case_s"] = r.slowest
    if r.notes:
        cov["inconclusive"] = r.notes
    evd = {
        "property": pid, "tier": tier, "seed": seed, "level": c.get("level", "exploration"),
        "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(r.fails),
        "assumptions": c.get("assumptions", []),
    }
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(evd, f, indent=1, ensure_ascii=False)
    if r.fails:
        rp = os.path.join(ev, "replay")
        os.makedirs(rp, exist_ok=True)
        for i, (check, cs, m, kind) in enumerate(r.fails[:3]):
            path = os.path.join(rp, "%s-%d.txt" % (pid, i))
            with open(path, "w") as f:
                f.write("property %s, check %s, case seed %s, build %s\nreplay: %s/replay.sh %s %s %s\n\n%s\n"
                        % (pid, check, cs, kind, HERE, check, cs, kind, m))
            print(m[:3000])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    for k in c.get("must_see", []) + ["evaluations"]:
        if not r.counters.get(k):
            die("the monitors observed no %r" % k)
    if r.notes and r.cases == 0:
        die("; ".join(r.notes))
    print("%s %s: %d evaluations, %d distinct, %.1f s%s" % (
        pid, tier, cov["evaluations"], cov["distinct_nontrivial"], evd["wall_s"],
        " (%d inconclusive)" % len(r.notes) if r.notes else ""))


if __name__ == "__main__":
    main()
