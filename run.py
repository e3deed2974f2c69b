#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough] [--seed N]

Builds the monitored binaries the property needs from /repo's working tree, runs its workloads in
parallel and reports what the monitors saw.
exit 0: held on everything explored; 1: "VIOLATION property=<id> replay=<path>"; 2: no answer.
"""
import argparse, json, os, subprocess, sys, time, shlex, shutil, signal, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import build as vbuild
import checks as vchecks

os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=64:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
}


class Job(object):
    def __init__(self, name, cmd, timeout, env=None, known=None):
        self.name, self.cmd, self.timeout, self.env = name, cmd, timeout, env or {}
        self.rc = None; self.out = self.err = ""; self.wall = 0.0; self.hang = False

    def run(self):
        t0 = time.time()
        env = dict(os.environ); env.update(ENV); env.update(self.env)
        self.hang = False
        p = subprocess.Popen(self.cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, start_new_session=True)
        try:
            o, e = p.communicate(timeout=self.timeout)
        except subprocess.TimeoutExpired:
            self.hang = True
            try: os.killpg(p.pid, signal.SIGABRT)
            except OSError: pass
            try:
                o, e = p.communicate(timeout=10)
            except subprocess.TimeoutExpired:
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
                o, e = p.communicate()
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        self.rc = p.returncode
        self.out, self.err = o.decode("utf-8", "replace"), e.decode("utf-8", "replace")
        self.wall = time.time() - t0
        return self

    def summary(self):
        for l in self.out.splitlines():
            if l.startswith("HARNESS-SUMMARY "):
                return json.loads(l[len("HARNESS-SUMMARY "):])
        return None

    # -> "ok", "violation", "error"
    def verdict(self):
        if self.hang:
            return "hang"
        if self.rc == 0:
            return "ok" if self.summary() is not None else "error"
        if self.rc == 78:
            return "error"
        return "violation"


def first_line(j):
    for l in j.err.splitlines():
        if "HARNESS-VIOLATION" in l or "ERROR: AddressSanitizer" in l or "runtime error:" in l or "terminate called" in l or "debug_assert" in l or "Assertion" in l or "ninitialised" in l or "== Invalid" in l or "definitely lost" in l:
            return l.strip()[:400]
    if j.hang:
        return "no progress within %d s" % j.timeout
    return "exit status %s; %s" % (j.rc, (j.err.strip().splitlines() or [""])[-1][:300])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    pid, tier, seed = a.property, a.tier, a.seed
    t0 = time.time()
    spec = vchecks.CHECKS[pid]
    try:
        bins = vbuild.build(spec.targets())
    except vbuild.BuildError as e:
        print("BUILD-ERROR: %s" % e); return 2
    t_build = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="cv-%s-" % pid)
    os.chmod(scratch, 0o755)
    try:
        jobs = spec.jobs(pid, tier, seed, bins, scratch, Job)
        with ThreadPoolExecutor(max_workers=spec.workers) as ex:
            list(ex.map(lambda j: j.run(), jobs))
        # a hang or a harness hiccup gets one more chance, alone, unless something was found already
        found = any(j.verdict() == "violation" for j in jobs)
        for j in jobs:
            late = tier == "quick" and time.time() - t0 + j.timeout > 840
            if j.verdict() in ("hang", "error") and not found and not late:
                print("NOTE: retrying %s after %s: %s" % (j.name, j.verdict(), first_line(j)))
                j.run()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ev = {"evaluations": 0}
    distinct, counters, samples = set(), {}, []
    for j in jobs:
        s = j.summary()
        if not s: continue
        ev["evaluations"] += s["evaluations"]
        distinct.update(s["distinct"])
        for k, v in s["counters"].items():
            if k.endswith("_min"): counters[k] = min(v, counters.get(k, v))
            elif k.endswith("_max") or k.startswith("max_"): counters[k] = max(v, counters.get(k, v))
            else: counters[k] = counters.get(k, 0) + v
        samples += ["%s: %s" % (j.name, x) for x in s["samples"][:2]]
    bad = [j for j in jobs if j.verdict() in ("violation", "hang")]
    err = [j for j in jobs if j.verdict() == "error"]
    cov = {
        "evaluations": ev["evaluations"], "distinct_nontrivial": len(distinct),
        "rule": spec.rule, "samples": samples[:8],
        "jobs": len(jobs), "observed": counters,
    }
    viol = []
    for j in bad:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        path = os.path.join(HERE, "replay", "%s-%s-seed%d.txt" % (pid, j.name.replace("/", "_"), seed))
        with open(path, "w") as f:
            f.write("property: %s\ntier: %s\nseed: %d\nwhat: %s\nre-run everything: VERIF_SEED=%d VERIF_TIER=%s python3 %s %s\n" %
                    (pid, tier, seed, first_line(j), seed, tier, os.path.join(HERE, "run.py"), pid))
            f.write("this workload: %s %s\n\n" % (" ".join("%s=%s" % (k, shlex.quote(v)) for k, v in dict(ENV, **j.env).items()), " ".join(map(shlex.quote, j.cmd))))
            f.write("--- stderr\n%s\n--- stdout (tail)\n%s\n" % (j.err[-20000:], j.out[-4000:]))
        viol.append({"job": j.name, "what": first_line(j), "replay": path})
        print("%s: %s" % (j.name, first_line(j)))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    doc = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
           "assumptions": spec.assumptions, "wall_s": round(time.time() - t0, 2), "build_s": round(t_build, 2)}
    if viol: doc["violations"] = len(viol); doc["coverage"]["violations_seen"] = viol
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1, sort_keys=True)
    for j in err:
        print("HARNESS-ERROR %s: rc=%s %s" % (j.name, j.rc, j.err[-2000:]))
    print("%s %s seed=%d: %d jobs, %d oracle evaluations, %d distinct situations, %.1f s (build %.1f s)" %
          (pid, tier, seed, len(jobs), ev["evaluations"], len(distinct), time.time() - t0, t_build))
    if bad: return 1
    if err: return 2
    # a monitor that observed nothing decides nothing
    missing = [k for k in spec.must_observe if not counters.get(k)]
    if missing:
        print("NO-ANSWER: the workload never reached: %s" % ", ".join(missing)); return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
