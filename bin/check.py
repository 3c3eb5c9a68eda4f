#!/usr/bin/env python3
"""Runs the check of one property.

  check.py PID [--tier quick|thorough]

Exit codes: 0 held on everything explored; 1 violation (with a VIOLATION line);
2 the machinery could not give an answer.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
TLA = os.path.join(VERIF, "tla")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JAVA_OUT = os.path.join(BUILD, "java")
ENV_SH = "/opt/vp/env.sh"

sys.path.insert(0, os.path.join(VERIF, "bin"))


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return None, out.decode(errors="replace")
    return p.returncode, out.decode(errors="replace")


# ------------------------------------------------------------------ building
def build_java():
    src = [os.path.join(TLA, "java", f) for f in ("BigNatOverrides.java", "EcOverrides.java")]
    os.makedirs(JAVA_OUT, exist_ok=True)
    rc, out = sh(["javac", "-cp", JARS, "-d", JAVA_OUT] + src, 120)
    if rc != 0:
        raise ToolError("javac failed\n" + out)


def build_harness(toy=None):
    """toy: None for the real parameters, or the name of a toy parameter set"""
    target = os.path.join(BUILD, "target" if toy is None else "target_" + toy)
    flags = ""
    env = ""
    if toy is not None:
        flags = "--cfg festa_verif"
        env = "export FESTA_VERIF_FIELDS=%s;" % os.path.join(VERIF, "toy", toy + ".rs")
    cmd = (". %s; cd %s/harness; %s RUSTFLAGS='%s' CARGO_TARGET_DIR=%s CARGO_INCREMENTAL=0 "
           "cargo build --offline --quiet" % (ENV_SH, VERIF, env, flags, target))
    lock = os.path.join(VERIF, "harness", "Cargo.lock")
    rc, out = sh(["bash", "-c", cmd], 800)
    exe = os.path.join(target, "debug", "festa_harness")
    if rc != 0 or not os.path.exists(exe):
        raise ToolError("building the harness failed\n" + out[-4000:])
    return exe


# ---------------------------------------------------------------------- TLC
def tlc(params, module, cfg, meta, workers=1, env=None, timeout=600, mem="4g", extra=()):
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xmx" + mem, "-Xss256m",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:BigNatOverrides",
           "-DTLA-Library=%s:%s" % (TLA, os.path.join(TLA, params)),
           "-cp", JARS + ":" + JAVA_OUT, "tlc2.TLC", "-metadir", meta, "-workers", str(workers),
           "-noGenerateSpecTE"]
    cmd += list(extra) + ["-config", os.path.join(TLA, cfg), os.path.join(TLA, module + ".tla")]
    rc, out = sh(cmd, timeout, env=env, cwd=meta)
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def tlc_stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ""))
    m2 = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m2:
        return None
    g, d = m2[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


# --------------------------------------------------------------------- check
class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "work_%s_%d" % (pid, os.getpid()))
        self.replays = os.path.join(BUILD, "replays")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        os.makedirs(self.replays, exist_ok=True)
        self.lock = threading.Lock()
        self.violations = []
        self.known_seen = {}
        self.states = self.transitions = self.events = self.histories = 0
        self.jobs_done = []
        self.samples = []
        self.notes = []
        self.exe = {}
        self.known = [k for k in load_known() if k["property"] == pid]

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # -- one conformance job
    def conformance(self, job, rnd=0):
        name = job["name"] + ("" if rnd == 0 else "-r%d" % rnd)
        params = job.get("params", "full")
        exe = self.exe[job.get("exe")]
        cases = os.path.join(self.work, name + ".cases")
        trace = os.path.join(self.work, name + ".trace")
        size = job["size"][0 if self.tier == "quick" else 1]
        env = {"CASES": cases, "TRACE": trace, "GEN": job["gen"], "SIZE_HEX": "%x" % size,
               "VERIF_SEED_HEX": "%x" % self.seed, "ROUND_HEX": "%x" % rnd, "VERIF_TIER": self.tier}
        env.update(job.get("env", {}))
        t = [time.time()]
        if "cases_from" in job:
            job["cases_from"](self, cases, env)
        else:
            rc, out = tlc(params, job["genmod"], "Gen.cfg", os.path.join(self.work, name + ".m1"),
                          env=env, timeout=600)
            if rc != 0 or not os.path.exists(cases):
                raise ToolError("case generation %s failed (rc %s)\n%s" % (name, rc, out[-3000:]))
        t.append(time.time())
        self.run_harness(exe, cases, trace, env, name, job)
        t.append(time.time())
        groups = [json.loads(l) for l in open(trace)]
        nev = sum(len(g["ev"]) for g in groups)
        rc, out = tlc(params, job.get("tracemod", "Trace"), "Trace.cfg", os.path.join(self.work, name + ".m2"),
                      workers=job.get("workers", 4), env=env, timeout=job.get("trace_timeout", 780), mem="6g")
        st = tlc_stats(out)
        if rc is None:
            raise ToolError("trace validation %s timed out" % name)
        if rc != 0 or st is None:
            raise ToolError("trace validation %s failed (rc %s)\n%s" % (name, rc, out[-3000:]))
        if st[1] != nev + len(groups):
            raise ToolError("trace validation %s consumed %d states, expected %d\n%s"
                            % (name, st[1], nev + len(groups), out[-2000:]))
        t.append(time.time())
        mism = [(int(a), int(b), c) for a, b, c in
                re.findall(r'<<"MISMATCH", (\d+), (\d+), "([^"]*)">>', out)]
        with self.lock:
            self.states += st[1]
            self.transitions += nev
            self.events += nev
            self.histories += len(groups)
            self.jobs_done.append({"job": name, "events": nev, "histories": len(groups),
                                   "gen_s": round(t[1] - t[0], 1), "run_s": round(t[2] - t[1], 1),
                                   "check_s": round(t[3] - t[2], 1), "mismatches": len(mism)})
            if groups and len(self.samples) < 12:
                g = groups[len(groups) // 2]
                ev = g["ev"][0]
                self.samples.append((job["name"] + ": " + json.dumps({"op": ev["op"], "a": ev["a"], "r": ev.get("r")}))[:600])
            for (g, i, op) in sorted(mism):
                self.report(job, groups[g - 1], i - 1)
        if not os.environ.get("VERIF_KEEP"):
            for f in (cases, trace):
                os.unlink(f)

    def run_harness(self, exe, cases, trace, env, name, job):
        to = job.get("case_timeout", 60)
        rc, out = sh([exe, cases, trace, "--threads", "8", "--timeout", str(to)], 700, env=env)
        if rc == 0:
            return
        if rc == 2 and "harness" in out:
            raise ToolError("harness: " + out[-2000:])
        # the process died (abort, stack overflow, memory): find the group that kills it
        log("harness died on %s (rc %s); isolating" % (name, rc))
        res = []
        for l in open(cases):
            one, ot = cases + ".one", trace + ".one"
            open(one, "w").write(l)
            if os.path.exists(ot):
                os.unlink(ot)
            rc, out = sh([exe, one, ot, "--threads", "1", "--timeout", str(to)], to * 4 + 60, env=env)
            if rc == 0:
                res.append(open(ot).read())
            else:
                g = json.loads(l)
                for ev in g["ev"]:
                    ev["v"] = 1
                    ev["p"] = "process died (%s)" % rc
                res.append(json.dumps(g) + "\n")
        open(trace, "w").write("".join(res))

    def report(self, job, group, i):
        ev = group["ev"][i]
        sig = event_sig(ev)
        for k in self.known:
            if k["sig"] == sig:
                self.known_seen[sig] = k
                return
        if len(self.violations) >= 20:
            self.violations.append(None)
            return
        name = "%s-%s-g%s-e%d.json" % (self.pid, job["name"], group["g"], i + 1)
        path = os.path.join(self.replays, name)
        json.dump({"property": self.pid, "job": job["name"], "params": job.get("params", "full"),
                   "exe": job.get("exe"), "tracemod": job.get("tracemod", "Trace"), "env": job.get("env", {}),
                   "event": i + 1, "sig": sig,
                   "group": {k: v for k, v in group.items()}}, open(path, "w"), indent=1)
        self.violations.append((path, ev["op"], ev["p"]))

    # -- an exhaustive model
    def model(self, job):
        rc, out = tlc(job.get("params", "full"), job["module"], job["cfg"], os.path.join(self.work, job["name"] + ".m"),
                      workers=job.get("workers", 4), env=job.get("env"), timeout=job.get("timeout", 600),
                      extra=job.get("extra", ()))
        st = tlc_stats(out)
        if rc != 0 or st is None:
            raise ToolError("model %s failed (rc %s)\n%s" % (job["name"], rc, out[-3000:]))
        if st[1] < job.get("min_states", 1):
            raise ToolError("model %s explored only %d states" % (job["name"], st[1]))
        with self.lock:
            self.states += st[1]
            self.transitions += st[0]
            self.jobs_done.append({"job": job["name"], "model": job["module"], "states": st[1], "transitions": st[0]})

    def run(self, jobs, budget):
        build_java()
        exes = sorted({j.get("exe") for j in jobs if j["kind"] == "conf"}, key=lambda x: x or "")
        for e in exes:
            try:
                self.exe[e] = build_harness(e)
            except ToolError as err:
                if e is None:
                    raise
                self.notes.append("the %s build failed; its jobs were skipped" % e)
                log(str(err))
        jobs = [j for j in jobs if j["kind"] != "conf" or j.get("exe") in self.exe]
        par = 4

        def one(jr):
            j, r = jr
            if j["kind"] == "conf":
                self.conformance(j, r)
            else:
                self.model(j)

        work = [(j, 0) for j in jobs]
        with cf.ThreadPoolExecutor(par) as ex:
            for f in [ex.submit(one, w) for w in work]:
                f.result()
            rnd = 1
            while self.tier == "thorough" and not self.violations:
                todo = [j for j in jobs if j["kind"] == "conf" and not j.get("once")]
                took = time.time() - self.t0
                if not todo or took + took / rnd * 1.1 > budget:
                    break
                for f in [ex.submit(one, (j, rnd)) for j in todo]:
                    f.result()
                rnd += 1

    def evidence(self, level, assumptions):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {
                  "states": self.states, "transitions": self.transitions,
                  "traces_validated_against_impl": self.histories,
                  "samples": self.samples[:8], "jobs": self.jobs_done},
              "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations),
              "assumptions": assumptions + self.notes}
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)


def event_sig(ev):
    return hashlib.sha256(json.dumps([ev["op"], ev["a"]], sort_keys=True).encode()).hexdigest()[:24]


def load_known():
    path = os.path.join(VERIF, "known-findings.txt")
    res = []
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", l)
            if m:
                res.append({"property": m.group(1), "sig": m.group(2), "text": m.group(3).strip()})
    return res


def main():
    import jobs as J
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = J.CHECKS[pid]
    c = Check(pid, tier, seed)
    try:
        jobs = [j for j in spec["jobs"] if tier == "thorough" or not j.get("thorough_only")]
        c.run(jobs, float(os.environ.get("VERIF_BUDGET", "700")))
        c.evidence(spec["level"], spec["assumptions"])
    except ToolError as e:
        log("ERROR: " + str(e))
        if not c.violations:
            return 2
        c.evidence(spec["level"], spec["assumptions"] + ["stopped early: " + str(e)[:200]])
    finally:
        if not os.environ.get("VERIF_KEEP"):
            c.cleanup()
    for sig, k in sorted(c.known_seen.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
    for v in c.violations:
        if v:
            log("  %s %s" % (v[1], v[2]))
            print("VIOLATION property=%s replay=%s" % (pid, v[0]))
    print("%s %s: %d events of the real code judged, %d model states, %d violations, %.0f s"
          % (pid, tier, c.events, c.states, len(c.violations), time.time() - c.t0))
    return 1 if c.violations else 0


if __name__ == "__main__":
    sys.exit(main())
