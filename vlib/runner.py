"""Runs driver processes, collects counts, confirms violations by replay, writes evidence and replay files."""
import json, os, re, subprocess, sys, time, threading
from concurrent.futures import ThreadPoolExecutor
from . import build
from .build import BuildError, VERIF, Work, JOBS

EVID = os.environ.get("VERIF_EVID", VERIF + "/evidence")
KNOWN = VERIF + "/known_findings.json"


class NoAnswer(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, level, technique):
        self.prop, self.tier, self.level, self.technique = prop, tier, level, technique
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.work = Work(prop)
        self.stats, self.samples, self.viols, self.notes, self.assumptions = {}, [], [], [], []
        self.lock = threading.Lock()
        self.exhaustive = True
        self.stop = False
        self.deadline = self.t0 + float(os.environ.get("VERIF_BUDGET", "820" if tier == "quick" else "36000"))

    def stat(self, k, v):
        with self.lock:
            self.stats[k] = self.stats.get(k, 0) + v

    def note(self, s):
        self.notes.append(s)

    # -- driver processes
    def exec(self, cmd, timeout=None):
        left = max(5, self.deadline - time.time())
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                               timeout=min(timeout or left, left), cwd=self.work.dir)
            return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired as e:
            return None, (e.stdout or b"").decode(errors="replace"), "timeout"

    def parse(self, out):
        v = []
        for line in out.splitlines():
            if line.startswith("VIOL "):
                parts = [x.strip() for x in line[5:].split("|", 2)]
                while len(parts) < 3:
                    parts.append("")
                v.append(tuple(parts))
        return v

    def run_jobs(self, jobs):
        """jobs: list of (label, argv, shards).  Every job is run as `shards` processes; (shards, n) runs every n-th case only."""
        todo = []
        for label, argv, shards in jobs:
            if getattr(self, "only", None):
                argv, shards = list(argv) + ["--only", self.only], 1
            shards, thin = shards if isinstance(shards, tuple) else (shards, 1)
            for s in range(shards):
                todo.append((label, list(argv) + (["--shard", "%d/%d" % (s * thin, shards * thin)] if shards * thin > 1 else [])))

        def one(item):
            label, argv = item
            if self.stop:
                return
            rc, out, err = self.exec(argv)
            vs = self.parse(out)
            ok = rc == 0 and ("DONE" in out or "ENDED" in out)
            with self.lock:
                for line in out.splitlines():
                    if line.startswith("STAT "):
                        _, k, n = line.split()
                        self.stats[k] = self.stats.get(k, 0) + int(n)
                    elif line.startswith("SAMPLE ") and len(self.samples) < 12:
                        t = line[7:]
                        if t not in self.samples:
                            self.samples.append(t)
                    elif line.startswith("NOTE "):
                        if line[5:] not in self.notes:
                            self.notes.append(line[5:])
            if not vs and not ok:
                if rc is None:
                    with self.lock:
                        self.exhaustive = False
                        self.notes.append("time limit reached in " + label)
                    return
                if rc is not None and (rc < 0 or rc in (139, 134, 136)):
                    vs = [("process", label, "driver process died with status %s after: %s" % (rc, out[-300:]))]
                else:
                    raise NoAnswer("driver %s failed (%s): %s %s" % (label, rc, out[-500:], err[-1500:]))
            for case, impl, desc in vs:
                conf = self.confirm(argv, case)
                if conf:
                    with self.lock:
                        self.viols.append(dict(label=label, argv=argv, case=case, impl=impl, desc=desc, how=conf))
                        if len(self.viols) >= 8:
                            self.stop = True
                    break

        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, todo))

    def confirm(self, argv, case):
        """Re-runs the single case; failing that, the whole shard.  Only what fails again is reported."""
        if case != "process":
            rc, out, err = self.exec(argv + ["--only", case], 300)
            if self.parse(out) or (rc is not None and rc < 0):
                return "case"
        rc, out, err = self.exec(argv)
        if self.parse(out) or (rc is not None and rc < 0):
            return "shard"
        self.note("a report that did not repeat was dropped: " + case)
        return None

    def violation(self, label, case, desc, impl=""):
        self.viols.append(dict(label=label, argv=None, case=case, impl=impl, desc=desc, how="direct"))

    # -- result
    def finish(self):
        known = []
        if os.path.exists(KNOWN):
            known = [k for k in json.load(open(KNOWN)) if k.get("status") == "known" and k.get("property") == self.prop]
        new, hit = [], {}
        for v in self.viols:
            text = "%s | %s | %s" % (v["impl"] or v["label"], v["case"], v["desc"])
            for k in known:
                if re.search(k["match"], text):
                    hit[k["id"]] = k
                    break
            else:
                new.append(v)
        wall = time.time() - self.t0
        cov = dict(states=self.stats.get("states", 0), transitions=self.stats.get("impl_runs", 0),
                   traces_validated_against_impl=self.stats.get("compared", 0), samples=self.samples[:12] or ["none"],
                   evaluations=self.stats.get("evaluations", 0), exhaustive=bool(self.exhaustive and not new))
        extra = {k: n for k, n in self.stats.items() if k not in ("states", "impl_runs", "compared", "evaluations", "violations")}
        if extra:
            cov["counts"] = extra
        if self.notes:
            cov["notes"] = self.notes
        cov["technique"] = self.technique
        if self.level in ("exploration", "fault_enumeration"):
            cov.update(distinct_nontrivial=self.stats.get("states", 0), rule=getattr(self, "rule", self.technique))
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=self.level,
                  coverage=cov, wall_s=round(wall, 2), violations=len(new))
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        os.makedirs(EVID, exist_ok=True)
        with open(EVID + "/%s.json" % self.prop, "w") as f:
            json.dump(ev, f, indent=1)
        for k in hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        print("%s %s: states=%d transitions=%d compared=%d exhaustive=%s wall=%.1fs" % (
            self.prop, self.tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], cov["exhaustive"], wall))
        for n in self.notes:
            print("note: " + n)
        if new:
            rdir = EVID + "/replay"
            os.makedirs(rdir, exist_ok=True)
            path = "%s/%s.json" % (rdir, self.prop)
            with open(path, "w") as f:
                json.dump([dict(label=v["label"], case=v["case"], implementation=v["impl"], what=v["desc"], reproduced=v["how"],
                                replay="python3 %s/check.py %s --tier %s --only '%s'" % (VERIF, self.prop, self.tier, v["case"]),
                                driver_argv=v["argv"]) for v in new], f, indent=1)
            for v in new[:5]:
                print("violated: %s | %s | %s" % (v["impl"] or v["label"], v["case"], v["desc"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        return 0
