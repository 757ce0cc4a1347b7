"""Builds a property's harnesses, explores all shards, replays violations,
filters known findings, writes evidence. Exit status 0 or 1."""
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
from checks import CHECKS  # noqa: E402
from props import PROPS  # noqa: E402

VERIF = build.VERIF
NPROC = 8
ENV = dict(os.environ, LC_ALL="C.UTF-8", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", GLOG_minloglevel="3",
           MALLOC_PERTURB_="154",  # uninitialised heap memory is never zero
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1"
                        ":detect_container_overflow=1",
           UBSAN_OPTIONS="print_stacktrace=1:abort_on_error=1",
           TSAN_OPTIONS="halt_on_error=1:abort_on_error=1:exitcode=66:suppressions="
                        + VERIF + "/mc/tsan.supp")


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            out.append(json.loads(line))
    return out


class Part:
    """one executable of a check"""

    def __init__(self, prop, idx, cfg, tier, scratch, deadline):
        self.prop, self.idx, self.cfg, self.tier = prop, idx, cfg, tier
        self.scratch, self.deadline = scratch, deadline
        self.results, self.viol, self.notes = [], [], []
        self.where = {}
        self.exe = build.build("%s_%d" % (prop, idx), **cfg["build"])
        self.lock = threading.Lock()
        self.incomplete = False

    def preexec(self):
        os.setsid()
        if self.cfg["build"].get("variant", "opt") == "opt":
            lim = self.cfg.get("mem", 6) << 30
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))

    def invoke(self, args, d, errname="stderr"):
        os.makedirs(d, exist_ok=True)
        err = open(os.path.join(d, errname), "wb")
        p = subprocess.Popen([self.exe] + args + self.cfg.get("args", []), cwd=d,
                             env=ENV, stdin=subprocess.DEVNULL,
                             stdout=subprocess.DEVNULL, stderr=err,
                             preexec_fn=self.preexec)
        try:
            p.wait(timeout=max(30, self.deadline - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return None
        finally:
            err.close()
        return p.returncode

    @staticmethod
    def describe(rc):
        if rc == 97:
            return "hang", "no termination within the CPU/wall limit of the case"
        if rc < 0:
            return "crash", "process killed by signal %d" % -rc
        return "crash", "process exited with status %d" % rc

    def stderr_tail(self, d, errname="stderr"):
        try:
            t = open(os.path.join(d, errname), errors="replace").read()
        except OSError:
            return ""
        m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|"
                      r"WARNING: ThreadSanitizer[^\n]*|[^\n]*Assertion[^\n]*)", t)
        return (m.group(1) if m else t[-200:]).strip()

    def shard(self, k, n):
        d = os.path.join(self.scratch, "p%d_s%d" % (self.idx, k))
        skips = []
        for attempt in range(5):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            args = ["--tier", self.tier, "--shard", "%d/%d" % (k, n), "--out",
                    d + "/out.json", "--cur", d + "/cur", "--scratch", d + "/w"]
            for s in skips:
                args += ["--skip", s]
            rc = self.invoke(args, d)
            if rc == 0 and os.path.exists(d + "/out.json"):
                r = json.load(open(d + "/out.json"))
                with self.lock:
                    self.results.append(r)
                    if r["extra"].get("stopped_early"):
                        self.incomplete = True
                    for v in r["violations"]:
                        self.viol.append(tuple(v))
                        self.where[v[0]] = (k, n, list(skips))
                return
            if rc is None:
                with self.lock:
                    self.incomplete = True
                    self.notes.append("shard %d ran out of time" % k)
                return
            cur = open(d + "/cur", "rb").read().split(b"\0")[0].decode(errors="replace") \
                if os.path.exists(d + "/cur") else ""
            if not cur:
                with self.lock:
                    self.notes.append("shard %d failed outside a case: rc %s %s" % (
                        k, rc, self.stderr_tail(d)))
                    # confirmed by running the set-up alone
                    self.viol.append(("__setup__", "crash", self.stderr_tail(d)))
                    self.incomplete = True
                return
            key, msg = self.describe(rc)
            with self.lock:
                self.viol.append((cur, key, msg + ": " + self.stderr_tail(d)))
                self.where[cur] = (k, n, list(skips))
                self.incomplete = True
            skips.append(cur)
            if rc == 97:  # hangs are expensive: one per shard is evidence enough
                return

    def replay(self, case):
        """Runs one case alone in a fresh process; list of (key,msg)."""
        d = tempfile.mkdtemp(dir=self.scratch)
        args = ["--tier", self.tier, "--case", case, "--out", d + "/out.json",
                "--cur", d + "/cur", "--scratch", d + "/w"]
        rc = self.invoke(args, d)
        if rc == 0 and os.path.exists(d + "/out.json"):
            r = json.load(open(d + "/out.json"))
            return [(v[1], v[2]) for v in r["violations"]]
        if rc is None:
            return []
        key, msg = self.describe(rc)
        return [(key, msg + ": " + self.stderr_tail(d))]

    def replay_history(self, case, where):
        """Runs a case after the cases that came before it, in one process as
        when it failed: what earlier cases left behind may be part of the
        failure. List of (key, msg)."""
        k, n, skips = where
        d = tempfile.mkdtemp(dir=self.scratch)
        args = ["--tier", self.tier, "--shard", "%d/%d" % (k, n), "--upto", case, "--out",
                d + "/out.json", "--cur", d + "/cur", "--scratch", d + "/w"]
        for s in skips:
            args += ["--skip", s]
        rc = self.invoke(args, d)
        if rc is None:
            return []
        if rc == 0 and os.path.exists(d + "/out.json"):
            r = json.load(open(d + "/out.json"))
            return [(v[1], v[2]) for v in r["violations"] if v[0] == case]
        cur = open(d + "/cur", "rb").read().split(b"\0")[0].decode(errors="replace") \
            if os.path.exists(d + "/cur") else ""
        if cur != case:
            return []
        key, msg = self.describe(rc)
        return [(key, msg + ": " + self.stderr_tail(d))]

    def explore(self):
        n = self.cfg.get("shards", NPROC)
        ts = [threading.Thread(target=self.shard, args=(k, n)) for k in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cfg = CHECKS[prop]
    if len(sys.argv) > 3 and sys.argv[3] == "--replay":
        return replay_file(prop, tier, sys.argv[4])
    budget = 760 if tier == "quick" else 6 * 3600
    os.makedirs(os.path.join(build.BUILD, "scratch"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(build.BUILD, "scratch"))
    try:
        return run(prop, tier, seed, t0, cfg, budget, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        build.prune()


def replay_file(prop, tier, path):
    r = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix=prop + "-", dir=build.BUILD)
    try:
        part = Part(prop, r["part"], CHECKS[prop]["parts"][r["part"]], r["tier"], scratch,
                    time.time() + 800)
        if r.get("history"):
            got = part.replay_history(r["case"], r["history"])
        else:
            got = part.replay(r["case"])
        for k, m in got:
            print("replayed %s: [%s] %s" % (r["case"], k, m))
        return 1 if got else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(prop, tier, seed, t0, cfg, budget, scratch):
    parts, findings_hit, bad, samples = [], {}, [], []
    known = [k for k in known_findings() if k["property"] == prop]
    for i, pc in enumerate(cfg["parts"]):
        part = Part(prop, i, pc, tier, scratch, t0 + budget)
        part.explore()
        parts.append(part)
        # one representative per violation key first, at most 12 replays
        seen, todo = {}, []
        part.viol.sort(key=lambda v: (len(v[0]), v[0]))
        for case, key, msg in part.viol:
            hit = None
            for k in known:
                if k["key"] == key and re.fullmatch(k["case"], case):
                    hit = k
                    break
            if hit:
                findings_hit.setdefault(hit["what"], []).append(case)
                continue
            seen[key] = seen.get(key, 0) + 1
            if any(t[:2] == (case, key) for t in todo):
                continue
            if seen[key] <= 3 and len(todo) < 12:
                todo.append((case, key, msg))
        if os.environ.get("VERIF_DEBUG"):
            print("keys:", seen)
        t1 = time.time()
        for case, key, msg in todo:
            if bad and time.time() - t1 > 60:
                break
            got = part.replay(case)
            match = [m for kk, m in got if kk == key]
            if match or got:
                kk, mm = (key, match[0]) if match else got[0]
                bad.append((i, case, kk, mm, None))
            else:
                part.notes.append("not reproduced alone: %s [%s] %s" % (case, key, msg))
        if not bad:  # failures that need what earlier cases left in the process
            for case, key, msg in todo[:3]:
                if case not in part.where or time.time() - t0 > budget - 250:
                    continue
                got = part.replay_history(case, part.where[case])
                match = [m for kk, m in got if kk == key]
                if match:
                    bad.append((i, case, key, "after the cases before it: " + match[0],
                                part.where[case]))
                    break
        if bad:
            break
    for p in parts:
        for r in p.results:
            samples += r["samples"]
    ev = evidence(prop, tier, seed, cfg, parts, findings_hit, bad, samples, t0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    c = ev["coverage"]
    print("%s %s: %s cases, %s states, %s transitions, %s traces, %.0f s%s" % (
        prop, tier, c.get("cases", 0), c.get("states"), c.get("transitions"),
        c.get("traces_validated_against_impl"), time.time() - t0,
        "" if c["exhaustive"] else " (NOT exhaustive)"))
    for p in parts:
        for n in p.notes:
            print("note:", n)
    for what in sorted(findings_hit):
        print("KNOWN-FINDING: property=%s %s (%d cases)" % (prop, what,
                                                            len(findings_hit[what])))
    if bad:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        for i, case, key, msg, where in bad:
            path = os.path.join(rd, "%s-%s.json" % (prop, build.sha(case, key)[:10]))
            with open(path, "w") as f:
                json.dump({"property": prop, "part": i, "tier": tier, "case": case,
                           "key": key, "message": msg, "history": where,
                           "how": "./check %s %s --replay %s" % (prop, tier, path)}, f, indent=1)
            print("  [%s] %s: %s" % (key, case, msg))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if any(p.incomplete for p in parts):
        print("exploration incomplete and no violation confirmed")
        return 2
    return 0


def evidence(prop, tier, seed, cfg, parts, findings_hit, bad, samples, t0):
    states, trans, traces, cases = 0, 0, 0, 0
    meta = [p for p in PROPS if p["id"] == prop][0]
    extra = {}
    for p in parts:
        st = set()
        for r in p.results:
            st.update(r["states"])
            trans += r["transitions"]
            traces += r["traces"]
            cases += r["executed"]
            for k, v in r["extra"].items():
                extra.setdefault(k, set()).add(v)
        states += len(st)
    cov = {"states": states, "transitions": trans,
           "traces_validated_against_impl": traces,
           "samples": samples[:12], "cases": cases,
           "exhaustive": not any(p.incomplete for p in parts) and not bad
           and "capped" not in extra,
           "bounds": meta["thorough" if tier == "thorough" else "quick"]}
    for k, v in extra.items():
        cov["note_" + k] = sorted(v)[:8]
    return {"property": prop, "tier": tier, "seed": seed,
            "level": cfg.get("level", "model_checking"), "coverage": cov,
            "assumptions": meta["assume"], "wall_s": round(time.time() - t0, 2),
            "known_findings": sorted(findings_hit), "violations": len(bad),
            "violation_details": [{"case": c, "key": k, "message": m}
                                  for _, c, k, m, _h in bad]}


if __name__ == "__main__":
    sys.exit(main())
