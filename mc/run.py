"""Driver: runs the jobs of one property in up to 8 processes, collects coverage, decides.

Every job runs in its own process with its own scratch directory as cwd: the code under test may call
exit(), abort, crash or write files. A process that dies or stops making progress is a violation,
attributed to the case it had announced.
"""
import argparse
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HANG_S = 150          # no new case announced for this long: a hang
GRACE_S = 60          # how long the other jobs may go on after a first violation
EXIT_CALLED = 70      # exit status of a job in which the code under test called exit()


def load_known():
    known = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.rstrip("\n")
            if line.startswith("known: "):
                # known: property=<id> key=<json string> :: <what fails>
                head, what = line[len("known: "):].split(" :: ", 1)
                pid, key = head.split(" ", 1)
                known[(pid.split("=", 1)[1], json.loads(key.split("=", 1)[1]))] = what
    return known


def child(mod, job, tier, scratch, idx, only=None):
    from mc.core import Reporter, StopExploration
    d = os.path.join(scratch, "job%d" % idx)
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    fd = os.open(os.path.join(scratch, "crumb%d" % idx), os.O_RDWR | os.O_CREAT)
    log = os.open(os.path.join(scratch, "log%d" % idx), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(log, 1)
    os.dup2(log, 2)
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    # exit() called by compiled code must not run the parent's exit handlers (MPI) in this copy: leave at once.
    import ctypes
    libc = ctypes.CDLL(None)
    libc.__cxa_atexit(ctypes.cast(libc._exit, ctypes.c_void_p), ctypes.c_void_p(EXIT_CALLED), None)
    rep = Reporter(fd)
    rep.begin({"job": job, "setup": True})
    import traceback
    rc = 0
    try:
        if only is None:
            mod.explore(job, tier, rep)
        else:
            mod.replay(only, rep)
    except StopExploration:
        pass
    except BaseException as e:
        # Raised outside a case: the set-up of the scenario itself failed in the code under test.
        rep.violations.append({"kind": "exception in set-up " + type(e).__name__,
                               "detail": "\n".join(traceback.format_exc().splitlines()[-14:]), "case": rep.case,
                               "key": "setup|%s" % json.dumps(job, sort_keys=True)})
    res = rep.result()
    tmp = os.path.join(scratch, "res%d.tmp" % idx)
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.rename(tmp, os.path.join(scratch, "res%d" % idx))
    os._exit(rc)


def read_crumb(scratch, idx):
    try:
        b = open(os.path.join(scratch, "crumb%d" % idx), "rb").read()
        n = int(b[:8])
        return json.loads(b[8:8 + n].decode())
    except Exception:
        return None


def warm(mod, scratch):
    """Lets a harness fill the just-in-time compiler's cache once, before its jobs run side by side."""
    if not hasattr(mod, "warm"):
        return
    pid = os.fork()
    if pid == 0:
        try:
            log = os.open(os.path.join(scratch, "warm.log"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(log, 1)
            os.dup2(log, 2)
            os.chdir(scratch)
            mod.warm()
        finally:
            os._exit(0)
    os.waitpid(pid, 0)


def run_jobs(mod, jobs, tier, scratch, nproc=8, only=None):
    warm(mod, scratch)
    pending = list(enumerate(jobs))
    running = {}
    started = {}
    results = []
    crashed = 0
    first_bad = None
    while pending or running:
        if first_bad and time.time() - first_bad > GRACE_S:
            for p in running:
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
            break
        while pending and len(running) < nproc:
            idx, job = pending.pop(0)
            pid = os.fork()
            if pid == 0:
                child(mod, job, tier, scratch, idx, only)
            running[pid] = [idx, job, time.time(), None]
            started[idx] = time.time()
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.02)
            now = time.time()
            for p, r in running.items():
                if now - r[2] > 5:
                    c = json.dumps(read_crumb(scratch, r[0]))
                    if c != r[3]:
                        r[3], r[2] = c, now
                    elif now - r[2] > HANG_S:
                        os.kill(p, signal.SIGKILL)
            continue
        idx, job, t0, crumb = running.pop(pid)
        path = os.path.join(scratch, "res%d" % idx)
        if os.path.exists(path):
            res = json.load(open(path))
        else:
            case = read_crumb(scratch, idx)
            how = ("hang or kill (signal 9)" if os.WIFSIGNALED(status) and os.WTERMSIG(status) == 9 else
                   "crash (signal %d)" % os.WTERMSIG(status) if os.WIFSIGNALED(status) else
                   "exit() called by the code under test" if os.WEXITSTATUS(status) == EXIT_CALLED else
                   "ended with status %d" % os.WEXITSTATUS(status))
            tail = ""
            try:
                tail = open(os.path.join(scratch, "log%d" % idx), errors="replace").read()[-600:]
            except OSError:
                pass
            res = {"states": [], "transitions": 0, "executions": 0, "outcomes": [], "samples": [], "notes": {},
                   "violations": [{"kind": how, "detail": tail, "case": case,
                                   "key": "%s|%s" % (how, json.dumps(case, sort_keys=True))}]}
            crashed += 1
        res["job"] = job
        res["wall"] = time.time() - started[idx]
        results.append((idx, res))
        if res["violations"] and not first_bad:
            first_bad = time.time()
        shutil.rmtree(os.path.join(scratch, "job%d" % idx), ignore_errors=True)
        if sum(len(r["violations"]) for _, r in results) >= 40:
            pending = []
    results.sort(key=lambda t: t[0])
    return [r for _, r in results]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--job", type=int, help="run only this job (debugging; no evidence written)")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="dtmc-")
    rc = 2
    try:
        rc = decide(a, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def decide(a, scratch, t0):
    if a.replay:
        rec = json.load(open(a.replay))
        mod = importlib.import_module("mc." + rec["property"].lower())
        res = run_jobs(mod, [rec.get("job")], rec["tier"], scratch, only=rec["case"])
        bad = [v for r in res for v in r["violations"]]
        for v in bad:
            print("reproduced: %s\n%s" % (v["kind"], v["detail"]))
        print("VIOLATION property=%s replay=%s" % (rec["property"], a.replay) if bad else "not reproduced")
        return 1 if bad else 0
    pid, tier = a.property.upper(), a.tier
    mod = importlib.import_module("mc." + pid.lower())
    jobs = list(mod.jobs(tier))
    if a.job is not None:
        jobs = [jobs[a.job]]
    results = run_jobs(mod, jobs, tier, scratch)
    states, outcomes, notes, samples = set(), set(), {}, []
    trans = execs = 0
    viol = []
    for r in results:
        states.update(r["states"])
        outcomes.update(r["outcomes"])
        trans += r["transitions"]
        execs += r["executions"]
        samples += r["samples"]
        for k, v in r["notes"].items():
            notes[k] = notes.get(k, 0) + v
        for v in r["violations"]:
            v["job"] = r["job"]
            viol.append(v)
    if a.v:
        for r in sorted(results, key=lambda r: -r["wall"])[:12]:
            print("%6.1fs %s" % (r["wall"], json.dumps(r["job"])))
    known = load_known()
    fresh = []
    for v in viol:
        what = known.get((pid, v["key"]))
        if what is not None:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
        else:
            fresh.append(v)
    vac = []
    if not viol and a.job is None:
        for name, least in getattr(mod, "EXPECT", {}).items():
            if notes.get(name, 0) < least:
                vac.append("%s=%d (expected at least %d)" % (name, notes.get(name, 0), least))
    if a.job is None:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        step = max(1, len(samples) // 6)
        ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
              "level": "model_checking",
              "coverage": {"states": len(states), "transitions": trans,
                           "traces_validated_against_impl": execs, "distinct_outcomes": len(outcomes),
                           "jobs": len(jobs), "details": notes, "bounds": mod.BOUNDS[tier],
                           "oracle": mod.ORACLE, "samples": samples[::step][:8],
                           "exhaustive": not viol and not vac},
              "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
              "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
    print("%s %s: states=%d transitions=%d executions=%d outcomes=%d jobs=%d wall=%.1fs %s"
          % (pid, tier, len(states), trans, execs, len(outcomes), len(jobs), time.time() - t0,
             json.dumps(notes, sort_keys=True)))
    if fresh:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for n, v in enumerate(fresh[:5]):
            path = os.path.join(HERE, "replays", "%s-%d.json" % (pid, n))
            with open(path, "w") as f:
                json.dump({"property": pid, "tier": tier, "job": v["job"], "case": v["case"], "kind": v["kind"],
                           "detail": v["detail"], "key": v["key"]}, f, indent=1)
            print("--- %s: %s\n    case: %s\n    %s" % (pid, v["kind"], json.dumps(v["case"])[:600],
                                                  v["detail"][:1500 if a.v else 700].replace("\n", "\n    ")))
        print("%d violation(s)" % len(fresh))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.join(HERE, "replays", "%s-0.json" % pid)))
        return 1
    if vac:
        # Nothing failed, but the exploration did not reach what it must reach: no verdict.
        print("INCOMPLETE: " + "; ".join(vac))
        return 2
    return 0


if __name__ == "__main__":
    main()
