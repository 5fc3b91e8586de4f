"""Exploration core: what a harness talks to while it enumerates cases."""
import hashlib
import json
import os
import traceback


ALL_CPUS = set(range(os.cpu_count()))


class Violation(Exception):
    """The real code disagreed with the reference model."""

    def __init__(self, kind, detail):
        Exception.__init__(self, kind, detail)
        self.kind, self.detail = kind, detail


def require(cond, kind, detail=""):
    if not cond:
        raise Violation(kind, detail() if callable(detail) else detail)


def h64(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


class Reporter(object):
    """Counts what was explored and keeps violations. One per job (i.e. per process)."""

    MAX_VIOL = 5

    def __init__(self, crumb_fd=None):
        self.states = set()
        self.transitions = 0
        self.executions = 0
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.notes = {}
        self.crumb_fd = crumb_fd
        self.case = None

    # ---- called by harnesses
    def begin(self, case):
        """Names the case about to be executed (so that a crash or hang can be attributed)."""
        self.case = case
        os.sched_setaffinity(0, ALL_CPUS)       # building a function space binds the process to core 0 (SCOTCH)
        if self.crumb_fd is not None:
            b = json.dumps(case).encode()[:60000]
            os.pwrite(self.crumb_fd, b"%08d" % len(b) + b, 0)

    def done(self, outcome=None):
        self.executions += 1
        if outcome is not None:
            self.outcomes.add(h64(outcome))
        if len(self.samples) < 2 or (self.executions in (50, 500, 5000)):
            self.samples.append(self.case)

    def state(self, key):
        self.states.add(h64(key))

    def step(self, n=1):
        self.transitions += n

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def violate(self, kind, detail):
        self.violations.append({"kind": kind, "detail": str(detail)[:3000], "case": self.case,
                                "key": "%s|%s" % (kind, json.dumps(self.case, sort_keys=True))})
        if len(self.violations) >= self.MAX_VIOL:
            raise StopExploration()

    def run(self, case, fn):
        """Executes fn() as one case; a Violation, exception or exit from it is recorded."""
        self.begin(case)
        try:
            out = fn()
        except Violation as v:
            self.violate(v.kind, v.detail)
        except StopExploration:
            raise
        except KeyboardInterrupt:
            raise
        except BaseException as e:
            tb = traceback.format_exc().splitlines()
            self.violate("exception " + type(e).__name__, "\n".join(tb[-14:]))
        else:
            self.done(out)

    def result(self):
        return {"states": sorted(self.states), "transitions": self.transitions, "executions": self.executions,
                "outcomes": sorted(self.outcomes), "samples": self.samples[:4], "violations": self.violations,
                "notes": self.notes}


class StopExploration(Exception):
    pass
