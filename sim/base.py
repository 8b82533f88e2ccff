"""What every scenario shares."""
import hashlib
import json
import os
import posix
import pickle
import random
import sys

from . import core, disk
from .core import Violation

REPO = core.REPO
PKG = "UnicodeData"
LEAF = ("ICUDataFile", "CharNames", "LayoutProps", "Normalizer2")
SCRATCH = os.environ.get("VERIF_SCRATCH", "")


class Scenario:
    prop = ""
    quick = 1000            # simulated runs
    thorough = 20000
    quick_cap = 300         # seconds of wall clock, as a safety net
    thorough_cap = 720
    timeout = 90            # seconds per simulated run
    rule = ""
    stubs = []
    real = []
    lists = ("ops",)

    def preload(self):
        """in the zygote, before any run: import what is warm."""

    def gen(self, rng, tier):
        raise NotImplementedError

    def run(self, plan, out):
        """execute; raise Violation. out: dict for statistics."""
        raise NotImplementedError

    def shrink(self, plan):
        """smaller plans to try, best first."""
        yield from generic_shrink(plan)

    def sample(self, plan):
        return plan


def warm(*names):
    import importlib
    mods = []
    for n in names:
        mods.append(importlib.import_module(PKG + "." + n))
    return mods


def aside(name, fn):
    """fn(), computed once per check and in a process of its own, so that it
    leaves no trace in the code under test."""
    path = os.path.join(SCRATCH, name + ".pickle")
    if not (SCRATCH and os.path.exists(path)):
        tmp = "%s.%d" % (path, posix.getpid())
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                with core.quiet():
                    v = fn()
                with open(tmp, "wb") as f:
                    pickle.dump(v, f)
                code = 0
            except BaseException:
                pass
            finally:
                os._exit(code)
        _, status = os.waitpid(pid, 0)
        if status:
            fn()                # raises it here
            raise RuntimeError("%s fails in a child only" % name)
        os.rename(tmp, path)
    with open(path, "rb") as f:
        return pickle.load(f)


def sched_for(rng, tasks):
    """swarm: how this run schedules."""
    if rng.random() < 0.3:      # seldom, and then right after something was stored
        return dict(seed=rng.randrange(1 << 32), quantum=rng.choice([3, 4, 5, 5]), io=rng.choice([0.0, 0.0, 0.2]), stick=0.0, hot=rng.choice([0.05, 0.2, 0.5, 1.0]))
    return dict(seed=rng.randrange(1 << 32), quantum=rng.choice([0, 1, 1, 2, 2, 3, 4]), io=rng.choice([0.0, 0.2, 0.5, 1.0]),
                stick=rng.choice([0.0, 0.0, 0.5, 0.9]))


def outcome(fn, *a):
    """('ok', value) or ('exc', type name, text); simulator exceptions pass."""
    try:
        return ("ok", fn(*a))
    except (core.SimAbort, core.SimCrash, Violation):
        raise
    except BaseException as e:
        return ("exc", type(e).__name__, str(e)[:200])


def H(*x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:16]


# ------------------------------------------------------------ shrinking

def _variants(lst):
    """the list without some of its elements: big pieces first."""
    n = len(lst)
    size = n
    while size >= 1:
        for i in range(0, n, size):
            cand = lst[:i] + lst[i + size:]
            if len(cand) < n:
                yield cand
        size //= 2
        if n > 3000 and n // max(size, 1) > 64:
            return


def generic_shrink(plan):
    import copy
    sched = plan.get("sched") or {}
    dec = sched.get("decisions")
    if dec and len(dec) > 1:
        p = copy.deepcopy(plan)
        p["sched"] = {"decisions": []}
        yield p
    if "tasks" in plan:
        for i in range(len(plan["tasks"])):
            if len(plan["tasks"]) > 1:
                # keep the numbering of the other tasks: empty this one
                if plan["tasks"][i]:
                    p = copy.deepcopy(plan)
                    p["tasks"][i] = []
                    yield p
        for i, ops in enumerate(plan["tasks"]):
            for v in _variants(ops):
                p = copy.deepcopy(plan)
                p["tasks"][i] = v
                yield p
    for key in ("ops", "faults", "setup", "attempts", "after", "more", "builds"):
        if plan.get(key):
            for v in _variants(plan[key]):
                p = copy.deepcopy(plan)
                p[key] = v
                yield p
    for key, zero in (("short_read", 0), ("short_write", 0), ("shuffle", False), ("gran", "line")):
        if plan.get(key) not in (zero, None):
            p = copy.deepcopy(plan)
            p[key] = zero
            yield p
    if dec and len(dec) > 1:
        for v in _variants(dec):
            p = copy.deepcopy(plan)
            p["sched"] = {"decisions": v}
            yield p
        # give a whole segment to the next task of the list
        for i in range(len(dec) - 1 if len(dec) < 200 else 0):
            if dec[i][0] != dec[i + 1][0]:
                continue
            p = copy.deepcopy(plan)
            p["sched"]["decisions"] = dec[:i] + [[dec[i][0], dec[i][1] + dec[i + 1][1]]] + dec[i + 2:]
            yield p


def size_of(plan):
    """what the minimiser makes smaller."""
    d = (plan.get("sched") or {}).get("decisions")
    rest = {k: v for k, v in plan.items() if k != "sched"}
    return (len(json.dumps(rest)), len(d) if d is not None else 1 << 30)
