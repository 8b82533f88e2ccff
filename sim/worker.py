"""Zygote: imports the scenario once, then runs every simulated run in a
forked child. Reads requests from stdin, one JSON object per line, and answers
on the original stdout."""
import gc
import json
import os
import random
import resource
import select
import signal
import sys
import time
import traceback


class PlanOnly(Exception):
    pass


class Slow(Exception):
    pass


def blame(e):
    """the function of the code under test that let this exception out, if it was that code."""
    from . import core
    here = os.path.dirname(os.path.abspath(__file__))
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if f.filename.startswith(here):
            return None
        if f.filename.startswith(core.REPO + os.sep):
            return "%s (%s)" % (f.name, os.path.relpath(f.filename, core.REPO))
    return None


def child(scn, req, wfd):
    from . import core, disk, base
    import tempfile
    res = {"id": req["id"]}
    out = {"fired": {}}
    plan = None
    try:
        seed = req.get("seed")
        if "plan" in req:
            plan = req["plan"]
        else:
            plan = scn.gen(random.Random("%s/%s" % (scn.prop, seed)), req.get("tier", "quick"))
            plan["seed"] = seed
        if req.get("plan_only"):
            raise PlanOnly
        random.seed(0)
        tempfile._name_sequence = iter("t%06d" % i for i in range(1 << 20))
        if plan.get("gran"):
            core.set_granularity(plan["gran"])
        try:
            scn.run(plan, out)
            res["ok"] = True
        except core.Violation as v:
            if v.kind == "slow":        # every operation ended, but there are too many steps in them
                raise Slow
            res["ok"] = False
            res["violation"] = {"kind": v.kind, "detail": v.detail[:2000] if isinstance(v.detail, str) else v.detail}
        except Exception as e:
            where = blame(e)
            if where is None:
                raise
            res["ok"] = False
            res["violation"] = {"kind": "unexpected-exception", "detail": "%s raised %s: %s" % (where, type(e).__name__, str(e)[:300])}
        sim = out.pop("sim", None)
        if sim is not None:
            res["digest"] = sim.digest()
            res["steps"] = sim.steps
            res["switches"] = sim.switches
            res["slept"] = round(sim.slept, 6)
            res["interleaving"] = sim.interleave.hexdigest()[:16]
            for k, v in sim.fired.items():
                out["fired"][k] = out["fired"].get(k, 0) + v
            if not res["ok"] or req.get("want_plan") == "decisions":
                plan = dict(plan)
                plan["sched"] = {"decisions": sim.segs}
        if "hist" in out:
            res["digest"] = base.H(res.get("digest"), out["hist"], res.get("violation"))
        res.update(out)
        if not res["ok"] or req.get("want_plan"):
            res["plan"] = plan
    except PlanOnly:
        res["plan"] = plan
    except Slow:
        res["ok"] = True
        res["fired"] = {}
        res["probes"] = {"slow run, given up": 1}
    except BaseException:
        res["harness"] = traceback.format_exc()[-3000:]
        res["plan"] = plan
    try:
        data = json.dumps(res).encode()
    except BaseException:
        data = json.dumps({"id": req["id"], "harness": "result not serialisable: " + traceback.format_exc()[-1500:]}).encode()
    while data:
        n = disk._os["write"](wfd, data)
        data = data[n:]
    os._exit(0)


MEMORY = 3 << 30


def bounded():
    """A run that grows without end fails with MemoryError instead of taking the machine's memory, and none outlives its zygote."""
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    if libc is not None:
        libc.prctl(1, signal.SIGKILL)       # PR_SET_PDEATHSIG


def main():
    global libc
    prop = sys.argv[1]
    out = os.fdopen(os.dup(1), "w", buffering=1)
    log = os.open(os.path.join(os.environ["VERIF_SCRATCH"], "log.%d" % os.getpid()), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.dup2(log, 1)
    os.dup2(log, 2)
    try:
        import ctypes
        libc = ctypes.CDLL(None)
    except (ImportError, OSError):
        libc = None
    sys.unraisablehook = lambda *a: None
    from . import core, disk, scenarios
    scn = scenarios.get(prop)
    sys.path.insert(0, core.REPO)
    try:
        core.install()
        disk.install()
        scn.preload()
    except BaseException as e:
        where = blame(e) if isinstance(e, Exception) else None
        if where is not None:
            out.write(json.dumps({"broken": "%s raised %s: %s" % (where, type(e).__name__, str(e)[:300])}) + "\n")
            return
        out.write(json.dumps({"id": None, "harness": "preload: " + traceback.format_exc()[-3000:]}) + "\n")
        return
    gc.collect()
    gc.freeze()
    gc.disable()
    out.write(json.dumps({"ready": True}) + "\n")
    for line in sys.stdin:
        req = json.loads(line)
        r, w = os.pipe()
        t0 = time.monotonic()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            out_fd = out.fileno()
            try:
                os.close(out_fd)
                os.close(0)
            except OSError:
                pass
            os.setsid()
            bounded()
            child(scn, req, w)
        os.close(w)
        buf = b""
        deadline = t0 + req.get("timeout", scn.timeout)
        timed_out = False
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                timed_out = True
                break
            rl, _, _ = select.select([r], [], [], left)
            if rl:
                piece = os.read(r, 1 << 20)
                if not piece:
                    break
                buf += piece
        os.close(r)
        if timed_out:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        _, status = os.waitpid(pid, 0)
        if timed_out:
            res = {"id": req["id"], "harness": "timeout after %s s" % req.get("timeout", scn.timeout), "seed": req.get("seed"), "timeout": True}
        else:
            try:
                res = json.loads(buf)
            except ValueError:
                res = {"id": req["id"], "harness": "child died, status %d" % status, "seed": req.get("seed")}
        res["wall"] = round(time.monotonic() - t0, 4)
        out.write(json.dumps(res) + "\n")


if __name__ == "__main__":
    main()
