"""Runs the check of one property:

    python -m sim.runner C07 quick|thorough
    python -m sim.runner --replay FILE
    python -m sim.runner --determinism C07 [N]

exit 0: held on everything explored; 1: violation (with a VIOLATION line);
2: the machinery failed (no verdict).
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
JOBS = int(os.environ.get("VERIF_JOBS", str(max(1, min(8, os.cpu_count() or 1)))))


class Harness(Exception):
    pass


class Broken(Exception):
    """the code under test cannot even be imported."""


def setarch():
    """fixed addresses make even id()-dependent code repeatable, where allowed."""
    exe = shutil.which("setarch")
    if exe:
        try:
            if subprocess.run([exe, "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
                return [exe, "-R"]
        except OSError:
            pass
    return []


class Worker:
    def __init__(self, prop, scratch, hashseed="0"):
        env = dict(os.environ)
        env.update(PYTHONHASHSEED=hashseed, PYTHONPATH=HERE, VERIF_SCRATCH=scratch, PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
                   VERIF_REPO=REPO, TZ="UTC", LC_ALL="C.UTF-8", PYTHONWARNINGS="ignore", PYTHONUTF8="1")
        env.pop("PYTHONSTARTUP", None)
        self.p = subprocess.Popen(setarch() + [PY, "-m", "sim.worker", prop], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env,
                                  cwd=scratch, text=True)
        self.prop = prop

    def ready(self):
        line = self.p.stdout.readline()
        try:
            r = json.loads(line)
        except ValueError:
            raise Harness("worker died at start: %r" % line)
        if "broken" in r:
            raise Broken(r["broken"])
        if not r.get("ready"):
            raise Harness(r.get("harness") or "worker failed")
        return self

    def ask(self, req):
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            return json.loads(line)
        except (OSError, ValueError) as e:
            raise Harness("worker died: %s" % e)

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(20)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()


class Pool:
    def __init__(self, prop, jobs=JOBS, hashseed="0"):
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        os.chmod(self.scratch, 0o755)
        self.prop = prop
        self.workers = []
        # the first worker also fills the bytecode cache of the others
        w = Worker(prop, self.scratch, hashseed)
        self.workers.append(w)
        try:
            w.ready()
            rest = [Worker(prop, self.scratch, hashseed) for _ in range(jobs - 1)]
            self.workers += rest
            for x in rest:
                x.ready()
        except BaseException:
            self.close()
            raise

    def map(self, reqs, stop=None, cap=None):
        """yield-free: run all requests (dicts with id), return {id: result}.
        stop(result) ends handing out new requests."""
        lock = threading.Lock()
        it = iter(reqs)
        out = {}
        state = {"stop": False, "err": None}
        t0 = time.monotonic()

        def work(w):
            while True:
                with lock:
                    if state["stop"] or state["err"]:
                        return
                    if cap is not None and time.monotonic() - t0 > cap:
                        state["capped"] = True
                        return
                    req = next(it, None)
                if req is None:
                    return
                try:
                    r = w.ask(req)
                except Harness as e:
                    state["err"] = e
                    return
                with lock:
                    out[req["id"]] = r
                    if stop and stop(r):
                        state["stop"] = True
        ths = [threading.Thread(target=work, args=(w,)) for w in self.workers]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if state["err"]:
            raise state["err"]
        self.capped = state.get("capped", False)
        return out

    def close(self):
        for w in self.workers:
            w.close()
        if os.path.isdir(self.scratch) and self.scratch.startswith(tempfile.gettempdir()):
            subprocess.run(["chmod", "-R", "u+rwX", self.scratch], stderr=subprocess.DEVNULL)
            shutil.rmtree(self.scratch, ignore_errors=True)


def run_seed(base, i):
    return base * 1_000_003 + i


def minimise(pool, scn, first, budget=60.0):
    """first: failing result with a plan. Greedy: take the first smaller plan
    that still shows the same kind of violation."""
    from . import base
    kind = first["violation"]["kind"]
    best = first
    t0 = time.monotonic()
    tried = 0
    n = 0
    # the recorded decisions must reproduce the run
    r = pool.map([{"id": 0, "plan": best["plan"]}])[0]
    if r.get("ok") is not False or r["violation"]["kind"] != kind:
        return first, 0, False
    best = r
    while time.monotonic() - t0 < budget:
        found = None
        seen = set()
        gen = scn.shrink(best["plan"])
        more = True
        count = 0
        while more and found is None and count < 4000 and time.monotonic() - t0 < budget:
            batch = []
            while len(batch) < len(pool.workers) * 2:
                p = next(gen, None)
                if p is None:
                    more = False
                    break
                key = hash(json.dumps(p, sort_keys=True))
                if key not in seen:
                    seen.add(key)
                    batch.append(p)
                if time.monotonic() - t0 > budget:
                    break
            count += len(batch)
            res = pool.map([{"id": k, "plan": p, "timeout": 20} for k, p in enumerate(batch)])
            tried += len(batch)
            for k in sorted(res):
                r = res[k]
                if r.get("ok") is False and r["violation"]["kind"] == kind and base.size_of(r["plan"]) < base.size_of(best["plan"]):
                    found = r
                    break
        if found is None:
            break
        best = found
        n += 1
    return best, tried, True


def load_known(prop):
    """(accepted findings for this property). A finding is identified by a
    substring of the violation text: lines 'known: property=ID match=TEXT'."""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                kind_match = line.split(" match=", 1)[1]
                m, _, text = kind_match.partition(" :: ")
                out.append((m, text or m))
    return out


def check(prop, tier, seed, jobs=JOBS, runs=None, write=True):
    from . import scenarios
    t0 = time.monotonic()
    scn = scenarios.get(prop)
    n = runs or (scn.quick if tier == "quick" else scn.thorough)
    cap = scn.quick_cap if tier == "quick" else scn.thorough_cap
    try:
        pool = Pool(prop, jobs)
    except Broken as e:
        path = write_replay(prop, "import", {"property": prop, "seed": None, "tier": tier, "plan": None, "digest": None,
                                             "violation": {"kind": "cannot-be-imported", "detail": str(e)}})
        print("cannot-be-imported: %s" % e)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    known = load_known(prop)
    try:
        t1 = time.monotonic()
        start_s = t1 - t0

        def is_known(r):
            return any(m in r["violation"]["detail"] for m, _ in known)

        late = []

        def stop(r):
            if r.get("timeout"):
                late.append(r)
                return len(late) >= 2 * jobs
            return (r.get("ok") is False and not is_known(r)) or "harness" in r
        reqs = ({"id": i, "seed": run_seed(seed, i), "tier": tier, "want_plan": i < 3} for i in range(n))
        res = pool.map(reqs, stop, cap)
        sim_s = time.monotonic() - t1
        capped = pool.capped
        bad = [res[i] for i in sorted(res) if "harness" in res[i]]
        viol = [res[i] for i in sorted(res) if res[i].get("ok") is False and not is_known(res[i])]
        if bad and not viol and all(b.get("timeout") for b in bad):
            # is it stuck for good?
            b = bad[0]
            req = {"id": b["id"], "seed": run_seed(seed, b["id"]), "tier": tier}
            r = pool.map([dict(req, timeout=2 * scn.timeout)])[b["id"]]
            if r.get("timeout"):
                plan = pool.map([dict(req, plan_only=True)])[b["id"]].get("plan")
                path = write_replay(prop, req["seed"], {"property": prop, "seed": req["seed"], "tier": tier, "plan": plan, "digest": None, "timeout": 2 * scn.timeout,
                                                        "violation": {"kind": "no-end", "detail": "the run does not end"}})
                print("seed %s: no-end: not over after %s s; other runs take less than a second" % (req["seed"], 2 * scn.timeout))
                print("VIOLATION property=%s replay=%s" % (prop, path))
                return 1
            # it ends, only slowly, and so do the others
            res[b["id"]] = r
            bad = [r] if "harness" in r else []
            if r.get("ok") is False and not is_known(r):
                viol = [r]
        if bad and not viol:
            b = bad[0]
            raise Harness("run %s: %s" % (b.get("id"), b["harness"]))
        # re-run a sample, on other workers, and compare the event logs
        ids = [i for i in sorted(res) if "harness" not in res[i]]
        sample = ids[:: max(1, len(ids) // max(8, min(200, len(ids) // 30)))] if not viol else []
        again = pool.map([{"id": i, "seed": run_seed(seed, i), "tier": tier} for i in reversed(sample)])
        diff = [i for i in again if again[i].get("digest") != res[i].get("digest")]
        ev = evidence(prop, scn, tier, seed, res, start_s, sim_s, capped, len(again), diff, viol, jobs)
        code = 0
        for m, text in known:
            hits = [r for r in res.values() if r.get("ok") is False and m in r["violation"]["detail"]]
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
        if viol:
            code = report(pool, scn, prop, tier, seed, viol, ev)
        ev["wall_s"] = round(time.monotonic() - t0, 2)
        ev["coverage"]["runs_given_up_as_too_slow"] = len(late) + ev["coverage"]["probes"].get("slow run, given up", 0)
        if write:
            d = os.path.join(HERE, "evidence")
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, prop + ".json"), "w", encoding="utf-8") as f:
                json.dump(ev, f, indent=1, sort_keys=True, ensure_ascii=True)
                f.write("\n")
        c = ev["coverage"]
        print("%s %s seed=%d: %d runs (%d distinct non-trivial) in %.1f s, %d seeds/h, %d steps, faults %s, redone %d, differing %d" % (
            prop, tier, seed, c["evaluations"], c["distinct_nontrivial"], ev["wall_s"], c["seeds_per_hour"], c["simulated_steps"],
            sum(c["faults_injected"].values()), c["determinism"]["rerun"], c["determinism"]["differing"]))
        return code
    finally:
        pool.close()


def write_replay(prop, seed, rec):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, seed))
    with open(path, "w", encoding="utf-8") as f:
        json.dump(rec, f, indent=1)
        f.write("\n")
    return path


def report(pool, scn, prop, tier, seed, viol, ev):
    """minimise, write the replay file, confirm it in a fresh process."""
    for first in viol[:4]:
        t0 = time.monotonic()
        best, tried, stable = minimise(pool, scn, first)
        print("minimised %s in %.1f s (%d tried)" % (first["plan"].get("seed"), time.monotonic() - t0, tried))
        same = []
        for best, stable in ((best, stable), (first, False)):
            fresh = Pool(prop, 1)
            try:
                seen = [fresh.workers[0].ask({"id": k, "plan": best["plan"]}) for k in range(2)]
            finally:
                fresh.close()
            same = [r for r in seen if r.get("ok") is False and r["violation"]["kind"] == best["violation"]["kind"]]
            if same:
                break
        if not same:
            continue
        final = same[0]
        path = write_replay(prop, first["plan"].get("seed", seed), {
            "property": prop, "seed": first["plan"].get("seed"), "tier": tier, "violation": final["violation"], "digest": final.get("digest"), "plan": final["plan"],
            "original_plan": first["plan"] if len(json.dumps(first["plan"])) < 20000 else "run with this seed",
            "minimiser": {"tried": tried, "stable": stable}})
        print("seed %s: %s: %s" % (first["plan"].get("seed"), final["violation"]["kind"], final["violation"]["detail"]))
        print("replay with: cd %s && %s -m sim.runner --replay %s" % (HERE, PY, path))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    raise Harness("violations seen, but none could be replayed: %s" % viol[0]["violation"])


def evidence(prop, scn, tier, seed, res, start_s, sim_s, capped, rerun, diff, viol, jobs):
    good = [r for r in res.values() if "harness" not in r]
    fired = {}
    pts = {}
    probes = {}
    for r in good:
        for k, v in r.get("fired", {}).items():
            fired[k] = fired.get(k, 0) + v
        for k, v in r.get("probes", {}).items():
            probes[k] = probes.get(k, 0) + v
    nt = {r.get("digest") for r in good if r.get("nontrivial")}
    inter = {r.get("interleaving") for r in good if r.get("switches")}
    samples = []
    for i in sorted(res):
        if "plan" in res[i] and len(samples) < 3 and "harness" not in res[i]:
            s = json.dumps(scn.sample(res[i]["plan"]))
            samples.append(res[i]["plan"] if len(s) < 4000 else {"seed": res[i]["plan"].get("seed"), "abridged": s[:3500]})
    cov = dict(
        evaluations=len(good), distinct_nontrivial=len(nt), rule=scn.rule, samples=samples or [{"seed": seed}],
        seeds=len(good), seed_base=run_seed(seed, 0), requested=scn.quick if tier == "quick" else scn.thorough, capped_by_wall_clock=capped,
        seeds_per_hour=int(len(good) / max(sim_s, 0.001) * 3600), startup_s=round(start_s, 2), simulation_s=round(sim_s, 2), jobs=jobs,
        simulated_steps=sum(r.get("steps", 0) for r in good), simulated_seconds=round(sum(r.get("slept", 0) + r.get("simtime", 0) for r in good), 3),
        context_switches=sum(r.get("switches", 0) for r in good), distinct_interleavings=len(inter),
        interleaving_measure="hash of the sequence of (from task, to task) switches of a run; runs with at least one switch",
        distinct_event_logs=len({r.get("digest") for r in good}),
        states_reached=sum(r.get("states", 0) for r in good), faults_injected=dict(sorted(fired.items())), probes=dict(sorted(probes.items())),
        determinism=dict(rerun=rerun, differing=len(diff), differing_ids=diff[:10]),
        real_code=scn.real, stubs=scn.stubs)
    return dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=0.0, violations=len(viol),
                assumptions=getattr(scn, "assumptions", []))


def replay(path):
    with open(path, encoding="utf-8") as f:
        rec = json.load(f)
    prop = rec["property"]
    try:
        pool = Pool(prop, 1)
    except Broken as e:
        print("replay of %s: cannot-be-imported: %s" % (path, e))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    try:
        req = {"id": 0, "plan": rec["plan"]}
        if rec["plan"] is None:
            r = {"ok": True}
        else:
            if rec.get("timeout"):
                req["timeout"] = rec["timeout"]
            r = pool.workers[0].ask(req)
    finally:
        pool.close()
    if r.get("timeout") and rec["violation"]["kind"] == "no-end":
        r = {"ok": False, "violation": rec["violation"], "digest": None}
    if "harness" in r:
        raise Harness(r["harness"])
    if r["ok"]:
        print("replay of %s: no violation" % path)
        return 0
    same = r["violation"] == rec["violation"] and r.get("digest") == rec.get("digest")
    print("replay of %s: %s: %s (%s)" % (path, r["violation"]["kind"], r["violation"]["detail"], "identical" if same else "DIFFERS from the record"))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def determinism(prop, n, seed=1):
    """every seed twice, at different worker counts and hash seeds."""
    logs = []
    for jobs, hs in ((8, "0"), (3, "0"), (5, "12345")):
        pool = Pool(prop, jobs, hs)
        try:
            res = pool.map([{"id": i, "seed": run_seed(seed, i), "tier": "quick"} for i in range(n)])
        finally:
            pool.close()
        logs.append({i: (r.get("digest"), r.get("ok"), r.get("steps"), json.dumps(r.get("fired"), sort_keys=True), r.get("harness")) for i, r in res.items()})
    bad = [i for i in range(n) if len({l[i] for l in logs}) != 1]
    print("%s: %d seeds x %d configurations, %d differ %s" % (prop, n, len(logs), len(bad), bad[:10]))
    for i in bad[:3]:
        for l in logs:
            print("   ", i, l[i])
    return 0 if not bad else 2


def fidelity(prop, n, seed=1):
    """every seed once by search, and once from the decisions that made: the same run?"""
    pool = Pool(prop, os.cpu_count() or 4)
    try:
        one = pool.map([{"id": i, "seed": run_seed(seed, i), "tier": "quick", "want_plan": "decisions"} for i in range(n)])
        two = pool.map([{"id": i, "plan": one[i]["plan"]} for i in range(n) if one[i].get("plan")])
    finally:
        pool.close()
    bad = [i for i in two if any(one[i].get(k) != two[i].get(k) for k in ("ok", "violation", "steps", "switches", "interleaving", "hist", "harness"))]
    print("%s: %d of %d replays by decisions differ %s" % (prop, len(bad), len(two), bad[:10]))
    for i in bad[:3]:
        print("   ", [(k, one[i].get(k), two[i].get(k)) for k in ("ok", "violation", "steps", "switches", "interleaving", "hist", "harness")])
    return 0 if not bad else 2


def main(argv):
    try:
        if argv[0] == "--fidelity":
            from . import scenarios
            props = scenarios.PROPS if argv[1] == "all" else [argv[1]]
            return max(fidelity(p, int(argv[2]) if len(argv) > 2 else 200) for p in props)
        if argv[0] == "--replay":
            return replay(argv[1])
        if argv[0] == "--determinism":
            from . import scenarios
            props = scenarios.PROPS if argv[1] == "all" else [argv[1]]
            return max(determinism(p, int(argv[2]) if len(argv) > 2 else 200) for p in props)
        prop, tier = argv[0], (argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick"))
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        runs = int(argv[2]) if len(argv) > 2 else None
        print("%s %s VERIF_SEED=%d repo=%s" % (prop, tier, seed, REPO), flush=True)
        return check(prop, tier, seed, runs=runs)
    except Harness as e:
        print("HARNESS-ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
