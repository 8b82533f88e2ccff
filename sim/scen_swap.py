"""C15: a process that uses the data file while the installer replaces it."""
import importlib.machinery
import os
import sys
import types

from . import cli, core, dataset, disk
from .base import Violation, sched_for, outcome, H, LEAF
from .scen_build import Site, escapes
from .scen_data import DataScenario, REAL, data_paths, do, check_answer, gen_ask, mod, pick_data, preload_common, text

ITEMS = ["nfkc.nrm", "nfkc_cf.nrm", "ulayout.icu", "unames.icu"]
DEST = "UnicodeData/Data/icudata.dat"


def ask(rng, ds):
    d = rng.choice(ds)
    r = rng.random()
    if r < 0.3:
        k = rng.choice(["off", "hdr", "offq", "alloff", "raw", "raw", "raw"])
        if k == "offq":
            return gen_ask(rng, rng.choice(ds), [k])
        if k == "alloff":
            return ["alloff", ITEMS]
        n = rng.choice(ITEMS)
        if k != "raw":
            return [k, n]
        size = min(len(x.items[n]) for x in ds)
        a = rng.choice([0, rng.randrange(size)])
        return ["raw", n, a, min(size, a + rng.choice([4, 24, 60, 400, size]))]
    return gen_ask(rng, d, ["imp", "imp", "icu", "name", "name", "find", "list", "inpc", "insc", "vo", "full", "full", "decraw"])


class C15(DataScenario):
    prop = "C15"
    quick = 3500
    thorough = 60000
    rule = ("one case = one process of 1-3 threads that import and use the data-file modules while one or two installers replace the data file by 1-4 "
            "other versions, one after another and some of them interrupted, under a seeded schedule; afterwards the file is replaced, damaged or removed "
            "and more is asked; non-trivial = the file was replaced after the first question was asked and before the last was answered; "
            "distinct = distinct event logs")
    real = REAL + ["module_builder/ModuleInstaller.py"]
    assumptions = DataScenario.assumptions + ["the installer and the process share a file system with POSIX rename"]

    def preload(self):
        disk.install_clock()
        cli.preload()
        preload_common()

    def gen(self, rng, tier):
        n = rng.choice([2, 2, 3, 5])
        data = [pick_data(rng) for _ in range(n)]
        ds = [dataset.get(x) for x in data]
        tasks = [[ask(rng, ds) for _ in range(rng.choice([1, 2, 4, 8]))] for _ in range(rng.choice([1, 2, 2, 3]))]
        inst = []
        for v in range(1, n):
            inst.append(["install", v, None])
            if rng.random() < 0.2:
                inst.insert(len(inst) - 1, ["install", v, [int(2 ** rng.uniform(0, 9)), rng.choice(["KeyboardInterrupt", "MemoryError"])]])
        if rng.random() < 0.3:
            inst.append(["install", 0, None])
        after = [rng.choice(["none", "remove", "garbage", "empty", "install"])]
        more = [ask(rng, ds) for _ in range(rng.choice([2, 4, 8]))]
        return dict(data=data, tasks=tasks + [inst], after=after, more=more, short_read=rng.choice([0, 0, 0.5]), chunk=rng.choice([1 << 16, 4096, 512]),
                    wseed=rng.randrange(1 << 30), gran="line", sched=sched_for(rng, tasks))

    def install(self, site, v, inject):
        sys.argv = ["ModuleInstaller.py", os.path.join(site.dir, "src%d" % v)]
        ns = types.ModuleType("__main__")
        path = ns.__file__ = os.path.join(cli.TOOLS, "ModuleInstaller.py")
        sim = core.CURRENT
        if inject and sim.active:
            sim.set_injection(inject[0], core.EXC[inject[1]], inject[1] + "@installer")
        try:
            code = importlib.machinery.SourceFileLoader("__main__", path).get_code("__main__")
            exec(code, ns.__dict__)
        except (core.SimAbort, Violation):
            raise
        except (KeyboardInterrupt, MemoryError):
            if not inject:
                raise
        except Exception as e:
            raise Violation("install-failed", "installing version %d failed: %s: %s" % (v, type(e).__name__, str(e)[:200]))
        finally:
            sim.clear_injection()

    def run(self, plan, out):
        site = Site(plan)
        w = site.w
        w.short_read, w.chunk = plan["short_read"], plan["chunk"]
        ds = [dataset.get(x) for x in plan["data"]]
        hist = []
        old = sys.argv, sys.stdout, os.getcwd()
        try:
            work = os.path.join(site.dir, "repo")
            dest = os.path.join(work, DEST)
            os.makedirs(os.path.dirname(dest))
            for v, d in enumerate(ds):
                src = os.path.join(site.dir, "src%d" % v)
                os.makedirs(src)
                for p, data in (("icudata.dat", d.blob), ("LICENSE", b"version %d\n" % v), ("UnicodeVersion.py", b'unicodeVersion = "%d.0.0"\n' % v)):
                    with disk._open(os.path.join(src, p), "wb") as h:
                        h.write(data)

            def put(data):
                with disk._open(dest, "wb") as h:
                    h.write(data)
            put(ds[0].blob)
            for q in data_paths():
                w.remap[q] = dest
            disk.set_world(w)
            os.chdir(work)
            sys.stdout = cli.Null()
            seen = {0}              # versions that were installed at some time before the data was loaded
            state = {"loaded": False, "cand": None, "asked": False, "swaps": 0}

            def look():
                if state["loaded"]:
                    return
                try:
                    with disk._open(dest, "rb") as h:
                        b = h.read()
                except OSError as e:
                    raise Violation("torn-install", "the data file cannot be read between two installs: %s" % e)
                v = [i for i, d in enumerate(ds) if d.blob == b]
                if not v:
                    raise Violation("torn-install", "the data file is none of the versions (%d bytes)" % len(b))
                seen.update(v)

            def answered(op, r, where):
                if r[0] == "exc":
                    raise Violation("unexpected-exception", "%s: %s raised %s: %s" % (where, text(op), r[1], r[2]))
                if op == ["imp", "ICUDataFile"]:
                    return
                if not state["loaded"]:
                    look()
                    state["loaded"] = True
                    state["cand"] = sorted(seen)
                    out.setdefault("probes", {})["%d versions possible" % len(seen)] = 1
                left = []
                why = None
                for v in state["cand"]:
                    try:
                        check_answer(ds[v], op, r, where)
                        left.append(v)
                    except Violation as e:
                        why = e.detail
                if not left:
                    raise Violation("mixed-versions", "%s; that is in none of the versions %s that all earlier answers fit and that were installed while the file was read" % (
                        why, state["cand"]))
                state["cand"] = left

            def reader(tid, ops):
                for k, op in enumerate(ops):
                    core.progress()
                    state["asked"] = True
                    answered(op, outcome(do, op), "thread %d step %d" % (tid, k))
                    hist.append((tid, k, tuple(state["cand"] or ())))

            def installer(ops):
                for op in ops:
                    self.install(site, op[1], op[2])
                    look()
                    state["swaps"] += state["asked"]
                    hist.append(("installed", op[1]))
            sim = core.Sim(plan["sched"], step_limit=20_000_000)
            out["sim"] = sim
            for tid, ops in enumerate(plan["tasks"][:-1]):
                sim.spawn(lambda tid=tid, ops=ops: reader(tid, ops))
            sim.spawn(lambda: installer(plan["tasks"][-1]))
            sim.run()
            if state["loaded"]:
                for a in plan["after"]:
                    if a == "remove":
                        os.remove(dest)
                    elif a in ("garbage", "empty"):
                        put(b"" if a == "empty" else b"\x20\0" + b"garbage" * 500)
                    elif a == "install":
                        for v in range(len(ds)):
                            if v not in state["cand"]:
                                put(ds[v].blob)
                    if a != "none":
                        out["fired"]["data file: " + a] = 1
                for k, op in enumerate(plan["more"]):
                    answered(op, outcome(do, op), "afterwards (%s), step %d" % (plan["after"], k))
                for n in LEAF:
                    mod(n)
            escapes(site)
            out["nontrivial"] = state["swaps"] > 0 and state["loaded"]
        finally:
            sys.argv, sys.stdout = old[:2]
            os.chdir(old[2])
            out["hist"] = H(hist)
            for k, v in w.fired.items():
                out["fired"][k] = out["fired"].get(k, 0) + v
            site.close()


SCENARIOS = {"C15": C15}
