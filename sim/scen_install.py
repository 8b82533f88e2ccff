"""C13: the installer, run as a simulated process on the simulated disk."""
import gc
import importlib.machinery
import os
import random
import sys
import types

from . import cli, core, disk, icutree
from .base import Scenario, Violation, H, generic_shrink, sched_for
from .scen_build import Build, Site, gen_env, gen_fault, knobs, resolve_faults, escapes, ERRORS, CRASHES

NAMES = ["BidiPropsData.py", "CharPropsData.py", "CasePropsData.py", "uprops_h.py", "ucase_h.py", "uchar_h.py", "uscript_h.py",
         "UCDTypeDictionaries.py", "UnicodeVersion.py"]


def content(rng, name, tag):
    """like a generated file; sizes from nothing to a few hundred kilobytes."""
    n = rng.choice([0, 1, 40, 700, 4000, 4000, 20000, 70000, 200000])
    if name.endswith(".dat"):
        n = max(n, 32)
    unit = ("%s %s %s\n" % (tag, name, rng.getrandbits(64))).encode()
    return (unit * (n // len(unit) + 1))[:n]


class Argv(list):
    """sys.argv of whichever process runs."""

    def _of(self):
        s = core.CURRENT
        return self.by.get(s.cur.tid, []) if s is not None and s.cur is not None else []

    def __getitem__(self, i):
        return self._of()[i]

    def __len__(self):
        return len(self._of())

    def __iter__(self):
        return iter(self._of())

    def __eq__(self, x):
        return self._of() == x

    __hash__ = None


class C13(Build):
    prop = "C13"
    quick = 5000
    thorough = 120000
    rule = "a run is non-trivial when at least one install was killed or failed part way over an earlier state"
    stubs = ["the generated files and the package directory: synthetic", "disk faults, short I/O: sim/disk.py"]
    real = ["module_builder/ModuleInstaller.py, run as __main__ with its command line", "shutil, pathlib, os and the interpreter", "the scratch file system"]
    assumptions = ["a crash is the death of the process: what was written to files survives", "source and package are on one file system"]

    def preload(self):
        disk.install_clock()
        cli.preload()

    def gen(self, rng, tier):
        plan = {"wseed": rng.randrange(1 << 30), "seedc": rng.randrange(1 << 30), "names": rng.sample(NAMES, rng.choice([1, 2, 3, 5, 9])),
                "old": rng.choice([0.0, 0.5, 1.0, 1.0]), "rel": rng.randrange(16), "same": rng.choice([0.0, 0.0, 0.4])}
        if rng.random() < 0.3:
            plan["names"].append(rng.choice(["Extra Data.py", "Zusätze.py", "a.b.py"]))
        plan["src"] = rng.choice(["generated", "generated", "generated files", "build [1]/out*", "erzeugt ü/py"])
        plan["builds"] = []
        if rng.random() < 0.3:
            return self.gen_twin(rng, plan)
        for _ in range(rng.choice([1, 1, 2, 2, 3, 5])):
            b = gen_env(rng, {})
            k = rng.random()
            if k < 0.3:
                b["line"] = round(rng.random(), 6)
            elif k < 0.6:
                b["faults"] = [gen_fault(rng, CRASHES)]
            elif k < 0.88:
                b["faults"] = [gen_fault(rng, ERRORS) for _ in range(rng.choice([1, 1, 2]))]
            elif k < 0.93:
                b["missing"] = rng.random()
            if rng.random() < 0.3:
                b["newer"] = rng.randrange(1 << 30)
            plan["builds"].append(b)
        plan["final"] = gen_env(rng, {})
        return plan

    def gen_twin(self, rng, plan):
        """two or three installers at the same time."""
        n = rng.choice([1, 2, 2, 3])
        plan["versions"] = n
        tasks = []
        for _ in range(rng.choice([2, 2, 3])):
            ops = []
            for _ in range(rng.choice([1, 1, 2])):
                hit = None
                if rng.random() < 0.35:
                    hit = [round(rng.random(), 4), rng.choice(["kill", "kill", "KeyboardInterrupt", "MemoryError"])]
                ops.append(["install", rng.randrange(n), hit])
            tasks.append(ops)
        plan["tasks"] = tasks
        plan["looks"] = rng.choice([0, 10, 40, 100])
        plan["faults"] = [gen_fault(rng, ERRORS + ["crash", "torn-crash"]) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
        plan["short_read"], plan["short_write"] = rng.choice([0.0, 0.0, 0.5]), rng.choice([0.0, 0.0, 0.5])
        plan["gran"] = "line"
        plan["sched"] = sched_for(rng, tasks)
        plan["final"] = gen_env(rng, {})
        return plan

    def twin(self, plan, out, site, srcs, work, dest, versions, unrelated, old, dry, hist):
        w = site.w
        argv = Argv()
        argv.by = {}
        pids = w.pids
        runs = []               # [version, start, end, ok]
        clock = [0]
        state = {"allowed": {None}, "over": 0}
        mine = set(dest.values())
        saved = sys.argv, sys.stdout, sys.stderr, os.getcwd()

        def tick():
            clock[0] += 1
            return clock[0]

        def look(when):
            for n, rel in dest.items():
                try:
                    with disk._open(os.path.join(work, rel), "rb") as h:
                        got = h.read()
                except FileNotFoundError:
                    got = None
                if got not in [old.get(rel) if v is None else versions[v][n] for v in state["allowed"]]:
                    raise Violation("torn-install", "%s %s is neither of the versions that can be there %s: %s" % (
                        rel, when, ["the old one" if v is None else v for v in sorted(state["allowed"], key=str)], "missing" if got is None else "%d bytes" % len(got)))

        def install(k, v, hit):
            sim = core.CURRENT
            tid = sim.cur.tid
            arg = os.path.relpath(srcs[v], work) if plan["rel"] & 1 else srcs[v]
            argv.by[tid] = ["ModuleInstaller.py", arg + ("/" if plan["rel"] & 2 else "")]
            pids[tid] = 1000 + 10 * tid + k
            me = [v, tick(), None, False]
            if any(r[2] is None for r in runs):
                state["over"] += 1
            runs.append(me)
            state["allowed"] = state["allowed"] | {v}
            ns = types.ModuleType("__main__")
            path = ns.__file__ = os.path.join(cli.TOOLS, "ModuleInstaller.py")
            end = ("ok", "")
            if hit:
                def die(msg):
                    w.dead = True
                    return core.SimCrash(msg)
                sim.set_injection(1 + int(hit[0] * dry["steps"]), die if hit[1] == "kill" else core.EXC[hit[1]], hit[1] + "@installer")
            try:
                code = importlib.machinery.SourceFileLoader("__main__", path).get_code("__main__")
                exec(code, ns.__dict__)
            except (core.SimAbort, Violation):
                raise
            except core.SimCrash:
                end = ("crash", "")
            except SystemExit as e:
                end = ("ok", "") if e.code in (None, 0) else ("exit", str(e.code)[:100])
            except BaseException as e:
                end = ("exc", type(e).__name__, str(e)[:200].replace(w.root, ""))
                e.__traceback__ = None
            fired = sim.clear_injection() and hit
            ns.__dict__.clear()
            gc.collect()        # what a killed process had open is closed as it died
            if tid in w.dead_tids:
                end = ("crash", "")
                w.dead_tids.discard(tid)
            me[2] = tick()
            me[3] = end[0] == "ok"
            hist.append((tid, k, v, end))
            if me[3]:
                state["allowed"] = {v} | {r[0] for r in runs if r[2] is None or r[2] > me[1]}
            elif end[0] != "crash" and not fired and not w.full and not any(f.get("by") == tid for f in w.faults):
                raise Violation("undisturbed-failure", "install %d of process %d failed without a fault while another one ran: %s" % (k, tid, end))
            if not me[3]:
                out["nontrivial"] = True
            look("after install %d of process %d (%s)" % (k, tid, end[0]))
            key = "at the same time: " + end[0]
            out.setdefault("probes", {})[key] = out.get("probes", {}).get(key, 0) + 1

        def process(ops):
            for k, op in enumerate(ops):
                core.progress()
                install(k, op[1], op[2])

        def watcher():
            for k in range(plan["looks"]):
                core.progress()
                core.CURRENT.point("look")
                look("while installs run")
        n = sum(len(t) for t in plan["tasks"])
        faults = []
        for f in plan.get("faults", ()):
            f = dict(f)
            total = sum(dry["counts"].values()) if f["on"] == "any" else dry["counts"].get(f["on"], 0)
            f["nth"] = 1 + int(f.pop("frac") * total * n)
            faults.append(f)
        sim = core.Sim(plan["sched"], step_limit=5_000_000)
        out["sim"] = sim
        w.short_read, w.short_write = plan.get("short_read", 0.0), plan.get("short_write", 0.0)
        disk.set_world(w)
        try:
            os.chdir(work)
            sys.argv = argv
            sys.stdout = sys.stderr = cli.Null()
            w.many = True
            w.arm(faults)
            for ops in plan["tasks"]:
                sim.spawn(lambda ops=ops: process(ops))
            if plan["looks"]:
                sim.spawn(watcher)
            sim.run()
        finally:
            sys.argv, sys.stdout, sys.stderr = saved[:3]
            os.chdir(saved[3])
            disk.set_world(None)
            w.many = False
            w.short_read = w.short_write = 0.0
            w.revive()
            cli.forget()
        if state["over"]:
            out["nontrivial"] = True
        now = site.snapshot(work)
        for rel, data in unrelated.items():
            if now.get(rel) != data:
                raise Violation("unrelated-changed", "%s was changed by installs at the same time" % rel)
        for rel in now:
            if rel not in mine and rel not in unrelated and rel.endswith(".py") and not any(x.startswith(".") for x in rel.split("/")):
                raise Violation("stray-module", "%s appeared while installs ran at the same time" % rel)

    def install(self, site, b, src, work, rel, dry):
        w = site.w
        knobs(w, b)
        arg = os.path.relpath(src, work) if rel & 1 else src
        if rel & 2:
            arg += "/"
        faults = resolve_faults(b, dry["counts"]) if dry else []
        line = 1 + int(b["line"] * dry["steps"]) if dry and b.get("line") is not None else None
        disk.set_world(w)
        try:
            r = cli.run(w, "ModuleInstaller.py", [arg], work, faults, line)
        finally:
            disk.set_world(None)
        w.short_read = w.short_write = 0.0
        return r

    def setup(self, site, work, old):
        for rel, data in old.items():
            p = os.path.join(work, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with disk._open(p, "wb") as f:
                f.write(data)

    def put_source(self, site, src, files, clock):
        os.makedirs(src, exist_ok=True)
        for n, data in files.items():
            p = os.path.join(src, n)
            with disk._open(p, "wb") as f:
                f.write(data)
            disk._os["utime"](p, (clock, clock))

    def run(self, plan, out):
        site = Site(plan)
        hist = []
        try:
            rng = random.Random(plan["seedc"])
            src = os.path.join(site.dir, plan.get("src", "generated"))
            work = os.path.join(site.dir, "repo")
            names = list(plan["names"]) + ["icudata.dat", "LICENSE"]
            dest = {n: ("UnicodeData/" if n.endswith(".py") else "UnicodeData/Data/") + n for n in names}
            files = {n: content(rng, n, "new") for n in names}
            # what is installed already, and what has nothing to do with it
            old = {"UnicodeData/__init__.py": b"# package\n", "UnicodeData/CharProps.py": b"code = 1\n" * 50, "UnicodeData/Data/README": b"data\n",
                   "README.md": b"read me\n", "UnicodeData/Utilities.py": b"", "UnicodeData/.gitattributes": b"*.py text\n", "UnicodeData/Data/.keep": b"",
                   "UnicodeData/umore_h.py": b"more = 1\n", "UnicodeData/notes.tmp": b"notes\n", "UnicodeData/Data/icudata.txt": b"data\n",
                   "UnicodeData/OtherData.py": b"other = 1\n", "UnicodeData/__pycache__/uchar_h.cpython-312.pyc": b"\0" * 50, "icudata.dat": b"top", "LICENSE": b"top"}
            unrelated = dict(old)
            for n in names:
                if rng.random() < plan["old"]:
                    old[dest[n]] = files[n] if rng.random() < plan["same"] else content(rng, n, "old")
            self.setup(site, work, old)
            self.put_source(site, src, files, 1.5e9)
            for other, n in (("notes.txt", 40), ("Data.pyc", 9), ("icudata.dat.bak", 99)):
                if rng.random() < 0.3:
                    self.put_source(site, src, {other: b"?" * n}, 1.5e9)
            # another build, further down
            for sub in ("previous", "a/Data", "UnicodeData"):
                if rng.random() < 0.25:
                    self.put_source(site, os.path.join(src, sub), {n: content(rng, n, "other") for n in rng.sample(NAMES, 3) + ["icudata.dat", "LICENSE", "More.py"]}, 1.6e9)
            # undisturbed, somewhere else: must succeed, counts the operations
            dwork = os.path.join(site.dir, "dry")
            self.setup(site, dwork, old)
            dry = self.install(site, {}, src, dwork, plan["rel"], None)
            self.stats(out, dry)
            if dry["end"][0] != "ok":
                raise Violation("undisturbed-failure", "the undisturbed install failed: %s" % (dry["end"],))
            self.judge(site, dwork, dest, files, unrelated, old, True, "of the undisturbed install")
            escapes(site)
            ssnap = site.snapshot(src)
            versions = 0
            if plan.get("versions"):
                srcs, vs = [src], [files]
                for v in range(1, plan["versions"]):
                    r2 = random.Random("%s/%d" % (plan["seedc"], v))
                    vs.append({n: content(r2, n, "v%d" % v) if r2.random() < 0.8 else files[n] for n in names})
                    srcs.append(os.path.join(site.dir, "source %d" % v))
                    self.put_source(site, srcs[v], vs[v], 1.5e9 + 1000 * v)
                snaps = [site.snapshot(x) for x in srcs]
                self.twin(plan, out, site, srcs, work, dest, vs, unrelated, old, dry, hist)
                if [site.snapshot(x) for x in srcs] != snaps:
                    raise Violation("sources-modified", "installs at the same time changed their sources")
                escapes(site)
                hist.append(H(sorted(site.snapshot(work).items())))
            for i, b in enumerate(plan["builds"] + [plan["final"]]):
                final = i == len(plan["builds"])
                if b.get("newer"):
                    r2 = random.Random(b["newer"])
                    versions += 1
                    files = {n: content(r2, n, "v%d" % versions) if r2.random() < 0.7 else files[n] for n in names}
                    self.put_source(site, src, files, r2.choice([1.4e9, 1.5e9, 1.7e9]))
                    ssnap = site.snapshot(src)
                before = site.snapshot(work)
                gone = None
                if "missing" in b and not final:
                    gone = os.path.join(src, ["icudata.dat", "LICENSE"][int(b["missing"] * 2)])
                    os.rename(gone, os.path.join(site.dir, "aside"))
                r = self.install(site, b, src, work, plan["rel"], dry)
                if gone:
                    os.rename(os.path.join(site.dir, "aside"), gone)
                self.stats(out, r)
                ok = r["end"][0] == "ok"
                what = r["struck"] or ("crash" if r["end"][0] == "crash" else "missing " + os.path.basename(gone) if gone else "nothing")
                hist.append((r["end"], r["struck"], r["ops"], r["steps"], H(sorted(site.snapshot(work).items()))))
                if site.snapshot(src) != ssnap:
                    raise Violation("sources-modified", "install %d (disturbed by: %s) changed its sources" % (i, what))
                if ok and gone:
                    raise Violation("false-success", "install %d succeeded although %s" % (i, what))
                if not ok and not r["struck"] and not gone and r["end"][0] != "crash":
                    raise Violation("undisturbed-failure", "install %d failed without a fault: %s" % (i, r["end"]))
                self.judge(site, work, dest, files, unrelated, before, ok, "after install %d (%s; disturbed by: %s)" % (i, r["end"][0], what))
                escapes(site)
                if not ok:
                    out["nontrivial"] = True
                k = "%s%s" % (r["end"][0], " after fault" if r["struck"] else "")
                out.setdefault("probes", {})[k] = out.get("probes", {}).get(k, 0) + 1
            self.finish(out, site, hist)
        finally:
            site.close()

    def judge(self, site, work, dest, files, unrelated, before, ok, when):
        now = site.snapshot(work)
        for n, rel in dest.items():
            got, want = now.get(rel), files[n]
            if ok:
                if got != want:
                    raise Violation("incomplete-install", "%s %s: %s, source has %d bytes" % (rel, when, "is missing" if got is None else "has %d other bytes" % len(got), len(want)))
            elif got != want and got != before.get(rel):
                was = before.get(rel)
                raise Violation("torn-install", "%s %s is neither the old nor the new file: %s (old %s, new %d bytes)" % (
                    rel, when, "missing" if got is None else "%d bytes" % len(got), "none" if was is None else "%d bytes" % len(was), len(want)))
        for rel, data in unrelated.items():
            if now.get(rel) != data:
                raise Violation("unrelated-changed", "%s was changed %s" % (rel, when))
        mine = set(dest.values())
        for rel in now:
            if rel not in mine and rel not in unrelated and rel.endswith(".py") and not any(x.startswith(".") for x in rel.split("/")) and rel not in before:
                raise Violation("stray-module", "%s appeared %s" % (rel, when))


SCENARIOS = {"C13": C13}
