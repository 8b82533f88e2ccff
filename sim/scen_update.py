"""C16: from the ICU sources to the answers of the package: builds, installs and
fresh processes in seeded histories."""
import importlib
import json
import os
import posix
import py_compile
import random
import shutil
import sys
import types

from . import cli, core, dataset, disk, icusem, icutree
from .base import Violation, H, PKG, REPO, SCRATCH, outcome
from .scen_build import Build, Site, build, escapes, gen_env, gen_fault, judge, knobs, resolve_faults, same_sources, short, CRASHES, ERRORS
from .scen_data import check_answer, do, gen_ask

POOL = 10
DATA_Q = ["off", "raw", "hdr", "alloff", "name", "name", "find", "list", "inpc", "insc", "vo", "full", "decraw"]


def pool_seed(i):
    return "%sp%d" % (os.environ.get("VERIF_SEED", "1"), i)


def template():
    """the package of the repository, compiled; made once per check."""
    t = os.path.join(SCRATCH, "template", PKG)
    if not os.path.isdir(t):
        tmp = "%s.%d" % (t, posix.getpid())
        shutil.copytree(os.path.join(REPO, PKG), tmp, ignore=shutil.ignore_patterns("__pycache__"))
        prefix, sys.pycache_prefix = sys.pycache_prefix, None
        for base, dirs, files in os.walk(tmp):
            for f in files:
                os.utime(os.path.join(base, f), (1e9, 1e9))
                if f.endswith(".py"):
                    try:
                        py_compile.compile(os.path.join(base, f), doraise=True)
                    except py_compile.PyCompileError:
                        pass
        sys.pycache_prefix = prefix
        try:
            os.makedirs(os.path.dirname(t), exist_ok=True)
            os.rename(tmp, t)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return t


def same(got, want):
    if isinstance(want, bool) or isinstance(got, bool):
        return got is want
    if isinstance(want, (int, float)) and isinstance(got, (int, float)):
        return got == want or abs(got - want) <= 1e-12 * abs(want)
    if isinstance(want, list):
        return isinstance(got, (list, tuple)) and len(got) == len(want) and all(same(a, b) for a, b in zip(got, want))
    return type(got) is type(want) and got == want


def ask(q):
    mod = lambda n: importlib.import_module(PKG + "." + n)
    if q[0] == "version":
        return mod("UnicodeVersion").unicodeVersion
    if q[0] == "bin":
        C = mod("CharProps")
        return C.getBinaryProp(q[1], getattr(mod("uprops_h"), "UPROPS_" + q[2]))
    if q[0] == "col":
        return mod("CharProps").getUnicodeProperties(q[1], q[2])
    if q[0] == "enum":
        m, t = q[1].split(".")
        return [[r.start, r.stop, v] for r, v in getattr(mod(m), t).enumerator(q[2], q[3])]
    if q[0] == "Normalizer2":
        return getattr(mod(q[0]).nfcTrie, q[1])(q[2])
    return getattr(mod(q[0]), q[1])(q[2])


def say(q):
    return " ".join("U+%04X" % x if isinstance(x, int) else str(x) for x in q)


def reader(work, tree, seed, checked):
    """in a process of its own: import the installed package and ask. Returns [kind, detail] or None."""
    sys.path.insert(0, work)
    sys.dont_write_bytecode = False
    sys.pycache_prefix = None
    importlib.invalidate_caches()
    r = random.Random(seed)
    order = ["CharProps", "BidiProps", "CaseProps", "UCDTypeDictionaries", "UnicodeVersion", "ICUDataFile", "CharNames", "LayoutProps", "Normalizer2"]
    r.shuffle(order)
    for n in order:
        o = outcome(importlib.import_module, PKG + "." + n)
        if o[0] == "exc":
            if not checked:
                continue
            return ["unexpected-exception", "importing %s raised %s: %s" % (n, o[1], o[2])]
        if not o[1].__file__.startswith(work + "/"):
            raise RuntimeError("imported %s" % o[1].__file__)
    if not checked:
        return None
    for q in tree.questions(r) + tree.questions(r) + tree.questions(r):
        if q[0] == "dict":
            m = importlib.import_module(PKG + ".UCDTypeDictionaries")
            for k, v in tree.expect["UCDTypeDictionaries.py"].items():
                if getattr(m, k, None) != v:
                    return ["wrong-answer", "UCDTypeDictionaries.%s is %s, in the sources %s" % (k, short(getattr(m, k, None)), short(v))]
            continue
        o = outcome(ask, q)
        if o[0] == "exc":
            return ["unexpected-exception", "%s raised %s: %s" % (say(q), o[1], o[2])]
        want = tree.want(q)
        if q[0] == "enum":
            want = [list(x) for x in want]
        if not same(o[1], want):
            got = o[1]
            if q[0] == "enum":
                i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
                got, want = got[i:i + 1], want[i:i + 1]
            return ["wrong-answer", "%s gave %s, the sources say %s" % (say(q), short(got), short(want))]
    for _ in range(25):
        op = gen_ask(r, tree.ds, DATA_Q)
        try:
            check_answer(tree.ds, op, outcome(do, op), "data file")
        except Violation as v:
            return [v.kind, v.detail]
    return None


def in_process(fn, *a):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = json.dumps(fn(*a)).encode()
            while data:
                data = data[disk._os["write"](w, data):]
            code = 0
        except BaseException:
            import traceback
            disk._os["write"](w, b"!" + traceback.format_exc()[-2000:].encode())
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    while True:
        b = disk._os["read"](r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if buf.startswith(b"!") or not buf:
        raise RuntimeError("reader: status %d: %s" % (status, buf.decode()))
    return json.loads(buf)


class C16(Build):
    prop = "C16"
    quick = 800
    thorough = 30000
    rule = ("one case = a history of builds, installs and fresh processes that import the package, over 1-4 synthetic ICU versions with the same or different parts, "
            "with disk faults and deaths at seeded points; non-trivial = a process was checked after a second version was installed or after a disturbed step; "
            "distinct = distinct histories with their outcomes")
    stubs = ["FontDocTools.ArgumentIterator (not installed here): an iterator with nextExtra",
             "the ICU source and build trees and the data file: synthetic, with a known meaning (sim/icusem.py, sim/dataset.py)", "disk faults, short I/O, clock, file times: sim/disk.py"]
    real = ["module_builder/ModuleBuilder.py, HeaderToPtyhon.py, UCDReader.py and ModuleInstaller.py, run as __main__", "the whole package, imported from the installed files with its bytecode cache",
            "CPython import system, fontTools, pkg_resources", "the scratch file system"]
    assumptions = ["a crash is the death of the process: what was written to files survives", "two updates are at least two seconds apart (the bytecode cache tells files apart by size and whole seconds)",
                   "the tables follow the layout of genprops; full mappings hold no supplementary characters, as in every Unicode version so far"]

    def preload(self):
        disk.install_clock()
        cli.preload()
        import pkg_resources    # noqa
        from fontTools.misc import sstruct  # noqa
        self.template = template()
        for i in range(POOL):
            icusem.get(pool_seed(i))

    def pick(self, rng, have):
        if have and rng.random() < 0.55:
            base = rng.choice(have).split(",")[0]
            other = rng.choice([pool_seed(rng.randrange(POOL)), "y%d" % rng.randrange(1 << 30)])
            parts = rng.sample(icusem.PARTS, rng.choice([1, 1, 2]))
            if rng.random() < 0.3:
                return "%s,chars=%s+" % (base, base)
            return base + "".join(",%s=%s" % (p, other) for p in parts) + (",top=" + other if rng.random() < 0.5 else "")
        return pool_seed(rng.randrange(POOL)) if rng.random() < 0.7 else "x%d" % rng.randrange(1 << 30)

    def gen(self, rng, tier):
        trees = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            trees.append(self.pick(rng, trees))
        plan = {"trees": trees, "wseed": rng.randrange(1 << 30), "rel": rng.randrange(4), "outs": rng.choice([1, 1, 2])}
        steps = plan["builds"] = []
        clock = rng.choice([1.6e9, 9e8, 2.2e9])
        for k in range(rng.choice([1, 1, 2, 2, 3, 4])):
            t = rng.randrange(len(trees))
            for what in ("build", "install"):
                for n in range(rng.choice([0, 0, 0, 1, 1, 2])):
                    b = gen_env(rng, {"do": what, "tree": t})
                    x = rng.random()
                    if x < 0.35:
                        b["line"] = round(rng.random(), 6)
                    elif x < 0.65:
                        b["faults"] = [gen_fault(rng, CRASHES)]
                    else:
                        b["faults"] = [gen_fault(rng, ERRORS) for _ in range(rng.choice([1, 1, 2]))]
                    steps.append(b)
                    if rng.random() < 0.2:
                        steps.append({"do": "read", "seed": rng.randrange(1 << 30)})
                steps.append(gen_env(rng, {"do": what, "tree": t}))
            if rng.random() < 0.7:
                steps.append({"do": "read", "seed": rng.randrange(1 << 30)})
        for b in steps:
            if b["do"] != "read":
                b["clock"] = clock
                b["tick"] = 0.0
                clock += rng.choice([10.0, 100000.0, 3e7])
        plan["final"] = gen_env(rng, {"tree": rng.randrange(len(trees))})
        plan["final"].update(clock=clock + 50, tick=0.0, seed2=rng.randrange(1 << 30))
        return plan

    def install(self, site, b, src, work, rel, dry):
        w = site.w
        knobs(w, b)
        arg = (os.path.relpath(src, work) if rel & 1 else src) + ("/" if rel & 2 else "")
        faults = resolve_faults(b, dry["counts"]) if dry else []
        line = 1 + int(b["line"] * dry["steps"]) if dry and b.get("line") is not None else None
        disk.set_world(w)
        try:
            r = cli.run(w, "ModuleInstaller.py", [arg], work, faults, line)
        finally:
            disk.set_world(None)
        w.short_read = w.short_write = 0.0
        return r

    def package(self, site, work):
        return {k: v for k, v in site.snapshot(work).items() if "__pycache__" not in k}

    def run(self, plan, out):
        trees = [icusem.get(s) for s in plan["trees"]]
        site = Site(plan)
        hist = []
        try:
            work = os.path.join(site.dir, "repo")
            os.mkdir(work)
            shutil.copytree(self.template, os.path.join(work, PKG))
            where = [site.tree(t, "icu%d" % i) for i, t in enumerate(trees)]
            before = {d: site.snapshot(d) for d in where}
            o = [os.path.join(site.dir, "out%d" % i) for i in range(plan["outs"])]
            disturbed = lambda b: b.get("faults") or b.get("line") is not None
            steps = [b for b in plan["builds"]]
            dry = {}
            if any(disturbed(b) for b in steps):
                d = os.path.join(site.dir, "dry")
                dry["build"] = build(site, {}, os.path.join(where[0], "source"), os.path.join(where[0], "build"), d, None)
                if dry["build"]["end"][0] != "ok":
                    raise Violation("undisturbed-failure", "the undisturbed build failed: %s" % (dry["build"]["end"],))
                os.makedirs(os.path.join(site.dir, "drywork", PKG, "Data"))
                dry["install"] = self.install(site, {}, d, os.path.join(site.dir, "drywork"), 0, None)
            f = plan["final"]
            built, installed = [None] * len(o), None
            checked = versions = 0
            last = None
            todo = [(b, None) for b in steps] + [(dict(f, do="build"), "final"), (dict(f, do="install", clock=f["clock"] + 10), "final"), ({"do": "read", "seed": f["seed2"]}, "final")]
            for i, (b, final) in enumerate(todo):
                if b["do"] == "read":
                    v = in_process(reader, work, trees[installed] if installed is not None else None, b["seed"], installed is not None)
                    hist.append(("read", installed, v))
                    if installed is None:
                        out.setdefault("probes", {})["read after a failed install"] = 1
                        continue
                    if v:
                        raise Violation(v[0], "step %d, a new process after %s: %s" % (i, [h[:2] for h in hist[:-1]], v[1]))
                    checked += 1
                    if versions > 1 or any(h[0] != "read" and h[2] != "ok" for h in hist):
                        out["nontrivial"] = True
                    continue
                t = min(b["tree"], len(trees) - 1)
                k = t % len(o)
                if b["do"] == "build":
                    was = self.package(site, work)
                    r = build(site, b, os.path.join(where[t], "source"), os.path.join(where[t], "build"), o[k], dry.get("build") if disturbed(b) else None)
                    if self.package(site, work) != was:
                        raise Violation("package-touched", "step %d: the builder changed the installed package" % i)
                    built[k] = t if r["end"][0] == "ok" else None
                else:
                    if built[k] is None:
                        continue
                    r = self.install(site, b, o[k], work, plan["rel"], dry.get("install") if disturbed(b) else None)
                    if r["end"][0] == "ok":
                        if installed != built[k] or last != built[k]:
                            versions += 1
                        installed = last = built[k]
                    else:
                        installed = None
                self.stats(out, r)
                escapes(site)
                hist.append((b["do"], t, r["end"][0], r["struck"], r["ops"], r["steps"]))
                out.setdefault("probes", {})
                key = "%s %s" % (b["do"], r["end"][0])
                out["probes"][key] = out["probes"].get(key, 0) + 1
                if r["end"][0] != "ok" and not disturbed(b):
                    raise Violation("undisturbed-failure", "step %d: the undisturbed %s failed: %s" % (i, b["do"], r["end"]))
            same_sources(site, before, *where)
            out["probes"]["processes checked"] = checked
            self.finish(out, site, hist)
        finally:
            site.close()


SCENARIOS = {"C16": C16}
