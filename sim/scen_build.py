"""C11 and C12: the module builder, run as a simulated process over a synthetic
ICU tree on the simulated disk."""
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import types

from . import cli, core, disk, icutree
from .base import Scenario, Violation, H, SCRATCH, generic_shrink

POOL = 16
ERRORS = ["EIO", "ENOSPC", "EACCES", "ENOENT", "EMFILE", "EDQUOT", "ESTALE", "torn-EIO", "torn-ENOSPC", "lost-EIO", "KeyboardInterrupt", "MemoryError"]
CRASHES = ["crash", "crash", "torn-crash", "crash-after"]
CATS = {}
for _c, _k in disk.APPLIES.items():
    for _x in _k:
        CATS.setdefault(_x, []).append(_c)
ZONES = ["UTC", "EST5EDT", "<+1245>-12:45<+1345>,M9.5.0/2:45,M4.1.0/3:45", "<-0330>3:30", "JST-9", "XXX-14", "GMT0BST,M3.5.0/1,M10.5.0"]


def pool_seed(i):
    return "%s-%d" % (os.environ.get("VERIF_SEED", "1"), i)


class Site:
    """scratch directory of one run: source trees, output directories."""

    def __init__(self, plan):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="r", dir=SCRATCH or None))
        # other runs may have taken names there: the ones given out inside start afresh
        tempfile._name_sequence = iter("n%06d" % i for i in range(1 << 20))
        self.w = disk.World(self.dir, plan.get("wseed", 0))
        self.n = 0
        # the system's directory for temporary files is a part of this disk
        tempfile.tempdir = os.path.join(self.dir, "tmp")
        os.mkdir(tempfile.tempdir)

    def tree(self, t, name):
        d = os.path.join(self.dir, name)
        for rel, data in t.files.items():
            p = os.path.join(d, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with disk._open(p, "wb") as f:
                f.write(data)
            disk._os["utime"](p, (1.5e9, 1.5e9))
        return d

    def snapshot(self, d):
        out = {}
        for base, dirs, files in os.walk(d):
            for f in files:
                p = os.path.join(base, f)
                with disk._open(p, "rb") as h:
                    out[os.path.relpath(p, d)] = h.read()
            for f in dirs:
                out[os.path.relpath(os.path.join(base, f), d) + "/"] = b""
        return out

    def close(self):
        disk.set_world(None)
        tempfile.tempdir = None
        os.chdir("/")
        shutil.rmtree(self.dir, ignore_errors=True)


def knobs(w, b):
    w.short_read = b.get("short_read", 0.0)
    w.short_write = b.get("short_write", 0.0)
    w.chunk = b.get("chunk", 1 << 16)
    w.shuffle_dirs = bool(b.get("shuffle"))
    w.rng = random.Random(b.get("seed", 0))
    w.clock = b.get("clock", 1.6e9)
    w.tick = b.get("tick", 0.0)
    w.locale = b.get("locale", "utf-8")
    w.host = b.get("host")
    z = b.get("tz", "UTC")
    os.environ["TZ"] = z
    time.tzset()


def resolve_faults(b, counts):
    """fractions of the counted operations -> positions"""
    out = []
    for f in b.get("faults", ()):
        f = dict(f)
        n = sum(counts.values()) if f["on"] == "any" else counts.get(f["on"], 0)
        f["nth"] = 1 + int(f.pop("frac") * n)
        out.append(f)
    return out


def build(site, b, src, bld, out, dry):
    """one build. b: the plan of this build; dry: the undisturbed one, or None."""
    w = site.w
    knobs(w, b)
    cwd = os.path.join(site.dir, "work")
    os.makedirs(cwd, exist_ok=True)
    rel = b.get("rel", 0)

    def show(p, bit):
        return os.path.relpath(p, cwd) if rel & bit else p + ("/" if rel & 8 else "")
    opts = [["--sourceDir", show(src, 1)], ["--buildDir", show(bld, 2)], ["--outputDir", show(out, 4)]]
    random.Random(b.get("order", 0)).shuffle(opts)
    drop = b.get("badargs")
    if drop == "missing":
        opts.pop()
    args = [x for o in opts for x in o]
    if drop == "dup":
        args += opts[0]
    elif drop == "unknown":
        args += ["--verbose"]
    elif drop == "novalue":
        args = args[:-1]
    elif drop == "none":
        args = []
    faults = resolve_faults(b, dry["counts"]) if dry else []
    line = None
    if dry and b.get("line") is not None:
        line = 1 + int(b["line"] * dry["steps"])
    disk.set_world(w)
    try:
        r = cli.run(w, "ModuleBuilder.py", args, cwd, faults, line)
    finally:
        disk.set_world(None)
        os.environ["TZ"] = "UTC"
        time.tzset()
    w.short_read = w.short_write = 0.0
    return r


def load(out):
    """execute the generated modules; {file: {name: value}} or bytes."""
    res = {}
    mods = {}
    name = "verif_built"
    pkg = types.ModuleType(name)
    pkg.__path__ = []
    sys.modules[name] = pkg
    try:
        for f in ("uchar_h.py", "uscript_h.py") + tuple(icutree.OUT_ALL):
            if f in res:
                continue
            p = os.path.join(out, f)
            try:
                with disk._open(p, "rb") as h:
                    data = h.read()
            except OSError as e:
                raise Violation("missing-output", "the builder reported success, but %s cannot be read: %s" % (f, e.strerror))
            if not f.endswith(".py"):
                res[f] = data
                continue
            m = types.ModuleType(name + "." + f[:-3])
            m.__package__ = name
            base = set(m.__dict__) | {"__builtins__"}
            try:
                exec(compile(data, f, "exec"), m.__dict__)
            except Exception as e:
                raise Violation("broken-output", "the builder reported success, but %s does not load: %s: %s (%d bytes)" % (f, type(e).__name__, e, len(data)))
            sys.modules[name + "." + f[:-3]] = m
            mods[f] = m
            res[f] = {k: v for k, v in vars(m).items() if k not in base}
    finally:
        for k in list(sys.modules):
            if k == name or k.startswith(name + "."):
                del sys.modules[k]
    return res


def short(v):
    s = repr(v)
    return s if len(s) < 80 else s[:60] + "… (%d)" % len(v) if hasattr(v, "__len__") else s[:60]


def judge(tree, out):
    """the output directory holds exactly the values of the tree, or Violation"""
    res = load(out)
    for f in icutree.OUT_ALL:
        want, got = tree.expect[f], res[f]
        if isinstance(want, bytes):
            if want != got:
                n = next((i for i, (a, b) in enumerate(zip(want, got)) if a != b), min(len(want), len(got)))
                raise Violation("wrong-copy", "%s differs from its source at byte %d (%d bytes, source has %d)" % (f, n, len(got), len(want)))
            continue
        for k, v in want.items():
            if k not in got:
                raise Violation("wrong-output", "%s: %s is missing (source has %s)" % (f, k, short(v)))
            g = got[k]
            if isinstance(g, tuple):
                g = list(g)
            if g != v or isinstance(g, bool):
                raise Violation("wrong-output", "%s: %s is %s, in the source %s" % (f, k, short(g), short(v)))
        for k, v in got.items():
            if k in want or k.startswith("__") or callable(v) or isinstance(v, types.ModuleType):
                continue
            if f == "UCDTypeDictionaries.py" and (k in res["uchar_h.py"] or k in res["uscript_h.py"]):
                continue
            raise Violation("wrong-output", "%s: %s = %s is not in the source" % (f, k, short(v)))
    mask = res["uchar_h.py"].get("U_MASK")
    if mask is None or any(mask(i) != 1 << i for i in (0, 5, 29)):
        raise Violation("wrong-output", "uchar_h.py: U_MASK is missing or wrong")


def same_sources(site, before, *dirs):
    for d in dirs:
        now = site.snapshot(d)
        if now != before[d]:
            ch = sorted(k for k in set(now) | set(before[d]) if now.get(k) != before[d].get(k))
            raise Violation("sources-modified", "the builder changed the ICU sources: %s" % ch[:4])


def escapes(site):
    if site.w.escapes:
        raise Violation("escape", "the builder wrote outside of its directories: %s" % site.w.escapes[:3])


def gen_fault(rng, kinds):
    kind = rng.choice(kinds)
    on = rng.choice(CATS[kind])
    f = {"on": on, "kind": kind, "frac": round(rng.random(), 6)}
    if kind in ("ENOSPC", "EDQUOT", "torn-ENOSPC") and rng.random() < 0.7:
        f["sticky"] = True
    return f


def gen_env(rng, b):
    b["seed"] = rng.randrange(1 << 30)
    b["order"] = rng.randrange(100)
    b["rel"] = rng.randrange(16)
    b["clock"] = rng.choice([1.6e9, float(rng.randrange(0, 4_000_000_000)), float(rng.randrange(200_000_000_000)), 0.0, 951782399.0])
    b["tick"] = rng.choice([0.0, 0.0, 0.5, 3600.0])
    b["tz"] = rng.choice(ZONES)
    b["short_read"] = rng.choice([0.0, 0.0, 0.3, 0.9])
    b["short_write"] = rng.choice([0.0, 0.0, 0.3, 0.9])
    b["chunk"] = rng.choice([1 << 16, 4096, 700])
    b["shuffle"] = rng.random() < 0.5
    b["locale"] = rng.choice(["utf-8"] * 5 + ["latin-1", "cp1252", "ascii"])
    b["host"] = rng.choice([None, rng.randrange(1 << 30)])
    return b


def fill_junk(site, plan, out, trees):
    """what lies in the output directory before."""
    kind = plan.get("junk")
    if kind is None:
        return
    rng = random.Random(plan.get("junkseed", 0))
    os.makedirs(out, exist_ok=True)
    for f in icutree.OUT_ALL:
        if rng.random() < 0.3:
            continue
        want = trees[0].expect[f]
        size = len(want) if isinstance(want, bytes) else rng.randrange(60000)
        p = os.path.join(out, f)
        k = rng.randrange(4)
        if k == 0:
            data = b""
        elif k == 1:
            data = b"junk = 1\n" * (size // 9 + 2)
        elif k == 2:
            data = bytes(rng.getrandbits(8) for _ in range(50)) * (size // 50 + 1)
            data = data[:size]
        else:
            data = b"x = [\n" + b"1,\n" * rng.randrange(3000)
        with disk._open(p, "wb") as h:
            h.write(data)
        m = rng.choice([0, 1e9, 1.7e9, 4e9])
        disk._os["utime"](p, (m, m))
    for f in ("notes.txt", "OldData.py", ".hidden"):
        if rng.random() < 0.4:
            with disk._open(os.path.join(out, f), "wb") as h:
                h.write(b"old = 1\n")


class Build(Scenario):
    timeout = 120
    quick_cap = 400
    stubs = ["FontDocTools.ArgumentIterator (not installed here): an iterator with nextExtra", "the ICU source and build trees: synthetic (sim/icutree.py)",
             "disk faults, short I/O, clock and time zone: sim/disk.py"]
    real = ["module_builder/ModuleBuilder.py, HeaderToPtyhon.py and UCDReader.py, run as __main__ with their command line", "csv, re, shutil, pathlib, io and the interpreter",
            "the scratch file system"]
    assumptions = ["a crash is the death of the process: what was written to files survives, what was buffered does not",
                   "the synthetic trees follow the layout of the files genprops and ICU produce", "source text files are UTF-8; the encoding of the locale, which decides what open() without an encoding does, is drawn"]

    def preload(self):
        disk.install_clock()
        cli.preload()
        for i in range(POOL):
            icutree.get(pool_seed(i))

    def stats(self, out, r):
        out["steps"] = out.get("steps", 0) + r["steps"]
        for k, v in r["fired"].items():
            out["fired"][k] = out["fired"].get(k, 0) + v

    def finish(self, out, site, hist):
        for k, v in site.w.fired.items():
            out["fired"][k] = out["fired"].get(k, 0) + v
        out["hist"] = H(hist)
        out["states"] = len(hist)

    def shrink(self, plan):
        yield from generic_shrink(plan)
        import copy
        for i, b in enumerate(plan.get("builds", ())):
            for k, v in b.items():
                if k in ("short_read", "short_write", "tick", "rel", "order", "seed") and v or k == "shuffle" and v:
                    p = copy.deepcopy(plan)
                    p["builds"][i][k] = 0
                    yield p
                if k == "clock" and v != 1.6e9 or k == "tz" and v != "UTC" or k == "chunk" and v != 1 << 16 or k == "locale" and v != "utf-8":
                    p = copy.deepcopy(plan)
                    del p["builds"][i][k]
                    yield p
            for j in range(len(b.get("faults", ()))):
                p = copy.deepcopy(plan)
                del p["builds"][i]["faults"][j]
                yield p
            for j, f in enumerate(b.get("faults", ())):
                for fr in (0.0, round(f["frac"], 2), round(f["frac"], 4)):
                    if f["frac"] != fr:
                        p = copy.deepcopy(plan)
                        p["builds"][i]["faults"][j]["frac"] = fr
                        yield p
        if plan.get("junk"):
            p = copy.deepcopy(plan)
            del p["junk"]
            yield p


class C11(Build):
    prop = "C11"
    quick = 2600
    thorough = 40000
    rule = "a run is non-trivial when at least one build was disturbed by a fault or was judged complete against the source model"

    def gen(self, rng, tier):
        plan = {"tree": pool_seed(rng.randrange(POOL)) if rng.random() < 0.6 else "x%d" % rng.randrange(1 << 30), "wseed": rng.randrange(1 << 30)}
        if rng.random() < 0.4:
            plan["junk"] = True
            plan["junkseed"] = rng.randrange(1 << 30)
        plan["depth"] = rng.randrange(3)
        plan["builds"] = []
        for _ in range(rng.randrange(1, 5)):
            b = gen_env(rng, {})
            k = rng.random()
            if k < 0.72:
                b["faults"] = [gen_fault(rng, ERRORS) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            elif k < 0.8:
                b["missing"] = rng.random()
            elif k < 0.86:
                b["faults"] = [gen_fault(rng, CRASHES)]
            elif k < 0.9:
                b["badargs"] = rng.choice(["missing", "dup", "unknown", "novalue", "none"])
            b["fresh"] = rng.random() < 0.4
            plan["builds"].append(b)
        return plan

    def run(self, plan, out):
        t = icutree.get(plan["tree"])
        site = Site(plan)
        hist = []
        try:
            d = site.tree(t, "icu")
            src, bld = os.path.join(d, "source"), os.path.join(d, "build")
            dirs = [d]
            before = {d: site.snapshot(d)}
            o = os.path.join(site.dir, *["out", "a", "b"][:1 + plan.get("depth", 0)])
            fill_junk(site, plan, o, [t])
            # undisturbed: must succeed, counts the operations
            dry = build(site, {}, src, bld, os.path.join(site.dir, "dry"), None)
            self.stats(out, dry)
            if dry["end"][0] != "ok":
                raise Violation("undisturbed-failure", "the undisturbed build failed: %s" % (dry["end"],))
            judge(t, os.path.join(site.dir, "dry"))
            same_sources(site, before, *dirs)
            escapes(site)
            for i, b in enumerate(plan["builds"]):
                if b.get("fresh"):
                    shutil.rmtree(os.path.join(site.dir, "out"), ignore_errors=True)
                gone = None
                if "missing" in b:
                    need = sorted(k for k in t.files if k not in t.others and not k.startswith("build/") or k.endswith("icudt%sl.dat" % t.short))
                    gone = os.path.join(d, need[int(b["missing"] * len(need))])
                    os.rename(gone, os.path.join(site.dir, "aside"))
                    snap = {d: site.snapshot(d)}
                r = build(site, b, src, bld, o, dry)
                self.stats(out, r)
                if gone:
                    same_sources(site, snap, *dirs)
                    os.rename(os.path.join(site.dir, "aside"), gone)
                hist.append((r["end"], r["struck"], r["ops"], r["steps"]))
                same_sources(site, before, *dirs)
                escapes(site)
                ok = r["end"][0] == "ok"
                what = r["struck"] or ("missing " + os.path.relpath(gone, d) if gone else b.get("badargs") or "nothing")
                if ok and (gone or b.get("badargs")):
                    raise Violation("false-success", "build %d reported success in spite of: %s" % (i, what))
                if ok:
                    try:
                        judge(t, o)
                    except Violation as v:
                        raise Violation(v.kind, "build %d (disturbed by: %s): %s" % (i, what, v.detail))
                elif not r["struck"] and not gone and not b.get("badargs"):
                    raise Violation("undisturbed-failure", "build %d failed without a fault: %s" % (i, r["end"]))
                if ok or r["struck"] or gone:
                    out["nontrivial"] = True
                key = "%s after fault" % r["end"][0] if r["struck"] else r["end"][0]
                out.setdefault("probes", {})[key] = out.get("probes", {}).get(key, 0) + 1
            self.finish(out, site, hist)
        finally:
            site.close()


# ------------------------------------------------------------ C12

def text_of(snap):
    """the output without the line that tells the time."""
    out = {}
    for k, v in snap.items():
        if k.endswith(".py"):
            v = b"\n".join(x for x in v.split(b"\n") if not x.startswith(b"Generated by "))
        out[k] = v
    return out


def reference_main(path):
    """in a process of its own, with another hash seed: undisturbed builds of
    the pool."""
    sys.unraisablehook = lambda *a: None
    core.install()
    disk.install()
    disk.install_clock()
    cli.preload()
    res = {}
    for i in range(POOL):
        t = icutree.get(pool_seed(i))
        site = Site({})
        try:
            d = site.tree(t, "icu")
            o = os.path.join(site.dir, "out")
            r = build(site, {}, os.path.join(d, "source"), os.path.join(d, "build"), o, None)
            files = {}
            if r["end"][0] == "ok":
                files = {k: H(v) for k, v in text_of(site.snapshot(o)).items() if k in icutree.OUT_ALL}
            res[pool_seed(i)] = [list(r["end"]), files]
        finally:
            site.close()
    with disk._open(path + ".new", "w") as f:
        json.dump(res, f)
    os.rename(path + ".new", path)


class C12(Build):
    prop = "C12"
    quick = 2200
    thorough = 40000
    rule = "a run is non-trivial when at least one build before the final one was killed or failed part way, or left another output behind"

    def preload(self):
        super().preload()
        path = os.path.join(SCRATCH, "reference-%s.json" % self.prop)
        if not os.path.exists(path):
            env = dict(os.environ, PYTHONHASHSEED="4242")
            subprocess.run([sys.executable, "-c", "import sys; from sim import scen_build; scen_build.reference_main(sys.argv[1])", path],
                           env=env, check=True, stdin=subprocess.DEVNULL, timeout=300)
        with disk._open(path) as f:
            self.reference = json.load(f)

    def gen(self, rng, tier):
        plan = {"trees": [pool_seed(rng.randrange(POOL))], "wseed": rng.randrange(1 << 30)}
        while len(plan["trees"]) < 3 and rng.random() < 0.4:
            plan["trees"].append(pool_seed(rng.randrange(POOL)) if rng.random() < 0.7 else "x%d" % rng.randrange(1 << 30))
        if rng.random() < 0.4:
            plan["junk"] = True
            plan["junkseed"] = rng.randrange(1 << 30)
        plan["depth"] = rng.randrange(3)
        plan["touch"] = rng.choice([None, None, 0.0, 4e9, "rand"])
        plan["builds"] = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 4])):
            b = gen_env(rng, {"tree": rng.randrange(len(plan["trees"]))})
            k = rng.random()
            if k < 0.35:
                b["line"] = round(rng.random(), 6)
            elif k < 0.65:
                b["faults"] = [gen_fault(rng, CRASHES)]
            elif k < 0.9:
                b["faults"] = [gen_fault(rng, ERRORS) for _ in range(rng.choice([1, 1, 2]))]
            plan["builds"].append(b)
        plan["final"] = gen_env(rng, {})
        plan["final"].pop("faults", None)
        return plan

    def run(self, plan, out):
        trees = [icutree.get(s) for s in plan["trees"]]
        site = Site(plan)
        hist = []
        try:
            where = [site.tree(t, "icu%d" % i) for i, t in enumerate(trees)]
            before = {d: site.snapshot(d) for d in where}
            o = os.path.join(site.dir, *["out", "a", "b"][:1 + plan.get("depth", 0)])
            os.makedirs(os.path.dirname(o), exist_ok=True)
            ref = os.path.join(site.dir, "dry")
            dry = build(site, {}, os.path.join(where[0], "source"), os.path.join(where[0], "build"), ref, None)
            self.stats(out, dry)
            if dry["end"][0] != "ok":
                raise Violation("undisturbed-failure", "the undisturbed build failed: %s" % (dry["end"],))
            want = text_of(site.snapshot(ref))
            rend, rfiles = self.reference[plan["trees"][0]]
            if rend[0] != "ok":
                raise Violation("undisturbed-failure", "the undisturbed build failed with another hash seed: %s" % (rend,))
            for k, v in rfiles.items():
                if H(want.get(k)) != v:
                    raise Violation("environment", "%s differs between two undisturbed builds in processes with different string hashing" % k)
            fill_junk(site, plan, o, trees)
            junk = set(site.snapshot(o)) if os.path.isdir(o) else set()
            if plan.get("touch") is not None:
                rng = random.Random(plan["wseed"])
                for d in where:
                    for rel in sorted(before[d]):
                        m = rng.choice([0, 1e9, 1.65e9, 3e9]) if plan["touch"] == "rand" else plan["touch"]
                        if not rel.endswith("/"):
                            disk._os["utime"](os.path.join(d, rel), (m, m))
            for i, b in enumerate(plan["builds"]):
                d = where[min(b.get("tree", 0), len(where) - 1)]
                r = build(site, b, os.path.join(d, "source"), os.path.join(d, "build"), o, dry)
                self.stats(out, r)
                hist.append((r["end"], r["struck"], r["ops"], r["steps"], H(sorted(text_of(site.snapshot(o)).items())) if os.path.isdir(o) else None))
                if r["end"][0] != "ok" or b.get("tree") or plan.get("junk"):
                    out["nontrivial"] = True
                out.setdefault("probes", {})[r["end"][0]] = out.get("probes", {}).get(r["end"][0], 0) + 1
                escapes(site)
            r = build(site, plan["final"], os.path.join(where[0], "source"), os.path.join(where[0], "build"), o, dry)
            self.stats(out, r)
            after = "after %s" % ([h[0][0] for h in hist] or "nothing")
            if r["end"][0] != "ok":
                raise Violation("no-convergence", "the build %s failed: %s" % (after, r["end"]))
            got = text_of(site.snapshot(o))
            hist.append((r["ops"], r["steps"], H(sorted(got.items()))))
            for k in sorted(want):
                if k not in got:
                    raise Violation("no-convergence", "%s is missing from the build %s" % (k, after))
                if got[k] != want[k]:
                    a, b = got[k].split(b"\n"), want[k].split(b"\n")
                    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                    raise Violation("no-convergence", "%s of the build %s differs from an undisturbed build at line %d: %r, expected %r" % (
                        k, after, n + 1, bytes(a[n][:60]) if n < len(a) else None, bytes(b[n][:60]) if n < len(b) else None))
            extra = sorted(k for k in got if k not in want and k not in junk and k.endswith(".py") and "/" not in k)     # what an install would take
            if extra:
                raise Violation("left-over", "the build %s left modules behind that an undisturbed build does not have: %s" % (after, extra))
            same_sources(site, before, *where)
            escapes(site)
            self.finish(out, site, hist)
        finally:
            site.close()


SCENARIOS = {"C11": C11, "C12": C12}
