"""C01-C05: everything that is served from the ICU data file.

The file is synthetic (sim/dataset.py), lies in the scratch directory of the
run, and appears at the place where the package looks for it. The modules that
read it are imported inside the simulated run, under its scheduler.
"""
import importlib
import os
import random
import re
import shutil
import sys
import tempfile

from . import core, disk, dataset
from .base import Scenario, Violation, warm, sched_for, outcome, H, PKG, LEAF, REPO, SCRATCH, generic_shrink

DATA_PATH = os.path.join(REPO, "UnicodeData", "Data", "icudata.dat")
POOL = 24
FAMILY = 0      # set from VERIF_SEED
CHOICES = (0, 3)
ABSENT = 0xFFFFFFFF


def data_paths():
    p = [DATA_PATH, os.path.realpath(DATA_PATH)]
    import UnicodeData
    for d in UnicodeData.__path__:
        p.append(os.path.normpath(os.path.join(d, "Data", "icudata.dat")))
    return sorted(set(p))


class Files:
    """the scratch disk of one run."""

    def __init__(self, plan):
        self.dir = tempfile.mkdtemp(prefix="r", dir=SCRATCH or None)
        self.w = disk.World(self.dir, plan.get("wseed", 0))
        self.w.short_read = plan.get("short_read", 0.0)
        self.w.chunk = plan.get("chunk", 1 << 16)
        self.n = 0
        self.last = ()
        self.keep = plan.get("keep", False)
        self.mtime = 1_600_000_000
        self.times = random.Random(plan.get("wseed", 0) ^ 0x7135)
        disk.set_world(self.w)

    def put(self, blob):
        """the data file is now this (None: there is none)."""
        if self.keep and self.last == (blob,):
            return      # the file stays as it is
        self.last = (blob,)
        self.n += 1
        p = os.path.join(self.dir, "d%d" % self.n)
        if blob is not None:
            with disk._open(p, "wb") as f:
                f.write(blob)
            self.mtime += self.times.choice([0, 1, 2, 3600, -3600])
            disk._os["utime"](p, (self.mtime, self.mtime))
        for q in data_paths():
            self.w.remap[q] = p

    def close(self):
        disk.set_world(None)
        shutil.rmtree(self.dir, ignore_errors=True)


def drop_leaves():
    pkg = sys.modules.get(PKG)
    for n in LEAF:
        sys.modules.pop(PKG + "." + n, None)
        if pkg is not None and n in vars(pkg):
            delattr(pkg, n)


def preload_common(warm_all=True):
    """import what the leaf modules need, and forget them again, so that the
    first simulated import finds everything else warm."""
    import pkg_resources
    from fontTools.misc import sstruct
    warm("Utilities", "GeneralCategories", "CharProps", "CPTrie", "Norm2NFCData")
    d = dataset.get(pool_seed(0))
    f = Files({})
    f.put(d.blob)
    try:
        for n in LEAF:
            try:
                importlib.import_module(PKG + "." + n)
            except Exception:
                pass        # the runs will tell
    finally:
        f.close()
    drop_leaves()
    for i in range(POOL):
        dataset.get(pool_seed(i))


def pool_seed(i):
    return "%s-%d" % (os.environ.get("VERIF_SEED", "1"), i)


def pick_data(rng):
    return pool_seed(rng.randrange(POOL)) if rng.random() < 0.85 else "x%d" % rng.randrange(1 << 30)


# ------------------------------------------------------------ questions
# An op is a list; do(op) asks the package, expect(op) asks the data set.

LAYOUT = {"inpc": ("getInPC", 0), "insc": ("getInSC", 1), "vo": ("getVO", 2)}
NORM = {"nfkc": "nfkcTrie", "nfkc_cf": "nfkc_cfTrie"}


def mod(name):
    return importlib.import_module(PKG + "." + name)


def do(op):
    k = op[0]
    if k == "imp":
        mod(op[1])
        return None
    if k == "icu":
        mod("ICUDataFile").ICUData()
        return None
    if k in ("off", "nooff"):
        I = mod("ICUDataFile").ICUData
        I()
        return I.getDataOffset(op[1])
    if k == "offq":
        i = mod("ICUDataFile").ICUData()
        try:
            return i.getDataOffset(op[1])
        except (LookupError, ValueError):
            return None
    if k == "alloff":
        I = mod("ICUDataFile").ICUData
        i = I()
        return [i.getDataOffset(n) for n in op[1]]
    if k == "raw":
        I = mod("ICUDataFile").ICUData()
        o = I.getDataOffset(op[1])
        return bytes(I.getData(o + op[2], o + op[3]))
    if k == "hdr":
        I = mod("ICUDataFile").ICUData()
        o, h = I.getDataOffsetAndHeader(op[1])
        return [o, h.headerLength, h.infoSize]
    if k == "name":
        return mod("CharNames").CharNames.getCharName(op[1], op[2])
    if k == "find":
        return mod("CharNames").CharNames.charFromName(op[1], op[2])
    if k == "list":
        it = mod("CharNames").CharNames.nameIterator(op[1])
        out = []
        for x in it:
            out.append(tuple(x))
            if len(out) >= op[2]:
                break
        return out
    if k == "reload":
        mod("CharNames").CharNames.populateData()
        return None
    if k in LAYOUT:
        return getattr(mod("LayoutProps"), LAYOUT[k][0])(op[1])
    if k in ("full", "decraw"):
        n = getattr(mod("Normalizer2"), NORM[op[1]])
        return n.getDecomposition(op[2]) if k == "full" else n.getRawDecomposition(op[2])
    if k == "trie":
        t = mod("CPTrie").CPTrie.createFromData(op[1])
        return [t.get(c) for c in op[2]]
    raise AssertionError(op)


NONE = ("any",)


def expect(d, op):
    k = op[0]
    if k in ("imp", "icu", "reload"):
        return None
    if k in ("off",):
        return d.offsets[op[1]]
    if k == "offq":
        return d.offsets.get(op[1])
    if k == "alloff":
        return [d.offsets[n] for n in op[1]]
    if k == "raw":
        o = d.offsets[op[1]]
        return d.blob[o + op[2]:o + op[3]]
    if k == "hdr":
        o = d.offsets[op[1]]
        return [o, d.blob[o] | d.blob[o + 1] << 8, 20]
    if k == "name":
        if op[2] == 2:
            return d.names.name(op[1], 0) or Synthetic(op[1])
        return d.names.name(op[1], op[2])
    if k == "find":
        return d.reverse[op[2]].get(op[1], ABSENT)
    if k == "list":
        return d.listing[op[1]][:op[2]]
    if k in LAYOUT:
        return d.layout[LAYOUT[k][1]].get(op[1])
    if k == "full":
        return d.norm[op[1]].decomposition(op[2])
    if k == "decraw":
        return d.norm[op[1]].raw_decomposition(op[2])
    raise AssertionError(op)


# what ICU calls the general categories, by number
CATEGORY = ("unassigned,uppercase letter,lowercase letter,titlecase letter,modifier letter,other letter,non spacing mark,enclosing mark,"
            "combining spacing mark,decimal digit number,letter number,other number,space separator,line separator,paragraph separator,control,"
            "format,private use area,surrogate,dash punctuation,start punctuation,end punctuation,connector punctuation,other punctuation,"
            "math symbol,currency symbol,modifier symbol,other symbol,initial punctuation,final punctuation").split(",")


class Synthetic:
    """the made-up extended name of a character that has none: <category-HEX>"""

    def __init__(self, c):
        self.c = c

    def name(self):
        c = self.c
        if 0xFDD0 <= c <= 0xFDEF or c & 0xFFFE == 0xFFFE:
            what = "noncharacter"
        else:
            what = CATEGORY[mod("CharProps").getGeneralCategory(c)]
            if what == "surrogate":
                if not 0xD800 <= c < 0xE000:
                    return None         # tables in which other characters are surrogates
                what = "lead surrogate" if c < 0xDC00 else "trail surrogate"
        return "<%s-%04X>" % (what, c)

    def matches(self, got):
        return type(got) is str and got == (self.name() or got)

    def __repr__(self):
        return "<...-%04X>" % self.c


def same(got, want):
    if isinstance(want, Synthetic):
        return want.matches(got)
    if isinstance(want, (list, tuple)):
        return isinstance(got, (list, tuple)) and len(got) == len(want) and all(same(a, b) for a, b in zip(got, want))
    return got == want and type(got) is type(want)


def text(op):
    return " ".join("%#x" % x if isinstance(x, int) and x > 9 else str(x)[:60] for x in op)


def short(x):
    r = repr(x)
    return r if len(r) < 160 else r[:157] + "..."


def near_name(rng, name):
    """something that looks like a name: most often it is none."""
    tail = re.search(r"[0-9A-F]{3,6}$", name)
    if tail and rng.random() < 0.7:
        head, digits = name[:tail.start()], tail.group()
        return head + rng.choice(["0" + digits, digits.lower(), "0x" + digits, "+" + digits, " " + digits, digits[:-2] + "_" + digits[-2:], "-" + digits, "%X" % (int(digits, 16) + rng.choice([-1, 1, 0x100, 0x1000])),
                                  digits[:-1] + chr(0xFF10 + ord(digits[-1]) - 48) if digits[-1].isdigit() else digits + "h"])
    return rng.choice([name.lower(), name + " ", " " + name, name[:-1], name[1:], name + "A", name.replace(" ", "_"), name.replace("-", " "), name.replace(" ", ""), name.swapcase(), name + ";", name + "\n", name + "\0"])


def gen_ask(rng, d, kinds=None):
    k = rng.choice(kinds or ["imp", "icu", "off", "raw", "hdr", "alloff", "name", "name", "name", "find", "list", "inpc", "insc", "vo", "full", "full", "decraw"])
    if k == "imp":
        return ["imp", rng.choice(LEAF)]
    if k in ("icu", "reload"):
        return [k]
    if k in ("off", "hdr"):
        return [k, rng.choice(sorted(d.items) if k == "off" else sorted(d.items))]
    if k == "offq":
        return [k, rng.choice(sorted(d.items) + ["no such item.icu", "", "unames", "unames.icu2", "icudt69l/unames.icu"] * 2)]
    if k == "alloff":
        return ["alloff", sorted(d.items)]
    if k == "raw":
        n = rng.choice(sorted(d.items))
        size = len(d.items[n])
        a = rng.randrange(size + 1)
        b = min(size, a + rng.choice([0, 1, 4, 16, 300, size]))
        return ["raw", n, a, b]
    if k == "name":
        return ["name", d.cp(rng, "name"), rng.choice([0, 0, 0, 0, 3, 3, 2])]
    if k == "find":
        ch = rng.choice([0, 0, 3])
        if d.listing[ch] and rng.random() < 0.8:
            name = rng.choice(d.listing[ch])[1]
            return ["find", name if rng.random() < 0.8 else near_name(rng, name), ch]
        return ["find", rng.choice(["NO SUCH NAME", "LATIN", "HANGUL SYLLABLE ", "CJK UNIFIED IDEOGRAPH-", "X-10FFFF", "A"]), ch]
    if k == "list":
        return ["list", rng.choice(CHOICES), rng.choice([1, 5, 40, 100000])]
    if k in LAYOUT:
        return [k, d.cp(rng, k)]
    n = rng.choice(sorted(NORM))
    return [k, n, d.cp(rng, n)]


def check_answer(d, op, r, where, may_fail=False):
    """the outcome r of op, against data set d."""
    if r[0] == "exc":
        if may_fail:
            return False
        raise Violation("unexpected-exception", "%s: %s raised %s: %s" % (where, text(op), r[1], r[2]))
    if op[0] == "nooff":
        raise Violation("leftover", "%s: the data file holds no %r, but its offset %s was returned" % (where, op[1], r[1]))
    want = expect(d, op)
    if not same(r[1], want):
        got = r[1]
        if isinstance(want, list) and isinstance(got, list):
            i = next((i for i in range(min(len(got), len(want))) if not same(got[i], want[i])), min(len(got), len(want)))
            where, got, want = where + ", item %d of %d (%d expected)" % (i, len(got), len(want)), got[i:i + 1], want[i:i + 1]
        raise Violation("wrong-answer", "%s: %s gave %s, the data file holds %s" % (where, text(op), short(got), short(want)))
    return True


REAL = ["UnicodeData.ICUDataFile", "UnicodeData.CharNames", "UnicodeData.LayoutProps", "UnicodeData.Normalizer2", "UnicodeData.CPTrie",
        "fontTools.misc.sstruct", "CPython import system (its module lock is the simulator's)"]
STUBS = ["icudata.dat: synthetic, from sim/icudata.py (the repository holds none)", "file reads: sim/disk.py", "module locks: sim/core.py"]


class DataScenario(Scenario):
    real = REAL
    stubs = STUBS
    assumptions = ["the data files are generated: valid ICU 69 layout in native byte order, random content",
                   "threads switch at lines, calls, returns (and for some runs instructions) of the package, at reads and opens of the file and at locks"]

    def preload(self):
        preload_common()


# ------------------------------------------------------------ C01

class C01(DataScenario):
    prop = "C01"
    quick = 5000
    thorough = 60000
    rule = ("one case = 2-4 threads that first import and use the data-file modules in seeded orders under a seeded schedule, one synthetic "
            "data file with random read sizes; non-trivial = a thread waited for another's import or two threads switched while the data "
            "was being loaded (at least 5 switches); distinct = distinct event logs (schedule, switch positions, results)")

    def gen(self, rng, tier):
        data = pick_data(rng)
        d = dataset.get(data)
        tasks = []
        focus = rng.choice([None, None, ["icu", "off", "offq", "alloff", "raw", "hdr"], ["name", "find", "imp"], ["imp", "inpc", "full", "name"]])
        for _ in range(rng.choice([2, 2, 3, 4])):
            tasks.append([gen_ask(rng, d, focus) for _ in range(rng.choice([1, 2, 3, 5]))])
        gran = rng.choice(["line", "line", "line", "instr"])
        if sum(op[0] == "find" for ops in tasks for op in ops) > 1:
            gran = "line"       # millions of instructions each
        return dict(data=data, tasks=tasks, short_read=rng.choice([0, 0, 0.5, 0.9]), chunk=rng.choice([1 << 16, 4096, 512]), wseed=rng.randrange(1 << 30),
                    gran=gran, sched=sched_for(rng, tasks))

    def run(self, plan, out):
        d = dataset.get(plan["data"])
        f = Files(plan)
        try:
            f.put(d.blob)
            hist = []

            def body(tid, ops):
                for k, op in enumerate(ops):
                    core.progress()
                    r = outcome(do, op)
                    check_answer(d, op, r, "thread %d step %d" % (tid, k))
                    hist.append((tid, k))
            sim = core.Sim(plan["sched"], step_limit=6_000_000)
            out["sim"] = sim
            for tid, ops in enumerate(plan["tasks"]):
                sim.spawn(lambda tid=tid, ops=ops: body(tid, ops))
            sim.run()
            # and still right afterwards
            op = ["alloff", sorted(d.items)]
            check_answer(d, op, outcome(do, op), "at the end")
            out["hist"] = H(hist)
            out["nontrivial"] = sim.switches >= 5 or sim.fired.get("blocked", 0) > 0
        finally:
            out["fired"].update(f.w.fired)
            f.close()


# ------------------------------------------------------------ C02

IO_FAULTS = [("open-r", "ENOENT"), ("open-r", "EACCES"), ("open-r", "EIO"), ("open-r", "EMFILE"), ("read", "EIO"), ("read", "ESTALE"),
             ("read", "KeyboardInterrupt"), ("read", "MemoryError"), ("open-r", "KeyboardInterrupt"), ("open-r", "MemoryError")]


def damaged(d, spec):
    """the file as it is for one attempt."""
    if spec is None:
        return d.blob
    k, n = spec
    b = d.blob
    if k == "missing":
        return None
    if k == "cut":
        return b[:n]
    t = d.toc_start
    if k == "count":
        return b[:t] + n.to_bytes(4, "little") + b[t + 4:]
    if k == "nameoff":      # entry n's name lies beyond the file
        p = t + 4 + 8 * (n % len(d.items))
        return b[:p] + (0x7FFFFFF0).to_bytes(4, "little") + b[p + 4:]
    if k == "headlen":
        return (0xFFF0).to_bytes(2, "little") + b[2:min(len(b), 0xFFF0)]
    raise AssertionError(spec)


def gen_damage(rng, d):
    r = rng.random()
    if r < 0.15:
        return ["missing", 0]
    if r < 0.3:
        return ["cut", rng.choice([0, 0, 1, 2, d.toc_start, 23, 24])] if rng.random() < 0.7 else ["cut", min(d.toc_start + rng.randrange(5), d.toc_end - 1)]
    if r < 0.75:
        return ["cut", rng.randrange(d.toc_end)]
    if r < 0.85:
        return ["count", rng.choice([0x7FFFFFFF, 0x100000, 0x40000000])]
    if r < 0.95:
        return ["nameoff", rng.randrange(16)]
    return ["headlen", 0]


class C02(DataScenario):
    prop = "C02"
    quick = 6000
    thorough = 60000
    rule = ("one case = 1-5 attempts to use the data file in one process, each with its own file (replaced in between), damage to its contents "
            "table or an injected fault on open or read, or an exception at a random line, from one or two threads, and a last attempt on a "
            "readable file; non-trivial = at least one attempt failed; distinct = distinct event logs")

    def gen(self, rng, tier):
        attempts = []
        base = pick_data(rng)
        lineinj = rng.random() < 0.3
        other = [pick_data(rng) for _ in range(3)]
        n = rng.choice([1, 1, 2, 3, 4])
        keep = rng.random() < 0.4
        for i in range(n):
            data = rng.choice(other) if not lineinj and not (keep and rng.random() < 0.8) else base
            d = dataset.get(data)
            tasks = [[gen_ask(rng, d, ["icu", "icu", "imp", "alloff", "off", "name", "inpc", "full"]) for _ in range(rng.choice([1, 1, 2]))]
                     for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            a = dict(data=data, damage=None, faults=[], inject=None, tasks=tasks)
            if lineinj:
                a["inject"] = [int(2 ** rng.uniform(0, 13)), rng.choice(["KeyboardInterrupt", "MemoryError"])]
            elif rng.random() < (0.2 if keep else 0.5):
                a["damage"] = gen_damage(rng, d)
            else:
                on, kind = rng.choice(IO_FAULTS)
                a["faults"] = [dict(on=on, nth=rng.choice([1, 1, 2, 3, 5]) if on == "read" else 1, kind=kind)]
            attempts.append(a)
        d = dataset.get(base)
        last = [[gen_ask(rng, d) for _ in range(rng.choice([2, 4, 6]))] for _ in range(rng.choice([1, 1, 2]))]
        # names of the other files that this one does not hold
        for a in attempts:
            for nm in sorted(dataset.get(a["data"]).items):
                if nm not in d.items and rng.random() < 0.7:
                    last[0].append(["nooff", nm])
        last[0].insert(rng.randrange(len(last[0]) + 1), ["alloff", sorted(d.items)])
        return dict(data=base, attempts=attempts, tasks=last, keep=keep, short_read=rng.choice([0, 0.5]), chunk=rng.choice([1 << 16, 4096, 512]),
                    wseed=rng.randrange(1 << 30), gran="line", sched=sched_for(rng, last))

    def run(self, plan, out):
        f = Files(plan)
        try:
            self.go(plan, out, f)
        finally:
            for k, v in f.w.fired.items():
                out["fired"][k] = out["fired"].get(k, 0) + v
            f.close()

    def go(self, plan, out, f):
        state = {"d": None, "stop": False, "failed": 0}
        hist = []
        # every attempt is a phase; phases are separated by all threads being done
        sched = plan["sched"]
        rng = random.Random(sched.get("seed", 0))
        phases = list(plan["attempts"]) + [None]
        digs = []
        sims = []
        for i, a in enumerate(phases):
            final = a is None
            if final:
                a = dict(data=plan["data"], damage=None, faults=[], inject=None, tasks=plan["tasks"])
            if not state["stop"]:
                state["d"] = dataset.get(a["data"])
                f.put(damaged(state["d"], a["damage"]))
            d = state["d"]
            bad_file = a["damage"] is not None and not state["stop"]
            f.w.revive()
            f.w.arm([] if state["stop"] else a["faults"])
            okd = []

            def body(tid, ops):
                for k, op in enumerate(ops):
                    core.progress()
                    where = ("last attempt" if final else "attempt %d" % i) + " thread %d step %d" % (tid, k)
                    if final and state["stop"] and op[0] in ("off", "raw", "hdr", "alloff", "nooff"):
                        op2 = self.adapt(d, op)
                        if op2 is None:
                            continue
                        op = op2
                    elif not final and state["stop"] and op[0] in ("off", "alloff"):
                        op = ["alloff", sorted(d.items)]
                    s = core.CURRENT
                    if a["inject"] and tid == 0:
                        s.set_injection(a["inject"][0], core.EXC[a["inject"][1]], a["inject"][1] + "@line")
                    try:
                        r = outcome(do, op)
                    finally:
                        if a["inject"] and tid == 0:
                            s.clear_injection()
                    if op[0] == "nooff":
                        if r[0] == "ok":
                            raise Violation("leftover", "%s: the data file holds no %r, but its offset %s was returned" % (where, op[1], r[1]))
                        continue
                    if bad_file and r[0] == "ok" and op != ["imp", "ICUDataFile"]:
                        raise Violation("failure-not-reported", "%s: %s succeeded on a file with damage %s" % (where, text(op), a["damage"]))
                    if r[0] == "exc":
                        if final:
                            raise Violation("unexpected-exception", "%s: %s raised %s: %s (file readable)" % (where, text(op), r[1], r[2]))
                        state["failed"] += 1
                    else:
                        check_answer(d, op, r, where)
                        if op != ["imp", "ICUDataFile"]:
                            okd.append(op)
                            # the data is loaded: the whole contents table must be there
                            al = ["alloff", sorted(d.items)]
                            check_answer(d, al, outcome(do, al), where + ", after success")
                    hist.append((i, tid, k, r[0]))
            sim = core.Sim(dict(seed=rng.randrange(1 << 30), quantum=sched.get("quantum", 1), io=sched.get("io", 0.5), stick=0.0)
                           if "decisions" not in sched else {"decisions": []}, step_limit=6_000_000)
            if "decisions" in sched:
                sim = core.Sim({"decisions": (sched["decisions"] or [[]] * len(phases))[i] if i < len(sched["decisions"]) else []}, step_limit=6_000_000)
            sims.append(sim)
            out["sim"] = Multi(sims)
            for tid, ops in enumerate(a["tasks"]):
                sim.spawn(lambda tid=tid, ops=ops: body(tid, ops))
            sim.run()
            if okd:
                state["stop"] = True
        out["hist"] = H(hist)
        out["nontrivial"] = state["failed"] > 0

    def adapt(self, d, op):
        """a question about the file that is loaded, not the one planned."""
        if op[0] == "alloff":
            return ["alloff", sorted(d.items)]
        if op[0] == "nooff":
            return None if op[1] in d.items else op
        if op[1] not in d.items:
            return None
        if op[0] == "raw":
            return None if op[3] > len(d.items[op[1]]) else op
        return op

    def shrink(self, plan):
        import copy
        dec = plan["sched"].get("decisions")
        if dec and any(dec):
            p = copy.deepcopy(plan)
            p["sched"] = {"decisions": []}
            yield p
        for v in range(len(plan["attempts"])):
            p = copy.deepcopy(plan)
            del p["attempts"][v]
            if dec and v < len(dec):
                del p["sched"]["decisions"][v]
            yield p
        for i, a in enumerate(plan["attempts"] + [plan]):
            for t in range(len(a["tasks"])):
                for o in range(len(a["tasks"][t])):
                    p = copy.deepcopy(plan)
                    q = (p["attempts"] + [p])[i]
                    del q["tasks"][t][o]
                    yield p
        for key, zero in (("short_read", 0), ("chunk", 1 << 16)):
            if plan.get(key) != zero:
                p = copy.deepcopy(plan)
                p[key] = zero
                yield p


class Multi:
    """several simulations one after another, seen as one."""

    def __init__(self, sims):
        self.sims = sims

    @property
    def segs(self):
        return [s.segs for s in self.sims]

    def digest(self):
        return H([s.digest() for s in self.sims])

    steps = property(lambda self: sum(s.steps for s in self.sims))
    switches = property(lambda self: sum(s.switches for s in self.sims))
    slept = property(lambda self: sum(s.slept for s in self.sims))

    @property
    def interleave(self):
        h = self.sims[0].interleave.copy()
        for s in self.sims[1:]:
            h.update(s.interleave.digest())
        return h

    @property
    def fired(self):
        out = {}
        for s in self.sims:
            for k, v in s.fired.items():
                out[k] = out.get(k, 0) + v
        return out


# ------------------------------------------------------------ C03

class C03(DataScenario):
    prop = "C03"
    quick = 5000
    thorough = 120000
    rule = ("one case = one data file cut off at a random byte (or complete), read in pieces of random size, and 3-25 questions to all services "
            "in a random order; each must raise or be answered as from the complete file; non-trivial = the cut removed payload bytes or reads "
            "were short; distinct = distinct (file, cut, outcome vector)")

    def gen(self, rng, tier):
        data = pick_data(rng)
        d = dataset.get(data)
        n = len(d.blob)
        r = rng.random()
        about = None
        if r < 0.08:
            cut = n
        elif r < 0.16:
            cut = n - rng.randint(1, 40)
        elif r < 0.4:
            about, e = rng.choice(d.edges)
            cut = e - rng.choice([0, 1, 2, 3, 4, 8, 16, rng.randint(0, 64), rng.randint(0, 200)])
        elif r < 0.62:
            # inside or at the edge of one of the pieces that matter
            name = rng.choice(["unames.icu", "unames.icu", "ulayout.icu", "nfkc.nrm", "nfkc_cf.nrm"])
            o, size = d.offsets[name], len(d.items[name])
            cut = rng.choice([o, o + size, o + size - rng.randint(1, min(size, 64)), o + rng.randrange(size), o + rng.randrange(size), o + rng.randint(0, 60)])
        elif r < 0.7:
            cut = rng.randrange(d.toc_end + 16)
        else:
            cut = rng.randrange(n)
        cut = min(max(cut, 0), n)
        ops = []
        for _ in range(rng.choice([3, 8, 16, 25])):
            r = rng.random()
            if r < 0.12:
                nm = rng.choice(sorted(d.items))
                o, size = d.offsets[nm], len(d.items[nm])
                x = min(max(cut - o, 0), size)
                a = min(max(x + rng.choice([-20, -4, -1, 0, 1]), 0), size)
                b = min(max(x + rng.choice([-1, 0, 1, 2, 20]), a), size)
                ops.append(["raw", nm, a, b])
            else:
                ops.append(gen_ask(rng, d))
        if about in ("nfkc.nrm", "nfkc_cf.nrm"):
            m = about[:-4]
            keys = sorted(d.norm[m].full)
            ops = ops[:4] + [[rng.choice(["full", "decraw"]), m, c] for c in rng.sample(keys, min(12, len(keys)))]
        elif about == "ulayout.icu":
            ops = ops[:4] + [[k, d.cp(rng, k)] for k in ("inpc", "insc", "vo") for _ in range(4)]
        if about == "unames.icu" or rng.random() < 0.4:
            # the characters whose data lie just before and after the cut
            ops.append(["list", 0, 100000])
            ops += [["name", c, 0] for c in rng.sample(sorted(d.names.names), min(6, len(d.names.names)))]
        return dict(data=data, cut=cut, ops=ops, short_read=rng.choice([0, 0, 0.3, 0.9]), chunk=rng.choice([1 << 16, 4096, 512, 64]), wseed=rng.randrange(1 << 30))

    def run(self, plan, out):
        d = dataset.get(plan["data"])
        f = Files(plan)
        hist = []
        try:
            f.put(d.blob[:plan["cut"]])
            complete = plan["cut"] >= len(d.blob)

            def body():
                for k, op in enumerate(plan["ops"]):
                    core.progress()
                    r = outcome(do, op)
                    check_answer(d, op, r, "file cut at %d of %d, step %d" % (plan["cut"], len(d.blob), k), may_fail=not complete)
                    hist.append(r[0])
            _, out["sim"] = None, None
            sim = core.Sim({"decisions": []}, step_limit=60_000_000)
            out["sim"] = sim
            sim.spawn(body)
            sim.run()
            out["nontrivial"] = not complete or f.w.fired.get("short-read", 0) > 0
            if not complete:
                out["fired"]["truncated-file"] = 1
        finally:
            out["hist"] = H(plan["data"], plan["cut"], hist, f.w.trace[:50])
            for k, v in f.w.fired.items():
                out["fired"][k] = out["fired"].get(k, 0) + v
            f.close()


# ------------------------------------------------------------ C04

class C04(DataScenario):
    prop = "C04"
    quick = 1500
    thorough = 30000
    rule = ("one case = 1-3 threads under a seeded schedule that open, advance, abandon and restart name iterators, look names up in both "
            "directions and load the name data again, over one synthetic name table; non-trivial = at least two iterators advanced alternately or "
            "5 context switches; distinct = distinct event logs")

    def gen(self, rng, tier):
        data = pick_data(rng)
        d = dataset.get(data)
        tasks = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(rng.choice([4, 8, 16])):
                r = rng.random()
                if r < 0.18:
                    ops.append(["open", rng.randrange(3), rng.choice([0, 0, 3])])
                elif r < 0.55:
                    ops.append(["next", rng.randrange(3), rng.choice([1, 2, 5, 30, 31, 32, 33, 200, 100000])])
                elif r < 0.6:
                    ops.append(["drop", rng.randrange(3)])
                elif r < 0.72:
                    ops.append(["reload"])
                elif r < 0.74:
                    ops.append(["many", rng.choice([0, 0, 3, 2]), rng.randrange(1 << 30), rng.choice([40, 150, 600])])
                elif r < 0.85:
                    ops.append(gen_ask(rng, d, ["name"]))
                elif r < 0.97:
                    ops.append(gen_ask(rng, d, ["find"]))
                else:
                    ops.append(["all", rng.choice([0, 3])])
            tasks.append(ops)
        return dict(data=data, cold=rng.random() < 0.15, tasks=tasks, short_read=0, wseed=rng.randrange(1 << 30), gran=rng.choice(["line"] * 9 + ["instr"]),
                    sched=sched_for(rng, tasks))

    def run(self, plan, out):
        d = dataset.get(plan["data"])
        f = Files(plan)
        try:
            f.put(d.blob)
            if not plan["cold"]:
                mod("CharNames")
            alternations = [0]

            def body(tid, ops):
                its = {}
                last = [None]
                for k, op in enumerate(ops):
                    core.progress()
                    where = "thread %d step %d" % (tid, k)
                    CN = mod("CharNames").CharNames
                    if op[0] == "open":
                        its[op[1]] = [CN.nameIterator(op[2]), op[2], 0]
                    elif op[0] == "drop":
                        its.pop(op[1], None)
                    elif op[0] == "next":
                        it = its.get(op[1])
                        if it is None:
                            continue
                        if last[0] not in (None, op[1]):
                            alternations[0] += 1
                        last[0] = op[1]
                        want = d.listing[it[1]]
                        for _ in range(op[2]):
                            r = outcome(next, it[0])
                            if it[2] >= len(want):
                                if r[:2] != ("exc", "StopIteration"):
                                    raise Violation("wrong-iteration", "%s: choice %d, after the last name came %s" % (where, it[1], short(r)))
                                break
                            exp = want[it[2]]
                            if r[0] != "ok" or tuple(r[1]) != exp:
                                raise Violation("wrong-iteration", "%s: iterator %d (choice %d) at %d gave %s, expected %s" % (where, op[1], it[1], it[2], short(r), short(exp)))
                            it[2] += 1
                    elif op[0] == "many":
                        # more than any cache of lines or groups would hold, some of them again and again
                        r = random.Random("many/%d" % op[2])
                        pool = r.sample(d.named, min(len(d.named), r.choice([2, 12, 40, 10 ** 9])))
                        for _ in range(op[3]):
                            q = ["name", r.choice(pool) if r.random() < 0.9 else d.cp(r, "name"), op[1]]
                            check_answer(d, q, outcome(do, q), where)
                            if r.random() < 0.02:
                                core.progress()
                        for _ in range(op[3] // 30):
                            q = gen_ask(r, d, ["find"])
                            check_answer(d, q, outcome(do, q), where)
                            core.progress()
                    elif op[0] == "all":
                        got = outcome(do, ["list", op[1], 10 ** 9])
                        check_answer(d, ["list", op[1], 10 ** 9], got, where)
                        for c, nm in d.listing[op[1]][::7]:
                            q = ["name", c, op[1]]
                            check_answer(d, q, outcome(do, q), where)
                    else:
                        check_answer(d, op, outcome(do, op), where)
            sim = core.Sim(plan["sched"], step_limit=60_000_000)
            out["sim"] = sim
            for tid, ops in enumerate(plan["tasks"]):
                sim.spawn(lambda tid=tid, ops=ops: body(tid, ops))
            sim.run()
            out["hist"] = H(plan["data"], plan["tasks"])
            out["nontrivial"] = alternations[0] > 0 or sim.switches >= 5
        finally:
            f.close()


# ------------------------------------------------------------ C05

class C05(DataScenario):
    prop = "C05"
    quick = 6000
    thorough = 60000
    rule = ("one case = one synthetic data file (random tables, order, padding, trie type and value width), the modules loaded in a random order by "
            "1-2 threads with random read sizes, and 20-200 questions compared with the data; non-trivial = every case that loads at least one "
            "table and compares 10 or more values; distinct = distinct (file, questions)")

    def gen(self, rng, tier):
        data = pick_data(rng)
        d = dataset.get(data)
        tasks = []
        kinds = ["inpc", "insc", "vo", "full", "decraw", "raw", "hdr", "off"]
        for _ in range(rng.choice([1, 1, 1, 2])):
            order = list(LEAF)
            rng.shuffle(order)
            ops = [["imp", n] for n in order[:rng.randint(0, 4)]]
            ops += [gen_ask(rng, d, kinds) for _ in range(rng.choice([20, 60, 200]))]
            if rng.random() < 0.3:
                ops.insert(rng.randrange(len(ops)), ["sweep", rng.choice(["inpc", "insc", "vo", "nfkc", "nfkc_cf"]), rng.randrange(0x110000), rng.choice([300, 3000])])
            tasks.append(ops)
        return dict(data=data, tasks=tasks, short_read=rng.choice([0, 0.5]), chunk=rng.choice([1 << 16, 512]), wseed=rng.randrange(1 << 30),
                    tries=[rng.randrange(1 << 30) for _ in range(rng.choice([0, 1, 3]))], gran="line", sched=sched_for(rng, tasks))

    def run(self, plan, out):
        from . import icudata as I
        d = dataset.get(plan["data"])
        f = Files(plan)
        n = [0]
        try:
            f.put(d.blob)

            def body(tid, ops):
                for k, op in enumerate(ops):
                    core.progress()
                    where = "thread %d step %d" % (tid, k)
                    if op[0] == "sweep":
                        for c in range(op[2], min(op[2] + op[3], 0x110000)):
                            for q in ([[op[1], c]] if op[1] in LAYOUT else [["full", op[1], c], ["decraw", op[1], c]]):
                                check_answer(d, q, outcome(do, q), where)
                                n[0] += 1
                    else:
                        check_answer(d, op, outcome(do, op), where)
                        n[0] += 1
                if tid == 0:
                    for s in plan["tries"]:
                        rng = random.Random(s)
                        w = rng.choice([8, 16, 32])
                        ref, null = I.random_range_map(rng, (1 << w) - 1)
                        fast, err = rng.random() < 0.5, rng.choice([0, 1, 7])
                        raw = I.build_cptrie(ref, null, fast, w, err, dict(overlap=rng.random() < 0.3, long3=rng.random() < 0.3, gap=rng.choice([0] * 10 + [16] * 9 + [66000]), late=rng.random() < 0.1)).raw
                        cps = [c + e for c in ref.starts for e in (-1, 0, 1) if 0 <= c + e < 0x110000] + [0x10FFFF, 0xD800, 0xFFFF, 0x10000] + [rng.randrange(0x110000) for _ in range(40)]
                        r = outcome(do, ["trie", raw, cps])
                        want = [ref.get(c) for c in cps]
                        if r[0] != "ok" or not same(list(r[1]), want):
                            bad = next((hex(c), a, b) for c, a, b in zip(cps, r[1], want) if a != b) if r[0] == "ok" else r
                            raise Violation("wrong-answer", "trie %d (%s, %d bit): %s" % (s, "fast" if fast else "small", w, short(bad)))
                        n[0] += len(cps)
            sim = core.Sim(plan["sched"], step_limit=60_000_000)
            out["sim"] = sim
            for tid, ops in enumerate(plan["tasks"]):
                sim.spawn(lambda tid=tid, ops=ops: body(tid, ops))
            sim.run()
            out["hist"] = H(plan["data"], plan["tasks"], plan["tries"])
            out["nontrivial"] = n[0] >= 10
            out["states"] = n[0]
        finally:
            for k, v in f.w.fired.items():
                out["fired"][k] = out["fired"].get(k, 0) + v
            f.close()


SCENARIOS = {"C01": C01, "C02": C02, "C03": C03, "C04": C04, "C05": C05}
