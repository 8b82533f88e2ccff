"""C10: lookups in the built-in tables depend on nothing but the code point."""
import dis
import importlib
import json
import inspect
import os
import random
import sys

from . import core, disk, dataset
from .base import Scenario, Violation, warm, sched_for, outcome, H, PKG, aside

MODULES = ("CharProps", "BidiProps", "CaseProps", "Utilities")
EDGES = [0, 0x41, 0x5B, 0x61, 0x7F, 0x85, 0xA0, 0xAD, 0xB5, 0xDF, 0x130, 0x131, 0x149, 0x1C4, 0x1C5, 0x1F0, 0x28, 0x29, 0x3C, 0x2208, 0x226A, 0x2985,
         0x390, 0x3C2, 0x587, 0x622, 0x640, 0x660, 0x964, 0x1E9E, 0x1F80, 0x1FB3, 0x2126, 0x212B, 0x2150, 0x2163, 0x3007, 0x3400, 0x4E00, 0x4E07,
         0xAB70, 0xABF8, 0xAC00, 0xD7A3, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFB00, 0xFB13, 0xFEFF, 0xFF21, 0xFFFE, 0xFFFF, 0x10000, 0x10400,
         0x10D24, 0x1109A, 0x1D15E, 0x1D7CE, 0x1E900, 0x1F600, 0x20000, 0x2F800, 0xE0001, 0xE0061, 0x10FFFE, 0x10FFFF]
BAD = [-1, 0x110000, 0x110001, 1 << 40, None, "a", 1.5]


def registry():
    """name -> function of one code point."""
    reg = {}
    for mn in MODULES:
        m = importlib.import_module(PKG + "." + mn)
        for n, f in sorted(vars(m).items()):
            if n.startswith("_") or not callable(f) or inspect.isclass(f) or getattr(f, "__module__", None) != m.__name__:
                continue
            try:
                ps = list(inspect.signature(f).parameters.values())
            except (TypeError, ValueError):
                continue
            if ps and ps[0].name in ("c", "code", "ch") and all(p.default is not p.empty for p in ps[1:]):
                reg[mn + "." + n] = f
            elif [p.name for p in ps[:1]] == ["c"] and n in EXTRA:
                for args in EXTRA[n]:
                    reg["%s.%s%r" % (mn, n, args)] = (lambda c, f=f, a=args: f(c, *a))
    m = importlib.import_module(PKG + ".Normalizer2")
    nfc = m.nfcTrie
    for n in ("getDecomposition", "getRawDecomposition", "getNorm16", "getRawNorm16"):
        if hasattr(nfc, n):
            reg["nfc." + n] = getattr(nfc, n)
    return reg


def candidates():
    """code points with many different properties: of each value of each trie a few."""
    out = {"all": list(EDGES)}
    for mn in ("CaseProps", "BidiProps", "CharProps"):
        for n, t in sorted(vars(importlib.import_module(PKG + "." + mn)).items()):
            if not hasattr(t, "enumerator"):
                continue
            seen = {}
            try:
                for r, v in t.enumerator():
                    if len(seen.setdefault(v, [])) < 3:
                        seen[v] += [r.start] if len(r) == 1 else [r.start, r.start + len(r) // 2]
            except Exception:
                pass            # C06 looks after that
            out[n] = [c for l in seen.values() for c in l]
    return out


def paths(reg):
    """name -> groups of code points for which the function runs through the same lines."""
    rng = random.Random("paths")
    cand = candidates()
    lines = set()
    stores = {}

    def local(frame, event, arg):
        if event == "line":
            c = frame.f_code
            lines.add((c.co_name, frame.f_lineno))
            if c not in stores:
                stores[c] = {(c.co_name, l) for l in store_lines(c)}
        return local

    def tracer(frame, event, arg):
        return local if core.REPO in frame.f_code.co_filename else None
    res = {}
    for n in sorted(reg):
        groups = {}
        cps = set(EDGES)
        for l in cand.values():
            cps.update(l if len(l) < 400 else rng.sample(l, 400))
        for c in sorted(cps):
            lines.clear()
            sys.settrace(tracer)
            try:
                outcome(reg[n], c)
            finally:
                sys.settrace(None)
            g = groups.setdefault(frozenset(lines), [])
            g.append(c)
        keep = set().union(*stores.values())
        res[n] = [[bool(k & keep), g if len(g) <= 40 else rng.sample(g, 40)] for k, g in groups.items()]
    return res


STORES = ("STORE_GLOBAL", "STORE_ATTR", "STORE_SUBSCR", "STORE_SLICE", "DELETE_ATTR", "DELETE_SUBSCR", "DELETE_GLOBAL", "STORE_DEREF")
CHANGES = ("append", "appendleft", "add", "update", "setdefault", "pop", "popitem", "popleft", "extend", "insert", "clear", "remove", "discard", "sort", "reverse",
           "move_to_end", "__setitem__", "__dict__", "setattr", "send", "__next__", "next", "write", "seek", "read")


def store_lines(code):
    """lines that may leave something behind for later calls."""
    line = 0
    for i in dis.get_instructions(code):
        if i.starts_line:
            line = i.starts_line
        if i.opname in STORES or (i.opname in ("LOAD_ATTR", "LOAD_METHOD", "LOAD_GLOBAL") and i.argval in CHANGES):
            yield line


EXTRA = {"getUnicodeProperties": [(0,), (1,), (2,)], "getBinaryProp": [(0,), (4,), (28, 2), (31,)], "toUpperOrTitle": [(True,), (False,)]}


class Cold:
    """lookups in modules that are imported when they are first asked for."""

    def __init__(self, names):
        self.names = names
        for n in list(sys.modules):
            if n == PKG or n.startswith(PKG + ".") and not n.endswith(("Data", "_h")):
                del sys.modules[n]

    def __getitem__(self, name):
        mn, fn = name.split(".", 1)
        if mn not in MODULES:
            mn = "CharProps"
        f = self.names[name]

        def call(c):
            m = importlib.import_module(PKG + "." + mn)
            return f(m, c)
        return call


def cold_names(reg):
    """name -> how to ask for it in a given module object."""
    out = {}
    for n in reg:
        mn, fn = n.split(".", 1)
        if mn not in MODULES:
            continue
        if "(" in fn:
            base = fn.split("(")[0]
            args = next(a for a in EXTRA[base] if "%s%r" % (base, a) == fn)
            out[n] = lambda m, c, base=base, args=args: getattr(m, base)(c, *args)
        else:
            out[n] = lambda m, c, fn=fn: getattr(m, fn)(c)
    return out


def ask(reg, q):
    r = outcome(reg[q[0]], q[1])
    return r if r[0] == "ok" else r[:2]


def sweep(op):
    return range(op[2], min(op[2] + op[3] * op[4], 0x110000), op[4])


def fresh(reg, queries, sweeps=()):
    """each query as the first call of a process forked from this one; the questions of a sweep share one."""
    out = {}
    for q in list(queries) + list(sweeps):
        key = repr(q)
        if key in out:
            continue
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                if q[0] == "sweep":
                    data = json.dumps([repr(ask(reg, [q[1], c])) for c in sweep(q)]).encode("utf-8", "surrogatepass")
                else:
                    data = repr(ask(reg, q)).encode("utf-8", "surrogatepass")[:60000]
                while data:
                    data = data[disk._os["write"](wfd, data):]
            finally:
                os._exit(0)
        disk._os["close"](wfd)
        buf = b""
        while True:
            p = disk._os["read"](rfd, 65536)
            if not p:
                break
            buf += p
        disk._os["close"](rfd)
        os.waitpid(pid, 0)
        out[key] = buf.decode("utf-8", "surrogatepass")
        if q[0] == "sweep":
            out[key] = json.loads(out[key])
    return out


class C10(Scenario):
    prop = "C10"
    quick = 2500
    thorough = 60000
    rule = ("one case = 1-3 threads that make 10-80 lookups of code points from a few related families, in between failing and interrupted lookups, "
            "sweeps over ranges and changes to returned lists; every answer compared with the same call made first in a fresh process; "
            "non-trivial = an answer was checked after at least 5 other lookups; distinct = distinct event logs")
    real = ["UnicodeData.CharProps", "UnicodeData.BidiProps", "UnicodeData.CaseProps", "UnicodeData.Utilities", "UnicodeData.Normalizer2 (NFC, built-in data)"]
    stubs = ["icudata.dat (synthetic; only so that Normalizer2 can be imported)"]
    assumptions = ["the reference answer is the code's own first answer in a fresh process: values that are wrong everywhere are out of scope here"]

    def preload(self):
        from . import scen_data
        warm("CharProps", "BidiProps", "CaseProps")
        d = dataset.get("c10")
        f = scen_data.Files({})
        f.put(d.blob)
        try:
            warm("Normalizer2")
        finally:
            f.close()
        self.reg = registry()
        self.names = sorted(self.reg)
        self.lists = [n for n in self.names if "getAge" in n]
        self.paths = aside("paths", lambda: paths(self.reg))
        self.hot = [(n, i) for n in self.names for i, g in enumerate(self.paths[n]) if g[0]]

    def gen(self, rng, tier):
        fam = []
        for _ in range(rng.choice([1, 2, 4])):
            b = rng.choice(EDGES) if rng.random() < 0.7 else rng.randrange(0x110000)
            fam += [b]
            for _ in range(rng.choice([1, 3])):
                fam.append(rng.choice([b ^ 0x10000, b & 0xFFFF, b ^ 0x20, b + 1, b - 1, b ^ 0x100, b & 0xFF, b + 64, b + 0x1000, b ^ 1, b | 0x100000, b + 32]))
        fam = [c for c in fam if 0 <= c < 0x110000]
        names = self.names if rng.random() < 0.4 else rng.sample(self.names, min(len(self.names), rng.randint(1, 6)))
        if rng.random() < 0.2 and self.lists:
            names = self.lists + names[:1]
        if rng.random() < 0.5:
            # one function and characters that take the same few ways through it
            n = rng.choice(self.names)
            gs = rng.sample(self.paths[n], min(len(self.paths[n]), rng.choice([1, 1, 2])))
            if self.hot and rng.random() < 0.5:
                # one that may leave something behind
                n, i = rng.choice(self.hot)
                gs[:1] = [self.paths[n][i]]
            fam = []
            for _, g in gs:
                fam += rng.sample(g, min(len(g), rng.choice([1, 2, 4])))
            names = [n] * rng.choice([1, 3]) + rng.sample(self.names, rng.choice([0, 1]))
        tasks = []
        total = 0
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(rng.choice([10, 20, 30])):
                r = rng.random()
                n = rng.choice(names)
                c = rng.choice(fam) if rng.random() < 0.85 else rng.choice(EDGES)
                if r < 0.7:
                    ops.append(["ask", n, c])
                elif r < 0.76:
                    ops.append(["bad", n, rng.choice(BAD)])
                elif r < 0.84:
                    ops.append(["int", n, c, rng.choice([1, 2, 3, 4, 6, 9, 14]), rng.choice(["KeyboardInterrupt", "MemoryError"])])
                elif r < 0.94:
                    ops.append(["mut", n, c, rng.choice(["clear", "append", "set", "reverse"])])
                else:
                    ops.append(["sweep", n, c, rng.choice([3, 70, 300, 1100]) if rng.random() < 0.98 else 20000, rng.choice([1, 1, 7, 64])])
            tasks.append(ops)
        if rng.random() < 0.1:      # one thread asks for many characters while others ask for a few
            n = rng.choice(self.hot)[0] if self.hot and rng.random() < 0.7 else rng.choice(self.names)
            tasks = [[["sweep", n, rng.choice(fam), rng.choice([70, 300, 1100]), rng.choice([1, 1, 7])] for _ in range(rng.choice([1, 3]))]]
            for _ in range(rng.choice([1, 2])):
                if rng.random() < 0.5:
                    tasks.append([["ask", n, rng.choice(fam)] for _ in range(rng.choice([5, 15]))])
                else:
                    tasks.append([["sweep", n, rng.choice(fam), rng.choice([70, 300]), rng.choice([1, 1, 7])] for _ in range(rng.choice([1, 2]))])
        if rng.random() < 0.12:     # nothing is imported yet
            own = [n for n in self.names if n.split(".")[0] in MODULES]
            tasks = [[[o[0], o[1] if o[1] in own else rng.choice(own)] + o[2:] for o in ops[:rng.choice([4, 8, 15])] if o[0] != "sweep"] for ops in tasks]
            # an import that fails makes those that wait for it in other threads fail
            # as well (that is how CPython does it), so only one thread is interrupted
            if len(tasks) > 1:
                tasks = [[o for o in ops if o[0] != "int"] for ops in tasks]
            elif rng.random() < 0.7:
                for ops in tasks:
                    ops.insert(0, ["int", rng.choice(own), 0x41, rng.choice([1, 5, 20, 60, 200, 600, 1500]), rng.choice(["KeyboardInterrupt", "MemoryError"])])
            return dict(tasks=tasks, cold=True, sched=sched_for(rng, tasks))
        return dict(tasks=tasks, gran=rng.choice(["line", "line", "instr"]), sched=sched_for(rng, tasks))

    def run(self, plan, out):
        reg = self.reg
        for ops in plan["tasks"]:
            for op in ops:
                if op[1] not in reg:
                    raise core.Violation("harness", "no lookup %s" % op[1])
        # references, while nothing has been looked up yet
        qs = [[op[1], op[2]] for ops in plan["tasks"] for op in ops if op[0] in ("ask", "mut", "int")]
        ref = fresh(reg, qs, [op for ops in plan["tasks"] for op in ops if op[0] == "sweep"])
        hist = []
        if plan.get("cold"):
            reg = Cold(cold_names(reg))
            out["probes"] = {"cold": 1}

        def verify(op, r, k, where, may_fail=False):
            q = [op[1], op[2]]
            if may_fail and r[0] == "exc":
                return
            if repr(r) != ref[repr(q)]:
                raise Violation("depends-on-history", "%s: %s(%s) gives %s after %d lookups, %s in a fresh process" % (
                    where, op[1], hex(op[2]) if isinstance(op[2], int) else op[2], r[1:], k, ref[repr(q)]))

        def body(tid, ops):
            s = core.CURRENT
            for k, op in enumerate(ops):
                core.progress()
                where = "thread %d step %d" % (tid, k)
                if op[0] == "ask":
                    verify(op, ask(reg, op[1:3]), k, where)
                elif op[0] == "bad":
                    ask(reg, op[1:3])
                elif op[0] == "int":
                    s.set_injection(op[3], core.EXC[op[4]], op[4] + "@line")
                    try:
                        r = ask(reg, op[1:3])
                    finally:
                        s.clear_injection()
                    verify(op, r, k, where, may_fail=True)
                elif op[0] == "mut":
                    r = ask(reg, op[1:3])
                    verify(op, r, k, where)
                    if r[0] == "ok" and isinstance(r[1], list):
                        x = r[1]
                        if op[3] == "clear":
                            del x[:]
                        elif op[3] == "append":
                            x.append(99)
                        elif op[3] == "set" and x:
                            x[0] = 77
                        else:
                            x.reverse()
                        out["fired"]["returned-list-changed"] = out["fired"].get("returned-list-changed", 0) + 1
                elif op[0] == "sweep":
                    want = ref[repr(op)]
                    for i, c in enumerate(sweep(op)):
                        r = ask(reg, [op[1], c])
                        if repr(r) != want[i]:
                            raise Violation("depends-on-history", "%s: %s(%s) gives %s as number %d of a sweep, %s in a lone one" % (where, op[1], hex(c), r[1:], i, want[i]))
                hist.append((tid, k))
        sim = core.Sim(plan["sched"], step_limit=60_000_000)
        out["sim"] = sim
        for tid, ops in enumerate(plan["tasks"]):
            sim.spawn(lambda tid=tid, ops=ops: body(tid, ops))
        sim.run()
        # and every question once more, after all of it
        for q in qs:
            verify(["ask"] + q, ask(reg, q), len(hist), "at the end")
        out["hist"] = H(hist, plan["tasks"])
        out["nontrivial"] = len(hist) > 5


SCENARIOS = {"C10": C10}
