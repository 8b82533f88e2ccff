"""C06: range enumeration of code point tries."""
import itertools
import random

from . import core
from . import icudata as I
from .base import Scenario, Violation, warm, sched_for, outcome, H, aside

TOP = 0x110000
BUILTIN = ["gc", "vec", "bidi", "case", "nfc"]
EDGES = [0, 1, 0x1F, 0x20, 0x7F, 0x80, 0x400, 0x7FF, 0x800, 0xFFF, 0x1000, 0x1001, 0xD7FF, 0xD800, 0xD801, 0xD820, 0xDBFF, 0xDC00, 0xDFFF,
         0xE000, 0xFFFF, 0x10000, 0x10001, 0x107FF, 0x10800, 0x2FA1F, 0xE0000, 0xE07FF, 0xE0800, 0x10FFFE, 0x10FFFF, 0x110000]


# the values callbacks map to

def f_mask(v, mask):
    return v & mask


def f_shift(v, shift, bias=0):
    return (v >> shift) + bias


def f_const(v):
    return 7


def f_text(v):
    return "v%d" % (v % 3)


def f_none(v):
    return None if v & 1 else 0


class Raiser:
    def __init__(self, bad):
        self.bad = bad

    def __call__(self, v, **k):
        if v == self.bad:
            raise core.CallbackError("value %d" % v)
        return v


def merged(spans):
    out = []
    for s, e, v in spans:
        if out and out[-1][2] == v and type(out[-1][2]) is type(v):
            out[-1] = (out[-1][0], e, v)
        else:
            out.append((s, e, v))
    return out


class C06(Scenario):
    prop = "C06"
    quick = 8000
    thorough = 80000
    timeout = 150
    rule = ("one case = 1-3 threads that open, advance alternately, abandon and finish enumerations of 1-3 tries (random ones of both formats and "
            "the five of the package) over random spans, with mapping, re-entrant and raising value callbacks; non-trivial = at least two live "
            "enumerations were advanced alternately or a callback re-entered or raised; distinct = distinct event logs")
    real = ["UnicodeData.Utrie2", "UnicodeData.CPTrie", "tries of CharProps, BidiProps, CaseProps and Norm2NFCData"]
    stubs = ["random tries: sim/icudata.py encoders"]

    def preload(self):
        U, P, CP, BP, KP, N = warm("Utrie2", "CPTrie", "CharProps", "BidiProps", "CaseProps", "Norm2NFCData")
        self.U, self.P = U.UTrie2, P.CPTrie
        nfc = P.CPTrie(N.norm2_nfc_data_trieIndex, N.norm2_nfc_data_trieData, N.norm2_nfc_data_type, N.norm2_nfc_data_valueWidth,
                       N.norm2_nfc_data_index3NullOffset, N.norm2_nfc_data_dataNullOffset, N.norm2_nfc_data_highStart, N.norm2_nfc_data_shifted12HighStart)
        self.built = {"gc": CP.propsTrie, "vec": CP.propsVectorTrie, "bidi": BP.bidiPropsTrie, "case": KP.casePropsTrie, "nfc": nfc}
        self.refs = {k: I.RangeMap(br) for k, br in aside("refs", self.sweep).items()}

    def sweep(self):
        keep = {}
        for k, t in self.built.items():
            br = []
            c = 0
            for v, g in itertools.groupby(map(t.get, range(TOP))):
                br.append((c, v))
                c += sum(1 for _ in g)
            keep[k] = br
        return keep

    # -- tries by description

    def trie(self, spec):
        make, ref, maps = self.recipe(spec)
        try:
            return make(), ref, maps
        except Exception as e:
            raise Violation("unexpected-exception", "a valid trie of kind %s was not accepted: %s: %s" % (spec[0], type(e).__name__, e))

    def recipe(self, spec):
        if spec[0] == "built":
            return (lambda: self.built[spec[1]]), self.refs[spec[1]], spec[1] != "nfc"
        kind, seed = spec
        rng = random.Random(seed)
        if kind == "utrie2":
            ref, null = I.random_range_map(rng, rng.choice([1, 3, 0xFFFF]))
            raw = I.build_utrie2(ref, null, opts=dict(share=rng.random() < 0.9))
            return (lambda: self.U(**raw)), ref, True
        w = rng.choice([8, 16, 32])
        ref, null = I.random_range_map(rng, rng.choice([1, 3, (1 << w) - 1]))
        raw = I.build_cptrie(ref, null, rng.random() < 0.5, w, rng.choice([0, 5]),
                             dict(share=rng.random() < 0.9, overlap=rng.random() < 0.3, long3=rng.random() < 0.3, gap=rng.choice([0] * 10 + [16] * 9 + [66000]), late=rng.random() < 0.1, nonull=rng.random() < 0.2,
                                  alias=rng.randrange(64) if rng.random() < 0.06 else None)).raw
        return (lambda: self.P.createFromData(raw)), ref, False

    def gen(self, rng, tier):
        specs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            r = rng.random()
            if r < 0.25:
                specs.append(["built", rng.choice(BUILTIN)])
            elif r < 0.65:
                specs.append(["utrie2", rng.randrange(1 << 30)])
            else:
                specs.append(["cptrie", rng.randrange(1 << 30)])
        refs = [self.recipe(s)[1:] for s in specs]
        gran = rng.choice(["line", "line", "line", "instr"])
        wide = rng.random() < 0.15 and gran == "line"

        def span(t):
            ref = refs[t][0]

            def pt():
                r = rng.random()
                if r < 0.5:
                    return min(max(rng.choice(ref.starts) + rng.choice([-65, -32, -16, -1, 0, 0, 1, 5, 31, 32, 63, 64, 511]), 0), TOP)
                if r < 0.8:
                    return rng.choice(EDGES)
                return rng.randrange(TOP + 1)
            a = pt()
            if wide:
                b = pt()
            else:
                b = a + rng.choice([0, 1, 2, 20, 33, 64, 100, 600, 2100, 5000])
                if rng.random() < 0.1 and gran == "line":
                    b = pt()
            if a > b and rng.random() < 0.9:
                a, b = b, a
            return [min(a, TOP), min(b, TOP)]

        def fn(t, s):
            if not refs[t][1] or rng.random() < 0.45:
                return None
            k = rng.choice(["mask", "mask", "shift", "const", "text", "none", "raise", "reenter", "reenter"])
            if k == "mask":
                return ["mask", rng.choice([0, 1, 0x1F, 0xFFFF, 2])]
            if k == "shift":
                return ["shift", rng.choice([0, 1, 5]), rng.choice([None, 3])]
            if k == "raise":
                vals = [v for _, _, v in refs[t][0].ranges(*s)] if s[0] < s[1] else []
                return ["raise", rng.choice(vals) if vals and rng.random() < 0.8 else rng.choice([0, 77777])]
            if k == "reenter":
                u = rng.randrange(len(specs))
                a = rng.choice([s[0], rng.choice(EDGES)])
                return ["reenter", u, [min(a, TOP), min(a + rng.choice([1, 33, 80]), TOP)], rng.choice([1, 0xFF]), rng.choice([1, 3, 5])]
            return [k]
        tasks = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(rng.choice([4, 8, 14])):
                r = rng.random()
                t = rng.randrange(len(specs))
                s = span(t)
                if r < 0.35:
                    ops.append(["open", rng.randrange(3), t, s, fn(t, s)])
                elif r < 0.75:
                    ops.append(["next", rng.randrange(3), rng.choice([1, 1, 2, 5, 1000])])
                elif r < 0.8:
                    ops.append(["drop", rng.randrange(3)])
                elif r < 0.9:
                    ops.append(["full", t, s, fn(t, s)])
                elif r < 0.93 and gran == "line":
                    ops.append(["whole", t])
                else:
                    ops.append(["get", t, [min(x, TOP - 1) for x in span(t)]])
            tasks.append(ops)
        return dict(tries=specs, tasks=tasks, gran=gran, sched=sched_for(rng, tasks))

    def run(self, plan, out):
        tries = [self.trie(s) for s in plan["tries"]]
        stats = {"alt": 0, "reenter": 0, "raise": 0}

        def expected(t, span, fn):
            ref = tries[t][1]
            spans = ref.ranges(*span) if span[0] < span[1] else []
            if fn is None or fn[0] == "raise":
                return spans
            g = {"mask": lambda v: v & fn[1], "shift": lambda v: (v >> fn[1]) + (fn[2] or 0), "const": f_const, "text": f_text, "none": f_none,
                 "reenter": lambda v: v & fn[3]}[fn[0]]
            return merged([(s, e, g(v)) for s, e, v in spans])

        def start(t, span, fn, where):
            trie = tries[t][0]
            if fn is None:
                return trie.enumerator(span[0], span[1])
            k = fn[0]
            if k == "mask":
                return trie.enumerator(span[0], span[1], f_mask, mask=fn[1])
            if k == "shift":
                kw = {} if fn[2] is None else {"bias": fn[2]}
                return trie.enumerator(span[0], span[1], f_shift, shift=fn[1], **kw)
            if k in ("const", "text", "none"):
                return trie.enumerator(span[0], span[1], {"const": f_const, "text": f_text, "none": f_none}[k])
            if k == "raise":
                return trie.enumerator(span[0], span[1], Raiser(fn[1]))
            # a callback that enumerates while it is being called
            inner = {"it": None, "n": 0, "busy": False}
            want = expected(fn[1], fn[2], None)

            def cb(v):
                inner["n"] += 1
                if inner["n"] % fn[4] == 0 and inner["n"] < 400:
                    stats["reenter"] += 1
                    if inner["it"] is None:
                        inner["it"] = [start(fn[1], fn[2], None, where), 0]
                    step_it(inner["it"][0], want, inner["it"], 1, where + ", enumeration inside the value callback", None)
                    if inner["it"][1] > len(want):
                        inner["it"] = None
                return v & fn[3]
            return trie.enumerator(span[0], span[1], cb)

        def step_it(it, want, st, at, where, fn):
            """advance it once; st[at] is the position. True when it is over."""
            core.progress()
            r = outcome(next, it)
            pos = st[at]
            st[at] = pos + 1
            if r[0] == "exc" and r[1] == "StopIteration":
                if pos < len(want):
                    raise Violation("incomplete", "%s: ended before %s" % (where, rng_text(want[pos])))
                st[at] = len(want) + 1
                return True
            if r[0] == "exc":
                if fn is not None and fn[0] == "raise" and r[1] == "CallbackError":
                    stats["raise"] += 1
                    st[at] = len(want) + 1
                    r2 = outcome(next, it)
                    if r2[:2] != ("exc", "StopIteration"):
                        raise Violation("after-callback-error", "%s: went on with %r after the callback raised" % (where, r2))
                    return True
                raise Violation("unexpected-exception", "%s: raised %s: %s" % (where, r[1], r[2]))
            if pos >= len(want):
                raise Violation("extra-range", "%s: %s after the end" % (where, short(r[1])))
            got = r[1]
            ok = isinstance(got, tuple) and len(got) == 2 and isinstance(got[0], range) and got[0].step == 1
            s, e, v = want[pos]
            if not ok or got[0].start != s or got[0].stop != e or got[1] != v or type(got[1]) is not type(v):
                raise Violation("wrong-range", "%s: range %d is %s, expected %s" % (where, pos, short(got), rng_text(want[pos])))
            if fn is not None and fn[0] == "raise" and v == fn[1]:
                raise Violation("callback-error-lost", "%s: the callback raises for value %r but %s was delivered" % (where, v, short(got)))
            return False

        def label(t, span, fn):
            return "%s %04X..%04X%s" % ("/".join(map(str, plan["tries"][t])), span[0], span[1], "" if fn is None else " " + fn[0])

        def body(tid, ops):
            its = {}
            last = None
            for k, op in enumerate(ops):
                core.progress()
                where = "thread %d step %d" % (tid, k)
                if op[0] == "open":
                    _, slot, t, span, fn = op
                    its[slot] = [start(t, span, fn, where), 0, expected(t, span, fn), fn, label(t, span, fn)]
                elif op[0] == "next":
                    it = its.get(op[1])
                    if it is None:
                        continue
                    if last not in (None, op[1]):
                        stats["alt"] += 1
                    last = op[1]
                    for _ in range(op[2]):
                        if it[1] > len(it[2]):
                            break
                        if step_it(it[0], it[2], it, 1, "%s (%s)" % (where, it[4]), it[3]):
                            break
                elif op[0] == "drop":
                    it = its.pop(op[1], None)
                    if it is not None:
                        it[0].close()
                elif op[0] in ("full", "whole"):
                    t, span, fn = (op[1], op[2], op[3]) if op[0] == "full" else (op[1], [0, TOP], None)
                    want = expected(t, span, fn)
                    st = [0]
                    it = start(t, span, fn, where) if op[0] == "full" else tries[t][0].enumerator()
                    while not step_it(it, want, st, 0, "%s (%s)" % (where, label(t, span, fn)), fn):
                        pass
                elif op[0] == "get":
                    trie, ref, _ = tries[op[1]]
                    for c in op[2]:
                        r = outcome(trie.get, c)
                        if r != ("ok", ref.get(c)):
                            raise Violation("wrong-lookup", "%s: %s at %04X gives %r, the trie holds %r" % (where, plan["tries"][op[1]], c, r, ref.get(c)))
        sim = core.Sim(plan["sched"], step_limit=100_000_000)
        out["sim"] = sim
        for tid, ops in enumerate(plan["tasks"]):
            sim.spawn(lambda tid=tid, ops=ops: body(tid, ops))
        sim.run()
        out["hist"] = H(plan["tries"], plan["tasks"])
        out["nontrivial"] = bool(stats["alt"] or stats["reenter"] or stats["raise"] or sim.switches > 4)
        out["fired"]["callback-reentered"] = stats["reenter"]
        out["fired"]["callback-raised"] = stats["raise"]


def rng_text(w):
    return "%04X..%04X -> %r" % (w[0], w[1] - 1, w[2])


def short(x):
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], range):
        return rng_text((x[0].start, x[0].stop, x[1]))
    return repr(x)[:120]


SCENARIOS = {"C06": C06}
