"""C07, C08, C09: UnicodeSet against the mathematical set."""
import bisect
import copy
import pickle
import types
import random

from . import core
from .base import Scenario, Violation, warm, sched_for, outcome, H

TOP = 0x110000
EDGE = [0, 1, 2, 3, 0x40, 0x41, 0x42, 0x7F, 0x80, 0xFF, 0x100, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFE, 0xFFFF, 0x10000,
        0x10FFFD, 0x10FFFE, 0x10FFFF]


# ------------------------------------------------------------ reference model

class M:
    """an immutable set of code points as sorted boundaries."""
    __slots__ = ("b",)

    def __init__(self, b=()):
        self.b = tuple(b)

    @staticmethod
    def of(start, limit):
        start = max(start, 0)
        limit = min(limit, TOP)
        return M((start, limit)) if start < limit else M()

    def has(self, c):
        return bisect.bisect_right(self.b, c) & 1 == 1

    def combine(self, other, f):
        pts = sorted(set(self.b) | set(other.b) | {0})
        out = []
        cur = False
        for p in pts:
            if p >= TOP:
                break
            v = bool(f(self.has(p), other.has(p)))
            if v != cur:
                out.append(p)
                cur = v
        if cur:
            out.append(TOP)
        return M(out)

    def __or__(self, o):
        return self.combine(o, lambda a, b: a or b)

    def __and__(self, o):
        return self.combine(o, lambda a, b: a and b)

    def __sub__(self, o):
        return self.combine(o, lambda a, b: a and not b)

    def __xor__(self, o):
        return self.combine(o, lambda a, b: a != b)

    def __eq__(self, o):
        return self.b == o.b

    def __hash__(self):
        return hash(self.b)

    def ranges(self):
        return [(self.b[i], self.b[i + 1]) for i in range(0, len(self.b), 2)]

    def size(self):
        return sum(e - s for s, e in self.ranges())

    def index(self, c):
        n = 0
        for s, e in self.ranges():
            if s <= c < e:
                return n + c - s
            n += e - s
        return None

    def at(self, i):
        for s, e in self.ranges():
            if i < e - s:
                return s + i
            i -= e - s
        return None


FULL = M((0, TOP))


# ------------------------------------------------------------ operations
# An operation is [name, target set, argument...]. Sets are numbered; set
# operands are set numbers. Operations that make a set store it in a slot.

UPD_INT = ["add", "remove", "retain", "complement"]
UPD_RANGE = ["addRange", "removeRange", "retainRange", "complementRange", "complement_r"]
UPD_SET = ["addAll", "removeAll", "retainAll", "complementAll", "ior", "iand", "isub", "ixor"]
DERIVE = ["union", "intersection", "difference", "symmetric_difference", "or", "and", "sub", "xor"]


def rand_cp(rng, pts=None):
    r = rng.random()
    if pts and r < 0.5:
        c = rng.choice(pts) + rng.choice([-1, 0, 0, 1])
    elif r < 0.75:
        c = rng.choice(EDGE)
    elif r < 0.93:
        c = rng.randrange(0, 40)
    else:
        c = rng.randrange(TOP)
    return min(max(c, 0), TOP - 1)


def rand_range(rng, pts):
    s = rand_cp(rng, pts)
    r = rng.random()
    if r < 0.15:
        e = s
    elif r < 0.6:
        e = min(s + rng.randint(1, 12), TOP - 1)
    elif r < 0.92:
        e = rand_cp(rng, pts)
        if e < s:
            s, e = e, s
    elif r < 0.96:
        e = s - rng.randint(1, 5)       # empty
    else:
        s, e = rng.choice([(-5, e0) for e0 in (0, 3, 70)] + [(s0, TOP + 3) for s0 in (TOP - 1, TOP - 9, 0x41)] + [(-1, TOP), (0, TOP - 1)])
    return s, e


def many(op):
    """the ranges of a set of many, in the order they are added."""
    _, _, seed, n, order = op
    rng = random.Random("many/%d" % seed)
    step = rng.choice([3, 8, 40, TOP // (n + 1)])
    out = []
    c = rng.choice([0, 0x41, 0xFF00])
    for _ in range(n):
        c += rng.randrange(step) + 1
        e = c + rng.randrange(rng.choice([1, step]))
        if e >= TOP:
            break
        out.append((c, e))
        c = e + 1
    if order == 1:
        out.reverse()
    elif order == 2:
        rng.shuffle(out)
    return out


def gen_many(rng, t, pts, size=None):
    op = ["many", t, rng.randrange(1 << 30), size or rng.choice([8, 30, 30, 70, 70, 140, 300]) if rng.random() < 0.96 else 1100, rng.randrange(3)]
    b = sorted(many(op))
    for r in [b[0], b[-1]] + rng.sample(b, min(3, len(b))):
        pts += r
    return op


def gen_large(rng, n, pts):
    """operations on large sets: alone, two of them as operands of one, one and an almost equal copy of it."""
    t = rng.randrange(n)
    o = (t + rng.randint(1, n - 1)) % n
    ops = [gen_many(rng, t, pts)]
    k = rng.random()
    if k < 0.3:
        ops.append(gen_many(rng, o, pts))
        if rng.random() < 0.3:      # the gaps of the other one
            ops += [["copy", o, t, 0], ["complement_all", o]]
            if rng.random() < 0.5:
                ops.append(["removeRange", o] + list(rng.choice(many(ops[0]))))
        ops.append([rng.choice(DERIVE), rng.randrange(n), t, o] if rng.random() < 0.5 else [rng.choice(UPD_SET), t, o])
    elif k < 0.6:
        r = many(ops[0])
        ops.append(["copy", o, t, 0])
        a, b = rng.choice(r)
        if rng.random() < 0.7:      # one range is shifted by one
            ops += [["remove", o, a], ["add", o, b + 1]]
        elif len(r) > 1:            # one range is shorter, another one longer
            c, d = rng.choice(r)
            ops += [["remove", o, a], ["add", o, d + 1]]
        ops.append(["eq", t, o])
    return ops


def gen_op(rng, nsets, pts, reads=True, targets=None, operands=None):
    """pts: interesting code points so far (mutated)."""
    t = rng.choice(targets) if targets else rng.randrange(nsets)
    o = rng.choice(operands) if operands else rng.randrange(nsets)
    r = rng.random()
    if r < 0.22:
        c = rand_cp(rng, pts)
        pts.append(c)
        return [rng.choice(UPD_INT[:1] * 3 + UPD_INT), t, c]
    if r < 0.47:
        s, e = rand_range(rng, pts)
        pts += [max(min(s, TOP - 1), 0), max(min(e, TOP - 1), 0)]
        return [rng.choice(UPD_RANGE[:1] * 2 + UPD_RANGE), t, s, e]
    if r < 0.62:
        return [rng.choice(UPD_SET), t, o]
    if r < 0.72:
        a = rng.choice(operands) if operands else rng.randrange(nsets)
        return [rng.choice(DERIVE), t, a, o]
    if r < 0.80:
        k = rng.random()
        if k < 0.3:
            return ["copy", t, o, rng.choice([0, 0, 0, 1, 1, 2, 3])]
        if k < 0.5:
            return ["new_int", t, rand_cp(rng, pts)]
        if k < 0.9:
            s, e = rand_range(rng, pts)
            return ["new_range", t, s, e]
        return ["new", t]
    if r < 0.85:
        return ["complement_all", t]
    if r < 0.865:
        return ["clear", t]
    if not reads:
        return ["copy", t, o, rng.choice([0, 0, 0, 1])]
    s = rng.choice(operands + targets) if operands and targets else rng.randrange(nsets)
    k = rng.random()
    if k < 0.3:
        return ["contains", s, rng.choice([rand_cp(rng, pts), rand_cp(rng, pts), TOP, -1])]
    if k < 0.5:
        a, b = rand_range(rng, pts)
        if b < a:
            a, b = b, a
        return ["contains_r", s, a, b + 1]
    if k < 0.65:
        return ["indexOf", s, rand_cp(rng, pts)]
    if k < 0.8:
        return ["charAt", s, rng.choice([0, 1, 2, 5, 11, 40, 300, 70000, TOP - 1, TOP, -1])]
    if k < 0.9:
        return ["eq", s, o]
    return ["iter", s, rng.choice([1, 3, 20])]


def gen_edge_op(rng, n, model):
    """an update at, or just beside, where ranges of the set begin and end; with one-wide gaps and ranges if there are any."""
    t = rng.randrange(n)
    b = model[t].b
    tight = [b[i] for i in range(len(b) - 1) if b[i + 1] == b[i] + 1]

    def point():
        if tight and rng.random() < 0.4:
            return rng.choice(tight)
        if b:
            return min(max(rng.choice(b) + rng.choice([-2, -1, 0, 1]), 0), TOP - 1)
        return rng.choice(EDGE)
    if rng.random() < 0.55:
        return [rng.choice(UPD_INT[:1] * 3 + UPD_INT), t, point()]
    s, e = sorted([point(), point()])
    return [rng.choice(UPD_RANGE[:1] * 2 + UPD_RANGE), t, s, e]


def model_op(op, sets):
    """(new value of the target or None, expected result or None)"""
    n, t = op[0], op[1]
    m = sets[t] if t < len(sets) else None
    if n in UPD_INT:
        p = M.of(op[2], op[2] + 1)
        return {"add": lambda: m | p, "remove": lambda: m - p, "retain": lambda: m & p, "complement": lambda: m ^ p}[n](), None
    if n in UPD_RANGE:
        p = M.of(op[2], op[3] + 1)
        return {"addRange": lambda: m | p, "removeRange": lambda: m - p, "retainRange": lambda: m & p,
                "complementRange": lambda: m ^ p, "complement_r": lambda: m ^ p}[n](), None
    if n in UPD_SET:
        o = sets[op[2]]
        return _setop(n, m, o), None
    if n in DERIVE:
        a, b = sets[op[2]], sets[op[3]]
        k = DERIVE.index(n) % 4
        return [a | b, a & b, a - b, a ^ b][k], None
    if n == "copy":
        return sets[op[2]], None
    if n == "new_int":
        return M.of(op[2], op[2] + 1), None
    if n == "new_range":
        return M.of(op[2], op[3] + 1), None
    if n in ("new", "clear"):
        return M(), None
    if n == "many":
        return M(x for r in sorted(many(op)) for x in (r[0], r[1] + 1)), None
    if n == "complement_all":
        return FULL - m, None
    if n == "contains":
        return None, 0 <= op[2] < TOP and m.has(op[2])
    if n == "contains_r":
        s, e = op[2], op[3]
        return None, any(a <= s and e <= b for a, b in m.ranges())
    if n == "indexOf":
        return None, m.index(op[2])
    if n == "charAt":
        return None, m.at(op[2]) if op[2] >= 0 else None
    if n == "eq":
        return None, [m == sets[op[2]], m != sets[op[2]]]
    if n == "iter":
        exp = []
        i = 0
        while len(exp) < op[2]:
            c = m.at(i)
            if c is None:
                break
            exp.append(c)
            i += 1
        return None, exp
    raise ValueError(n)


def _setop(n, m, o):
    return {"addAll": lambda: m | o, "removeAll": lambda: m - o, "retainAll": lambda: m & o, "complementAll": lambda: m ^ o,
            "ior": lambda: m | o, "iand": lambda: m & o, "isub": lambda: m - o, "ixor": lambda: m ^ o}[n]()


def real_op(S, op, sets):
    """perform on the real sets; returns (kind, value): 'set' results replace
    the slot of the target."""
    n, t = op[0], op[1]
    s = sets[t] if t < len(sets) else None
    if n in UPD_INT or n in ("addRange", "removeRange", "retainRange", "complementRange"):
        r = getattr(s, n)(*op[2:])
        return "self", r
    if n == "complement_r":
        return "self", s.complement(range(op[2], op[3] + 1))
    if n in ("addAll", "removeAll", "retainAll", "complementAll"):
        return "self", getattr(s, n)(sets[op[2]])
    if n in ("ior", "iand", "isub", "ixor"):
        o = sets[op[2]]
        x = s
        if n == "ior":
            x |= o
        elif n == "iand":
            x &= o
        elif n == "isub":
            x -= o
        else:
            x ^= o
        return "self", x
    if n in DERIVE:
        a, b = sets[op[2]], sets[op[3]]
        if n == "or":
            r = a | b
        elif n == "and":
            r = a & b
        elif n == "sub":
            r = a - b
        elif n == "xor":
            r = a ^ b
        else:
            r = getattr(a, n)(b)
        return "new", r
    if n == "copy":
        o = sets[op[2]]
        how = op[3] if len(op) > 3 else 0
        return "new", S(o) if how == 0 else copy.copy(o) if how == 1 else copy.deepcopy(o) if how == 2 else pickle.loads(pickle.dumps(o))
    if n == "new_int":
        return "new", S(op[2])
    if n == "new_range":
        return "new", S(range(op[2], op[3] + 1))
    if n == "new":
        return "new", S()
    if n == "many":
        r = S()
        for a, b in many(op):
            if op[4] == 2:
                r.addAll(S(range(a, b + 1)))
            elif a == b:
                r.add(a)
            else:
                r.addRange(a, b)
        return "new", r
    if n == "clear":
        return "self", s.clear()
    if n == "complement_all":
        return "self", s.complement()
    if n == "contains":
        a, b = s.contains(op[2]), op[2] in s
        return "val", a if a == b else [a, b]
    if n == "contains_r":
        a, b = s.contains(range(op[2], op[3])), range(op[2], op[3]) in s
        return "val", a if a == b else [a, b]
    if n == "indexOf":
        return "val", s.indexOf(op[2])
    if n == "charAt":
        return "val", s.charAt(op[2])
    if n == "eq":
        return "val", [s == sets[op[2]], s != sets[op[2]]]
    if n == "iter":
        out = []
        for c in s:
            out.append(c)
            if len(out) >= op[2]:
                break
        return "val", out
    raise ValueError(n)


def probes(m, extra=()):
    pts = {0, TOP - 1}
    for b in m.b if len(m.b) <= 40 else m.b[:6] + m.b[6:-6:max(1, len(m.b) // 8)] + m.b[-6:]:
        pts.update((b - 1, b))
    pts.update(extra)
    return sorted(p for p in pts if 0 <= p < TOP)


def check_set(s, m, where, extra=(), deep=True):
    """the whole public view of s is that of m."""
    got = [(r.start, r.stop) for r in s.getRanges()]
    exp = m.ranges()
    if got != exp:
        raise Violation("wrong-set", "%s: ranges %s, expected %s" % (where, fmt(got), fmt(exp)))
    if s.getRangeCount() != len(exp):
        raise Violation("wrong-range-count", "%s: getRangeCount %d for %s" % (where, s.getRangeCount(), fmt(exp)))
    if s.size() != m.size():
        raise Violation("wrong-size", "%s: size %r, expected %d for %s" % (where, s.size(), m.size(), fmt(exp)))
    for i, (a, b) in enumerate(exp[:6] + exp[-2:] if len(exp) > 8 else exp):
        if len(exp) > 8 and i >= 6:
            i = len(exp) - 8 + i
        if s.getRangeStart(i) != a or s.getRangeEnd(i) != b - 1:
            raise Violation("wrong-range", "%s: range %d is %r..%r, expected %#x..%#x" % (where, i, s.getRangeStart(i), s.getRangeEnd(i), a, b - 1))
    if not deep:
        return
    for c in probes(m, extra):
        e = m.has(c)
        if bool(s.contains(c)) != e or (c in s) != e:
            raise Violation("wrong-membership", "%s: contains(%#x) is %r, expected %r for %s" % (where, c, s.contains(c), e, fmt(exp)))
        ix = m.index(c)
        if s.indexOf(c) != ix:
            raise Violation("wrong-index", "%s: indexOf(%#x) is %r, expected %r for %s" % (where, c, s.indexOf(c), ix, fmt(exp)))
        if ix is not None and s.charAt(ix) != c:
            raise Violation("wrong-charAt", "%s: charAt(%d) is %r, expected %#x for %s" % (where, ix, s.charAt(ix), c, fmt(exp)))
    if m.size() <= 600:
        it = list(s)
        if it != [c for a, b in exp for c in range(a, b)]:
            raise Violation("wrong-iteration", "%s: iteration of %s differs" % (where, fmt(exp)))
    if s.charAt(m.size()) is not None:
        raise Violation("wrong-charAt", "%s: charAt(size) is %r" % (where, s.charAt(m.size())))


def fmt(r):
    return "[" + " ".join("%X-%X" % (a, b - 1) for a, b in r[:12]) + (" ..." if len(r) > 12 else "") + "]"


def show(op):
    return "%s(%s)" % (op[0], ", ".join("%#x" % a if isinstance(a, int) and i > 1 else str(a) for i, a in enumerate(op) if i))


def step(S, op, real, model, where, extra=()):
    """one operation on both; checks its result, the target and operands."""
    new, exp = model_op(op, model)
    got = outcome(real_op, S, op, real)
    if got[0] == "exc":
        raise Violation("exception", "%s: %s raised %s: %s" % (where, show(op), got[1], got[2]))
    kind, val = got[1]
    w = "%s: %s" % (where, show(op))
    t = op[1]
    if kind == "val":
        if val != exp:
            raise Violation("wrong-result", "%s is %r, expected %r for %s" % (w, val, exp, fmt(model[t].ranges())))
        return
    if kind == "self":
        if val is not real[t]:
            raise Violation("not-self", "%s returned %s instead of the set itself" % (w, type(val).__name__))
    else:
        if type(val) is not S:
            raise Violation("not-a-set", "%s returned %s" % (w, type(val).__name__))
        for i, o in enumerate(real):
            if o is val:
                raise Violation("not-new", "%s returned set %d instead of a new one" % (w, i))
        real[t] = val
    model[t] = new


class C07(Scenario):
    prop = "C07"
    quick = 9000
    thorough = 150000
    rule = ("one case = one seeded history of 5-60 public operations on 2-5 sets, every touched set compared with the "
            "mathematical set after every step; non-trivial = at least one set reached 3 ranges and at least 5 updates ran; "
            "distinct = distinct sequences of set states")
    real = ["UnicodeData.UnicodeSet"]
    stubs = []

    def preload(self):
        self.S = warm("UnicodeSet")[0].UnicodeSet

    def gen(self, rng, tier):
        n = rng.randint(2, 5)
        pts = [rng.choice(EDGE)]
        ops = []
        for _ in range(rng.choice([5, 15, 30, 60])):
            ops.append(gen_op(rng, n, pts))
            if rng.random() < 0.015:
                ops += gen_large(rng, n, pts)
        return dict(n=n, ops=ops, sched={"decisions": []})

    def run(self, plan, out):
        S = self.S
        n = plan["n"]
        hist = []
        mx = [0, 0]

        def body():
            real = [S() for _ in range(n)]
            model = [M() for _ in range(n)]
            for k, op in enumerate(plan["ops"]):
                core.progress()
                where = "step %d" % k
                step(S, op, real, model, where)
                m = model[op[1]]
                hist.append(hash(m))
                mx[0] = max(mx[0], len(m.b) // 2)
                mx[1] += op[0] not in ("contains", "contains_r", "indexOf", "charAt", "eq", "iter")
                for i in range(n):
                    check_set(real[i], model[i], where + " after %s, set %d" % (show(op), i), deep=(i == op[1]),
                              extra=[a for a in op[2:] if isinstance(a, int) and 0 <= a < TOP])
                for i in range(n):
                    for j in range(n):
                        same = model[i] == model[j]
                        if (real[i] == real[j]) != same or (real[i] != real[j]) == same:
                            raise Violation("wrong-equality", "%s: sets %d and %d" % (where, i, j))
                    if i and (str(real[i]) == str(real[0])) != (model[i] == model[0]):
                        raise Violation("wrong-string", "%s: sets %d and 0: %s and %s" % (where, i, str(real[i])[:80], str(real[0])[:80]))
        sim = core.Sim(plan["sched"], step_limit=60_000_000)
        out["sim"] = sim
        sim.spawn(body)
        sim.run()
        out["hist"] = H(hist)
        out["states"] = len(set(hist))
        out["nontrivial"] = mx[0] >= 3 and mx[1] >= 5


BAD = [["add", "x"], ["add", None], ["remove", "x"], ["retain", None], ["addRange", 1, "x"], ["addRange", None, 3], ["addRange", "a", "b"],
       ["removeRange", 3, None], ["removeRange", "x", 9], ["retainRange", None, 7], ["retainRange", 2, "y"], ["complementRange", 4, None],
       ["addAll", None], ["addAll", 5], ["removeAll", None], ["retainAll", None], ["retainAll", 7], ["complementAll", None],
       ["complement", "x"], ["complement", [1, 2]], ["contains", "x"], ["contains", None], ["union", None], ["intersection", 3],
       ["difference", None], ["symmetric_difference", "x"], ["__ior__", None], ["__iand__", 3], ["__isub__", None], ["__ixor__", 4],
       ["complementAll", 9], ["removeAll", "x"],
       # arguments that are bad only further on
       ["addAll", [65, 0x2000, "x"]], ["addAll", [[3, 9], [70, None]]], ["__ior__", [0x10FFFF, 0, None]], ["removeAll", [0, 65, "x"]],
       ["__isub__", [1, 2, 70, None]], ["retainAll", [65, "x"]], ["complementAll", [65, 70, "x"]], ["__ixor__", [0, 65, None]],
       ["add", [65, "x"]], ["addAll", {"list": [65, 70, "x"]}], ["removeAll", {"list": [0, 70, None]}], ["retainAll", {"list": [3, 70, "x", 9]}],
       ["complementAll", {"list": [65, 70]}], ["addAll", {"list": [5, 9, 200, 300]}], ["__ior__", {"list": [7, "x"]}]]


def bad_args(a):
    return [types.SimpleNamespace(**x) if isinstance(x, dict) else list(map(lambda y: range(*y) if isinstance(y, list) and None not in y else y, x)) if isinstance(x, list) else x for x in a]


class C08(Scenario):
    prop = "C08"
    quick = 13000
    thorough = 160000
    rule = ("one case = one seeded history of operations on 2-4 sets in which up to 8 operations are struck by an exception "
            "(KeyboardInterrupt, MemoryError, CallbackError) at a seeded point of their execution, or given an argument they reject; "
            "non-trivial = at least one exception struck inside an operation; distinct = distinct event logs")
    real = ["UnicodeData.UnicodeSet"]
    stubs = []

    def preload(self):
        self.S = warm("UnicodeSet")[0].UnicodeSet

    def gen(self, rng, tier):
        n = rng.randint(2, 4)
        pts = [rng.choice(EDGE)]
        ops = [gen_op(rng, n, pts, reads=False) for _ in range(rng.choice([2, 6, 12]))]
        big = False
        if rng.random() < 0.1:
            ops.append(gen_many(rng, rng.randrange(n), pts))
            big = True
        model = [M() for _ in range(n)]

        def follow(op):
            new, _ = model_op(op, model)
            if new is not None:
                model[op[1]] = new
        for op in ops:
            follow(op)
        for _ in range(rng.randint(1, 8)):
            r = rng.random()
            if r < 0.2:
                ops.append(["?", rng.randrange(n)] + rng.choice(BAD))
            else:
                frac = rng.choice([rng.random(), rng.random(), 0.85 + 0.15 * rng.random(), 1.0])
                op = gen_op(rng, n, pts, reads=rng.random() < 0.1) if rng.random() < 0.6 else gen_edge_op(rng, n, model)
                sweep = 30 if rng.random() < 0.4 and not big else 0
                ops.append(["!", op, rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "CallbackError"]), round(frac, 4), sweep])
                if rng.random() < 0.5:
                    follow(op)
            if rng.random() < 0.5:
                ops.append(gen_op(rng, n, pts))
                follow(ops[-1])
        return dict(n=n, ops=ops, gran="line" if big else rng.choice(["line", "line", "instr"]), sched={"decisions": []})

    def run(self, plan, out):
        S = self.S
        n = plan["n"]
        hist = []
        rejected = [0]

        def body():
            sim = core.CURRENT
            real = [S() for _ in range(n)]
            model = [M() for _ in range(n)]
            for k, op in enumerate(plan["ops"]):
                core.progress()
                where = "step %d" % k
                if op[0] == "?":
                    t = op[1]
                    got = outcome(lambda: getattr(real[t], op[2])(*bad_args(op[3:])))
                    rejected[0] += got[0] == "exc"
                    desc = "%s: %s(%s) %s" % (where, op[2], ", ".join(map(repr, op[3:])), "raised " + got[1] if got[0] == "exc" else "accepted")
                    if got[0] != "exc" and op[2] not in ("contains", "union", "intersection", "difference", "symmetric_difference"):
                        # what it means is not specified, but the set must stay well formed
                        g = [(r.start, r.stop) for r in real[t].getRanges()]
                        model[t] = M([x for r in g for x in r])
                    for i in range(n):
                        check_set(real[i], model[i], desc + ", then set %d" % i)
                elif op[0] == "!":
                    if len(op) > 4 and op[4]:
                        self.sweep(S, sim, op[1], op[2], op[4], real, model, where)
                    self.strike(S, sim, op[1], op[2], op[3], real, model, where)
                else:
                    step(S, op, real, model, where)
                    for i in range(n):
                        check_set(real[i], model[i], where + " after %s, set %d" % (show(op), i), deep=(i == op[1]))
                hist.append([len(real[i].getRanges()) for i in range(n)])
        sim = core.Sim(plan["sched"], step_limit=60_000_000)
        out["sim"] = sim
        sim.spawn(body)
        sim.run()
        if rejected[0]:
            sim.fire("rejected-argument", rejected[0])
        out["hist"] = H(hist)
        out["states"] = len({tuple(h) for h in hist})
        out["nontrivial"] = any(sim.fired.get(k) for k in ("KeyboardInterrupt", "MemoryError", "CallbackError"))

    def sweep(self, S, sim, op, exc, limit, real, model, where):
        """strike copies of the sets at each of the points of op, if there are not too many."""
        twin = [S(x) for x in real]
        p = sim.op_points()
        r = outcome(real_op, S, op, twin)
        total = sim.op_points() - p
        if r[0] == "exc":
            return
        step = max(1, total // limit)
        for at in range(1 + (total % step), total + 1, step):
            self.strike(S, sim, op, exc, at / max(1, total), [S(x) for x in real], list(model), where)

    def strike(self, S, sim, op, exc, frac, real, model, where):
        twin = [S(x) for x in real]
        p = sim.op_points()
        r = outcome(real_op, S, op, twin)
        total = max(1, sim.op_points() - p)
        if r[0] == "exc":
            raise Violation("exception", "%s: %s raised %s: %s" % (where, show(op), r[1], r[2]))
        at = max(1, min(total, int(frac * total + 0.999)))
        new, _ = model_op(op, model)
        t = op[1]
        desc = "%s: %s struck by %s at point %d of %d" % (where, show(op), exc, at, total)
        sim.set_injection(at, core.EXC[exc], exc)
        try:
            try:
                kind, val = real_op(S, op, real)
                done = True
            finally:
                sim.clear_injection()
        except (core.SimAbort, Violation):
            raise
        except BaseException as e:
            done = False
            if type(e).__name__ != exc:
                # it may be translated, but then it must still be an exception: it is
                desc += " (seen as %s)" % type(e).__name__
        if done:
            if kind == "new":
                real[t] = val
            if new is not None:
                # an operation that swallows the exception must have completed
                check_set(real[t], new, desc + ", but it returned; set %d" % t)
                model[t] = new
        elif new is not None:
            got = M([x for r in real[t].getRanges() for x in (r.start, r.stop)])
            want = new if got == new and new != model[t] else model[t]
            try:
                check_set(real[t], want, desc)
            except Violation as v:
                raise Violation("torn-set", "%s: neither %s (before) nor %s (after): %s" % (desc, fmt(model[t].ranges()), fmt(new.ranges()), v.detail[-300:]))
            model[t] = want
        for i in range(len(real)):
            check_set(real[i], model[i], desc + ", then set %d" % i)


class C09(Scenario):
    prop = "C09"
    quick = 8000
    thorough = 90000
    rule = ("one case = 2-4 threads under a seeded schedule, each deriving from 1-3 shared sets and updating only its own, with "
            "suspended iterations over shared sets and changes to returned lists; every result compared with a lone thread's; "
            "non-trivial = at least 10 context switches inside operations; distinct = distinct interleavings with their histories")
    real = ["UnicodeData.UnicodeSet"]
    stubs = []

    def preload(self):
        self.S = warm("UnicodeSet")[0].UnicodeSet

    def gen(self, rng, tier):
        ns, no = rng.randint(1, 3), rng.randint(1, 3)
        pts = [rng.choice(EDGE), 5, 17]
        setup = [gen_op(rng, ns, pts, reads=False) for _ in range(rng.choice([2, 6, 12]))]
        if rng.random() < 0.2:
            setup.append(gen_many(rng, rng.randrange(ns), pts, rng.choice([None, 10, 16, 24])))
        tasks = []
        for _ in range(rng.randint(2, 4)):
            ops = []
            own = list(range(ns, ns + no))
            allsets = list(range(ns + no))
            shared = list(range(ns))
            for _ in range(rng.choice([3, 6, 12])):
                r = rng.random()
                if r < 0.12:
                    ops.append(["susp", rng.randrange(3), rng.choice(shared)])
                elif r < 0.3:
                    ops.append(["next", rng.randrange(3), rng.choice([1, 2, 7, 40])])
                elif r < 0.36:
                    ops.append(["mutret", rng.choice(allsets), rng.choice(["clear", "append", "reverse"])])
                elif r < 0.42:
                    ops.append(["full", rng.choice(allsets)])
                elif r < 0.5:
                    ops.append([rng.choice(DERIVE), rng.choice(own), rng.choice(shared), rng.choice(shared)])
                else:
                    ops.append(gen_op(rng, ns + no, pts, targets=own, operands=allsets))
            tasks.append(ops)
        return dict(ns=ns, no=no, setup=setup, tasks=tasks, gran=rng.choice(["line", "line", "line", "instr"]), sched=sched_for(rng, tasks))

    def run(self, plan, out):
        S = self.S
        ns, no = plan["ns"], plan["no"]
        shared = [S() for _ in range(ns)]
        smodel = [M() for _ in range(ns)]
        for k, op in enumerate(plan["setup"]):
            step(S, op, shared, smodel, "setup %d" % k)
        for i in range(ns):
            check_set(shared[i], smodel[i], "setup, set %d" % i)
        hist = []

        def body(tid, ops):
            real = shared + [S() for _ in range(no)]
            model = smodel + [M() for _ in range(no)]
            its = {}
            for k, op in enumerate(ops):
                core.progress()
                where = "thread %d step %d" % (tid, k)
                if op[0] == "susp":
                    its[op[1]] = [iter(real[op[2]]), model[op[2]], 0, op[2]]
                elif op[0] == "next":
                    if op[1] in its:
                        it = its[op[1]]
                        for _ in range(op[2]):
                            r = outcome(next, it[0])
                            exp = it[1].at(it[2])
                            if exp is None:
                                if r[:2] != ("exc", "StopIteration"):
                                    raise Violation("wrong-iteration", "%s: suspended iteration of set %d gave %r after its end" % (where, it[3], r))
                                break
                            if r != ("ok", exp):
                                raise Violation("wrong-iteration", "%s: suspended iteration of shared set %d gave %r, expected %#x" % (where, it[3], r, exp))
                            it[2] += 1
                elif op[0] == "mutret":
                    r = real[op[1]].getRanges()
                    if op[2] == "clear":
                        del r[:]
                    elif op[2] == "append":
                        r.append(range(3, 9))
                    else:
                        r.reverse()
                    check_set(real[op[1]], model[op[1]], where + " after changing the list getRanges returned, set %d" % op[1], deep=False)
                elif op[0] == "full":
                    check_set(real[op[1]], model[op[1]], where + " set %d" % op[1])
                else:
                    step(S, op, real, model, where)
                    check_set(real[op[1]], model[op[1]], where + " after %s, set %d" % (show(op), op[1]), deep=False)
                    for i in range(ns):
                        if real[i] is not shared[i]:
                            raise Violation("harness", "shared slot changed")
                hist.append((tid, k))
            for i in range(len(real)):
                check_set(real[i], model[i], "thread %d at its end, set %d" % (tid, i))
        sim = core.Sim(plan["sched"], step_limit=60_000_000)
        out["sim"] = sim
        for tid, ops in enumerate(plan["tasks"]):
            sim.spawn(lambda tid=tid, ops=ops: body(tid, ops))
        sim.run()
        for i in range(ns):
            check_set(shared[i], smodel[i], "shared set %d at the end" % i)
        out["hist"] = H(hist)
        out["nontrivial"] = sim.switches >= 10


SCENARIOS = {"C07": C07, "C08": C08, "C09": C09}
