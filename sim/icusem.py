"""Synthetic ICU trees whose tables mean something.

SemTree(spec) is an icutree.Tree in which the tries, tables, constants and the data
file hold a made-up but consistent set of properties. ask(rng) gives a question to
the installed package and want(question) the answer, from the description that the
tables were encoded from (the formats as in ICU's uprops.h, ubidi_props.h, ucase.h).

A spec is "seed" or "seed,part=seed,...": parts of one tree taken from another.
"""
import random

from . import dataset, icutree
from . import icudata as I
from .icutree import array, banner, trie_fields, TRIE

GC = "Cn Lu Ll Lt Lm Lo Mn Me Mc Nd Nl No Zs Zl Zp Cc Cf Co Cs Pd Ps Pe Pc Po Sm Sc Sk So Pi Pf".split()
PARTS = ("bidi", "chars", "case", "hdr", "nfc", "rest")

BINARY = """WHITE_SPACE DASH HYPHEN QUOTATION_MARK TERMINAL_PUNCTUATION MATH HEX_DIGIT ASCII_HEX_DIGIT ALPHABETIC IDEOGRAPHIC DIACRITIC EXTENDER
NONCHARACTER_CODE_POINT GRAPHEME_EXTEND GRAPHEME_LINK IDS_BINARY_OPERATOR IDS_TRINARY_OPERATOR RADICAL UNIFIED_IDEOGRAPH DEFAULT_IGNORABLE_CODE_POINT
DEPRECATED LOGICAL_ORDER_EXCEPTION XID_START XID_CONTINUE ID_START ID_CONTINUE GRAPHEME_BASE S_TERM VARIATION_SELECTOR PATTERN_SYNTAX
PATTERN_WHITE_SPACE PREPENDED_CONCATENATION_MARK""".split()
EMOJI = {"EXTENDED_PICTOGRAPHIC": "isExtendedPictograph", "EMOJI_COMPONENT": "isEmojiComponent", "EMOJI": "isEmoji",
         "EMOJI_PRESENTATION": "isEmojiPresentation", "EMOJI_MODIFIER": "isEmojiModifier", "EMOJI_MODIFIER_BASE": "isEmojiModifierBase"}
NTV = {"NONE": 0, "DECIMAL_START": 1, "DIGIT_START": 11, "NUMERIC_START": 21, "FRACTION_START": 0xb0, "LARGE_START": 0x1e0, "BASE60_START": 0x300,
       "FRACTION20_START": 0x324, "FRACTION32_START": 0x34c, "RESERVED_START": 0x35c}
FIXED = {"U_NT_NONE": 0, "U_NT_DECIMAL": 1, "U_NT_DIGIT": 2, "U_NT_NUMERIC": 3, "U_JG_NO_JOINING_GROUP": 0,
         "USCRIPT_COMMON": 0, "USCRIPT_INHERITED": 1, "USCRIPT_INVALID_CODE": -1}


def overlay(base, points):
    """the RangeMap with other values at single code points."""
    br = list(zip(base.starts, base.values))
    for c, v in points.items():
        br.append((c, v))
        if c < 0x10FFFF and c + 1 not in points:
            br.append((c + 1, base.get(c + 1)))
    # the breaks of the base first, then those of the points
    d = {}
    for s, v in br[:len(base.starts)]:
        d[s] = v
    for s, v in br[len(base.starts):]:
        if s in d and s not in points:
            continue
        d[s] = v
    return I.RangeMap(sorted(d.items()))


def spread(rng, pick, n=None, zero=True):
    """a RangeMap with a plausible layout; values from pick()."""
    shape, _ = I.random_range_map(rng, 255, n if n is not None else rng.choice([2, 8, 16, 40, 90]))
    vals = [pick() for _ in range(rng.choice([3, 6, 12, 30]))]
    return I.RangeMap([(s, 0 if zero and rng.random() < 0.3 else rng.choice(vals)) for s in shape.starts])


def trie_text(r, index, ref):
    """text of the index array, text of the fields, expected values."""
    t = I.build_utrie2(ref, 0)
    s, vals = array(r, index, "uint16_t", None, 16, None, t["index"])
    f, v = trie_fields(r, index, "    ", {3: t["indexLength"], 5: t["index2NullOffset"], 6: t["dataNullOffset"], 9: t["highStart"], 10: t["highValueIndex"]})
    return s, vals, f, v


class Num:
    """numeric type and value: how it is stored, what it is."""

    def __init__(self, rng, gc):
        k = rng.random()
        if gc == "Nd" or (gc in ("No", "Lo") and k < 0.2):
            d = rng.randrange(10)
            self.ntv, self.value, self.type, self.digit = 1 + d, d, 1, d
        elif gc in ("No", "Nl", "Lo") and k < 0.95 or k < 0.15:
            self.type, self.digit = 3, -1
            k = rng.randrange(7)
            if k == 0:
                d = rng.randrange(10)
                self.ntv, self.value, self.type = 11 + d, d, 2
            elif k == 1:
                n = rng.randrange(0xb0 - 21)
                self.ntv, self.value = 21 + n, n
            elif k == 2:
                n, d = rng.randrange(-1, 18), rng.randrange(1, 17)
                self.ntv, self.value = ((n + 12) << 4) + d - 1, n / d
            elif k == 3:
                m, e = rng.randrange(1, 10), rng.randrange(2, 34)
                self.ntv, self.value = ((m + 14) << 5) + e - 2, m * 10 ** e
            elif k == 4:
                m, e = rng.randrange(1, 10), rng.randrange(1, 5)
                self.ntv, self.value = ((m + 0xbf) << 2) + e - 1, m * 60 ** e
            elif k == 5:
                i, n = rng.randrange(6), rng.randrange(4)
                self.ntv, self.value = 0x324 + (i << 2 | n), (2 * n + 1) / (20 << i)
            else:
                i, n = rng.randrange(4), rng.randrange(4)
                self.ntv, self.value = 0x34c + (i << 2 | n), (2 * n + 1) / (32 << i)
        else:
            self.ntv, self.value, self.type, self.digit = 0, None, 0, -1


class SemTree(icutree.Tree):
    fixed = FIXED
    more_rows = {"nt": [("De", "Decimal", "U_NT_DECIMAL"), ("Di", "Digit", "U_NT_DIGIT"), ("None", "None", "U_NT_NONE"), ("Nu", "Numeric", "U_NT_NUMERIC")],
                 "jg": [("No_Joining_Group", "No_Joining_Group", "U_JG_NO_JOINING_GROUP")],
                 "sc": [("Zyyy", "Common", "USCRIPT_COMMON"), ("Zinh", "Inherited", "USCRIPT_INHERITED")]}
    more_consts = {"sc": ["USCRIPT_INVALID_CODE"]}

    def __init__(self, spec):
        head, *rest = spec.split(",")
        over = dict(x.split("=") for x in rest)
        self.rngs = {p: random.Random("%s/%s" % (p, over.get(p, head).rstrip("+"))) for p in PARTS}
        self.part_seed = {p: over.get(p, head) for p in PARTS}
        # the bits of the words are named by uprops.h, so they belong to the tables
        self.fixed = dict(FIXED)
        super().__init__("sem-" + over.get("top", head))
        del self.rngs

    def part(self, name, fn):
        keep, self.rng = self.rng, self.rngs[name]
        try:
            return fn()
        finally:
            self.rng = keep

    # ---- bidi

    def bidi(self):
        self.part("bidi", self._bidi)

    def _bidi(self):
        r = self.rng
        desc = {0: dict(cls=0, jt=0, bpt=0, jc=0, bc=0, mir=0, delta=0)}

        def word(**k):
            d = dict(cls=r.randrange(23), jt=r.randrange(6), bpt=0, jc=int(r.random() < 0.1), bc=int(r.random() < 0.1), mir=int(r.random() < 0.2), delta=0)
            d.update(k)
            w = d["cls"] | d["jt"] << 5 | d["bpt"] << 8 | d["jc"] << 10 | d["bc"] << 11 | d["mir"] << 12 | (d["delta"] & 7) << 13
            desc[w] = d
            return w
        base = spread(r, word)
        pts, far = {}, {}
        n = r.choice([0, 2, 6, 20, 20, 150])
        for _ in range(n):
            c = r.choice([0x28, 0x5B, 0xBB, 0x2208, 0x2A3C, 0x27E6, 0x10FFF0, r.randrange(0x110000), r.randrange(0x3000)]) + r.randrange(6)
            if n > 20:
                c = r.randrange(0x110000)
            near = r.random() < (0.2 if n > 20 else 0.5)
            d = r.choice([1, 2, 3]) if near else r.choice([4, 7, 100, 2000, 0x8000, 0x20000])
            e = c + d
            if e > 0x10FFFF or c in pts or e in pts:
                continue
            b = r.choice([(1, 2), (0, 0), (2, 1)])
            pts[c] = word(mir=1, bpt=b[0], delta=d if near else -4)
            pts[e] = word(mir=1, bpt=b[1], delta=-d if near else -4)
            if not near:
                far[c], far[e] = e, c
        for _ in range(r.choice([0, 0, 1, 3])):         # far, but not in the table: itself
            c = r.randrange(0x110000)
            if c not in pts:
                pts[c] = word(mir=1, bpt=r.randrange(3), delta=-4)
        order = sorted(far)
        mirrors = [c | order.index(far[c]) << 21 for c in order] or [0x10FFFF]
        self.b_ref, self.b_desc, self.b_far = overlay(base, pts), desc, far
        self.b_pts = sorted(pts)
        jg, ix = [], [r.randrange(1 << 16) for _ in range(16)]
        at = r.choice([0x620, 0x600, 0x7FF, r.randrange(0x2000)])
        for k in (0, 1):
            n = r.choice([1, 3, 40, 200])
            jg.append([r.randrange(104) for _ in range(n)])
            ix[4 + 2 * k], ix[5 + 2 * k] = at, at + n
            at = max(at + n + r.choice([0, 1, 500]), r.choice([0, 0x10AC0]))
        self.jg = [(ix[4], jg[0]), (ix[6], jg[1])]
        e = {"ubidi_props_indexes": ix, "ubidi_props_mirrors": mirrors, "ubidi_props_jgArray": jg[0], "ubidi_props_jgArray2": jg[1]}
        t = banner(r, "ubidi_props_data.h", "bidipropsbuilder.cpp") + "#ifdef INCLUDED_FROM_UBIDI_PROPS_C\n\nstatic const UVersionInfo ubidi_props_dataVersion={0xe,0,0,0};\n\n"
        s, vals, f, v = trie_text(r, "ubidi_props_trieIndex", self.b_ref)
        e["ubidi_props_trieIndex"] = vals
        t += array(r, "ubidi_props_indexes", "int32_t", None, 16, "UBIDI_IX_TOP", ix)[0] + "\n" + s + "\n"
        for n, ct in (("ubidi_props_mirrors", "uint32_t"), ("ubidi_props_jgArray", "uint8_t"), ("ubidi_props_jgArray2", "uint8_t")):
            t += array(r, n, ct, None, 16, None, e[n])[0] + "\n"
        t += "static const UBiDiProps ubidi_props_singleton={\n  NULL,\n  ubidi_props_indexes,\n  ubidi_props_mirrors,\n  ubidi_props_jgArray,\n  ubidi_props_jgArray2,\n  {\n" + f
        t += "\n  },\n  { 2,2,0,0 }\n};\n\n#endif  // INCLUDED_FROM_UBIDI_PROPS_C\n"
        for i, n in TRIE.items():
            e["ubidi_props_trie_" + n] = v[i]
        self.files["source/common/ubidi_props_data.h"] = t.encode()
        self.expect["BidiPropsData.py"] = e

    # ---- characters

    def chars(self):
        self.part("chars", self._chars)

    def layout(self):
        """where the bits are; ICU has moved them before."""
        r = self.rng
        moved = r.random() < 0.3

        def place(fields, at):
            names = list(fields)
            if moved:
                r.shuffle(names)
            out = {}
            for n in names:
                out[n] = (at, fields[n])
                at += fields[n]
            return out
        f0 = place({"BLOCK": 9, "EA": 3}, 8)
        f2 = place({"GCB": 5, "WB": 5, "SB": 5, "LB": 6}, 5)
        bits, emo = list(range(32)), list(range(26, 32))
        if moved:
            r.shuffle(bits)
            r.shuffle(emo)
        self.b1 = dict(zip(BINARY, bits))
        self.b2 = dict(zip(EMOJI, emo))
        self.f0, self.f2 = f0, f2
        c = self.consts = {"UPROPS_NUMERIC_TYPE_VALUE_SHIFT": 6, "UPROPS_VECTOR_WORDS": 3, "UPROPS_AGE_MASK": 0xff000000, "UPROPS_AGE_SHIFT": 24,
                           "UPROPS_SCRIPT_X_MASK": 0x00f000ff, "UPROPS_SCRIPT_X_SHIFT": 22, "UPROPS_SCRIPT_HIGH_MASK": 0x00300000, "UPROPS_SCRIPT_HIGH_SHIFT": 12,
                           "UPROPS_MAX_SCRIPT": 0x3ff, "UPROPS_SCRIPT_LOW_MASK": 0xff, "UPROPS_SCRIPT_X_WITH_COMMON": 0x400000,
                           "UPROPS_SCRIPT_X_WITH_INHERITED": 0x800000, "UPROPS_SCRIPT_X_WITH_OTHER": 0xc00000, "UPROPS_DT_MASK": 0x1f}
        for n, (at, w) in list(f0.items()) + list(f2.items()):
            c["UPROPS_%s_SHIFT" % n] = at
            c["UPROPS_%s_MASK" % n] = ((1 << w) - 1) << at
        for n, b in self.b1.items():
            c["UPROPS_" + n] = b
        c["UPROPS_BINARY_1_TOP"] = 32
        for n, b in self.b2.items():
            c["UPROPS_2_" + n] = b
        for n, v in NTV.items():
            c["UPROPS_NTV_" + n] = v
        self.fixed.update(c)

    def _chars(self):
        r = self.rng
        self.layout()
        desc = {0: ("Cn", Num(random.Random(0), "Cn"))}

        def word(gc=None):
            gc = gc or (r.choice(GC) if r.random() < 0.7 else r.choice(["Nd", "No", "Nl", "Lo", "Ll", "Lu"]))
            n = Num(r, gc)
            w = GC.index(gc) | n.ntv << 6
            desc[w] = (gc, n)
            return w
        pts = {}
        for c in (0, 9, 0x1F, 0x20, 0x41, 0x7F, 0x85, 0x9F, 0xA0, 0x2007, 0x202F, 0xFF21, 0xFF46, 0x10FFFF):
            if r.random() < 0.5:
                pts[c] = word()
        for _ in range(r.choice([3, 10, 30])):
            pts[r.choice([r.randrange(0x110000), r.randrange(0x300)])] = word()
        for c in (0xA0, 0x2007, 0x202F):
            if r.random() < 0.3:
                pts[c] = word("Zs")
        self.p_ref, self.p_desc, self.p_pts = overlay(spread(r, word), pts), desc, sorted(pts)
        nscx = r.choice([1, 5, 60, 300])
        self.scx = [r.randrange(200) for _ in range(nscx)]
        rows = []
        for k in range(r.choice([1, 4, 12, 40])):
            d = dict(age=(r.randrange(16), r.randrange(16)), DT=r.randrange(18), b1=r.getrandbits(32) if k else 0, b2=r.getrandbits(6))
            d["how"] = r.choice(["is", "is", "common", "inherited", "other"])
            top = min(1 << 10, nscx) if d["how"] == "other" else 1 << 10
            d["code"] = r.randrange(top) if r.random() < 0.5 else r.randrange(min(200, top))
            for n, (at, w) in list(self.f0.items()) + list(self.f2.items()):
                d[n] = r.randrange(1 << w)
            w0 = (d["age"][0] << 4 | d["age"][1]) << 24 | {"is": 0, "common": 0x400000, "inherited": 0x800000, "other": 0xc00000}[d["how"]]
            w0 |= (d["code"] & 0xFF) | (d["code"] >> 8) << 20
            w1 = 0
            for i, n in enumerate(BINARY):
                w1 |= (d["b1"] >> i & 1) << self.b1[n]
            w2 = d["DT"]
            for i, n in enumerate(EMOJI):
                w2 |= (d["b2"] >> i & 1) << self.b2[n]
            for n, (at, w) in self.f0.items():
                w0 |= d[n] << at
            for n, (at, w) in self.f2.items():
                w2 |= d[n] << at
            d["words"] = [w0, w1, w2]
            rows.append(d)
        if "+" in self.part_seed["chars"] and len(rows) > 1:        # the same but for two rows changed over
            rows[0], rows[-1] = rows[-1], rows[0]
        self.v_rows = rows
        self.v_ref = spread(r, lambda: 3 * r.randrange(len(rows)))
        t = banner(r, "uchar_props_data.h", "corepropsbuilder.cpp") + "#ifdef INCLUDED_FROM_UCHAR_C\n\nstatic const UVersionInfo dataVersion={0xe,0,0,0};\n\n"
        e = {}
        for trie, ref in (("propsTrie", self.p_ref), ("propsVectorsTrie", self.v_ref)):
            s, e[trie + "_index"], f, v = trie_text(r, trie + "_index", ref)
            t += s + "\nstatic const UTrie2 %s={\n" % trie + f + "\n};\n\n"
            for i, n in TRIE.items():
                e[trie + "_" + n] = v[i]
        e["propsVectors"] = [w for d in rows for w in d["words"]]
        t += array(r, "propsVectors", "uint32_t", None, 32, None, e["propsVectors"])[0] + "\n"
        e["propsVectorsColumns"] = 3
        t += "static const int32_t countPropsVectors=%d;\nstatic const int32_t propsVectorsColumns=3;\n" % len(e["propsVectors"])
        e["scriptExtensions"] = self.scx
        t += array(r, "scriptExtensions", "uint16_t", None, 16, None, self.scx)[0] + "\n"
        t += array(r, "indexes", "int32_t", 16, 16, "UPROPS_INDEX_COUNT")[0] + "\n#endif  // INCLUDED_FROM_UCHAR_C\n"
        self.files["source/common/uchar_props_data.h"] = t.encode()
        self.expect["CharPropsData.py"] = e

    # ---- case

    def case(self):
        self.part("case", self._case)

    def _case(self):
        r = self.rng
        exc = []
        self.c_exc = {}

        def flags():
            return r.randrange(4) | r.choice([0, 0, 4]) | r.choice([0, 0x10])

        def plain(c=None):
            k = flags()
            if c is None and r.random() < 0.6:
                return k & 0x14
            d = r.choice([0, 1, -1, 32, -32, 255, -256, r.randrange(-256, 256)])
            if c is not None and not 0 <= c + d <= 0x10FFFF:
                d = 0
            if c is None and d:         # for a whole range: must fit everywhere; only small maps
                d = 0
            return k | r.randrange(4) << 5 | (d & 0x1FF) << 7

        def special(cond=None):
            """an exception; returns the word of the trie, or None when the table is full."""
            at = len(exc)
            if at > 4000:
                return None
            kind = flags()
            slots = {}
            big = r.random() < 0.3
            val = lambda: r.randrange(0x110000) if big else r.randrange(0x10000)
            neg = False
            for i in (0, 1, 2, 3):
                if r.random() < 0.45:
                    slots[i] = val()
            if r.random() < 0.25:
                slots[4] = 0         # filled in by the caller, who knows the character
            if r.random() < 0.2:
                slots[6] = r.randrange(16)
            full = None
            if r.random() < 0.45:
                full = ["".join(chr(r.choice([r.randrange(0x20, 0xD800), r.randrange(0x41, 0x5B), 0x307, r.randrange(0xE000, 0x10000)]))
                                for _ in range(r.choice([0, 0, 1, 2, 3, 3, 15]))) for _ in range(4)]
                slots[7] = sum(len(s) << 4 * i for i, s in enumerate(full))
            return [kind, slots, full, cond if cond is not None else r.random() < 0.1, big or r.random() < 0.15, neg]

        def put(c, x):
            kind, slots, full, cond, double, neg = x
            if 4 in slots:
                d = r.choice([1, 48, 7264, 35332, 42280, 0x9000, c, 0x10FFFF - c])
                neg = r.random() < 0.5
                if not 0 <= (c - d if neg else c + d) <= 0x10FFFF:
                    neg = not neg
                if not 0 <= (c - d if neg else c + d) <= 0x10FFFF:
                    d = 0
                if d > 0xFFFF:
                    double = True
                slots[4] = d
            if any(v > 0xFFFF for v in slots.values()):
                double = True
            at = len(exc)
            w = sum(1 << i for i in slots) | (0x100 if double else 0) | (0x400 if neg else 0) | (0x4000 if cond else 0) | r.choice([0, 0x200, 0x800, 0x8000, 0x1000])
            exc.append(w)
            for i in sorted(slots):
                if double:
                    exc.append(slots[i] >> 16)
                exc.append(slots[i] & 0xFFFF)
            if 6 in slots or full:
                pass
            # the closure string comes after the full mappings, nothing here reads it
            for s in full or ():
                exc.extend(ord(ch) for ch in s)
            exc.extend(r.randrange(0x10000) for _ in range(slots.get(6, 0)))
            word = kind & 7 | 8 | at << 4
            self.c_exc[word] = (kind & 3, slots, full, bool(cond), neg)
            return word
        pts = {}
        cps = [0x41, 0x61, 0xDF, 0x130, 0x131, 0x1C5, 0x3A3, 0x587, 0x10A0, 0x1E9E, 0xFB00, 0x10400, 0x1E943, 0x10FFFF, 0]
        cps = [c for c in cps if r.random() < 0.6] + [r.choice([r.randrange(0x110000), r.randrange(0x600), r.randrange(0x10000, 0x20000)]) for _ in range(r.choice([2, 10, 40, 120]))]
        r.shuffle(cps)
        for c in cps:
            if c in pts:
                continue
            if r.random() < 0.45:
                pts[c] = plain(c)
            else:
                x = special(True if c in (0x130, 0x587) and r.random() < 0.7 else None)
                if x is None:
                    break
                pts[c] = put(c, x)
        base = spread(r, plain, r.choice([0, 4, 16]))
        # ranges of letters with one delta
        extra = {}
        for _ in range(r.choice([0, 1, 3])):
            s, n, d = r.choice([0x41, 0x410, 0x10400, 0x1E900]), r.randrange(2, 40), r.choice([32, 40, 80, -32])
            w = r.choice([1, 2, 3]) | 0x10 | (d & 0x1FF) << 7
            for c in range(s, s + n):
                if c not in pts and 0 <= c + d:
                    extra[c] = w
        pts.update(extra)
        self.c_ref, self.c_pts = overlay(base, pts), sorted(pts)
        e = {"ucase_props_indexes": [r.randrange(1 << 16) for _ in range(16)], "ucase_props_exceptions": exc or [0],
             "ucase_props_unfold": [r.randrange(1 << 16) for _ in range(r.randrange(1, 60))]}
        t = banner(r, "ucase_props_data.h", "casepropsbuilder.cpp") + "#ifdef INCLUDED_FROM_UCASE_CPP\n\nstatic const UVersionInfo ucase_props_dataVersion={0xe,0,0,0};\n\n"
        s, e["ucase_props_trieIndex"], f, v = trie_text(r, "ucase_props_trieIndex", self.c_ref)
        t += array(r, "ucase_props_indexes", "int32_t", None, 16, "UCASE_IX_TOP", e["ucase_props_indexes"])[0] + "\n" + s + "\n"
        for n in ("ucase_props_exceptions", "ucase_props_unfold"):
            t += array(r, n, "uint16_t", None, 16, None, e[n])[0] + "\n"
        t += "static const UCaseProps ucase_props_singleton={\n  NULL,\n  ucase_props_indexes,\n  ucase_props_exceptions,\n  ucase_props_unfold,\n  {\n" + f
        t += "\n  },\n  { 4,0,0,0 }\n};\n\n#endif  // INCLUDED_FROM_UCASE_CPP\n"
        for i, n in TRIE.items():
            e["ucase_props_trie_" + n] = v[i]
        self.files["source/common/ucase_props_data.h"] = t.encode()
        self.expect["CasePropsData.py"] = e

    # ---- canonical decompositions

    def nfc(self):
        r = self.rngs["nfc"]
        self.n_model, _ = I.random_norm(r, fast=True)
        t = self.n_model.tables
        trie = dict(t["trie"])
        self.norm2(r, trie, t["indexes"], t["extra"], 1)

    # ---- headers and the rest

    def headers(self):
        self.part("hdr", super().headers)

    def uprops(self):
        r = self.rng
        groups = [[n for n in self.consts if n.startswith("UPROPS_NTV_")], ["UPROPS_" + n for n in sorted(BINARY, key=self.b1.get)] + ["UPROPS_BINARY_1_TOP"],
                  ["UPROPS_2_" + n for n in sorted(EMOJI, key=self.b2.get)]]
        rest = [n for n in self.consts if not any(n in g for g in groups)]
        defs, e = [], {}
        if r.random() < 0.5:
            for n in rest:
                defs.append("#define %s %s%s\n" % (n, icutree.num(r, self.consts[n]), r.choice(["", "", "  // %s" % n.lower(), " /* see above */"])))
            self.late = {n: self.consts[n] for n in rest}
        else:
            groups.append(rest)
            self.late = {}
        return [("UPropsE%d" % i, g) for i, g in enumerate(groups)], defs

    def header(self, path, enums, extra=(), more=()):
        if path == "uprops.h":
            super().header(path, enums, extra)
            self.expect["uprops_h.py"].update(self.late)
        else:
            super().header(path, enums, extra, more)

    def rest(self):
        self.part("rest", super().rest)

    def blob(self):
        self.ds = dataset.get("%s-%d" % (self.part_seed["rest"].split("-")[0], self.rng.randrange(8)))
        return self.ds.blob

    # ---- questions and answers

    def cp(self, r, ref, pts):
        k = r.random()
        if pts and k < 0.5:
            return min(max(r.choice(pts) + r.choice([0, 0, 0, 0, 1, -1]), 0), 0x10FFFF)
        if k < 0.85:
            return min(max(r.choice(ref.starts) + r.choice([0, 0, -1, 1, 31, 32]), 0), 0x10FFFF)
        return r.choice([0, 0x41, 0x7F, 0x85, 0x9F, 0xA0, 0xD800, 0xDBFF, 0xDC00, 0xFFFF, 0x10000, 0x10FFFF, r.randrange(0x110000), r.randrange(0x3000)])

    def questions(self, r):
        """one question for every function."""
        out = [["version"], ["dict"]]
        for f in CHAR_FNS:
            out.append(["CharProps", f, self.cp(r, self.p_ref, self.p_pts)])
        for f in EDGES:
            for _ in range(3):
                c = r.choice(EDGES[f])
                out.append(["CharProps", f, max(0, c + r.choice([0, 0, 1, -1]))])
        for f in list(VEC_FNS) + ["getAge", "getScript", "isAlphabetic", "isUWhiteSpace", "isalnumPOSIX"] + list(EMOJI.values()):
            out.append(["CharProps", f, self.cp(r, self.v_ref, None)])
        out.append(["CharProps", "getScript", r.choice([0x110000, 0x10FFFF])])
        for _ in range(2):
            out.append(["bin", self.cp(r, self.v_ref, None), r.choice(BINARY)])
            out.append(["col", self.cp(r, self.v_ref, None), r.choice([0, 1, 2, 2, 3, 4])])
        for f in BIDI_FNS:
            out.append(["BidiProps", f, self.cp(r, self.b_ref, self.b_pts)])
        out.append(["BidiProps", "getJoiningGroup", self.jgcp(r)])
        for f in NFC_FNS:
            out.append(["Normalizer2", f, self.nfccp(r)])
            out.append(["Normalizer2", f, self.nfccp(r)])
        for f in CASE_FNS:
            out.append(["CaseProps", f, self.cp(r, self.c_ref, self.c_pts)])
        a, b = sorted((self.cp(r, self.p_ref, self.p_pts), self.cp(r, self.p_ref, None)))
        out.append(["enum", r.choice(["CharProps.propsTrie", "CharProps.propsVectorTrie", "BidiProps.bidiPropsTrie", "CaseProps.casePropsTrie"]),
                    *r.choice([(0, 0x110000), (a, b + 1), (a & ~31, b | 31)])])
        return out

    def nfccp(self, r):
        m = self.n_model
        if r.random() < 0.6:
            return min(max(r.choice(list(m.full)) + r.choice([0, 0, 0, 0, 1, -1]), 0), 0x10FFFF)
        return r.choice([0x41, 0xC0, 0x212B, 0xAC00, 0xAC01, 0xAC00 + r.randrange(11172), 0xD800, 0x10FFFF, r.randrange(0x3000), r.randrange(0x110000)])

    def jgcp(self, r):
        s, a = r.choice(self.jg)
        return r.choice([s - 1, s, s + 1, s + len(a) - 1, s + len(a), s + r.randrange(len(a))]) % 0x110000

    def want(self, q):
        if q[0] == "version":
            return self.ucd
        if q[0] == "bin":
            return bool(self.row(q[1])["b1"] >> BINARY.index(q[2]) & 1)
        if q[0] == "col":
            return self.row(q[1])["words"][q[2]] if q[2] < 3 else 0
        if q[0] == "enum":
            ref = {"CharProps.propsTrie": self.p_ref, "CharProps.propsVectorTrie": self.v_ref, "BidiProps.bidiPropsTrie": self.b_ref, "CaseProps.casePropsTrie": self.c_ref}[q[1]]
            return [(s, e, v) for s, e, v in ref.ranges(q[2], q[3])]
        f, c = q[1], q[2]
        if f in NFC_FNS:
            return self.n_model.decomposition(c) if f == "getDecomposition" else self.n_model.raw_decomposition(c)
        if f in CHAR_FNS:
            gc, num = self.p_desc[self.p_ref.get(c)]
            return CHAR_FNS[f](c, gc, num)
        if f in BIDI_FNS:
            return self.bidi_answer(f, c)
        if f in CASE_FNS:
            return self.case_answer(f, c)
        if f == "getScript":
            if c > 0x10FFFF:
                return -1
            d = self.row(c)
            return {"is": d["code"], "common": 0, "inherited": 1, "other": self.scx[d["code"]] if d["how"] == "other" else None}[d["how"]]
        d = self.row(c)
        if f == "getAge":
            return [d["age"][0], d["age"][1], 0, 0]
        if f in VEC_FNS:
            return d[VEC_FNS[f]]
        if f == "isalnumPOSIX":
            return self.binary(d, "ALPHABETIC") or self.p_desc[self.p_ref.get(c)][0] == "Nd"
        if f in ("isAlphabetic", "isUWhiteSpace"):
            return self.binary(d, {"isAlphabetic": "ALPHABETIC", "isUWhiteSpace": "WHITE_SPACE"}[f])
        i = list(EMOJI.values()).index(f)
        return bool(d["b2"] >> i & 1)

    def binary(self, d, name):
        return bool(d["b1"] >> BINARY.index(name) & 1)

    def row(self, c):
        return self.v_rows[self.v_ref.get(c) // 3]

    def mirror(self, c, d):
        return c + d["delta"] if d["delta"] != -4 else self.b_far.get(c, c)

    def bidi_answer(self, f, c):
        d = self.b_desc[self.b_ref.get(c)]
        if f == "getMirror":
            return self.mirror(c, d)
        if f == "getPairedBracket":
            return self.mirror(c, d) if d["bpt"] else c
        if f == "getJoiningGroup":
            for s, a in self.jg:
                if s <= c < s + len(a):
                    return a[c - s]
            return 0
        v = d[{"getCharDirection": "cls", "getJoiningType": "jt", "getPairedBracketType": "bpt", "isMirrored": "mir", "isBidiControl": "bc", "isJoinControl": "jc"}[f]]
        return bool(v) if f.startswith("is") else v

    def case_answer(self, f, c):
        w = self.c_ref.get(c)
        full = "Full" in f
        low, title = f.endswith("Lower"), f.endswith("Title")
        if w not in self.c_exc:
            kind = w & 3
            d = w >> 7
            d -= 512 if d & 256 else 0
            r = c + d if (kind in (2, 3) if low else kind == 1) else c
            return chr(r) if full else r
        kind, slots, strings, cond, neg = self.c_exc[w]
        if full:
            if cond:
                if low and c == 0x130:
                    return "i\u0307"
                if not low and c == 0x587:
                    return "\u0535\u0582" if title else "\u0535\u0552"
            elif strings:
                s = strings[0 if low else 3 if title else 2]
                if s:
                    return s
        r = c
        if 4 in slots and (kind in (2, 3) if low else kind == 1):
            r = c - slots[4] if neg else c + slots[4]
        else:
            for i in ((0,) if low else (3, 2) if title else (2,)):
                if i in slots:
                    r = slots[i]
                    break
        return chr(r) if full else r


L = ("Lu", "Ll", "Lt", "Lm", "Lo")
Z = ("Zs", "Zl", "Zp")
ISO = lambda c: c <= 0x1F or 0x7F <= c <= 0x9F
ASPACE = lambda c: 9 <= c <= 13 or 0x1C <= c <= 0x1F
IGN = lambda c, g: ISO(c) and not ASPACE(c) if c <= 0x9F else g == "Cf"
HEX = [*range(0x41, 0x47), *range(0x61, 0x67), *range(0xFF21, 0xFF27), *range(0xFF41, 0xFF47)]
CHAR_FNS = {
    "getGeneralCategory": lambda c, g, n: GC.index(g), "isLower": lambda c, g, n: g == "Ll", "isUpper": lambda c, g, n: g == "Lu", "isTitle": lambda c, g, n: g == "Lt",
    "isDigit": lambda c, g, n: g == "Nd", "isHexDigit": lambda c, g, n: c in HEX or g == "Nd", "isalpha": lambda c, g, n: g in L, "isalnum": lambda c, g, n: g in L or g == "Nd",
    "isDefined": lambda c, g, n: g != "Cn", "isbase": lambda c, g, n: g in L or g[0] == "N" or g in ("Mc", "Me"), "iscntrl": lambda c, g, n: g in ("Cc", "Cf", "Zl", "Zp"),
    "isISOControl": lambda c, g, n: ISO(c), "isspace": lambda c, g, n: g in Z or ASPACE(c) or c == 0x85, "isJavaSpaceChar": lambda c, g, n: g in Z,
    "isWhiteSpace": lambda c, g, n: g in Z and c not in (0xA0, 0x2007, 0x202F) or ASPACE(c) and c not in (0xA0, 0x2007, 0x202F),
    "isBlank": lambda c, g, n: c in (9, 0x20) if c <= 0x9F else g == "Zs", "isPrint": lambda c, g, n: g[0] != "C", "isPrintPOSIX": lambda c, g, n: g == "Zs" or g not in ("Cc", "Cs", "Cn") + Z,
    "isgraph": lambda c, g, n: g not in ("Cc", "Cf", "Cs", "Cn") + Z, "isGraphPOSIX": lambda c, g, n: g not in ("Cc", "Cs", "Cn") + Z, "ispunct": lambda c, g, n: g[0] == "P",
    "isIDStart": lambda c, g, n: g in L or g == "Nl", "isIDPart": lambda c, g, n: g in L + ("Nd", "Nl", "Pc", "Mc", "Mn") or IGN(c, g), "isIDIgnorable": lambda c, g, n: IGN(c, g),
    "isJavaIDStart": lambda c, g, n: g in L + ("Sc", "Pc"), "isJavaIDPart": lambda c, g, n: g in L + ("Nd", "Nl", "Sc", "Pc", "Mc", "Mn") or IGN(c, g),
    "digitValue": lambda c, g, n: n.digit, "getNumericType": lambda c, g, n: n.type, "getNumericTypeValue": lambda c, g, n: n.ntv, "getNumericValue": lambda c, g, n: n.value,
}
SPACES = [8, 9, 13, 14, 0x1B, 0x1C, 0x1F, 0x20, 0x7E, 0x7F, 0x85, 0x9F, 0xA0, 0x2007, 0x202F]
EDGES = {"isHexDigit": [0x40, 0x41, 0x46, 0x47, 0x60, 0x61, 0x66, 0x67, 0xFF20, 0xFF21, 0xFF26, 0xFF27, 0xFF40, 0xFF41, 0xFF46, 0xFF47],
         "isISOControl": SPACES, "isspace": SPACES, "isWhiteSpace": SPACES, "isBlank": SPACES, "isIDIgnorable": SPACES, "isIDPart": SPACES, "isJavaIDPart": SPACES}
VEC_FNS = {"getBlock": "BLOCK", "getEastAsianWidth": "EA", "getLineBreak": "LB", "getSentenceBreak": "SB", "getWordBreak": "WB", "getGraphemeClusterBreak": "GCB", "getDecompType": "DT"}
BIDI_FNS = ("getCharDirection", "isMirrored", "getMirror", "isBidiControl", "isJoinControl", "getJoiningType", "getJoiningGroup", "getPairedBracketType", "getPairedBracket")
NFC_FNS = ("getDecomposition", "getRawDecomposition")
CASE_FNS = ("toLower", "toUpper", "toTitle", "toFullLower", "toFullUpper", "toFullTitle")


_cache = {}


def get(spec):
    t = _cache.get(spec)
    if t is None:
        t = SemTree(spec)
        if len(_cache) < 60:
            _cache[spec] = t
    return t
