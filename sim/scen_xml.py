"""C14: character data read from UCD XML, in threads and histories."""
import importlib
import os
import random
import shutil
import tempfile
import gc
import weakref
import xml.etree.ElementTree as ET
from fractions import Fraction

from . import core, disk
from .base import Scenario, Violation, warm, sched_for, outcome, H, PKG, SCRATCH, generic_shrink

NS = "http://www.unicode.org/ns/2003/ucd/1.0"

# field -> (attribute, how it is read)
TOP = {"name": ("na", "name"), "combiningClass": ("ccc", "int"), "generalCategory": ("gc", "str"), "numericType": ("nt", "str"), "numericValue": ("nv", "num"),
       "script": ("sc", "str"), "scriptExtensions": ("scx", "list"), "block": ("blk", "words"), "joiningType": ("jt", "str"), "joiningGroup": ("jg", "words"),
       "isJoiningControl": ("Join_C", "bool"), "lineBreak": ("lb", "str"), "sentenceBreak": ("SB", "str"), "wordBreak": ("WB", "str"),
       "graphemeClusterBreak": ("GCB", "str"), "eastAsianWidth": ("ea", "str"), "hangulSyllableType": ("hst", "str"), "jamoShortName": ("JSN", "str"),
       "verticalOrientation": ("vo", "str"), "emoji": ("Emoji", "bool"), "emojiPresentation": ("EPres", "bool"), "emojiModifier": ("EMod", "bool"),
       "emojiModifierBase": ("EBase", "bool"), "emojiComponent": ("EComp", "bool"), "extendedPictograph": ("ExtPict", "bool")}
BIDI = {"bidiClass": ("bc", "str"), "bidiMirrored": ("Bidi_M", "bool"), "bidiMirroredGlyph": ("bmg", "cp"), "bidiControl": ("Bidi_C", "bool"),
        "bidiPairedBracketType": ("bpt", "str"), "bidiPairedBracket": ("bpb", "cp")}
DECOMP = {"decompositionType": ("dt", "str"), "decomposition": ("dm", "text?"), "compositionExclusion": ("CE", "bool"), "fullCompositionExclusion": ("Comp_Ex", "bool"),
          "nfcQuickCheck": ("NFC_QC", "str"), "nfdQuickCheck": ("NFD_QC", "str"), "nfkcQuickCheck": ("NFKC_QC", "str"), "nfkdQuickCheck": ("NFKD_QC", "str"),
          "expandOnNFC": ("XO_NFC", "bool"), "expandOnNFD": ("XO_NFD", "bool"), "expandOnNFKC": ("XO_NFKC", "bool"), "expandOnNFKD": ("XO_NFKD", "bool"),
          "nfkcFullClosure": ("FC_NFKC", "text?"), "nfkcCaseFolded": ("NFKC_CF", "text")}
CASE = {"upper": ("Upper", "bool"), "lower": ("Lower", "bool"), "otherUpper": ("OUpper", "bool"), "otherLower": ("OLower", "bool"), "simpleUpperCase": ("suc", "text"),
        "simpleLowerCase": ("slc", "text"), "upperCase": ("uc", "text"), "lowerCase": ("lc", "text"), "titleCase": ("tc", "text"), "simpleCaseFolding": ("scf", "text"),
        "caseFolding": ("cf", "text"), "caseIgnorable": ("CI", "bool"), "cased": ("Cased", "bool"), "changesWhenCaseFolded": ("CWCF", "bool"),
        "changesWhenCasedMapped": ("CWCM", "bool"), "changesWhenLowercased": ("CWL", "bool"), "changesWhenNFKCCaseFolded": ("CWKCF", "bool"),
        "changesWhenTitlecased": ("CWT", "bool"), "changesWhenUppercased": ("CWU", "bool"), "nkfcCasefold": ("NFKC_CF", "text"), "simpleTitleCase": ("stc", "str")}
INDIC = {"syllabicCategory": ("InSC", "str"), "positionalCategory": ("InPC", "str")}
BINARY = {k: (v, "bool") for k, v in (x.split(":") for x in (
    "whitespace:WSpace dash:Dash hyphen:Hyphen quotationMark:QMark terminalPunctuation:Term sentenceTerminalPunctuation:STerm diacritic:Dia extender:Ext "
    "prependedConcatenationMark:PCM softDotted:SD alphabetic:Alpha otherAlphabetic:OAlpha math:Math otherMath:OMath hexDigit:Hex asciiHexDigit:AHex "
    "defaultIgnorable:DI otherDefaultIgnorable:ODI logicalOrderException:LOE regionalIndicator:RI graphemeBase:Gr_Base graphemeExtended:Gr_Ext "
    "otherGraphemeExtended:OGr_Ext graphemeLink:Gr_Link ideographic:Ideo unifiedIdeographic:UIdeo idsBinaryOperator:IDSB idsTrinaryOperator:IDST "
    "radical:Radical deprecated:Dep variationSelector:VS nonCharacterCodePoint:NChar idStart:IDS otherIDStart:OIDS xIDStart:XIDS idContinue:IDC "
    "otherIDContinue:OIDC xIDContinue:XIDC patternSyntax:Pat_Syn patternWhitespace:Pat_WS").split())}
PARTS = {"BidiProperties": ("bidiProperties", BIDI), "DecompProperties": ("decompProperties", DECOMP), "CaseProperties": ("caseProperties", CASE),
         "IndicProperties": ("indicProperties", INDIC), "BinaryProperties": ("binaryProperties", BINARY)}
KINDS = {}
for _t in [TOP] + [t for _, t in PARTS.values()]:
    for _a, _k in _t.values():
        KINDS.setdefault(_a, _k)
KINDS["NFKC_CF"] = "text"
ATTRS = sorted(KINDS)


# ------------------------------------------------------------ the model

def value(kind, s, cp):
    own = int(cp, 16)
    if kind == "str":
        return s
    if kind == "bool":
        return s == "Y"
    if kind == "int":
        return int(s)
    if kind == "num":
        return None if s == "NaN" else float(Fraction(s))
    if kind == "list":
        return s.split(" ")
    if kind == "words":
        return s.replace("_", " ")
    if kind == "name":
        return s.replace("#", cp)
    if kind == "cp":
        return own if s in ("", "#") else int(s, 16)
    if s == "#":
        return chr(own) if kind == "text" else None
    if not s:
        return None
    return "".join(chr(int(x, 16)) for x in s.split(" "))


def model(table, char, group):
    cp = char["cp"] if "cp" in char else group.get("cp", "")
    out = {"cp": cp, "codePoint": int(cp, 16)}
    for f, (a, k) in table.items():
        s = char[a] if a in char else group.get(a, "")
        if k == "text" and not s:
            if f == "nkfcCasefold" or f == "nfkcCaseFolded":
                continue            # the standard means the empty string; not claimed
            s = "#"
        out[f] = value(k, s, cp)
    return out


def compare(obj, want, where):
    for f, w in want.items():
        try:
            g = getattr(obj, f)
        except AttributeError:
            raise Violation("missing-field", "%s: no %s" % (where, f))
        if g != w or isinstance(w, bool) != isinstance(g, bool) or isinstance(w, str) != isinstance(g, str):
            raise Violation("wrong-field", "%s: %s is %r, the elements say %r" % (where, f, g, w))


def compare_all(obj, char, group, where):
    compare(obj, model(TOP, char, group), where)
    for part, table in PARTS.values():
        try:
            p = getattr(obj, part)
        except AttributeError:
            raise Violation("missing-field", "%s: no %s" % (where, part))
        compare(p, model(table, char, group), where + " " + part)


# ------------------------------------------------------------ generation

def random_value(rng, a, cp=None):
    k = KINDS[a]
    if k == "bool":
        return rng.choice("YN")
    if k == "int":
        return str(rng.choice([0, 1, 7, 9, 132, 220, 230, 240]))
    if k == "num":
        return rng.choice(["NaN", "NaN", "0", "5", "10", "1/2", "3/4", "-1/2", "1/320", "100000000", "1000000000000", "17/2"])
    if k == "list":
        return rng.choice(["Latn", "Zyyy", "Beng Deva Gran", "Arab Copt", "Grek"])
    if k == "words":
        return rng.choice(["ASCII", "Latin_1_Sup", "CJK_Ext_A", "No_Joining_Group", "African_Feh", "NB"])
    if k == "name":
        return rng.choice(["LATIN SMALL LETTER X", "CJK UNIFIED IDEOGRAPH-#", "#", "", "SIGN # OF #", "TANGUT IDEOGRAPH-#", "HANGUL SYLLABLE GAG"])
    if k == "cp":
        return "#" if a == "bpb" and rng.random() < 0.5 else "%04X" % rng.randrange(0x20, 0x3000)
    if k in ("text", "text?"):
        r = rng.random()
        if r < 0.4:
            return "#"
        if r < 0.5:
            return ""
        return " ".join("%04X" % rng.choice([rng.randrange(0x20, 0x250), rng.randrange(0x300, 0x340), 0x20, rng.randrange(0x10000, 0x11000), 0xD7A3, 0x10FFFF])
                        for _ in range(rng.choice([1, 1, 2, 3, 18])))
    return rng.choice(["", "N", "Y", "M", "L", "AL", "No_Break", "Top_And_Bottom", "XX", "Other", "#", "Consonant_Dead"])


def random_cp(rng):
    return "%04X" % rng.choice([rng.randrange(0x80), rng.randrange(0x3000), rng.randrange(0x4E00, 0x9FFF), rng.randrange(0xAC00, 0xD7A4),
                                rng.randrange(0x10000, 0x20000), 0, 0xD800, 0x10FFFF, 0xFFFF])


def random_doc(seed):
    """groups: (attributes, [attributes of an element])"""
    rng = random.Random("xml/%s" % seed)
    groups = []
    few = rng.sample(ATTRS, rng.choice([3, 6, 20]))
    for _ in range(rng.choice([1, 2, 3, 5])):
        rest = rng.random()
        g = {a: random_value(rng, a) for a in ATTRS if rng.random() < 0.97 or a in ("ccc", "nv", "bpb")}
        if rng.random() < 0.4:
            g["bmg"] = ""
        chars = []
        for _ in range(rng.choice([1, 2, 4, 8])):
            c = {"cp": random_cp(rng)}
            if rng.random() < 0.2 and chars:
                c["cp"] = chars[0]["cp"]
            for a in few if rng.random() < 0.8 else ATTRS:
                if rng.random() < 0.6 * rest + 0.1:
                    c[a] = random_value(rng, a)
            items = list(c.items())
            rng.shuffle(items)
            chars.append(dict(items))
        if rng.random() < 0.3:      # in some files the group holds nothing: all is in the elements
            chars = [dict(g, **c) for c in chars]
            if rng.random() < 0.6:
                g = {}
            else:
                g = {a: random_value(rng, a) for a in ATTRS}
        groups.append((g, chars))
    return groups


def to_xml(doc):
    root = ET.Element("{%s}ucd" % NS)
    rep = ET.SubElement(root, "{%s}repertoire" % NS)
    for g, chars in doc:
        ge = ET.SubElement(rep, "{%s}group" % NS, g)
        for c in chars:
            ET.SubElement(ge, "{%s}char" % NS, c)
    return ET.tostring(root)


def elements(doc):
    out = []
    for g, chars in doc:
        ge = ET.Element("group", dict(g))
        out.append((ge, [ET.SubElement(ge, "char", dict(c)) for c in chars]))
    return out


class C14(Scenario):
    prop = "C14"
    quick = 6000
    thorough = 60000
    rule = ("one case = 1-3 threads that build character data from generated documents: streamed from the simulated disk and cleared afterwards, from a tree they share, "
            "from elements that are changed in between, from damaged ones, and interrupted; every object is compared with the attributes when it is built and again at the end; "
            "non-trivial = at least 3 objects were compared; distinct = distinct event logs")
    real = ["UnicodeData.CharacterData, UCDProperties, BidiProperties, DecompProperties, CaseProperties, IndicProperties, BinaryProperties", "xml.etree.ElementTree and expat"]
    stubs = ["the UCD XML files: synthetic (sim/scen_xml.py)", "disk faults, short reads: sim/disk.py"]
    assumptions = ["elements have the attributes the UCD always gives (cp, ccc, nv, bpb) unless the run damages them on purpose",
                   "NFKC_CF with an empty value is not judged (the standard means the empty string)"]

    def preload(self):
        warm("CharacterData", "BidiProperties", "DecompProperties", "CaseProperties", "IndicProperties", "BinaryProperties")

    def gen(self, rng, tier):
        docs = ["%d" % rng.randrange(1 << 30) for _ in range(rng.choice([1, 2, 2, 3]))]
        tasks = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(rng.choice([3, 6, 12])):
                r = rng.random()
                x, y = rng.randrange(1 << 16), rng.randrange(1 << 16)
                if r < 0.16:
                    ops.append(["stream", rng.randrange(len(docs)), rng.choice(["keep", "clear", "clear", "clear-early", "overwrite"]), rng.choice([0, 0, 1])])
                elif r < 0.5:
                    ops.append(["build", x, y])
                elif r < 0.6:
                    ops.append(["own", x, y])
                elif r < 0.68:
                    ops.append(["set", x, rng.choice(ATTRS), rng.randrange(1 << 16), rng.choice(["group", "group", "char"])])
                elif r < 0.76:
                    ops.append(["part", rng.choice(sorted(PARTS)), x, y])
                elif r < 0.84:
                    ops.append(["bad", x, y, rng.choice(["cp", "cp", "ccc", "bpb", "nv", "dm", "suc", "bmg"]), rng.choice(["gone", "zz", "", "12 zz", "-"])])
                elif r < 0.92:
                    ops.append(["int", x, y, rng.choice([1, 2, 5, 10, 25, 60, 120, 250]), rng.choice(["KeyboardInterrupt", "MemoryError"])])
                elif r < 0.96:
                    ops.append(["mut", x])
                else:
                    ops.append(["check"])
            tasks.append(ops)
        return dict(docs=docs, tasks=tasks, gran=rng.choice(["line", "line", "instr"]), short_read=rng.choice([0.0, 0.3, 0.9]), chunk=rng.choice([1 << 16, 700, 40]),
                    fault=rng.choice([None, None, None, rng.randrange(1, 30)]), seed_io=rng.randrange(1 << 30), sched=sched_for(rng, tasks))

    def run(self, plan, out):
        m = {n: importlib.import_module(PKG + "." + n) for n in ["CharacterData"] + sorted(PARTS)}
        CharacterData = m["CharacterData"].CharacterData
        docs = [random_doc(s) for s in plan["docs"]]
        shared = [elements(d) for d in docs]
        site = os.path.realpath(tempfile.mkdtemp(prefix="x", dir=SCRATCH or None))
        w = disk.World(site, plan["seed_io"])
        w.short_read, w.chunk = plan["short_read"], plan["chunk"]
        paths = []
        for i, d in enumerate(docs):
            p = os.path.join(site, "ucd%d.xml" % i)
            with disk._open(p, "wb") as f:
                f.write(to_xml(d))
            paths.append(p)
        if plan.get("fault"):
            w.arm([{"on": "read", "kind": "EIO", "nth": plan["fault"]}])
        count = [0]
        hist = []

        def check(kept, where):
            for obj, c, g, w_ in kept:
                compare_all(obj, c, g, "%s, %s" % (w_, where))

        def body(tid, ops):
            s = core.CURRENT
            own = [(ge, ces) for d in docs for ge, ces in elements(d)]
            kept = []

            def built(obj, c, g, where):
                compare_all(obj, c, g, where)
                kept.append((obj, dict(c), dict(g), where))
                count[0] += 1

            def pick(trees, x, y):
                ge, ces = trees[x % len(trees)]
                return ge, ces[y % len(ces)]
            flat = [t for d in shared for t in d]
            for k, op in enumerate(ops):
                core.progress()
                where = "thread %d step %d (%s)" % (tid, k, op[0])
                if op[0] == "build":
                    g, c = pick(flat, op[1], op[2])
                    built(CharacterData(c, g), dict(c.attrib), dict(g.attrib), where)
                elif op[0] == "own":
                    g, c = pick(own, op[1], op[2])
                    built(CharacterData(c, g), dict(c.attrib), dict(g.attrib), where)
                elif op[0] == "set":
                    g, c = pick(own, op[1], op[3])
                    e = g if op[4] == "group" else c
                    v = random_value(random.Random(op[3]), op[2])
                    if v or KINDS[op[2]] not in ("int", "num", "cp"):
                        e.set(op[2], v)
                    built(CharacterData(c, g), dict(c.attrib), dict(g.attrib), where)
                elif op[0] == "part":
                    g, c = pick(flat, op[2], op[3])
                    o = getattr(m[op[1]], op[1])(c, g)
                    compare(o, model(PARTS[op[1]][1], c.attrib, g.attrib), where)
                elif op[0] == "bad":
                    g, c = pick(flat, op[1], op[2])
                    g2, c2 = ET.Element("group", dict(g.attrib)), ET.Element("char", dict(c.attrib))
                    if op[4] == "gone":
                        c2.attrib.pop(op[3], None)
                        g2.attrib.pop(op[3], None)
                    else:
                        c2.set(op[3], op[4])
                    r = outcome(CharacterData, c2, g2)
                    if r[0] == "ok" and (op[3], op[4]) in (("cp", "gone"), ("cp", ""), ("cp", "zz"), ("ccc", "gone"), ("ccc", "zz")):
                        raise Violation("false-success", "%s: an element with %s %r gave character data" % (where, op[3], op[4]))
                    out["fired"]["damaged-element"] = out["fired"].get("damaged-element", 0) + 1
                elif op[0] == "int":
                    g, c = pick(flat, op[1], op[2])
                    s.set_injection(op[3], core.EXC[op[4]], op[4] + "@line")
                    try:
                        r = outcome(CharacterData, c, g)
                    finally:
                        s.clear_injection()
                    if r[0] == "ok":
                        built(r[1], dict(c.attrib), dict(g.attrib), where)
                    else:
                        built(CharacterData(c, g), dict(c.attrib), dict(g.attrib), where + " again")
                elif op[0] == "mut":
                    if kept:
                        # a caller's own object: others must not see what he does to it
                        o, c, g, _ = kept.pop(op[1] % len(kept))
                        o.scriptExtensions.append("Mine")
                        o.bidiProperties.bidiClass = "mine"
                        o.name = None
                        out["fired"]["object-changed"] = out["fired"].get("object-changed", 0) + 1
                elif op[0] == "check":
                    check(kept, "at step %d" % k)
                elif op[0] == "stream":
                    self.stream(CharacterData, paths[op[1]], docs[op[1]], op[2], built, where, op[3])
                hist.append((tid, k, len(kept)))
            check(kept, "at the end")

        sim = core.Sim(plan["sched"], step_limit=20_000_000)
        out["sim"] = sim
        for tid, ops in enumerate(plan["tasks"]):
            sim.spawn(lambda tid=tid, ops=ops: body(tid, ops))
        disk.set_world(w)
        try:
            sim.run()
        finally:
            disk.set_world(None)
            shutil.rmtree(site, ignore_errors=True)
        for d, t in zip(docs, shared):
            for (g, chars), (ge, ces) in zip(d, t):
                if ge.attrib != g or [e.attrib for e in ces] != chars or len(ge) != len(chars) or ge.text or ge.tail:
                    raise Violation("elements-changed", "elements or groups of a shared tree are not what they were")
        # an element that is dropped is freed
        g, c = ET.Element("group", dict(docs[0][0][0])), ET.Element("char", dict(docs[0][0][1][0]))
        o = CharacterData(c, g)
        refs = weakref.ref(g), weakref.ref(c)
        del g, c
        if any(r() is not None for r in refs) and gc.collect() >= 0 and any(r() is not None for r in refs):
            raise Violation("elements-kept", "character data keeps its elements alive")
        # and so is one that cannot be made into an object
        rng = random.Random(plan["seed_io"])
        g, c = ET.Element("group", dict(docs[0][0][0])), ET.Element("char", dict(docs[0][0][1][0]))
        k, v = rng.choice([("cp", "zz"), ("ccc", "zz"), ("nv", "12 zz"), ("bpb", "zz"), ("dm", "zz"), ("suc", "zz")])
        c.set(k, v)
        outcome(CharacterData, c, g)
        refs = weakref.ref(g), weakref.ref(c)
        del g, c
        if any(r() is not None for r in refs) and gc.collect() >= 0 and any(r() is not None for r in refs):
            raise Violation("elements-kept", "elements of which no object could be built (%s %r) are kept alive" % (k, v))
        for k, v in w.fired.items():
            out["fired"][k] = out["fired"].get(k, 0) + v
        out["hist"] = H(hist)
        out["nontrivial"] = count[0] >= 3
        out["probes"] = {"objects": count[0]}

    def stream(self, CharacterData, path, doc, how, built, where, late):
        gi, ci = -1, 0
        group = None
        pending = []
        try:
            for ev, e in ET.iterparse(path, events=("start", "end")):
                tag = e.tag.split("}")[-1]
                if tag == "group" and ev == "start":
                    gi, ci, group = gi + 1, 0, e
                elif tag == "group" and ev == "end":
                    for ce, i, g in pending:
                        built(CharacterData(ce, e), doc[i][1][g], doc[i][0], "%s element %d of group %d" % (where, g, i))
                    pending = []
                    if how != "keep":
                        e.clear()
                    group = None
                elif tag == "char" and ev == "end":
                    if late:
                        pending.append((e, gi, ci))
                        ci += 1
                        continue
                    o = CharacterData(e, group)
                    if how == "clear-early":
                        e.clear()
                    elif how == "overwrite":
                        e.attrib.update({a: "#" for a in list(e.attrib)})
                    built(o, doc[gi][1][ci], doc[gi][0], "%s element %d of group %d" % (where, ci, gi))
                    if how == "clear":
                        e.clear()
                    ci += 1
        except OSError:
            pass                    # a read error; what was built before must still be right

    def shrink(self, plan):
        yield from generic_shrink(plan)
        if plan.get("fault"):
            yield dict(plan, fault=None)


SCENARIOS = {"C14": C14}
