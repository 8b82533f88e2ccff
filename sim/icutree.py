"""Synthetic ICU source and build trees, and what a build of one must hold.

Tree(seed): .files {relative path: bytes} and .expect {output file: values}.
The files follow the layout of the real ones (genprops output, ICU headers,
ppucd.txt); the values are random.
"""
import random

# type -> (prefix of the constants, dictionary, how the short name is shown)
TYPES = {
    "bc": ("U", "bidiClass", "spaces"), "blk": ("UBLOCK", "block", "spaces"), "dt": ("U_DT", "decompositionType", "lower"),
    "ea": ("U_EA", "eastAsianWidth", "spaces"), "gc": ("U", "generalCategory", "spaces"), "GCB": ("U_GCB", "graphemeClusterBreak", "spaces"),
    "hst": ("U_HST", "hangulSyllableType", "spaces"), "InPC": ("U_INPC", "indicPositionalCategory", "copy"),
    "InSC": ("U_INSC", "indicSyllabicCategory", "copy"), "jg": ("U_JG", "joiningGroup", "spaces"), "jt": ("U_JT", "joiningType", "spaces"),
    "lb": ("U_LB", "lineBreak", "spaces"), "nt": ("U_NT", "numberType", "spaces"), "SB": ("U_SB", "sentenceBreak", "spaces"),
    "sc": ("USCRIPT", "script", "spaces"), "vo": ("U_VO", "verticalOrientation", "spaces"), "WB": ("U_WB", "wordBreak", "spaces")}

# type -> [(short, long, constant; None: ICU has no such constant)]: real rows of
# ppucd.txt, with every one whose constant is not simply its long name
ROWS = {
    "bc": [("AL", "Arabic_Letter", "U_RIGHT_TO_LEFT_ARABIC"), ("CS", "Common_Separator", "U_COMMON_NUMBER_SEPARATOR"),
           ("ES", "European_Separator", "U_EUROPEAN_NUMBER_SEPARATOR"), ("ET", "European_Terminator", "U_EUROPEAN_NUMBER_TERMINATOR"),
           ("NSM", "Nonspacing_Mark", "U_DIR_NON_SPACING_MARK"), ("B", "Paragraph_Separator", "U_BLOCK_SEPARATOR"),
           ("WS", "White_Space", "U_WHITE_SPACE_NEUTRAL"), ("L", "Left_To_Right", "U_LEFT_TO_RIGHT"), ("R", "Right_To_Left", "U_RIGHT_TO_LEFT"),
           ("EN", "European_Number", "U_EUROPEAN_NUMBER"), ("AN", "Arabic_Number", "U_ARABIC_NUMBER"), ("BN", "Boundary_Neutral", "U_BOUNDARY_NEUTRAL")],
    "blk": [("Diacriticals_For_Symbols", "Combining_Diacritical_Marks_For_Symbols", "UBLOCK_COMBINING_MARKS_FOR_SYMBOLS"),
            ("Greek", "Greek_And_Coptic", "UBLOCK_GREEK"), ("ASCII", "Basic_Latin", "UBLOCK_BASIC_LATIN"),
            ("Latin_1_Sup", "Latin_1_Supplement", "UBLOCK_LATIN_1_SUPPLEMENT"), ("NB", "No_Block", "UBLOCK_NO_BLOCK"),
            ("CJK_Ext_A", "CJK_Unified_Ideographs_Extension_A", "UBLOCK_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_A")],
    "dt": [("Can", "Canonical", "U_DT_CANONICAL"), ("Com", "Compat", "U_DT_COMPAT"), ("Enc", "Circle", "U_DT_CIRCLE"), ("Nb", "Nobreak", "U_DT_NOBREAK")],
    "ea": [("A", "Ambiguous", "U_EA_AMBIGUOUS"), ("F", "Fullwidth", "U_EA_FULLWIDTH"), ("Na", "Narrow", "U_EA_NARROW"), ("W", "Wide", "U_EA_WIDE")],
    "gc": [("C", "Other", None), ("Cc", "Control", "U_CONTROL_CHAR"), ("Cf", "Format", "U_FORMAT_CHAR"), ("Co", "Private_Use", "U_PRIVATE_USE_CHAR"),
           ("L", "Letter", None), ("LC", "Cased_Letter", None), ("M", "Mark", None), ("Mc", "Spacing_Mark", "U_COMBINING_SPACING_MARK"),
           ("Mn", "Nonspacing_Mark", "U_NON_SPACING_MARK"), ("N", "Number", None), ("Nd", "Decimal_Number", "U_DECIMAL_DIGIT_NUMBER"),
           ("P", "Punctuation", None), ("Pe", "Close_Punctuation", "U_END_PUNCTUATION"), ("Ps", "Open_Punctuation", "U_START_PUNCTUATION"),
           ("S", "Symbol", None), ("Z", "Separator", None), ("Lu", "Uppercase_Letter", "U_UPPERCASE_LETTER"), ("Sm", "Math_Symbol", "U_MATH_SYMBOL"),
           ("Zs", "Space_Separator", "U_SPACE_SEPARATOR"), ("Cn", "Unassigned", "U_UNASSIGNED")],
    "GCB": [("SM", "SpacingMark", "U_GCB_SPACING_MARK"), ("CN", "Control", "U_GCB_CONTROL"), ("ZWJ", "ZWJ", "U_GCB_ZWJ")],
    "hst": [("L", "Leading_Jamo", "U_HST_LEADING_JAMO"), ("LVT", "LVT_Syllable", "U_HST_LVT_SYLLABLE"), ("NA", "Not_Applicable", "U_HST_NOT_APPLICABLE")],
    "InPC": [("Left_And_Right", "Left_And_Right", "U_INPC_LEFT_AND_RIGHT"), ("NA", "NA", "U_INPC_NA"), ("Top_And_Bottom", "Top_And_Bottom", "U_INPC_TOP_AND_BOTTOM")],
    "InSC": [("Consonant_Dead", "Consonant_Dead", "U_INSC_CONSONANT_DEAD"), ("Other", "Other", "U_INSC_OTHER"),
             ("Vowel_Independent", "Vowel_Independent", "U_INSC_VOWEL_INDEPENDENT")],
    "jg": [("African_Feh", "African_Feh", "U_JG_AFRICAN_FEH"), ("Ain", "Ain", "U_JG_AIN"), ("No_Joining_Group", "No_Joining_Group", "U_JG_NO_JOINING_GROUP")],
    "jt": [("C", "Join_Causing", "U_JT_JOIN_CAUSING"), ("D", "Dual_Joining", "U_JT_DUAL_JOINING"), ("U", "Non_Joining", "U_JT_NON_JOINING")],
    "lb": [("AI", "Ambiguous", "U_LB_AMBIGUOUS"), ("BA", "Break_After", "U_LB_BREAK_AFTER"), ("XX", "Unknown", "U_LB_UNKNOWN")],
    "nt": [("De", "Decimal", "U_NT_DECIMAL"), ("Di", "Digit", "U_NT_DIGIT"), ("None", "None", "U_NT_NONE")],
    "SB": [("AT", "ATerm", "U_SB_ATERM"), ("XX", "Other", "U_SB_OTHER"), ("SC", "SContinue", "U_SB_SCONTINUE")],
    "sc": [("Afak", "Afak", "USCRIPT_AFAKA"), ("Blis", "Blis", "USCRIPT_BLISSYMBOLS"), ("Cirt", "Cirt", "USCRIPT_CIRTH"),
           ("Cyrs", "Cyrs", "USCRIPT_OLD_CHURCH_SLAVONIC_CYRILLIC"), ("Egyd", "Egyd", "USCRIPT_DEMOTIC_EGYPTIAN"),
           ("Egyh", "Egyh", "USCRIPT_HIERATIC_EGYPTIAN"), ("Geok", "Geok", "USCRIPT_KHUTSURI"), ("Hanb", "Hanb", "USCRIPT_HAN_WITH_BOPOMOFO"),
           ("Hans", "Hans", "USCRIPT_SIMPLIFIED_HAN"), ("Hant", "Hant", "USCRIPT_TRADITIONAL_HAN"), ("Inds", "Inds", "USCRIPT_HARAPPAN_INDUS"),
           ("Jpan", "Jpan", "USCRIPT_JAPANESE"), ("Jurc", "Jurc", "USCRIPT_JURCHEN"), ("Kore", "Kore", "USCRIPT_KOREAN"),
           ("Kpel", "Kpel", "USCRIPT_KPELLE"), ("Lana", "Tai_Tham", "USCRIPT_LANNA"), ("Latf", "Latf", "USCRIPT_LATIN_FRAKTUR"),
           ("Latg", "Latg", "USCRIPT_LATIN_GAELIC"), ("Maya", "Maya", "USCRIPT_MAYAN_HIEROGLYPHS"), ("Mend", "Mende_Kikakui", "USCRIPT_MENDE"),
           ("Mtei", "Meetei_Mayek", "USCRIPT_MEITEI_MAYEK"), ("Nkgb", "Nkgb", "USCRIPT_NAKHI_GEBA"), ("Orkh", "Old_Turkic", "USCRIPT_ORKHON"),
           ("Phlv", "Phlv", "USCRIPT_BOOK_PAHLAVI"), ("Roro", "Roro", "USCRIPT_RONGORONGO"), ("Sara", "Sara", "USCRIPT_SARATI"),
           ("Sgnw", "SignWriting", "USCRIPT_SIGN_WRITING"), ("Syre", "Syre", "USCRIPT_ESTRANGELO_SYRIAC"), ("Syrj", "Syrj", "USCRIPT_WESTERN_SYRIAC"),
           ("Syrn", "Syrn", "USCRIPT_EASTERN_SYRIAC"), ("Teng", "Teng", "USCRIPT_TENGWAR"), ("Visp", "Visp", "USCRIPT_VISIBLE_SPEECH"),
           ("Wole", "Wole", "USCRIPT_WOLEAI"), ("Zmth", "Zmth", "USCRIPT_MATHEMATICAL_NOTATION"), ("Zsye", "Zsye", "USCRIPT_SYMBOLS_EMOJI"),
           ("Zsym", "Zsym", "USCRIPT_SYMBOLS"), ("Zxxx", "Zxxx", "USCRIPT_UNWRITTEN_LANGUAGES"), ("Latn", "Latin", "USCRIPT_LATIN"),
           ("Arab", "Arabic", "USCRIPT_ARABIC"), ("Zyyy", "Common", "USCRIPT_COMMON"), ("Zanb", "Zanabazar_Square", "USCRIPT_ZANABAZAR_SQUARE")],
    "vo": [("R", "Rotated", "U_VO_ROTATED"), ("Tr", "Transformed_Rotated", "U_VO_TRANSFORMED_ROTATED"), ("U", "Upright", "U_VO_UPRIGHT")],
    "WB": [("LE", "ALetter", "U_WB_ALETTER"), ("EX", "ExtendNumLet", "U_WB_EXTENDNUMLET"), ("XX", "Other", "U_WB_OTHER")]}

WORDS = "Alpha Beta Gamma Delta Kappa Sigma Omega Lepcha Tifinagh Vedic Extended Supplement Signs Numbers Marks Forms Tone Linear".split()
TRIE = {3: "index_length", 5: "index_2_null_offset", 6: "data_null_offset", 9: "high_start", 10: "high_value_index"}
OUT_DATA = {"BidiPropsData.py", "CharPropsData.py", "CasePropsData.py", "Norm2NFCData.py"}
OUT_ALL = sorted(OUT_DATA | {"uprops_h.py", "ucase_h.py", "uchar_h.py", "uscript_h.py", "icudata.dat", "LICENSE", "UCDTypeDictionaries.py", "UnicodeVersion.py"})


def words(rng, n):
    return "_".join(rng.choice(WORDS) for _ in range(n))


def num(rng, v):
    return rng.choice(["%d", "0x%x"]) % v if v >= 0 else "%d" % v


def array(rng, name, ctype, n, bits=16, count=None, vals=None):
    if vals is None:
        vals = [rng.randrange(1 << rng.choice([1, 8, bits])) for _ in range(n)]
    n = len(vals)
    f = rng.choice(["0x%x", "%d", None])
    txt = [(f or rng.choice(["0x%x", "%d"])) % v for v in vals]
    head = "static const %s %s[%s]={" % (ctype, name, count or n)
    if n <= 16 and rng.random() < 0.7:
        return head + ",".join(txt) + "};\n", vals
    w = rng.choice([4, 8, 16])
    lines = [",".join(txt[i:i + w]) for i in range(0, n, w)]
    return head + "\n" + ",\n".join(lines) + rng.choice(["\n", "\n", ""]) + "};\n", vals


def trie_fields(rng, index, ind, v=None):
    v = v or {3: rng.randrange(1 << 14), 5: rng.randrange(1 << 13), 6: rng.randrange(1 << 13), 9: rng.randrange(0x110001), 10: rng.randrange(1 << 16)}
    t = {3: "%d" % v[3], 5: "0x%x" % v[5], 6: "0x%x" % v[6], 9: "0x%x" % v[9], 10: "0x%x" % v[10]}
    f = [index, "%s+%d" % (index, v[3]), "NULL", t[3], "%d" % rng.randrange(1 << 15), t[5], t[6], "0x0", "0x0", t[9], t[10],
         "NULL, 0, FALSE, FALSE, 0, NULL"]
    return ",\n".join(ind + x for x in f), v


def banner(rng, name, what):
    y = rng.randrange(2000, 2022)
    return ("// © 2016 and later: Unicode, Inc. and others.\n// License & terms of use: http://www.unicode.org/copyright.html\n//\n"
            "// Copyright (C) 1999-%d, International Business Machines\n// Corporation and others.  All Rights Reserved.\n//\n"
            "// file name: %s\n//\n// machine-generated by: icu/tools/unicode/c/genprops/%s\n\n\n" % (y, name, what))


class Tree:
    fixed = {}          # constants whose values are not to be chosen freely

    def __init__(self, seed):
        rng = self.rng = random.Random("tree/%s" % seed)
        self.seed = seed
        self.files = {}
        self.expect = {}
        big = self.big = rng.random() < 0.3
        self.k = rng.randrange(200, 900) if big else rng.randrange(1, 120)
        self.short = "%d" % rng.choice([rng.randrange(49, 99), rng.randrange(49, 99), rng.randrange(100, 131), rng.randrange(5, 10)])
        self.version = rng.choice(["%s.%d" % (self.short, rng.randrange(1, 4)), "%s.0.1" % self.short, "%s.1.%d" % (self.short, rng.randrange(9)), self.short])
        self.ucd = "%d.%d.%d" % (rng.randrange(9, 16), rng.randrange(2), rng.randrange(2))
        self.bidi()
        self.chars()
        self.case()
        self.headers()
        self.ppucd()
        self.rest()
        self.nfc()
        if rng.random() < 0.2:      # checked out on Windows
            for rel in list(self.files):
                if rel.startswith("source/"):
                    self.files[rel] = self.files[rel].replace(b"\n", b"\r\n")

    more_rows = {}
    more_consts = {}

    def uprops(self):
        rng = self.rng
        return [("UPropsX%d" % i, ["UPROPS_%s_%d" % (words(rng, 1).upper(), i * 50 + j) for j in range(rng.randrange(1, 9))])
                for i in range(rng.randrange(1, 4))], []

    def headers(self):
        rng = self.rng
        big = self.big
        self.rows = {}
        enums = {"uchar.h": [], "uscript.h": []}
        for t in TYPES:
            rows = [r for r in ROWS[t] if rng.random() < 0.8] or ROWS[t][:1]
            have = {r[2] for r in ROWS[t]} | {"U_" + w for w in ("GCB", "LB")}
            for _ in range(rng.randrange(0, 5 if not big else 25)):
                long = words(rng, rng.randrange(1, 4))
                if t in ("bc", "gc"):
                    long = t.upper() + "_" + long      # these two share a prefix
                const = TYPES[t][0] + "_" + long.upper()
                if const in have:
                    continue
                have.add(const)
                rows.append((rng.choice([long, long[:4], "X_" + long[:3], long[:2].upper()]), long, const))
            rows += [r for r in self.more_rows.get(t, ()) if r not in rows]
            rng.shuffle(rows)
            self.rows[t] = rows
            consts = [r[2] for r in rows if r[2]] + self.more_consts.get(t, [])
            rng.shuffle(consts)
            enums["uscript.h" if t == "sc" else "uchar.h"].append(("UScriptCode" if t == "sc" else "U" + TYPES[t][1].capitalize(), consts))
        rng.shuffle(enums["uchar.h"])
        e, more = self.uprops()
        self.header("uprops.h", e, more)
        self.header("ucase.h", [("UCaseX", ["UCASE_%s_%d" % (words(rng, 1).upper(), j) for j in range(rng.randrange(1, 9))])],
                    ["#define UCASECONTEXT_INITIALIZER { NULL,  0, 0, 0, 0, 0, 0, 0, { 0, 0, 0 } }\n"])
        self.header("unicode/uchar.h", enums["uchar.h"], ["#define U_NO_NUMERIC_VALUE ((double)-123456789.)\n"], ['#define U_UNICODE_VERSION "%s"\n' % self.ucd[:-2]])
        self.expect["uchar_h.py"]["U_UNICODE_VERSION"] = self.ucd[:-2]
        self.header("unicode/uscript.h", enums["uscript.h"])

    # -- generated data files

    def bidi(self):
        r, e = self.rng, {}
        t = banner(r, "ubidi_props_data.h", "bidipropsbuilder.cpp") + "#ifdef INCLUDED_FROM_UBIDI_PROPS_C\n\nstatic const UVersionInfo ubidi_props_dataVersion={0xe,0,0,0};\n\n"
        for name, ct, n, bits, c in (("ubidi_props_indexes", "int32_t", 16, 24, "UBIDI_IX_TOP"), ("ubidi_props_trieIndex", "uint16_t", self.k, 16, None),
                                     ("ubidi_props_mirrors", "uint32_t", r.randrange(1, 40), 32, None), ("ubidi_props_jgArray", "uint8_t", r.randrange(1, 60), 8, None),
                                     ("ubidi_props_jgArray2", "uint8_t", r.randrange(1, 60), 8, None)):
            s, e[name] = array(r, name, ct, n, bits, c)
            t += s + "\n"
        f, v = trie_fields(r, "ubidi_props_trieIndex", "    ")
        t += "static const UBiDiProps ubidi_props_singleton={\n  NULL,\n  ubidi_props_indexes,\n  ubidi_props_mirrors,\n  ubidi_props_jgArray,\n  ubidi_props_jgArray2,\n  {\n" + f
        t += "\n  },\n  { 2,2,0,0 }\n};\n\n#endif  // INCLUDED_FROM_UBIDI_PROPS_C\n"
        for i, n in TRIE.items():
            e["ubidi_props_trie_" + n] = v[i]
        self.files["source/common/ubidi_props_data.h"] = t.encode()
        self.expect["BidiPropsData.py"] = e

    def chars(self):
        r, e = self.rng, {}
        t = banner(r, "uchar_props_data.h", "corepropsbuilder.cpp") + "#ifdef INCLUDED_FROM_UCHAR_C\n\nstatic const UVersionInfo dataVersion={0xe,0,0,0};\n\n"
        for trie in ("propsTrie", "propsVectorsTrie"):
            s, e[trie + "_index"] = array(r, trie + "_index", "uint16_t", self.k if trie == "propsTrie" else r.randrange(1, 100), 16)
            f, v = trie_fields(r, trie + "_index", "    ")
            t += s + "\nstatic const UTrie2 %s={\n" % trie + f + "\n};\n\n"
            for i, n in TRIE.items():
                e[trie + "_" + n] = v[i]
        s, e["propsVectors"] = array(r, "propsVectors", "uint32_t", r.randrange(3, 90), 32)
        t += s + "\n"
        e["propsVectorsColumns"] = r.randrange(1, 9)
        t += "static const int32_t countPropsVectors=%d;\nstatic const int32_t propsVectorsColumns=%d;\n" % (len(e["propsVectors"]), e["propsVectorsColumns"])
        s, e["scriptExtensions"] = array(r, "scriptExtensions", "uint16_t", r.randrange(1, 60), 16)
        t += s + "\n"
        s, _ = array(r, "indexes", "int32_t", 16, 16, "UPROPS_INDEX_COUNT")
        t += s + "\n#endif  // INCLUDED_FROM_UCHAR_C\n"
        self.files["source/common/uchar_props_data.h"] = t.encode()
        self.expect["CharPropsData.py"] = e

    def case(self):
        r, e = self.rng, {}
        t = banner(r, "ucase_props_data.h", "casepropsbuilder.cpp") + "#ifdef INCLUDED_FROM_UCASE_CPP\n\nstatic const UVersionInfo ucase_props_dataVersion={0xe,0,0,0};\n\n"
        for name, ct, n, bits, c in (("ucase_props_indexes", "int32_t", 16, 24, "UCASE_IX_TOP"), ("ucase_props_trieIndex", "uint16_t", self.k, 16, None),
                                     ("ucase_props_exceptions", "uint16_t", r.randrange(1, 80), 16, None), ("ucase_props_unfold", "uint16_t", r.randrange(1, 60), 16, None)):
            s, e[name] = array(r, name, ct, n, bits, c)
            t += s + "\n"
        f, v = trie_fields(r, "ucase_props_trieIndex", "    ")
        t += "static const UCaseProps ucase_props_singleton={\n  NULL,\n  ucase_props_indexes,\n  ucase_props_exceptions,\n  ucase_props_unfold,\n  {\n" + f
        t += "\n  },\n  { 4,0,0,0 }\n};\n\n#endif  // INCLUDED_FROM_UCASE_CPP\n"
        for i, n in TRIE.items():
            e["ucase_props_trie_" + n] = v[i]
        self.files["source/common/ucase_props_data.h"] = t.encode()
        self.expect["CasePropsData.py"] = e

    def nfc(self):
        r = self.rng = random.Random("norm2/%s" % self.seed)
        t = dict(index=[r.randrange(1 << 15) for _ in range(r.randrange(1, 100))], data=[r.randrange(1 << 16) for _ in range(r.randrange(1, 300))],
                 high_start=r.randrange(0, 0x110001, 512), index3_null=r.randrange(1 << 15), data_null=r.choice([0xFFFFF, r.randrange(1 << 18)]))
        self.norm2(r, t, [r.randrange(1 << 17) for _ in range(20)], [r.randrange(1 << 16) for _ in range(r.randrange(1, 200))], r.randrange(2))

    def norm2(self, r, trie, indexes, extra, null):
        """norm2_nfc_data.h as gennorm2 writes it."""
        e = {}
        t = banner(r, "norm2_nfc_data.h", "n2builder.cpp") + "#ifdef INCLUDED_FROM_NORMALIZER2_CPP\n\nstatic const UVersionInfo norm2_nfc_data_formatVersion={4,0,0,0};\nstatic const UVersionInfo norm2_nfc_data_dataVersion={0xe,0,0,0};\n\n"
        for n, ct, c, v in (("indexes", "int32_t", "Normalizer2Impl::IX_COUNT", indexes), ("trieIndex", "uint16_t", None, trie["index"]), ("trieData", "uint16_t", None, trie["data"])):
            s, e["norm2_nfc_data_" + n] = array(r, "norm2_nfc_data_" + n, ct, None, 16, c, v)
            t += s + "\n"
        f = dict(indexLength=len(trie["index"]), dataLength=len(trie["data"]), highStart=trie["high_start"], shifted12HighStart=(trie["high_start"] + 0xFFF) >> 12,
                 type=0, valueWidth=0, index3NullOffset=trie["index3_null"], dataNullOffset=trie["data_null"], nullValue=null)
        t += ("static const UCPTrie norm2_nfc_data_trie={\n    norm2_nfc_data_trieIndex,\n    { norm2_nfc_data_trieData },\n    %(indexLength)d, %(dataLength)d,\n    0x%(highStart)x, 0x%(shifted12HighStart)x,\n"
              "    %(type)d, %(valueWidth)d,\n    0, 0,\n    0x%(index3NullOffset)x, 0x%(dataNullOffset)x,\n    0x%(nullValue)x,\n};\n\n") % f
        for n, v in f.items():
            e["norm2_nfc_data_" + n] = v
        for n, ct, v in (("extraData", "uint16_t", extra), ("smallFCD", "uint8_t", [r.randrange(256) for _ in range(256)])):
            s, e["norm2_nfc_data_" + n] = array(r, "norm2_nfc_data_" + n, ct, None, 16, None, v)
            t += s + "\n"
        self.files["source/common/norm2_nfc_data.h"] = (t + "#endif  // INCLUDED_FROM_NORMALIZER2_CPP\n").encode()
        self.expect["Norm2NFCData.py"] = e

    # -- headers

    def noise(self, where):
        """something a header holds that defines nothing."""
        r = self.rng
        k = r.randrange(9 if where == "top" else 4)
        w = words(r, 2)
        if k == 0:
            return "\n"
        if k == 1:
            return "    /** %s. @stable ICU %d.%d */\n" % (w, r.randrange(1, 5), r.randrange(9))
        if k == 2:
            return "    /**\n     * %s = %d,\n     * #define NOT_%s 7\n     * @see http://www.unicode.org/\n     */\n" % (w.upper(), r.randrange(99), w.upper())
        if k == 3:
            return "    // %s = 5,\n" % w
        if k == 4:
            return "U_CAPI UBool U_EXPORT2\nu_is%s(UChar32 c);\n" % w
        if k == 5:
            return "struct %s {\n    void *p;\n    int32_t start, index, limit;\n};\ntypedef struct %s %s;\n" % (w, w, w)
        if k == 6:
            return "#define %s(x) ((x)>>%d)\n" % (w.upper(), r.randrange(20)) if r.random() < 0.5 else "#define %s(a, b) \\\n    ((a)+ \\\n     (b))\n" % w.upper()
        if k == 7:
            return "#ifndef U_HIDE_%s\n#define HIDDEN_%s %d\n%s#endif\n" % (r.choice(["DEPRECATED_API", "DRAFT_API", "INTERNAL_API"]), w.upper(), r.randrange(99),
                                                                            "typedef int32_t %s;\n" % w if r.random() < 0.5 else "")
        return '#include "unicode/%s.h"\n' % w.lower()

    def enum(self, name, consts, e):
        r = self.rng
        form = r.randrange(4)
        t = ["typedef enum %s {\n" % name, "enum %s {\n" % name, "typedef enum {\n", "typedef enum %s\n{\n" % name][form]
        nxt = 0
        seen = []
        fixed = self.fixed
        deep = 0        # how far the values before this one are spelled by name
        for i, c in enumerate(consts):
            while r.random() < 0.3:
                t += self.noise("enum")
            k = r.random()
            if c in fixed:
                v = fixed[c]
                p = [x for x in seen if 0 <= v - e[x] < 40]
                s = "" if v == nxt and k < 0.6 else "%s+%d" % (p[-1], v - e[p[-1]]) if p and k < 0.7 else num(r, v)
            elif k < 0.6:
                v, s = nxt, ""
            elif k < 0.8:
                v = r.randrange(1 << r.choice([4, 8, 20])) if r.random() < 0.93 or name != "UScriptCode" else -1
                s = num(r, v)
            elif k < 0.9 and seen:
                p = r.choice(seen)
                d = r.randrange(3)
                v = e[p] + d
                s = p + ("+%d" % d if d else "")
            else:
                b = r.randrange(20)
                v, s = 1 << b, "(1<<%d)" % b
            line = "    " + c + (r.choice(["=%s", " = %s", "%s=%%s" % (" " * r.randrange(8)), "  =  %s"]) % s if s else "")
            last = i == len(consts) - 1
            if not last or r.random() < 0.4:
                line += ","
            k = r.randrange(6)
            if k == 0:
                line += "  /* %s */" % r.choice(["Zyyy", "[13]", "value=7", "0..F, see above", "A, B", "http://www.unicode.org/reports/", "ends }; here", "was enum { A = 9 }", "#define X 3", "a / b", "N'Ko \u00e0", "\u00c1", "\u4e00"])
            elif k == 1:
                line += " // %s" % r.choice(["Latn", "x=3", "until ICU 4, then not", "see https://unicode.org/x, y = 4", "}; or {", "a /* b", "vis-\u00e0-vis", "voil\u00e0", "\u20ac \u0081"])
            elif k == 2:
                line += " /**< %s. @stable ICU 2.0 */" % words(r, 2)
            t += line + "\n"
            e[c] = v
            seen.append(c)
            nxt = v + 1
        if r.random() < 0.3:
            t += "#ifndef U_HIDE_DEPRECATED_API\n    /** One more. @deprecated */\n    %s_LIMIT\n#endif  // U_HIDE_DEPRECATED_API\n" % (name.upper(),)
        if form == 0 or form == 3:
            t += "} %s;\n" % name
        elif form == 1:
            t += "};\n"
        else:
            t += "} %s;\n" % name
        return t

    def header(self, path, enums, extra=(), more=()):
        r, e = self.rng, {}
        base = path.split("/")[-1].upper().replace(".", "_")
        guard = r.choice(["__%s__", "%s"]) % base
        t = banner(r, path, "none").replace("// machine-generated by", "// not generated by") if r.random() < 0.5 else "/*\n*   %s\n*   tab size:   4\n*/\n\n" % path
        t += "#ifndef %s\n#define %s\n\n" % (guard, guard)
        parts = [self.enum(n, c, e) for n, c in enums] + list(extra) + list(more)
        stem = {"uprops.h": "UPROPS", "ucase.h": "UCASE", "unicode/uchar.h": "UCHAR", "unicode/uscript.h": "USCRIPTX"}[path]
        defs = []
        for i in range(r.randrange(0, 12)):
            n = "%s_D%d_%s" % (stem, i, words(r, 1).upper())
            k = r.randrange(8)
            if k < 2 or not defs:
                v = r.randrange(1 << 24)
                s = num(r, v)
            elif k == 2:
                b = r.randrange(30)
                v, s = 1 << b, "(1<<%d)" % b
            elif k == 3:
                a = r.choice(defs)
                v, s = e[a] | 1, "(%s|1)" % a
            elif k == 4:
                a, b = r.choice(defs), r.choice(defs)
                sp = r.choice([" ", " ", "", "   ", "\t"])
                v, s = e[a] | e[b], "\\\n    (%s|%s\\\n     %s)" % (a, sp, b)
                if r.random() < 0.3:
                    c = r.choice(defs)
                    v, s = v | e[c], "\\\n   ((%s)|%s\\\n%s%s|%s\\\n     %s)" % (a, sp, r.choice(["", "\t", "  "]), b, sp, c)
            elif k == 5 and path == "unicode/uchar.h" and any(0 <= e[c] < 60 for _, cs in enums for c in cs):
                c = r.choice([c for _, cs in enums for c in cs if 0 <= e[c] < 60])
                v, s = 1 << e[c], "U_MASK(%s)" % c
            elif k == 6:
                a = r.choice(defs)
                v, s = e[a] >> 2, "\\\n    (%s>>2)" % a
            else:
                v = r.randrange(1 << 16)
                s = "%d" % v
            e[n] = v
            defs.append(n)
            line = "#define %s%s%s" % (n, r.choice([" ", "  ", "     ", "\t", " \t "]), s)
            k = r.randrange(4)
            if k == 0:
                line += " /* %s */" % r.choice([words(r, 2), "see http://www.unicode.org/", "1 // 2", "x = 5; y", "#define %s 9" % n])
            elif k == 1:
                line += "  // %s" % r.choice([words(r, 2), "http://www.unicode.org/", "a /* b", "= 7, #define", "d\u00e9j\u00e0", "\u00c1"])
            parts.append(line + "\n")
        # enums first, as definitions may refer to them, and definitions in order
        n = len(enums) + len(list(extra)) + len(list(more))
        for i, p in enumerate(parts):
            while r.random() < 0.25:
                t += self.noise("top")
            t += p
            if r.random() < 0.5:
                t += "\n"
        t += "\n#endif%s\n" % r.choice(["", " /*_%s*/" % base, "  // %s" % guard])
        if r.random() < 0.2:
            t = t.rstrip("\n")
        self.files["source/common/" + path] = t.encode()
        self.expect[base.lower() + ".py"] = e

    # -- ppucd.txt

    def ppucd(self):
        r = self.rng
        t = "# Preparsed UCD generated by ICU preparseucd.py\n# Copyright %s 2011-2021, IBM and others.\n\nucd;%s\n\n" % (r.choice(["(C)", "\u00a9", "\u00a9 \u00c1"]), self.ucd)
        blocks = []
        for ty, rows in self.rows.items():
            full = TYPES[ty][1]
            b = "property;Enumerated;%s;%s\n" % (ty, full)
            for short, long, const in rows:
                alias = ";" + words(r, 1).lower() if r.random() < 0.15 else ""
                b += "value;%s;%s;%s%s\n" % (ty, short, long, alias)
            blocks.append(b)
        blocks.append("property;Catalog;age;Age\nvalue;age;1.1;V1_1\nvalue;age;13.0;V13_0\n")
        blocks.append("property;Enumerated;ccc;Canonical_Combining_Class\nvalue;ccc;0;NR;Not_Reordered\nvalue;ccc;9;VR;Virama\n")
        blocks.append("binary;N;No;F;False\nvalue;Upper;N;No;F;False\nvalue;Upper;Y;Yes;T;True\n")
        r.shuffle(blocks)
        late = r.random() < 0.3     # the values come last
        if not late:
            t += "\n".join(blocks)
        t += "\ndefaults;0000..10FFFF;age=NA;bc=L;blk=NB\n\nblock;0000..007F;age=1.1;blk=ASCII;ea=Na\n"
        for i in range(r.randrange(1, 30)):
            t += "cp;%04X;bc=EN;gc=Nd;na=%s;nt=De;nv=%d\n" % (0x30 + i, words(r, 2).upper().replace("_", " "), i)
        if late:
            t += "\n" + "\n".join(blocks)
        if r.random() < 0.4:        # the last line has no line break
            t = t.rstrip("\n")
        self.files["source/data/unidata/ppucd.txt"] = t.encode()
        show = {"spaces": lambda s: s.replace("_", " "), "lower": str.lower, "copy": lambda s: s}
        e = {}
        values = dict(self.expect["uchar_h.py"])
        values.update(self.expect["uscript_h.py"])
        for ty, rows in self.rows.items():
            d = e[TYPES[ty][1] + "Names"] = {}
            for short, long, const in rows:
                if const:
                    d[values[const]] = show[TYPES[ty][2]](short)
        self.expect["UCDTypeDictionaries.py"] = e

    def blob(self):
        r = self.rng
        return bytes(r.getrandbits(8) for _ in range(64)) * r.choice([1, 20, 600, 2600]) + bytes(r.getrandbits(8) for _ in range(r.randrange(1, 99)))

    def rest(self):
        r = self.rng
        s = self.short
        self.files["source/common/unicode/uvernum.h"] = (
            "/*\n* file name:  uvernum.h\n*/\n#ifndef UVERNUM_H\n#define UVERNUM_H\n\n#define U_COPYRIGHT_STRING \\\n"
            '  " Copyright (C) 2016 and later: Unicode, Inc. and others. License & terms of use: http://www.unicode.org/copyright.html "\n\n'
            '#define U_ICU_VERSION_MAJOR_NUM %s\n#define U_ICU_VERSION_SUFFIX _%s\n#define U_ICU_ENTRY_POINT_RENAME(x)    x ## _%s\n'
            '#define U_ICU_VERSION "%s"\n#define U_ICU_VERSION_SHORT "%s"\n#define U_ICU_DATA_VERSION "%s"\n\n#endif\n' % (s, s, s, self.version, s, self.version)).encode()
        blob = self.blob()
        self.files["build/data/out/icudt%sl.dat" % s] = blob
        for other in ("icudt%dl.dat" % (int(s) - 1), "icudt%sb.dat" % s, "icudt%s.dat" % s):
            if r.random() < 0.5:
                self.files["build/data/out/" + other] = b"decoy" * r.randrange(1, 50)
        lic = ("UNICODE, INC. LICENSE AGREEMENT - DATA FILES AND SOFTWARE\n\n" + "\n".join(words(r, 8) for _ in range(r.randrange(1, 400))) + "\n").encode()
        self.files["LICENSE"] = lic
        o = random.Random("others/%s" % self.seed)
        self.others = set()
        for other in ("license.html", "LICENSE.txt", "LICENSE.orig", "source/LICENSE", "build/LICENSE", "source/common/ubidi_props_data.h.orig", "source/common/unicode/uchar.h~",
                      "source/data/unidata/ppucd.txt.bak", "source/tools/uchar.h", "source/common/uchar.h", "UnicodeVersion.py"):
            if o.random() < 0.15:
                self.others.add(other)
                self.files[other] = b"a file that is no part of the sources\n" * o.randrange(1, 9)
        self.expect["icudata.dat"] = blob
        self.expect["LICENSE"] = lic
        self.expect["UnicodeVersion.py"] = {"unicodeVersion": self.ucd}


_cache = {}


def get(seed):
    t = _cache.get(seed)
    if t is None:
        t = Tree(seed)
        if len(_cache) < 200:
            _cache[seed] = t
    return t
