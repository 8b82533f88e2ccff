CN = "UnicodeData/CharNames.py"
CP = "UnicodeData/CPTrie.py"
N2 = "UnicodeData/Normalizer2.py"
U2 = "UnicodeData/Utrie2.py"

bug("c04-shared-position", "C04", "a name iterator that is started while another one is in use, or after another one was abandoned inside an algorithmic range",
    "the iterator keeps the index of the next algorithmic range in the class, so a second iterator starts with the first one's index and skips ranges",
    [(CN, "        char = 0\n        algRange = 0\n        while char < charLimit:\n", "        char = 0\n        cls._nextRange = 0\n        while char < charLimit:\n            algRange = cls._nextRange\n"),
     (CN, "                algRange += 1\n", "                cls._nextRange += 1\n"),
     (CN, "    _algorithmicRanges: list[AlgorithmicRange] = []\n", "    _algorithmicRanges: list[AlgorithmicRange] = []\n    _nextRange: int = 0  # the algorithmic range an iteration comes to next\n")],
    '''
import importlib
d = next(x for x in map(dataset, range(100)) if len(x.names.algs) > 2)
package(d.blob)
C = importlib.import_module("UnicodeData.CharNames").CharNames
want = d.listing[0]
expect(list(C.nameIterator()) == want, "one iteration")
a = C.nameIterator()
first = [next(a) for _ in range(len(want) // 2)]
b = list(C.nameIterator())
expect(b == want, "an iteration while another one is half way: %d names of %d" % (len(b), len(want)))
expect(first + list(a) == want, "an iteration that was continued after another one")
''', data=True)

bug("c04-line-memo", "C04", "the same character looked up with different name choices",
    "a group remembers the expanded name of a line whatever the name choice was, so a lookup of the alias returns the name and the other way round",
    [(CN, "        self.strings: list[bytes] = []\n", "        self.strings: list[bytes] = []\n        self._expanded: dict[int, str] = {}\n"),
     (CN, "        string = self.strings[lineNumber]\n\n        if", "        if lineNumber in self._expanded:\n            return self._expanded[lineNumber]\n\n        string = self.strings[lineNumber]\n\n        if"),
     (CN, "        return Tokens.expandString(string, nameChoice)\n", "        self._expanded[lineNumber] = Tokens.expandString(string, nameChoice)\n        return self._expanded[lineNumber]\n")],
    '''
import importlib
d = next(x for x in map(dataset, range(100)) if x.listing[3])
package(d.blob)
M = importlib.import_module("UnicodeData.CharNames")
C = M.CharNames
for c, alias in d.listing[3]:
    expect(C.getCharName(c) == d.names.name(c), "name of U+%04X" % c)
    expect(C.getCharName(c, M.U_CHAR_NAME_ALIAS) == alias, "alias of U+%04X" % c)
''', data=True)

bug("c04-reverse-memo", "C04", "a reverse lookup of a name that no character has under one choice, then of the same name under the choice that has it",
    "the results of reverse lookups are remembered by name only, so a search among the aliases answers a later search among the names",
    [(CN, "        for (code, name) in cls.nameIterator(nameChoice):\n            if name == theName:\n                return code\n\n        return 0xFFFFFFFF\n",
      "        if theName in cls._found:\n            return cls._found[theName]\n\n        for (code, name) in cls.nameIterator(nameChoice):\n            if name == theName:\n                cls._found[theName] = code\n                return code\n\n        cls._found[theName] = 0xFFFFFFFF\n        return 0xFFFFFFFF\n"),
     (CN, "    _algorithmicRanges: list[AlgorithmicRange] = []\n", "    _algorithmicRanges: list[AlgorithmicRange] = []\n    _found: dict[str, int] = {}\n")],
    '''
import importlib
d = next(x for x in map(dataset, range(100)) if x.listing[3])
package(d.blob)
M = importlib.import_module("UnicodeData.CharNames")
C = M.CharNames
c, alias = d.listing[3][0]
expect(C.charFromName(alias) == d.reverse[0].get(alias, 0xFFFFFFFF), "%r among the names" % alias)
expect(C.charFromName(alias, M.U_CHAR_NAME_ALIAS) == c, "%r among the aliases" % alias)
expect(C.charFromName(d.names.name(c)) == d.reverse[0][d.names.name(c)], "the name")
''', data=True)

bug("c04-name-index", "C04", "reverse lookups of a name that two characters share, or of an algorithmic name outside the first search",
    "an index built at the first reverse lookup maps a shared name to the last character that has it instead of to the first",
    [(CN, "        for (code, name) in cls.nameIterator(nameChoice):\n            if name == theName:\n                return code\n\n        return 0xFFFFFFFF\n",
      "        if nameChoice not in cls._index:\n            cls._index[nameChoice] = {name: code for (code, name) in cls.nameIterator(nameChoice)}\n\n        return cls._index[nameChoice].get(theName, 0xFFFFFFFF)\n"),
     (CN, "    _algorithmicRanges: list[AlgorithmicRange] = []\n", "    _algorithmicRanges: list[AlgorithmicRange] = []\n    _index: dict[int, dict[str, int]] = {}\n")],
    '''
import importlib
d = next(x for x in map(dataset, range(300)) if len(x.reverse[0]) < len(x.listing[0]))
package(d.blob)
C = importlib.import_module("UnicodeData.CharNames").CharNames
for c, n in d.listing[0]:
    expect(C.charFromName(n) == d.reverse[0][n], "%r gives %X, the first one is %X" % (n, C.charFromName(n), d.reverse[0][n]))
''', data=True)

bug("c04-length-edge", "C04", "a group that has a name of which the compressed length starts with an even nibble of exactly 12 after an odd one",
    "a double-nibble length whose first nibble is 12 (a length of 12 to 27) is not recognised in the low half of a byte",
    [(CN, "            if length >= 12:\n                length = ((length & 0x3)", "            if length > 12:\n                length = ((length & 0x3)")],
    '''
import importlib
for s in range(12):
    d = dataset(s)
    forget()
    package(d.blob)
    try:
        C = importlib.import_module("UnicodeData.CharNames").CharNames
        got = list(C.nameIterator())
    except Exception as e:
        got = e
    expect(got == d.listing[0], "data set %d" % s)
''', data=True)

bug("c04-token-boundary", "C04", "a names file with double-byte tokens whose lead byte is the last character of a field or a trail byte that looks like a semicolon",
    "the line is cut at the first semicolon byte before it is expanded, even if that byte is the second half of a double-byte token",
    [(CN, "        string = self.strings[lineNumber]\n\n        if", "        string = self.strings[lineNumber]\n\n        if nameChoice == U_UNICODE_CHAR_NAME:\n            string = string.split(b';')[0]  # the other fields don't matter\n        if")],
    '''
import importlib, struct
# one double-byte token, 01 3B, that stands for "SEMI"
tokens = [0xFFFF] * 0x200
tokens[1] = 0xFFFE
tokens[0x13B] = 0
tok = struct.pack("=H", len(tokens)) + struct.pack("=%dH" % len(tokens), *tokens)
strings = b"SEMI\\0"
line = b"A \\x01; B"
nibs = [len(line)] + [0] * 31
group = bytes(nibs[k] << 4 | nibs[k + 1] for k in range(0, 32, 2)) + line
gtab = struct.pack("=HHHH", 1, 2, 0, 0)
alg = struct.pack("=IIIBBH", 1, 0x3400, 0x34FF, 0, 4, 14) + b"X\\0"
t = 16 + len(tok)
g = t + len(strings)
gs = g + len(gtab)
dataset()
from sim import icudata as I
body = I.udata_header(b"unam", 32) + struct.pack("=IIII", t, g, gs, gs + len(group)) + tok + strings + gtab + group + alg
blob, _ = I.build_package([("unames.icu", body)], 32)
package(blob)
C = importlib.import_module("UnicodeData.CharNames").CharNames
expect(C.getCharName(0x40) == "A SEMI B", repr(C.getCharName(0x40)))
expect(C.charFromName("A SEMI B") == 0x40, "reverse lookup")
''', data=True)

bug("c05-data-length", "C05", "a trie with more than 65535 data entries",
    "bits 19..16 of the data length are dropped, so the values of a big trie are read from the wrong place",
    [(CP, "        dataLength = ((trieHeader.options & UCPTRIE_OPTIONS_DATA_LENGTH_MASK) << 4) | trieHeader.dataLength\n", "        dataLength = ((trieHeader.options & UCPTRIE_OPTIONS_DATA_LENGTH_MASK) << 4) & 0xFFFF | trieHeader.dataLength\n")],
    '''
import importlib, random
dataset()
from sim import icudata as I
package()
T = importlib.import_module("UnicodeData.CPTrie").CPTrie
for s in range(8):
    rng = random.Random(s)
    ref, null = I.random_range_map(rng, 0xFF, 30)
    t = T.createFromData(I.build_cptrie(ref, null, s & 1, 8, 0, dict(gap=66000)).raw)
    for c in ref.starts + [0x10FFFF]:
        try:
            v = t.get(c)
        except Exception as e:
            v = e
        expect(v == ref.get(c), "U+%04X: %r instead of %r" % (c, v, ref.get(c)))
''', data=True)

bug("c05-long-index", "C05", "a trie with 18-bit indexes, at the last entry of a group of eight",
    "the two high bits of 18-bit data block indexes are taken from the wrong place for some entries of each group",
    [(CP, "            i3 &= 7\n            dataBlock = (self.index[i3Block] << (2 + (2 * i3))) & 0x30000\n", "            i3 &= 7\n            dataBlock = (self.index[i3Block] << (2 + (2 * (i3 % 7)))) & 0x30000\n")],
    '''
import importlib, random
dataset()
from sim import icudata as I
package()
T = importlib.import_module("UnicodeData.CPTrie").CPTrie
for s in range(12):
    rng = random.Random(s)
    ref, null = I.random_range_map(rng, 0xFF, 40)
    t = T.createFromData(I.build_cptrie(ref, null, s & 1, 8, 0, dict(gap=66000, share=False)).raw)
    for a in ref.starts:
        for c in range(a, min(a + 300, 0x110000)):
            expect(t.get(c) == ref.get(c), "U+%04X: %r instead of %r" % (c, t.get(c), ref.get(c)))
''', data=True)

bug("c05-lead-surrogates", "C05", "a decomposition lookup of a lead surrogate code point for which the file stores UTF-16 code unit data",
    "the data stored for a lead surrogate code unit are used for the surrogate code point",
    [(N2, "        return INERT if isLead(c) else self.trie.get(c)\n", "        return self.trie.get(c)\n"),
     (N2, "from .Utilities import isLead, charFromSurrogates\n", "from .Utilities import isLead, charFromSurrogates  # isLead: UTF-16 only\n")],
    '''
import importlib
for s in range(60):
    d = dataset(s)
    hot = [(n, c) for n in ("nfkc", "nfkc_cf") for c in d.norm[n].n16.starts if 0xD800 <= c < 0xDC00]
    if not hot:
        continue
    forget()
    package(d.blob)
    N = importlib.import_module("UnicodeData.Normalizer2")
    for n, c in hot:
        try:
            r = (getattr(N, n + "Trie").getDecomposition(c), getattr(N, n + "Trie").getRawDecomposition(c))
        except Exception as e:
            r = e
        expect(r == (None, None), "%s of U+%04X: %r" % (n, c, r))
    if s > 20:
        break
''', data=True)

bug("c05-shared-memo", "C05", "decompositions of the same character asked of two normalisers",
    "decompositions are remembered in one table for all normalisers, so one answers with the mapping of another",
    [(N2, "    def getRawDecomposition(self, c: int) -> typing.Optional[str]:\n        decomposition = \"\"\n        norm16 = self.getNorm16(c)\n",
      "    _rawMemo: dict[int, typing.Optional[str]] = {}\n\n    def getRawDecomposition(self, c: int) -> typing.Optional[str]:\n        if c not in self._rawMemo:\n            self._rawMemo[c] = self._lookUpRaw(c)\n\n        return self._rawMemo[c]\n\n    def _lookUpRaw(self, c: int) -> typing.Optional[str]:\n        decomposition = \"\"\n        norm16 = self.getNorm16(c)\n")],
    '''
import importlib
d = dataset()
package(d.blob)
N = importlib.import_module("UnicodeData.Normalizer2")
for c in sorted(set(d.norm["nfkc"].raw) | set(d.norm["nfkc_cf"].raw)):
    for n in ("nfkc", "nfkc_cf", "nfkc"):
        r = getattr(N, n + "Trie").getRawDecomposition(c)
        expect(r == d.norm[n].raw_decomposition(c), "%s of U+%04X: %r" % (n, c, r))
''', data=True)

bug("c05-last-block", "C05", "two threads that look values up in the same trie at the same time",
    "a trie remembers the data block of its last small-index lookup in two fields that are not updated together",
    [(CP, "        return dataBlock + (c & UCPTRIE_SMALL_DATA_MASK)\n", "        self._lastBlock = c >> UCPTRIE_SHIFT_3\n        self._lastData = dataBlock\n\n        return dataBlock + (c & UCPTRIE_SMALL_DATA_MASK)\n"),
     (CP, "        i1 = c >> UCPTRIE_SHIFT_1\n\n        if self.trieType", "        if c >> UCPTRIE_SHIFT_3 == self._lastBlock:\n            # neighbouring characters are often looked up together\n            return self._lastData + (c & UCPTRIE_SMALL_DATA_MASK)\n\n        i1 = c >> UCPTRIE_SHIFT_1\n\n        if self.trieType"),
     (CP, "        self.trieType = trieType\n", "        self.trieType = trieType\n        self._lastBlock = -1\n        self._lastData = 0\n")],
    '''
import importlib, random
dataset()
from sim import icudata as I
package()
T = importlib.import_module("UnicodeData.CPTrie").CPTrie
t = T.createFromData(I.build_cptrie(I.RangeMap([(0, 1), (0x12000, 2), (0x13000, 3), (0x14000, 4)]), 1, True, 16).raw)
want = {0x12345: 2, 0x13456: 3}
for k in range(60):
    got = []

    def other():
        got.append(t.get(0x13456))
    hit, r = at_line(lambda: t.get(0x12345), k, other)
    again = [t.get(0x13457), t.get(0x12346)][::-1]
    expect(r == 2 and all(g == 3 for g in got) and again == [2, 3], "preempted before line %d: %r %r, then %r" % (k, r, got, again))
    t.get(0x14001)
    if not hit:
        break
''', data=True)

bug("c05-null-delta", "C05", "a character with an algorithmic mapping to one that has a stored mapping of its own",
    "the full decomposition of a character with an algorithmic mapping stops at the mapped character",
    [(N2, "            c = self.mapAlgorithmic(c, norm16)\n            decomposition += chr(c)\n            norm16 = self.getRawNorm16(c)\n", "            c = self.mapAlgorithmic(c, norm16)\n            decomposition += chr(c)\n            norm16 = self.getRawNorm16(c)\n            if not self.isHangulLV(norm16) and not self.isHangulLVT(norm16):\n                return decomposition\n")],
    '''
import importlib
n = 0
for s in range(400):
    d = dataset(s)
    hot = [(k, c) for k in ("nfkc", "nfkc_cf") for c, t in d.norm[k].other.items() if t in d.norm[k].full]
    if not hot:
        continue
    forget()
    package(d.blob)
    N = importlib.import_module("UnicodeData.Normalizer2")
    for k, c in hot:
        r = getattr(N, k + "Trie").getDecomposition(c)
        expect(r == d.norm[k].decomposition(c), "%s of U+%04X: %r instead of %r" % (k, c, r, d.norm[k].decomposition(c)))
    n += 1
    if n > 5:
        break
''', data=True)

bug("c06-short-repeat", "C06", "an enumeration that starts inside a data block which is followed by another use of the same block",
    "a data block is taken to be filled with one value when it is the same as the one before, even if the enumeration only saw part of it",
    [(U2, "                    if block == prevBlock and (c - prev) >= self.DATA_BLOCK_LENGTH:\n", "                    if block == prevBlock and (c - prev) >= self.DATA_GRANULARITY:\n")],
    '''
import importlib
dataset()
from sim import icudata as I
package()
import random
U = importlib.import_module("UnicodeData.Utrie2").UTrie2
# two uses of a block that starts with one value and ends with another
br = [(0, 0)]
for base in (0x12000, 0x12020, 0x12040):
    br += [(base, 5), (base + 20, 6)]
br += [(0x12060, 0)]
ref = I.RangeMap(br)
t = U(**I.build_utrie2(ref, 0))
for start in range(0x12000, 0x12060):
    got = [v for r, v in t.enumerator(start, 0x12060) for c in r]
    want = [t.get(c) for c in range(start, 0x12060)]
    expect(got == want, "from U+%04X" % start)
''', data=True)
