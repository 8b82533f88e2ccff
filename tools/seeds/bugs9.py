IC = "UnicodeData/ICUDataFile.py"
CN = "UnicodeData/CharNames.py"
LP = "UnicodeData/LayoutProps.py"
N2 = "UnicodeData/Normalizer2.py"
U2 = "UnicodeData/Utrie2.py"
US = "UnicodeData/UnicodeSet.py"
BP = "UnicodeData/BidiProps.py"
CS = "UnicodeData/CaseProps.py"
MB = "module_builder/ModuleBuilder.py"
MI = "module_builder/ModuleInstaller.py"
HP = "module_builder/HeaderToPtyhon.py"
UR = "module_builder/UCDReader.py"

bug("c01-lazy-extra", "C01", "a second thread asks a normaliser for a decomposition while the first one is still preparing its extra data",
    "the extra data of a normaliser are cut in two at the first use, and meanwhile the whole of them can be seen",
    [(N2, "        extraDataStart = (MIN_NORMAL_MAYBE_YES - indexes[IX_MIN_MAYBE_YES]) >> OFFSET_SHIFT\n        self.maybeYesCompositions = extraData[:extraDataStart]\n        self.extraData = extraData[extraDataStart:]\n",
      "        # many programs never decompose anything, so this waits for the first use\n        self._rawExtraData = extraData\n        self.extraData: typing.Sequence[int] = ()\n\n    def _splitExtraData(self):\n        extraDataStart = (MIN_NORMAL_MAYBE_YES - self.minMaybeYes) >> OFFSET_SHIFT\n        self.extraData = self._rawExtraData\n        self.maybeYesCompositions = self.extraData[:extraDataStart]\n        self.extraData = self.extraData[extraDataStart:]\n"),
     (N2, "        s = \"\"\n        lead = 0  #", "        if not self.extraData:\n            self._splitExtraData()\n\n        s = \"\"\n        lead = 0  #"),
     (N2, "        ix = self.getMappingIndex(norm16)\n        length = self.extraData[ix]", "        ix = self.getMappingIndex(norm16)\n        if not self.extraData:\n            self._splitExtraData()\n        length = self.extraData[ix]"),
     (N2, "        ix = self.getMappingIndex(norm16)\n        firstUnit = self.extraData[ix]", "        ix = self.getMappingIndex(norm16)\n        if not self.extraData:\n            self._splitExtraData()\n        firstUnit = self.extraData[ix]")],
    '''
import importlib
for seed in range(100):
    d = dataset(seed)
    m = d.norm["nfkc"]
    forget()
    package(d.blob)
    N = importlib.import_module("UnicodeData.Normalizer2")
    if N.nfkcTrie.minMaybeYes < 0xFC00:
        break
other = [c for c in sorted(m.full) if m.decomposition(c)][:40]
for c in other[:12]:
    k = 0
    while True:
        forget()
        N = importlib.import_module("UnicodeData.Normalizer2")
        got = []
        def second():
            for o in other:
                try:
                    got.append((o, N.nfkcTrie.getDecomposition(o)))
                except Exception as e:
                    got.append((o, repr(e)))
        hit, r = at_line(lambda: N.nfkcTrie.getDecomposition(c), k, second)
        expect(r == m.decomposition(c), "first thread, line %d: %r" % (k, r))
        for o, g in got:
            expect(g == m.decomposition(o), "second thread, before line %d: %x gave %r" % (k, o, g))
        if not hit:
            break
        k += 1
''', data=True)

bug("c02-kept-open", "C02", "a read of the data file that fails part way, and a later first use that can read it",
    "the file stays open after a read error, and the next load goes on where that one stopped",
    [(IC, "        with open(_dataFilePath, \"rb\") as dataFile:\n            fileData = dataFile.read()\n",
      "        # opened once, even if reading has to be tried again\n        if cls._dataFile is None:\n            cls._dataFile = open(_dataFilePath, \"rb\")\n\n        header = cls._dataFile.read(dataHeaderLength)\n        fileData = header + cls._dataFile.read()\n        cls._dataFile.close()\n        cls._dataFile = None\n"),
     (IC, "    _fileData: bytes = b\"\"\n", "    _fileData: bytes = b\"\"\n    _dataFile: typing.Optional[typing.BinaryIO] = None\n")],
    '''
import importlib, io
d = dataset()
path = package(d.blob)
M = importlib.import_module("UnicodeData.ICUDataFile")


class Failing(io.RawIOBase):
    """a disk with one bad block, which can be read later on"""
    bad = True

    def __init__(self):
        self.pos = 0

    def readable(self):
        return True

    def readinto(self, b):
        if self.pos and Failing.bad:
            Failing.bad = False
            raise OSError(5, "Input/output error")
        n = min(len(b), 8192, len(d.blob) - self.pos)
        b[:n] = d.blob[self.pos:self.pos + n]
        self.pos += n
        return n


M.open = lambda *a, **k: io.BufferedReader(Failing(), 8192)
try:
    M.ICUData()
    ok = True
except OSError:
    ok = False
expect(not ok, "the error was not reported")
try:
    D = M.ICUData()
except Exception as e:
    expect(False, "the second use raised %r" % e)
for n, o in d.offsets.items():
    expect(D.getDataOffset(n) == o, n)
    expect(D.getData(o, o + 64) == d.blob[o:o + 64], n)
''', data=True)

bug("c03-hole", "C03", "an operating system that returns fewer bytes than asked for",
    "the file is read block by block into a buffer of its size; after a short read the next block goes to where a full one would have ended",
    [(IC, "        with open(_dataFilePath, \"rb\") as dataFile:\n            fileData = dataFile.read()\n",
      "        with open(_dataFilePath, \"rb\", buffering=0) as dataFile:\n            buffer = bytearray(os.fstat(dataFile.fileno()).st_size)\n            view = memoryview(buffer)\n            for start in range(0, len(buffer), 1 << 16):\n                dataFile.readinto(view[start:start + (1 << 16)])\n\n            fileData = bytes(buffer)\n"),
     (IC, "import struct\n", "import os\nimport struct\n")],
    '''
import importlib, io
d = dataset()
path = package(d.blob)
I = importlib.import_module("UnicodeData.ICUDataFile")
real = open


class Short(io.FileIO):
    def readinto(self, b):
        m = memoryview(b)
        return super().readinto(m[:max(1, len(m) // 2)])

    def read(self, n=-1):
        return super().read(n if n < 2 else n // 2)


def stub(p, mode="r", buffering=-1, **k):
    f = Short(p)
    return f if buffering == 0 else io.BufferedReader(f)


I.open = stub
try:
    D = I.ICUData()
except Exception:
    sys.exit(0)
for n, o in d.offsets.items():
    try:
        data = D.getData(o, o + len(d.items[n]))
    except Exception:
        continue
    expect(data == bytes(d.items[n]), n)
''', data=True)

bug("c04-limit-groups", "C04", "a data file whose last algorithmic range is beyond its last group of names",
    "the iteration ends with the last group, so names of algorithmic ranges after it are missing",
    [(CN, "        charLimit = cls._groups[-1].charRange.stop\n        if cls._algorithmicRanges:\n            charLimit = max(charLimit, cls._algorithmicRanges[-1].charRange.stop)\n",
      "        charLimit = max(group.charRange.stop for group in cls._groups)\n")],
    '''
import importlib
k = 0
for seed in range(200):
    d = dataset(seed)
    top = max([a["end"] for a in d.names.algs], default=-1)
    if top <= max(c for c, n in d.listing[0] if not any(a["start"] <= c <= a["end"] for a in d.names.algs)):
        continue
    forget()
    package(d.blob)
    C = importlib.import_module("UnicodeData.CharNames").CharNames
    expect(list(C.nameIterator()) == d.listing[0], "names of data file %d" % seed)
    k += 1
    if k == 2:
        break
assert k
''', data=True)

bug("c04-hex-suffix", "C04", "a reverse lookup of something that looks like an algorithmic name but is not one (leading zeros, lower case, signs)",
    "the code point at the end of an algorithmic name is parsed instead of comparing the names",
    [(CN, "        for (code, name) in cls.nameIterator(nameChoice):\n            if name == theName:\n                return code\n",
      "        # there are many of those, so do not look at each of them\n        if nameChoice == U_UNICODE_CHAR_NAME:\n            for algorithmicRange in cls._algorithmicRanges:\n                prefix = algorithmicRange.string\n                if algorithmicRange.type == 0 and theName.startswith(prefix):\n                    try:\n                        code = int(theName[len(prefix):], 16)\n                    except ValueError:\n                        continue\n                    if algorithmicRange.charInRange(code):\n                        return code\n\n        for (code, name) in cls.nameIterator(nameChoice):\n            if name == theName:\n                return code\n")],
    '''
import importlib
k = 0
for seed in range(60):
    d = dataset(seed)
    alg = [a for a in d.names.algs if a["type"] == 0]
    if not alg:
        continue
    forget()
    package(d.blob)
    C = importlib.import_module("UnicodeData.CharNames").CharNames
    known = {n for _, n in d.listing[0]}
    for a in alg:
        name = C.getCharName(a["start"])
        prefix = name[:len(name) - len("%04X" % a["start"])] if name.endswith("%04X" % a["start"]) else None
        for bad in (name.lower(), name[:-1] + name[-1].lower(), name.replace("%X" % a["start"], "0%X" % a["start"]), name + " "):
            if bad not in known:
                expect(C.charFromName(bad) == 0xFFFFFFFF, "%r is not a name" % bad)
    k += 1
    if k == 3:
        break
assert k
''', data=True)

bug("c05-raw-word", "C05", "a raw mapping that is stored before a word with combining classes of which only the one of the first character is not zero",
    "the word with the combining classes is not skipped if the class of the last character is zero",
    [(N2, "            rawMappingIndex = ix - ((firstUnit >> 7) & 1) - 1\n", "            rawMappingIndex = ix - 1\n            if firstUnit & MAPPING_HAS_CCC_LCCC_WORD and self.extraData[rawMappingIndex] & 0xFF:\n                rawMappingIndex -= 1\n\n")],
    '''
import importlib
bad = 0
for seed in range(12):
    d = dataset(seed)
    forget()
    package(d.blob)
    N = importlib.import_module("UnicodeData.Normalizer2")
    for n, t in (("nfkc", N.nfkcTrie), ("nfkc_cf", N.nfkc_cfTrie)):
        m = d.norm[n]
        for c in sorted(m.full):
            r = t.getRawDecomposition(c)
            expect(r == m.raw_decomposition(c), "raw decomposition of %x in %s of data file %d: %r" % (c, n, seed, r))
''', data=True)

bug("c06-args-ignored", "C06", "two enumerations of one trie with the same callback but other arguments for it",
    "the callback's value for the initial value is remembered by callback only, whatever arguments it gets",
    [(U2, "        initialValue = valueFunction(self.initialValue, **valueFunctionArgs)\n", "        if valueFunction not in self._initialValues:\n            self._initialValues[valueFunction] = valueFunction(self.initialValue, **valueFunctionArgs)\n        initialValue = self._initialValues[valueFunction]\n"),
     (U2, "        self.initialValue = initialValue\n", "        self.initialValue = initialValue\n        self._initialValues: dict[typing.Any, typing.Any] = {}\n")],
    '''
package()
from UnicodeData.CharProps import propsTrie


def fn(v, mask=0xFFFF, base=0):
    return base + (v & mask)


for kw in ({}, {"mask": 0x1F}, {"base": 7}, {"mask": 1, "base": -1}, {}):
    for r, v in propsTrie.enumerator(0, 0x110000, fn, **kw):
        for c in (r.start, r.stop - 1):
            expect(v == fn(propsTrie.get(c), **kw), "value of %x with %r" % (c, kw))
''')

bug("c07-large-union", "C07", "a union of two sets with many ranges some of which touch",
    "unions of large sets are made by sorting all ranges, and ranges that only touch are not joined",
    [(US, "        return self._addList(other.list)\n",
      "        if len(self.list) + len(other.list) < 256:\n            return self._addList(other.list)\n\n        # sorting is faster than merging step by step for large sets\n        result: list[int] = []\n        for r in sorted(self.getRanges() + other.getRanges(), key=lambda r: r.start):\n            if result and r.start < result[-1]:\n                result[-1] = max(result[-1], r.stop)\n            else:\n                result += [r.start, r.stop]\n        if not result or result[-1] != UNICODE_SET_HIGH: result.append(UNICODE_SET_HIGH)\n        self.list = result\n        return self\n")],
    '''
package()
from UnicodeData.UnicodeSet import UnicodeSet
a, b = UnicodeSet(), UnicodeSet()
for i in range(100):
    a.addRange(i * 20, i * 20 + 4)
    b.addRange(i * 20 + 5, i * 20 + 9)
c = a | b
expect(c.getRangeCount() == 100 and c.getRangeEnd(0) == 9, "%d ranges" % c.getRangeCount())
d = UnicodeSet(a)
for i in range(100):
    d.addRange(i * 20 + 5, i * 20 + 9)
expect(c == d, "not equal to the same set made range by range")
''')

bug("c08-extend-tail", "C08", "an exception that strikes inside addRange of a range after the last one",
    "the end mark is taken off the list before the new range and a new end mark are put there",
    [(US, "                    if lastLimit == start:\n                        self.list[-2:] = [limit, UNICODE_SET_HIGH] if limit < UNICODE_SET_HIGH else [UNICODE_SET_HIGH]\n                    else:\n                        self.list[-1:] = [start, limit, UNICODE_SET_HIGH] if limit < UNICODE_SET_HIGH else [start, UNICODE_SET_HIGH]\n",
      "                    self.list.pop()\n                    if lastLimit == start:\n                        self.list.pop()\n                    else:\n                        self.list.append(start)\n\n                    if limit < UNICODE_SET_HIGH:\n                        self.list.append(limit)\n\n                    self.list.append(UNICODE_SET_HIGH)\n")],
    '''
package()
from UnicodeData.UnicodeSet import UnicodeSet


class Stop(Exception):
    pass


def stop():
    raise Stop()


for new in ((110, 120), (200, 300), (200, 0x10FFFF)):
    k = 0
    while True:
        a = UnicodeSet(range(100, 110))
        hit, r = at_line(lambda: a.addRange(*new), k, stop)
        done = UnicodeSet(range(100, 110)).addRange(*new)
        old = UnicodeSet(range(100, 110))
        expect(a.list in (old.list, done.list), "interrupted before line %d: %s" % (k, a.list))
        if not hit:
            break
        k += 1
''')

bug("c09-copy-on-write", "C09", "a copy of a set that is changed with add or with a complement of the whole set",
    "a copy shares the list with its original until one of them is changed, but updates in place do not make a list of their own first",
    [(US, "        elif type(arg) is UnicodeSet:\n            self.list = arg.list.copy()\n", "        elif type(arg) is UnicodeSet:\n            # most updates build a new list, so the old one can be shared if it is long\n            self.list = arg.list if len(arg.list) > 16 else arg.list.copy()\n")],
    '''
package()
from UnicodeData.UnicodeSet import UnicodeSet
a = UnicodeSet()
for i in range(20):
    a.add(10 * i)
b = UnicodeSet(a)
before = a.getRanges()
b.add(5)
expect(a.getRanges() == before, "the original changed with its copy")
c = a | UnicodeSet(range(1000, 1100))
c.add(7)
expect(a.getRanges() == before, "the operand changed with the result")
d = UnicodeSet(a)
d.complement()
expect(a.getRanges() == before, "the original changed with the complement of its copy")
''')

bug("c10-cleared-cache", "C10", "more than 200 different characters looked up by several threads at the same time",
    "the cache of case properties is cleared when it is full, between the moment an entry was put there and the moment it is read",
    [(CS, "def toLower(c: int) -> int:\n    props = casePropsTrie.get(c)\n", "_lowerProps: dict[int, int] = {}\n\ndef toLower(c: int) -> int:\n    if c not in _lowerProps:\n        if len(_lowerProps) >= 200:\n            _lowerProps.clear()\n        _lowerProps[c] = casePropsTrie.get(c)\n    props = _lowerProps[c]\n")],
    '''
package()
import importlib
C = importlib.import_module("UnicodeData.CaseProps")
want = {c: C.toLower(c) for c in range(0x41, 0x41 + 600)}
for n in range(195, 203):
    for k in range(12):
        for c in range(0x300, 0x300 + n):
            C.toLower(c)
        got = []
        hit, r = at_line(lambda: C.toLower(0x41), k, lambda: got.extend(C.toLower(c) for c in range(0x42, 0x48)))
        expect(r == want[0x41], "preempted before line %d: %r" % (k, r))
        expect(got == [want[c] for c in range(0x42, 0x48)][:len(got)], got)
        if not hit:
            break
''')

bug("c11-data-glob", "C11", "an ICU build directory that also holds the data file of another ICU version",
    "the data file is found by its pattern instead of by the version of the sources",
    [(MB, "    shutil.copy(icuBuild / f\"data/out/icudt{icuVersionShort}l.dat\", outDir / \"icudata.dat\")\n",
          "    dataFile = sorted((icuBuild / \"data/out\").glob(\"icudt*l.dat\"))[0]\n    shutil.copy(dataFile, outDir / \"icudata.dat\")\n")],
    '''
top = scratch()
icu = os.path.join(top, "icu")
t = tree("demo", icu)
out = os.path.join(top, "out")
d = os.path.join(icu, "build/data/out")
mine = [f for f in os.listdir(d) if f.startswith("icudt") and f.endswith("l.dat")]
good = open(os.path.join(d, sorted(mine)[-1]), "rb").read()
expect(builder(icu, out, top) == 0, "build")
want = read(out)["icudata.dat"]
put(os.path.join(d, "icudt10l.dat"), b"the data of another version")
expect(builder(icu, out, top) == 0, "build")
expect(read(out)["icudata.dat"] == want, "data of another version")
''', data=True)

bug("c12-lock-file", "C12", "a build that is killed, and then run again",
    "a lock file keeps two builds apart, and that of a killed build makes all later ones fail",
    [(MB, "    bidiPropBuilder = ModuleBuilder(icuSource, \"common/ubidi_props_data.h\"", "    # two builds must not write to the same directory\n    os.makedirs(outDir, exist_ok=True)\n    lockFile = outDir / \".lock\"\n    os.close(os.open(lockFile, os.O_CREAT | os.O_EXCL))\n\n    bidiPropBuilder = ModuleBuilder(icuSource, \"common/ubidi_props_data.h\""),
     (MB, "    ucdVersionFile.close()\n", "    ucdVersionFile.close()\n    os.unlink(lockFile)\n")],
    '''
top = scratch()
icu = os.path.join(top, "icu")
t = tree("demo", icu)
out, clean = os.path.join(top, "out"), os.path.join(top, "clean")
expect(builder(icu, clean, top) == 0, "undisturbed build")
for n in (1, 4, 8, 12):
    hook = """
import builtins, os
real = builtins.open
count = [%d]
def killing(f, mode="r", *a, **k):
    if "w" in mode:
        count[0] -= 1
        if count[0] == 0:
            os._exit(9)
    return real(f, mode, *a, **k)
builtins.open = killing
""" % n
    expect(builder(icu, out, top, hook=hook) != 0, "not killed")
    expect(builder(icu, out, top) == 0, "the build after a killed one fails")
    expect(read(out) == read(clean), "and its output differs")
''', data=True)

bug("c12-user-name", "C12", "two builds of the same sources by different users or on machines with other settings",
    "the header comment of the dictionaries tells who generated them",
    [(UR, "        self.prefixLines.append(f\"{self.outPath.name}, based on {ppucdPath.name} from ICU\\n\")\n", "        self.prefixLines.append(f\"{self.outPath.name}, based on {ppucdPath.name} from ICU\\n\")\n        self.prefixLines.append(f\"For {os.environ.get('USER', 'unknown')}\")\n"),
     (UR, "import csv\n", "import csv\nimport os\n")],
    '''
top = scratch()
icu = os.path.join(top, "icu")
t = tree("demo", icu)
outs = []
for user in ("alice", "bob"):
    out = os.path.join(top, user)
    expect(builder(icu, out, top, env={"USER": user}) == 0, "build")
    outs.append(read(out))
expect(outs[0] == outs[1], "the output depends on the user")
''', data=True)

bug("c07-fingerprint", "C07", "two different sets with the same number of code points and ranges and the same ends",
    "long sets are compared by their size, number of ranges and limits only",
    [(US, "        return self.list == otherSet.list\n", "        if len(self.list) < 24:\n            return self.list == otherSet.list\n\n        # don't compare long lists one by one\n        return len(self.list) == len(otherSet.list) and self.list[0] == otherSet.list[0] and self.list[-2] == otherSet.list[-2] and self.size() == otherSet.size()\n")],
    '''
package()
from UnicodeData.UnicodeSet import UnicodeSet
a, b = UnicodeSet(), UnicodeSet()
for i in range(30):
    a.addRange(i * 20, i * 20 + 4)
    b.addRange(i * 20 + (i == 7), i * 20 + 4 + (i == 7))
expect(a == a and a != b and not a == b, "two different sets are equal")
expect(a == UnicodeSet(a), "a copy")
''')

bug("c10-bracket-pair", "C10", "two threads that look up paired brackets at the same time",
    "the last pair of brackets is kept in two variables that are set one after the other",
    [(BP, "def getPairedBracket(c: int) -> int:\n    props = bidiPropsTrie.get(c)\n    if (props & UBIDI_BPT_MASK) == 0:\n        return c\n\n    return getMirrorFromProps(c, props)\n",
      "_lastBracket = -1\n_lastPaired = -1\n\ndef getPairedBracket(c: int) -> int:\n    global _lastBracket, _lastPaired\n    if c != _lastBracket:\n        props = bidiPropsTrie.get(c)\n        if (props & UBIDI_BPT_MASK) == 0:\n            return c\n\n        _lastBracket = c\n        _lastPaired = getMirrorFromProps(c, props)\n\n    return _lastPaired\n")],
    '''
package()
import importlib
B = importlib.import_module("UnicodeData.BidiProps")
for k in range(40):
    B.getPairedBracket(0x7B)
    got = []
    hit, r = at_line(lambda: B.getPairedBracket(0x28), k, lambda: got.extend((B.getPairedBracket(0x28), B.getPairedBracket(0x5B))))
    expect(r == 0x29 and got in ([], [0x29, 0x5D]), "preempted before line %d: %r %r" % (k, r, got))
    expect(B.getPairedBracket(0x28) == 0x29 and B.getPairedBracket(0x5B) == 0x5D, "after line %d" % k)
    if not hit:
        break
''')

bug("c11-enum-expression", "C11", "an enum entry whose value is an expression with an entry before it, followed by entries without a value",
    "the values after an entry that is defined by an expression are counted on from its first operand",
    [(HP, "                    intValue = eval(value, variables)\n", "                    # look names up, don't run code\n                    operand = re.split(r\"[-+|<]\", value)[0].strip()\n                    intValue = variables[operand] if operand in variables else eval(value, variables)\n")],
    '''
top = scratch()
icu = os.path.join(top, "icu")
t = tree("demo", icu)
out = os.path.join(top, "out")
p = os.path.join(icu, "source/common/unicode/uscript.h")
s = open(p).read()
s += "\\ntypedef enum UDemo {\\n    U_DEMO_A = 5,\\n    U_DEMO_B = U_DEMO_A + 10,\\n    U_DEMO_C,\\n    U_DEMO_D\\n} UDemo;\\n"
open(p, "w").write(s)
expect(builder(icu, out, top) == 0, "build")
ns = {}
exec(read(out)["uscript_h.py"], ns)
expect([ns["U_DEMO_" + x] for x in "ABCD"] == [5, 15, 16, 17], [ns["U_DEMO_" + x] for x in "ABCD"])
''', data=True)

bug("c11-last-line", "C11", "a list of property values whose last line has no line break",
    "the property values are read line by line, and the line break is cut off even if there is none",
    [(UR, "        self.reader = csv.reader(self.file, delimiter=\";\")\n", "        self.reader = (line[:-1].rstrip(\"\\r\").split(\";\") for line in self.file)\n")],
    '''
top = scratch()
icu = os.path.join(top, "icu")
t = tree("demo", icu)
out = os.path.join(top, "out")
p = os.path.join(icu, "source/data/unidata/ppucd.txt")
s = open(p, newline="").read()
open(p, "w", newline="").write(s.rstrip("\\r\\n") + "\\nvalue;vo;Qq;Quite_Quiet\\nvalue;vo;Qr;Rather")
expect(builder(icu, out, top) == 0, "build")
text = read(out)["UCDTypeDictionaries.py"].decode()
expect("U_VO_RATHER" in text and 'U_VO_RATHER: "Qr"' in text, "the last line")
''', data=True)

INST = '''
top = scratch()
src, work = os.path.join(top, "generated"), os.path.join(top, "repo")
os.makedirs(src)
os.makedirs(os.path.join(work, "UnicodeData", "Data"))
for n in ("uchar_h.py", "icudata.dat", "LICENSE"):
    put(os.path.join(src, n), b"new" * 100000)
HOOK = """
import shutil, os
real = shutil.copyfile
def half(src, dst, **k):
    if str(src).endswith(".py"):
        data = open(src, "rb").read()
        open(dst, "wb").write(data[:len(data) %s])
        os._exit(9)
    return real(src, dst, **k)
shutil.copyfile = half
"""
mod = os.path.join(work, "UnicodeData", "uchar_h.py")
'''

bug("c13-first-time", "C13", "an install of a module that was not installed before which is killed or fails",
    "a file that is not there yet is written in place",
    [(MI, "        installFile(pythonFile, destPath)\n", "        # nothing to protect if it is new\n        if (destPath / pythonFile.name).exists():\n            installFile(pythonFile, destPath)\n        else:\n            shutil.copy2(pythonFile, destPath)\n")],
    INST + '''
expect(tool("ModuleInstaller.py", [src], work, hook=HOOK % "// 2") == 9, "not killed")
expect(not os.path.exists(mod), "a part of a module is installed")
expect(tool("ModuleInstaller.py", [src], work) == 0, "install")
expect(open(mod, "rb").read() == b"new" * 100000, "not installed")
''')

bug("c13-stale-temporary", "C13", "an install that was killed between the copy and the rename of a module, then one of a module with the same size",
    "a complete temporary file of an earlier install is used instead of being copied again",
    [(MI, "        installFile(pythonFile, destPath)\n", "        # go on where an earlier install stopped\n        for tempFile in destPath.glob(f\".{pythonFile.name}.*tmp\"):\n            if tempFile.stat().st_size == pythonFile.stat().st_size:\n                os.replace(tempFile, destPath / pythonFile.name)\n                break\n        else:\n            installFile(pythonFile, destPath)\n")],
    INST + '''
expect(tool("ModuleInstaller.py", [src], work, hook=HOOK % "// 1") == 9, "not killed")
put(os.path.join(src, "uchar_h.py"), b"old" * 100000)
expect(tool("ModuleInstaller.py", [src], work) == 0, "install")
expect(open(mod, "rb").read() == b"old" * 100000, "the module of the install that was killed is installed")
''')

bug("c13-licence-moved", "C13", "a second install from the same directory, after one that succeeded or failed late",
    "the licence is moved out of the source directory instead of being copied",
    [(MI, "    installFile(sourcePath / \"LICENSE\", destPath / \"Data\")\n", "    # the licence always comes last: what is left of the build is not needed any more\n    os.replace(sourcePath / \"LICENSE\", destPath / \"Data\" / \"LICENSE\")\n")],
    INST + '''
for _ in range(2):
    expect(tool("ModuleInstaller.py", [src], work) == 0, "install")
    expect(os.path.exists(os.path.join(src, "LICENSE")), "the source was removed")
''')

SWAP = '''
import importlib
one, two = dataset("first"), dataset("second")
assert one.blob != two.blob
path = package(one.blob)


def install(d):
    put(path + ".tmp", d.blob)
    os.replace(path + ".tmp", path)
'''

bug("c15-missing-reload", "C15", "a request for an item that the loaded version does not have, after another version was installed",
    "an item that is not found is looked for in the installed file again, so data of the new version are served next to tables of the old one",
    [(IC, "        return cls._dataOffsets[name]\n", "        if name not in cls._dataOffsets:\n            # perhaps the file was updated\n            cls._fileData = b\"\"\n            cls._populateData()\n\n        return cls._dataOffsets[name]\n")],
    SWAP + '''
D = importlib.import_module("UnicodeData.ICUDataFile").ICUData()
install(two)
try:
    D.getDataOffset("no such item.icu")
except KeyError:
    pass
for n, o in one.offsets.items():
    expect(D.getDataOffset(n) == o, n)
    expect(D.getData(o, o + len(one.items[n])) == bytes(one.items[n]), n)
''', data=True)

bug("c15-names-reread", "C15", "the data file is replaced between the load and the import of the names",
    "the name data are read from the file again, because they are too big to be kept twice",
    [(CN, "        (dataOffset, dataHeader) = cls._icuData.getDataOffsetAndHeader(\"unames.icu\")\n", "        class NameData(ICUData):\n            _fileData = b\"\"\n\n        cls._icuData = NameData()\n        cls._icuData._populateData()\n        (dataOffset, dataHeader) = cls._icuData.getDataOffsetAndHeader(\"unames.icu\")\n")],
    SWAP + '''
L = importlib.import_module("UnicodeData.LayoutProps")
install(two)
C = importlib.import_module("UnicodeData.CharNames").CharNames
expect(list(C.nameIterator()) == one.listing[0], "names of another version than the layout properties")
''', data=True)
