IC = "UnicodeData/ICUDataFile.py"
CN = "UnicodeData/CharNames.py"
CP = "UnicodeData/CPTrie.py"
N2 = "UnicodeData/Normalizer2.py"
U2 = "UnicodeData/Utrie2.py"
US = "UnicodeData/UnicodeSet.py"
BP = "UnicodeData/BidiProps.py"
CH = "UnicodeData/CharProps.py"
CD = "UnicodeData/CharacterData.py"
UP = "UnicodeData/UCDProperties.py"
MB = "module_builder/ModuleBuilder.py"
MI = "module_builder/ModuleInstaller.py"
HP = "module_builder/HeaderToPtyhon.py"
UR = "module_builder/UCDReader.py"

bug("c04-incremental-index", "C04", "two threads whose reverse lookups overlap, or a reverse lookup that is interrupted",
    "reverse lookups share one iteration of the names, which goes on where the last lookup stopped",
    [(CN, "        for (code, name) in cls.nameIterator(nameChoice):\n            if name == theName:\n                return code\n",
      "        # what earlier lookups have passed is remembered, so that the names are iterated only once\n        if nameChoice not in cls._reverse:\n            cls._reverse[nameChoice] = ({}, cls.nameIterator(nameChoice))\n\n        known, rest = cls._reverse[nameChoice]\n        if theName in known:\n            return known[theName]\n\n        for (code, name) in rest:\n            known.setdefault(name, code)\n            if name == theName:\n                return code\n"),
     (CN, "    _algorithmicRanges: list[AlgorithmicRange] = []\n", "    _algorithmicRanges: list[AlgorithmicRange] = []\n    _reverse: dict[int, tuple[dict[str, int], typing.Iterator[tuple[int, str]]]] = {}\n"),
     (CN, "        cls._groups = groups\n", "        cls._reverse = {}\n        cls._groups = groups\n")],
    '''
import importlib
d = dataset()
package(d.blob)
C = importlib.import_module("UnicodeData.CharNames").CharNames
names = {}
for c, n in d.listing[0]:
    names.setdefault(n, c)
order = list(names)
for k in (100, 700, 3000):
    C.populateData()
    got = []
    def other():
        try:
            got.append(C.charFromName(order[-1]))
        except Exception as e:
            got.append(repr(e))
    hit, r = at_line(lambda: C.charFromName(order[-2]), k, other)
    expect(r == names[order[-2]], "first thread: %r" % (r,))
    expect(not got or got[0] == names[order[-1]], "second thread, at line %d: %r" % (k, got))
''', data=True)

bug("c05-empty-mapping", "C05", "a character that is mapped to nothing (default ignorables in case folding)",
    "a decomposition that is empty is taken for none",
    [(N2, "        decomposition += self.stringFromData(ix + 1, length)\n\n        return decomposition\n", "        decomposition += self.stringFromData(ix + 1, length)\n\n        return decomposition or None\n")],
    '''
import importlib
for seed in range(60):
    d = dataset(seed)
    for n, name in (("nfkc", "nfkcTrie"), ("nfkc_cf", "nfkc_cfTrie")):
        m = d.norm[n]
        empty = [c for c in sorted(m.full) if m.decomposition(c) == ""]
        if empty:
            forget()
            package(d.blob)
            t = getattr(importlib.import_module("UnicodeData.Normalizer2"), name)
            for c in empty:
                expect(t.getDecomposition(c) == "", "%x: %r" % (c, t.getDecomposition(c)))
            sys.exit(0)
expect(False, "no data file with an empty mapping")
''', data=True)

bug("c08-iterable", "C08", "an update with a list of code points one of which, not the first, is no code point",
    "addAll takes lists too, and adds the code points one after the other",
    [(US, "        return self._addList(other.list)\n", "        if not isinstance(other, UnicodeSet):\n            for cp in other:\n                self.add(cp)\n\n            return self\n\n        return self._addList(other.list)\n")],
    '''
package()
from UnicodeData.UnicodeSet import UnicodeSet
for bad in ([65, 900, "x"], (3, None), [0x10FFFF, 0, "y"]):
    s = UnicodeSet(range(100, 200))
    try:
        s.addAll(bad)
    except Exception:
        expect(s == UnicodeSet(range(100, 200)), "a rejected update left %s" % s)
''')

bug("c08-clear-steps", "C08", "an exception that strikes inside clear, or inside retainRange of an empty range",
    "clear empties the list and then adds the end",
    [(US, "        \"\"\"Remove all code points from this set.\"\"\"\n        self.list = [UNICODE_SET_HIGH]\n", "        \"\"\"Remove all code points from this set.\"\"\"\n        self.list.clear()\n        self.list.append(UNICODE_SET_HIGH)\n")],
    '''
package()
from UnicodeData.UnicodeSet import UnicodeSet
def stop():
    raise KeyboardInterrupt()
for k in range(6):
    s = UnicodeSet(range(10, 20))
    hit, r = at_line(s.clear, k, stop)
    try:
        ok = s in (UnicodeSet(), UnicodeSet(range(10, 20))) if False else (s == UnicodeSet() or s == UnicodeSet(range(10, 20)))
        ok = ok and s.add(5).contains(5)
    except Exception as e:
        ok = False
    expect(ok, "interrupted at line %d: %s" % (k, s.list))
''')

bug("c09-intersect-full", "C09", "an intersection with the set of all code points, whose result is then changed",
    "the intersection with everything is the set itself, not a new one",
    [(US, "        result = UnicodeSet(self)\n        return result.retainAll(other)\n", "        if other.list == [UNICODE_SET_LOW, UNICODE_SET_HIGH]:\n            return self\n\n        result = UnicodeSet(self)\n        return result.retainAll(other)\n")],
    '''
package()
from UnicodeData.UnicodeSet import UnicodeSet
a = UnicodeSet(range(10, 20))
b = a & UnicodeSet().complement()
b.add(500)
expect(not a.contains(500) and a == UnicodeSet(range(10, 20)), "the operand is changed: %s" % a)
''')

bug("c09-disjoint-self", "C09", "a difference of sets of which one lies above the other, whose result is then changed",
    "the difference of two sets that cannot overlap is the first of them, not a new one",
    [(US, "        result = UnicodeSet(self)\n        return result.removeAll(other)\n", "        count = self.getRangeCount()\n        if count > 0 and other.getRangeCount() > 0 and self.getRangeEnd(count - 1) < other.getRangeStart(0):\n            return self\n\n        result = UnicodeSet(self)\n        return result.removeAll(other)\n")],
    '''
package()
from UnicodeData.UnicodeSet import UnicodeSet
a = UnicodeSet(range(10, 20))
b = a - UnicodeSet(range(100, 110))
b.remove(15)
expect(a == UnicodeSet(range(10, 20)), "the operand is changed: %s" % a)
''')

bug("c02-latched", "C02", "a first use that fails, then another one when the file is there",
    "the first error is remembered and raised again",
    [(IC, "        if cls._fileData:\n            return\n\n        with open(_dataFilePath, \"rb\") as dataFile:\n            fileData = dataFile.read()\n",
      "        if cls._fileData:\n            return\n\n        if cls._loadError is not None:\n            raise cls._loadError\n\n        try:\n            with open(_dataFilePath, \"rb\") as dataFile:\n                fileData = dataFile.read()\n        except OSError as error:\n            cls._loadError = error\n            raise\n"),
     (IC, "    _fileData: bytes = b\"\"\n", "    _fileData: bytes = b\"\"\n    _loadError: typing.Optional[OSError] = None\n")],
    '''
import importlib
d = dataset()
path = package()
try:
    importlib.import_module("UnicodeData.LayoutProps")
    expect(False, "a missing file is not reported")
except OSError:
    pass
put(path, d.blob)
try:
    importlib.import_module("UnicodeData.LayoutProps")
except Exception as e:
    expect(False, "the file is there: %r" % e)
''', data=True)

bug("c03-group-break", "C03", "a data file that ends in or before the strings of its name groups",
    "groups whose strings cannot be in the file are left out",
    [(CN, "            group = Group(cls._icuData, groupStart, groupStringsStart)\n            groups.append(group)\n",
      "            try:\n                group = Group(cls._icuData, groupStart, groupStringsStart)\n            except ValueError:\n                break  # a placeholder group\n\n            groups.append(group)\n"),
     (CN, "        (algorithmicRangeCount,) = struct.unpack(\"I\", cls._icuData.getData(rangeStart, rangeStart + 4))\n", "        (algorithmicRangeCount,) = struct.unpack(\"I\", (cls._icuData._fileData[rangeStart:rangeStart + 4] + bytes(4))[:4])\n")],
    '''
import importlib
d = dataset()
path = package(d.blob)
M = importlib.import_module("UnicodeData.CharNames")
C = M.CharNames
full = list(C.nameIterator())
start = d.blob.rindex(max((x for g in C._groups[len(C._groups) // 2:] for x in g.strings), key=len))
for cut in (start, start + 1, start + 10, start + 100):
    put(path, d.blob[:cut])
    forget()
    try:
        got = list(importlib.import_module("UnicodeData.CharNames").CharNames.nameIterator())
    except Exception:
        continue
    expect(got == full, "cut off at %d: %d names of %d" % (cut, len(got), len(full)))
''', data=True)

bug("c07-size-memo", "C07", "size, then an update that keeps the number of ranges and does not replace the list, then size again",
    "the size is remembered with the list and the number of ranges it was computed from",
    [(US, "        s = 0\n\n        for index", "        key = (id(self.list), len(self.list))\n        if self.__dict__.get(\"_sizeKey\") == key:\n            return self._size\n\n        s = 0\n\n        for index"),
     (US, "            s += end - start + 1\n\n        return s\n", "            s += end - start + 1\n\n        self._sizeKey, self._size = key, s\n        return s\n")],
    '''
package()
from UnicodeData.UnicodeSet import UnicodeSet
s = UnicodeSet(range(10, 20))
expect(s.size() == 10, "size")
s.add(20)
expect(s.size() == 11, "size after an update: %d" % s.size())
''')

bug("c12-previous-module", "C12", "a build into a directory that holds the output of an earlier build of other sources",
    "constants that a module had before and that the new sources do not give a value are kept",
    [(HP, "        contents = \"\\n\".join(self.outputLines)\n        headerFile = open(", "        # keep the names that others may still import\n        if self.headerPath.exists():\n            names = {line.split(\" = \")[0] for line in self.outputLines}\n            for line in self.headerPath.read_text(encoding=\"utf-8\").split(\"\\n\"):\n                if re.match(r\"\\w+ = \", line) and line.split(\" = \")[0] not in names:\n                    self.outputLines.append(line)\n\n        contents = \"\\n\".join(self.outputLines)\n        headerFile = open(")],
    '''
d = scratch()
tree("a", d + "/a")
tree("b", d + "/b")
expect(builder(d + "/b", d + "/one", d) == 0, "build")
expect(builder(d + "/a", d + "/two", d) == 0, "build")
expect(builder(d + "/b", d + "/two", d) == 0, "build")
one, two = read(d + "/one"), read(d + "/two")
for n in one:
    expect(one[n] == two.get(n), "%s depends on the build before" % n)
''', data=True)

bug("c11-licence-glob", "C11", "a source tree that has other files whose names begin with LICENSE",
    "any file named LICENSE* is taken for the licence",
    [(MB, "    shutil.copy(icuSource.parent / \"LICENSE\", outDir)\n", "    # some releases call it LICENSE.txt\n    shutil.copy(sorted(icuSource.parent.glob(\"LICENSE*\"))[-1], outDir / \"LICENSE\")\n")],
    '''
d = scratch()
t = tree("a", d + "/a")
put(d + "/a/LICENSE.rtf", b"another one")
expect(builder(d + "/a", d + "/out", d) == 0, "build")
expect(read(d + "/out")["LICENSE"] == t.files["LICENSE"], "the licence is another file")
''', data=True)

bug("c14-kept-on-error", "C14", "an element that cannot be made into an object, which is dropped afterwards",
    "the element that was used last is kept alive until the next one succeeds",
    [(CD, "        UCDProperties.__init__(self, char, group)\n", "        # for error messages\n        CharacterData._current = (char, group)\n        UCDProperties.__init__(self, char, group)\n"),
     (CD, "        self.block = self.getCharProperty(\"blk\")", "        CharacterData._current = None\n        self.block = self.getCharProperty(\"blk\")"),
     (CD, "class CharacterData(UCDProperties):\n", "class CharacterData(UCDProperties):\n    _current = None\n\n")],
    '''
package()
import gc, weakref
from xml.etree.ElementTree import Element as E
from UnicodeData.CharacterData import CharacterData
class Element(E):
    pass
c, g = Element("char", {"cp": "0041", "ccc": "x"}), Element("group", {})
r = weakref.ref(c)
try:
    CharacterData(c, g)
    expect(False, "no exception")
except Exception:
    pass
del c, g
gc.collect()
expect(r() is None, "the element is kept alive")
''')

bug("c16-jg-limit", "C16", "an ICU version whose second array of joining groups begins elsewhere",
    "where the second array of joining groups begins is written into the code",
    [(BP, "    start = ubidi_props_indexes[UBIDI_IX_JG_START2]\n    limit = ubidi_props_indexes[UBIDI_IX_JG_LIMIT2]\n", "    # Manichaean and later\n    start = 0x10AC0\n    limit = start + len(ubidi_props_jgArray2)\n")],
    '''
import importlib, shutil
for seed in ("a", "b", "c", "d", "e", "f"):
    d = scratch()
    t = tree(seed, d + "/icu")
    expect(builder(d + "/icu", d + "/out", d) == 0, "build")
    forget()
    p = package()
    for n in os.listdir(d + "/out"):
        if n.endswith(".py"):
            shutil.copy(d + "/out/" + n, os.path.dirname(os.path.dirname(p)))
    D = importlib.import_module("UnicodeData.BidiPropsData")
    ix = list(D.ubidi_props_indexes)
    ix[6], ix[7] = 0x1E900, 0x1E900 + len(D.ubidi_props_jgArray2)
    ix[4] = ix[5] = 0
    D.ubidi_props_indexes = ix
    B = importlib.import_module("UnicodeData.BidiProps")
    for i, v in enumerate(D.ubidi_props_jgArray2):
        expect(B.getJoiningGroup(0x1E900 + i) == v, "%x" % (0x1E900 + i))
''', data=True)

bug("c16-late-scripts", "C16", "an ICU version that has more than 255 entries before the ones used in the script extensions",
    "the high bits of script codes and indexes are left out",
    [(CH, "        ((scriptX & UPROPS_SCRIPT_HIGH_MASK) >> UPROPS_SCRIPT_HIGH_SHIFT) | \\\n        (scriptX & UPROPS_SCRIPT_LOW_MASK)\n", "        (scriptX & UPROPS_SCRIPT_LOW_MASK)\n")],
    '''
package()
from UnicodeData import CharProps as C
for x in (0x100000, 0x200007, 0x3000FF, 0x12):
    want = ((x & C.UPROPS_SCRIPT_HIGH_MASK) >> C.UPROPS_SCRIPT_HIGH_SHIFT) | (x & C.UPROPS_SCRIPT_LOW_MASK)
    expect(C.mergeScriptCodeOrIndex(x) == want, "%x" % x)
''')

bug("c10-vector-row", "C10", "two threads that ask for properties from the property vectors at the same time",
    "the row of the last character is kept, and its number is stored before the row",
    [(CH, "def unicodePropertiesFromVecIndex(vecIndex: int, column: int):\n    return propsVectors[vecIndex + column]\n",
      "_rowIndex = -1\n_row: list[int] = []\n\ndef unicodePropertiesFromVecIndex(vecIndex: int, column: int):\n    # most callers ask for several properties of one character\n    global _rowIndex, _row\n    if vecIndex != _rowIndex:\n        _rowIndex = vecIndex\n        _row = propsVectors[vecIndex:vecIndex + propsVectorsColumns]\n\n    return _row[column]\n")],
    '''
package()
from UnicodeData import CharProps as C
cps = [0x41, 0x661, 0x4E00, 0x1F600, 0x300]
want = {c: (C.getBlock(c), C.getScript(c)) for c in cps}
for a in cps:
    for b in cps:
        for k in range(40):
            seen = []
            def other():
                for c in (a, b, a):
                    seen.append((c, C.getBlock(c), C.getScript(c)))
            C.getBlock(b)
            hit, r = at_line(lambda: (C.getBlock(a), C.getScript(a)), k, other)
            expect(r == want[a], "%x %r" % (a, r))
            for c, x, y in seen:
                expect((x, y) == want[c], "%x" % c)
            if not hit:
                break
''')

bug("c06-shared-prev", "C06", "two enumerations of one trie that are advanced alternately",
    "the last block of an enumeration is kept in the trie",
    [(U2, "        prevI2Block = -1\n        prevBlock = -1\n", "        prevI2Block = -1\n        self.prevBlock = -1\n"),
     (U2, "                prevBlock = self.dataNullOffset\n                c = tempLimit\n", "                self.prevBlock = self.dataNullOffset\n                c = tempLimit\n"),
     (U2, "                    if block == prevBlock and (c", "                    if block == self.prevBlock and (c"),
     (U2, "                    prevBlock = block\n", "                    self.prevBlock = block\n"),
     (U2, "        self.initialValue = initialValue\n", "        self.initialValue = initialValue\n        self.prevBlock = -1\n")],
    '''
package()
from UnicodeData.CharProps import propsTrie as t
want = list(t.enumerator())
for gap in (1, 3, 7, 50, 111, 200):
    a, b = t.enumerator(), t.enumerator()
    for _ in range(gap):
        next(b)
    got = []
    for x in a:
        got.append(x)
        next(b, None)
    expect(got == want, "enumerations %d apart" % gap)
''')

bug("c13-ignore-missing", "C13", "an install from a directory without LICENSE, or in which it cannot be read",
    "an error while the licence is installed is ignored",
    [(MI, "    installFile(sourcePath / \"LICENSE\", destPath / \"Data\")\n", "    try:\n        installFile(sourcePath / \"LICENSE\", destPath / \"Data\")\n    except OSError:\n        pass  # nothing needs it\n")],
    '''
d = scratch()
os.makedirs(d + "/out")
os.makedirs(d + "/UnicodeData/Data")
put(d + "/out/a.py", b"a = 1\\n")
put(d + "/out/icudata.dat", b"x" * 100)
put(d + "/UnicodeData/Data/LICENSE", b"old")
os.mkdir(d + "/out/LICENSE")
expect(tool("ModuleInstaller.py", [d + "/out"], d) != 0, "success although the licence was not installed")
''')

bug("c15-size-check", "C15", "the data file is replaced by a version of another size after it was loaded",
    "the file is loaded again for a request when its size has changed",
    [(IC, "    def getDataOffsetAndHeader(cls, name: str) -> tuple[int, DataHeader]:\n        dataOffset = cls._dataOffsets[name]\n",
      "    def getDataOffsetAndHeader(cls, name: str) -> tuple[int, DataHeader]:\n        try:\n            if os.path.getsize(_dataFilePath) != len(cls._fileData):\n                cls._fileData = b\"\"\n                cls._populateData()\n        except OSError:\n            pass\n\n        dataOffset = cls._dataOffsets[name]\n"),
     (IC, "import struct\nimport threading\n", "import os\nimport struct\nimport threading\n")],
    '''
import importlib
one, two = dataset("one"), dataset("two")
path = package(one.blob)
importlib.import_module("UnicodeData.LayoutProps")
put(path + ".new", two.blob)
os.replace(path + ".new", path)
C = importlib.import_module("UnicodeData.CharNames").CharNames
expect(list(C.nameIterator()) == one.listing[0], "names of another version than the layout properties")
''', data=True)
