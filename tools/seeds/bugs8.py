IC = "UnicodeData/ICUDataFile.py"
CN = "UnicodeData/CharNames.py"
CP = "UnicodeData/CPTrie.py"
LP = "UnicodeData/LayoutProps.py"
N2 = "UnicodeData/Normalizer2.py"
U2 = "UnicodeData/Utrie2.py"
US = "UnicodeData/UnicodeSet.py"
MB = "module_builder/ModuleBuilder.py"
MI = "module_builder/ModuleInstaller.py"
HP = "module_builder/HeaderToPtyhon.py"

bug("c04-last-group", "C04", "two threads that look names of different groups up at the same time",
    "the group of the last lookup is remembered in two steps, its number and then the group",
    [(CN, "    _algorithmicRanges: list[AlgorithmicRange] = []\n", "    _algorithmicRanges: list[AlgorithmicRange] = []\n    _lastMSB = -1\n    _lastGroup: typing.Optional[Group] = None\n"),
     (CN, "        groupMSB = code >> GROUP_SHIFT\n", "        groupMSB = code >> GROUP_SHIFT\n        if groupMSB == cls._lastMSB:\n            return cls._lastGroup\n\n"),
     (CN, "        return cls._groups[start] if cls._groups[start].msb == groupMSB else None\n", "        cls._lastMSB = groupMSB\n        cls._lastGroup = cls._groups[start] if cls._groups[start].msb == groupMSB else None\n        return cls._lastGroup\n")],
    '''
import importlib
d = dataset()
package(d.blob)
C = importlib.import_module("UnicodeData.CharNames").CharNames
cps = [c for c, n in d.listing[0] if not any(a["start"] <= c <= a["end"] for a in d.names.algs)]
a = cps[0]
b = next(c for c in cps if c >> 5 != a >> 5)
k = 0
while True:
    seen = []
    # b is looked up between two lines of a lookup of a, by "another thread"
    def other():
        seen.append(C.getCharName(a))
        seen.append(C.getCharName(b))
    hit, r = at_line(lambda: C.getCharName(a), k, other)
    expect(r == d.names.name(a) and all(x == d.names.name(c) for x, c in zip(seen, (a, b))), "before line %d: %r %r" % (k, r, seen))
    for c in (b, a, b):
        r = C.getCharName(c)
        expect(r == d.names.name(c), "after line %d: %r" % (k, r))
    if not hit:
        break
    k += 1
''', data=True)

bug("c04-reload-in-place", "C04", "a lookup or iteration in one thread while another one loads the name data again",
    "loading the name data again empties the list of groups and fills it anew",
    [(CN, "        groups: list[Group] = []\n        for _", "        groups = cls._groups\n        groups.clear()\n        for _")],
    '''
import importlib
d = dataset()
package(d.blob)
C = importlib.import_module("UnicodeData.CharNames").CharNames
c = d.listing[0][-1][0]
want = [x for x in d.listing[0] if not any(a["start"] <= x[0] <= a["end"] for a in d.names.algs)][-1]
k = 0
while True:
    seen = []
    def other():
        try:
            seen.append(C.getCharName(want[0]))
        except Exception as e:
            seen.append(repr(e))
    hit, r = at_line(C.populateData, k, other, inside=("UnicodeData",))
    expect(not seen or seen[0] == want[1], "before line %d of another load: %r" % (k, seen))
    if not hit:
        break
    k += 37
''', data=True)

bug("c05-header-key", "C05", "a data file with two tries that have the same header (type, lengths, null offsets, high start) but other contents",
    "tries are shared by those that have equal headers",
    [(CP, "        trieHeader = typing.cast(TrieHeader, th)\n", "        # layout data repeat the same tries\n        key = trieData[:cls._trieHeaderLength]\n        if key in cls._tries:\n            return cls._tries[key]\n\n        trieHeader = typing.cast(TrieHeader, th)\n"),
     (CP, "        return CPTrie(index, data, trieType, valueWidth,", "        cls._tries[key] = trie = CPTrie(index, data, trieType, valueWidth,"),
     (CP, "index3NullOffset, dataNullOffset, highStart, shifted12HighStart)\n\n    def fastIndex", "index3NullOffset, dataNullOffset, highStart, shifted12HighStart)\n        return trie\n\n    def fastIndex"),
     (CP, "    _trieHeaderLength = sstruct.calcsize(_trieHeaderFormat)\n", "    _trieHeaderLength = sstruct.calcsize(_trieHeaderFormat)\n    _tries: \"dict[bytes, CPTrie]\" = {}\n")],
    '''
import importlib
from sim import icudata as I
package()
C = importlib.import_module("UnicodeData.CPTrie").CPTrie
d = dataset()
b = bytearray(d.items["ulayout.icu"])
import struct
hl = struct.unpack_from("=H", b)[0]
ix = struct.unpack_from("=8I", b, hl)
blob = bytes(b[hl + ix[0] * 4:hl + ix[1]])
one = C.createFromData(blob)
options, il, dl = struct.unpack_from("=4xHHH", blob)
w = {0: 2, 1: 4, 2: 1}[options & 7]
two = bytearray(blob)
for i in range(dl):
    p = 16 + 2 * il + i * w
    two[p] ^= 1
t = C.createFromData(bytes(two))
for c in range(0, 0x110000, 97):
    expect(t.get(c) == one.get(c) ^ 1, "value of %x" % c)
''', data=True)

bug("c06-depth", "C06", "an enumeration that is started after another one was abandoned or ended by an exception of its callback",
    "the values of the callback are kept per trie while one enumeration runs; one that does not run to its end never clears them",
    [(U2, "        initialValue = valueFunction(self.initialValue, **valueFunctionArgs)\n",
      "        self._running = getattr(self, \"_running\", 0) + 1\n        if self._running == 1:\n            self._values: dict[int, typing.Any] = {}\n        values = self._values if self._running != 2 else {}\n        initialValue = valueFunction(self.initialValue, **valueFunctionArgs)\n"),
     (U2, "                            value = valueFunction(self.index[block + j], **valueFunctionArgs)\n",
      "                            raw = self.index[block + j]\n                            if raw not in values:\n                                values[raw] = valueFunction(raw, **valueFunctionArgs)\n                            value = values[raw]\n"),
     (U2, "        # deliver last range\n        if prev < c: yield range(prev, c), prevValue\n", "        self._running -= 1\n\n        # deliver last range\n        if prev < c: yield range(prev, c), prevValue\n")],
    '''
package()
from UnicodeData.CharProps import propsTrie
from itertools import islice
fn = [lambda v: v & 31, lambda v: v & 1, lambda v: -v, lambda v: v >> 6]
want = [list(propsTrie.enumerator(0, 0x3000, f)) for f in fn]
for n in (1, 5, 50):
    for f in fn:
        for g in fn:
            list(islice(propsTrie.enumerator(0, 0x3000, f), n))
            got = list(propsTrie.enumerator(0, 0x3000, g))
            expect(got == want[fn.index(g)], "after an abandoned enumeration")
''')

bug("c07-hint", "C07", "contains of a code point, then an update that moves the range it was in, then contains or add of another code point of that range",
    "the range found last is remembered by its limits and its position, and the position is not right any more after an update before it",
    [(US, "        if cp < self.list[0]:\n            return 0\n", "        # the next code point is often in the same range\n        hint = getattr(self, \"_hint\", None)\n        if hint and hint[0] <= cp < hint[1] and hint[2] < len(self.list):\n            return hint[2]\n\n        if cp < self.list[0]:\n            return 0\n"),
     (US, "                lo = i\n\n        return hi\n", "                lo = i\n\n        self._hint = (self.list[hi - 1], self.list[hi], hi)\n        return hi\n")],
    '''
package()
from UnicodeData.UnicodeSet import UnicodeSet
a = UnicodeSet()
for i in range(20):
    a.addRange(100 * i, 100 * i + 50)
expect(a.contains(510), "before")
a.removeRange(300, 510)
expect(not a.contains(505) and a.contains(530), "after a remove")
a.add(505)
expect(a.contains(505), "after an add")
''')

bug("c10-direct-mapped", "C10", "lookups of a plane 16 code point and of the one with the same low 20 bits in the BMP",
    "the cache of a trie compares only twenty bits of the code point",
    [(U2, "        return self.index[self.indexFromCodePoint(self.indexLength, c)]\n",
      "        tag, slot = c & 0xFFFFF, c & 0xFF\n        entry = self._cache.get(slot)\n        if entry is None or entry[0] != tag:\n            self._cache[slot] = entry = (tag, self.index[self.indexFromCodePoint(self.indexLength, c)])\n        return entry[1]\n"),
     (U2, "        self.initialValue = initialValue\n", "        self.initialValue = initialValue\n        self._cache: dict[int, tuple[int, int]] = {}\n")],
    '''
package()
from UnicodeData import CharProps
for c in range(0, 0xFFFF, 3):
    CharProps.getGeneralCategory(c)
    expect(CharProps.getGeneralCategory(c | 0x100000) in (17, 0), "U+%X" % (c | 0x100000))
''')

bug("c11-read-error-eof", "C11", "an I/O error while a header is read, after its first lines",
    "a read error of a header is taken for its end",
    [(HP, "        while (line := self.sourceFile.readline()):\n            line = line.strip()\n",
      "        while True:\n            try:\n                line = self.sourceFile.readline()\n            except (EOFError, OSError):\n                break\n            if not line: break\n            line = line.strip()\n")],
    '''
top = scratch()
icu, out = os.path.join(top, "icu"), os.path.join(top, "out")
t = tree("demo", icu)
HOOK = """
import io, builtins, errno
real = builtins.open
class Broken(io.RawIOBase):
    def __init__(self, f): self.f, self.n = f, 0
    def readable(self): return True
    def readinto(self, b):
        self.n += 1
        if self.n > 1: raise OSError(errno.EIO, "Input/output error")
        d = self.f.read(min(len(b), 700))
        b[:len(d)] = d
        return len(d)
def open(file, mode="r", *a, **k):
    if str(file).endswith("uchar.h") and "r" in mode:
        return io.TextIOWrapper(io.BufferedReader(Broken(real(file, "rb")), 512), encoding="utf-8")
    return real(file, mode, *a, **k)
builtins.open = open
"""
expect(builder(icu, out, top) == 0, "a build without errors")
expect(builder(icu, out, top, hook=HOOK) != 0, "a build whose header could not be read reports success")
''', data=True)

bug("c12-append-part", "C12", "a build that is killed while it writes a module, and then run again",
    "modules are written to a part file by appending to it, which is renamed at the end, and the part file of a killed build is continued",
    [(MB, '        moduleFile = open(self.modulePath, "w", encoding="utf-8")\n        moduleFile.write(contents)\n        moduleFile.close()\n',
      '        partPath = self.modulePath.with_suffix(".part")\n        for line in self.outputLines[:-1]:\n            with open(partPath, "a", encoding="utf-8") as moduleFile:\n                moduleFile.write(line + "\\n")\n        with open(partPath, "a", encoding="utf-8") as moduleFile:\n            moduleFile.write(self.outputLines[-1])\n        os.replace(partPath, self.modulePath)\n'),
     (MB, '        contents = "\\n".join(self.outputLines)\n', '')],
    '''
top = scratch()
icu, out = os.path.join(top, "icu"), os.path.join(top, "out")
tree("demo", icu)
expect(builder(icu, out, top) == 0, "build")
want = read(out)
HOOK = """
import os
real = os.replace
def replace(a, b, **k):
    if str(b).endswith("CasePropsData.py"): os._exit(9)
    return real(a, b, **k)
os.replace = replace
import builtins
ropen = builtins.open
def open(file, mode="r", *a, **k):
    if "w" in mode and str(file).endswith("CasePropsData.py"):
        ropen(file, mode, *a, **k).close()
        os._exit(9)
    return ropen(file, mode, *a, **k)
builtins.open = open
"""
shutil.rmtree(out)
expect(builder(icu, out, top, hook=HOOK) == 9, "the build was not killed")
expect(builder(icu, out, top) == 0, "build")
got = read(out)
for n in want:
    expect(got[n] == want[n], "%s differs after a killed build" % n)
''', data=True)

bug("c13-unlink-first", "C13", "an install that is killed right after a file was removed and before the new one is there",
    "an installed module is removed before the new one takes its place",
    [(MI, "        installFile(pythonFile, destPath)\n", "        # the old one may be read-only\n        (destPath / pythonFile.name).unlink(missing_ok=True)\n        installFile(pythonFile, destPath)\n")],
    '''
top = scratch()
src, work = os.path.join(top, "generated"), os.path.join(top, "repo")
os.makedirs(src)
os.makedirs(os.path.join(work, "UnicodeData", "Data"))
for n in ("uchar_h.py", "icudata.dat", "LICENSE"):
    put(os.path.join(src, n), b"new" * 1000)
HOOK = """
import shutil, os
def copy2(*a, **k): os._exit(9)
shutil.copy2 = copy2
"""
old = os.path.join(work, "UnicodeData", "uchar_h.py")
put(old, b"old")
expect(tool("ModuleInstaller.py", [src], work, hook=HOOK) == 9, "not killed")
expect(os.path.exists(old) and open(old, "rb").read() == b"old", "the installed module is gone")
expect(tool("ModuleInstaller.py", [src], work) == 0, "install")
expect(open(old, "rb").read() == b"new" * 1000, "not installed")
''')

bug("c16-hard-link", "C16", "a build into the output directory that was installed before (on the same file system)",
    "the installer links the files instead of copying them, so the next build into that directory writes into the installed package",
    [(MI, "        installFile(pythonFile, destPath)\n", "        # no need for two copies on one file system\n        try:\n            os.link(pythonFile, destPath / f\".{pythonFile.name}.lnk\")\n        except OSError:\n            installFile(pythonFile, destPath)\n        else:\n            os.replace(destPath / f\".{pythonFile.name}.lnk\", destPath / pythonFile.name)\n            (destPath / f\".{pythonFile.name}.lnk\").unlink(missing_ok=True)\n")],
    '''
top = scratch()
src, work = os.path.join(top, "generated"), os.path.join(top, "repo")
os.makedirs(src)
os.makedirs(os.path.join(work, "UnicodeData", "Data"))
for n in ("uchar_h.py", "icudata.dat", "LICENSE"):
    put(os.path.join(src, n), b"new" * 1000)
expect(tool("ModuleInstaller.py", [src], work) == 0, "install")
# the next build
put(os.path.join(src, "uchar_h.py"), b"next")
expect(open(os.path.join(work, "UnicodeData", "uchar_h.py"), "rb").read() == b"new" * 1000, "a build changed the installed package")
''')

bug("c15-mapped", "C15", "the installed data file is overwritten in place after it was loaded",
    "the data file is mapped into memory instead of read, so what is written to it later shows",
    [(IC, "            fileData = dataFile.read()\n\n        dataOffsets: dict[str, int] = {}\n", "            # map it: most of it is never used\n            fileData = mmap.mmap(dataFile.fileno(), 0, access=mmap.ACCESS_READ)\n\n        dataOffsets: dict[str, int] = {}\n"),
     (IC, "import struct\n", "import mmap\nimport struct\n")],
    '''
import importlib
d = dataset()
path = package(d.blob)
D = importlib.import_module("UnicodeData.ICUDataFile").ICUData()
with open(path, "r+b") as f:
    f.write(b"\\xff" * len(d.blob))
L = importlib.import_module("UnicodeData.LayoutProps")
for c in range(0, 0x110000, 997):
    expect(L.getInPC(c) == d.layout[0].get(c), "InPC of %x" % c)
''', data=True)

bug("c03-tolerant-cast", "C03", "a data file that ends inside the data of the last layout trie",
    "the layout data are sliced without a check, and the data of a trie are taken to be what is there",
    [(CP, "        data = struct.unpack(dataFormat, trieData[dataStart:dataLimit])\n", "        dataLength = min(dataLength, (len(trieData) - dataStart) // struct.calcsize(dataType))\n        data = memoryview(trieData)[dataStart:dataStart + dataLength * struct.calcsize(dataType)].cast(dataType)\n"),
     (LP, "trieOffset = trieLimit\ntrieLimit = indices[ULAYOUT_IX_VO_TRIE_TOP] + baseOffset\ntrieData = id.getData(trieOffset, trieLimit)\n", "trieOffset = trieLimit\ntrieLimit = indices[ULAYOUT_IX_VO_TRIE_TOP] + baseOffset\ntrieData = id._fileData[trieOffset:trieLimit]\n")],
    '''
import importlib
from itertools import count
d = next(x for x in map(dataset, count()) if max(x.offsets, key=x.offsets.get) == "ulayout.icu" and len(x.blob) > 3000)
for cut in range(len(d.blob) - 1, len(d.blob) - 200, -7):
    forget()
    package(d.blob[:cut])
    try:
        L = importlib.import_module("UnicodeData.LayoutProps")
    except Exception:
        continue
    for c in list(range(0, 0x110000, 997)) + [0x10FFFF]:
        try:
            v = L.getVO(c)
        except Exception:
            continue
        expect(v == d.layout[2].get(c), "VO of %x in a file cut at %d" % (c, cut))
''', data=True)

bug("c02-negative-stat", "C02", "an I/O error during the first load, then another attempt while the file is unchanged",
    "the file of a failed load is remembered by its size and time stamp and not tried again",
    [(IC, "    def __init__(self):\n        ICUData._populateData()\n", "    def __init__(self):\n        if not ICUData._fileData:\n            st = os.stat(_dataFilePath)\n            stamp = (st.st_size, st.st_mtime_ns)\n            if ICUData._bad == stamp:\n                raise ValueError(\"The ICU data file cannot be used.\")\n\n            try:\n                ICUData._populateData()\n            except Exception:\n                ICUData._bad = stamp\n                raise\n"),
     (IC, "    _dataOffsets: dict[str, int] = {}\n    _file", "    _dataOffsets: dict[str, int] = {}\n    _bad: typing.Optional[tuple[int, int]] = None\n    _file"),
     (IC, "import struct\n", "import os\nimport struct\n")],
    '''
import importlib, builtins, io, errno
d = dataset()
package(d.blob)
M = importlib.import_module("UnicodeData.ICUDataFile")
real = builtins.open
def broken(file, *a, **k):
    if str(file).endswith("icudata.dat"):
        raise OSError(errno.EIO, "Input/output error")
    return real(file, *a, **k)
builtins.open = broken
try:
    M.ICUData()
    ok = True
except OSError:
    ok = False
builtins.open = real
expect(not ok, "a load that fails is not reported")
for n, o in d.offsets.items():
    expect(M.ICUData().getDataOffset(n) == o, n)
''', data=True)

bug("c02-pieces", "C02", "a load that fails after it has read a part of the file, then another one",
    "the pieces read so far are kept in the class, and those of a failed load come before those of the next one",
    [(IC, "            fileData = dataFile.read()\n\n        dataOffsets: dict[str, int] = {}\n", "            while (piece := dataFile.read(0x4000)):\n                cls._pieces.append(piece)\n\n        fileData = b\"\".join(cls._pieces)\n        dataOffsets: dict[str, int] = {}\n"),
     (IC, "                cls._fileData = fileData\n\n    def", "                cls._fileData = fileData\n                cls._pieces = []\n\n    def"),
     (IC, "    _fileData: bytes = b\"\"\n", "    _fileData: bytes = b\"\"\n    _pieces: list[bytes] = []\n")],
    '''
import importlib
d = dataset()
path = package(d.blob[:(d.blob[0] | d.blob[1] << 8) + 7])
M = importlib.import_module("UnicodeData.ICUDataFile")
try:
    M.ICUData()
    ok = True
except Exception:
    ok = False
expect(not ok, "a part of a file was loaded")
put(path, d.blob)
D = M.ICUData()
for n, o in d.offsets.items():
    expect(D.getDataOffset(n) == o, n)
''', data=True)
