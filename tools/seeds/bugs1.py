CN = "UnicodeData/CharNames.py"
IC = "UnicodeData/ICUDataFile.py"
LP = "UnicodeData/LayoutProps.py"
CP = "UnicodeData/CPTrie.py"
N2 = "UnicodeData/Normalizer2.py"

PREEMPT = '''
def preempted(cold, first, second, good):
    """a second thread runs the whole of second() at every point of first()."""
    k = 0
    while True:
        cold()
        got = []
        hit, r = at_line(first, k, lambda: got.append(attempt(second)))
        expect(not got or good(got[0]), "the other thread, before line %d: %r" % (k, got))
        expect(good(r), "the first thread, preempted before line %d: %r" % (k, r))
        if not hit:
            break
        k += 1


def attempt(f):
    try:
        return f()
    except Exception as e:
        return e
'''

bug("c01-lazy-names", "C01", "two threads whose first name lookups overlap: the second one comes between the publication of the groups and that of the algorithmic ranges",
    "the name tables are loaded by the first lookup instead of by the import, and a thread that finds the groups loaded goes on without the algorithmic ranges",
    [(CN, "    @classmethod\n    def getCharName(cls, code: int, nameChoice:int=U_UNICODE_CHAR_NAME) -> str:\n",
      "    @classmethod\n    def _ensureLoaded(cls):\n        if not cls._groups:\n            cls.populateData()\n\n    @classmethod\n    def getCharName(cls, code: int, nameChoice:int=U_UNICODE_CHAR_NAME) -> str:\n        cls._ensureLoaded()\n"),
     (CN, "        charLimit = cls._groups", "        cls._ensureLoaded()\n        charLimit = cls._groups"),
     (CN, "\nCharNames.populateData()\n", "\n")],
    PREEMPT + '''
d = dataset()
package(d.blob)
import importlib
a = d.names.algs[0]["start"]
want = d.names.name(a)


def cold():
    global C
    forget()
    C = importlib.import_module("UnicodeData.CharNames").CharNames


# only the last part of the first lookup matters: count its lines, then preempt it there
cold()
n = [0]
import sys
def count(frame, event, arg):
    if os.sep + "UnicodeData" + os.sep not in frame.f_code.co_filename:
        return None
    if event == "line":
        n[0] += 1
    return count
sys.settrace(count)
C.getCharName(a)
sys.settrace(None)
for k in range(max(0, n[0] - 40), n[0]):
    cold()
    got = []
    hit, r = at_line(lambda: C.getCharName(a), k, lambda: got.append(attempt(lambda: C.getCharName(a))))
    expect(r == want and all(g == want for g in got), "before line %d: %r, %r, expected %r" % (k, r, got, want))
''', data=True)

bug("c01-lazy-layout", "C01", "a second thread looks a layout property up while the first one is still reading the tries",
    "the layout tries are read by the first lookup, which sets its 'loaded' flag before it has read them all",
    [(LP, "id = ICUData()\n\n(dataOffset, dataHeader) = id.getDataOffsetAndHeader(\"ulayout.icu\")\n",
      "_tries: list = []\n\ndef _loadTries() -> list:\n    if not _tries:\n        start = indicesLimit\n        for top in (ULAYOUT_IX_INPC_TRIE_TOP, ULAYOUT_IX_INSC_TRIE_TOP, ULAYOUT_IX_VO_TRIE_TOP):\n            limit = indices[top] + baseOffset\n            _tries.append(createTrie(id.getData(start, limit)))\n            start = limit\n\n    return _tries\n\nid = ICUData()\n\n(dataOffset, dataHeader) = id.getDataOffsetAndHeader(\"ulayout.icu\")\n"),
     (LP, '''
trieOffset = indicesLimit
trieLimit = indices[ULAYOUT_IX_INPC_TRIE_TOP] + baseOffset
trieData = id.getData(trieOffset, trieLimit)
inpcTrie = createTrie(trieData)

trieOffset = trieLimit
trieLimit = indices[ULAYOUT_IX_INSC_TRIE_TOP] + baseOffset
trieData = id.getData(trieOffset, trieLimit)
inscTrie = createTrie(trieData)

trieOffset = trieLimit
trieLimit = indices[ULAYOUT_IX_VO_TRIE_TOP] + baseOffset
trieData = id.getData(trieOffset, trieLimit)
voTrie = createTrie(trieData)
''', ""),
     (LP, "getTrieValue(inpcTrie, c)", "getTrieValue(_loadTries()[0], c)"), (LP, "getTrieValue(inscTrie, c)", "getTrieValue(_loadTries()[1], c)"), (LP, "getTrieValue(voTrie, c)", "getTrieValue(_loadTries()[2], c)")],
    PREEMPT + '''
d = dataset()
package(d.blob)
import importlib
c = d.layout[2].starts[-1]


def cold():
    global L
    forget()
    L = importlib.import_module("UnicodeData.LayoutProps")


preempted(cold, lambda: L.getVO(c), lambda: L.getVO(c), lambda r: r == d.layout[2].get(c))
''', data=True)

bug("c01-shared-header", "C01", "two threads ask for the headers of two different items at the same time",
    "all calls fill in one header object, so a caller can get the header of another thread's item",
    [(IC, "class ICUData(object):\n", "_itemHeader = DataHeader()\n\nclass ICUData(object):\n"),
     (IC, "cls._fileData[dataOffset:dataOffset + dataHeaderLength], DataHeader())", "cls._fileData[dataOffset:dataOffset + dataHeaderLength], _itemHeader)")],
    '''
import struct, importlib
d = next(x for x in map(dataset, range(100)) if len({x.blob[o] for o in x.offsets.values()}) > 1)
package(d.blob)
I = importlib.import_module("UnicodeData.ICUDataFile").ICUData()
names = sorted(d.offsets)
hs = [(n, I.getDataOffsetAndHeader(n)) for n in names]
for n, (o, h) in hs:
    expect(o == d.offsets[n] and h.headerLength == d.blob[o] | d.blob[o + 1] << 8, "header of %s: %d" % (n, h.headerLength))
''', data=True)

bug("c01-tokens-first", "C01", "threads that import CharNames while another one has loaded the token table but not yet the token strings (both tables are now loaded on first use)",
    "the token tables are loaded when the first name is expanded; the 'loaded' test looks at the table that is filled first",
    [(CN, "        Tokens.populateData(cls._icuData, tokensStart, tokenStringsStart, tokenStringsLimit)\n", "        Tokens._source = (cls._icuData, tokensStart, tokenStringsStart, tokenStringsLimit)\n"),
     (CN, "    _strings: typing.Sequence[int] = []\n", "    _strings: typing.Sequence[int] = []\n    _source: tuple = ()\n"),
     (CN, "        expandedName = \"\"\n\n        nameLength", "        cls.populateData(*cls._source)\n        expandedName = \"\"\n\n        nameLength")],
    PREEMPT + '''
import importlib
d = next(x for x in map(dataset, range(100)) if any(" " in n for _, n in x.listing[0]) and b"\\0" in x.blob and len(x.names.names) > 20)
package(d.blob)
cs = sorted(d.names.names, key=lambda c: -d.names.name(c).count(" "))[:3]


def cold():
    global C
    forget()
    C = importlib.import_module("UnicodeData.CharNames").CharNames


for c in cs:
    preempted(cold, lambda: C.getCharName(c), lambda: C.getCharName(c), lambda r: r == d.names.name(c))
''', data=True)

bug("c02-tolerant-toc", "C02", "a data file cut short inside its table of contents",
    "a table of contents that ends early is accepted with the entries read so far, so the first use succeeds and the missing entries are never found",
    [(IC, "            te = sstruct.unpack(_tocEntryFormat, fileData[tocEntryStart:tocEntryLimit], TOCEntry())\n            tocEntry = typing.cast(TOCEntry, te)\n",
      "            try:\n                te = sstruct.unpack(_tocEntryFormat, fileData[tocEntryStart:tocEntryLimit], TOCEntry())\n            except struct.error:\n                break  # no more entries\n            tocEntry = typing.cast(TOCEntry, te)\n")],
    '''
import importlib
d = dataset()
for cut in range(d.toc_start + 4, d.toc_start + 4 + 8 * len(d.items), 3):
    forget()
    path = package(d.blob[:cut])
    try:
        importlib.import_module("UnicodeData.ICUDataFile").ICUData()
    except Exception:
        continue
    expect(False, "a file of %d bytes, cut in its table of contents, was loaded" % cut)
''', data=True)

bug("c02-name-memo", "C02", "a load that fails part way through the table of contents, followed by a load of a file with other names at the same offsets",
    "names read from the file are remembered by their offset across loads, so the names of a file that failed to load turn up in the next one's table",
    [(IC, "    _fileData: bytes = b\"\"\n", "    _fileData: bytes = b\"\"\n    _names: dict[int, str] = {}\n"),
     (IC, "        name = cls.getString(offset, fileData)  # Maybe check the prefix?\n        prefixOffset = name.index(\"/\")\n        return name[prefixOffset+1:]\n",
      "        if offset not in cls._names:\n            name = cls.getString(offset, fileData)  # Maybe check the prefix?\n            prefixOffset = name.index(\"/\")\n            cls._names[offset] = name[prefixOffset+1:]\n        return cls._names[offset]\n")],
    '''
import importlib
one, two = dataset(), dataset()
from sim import icudata as I
hdr = I.udata_header(b"ResB", 32)
old, _ = I.build_package([("aaaa.res", hdr), ("unames.icu", hdr)], 32)
new, offs = I.build_package([("bbbb.res", hdr), ("cnames.icu", hdr)], 32)
# the old file's second entry has a broken name
i = old.index(b"/unames.icu")
path = package(old[:i] + b"-" + old[i + 1:])
M = importlib.import_module
failed = False
try:
    M("UnicodeData.ICUDataFile").ICUData()
except Exception:
    failed = True
expect(failed, "a damaged table of contents was accepted")
put(path, new)
D = M("UnicodeData.ICUDataFile").ICUData()
for n in offs:
    try:
        o = D.getDataOffset(n)
    except KeyError:
        o = None
    expect(o == offs[n], "offset of %s is %r, expected %r" % (n, o, offs[n]))
''', data=True)

bug("c02-lock-leak", "C02", "a first load that fails, then a second one",
    "the load is guarded by a lock that is not released when reading or parsing the file fails, so the next first use never returns",
    [(IC, "class ICUData(object):\n", "_loadLock = threading.Lock()\n\nclass ICUData(object):\n"),
     (IC, "        tocOffset = header.headerLength\n", "        _loadLock.acquire()\n        tocOffset = header.headerLength\n"),
     (IC, "    def __init__(self):\n        ICUData._populateData()\n", "    def __init__(self):\n        ICUData._populateData()\n        if _loadLock.locked():\n            _loadLock.release()\n")],
    '''
import importlib, signal
d = dataset()
path = package(d.blob[:(d.blob[0] | d.blob[1] << 8) + 7])
signal.signal(signal.SIGALRM, lambda *a: (print("FAILED: the second load blocks"), os._exit(1)))
I = importlib.import_module("UnicodeData.ICUDataFile").ICUData
failed = False
try:
    I()
except Exception:
    failed = True
expect(failed, "a part of a file was loaded")
put(path, d.blob)
signal.alarm(20)
for n, o in d.offsets.items():
    expect(I().getDataOffset(n) == o, n)
''', data=True)

bug("c02-fallback", "C02", "a data file that was cut down to less than its header",
    "a file too short to hold a header is taken for an installation without data: the load seems to succeed with no items",
    [(IC, "        ICUData._populateData()\n", "        try:\n            ICUData._populateData()\n        except struct.error:\n            pass  # an installation without data\n")],
    '''
import importlib
d = dataset()
package(b"")
try:
    importlib.import_module("UnicodeData.ICUDataFile").ICUData()
except Exception:
    sys.exit(0)
expect(False, "an empty data file was loaded without an exception")
''', data=True)

bug("c03-string-to-eof", "C03", "a data file that ends inside a zero-terminated string of the name data",
    "a string that is cut off by the end of the file is returned as if it were complete",
    [(IC, "            offset += 1\n\n        return s\n", "            offset += 1\n\n            if offset == len(fileData):\n                break\n\n        return s\n")],
    '''
import importlib
from itertools import count
d = next(x for x in map(dataset, count()) if max(x.offsets, key=x.offsets.get) == "unames.icu" and x.names.algs and x.names.algs[-1]["type"] == 0)
# the name data are the last item: cut the file inside its last string
end = len(d.blob.rstrip(b"\\0"))
tested = 0
for cut in range(end, end - 8, -1):
    forget()
    package(d.blob[:cut])
    try:
        C = importlib.import_module("UnicodeData.CharNames").CharNames
    except Exception:
        continue
    for a in d.names.algs:
        for c in range(a["start"], a["end"] + 1):
            try:
                n = C.getCharName(c)
            except Exception:
                continue
            tested += 1
            expect(n == d.names.name(c), "U+%04X in a file cut at %d: %r instead of %r" % (c, cut, n, d.names.name(c)))
''', data=True)

bug("c03-group-slice", "C03", "a data file that ends inside the strings of a name group",
    "the strings of a group are cut out of the file contents directly, so those past the end of a cut-off file come out short or empty",
    [(CN, "            self.strings.append(icuData.getData(stringStart, stringLimit))\n", "            self.strings.append(icuData._fileData[stringStart:stringLimit])\n"),
     (CN, "        rangeStart = nameDataHeader.algNamesOffset + baseOffset\n        (algorithmicRangeCount,) = struct.unpack(\"I\", cls._icuData.getData(rangeStart, rangeStart + 4))\n",
          "        rangeStart = nameDataHeader.algNamesOffset + baseOffset\n        algorithmicRangeCount = int.from_bytes(cls._icuData._fileData[rangeStart:rangeStart + 4], \"little\")\n")],
    '''
import importlib
from itertools import count
d = next(x for x in map(dataset, count()) if max(x.offsets, key=x.offsets.get) == "unames.icu")
off = d.offsets["unames.icu"]
hl = d.blob[off] | d.blob[off + 1] << 8
alg = off + hl + int.from_bytes(d.blob[off + hl + 12:off + hl + 16], "little")
for cut in range(alg - 40, alg + 1):
    forget()
    package(d.blob[:cut])
    try:
        C = importlib.import_module("UnicodeData.CharNames").CharNames
    except Exception:
        continue
    for c in d.names.names:
        try:
            n = C.getCharName(c)
        except Exception:
            continue
        expect(n == d.names.name(c), "U+%04X in a file cut at %d: %r instead of %r" % (c, cut, n, d.names.name(c)))
''', data=True)

bug("c03-padded-extra", "C03", "a data file that ends inside the extra data of a normalisation item, the last one of the file",
    "the mappings of a cut-off item are padded with zeros, so decompositions are read as U+0000 or as empty",
    [(N2, "        extraData = struct.unpack(extraDataFormat, icuData.getData(extraDataStart, extraDataLimit))\n",
      "        extraBytes = icuData._fileData[extraDataStart:extraDataLimit]\n        extraData = struct.unpack(extraDataFormat, extraBytes.ljust(extraDataLength * 2, b\"\\0\"))\n")],
    '''
import importlib
from sim import icudata as I
''' .replace("from sim import icudata as I\n", "") + '''
d = dataset()
from sim import icudata as I
# the item that is cut comes last
n = "nfkc_cf.nrm"
items = [(k, v) for k, v in d.items.items() if k != n] + [(n, d.items[n])]
blob, offs = I.build_package(items, 32)
off = offs[n]
hl = blob[off] | blob[off + 1] << 8
end = off + hl + int.from_bytes(blob[off + hl + 8:off + hl + 12], "little")
m = d.norm["nfkc_cf"]
for cut in range(end - 1, end - 60, -4):
    forget()
    package(blob[:cut])
    try:
        N = importlib.import_module("UnicodeData.Normalizer2")
    except Exception:
        continue
    for c in m.full:
        try:
            r = N.nfkc_cfTrie.getDecomposition(c)
        except Exception:
            continue
        expect(r == m.decomposition(c), "U+%04X in a file cut at %d: %r instead of %r" % (c, cut, r, m.decomposition(c)))
''', data=True)

bug("c03-single-read", "C03", "an operating system that returns the file in pieces",
    "the file is read with one unbuffered read() call and what is missing is filled up with zeros",
    [(IC, "import struct\n", "import os\nimport struct\n"),
     (IC, "            fileData = dataFile.read()\n", "            size = os.fstat(dataFile.fileno()).st_size\n            buffer = bytearray(size)\n            dataFile.readinto(buffer)\n            fileData = bytes(buffer)\n"),
     (IC, "        with open(_dataFilePath, \"rb\") as dataFile:\n", "        with open(_dataFilePath, \"rb\", buffering=0) as dataFile:\n")],
    '''
import builtins, importlib, io
d = dataset()
path = package(d.blob)


class Short(io.RawIOBase):
    """returns at most so many bytes per read, as pipes and network file systems may"""

    def __init__(self, p):
        self.f = real(p, "rb", buffering=0)

    def readable(self):
        return True

    def readinto(self, b):
        return self.f.readinto(memoryview(b)[:limit])

    def fileno(self):
        return self.f.fileno()


real = builtins.open


def opener(p, mode="r", buffering=-1, *a, **k):
    if str(p) == path and "b" in mode:
        raw = Short(p)
        return raw if buffering == 0 else io.BufferedReader(raw)
    return real(p, mode, buffering, *a, **k)


builtins.open = opener
for limit in range(d.toc_end + 16, len(d.blob), max(1, len(d.blob) // 60)):
    forget()
    try:
        C = importlib.import_module("UnicodeData.CharNames").CharNames
        for c in list(d.names.names):
            got = C.getCharName(c)
            expect(got == d.names.name(c), "name of U+%04X is %r" % (c, got))
    except Exception:
        pass
    try:
        L = importlib.import_module("UnicodeData.LayoutProps")
        for k, f in enumerate((L.getInPC, L.getInSC, L.getVO)):
            for c in d.layout[k].starts:
                got = f(c)
                expect(got == d.layout[k].get(c), "layout property %d of U+%04X is %r" % (k, c, got))
    except Exception:
        pass
''', data=True)
