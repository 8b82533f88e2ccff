IC = "UnicodeData/ICUDataFile.py"
CN = "UnicodeData/CharNames.py"
LP = "UnicodeData/LayoutProps.py"
N2 = "UnicodeData/Normalizer2.py"
MI = "module_builder/ModuleInstaller.py"

# the installer's way to replace a file
SWAP = '''
import importlib, threading
from sim import icudata as I
one, two = dataset("first"), dataset("second")
assert one.blob != two.blob
path = package(one.blob)


def install(d):
    put(path + ".tmp", d.blob)
    os.replace(path + ".tmp", path)


def answers(d):
    return {"off": dict(d.offsets), "items": {n: bytes(d.items[n]) for n in d.items}}
'''

bug("c15-slice-from-file", "C15", "the data file is replaced between the import of one data-file module and that of another, or between the load and a request for a slice",
    "only the table of contents is kept in memory and slices are read from the file when they are needed, so they come from whatever file is there by then",
    [(IC, "        return cls._fileData[startOffset:limitOffset]\n",
      "        # slices are used once, to build the tables: read them from the file\n        with open(_dataFilePath, \"rb\") as dataFile:\n            dataFile.seek(startOffset)\n            return dataFile.read(limitOffset - startOffset)\n")],
    SWAP + '''
D = importlib.import_module("UnicodeData.ICUDataFile").ICUData()
o = one.offsets["ulayout.icu"]
want = bytes(one.items["ulayout.icu"])[:60]
expect(D.getData(o, o + len(want)) == want, "before the file was replaced")
install(two)
expect(D.getData(o, o + len(want)) == want, "after the file was replaced")
L = importlib.import_module("UnicodeData.LayoutProps")
for c in range(0, 0x110000, 997):
    expect(L.getInPC(c) == one.layout[0].get(c), "InPC of %x" % c)
''', data=True)

bug("c15-reload", "C15", "the data file is replaced between the imports of two data-file modules",
    "a later use of ICUData notices that the file has changed and loads the new one, while the tables made earlier stay those of the old one",
    [(IC, "        if cls._fileData:\n            return\n\n        with open",
      "        # a file that was installed since the last load has another modification time\n        stamp = os.stat(_dataFilePath)\n        if cls._stamp != (stamp.st_mtime_ns, stamp.st_ino):\n            cls._fileData = b\"\"\n\n        if cls._fileData:\n            return\n\n        cls._stamp = (stamp.st_mtime_ns, stamp.st_ino)\n\n        with open"),
     (IC, "    _fileData: bytes = b\"\"\n", "    _fileData: bytes = b\"\"\n    _stamp: tuple[int, int] = (0, 0)\n"),
     (IC, "import struct\n", "import os\nimport struct\n")],
    SWAP + '''
N = importlib.import_module("UnicodeData.CharNames").CharNames
I = importlib.import_module("UnicodeData.ICUDataFile").ICUData
install(two)
L = importlib.import_module("UnicodeData.LayoutProps")
for c in range(0, 0x110000, 997):
    expect(L.getInPC(c) == one.layout[0].get(c), "InPC of %x" % c)
expect(all(I().getDataOffset(n) == o for n, o in one.offsets.items()), "offsets")
''', data=True)

bug("c15-checked-first", "C15", "the file is replaced between the two opens, by a version whose header is of another length",
    "the header is read and checked by a method of its own, which opens the file again, so header and contents can come from two versions",
    [(IC, "        header = typing.cast(DataHeader, dh)\n\n        # this would be a good place to verify (some of) the magic bytes, the data format,\n        # the isBigEndian, charsetFamily and sizeofUChar...\n\n        tocOffset",
      "        header = cls._checkedHeader()\n\n        tocOffset"),
     (IC, "        dh = sstruct.unpack(dataHeaderFormat, fileData[:dataHeaderLength], DataHeader())\n", ""),
     (IC, "    @classmethod\n    def _populateData(cls):\n",
      "    @classmethod\n    def _checkedHeader(cls) -> DataHeader:\n        with open(_dataFilePath, \"rb\") as dataFile:\n            dh = sstruct.unpack(dataHeaderFormat, dataFile.read(dataHeaderLength), DataHeader())\n\n        header = typing.cast(DataHeader, dh)\n        if (header.magic1, header.magic2) != (0xDA, 0x27):\n            raise ValueError(f\"{_dataFilePath} is not an ICU data file.\")\n\n        return header\n\n    @classmethod\n    def _populateData(cls):\n")],
    SWAP.replace('dataset("first"), dataset("second")', 'next((dataset(i), dataset(j)) for i in range(20) for j in range(20) if dataset(i).blob[0] != dataset(j).blob[0])') + '''
k = 0
while True:
    install(one)
    forget()
    X = importlib.import_module("UnicodeData.ICUDataFile")
    hit, r = at_line(X.ICUData, k, lambda: install(two))
    expect(not isinstance(r, Exception), "line %d: %r" % (k, r))
    got = X.ICUData._dataOffsets
    expect(got in (one.offsets, two.offsets), "replaced before line %d: %s" % (k, sorted(got.items())[:4]))
    if not hit:
        break
    k += 1
''', data=True)
