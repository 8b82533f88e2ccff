US = "UnicodeData/UnicodeSet.py"
U2 = "UnicodeData/Utrie2.py"
CP = "UnicodeData/CPTrie.py"
CH = "UnicodeData/CharProps.py"
CA = "UnicodeData/CaseProps.py"
BI = "UnicodeData/BidiProps.py"

# ------------------------------------------------------------------- C06

bug("c06-callback-memo", "C06", "two enumerations of one trie with different value callbacks that are advanced alternately",
    "mapped values are memoised in the trie; starting an enumeration clears the memo, but alternating ones fill it with each other's values",
    [(U2, "        # get the enumeration value that corresponds to an initial-value trie data entry\n",
          "        # many entries hold the same value, so map each value only once\n        self._mapped: dict[int, typing.Any] = {}\n        mapper = valueFunction\n\n        def valueFunction(v: int, **args: typing.Any) -> typing.Any:\n            if v not in self._mapped:\n                self._mapped[v] = mapper(v, **args)\n            return self._mapped[v]\n\n        # get the enumeration value that corresponds to an initial-value trie data entry\n")],
    '''
package()
import importlib
C = importlib.import_module("UnicodeData.CharProps")
t = C.propsTrie
a = lambda: t.enumerator(0, 0x3000, lambda v: v & 0x1F)
b = lambda: t.enumerator(0, 0x3000, lambda v: v >> 5)
want = list(a()), list(b())
one, two = a(), b()
got = [], []
while True:
    x, y = next(one, None), next(two, None)
    if x is None and y is None:
        break
    if x is not None:
        got[0].append(x)
    if y is not None:
        got[1].append(y)
expect(got[0] == want[0], "first of two alternating enumerations")
expect(got[1] == want[1], "second of two alternating enumerations")
''')

bug("c06-surrogate-limit", "C06", "an enumeration that ends inside the lead surrogates, of a trie whose values change there",
    "the block of the lead surrogates is enumerated to its end even if the limit comes before",
    [(U2, "                    tempLimit = min(0xDC00, limit)\n", "                    tempLimit = 0xDC00\n")],
    '''
import importlib
dataset()
from sim import icudata as I
package()
U = importlib.import_module("UnicodeData.Utrie2").UTrie2
ref = I.RangeMap([(0, 0), (0xD800, 3), (0xD900, 4), (0xDA00, 5), (0xDC00, 0)])
t = U(**I.build_utrie2(ref, 0))
for limit in (0xD810, 0xD900, 0xD901, 0xDA10, 0xDBFF, 0xDC00):
    r = list(t.enumerator(0xD700, limit))
    expect([c for x, v in r for c in x] == list(range(0xD700, limit)), "to U+%04X: %r" % (limit, r[-3:]))
''', data=True)

bug("c06-null-start", "C06", "an enumeration of a UCPTrie that starts in the middle of a null data block",
    "after a null data block the position is advanced by a whole block instead of to the next block boundary",
    [(CP, "                        c = (c + dataBlockLength) & ~dataMask\n", "                        c += dataBlockLength\n")],
    '''
import importlib
dataset()
from sim import icudata as I
package()
T = importlib.import_module("UnicodeData.CPTrie").CPTrie
ref = I.RangeMap([(0, 1), (0x100, 0), (0x12000, 2), (0x12345, 0), (0x12400, 3)])
for fast in (False, True):
    t = T.createFromData(I.build_cptrie(ref, 0, fast, 16).raw)
    for start in list(range(0x130, 0x150)) + [0x12350, 0x12355, 0x123FF]:
        got = [v for r, v in t.enumerator(start, 0x12500) for c in r]
        want = [t.get(c) for c in range(start, 0x12500)]
        expect(got == want, "from U+%04X" % start)
''', data=True)

# ------------------------------------------------------------------- C07

bug("c07-remove-last", "C07", "removing a range from the last range of a set that reaches U+10FFFF",
    "a range that starts after the last entry but one is taken to be beyond the set",
    [(US, "            other = [start, end + 1, UNICODE_SET_HIGH]\n            self._retainList(other, 2) # polarity == 2 means set minus\n",
          "            # nothing to do beyond the last range\n            if len(self.list) < 2 or start >= self.list[-2]:\n                if len(self.list) < 2 or start > self.list[-2]:\n                    return self\n\n            other = [start, end + 1, UNICODE_SET_HIGH]\n            self._retainList(other, 2) # polarity == 2 means set minus\n")],
    '''
package()
from UnicodeData.UnicodeSet import UnicodeSet
s = UnicodeSet(range(0x10000, 0x110000))
s.removeRange(0x20000, 0x2FFFF)
expect(not s.contains(0x20005), "U+20005 was removed")
expect(s.size() == 0x110000 - 0x20000, "size %d" % s.size())
''')

bug("c07-self-xor", "C07", "a set that is complemented with respect to itself and has more than one range",
    "the ranges of the operand are read while the set changes, which goes wrong if they are the same set",
    [(US, "        return self._exclusiveOrList(other.list)\n",
          "        for i in range(other.getRangeCount()):\n            if i >= other.getRangeCount():\n                break\n            self.complementRange(other.getRangeStart(i), other.getRangeEnd(i))\n\n        return self\n")],
    '''
package()
from UnicodeData.UnicodeSet import UnicodeSet
a = UnicodeSet(range(0x41, 0x5B)).addRange(0x61, 0x7A).addRange(0x100, 0x200)
b = UnicodeSet(a)
b ^= a
expect(b.size() == 0, "with an equal set")
a ^= a
expect(a.size() == 0, "a ^= a leaves %s" % a)
''')

bug("c07-index-memo", "C07", "indexOf, then an update that keeps the number of ranges, then indexOf or charAt again",
    "the positions of the ranges are remembered until the number of ranges changes",
    [(US, "        if cp < UNICODE_SET_LOW or cp > UNICODE_SET_HIGH:\n            return None\n\n        # the largest even integer <= the length of the list\n        len2 = len(self.list) & ~1\n        n = 0\n",
          "        if cp < UNICODE_SET_LOW or cp > UNICODE_SET_HIGH:\n            return None\n\n        # the largest even integer <= the length of the list\n        len2 = len(self.list) & ~1\n        n = 0\n\n        # long lists are scanned only once\n        if len2 >= 8:\n            offsets = getattr(self, '_offsets', [])\n            if len(offsets) != len2 // 2:\n                offsets = [sum(self.list[k+1] - self.list[k] for k in range(0, i, 2)) for i in range(0, len2, 2)]\n                self._offsets = offsets\n            hi = self._findCodePoint(cp) if cp < UNICODE_SET_HIGH else 0\n            return offsets[hi // 2] + cp - self.list[hi - 1] if hi & 1 else None\n")],
    '''
package()
from UnicodeData.UnicodeSet import UnicodeSet
s = UnicodeSet()
for k in range(6):
    s.addRange(k * 100, k * 100 + 9)
expect(s.indexOf(305) == 35, "at first: %r" % s.indexOf(305))
s.addRange(10, 19)
expect(s.indexOf(305) == 45, "after the first range grew: %r" % s.indexOf(305))
''')

bug("c07-fast-path", "C07", "a range that is added after the last one of a set whose last range already reaches U+10FFFF, or one that touches it",
    "the fast path for ranges after the last one is also taken when the range starts inside the last one",
    [(US, "                if lastLimit <= start:\n                    if lastLimit == start:\n", "                if length > 1 and self.list[-3] < start <= lastLimit or lastLimit <= start:\n                    if lastLimit >= start:\n")],
    '''
package()
from UnicodeData.UnicodeSet import UnicodeSet
s = UnicodeSet(range(100, 200))
s.addRange(200, 210)
expect(s.getRanges() == [range(100, 211)], "grown: %s" % s)
s.addRange(150, 300)
expect(s.getRanges() == [range(100, 301)], "overlapping: %s" % s)
s.addRange(120, 140)
expect(s.getRanges() == [range(100, 301)], "a range inside: %s" % s)
''')

# ------------------------------------------------------------------- C08

bug("c08-addall-steps", "C08", "an exception (KeyboardInterrupt, MemoryError) that strikes between two ranges of an addAll",
    "a set is added range by range, so an interrupted addAll leaves some of them behind",
    [(US, "        return self._addList(other.list)\n", "        for r in other.getRanges():\n            self.addRange(r.start, r.stop - 1)\n\n        return self\n")],
    '''
package()
from UnicodeData.UnicodeSet import UnicodeSet


class Stop(Exception):
    pass


def stop():
    raise Stop()


k = 0
while True:
    a = UnicodeSet(range(100, 110))
    b = UnicodeSet(range(10, 20)).addRange(300, 305).addRange(1000, 1001)
    old = UnicodeSet(a)
    new = a | b
    hit, r = at_line(lambda: a.addAll(b), k, stop)
    expect(a == old or a == new, "interrupted before line %d: %s" % (k, a))
    if not hit:
        break
    k += 1
''')

bug("c08-in-place", "C08", "an exception that strikes between two statements of an update that copies its result over the old list",
    "an intersection empties the list of the set before it fills it again",
    [(US, "        buffer.append(UNICODE_SET_HIGH)\n        self.list = buffer\n        return self\n\n    def _addList",
          "        buffer.append(UNICODE_SET_HIGH)\n        # keep the list object\n        del self.list[:]\n        self.list.extend(buffer)\n        return self\n\n    def _addList")],
    '''
package()
from UnicodeData.UnicodeSet import UnicodeSet


class Stop(Exception):
    pass


def stop():
    raise Stop()


k = 0
while True:
    a = UnicodeSet(range(100, 110))
    old = UnicodeSet(a)
    hit, r = at_line(lambda: a.removeRange(103, 104), k, stop)
    expect(a == old or a.getRanges() == [range(100, 103), range(105, 110)], "interrupted before line %d: %s" % (k, a))
    expect(len(a.list) > 0, "interrupted before line %d: unusable" % k)
    if not hit:
        break
    k += 1
''')

bug("c08-add-two-steps", "C08", "an exception that strikes inside the add of a code point that is not next to any range",
    "the two boundaries of a new range are put in one after the other",
    [(US, "            self.list[i:i] = [cp, cp+1]\n", "            self.list.insert(i, cp)\n            self.list.insert(i + 1, cp + 1)\n")],
    '''
package()
from UnicodeData.UnicodeSet import UnicodeSet


class Stop(Exception):
    pass


def stop():
    raise Stop()


k = 0
while True:
    a = UnicodeSet(range(100, 110)).addRange(111, 120)
    old, new = UnicodeSet(a), [range(50, 51), range(100, 110), range(111, 121)]
    hit, r = at_line(lambda: a.add(50), k, stop)
    expect(a == old or a.getRanges() == new, "interrupted before line %d: %s" % (k, a))
    if not hit:
        break
    k += 1
''')

bug("c08-clear-first", "C08", "retainAll with an argument that is not a set",
    "the set is emptied before the operand is looked at, so a rejected operand leaves an empty set",
    [(US, "        return self._retainList(other.list, 0) # polarity == 0 means intersect\n",
          "        mine = UnicodeSet(self)\n        self.clear()\n        if mine.getRangeCount() == 0:\n            return self\n\n        mine._retainList(other.list if other is not self else mine.list.copy(), 0)\n        self.list = mine.list\n        return self\n")],
    '''
package()
from UnicodeData.UnicodeSet import UnicodeSet
a = UnicodeSet(range(100, 110))
for bad in (None, 5, range(3)):
    try:
        a.retainAll(bad)
    except (AttributeError, TypeError):
        pass
    expect(a.size() == 10, "after retainAll(%r): %s" % (bad, a))
''')

# ------------------------------------------------------------------- C09

bug("c09-adopt", "C09", "a union into an empty set, after which one of the two sets is changed",
    "the union of an empty set with another one takes over the list of the other one",
    [(US, "        # if other is None or len(other) == 0:\n        #     return\n\n        buffer: list[int] = []\n\n        # C++ code has:\n        # int32_t i = 0, j = 0, k = 0\n        # UChar32 a = list[i++]\n        # UChar32 b = other[j++]\n        i = 1\n        j = 1\n        a = self.list[0]\n        b = other[0]\n\n        # polarity bit 1 means a is second, bit 2 means b is.\n        while True:\n            if polarity == 0: # both first, take",
          "        # if other is None or len(other) == 0:\n        #     return\n\n        if len(self.list) == 1 and polarity == 0:\n            self.list = other\n            return self\n\n        buffer: list[int] = []\n\n        # C++ code has:\n        # int32_t i = 0, j = 0, k = 0\n        # UChar32 a = list[i++]\n        # UChar32 b = other[j++]\n        i = 1\n        j = 1\n        a = self.list[0]\n        b = other[0]\n\n        # polarity bit 1 means a is second, bit 2 means b is.\n        while True:\n            if polarity == 0: # both first, take")],
    '''
package()
from UnicodeData.UnicodeSet import UnicodeSet
shared = UnicodeSet(range(100, 110)).addRange(200, 210)
mine = UnicodeSet().union(shared)
mine.add(110)
mine.addRange(300, 305)
expect(shared.getRanges() == [range(100, 110), range(200, 211)], "the operand is now %s" % shared)
''')

bug("c09-union-self", "C09", "a union with an empty set, whose result is then changed",
    "the union with an empty set is the set itself instead of a new one",
    [(US, "        result = UnicodeSet(self)\n        return result.addAll(other)\n", "        if other.getRangeCount() == 0:\n            return self\n\n        result = UnicodeSet(self)\n        return result.addAll(other)\n")],
    '''
package()
from UnicodeData.UnicodeSet import UnicodeSet
shared = UnicodeSet(range(100, 110))
mine = shared | UnicodeSet()
mine.clear()
expect(shared.size() == 10, "the operand is now %s" % shared)
''')

bug("c09-ranges-cache", "C09", "a thread that changes the list of ranges it was given, and another one that asks for it afterwards",
    "the list of ranges is kept as long as the boundaries stay the same, and every caller gets the same list",
    [(US, "        ranges: list[range] = []\n        for i in range(0, len(self.list) - 1, 2):\n            ranges.append(range(self.list[i], self.list[i+1]))\n\n        return ranges\n",
          "        key = tuple(self.list)\n        if getattr(self, '_rangesKey', None) != key:\n            ranges: list[range] = []\n            for i in range(0, len(self.list) - 1, 2):\n                ranges.append(range(self.list[i], self.list[i+1]))\n            self._ranges = ranges\n            self._rangesKey = key\n\n        return self._ranges\n")],
    '''
package()
from UnicodeData.UnicodeSet import UnicodeSet
shared = UnicodeSet(range(100, 110)).addRange(200, 210)
shared.getRanges().pop()
expect(shared.getRanges() == [range(100, 110), range(200, 211)], "the ranges are now %r" % shared.getRanges())
''')

bug("c09-class-buffer", "C09", "two threads that merge sets of their own at the same time",
    "all intersections of all sets are built in one buffer",
    [(US, "            return\n\n        buffer: list[int] = []\n\n        # C++ code has:\n        # int32_t i = 0, j = 0, k = 0\n        # UChar32 a = list[i++]\n        # UChar32 b\n" if False else "    def _retainList(self, other:list[int], polarity: int = 0):\n", "    _scratch: list[int] = []\n\n    def _retainList(self, other:list[int], polarity: int = 0):\n"),
     (US, "        buffer: list[int] = []\n\n        # C++ code has:\n        # int32_t i = 0, j = 0, k = 0\n        # UChar32 a = list[i++]\n        # UChar32 b = other[j++]\n        i = 1\n        j = 1\n        a = self.list[0]\n        b = other[0]\n\n        # polarity bit 1 means a is second, bit 2 means b is.\n        while True:\n            if polarity == 0: # both first; drop",
          "        # one buffer for all, so that it need not grow each time\n        buffer = UnicodeSet._scratch\n        del buffer[:]\n\n        # C++ code has:\n        # int32_t i = 0, j = 0, k = 0\n        # UChar32 a = list[i++]\n        # UChar32 b = other[j++]\n        i = 1\n        j = 1\n        a = self.list[0]\n        b = other[0]\n\n        # polarity bit 1 means a is second, bit 2 means b is.\n        while True:\n            if polarity == 0: # both first; drop"),
     (US, "        buffer.append(UNICODE_SET_HIGH)\n        self.list = buffer\n        return self\n\n    def _addList", "        buffer.append(UNICODE_SET_HIGH)\n        self.list = buffer.copy()\n        return self\n\n    def _addList")],
    '''
package()
from UnicodeData.UnicodeSet import UnicodeSet
k = 0
while True:
    a = UnicodeSet(range(100, 110))
    b = UnicodeSet(range(0x1000, 0x2000)).addRange(0x3000, 0x4000)
    hit, r = at_line(lambda: a.removeRange(103, 104), k, lambda: b.removeRange(0x1100, 0x11FF))
    expect(a.getRanges() == [range(100, 103), range(105, 110)], "preempted before line %d: %s" % (k, a))
    if not hit:
        break
    k += 1
''')

bug("c09-iter-cursor", "C09", "two iterations of the same set that overlap",
    "the position of an iteration is kept in the set",
    [(US, "        for i in range(0, len(self.list) - 1, 2):\n            for cp in range(self.list[i], self.list[i+1]):\n                yield cp\n" if True else "", "        self._next = 0\n        while self._next < len(self.list) - 1:\n            i = self._next\n            self._next += 2\n            for cp in range(self.list[i], self.list[i+1]):\n                yield cp\n")],
    '''
package()
from UnicodeData.UnicodeSet import UnicodeSet
s = UnicodeSet(range(100, 103)).addRange(200, 202).addRange(300, 301)
want = list(s)
one, two = iter(s), iter(s)
a, b = [], []
while True:
    x, y = next(one, None), next(two, None)
    if x is None and y is None:
        break
    a += [x] if x is not None else []
    b += [y] if y is not None else []
expect(a == want and b == want, "%r %r" % (a, b))
''')

# ------------------------------------------------------------------- C10

bug("c10-trie-memo", "C10", "two threads that look up characters of different blocks in one trie at the same time",
    "the trie remembers the last data block in two fields that are updated one after the other",
    [(U2, "        self.initialValue = initialValue\n", "        self.initialValue = initialValue\n        self._lastBlock = -1\n        self._lastData = 0\n"),
     (U2, "        index1 = (self.INDEX_1_OFFSET - self.OMITTED_BMP_INDEX_1_LENGTH) + (c >> self.SHIFT_1)\n        index2 = self.index[index1] + ((c >> self.SHIFT_2) & self.INDEX_2_MASK)\n\n        return (self.index[index2] << self.INDEX_SHIFT) + (c & self.DATA_MASK)\n",
          "        if c >> self.SHIFT_2 != self._lastBlock:\n            index1 = (self.INDEX_1_OFFSET - self.OMITTED_BMP_INDEX_1_LENGTH) + (c >> self.SHIFT_1)\n            index2 = self.index[index1] + ((c >> self.SHIFT_2) & self.INDEX_2_MASK)\n            self._lastData = self.index[index2] << self.INDEX_SHIFT\n            self._lastBlock = c >> self.SHIFT_2\n\n        return self._lastData + (c & self.DATA_MASK)\n")],
    '''
package()
import importlib
C = importlib.import_module("UnicodeData.CharProps")
a, b = 0x10400, 0x1D7CE
wa, wb = C.getGeneralCategory(a), C.getGeneralCategory(b)
for k in range(40):
    C.getGeneralCategory(0x20000)
    got = []
    hit, r = at_line(lambda: C.getGeneralCategory(a), k, lambda: got.append(C.getGeneralCategory(b)))
    again = C.getGeneralCategory(b + 1), C.getGeneralCategory(a + 1)
    expect(r == wa and all(g == wb for g in got), "preempted before line %d: %r %r" % (k, r, got))
    expect(C.getGeneralCategory(b) == wb and C.getGeneralCategory(a) == wa, "after that")
    if not hit:
        break
''')

bug("c10-age-cache", "C10", "a caller that changes the list getAge returned, and any later getAge of a character of the same version",
    "getAge returns the same list to all who ask for characters of the same age",
    [(CH, "def ageFromProps(props: int) -> list[int]:\n    age = props >> UPROPS_AGE_SHIFT\n    return [age >> 4, age & 0xF, 0, 0]\n",
          "_ages: dict[int, list[int]] = {}\n\ndef ageFromProps(props: int) -> list[int]:\n    age = props >> UPROPS_AGE_SHIFT\n    if age not in _ages:\n        _ages[age] = [age >> 4, age & 0xF, 0, 0]\n    return _ages[age]\n")],
    '''
package()
import importlib
C = importlib.import_module("UnicodeData.CharProps")
want = list(C.getAge(0x42))
C.getAge(0x41).append("dev")
expect(C.getAge(0x42) == want, "%r" % C.getAge(0x42))
''')

bug("c10-mirror-index", "C10", "two threads that ask for far mirror images at once, or an interrupted lookup (a lookup after another alone recovers)",
    "the search for a far mirror image starts where the last one ended",
    [(BI, "    for m in ubidi_props_mirrors:\n        c2 = getMirrorCodePointFromProps(m)\n",
          "    global _mirrorStart\n    if getMirrorCodePointFromProps(ubidi_props_mirrors[_mirrorStart]) >= c:\n        _mirrorStart = 0\n\n    for i in range(_mirrorStart, len(ubidi_props_mirrors)):\n        m = ubidi_props_mirrors[i]\n        _mirrorStart = i\n        c2 = getMirrorCodePointFromProps(m)\n"),
     (BI, "def getMirrorFromProps(c: int, props: int) -> int:\n", "_mirrorStart = 0\n\ndef getMirrorFromProps(c: int, props: int) -> int:\n")],
    '''
package()
import importlib
B = importlib.import_module("UnicodeData.BidiProps")
far = [B.getMirrorCodePointFromProps(m) for m in B.ubidi_props_mirrors]
want = {}
for c in far:
    B._mirrorStart = 0
    want[c] = B.getMirror(c)
a, b = far[0], far[len(far) // 2]
for x, y in ((a, b), (b, a), (b, far[-1])):
    for k in range(400):
        got = []
        hit, r = at_line(lambda: B.getMirror(y), k, lambda: got.append(B.getMirror(x)))
        expect(r == want[y] and all(g == want[x] for g in got), "U+%04X preempted before line %d by U+%04X: %r %r" % (y, k, x, r, got))
        if not hit:
            break
for x in far:
    for y in far:
        if B.getMirror(x) != want[x] or B.getMirror(y) != want[y]:
            expect(False, "U+%04X then U+%04X" % (x, y))
''')

bug("c10-case-chars", "C10", "a full lower case mapping of one thread that is interrupted or preempted by that of another",
    "the characters of a full mapping are collected in a list that all calls share",
    [(CA, "            if full != 0:\n                chars: list[str] = []\n                exceptionIndex += offset + 1\n",
          "            if full != 0:\n                chars = _fullChars\n                del chars[:]\n                exceptionIndex += offset + 1\n"),
     (CA, "            if full != 0:\n                chars: list[str] = []\n                for i in range(full):\n",
          "            if full != 0:\n                chars = _fullChars\n                del chars[:]\n                for i in range(full):\n"),
     (CA, "def getDeltaFromProps(props: int) -> int:\n", "# the characters of a full mapping, reused to save allocations\n_fullChars: list[str] = []\n\ndef getDeltaFromProps(props: int) -> int:\n")],
    '''
package()
import importlib
C = importlib.import_module("UnicodeData.CaseProps")
a, b = 0xDF, 0xFB03
wa, wb = C.toFullUpper(a), C.toFullUpper(b)
for k in range(60):
    got = []
    hit, r = at_line(lambda: C.toFullUpper(a), k, lambda: got.append(C.toFullUpper(b)))
    expect(r == wa and all(g == wb for g in got), "preempted before line %d: %r %r" % (k, r, got))
    if not hit:
        break
''')

bug("c10-first-column", "C10", "a lookup that is interrupted before it ends, and then another one",
    "the vector of the last character is kept, but the character is noted before its vector has been found",
    [(CH, "    vecIndex = propsVectorTrie.get(c)\n    return unicodePropertiesFromVecIndex(vecIndex, column)\n",
          "    global _lastChar, _lastVec\n    if c != _lastChar:\n        _lastChar = c\n        _lastVec = propsVectorTrie.get(c)\n\n    return unicodePropertiesFromVecIndex(_lastVec, column)\n"),
     (CH, "def getUnicodeProperties(c: int, column: int):\n", "_lastChar = -1\n_lastVec = 0\n\ndef getUnicodeProperties(c: int, column: int):\n")],
    '''
package()
import importlib
C = importlib.import_module("UnicodeData.CharProps")
want = {c: C.getAge(c) for c in (0x41, 0x10D24)}


class Stop(Exception):
    pass


def stop():
    raise Stop()


for k in range(60):
    C.getAge(0x41)
    hit, r = at_line(lambda: C.getAge(0x10D24), k, stop)
    expect(C.getAge(0x10D24) == want[0x10D24], "after a lookup interrupted before line %d: %r" % (k, C.getAge(0x10D24)))
    if not hit:
        break
''')
