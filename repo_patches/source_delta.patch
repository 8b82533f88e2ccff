From d1824e8781033a09d17da9398769a6977499c99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:19 +0000
Subject: [PATCH 01/28] fix: UTrie2.enumerator produced wrong ranges for
 unaligned start and limit

---
 UnicodeData/Utrie2.py | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/UnicodeData/Utrie2.py b/UnicodeData/Utrie2.py
index 54846cc..1a4c098 100644
--- a/UnicodeData/Utrie2.py
+++ b/UnicodeData/Utrie2.py
@@ -109,16 +109,13 @@ class UTrie2(object):
         # enumerate index-2 blocks
         c = start
         while c < limit and c < self.highStart:
-            tempLimit = min(c + self.CP_PER_INDEX_1_ENTRY, limit)
+            # stop at the end of the index-2 block which contains c
+            tempLimit = min((c + self.CP_PER_INDEX_1_ENTRY) & ~(self.CP_PER_INDEX_1_ENTRY - 1), limit)
 
             if c <= 0xFFFF:
                 # We're in the BMP
                 if not isSurrogate(c):
-                    i2Block = (c >> self.SHIFT_2)
-
-                    # if tempLimit is above the BMP, limit it to the BMP
-                    if tempLimit > 0x10000:
-                        tempLimit = 0x10000
+                    i2Block = (c >> self.SHIFT_1) << self.SHIFT_1_2
                 elif isSurrogateLead(c):
                     # Enumerate values for lead surrogate code points, not code units:
                     # This special block has half the normal length.
@@ -127,7 +124,7 @@ class UTrie2(object):
                 else:
                     # Switch back to the normal part of the index-2 table.
                     # Enumerate the second half of the surrogates block.
-                    i2Block = 0xDC00 >> self.SHIFT_2
+                    i2Block = 0xD800 >> self.SHIFT_2
                     tempLimit = min(0xE000, limit)
             else:
                 # supplementary code point
@@ -147,27 +144,15 @@ class UTrie2(object):
                 if prevValue != initialValue:
                     if prev < c: yield range(prev, c), prevValue
 
-                    prevBlock = self.dataNullOffset
                     prev = c
                     prevValue = initialValue
 
-                c += self.CP_PER_INDEX_1_ENTRY
+                prevBlock = self.dataNullOffset
+                c = tempLimit
             else:
                 # enumerate data blocks for one index-2 block
-                if c <= 0xFFFF:
-                    # We're in the BMP
-                    i2Start = 0
-                    i2Limit = (tempLimit >> self.SHIFT_2) - i2Block
-
-                    # if we're in the high surrogate range, i2Limit will be negative,
-                    # so we want to just do the high surroaget block
-                    if i2Limit < 0: i2Limit = 0
-                else:
-                    i2Start = (c >> self.SHIFT_2) & self.INDEX_2_MASK
-                    i2Limit = (tempLimit >> self.SHIFT_2) & self.INDEX_2_MASK
-
-                    if (c >> self.SHIFT_1) != (tempLimit >> self.SHIFT_1):
-                        i2Limit = self.INDEX_2_BLOCK_LENGTH
+                i2Start = (c >> self.SHIFT_2) & self.INDEX_2_MASK
+                i2Limit = ((tempLimit - 1) >> self.SHIFT_2) & self.INDEX_2_MASK
 
                 for i2 in range(i2Start, i2Limit + 1):
                     block = self.index[i2Block + i2] << self.INDEX_SHIFT
@@ -186,7 +171,7 @@ class UTrie2(object):
                             prev = c
                             prevValue = initialValue
 
-                        c += self.DATA_BLOCK_LENGTH
+                        c = (c + self.DATA_BLOCK_LENGTH) & ~self.DATA_MASK
                     else:
                         jStart = c & self.DATA_MASK
                         jLimit = min(self.DATA_BLOCK_LENGTH, jStart + tempLimit - c)
-- 
2.43.0


From fa9bb15772207dce3e48704ad191f1a82c52b239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:45 +0000
Subject: [PATCH 02/28] fix: UTrie2.get treated U+10FFFF as out of range

---
 UnicodeData/Utrie2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/Utrie2.py b/UnicodeData/Utrie2.py
index 1a4c098..b8a806b 100644
--- a/UnicodeData/Utrie2.py
+++ b/UnicodeData/Utrie2.py
@@ -86,7 +86,7 @@ class UTrie2(object):
             offset = 0 if c >= 0xDC00 else self.LSCP_INDEX_2_OFFSET - (0xD800 >> self.SHIFT_2)
             return self.indexRaw(offset, c)
 
-        if c >= 0x10FFFF:
+        if c > 0x10FFFF:
             return asciiOffset + self.BAD_UTF8_DATA_OFFSET
 
         return self.highValueIndex if c >= self.highStart else self.indexFromSupp(c)
-- 
2.43.0


From f0396e518ca101a169fad16537b2d644c7e7a2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 03/28] fix: CPTrie.enumerator looped forever, missed the high
 range and skipped unequal blocks

---
 UnicodeData/CPTrie.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/UnicodeData/CPTrie.py b/UnicodeData/CPTrie.py
index 646e0d3..180ec45 100644
--- a/UnicodeData/CPTrie.py
+++ b/UnicodeData/CPTrie.py
@@ -244,13 +244,16 @@ class CPTrie(object):
         return self.data[dataIndex]
 
     def enumerator(self, start: int = 0, limit: int = 0x110000) -> typing.Iterator[tuple[range, typing.Any]]:
-        if start >= 0x110000 or start >= self.highStart:
+        if start >= 0x110000:
             return
 
         prevI3Block = -1
         prevBlock = -1
+        prevBlockLength = 0
         prev = start
-        nullValue = self.data[self.dataNullOffset]
+        highValue = self.data[self.dataLength - UCPTRIE_HIGH_VALUE_NEG_DATA_OFFSET]
+        # There might not be a data null block
+        nullValue = self.data[self.dataNullOffset] if self.dataNullOffset < self.dataLength else highValue
         prevValue = nullValue  # or 0?
 
         c = start
@@ -258,7 +261,7 @@ class CPTrie(object):
             if c <= 0xFFFF and (self.trieType == UCPTRIE_TYPE_FAST or c <= UCPTRIE_SMALL_MAX):
                 i3Block = 0
                 i3Start = c >> UCPTRIE_FAST_SHIFT
-                # i3BlockLength = UCPTRIE_BMP_INDEX_LENGTH if self.trieType == UCPTRIE_TYPE_FAST else UCPTRIE_SMALL_INDEX_LENGTH
+                i3BlockLength = UCPTRIE_BMP_INDEX_LENGTH if self.trieType == UCPTRIE_TYPE_FAST else UCPTRIE_SMALL_INDEX_LENGTH
                 dataBlockLength = UCPTRIE_FAST_DATA_BLOCK_LENGTH
             else:
                 # use the multi-stage index
@@ -271,7 +274,7 @@ class CPTrie(object):
                     i1 += UCPTRIE_SMALL_INDEX_LENGTH
 
                 i3Block = self.index[self.index[i1] + ((c >> UCPTRIE_SHIFT_2) & UCPTRIE_INDEX_2_MASK)]
-                if i3Block == prevI3Block and (c - start) >= UCPTRIE_CP_PER_INDEX_2_ENTRY:
+                if i3Block == prevI3Block and (c - prev) >= UCPTRIE_CP_PER_INDEX_2_ENTRY:
                     # The index-3 block is the same as the previous one, and filled with value.
                     assert (c & (UCPTRIE_CP_PER_INDEX_2_ENTRY - 1)) == 0
                     c += UCPTRIE_CP_PER_INDEX_2_ENTRY
@@ -286,15 +289,16 @@ class CPTrie(object):
                         prevValue = nullValue
 
                     prevBlock = self.dataNullOffset
+                    prevBlockLength = UCPTRIE_SMALL_DATA_BLOCK_LENGTH
                     c = (c + UCPTRIE_CP_PER_INDEX_2_ENTRY) & ~(UCPTRIE_CP_PER_INDEX_2_ENTRY - 1)
                     continue
 
                 i3Start = (c >> UCPTRIE_SHIFT_3) & UCPTRIE_INDEX_3_MASK
-                # i3BlockLength = UCPTRIE_INDEX_3_BLOCK_LENGTH
+                i3BlockLength = UCPTRIE_INDEX_3_BLOCK_LENGTH
                 dataBlockLength = UCPTRIE_SMALL_DATA_BLOCK_LENGTH
 
             # Enumerate data blocks for one index-3 block.
-            for i3 in range(i3Start, dataBlockLength):
+            for i3 in range(i3Start, i3BlockLength):
                 if c >= limit: break
                 if (i3Block & 0x8000) == 0:
                     block = self.index[i3Block + i3]
@@ -305,13 +309,14 @@ class CPTrie(object):
                     block = (self.index[group] << (2 + (2 * gi))) & 0x30000
                     block |= self.index[group + gi + 1]  # C++ code indexes by group++ in previous line
 
-                if block == prevBlock and (c - start) >= dataBlockLength:
+                if block == prevBlock and dataBlockLength == prevBlockLength and (c - prev) >= dataBlockLength:
                     # The block is the same as the previous one, and filled with value.
                     assert (c & (dataBlockLength - 1)) == 0
                     c += dataBlockLength
                 else:
                     dataMask = dataBlockLength - 1
                     prevBlock = block
+                    prevBlockLength = dataBlockLength
                     if block == self.dataNullOffset:
                         # This is the data null block.
                         if nullValue != prevValue:
@@ -342,10 +347,14 @@ class CPTrie(object):
         if c > limit:
             c = limit
         elif c < limit:
-            di = len(self.data) - UCPTRIE_HIGH_VALUE_NEG_DATA_OFFSET
-            highValue = self.data[di]
+            # c >= highStart
             if highValue != prevValue:
                 if prev < c: yield range(prev, c), prevValue
 
+                prev = c
+                prevValue = highValue
+
+            c = limit
+
         # deliver last range
         if prev < c: yield range(prev, c), prevValue
-- 
2.43.0


From c6a77de2fe5376294f0abf51926c68285eacf089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 04/28] fix: ICUData published a partly loaded data file to
 other threads and after a failed load

---
 UnicodeData/ICUDataFile.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/UnicodeData/ICUDataFile.py b/UnicodeData/ICUDataFile.py
index 3a1d9dc..52d4c79 100644
--- a/UnicodeData/ICUDataFile.py
+++ b/UnicodeData/ICUDataFile.py
@@ -68,18 +68,19 @@ class ICUData(object):
     _fileData: bytes = b""
 
     @classmethod
-    def getString(cls, offset: int):
+    def getString(cls, offset: int, fileData: typing.Optional[bytes] = None):
+        if fileData is None: fileData = cls._fileData
         s = ""
 
-        while cls._fileData[offset] != 0:
-            s += chr(cls._fileData[offset])
+        while fileData[offset] != 0:
+            s += chr(fileData[offset])
             offset += 1
 
         return s
 
     @classmethod
-    def getName(cls, offset: int):
-        name = cls.getString(offset)  # Maybe check the prefix?
+    def getName(cls, offset: int, fileData: typing.Optional[bytes] = None):
+        name = cls.getString(offset, fileData)  # Maybe check the prefix?
         prefixOffset = name.index("/")
         return name[prefixOffset+1:]
 
@@ -103,29 +104,36 @@ class ICUData(object):
         if cls._fileData:
             return
 
-        dataFile = open(_dataFilePath, "rb")
-        cls._fileData = dataFile.read()
+        with open(_dataFilePath, "rb") as dataFile:
+            fileData = dataFile.read()
 
-        dh = sstruct.unpack(dataHeaderFormat, cls._fileData[:dataHeaderLength], DataHeader())
+        dataOffsets: dict[str, int] = {}
+
+        dh = sstruct.unpack(dataHeaderFormat, fileData[:dataHeaderLength], DataHeader())
         header = typing.cast(DataHeader, dh)
 
         # this would be a good place to verify (some of) the magic bytes, the data format,
         # the isBigEndian, charsetFamily and sizeofUChar...
 
         tocOffset = header.headerLength
-        (tocCount, ) = struct.unpack("I", cls._fileData[tocOffset:tocOffset + 4])
+        (tocCount, ) = struct.unpack("I", fileData[tocOffset:tocOffset + 4])
 
         tocEntryStart = tocOffset + 4
         tocEntryLimit = tocEntryStart + _tocEntryLength
 
         for _ in range(tocCount):
-            te = sstruct.unpack(_tocEntryFormat, cls._fileData[tocEntryStart:tocEntryLimit], TOCEntry())
+            te = sstruct.unpack(_tocEntryFormat, fileData[tocEntryStart:tocEntryLimit], TOCEntry())
             tocEntry = typing.cast(TOCEntry, te)
-            name = ICUData.getName(tocEntry.nameOffset + header.headerLength)
-            cls._dataOffsets[name] = tocEntry.dataOffset + header.headerLength
+            name = ICUData.getName(tocEntry.nameOffset + header.headerLength, fileData)
+            dataOffsets[name] = tocEntry.dataOffset + header.headerLength
             tocEntryStart = tocEntryLimit
             tocEntryLimit += _tocEntryLength
 
+        # Nothing is published until the whole file has been read and parsed. _fileData
+        # is set last because that's what marks the data as loaded.
+        cls._dataOffsets = dataOffsets
+        cls._fileData = fileData
+
     def __init__(self):
         ICUData._populateData()
 
-- 
2.43.0


From 3718c5705e253ab02f8c9f5c50dca8c111d038fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 05/28] fix: ICUData.getData silently returned short data from
 a truncated file

---
 UnicodeData/ICUDataFile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/UnicodeData/ICUDataFile.py b/UnicodeData/ICUDataFile.py
index 52d4c79..bf1f629 100644
--- a/UnicodeData/ICUDataFile.py
+++ b/UnicodeData/ICUDataFile.py
@@ -90,6 +90,9 @@ class ICUData(object):
 
     @classmethod
     def getData(cls, startOffset: int, limitOffset: int) -> bytes:
+        if limitOffset > len(cls._fileData):
+            raise ValueError(f"ICU data file is truncated: need {limitOffset} bytes, have {len(cls._fileData)}.")
+
         return cls._fileData[startOffset:limitOffset]
 
     @classmethod
-- 
2.43.0


From 514db54810caa8ac3c58afcf5fdff4b509b35bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 06/28] fix: CharNames.populateData duplicated every name when
 called again

---
 UnicodeData/CharNames.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/CharNames.py b/UnicodeData/CharNames.py
index 59100b4..a826198 100644
--- a/UnicodeData/CharNames.py
+++ b/UnicodeData/CharNames.py
@@ -389,20 +389,26 @@ class CharNames(object):
 
         groupStart = groupsStart + 2
 
+        groups: list[Group] = []
         for _ in range(groupsLimit):
             group = Group(cls._icuData, groupStart, groupStringsStart)
-            cls._groups.append(group)
+            groups.append(group)
             groupStart += Group.groupLength()
 
         rangeStart = nameDataHeader.algNamesOffset + baseOffset
         (algorithmicRangeCount,) = struct.unpack("I", cls._icuData.getData(rangeStart, rangeStart + 4))
 
         rangeStart += 4
+        algorithmicRanges: list[AlgorithmicRange] = []
         for _ in range(algorithmicRangeCount):
             algRange = AlgorithmicRange(cls._icuData, rangeStart)
-            cls._algorithmicRanges.append(algRange)
+            algorithmicRanges.append(algRange)
             rangeStart += algRange.size
 
+        # replace, don't extend, what an earlier call loaded
+        cls._groups = groups
+        cls._algorithmicRanges = algorithmicRanges
+
     @classmethod
     def getGroup(cls, code: int) -> typing.Optional[Group]:
         groupMSB = code >> GROUP_SHIFT
-- 
2.43.0


From 1b951e0f122eb6784f538eff6fefa203c60df079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 07/28] fix: UnicodeSet ignored remove, retain and complement
 of a single code point

---
 UnicodeData/UnicodeSet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index e81737e..a981830 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -472,7 +472,7 @@ class UnicodeSet(object):
         :param end: the last code point in the range to remove.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
+        if _pinCodePoint(start) <= _pinCodePoint(end):
             other = [start, end + 1, UNICODE_SET_HIGH]
             self._retainList(other, 2) # polarity == 2 means set minus
 
@@ -504,7 +504,7 @@ class UnicodeSet(object):
         :param end: the last code point in the range to intersect.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
+        if _pinCodePoint(start) <= _pinCodePoint(end):
             other = [start, end + 1, UNICODE_SET_HIGH]
             self._retainList(other, 0) # polarity == 0: intersect
 
@@ -539,7 +539,7 @@ class UnicodeSet(object):
         :param end: the last code point in the range.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
+        if _pinCodePoint(start) <= _pinCodePoint(end):
             other = [start, end + 1, UNICODE_SET_HIGH]
             self._exclusiveOrList(other)
 
-- 
2.43.0


From 53a6f27b769fa14669c8a827c0739e5772ad6adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 08/28] fix: UnicodeSet stored code points outside of U+0000 -
 U+10FFFF in the set

---
 UnicodeData/UnicodeSet.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index a981830..ed98b8c 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -397,7 +397,8 @@ class UnicodeSet(object):
         :param cp: the code point to add.
         :return: self, to support chaining.
         """
-        i = self._findCodePoint(_pinCodePoint(cp))
+        cp = _pinCodePoint(cp)
+        i = self._findCodePoint(cp)
 
         if (i & 1) != 0:
             return self
@@ -426,7 +427,9 @@ class UnicodeSet(object):
         :param end: the last code point in the range to add.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
+        start = _pinCodePoint(start)
+        end = _pinCodePoint(end)
+        if start < end:
             length = len(self.list)
             limit = end + 1
 
@@ -472,7 +475,9 @@ class UnicodeSet(object):
         :param end: the last code point in the range to remove.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) <= _pinCodePoint(end):
+        start = _pinCodePoint(start)
+        end = _pinCodePoint(end)
+        if start <= end:
             other = [start, end + 1, UNICODE_SET_HIGH]
             self._retainList(other, 2) # polarity == 2 means set minus
 
@@ -504,7 +509,9 @@ class UnicodeSet(object):
         :param end: the last code point in the range to intersect.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) <= _pinCodePoint(end):
+        start = _pinCodePoint(start)
+        end = _pinCodePoint(end)
+        if start <= end:
             other = [start, end + 1, UNICODE_SET_HIGH]
             self._retainList(other, 0) # polarity == 0: intersect
 
@@ -539,7 +546,9 @@ class UnicodeSet(object):
         :param end: the last code point in the range.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) <= _pinCodePoint(end):
+        start = _pinCodePoint(start)
+        end = _pinCodePoint(end)
+        if start <= end:
             other = [start, end + 1, UNICODE_SET_HIGH]
             self._exclusiveOrList(other)
 
-- 
2.43.0


From 875fda8facf9c2b547fa71117146e3b8ca61c8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 09/28] fix: UnicodeSet.addRange returned None instead of the
 set after the last range

---
 UnicodeData/UnicodeSet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index ed98b8c..a6d08ee 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -447,7 +447,7 @@ class UnicodeSet(object):
                             self.list.extend([limit, UNICODE_SET_HIGH])
                         else:
                             self.list.append(UNICODE_SET_HIGH)
-                    return
+                    return self
 
             # This is slow. Could be much faster using findCodePoint(start)
             # and modifying the list, dealing with adjacent & overlapping ranges.
-- 
2.43.0


From 68ba9614af34620e57b356494db34fbce54ada43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:39 +0000
Subject: [PATCH 10/28] fix: UnicodeSet built from a range or code point was
 malformed if empty or ending at U+10FFFF

---
 UnicodeData/UnicodeSet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index a6d08ee..88b494f 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -710,9 +710,11 @@ class UnicodeSet(object):
         elif type(arg) is UnicodeSet:
             self.list = arg.list.copy()
         elif type(arg) is int:
-            self.list = [arg, arg + 1, UNICODE_SET_HIGH]
+            self.list = [UNICODE_SET_HIGH]
+            self.add(arg)
         elif type(arg) is range:
-            self.list = [arg.start, arg.stop, UNICODE_SET_HIGH]
+            self.list = [UNICODE_SET_HIGH]
+            self.addRange(arg.start, arg.stop - 1)
         else:
             raise(TypeError("Argument type must be UnicodeSet, int or range."))
 
-- 
2.43.0


From 90e8315fd37bde80aa76e4db3d85ce0789839a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 11/28] fix: UnicodeSet union left adjacent ranges unmerged

---
 UnicodeData/UnicodeSet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index 88b494f..ef3101c 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -252,7 +252,7 @@ class UnicodeSet(object):
                     i += 1
                     polarity ^= 1
                 elif b < a: # take b
-                    if len(buffer) > 0 and b < buffer[-1]:
+                    if len(buffer) > 0 and b <= buffer[-1]:
                         b = max(other[j], buffer.pop())
                     else:
                         buffer.append(b)
@@ -263,7 +263,7 @@ class UnicodeSet(object):
                 else: # a == b: take a, drop b
                     if a == UNICODE_SET_HIGH:
                         break
-                    if len(buffer) > 0 and a < buffer[-1]:
+                    if len(buffer) > 0 and a <= buffer[-1]:
                         a = max(self.list[i], buffer.pop())
                     else:
                         buffer.append(a)
-- 
2.43.0


From ef42b6cc012819e25266984c313759ad2344268a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 12/28] fix: UnicodeSet.contains(0x110000) was True for a set
 that ends at U+10FFFF

---
 UnicodeData/UnicodeSet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index ef3101c..1967981 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -605,7 +605,7 @@ class UnicodeSet(object):
         """
         if type(arg) is int:
             i = self._findCodePoint(arg)
-            return (i & 1) != 0
+            return (i & 1) != 0 and arg < self.list[i]
         elif type(arg) is range:
             start = arg.start
             end = arg.stop - 1
-- 
2.43.0


From 7e1a6c1af7ba5f09ea8e4895f40c8f76f2a3a5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 13/28] fix: UnicodeSet.retainRange of an empty range left the
 set unchanged

---
 UnicodeData/UnicodeSet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index 1967981..34b94a6 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -514,6 +514,8 @@ class UnicodeSet(object):
         if start <= end:
             other = [start, end + 1, UNICODE_SET_HIGH]
             self._retainList(other, 0) # polarity == 0: intersect
+        else:
+            self.clear()
 
         return self
 
-- 
2.43.0


From a4f779d8b49d3ee7af9dda56418c99f10feb2585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 14/28] fix: UnicodeSet.add and addRange left a malformed set
 when interrupted

---
 UnicodeData/UnicodeSet.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index 34b94a6..52ca764 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -404,13 +404,14 @@ class UnicodeSet(object):
             return self
 
         if cp == self.list[i] - 1:
-            self.list[i] = cp
-
-            if cp == UNICODE_SET_HIGH - 1:
-                self.list.append(UNICODE_SET_HIGH)
+            # replace the affected entries in one step, so that
+            # the list is always well formed
+            entries = [cp] if cp < UNICODE_SET_HIGH - 1 else [cp, UNICODE_SET_HIGH]
 
             if i > 0 and cp == self.list[i-1]:
-                del self.list[i-1:i+1]
+                self.list[i-1:i+1] = entries[1:]
+            else:
+                self.list[i:i+1] = entries
 
         elif i > 0 and cp == self.list[i-1]:
             self.list[i-1] += 1
@@ -438,15 +439,9 @@ class UnicodeSet(object):
                 lastLimit = -2 if length == 1 else self.list[-2]
                 if lastLimit <= start:
                     if lastLimit == start:
-                        self.list[-2] = limit
-                        if limit == UNICODE_SET_HIGH:
-                            self.list.pop()
+                        self.list[-2:] = [limit, UNICODE_SET_HIGH] if limit < UNICODE_SET_HIGH else [UNICODE_SET_HIGH]
                     else:
-                        self.list[-1] = start
-                        if limit < UNICODE_SET_HIGH:
-                            self.list.extend([limit, UNICODE_SET_HIGH])
-                        else:
-                            self.list.append(UNICODE_SET_HIGH)
+                        self.list[-1:] = [start, limit, UNICODE_SET_HIGH] if limit < UNICODE_SET_HIGH else [start, UNICODE_SET_HIGH]
                     return self
 
             # This is slow. Could be much faster using findCodePoint(start)
-- 
2.43.0


From 78ace59e1ecb4b409ba131e068819f14f02aaef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 15/28] fix: ModuleInstaller left partly written files when an
 install failed or was interrupted

---
 module_builder/ModuleInstaller.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/module_builder/ModuleInstaller.py b/module_builder/ModuleInstaller.py
index 56d85a9..ef27263 100644
--- a/module_builder/ModuleInstaller.py
+++ b/module_builder/ModuleInstaller.py
@@ -7,18 +7,30 @@ Created on June 1, 2021
 """
 
 from sys import argv
+import os
 import shutil
 from pathlib import Path
 
+def installFile(sourceFile: Path, destPath: Path):
+    # Copy to a temporary file and then rename it, so that a failed or interrupted
+    # install never leaves a partly written file in place of the old one.
+    tempFile = destPath / f".{sourceFile.name}.tmp"
+    try:
+        shutil.copy2(sourceFile, tempFile)
+        os.replace(tempFile, destPath / sourceFile.name)
+    except BaseException:
+        tempFile.unlink(missing_ok=True)
+        raise
+
 def install():
     sourcePath = Path(argv[1])  # Might want an actuall argument scanner?
     destPath = Path("UnicodeData")
 
     for pythonFile in sourcePath.glob("*.py"):
-        shutil.copy2(pythonFile, destPath)
+        installFile(pythonFile, destPath)
 
-    shutil.copy2(sourcePath / "icudata.dat", destPath / "Data")
-    shutil.copy2(sourcePath / "LICENSE", destPath / "Data")
+    installFile(sourcePath / "icudata.dat", destPath / "Data")
+    installFile(sourcePath / "LICENSE", destPath / "Data")
 
 if __name__ == "__main__":
     install()
-- 
2.43.0


From aa5ae48e19869830da1562038a47a11c1147647b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 16/28] fix: UnicodeSet treated an empty range ending below
 U+0000 as U+0000

---
 UnicodeData/UnicodeSet.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index 52ca764..b489749 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -428,6 +428,9 @@ class UnicodeSet(object):
         :param end: the last code point in the range to add.
         :return: self, to support chaining.
         """
+        if end < start:
+            return self
+
         start = _pinCodePoint(start)
         end = _pinCodePoint(end)
         if start < end:
@@ -470,6 +473,9 @@ class UnicodeSet(object):
         :param end: the last code point in the range to remove.
         :return: self, to support chaining.
         """
+        if end < start:
+            return self
+
         start = _pinCodePoint(start)
         end = _pinCodePoint(end)
         if start <= end:
@@ -504,6 +510,9 @@ class UnicodeSet(object):
         :param end: the last code point in the range to intersect.
         :return: self, to support chaining.
         """
+        if end < start:
+            return self.clear()
+
         start = _pinCodePoint(start)
         end = _pinCodePoint(end)
         if start <= end:
@@ -543,6 +552,9 @@ class UnicodeSet(object):
         :param end: the last code point in the range.
         :return: self, to support chaining.
         """
+        if end < start:
+            return self
+
         start = _pinCodePoint(start)
         end = _pinCodePoint(end)
         if start <= end:
-- 
2.43.0


From 6ad5bcad3dbb0ea3154c9b2fcfe14252d0fb2d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:50 +0000
Subject: [PATCH 17/28] fix: isIDIgnorable ignored control characters

---
 UnicodeData/CharProps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/CharProps.py b/UnicodeData/CharProps.py
index fa061fe..6271d32 100644
--- a/UnicodeData/CharProps.py
+++ b/UnicodeData/CharProps.py
@@ -152,8 +152,8 @@ def isIDPart(c: int) -> bool:
     return (gcMask(gc) & ( GC_ND_MASK | GC_NL_MASK | GC_L_MASK | GC_PC_MASK | GC_MC_MASK | GC_MN_MASK)) != 0 or isIDIgnorable(c)
 
 def isIDIgnorable(c: int) -> bool:
-    if c < 0x009F:
-        isISOControl(c) and not isThatASCIIControlSpace(c)
+    if c <= 0x009F:
+        return isISOControl(c) and not isThatASCIIControlSpace(c)
 
     gc = getGeneralCategory(c)
     return gc == GC_FORMAT_CHAR
-- 
2.43.0


From 8481283b850cf8183df61ce1a818fa0f34982421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:25 +0000
Subject: [PATCH 18/28] fix: CharNames.nameIterator skipped short algorithmic
 ranges and every one after them

---
 UnicodeData/CharNames.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/UnicodeData/CharNames.py b/UnicodeData/CharNames.py
index a826198..75099bf 100644
--- a/UnicodeData/CharNames.py
+++ b/UnicodeData/CharNames.py
@@ -468,21 +468,27 @@ class CharNames(object):
         char = 0
         algRange = 0
         while char < charLimit:
-            group = cls.getGroup(char)
-            if group and char in group.charRange:
-                # group.nameChoice = self.nameChoice
-                for (code, name) in group.nameIterator(nameChoice):
-                    if name: yield (code, name)
-                char = group.charRange.stop
-            elif algRange < len(cls._algorithmicRanges) and cls._algorithmicRanges[algRange].charInRange(char):
+            # An algorithmic range can start or end anywhere in a block,
+            # and can be shorter than one.
+            limit = charLimit
+            if algRange < len(cls._algorithmicRanges):
+                limit = cls._algorithmicRanges[algRange].charRange.start
+
+            if char < limit:
+                limit = min(limit, (char | GROUP_MASK) + 1)
+                group = cls.getGroup(char)
+                if group:
+                    # group.nameChoice = self.nameChoice
+                    for (code, name) in group.nameIterator(nameChoice):
+                        if name and char <= code < limit: yield (code, name)
+                char = limit
+            else:
                 algorithmicRange = cls._algorithmicRanges[algRange]
                 # algorithmicRange.nameChoice = self.nameChoice
                 for (code, name) in algorithmicRange.nameIterator(nameChoice):
                     if name: yield (code, name)
                 char = algorithmicRange.charRange.stop
                 algRange += 1
-            else:
-                char += LINES_PER_GROUP
 
     @classmethod
     def charFromName(cls, theName: str, nameChoice:int=U_UNICODE_CHAR_NAME) -> int:
-- 
2.43.0


From c7af92d22d72761f9920c3eb62d12fea7727ba0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:25 +0000
Subject: [PATCH 19/28] fix: CharNames.getCharName returned synthetic extended
 names for characters that have a name

---
 UnicodeData/CharNames.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/CharNames.py b/UnicodeData/CharNames.py
index 75099bf..28fcdd7 100644
--- a/UnicodeData/CharNames.py
+++ b/UnicodeData/CharNames.py
@@ -457,10 +457,12 @@ class CharNames(object):
             if algorithmicRange.charInRange(code):
                 return algorithmicRange.getName(code, nameChoice)
 
-        if nameChoice == U_EXTENDED_CHAR_NAME:
+        name = CharNames._getName(code, nameChoice)
+
+        if not name and nameChoice == U_EXTENDED_CHAR_NAME:
             return f"<{cls.getCharCatName(code)}-{code:04X}>"
 
-        return CharNames._getName(code, nameChoice)
+        return name
 
     @classmethod
     def nameIterator(cls, nameChoice: int =U_UNICODE_CHAR_NAME) -> typing.Iterator[tuple[int, str]]:
-- 
2.43.0


From c261fe5dec8c1e56cdcf59847762e14d270b79df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 20/28] fix: copy.copy of a UnicodeSet shared its list with the
 original

Updates that change the list in place (add, addRange, complement) then
changed both sets, or one of them depending on the operation.
---
 UnicodeData/UnicodeSet.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index b489749..c98c14c 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -727,6 +727,13 @@ class UnicodeSet(object):
         else:
             raise(TypeError("Argument type must be UnicodeSet, int or range."))
 
+    def __copy__(self):
+        """Support copy.copy(). The copy must not share its list with this set."""
+        result = type(self).__new__(type(self))
+        result.__dict__.update(self.__dict__)
+        result.list = self.list.copy()
+        return result
+
     def size(self):
         """Return the number of code points in this set."""
         s = 0
-- 
2.43.0


From e6d2f574cef12b0206be08374e53b0970b988466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:23 +0000
Subject: [PATCH 21/28] fix: two threads that loaded the data file while it was
 being replaced could use a mixture of both versions

---
 UnicodeData/ICUDataFile.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/UnicodeData/ICUDataFile.py b/UnicodeData/ICUDataFile.py
index bf1f629..035b14d 100644
--- a/UnicodeData/ICUDataFile.py
+++ b/UnicodeData/ICUDataFile.py
@@ -9,6 +9,7 @@ Created on May 12, 2020
 import typing
 
 import struct
+import threading
 import pkg_resources
 from fontTools.misc import sstruct  # type: ignore
 
@@ -66,6 +67,7 @@ class TOCEntry:
 class ICUData(object):
     _dataOffsets: dict[str, int] = {}
     _fileData: bytes = b""
+    _lock = threading.Lock()
 
     @classmethod
     def getString(cls, offset: int, fileData: typing.Optional[bytes] = None):
@@ -133,9 +135,12 @@ class ICUData(object):
             tocEntryLimit += _tocEntryLength
 
         # Nothing is published until the whole file has been read and parsed. _fileData
-        # is set last because that's what marks the data as loaded.
-        cls._dataOffsets = dataOffsets
-        cls._fileData = fileData
+        # is set last because that's what marks the data as loaded. If another thread was
+        # faster, what it has read is kept: the file may have been replaced in between.
+        with cls._lock:
+            if not cls._fileData:
+                cls._dataOffsets = dataOffsets
+                cls._fileData = fileData
 
     def __init__(self):
         ICUData._populateData()
-- 
2.43.0


From 4a61f977087c1d0fc161e1138b2a20309fad600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 22/28] fix: getUnicodeProperties of the column after the last
 one answered for another row

---
 UnicodeData/CharProps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/CharProps.py b/UnicodeData/CharProps.py
index 6271d32..7552f5b 100644
--- a/UnicodeData/CharProps.py
+++ b/UnicodeData/CharProps.py
@@ -20,7 +20,7 @@ def unicodePropertiesFromVecIndex(vecIndex: int, column: int):
     return propsVectors[vecIndex + column]
 
 def getUnicodeProperties(c: int, column: int):
-    if column > propsVectorsColumns:
+    if column >= propsVectorsColumns:
         return 0
 
     vecIndex = propsVectorTrie.get(c)
-- 
2.43.0


From 4d5b15b123a70c95154b1f9537d627d1595430a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:33 +0000
Subject: [PATCH 23/28] fix: getNumericType returned the general category

---
 UnicodeData/CharProps.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/UnicodeData/CharProps.py b/UnicodeData/CharProps.py
index 7552f5b..6c9e45f 100644
--- a/UnicodeData/CharProps.py
+++ b/UnicodeData/CharProps.py
@@ -3,6 +3,7 @@ import typing
 from .Utrie2 import UTrie2
 from .CharPropsData import *
 from .uprops_h import *
+from .uchar_h import U_NT_NONE, U_NT_DECIMAL, U_NT_DIGIT, U_NT_NUMERIC
 from .uscript_h import *
 # from .UCDTypeDictionaries import generalCategoryNames as generalCategories
 # from .UCDTypeDictionaries import scriptNames as scriptCodes
@@ -171,7 +172,18 @@ def digitValue(c: int) -> int:
     return value if value <= 9 else -1
 
 def numericTypeFromProps(props: int) -> int:
-    return props & 0x1F
+    ntv = numericTypeValueFromProps(props)
+
+    if ntv == UPROPS_NTV_NONE:
+        return U_NT_NONE
+
+    if ntv < UPROPS_NTV_DIGIT_START:
+        return U_NT_DECIMAL
+
+    if ntv < UPROPS_NTV_NUMERIC_START:
+        return U_NT_DIGIT
+
+    return U_NT_NUMERIC
 
 def getNumericType(c: int) -> int:
     props = propsTrie.get(c)
-- 
2.43.0


From 387f0e03d5c81f4fd11a97a13724c76235628afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:19 +0000
Subject: [PATCH 24/28] fix: ModuleBuilder left the NFC data at the version it
 was written for

---
 module_builder/ModuleBuilder.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/module_builder/ModuleBuilder.py b/module_builder/ModuleBuilder.py
index a3f48d4..c22e129 100644
--- a/module_builder/ModuleBuilder.py
+++ b/module_builder/ModuleBuilder.py
@@ -155,6 +155,17 @@ class ModuleBuilder(object):
         trie = self.getPropsDeclaration(trieName)
         self.trieValues(trie, prefix)
 
+    def cpTrieValuesFromTrieDeclaration(self, trieName: str, prefix: str):
+        # The first two fields are the index and data arrays. The reserved fields are not used.
+        dict = {2: "indexLength", 3: "dataLength", 4: "highStart", 5: "shifted12HighStart",
+                6: "type", 7: "valueWidth", 10: "index3NullOffset", 11: "dataNullOffset", 12: "nullValue"}
+        trieSplits = self.getPropsDeclaration(trieName).split(",")
+
+        for index, name in dict.items():
+            self.outputLines.append(f"{prefix}_{name} = {trieSplits[index].strip()}")
+
+        self.outputLines.append("")
+
     def writeFile(self):
         contents = "\n".join(self.outputLines)
         moduleFile = open(self.modulePath, "w")
@@ -213,6 +224,15 @@ def build():
     casePropsBuilder.trieValuesFromPropsDeclaration("ucase_props_singleton", "ucase_props_trie")
     casePropsBuilder.writeFile()
 
+    norm2NFCBuilder = ModuleBuilder(icuSource, "common/norm2_nfc_data.h", outDir, "Norm2NFCData.py")
+    norm2NFCBuilder.cpTrieValuesFromTrieDeclaration("norm2_nfc_data_trie", "norm2_nfc_data")
+    norm2NFCBuilder.arrayToPython("norm2_nfc_data_indexes")
+    norm2NFCBuilder.arrayToPython("norm2_nfc_data_trieIndex")
+    norm2NFCBuilder.arrayToPython("norm2_nfc_data_trieData")
+    norm2NFCBuilder.arrayToPython("norm2_nfc_data_extraData")
+    norm2NFCBuilder.arrayToPython("norm2_nfc_data_smallFCD")
+    norm2NFCBuilder.writeFile()
+
     uprops_h = HeaderFile(icuSource, "common/uprops.h", outDir)
     uprops_h.translate()
     uprops_h.writeFile()
-- 
2.43.0


From b31d6fcc63056d2b2d0a6f7b162755b257a6b306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:55 +0000
Subject: [PATCH 25/28] fix: LayoutProps failed to load if a layout property
 has no stored trie

---
 UnicodeData/LayoutProps.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/UnicodeData/LayoutProps.py b/UnicodeData/LayoutProps.py
index 7a74945..f8472cd 100644
--- a/UnicodeData/LayoutProps.py
+++ b/UnicodeData/LayoutProps.py
@@ -6,6 +6,8 @@ Created on My 13, 2020
 @author Eric Mader
 """
 
+import typing
+
 import struct
 
 from .ICUDataFile import ICUData
@@ -29,6 +31,16 @@ ULAYOUT_IX_MAX_VALUES = 9
 # Length of indexes[]. Multiple of 4 to 16-align the tries.
 ULAYOUT_IX_COUNT = 12
 
+# The smallest trie is its header. If there are fewer bytes than that no trie is
+# stored, and the value of every character is 0.
+MIN_TRIE_LENGTH = 16
+
+def createTrie(trieData: bytes) -> typing.Optional[CPTrie]:
+    return CPTrie.createFromData(trieData) if len(trieData) >= MIN_TRIE_LENGTH else None
+
+def getTrieValue(trie: typing.Optional[CPTrie], c: int) -> int:
+    return trie.get(c) if trie is not None else 0
+
 id = ICUData()
 
 (dataOffset, dataHeader) = id.getDataOffsetAndHeader("ulayout.icu")
@@ -44,24 +56,24 @@ indices = struct.unpack(indicesFormat, id.getData(indicesStart, indicesLimit))
 trieOffset = indicesLimit
 trieLimit = indices[ULAYOUT_IX_INPC_TRIE_TOP] + baseOffset
 trieData = id.getData(trieOffset, trieLimit)
-inpcTrie = CPTrie.createFromData(trieData)
+inpcTrie = createTrie(trieData)
 
 trieOffset = trieLimit
 trieLimit = indices[ULAYOUT_IX_INSC_TRIE_TOP] + baseOffset
 trieData = id.getData(trieOffset, trieLimit)
-inscTrie = CPTrie.createFromData(trieData)
+inscTrie = createTrie(trieData)
 
 trieOffset = trieLimit
 trieLimit = indices[ULAYOUT_IX_VO_TRIE_TOP] + baseOffset
 trieData = id.getData(trieOffset, trieLimit)
-voTrie = CPTrie.createFromData(trieData)
+voTrie = createTrie(trieData)
 
 def getInPC(c: int) -> int:
-    return inpcTrie.get(c)
+    return getTrieValue(inpcTrie, c)
 
 def getInSC(c: int) -> int:
-    return inscTrie.get(c)
+    return getTrieValue(inscTrie, c)
 
 def getVO(c: int) -> int:
-    return voTrie.get(c)
+    return getTrieValue(voTrie, c)
 
-- 
2.43.0


From 45679919686b6b6e592781f827f638f75c50dedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:58 +0000
Subject: [PATCH 26/28] fix: CharNames.nameIterator raised IndexError if there
 are no algorithmic names

---
 UnicodeData/CharNames.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/UnicodeData/CharNames.py b/UnicodeData/CharNames.py
index 28fcdd7..c3548da 100644
--- a/UnicodeData/CharNames.py
+++ b/UnicodeData/CharNames.py
@@ -466,7 +466,10 @@ class CharNames(object):
 
     @classmethod
     def nameIterator(cls, nameChoice: int =U_UNICODE_CHAR_NAME) -> typing.Iterator[tuple[int, str]]:
-        charLimit = max(cls._groups[-1].charRange.stop, cls._algorithmicRanges[-1].charRange.stop)
+        charLimit = cls._groups[-1].charRange.stop
+        if cls._algorithmicRanges:
+            charLimit = max(charLimit, cls._algorithmicRanges[-1].charRange.stop)
+
         char = 0
         algRange = 0
         while char < charLimit:
-- 
2.43.0


From b2debf8d8011554b372261c47815b21ec1b6347d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:17 +0000
Subject: [PATCH 27/28] fix: the module builder read and wrote its files in the
 encoding of the locale

---
 module_builder/HeaderToPtyhon.py | 4 ++--
 module_builder/ModuleBuilder.py  | 8 ++++----
 module_builder/UCDReader.py      | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/module_builder/HeaderToPtyhon.py b/module_builder/HeaderToPtyhon.py
index 2bbc0b7..9525e02 100644
--- a/module_builder/HeaderToPtyhon.py
+++ b/module_builder/HeaderToPtyhon.py
@@ -25,7 +25,7 @@ class HeaderFile(object):
     def __init__(self, icuDirectory: Path, cSourcePath: str, outDirectory: Path, extraCode: list[str] = [], ignore: list[str] = []):
         sourcePath = icuDirectory / cSourcePath
         os.makedirs(outDirectory, exist_ok=True)
-        self.sourceFile = open(sourcePath)
+        self.sourceFile = open(sourcePath, encoding="utf-8")
 
         self.ignore = ignore
 
@@ -153,6 +153,6 @@ class HeaderFile(object):
 
     def writeFile(self):
         contents = "\n".join(self.outputLines)
-        headerFile = open(self.headerPath, "w")
+        headerFile = open(self.headerPath, "w", encoding="utf-8")
         headerFile.write(contents)
         headerFile.close()
diff --git a/module_builder/ModuleBuilder.py b/module_builder/ModuleBuilder.py
index c22e129..dff0a33 100644
--- a/module_builder/ModuleBuilder.py
+++ b/module_builder/ModuleBuilder.py
@@ -93,7 +93,7 @@ class ModuleBuilder(object):
         sourcePath = icuDirectory / cSourcePath
         os.makedirs(outDirectory, exist_ok=True)
         self.modulePath = outDirectory / moduleName
-        sourceFile = open(sourcePath)
+        sourceFile = open(sourcePath, encoding="utf-8")
         self.source = sourceFile.read()
         sourceFile.close()
 
@@ -168,7 +168,7 @@ class ModuleBuilder(object):
 
     def writeFile(self):
         contents = "\n".join(self.outputLines)
-        moduleFile = open(self.modulePath, "w")
+        moduleFile = open(self.modulePath, "w", encoding="utf-8")
         moduleFile.write(contents)
         moduleFile.close()
 
@@ -249,7 +249,7 @@ def build():
     uscript_h.translate()
     uscript_h.writeFile()
 
-    uverFile = open(icuSource / "common/unicode/uvernum.h")
+    uverFile = open(icuSource / "common/unicode/uvernum.h", encoding="utf-8")
     uvData = uverFile.read()
     uverFile.close()
     icuVersion = re.findall(r'#define U_ICU_VERSION "([0-9.]+)"', uvData)[0]
@@ -270,7 +270,7 @@ def build():
     ucdReader.generateDictionaries()
     ucdReader.writeFile()
 
-    ucdVersionFile = open(outDir / "UnicodeVersion.py", "w")
+    ucdVersionFile = open(outDir / "UnicodeVersion.py", "w", encoding="utf-8")
     ucdVersionFile.write(f'unicodeVersion = "{ucdReader.ucdVersion}"\n')
     ucdVersionFile.close()
 
diff --git a/module_builder/UCDReader.py b/module_builder/UCDReader.py
index 6b5c33a..93e3400 100644
--- a/module_builder/UCDReader.py
+++ b/module_builder/UCDReader.py
@@ -152,7 +152,7 @@ class UCDReader(object):
         self.prefixLines.append("from .uscript_h import *\n")
 
 
-        self.file = open(ppucdPath, newline="")
+        self.file = open(ppucdPath, newline="", encoding="utf-8")
         self.reader = csv.reader(self.file, delimiter=";")
 
     def generateDictionaries(self):
@@ -181,7 +181,7 @@ class UCDReader(object):
 
     def writeFile(self):
         self.file.close()
-        outFile = open(self.outPath, "w")
+        outFile = open(self.outPath, "w", encoding="utf-8")
 
         for headerLine in self.prefixLines:
             outFile.write(f"{headerLine}\n")
-- 
2.43.0


From f168c3b7d4ffd7def54ad3497c10ded7fbbf1613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:35 +0000
Subject: [PATCH 28/28] fix: two installs at the same time shared their
 temporary files

One could truncate, rename or remove the file that the other was still writing:
a partly written file was installed, or the install failed with FileNotFoundError.
---
 module_builder/ModuleInstaller.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/module_builder/ModuleInstaller.py b/module_builder/ModuleInstaller.py
index ef27263..7e3e03f 100644
--- a/module_builder/ModuleInstaller.py
+++ b/module_builder/ModuleInstaller.py
@@ -13,8 +13,9 @@ from pathlib import Path
 
 def installFile(sourceFile: Path, destPath: Path):
     # Copy to a temporary file and then rename it, so that a failed or interrupted
-    # install never leaves a partly written file in place of the old one.
-    tempFile = destPath / f".{sourceFile.name}.tmp"
+    # install never leaves a partly written file in place of the old one. The name is
+    # its own, so that another install at the same time does not write to it.
+    tempFile = destPath / f".{sourceFile.name}.{os.getpid()}.tmp"
     try:
         shutil.copy2(sourceFile, tempFile)
         os.replace(tempFile, destPath / sourceFile.name)
-- 
2.43.0

