UP = "UnicodeData/UCDProperties.py"
CD = "UnicodeData/CharacterData.py"
CS = "UnicodeData/CaseProperties.py"
BP = "UnicodeData/BidiProperties.py"
BI = "UnicodeData/BinaryProperties.py"
DP = "UnicodeData/DecompProperties.py"

XML = '''
package()
import importlib
import xml.etree.ElementTree as ET
C = importlib.import_module("UnicodeData.CharacterData").CharacterData


def group(**k):
    a = dict(ccc="0", nv="NaN", bpb="#", na="NAME-#", scx="Latn", blk="ASCII", jg="X_Y", gc="Lu", nt="None", sc="Latn", bc="L", dm="#", dt="none", lb="AL", JSN="GA", suc="#")
    a.update(k)
    return ET.Element("group", a)


def char(cp="0041", **k):
    return ET.Element("char", dict(cp=cp, **k))
'''

bug("c14-group-memo", "C14", "a document that is streamed, where a group is freed before the next one is parsed",
    "the attributes of a group are memoised under the id of its element, which another group gets after it was freed",
    [(UP, "        return self._group.get(property, default=\"\")\n",
          "        # most properties come from the group, and groups have hundreds of characters\n        key = (id(self._group), property)\n        if key not in _groupValues:\n            _groupValues[key] = self._group.get(property, default=\"\")\n        return _groupValues[key]\n"),
     (UP, "class UCDProperties(object):\n", "_groupValues: dict[tuple[int, str], str] = {}\n\nclass UCDProperties(object):\n")],
    XML + '''
for i in range(50):
    g = group(gc="G%d" % i)
    expect(C(char(), g).generalCategory == "G%d" % i, "group %d: %s" % (i, C(char(), g).generalCategory))
    del g
''')

bug("c14-last-group", "C14", "two threads that build from different groups",
    "the attributes of the last group are kept in the class, so a thread can read those of another thread's group",
    [(UP, "        self._char = char\n        self._group = group\n",
          "        self._char = char\n        self._group = group\n        if UCDProperties._lastGroup is not group:\n            UCDProperties._lastGroup = group\n            UCDProperties._groupValues = dict(group.attrib)\n"),
     (UP, "        return self._group.get(property, default=\"\")\n", "        return UCDProperties._groupValues.get(property, \"\")\n"),
     (UP, "    \"\"\"A base class for fetching character properties from the UCD XML file.\"\"\"\n",
          "    \"\"\"A base class for fetching character properties from the UCD XML file.\"\"\"\n\n    _lastGroup: Element = None\n    _groupValues: dict[str, str] = {}\n")],
    XML + '''
g1, g2 = group(gc="G1", vo="V1"), group(gc="G2", vo="V2")
for k in range(0, 400, 3):
    box = []
    reached, o = at_line(lambda: C(char(), g1), k, lambda: box.append(C(char("0042"), g2)))
    expect((o.generalCategory, o.verticalOrientation) == ("G1", "V1"), "construction of another at line %d: %s" % (k, (o.generalCategory, o.verticalOrientation)))
    if not reached:
        break
''')

bug("c14-empty-attribute", "C14", "an element with an empty attribute in a group whose attribute is not empty",
    "an empty attribute of the element is taken for a missing one",
    [(UP, "        if property in self._char.attrib:\n            return self._char.attrib[property]\n\n        return self._group.get(property, default=\"\")\n",
          "        return self._char.get(property) or self._group.get(property, default=\"\")\n")],
    XML + '''
expect(C(char(JSN=""), group(JSN="GA")).jamoShortName == "", "JSN")
''')

bug("c14-shared-list", "C14", "a caller that changes the list of script extensions of one character",
    "characters with the same script extensions share one list",
    [(CD, "        self.scriptExtensions = self.getCharProperty(\"scx\").split(\" \")\n",
          "        scx = self.getCharProperty(\"scx\")\n        self.scriptExtensions = _scriptExtensions.setdefault(scx, scx.split(\" \"))\n"),
     (CD, "class CharacterData(UCDProperties):\n", "_scriptExtensions: dict[str, list[str]] = {}\n\nclass CharacterData(UCDProperties):\n")],
    XML + '''
a, b = C(char(), group()), C(char("0042"), group())
a.scriptExtensions.append("Grek")
expect(b.scriptExtensions == ["Latn"], b.scriptExtensions)
''')

bug("c14-lazy-binary", "C14", "a document whose elements are cleared after each character",
    "the binary properties are only read from the elements when they are asked for the first time",
    [(CD, "        self.binaryProperties = BinaryProperties(char, group)\n", "        self._elements = (char, group)\n        self._binaryProperties = None\n"),
     (CD, "class CharacterData(UCDProperties):\n",
          "class CharacterData(UCDProperties):\n    @property\n    def binaryProperties(self) -> BinaryProperties:\n        # few callers need them\n        if self._binaryProperties is None:\n            self._binaryProperties = BinaryProperties(*self._elements)\n        return self._binaryProperties\n\n")],
    XML + '''
c, g = char(Alpha="Y"), group(Hex="Y")
o = C(c, g)
c.set("Alpha", "N")
g.set("Hex", "N")
expect(o.binaryProperties.alphabetic and o.binaryProperties.hexDigit, "changed with the elements")
''')

bug("c14-name-popped", "C14", "an element that is used twice",
    "the name is taken out of the element",
    [(CD, "        self.name = self.getCharProperty(\"na\")\n", "        # long, and not needed any more\n        self.name = char.attrib.pop(\"na\", None)\n        if self.name is None: self.name = self.getCharProperty(\"na\")\n")],
    XML + '''
c, g = char(na="LETTER"), group()
expect(C(c, g).name == "LETTER", "first")
expect(C(c, g).name == "LETTER", "second")
''')

bug("c14-hash-once", "C14", "a name with more than one '#'",
    "only the first '#' of a name is replaced by the code point",
    [(CD, "        self.name = self.name.replace(\"#\", self.cp)\n", "        prefix, sign, suffix = self.name.partition(\"#\")\n        self.name = prefix + (self.cp if sign else \"\") + suffix\n")],
    XML + '''
expect(C(char(), group(na="A # B #")).name == "A 0041 B 0041", "name")
''')

bug("c14-buffer", "C14", "two threads that convert code point sequences",
    "the characters of a sequence are collected in one list for all objects",
    [(UP, "            chars: list[str] = []\n", "            chars = UCDProperties._chars\n            chars.clear()\n"),
     (UP, "    \"\"\"A base class for fetching character properties from the UCD XML file.\"\"\"\n",
          "    \"\"\"A base class for fetching character properties from the UCD XML file.\"\"\"\n\n    _chars: list[str] = []  # reused, most sequences are short\n")],
    XML + '''
g = group()
c1, c2 = char(uc="0041 0042 0043"), char(uc="0061 0062 0063", lc="0031 0032")
for k in range(0, 600):
    reached, o = at_line(lambda: C(c1, g), k, lambda: C(c2, g))
    expect(o.caseProperties.upperCase == "ABC", "%r with another construction at line %d" % (o.caseProperties.upperCase, k))
    if not reached:
        break
''')

bug("c14-mirror-carry", "C14", "a character without a mirror image after one that has one, of the same group",
    "the code point of the last mirror image is kept for characters that have none",
    [(BP, "        self.bidiMirroredGlyph = self.codePoint if bmg == \"\" else int(bmg, 16)\n",
          "        if bmg != \"\": BidiProperties._mirror = int(bmg, 16)\n        self.bidiMirroredGlyph = BidiProperties._mirror if self.bidiMirrored and BidiProperties._mirror else self.codePoint\n        if bmg == \"\" and not self.bidiMirrored: BidiProperties._mirror = 0\n"),
     (BP, "    \"\"\"Bidirectional properties from the UCD file.\"\"\"\n", "    \"\"\"Bidirectional properties from the UCD file.\"\"\"\n\n    _mirror = 0\n")],
    XML + '''
g = group(bmg="", Bidi_M="Y")
expect(C(char("0028", bmg="0029"), g).bidiProperties.bidiMirroredGlyph == 0x29, "(")
expect(C(char("2208"), g).bidiProperties.bidiMirroredGlyph == 0x2208, "U+2208")
''')
