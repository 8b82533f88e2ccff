BP = "UnicodeData/BidiProps.py"
CP = "UnicodeData/CharProps.py"
CA = "UnicodeData/CaseProps.py"
U2 = "UnicodeData/Utrie2.py"
MB = "module_builder/ModuleBuilder.py"
MI = "module_builder/ModuleInstaller.py"

# build from a synthetic ICU tree, install over a copy of the package, ask in a new process
UPDATE = '''
import json, subprocess, time
from sim import icusem


def put_tree(t, d):
    for n, b in t.files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        put(p, b)


class Update:
    def __init__(self):
        self.dir = scratch()
        self.stub = os.path.join(self.dir, "stub")
        os.makedirs(os.path.join(self.stub, "FontDocTools"))
        put(os.path.join(self.stub, "FontDocTools", "__init__.py"), b"")
        put(os.path.join(self.stub, "FontDocTools", "ArgumentIterator.py"), b"""class ArgumentIterator:
    def __init__(self, l): self.l = list(l)
    def __iter__(self): return self
    def __next__(self):
        if not self.l: raise StopIteration
        return self.l.pop(0)
    def nextExtra(self, what): return self.l.pop(0)
""")
        self.work = os.path.join(self.dir, "work")
        shutil.copytree(os.path.join(REPO, "UnicodeData"), os.path.join(self.work, "UnicodeData"), ignore=shutil.ignore_patterns("__pycache__"))
        os.makedirs(os.path.join(self.work, "UnicodeData", "Data"), exist_ok=True)
        self.n = 0

    def run(self, *a):
        e = dict(os.environ, PYTHONPATH=self.stub, PYTHONDONTWRITEBYTECODE="")
        p = subprocess.run([sys.executable, *a], cwd=self.work, env=e, capture_output=True, text=True)
        expect(p.returncode == 0, "%s: %s" % (a, p.stderr[-600:]))
        return p.stdout

    def update(self, t):
        if self.n:
            time.sleep(2.1)         # the bytecode cache knows whole seconds only
        self.n += 1
        src, out = os.path.join(self.dir, "icu%d" % self.n), os.path.join(self.dir, "out%d" % self.n)
        put_tree(t, src)
        mb = os.path.join(REPO, "module_builder")
        self.run("-B", os.path.join(mb, "ModuleBuilder.py"), "--sourceDir", src + "/source", "--buildDir", src + "/build", "--outputDir", out)
        self.run("-B", os.path.join(mb, "ModuleInstaller.py"), out)

    def ask(self, code):
        """in a new process, which uses and writes the bytecode cache."""
        return json.loads(self.run("-c", "import json\\nfrom UnicodeData import CharProps, BidiProps, CaseProps, UCDTypeDictionaries, UnicodeVersion\\nprint(json.dumps(%s))" % code))


def check(t, u, module, fn, cps):
    got = u.ask("[%s.%s(c) for c in %r]" % (module, fn, list(cps)))
    for c, g in zip(cps, got):
        w = t.want([module, fn, c])
        expect(g == w, "%s.%s(%x) is %s, in the sources %s" % (module, fn, c, g, w))
'''

bug("c16-fixed-stamp", "C16", "an update in which a module keeps its size, on a machine where the package has been used since the last one",
    "installed modules get a fixed modification time, so Python takes the bytecode it cached for an earlier version that had the same size",
    [(MI, "        installFile(pythonFile, destPath)\n", "        installFile(pythonFile, destPath)\n        # make the installed package reproducible\n        os.utime(destPath / pythonFile.name, (1_600_000_000, 1_600_000_000))\n")],
    UPDATE + '''
s = next(s for s in map(str, range(50)) if icusem.get(s).v_rows[0]["BLOCK"] != icusem.get(s).v_rows[-1]["BLOCK"]
         and len({len(icusem.get(s + x).files["source/common/uchar_props_data.h"]) for x in ("", ",chars=%s+" % s)}) == 1)
u = Update()
for spec in (s, "%s,chars=%s+" % (s, s)):
    t = icusem.get(spec)
    u.update(t)
    check(t, u, "CharProps", "getBlock", t.v_ref.starts)
''', data="sem")

bug("c16-mirror-mask", "C16", "an ICU version with more than 64 entries in the mirror table",
    "the index of the mirrored character is taken from six bits of the entry instead of eleven",
    [(BP, "    return m >> UBIDI_MIRROR_INDEX_SHIFT\n", "    return (m >> UBIDI_MIRROR_INDEX_SHIFT) & 0x3F\n")],
    UPDATE + '''
ref, far = {}, {}
for i in range(50):
    far[0x3000 + i], far[0x5000 + 2 * i] = 0x5000 + 2 * i, 0x3000 + i
order = sorted(far)
from sim import icudata as I
class Far(icusem.SemTree):
    def _bidi(self):
        keep = icusem.SemTree._bidi(self)
        e = self.expect["BidiPropsData.py"]
        old = e["ubidi_props_mirrors"]
        new = [c | order.index(far[c]) << 21 for c in order]
        text = self.files["source/common/ubidi_props_data.h"].decode()
        a = text.index("ubidi_props_mirrors[")
        b = text.index("};", a)
        self.files["source/common/ubidi_props_data.h"] = (text[:a] + "ubidi_props_mirrors[%d]={\\n" % len(new) + ",".join(map(str, new)) + "\\n" + text[b:]).encode()
u = Update()
u.update(Far("1"))
got = u.ask("[BidiProps.getMirrorFromProps(c, 0x9000) for c in %r]" % order)
for c, g in zip(order, got):
    expect(g == far[c], "the mirror image of %x is %x, in the sources %x" % (c, g, far[c]))
''', data="sem")

bug("c16-double-slots", "C16", "an ICU version with a case exception that has a value above U+FFFF after another slot",
    "the position of a slot is not doubled when each slot takes two words",
    [(CA, "    exceptionIndex += 2 * slot_offset\n", "    exceptionIndex += slot_offset\n")],
    UPDATE + '''
def two(t):
    return [c for c in t.c_pts if t.c_ref.get(c) in t.c_exc and 2 in t.c_exc[t.c_ref.get(c)][1] and t.c_exc[t.c_ref.get(c)][1][2] > 0xFFFF and min(t.c_exc[t.c_ref.get(c)][1]) < 2]
t = next(t for t in map(icusem.get, map(str, range(200))) if two(t))
u = Update()
u.update(t)
check(t, u, "CaseProps", "toUpper", two(t))
''', data="sem")

bug("c16-inlined-block", "C16", "an ICU version that keeps the block in other bits of the property word, as ICU has done before",
    "mask and shift of the block are written out instead of taken from the translated header",
    [(CP, "    return (props & UPROPS_BLOCK_MASK) >> UPROPS_BLOCK_SHIFT\n", "    return (props >> 8) & 0x1FF\n")],
    UPDATE + '''
t = next(t for t in map(icusem.get, map(str, range(200))) if t.f0["BLOCK"] != (8, 9))
u = Update()
u.update(t)
check(t, u, "CharProps", "getBlock", t.v_ref.starts)
''', data="sem")

bug("c16-base60", "C16", "an ICU version with a sexagesimal number of 60 to the fourth power",
    "powers of 60 are taken from a table that ends at the third, and anything else is 60",
    [(CP, "        if exp == 4:\n            numValue *= 60*60*60*60\n        elif exp == 3:\n", "        if exp == 3:\n")],
    UPDATE + '''
def big(t):
    return [c for c in t.p_ref.starts if 0x300 <= t.p_desc[t.p_ref.get(c)][1].ntv < 0x324 and t.p_desc[t.p_ref.get(c)][1].ntv & 3 == 3]
t = next(t for t in map(icusem.get, map(str, range(300))) if big(t))
u = Update()
u.update(t)
check(t, u, "CharProps", "getNumericValue", big(t))
''', data="sem")

bug("c16-same-ucd", "C16", "sources of another ICU version whose properties have changed but whose Unicode version has not (a maintenance release)",
    "the dictionaries are not written when the output directory already holds those of the same Unicode version",
    [(MB, "    ucdReader = UCDReader(icuSource, outDir)\n    ucdReader.generateDictionaries()\n    ucdReader.writeFile()\n",
      "    ucdReader = UCDReader(icuSource, outDir)\n    ucdReader.generateDictionaries()\n    versionPath = outDir / \"UnicodeVersion.py\"\n    if not versionPath.exists() or f'\"{ucdReader.ucdVersion}\"' not in versionPath.read_text():\n        ucdReader.writeFile()\n")],
    UPDATE + '''
a = icusem.get("1")
b = icusem.get("1,hdr=2")
u = Update()
u.update(a)
u.n = 0
shutil.rmtree(os.path.join(u.dir, "icu1"))
u.update(b)
for k, v in b.expect["UCDTypeDictionaries.py"].items():
    got = u.ask("list(UCDTypeDictionaries.%s.items()) if isinstance(UCDTypeDictionaries.%s, dict) else UCDTypeDictionaries.%s" % (k, k, k))
    want = json.loads(json.dumps(list(v.items()) if isinstance(v, dict) else v))
    expect(got == want, "%s is %s, in the sources %s" % (k, str(got)[:100], str(want)[:100]))
''', data="sem")
