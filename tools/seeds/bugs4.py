MB = "module_builder/ModuleBuilder.py"
HP = "module_builder/HeaderToPtyhon.py"
UR = "module_builder/UCDReader.py"
MI = "module_builder/ModuleInstaller.py"

TWO = '''
top = scratch()
icu = os.path.join(top, "icu")
t = tree("demo", icu)
out = os.path.join(top, "out")
clean = os.path.join(top, "clean")
expect(builder(icu, clean, top) == 0, "undisturbed build")
want = read(clean)
'''

# ------------------------------------------------------------------- C11

bug("c11-short-write", "C11", "a write system call that writes only a part of a generated module (full disk, quota)",
    "the module is written with one os.write, whose result is ignored, so a short write leaves a truncated module and no error",
    [(MB, '        moduleFile = open(self.modulePath, "w", encoding="utf-8")\n        moduleFile.write(contents)\n        moduleFile.close()\n',
          '        # the whole module is in memory: no need for a buffer\n        moduleFile = os.open(self.modulePath, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o666)\n        os.write(moduleFile, contents.encode())\n        os.close(moduleFile)\n')],
    TWO + '''
for limit in (100, 1000, 3000, 10000):
    shutil.rmtree(out, True)
    if builder(icu, out, top, limit=limit) == 0:
        expect(read(out) == want, "success on a full disk, but the output is not complete (limit %d)" % limit)
    for name, data in want.items():
        if name != "icudata.dat" and len(data) + 100 < limit:
            pass
# a disk that fills up in the middle of one file, and has space again for the next
hook = """
import os
real, done = os.write, []
def write(fd, data):
    if not done and len(data) > 500:
        done.append(1)
        return real(fd, bytes(data)[:300])
    return real(fd, data)
os.write = write
"""
shutil.rmtree(out, True)
if builder(icu, out, top, hook=hook) == 0:
    expect(read(out) == want, "short write not noticed")
''', data=True)

bug("c11-licence-optional", "C11", "a source tree whose LICENSE is missing or cannot be read",
    "an unreadable licence is skipped and the build still reports success",
    [(MB, '    shutil.copy(icuSource.parent / "LICENSE", outDir)\n',
          '    try:\n        shutil.copy(icuSource.parent / "LICENSE", outDir)\n    except OSError:\n        # older releases kept it somewhere else\n        print("no LICENSE file", file=stderr)\n')],
    TWO + '''
os.remove(os.path.join(icu, "LICENSE"))
expect(builder(icu, out, top) != 0 or "LICENSE" in read(out), "success without a licence")
''', data=True)

bug("c11-enum-counter", "C11", "a header with two enums, the later one without an explicit first value",
    "the enum counter is not reset at the start of an enum, so its values go on from those of the one before",
    [(HP, "    def translate(self):\n", "    def translate(self):\n        nextValue = 0\n"),
     (HP, "                nextValue = 0\n                variables: dict[str, typing.Any] = {}\n", "                variables: dict[str, typing.Any] = {}\n")],
    TWO + '''
put(os.path.join(icu, "source/common/uprops.h"), b"#ifndef UPROPS_H\\n#define UPROPS_H\\nenum {\\n  A,\\n  B,\\n  C\\n};\\nenum {\\n  D,\\n  E=7,\\n  F\\n};\\n#endif\\n")
expect(builder(icu, out, top) == 0, "build")
ns = {}
exec(read(out)["uprops_h.py"], ns)
expect([ns[c] for c in "ABCDEF"] == [0, 1, 2, 0, 7, 8], "values %r" % [ns[c] for c in "ABCDEF"])
''', data=True)

bug("c11-short-read", "C11", "a read system call on the data file that returns less than was asked for",
    "the data file is copied until a read returns less than a full block, which on some file systems happens before the end",
    [(MB, '    shutil.copy(icuBuild / f"data/out/icudt{icuVersionShort}l.dat", outDir / "icudata.dat")\n',
          '    with open(icuBuild / f"data/out/icudt{icuVersionShort}l.dat", "rb", buffering=0) as dataFile, open(outDir / "icudata.dat", "wb") as copy:\n        while len(block := dataFile.read(1 << 16)) == 1 << 16:\n            copy.write(block)\n        copy.write(block)\n')],
    TWO + '''
hook = """
import os, io, builtins
real = builtins.open
class Short(io.FileIO):
    def readinto(self, b):
        return super().readinto(memoryview(b)[:max(1, len(b) // 2)])
    def read(self, n=-1):
        return super().read(max(1, n // 2) if n > 0 else n)
def open(file, mode="r", buffering=-1, *a, **k):
    if str(file).endswith("l.dat") and mode == "rb":
        f = Short(file, "r")
        return io.BufferedReader(f) if buffering else f
    return real(file, mode, buffering, *a, **k)
builtins.open = io.open = open
rr = os.read
os.read = lambda fd, n: rr(fd, max(1, n // 2))
"""
import glob
p = glob.glob(os.path.join(icu, "build/data/out/icudt%sl.dat" % t.short))[0]
put(p, os.urandom(300000))
if builder(icu, out, top, hook=hook) == 0:
    expect(read(out)["icudata.dat"] == open(p, "rb").read(), "data file is not complete")
''', data=True)

bug("c11-close-ignored", "C11", "a disk that is full when the type dictionaries are flushed at close",
    "errors when the dictionaries are closed are ignored, and that is where the buffered text is written",
    [(UR, "            outFile.write(\"\\n}\\n\\n\")\n\n        outFile.close()\n",
          "            outFile.write(\"\\n}\\n\\n\")\n\n        try:\n            outFile.close()\n        except OSError:\n            pass  # nothing was lost, it has all been written\n")],
    TWO + '''
hook = """
import io, builtins
real = builtins.open
class Full(io.FileIO):
    def write(self, b):
        raise OSError(28, "No space left on device")
def open(file, mode="r", *a, **k):
    if str(file).endswith("UCDTypeDictionaries.py"):
        return io.TextIOWrapper(io.BufferedWriter(Full(file, "w"), 1 << 20))
    return real(file, mode, *a, **k)
builtins.open = io.open = open
"""
if builder(icu, out, top, hook=hook) == 0:
    expect(read(out).get("UCDTypeDictionaries.py") == want["UCDTypeDictionaries.py"], "success on a full disk")
''', data=True)

bug("c11-comment-order", "C11", "a header line whose C comment holds a URL",
    "end-of-line comments are looked for first, so '/* see http://... */' is cut in two",
    [(HP, "        if (m := cCommentRE.search(line)) or (m := eolCommentRE.search(line)):\n",
          "        if (m := eolCommentRE.search(line)) or (m := cCommentRE.search(line)):\n")],
    TWO + '''
put(os.path.join(icu, "source/common/uprops.h"), b"#ifndef UPROPS_H\\n#define UPROPS_H\\n#define X_Y 5 /* see https://unicode.org/reports */\\nenum {\\n  A=4, /* http://x */\\n  B\\n};\\n#endif\\n")
expect(builder(icu, out, top) == 0, "build")
ns = {}
try:
    exec(read(out)["uprops_h.py"], ns)
except SyntaxError as e:
    expect(False, "generated module does not load: %s" % e)
expect((ns["X_Y"], ns["A"], ns["B"]) == (5, 4, 5), "values")
''', data=True)

bug("c11-quoted-line", "C11", "an array of the generated data whose last line ends without a line break before the brace",
    "the last character of an array that is spread over several lines is dropped even if it is not a line break",
    [(MB, '        final = "\\n" if "\\n" in array else ""\n        if array.endswith("\\n"):\n            array = array[:-1]\n        if final:\n            array = array.replace("\\n", "\\n    ")\n',
          '        final = "\\n" if "\\n" in array else ""\n        if final:\n            array = array[:-1].replace("\\n", "\\n    ")\n')],
    TWO + '''
import re
p = os.path.join(icu, "source/common/ucase_props_data.h")
s = open(p).read()
s = re.sub(r"ucase_props_unfold\\[\\d+\\]=\\{.+?\\};", "ucase_props_unfold[6]={\\n1,2,3,\\n4,5,67};", s, flags=re.S)
open(p, "w").write(s)
expect(builder(icu, out, top) == 0, "build")
ns = {}
exec(read(out)["CasePropsData.py"], ns)
expect(ns["ucase_props_unfold"] == [1, 2, 3, 4, 5, 67], ns["ucase_props_unfold"])
''', data=True)

# ------------------------------------------------------------------- C12

bug("c12-no-truncate", "C12", "an output file that is longer than the new one",
    "existing modules are opened for update and not truncated, so the end of a longer old one stays",
    [(MB, '        contents = "\\n".join(self.outputLines)\n        moduleFile = open(self.modulePath, "w", encoding="utf-8")\n        moduleFile.write(contents)\n',
      '        # keep the file itself, it may be a link\n        moduleFile = open(self.modulePath, "r+" if self.modulePath.exists() else "w", encoding="utf-8")\n        moduleFile.write("\\n".join(self.outputLines))\n')],
    TWO + '''
os.makedirs(out)
put(os.path.join(out, "CasePropsData.py"), want["CasePropsData.py"] + b"\\nleft_over = [1, 2, 3]\\n" * 50)
expect(builder(icu, out, top) == 0, "build")
expect(read(out) == want, "the end of the old file is still there")
''', data=True)

bug("c12-newer-output", "C12", "a build that is killed while it writes a translated header, and then run again",
    "a header whose translation is newer than it is not written again, even if that translation is a part of one",
    [(HP, '        contents = "\\n".join(self.outputLines)\n        headerFile',
          '        if self.headerPath.exists() and self.headerPath.stat().st_mtime > os.fstat(self.sourceFile.fileno()).st_mtime:\n            return  # up to date\n        contents = "\\n".join(self.outputLines)\n        headerFile')],
    TWO + '''
os.makedirs(out)
# what a killed build leaves
put(os.path.join(out, "uscript_h.py"), want["uscript_h.py"][:100])
expect(builder(icu, out, top) == 0, "build")
expect(read(out) == want, "the part of uscript_h.py was not replaced")
''', data=True)

bug("c12-hash-order", "C12", "two builds of the same sources in processes with different string hashing",
    "the dictionaries are written in the order of a set of their types",
    [(UR, "        for type, values in self.lines.items():\n", "        for type in set(self.lines) & set(self.prefix):\n            values = self.lines[type]\n")],
    TWO + '''
for seed in range(6):
    shutil.rmtree(out, True)
    expect(builder(icu, out, top, hashseed=seed) == 0, "build")
    expect(read(out) == want, "output depends on the hash seed")
''', data=True)

bug("c12-same-size", "C12", "an earlier data file in the output directory that has the size of the new one",
    "the data file is only copied if its size differs from that of the one that is there",
    [(MB, '    shutil.copy(icuBuild / f"data/out/icudt{icuVersionShort}l.dat", outDir / "icudata.dat")\n',
          '    dataFile, dataCopy = icuBuild / f"data/out/icudt{icuVersionShort}l.dat", outDir / "icudata.dat"\n    # it is big, don\'t copy it again and again\n    if not dataCopy.exists() or dataCopy.stat().st_size != dataFile.stat().st_size:\n        shutil.copy(dataFile, dataCopy)\n')],
    TWO + '''
os.makedirs(out)
put(os.path.join(out, "icudata.dat"), b"x" * len(want["icudata.dat"]))
expect(builder(icu, out, top) == 0, "build")
expect(read(out) == want, "the old data file is still there")
''', data=True)

bug("c12-source-date", "C12", "sources that were unpacked again, with other modification times",
    "the comment of a generated header tells when its source was modified",
    [(HP, '        self.outputLines.append(f"{outputName}, based on {fromName} from ICU\\n")\n',
          '        fromDate = datetime.fromtimestamp(os.stat(sourcePath).st_mtime).strftime("%Y")\n        self.outputLines.append(f"{outputName}, based on {fromName} ({fromDate}) from ICU\\n")\n')],
    TWO + '''
for when in (0, 10**9, 2 * 10**9):
    for base, _, files in os.walk(icu):
        for f in files:
            os.utime(os.path.join(base, f), (when, when))
    shutil.rmtree(out, True)
    expect(builder(icu, out, top) == 0, "build")
    expect(read(out) == want, "output depends on the time stamps of the sources")
''', data=True)

bug("c12-resume", "C12", "a build that is killed between two of its output files, after one with other sources",
    "what is in the output directory from the build before is taken as done if the version file is not there yet",
    [(MB, '    ucdReader.writeFile()\n',
          '    # finish an interrupted build\n    if (outDir / "UnicodeVersion.py").exists() or not ucdReader.outPath.exists():\n        ucdReader.writeFile()\n')],
    TWO + '''
os.makedirs(out)
put(os.path.join(out, "UCDTypeDictionaries.py"), want["UCDTypeDictionaries.py"][:500])
expect(builder(icu, out, top) == 0, "build")
expect(read(out) == want, "a part of UCDTypeDictionaries.py was taken for a whole one")
''', data=True)

# ------------------------------------------------------------------- C13

INST = '''
top = scratch()
src, work = os.path.join(top, "generated"), os.path.join(top, "repo")
os.makedirs(src)
os.makedirs(os.path.join(work, "UnicodeData", "Data"))
names = ["uchar_h.py", "uscript_h.py", "UnicodeVersion.py", "icudata.dat", "LICENSE"]
files = {n: (n * 2000).encode() for n in names}
for n, data in files.items():
    put(os.path.join(src, n), data)


def where(n):
    return os.path.join(work, "UnicodeData", n if n.endswith(".py") else "Data/" + n)


def installed(n):
    try:
        return open(where(n), "rb").read()
    except FileNotFoundError:
        return None


def install(**kw):
    return tool("ModuleInstaller.py", [src], work, **kw)


KILL = """
import os, sys
k = [%d]
def local(frame, event, arg):
    if event == "line":
        k[0] -= 1
        if k[0] == 0:
            os._exit(9)
    return local
def tracer(frame, event, arg):
    f = frame.f_code.co_filename
    return local if "module_builder" in f or f.endswith(("shutil.py", "pathlib.py")) else None
sys.settrace(tracer)
"""
'''

bug("c13-clean-first", "C13", "an install that is killed or fails after it has begun",
    "the translated headers of the release before are removed before the new ones are copied",
    [(MI, '    for pythonFile in sourcePath.glob("*.py"):\n',
          '    # headers that no longer exist must not stay behind\n    for oldFile in destPath.glob("*_h.py"):\n        oldFile.unlink()\n\n    for pythonFile in sorted(sourcePath.glob("*.py")):\n')],
    INST + '''
for k in range(1, 400, 3):
    for n in names:
        put(where(n), b"old")
    if install(hook=KILL % k) == 0:
        break
    for n in names:
        expect(installed(n) in (b"old", files[n]), "%s after a crash: %r" % (n, (installed(n) or b"gone")[:9]))
''')

bug("c13-same-stamp", "C13", "a new generated module with the size and modification time of the installed one",
    "modules are skipped if size and modification time are those of the installed file",
    [(MI, "import shutil\n", "import filecmp\nimport shutil\n"),
     (MI, '    for pythonFile in sourcePath.glob("*.py"):\n',
          '    for pythonFile in (f for f in sourcePath.glob("*.py") if not ((destPath / f.name).exists() and filecmp.cmp(f, destPath / f.name))):\n')],
    INST + '''
for n in names:
    os.utime(os.path.join(src, n), (10**9, 10**9))
expect(install() == 0, "install")
new = files["uchar_h.py"].replace(b"u", b"v")
put(os.path.join(src, "uchar_h.py"), new)
os.utime(os.path.join(src, "uchar_h.py"), (10**9, 10**9))
expect(install() == 0, "install")
expect(installed("uchar_h.py") == new, "the new module was not installed")
''')

bug("c13-recursive", "C13", "a directory with generated modules of another build inside the one that is installed",
    "modules in directories below are installed as well, over those of this build",
    [(MI, '    for pythonFile in sourcePath.glob("*.py"):\n', '    for pythonFile in sorted(sourcePath.rglob("*.py"), key=lambda f: len(f.parts)):\n')],
    INST + '''
os.makedirs(os.path.join(src, "previous"))
put(os.path.join(src, "previous", "uchar_h.py"), b"previous")
expect(install() == 0, "install")
for n in names:
    expect(installed(n) == files[n], "%s: %r" % (n, installed(n)[:20]))
''')

bug("c13-tidy-up", "C13", "a hidden file in the package directory that the installer did not make",
    "hidden files are taken for temporary ones of an earlier install and removed",
    [(MI, '    for pythonFile in sourcePath.glob("*.py"):\n',
          '    # left over from an interrupted install\n    for tempFile in destPath.glob(".*"):\n        if tempFile.is_file():\n            tempFile.unlink()\n\n    for pythonFile in sorted(sourcePath.glob("*.py")):\n')],
    INST + '''
put(where("x.py").replace("x.py", ".gitattributes"), b"*.py text")
expect(install() == 0, "install")
expect(os.path.exists(os.path.join(work, "UnicodeData", ".gitattributes")), "an unrelated file was removed")
''')

bug("c13-moved", "C13", "an install that fails after some of the modules, and is run again",
    "modules are moved from the source directory, so an install after a failed one is not complete any more",
    [(MI, '    for pythonFile in sourcePath.glob("*.py"):\n',
          '    for pythonFile in list(sourcePath.glob("*.py")):\n        if (destPath / pythonFile.name).exists():\n            os.replace(pythonFile, destPath / pythonFile.name)  # atomic\n            continue\n'),
     ],
    INST + '''
for n in names:
    put(where(n), b"old")
expect(install() == 0, "install")
for n in names:
    expect(installed(n) == files[n], n)
    expect(os.path.exists(os.path.join(src, n)), "source %s is gone" % n)
''')
