MI = "module_builder/ModuleInstaller.py"
LOOP = "    for pythonFile in sourcePath.glob(\"*.py\"):\n        installFile(pythonFile, destPath)\n"

INST = '''
import subprocess, sys
top = scratch()
one, two, work = (os.path.join(top, n) for n in ("one", "two", "repo"))
os.makedirs(os.path.join(work, "UnicodeData", "Data"))
for d in (one, two):
    os.makedirs(d)
    for n in ("uchar_h.py", "ucase_h.py", "icudata.dat", "LICENSE"):
        put(os.path.join(d, n), (n + os.path.basename(d)).encode() * 20000)
SCRIPT = os.path.join(REPO, "module_builder", "ModuleInstaller.py")
# the first install stands still at its %s-th rename of a module; then another one runs (and stops in its %s-th copy of one, if that is not 0)
HOOK = """
import os, shutil, subprocess, sys
if "VERIF_SECOND" in os.environ:
    n = [0]
    real = shutil.copyfile
    def half(src, dst, **k):
        if str(src).endswith(".py"):
            n[0] += 1
            if n[0] == %d:
                data = open(src, "rb").read()
                open(dst, "wb").write(data[:len(data) // 2])
                os._exit(9)
        return real(src, dst, **k)
    shutil.copyfile = half
else:
    m = [0]
    rename = os.replace
    def replace(src, dst, **k):
        if str(dst).endswith(".py"):
            m[0] += 1
            if m[0] == %d:
                r = subprocess.run([sys.executable, %r, %r], cwd=%r, env=dict(os.environ, VERIF_SECOND="1")).returncode
                open(%r, "w").write(str(r))
        return rename(src, dst, **k)
    os.replace = replace
"""
status = os.path.join(top, "status")


def both(at, stop):
    r = tool("ModuleInstaller.py", [one], work, hook=HOOK % (stop, at, SCRIPT, two, work, status))
    return r, (open(status).read() if os.path.exists(status) else None)


def whole():
    for n in ("uchar_h.py", "ucase_h.py"):
        p = os.path.join(work, "UnicodeData", n)
        if os.path.exists(p):
            data = open(p, "rb").read()
            expect(data in [(n + d).encode() * 20000 for d in ("one", "two")], "%s is neither of the two: %d bytes" % (n, len(data)))
'''

bug("c13-shared-stage", "C13", "two installs at the same time, one of which is killed or slower",
    "all modules are first copied to a staging directory, which installs at the same time share",
    [(MI, LOOP, "    # all are there before the first one is replaced\n    modules = list(sourcePath.glob(\"*.py\"))\n    stage = destPath / \".stage\"\n    stage.mkdir(exist_ok=True)\n    for pythonFile in modules:\n        shutil.copy2(pythonFile, stage)\n\n    for pythonFile in modules:\n        os.replace(stage / pythonFile.name, destPath / pythonFile.name)\n")],
    INST + '''
for stop in (1, 2, 0):
    r, s = both(1, stop)
    whole()
    expect(r == 0 and s == ("9" if stop else "0"), "status %r, %r" % (r, s))
''')

bug("c13-busy", "C13", "two installs at the same time, the first of which is killed after the second one started",
    "an install that finds another one at work leaves the modules to it",
    [(MI, LOOP, "    busy = destPath / \".installing\"\n    try:\n        busy.mkdir()\n    except FileExistsError:\n        # another install does it\n        return\n\n    try:\n        for pythonFile in sourcePath.glob(\"*.py\"):\n            installFile(pythonFile, destPath)\n    finally:\n        busy.rmdir()\n\n")],
    INST + '''
r, s = both(1, 0)
whole()
expect((r, s) == (0, "0"), "status %r, %r" % (r, s))
for n in ("icudata.dat", "LICENSE"):
    expect(os.path.exists(os.path.join(work, "UnicodeData", "Data", n)), n)
# the first one stops, the second one said that it installed everything
for n in ("uchar_h.py", "ucase_h.py"):
    put(os.path.join(work, "UnicodeData", n), b"old")
r = tool("ModuleInstaller.py", [one], work, hook=(HOOK % (0, 1, SCRIPT, two, work, status)).replace("open(%r" % status, "os._exit(9) or open(%r" % status))
expect(r == 9, "not killed")
for n in ("uchar_h.py", "ucase_h.py"):
    expect(open(os.path.join(work, "UnicodeData", n), "rb").read() == (n + "two").encode() * 20000, n + " is not the one of the install that succeeded")
''')
