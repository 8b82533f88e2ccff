"""Helpers of the demonstrations. Everything they write is in a scratch
directory that is removed at the end."""
import atexit
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.getcwd()
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True


def scratch():
    d = tempfile.mkdtemp(prefix="demo-")
    atexit.register(shutil.rmtree, d, True)
    return d


def package(blob=None):
    """copy the package to a scratch directory, with this data file, and import from there."""
    d = scratch()
    shutil.copytree(os.path.join(REPO, "UnicodeData"), os.path.join(d, "UnicodeData"), ignore=shutil.ignore_patterns("__pycache__"))
    os.makedirs(os.path.join(d, "UnicodeData", "Data"), exist_ok=True)
    sys.path.insert(0, d)
    path = os.path.join(d, "UnicodeData", "Data", "icudata.dat")
    if blob is not None:
        put(path, blob)
    return path


def put(path, blob):
    with open(path, "wb") as f:
        f.write(blob)


def dataset(seed="demo"):
    """a synthetic data file and what it holds."""
    sys.path.insert(0, HERE)
    from sim import dataset as D
    return D.Dataset(seed)


def forget():
    """as in a fresh process: drop the package's modules."""
    for n in list(sys.modules):
        if n == "UnicodeData" or n.startswith("UnicodeData."):
            del sys.modules[n]


def at_line(fn, k, action, inside=("UnicodeData",)):
    """call fn; just before the k-th line it runs in the package, call action (which may raise).
    Returns (did it get that far, result or exception)."""
    state = [k, False]

    def local(frame, event, arg):
        if event == "line":
            if state[0] == 0 and not state[1]:
                state[1] = True
                sys.settrace(None)
                frame.f_trace = None
                action()
                return None
            state[0] -= 1
        return local

    def tracer(frame, event, arg):
        if state[1]:
            return None
        f = frame.f_code.co_filename
        return local if any((os.sep + p + os.sep) in f for p in inside) else None
    sys.settrace(tracer)
    try:
        r = fn()
    except BaseException as e:
        r = e
    finally:
        sys.settrace(None)
    return state[1], r


def expect(cond, what):
    if not cond:
        print("FAILED:", what)
        sys.exit(1)


STUB = '''
class ArgumentIterator:
    def __init__(self, arguments):
        self.a = list(arguments)

    def __iter__(self):
        return self

    def __next__(self):
        if not self.a:
            raise StopIteration
        return self.a.pop(0)

    def nextExtra(self, name):
        if not self.a:
            raise ValueError("Missing " + name)
        return self.a.pop(0)
'''


def tree(seed, where):
    """write a synthetic ICU tree; returns what it holds."""
    sys.path.insert(0, HERE)
    from sim import icutree
    t = icutree.Tree(seed)
    for rel, data in t.files.items():
        p = os.path.join(where, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        put(p, data)
    return t


def tool(script, args, cwd, hook="", limit=None, hashseed=None, env=()):
    """run a tool of module_builder; hook: code run in its process first; limit: largest
    file it can write. Returns its exit status."""
    lib = scratch()
    os.makedirs(os.path.join(lib, "FontDocTools"))
    open(os.path.join(lib, "FontDocTools", "__init__.py"), "w").close()
    put(os.path.join(lib, "FontDocTools", "ArgumentIterator.py"), STUB.encode())
    if hook:
        put(os.path.join(lib, "sitecustomize.py"), hook.encode())
    e = dict(os.environ, PYTHONPATH=lib, PYTHONDONTWRITEBYTECODE="1")
    e.update(env)
    if hashseed is not None:
        e["PYTHONHASHSEED"] = str(hashseed)

    def pre():
        if limit is not None:
            import resource
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    return subprocess.run([sys.executable, os.path.join(REPO, "module_builder", script)] + args, cwd=cwd, env=e, preexec_fn=pre,
                          stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode


def builder(icu, out, cwd, **kw):
    return tool("ModuleBuilder.py", ["--sourceDir", os.path.join(icu, "source"), "--buildDir", os.path.join(icu, "build"), "--outputDir", out], cwd, **kw)


def read(d):
    """{file: content without the line that tells the time}"""
    r = {}
    for base, _, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            data = open(p, "rb").read()
            if f.endswith(".py"):
                data = b"\n".join(x for x in data.split(b"\n") if not x.startswith(b"Generated by "))
            r[os.path.relpath(p, d)] = data
    return r
