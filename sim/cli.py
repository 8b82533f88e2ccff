"""Runs one of the command line tools of module_builder as a simulated
process: a fresh set of its modules, its own argv and working directory, every
line a point, and the disk of the World it is given."""
import contextlib
import gc
import importlib.machinery
import os
import random
import sys
import types

from . import core, disk

REPO = core.REPO
TOOLS = os.path.join(REPO, "module_builder")


class ArgumentIterator:
    """stand-in for FontDocTools.ArgumentIterator, which is not installed."""

    def __init__(self, arguments):
        self._a = list(arguments)

    def __iter__(self):
        return self

    def __next__(self):
        if not self._a:
            raise StopIteration
        return self._a.pop(0)

    def nextExtra(self, valueName):
        if not self._a:
            raise ValueError("Missing " + valueName + ".")
        return self._a.pop(0)

    nextOptional = nextExtra


def stubs():
    pkg = types.ModuleType("FontDocTools")
    pkg.__path__ = []
    sub = types.ModuleType("FontDocTools.ArgumentIterator")
    sub.ArgumentIterator = ArgumentIterator
    pkg.ArgumentIterator = sub
    sys.modules["FontDocTools"] = pkg
    sys.modules["FontDocTools.ArgumentIterator"] = sub


def forget():
    here = os.path.realpath(TOOLS) + "/"
    for n, m in list(sys.modules.items()):
        f = getattr(m, "__file__", None)
        if n != "__main__" and f and (f.startswith(TOOLS + "/") or os.path.realpath(f).startswith(here)):
            del sys.modules[n]


def preload():
    """what the tools import from the standard library, before any run."""
    import csv, datetime, re, shutil, pathlib, typing, tempfile, filecmp, glob, hashlib, json, stat, contextlib, io, time, errno    # noqa
    stubs()
    if TOOLS not in sys.path:
        sys.path.insert(0, TOOLS)
    for n in ("HeaderToPtyhon", "UCDReader"):
        try:
            __import__(n)
        except BaseException:
            pass
    forget()


class Null:
    encoding = "utf-8"

    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


class Host:
    """the machine and the user a process runs on and as: nothing that may matter."""

    def __init__(self, seed):
        self.rng = random.Random("host/%s" % seed)

    def __enter__(self):
        rng = self.rng
        word = lambda: "".join(rng.choice("abcxyz019") for _ in range(rng.randint(1, 9)))
        self.env = dict(os.environ)
        for k in ("USER", "LOGNAME", "HOSTNAME", "HOME", "LANG", "LC_ALL", "LC_CTYPE", "LANGUAGE", "PWD", "OLDPWD", "COLUMNS", "EDITOR", "SHELL", "TERM"):
            os.environ.pop(k, None)
            if rng.random() < 0.7:
                os.environ[k] = {"HOME": "/home/" + word(), "COLUMNS": str(rng.choice([1, 40, 80, 300]))}.get(
                    k, rng.choice(["C", "de_DE.UTF-8", "tr_TR.UTF-8", "ja_JP"]) if k[:2] in ("LA", "LC") else word())
        pid, name, cpus = rng.randrange(2, 1 << 22), word(), rng.choice([1, 2, 64])
        self.fns = [(os, "getpid", lambda: pid), (os, "getppid", lambda: pid - 1), (os, "cpu_count", lambda: cpus),
                    (os, "uname", lambda: os.uname_result((rng.choice(["Linux", "Darwin"]), name, "1.%d" % cpus, "#1", "x86_64"))),
                    (os, "getlogin", lambda: name)]
        self.state = random.getstate()
        random.seed(rng.random())
        self.old = [(m, n, getattr(m, n)) for m, n, _ in self.fns]
        for m, n, f in self.fns:
            setattr(m, n, f)
        self.forget()

    def forget(self):
        p = sys.modules.get("platform")
        if p is not None and hasattr(p, "_uname_cache"):
            p._uname_cache = None

    def __exit__(self, *a):
        self.forget()
        for m, n, f in self.old:
            setattr(m, n, f)
        random.setstate(self.state)
        os.environ.clear()
        os.environ.update(self.env)


def run(world, script, args, cwd, faults=(), crash_line=None, step_limit=3_000_000):
    """one process. Returns a dict: how it ended, and what it used."""
    path = os.path.join(TOOLS, script)
    forget()
    stubs()
    ns = types.ModuleType("__main__")
    ns.__file__ = path
    box = {}
    world.arm(faults)
    mark = world.epoch
    old = (sys.argv, sys.stdout, sys.stderr, os.getcwd(), sys.modules.get("__main__"))
    tz = os.environ.get("TZ")

    def die(msg):
        world.dead = True
        return core.SimCrash(msg)

    def task():
        sim = core.CURRENT
        if crash_line is not None:
            sim.set_injection(crash_line, die, "crash@line")
        try:
            code = importlib.machinery.SourceFileLoader("__main__", path).get_code("__main__")
            exec(code, ns.__dict__)
            box["end"] = ("ok", "")
        except core.SimCrash:
            box["end"] = ("crash", "")
        except SystemExit as e:
            box["end"] = ("ok", "") if e.code in (None, 0) else ("exit", str(e.code)[:100])
        except (core.SimAbort, core.Violation):
            raise
        except BaseException as e:
            box["end"] = ("exc", type(e).__name__, str(e)[:200].replace(world.root, ""))
            e.__traceback__ = None
        sim.clear_injection()

    sim = core.Sim({"decisions": []}, step_limit)
    sim.spawn(task)
    sys.argv = [path] + list(args)
    sys.stdout = sys.stderr = Null()
    sys.modules["__main__"] = ns
    os.chdir(cwd)
    host = Host(world.host) if getattr(world, "host", None) is not None else contextlib.nullcontext()
    try:
        with host:
            sim.run()
    finally:
        # the end of the process: whatever is still open is finalised now
        ns.__dict__.clear()
        forget()
        gc.collect()
        sys.argv, sys.stdout, sys.stderr = old[:3]
        sys.modules["__main__"] = old[4]
        os.chdir(old[3])
        assert world.epoch == mark
    end = box["end"]
    if world.dead:
        end = ("crash", "")
    r = dict(end=end, steps=sim.steps, counts=dict(world.counts), ops=world.ops, fired=dict(sim.fired),
             struck=[f["kind"] for f in world.faults if f.get("done")])
    world.revive()
    return r
