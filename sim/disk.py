"""The simulated disk and clock.

Paths under the scratch root of the run (and the one path of the package's
data file, which is mapped into the root) go through this module: every open,
read, write, close, rename and directory listing is an event the simulator
counts, may reorder the schedule at, and may fail. Effects land in the scratch
directory, so what survives a simulated crash is what is there afterwards.
All other paths are passed through for reading and refused for writing.
"""
import builtins
import datetime as _dt
import errno
import importlib.machinery
import io
import os
import posix
import random
import shutil
import stat as _stat
import sys
import time

from . import core

_open = builtins.open
_os = {n: getattr(os, n) for n in (
    "open", "read", "write", "close", "stat", "lstat", "access", "replace", "rename", "remove", "unlink", "mkdir",
    "rmdir", "listdir", "scandir", "chmod", "utime", "truncate", "ftruncate", "link", "symlink", "fsync", "sendfile",
    "pwrite", "pread", "readlink", "copy_file_range", "chown", "lseek", "fdatasync", "fdopen") if hasattr(os, n)}
_realtime = time.time
_FileIO = io.FileIO

WORLD = None

ERR = {"EIO": errno.EIO, "ENOENT": errno.ENOENT, "EACCES": errno.EACCES, "ENOSPC": errno.ENOSPC, "EMFILE": errno.EMFILE,
       "ENOMEM": errno.ENOMEM, "EDQUOT": errno.EDQUOT, "ETIMEDOUT": errno.ETIMEDOUT, "ESTALE": errno.ESTALE, "EROFS": errno.EROFS}

# which kinds of fault can strike which operation
APPLIES = {
    "open-r": {"EIO", "ENOENT", "EACCES", "EMFILE", "crash", "KeyboardInterrupt", "MemoryError"},
    "open-w": {"EIO", "EACCES", "EMFILE", "ENOSPC", "crash", "KeyboardInterrupt", "MemoryError"},
    "read": {"EIO", "ESTALE", "crash", "KeyboardInterrupt", "MemoryError"},
    "write": {"EIO", "ENOSPC", "EDQUOT", "crash", "torn-crash", "torn-EIO", "torn-ENOSPC", "KeyboardInterrupt"},
    "close-w": {"EIO", "ENOSPC", "EDQUOT", "lost-EIO", "crash", "KeyboardInterrupt"},
    "close-r": {"crash"},
    "replace": {"EIO", "EACCES", "ENOSPC", "crash", "crash-after", "KeyboardInterrupt"},
    "mkdir": {"EIO", "EACCES", "ENOSPC", "crash", "crash-after"},
    "unlink": {"crash", "crash-after"},
    "meta": {"crash", "EIO", "EACCES"},
}


class World:
    def __init__(self, root, seed=0):
        self.root = os.path.realpath(root)
        self.remap = {}
        self.faults = []
        self.rng = random.Random(seed)
        self.counts = {}
        self.ops = 0
        self.fired = {}
        self.many = False           # several processes: one of them can die
        self.dead_tids = set()
        self.pids = {}
        self.dead = False
        self.full = False
        self.short_read = 0.0
        self.short_write = 0.0
        self.chunk = 1 << 16
        self.shuffle_dirs = False
        self.clock = 1_600_000_000.0
        self.tick = 0.0
        self.locale = "utf-8"       # the encoding of text files that do not say theirs
        self.fds = {}
        self.readonly = set()
        self.trace = []
        self.trace_on = True
        self.escapes = []
        self.open_files = 0
        self.epoch = 0

    @property
    def dead(self):
        if self.dead_tids:
            s = core.CURRENT
            if s is not None and s.cur is not None and s.cur.tid in self.dead_tids:
                return True
        return self._dead

    @dead.setter
    def dead(self, v):
        if v and self.many:
            self.dead_tids.add(core.CURRENT.cur.tid)
        else:
            self._dead = v

    # -- faults

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def op(self, cat, path):
        """count an operation; returns the fault that strikes it, if any."""
        if self.dead:
            raise core.SimCrash("the simulated process is dead")
        self.clock += self.tick
        s = core.CURRENT
        if s is not None and s.active and s.cur is not None and s.cur.ident == core._get_ident():
            s.point(cat)
        self.ops += 1
        n = self.counts[cat] = self.counts.get(cat, 0) + 1
        if self.trace_on and len(self.trace) < 5000:
            self.trace.append((cat, self.rel(path)))
        for f in self.faults:
            if f.get("done"):
                continue
            on = f["on"]
            if on == "any":
                hit = self.ops >= f["nth"]
            else:
                hit = on == cat and n >= f["nth"]
            if hit and f["kind"] in APPLIES.get(cat, ()):
                if f.get("path") and f["path"] not in path:
                    continue
                f["done"] = True
                f["hit"] = [cat, self.rel(path)]
                f["by"] = s.cur.tid if s is not None and s.cur is not None else None
                kind = f["kind"]
                self.fire(kind + "@" + cat)
                if kind in ("ENOSPC", "EDQUOT", "torn-ENOSPC") and f.get("sticky"):
                    self.full = True
                return kind
        if self.full and cat in ("write", "open-w", "mkdir"):
            if cat == "write":
                self.fire("ENOSPC@" + cat)
                return "ENOSPC"
        return None

    def rel(self, path):
        if path.startswith(self.root):
            return path[len(self.root):].lstrip("/")
        return os.path.basename(path)

    def arm(self, faults):
        """start counting afresh with these faults."""
        self.counts = {}
        self.ops = 0
        self.faults = [dict(f) for f in faults]

    def strike(self, kind, path):
        if kind is None:
            return
        if kind in ("crash", "torn-crash", "crash-after"):
            self.dead = True
            raise core.SimCrash("crash")
        k = kind.split("-")[-1]
        if k in ERR:
            raise OSError(ERR[k], os.strerror(ERR[k]), path)
        raise core.EXC[k]("injected by the simulator")

    def revive(self):
        """the process was restarted (or the disk repaired)."""
        self.dead = False
        self.dead_tids.clear()
        self.full = False
        self.faults = []
        self.epoch += 1
        for fd in list(self.fds):
            self.fds.pop(fd, None)

    # -- paths

    def resolve(self, path):
        """(real path or None if it is not ours)"""
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not os.path.isabs(p):
            p = os.path.join(os.getcwd(), p)
        p = os.path.normpath(p)
        if p in self.remap:
            return self.remap[p]
        if p == self.root or p.startswith(self.root + "/"):
            return p
        return None

    def at(self, path, dir_fd):
        """like resolve, for a path relative to an open directory."""
        if dir_fd is None:
            return self.resolve(path)
        base = self.fds.get(dir_fd)
        if base is None:
            try:
                base = os.readlink("/proc/self/fd/%d" % dir_fd)
            except OSError:
                return None
        return self.resolve(os.path.join(base, os.fsdecode(path)))

    def escape(self, what, path):
        self.escapes.append([what, os.fspath(path) if not isinstance(path, int) else path])
        raise OSError(errno.EROFS, "outside of the simulated disk", path)


# ------------------------------------------------------------ files

class SimFileIO(io.FileIO):
    def __init__(self, path, mode, shown, fd=None, closefd=True):
        self._shut = True       # so that a failing open is not closed
        super().__init__(path if fd is None else fd, mode, closefd=closefd)
        self._p = path
        self._w = "r" not in mode or "+" in mode
        self._shown = shown
        self._world = WORLD
        self._epoch = WORLD.epoch
        self._shut = False
        self._world.open_files += 1

    @property
    def name(self):
        return self._shown

    @name.setter
    def name(self, v):
        pass

    def readinto(self, b):
        w = self._world
        kind = w.op("read", self._p)
        w.strike(kind, self._p)
        m = memoryview(b).cast("B")
        n = len(m)
        if n > 1 and w.short_read and w.rng.random() < w.short_read:
            n = w.rng.randint(1, max(1, n - 1))
            w.fire("short-read")
        elif n > w.chunk:
            n = w.chunk
        return super().readinto(m[:n])

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        buf = bytearray(size)
        n = self.readinto(buf)
        return bytes(buf[:n])

    def readall(self):
        out = []
        while True:
            # like the real one, each piece may be of any size
            buf = bytearray(self._world.chunk)
            n = self.readinto(buf)
            if not n:
                return b"".join(out)
            out.append(bytes(buf[:n]))

    def write(self, b):
        w = self._world
        if w.epoch != self._epoch:      # of a process that is no more
            return memoryview(b).nbytes
        kind = w.op("write", self._p)
        m = memoryview(b).cast("B")
        if kind is not None:
            if kind.startswith("torn") and len(m) > 1:
                super().write(m[:w.rng.randint(1, len(m) - 1)])
            elif kind in ("ENOSPC", "EDQUOT") and len(m) > 1:
                super().write(m[:w.rng.randint(0, len(m) - 1)])
            w.strike(kind, self._p)
        n = len(m)
        if n > 1 and w.short_write and w.rng.random() < w.short_write:
            n = w.rng.randint(1, n - 1)
            w.fire("short-write")
        return super().write(m[:n])

    def truncate(self, size=None):
        w = self._world
        w.strike(w.op("write", self._p), self._p)
        return super().truncate(size)

    def close(self):
        if self.closed or self._shut:
            return super().close()
        self._shut = True
        w = self._world
        w.open_files -= 1
        if w.dead or w.epoch != self._epoch:
            if self._w:
                try:
                    _os["utime"](self.fileno(), (w.clock, w.clock))
                except OSError:
                    pass
            super().close()
            if w.epoch != self._epoch:
                return
            raise core.SimCrash("the simulated process is dead")
        try:
            kind = w.op("close-w" if self._w else "close-r", self._p)
            if kind == "lost-EIO":
                size = _os["stat"](self._p).st_size
                if size:
                    _os["truncate"](self._p, w.rng.randrange(size))
            w.strike(kind, self._p)
        finally:
            if self._w:
                try:
                    _os["utime"](self.fileno(), (w.clock, w.clock))
                except OSError:
                    pass
            super().close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = WORLD
    if w is None:
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(ch in mode for ch in "wax+")
    fd = None
    if isinstance(file, int):
        if file not in w.fds:
            return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        p, fd = w.fds[file], file
        shown = file
    else:
        p = w.resolve(file)
        shown = file
        if p is None:
            if writing and os.fspath(file) != os.devnull:
                w.escape("open " + mode, file)
            return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if opener is not None:
            flags = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC, "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND,
                     "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL}[next(c for c in mode if c in "rwax")]
            if "+" in mode:
                flags = flags & ~os.O_WRONLY | os.O_RDWR
            fd = opener(file, flags)
            p = w.fds.get(fd, p)
        else:
            w.strike(w.op("open-w" if writing else "open-r", p), p)
    raw_mode = "".join(c for c in mode if c in "rwax+")
    raw = SimFileIO(p, raw_mode, shown, fd, closefd)
    try:
        if "b" in mode and buffering == 0:
            return raw
        size = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if "b" in mode:
            return buf
        text = io.TextIOWrapper(buf, w.locale if encoding in (None, "locale") else encoding, errors, newline, buffering == 1)
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


def _wrap(name, fn):
    def f(*a, **k):
        if WORLD is None:
            return _os[name](*a, **k)
        return fn(WORLD, *a, **k)
    f.__name__ = name
    setattr(os, name, f)


def _s_open(w, path, flags, mode=0o777, *, dir_fd=None):
    p = w.at(path, dir_fd)
    writing = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
    if p is None:
        if writing and os.fspath(path) != os.devnull:
            w.escape("os.open", path)
        return _os["open"](path, flags, mode, dir_fd=dir_fd)
    w.strike(w.op("open-w" if writing else "open-r", p), p)
    fd = _os["open"](p, flags, mode)
    w.fds[fd] = p
    (w.readonly.discard if writing else w.readonly.add)(fd)
    return fd


def _s_read(w, fd, n):
    if fd not in w.fds:
        return _os["read"](fd, n)
    w.strike(w.op("read", w.fds[fd]), w.fds[fd])
    if n > 1 and w.short_read and w.rng.random() < w.short_read:
        n = w.rng.randint(1, n - 1)
        w.fire("short-read")
    return _os["read"](fd, min(n, w.chunk))


def _s_write(w, fd, data):
    if fd not in w.fds:
        return _os["write"](fd, data)
    m = memoryview(data).cast("B")
    kind = w.op("write", w.fds[fd])
    if kind is not None:
        if (kind.startswith("torn") or kind in ("ENOSPC", "EDQUOT")) and len(m) > 1:
            _os["write"](fd, m[:w.rng.randint(1, len(m) - 1)])
        w.strike(kind, w.fds[fd])
    n = len(m)
    if n > 1 and w.short_write and w.rng.random() < w.short_write:
        n = w.rng.randint(1, n - 1)
        w.fire("short-write")
    return _os["write"](fd, m[:n])


def _s_close(w, fd):
    if fd not in w.fds:
        return _os["close"](fd)
    p = w.fds.pop(fd)
    try:
        w.strike(w.op("close-r" if fd in w.readonly else "close-w", p), p)
    finally:
        _os["close"](fd)


def _s_sendfile(w, out, in_, offset, count, *a, **k):
    raise OSError(errno.EINVAL, "no sendfile on the simulated disk")


def _two(name):
    def f(w, src, dst, **k):
        a, b = w.at(src, k.pop("src_dir_fd", None)), w.at(dst, k.pop("dst_dir_fd", None))
        if b is None or (a is None and name in ("replace", "rename")):
            w.escape(name, dst)
        if a is None:
            a = src
        kind = w.op("replace", b)
        if kind == "crash-after":
            _os[name](a, b)
        w.strike(kind, b)
        return _os[name](a, b)
    return f


def _one(name, cat, mutating=True):
    def f(w, path, *a, **k):
        if isinstance(path, int):
            return _os[name](path, *a, **k)
        p = w.at(path, k.get("dir_fd"))
        if p is not None and "dir_fd" in k:
            k = {n: v for n, v in k.items() if n != "dir_fd"}
        if p is None:
            if mutating:
                w.escape(name, path)
            return _os[name](path, *a, **k)
        if cat:
            if cat == "mkdir" and os.path.lexists(p):
                kind = w.op("meta", p)
            else:
                kind = w.op(cat, p)
            if kind == "crash-after":
                _os[name](p, *a, **k)
            w.strike(kind, p)
        elif w.dead:
            raise core.SimCrash("the simulated process is dead")
        return _os[name](p, *a, **k)
    return f


def _s_listdir(w, path="."):
    r = _os["listdir"](path if isinstance(path, int) or w.resolve(path) is None else w.resolve(path))
    if not isinstance(path, int) and w.resolve(path) is not None:
        r.sort()
        if w.shuffle_dirs:
            w.rng.shuffle(r)
            w.fire("dir-order")
    return r


class _ScanDir:
    def __init__(self, entries):
        self._e = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._e)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass


def _s_scandir(w, path="."):
    p = w.fds.get(path) if isinstance(path, int) else w.resolve(path)
    if p is None:
        return _os["scandir"](path)
    if w.dead:
        raise core.SimCrash("the simulated process is dead")
    with _os["scandir"](path) as it:
        r = sorted(it, key=lambda e: e.name)
    if w.shuffle_dirs:
        w.rng.shuffle(r)
        w.fire("dir-order")
    return _ScanDir(r)


# ------------------------------------------------------------ clock

def _now():
    w = WORLD
    if w is not None:
        w.clock += 0.001
        s = core.CURRENT
        return w.clock + (s.now if s is not None else 0)
    return _realtime()


_real_datetime = _dt.datetime
_real_date = _dt.date


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _real_datetime)


class SimDatetime(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        return _real_datetime.fromtimestamp(_now(), tz)

    @classmethod
    def today(cls):
        return _real_datetime.fromtimestamp(_now())

    @classmethod
    def utcnow(cls):
        return _real_datetime.fromtimestamp(_now(), _dt.timezone.utc).replace(tzinfo=None)


class SimDate(_dt.date):
    @classmethod
    def today(cls):
        return _real_date.fromtimestamp(_now())


def install_clock():
    _dt.datetime = SimDatetime
    _dt.date = SimDate
    time.time = _now
    time.time_ns = lambda: int(_now() * 1e9)
    lt, gt, st, ct = time.localtime, time.gmtime, time.strftime, time.ctime
    time.localtime = lambda secs=None: lt(_now() if secs is None else secs)
    time.gmtime = lambda secs=None: gt(_now() if secs is None else secs)
    time.strftime = lambda f, t=None: st(f, lt(_now()) if t is None else t)
    time.ctime = lambda secs=None: ct(_now() if secs is None else secs)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    builtins.open = sim_open
    io.open = sim_open
    _wrap("open", _s_open)
    _wrap("read", _s_read)
    _wrap("write", _s_write)
    _wrap("close", _s_close)
    _wrap("sendfile", _s_sendfile)
    if "copy_file_range" in _os:
        _wrap("copy_file_range", _s_sendfile)
    for n in ("replace", "rename", "link", "symlink"):
        _wrap(n, _two(n))
    for n in ("remove", "unlink", "rmdir"):
        _wrap(n, _one(n, "unlink"))
    _wrap("mkdir", _one("mkdir", "mkdir"))
    _wrap("chmod", _one("chmod", "meta"))
    _wrap("utime", _one("utime", None))
    _wrap("truncate", _one("truncate", "write"))
    for n in ("stat", "lstat", "access", "readlink"):
        _wrap(n, _one(n, None, False))
    _wrap("listdir", _s_listdir)
    _wrap("scandir", _s_scandir)
    shutil._USE_CP_SENDFILE = False
    # pkgutil.get_data and importlib.resources may read files with the module loader
    loader = importlib.machinery.SourceFileLoader.__mro__[1]
    get_data = loader.get_data

    def sim_get_data(self, path):
        if WORLD is not None and not str(path).endswith((".py", ".pyc")) and WORLD.resolve(path) is not None:
            with sim_open(path, "rb") as f:
                return f.read()
        return get_data(self, path)
    loader.get_data = sim_get_data
    # sets that remember the real functions
    for name in ("supports_follow_symlinks", "supports_dir_fd", "supports_fd", "supports_effective_ids"):
        st = getattr(os, name, None)
        if st:
            for n in _os:
                if _os[n] in st and n not in ("utime", "chmod", "stat", "access", "link"):
                    st.add(getattr(os, n))
                elif _os[n] in st and name != "supports_dir_fd":
                    st.add(getattr(os, n))
    # pathlib holds no references; tempfile and shutil use the module attributes


def _pid():
    """of the simulated process; every process has its own."""
    w = WORLD
    if w is None:
        return posix.getpid()
    s = core.CURRENT
    if w.many and s is not None and s.cur is not None:
        return w.pids.get(s.cur.tid, 99)
    return 4000 + w.epoch


def set_world(w):
    global WORLD
    WORLD = w
    os.getpid = posix.getpid if w is None else _pid
