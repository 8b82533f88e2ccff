"""Deterministic scheduler.

Tasks are real threads, parked and released one at a time. A running task can
lose the baton only at a *point*: a line, call or return event (sys.monitoring)
in the code under test, or an operation of the simulated world (file system,
lock, sleep). Who runs next, and for how many points, is decided by the
seeded scheduler, or by a recorded decision list on replay.
"""
import builtins
import hashlib
import importlib._bootstrap as _boot
import importlib._bootstrap_external as _bootx
import os
import random
import sys
import threading
import time
import _thread

REPO = os.environ.get("VERIF_REPO", "/repo")
_real_lock = _thread.allocate_lock
_real_rlock = threading.RLock
_get_ident = _thread.get_ident
_mon = sys.monitoring
TOOL = 4
E = _mon.events
EVENTS = E.LINE | E.PY_START | E.PY_RETURN | E.PY_RESUME | E.PY_YIELD

CURRENT = None      # the Sim that is running, if any


class SimAbort(BaseException):
    """Unwinds a task when the run was ended by the simulator."""


class SimCrash(BaseException):
    """The simulated process was killed here."""


class Injected(Exception):
    """Base of exceptions that only the simulator raises."""


class CallbackError(Injected):
    pass


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "SimCrash": SimCrash,
       "CallbackError": CallbackError, "TimeoutError": TimeoutError}


# ------------------------------------------------------------ instrumentation

_seen = {}
_installed = False


def _on_line(code, arg):
    s = CURRENT
    if s is not None and s.active:
        s.left -= 1
        if s.left <= 0 and s.cur is not None and _get_ident() == s.cur.ident:
            s.expired(code, arg)


def _on_line_hot(code, line):
    """like _on_line, and may switch tasks right after a line that changed
    something other tasks can see; the more often it ran, the less likely."""
    s = CURRENT
    if s is not None and s.active:
        s.left -= 1
        w = s.hot
        if w:
            s.hot = 0
            if s.left > 0 and s.cur is not None and _get_ident() == s.cur.ident and s.rng.random() < s.hot_p * w:
                s.hot_switch(code, line)
                return
        if s.left <= 0 and s.cur is not None and _get_ident() == s.cur.ident:
            s.expired(code, line)
        h = _hot.get(id(code))
        if h is not None and line in h:
            k = (id(code), line)
            n = s.hot_hits[k] = s.hot_hits.get(k, 0) + 1
            s.hot = h[line] / n


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "add", "setdefault", "setattr", "sort", "popitem", "discard", "appendleft"}
_hot = {}


def _hot_lines(code):
    """{line: weight} for the lines of code that store where another task might
    look: weight 1 if it goes through a class, a global or self, 0.1 if
    through a local name; the object under construction does not count."""
    import dis
    stores, shared = set(), set()
    line = None
    prev = None
    init = code.co_name == "__init__"
    for ins in dis.get_instructions(code):
        if ins.starts_line is not None:
            line = ins.starts_line
        op = ins.opname
        if op == "LOAD_GLOBAL" and ins.argval not in MUTATORS and not hasattr(builtins, str(ins.argval)):
            shared.add(line)
        elif op.startswith("LOAD_FAST") and (ins.argval == "cls" or ins.argval == "self" and not init):
            shared.add(line)
        elif op in ("LOAD_DEREF", "LOAD_CLASSDEREF"):
            shared.add(line)
        if op in ("STORE_GLOBAL", "DELETE_GLOBAL"):
            stores.add(line)
            shared.add(line)
        elif op in ("STORE_SUBSCR", "STORE_SLICE", "DELETE_SUBSCR", "DELETE_ATTR"):
            stores.add(line)
        elif op == "STORE_ATTR":
            if not (init and prev is not None and prev.opname.startswith("LOAD_FAST") and prev.argval == "self"):
                stores.add(line)
        elif op in ("LOAD_ATTR", "LOAD_METHOD", "LOAD_GLOBAL") and ins.argval in MUTATORS:
            stores.add(line)
        prev = ins
    return {x: 1.0 if x in shared else 0.1 for x in stores}


_exits = {}


def _leaving_with(code):
    """is the running frame of code about to leave a with block normally? No asynchronous
    exception can strike there: the interpreter goes straight into __exit__."""
    offs = _exits.get(id(code))
    if offs is None:
        import dis
        offs = _exits[id(code)] = set()
        ins = list(dis.get_instructions(code))
        for i in range(len(ins) - 3):
            four = ins[i:i + 4]
            if all(x.opname == "LOAD_CONST" and x.argval is None for x in four[:3]) and four[3].opname == "CALL" and four[3].arg == 2:
                offs.update(x.offset for x in four)
    if not offs:
        return False
    f = sys._getframe(2)
    while f is not None and f.f_code is not code:
        f = f.f_back
    return f is not None and f.f_lasti in offs


def _on_other(code, off, *rest):
    s = CURRENT
    if s is not None and s.active:
        s.left -= 1
        if s.left <= 0 and s.cur is not None and _get_ident() == s.cur.ident:
            s.expired(code, -off)


_events = EVENTS


def set_granularity(gran):
    """"line": points at lines, calls and returns; "instr": at every bytecode
    instruction as well."""
    global _events
    ev = EVENTS | E.INSTRUCTION if gran == "instr" else EVENTS
    if ev != _events:
        _events = ev
        for c in _seen.values():
            _mon.set_local_events(TOOL, c, ev)


def _instrument(code):
    stack = [code]
    while stack:
        c = stack.pop()
        if id(c) in _seen:      # equal code objects are not the same ones
            continue
        _seen[id(c)] = c
        h = _hot_lines(c)
        if h:
            _hot[id(c)] = h
        _mon.set_local_events(TOOL, c, _events)
        for k in c.co_consts:
            if isinstance(k, type(code)):
                stack.append(k)


def instrument_module(mod):
    """instrument everything defined in an already imported module."""
    import types
    fn = getattr(mod, "__file__", None)
    todo = list(vars(mod).values())
    seen = set()
    while todo:
        v = todo.pop()
        if id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, (classmethod, staticmethod)):
            v = v.__func__
        if isinstance(v, property):
            todo += [x for x in (v.fget, v.fset, v.fdel) if x]
        elif isinstance(v, types.FunctionType):
            if v.__code__.co_filename == fn:
                _instrument(v.__code__)
            if v.__closure__:
                for cell in v.__closure__:
                    try:
                        todo.append(cell.cell_contents)
                    except ValueError:
                        pass
        elif isinstance(v, type):
            if getattr(v, "__module__", None) == mod.__name__:
                todo += list(vars(v).values())
        if hasattr(v, "__wrapped__"):
            todo.append(v.__wrapped__)


def install():
    """Install the seams of the scheduler; once per process, before the
    package is imported."""
    global _installed
    if _installed:
        return
    _installed = True
    _mon.use_tool_id(TOOL, "verif-sim")
    _mon.register_callback(TOOL, E.LINE, _on_line)
    _mon.register_callback(TOOL, E.INSTRUCTION, _on_line)
    for ev in (E.PY_START, E.PY_RETURN, E.PY_RESUME, E.PY_YIELD):
        _mon.register_callback(TOOL, ev, _on_other)
    prefix = REPO.rstrip("/") + "/"

    def get_code(self, fullname, _orig=_bootx.SourceFileLoader.get_code):
        code = _orig(self, fullname)
        if code is not None and code.co_filename.startswith(prefix):
            _instrument(code)
        return code
    _bootx.SourceFileLoader.get_code = get_code
    _boot._ModuleLock = SimModuleLock
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    threading._CRLock = SimRLock
    threading._RLock = SimRLock
    _thread.allocate_lock = SimLock
    _thread.RLock = SimRLock
    time.sleep = sim_sleep


# ------------------------------------------------------------ locks and time

def _task():
    s = CURRENT
    if s is None or not s.active or s.cur is None or s.cur.ident != _get_ident():
        return None, None
    return s, s.cur


class SimLock:
    """threading.Lock whose waiters are scheduled by the simulator."""

    def __init__(self):
        self._l = False
        self._owner = None

    def __repr__(self):
        return "SimLock"

    def acquire(self, blocking=True, timeout=-1):
        s, t = _task()
        if s is None:
            if self._l and not blocking:
                return False
            # outside a run there is only one thread
            self._l = True
            return True
        s.point("lock")
        deadline = None if timeout is None or timeout < 0 else s.now + timeout
        while self._l:
            if not blocking:
                return False
            if deadline is not None and s.now >= deadline:
                return False
            s.block(self, deadline)
        self._l = True
        self._owner = t
        return True

    def release(self):
        if not self._l:
            raise RuntimeError("release unlocked lock")
        self._l = False
        self._owner = None
        s, t = _task()
        if s is not None:
            s.wake(self)
            s.point("unlock")

    def locked(self):
        return self._l

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = False
        self._owner = None


class SimRLock:
    def __init__(self):
        self._owner = None
        self._n = 0

    def __repr__(self):
        return "SimRLock"

    def _me(self):
        return _get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        s, t = _task()
        if s is not None:
            s.point("lock")
        if self._n and self._owner == me:
            self._n += 1
            return True
        deadline = None
        if s is not None and timeout is not None and timeout >= 0:
            deadline = s.now + timeout
        while self._n:
            if not blocking or s is None or (deadline is not None and s.now >= deadline):
                return False
            s.block(self, deadline)
        self._owner = me
        self._n = 1
        return True

    def release(self):
        if self._owner != self._me() or not self._n:
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1
        if not self._n:
            self._owner = None
            s, t = _task()
            if s is not None:
                s.wake(self)
                s.point("unlock")

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._n > 0 and self._owner == self._me()

    def _release_save(self):
        n, self._n = self._n, 0
        o, self._owner = self._owner, None
        s, t = _task()
        if s is not None:
            s.wake(self)
        return n, o

    def _acquire_restore(self, st):
        self.acquire()
        self._n, self._owner = st

    def _recursion_count(self):
        return self._n if self._owner == self._me() else 0

    def _at_fork_reinit(self):
        self._owner = None
        self._n = 0


class SimModuleLock:
    """importlib's per-module lock: re-entrant, with deadlock avoidance."""

    def __init__(self, name):
        self.name = name
        self.owner = None
        self.count = 0
        self.waiters = []

    def has_deadlock(self, me, s):
        seen = set()
        o = self.owner
        while o is not None and o not in seen:
            if o == me:
                return True
            seen.add(o)
            lk = s.modwait.get(o) if s is not None else None
            if lk is None:
                return False
            o = lk.owner
        return False

    def acquire(self):
        me = _get_ident()
        s, t = _task()
        if s is not None:
            s.point("import-lock")
        while self.count and self.owner != me:
            if s is None:
                raise RuntimeError("module lock held outside a run: " + self.name)
            if self.has_deadlock(me, s):
                raise _boot._DeadlockError(f"deadlock detected by {self!r}")
            s.modwait[me] = self
            try:
                s.block(self, None)
            finally:
                s.modwait.pop(me, None)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        me = _get_ident()
        if self.owner != me:
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if not self.count:
            self.owner = None
            s, t = _task()
            if s is not None:
                s.wake(self)
                s.point("import-unlock")

    def __repr__(self):
        return f"SimModuleLock({self.name!r})"


def sim_sleep(secs):
    s, t = _task()
    if s is None:
        return
    s.sleep(secs)


# ------------------------------------------------------------ scheduler

class Task:
    def __init__(self, tid, fn):
        self.tid = tid
        self.fn = fn
        self.lk = _real_lock()
        self.lk.acquire()
        self.done = False
        self.waiting = None
        self.wake_at = None
        self.ident = None
        self.inject = None       # [points left, exception class, label]
        self.points = 0
        self.error = None


class Violation(Exception):
    def __init__(self, kind, detail):
        super().__init__(kind, detail)
        self.kind = kind
        self.detail = detail


SLOW = 2
QUANTA = [(1, 3), (1, 12), (1, 60), (1, 400), (5, 3000), (200, 100000)]


class Sim:
    def __init__(self, sched, step_limit=2_000_000):
        """sched: {"seed": int, "quantum": int, "io": float} to search or
        {"decisions": [[task, points], ...]} to replay."""
        self.sched = sched
        self.replay = sched.get("decisions")
        self.rpos = 0
        self.rng = random.Random(sched.get("seed", 0))
        self.q = QUANTA[sched.get("quantum", 1) % len(QUANTA)]
        self.io_p = sched.get("io", 0.5)
        self.stick = sched.get("stick", 0.0)
        self.hot_hits = {}
        self.hot_p = sched.get("hot", 0.0) if self.replay is None else 0.0
        self.hot = 0
        self.tasks = []
        self.cur = None
        self.active = False
        self.left = 0
        self.quota = 0
        self.steps = 0
        if _events != EVENTS:       # every bytecode instruction is a point
            step_limit *= 10
        self.step_limit = step_limit        # from one operation to the next
        self.limit = step_limit
        self.last = SLOW * step_limit       # of all of them
        self.now = 0.0
        self.segs = []
        self.switches = 0
        self.where = hashlib.sha256()
        self.interleave = hashlib.sha256()
        self.modwait = {}
        self.main = _real_lock()
        self.main.acquire()
        self.violation = None
        self.fired = {}
        self.point_counts = {}
        self.deadlocks = 0
        self.log = []
        self.slept = 0.0

    # -- bookkeeping

    def fire(self, kind, n=1):
        self.fired[kind] = self.fired.get(kind, 0) + n

    def note(self, *what):
        self.where.update(repr(what).encode())

    def spawn(self, fn):
        t = Task(len(self.tasks), fn)
        self.tasks.append(t)
        return t

    def _settle(self):
        """account for the points the current task used of its quota."""
        used = self.quota - self.left
        if used > 0:
            self.steps += used
            self.cur.points += used
            self.segs[-1][1] += used
            if self.cur.inject:
                self.cur.inject[0] -= used
        self.quota = self.left

    def _arm(self):
        """set self.left to the number of points until the next event."""
        n = self.slice
        inj = self.cur.inject
        if inj and inj[0] < n:
            n = max(inj[0], 1)
        room = self.limit - self.steps + 1
        if n > room:
            n = max(room, 1)
        self.left = self.quota = n

    def expired(self, code, arg):
        t = self.cur
        before = self.steps
        self._settle()
        self.slice -= self.steps - before
        if self.steps > self.limit:
            self.overrun(t, "in %s:%s" % (code.co_qualname, arg))
        if t.inject and t.inject[0] <= 0 and not _leaving_with(code):
            _, exc, label = t.inject
            t.inject = None
            self.fire(label)
            self.note("inject", t.tid, label, code.co_name, arg)
            if self.slice <= 0:
                self.slice = 1
            self._arm()
            raise exc("injected by the simulator")
        if self.slice <= 0:
            self.note("line", t.tid, code.co_name, arg)
            self.reschedule()
        self._arm()

    def hot_switch(self, code, arg):
        self._settle()
        self.slice = 0
        self.note("hot", self.cur.tid, code.co_name, arg)
        self.fire("switch-after-store")
        self.reschedule()
        self._arm()

    def runnable(self):
        return [t for t in self.tasks if not t.done and t.waiting is None]

    def _pick(self, cands, leaving):
        """choose the next task and its slice of points."""
        if self.replay is not None:
            while self.rpos < len(self.replay):
                tid, n = self.replay[self.rpos]
                self.rpos += 1
                if any(t.tid == tid for t in cands):
                    return self.tasks[tid], max(n, 1)
            t = self.cur if self.cur in cands else cands[0]
            return t, 1 << 40
        if len(cands) == 1:
            t = cands[0]
            live = sum(1 for x in self.tasks if not x.done)
            return t, (1 << 40) if live == 1 else self.rng.randint(*self.q)
        if self.stick and self.cur in cands and self.rng.random() < self.stick:
            t = self.cur
        else:
            t = cands[self.rng.randrange(len(cands))]
        return t, self.rng.randint(*self.q)

    def _candidates(self):
        while True:
            c = self.runnable()
            if c:
                return c
            w = [t for t in self.tasks if not t.done and t.wake_at is not None]
            if not w:
                return []
            t = min(w, key=lambda x: (x.wake_at, x.tid))
            self.slept += max(0.0, t.wake_at - self.now)
            self.now = max(self.now, t.wake_at)
            t.waiting = None
            t.wake_at = None

    def reschedule(self, at_point=True):
        """pick the next task; returns when the caller runs again. Not at a point: it
        ended or waits, after its last point and before it came to another one."""
        me = self.cur
        if not at_point:
            self.segs[-1][1] += 1
        cands = self._candidates()
        if not cands:
            if all(t.done for t in self.tasks):
                return
            self.abort("deadlock", "; ".join("task %d waits for %r" % (t.tid, t.waiting) for t in self.tasks if not t.done))
        nxt, n = self._pick(cands, me)
        self.slice = n
        self.hot = 0
        if nxt is me:
            if not at_point:
                self.segs.append([me.tid, 0])
            return
        self.switches += 1
        self.interleave.update(b"%d>%d;" % (me.tid if me else -1, nxt.tid))
        self.cur = nxt
        self.segs.append([nxt.tid, 0])
        nxt.lk.release()
        if me is not None and not me.done:
            me.lk.acquire()
            if self.violation is not None:
                raise SimAbort()

    def point(self, kind):
        """a point inside an operation of the simulated world."""
        t = self.cur
        self.point_counts[kind] = self.point_counts.get(kind, 0) + 1
        self.left -= 1
        before = self.steps
        self._settle()
        self.slice -= self.steps - before
        self.note(kind, t.tid)
        if self.steps > self.limit:
            self.overrun(t, "at %s" % kind)
        if self.replay is None:
            if self.slice <= 0 or (self.io_p and self.rng.random() < self.io_p):
                self.reschedule()
        elif self.slice <= 0:
            self.reschedule()
        self._arm()

    def block(self, on, deadline):
        t = self.cur
        self._settle()
        t.waiting = on
        t.wake_at = deadline
        self.note("block", t.tid)
        self.fire("blocked")
        self.reschedule(False)
        self._arm()

    def wake(self, on):
        for t in self.tasks:
            if t.waiting is on:
                t.waiting = None
                t.wake_at = None

    def sleep(self, secs):
        self._settle()
        t = self.cur
        if secs <= 0:
            self.reschedule(False)
        else:
            t.waiting = "sleep"
            t.wake_at = self.now + secs
            self.reschedule(False)
        self._arm()

    def overrun(self, t, where):
        if self.steps >= self.last:
            self.abort("slow", "given up after %d steps" % self.steps)
        self.abort("no-progress", "task %d still running after %d steps, %s" % (t.tid, self.steps, where))

    def abort(self, kind, detail):
        if self.violation is None:
            self.violation = Violation(kind, detail)
        raise SimAbort()

    def set_injection(self, points, exc, label):
        """raise exc in the current task after so many of its own points."""
        before = self.steps
        self._settle()
        self.slice -= self.steps - before
        self.cur.inject = [points, exc, label]
        self._arm()

    def clear_injection(self):
        before = self.steps
        self._settle()
        self.slice -= self.steps - before
        fired = self.cur.inject is None
        self.cur.inject = None
        if self.slice <= 0:
            self.slice = 1
        self._arm()
        return fired

    def op_points(self):
        """points used so far by the current task."""
        return self.cur.points + (self.quota - self.left)

    def _body(self, t):
        t.ident = _get_ident()
        t.lk.acquire()
        try:
            if self.violation is None:
                self._arm()
                t.fn()
        except SimAbort:
            pass
        except Violation as e:
            if self.violation is None:
                self.violation = e
        except BaseException as e:   # harness error in a task
            t.error = e
            self.harness_error = self.harness_error or e
        self._settle()
        t.done = True
        if self.violation is not None or self.harness_error is not None or all(x.done for x in self.tasks):
            self.active = False
            self.main.release()
            return
        try:
            self.reschedule(False)
        except SimAbort:
            self.active = False
            self.main.release()

    harness_error = None

    def run(self):
        global CURRENT
        assert CURRENT is None
        CURRENT = self
        if not self.tasks:
            CURRENT = None
            return self
        for t in self.tasks:
            _thread.start_new_thread(self._body, (t,))
        # every thread parks on its own lock at once; idents are set before that
        while any(t.ident is None for t in self.tasks):
            os.sched_yield()
        self.slice = 1
        nxt, n = self._pick(self.runnable(), None)
        self.slice = n
        self.cur = nxt
        self.segs.append([nxt.tid, 0])
        self.left = self.quota = 0
        self.active = True
        if self.hot_p:
            _mon.register_callback(TOOL, E.LINE, _on_line_hot)
        nxt.lk.release()
        self.main.acquire()
        self.active = False
        CURRENT = None
        if self.hot_p:
            _mon.register_callback(TOOL, E.LINE, _on_line)
        if self.harness_error is not None:
            raise self.harness_error
        if self.violation is not None:
            raise self.violation
        return self

    def digest(self):
        h = self.where.copy()
        h.update(repr(self.segs).encode())
        return h.hexdigest()[:16]


def progress():
    """an operation of the running task begins: what came before has ended."""
    s = CURRENT
    if s is not None:
        s.limit = min(s.steps + (s.quota - s.left) + s.step_limit, s.last)


def single(fn, sched=None, step_limit=2_000_000):
    """run one function as the only task; returns (result, sim)."""
    sim = Sim(sched or {"decisions": []}, step_limit)
    box = []
    sim.spawn(lambda: box.append(fn()))
    sim.run()
    return box[0], sim


class quiet:
    """no instrumentation inside this block (outside of any run)."""

    def __enter__(self):
        self.codes = list(_seen.values())
        for c in self.codes:
            _mon.set_local_events(TOOL, c, 0)

    def __exit__(self, *a):
        for c in self.codes:
            _mon.set_local_events(TOOL, c, _events)
