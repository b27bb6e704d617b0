"""The deterministic kernel: real threads handed a baton, one at a time.

Every source of nondeterminism is decided here.  The interpreter reports each
source line (or each bytecode instruction) of the library about to be executed
(sys.monitoring); at such a point, and at each entry to a caller-supplied
function, the kernel may hand the baton to another task or raise a fault inside
the library.  All decisions come from the scenario's lists `sched` and `faults`;
nothing else is consulted, so a scenario replays exactly.
"""
import builtins
import gc
import os
import sys
import threading
import time
import types
import _thread
import zlib

from . import hot

mon = sys.monitoring
TOOL = 4

_real_alloc = _thread.allocate_lock
_real_RLock = threading.RLock
_real_Lock = threading.Lock
_real_time = time.perf_counter


class SimCancel(BaseException):
    """A cancellation delivered from outside (like GeneratorExit/SystemExit)."""


class SimTimeout(Exception):
    """A deadline delivered as an ordinary exception."""


class SimCallbackError(Exception):
    """The caller-supplied function failed."""


FAULT_KINDS = {
    'interrupt': lambda: KeyboardInterrupt('injected'),
    'cancel': lambda: SimCancel('injected'),
    'memory': lambda: MemoryError('injected'),
    'timeout': lambda: SimTimeout('injected'),
    'cb_error': lambda: SimCallbackError('injected'),
    'cb_value': lambda: ValueError('injected'),
    'cb_type': lambda: TypeError('injected'),
    'cb_key': lambda: KeyError('injected'),
    'cb_index': lambda: IndexError('injected'),
    'cb_runtime': lambda: RuntimeError('injected'),
    'cb_zero': lambda: ZeroDivisionError('injected'),
    'cb_attr': lambda: AttributeError('injected'),
    'cb_oob': lambda: LIB_ERRORS[0]('injected'),
    'cb_void': lambda: LIB_ERRORS[1]('injected'),
}
# others are written x:Name
OTHER = ['AssertionError', 'OSError', 'OverflowError', 'NotImplementedError',
         'RecursionError', 'LookupError', 'FloatingPointError', 'NameError',
         'StopIteration', 'GeneratorExit', 'SystemExit', 'EOFError',
         'UnacceptablePeriodError', 'PartialOutOfBoundsError',
         'OutOfBoundsDatetime', 'ImportError', 'BufferError', 'Warning']
# where a StopIteration is no failure but the end
ITERATION = ('pattern', 'items', 'item')


def exc_class(name):
    c = getattr(builtins, name, None)
    if c is None:
        m = sys.modules.get('timeboard.exceptions')
        c = getattr(m, name, None)
    if c is None and name == 'OutOfBoundsDatetime':
        c = sys.modules['pandas'].errors.OutOfBoundsDatetime
    return c if isinstance(c, type) and issubclass(c, BaseException) else None


def make_exc(kind, where):
    if kind.startswith('x:'):
        c = exc_class(kind[2:])
        if c is None or (issubclass(c, StopIteration) and
                         where in ITERATION):
            c = SimCallbackError
        try:
            return c('injected')
        except TypeError:
            return SimCallbackError('injected')
    return FAULT_KINDS[kind]()


LIB_ERRORS = [KeyError, KeyError]   # the library's own, set by install()

LIB_DIR = None          # set by install()
CODES = {}              # code object -> info
FLAGS = {}              # (filename, line) -> see hot.py
CHANGED = False         # the library is not the one of the baseline
K = None                # the running kernel


# ------------------------------------------------------------- enumeration
def lib_codes():
    """Every code object compiled from the library's source files."""
    found = {}

    def add(co):
        if co in found or not co.co_filename.startswith(LIB_DIR):
            return
        found[co] = True
        for c in co.co_consts:
            if isinstance(c, types.CodeType):
                add(c)

    for obj in gc.get_objects():
        if isinstance(obj, types.FunctionType):
            add(obj.__code__)
    # property getters, class/static methods, decorated functions
    for name, m in list(sys.modules.items()):
        f = getattr(m, '__file__', None) or ''
        if f.startswith(LIB_DIR):
            for v in list(vars(m).values()):
                if isinstance(v, types.FunctionType):
                    add(v.__code__)
    return sorted(found, key=lambda c: (c.co_filename, c.co_firstlineno,
                                        c.co_qualname))


def install(lib_dir):
    """Call once per process, after the library has been imported."""
    global LIB_DIR, CHANGED
    LIB_DIR = lib_dir
    codes = lib_codes()
    fl, CHANGED = hot.flags(lib_dir, codes)
    FLAGS.update(fl)
    for co in codes:
        lines = {}
        for s, e, l in co.co_lines():
            for o in range(s, e, 2):
                lines[o] = l
        CODES[co] = (co.co_filename, lines)
    mon.use_tool_id(TOOL, 'sim')
    mon.register_callback(TOOL, mon.events.LINE, _on_line)
    mon.register_callback(TOOL, mon.events.INSTRUCTION, _on_instr)


def arm(gran):
    ev = mon.events.INSTRUCTION if gran == 'i' else mon.events.LINE
    for co in CODES:
        mon.set_local_events(TOOL, co, ev)


def disarm():
    for co in CODES:
        mon.set_local_events(TOOL, co, 0)


def _on_line(code, line):
    k = K
    if k is not None and k.active:
        k.event(code.co_filename, line)


def _on_instr(code, off):
    k = K
    if k is not None and k.active:
        fn, lines = CODES[code]
        k.event(fn, lines.get(off) or 0)


# ------------------------------------------------------------- locks
class SimDeadlock(Exception):
    pass


def _from_lib(depth=7):
    f = sys._getframe(2)
    while f is not None and depth:
        if LIB_DIR is not None and f.f_code.co_filename.startswith(LIB_DIR):
            return True
        if LIB_DIR is None and '/timeboard/' in f.f_code.co_filename:
            return True
        f = f.f_back
        depth -= 1
    return False


class SimLock(object):
    """A lock whose waiting is decided by the kernel."""
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def _me(self):
        return K.current if K is not None and K.active else 'main'

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self.reentrant and self.owner is me and self.count:
            self.count += 1
            return True
        spins = 0
        while self.count:
            if not blocking:
                return False
            if me == 'main':
                raise SimDeadlock('a lock is held by a caller that is gone')
            if timeout is not None and timeout >= 0:
                spins += 1
                K.yield_to_other()
                if spins > 50:
                    return False
                continue
            K.block(self)
        self.owner = me
        self.count = 1
        if me != 'main':
            me.held += 1
        return True

    def release(self):
        if not self.count:
            raise RuntimeError('release unlocked lock')
        if self.reentrant and self.owner is not self._me():
            raise RuntimeError('cannot release un-acquired lock')
        self.count -= 1
        if not self.count:
            if self.owner != 'main':
                self.owner.held -= 1
            self.owner = None

    def locked(self):
        return self.count > 0

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True

    def _is_owned(self):
        return self.count > 0 and self.owner is self._me()

    def _release_save(self):
        n = self.count
        while self.count:
            self.release()
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self.count = n


def _lock_factory(*a):
    return SimLock() if _from_lib() else _real_alloc()


def _rlock_factory(*a):
    return SimRLock() if _from_lib() else _real_RLock()


_sim_clock = [0.0]


def _sleep(s):
    if K is None:
        return
    _sim_clock[0] += max(0.0, float(s))
    K.slept += max(0.0, float(s))
    if K.active and K.current is not None:
        K.yield_to_other(1000)
    else:               # nobody else is left to end the wait
        K.idle += 1
        if K.idle > 3000:
            K.fatal('no-progress', 'a caller waits for callers that are gone')


def patch_threading():
    """Before the library is imported."""
    threading.Lock = _lock_factory
    threading.RLock = _rlock_factory
    threading._allocate_lock = _lock_factory
    time.sleep = _sleep


# ------------------------------------------------------------- tasks
class Task(object):
    def __init__(self, tid, body):
        self.tid = tid
        self.body = body
        self.baton = _real_alloc()
        self.baton.acquire()
        self.done = False
        self.blocked = None
        self.held = 0
        self.op = None          # index of the running op
        self.ev = 0             # events within the op
        self.cev = 0
        self.stack = 0
        self.faults = {}        # (opidx) -> [where, n, kind]
        self.injected = None
        self.prev = 0
        self.n = None


class Kernel(object):
    def __init__(self, scenario):
        global K
        K = self
        self.sc = scenario
        self.sched = list(scenario.get('sched') or [])
        self.si = 0
        self.events = 0
        self.hot = 0            # events in code aimed at
        self.budget = scenario.get('budget') or (
            24000000 if scenario.get('gran') == 'i' else 6000000)
        self.active = False
        self.current = None
        self.tasks = []
        self.switches = []      # (event no, from, to, file, line)
        self.fired = []         # faults that really fired
        self.seq = 0
        self.slept = 0.0
        self.idle = 0
        self.crc = 0
        self.fatal_report = None
        self.main = _real_alloc()
        self.main.acquire()
        self.kind, self.quantum, self.choice = None, 0, 0
        self.tail = False
        self.max_op_events = 0
        self._next_entry()

    # -- schedule
    def _next_entry(self):
        if self.si < len(self.sched):
            self.kind, self.quantum, self.choice = self.sched[self.si]
            self.si += 1
        else:               # fair tail: round robin with a large quantum
            self.tail = True
            self.kind, self.quantum, self.choice = 'l', 20000, 0

    def note(self, *what):
        self.crc = zlib.crc32(repr(what).encode(), self.crc)

    def stamp(self):
        self.seq += 1
        return self.seq

    # -- points
    def event(self, fn, line):
        t = self.current
        if t is None or t.op is None:
            return
        self.events += 1
        t.ev += 1
        if self.events > self.budget:
            self.fatal('no-progress', 'step budget of %d exceeded at %s:%d'
                       % (self.budget, os.path.basename(fn), line))
        b = FLAGS.get((fn, line), 0)
        n = t.n
        n['l'] += 1
        if b:
            if b & 1:
                n['w'] += 1
            if b & 4:
                n['h'] += 1
                self.hot += 1
            if b & 8:
                n['x'] += 1
        before, t.prev = t.prev, b
        f = t.faults.get(t.op)
        if f is not None and f[0] in n:
            if n[f[0]] >= f[1] and not b & 2:
                del t.faults[t.op]
                self.inject(t, f, fn, line)
        k = self.kind
        if k == 'l' or (k == 'w' and b & 1) or (k == 'W' and before & 1) or \
                (k == 'h' and b & 4) or (k == 'x' and b & 8) or \
                (k == 'X' and before & 8):
            self.quantum -= 1
            if self.quantum <= 0:
                self.preempt(fn, line)

    def callback_point(self, kind):
        """On entry of a caller-supplied function."""
        t = self.current
        if not self.active or t is None or t.op is None:
            return
        t.cev += 1
        f = t.faults.get(t.op)
        if f is not None and f[0] == 'c' and t.cev >= f[1]:
            del t.faults[t.op]
            self.inject(t, f, kind, 0)
        if self.kind == 'c':
            self.quantum -= 1
            if self.quantum <= 0:
                self.preempt(kind, 0)

    def inject(self, t, f, fn, line):
        exc = make_exc(f[2], fn)
        t.injected = exc
        where = '%s:%s' % (os.path.basename(fn), line)
        self.fired.append([t.tid, t.op, f[0], f[2], where])
        self.note('fault', t.tid, t.op, t.ev, f[2], where)
        raise exc

    def runnable(self, but=None):
        return [t for t in self.tasks
                if not t.done and t is not but and
                (t.blocked is None or not t.blocked.count)]

    def preempt(self, fn, line):
        choice = self.choice
        self._next_entry()
        me = self.current
        cand = self.runnable(me)
        if not cand:
            return
        if self.tail:
            later = [t for t in cand if t.tid > me.tid]
            to = (later or cand)[0]
        else:
            to = cand[choice % len(cand)]
        self.switches.append([self.events, me.tid, to.tid,
                              os.path.basename(fn), line])
        self.note('sw', self.events, me.tid, to.tid, line)
        self.handoff(me, to)

    def yield_to_other(self, cost=50):
        me = self.current
        self.events += cost
        if self.events > self.budget:
            self.fatal('no-progress', 'step budget exceeded while waiting')
        cand = self.runnable(me)
        if cand:
            later = [t for t in cand if t.tid > me.tid]
            self.handoff(me, (later or cand)[0])

    def block(self, lock):
        me = self.current
        me.blocked = lock
        cand = self.runnable(me)
        if not cand:
            self.fatal('deadlock', 'no caller can proceed')
        later = [t for t in cand if t.tid > me.tid]
        self.note('block', me.tid)
        self.handoff(me, (later or cand)[0])
        me.blocked = None

    def handoff(self, me, to):
        self.current = to
        to.baton.release()
        me.baton.acquire()

    # -- running
    def begin_op(self, idx):
        t = self.current
        t.op = idx
        t.ev = t.cev = t.prev = 0
        t.n = {'l': 0, 'w': 0, 'h': 0, 'x': 0}
        t.injected = None

    def end_op(self):
        t = self.current
        if t.ev > self.max_op_events:
            self.max_op_events = t.ev
        t.op = None

    def _thread(self, t):
        t.baton.acquire()
        try:
            t.body(t)
        except BaseException as e:      # harness error
            import traceback
            self.fatal('harness', traceback.format_exc())
        t.done = True
        cand = self.runnable(t)
        if cand:
            c = self.choice
            if not self.tail:
                self._next_entry()
            to = cand[c % len(cand)]
            self.note('end', t.tid, to.tid)
            self.current = to
            to.baton.release()
        elif [x for x in self.tasks if not x.done]:
            self.fatal('deadlock', 'every remaining caller waits')
        else:
            self.current = None
            self.main.release()

    def run(self, bodies, faults):
        self.tasks = [Task(i, b) for i, b in enumerate(bodies)]
        for tid, op, where, n, kind in faults:
            if tid < len(self.tasks):
                self.tasks[tid].faults[op] = (where, n, kind)
        if not self.tasks:
            return
        threading.stack_size(512 * 1024)
        for t in self.tasks:
            _thread.start_new_thread(self._thread, (t,))
        self.active = True
        arm(self.sc.get('gran') or 'l')
        first = (self.sc.get('first') or 0) % len(self.tasks)
        self.current = self.tasks[first]
        self.tasks[first].baton.release()
        self.main.acquire()
        self.active = False
        disarm()

    def fatal(self, kind, detail):
        self.fatal_report(kind, detail)     # does not return
