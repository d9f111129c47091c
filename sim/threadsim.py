"""Threads under a scheduler: real threads, only one of which runs at any time, switched at source lines of /repo and
at lock operations, as the plan says. Locks created by the library (and what it uses) are simulated ones."""
import _thread
import os
import sys
import threading
import zlib

import core

_alloc = _thread.allocate_lock
_ident = _thread.get_ident
_start = _thread.start_new_thread

GROUPS = 89
GROUP_LIMIT = 150
NEW_LIMIT = 1500
CURRENT = None      # scheduler running now
COMMON = set()      # lines that ordinary runs reach
LEARN = [-1999, 0]  # switch of a run made to know these lines


class SimAbort(BaseException):
    """unwinds the threads of a run that is given up"""


class SimLock(object):
    reentrant = False

    def __init__(self, *a):
        self._owner, self._count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _ident()
        s = CURRENT
        sim = s is not None and me in s.index
        if sim:
            s.point()
        while self._count and not (self.reentrant and self._owner == me):
            if not blocking:
                return False
            if not sim:
                if self._owner == me or s is None:
                    raise RuntimeError('simulated lock taken twice outside of a simulation')
                core.sleep(0.0005)
                continue
            if timeout is not None and timeout >= 0:
                s.probes['lock_timeout'] = s.probes.get('lock_timeout', 0) + 1
                return False        # the virtual time of the timeout passes at once
            s.block(self)
        self._owner, self._count = me, self._count + 1
        return True

    __enter__ = acquire

    def release(self):
        if not self._count:
            raise RuntimeError('release unlocked lock')
        if self.reentrant and self._owner != _ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
        s = CURRENT
        if s is not None and _ident() in s.index:
            s.point()

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return bool(self._count)

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0

    # protocol used by threading.Condition
    def _is_owned(self):
        return self._count and self._owner == _ident()


class SimRLock(SimLock):
    reentrant = True

    def _release_save(self):
        st = self._owner, self._count
        self._owner, self._count = None, 0
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._owner, self._count = st


def install():
    import functools
    import _thread
    threading._allocate_lock = SimLock
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._RLock = SimRLock
    threading._CRLock = SimRLock
    functools.RLock = SimRLock
    # a module is imported in one go: the locks of the modules are real ones
    import importlib._bootstrap as ib
    load = ib._find_and_load

    def _find_and_load(*a, **kw):
        s = CURRENT
        if s is None:
            return load(*a, **kw)
        s.importing += 1
        try:
            return load(*a, **kw)
        finally:
            s.importing -= 1
    ib._find_and_load = _find_and_load


class Scheduler(object):
    """switches: list of [step, target]: at this step (counted over all threads) control goes to the target-th of the
    threads that can run; a negative step designates a group of source lines: control passes each time one is reached
    (so that lines that rarely run are as likely to be interrupted as the others). Without switch a thread runs until it
    ends or blocks."""

    def __init__(self, switches, limit=400000):
        self.switches = {}
        self.groups = {}
        self.news = None
        self.seen_new = 0
        for st, target in switches:
            if st <= -3000:
                self.news = [10 ** 9, 10 ** 9 + st + 3000, 1, True]
                self.news_target = target
            elif st <= -2000:
                self.news = [max(1, -st - 2000), target, NEW_LIMIT, True]
            elif st <= -1000:
                self.news = [max(1, -st - 1000), target, NEW_LIMIT, False]
            elif st < 0:
                self.groups.setdefault(-st - 1, [target, GROUP_LIMIT])
            else:
                self.switches.setdefault(st, target)
        self._group_of = {}
        self.learning = LEARN in [list(x) for x in switches]
        self.limit = limit
        self.step = 0
        self.quiet = 0          # calls not followed: not the same from process to process
        self.taken = 0
        self.blocked_times = 0
        self.importing = 0
        self.probes = {}
        self.abort = None
        self.trace = []
        self._codes = {}
        self.last = min(max(self.switches) if self.switches else 0, limit)
        self._here = self._local

    # -- called in simulated threads
    def point(self, frame=None):
        if self.abort:
            raise SimAbort()
        self.step += 1
        if self.importing:
            return
        t = self.switches.get(self.step)
        if t is None and frame is not None and (self.groups or self.news):
            k = frame.f_code, frame.f_lineno
            g = self._group_of.get(k)
            if g is None:
                n = self.news
                if n and n[2] and not (n[3] and k in COMMON):
                    self.seen_new += 1
                    if (self.seen_new + n[1]) % n[0] == 0:
                        n[2] -= 1
                        t = n[1] + self.seen_new if n[0] < 10 ** 9 else self.news_target
                g = self._group_of[k] = zlib.crc32(('%s:%s:%d' % (os.path.basename(k[0].co_filename), k[0].co_name, k[1] - k[0].co_firstlineno)).encode()) % GROUPS
            rule = self.groups.get(g)
            if t is None and rule and rule[1]:
                rule[1] -= 1
                t = rule[0]
        if t is not None:
            me = self.index[_ident()]
            ready = [i for i in range(self.n) if self.runnable(i)]
            to = ready[t % len(ready)] if ready else me
            if to != me:
                self.taken += 1
                self.trace.append((self.step, me, to))
                self.go(to, me)
        if self.step > self.limit:
            self.abort = ('no-progress', 'the threads are still running after %d steps' % self.limit)
            raise SimAbort()

    def runnable(self, i):
        if self.done[i]:
            return False
        l = self.waiting[i]
        return l is None or not l._count

    def go(self, to, me):
        self.current = to
        self.gates[to].release()
        if me is not None:
            self.gates[me].acquire()
            if self.abort:
                raise SimAbort()

    def block(self, lock):
        me = self.index[_ident()]
        self.waiting[me] = lock
        self.blocked_times += 1
        ready = [i for i in range(self.n) if self.runnable(i)]
        if not ready:
            self.abort = ('deadlock', 'every thread waits for a lock: threads %s' % [i for i in range(self.n) if not self.done[i]])
            raise SimAbort()
        self.trace.append((self.step, me, ready[0], 'blocked'))
        self.go(ready[0], me)
        self.waiting[me] = None

    def _tracer(self, frame, event, arg):
        if self.step >= self.last and not self.groups and not self.news and not self.abort:
            # no switch is left: what remains runs without being followed
            self.quiet += 1
            if self.quiet > self.limit:
                self.step = self.limit
                self.point()
            return None
        code = frame.f_code
        ok = self._codes.get(code)
        if ok is None:
            ok = self._codes[code] = code.co_filename.startswith(core.REPO + '/') and code.co_name != '<module>'
            if code.co_name in ('__subclasshook__', '__subclasscheck__', '__instancecheck__'):
                self._codes[code] = ok = ok and 'mute'
        if self.importing or not ok:
            return None
        if ok == 'mute':
            # how often the interpreter asks this depends on classes not yet collected
            self.importing += 1
            return self._muted
        return self._here

    def _muted(self, frame, event, arg):
        if event == 'return':
            self.importing -= 1
        return self._muted

    def _local(self, frame, event, arg):
        if event == 'line':
            # once per line: the interpreter reports the turns of a comprehension differently once it has compiled it
            me, line = self.current, frame.f_lineno
            if self._frames[me] is not frame or self._lines[me] != line:
                self._frames[me], self._lines[me] = frame, line
                if self.groups or self.news or self.abort:
                    self.point(frame)
                else:
                    step = self.step = self.step + 1
                    if step in self.switches or step > self.last:
                        self.step = step - 1
                        self.point(frame)
                        if self.step >= self.last:
                            return None
        return self._here

    def _body(self, i, func):
        self.gates[i].acquire()
        try:
            if not self.abort:
                sys.settrace(self._tracer)
                try:
                    self.results[i] = ('ok', func())
                finally:
                    sys.settrace(None)
        except SimAbort:
            self.results[i] = ('aborted', None)
        except BaseException as er:
            self.results[i] = ('error', er, core.in_repo(sys.exc_info()[2]))
        self.done[i] = True
        ready = [j for j in range(self.n) if self.runnable(j)]
        rest = [j for j in range(self.n) if not self.done[j]]
        if self.abort and rest:
            self.go(rest[0], None)
        elif ready:
            self.go(ready[0], None)
        elif rest:
            self.abort = ('deadlock', 'every remaining thread waits for a lock: threads %s' % rest)
            self.go(rest[0], None)
        else:
            self.main.release()

    def run(self, funcs, first=0):
        """run the functions to their end -> list of ('ok', value) / ('error', exception, from_library) / ('aborted', None)"""
        global CURRENT
        self.n = n = len(funcs)
        self.gates = [_alloc() for f in funcs]
        for g in self.gates:
            g.acquire()
        self.main = _alloc()
        self.main.acquire()
        self.done = [False] * n
        self.waiting = [None] * n
        self.results = [None] * n
        self._frames, self._lines = [None] * n, [None] * n
        self.index = {}
        ready = _alloc()
        ready.acquire()

        def boot(i, f):
            self.index[_ident()] = i
            ready.release()
            self._body(i, f)
        for i, f in enumerate(funcs):
            _start(boot, (i, f))
            ready.acquire()
        CURRENT = self
        try:
            self.go(first % n, None)
            self.main.acquire()
        finally:
            CURRENT = None
            self._frames = self._lines = None
            if self.learning:
                COMMON.update(self._group_of)
        return self.results


def random_switches(rng, mean_len, n):
    """a schedule: bursts of switches placed over a range of steps"""
    mode = rng.random()
    out = []
    if rng.random() < .2:
        if COMMON and rng.random() < .4:
            return [[-3000 - rng.randint(1, 30), rng.randint(0, n - 1)]]
        out.append([-rng.choice([1000, 2000] if COMMON else [1000]) - rng.choice([1, 1, 2, 3, 5, 9, 20]), rng.randint(0, 59)])
        if rng.random() < .8:
            return out
    if rng.random() < .4:
        for i in range(rng.choice([1, 2, 4, 12, 30])):
            out.append([-1 - rng.randint(0, GROUPS - 1), rng.randint(0, n - 1)])
        if rng.random() < .7:
            return sorted(out)
    if mode < 0.35:         # a few switches anywhere
        for i in range(rng.randint(1, 4)):
            out.append([rng.randint(1, max(2, mean_len)), rng.randint(0, n - 1)])
    elif mode < 0.7:        # frequent switches everywhere
        p = rng.choice([3, 10, 40, 150])
        at = 0
        while at < mean_len and len(out) < 3000:
            at += rng.randint(1, 2 * p)
            out.append([at, rng.randint(0, n - 1)])
    else:                   # a dense burst somewhere
        at = rng.randint(1, max(2, mean_len))
        for i in range(rng.randint(5, 60)):
            at += rng.randint(1, 6)
            out.append([at, rng.randint(0, n - 1)])
    out.sort()
    return out
