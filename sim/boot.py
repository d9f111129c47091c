"""Puts every seam in place, then imports the library (once: the runs are made in forked children)."""
import os
import random
import sys
import time

import core
import threadsim

threadsim.install()


# ---- clock
class Clock(object):
    """virtual wall clock: `script` gives what happens before each reading"""
    active = False
    real = time.time
    now = 0.0
    readings = ()
    hook = None

    def time(self):
        if not self.active:
            return Clock.real()
        if self.hook:
            self.hook(self)
        self.readings.append(self.now)
        return self.now

    def time_ns(self):
        return int(self.time() * 1e9)

    def start(self, now, hook=None):
        self.now, self.readings, self.hook, self.active = now, [], hook, True

    def stop(self):
        self.active = False


clock = Clock()
time.time = clock.time
time.time_ns = clock.time_ns
core.clock = clock

# ---- randomness
_rand = random.Random(0)
os.urandom = lambda n: bytes(_rand.getrandbits(8) for i in range(n))


def reseed(seed):
    _rand.seed(seed)
    random.seed(seed)


core.reseed = reseed

import warnings
warnings.simplefilter('ignore')
import logging
logging.disable(logging.CRITICAL)
import datetime
# datetime and others might have bound the function before
for m in list(sys.modules.values()):
    try:
        for k, v in list(vars(m).items()):
            if v is Clock.real and m is not sys.modules[__name__]:
                setattr(m, k, clock.time)
    except Exception:
        pass

import ngoschema  # noqa
assert os.path.realpath(ngoschema.__file__).startswith(os.path.realpath(core.REPO)), ngoschema.__file__
import net
net.install()

# ---- what the modules only set up at their first use
_unset = [(vars(m), k) for n, m in sorted(sys.modules.items()) if n.split('.')[0] == 'ngoschema' and m is not None
          for k, v in sorted(vars(m).items()) if v is None and not k.startswith('__')]
_caches = []
for n, m in sorted(sys.modules.items()):
    if n.split('.')[0] == 'ngoschema':
        for k, v in sorted(vars(m).items()):
            if callable(getattr(v, 'cache_clear', None)) and not isinstance(v, type) and v not in _caches:
                _caches.append(v)


def first_use():
    """as if the library had just been imported: what its modules set up at their first use is not yet"""
    for where, name in _unset:
        where[name] = None
    empty_caches()


def empty_caches():
    """what a run executes does not depend on what the runs before it have cached"""
    for f in _caches:
        f.cache_clear()


core.first_use = first_use
core.empty_caches = empty_caches
