"""C16: memoised results are computed once per instance and arguments, never wrong."""
import core
import threadsim

ID = 'C16'
LEVEL = 'exploration'
QUICK = (8000, 100)
THOROUGH = (800000, 400)
RULE = 'an execution is the uses, resets, copies and releases of the instances of each thread with the computations that fail or nest, and the interleaving reached'
REAL = ['ngoschema memoized_property and memoized_method, on plain classes and on schema objects']
STUBS = ['the computations memoised call back the simulator, which counts them, nests uses and raises', 'locks (simulated)']
ASSUMPTIONS = ['an instance is used by one thread', 'a copied instance may start with the values of the properties of its original',
               'arguments are given in the same form each time', 'threads are switched between source lines of the library, not inside a line', 'PyPy 3.9 interpreter']
PROBES = ['computed', 'memoised', 'memoised-empty', 'failed', 'computed-after-failure', 'reset', 'computed-after-reset', 'reset-unused', 'evicted', 'hit-kept', 'nested', 'nested-failed',
          'super', 'super-of-super', 'of-parent', 'reset-by-property', 'super-then-failed', 'equal-instances', 'unhashable-instance', 'schema-object', 'lambda', 'early-bound', 'late-bound', 'through-class', 'colliding-arguments',
          'unhashable-argument', 'keywords', 'copied', 'copy-used', 'released', 'released-after-use', 'released-after-failure', 'released-original-of-copy', 'exc:KeyError', 'exc:AttributeError', 'exc:KeyboardInterrupt', 'exc:StopIteration',
          'threads:1', 'threads:2', 'threads:3', 'switched', 'reset-in-other-computation']

URI = 'https://numengo.org/sim16'
KINDS = ('plain', 'derived', 'third', 'same', 'unhash', 'schema')
LEVELS = {'derived': 1, 'third': 2}
NAMES = ('p', 'l', 'm', 'k', 'n')
METHODS = ('m', 'k', 'n')
EXC = {'KeyError': KeyError, 'AttributeError': AttributeError, 'KeyboardInterrupt': KeyboardInterrupt, 'StopIteration': StopIteration, 'ValueError': ValueError}
MAXSIZE = {'m': None, 'k': 2, 'n': 128}
classes = {}
machines = {}


class Arg(object):
    """arguments with the same hash, some of which are equal"""

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        return 7

    def __eq__(self, other):
        return isinstance(other, Arg) and self.n == other.n

    def __repr__(self):
        return 'Arg(%d)' % self.n


class Token(object):
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'result %d' % self.n


def call(level, name, self, args=(), kwargs={}):
    import _thread
    return machines[_thread.get_ident()](level, name, self, args, kwargs)


def prepare():
    import random
    build()
    rng = random.Random(3)
    for i in range(20):
        try:
            run(gen(rng), core.Env())
        except (core.Skip, core.Violation):
            pass


def build():
    if classes:
        return
    from ngoschema.decorators import memoized_property, memoized_method
    from ngoschema.protocols import SchemaMetaclass, with_metaclass
    from ngoschema.loaders.schemas import load_schema
    load_schema({'$id': URI, '$defs': {'S': {'type': 'object', 'properties': {'v': {'type': 'integer'}}}}})

    class Plain(object):
        @memoized_property
        def p(self):
            return call(0, 'p', self)

        l = memoized_property(lambda self: call(0, 'l', self))

        @memoized_method(maxsize=None)
        def m(self, *args, **kwargs):
            return call(0, 'm', self, args, kwargs)

        @memoized_method(maxsize=2)
        def k(self, *args, **kwargs):
            return call(0, 'k', self, args, kwargs)

        @memoized_method()
        def n(self, *args, **kwargs):
            return call(0, 'n', self, args, kwargs)

    class Derived(Plain):
        @memoized_property
        def p(self):
            return call(1, 'p', self)

        l = memoized_property(lambda self: call(1, 'l', self))

        @memoized_method(maxsize=None)
        def m(self, *args, **kwargs):
            return call(1, 'm', self, args, kwargs)

        def n(self, *args, **kwargs):       # not memoised, of a memoised one
            return super(Derived, self).n(*args, **kwargs)

    def other_name(self):
        return call(2, 'l', self)

    class Third(Derived):
        @memoized_property
        def p(self):
            return call(2, 'p', self)

        l = memoized_property(other_name)

        @memoized_method(maxsize=None)
        def m(self, *args, **kwargs):
            return call(2, 'm', self, args, kwargs)

    class Same(Plain):
        def __eq__(self, other):
            return True

        def __hash__(self):
            return 1

    class Unhash(Plain):
        def __eq__(self, other):
            return isinstance(other, Unhash)
        __hash__ = None

    class Schema(with_metaclass(SchemaMetaclass)):
        _id = URI + '#/$defs/S'
        p = memoized_property(lambda self: call(0, 'p', self))
        l = memoized_property(lambda self: call(0, 'l', self))

        @memoized_method(maxsize=None)
        def m(self, *args, **kwargs):
            return call(0, 'm', self, args, kwargs)

        @memoized_method(maxsize=2)
        def k(self, *args, **kwargs):
            return call(0, 'k', self, args, kwargs)

        @memoized_method()
        def n(self, *args, **kwargs):
            return call(0, 'n', self, args, kwargs)
    classes.update(plain=Plain, derived=Derived, third=Third, same=Same, unhash=Unhash, schema=Schema, reset=memoized_property.reset)


def gen_args(rng):
    x = rng.random()
    a = [rng.choice(['i', 's', 'c', 'n', 't']), rng.randint(0, 3)]
    if x < .06:
        return {'bad': True}
    if x < .15:
        return {}
    if x < .25:
        return {'a': a, 'kw': rng.randint(0, 2)}
    if x < .35:
        return {'a': a, 'b': ['i', rng.randint(0, 2)]}
    return {'a': a}


def gen_use(rng, kinds, depth, pool, inst=None):
    i = rng.randint(0, len(kinds) - 1) if inst is None else inst
    op = {'do': 'use', 'inst': i, 'name': rng.choice(NAMES)}
    if op['name'] in METHODS:
        op['args'] = rng.choice(pool)
        op['via'] = rng.choice(['attr', 'attr', 'attr', 'class'])
    if rng.random() < .2:
        op['value'] = rng.choice(['none', 'zero', 'empty'])
    if rng.random() < .25:
        op['raise'] = [rng.choice(sorted(EXC)), rng.choice(['before', 'after'])]
    if depth and rng.random() < .35:
        op['inner'] = [gen_use(rng, kinds, depth - 1, pool, rng.choice([i, i, None])) for x in range(rng.choice([1, 1, 2]))]
        if rng.random() < .2:
            op['inner'].append({'do': 'reset', 'inst': rng.choice([i, rng.randint(0, len(kinds) - 1)]), 'name': rng.choice(NAMES)})
    if kinds[i] in LEVELS and op['name'] in ('p', 'l', 'm') and rng.random() < .6:
        op['super'] = rng.choice(['first', 'last'])
        if rng.random() < .3:
            op['super-raise'] = rng.choice(sorted(EXC))
        if kinds[i] == 'third' and rng.random() < .7:
            op['super2'] = rng.choice(['first', 'last'])
            if rng.random() < .3:
                op['super2-raise'] = rng.choice(sorted(EXC))
    if kinds[i] in LEVELS and op['name'] in ('p', 'l', 'm') and rng.random() < .2:
        # the function of a parent class, asked directly
        op['level'] = rng.randint(0, LEVELS[kinds[i]] - 1)
        if op['level'] == 0:
            op.pop('super', None)
    return op


def gen(rng):
    nt = rng.choice([1, 1, 1, 1, 1, 2, 3])
    threads = []
    for t in range(nt):
        kinds, ops, held = [], [], 0
        pool = [gen_args(rng) for i in range(rng.choice([2, 3, 4, 6]))]
        for i in range(rng.choice([4, 10, 20, 40] if nt == 1 else [4, 8, 16])):
            x = rng.random()
            if not kinds or x < .1 and len(kinds) < 5:
                k = rng.choice(KINDS) if not kinds or rng.random() < .5 else rng.choice(kinds)
                kinds.append(k)
                op = {'do': 'new', 'kind': k}
            elif x < .68:
                op = gen_use(rng, kinds, rng.choice([0, 0, 1, 2]), pool)
            elif x < .76:
                op = {'do': 'reset', 'inst': rng.randint(0, len(kinds) - 1), 'name': rng.choice(NAMES), 'own': rng.random() < .3}
            elif x < .80:
                op = {'do': 'hold', 'inst': rng.randint(0, len(kinds) - 1), 'name': rng.choice(METHODS)}
                held += 1
            elif x < .92 and held:
                op = gen_use(rng, kinds, 0, pool)
                op.update(do='call', held=rng.randint(0, held - 1), args=rng.choice(pool))
                del op['inst'], op['name']
                op.pop('super', None)
                op.pop('super-raise', None)
                op.pop('super2', None)
                op.pop('level', None)
            elif x < .95 and kinds and len(kinds) < 6:
                i = rng.randint(0, len(kinds) - 1)
                if kinds[i] == 'schema':
                    continue
                op = {'do': 'copy', 'inst': i}
                kinds.append(kinds[i])
            else:
                op = {'do': 'release', 'inst': rng.randint(0, len(kinds) - 1)}
            ops.append(op)
        threads.append({'ops': ops, 'collect': nt == 1 and rng.random() < .15})
    return {'threads': threads, 'first': rng.randint(0, nt - 1),
            'switches': threadsim.random_switches(rng, rng.choice([5, 20, 100, 500]), nt) if nt > 1 else []}


def run(plan, env):
    import copy
    import gc
    import weakref
    build()
    nt = len(plan['threads'])
    if not nt:
        raise core.Skip()

    def program(t, th):
        out = []

        def probe(p):
            out.append(('probe', p))

        def fail(what, text):
            out.append(('fail', what, text))
            raise Mismatch()

        class Mismatch(BaseException):
            pass

        class Inst(object):
            def __init__(self, kind, obj):
                self.kind, self.obj, self.caches, self.doubt, self.failed, self.reset, self.used, self.original = kind, obj, {}, {}, set(), set(), False, None

            def cache(self, level, name):
                return self.caches.setdefault((level, name), {})

        def body():
            import _thread
            me = _thread.get_ident()
            insts, held = [], []
            expecting = []          # uses in progress: the computation expected, or None
            serial = [0]
            gone = []

            def live(i):
                if not 0 <= i < len(insts):
                    raise core.Skip()
                return insts[i] if insts[i] is not None and insts[i].obj is not None else None

            def arguments(spec):
                if spec.get('bad'):
                    return ([1],), {}

                def one(a):
                    return {'i': lambda n: n, 's': str, 'c': Arg, 'n': lambda n: None, 't': lambda n: (n, 'x')}[a[0]](a[1])
                args = tuple(one(spec[k]) for k in 'ab' if k in spec)
                return args, ({'kw': spec['kw']} if 'kw' in spec else {})

            def computing(level, name, obj, args, kwargs):
                """the memoised function runs"""
                e = expecting[-1] if expecting else None
                if not e or e['level'] != level or e['name'] != name or e['done']:
                    fail('computation', 'a computation of %s.%s which is memoised, or was not asked' % (('base', 'derived', 'third')[level], name))
                if obj is not e['inst'].obj:
                    fail('instance', 'the computation of %s is made for %s' % (name, 'nothing' if obj is None else 'another instance'))
                if (args, kwargs) != e['arguments']:
                    fail('arguments', 'the computation of %s is made for %s instead of %s' % (name, (args, kwargs), e['arguments']))
                e['done'] = True
                if (level, name, e['key']) in e['inst'].failed:
                    probe('computed-after-failure')
                if (level, name) in e['inst'].reset:
                    probe('computed-after-reset')
                probe('computed')
                return e['inside']()

            def use(n, inst, name, level, op, access):
                """a use of a memoised function of this level, through access; what the computation does is in op"""
                kind = inst.kind
                args, kwargs = arguments(op.get('args', {})) if name in METHODS else ((), {})
                key = (args, tuple(kwargs.items()))
                bad = op.get('args', {}).get('bad') and name in METHODS
                where = 'operation %d: %s of instance of class %s' % (n, name, kind)
                cache = None if bad else inst.cache(level, name)
                if name in METHODS:
                    if 'kw' in kwargs:
                        probe('keywords')
                    if not bad and any(isinstance(a, Arg) for a in args) and any(isinstance(a, Arg) for k in cache for a in k[0]):
                        probe('colliding-arguments')
                for what, k in (('equal-instances', 'same'), ('unhashable-instance', 'unhash'), ('schema-object', 'schema')):
                    if kind == k:
                        probe(what)
                if name == 'l':
                    probe('lambda')
                e = {'inst': inst, 'level': level, 'name': name, 'arguments': (args, kwargs), 'key': repr(key), 'done': False}
                state = {}

                def boom(exc):
                    if exc == 'AttributeError' and (kind == 'schema' or any(y['inst'].kind == 'schema' for y in expecting)):
                        exc = 'ValueError'      # schema objects look elsewhere for attributes that do not exist
                    probe('exc:' + exc if 'exc:' + exc in PROBES else 'failed')
                    out.append(('fault', 'computation'))
                    raise EXC[exc]('simulated')

                def inside():
                    r = op.get('raise')
                    if r and r[1] == 'before':
                        boom(r[0])
                    if level and op.get('super') == 'first':
                        upper(op)
                    for x in op.get('inner', []):
                        probe('nested')
                        j = live(x['inst'])
                        if j is None:
                            continue
                        if x['do'] == 'reset':
                            if any(y['inst'] is j and y['name'] == x['name'] for y in expecting):
                                continue        # whether the result is then stored is not said
                            probe('reset-in-other-computation')
                            do_reset(j, x['name'])
                            continue
                        y = top(n, j, x['name'], x)
                        if y is None:
                            continue
                    if level and op.get('super') == 'last':
                        upper(op)
                    if r and r[1] == 'after':
                        boom(r[0])
                    serial[0] += 1
                    state['value'] = {'none': None, 'zero': 0, 'empty': ()}.get(op.get('value'), Token(serial[0]))
                    return state['value']

                def upper(op):
                    probe('super')
                    sub = {'args': op.get('args', {})}
                    if level == 2 and 'super2' in op:
                        probe('super-of-super')
                        sub['super'] = op['super2']
                        if 'super2-raise' in op:
                            sub['raise'] = [op['super2-raise'], 'after']
                        if 'super-raise' in op:
                            sub['super-raise'] = op['super-raise']
                    elif 'super-raise' in op:
                        sub['raise'] = [op['super-raise'], 'before']
                    base = super(classes[{1: 'derived', 2: 'third'}[level]], inst.obj)
                    use(n, inst, name, level - 1, sub, lambda a, k: getattr(base, name)(*a, **k) if name in METHODS else getattr(base, name))
                    if op.get('raise') and op['raise'][1] == 'after':
                        probe('super-then-failed')
                e['inside'] = inside
                if not bad and any(y['inst'] is inst and y['name'] == name and y['level'] == level and y['key'] == e['key'] for y in expecting):
                    return None         # would never end
                doubt = inst.doubt.pop((level, name), None) if name not in METHODS else None
                hit = not bad and key in cache
                # what the cache answers is decided at the beginning of the use
                if hit:
                    e['done'] = True
                expected = cache[key] if hit else None
                expecting.append(e)
                try:
                    if doubt is not None and not hit:
                        # a copy: the value of the original, or a computation
                        got = access(args, kwargs)
                        if not e['done']:
                            if got is not doubt[0]:
                                fail('value', '%s of a copy gives %r, neither computed nor the value of its original' % (where, got))
                            state['value'] = got
                            e['done'] = True
                    else:
                        got = access(args, kwargs)
                except Mismatch:
                    raise
                except threadsim.SimAbort:
                    raise
                except BaseException as er:
                    if bad and isinstance(er, TypeError) and not e['done']:
                        probe('unhashable-argument')
                        return None
                    if not str(er).strip('\'"') == 'simulated':
                        raise
                    if not e['done'] or hit:
                        raise
                    if state.get('value', e) is not e:
                        raise
                    probe('failed')
                    if len(expecting) > 1:
                        probe('nested-failed')
                    inst.failed.add((level, name, e['key']))
                    raise
                finally:
                    while expecting and expecting[-1] is not e:
                        expecting.pop()
                    expecting.pop()
                inst.used = True
                if hit:
                    probe('memoised')
                    if expected is None or expected == 0 or expected == ():
                        probe('memoised-empty')
                    if got is not expected:
                        fail('value', '%s gives %r instead of the memoised %r' % (where, got, expected))
                    if MAXSIZE.get(name) == 2:
                        cache[key] = cache.pop(key)
                        probe('hit-kept')
                    return got
                if not e['done']:
                    fail('computation', '%s gives %r without computing' % (where, got))
                if got is not state['value']:
                    fail('value', '%s gives %r instead of the %r computed' % (where, got, state['value']))
                if bad:
                    return got          # accepting them is not excluded
                cache = inst.cache(level, name)
                cache[key] = got
                size = MAXSIZE.get(name)
                if size and len(cache) > size:
                    del cache[next(iter(cache))]
                    probe('evicted')
                return got

            def top(n, inst, name, op):
                if name not in NAMES:
                    raise core.Skip()
                obj = inst.obj
                level = LEVELS.get(inst.kind, 0) if name in ('p', 'l', 'm') else 0
                if 'level' in op and op['level'] < level:
                    level = op['level']
                    if level == 0 and 'super' in op:
                        raise core.Skip()
                    probe('of-parent')
                    base = super(classes[{0: 'derived', 1: 'third'}[level]], obj)
                    return use(n, inst, name, level, op, lambda a, k: getattr(base, name)(*a, **k) if name in METHODS else getattr(base, name))
                if level == 0 and 'super' in op:
                    raise core.Skip()
                if name not in METHODS:
                    return use(n, inst, name, level, op, lambda a, k: getattr(obj, name))
                if op.get('via') == 'class':
                    probe('through-class')
                    return use(n, inst, name, level, op, lambda a, k: getattr(type(obj), name)(obj, *a, **k))
                return use(n, inst, name, level, op, lambda a, k: getattr(obj, name)(*a, **k))

            def do_reset(inst, name, own=False):
                if name not in NAMES:
                    raise core.Skip()
                prop = getattr(type(inst.obj), name) if own and name not in METHODS else None
                if hasattr(prop, '_reset'):
                    probe('reset-by-property')
                    prop._reset(inst.obj)
                else:
                    classes['reset'](inst.obj, name)
                hit = False
                for level in (0, 1, 2):
                    hit = inst.caches.pop((level, name), None) or hit
                    inst.reset.add((level, name))
                    inst.doubt.pop((level, name), None)
                probe('reset' if hit else 'reset-unused')

            def guard(f):
                try:
                    f()
                except (Mismatch, threadsim.SimAbort, core.Skip):
                    raise
                except BaseException as er:
                    if str(er).strip('\'"') != 'simulated':
                        raise

            machines[me] = computing
            try:
                for n, op in enumerate(th['ops']):
                    do = op['do']
                    if do == 'new':
                        if op['kind'] not in KINDS:
                            raise core.Skip()
                        insts.append(Inst(op['kind'], classes[op['kind']]()))
                    elif do == 'call':
                        if not 0 <= op['held'] < len(held):
                            raise core.Skip()
                        inst, name, f, early = held[op['held']]
                        probe('early-bound' if early else 'late-bound')
                        level = LEVELS.get(inst.kind, 0) if name in ('p', 'l', 'm') else 0
                        if op.get('super'):
                            raise core.Skip()
                        guard(lambda: use(n, inst, name, level, op, lambda a, k: f(*a, **k)))
                    else:
                        inst = live(op['inst'])
                        if inst is None:
                            if do == 'copy':
                                insts.append(None)
                            elif do == 'hold':
                                held.append((Inst('plain', classes['plain']()), 'm', None, None))
                                held[-1] = (held[-1][0], 'm', held[-1][0].obj.m, True)
                            continue
                        if do == 'use':
                            guard(lambda: top(n, inst, op['name'], op))
                        elif do == 'reset':
                            do_reset(inst, op['name'], op.get('own'))
                        elif do == 'hold':
                            if op['name'] not in METHODS:
                                raise core.Skip()
                            held.append((inst, op['name'], getattr(inst.obj, op['name']), not inst.cache(LEVELS.get(inst.kind, 0) if op['name'] == 'm' else 0, op['name'])))
                        elif do == 'copy':
                            if inst.kind == 'schema':
                                raise core.Skip()
                            new = Inst(inst.kind, copy.copy(inst.obj))
                            for (level, name), c in inst.caches.items():
                                if name not in METHODS and c:
                                    new.doubt[level, name] = list(c.values())
                            for k, v in inst.doubt.items():
                                new.doubt[k] = v
                            new.original = inst
                            insts.append(new)
                            probe('copied')
                        elif do == 'release':
                            if any(h[0] is inst for h in held):
                                continue
                            probe('released')
                            gone.append((n, weakref.ref(inst.obj), inst.used, bool(inst.failed)))
                            if any(i is not None and i.original is inst and i.obj is not None for i in insts):
                                probe('released-original-of-copy')
                            inst.obj = None
                        if do == 'use' and inst.original is not None:
                            probe('copy-used')
                        inst = None
                expecting[:] = []
                if th['collect'] and gone:
                    machines.pop(me)
                    sweep(out, gone, gc, probe)
            except Mismatch:
                pass
            finally:
                machines.pop(me, None)
            return out
        return body

    try:
        if nt == 1:
            results = [('ok', program(0, plan['threads'][0])())]
            trace = []
        else:
            s = threadsim.Scheduler([tuple(x) for x in plan['switches']], 3000000)
            results = s.run([program(t, th) for t, th in enumerate(plan['threads'])], plan['first'])
            env.steps += s.step
            env.log('trace', s.trace)
            trace = s.trace
            if s.taken:
                env.fault('thread-switch', s.taken)
                env.probe('switched')
            if s.abort:
                return env.fail(*s.abort)
    finally:
        machines.clear()
    env.sign(plan['threads'], trace)
    env.probe('threads:%d' % nt)
    for t, r in enumerate(results):
        if r[0] == 'error':
            if not r[2]:
                raise r[1]
            env.fail('unexpected-error', 'thread %d: %s: %s' % (t, type(r[1]).__name__, r[1]))
        for what in r[1]:
            env.log(t, *what)
            if what[0] == 'fail':
                env.fail(*what[1:])
            elif what[0] == 'probe':
                env.probe(what[1])
            elif what[0] == 'fault':
                env.fault(what[1])


def sweep(out, gone, gc, probe):
    import sys
    for i in range(3):
        gc.collect()
        if all(r() is None for n, r, used, failed in gone):
            break
    for n, r, used, failed in gone:
        if used:
            probe('released-after-use')
        if failed:
            probe('released-after-failure')
        if r() is not None:
            out.append(('fail', 'kept-alive', 'the instance released by operation %d is kept alive%s' % (n, ' by what it memoised' if used else '')))
            return
