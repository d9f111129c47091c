"""C08: threads that build the same classes get the same usable classes."""
import _thread
import json
import random

import core
import families
import threadsim
from props import c07

ID = 'C08'
LEVEL = 'exploration'
QUICK = (350, 20)
THOROUGH = (60000, 100)
RULE = ('an execution is a family of schemas, what each thread loads, and the interleaving reached (where control passed from which '
        'thread to which); only those with a switch inside the library count')
REAL = ['ngoschema type builder, resolvers, object/array/type protocols, namespaces', 'jsonschema', 'interpreter threads']
STUBS = ['locks (simulated, so that the scheduler decides who gets them)', 'documents failing at the access chosen by the plan']
ASSUMPTIONS = ['threads are switched between source lines of the library and at lock operations, not inside a line or inside other libraries',
               'a class does not extend a class whose definition needs it (cycles only go through properties)', 'PyPy 3.9 interpreter']
PROBES = ['switched', 'blocked', 'same-class', 'related', 'cyclic', 'unrelated', 'access-failed', 'retried-ok', 'route:load', 'route:build',
          'use-while-others-build', 'threads:2', 'threads:3', 'threads:4']


def prepare():
    c07.prepare()


def gen(rng):
    family = families.gen(rng, 5)
    n = len(family['classes'])
    nt = rng.choice([2, 2, 2, 3, 3, 4])
    hot = rng.randint(0, n - 1)
    threads = []
    for t in range(nt):
        threads.append([{'class': hot if rng.random() < .4 else rng.randint(0, n - 1), 'route': rng.choice(['load', 'load', 'build']),
                         'use': rng.random() < .7} for i in range(rng.randint(1, 3))])
    trap = None
    if rng.random() < .25:
        trap = {'doc': rng.randint(0, family['docs'] - 1), 'n': int(2 ** rng.uniform(0, 7))}
    before = [rng.randint(0, n - 1)] if rng.random() < .2 else []
    return {'family': family, 'threads': threads, 'before': before, 'trap': trap, 'first': rng.randint(0, nt - 1),
            'switches': threadsim.random_switches(rng, rng.choice([200, 1500, 6000]), nt)}


class Trap(c07.Trap):
    """fails once, for the thread which meets it"""

    def __init__(self, n, current, by):
        c07.Trap.__init__(self, n, True)
        self.current, self.by = current, by

    def access(self):
        if _thread.get_ident() not in self.current:
            return      # the class is built
        hit = self.hit
        try:
            c07.Trap.access(self)
        finally:
            if self.hit > hit:
                k = self.current.get(_thread.get_ident())
                self.by[k] = self.by.get(k, 0) + 1


def use(fam, i, cls):
    """what a thread does with a class as soon as it has it"""
    out = {'properties': sorted(k for k in cls._properties), 'required': sorted(cls._required)}
    v = families.value(fam, i)
    out['value'] = families.outcome(lambda: families.plain(cls(v)))
    name = [k for k, p in sorted(families.all_props(fam, i).items()) if p['kind'] == 'int'][:1]
    if name:
        out['bad'] = families.outcome(lambda: families.plain(cls(dict(v, **{name[0]: -5}))))
    return out


def run(plan, env):
    from ngoschema.managers.type_builder import type_builder
    from ngoschema.resolvers.uri_resolver import UriResolver
    c07.serial[0] += 1
    fam = plan['family']
    n = len(fam['classes'])
    if not families.sensible(fam) or not plan['threads'] or any(op['class'] >= n for t in plan['threads'] for op in t) or any(i >= n for i in plan['before']):
        raise core.Skip()
    site = c07.Site({'faults': [], 'family': fam}, 'https://sim.test/m%d' % c07.serial[0])
    twin = c07.Site({'faults': [], 'family': fam}, 'https://sim.test/t%d' % c07.serial[0])
    trap, current, by = None, {}, {}
    try:
        wants, uses = {}, {}
        for i in range(n):
            cls = type_builder.load(twin.uri(i))
            wants[i] = families.behaviour(fam, i, cls)
            uses[i] = use(fam, i, cls)
        seen = {}
        for i in plan['before']:
            seen[i] = type_builder.load(site.uri(i))
        if plan['trap'] and plan['trap']['doc'] < fam['docs']:
            d = plan['trap']['doc']
            trap = Trap(plan['trap']['n'], current, by)
            uri = '%s/doc%d' % (site.base, d)
            UriResolver.register_doc(c07.trapped(UriResolver.get_doc_store()[uri], trap), uri)

        def thread(k, ops):
            def get(op):
                uri = site.uri(op['class'])
                if op['route'] == 'build':
                    return type_builder.build(uri)
                return type_builder.load(uri)

            def program():
                out = []
                for op in ops:
                    before = by.get(k)
                    current[_thread.get_ident()] = k
                    try:
                        cls = get(op)
                    except Exception:
                        if by.get(k) == before:
                            raise
                        out.append((op, 'access', None))
                        cls = get(op)       # only fails once
                    current.pop(_thread.get_ident(), None)
                    got = use(fam, op['class'], cls) if op['use'] else None
                    out.append((op, cls, got))
                return out
            return program
        s = threadsim.Scheduler([tuple(x) for x in plan['switches']])
        results = s.run([thread(k, ops) for k, ops in enumerate(plan['threads'])], plan['first'])
        env.steps += s.step
        if trap:
            trap.on = False
        env.log('trace', s.step, s.trace)
        env.sign(s.trace, plan['threads'], fam)
        if s.taken:
            env.nontrivial = True
            env.fault('thread-switch', s.taken)
        if s.taken or s.blocked_times:
            env.probe('switched')
        if s.blocked_times:
            env.probe('blocked')
        env.probe('threads:%d' % len(plan['threads']))
        if trap and trap.hit:
            env.fault('access', trap.hit)
            env.probe('access-failed')
        if s.abort:
            return env.fail(*s.abort)
        for k, r in enumerate(results):
            if r[0] == 'error':
                env.check(False, 'load-failed', 'thread %d: %s: %s' % (k, type(r[1]).__name__, r[1]))
        for k, r in enumerate(results):
            failed = False
            for op, cls, got in r[1]:
                i = op['class']
                if isinstance(cls, str):
                    failed = True
                    continue
                if failed:
                    env.probe('retried-ok')
                    failed = False
                env.probe('route:' + op['route'])
                env.log('thread', k, 'class', i)
                if i in seen:
                    env.probe('same-class')
                env.check(seen.setdefault(i, cls) is cls, 'identity', 'thread %d got another class %d than the others' % (k, i))
                if got is not None:
                    env.probe('use-while-others-build')
                    for key in uses[i]:
                        env.check(got.get(key) == uses[i][key], 'incomplete', 'thread %d used class %d as soon as it was returned: %s is %s instead of %s' % (
                            k, i, key, json.dumps(got.get(key))[:300], json.dumps(uses[i][key])[:300]))
        wanted = [set(op['class'] for op in ops) for ops in plan['threads']]
        for a in range(len(wanted)):
            for b in range(a):
                for x in wanted[a]:
                    for y in wanted[b]:
                        ra, rb = families.reach(fam['classes'], x), families.reach(fam['classes'], y)
                        env.probe('related' if ra & rb and x != y else 'unrelated' if not ra & rb else 'cyclic' if x in families.reach_strict(fam['classes'], x) else 'same-class')
        for i in range(n):
            cls = type_builder.load(site.uri(i))
            env.check(seen.setdefault(i, cls) is cls, 'identity', 'class %d is not the one the threads got' % i)
            got = families.behaviour(fam, i, cls)
            for key in wants[i]:
                env.check(got.get(key) == wants[i][key], 'class', 'class %d is not what a single thread gets: %s is %s instead of %s' % (
                    i, key, json.dumps(got.get(key))[:300], json.dumps(wants[i][key])[:300]))
    finally:
        site.clean()
        twin.clean()
