"""C07: a failed class construction leaves nothing behind and can be retried."""
import json
import random

import core
import families

ID = 'C07'
LEVEL = 'exploration'
QUICK = (900, 40)
THOROUGH = (100000, 200)
RULE = ('an execution is a family of schemas, the faults in its documents, and the sequence of attempts and repairs with their '
        'outcomes; only those where an attempt fails count')
REAL = ['ngoschema type builder, resolvers, object/array/type protocols, namespaces', 'jsonschema']
STUBS = ['documents (mappings) failing at the access chosen by the plan']
ASSUMPTIONS = ['a class does not extend a class whose definition needs it (cycles only go through properties)',
               'a repaired document only differs from the faulty one by the faulty part', 'PyPy 3.9 interpreter']
PROBES = ['interrupted', 'missing-doc', 'bad-ref', 'draft', 'bad-extends', 'no-def', 'not-schema', 'access', 'failed', 'failed-again', 'retried-ok', 'cyclic-failed',
          'kept-identity', 'unrelated-ok', 'route:load', 'route:build', 'route:python', 'broken-after-built', 'all-built']
KINDS = ['missing-doc', 'bad-ref', 'draft', 'bad-extends', 'no-def', 'not-schema', 'access', 'access', 'access']


def prepare():
    # fill the caches
    rng = random.Random(3)
    env = core.Env()
    for i in range(3):
        run({'family': families.gen(rng), 'faults': [], 'ops': []}, env)


def gen(rng):
    family = families.gen(rng)
    n = len(family['classes'])
    faults = []
    for i in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(KINDS)
        faults.append({'class': rng.randint(0, n - 1), 'kind': k, 'n': int(2 ** rng.uniform(0, 8)), 'transient': rng.random() < .5, 'error': rng.choice(sorted(ERRORS)),
                       'at': rng.choice([0, 0, 0, 1])})
    ops = []
    for i, f in enumerate(faults):
        if f['at'] == 0:
            ops.append({'do': 'break', 'fault': i})
    later = [i for i, f in enumerate(faults) if f['at']]
    for i in range(rng.randint(2, 12)):
        r = rng.random()
        if r < .15 and later:
            ops.append({'do': 'break', 'fault': later.pop()})
        elif r < .35:
            ops.append({'do': 'repair', 'fault': rng.randint(0, len(faults) - 1)})
        else:
            ops.append({'do': 'load', 'class': rng.randint(0, n - 1), 'route': rng.choice(['load', 'load', 'build', 'python'])})
    return {'family': family, 'faults': faults, 'ops': ops}


ERRORS = {'OSError': OSError, 'ValueError': ValueError, 'RuntimeError': RuntimeError, 'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt}


class Trap(object):
    """counts the accesses to a document, one of which fails"""

    def __init__(self, n, transient, error='OSError'):
        self.left, self.transient, self.hit, self.on = n, transient, 0, True
        self.error = ERRORS[error]

    def access(self):
        if not self.on:
            return
        self.left -= 1
        if self.left == 0 or (self.left < 0 and not self.transient):
            self.hit += 1
            raise self.error('simulated: the document cannot be read')


class Doc(dict):
    """a document read through a trap"""
    trap = None

    def _touch(self):
        if self.trap is not None:
            self.trap.access()

    def __getitem__(self, k):
        self._touch()
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        self._touch()
        return dict.get(self, k, d)

    def __iter__(self):
        self._touch()
        return dict.__iter__(self)

    def __contains__(self, k):
        self._touch()
        return dict.__contains__(self, k)

    def items(self):
        self._touch()
        return dict.items(self)

    def keys(self):
        self._touch()
        return dict.keys(self)

    def copy(self):
        self._touch()
        return dict(self)


def trapped(v, trap):
    if isinstance(v, dict):
        d = Doc((k, trapped(x, trap)) for k, x in v.items())
        d.trap = trap
        return d
    if isinstance(v, list):
        return [trapped(x, trap) for x in v]
    return v


serial = [0]


class Site(object):
    """the documents of a family, as they are registered"""

    def __init__(self, plan, base):
        from ngoschema.resolvers.uri_resolver import UriResolver
        self.reg = UriResolver
        self.plan, self.base, self.family = plan, base, plan['family']
        self.active = {}
        for d in range(self.family['docs']):
            self.publish(d)

    def uri(self, i):
        return families.uri(self.family, i, self.base)

    def publish(self, d):
        doc = json.loads(json.dumps(families.document(self.family, d, self.base)))
        trap = None
        missing = False
        for i, (f, t) in sorted(self.active.items()):
            c = self.family['classes'][f['class']]
            if c['doc'] != d:
                continue
            where = doc if c['def'] is None else doc.get('$defs', {}).get(c['def'])
            if f['kind'] == 'missing-doc':
                missing = True
            elif not isinstance(where, dict):
                pass
            elif f['kind'] == 'bad-ref':
                where['properties']['zz_broken'] = {'$ref': '#/$defs/Nowhere'}
            elif f['kind'] == 'draft':
                # other properties also differ until it is repaired
                for k, p in where['properties'].items():
                    if isinstance(p, dict) and p.get('type') == 'integer':
                        p['maximum'] = 3
                    elif isinstance(p, dict) and p.get('type') == 'string':
                        where['properties'][k] = {'type': 'integer'}
                where['properties']['zz_broken'] = {'$ref': '#/$defs/Nowhere'}
            elif f['kind'] == 'bad-extends':
                where['extends'] = where.get('extends', []) + [self.base + '/nowhere#/$defs/X']
            elif f['kind'] == 'no-def':
                if c['def']:
                    del doc['$defs'][c['def']]
                else:
                    missing = True
            elif f['kind'] == 'not-schema':
                if c['def']:
                    doc['$defs'][c['def']] = 'not a schema'
                else:
                    doc = ['not a schema']
                    break
            elif f['kind'] == 'access':
                trap = t
        uri = '%s/doc%d' % (self.base, d)
        if missing:
            if uri in self.reg.get_doc_store():
                self.reg.unregister_doc(uri)
        else:
            self.reg.register_doc(trapped(doc, trap) if trap is not None else doc, uri)

    def break_(self, k):
        f = self.plan['faults'][k]
        self.active[k] = (f, Trap(f['n'], f['transient'], f.get('error', 'OSError')))
        self.publish(self.family['classes'][f['class']]['doc'])

    def repair(self, k):
        if k in self.active:
            f, t = self.active.pop(k)
            # classes built in the meantime keep what they have read
            t.on = False
            self.publish(self.family['classes'][f['class']]['doc'])

    def traps(self, on):
        for f, t in self.active.values():
            t.on = on

    def hits(self):
        return sum(t.hit for f, t in self.active.values())

    def concerned(self, i):
        """faults that can make the building of a class fail"""
        docs = {}
        reach = families.reach(self.family['classes'], i)
        rdocs = {self.family['classes'][j]['doc'] for j in reach}
        return [f for f, t in self.active.values() if f['kind'] != 'access' and (
            f['class'] in reach or f['kind'] in ('missing-doc', 'no-def', 'not-schema') and self.family['classes'][f['class']]['doc'] in rdocs)]

    def clean(self):
        store = self.reg.get_doc_store()
        for d in range(self.family['docs']):
            store.pop('%s/doc%d' % (self.base, d), None)
        from ngoschema.managers.type_builder import type_builder
        reg = getattr(type_builder, '_registry', {})
        for k in [k for k in reg if str(k).startswith(self.base)]:
            del reg[k]
        from ngoschema.managers.namespace_manager import NamespaceManager
        ns = getattr(NamespaceManager, '_builder_ns', {})
        for k in [k for k, u in ns.items() if str(u).startswith(self.base)]:
            del ns[k]


def run(plan, env):
    from ngoschema.managers.type_builder import type_builder
    serial[0] += 1
    fam = plan['family']
    if not families.sensible(fam) or any(f['class'] >= len(fam['classes']) for f in plan['faults']):
        raise core.Skip()
    site = Site(plan, 'https://sim.test/m%d' % serial[0])
    twin = Site(dict(plan, faults=[]), 'https://sim.test/t%d' % serial[0])
    good, failed, shapes = {}, {}, {}
    env.sign(families.document(fam, 0, ''), [families.schema(fam, i, '') for i in range(len(fam['classes']))])

    def shape(i):
        if i not in shapes:
            shapes[i] = families.behaviour(fam, i, type_builder.load(twin.uri(i)))
        return shapes[i]

    def attempt(i, route):
        hits = site.hits()
        cls = err = None
        uri = site.uri(i)
        try:
            if route == 'python' and not type_builder.contains(uri):
                cls = python_class(uri)
                env.probe('route:python')
            elif route == 'build':
                cls = type_builder.build(uri)
                env.probe('route:build')
            else:
                cls = type_builder.load(uri)
                env.probe('route:load')
        except (Exception, KeyboardInterrupt) as er:
            if isinstance(er, KeyboardInterrupt) and 'simulated' not in str(er):
                raise
            err = er
            if isinstance(er, KeyboardInterrupt):
                env.probe('interrupted')
        hit = site.hits() - hits
        name = type(err).__name__ if err else 'built'
        env.log('attempt', i, route, name, hit)
        env.sign(i, route, name, hit)
        env.steps += 1
        if err is not None:
            if hit:
                env.fault('access', hit)
                env.probe('access')
            why = site.concerned(i)
            for f in why:
                env.fault(f['kind'])
                env.probe(f['kind'])
            env.check(hit or why, 'unexpected-error', 'building class %d fails although nothing is wrong: %s: %s' % (i, name, err))
            env.check(i not in good, 'lost', 'class %d was already built, and fails to be given again: %s: %s' % (i, name, err))
            env.check(not type_builder.contains(uri), 'registered', 'class %d is registered although its construction failed with %s' % (i, name))
            env.probe('failed-again' if i in failed else 'failed')
            if i in families.reach_strict(fam['classes'], i):
                env.probe('cyclic-failed')
            failed[i] = name
            return
        if i in good:
            env.check(cls is good[i], 'identity', 'class %d is not the same as before' % i)
            env.probe('kept-identity')
            if site.active:
                env.probe('broken-after-built')
            return
        if hit:
            return env.fail('failure-hidden', 'class %d is given although reading its schema failed' % i)
        site.traps(False)
        got = families.behaviour(fam, i, cls)
        site.traps(True)
        want = shape(i)
        if got != want:
            for k in want:
                if got.get(k) != want[k]:
                    env.fail('class', 'class %d is not as if no failure had happened (failed before: %s, faults now: %s): %s is %s instead of %s' % (
                        i, failed, [f['kind'] for f in site.concerned(i)], k, json.dumps(got.get(k))[:300], json.dumps(want[k])[:300]))
        good[i] = cls
        env.check(type_builder.load(uri) is cls, 'identity', 'class %d is not the one registered' % i)
        if i in failed:
            env.probe('retried-ok')
        elif failed:
            env.probe('unrelated-ok')

    try:
        for op in plan['ops']:
            if op['do'] == 'load':
                if op['class'] >= len(fam['classes']):
                    raise core.Skip()
                attempt(op['class'], op['route'])
            elif op['fault'] >= len(plan['faults']):
                raise core.Skip()
            elif op['do'] == 'break':
                site.break_(op['fault'])
                env.log('break', plan['faults'][op['fault']])
            else:
                site.repair(op['fault'])
                env.log('repair', op['fault'])
        for k in list(site.active):
            site.repair(k)
        env.log('repair all')
        for i in range(len(fam['classes'])):
            attempt(i, 'load')
        env.probe('all-built')
    finally:
        site.clean()
        twin.clean()


def python_class(uri):
    from future.utils import with_metaclass
    from ngoschema.protocols import SchemaMetaclass

    class Given(with_metaclass(SchemaMetaclass)):
        _id = uri
    return Given
