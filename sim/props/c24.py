"""C24: what an object shows depends only on its own values."""
import copy
import json
import os

import core
import objects

ID = 'C24'
LEVEL = 'exploration'
QUICK = (480, 24)
THOROUGH = (30000, 60)
RULE = ('an execution is a set of classes, the sequence of creations, changes and presentations of their objects, and the outcomes; only those '
        'showing an object after another one was shown or changed count')
REAL = ['ngoschema object and array protocols, serializers, type builder, contexts, templates', 'jinja2']
STUBS = ['getters failing when the plan says']
ASSUMPTIONS = ['values without a schema are not copied', 'PyPy 3.9 interpreter']
PROBES = ['lazy', 'eager', 'text', 'serialised', 'options', 'read-only', 'not-serialised', 'extended', 'from-form', 'shared-source', 'getter-failed', 'rejected',
          'look-raises', 'same', 'kept-form', 'alias', 'deleted', 'excluded', 'selected', 'content', 'class-form', 'mutable-default', 'open', 'extra']

serial = [0]
POOL = ['pa', 'pb', 'pc', 'pd', 'pe', 'pf']
KINDS = ['int', 'int', 'str', 'str', 'list', 'obj', 'objs', 'any', 'raws', 'free', 'free', 'tmpl', 'get', 'get']
UNTYPED = ('any', 'raws')
BAD = {'int': 'abc', 'str': 'x' * 30, 'list': ['abc'], 'obj': {'x': 500}, 'objs': [{'x': 500}], 'any': 5, 'raws': 5, 'free': 5}


def prepare():
    import random
    rng = random.Random(5)
    for i in range(3):
        try:
            run(gen(rng), core.Env())
        except (core.Violation, core.Skip):
            pass


def gen_value(rng, kind):
    if kind == 'int':
        return rng.randint(0, 9)
    if kind == 'str':
        return rng.choice(['a', 'bc', '', 'é', 'x y'])
    if kind == 'list':
        return [rng.randint(0, 9) for i in range(rng.randint(0, 3))]
    if kind == 'free':
        return {x: rng.randint(0, 9) for x in rng.sample(['x', 'n', 'm'], rng.randint(0, 2))}
    if kind == 'raws':
        return [rng.choice([{'k': 1}, [5], 3, {'k': [2]}]) for i in range(rng.randint(1, 3))]
    if kind == 'any':
        return rng.choice([[1, 2], [[3], 4], {'k': 1}, {'k': [5]}, [{'k': 6}]])
    inner = lambda: dict([('x', rng.randint(0, 9))] + ([('d', rng.choice(['q', 'w']))] if rng.random() < .5 else []))
    return inner() if kind == 'obj' else [inner() for i in range(rng.randint(0, 2))]


def gen_look(rng):
    look = {'view': rng.choice(['str', 'repr', 'form', 'form', 'form', 'class-form', 'content'])}
    if look['view'] in ('form', 'class-form'):
        o = look['opts'] = {}
        if rng.random() < .5:
            o['no_defaults'] = rng.random() < .4
        if rng.random() < .25:
            o['excludes'] = rng.sample(POOL, rng.randint(0, 3))
        if rng.random() < .2:
            o['only'] = rng.sample(POOL, rng.randint(1, 4))
        if rng.random() < .15:
            o['attr_prefix'] = '@'
        if rng.random() < .2:
            o['no_readOnly'] = True
    return look


def gen(rng):
    classes = []
    for i in range(rng.randint(1, 3)):
        props = []
        plain_only = rng.random() < .4
        for n in POOL:
            if rng.random() < .7:
                p = {'name': n, 'kind': rng.choice(KINDS[:-3] if plain_only else KINDS)}
                if p['kind'] in UNTYPED or p['kind'] in ('int', 'str') and rng.random() < .5 or p['kind'] in ('list', 'obj', 'objs', 'free') and rng.random() < (.7 if p['kind'] == 'free' else .35):
                    p['default'] = gen_value(rng, p['kind'])
                if p['kind'] in ('tmpl', 'get'):
                    ints = [x['name'] for x in props if x['kind'] == 'int']
                    if not ints:
                        p['kind'] = 'int'
                    else:
                        p['uses'] = rng.choice(ints)
                props.append(p)
        names = [p['name'] for p in props]
        c = {'lazy': rng.random() < .4, 'open': rng.random() < .4, 'props': props, 'extends': rng.randint(0, i - 1) if i and rng.random() < .3 else None}
        for k, chance in (('readOnly', .2), ('notSerialized', .12), ('required', .15)):
            c[k] = [p['name'] for p in props if rng.random() < chance and (k != 'required' or p['kind'] in ('int', 'str') and 'default' not in p)]
        ints = [p['name'] for p in props if p['kind'] == 'int']
        c['aliases'] = {'al': rng.choice(names)} if names and rng.random() < .3 else {}
        c['negated'] = {'ne': rng.choice(ints)} if ints and rng.random() < .2 else {}
        classes.append(c)
        if not sound(classes, i):
            c['extends'] = None
    sources = [{'cls': rng.randint(0, len(classes) - 1), 'seed': rng.randint(0, 10 ** 6)} for i in range(rng.randint(1, 4))]
    ops = []
    anys = any(p['kind'] in UNTYPED for c in classes for p in c['props'])
    for i in range(rng.randint(6, 26)):
        r = rng.random()
        if r < .2 or i < 2:
            op = {'do': 'make', 'source': rng.randint(0, 3)}
        elif r < .26 and not anys:
            op = {'do': 'from', 'on': rng.randint(0, 9)}
        elif r < .55:
            op = {'do': 'look', 'on': rng.randint(0, 9), 'look': gen_look(rng)}
        elif r < .64:
            op = {'do': 'fail', 'on': rng.randint(0, 9), 'look': gen_look(rng), 'error': rng.choice(sorted(objects.ERRORS_ALL)), 'nth': rng.choice([1, 1, 2])}
        else:
            op = {'do': rng.choice(['set', 'set', 'set', 'bad', 'del', 'append', 'inner', 'inner', 'inner', 'extra']), 'on': rng.randint(0, 9), 'name': rng.randint(0, 5),
                  'seed': rng.randint(0, 10 ** 6), 'style': rng.choice(['attr', 'item'])}
        ops.append(op)
    return {'classes': classes, 'sources': sources, 'ops': ops}


def effective(classes, i):
    c = classes[i]
    props = dict(effective(classes, c['extends'])) if c['extends'] is not None else {}
    props.update((p['name'], p) for p in c['props'])
    return props


def sound(classes, i):
    """what getters and templates use is still a number where the class redefines it"""
    props = effective(classes, i)
    return all(props[p['uses']]['kind'] == 'int' for p in props.values() if p['kind'] in ('tmpl', 'get'))


class World(object):
    """the classes and objects of a run, or of an isolated part of it"""

    def __init__(self, plan, no):
        self.plan, self.tag = plan, '_%05d' % no
        self.uri = 'http://sim.test/c24/%05d' % no
        self.classes = {}
        self.sources = {}
        self.objs = {}
        self.arm = None
        self.hits = 0

    def n(self, name):
        return name + self.tag if name in POOL or name in ('al', 'ne') else name

    def spec(self, i):
        """the properties of a class, its own and those it extends"""
        return effective(self.plan['classes'], i)

    def cls(self, i):
        if i in self.classes:
            return self.classes[i]
        from ngoschema.protocols import SchemaMetaclass
        from ngoschema.decorators import depend_on_prop
        c = self.plan['classes'][i]
        n = self.n
        props, body = {}, {'_lazyLoading': c['lazy']}
        for p in c['props']:
            k = p['kind']
            inner = {'type': 'object', 'properties': {'x': {'type': 'integer', 'minimum': 0, 'maximum': 100}, 'd': {'type': 'string', 'default': 'q'}}}
            s = {'int': {'type': 'integer', 'minimum': 0, 'maximum': 100}, 'str': {'type': 'string', 'maxLength': 20}, 'list': {'type': 'array', 'items': {'type': 'integer'}},
                 'obj': inner, 'objs': {'type': 'array', 'items': inner}, 'any': {}, 'raws': {'type': 'array'}, 'free': {'type': 'object', 'properties': {'x': {'type': 'integer'}}}, 'tmpl': {'type': 'string'}, 'get': {'type': 'integer'}}[k]
            if 'default' in p:
                s['default'] = copy.deepcopy(p['default'])
            if k == 'tmpl':
                s['default'] = '{{this.%s}}!' % n(p['uses'])
            if k == 'get':
                body['get_' + n(p['name'])] = depend_on_prop(n(p['uses']))(self.getter(n(p['uses'])))
            props[n(p['name'])] = s
        bases = (self.cls(c['extends']),) if c['extends'] is not None else ()
        schema = {'$id': '%s/%d' % (self.uri, i), 'type': 'object', 'properties': props, 'additionalProperties': bool(c.get('open'))}
        for k in ('readOnly', 'notSerialized', 'required'):
            if c[k]:
                schema[k] = [n(x) for x in c[k]]
        if c['aliases']:
            schema['aliases'] = {n(a): n(x) for a, x in c['aliases'].items()}
        if c['negated']:
            schema['negatedAliases'] = {n(a): n(x) for a, x in c['negated'].items()}
        body['_schema'] = schema
        self.classes[i] = SchemaMetaclass('K%d' % i, bases, body)
        return self.classes[i]

    def getter(self, uses):
        def get(o):
            if self.arm:
                self.arm[1] -= 1
                if self.arm[1] == 0:
                    self.hits += 1
                    raise objects.ERRORS_ALL[self.arm[0]]('simulated: a getter fails')
            return (o.get(uses) or 0) * 2
        return get

    def source(self, i):
        """the values given to a creation; the same dictionary each time"""
        if i not in self.sources:
            import random
            s = self.plan['sources'][i]
            rng = random.Random(s['seed'])
            self.sources[i] = {self.n(x): gen_value(rng, p['kind']) for x, p in sorted(self.spec(s['cls']).items())
                               if p['kind'] not in ('tmpl', 'get') + UNTYPED and (rng.random() < .7 or 'default' not in p)}
        return self.sources[i]

    def apply(self, i, ci, op):
        """a creation or a change; give 'done' or the error"""
        import random
        try:
            if op['do'] == 'make':
                self.objs[i] = self.cls(ci)(self.source(op['source'] % len(self.plan['sources'])))
                return 'done'
            if op['do'] == 'from':
                form = self.objs[op['of']].do_serialize()
                kept = copy.deepcopy(form)
                self.objs[i] = self.cls(ci)(form)
                return 'done' if form == kept else 'the form given is changed'
            o = self.objs[i]
            props = sorted(self.spec(ci).items())
            x, p = props[op['name'] % len(props)]
            k, x = p['kind'], self.n(x)
            rng = random.Random(op['seed'])
            if op['do'] == 'del':
                del o[x]
            elif op['do'] == 'append' and k in ('list', 'objs'):
                o[x].append(rng.randint(0, 9) if k == 'list' else gen_value(rng, 'obj'))
            elif op['do'] == 'extra':
                o['zz' + self.tag] = rng.randint(0, 9)
            elif op['do'] in ('append', 'inner') and k in UNTYPED:
                v = o[x]
                if op['do'] == 'inner':
                    v = v['k'] if isinstance(v, dict) else v[0]
                if isinstance(v, dict):
                    v['n'] = rng.randint(0, 9)
                else:
                    v.append(rng.randint(0, 9))
            elif op['do'] in ('append', 'inner') and k == 'free':
                # names of this run: what leaks out of it does not hide what leaks in the next ones
                o[x]['n' + self.tag if op['do'] == 'inner' else 'x'] = rng.randint(0, 9)
            elif op['do'] == 'inner' and k == 'obj':
                o[x].x = rng.randint(0, 9)
            elif op['do'] == 'inner' and k == 'objs':
                o[x][0].x = rng.randint(0, 9)
            elif op['do'] == 'inner' and k == 'list':
                o[x][0] = rng.randint(0, 9)
            elif k not in ('tmpl', 'get'):
                v = BAD[k] if op['do'] == 'bad' else gen_value(rng, k)
                v = copy.deepcopy(v)
                if op['style'] == 'attr':
                    setattr(o, x, v)
                else:
                    o[x] = v
            return 'done'
        except Exception as er:
            return 'raises ' + type(er).__name__

    def look(self, i, look):
        """what the object shows; and whether the options given were changed"""
        o = self.objs[i]
        opts = copy.deepcopy(look.get('opts', {}))
        for k in ('excludes', 'only'):
            if k in opts:
                opts[k] = [self.n(x) for x in opts[k]]
        kept = copy.deepcopy(opts)
        form = None
        try:
            v = look['view']
            if v == 'str':
                shown = str(o)
            elif v == 'repr':
                shown = repr(o)
            elif v == 'content':
                shown = sorted([k, objects.show(o[k])] for k in list(o))
            else:
                form = o.do_serialize(**opts) if v == 'form' else type(o).serialize(o, **opts)
                shown = plain(form)
        except (Exception, KeyboardInterrupt) as er:
            shown = 'raises ' + type(er).__name__
        return shown, opts == kept, form


def plain(v):
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v if isinstance(v, (int, str, float, type(None))) else repr(v)


def isolated(func):
    """what the function gives in a process of its own, which nothing else disturbs"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            out = json.dumps(func())
        except BaseException as er:
            out = json.dumps({'crash': repr(er)})
        try:
            with os.fdopen(w, 'w') as f:
                f.write(out)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        out = f.read()
    os.waitpid(pid, 0)
    return json.loads(out) if out else {'crash': 'nothing'}


def run(plan, env):
    if not plan['classes'] or not plan['sources'] or any(s['cls'] >= len(plan['classes']) for s in plan['sources']):
        raise core.Skip()
    for i, c in enumerate(plan['classes']):
        if c['extends'] is not None and c['extends'] >= i:
            raise core.Skip()
        known = {p['name']: p for p in c['props']}
        if any(p.get('uses') not in known or known[p['uses']]['kind'] != 'int' for p in c['props'] if p['kind'] in ('tmpl', 'get')):
            raise core.Skip()
        if any(x not in known for x in list(c['aliases'].values()) + list(c['negated'].values()) + c['readOnly'] + c['notSerialized'] + c['required']):
            raise core.Skip()
        if not sound(plan['classes'], i):
            raise core.Skip()
    anys = any(p['kind'] in UNTYPED for c in plan['classes'] for p in c['props'])
    if anys and any(op['do'] == 'from' for op in plan['ops']):
        # values without a schema are not copied
        raise core.Skip()
    serial[0] += 1
    no = serial[0]
    w = World(plan, no)

    # number the objects, and gather what concerns each
    objs = []           # class, steps: (object, class, op)
    todo = []
    for op in plan['ops']:
        op = dict(op)
        if op['do'] == 'make':
            s = op['source'] % len(plan['sources'])
            ci = plan['sources'][s]['cls']
            i = len(objs)
            objs.append((ci, [(i, ci, op)]))
        elif not objs:
            continue
        elif op['do'] == 'from':
            j = op['of'] = op['on'] % len(objs)
            ci = objs[j][0]
            i = len(objs)
            objs.append((ci, list(objs[j][1]) + [(i, ci, op)]))
        else:
            i = op['on'] % len(objs)
            ci = objs[i][0]
            if not w.spec(ci):
                continue
            if op['do'] not in ('look', 'fail'):
                objs[i][1].append((i, ci, op))
        todo.append((i, ci, op, list(objs[i][1])))

    def alone(i, steps, look):
        x = World(plan, no)
        for j, cj, op in steps:
            x.apply(j, cj, op)
        return x.look(i, look)[0] if i in x.objs else 'absent'

    texts = lambda v: v.replace(w.tag, '') if isinstance(v, str) else json.loads(json.dumps(v).replace(w.tag, ''))
    for c in plan['classes']:
        env.probe('lazy' if c['lazy'] else 'eager')
        for k, p in (('readOnly', 'read-only'), ('notSerialized', 'not-serialised'), ('aliases', 'alias')):
            if c[k]:
                env.probe(p)
        if c['extends'] is not None:
            env.probe('extended')
        if c.get('open'):
            env.probe('open')
        if any('default' in p and p['kind'] in ('list', 'objs', 'obj', 'free') + UNTYPED for p in c['props']):
            env.probe('mutable-default')
    wanted = {}
    for t, (i, ci, op, steps) in enumerate(todo):
        if op['do'] == 'look':
            wanted[t] = isolated(lambda: alone(i, steps, op['look']))
            if isinstance(wanted[t], dict) and 'crash' in wanted[t]:
                raise core.Skip()
    kept, made = [], set()
    others = False
    for t, (i, ci, op, steps) in enumerate(todo):
        env.steps += 1
        do = op['do']
        if do in ('look', 'fail'):
            if i not in w.objs:
                continue
            if do == 'fail':
                w.arm, w.hits = [op['error'], op['nth']], 0
                w.look(i, op['look'])
                w.arm = None
                env.log('fail', i, w.hits)
                if w.hits:
                    env.fault('getter')
                    env.probe('getter-failed')
                others = True
                continue
            shown, unchanged, form = w.look(i, op['look'])
            shown = json.loads(json.dumps(shown))
            view = op['look']['view']
            env.log('look', i, op['look'], texts(shown))
            env.sign('look', i, view, sorted(op['look'].get('opts', {})), isinstance(shown, str) and shown[:7] == 'raises ')
            env.check(unchanged, 'options-changed', 'the options given to a presentation are changed by it')
            # the text shows the values as they were last read
            same = shown == wanted[t] or view in ('str', 'repr') and (plan['classes'][ci]['lazy'] or any(p['kind'] in ('tmpl', 'get') for p in w.spec(ci).values()))
            if isinstance(shown, dict) and isinstance(wanted[t], dict) and op['look']['opts'].get('no_defaults', True):
                # what a getter gives is part of the form once it has been read
                gets = {n for n, p in w.spec(ci).items() if p['kind'] == 'get'}
                gets |= {a for j in lineage(plan, ci) for a, n in plan['classes'][j]['aliases'].items() if n in gets}
                gets = {op['look']['opts'].get('attr_prefix', '') + w.n(n) for n in gets}
                same = all(shown.get(n) == wanted[t].get(n) for n in set(shown).union(wanted[t]).difference(gets))
            env.check(same, 'shown', 'object %d of class %d shows %s with %s instead of %s' % (
                i, ci, brief(texts(shown)), json.dumps(op['look']), brief(texts(wanted[t]))))
            env.probe({'str': 'text', 'repr': 'text', 'form': 'serialised', 'class-form': 'class-form', 'content': 'content'}[view])
            for k, p in (('excludes', 'excluded'), ('only', 'selected')):
                if op['look'].get('opts', {}).get(k):
                    env.probe(p)
            if op['look'].get('opts'):
                env.probe('options')
            if isinstance(shown, str) and shown.startswith('raises '):
                env.probe('look-raises')
            else:
                env.probe('same')
            if form is not None:
                if not anys:
                    kept.append((form, json.dumps(plain(form)), i))
            env.nontrivial |= others
            others = True
            continue
        before = copy.deepcopy(w.sources)
        r = w.apply(i, ci, op)
        env.log(do, i, r)
        env.sign(do, i, r)
        env.check('changed' not in r, 'form-changed', 'building an object changes the form it is given')
        if r != 'done':
            env.fault('rejected')
            env.probe('rejected')
        elif do in ('from', 'del', 'extra'):
            env.probe({'from': 'from-form', 'del': 'deleted', 'extra': 'extra'}[do])
        elif do == 'make':
            s = op['source'] % len(plan['sources'])
            if s in made:
                env.probe('shared-source')
            made.add(s)
        for s in before:
            env.check(w.sources[s] == before[s], 'source-changed', 'the values an object was made from are changed by %s' % do)
        others = True
        for form, text, j in kept:
            env.check(json.dumps(plain(form)) == text, 'form-changed', 'the serialised form of object %d given before changes with %s of object %d' % (j, do, i))
            env.probe('kept-form')


def lineage(plan, i):
    while i is not None:
        yield i
        i = plan['classes'][i]['extends']


def brief(v):
    t = v if isinstance(v, str) else json.dumps(v, sort_keys=True)
    return t if len(t) < 200 else t[:200] + '...'
