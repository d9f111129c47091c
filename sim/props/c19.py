"""C19: threads working on their own objects do not disturb each other."""
import copy
import json

import core
import objects
import threadsim
from props import c09

ID = 'C19'
LEVEL = 'exploration'
QUICK = (660, 15)
THOROUGH = (60000, 60)
RULE = ('an execution is the classes, the histories of the threads and the interleaving reached (where control passed from which '
        'thread to which); only those with a switch inside the library count')
REAL = ['ngoschema object, array and type protocols, types, templates and expressions, serialisers, type builder', 'jinja2', 'jsonschema', 'interpreter threads']
STUBS = ['locks (simulated, so that the scheduler decides who gets them)', 'getters failing when the plan says']
ASSUMPTIONS = ['threads are switched between source lines of the library and at lock operations, not inside a line or inside other libraries',
               'what a history gives when it runs alone is the reference', 'an object is only used by one thread', 'PyPy 3.9 interpreter']
PROBES = ['switched', 'threads:2', 'threads:3', 'threads:4', 'two-classes', 'lazy', 'eager', 'inherited', 'others', 'create', 'read', 'set', 'bad', 'template-assigned', 'array', 'inner', 'objs', 'extra',
          'pattern-property', 'dump', 'text', 'copy', 'validate', 'items', 'delete', 'update', 'getter-failed', 'raises', 'other-object', 'json', 'parent-class', 'name', 'cold', 'grow', 'convert']

serial = [0]
CONVERT = {'str': ['{{a}}-{{b}}', '{% if a > 20 %}{{a}}{% else %}{{b}}{% endif %}', '`str(a)+"/"+str(b)', '{{a}}'], 'int': ['{{a+b}}', '`a*b', '{{b}}', '`c'],
           'list': [['{{a}}', 1, '`b'], ['`a', '{{a}}', '7'], ['{{a}}{{b}}']]}
# other kinds of properties, with values that are accepted and some that are not
EXTRA = {
    'num': ({'type': 'number', 'minimum': 0, 'maximum': 1000}, [1, 2.5, '3.25', 999, '7'], [-1, 'x', 5000]),
    'date': ({'type': 'date'}, ['2020-01-02', '1999-12-31'], ['nope', '2020-13-45']),
    'moment': ({'type': 'datetime'}, ['2020-01-02T03:04:05+00:00', '1999-12-31T23:59:59+00:00'], ['nope']),
    'uri': ({'type': 'uri'}, ['https://sim.test/a/b?x=1#y', 'file:///a/b'], []),
    'path': ({'type': 'path'}, ['/a/b/c.txt', 'x/y'], []),
    'enum': ({'type': 'string', 'enum': ['red', 'green', 'blue']}, ['red', 'green', 'blue'], ['pink', 12345]),
    'flag': ({'type': 'boolean'}, [True, False, 'true', 'False'], ['maybe']),
    'pat': ({'type': 'string', 'pattern': '^[a-c]+$'}, ['abc', 'a', 'cc'], ['xyz', 'A']),
    'pair': ({'type': 'array', 'items': [{'type': 'integer'}, {'type': 'string'}]}, [[1, 'a'], ['2', 'b']], [['x', 'a']]),
    'ref': ({'$ref': '#/$defs/Inner'}, [{'u': 1}, {'u': 2, 'v': 'q'}, {'u': '7'}], [{'u': 'x'}, {'u': -3}]),
    'refs': ({'type': 'array', 'items': {'$ref': '#/$defs/Inner'}}, [[{'u': 1}, {'u': 3}], [{'u': 5, 'v': 'z'}]], [[{'u': -1}]]),
    'next': ({'$ref': 'SELF'}, [{'p_a': 1}, {'p_a': 2, 'next': {'p_b': 3}}], [{'p_a': 9}, {'next': {'p_b': 'x'}}]),
    'kids': ({'type': 'array', 'items': {'$ref': 'SELF'}}, [[{'p_a': 1}], [{'p_a': 2, 'next': {'p_b': 3}}, {}]], [[{'p_a': 9}]]),
    'dlist': ({'type': 'array', 'items': {'type': 'integer'}, 'default': [1, 2]}, [[3], [4, 5, 6]], [['x']]),
    'dany': ({'default': {'k': [1, 2], 'w': 'v'}}, [{'k': [3]}, 'text', 5], []),
    'dfree': ({'type': 'array', 'default': [[1], [2]]}, [[[3]], [[4], 5]], []),
    'dobj': ({'type': 'object', 'properties': {'q': {'type': 'array', 'items': {'type': 'integer'}, 'default': [7]}, 'r': {'type': 'integer', 'default': 3}}, 'default': {'r': 9}}, [{'q': [1]}, {'r': 4}], [{'r': 'x'}]),
    'text': ({'type': 'string', 'default': '{{num}}-TOKEN'}, ['abc'], []),
    'size': ({'type': 'string', 'default': '{{len(enum)}}:{{enumerate(enum)|list|length}}:TOKEN'}, ['abc'], []),
    'calc': ({'type': 'number', 'default': '`num*2+TOKNUM'}, [4], ['x']),
}
USES = {'text': 'num', 'calc': 'num', 'size': 'enum'}
DEFAULTS = ('dlist', 'dany', 'dfree', 'dobj')
INNER = {'type': 'object', 'properties': {'u': {'type': 'integer', 'minimum': 0}, 'v': {'type': 'string', 'default': '{{u}}.TOKEN'}}, 'required': ['u']}


def token(n):
    return 'T%05d' % (n % 100000)


def prepare():
    import random
    rng = random.Random(5)
    for i in range(6):
        plan = gen(rng)
        # the lines reached when the library has already been used
        plan.update(cold=False, alone_first=True, switches=[threadsim.LEARN])
        try:
            run(plan, core.Env())
        except (core.Violation, core.Skip):
            pass


NAMES = ['al', 'ne', 'p_one', 'new', 'the-name', 'the_name']


def gen_op(rng, spec, c, held, favourite):
    comp = [p for p in spec['props'] if p['kind'] in ('tmpl', 'expr', 'get')]
    base = [p for p in spec['props'] if p['kind'] not in ('tmpl', 'expr', 'get')]
    gets = [p['name'] for p in comp if p['kind'] == 'get']
    op = {'obj': rng.randint(0, held - 1), 'style': rng.choice(['attr', 'attr', 'item', 'get'])}
    r = rng.random()
    if r < .28:
        p = rng.choice(comp if rng.random() < .7 else base)
        op.update(do='read', name=p['name'])
        if gets and rng.random() < .15:
            op['fail'] = [rng.choice(gets)]
            op['error'] = rng.choice(sorted(objects.ERRORS))
    elif r < .58:
        p = rng.choice(base)
        op.update(do='set', name=p['name'], value=objects.gen_value(rng, p['kind']))
        if p['kind'] == 'int':
            if rng.random() < .2:
                op['value'] = rng.choice([500, -3, 'abc'])
                op['bad'] = True
            elif rng.random() < .3:
                op['value'] = str(op['value'])
        elif p['kind'] == 'str' and rng.random() < .3:
            pool = objects.refs_of(spec['props'][:spec['props'].index(p)], ['int', 'str'])
            if pool:
                op['tmpl'] = ['=', {'ref': rng.choice(pool), 'dots': rng.random() < .5}]
        elif p['kind'] == 'list' and rng.random() < .7:
            op.update(do='array', how=rng.choice(['set', 'append', 'insert', 'pop', 'del', 'reverse', 'extend']), i=rng.randint(0, 3), value=rng.choice([rng.randint(0, 100), rng.randint(0, 100), 'x', 400]))
        elif p['kind'] == 'obj' and rng.random() < .7:
            op.update(do='inner', value=rng.choice([rng.randint(0, 100), rng.randint(0, 100), 300]))
        elif p['kind'] == 'objs' and rng.random() < .7:
            op.update(do='objs', how=rng.choice(['x', 'x', 'set', 'append', 'insert', 'pop']), i=rng.choice([0, 0, 1, 2]), value=rng.randint(0, 100))
    elif r < .67:
        k = rng.choice(spec['extra']) if spec['extra'] else None
        if k is None:
            op.update(do='items')
        else:
            how = rng.choice(['set', 'set', 'read', 'read', 'bad', 'grow', 'grow'])
            pool = EXTRA[k][2 if how == 'bad' else 1]
            if not pool:
                how, pool = 'set', EXTRA[k][1]
            op.update(do='extra', name=k, how=how, at=rng.randint(0, len(pool) - 1))
    elif r < .74:
        op.update(do=rng.choice(['dump', 'dump-all', 'dump-all', 'json']))
    elif r < .77:
        op.update(do=rng.choice(['text', 'items', 'validate']))
    elif r < .785:
        op.update(do='copy')
    elif r < .81:
        op.update(gen_convert(rng, rng.choice(['str', 'int', 'list'])))
    elif r < .83:
        op.update(do='create', cls=c, values=gen_values(rng, spec), extra=gen_extra(rng, spec))
    elif r < .94:
        op.update(do='name', name=favourite if rng.random() < .7 else rng.choice(NAMES), how=rng.choice(['set', 'read']), value=rng.randint(0, 9)) if rng.random() < .6 else \
            op.update(do='pattern', name=rng.choice(['p_one', 'p_two']), value=rng.randint(0, 9))
    elif r < .96:
        p = rng.choice(base)
        op.update(do='update', values={p['name']: objects.gen_value(rng, p['kind'])})
    else:
        op.update(do='delete', name=rng.choice(base)['name'])
    return op


def reduced(rng, spec):
    """the part of a specification which one computed property needs"""
    by = {p['name']: p for p in spec['props']}
    keep, todo = set(), [rng.choice([p['name'] for p in spec['props'] if p['kind'] in ('tmpl', 'expr', 'get')])]
    while todo:
        n = todo.pop()
        if n in keep:
            continue
        keep.add(n)
        p = by[n]
        todo += [r[0] for r in p.get('refs', []) + [r for x in p.get('parts', []) if isinstance(x, dict) for r in [x['ref']] + x.get('others', [])]]
    props = [p for p in spec['props'] if p['name'] in keep]
    return dict(spec, props=props, order=rng.sample(range(len(props)), len(props)), split=rng.choice([0, 0, rng.randint(1, len(props))]),
                aliases={a: n for a, n in spec['aliases'].items() if n in keep}, negated={a: n for a, n in spec['negated'].items() if n in keep})


def gen_values(rng, spec):
    for i in range(30):
        values = objects.gen_values(rng, spec)
        if spec['lazy'] or not c09.fails(spec, values):
            break
    return values


def gen_extra(rng, spec):
    out = {k: rng.randint(0, len(EXTRA[k][1]) - 1) for k in spec['extra'] if rng.random() < (.1 if k in USES else .3 if k in DEFAULTS else .6)}
    for k in spec['extra']:
        if k in USES and k not in out:
            out.setdefault(USES[k], 0)
    return out


def gen(rng):
    specs = []
    cold = rng.random() < .3
    favourite = rng.choice(NAMES)
    small = cold or rng.random() < .6
    for c in range(rng.choice([1, 1, 1, 2])):
        spec = objects.gen_spec(rng)
        if small:
            spec = reduced(rng, spec)
        ints = [p['name'] for p in spec['props'] if p['kind'] == 'int']
        if ints and favourite in ('al', 'ne'):
            spec['aliases' if favourite == 'al' else 'negated'][favourite] = rng.choice(ints)
            spec['split'] = spec['split'] or rng.randint(1, len(spec['props']))
        spec['extra'] = sorted(rng.sample(sorted(EXTRA), rng.choice([1, 2] if small else [0, 2, 4, 6]))) if rng.random() < .6 else []
        if cold and rng.random() < .8:
            spec['extra'] = sorted(set(spec['extra']) | {'size'})
        spec['extra'] = sorted(set(spec['extra']) | {USES[k] for k in spec['extra'] if k in USES})
        specs.append(spec)
    nt = rng.choice([2, 2, 2, 3, 3, 4])
    threads = []
    common = rng.random() < .4
    for t in range(nt):
        c = rng.randint(0, len(specs) - 1)
        if common and t:
            c = threads[0][0]['cls']
            start = [dict(op) for op in threads[0] if op['do'] == 'create'][:1]
        else:
            start = []
        held = rng.choice([1, 1, 2])
        while len(start) < held:
            start.append({'do': 'create', 'cls': c, 'values': gen_values(rng, specs[c]), 'extra': gen_extra(rng, specs[c]), 'obj': len(start), 'style': 'attr'})
        rest = [gen_op(rng, specs[c], c, held, favourite) for i in range(rng.choice([1, 2, 3, 4] if small else [1, 2, 3, 4, 5, 6, 8, 12]))]
        if common and t and rng.random() < .5:
            rest = [dict(op) for op in threads[0][len([x for x in threads[0] if x.get('obj', 9) < held and x['do'] == 'create']):] if op['obj'] < held][:14]
        level = rng.choice([0, 0, 0, 1, 2])
        if cold and 'size' in specs[c]['extra'] and rng.random() < .7:
            del rest[2:]
            rest.insert(0, {'do': 'extra', 'obj': 0, 'style': 'attr', 'name': 'size', 'how': 'read', 'at': 0})
            level = 0
        for op in start + rest:
            if op['do'] == 'create':
                op['level'] = level
                if level:
                    op['extra'] = {}
        threads.append(start + rest)
    if not cold and rng.random() < .07:
        t = rng.choice(['str', 'int', 'list'])
        threads = [[dict(gen_convert(rng, t), obj=0, style='attr') for i in range(rng.randint(2, 6))] for x in range(nt)]
        return {'specs': specs, 'threads': threads, 'first': rng.randint(0, nt - 1), 'inside': False, 'alone_first': False, 'cold': False,
                'switches': threadsim.random_switches(rng, rng.choice([20, 60, 200]), nt)}
    return {'specs': specs, 'threads': threads, 'first': rng.randint(0, nt - 1), 'inside': rng.random() < .15, 'alone_first': rng.random() < .1, 'cold': cold,
            'switches': [[-3000 - rng.randint(1, 14), rng.randint(0, nt - 1)]] if cold and rng.random() < .6 else threadsim.random_switches(rng, rng.choice([200, 1500, 6000] if small else [1500, 6000, 20000]), nt)}


def gen_convert(rng, t):
    # a type used by all the threads, each with values of its own
    return {'do': 'convert', 'type': t, 'text': rng.choice(CONVERT[t]), 'a': rng.randint(0, 40), 'b': rng.randint(0, 40)}


def check_plan(plan):
    isint = lambda v: isinstance(v, int) and not isinstance(v, bool)
    if not plan['specs'] or not plan['threads']:
        raise core.Skip()
    for spec in plan['specs']:
        if not objects.sensible(spec) or not set(spec['extra']) <= set(EXTRA) or not {USES[k] for k in spec['extra'] if k in USES} <= set(spec['extra']):
            raise core.Skip()
    for th in plan['threads']:
        held = {}
        if not th or th[0]['do'] not in ('create', 'convert'):
            raise core.Skip()
        for op in th:
            if op['do'] == 'create':
                if not 0 <= op['cls'] < len(plan['specs']):
                    raise core.Skip()
                held[op['obj']] = plan['specs'][op['cls']]
            if op['do'] == 'convert':
                continue
            if op['obj'] not in held:
                raise core.Skip()
            spec = held[op['obj']]
            kinds = {p['name']: p['kind'] for p in spec['props']}
            if op['do'] == 'create':
                need = {n for n, k in kinds.items() if k not in ('tmpl', 'expr', 'get')}
                if set(op['values']) != need or not set(op['extra']) <= set(spec['extra']) or any(not 0 <= i < len(EXTRA[k][1]) for k, i in op['extra'].items()):
                    raise core.Skip()
                if op.get('level', 0) not in (0, 1, 2):
                    raise core.Skip()
            elif op['do'] == 'update':
                if not set(op['values']) <= set(kinds):
                    raise core.Skip()
            elif op['do'] == 'extra':
                if op['name'] not in spec['extra'] or not 0 <= op['at'] < max(1, len(EXTRA[op['name']][2 if op['how'] == 'bad' else 1])):
                    raise core.Skip()
            elif op['do'] in ('read', 'set', 'array', 'inner', 'objs', 'delete'):
                k = kinds.get(op['name'])
                if k is None or {'array': 'list', 'inner': 'obj', 'objs': 'objs'}.get(op['do'], k) != k or op['do'] in ('set', 'delete') and k in ('tmpl', 'expr', 'get'):
                    raise core.Skip()
                if 'tmpl' in op:
                    pool = objects.refs_of(spec['props'][:[p['name'] for p in spec['props']].index(op['name'])], ['int', 'str'])
                    if k != 'str' or len(op['tmpl']) != 2 or not isinstance(op['tmpl'][1], dict) or op['tmpl'][1]['ref'] not in pool:
                        raise core.Skip()
            if op['do'] in ('array', 'objs') and not isint(op['i']):
                raise core.Skip()


def build(spec, n):
    """a class of its own for this run, so that nothing about it is known yet"""
    from ngoschema.protocols import SchemaMetaclass
    tok = token(n)
    spec = copy.deepcopy(spec)
    for p in spec['props']:
        if p['kind'] == 'tmpl':
            p['parts'] = [tok] + p['parts']
    cls = objects.build(spec, n)

    def put(x):
        if isinstance(x, dict):
            return {k: put(v) for k, v in x.items()}
        if isinstance(x, list):
            return [put(v) for v in x]
        return x.replace('SELF', 'https://sim.test/obj%d/sub#' % n).replace('TOKEN', tok).replace('TOKNUM', '0*%d' % (1 + n)) if isinstance(x, str) else x
    if spec['extra']:
        schema = {'type': 'object', 'properties': dict({k: put(copy.deepcopy(EXTRA[k][0])) for k in spec['extra']}, **{'the-name': {'type': 'integer'}}),
                  'patternProperties': {'^p_': {'type': 'integer', 'maximum': 6}}}
        base = 'https://sim.test/obj%d' % n
        if {'ref', 'refs'} & set(spec['extra']):
            from ngoschema.managers.type_builder import type_builder
            inner = base + '/sub#/$defs/Inner'
            type_builder.build(inner, put(INNER))
            for k in ('ref', 'refs'):
                if k in spec['extra']:
                    s = schema['properties'][k]
                    (s if k == 'ref' else s['items'])['$ref'] = inner
        cls = SchemaMetaclass('Sub%d' % n, (cls,), {'_schema': schema, '_id': base + '/sub#', '_lazyLoading': spec['lazy']})
    levels = [cls]
    while len(levels) < 3:
        up = [b for b in levels[-1].__mro__[1:] if 'sim.test' in str(b.__dict__.get('_id'))]
        levels.append(up[0] if up else levels[-1])
    return levels


def forget(n):
    objects.forget(n)
    from ngoschema.managers.type_builder import type_builder
    from ngoschema.managers.namespace_manager import NamespaceManager
    base = 'https://sim.test/obj%d/' % n
    for reg, by in ((type_builder._registry, lambda k, v: k), (NamespaceManager._builder_ns, lambda k, v: v)):
        for k in [k for k, v in reg.items() if str(by(k, v)).startswith(base)]:
            del reg[k]


def show(v, depth=0):
    """a value as plain data, its type included"""
    if depth > 5:
        return '...'
    if hasattr(v, '_items') and not hasattr(v, 'keys') or isinstance(v, (list, tuple)):
        return [show(x, depth + 1) for x in v]
    if hasattr(v, 'keys'):
        return {str(k): show(v[k], depth + 1) for k in v.keys()}
    if v is None or isinstance(v, (bool, str, int)) and type(v) in (bool, str, int):
        return v
    return '%s %s' % (type(v).__name__, v)


def clean(x, words):
    """without what is particular to the classes of one run"""
    if isinstance(x, dict):
        return {clean(k, words): clean(v, words) for k, v in x.items()}
    if isinstance(x, list):
        return [clean(v, words) for v in x]
    if isinstance(x, str):
        for a, b in words:
            x = x.replace(a, b)
    return x


def types():
    from ngoschema.types import Array, Integer, String
    return {'str': String(maxLength=4), 'int': Integer(minimum=0, maximum=400), 'list': Array(items=Integer(maximum=400))}


class Hand(object):
    """the work of one thread"""

    def __init__(self, plan, t, classes, types):
        self.plan, self.t, self.classes = plan, t, classes
        self.types = types
        self.objs = {}
        self.spec = {}
        self.out = []
        self.marks = []

    def mark(self, what):
        self.marks.append(what)

    def __call__(self):
        for op in self.plan['threads'][self.t]:
            try:
                r = ['value', self.do(op)]
            except Exception as er:
                if isinstance(er, core.Skip):
                    raise
                r = ['raises', type(er).__name__]
                self.mark('raises')
            self.out.append(r)
        for k in sorted(self.objs):
            # what the objects are in the end
            o = self.objs[k]
            last = {}
            for name in [p['name'] for p in self.spec[k]['props']] + self.spec[k]['extra']:
                try:
                    last[name] = show(getattr(o, name))
                except Exception as er:
                    last[name] = ['raises', type(er).__name__]
            self.out.append(['end', last])
        return self.out

    def cls(self, c):
        if self.classes[c] is None:
            # the class is built by the first thread which needs it
            raise core.Skip()
        return self.classes[c]

    def get(self, o, name, style):
        return getattr(o, name) if style == 'attr' else o[name] if style == 'item' else o.get(name)

    def do(self, op):
        do, k, style = op['do'], op['obj'], op['style']
        if do == 'create':
            values = copy.deepcopy(op['values'])
            if op.get('level'):
                self.mark('parent-class')
            for n, i in op['extra'].items():
                values[n] = copy.deepcopy(EXTRA[n][1][i])
            self.objs.pop(k, None)
            self.spec.pop(k, None)
            self.mark('create')
            o = self.cls(op['cls'])[op.get('level', 0)](**values)
            self.objs[k] = o
            self.spec[k] = self.plan['specs'][op['cls']]
            return None
        if do == 'convert':
            self.mark('convert')
            return show(self.types[op['type']](copy.deepcopy(op['text']), a=op['a'], b=op['b']))
        if k not in self.objs:
            return 'no object'
        o = self.objs[k]
        if k:
            self.mark('other-object')
        name = op.get('name')
        if do == 'read':
            armed = op.get('fail', [])
            for f in armed:
                objects.ARMED.setdefault(self.t, {})[f] = op['error']
            try:
                self.mark('read')
                if armed:
                    self.mark('getter-failed')
                return show(self.get(o, name, style))
            finally:
                objects.ARMED.pop(self.t, None)
        if do == 'set':
            raw = objects.template(op['tmpl']) if 'tmpl' in op else copy.deepcopy(op['value'])
            self.mark('template-assigned' if 'tmpl' in op else 'bad' if op.get('bad') else 'set')
            if style == 'attr':
                setattr(o, name, raw)
            else:
                o[name] = raw
            return None
        if do == 'array':
            a = self.get(o, name, style)
            v, how, i = op['value'], op['how'], op['i'] % max(1, len(a))
            self.mark('array')
            if how == 'set':
                a[i] = v
            elif how == 'append':
                a.append(v)
            elif how == 'insert':
                a.insert(i, v)
            elif how == 'extend':
                a.extend([v, i])
            elif how == 'reverse':
                a.reverse()
            elif len(a) > 1:
                if how == 'pop':
                    return show(a.pop())
                del a[i]
            return len(a)
        if do == 'inner':
            self.mark('inner')
            x = self.get(o, name, style)
            x.x = op['value']
            return show(x.y), show(x.z)
        if do == 'objs':
            self.mark('objs')
            a = self.get(o, name, style)
            how, i, v = op['how'], op['i'] % max(1, len(a)), op['value']
            if how == 'x':
                a[i].x = v
            elif how == 'set':
                a[i] = {'x': v}
            elif how == 'append':
                a.append({'x': v})
            elif how == 'insert':
                a.insert(i, {'x': v})
            elif len(a) > 1:
                a.pop()
            return [show(x.y) for x in a]
        if do == 'extra':
            self.mark('extra')
            if op['how'] == 'read':
                return show(self.get(o, name, style))
            if op['how'] == 'grow':
                self.mark('grow')
                v = self.get(o, name, style)
                if name == 'dobj':
                    v.r = op['at'] + 40
                    v.q.append(op['at'] + 50)
                elif name == 'dany':
                    v['k'].append(op['at'] + 60)
                elif name == 'dfree':
                    v[0].append(op['at'] + 70)
                elif name in ('next', 'ref'):
                    v[{'next': 'p_c', 'ref': 'u'}[name]] = op['at']
                elif name in ('dlist', 'refs', 'kids'):
                    v.append(copy.deepcopy(EXTRA[name][1][0][0]))
                return show(v)
            setattr(o, name, copy.deepcopy(EXTRA[name][2 if op['how'] == 'bad' else 1][op['at']]))
            return None
        if do == 'name':
            self.mark('name')
            if op['how'] == 'set':
                if style == 'attr':
                    setattr(o, name, op['value'])
                else:
                    o[name] = op['value']
                return plain(o.do_serialize(no_defaults=False))
            return show(self.get(o, name, style))
        if do == 'pattern':
            if not self.spec[k]['extra']:
                return None
            self.mark('pattern-property')
            o[name] = op['value']
            return show(o[name])
        if do == 'dump':
            self.mark('dump')
            return plain(o.do_serialize())
        if do == 'dump-all':
            self.mark('dump')
            return plain(o.do_serialize(no_defaults=False))
        if do == 'json':
            self.mark('json')
            return json.dumps(plain(o.do_serialize(no_defaults=False)), sort_keys=True)
        if do == 'text':
            self.mark('text')
            return [str(o), repr(o)]
        if do == 'items':
            self.mark('items')
            return [[str(a), show(b)] for a, b in o.items()]
        if do == 'validate':
            self.mark('validate')
            o.do_validate()
            return None
        if do == 'copy':
            self.mark('copy')
            c = o.copy()
            r = {}
            for p in self.spec[k]['props']:
                r[p['name']] = show(c[p['name']])
            return r
        if do == 'update':
            self.mark('update')
            for n, v in sorted(op['values'].items()):
                o.update({n: copy.deepcopy(v)})
            return None
        if do == 'delete':
            self.mark('delete')
            del o[name]
            return None
        raise core.Skip()


def plain(v):
    if hasattr(v, 'keys'):
        return {str(k): plain(v[k]) for k in v.keys()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v if isinstance(v, (str, int, float, bool, type(None))) else str(v)


def run(plan, env):
    check_plan(plan)
    nt = len(plan['threads'])
    made = []
    which = {}

    def fresh():
        out = []
        for spec in plan['specs']:
            serial[0] += 1
            made.append(serial[0])
            out.append(build(spec, serial[0]))
        words = []
        for i, n in enumerate(made[-len(out):]):
            words += [(token(n), 'T%05d' % i), ('obj%d' % n, 'obj'), ('Par%d' % n, 'Par%d' % i), ('Chi%d' % n, 'Chi%d' % i), ('One%d' % n, 'One%d' % i), ('Sub%d' % n, 'Sub%d' % i)]
        return out, words

    import _thread
    real = objects.armed

    def armed(name):
        t = which.get(_thread.get_ident())
        er = objects.ARMED.get(t, {}).get(name)
        if er:
            raise objects.ERRORS[er]('simulated: %s fails' % name)

    def bound(hand):
        def f():
            which[_thread.get_ident()] = hand.t
            try:
                return hand()
            finally:
                which.pop(_thread.get_ident(), None)
        return f
    objects.armed = armed
    objects.ARMED.clear()
    try:
        def alone(t):
            classes, words = fresh()
            h = Hand(plan, t, classes, types())
            bound(h)()
            return [clean(x, words) for x in h.out]
        want = [alone(t) for t in range(nt)] if plan['alone_first'] else None
        classes, words = fresh()
        if plan['cold']:
            core.first_use()
            env.probe('cold')
        shared = types()
        hands = [Hand(plan, t, classes, shared) for t in range(nt)]
        s = threadsim.Scheduler([tuple(x) for x in plan['switches']], 3000000)
        results = s.run([bound(h) for h in hands], plan['first'])
        env.steps += s.step
        env.log('trace', s.trace)
        env.sign(plan['specs'], plan['threads'], s.trace)
        if s.taken:
            env.fault('thread-switch', s.taken)
            env.probe('switched')
            env.nontrivial = True
        env.probe('threads:%d' % nt)
        if len(plan['specs']) > 1:
            env.probe('two-classes')
        for spec in plan['specs']:
            env.probe('lazy' if spec['lazy'] else 'eager')
            if spec['split']:
                env.probe('inherited')
            if spec['extra']:
                env.probe('others')
        if s.abort:
            return env.fail(*s.abort)
        for t, r in enumerate(results):
            if r[0] == 'error':
                raise r[1]
        if want is None:
            want = [alone(t) for t in range(nt)]
        for t, h in enumerate(hands):
            for m in h.marks:
                if m == 'getter-failed':
                    env.fault('getter')
                if m == 'bad':
                    env.fault('invalid-value')
                env.probe(m)
            got = [clean(x, words) for x in h.out]
            env.log(t, got)
            ops = plan['threads'][t]
            for i, (a, b) in enumerate(zip(got, want[t])):
                if a != b:
                    what = ops[i]['do'] + ' ' + str(ops[i].get('name', '')) if i < len(ops) else 'the end'
                    env.fail('result', 'thread %d: operation %d (%s) gives %s, alone it gives %s' % (t, i, what.strip(), cut(a, b), cut(b, a)))
            env.check(len(got) == len(want[t]), 'result', 'thread %d does not do the same number of operations' % t)
    finally:
        objects.armed = real
        objects.ARMED.clear()
        for n in made:
            forget(n)


def cut(a, b):
    """the part of a result which differs from another"""
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        d = [i for i in range(len(a)) if a[i] != b[i]]
        if len(d) == 1:
            return cut(a[d[0]], b[d[0]])
    if isinstance(a, dict) and isinstance(b, dict):
        return str({k: v for k, v in sorted(a.items()) if k not in b or b[k] != v})[:200]
    return str(a)[:200]
