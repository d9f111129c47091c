"""Objects with computed properties, and a small model of what they show (used by C09, C10, C19)."""
import copy
import math

import core


class Fail(Exception):
    """the model says that reading raises"""


class Gone(Fail):
    """it uses a property that was deleted"""


ERRORS = {'ValueError': ValueError, 'AttributeError': AttributeError, 'OSError': OSError,
          'ZeroDivisionError': ZeroDivisionError, 'RuntimeError': RuntimeError, 'MemoryError': MemoryError}
ERRORS_ALL = dict(ERRORS, KeyboardInterrupt=KeyboardInterrupt)
ARMED = {}      # getter or setter -> [error, times left (0: always), hits]


def armed(name):
    a = ARMED.get(name)
    if a is not None and a[1] != -1:
        a[2] += 1
        if a[1] == 1:
            a[1] = -1
        raise ERRORS_ALL[a[0]]('simulated: %s fails' % name)


# ---------------------------------------------------------------- generation

def refs_of(props, types):
    """the values that can be used by a property placed after these"""
    out = []
    for p in props:
        n, k = p['name'], p['kind']
        if k == 'int' or p.get('type') == 'int':
            out.append(('int', [n]))
        elif k == 'str' or p.get('type') == 'str':
            out.append(('str', [n]))
        elif k == 'list':
            out.append(('int', [n, 0]))
            out.append(('list', [n]))
        elif k == 'obj':
            out += [('int', [n, 'x']), ('str', [n, 'y']), ('int', [n, 'z'])]
        elif k == 'objs':
            out += [('int', [n, 0, 'x']), ('str', [n, 0, 'y']), ('int', [n, 0, 'z']), ('objs', [n])]
    return [r for t, r in out if t in types]


ARITY = {'sum': 1, 'len': 1, 'div': 1, 'cond': 3, 'each': 1, 'at': 1}
FORMS = {'upper': ['int', 'str'], 'method': ['str'], 'plus': ['int'], 'cat': ['int', 'str'], 'set': ['int', 'str'], 'if': ['int'], 'cond': ['int'],
         'tag': ['int'], 'for': ['list'], 'each': ['objs'], 'len': ['list', 'objs']}
# how many other values a form uses
OTHERS = {'cat': 1, 'if': 2, 'cond': 2}


def gen_form(rng, part, props, pick):
    """a part of a template that is not the mere text of a value"""
    form = rng.choice(sorted(FORMS))
    pool = refs_of(props, FORMS[form])
    if not pool:
        form, pool = 'plus', refs_of(props, ['int'])
    part.update(form=form, ref=pick(pool), dots=False)
    if form in OTHERS:
        part['others'] = [pick(refs_of(props, ['int', 'str'])) for i in range(OTHERS[form])]


def form_sensible(part, props):
    form = part.get('form')
    if form is None:
        return part['ref'] in refs_of(props, ['int', 'str'])
    return form in FORMS and part['ref'] in refs_of(props, FORMS[form]) and len(part.get('others', [])) == OTHERS.get(form, 0) and \
        all(r in refs_of(props, ['int', 'str']) for r in part.get('others', []))


def gen_spec(rng, lazy=None, setters=False, guarded=False):
    props = []
    n = rng.randint(3, 7)
    for i in range(n):
        k = rng.choice(['int', 'int', 'int', 'str', 'list', 'obj', 'objs'])
        props.append({'name': '%s%d' % ({'int': rng.choice(['a', 'a', 'A', 'a_']), 'str': 's', 'list': 'f', 'obj': 'g', 'objs': 'h'}[k], i), 'kind': k})
    if not refs_of(props, ['int']):
        props.append({'name': 'a%d' % n, 'kind': 'int'})
    for i in range(rng.randint(1, 6)):
        k = rng.choice(['tmpl', 'tmpl', 'expr', 'expr', 'get', 'get'])
        p = {'name': 'c%d' % i, 'kind': k}
        scalars, ints = refs_of(props, ['int', 'str']), refs_of(props, ['int'])
        # computed properties use other computed ones often
        comp = [r for r in scalars if r[0].startswith('c')]
        pick = lambda pool: rng.choice([r for r in pool if r[0].startswith('c')] or pool) if comp and rng.random() < .4 else rng.choice(pool)
        if k == 'tmpl':
            p['type'] = 'str'
            p['parts'] = [rng.choice(['<', '-', 'u'])]
            if rng.random() < .1:
                # made of tags only
                p['parts'] += [{'ref': pick(ints), 'form': 'tag', 'this': rng.random() < .2}, rng.choice(['', '/', ' '])]
                props.append(p)
                continue
            for j in range(rng.randint(1, 3)):
                part = {'ref': pick(scalars), 'dots': rng.random() < .5, 'this': rng.random() < .2}
                if rng.random() < .35:
                    gen_form(rng, part, props, pick)
                p['parts'] += [part, rng.choice(['', '/', '.', 'x', ' '])]
            if not p['parts'][1].get('form') and rng.random() < .2:
                p['parts'][0] = ' '
        elif k == 'expr':
            p['op'] = rng.choice(['add', 'add', 'mul', 'div', 'cat', 'cond', 'sum', 'len', 'each', 'at'])
            p['type'] = 'str' if p['op'] == 'cat' else 'int'
            if p['op'] == 'sum':
                pool = refs_of(props, ['list'])
            elif p['op'] == 'len':
                pool = refs_of(props, ['list', 'objs'])
            elif p['op'] in ('each', 'at'):
                pool = refs_of(props, ['objs'])
            else:
                pool = scalars if p['op'] == 'cat' else ints
            if not pool:
                p['op'], pool = 'add', ints
            p['refs'] = [pick(pool) for j in range(ARITY.get(p['op'], rng.randint(1, 3)))]
            p['this'] = rng.random() < .2
            if p['type'] == 'int' and rng.random() < .3:
                p['max'] = rng.choice([30, 100, 150])
        else:
            p['fn'] = rng.choice(['add', 'add', 'join', 'join', 'total'])
            pool = refs_of(props, ['objs'])
            if p['fn'] == 'total' and not pool:
                p['fn'] = 'add'
            p['type'] = 'str' if p['fn'] == 'join' else 'int'
            if p['fn'] == 'total':
                p['refs'] = [rng.choice(pool)]
                props.append(p)
                continue
            p['refs'] = [pick(ints if p['fn'] == 'add' else scalars) for j in range(rng.randint(1, 3))]
            if p['type'] == 'int' and rng.random() < .2:
                p['max'] = rng.choice([100, 150])
            if rng.random() < .3:
                # redefined by the subclass, if there is one: the parent class computes it from others, or does not
                p['was'] = [rng.choice(ints if p['fn'] == 'add' else scalars) for j in range(rng.randint(0, 2))]
        props.append(p)
    if rng.random() < .4:
        props.append({'name': 'sl', 'kind': 'str'})     # can be given a template using computed properties
    base = [p['name'] for p in props if p['kind'] == 'int']
    spec = {'lazy': rng.random() < .5 if lazy is None else lazy, 'props': props, 'order': rng.sample(range(len(props)), len(props)),
            'split': rng.choice([0, 0, rng.randint(1, len(props))]), 'aliases': {}, 'negated': {}, 'additional': rng.random() < .5}
    strs = [p['name'] for p in props if p['kind'] == 'str']
    if len(strs) > 1 and rng.random() < .6:
        # they are said to depend on another property, whatever they are
        spec['depends'] = {x: [rng.choice(base)] for x in strs if base and rng.random() < .8}
    if any('was' in p for p in props) and rng.random() < .5:
        spec['split'] = rng.randint(max(i for i, p in enumerate(props) if 'was' in p) + 1, len(props))
    if base and rng.random() < .4:
        spec['aliases']['al'] = rng.choice(base)
    if base and rng.random() < .4:
        spec['negated']['ne'] = rng.choice(base)
    if setters:
        spec['setters'] = [p['name'] for p in props if p['kind'] in ('int', 'str', 'list', 'obj') and rng.random() < .3]
        spec['deleters'] = [p['name'] for p in props if p['kind'] in ('int', 'str', 'list', 'obj') and rng.random() < .3]
        spec['low_setters'] = rng.random() < .6     # the subclass defines those of the properties of its parent
    if guarded:
        names = [p['name'] for p in props if p['kind'] in ('int', 'str', 'list', 'obj')]
        spec['required'] = [x for x in names if rng.random() < .3]
        spec['readonly'] = [x for x in names if rng.random() < .2]
        spec['above'] = rng.random() < .6       # the parent class declares what concerns its properties
        spec['unset'] = rng.random() < .4       # a read-only property that never has a value
    return spec


def sensible(spec):
    props = spec['props']
    if sorted(spec['order']) != list(range(len(props))) or not 0 <= spec['split'] <= len(props):
        return False
    names = [p['name'] for p in props]
    if len(set(names)) < len(names):
        return False
    for i, p in enumerate(props):
        scalars = refs_of(props[:i], ['int', 'str'])
        ints = refs_of(props[:i], ['int'])
        if p['kind'] == 'tmpl':
            if not p['parts'] or any(isinstance(x, dict) and not form_sensible(x, props[:i]) for x in p['parts']) or not any(isinstance(x, dict) for x in p['parts']):
                return False
        elif p['kind'] == 'expr':
            if p['op'] == 'sum':
                pool, c = refs_of(props[:i], ['list']), 1
            elif p['op'] == 'len':
                pool, c = refs_of(props[:i], ['list', 'objs']), 1
            elif p['op'] in ('each', 'at'):
                pool, c = refs_of(props[:i], ['objs']), 1
            else:
                pool, c = scalars if p['op'] == 'cat' else ints, ARITY.get(p['op'])
            if not p['refs'] or any(r not in pool for r in p['refs']) or (c and len(p['refs']) != c):
                return False
        elif p['kind'] == 'get':
            pool = {'add': ints, 'join': scalars, 'total': refs_of(props[:i], ['objs'])}[p['fn']]
            if not p['refs'] or any(r not in pool for r in p['refs'] + p.get('was', [])):
                return False
    ints = [p['name'] for p in props if p['kind'] == 'int']
    if any(k not in names or any(v not in ints for v in vs) or k in ints for k, vs in spec.get('depends', {}).items()):
        return False
    return all(v in ints for v in list(spec['aliases'].values()) + list(spec['negated'].values())) and \
        set(spec.get('required', [])) | set(spec.get('readonly', [])) | set(spec.get('setters', [])) | set(spec.get('deleters', [])) <= {p['name'] for p in props if p['kind'] in ('int', 'str', 'list', 'obj')}


def gen_value(rng, kind):
    if kind == 'int':
        return rng.choice([rng.randint(0, 20), rng.randint(0, 100), 5])
    if kind == 'str':
        return rng.choice(['', 'x', 'hello', 'a b', '12', 'é'])
    if kind == 'list':
        return [rng.randint(0, 100) for i in range(rng.randint(1, 4))]
    if kind == 'obj':
        return {'x': rng.randint(0, 100)}
    return [{'x': rng.randint(0, 100)} for i in range(rng.randint(1, 3))]


def gen_values(rng, spec):
    return {p['name']: gen_value(rng, p['kind']) for p in spec['props'] if p['kind'] in ('int', 'str', 'list', 'obj', 'objs')}


# ---------------------------------------------------------------- the class

def dotted(ref, dots=False, this=False):
    out = ref[0]
    for x in ref[1:]:
        out += ('.%d' if dots else '[%d]') % x if isinstance(x, int) else '.' + x
    return 'this.' + out if this else out


def template(parts):
    return ''.join(p if isinstance(p, str) else piece(p) for p in parts)


def piece(p):
    r = dotted(p['ref'], p.get('dots'), p.get('this'))
    o = [dotted(x, False, p.get('this')) for x in p.get('others', [])]
    return {None: lambda: '{{%s}}' % r, 'upper': lambda: '{{ %s|upper }}' % r, 'method': lambda: '{{ %s.upper() }}' % r, 'plus': lambda: '{{ %s + 1 }}' % r,
            'cat': lambda: '{{ %s ~ "-" ~ %s }}' % (r, o[0]), 'set': lambda: '{%% set w = %s %%}{{ w }}' % r,
            'if': lambda: '{%% if %s > 10 %%}%s{%% else %%}{{ %s }}{%% endif %%}' % (r, 'A{{%s}}' % o[0], o[1]),
            'tag': lambda: '{%% if %s > 10 %%}B{%% else %%}D{%% endif %%}' % r,
            'cond': lambda: '{{ %s if %s > 10 else %s }}' % (o[0], r, o[1]), 'for': lambda: '{%% for q in %s %%}{{ q }},{%% endfor %%}' % r,
            'each': lambda: '{%% for q in %s %%}{{ q.x }}{{ q.y }},{%% endfor %%}' % r, 'len': lambda: '{{ %s|length }}' % r}[p.get('form')]()


def expression(p):
    r = [dotted(x, False, p.get('this')) for x in p['refs']]
    return '`' + {'add': lambda: '+'.join(r) + '+1', 'mul': lambda: '*'.join(r), 'div': lambda: '100//(%s-5)' % r[0],
                  'cat': lambda: '+"-"+'.join('str(%s)' % x for x in r), 'cond': lambda: '%s if %s > 10 else %s' % (r[0], r[1], r[2]),
                  'sum': lambda: 'sum(%s)' % r[0], 'len': lambda: 'len(%s)' % r[0],
                  'each': lambda: 'sum(q.x + q.z for q in %s)' % r[0], 'at': lambda: '%s[-1].x' % r[0]}[p['op']]()


INNER = {'type': 'object', 'properties': {'x': {'type': 'integer', 'minimum': 0, 'maximum': 100}, 'y': {'type': 'string', 'default': '{{x}}!'},
                                          'z': {'type': 'integer', 'default': '`x*2'}}}


def prop_schema(p):
    k = p['kind']
    if k == 'int':
        return {'type': 'integer', 'minimum': 0, 'maximum': 100}
    if k == 'str':
        return {'type': 'string', 'maxLength': 40}
    if k == 'list':
        return {'type': 'array', 'items': {'type': 'integer', 'minimum': 0, 'maximum': 100}}
    if k == 'obj':
        return copy.deepcopy(INNER)
    if k == 'objs':
        return {'type': 'array', 'items': copy.deepcopy(INNER)}
    out = {'type': {'int': 'integer', 'str': 'string'}[p['type']]}
    if 'max' in p:
        out['maximum'] = p['max']
    if k == 'tmpl':
        out['default'] = template(p['parts'])
    elif k == 'expr':
        out['default'] = expression(p)
    return out


def follow(o, ref):
    for x in ref:
        o = getattr(o, x) if isinstance(x, str) else o[x]
    return o


def getter(p):
    def get(self):
        armed(p['name'])
        vals = [follow(self, r) for r in p['refs']]
        if p['fn'] == 'total':
            return sum(q.x + q.z for q in vals[0])
        return sum(int(v) for v in vals) if p['fn'] == 'add' else '|'.join(str(v) for v in vals)
    get.__name__ = 'get_' + p['name']
    return get


def setter(p):
    def set_(self, value):
        armed('set_' + p['name'])
        self.__dict__.setdefault('_seen', []).append([p['name'], show(value)])
    set_.__name__ = 'set_' + p['name']
    return set_


def deleter(p):
    def del_(self):
        armed('del_' + p['name'])
        self.__dict__.setdefault('_gone', []).append(p['name'])
    del_.__name__ = 'del_' + p['name']
    return del_


def build(spec, serial):
    """the class described by a specification"""
    from future.utils import with_metaclass
    from ngoschema.protocols import SchemaMetaclass
    from ngoschema.decorators import depend_on_prop
    props = spec['props']

    def attrs(which, extra, parent=False):
        schema = {'type': 'object', 'properties': {props[i]['name']: prop_schema(props[i]) for i in spec['order'] if i in which}}
        schema.update(extra)
        if 'zr' in extra.get('readOnly', []):
            schema['properties']['zr'] = {'type': 'integer'}
        out = {'_schema': schema, '_lazyLoading': spec['lazy']}
        for i in [i for i in range(len(props)) if i in which or not parent]:
            p = props[i]
            own = i in which
            if p['kind'] == 'get':
                refs = p['refs']
                if 'was' in p and i < spec['split']:
                    refs = p['was'] if parent else refs
                elif not own:
                    refs = []
                if refs:
                    out['get_' + p['name']] = depend_on_prop(*sorted({dotted(r) for r in refs}))(getter(dict(p, refs=refs)))
            if p['name'] in spec.get('setters', []):
                if own if not spec.get('low_setters') else not parent:
                    out['set_' + p['name']] = setter(p)
            if p['name'] in spec.get('deleters', []):
                if own if not spec.get('low_setters') else not parent:
                    out['del_' + p['name']] = deleter(p)
        return out
    names = lambda which: {props[i]['name'] for i in which}
    extra = {}
    for k in ('aliases',):
        if spec[k]:
            extra['aliases'] = dict(spec[k])
    if spec['negated']:
        extra['negatedAliases'] = dict(spec['negated'])
    if spec.get('depends'):
        extra['dependencies'] = {k: list(v) for k, v in spec['depends'].items()}
    if not spec['additional']:
        extra['additionalProperties'] = False
    for k, s in (('required', 'required'), ('readonly', 'readOnly')):
        if spec.get(k):
            extra[s] = list(spec[k])
    low = list(range(spec['split']))
    base = (with_metaclass(SchemaMetaclass),)
    more = {}
    if low and spec.get('above'):
        mine = names(low)
        for s in ('required', 'readOnly', 'aliases', 'negatedAliases'):
            v = extra.get(s)
            if isinstance(v, dict):
                more[s] = {a: n for a, n in v.items() if n in mine}
                extra[s] = {a: n for a, n in v.items() if n not in mine}
            elif v:
                more[s] = [n for n in v if n in mine]
                extra[s] = [n for n in v if n not in mine]
    if spec.get('unset'):
        d = more if low and spec.get('above') else extra
        d['readOnly'] = d.get('readOnly', []) + ['zr']
    if low:
        parent = SchemaMetaclass('Par%d' % serial, (), dict(attrs(low, more, True), _id='https://sim.test/obj%d#/$defs/Par' % serial))
        a = attrs(range(spec['split'], len(props)), extra)
        return SchemaMetaclass('Chi%d' % serial, (parent,), dict(a, _id='https://sim.test/obj%d#/$defs/Chi' % serial))
    return SchemaMetaclass('One%d' % serial, (), dict(attrs(range(len(props)), extra), _id='https://sim.test/obj%d#/$defs/One' % serial))


def forget(serial):
    from ngoschema.managers.type_builder import type_builder
    from ngoschema.managers.namespace_manager import NamespaceManager
    base = 'https://sim.test/obj%d#' % serial
    reg = getattr(type_builder, '_registry', {})
    for k in [k for k in reg if str(k).startswith(base)]:
        del reg[k]
    ns = getattr(NamespaceManager, '_builder_ns', {})
    for k in [k for k, u in ns.items() if str(u).startswith(base[:-1])]:
        del ns[k]


# ---------------------------------------------------------------- the model

class Model(object):
    """what an object shows: stored values (converted), or templates, or ('bad', raw) when a lazy object was given an invalid value"""

    def __init__(self, spec, values):
        self.spec = spec
        self.props = {p['name']: p for p in spec['props']}
        self.state = copy.deepcopy(values)
        self.unsure = set()

    def read(self, ref):
        name = ref[0]
        p = self.props[name]
        k = p['kind']
        if k in ('tmpl', 'expr', 'get'):
            return self.compute(p)
        v = self.state[name]
        if isinstance(v, dict) and 'bad' in v:
            raise Fail(name)
        if isinstance(v, dict) and 'gone' in v:
            raise Gone(name)
        if isinstance(v, dict) and 'tmpl' in v:
            v = self.text(v['tmpl'])
            if len(v) > 40:
                raise Fail(name)
            return v
        if k == 'list':
            return v[ref[1]] if ref[1:] else list(v)
        if k == 'objs' and ref[1:]:
            return self.inner(v[ref[1]], ref[2:])
        if k == 'objs':
            return [self.inner(x, []) for x in v]
        if k == 'obj':
            return self.inner(v, ref[1:])
        return v

    def inner(self, v, ref):
        full = {'x': v['x'], 'y': '%d!' % v['x'], 'z': v['x'] * 2}
        return full[ref[0]] if ref else full

    def text(self, parts):
        return ''.join(p if isinstance(p, str) else self.piece(p) for p in parts)

    def piece(self, p):
        v = self.read(p['ref'])
        form = p.get('form')
        if form in ('if', 'cond'):
            self.maybe(p['others'][1 if v > 10 else 0])
            w = self.read(p['others'][0 if v > 10 else 1])
            return ('A' if form == 'if' and v > 10 else '') + str(w)
        o = [self.read(x) for x in p.get('others', [])]
        return {None: lambda: str(v), 'upper': lambda: str(v).upper(), 'method': lambda: v.upper(), 'plus': lambda: str(v + 1),
                'cat': lambda: '%s-%s' % (v, o[0]), 'set': lambda: str(v), 'tag': lambda: 'B' if v > 10 else 'D', 'for': lambda: ''.join('%s,' % q for q in v),
                'each': lambda: ''.join('%s%s,' % (q['x'], q['y']) for q in v), 'len': lambda: str(len(v))}[form]()

    def maybe(self, ref):
        """a value which may be read or not"""
        try:
            self.read(ref)
        except Fail:
            self.unsure.add(ref[0])

    def compute(self, p):
        if p['kind'] == 'tmpl':
            return self.text(p['parts'])
        if p.get('op') == 'cond':
            # the branch which is not taken may also be read
            b = self.read(p['refs'][1])
            v = self.read(p['refs'][0 if b > 10 else 2])
            self.maybe(p['refs'][2 if b > 10 else 0])
            vals = [v, 11, v]
        else:
            vals = [self.read(r) for r in p['refs']]
        if p['kind'] == 'get':
            v = sum(vals) if p['fn'] == 'add' else '|'.join(str(v) for v in vals) if p['fn'] == 'join' else sum(q['x'] + q['z'] for q in vals[0])
        else:
            op = p['op']
            if op == 'div' and vals[0] == 5:
                raise Fail(p['name'])
            v = {'add': lambda: sum(vals) + 1, 'mul': lambda: math.prod(vals), 'div': lambda: 100 // (vals[0] - 5),
                 'cat': lambda: '-'.join(str(v) for v in vals), 'cond': lambda: vals[0] if vals[1] > 10 else vals[2],
                 'sum': lambda: sum(vals[0]), 'len': lambda: len(vals[0]), 'each': lambda: sum(q['x'] + q['z'] for q in vals[0]), 'at': lambda: vals[0][-1]['x']}[op]()
        if 'max' in p and v > p['max']:
            raise Fail(p['name'])
        return v

    def deps(self, name, seen=None):
        """names of the properties a property uses, through the others"""
        seen = set() if seen is None else seen
        if name in seen:
            return seen
        seen.add(name)
        p = self.props[name]
        refs = p.get('refs') or [r for x in p.get('parts', []) if isinstance(x, dict) for r in [x['ref']] + x.get('others', [])]
        v = self.state.get(name)
        if isinstance(v, dict) and 'tmpl' in v:
            refs = [x['ref'] for x in v['tmpl'] if isinstance(x, dict)]
        for r in refs:
            self.deps(r[0], seen)
        return seen


def show(v):
    """a value read from an object, as plain data"""
    if hasattr(v, '_items') and not hasattr(v, 'keys') or isinstance(v, (list, tuple)):
        return [show(x) for x in v]
    if hasattr(v, 'keys'):
        return {str(k): show(v[k]) for k in v.keys()}
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, int):
        return int(v)
    if isinstance(v, str):
        return str(v)
    try:
        return [show(x) for x in v]
    except TypeError:
        return repr(v)
