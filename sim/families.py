"""Families of schemas referring to, extending and containing each other (used by C07, C08)."""
import json
import random


def gen(rng, max_classes=6):
    n = rng.randint(2, max_classes)
    docs = rng.randint(1, min(3, n))
    classes = []
    for i in range(n):
        if i < docs:
            classes.append({'doc': i, 'def': None})
        else:
            classes.append({'doc': rng.randint(0, docs - 1), 'def': 'D%d' % i})
    cyc = rng.random() < .6
    for i, c in enumerate(classes):
        c['extends'] = sorted(set(rng.randint(0, n - 1) for k in range(rng.choice([0, 0, 1, 1, 2]))) - {i})
        props = []
        for k in range(rng.randint(1, 5)):
            kind = rng.choice(['int', 'str', 'ref', 'ref', 'refs', 'ints', 'inline', 'template', 'any', 'pattern'])
            if kind == 'template' and not (props and props[0]['kind'] in ('int', 'str', 'ints')):
                kind = 'int'
            p = {'kind': kind, 'name': '%s%d_%d' % (kind[0], i, k)}
            if kind in ('ref', 'refs', 'inline'):
                p['to'] = rng.randint(0, n - 1) if cyc else rng.randint(0, i)
            props.append(p)
        c['props'] = props
        c['required'] = [p['name'] for p in props if p['kind'] in ('int', 'str') and rng.random() < .3]
        c['lazy'] = rng.choice([None, None, True, False])
    # a class cannot extend a class whose definition needs it
    for i, c in enumerate(classes):
        for e in list(c['extends']):
            if i in reach(classes, e) or e in [x for y in c['extends'] if y != e for x in ancestors(classes, y)]:
                c['extends'].remove(e)
    for c in classes:
        if not c['extends']:
            continue
    return {'docs': docs, 'classes': classes}


def edges(classes, i):
    c = classes[i]
    out = set(c['extends']) | {p['to'] for p in c['props'] if 'to' in p}
    if c['def'] is None:
        out |= {j for j, d in enumerate(classes) if d['doc'] == c['doc'] and d['def']}
    return out


def reach(classes, i):
    """the classes the building of a class may need"""
    seen, todo = set(), [i]
    while todo:
        x = todo.pop()
        for j in edges(classes, x):
            if j not in seen:
                seen.add(j)
                todo.append(j)
    return seen | {i}


def ancestors(classes, i):
    out, todo = set(), [i]
    while todo:
        for j in classes[todo.pop()]['extends']:
            if j not in out:
                out.add(j)
                todo.append(j)
    return out


def uri(family, i, base):
    c = family['classes'][i]
    return '%s/doc%d#' % (base, c['doc']) + ('/$defs/%s' % c['def'] if c['def'] else '')


def schema(family, i, base):
    """schema of a class without its definitions"""
    cs = family['classes']
    c = cs[i]

    def ref(j):
        u = uri(family, j, base)
        return {'$ref': u[u.index('#'):] if cs[j]['doc'] == c['doc'] and (i + j) % 2 else u}
    props = {}
    for p in c['props']:
        k = p['kind']
        props[p['name']] = {
            'int': lambda: {'type': 'integer', 'minimum': 0, 'maximum': 100},
            'str': lambda: {'type': 'string', 'enum': ['x', 'y']},
            'ref': lambda: ref(p['to']),
            'refs': lambda: {'type': 'array', 'items': ref(p['to'])},
            'ints': lambda: {'type': 'array', 'items': {'type': 'integer'}},
            'inline': lambda: {'type': 'object', 'properties': {'n': {'type': 'integer'}, 'in': ref(p['to'])}},
            'template': lambda: {'type': 'string', 'default': '<{{%s}}>' % c['props'][0]['name']},
            'pattern': lambda: {'type': 'string', 'pattern': '^a+$'},
            'any': lambda: True,
        }[k]()
    out = {'type': 'object', 'title': 'C%d' % i, 'properties': props}
    if c['extends']:
        out['extends'] = [uri(family, e, base) for e in c['extends']]
    if c['required']:
        out['required'] = list(c['required'])
    if c['lazy'] is not None:
        out['lazyLoading'] = c['lazy']
    return out


def document(family, d, base):
    cs = family['classes']
    root = [i for i, c in enumerate(cs) if c['doc'] == d and c['def'] is None][0]
    out = schema(family, root, base)
    out['$id'] = uri(family, root, base)
    defs = {c['def']: schema(family, i, base) for i, c in enumerate(cs) if c['doc'] == d and c['def']}
    if defs:
        out['$defs'] = defs
    return out


def all_props(family, i):
    out = {}
    for j in [i] + sorted(ancestors(family['classes'], i)):
        for p in family['classes'][j]['props']:
            out.setdefault(p['name'], p)
    return out


def required(family, i):
    return set().union(*[family['classes'][j]['required'] for j in {i} | ancestors(family['classes'], i)])


def value(family, i, depth=0, n=0):
    """a valid value of a class"""
    out = {}
    req = required(family, i)
    for name, p in sorted(all_props(family, i).items()):
        k = p['kind']
        if k == 'int':
            out[name] = (7 + n + depth) % 90
        elif k == 'str':
            out[name] = 'xy'[n % 2]
        elif k == 'pattern':
            out[name] = 'a' * (1 + n % 3)
        elif k == 'ints':
            out[name] = [n, n + 1]
        elif k == 'any':
            out[name] = 'free%d' % n
        elif depth < 2:
            if k == 'ref':
                out[name] = value(family, p['to'], depth + 1, n + 1)
            elif k == 'refs':
                out[name] = [value(family, p['to'], depth + 1, n + 2)]
            elif k == 'inline':
                out[name] = {'n': n, 'in': value(family, p['to'], depth + 1, n + 3)}
    return out


def plain(v, depth=0):
    """what an object of the library shows"""
    if depth > 8:
        return '...'
    if hasattr(v, 'items') and hasattr(v, 'keys'):
        return {str(k): plain(v[k], depth + 1) for k in v.keys() if v[k] is not None}
    if isinstance(v, (list, tuple)) or hasattr(v, '_items'):
        return [plain(x, depth + 1) for x in v]
    return v if isinstance(v, (str, int, float, bool, type(None))) else str(v)


def outcome(f):
    try:
        return ['ok', f()]
    except Exception as er:
        return ['error', type(er).__name__]


def behaviour(family, i, cls):
    """what one can see of a class and do with it"""
    out = {'properties': sorted(k for k in cls._properties), 'required': sorted(cls._required),
           'bases': [str(b._id).split('/', 4)[-1] for b in cls.__mro__ if 'sim.test' in str(b.__dict__.get('_id'))],
           'lazy': bool(cls._lazyLoading)}
    v = value(family, i)

    def make(v):
        def f():
            o = cls(v)
            return plain(o)
        return f
    out['value'] = outcome(make(v))
    out['empty'] = outcome(make({}))
    for name, p in sorted(all_props(family, i).items()):
        bad = {'int': 500, 'str': 'z', 'pattern': 'b', 'ref': {'unknown_': {}}, 'ints': ['x'], 'refs': 3}.get(p['kind'])
        if p['kind'] == 'ref':
            inner = value(family, p['to'], 2)
            k = [x for x, q in sorted(all_props(family, p['to']).items()) if q['kind'] == 'int']
            if not k:
                continue
            bad = dict(inner, **{k[0]: -5})
        if bad is not None:
            out['bad ' + name] = outcome(make(dict(v, **{name: bad})))
    return out


def reach_strict(classes, i):
    """the classes needed by a class, itself only if it is in a cycle"""
    out = set()
    for j in edges(classes, i):
        out |= reach(classes, j)
    return out


def sensible(family):
    """whether a family, possibly reduced, still makes sense"""
    cs = family['classes']
    n = len(cs)
    roots = [c['doc'] for c in cs if c['def'] is None]
    if sorted(roots) != list(range(family['docs'])) or not n:
        return False
    names = [(c['doc'], c['def']) for c in cs]
    if len(set(names)) < n or any(not 0 <= c['doc'] < family['docs'] for c in cs):
        return False
    for i, c in enumerate(cs):
        if any(not 0 <= e < n or e == i for e in c['extends']) or any(not 0 <= p['to'] < n for p in c['props'] if 'to' in p):
            return False
        ps = c['props']
        if len({p['name'] for p in ps}) < len(ps) or any(
                k and p['kind'] == 'template' and ps[0]['kind'] not in ('int', 'str', 'ints') or not k and p['kind'] == 'template'
                for k, p in enumerate(ps)):
            return False
        if not set(c['required']) <= {p['name'] for p in ps}:
            return False
    for i, c in enumerate(cs):
        for e in c['extends']:
            if i in reach(cs, e) or e in [x for y in c['extends'] if y != e for x in ancestors(cs, y)]:
                return False
    return True
