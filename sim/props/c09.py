"""C09: computed properties always reflect the current values they depend on."""
import copy
import decimal
import fractions
import json

import core
import objects

ID = 'C09'
LEVEL = 'exploration'
QUICK = (1400, 50)
THOROUGH = (120000, 200)
RULE = ('an execution is a class, the sequence of reads, assignments and failures of computations, and the outcomes; only those with a '
        'failing computation or a read after a change count')
REAL = ['ngoschema object and array protocols, type builder, templates and expressions', 'jinja2']
STUBS = ['getters failing when the plan says']
ASSUMPTIONS = ['a getter declares by its path each value it uses', 'computed properties do not use each other in a circle', 'PyPy 3.9 interpreter']
PROBES = ['lazy', 'eager', 'inherited', 'redefined', 'read', 'read-computed', 'getter-failed', 'failed-in-dependency', 'computation-invalid', 'recovered',
          'set-item', 'nested-change', 'array-change', 'objects-change', 'template-assigned', 'alias', 'negated', 'other-number', 'invalid-lazy', 'rejected', 'computed-chain', 'new', 'evaluated', 'serialized', 'alias-serialized', 'construction-refused', 'deleted', 'set-again']

serial = [0]


def prepare():
    import random
    rng = random.Random(5)
    for i in range(4):
        plan = gen(rng)
        try:
            run(plan, core.Env())
        except core.Violation:
            pass


def gen(rng):
    spec = objects.gen_spec(rng)
    n = rng.choice([1, 1, 2])
    values = [objects.gen_values(rng, spec) for i in range(n)]
    for i in range(n):
        for t in range(30):
            if spec['lazy'] or not fails(spec, values[i]):
                break
            values[i] = objects.gen_values(rng, spec)
    base = [p for p in spec['props'] if p['kind'] in ('int', 'str', 'list', 'obj', 'objs')]
    comp = [p for p in spec['props'] if p['kind'] in ('tmpl', 'expr', 'get')]
    gets = [p['name'] for p in comp if p['kind'] == 'get']
    deps = [x for xs in spec.get('depends', {}).values() for x in xs]
    dels = rng.random() < .25
    ops = []
    for i in range(rng.randint(4, 40)):
        op = {'obj': rng.randint(0, n - 1), 'style': rng.choice(['attr', 'attr', 'item', 'get'])}
        r = rng.random()
        if r < .5:
            p = rng.choice(comp if rng.random() < .75 else base)
            op.update(do='read', name=p['name'])
            if gets and rng.random() < .3:
                op['fail'] = sorted(rng.sample(gets, rng.randint(1, min(2, len(gets)))))
                op['error'] = rng.choice(sorted(objects.ERRORS))
                op['times'] = rng.choice([0, 0, 1])
        elif r < .85:
            p = rng.choice(base)
            op.update(do='set', name=p['name'], value=objects.gen_value(rng, p['kind']))
            if dels and p['name'] not in deps and rng.random() < .15:
                op['do'] = 'delete'
                ops.append(op)
                continue
            if p['kind'] == 'int':
                t = rng.random()
                if t < .25:
                    op['value'] = str(op['value'])
                elif t < .35:
                    op['bad'] = rng.choice([500, -3, 'abc'])
                elif t < .5:
                    op['by'] = rng.choice(['alias', 'negated'])
                if t > .35 and rng.random() < .2:
                    op['num'] = rng.choice(['Decimal', 'float', 'Fraction'])
            elif p['kind'] == 'str' and rng.random() < .3:
                i = spec['props'].index(p)
                pool = objects.refs_of(spec['props'][:i], ['int', 'str'])
                if pool:
                    op['tmpl'] = ['=', {'ref': rng.choice(pool), 'dots': rng.random() < .5}]
            elif p['kind'] == 'list' and rng.random() < .7:
                op.update(do='array', how=rng.choice(['set', 'append', 'insert', 'pop', 'del', 'reverse', 'extend']), i=rng.randint(0, 3), value=rng.randint(0, 100))
            elif p['kind'] == 'obj' and rng.random() < .7:
                op.update(do='inner', value=rng.randint(0, 100))
            elif p['kind'] == 'objs' and rng.random() < .7:
                op.update(do='objs', how=rng.choice(['x', 'x', 'x', 'set', 'append', 'insert', 'pop']), i=rng.choice([0, 0, 1, 2]), value=rng.randint(0, 100))
        elif r < .9:
            op.update(do='all')
        elif r < .93:
            op.update(do='dump')
        elif r < .95:
            op.update(do='evaluate', values=objects.gen_values(rng, spec), tmpl={})
            strs = [p['name'] for p in spec['props'] if p['kind'] == 'str']
            rng.shuffle(strs)
            for a, b in zip(strs, strs[1:]):
                if rng.random() < .7:
                    op['tmpl'][a] = b
        elif r < .97 and spec['aliases'] or spec['negated']:
            op.update(do='alias', which=rng.choice(['aliases', 'negated']))
        else:
            op.update(do='new', values=objects.gen_values(rng, spec))
        ops.append(op)
    return {'spec': spec, 'values': values, 'ops': ops}


def fails(spec, values):
    m = objects.Model(spec, values)
    try:
        for p in spec['props']:
            m.read([p['name']])
        return 'unsure' if m.unsure else False
    except objects.Fail:
        return True


def check_plan(plan, objects_n):
    spec = plan['spec']
    if not objects.sensible(spec):
        raise core.Skip()
    names = {p['name']: p for p in spec['props']}
    need = {p['name'] for p in spec['props'] if p['kind'] in ('int', 'str', 'list', 'obj', 'objs')}
    for v in plan['values'] + [op['values'] for op in plan['ops'] if op['do'] in ('new', 'evaluate')]:
        if set(v) != need:
            raise core.Skip()
        for k, x in v.items():
            kind = names[k]['kind']
            if not valid(kind, x):
                raise core.Skip()
    for op in plan['ops']:
        if not 0 <= op['obj'] < objects_n:
            raise core.Skip()
        if op['do'] == 'evaluate':
            for a in op['tmpl']:
                seen = set()
                while a in op['tmpl']:
                    if a in seen or op['tmpl'][a] not in names or names[a]['kind'] != 'str' or names[op['tmpl'][a]]['kind'] != 'str':
                        raise core.Skip()
                    seen.add(a)
                    a = op['tmpl'][a]
        if 'name' in op and op['name'] not in names:
            raise core.Skip()
        if op['do'] in ('set', 'array', 'inner', 'objs', 'delete'):
            kind = names[op['name']]['kind']
            if {'array': 'list', 'inner': 'obj', 'objs': 'objs'}.get(op['do'], kind) != kind or kind in ('tmpl', 'expr', 'get'):
                raise core.Skip()
            if op['do'] == 'delete' and any(op['name'] in xs for xs in spec.get('depends', {}).values()):
                raise core.Skip()
            if op['do'] == 'set' and 'bad' not in op and 'tmpl' not in op and not valid(kind, op['value']):
                raise core.Skip()
            if op['do'] == 'set' and 'bad' in op and (kind != 'int' or op['bad'] not in (500, -3, 'abc')):
                raise core.Skip()
            if op['do'] != 'set' and not valid('int', op['value']):
                raise core.Skip()
            if 'tmpl' in op:
                i = spec['props'].index(names[op['name']])
                pool = objects.refs_of(spec['props'][:i], ['int', 'str'])
                if kind != 'str' or len(op['tmpl']) != 2 or not isinstance(op['tmpl'][1], dict) or op['tmpl'][1]['ref'] not in pool:
                    raise core.Skip()


def valid(kind, x):
    isint = lambda v: isinstance(v, int) and not isinstance(v, bool) and 0 <= v <= 100
    if kind == 'int':
        return isint(x) or isinstance(x, str) and x.isdigit() and isint(int(x))
    if kind == 'str':
        return isinstance(x, str)
    if kind == 'list':
        return isinstance(x, list) and len(x) > 0 and all(isint(v) for v in x)
    if kind == 'obj':
        return isinstance(x, dict) and set(x) == {'x'} and isint(x['x'])
    return isinstance(x, list) and len(x) > 0 and all(isinstance(v, dict) and set(v) == {'x'} and isint(v['x']) for v in x)


def get(o, name, style):
    if style == 'attr':
        return getattr(o, name)
    if style == 'item':
        return o[name]
    return o.get(name)


NUMBERS = {'int': int, 'Decimal': decimal.Decimal, 'float': float, 'Fraction': fractions.Fraction}


def put(o, name, value, style):
    if style == 'attr':
        setattr(o, name, value)
    else:
        o[name] = value


def run(plan, env):
    check_plan(plan, len(plan['values']))
    spec = plan['spec']
    serial[0] += 1
    env.sign(spec)
    objects.ARMED.clear()
    try:
        cls = objects.build(spec, serial[0])
        env.probe('lazy' if spec['lazy'] else 'eager')
        if spec['split']:
            env.probe('inherited')
            if any('was' in p for p in spec['props'][:spec['split']]):
                env.probe('redefined')
        def construct(values):
            values = copy.deepcopy(values)
            if spec['lazy'] or not fails(spec, values):
                return cls(**values)
            env.probe('construction-refused')
            env.fault('invalid-value')
            try:
                new = cls(**values)
            except Exception:
                return None
            if fails(spec, values) == 'unsure':
                return new
            env.fail('not-raised', 'an object is created although one of its computations fails')
        objs = [construct(v) for v in plan['values']]
        if None in objs:
            return
        models = [objects.Model(spec, v) for v in plan['values']]
        failed = set()
        changed = False

        def read(k, name, style, op=None):
            m, o = models[k], objs[k]
            fails = (op or {}).get('fail', [])
            for f in fails:
                objects.ARMED[f] = [op['error'], op['times'], 0]
            m.unsure.clear()
            try:
                want = ('value', m.read([name]))
            except objects.Gone:
                # what a deleted property shows is not promised, nor what is computed from it
                objects.ARMED.clear()
                try:
                    get(o, name, style)
                except Exception:
                    pass
                return
            except objects.Fail:
                want = ('raises', None)
            unsure = bool(m.unsure)
            try:
                got = ('value', objects.show(get(o, name, style)))
            except BaseException as er:
                got = ('raises', type(er).__name__)
            hits = sum(a[2] for a in objects.ARMED.values())
            objects.ARMED.clear()
            env.log('read', k, name, style, got, hits)
            env.sign('read', name, style, got[0], hits)
            if hits:
                env.fault('getter', hits)
                env.probe('getter-failed')
                if name not in fails:
                    env.probe('failed-in-dependency')
                failed.add((k, name))
            elif want[0] == 'raises':
                env.probe('computation-invalid')
                env.fault('invalid-value')
                failed.add((k, name))
            if got[0] == 'raises':
                env.check(hits or unsure or want[0] == 'raises', 'unexpected-error', 'reading %s raises %s although its value is %r' % (name, got[1], want[1]))
            else:
                env.check(want[0] == 'value', 'not-raised', 'reading %s gives %r although its computation fails' % (name, got[1]))
                env.check(got[1] == want[1], 'value', 'reading %s gives %r instead of %r%s' % (name, got[1], want[1], ' while the getter of %s fails' % ', '.join(fails) if hits else ''))
                if (k, name) in failed and not hits:
                    env.probe('recovered')
                    failed.discard((k, name))
            env.probe('read')
            if m.props[name]['kind'] in ('tmpl', 'expr', 'get'):
                env.probe('read-computed')
                if any(m.props[d]['kind'] in ('tmpl', 'expr', 'get') for d in m.deps(name) - {name}):
                    env.probe('computed-chain')
                if changed:
                    env.nontrivial = True

        for op in plan['ops']:
            k = op['obj']
            o, m = objs[k], models[k]
            env.steps += 1
            if op['do'] == 'read':
                read(k, op['name'], op['style'], op)
                continue
            if op['do'] == 'all':
                for p in spec['props']:
                    read(k, p['name'], op['style'])
                continue
            if op['do'] == 'dump':
                want = {}
                try:
                    for p in spec['props']:
                        want[p['name']] = m.read([p['name']])
                except objects.Fail:
                    continue
                got = objects.show(o.do_serialize(no_defaults=False))
                env.log('dump', sorted(got))
                env.probe('serialized')
                for name in want:
                    if name in got:
                        env.check(got[name] == want[name], 'dump', 'serialising gives %r for %s instead of %r' % (got[name], name, want[name]))
                for which, sign in (('aliases', 1), ('negated', -1)):
                    for alias, name in sorted(spec[which].items()):
                        if got.get(name) is not None:
                            env.check(got.get(alias) == sign * want[name], 'dump', 'serialising gives %r for %s, %s is %r' % (got.get(alias), alias, name, want[name]))
                            env.probe('alias-serialized')
                continue
            if op['do'] == 'alias':
                for alias, name in sorted(spec[op['which']].items()):
                    try:
                        want = m.read([name])
                    except objects.Fail:
                        continue
                    got = objects.show(get(o, alias, op['style'] if op['style'] != 'get' else 'item'))
                    env.log('alias', alias, got)
                    env.check(got == (want if op['which'] == 'aliases' else -want), 'alias', '%s gives %r, %s is %r' % (alias, got, name, want))
                    env.probe('alias' if op['which'] == 'aliases' else 'negated')
                continue
            if op['do'] == 'evaluate':
                # other values, evaluated by the class
                values = dict(copy.deepcopy(op['values']), **{a: {'tmpl': ['~', {'ref': [b]}]} for a, b in op['tmpl'].items()})
                e = objects.Model(spec, values)
                try:
                    want = {p['name']: e.read([p['name']]) for p in spec['props']}
                except objects.Fail:
                    continue
                if e.unsure:
                    continue
                given = {a: objects.template(v['tmpl']) if isinstance(v, dict) and 'tmpl' in v else v for a, v in values.items()}
                got = cls.evaluate(given)
                got = {name: objects.show(getattr(got, name)) for name in want}
                env.log('evaluate', sorted(op['tmpl'].items()))
                env.probe('evaluated')
                for name in want:
                    env.check(got[name] == want[name], 'evaluate', 'evaluating gives %r for %s instead of %r' % (got[name], name, want[name]))
                continue
            changed = True
            if op['do'] == 'new':
                new = construct(op['values'])
                if new is None:
                    continue
                objs[k] = new
                models[k] = objects.Model(spec, op['values'])
                env.log('new', k)
                env.probe('new')
                continue
            name = op['name']
            style = op['style']
            st = m.state
            gone = isinstance(st[name], dict) and 'gone' in st[name]
            if op['do'] == 'delete':
                if not gone:
                    if style == 'attr':
                        delattr(o, name)
                    else:
                        del o[name]
                    st[name] = {'gone': True}
                    env.log('delete', k, name)
                    env.probe('deleted')
                continue
            if gone and op['do'] != 'set':
                continue
            env.log(op['do'], k, name, op.get('how'), style)
            env.sign(op['do'], name, op.get('how'))
            if op['do'] == 'set':
                v, raw = op['value'], op['value']
                if m.props[name]['kind'] == 'int':
                    v = int(v)
                if 'bad' in op:
                    raw, v = op['bad'], {'bad': op['bad']}
                elif 'tmpl' in op:
                    raw, v = objects.template(op['tmpl']), {'tmpl': op['tmpl']}
                    env.probe('template-assigned')
                elif op.get('by'):
                    al = [a for a, n in sorted(spec['aliases' if op['by'] == 'alias' else 'negated'].items()) if n == name]
                    if al:
                        raw = NUMBERS[op.get('num', 'int')](v if op['by'] == 'alias' else -v)
                        put(o, al[0], raw, style)
                        st[name] = v
                        env.probe(op['by'])
                        continue
                if 'num' in op:
                    raw = NUMBERS[op['num']](v)
                    env.probe('other-number')
                old = st[name]
                st[name] = v
                m.unsure.clear()
                want = 'ok'
                if not spec['lazy']:
                    try:
                        m.read([name])
                    except objects.Gone:
                        want = 'any'
                    except objects.Fail:
                        want = 'raises'
                try:
                    put(o, name, copy.deepcopy(raw), style)
                    got = 'ok'
                except Exception as er:
                    got = 'raises'
                    if m.unsure and not spec['lazy']:
                        want = got
                    if want == 'ok':
                        raise
                env.log('set', name, got)
                env.check(want in ('any', got), 'accepted', 'an invalid value is accepted for %s' % name)
                if got == 'raises':
                    st[name] = old
                    env.probe('rejected')
                    if gone:
                        env.check(name not in list(o), 'rejected-present', '%s is present again after a rejected assignment' % name)
                    env.fault('invalid-value')
                elif 'bad' in op:
                    env.probe('invalid-lazy')
                env.probe('set-item')
                if gone:
                    env.probe('set-again')
                continue
            arr = st[name]
            i, v = op.get('i', 0), op['value']
            if op['do'] == 'inner':
                if style == 'attr':
                    getattr(o, name).x = v
                elif style == 'item':
                    o[name]['x'] = v
                else:
                    o[name + '.x'] = v
                arr['x'] = v
                env.probe('nested-change')
            elif op['do'] == 'array':
                i %= len(arr)
                a = get(o, name, style)
                how = op['how']
                if how == 'set':
                    a[i] = v
                    arr[i] = v
                elif how == 'append':
                    a.append(v)
                    arr.append(v)
                elif how == 'insert':
                    a.insert(i, v)
                    arr.insert(i, v)
                elif how == 'extend':
                    a.extend([v, i])
                    arr.extend([v, i])
                elif how == 'reverse':
                    a.reverse()
                    arr.reverse()
                elif len(arr) > 1:
                    if how == 'pop':
                        a.pop()
                        arr.pop()
                    else:
                        del a[i]
                        del arr[i]
                env.probe('array-change')
            else:
                i %= len(arr)
                a = get(o, name, style)
                how = op['how']
                if how == 'x':
                    if style == 'get':
                        o['%s[%d].x' % (name, i)] = v
                    elif style == 'item':
                        a[i]['x'] = v
                    else:
                        a[i].x = v
                    arr[i]['x'] = v
                elif how == 'set':
                    a[i] = {'x': v}
                    arr[i] = {'x': v}
                elif how == 'append':
                    a.append({'x': v})
                    arr.append({'x': v})
                elif how == 'insert':
                    a.insert(i, {'x': v})
                    arr.insert(i, {'x': v})
                elif len(arr) > 1:
                    a.pop()
                    arr.pop()
                env.probe('objects-change')
        for k in range(len(objs)):
            for p in spec['props']:
                read(k, p['name'], 'attr')
    finally:
        objects.ARMED.clear()
        objects.forget(serial[0])
