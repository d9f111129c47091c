"""C10: a rejected change leaves the object as it was."""
import copy

import core
import objects
from props import c09

ID = 'C10'
LEVEL = 'exploration'
QUICK = (1600, 50)
THOROUGH = (120000, 200)
RULE = ('an execution is a class, the sequence of changes with what makes them fail, and the outcomes; only those where a change is '
        'rejected count')
REAL = ['ngoschema object and array protocols, type builder, templates and expressions', 'jinja2']
STUBS = ['setters and getters failing when the plan says']
ASSUMPTIONS = ['objects validate immediately (_lazyLoading is False)', 'setters fail before changing anything themselves', 'PyPy 3.9 interpreter']
PROBES = ['accepted', 'rejected', 'conversion', 'validation', 'read-only', 'unknown', 'setter', 'delete-required', 'deleter', 'nested', 'item', 'whole-array',
          'whole-object', 'alias', 'failed-template', 'accepted-after-rejected', 'computed-after-rejected', 'twice-rejected', 'setter-called', 'inherited',
          'second-object', 'unset-read-only', 'interrupted', 'construction-refused']


def prepare():
    import random
    rng = random.Random(6)
    for i in range(4):
        try:
            run(gen(rng), core.Env())
        except core.Violation:
            pass


BAD = {'int': [('validation', 500), ('validation', -3), ('conversion', 'abc'), ('conversion', [1, 2]), ('conversion', {'x': 1})],
       'str': [('validation', 'y' * 50)],
       'list': [('whole-array', [1, 500]), ('whole-array', [1, 'abc']), ('whole-array', [-1])],
       'obj': [('whole-object', {'x': 500}), ('whole-object', {'x': 'abc'})],
       'objs': [('whole-array', [{'x': 3}, {'x': 500}]), ('whole-array', [{'x': -1}])]}
KINDS = ('int', 'str', 'list', 'obj', 'objs')


def gen(rng):
    spec = objects.gen_spec(rng, lazy=False, setters=True, guarded=True)
    n = rng.choice([1, 1, 2])
    values = [objects.gen_values(rng, spec) for i in range(n)]
    for i in range(n):
        for t in range(30):
            if not c09.fails(spec, values[i]):
                break
            values[i] = objects.gen_values(rng, spec)
    base = [p for p in spec['props'] if p['kind'] in KINDS]
    ops = []
    for i in range(rng.randint(4, 30)):
        p = rng.choice(base)
        if rng.random() < .15 and base[-1]['name'] == 'sl':
            p = base[-1]
        elif rng.random() < .2:
            p = ([q for q in base if q['name'] in spec['readonly'] + spec['setters']] or [p])[0]
        op = {'obj': rng.randint(0, n - 1), 'style': rng.choice(['attr', 'attr', 'item']), 'name': p['name'], 'do': 'set'}
        r = rng.random()
        if p['name'] == 'sl' and rng.random() < .6:
            r = .85
        if r < .35:
            op['value'] = objects.gen_value(rng, p['kind'])
            if p['kind'] == 'int' and rng.random() < .2:
                op['by'] = rng.choice(['aliases', 'negated'])
        elif r < .6:
            op['why'], op['value'] = rng.choice(BAD[p['kind']])
            if p['kind'] == 'int' and rng.random() < .2 and isinstance(op['value'], int):
                op['by'] = 'aliases'
        elif r < .7:
            op.update(do='part', bad=rng.random() < .6, how=rng.choice(['set', 'append', 'insert']), i=rng.randint(0, 3), value=rng.randint(0, 100))
        elif r < .76:
            op.update(do='unknown')
        elif r < .78 and spec['unset']:
            op.update(do='unset')
        elif r < .84:
            op.update(do='delete', how=rng.choice(['attr', 'item', 'pop']))
            if spec['deleters'] and rng.random() < .4:
                op['name'] = rng.choice(spec['deleters'])
                op['fail'] = rng.choice(sorted(objects.ERRORS_ALL))
        elif r < .9:
            pool = objects.refs_of(spec['props'][:spec['props'].index(p)], ['int', 'str'])
            op['value'] = objects.gen_value(rng, p['kind'])
            if p['kind'] == 'str' and pool:
                comp = [x for x in pool if x[0].startswith('c')]
                op['tmpl'] = ['=', {'ref': rng.choice(comp if comp and rng.random() < .7 else pool), 'dots': False}]
        else:
            op['value'] = objects.gen_value(rng, p['kind'])
        if p['name'] in spec['setters'] and rng.random() < .4:
            op['fail'] = rng.choice(sorted(objects.ERRORS_ALL))
        gets = [q['name'] for q in spec['props'] if q['kind'] == 'get']
        if 'tmpl' in op and gets and rng.random() < .5:
            op['getter'] = rng.choice(gets)
            if [op['getter']] in pool and rng.random() < .7:
                op['tmpl'][1]['ref'] = [op['getter']]
            op['fail'] = op.get('fail', 'ValueError')
        ops.append(op)
    return {'spec': spec, 'values': values, 'ops': ops}


def check_plan(plan):
    spec = plan['spec']
    if not objects.sensible(spec) or spec['lazy']:
        raise core.Skip()
    names = {p['name']: p for p in spec['props']}
    need = {p['name'] for p in spec['props'] if p['kind'] in KINDS}
    for v in plan['values']:
        if set(v) != need or any(not c09.valid(names[k]['kind'], x) for k, x in v.items()):
            raise core.Skip()
    for op in plan['ops']:
        if not 0 <= op['obj'] < len(plan['values']) or op['name'] not in need:
            raise core.Skip()
        kind = names[op['name']]['kind']
        if op['do'] == 'set' and 'tmpl' not in op:
            if 'why' in op and (op['why'], op['value']) not in BAD[kind] or 'why' not in op and not c09.valid(kind, op['value']):
                raise core.Skip()
        if op['do'] == 'part' and not c09.valid('int', op['value']):
            raise core.Skip()
        if 'tmpl' in op:
            pool = objects.refs_of(spec['props'][:spec['props'].index(names[op['name']])], ['int', 'str'])
            if kind != 'str' or len(op['tmpl']) != 2 or not isinstance(op['tmpl'][1], dict) or op['tmpl'][1]['ref'] not in pool:
                raise core.Skip()


def run(plan, env):
    check_plan(plan)
    spec = plan['spec']
    c09.serial[0] += 1
    serial = c09.serial[0]
    env.sign(spec)
    objects.ARMED.clear()
    try:
        cls = objects.build(spec, serial)
        if spec['split']:
            env.probe('inherited')
        objs, models = [], []
        for v in plan['values']:
            bad = c09.fails(spec, v)
            try:
                objs.append(cls(**copy.deepcopy(v)))
            except Exception as er:
                if not bad:
                    raise
                env.probe('construction-refused')
                return
            env.check(bad is not True, 'accepted', 'an object is created although one of its computations fails')
            models.append(objects.Model(spec, v))
        rejected = [False] * len(objs)

        def compare(k, what, computed=True):
            m, o = models[k], objs[k]
            for p in spec['props']:
                name = p['name']
                comp = p['kind'] not in KINDS
                if comp and not computed:
                    continue
                m.unsure.clear()
                try:
                    want = ('value', m.read([name]))
                except objects.Fail:
                    want = ('raises',)
                unsure = bool(m.unsure)
                try:
                    got = ('value', objects.show(o[name]))
                except Exception as er:
                    got = ('raises', type(er).__name__)
                if got[0] == 'raises' and (unsure or want[0] == 'raises'):
                    continue
                env.check(got == want, 'changed' if what else 'value', '%s%s is %r instead of %r' % (
                    'after %s, ' % what if what else '', name, got[1], want[1] if want[1:] else 'an error'))
                if comp and what:
                    env.probe('computed-after-rejected')

        for op in plan['ops']:
            k, name, style = op['obj'], op['name'], op['style']
            o, m = objs[k], models[k]
            p = m.props[name]
            st = m.state
            env.steps += 1
            before = copy.deepcopy(st)
            why = None
            target = name
            if op.get('fail') and op['do'] in ('set',):
                objects.ARMED['set_' + name] = [op['fail'], 0, 0]
                if op.get('getter'):
                    objects.ARMED[op['getter']] = [op['fail'], 0, 0]
            if op['do'] == 'unknown':
                if spec['additional']:
                    objects.ARMED.clear()
                    continue
                why, target = 'unknown', 'zz_unknown'
                act = lambda: c09.put(o, 'zz_unknown', 3, style)
            elif op['do'] == 'delete':
                why = 'delete-required'
                if name not in spec['required']:
                    if name not in spec['deleters'] or not op.get('fail'):
                        objects.ARMED.clear()
                        continue
                    why = 'deleter'
                    objects.ARMED['del_' + name] = [op['fail'], 0, 0]
                act = {'attr': lambda: delattr(o, name), 'item': lambda: o.__delitem__(name), 'pop': lambda: o.pop(name)}[op['how']]
            elif op['do'] == 'unset':
                if not spec['unset']:
                    objects.ARMED.clear()
                    continue
                why, target = 'read-only', 'zr'
                env.probe('unset-read-only')
                act = lambda: c09.put(o, 'zr', 3, style)
            elif op['do'] == 'part':
                v = 500 if op['bad'] else op['value']
                why = ('nested' if p['kind'] == 'obj' else 'item') if op['bad'] else None
                how = op['how']
                if p['kind'] == 'obj':
                    act = lambda: setattr(o[name], 'x', v)
                    st[name]['x'] = v
                elif p['kind'] in ('list', 'objs'):
                    arr = st[name]
                    i = op['i'] % len(arr)
                    x = v if p['kind'] == 'list' else {'x': v}
                    if how == 'set' and p['kind'] == 'objs' and op['i'] % 2:
                        act = lambda: setattr(o[name][i], 'x', v)
                        arr[i] = x
                    elif how == 'set':
                        act = lambda: o[name].__setitem__(i, copy.deepcopy(x))
                        arr[i] = x
                    elif how == 'append':
                        act = lambda: o[name].append(copy.deepcopy(x))
                        arr.append(x)
                    else:
                        act = lambda: o[name].insert(i, copy.deepcopy(x))
                        arr.insert(i, x)
                else:
                    objects.ARMED.clear()
                    continue
            else:
                raw = op['value']
                why = op.get('why')
                new = raw
                if 'tmpl' in op:
                    raw, new, why = objects.template(op['tmpl']), {'tmpl': op['tmpl']}, None
                elif op.get('by'):
                    al = [a for a, x in sorted(spec[op['by']].items()) if x == name]
                    if al:
                        target = al[0]
                        if op['by'] == 'negated':
                            raw = -raw
                        env.probe('alias')
                st[name] = new
                if 'tmpl' in op:
                    m.unsure.clear()
                    try:
                        text = m.read([name])
                        if len(text) > 40:
                            why = 'validation'
                        elif m.unsure:
                            st.update(before)
                            objects.ARMED.clear()
                            continue
                    except objects.Fail:
                        why = 'failed-template'
                if name in spec['readonly']:
                    why = 'read-only'
                act = lambda: c09.put(o, target, copy.deepcopy(raw), style)
            seen = len(o.__dict__.get('_seen', []))
            armed = op['do'] == 'set' and op.get('fail') and name in spec['setters']
            if armed and why is None:
                why = 'setter'
            try:
                act()
                got = 'ok'
            except (Exception, KeyboardInterrupt) as er:
                if isinstance(er, KeyboardInterrupt) and op.get('fail') != 'KeyboardInterrupt':
                    raise
                got = type(er).__name__
                err = er
            if op.get('getter') and objects.ARMED.get(op['getter'], [0, 0, 0])[2] and why in (None, 'setter'):
                why = 'failed-template'
            objects.ARMED.clear()
            env.log(op['do'], k, target, why, got)
            env.sign(op['do'], target, why, got)
            if why is None:
                if got != 'ok':
                    raise err
                env.probe('accepted')
                if k:
                    env.probe('second-object')
                if rejected[k]:
                    env.probe('accepted-after-rejected')
                if op['do'] == 'set' and name in spec['setters']:
                    env.check(len(o.__dict__.get('_seen', [])) > seen, 'setter', 'the setter of %s is not called' % name)
                calls = o.__dict__.get('_seen', [])[seen:]
                if calls:
                    env.probe('setter-called')
                    if op['do'] == 'set':
                        env.check(calls[-1][1] == m.read([name]), 'setter', 'the setter of %s was given %r, the value is %r' % (name, calls[-1], m.read([name])))
            else:
                env.check(got != 'ok', 'accepted', 'a change of %s that must be rejected (%s) is accepted' % (target, why))
                if why in ('delete-required', 'read-only', 'unknown') and op.get('how') != 'pop':     # pop reads the value first
                    env.check(got in ('AttributeError', 'KeyError'), 'error', 'a change rejected because %s raises %s' % (why, got))
                env.check(not o.__dict__.get('_gone'), 'deleter', 'the deleter of %s did its work although its deletion is refused' % target)
                st.clear()
                st.update(before)
                env.probe('rejected')
                env.probe(why)
                env.fault(why)
                if op.get('fail') == 'KeyboardInterrupt' and why in ('setter', 'deleter', 'failed-template'):
                    env.probe('interrupted')
                if rejected[k]:
                    env.probe('twice-rejected')
                rejected[k] = True
            # read the others too
            for j in range(len(objs)):
                compare(j, 'a change of %s rejected (%s)' % (target, why) if why else '', computed=op['style'] == 'attr')
        for j in range(len(objs)):
            compare(j, '')
    finally:
        objects.ARMED.clear()
        objects.forget(serial)
