"""C17: dates taken from the clock are read once and stay."""
import datetime
import os
import time

import core
import threadsim

ID = 'C17'
LEVEL = 'exploration'
QUICK = (2400, 60)
THOROUGH = (240000, 300)
RULE = 'an execution is the assignments and reads of each thread with the steps of the clock at each of its readings, and the interleaving reached'
REAL = ['ngoschema date, time and datetime types, objects and arrays holding them', 'arrow and the datetime module of the interpreter']
STUBS = ['clock (virtual: each reading first moves it as the plan says)', 'local time zone given by the plan', 'locks (simulated)']
ASSUMPTIONS = ['the clock gives whole microseconds between 1970 and 2100', 'an object is used by one thread',
               'threads are switched between source lines of the library, not inside a line', 'PyPy 3.9 interpreter']
PROBES = ['prop:d', 'prop:t', 'prop:dt', 'prop:ddt', 'prop:dd', 'prop:pt', 'prop:l', 'prop:dl', 'prop:n.dt', 'prop:n.d', 'today', 'now', 'lazy', 'immediate', 'first-read-later', 'read-again',
          'read-after-jump', 'midnight-inside', 'backwards-inside', 'year-end-inside', 'stalled', 'reassigned', 'reassigned-same', 'reassigned-literal', 'default', 'pattern', 'pattern-changed', 'item',
          'item-inserted', 'item-replaced', 'nested', 'copied', 'serialised', 'printed', 'validated', 'direct', 'refused', 'computed-from-date', 'other-zone', 'class-evaluate',
          'threads:1', 'threads:2', 'threads:3', 'switched', 'created-with']

URI = 'https://numengo.org/sim17'
DAY = 86400 * 10 ** 6
TOP = ('d', 't', 'dt', 'ddt', 'dd')
TYPES = {'d': 'date', 't': 'time', 'dt': 'datetime', 'ddt': 'datetime', 'dd': 'date', 'pt': 'datetime', 'n.dt': 'datetime', 'n.d': 'date', 'l': 'datetime', 'dl': 'date'}
LITERALS = {'date': ['2021-02-03', '1999-12-31'], 'time': ['10:11:12', '00:00:00'], 'datetime': [datetime.datetime(2021, 2, 3, 4, 5, 6), datetime.datetime(1999, 12, 31)]}
ZONES = ('UTC0', 'AAA-13', 'BBB+11', 'CCC-5:30')
EPOCH = datetime.datetime(1970, 1, 1)
classes = {}


def prepare():
    import random
    build()
    rng = random.Random(3)
    for i in range(20):
        try:
            run(gen(rng), core.Env())
        except (core.Skip, core.Violation):
            pass


def build():
    if classes:
        return
    from ngoschema.protocols import SchemaMetaclass, with_metaclass
    from ngoschema.decorators import depend_on_prop
    from ngoschema.loaders.schemas import load_schema
    from ngoschema.types.datetime import Date, Time, Datetime
    dt, d, t = {'type': 'datetime'}, {'type': 'date'}, {'type': 'time'}
    load_schema({'$id': URI, '$defs': {
        'N': {'type': 'object', 'properties': {'dt': dt, 'd': d}},
        'P': {'type': 'object', 'properties': {'s': {'type': 'string'}, 'd': d, 't': t, 'dt': dt, 'ddt': dict(dt, default='now'), 'dd': dict(d, default='today'),
                                               'pt': dt, 'l': {'type': 'array', 'items': dt}, 'dl': {'type': 'array', 'items': d},
                                               'n': {'$ref': '#/$defs/N'}, 'y': {'type': 'string'}}}}})

    class P(with_metaclass(SchemaMetaclass)):
        _id = URI + '#/$defs/P'

        @depend_on_prop('dt')
        def get_y(self):
            return str(self.dt)

    classes.update(P=P, date=Date, time=Time, datetime=Datetime)


def gen(rng):
    nt = rng.choice([1, 1, 1, 1, 2, 3])
    start = rng.choice([0, rng.randint(0, 40000), 18262 - 1, 10957 - 1, 59]) * DAY + rng.choice([DAY - 1, DAY - 1000, 0, rng.randint(0, DAY - 1)])
    clock = []
    for i in range(rng.choice([3, 10, 30])):
        clock.append(rng.choice([['add', 0], ['add', 1], ['add', rng.randint(1, 10 ** 7)], ['midnight', -1], ['midnight', 0], ['midnight', 1], ['add', DAY], ['add', -rng.randint(1, 3 * DAY)],
                                 ['add', 365 * DAY], ['year', -1], ['year', 0], ['add', -1]]))
    threads = []
    for t in range(nt):
        nobj = rng.choice([1, 2])
        ops = []
        for i in range(nobj):
            ops.append({'do': 'new', 'lazy': rng.random() < .5, 'with': {k: rng.choice(['now', 'today']) for k in rng.sample(['d', 't', 'dt', 'n.dt', 'n.d', 'l', 'dl', 'ddt'], rng.choice([0, 1, 3]))}})
        lits = 0
        for i in range(rng.choice([4, 10, 24] if nt == 1 else [3, 6, 10])):
            o = rng.randint(0, nobj - 1)
            x = rng.random()
            if x < .3:
                op = {'do': 'assign', 'obj': o, 'prop': rng.choice(['d', 't', 'dt', 'ddt', 'dd', 'pt', 'n.dt', 'n.d']), 'value': rng.choice(['now', 'now', 'today', 'today', 0, 1, 'zz']),
                      'by': rng.choice(['attr', 'item'])}
            elif x < .6:
                op = {'do': 'read', 'obj': o, 'prop': rng.choice(sorted(TYPES)), 'by': rng.choice(['attr', 'item', 'get'])}
            elif x < .72:
                op = {'do': rng.choice(['append', 'insert', 'replace']), 'obj': o, 'prop': rng.choice(['l', 'dl']), 'at': rng.randint(0, 3), 'value': rng.choice(['now', 'today', 'now', 0])}
            elif x < .76:
                op = {'do': 'pattern', 'obj': o, 'value': rng.choice(['now', 'today'])}
            elif x < .8:
                op = {'do': 'copy', 'obj': o}
            elif x < .84:
                op = {'do': 'direct', 'type': rng.choice(['date', 'time', 'datetime']), 'value': rng.choice(['now', 'today']), 'by': rng.choice(['call', 'evaluate', 'convert', 'check'])}
            elif x < .9:
                op = {'do': 'tick', 'by': rng.choice([1, DAY, -DAY, 3600 * 10 ** 6, -10, 400 * DAY])}
            else:
                op = {'do': rng.choice(['serialise', 'print', 'validate', 'computed', 'items']), 'obj': o}
            ops.append(op)
        threads.append({'ops': ops})
    return {'threads': threads, 'start': start, 'clock': clock, 'zone': rng.choice(ZONES), 'first': rng.randint(0, nt - 1),
            'switches': threadsim.random_switches(rng, rng.choice([200, 1000, 4000]), nt) if nt > 1 else []}


def valid(plan):
    if not plan['threads'] or plan['zone'] not in ZONES or not 0 <= plan['start'] <= 47000 * DAY:
        return False
    for c in plan['clock']:
        if c[0] not in ('add', 'midnight', 'year'):
            return False
    for th in plan['threads']:
        nobj = sum(op['do'] == 'new' for op in th['ops'])
        for op in th['ops']:
            if 'obj' in op and not 0 <= op['obj'] < nobj or op.get('value') not in (None, 'now', 'today', 'zz', 0, 1):
                return False
            if 'at' in op and op['at'] < 0:
                return False
    return True


class Value(object):
    """the value of a property: None (not set), a constant, or the clock to be read from this moment"""

    def __init__(self, kind, const=None, since=0, until=None):
        self.kind, self.const, self.since, self.until = kind, const, since, until
        self.known = kind in ('none', 'const')


def moment(us):
    return EPOCH + datetime.timedelta(microseconds=us)


def run(plan, env):
    build()
    if not valid(plan):
        raise core.Skip()
    nt = len(plan['threads'])
    import _thread
    logs = {}
    state = {'now': plan['start'], 'i': 0}
    marks = []

    def bound():
        state['now'] = min(max(state['now'], 0), 47400 * DAY)

    def hook(clock):
        # what happens before this reading of the clock
        if plan['clock']:
            c = plan['clock'][state['i'] % len(plan['clock'])]
            state['i'] += 1
            before = state['now']
            if c[0] == 'add':
                state['now'] += c[1]
            elif c[0] == 'midnight':
                state['now'] = (state['now'] // DAY + 1) * DAY + c[1]
            else:
                y = moment(state['now']).year
                state['now'] = int((datetime.datetime(y + 1, 1, 1) - EPOCH).total_seconds()) * 10 ** 6 + c[1]
            bound()
            if state['now'] != before + 1:
                marks.append('clock-stall' if state['now'] == before else 'clock-backwards' if state['now'] < before else
                             'clock-midnight' if state['now'] // DAY != before // DAY else 'clock-advance')
        clock.now = state['now'] / 1e6
        logs.setdefault(_thread.get_ident(), []).append(state['now'])

    def program(t, th):
        out = []

        def probe(p):
            out.append(('probe', p))

        class Mismatch(Exception):
            pass

        def fail(what, text):
            out.append(('fail', what, text))
            raise Mismatch()

        def body():
            log = logs.setdefault(_thread.get_ident(), [])
            objs = []

            def expected(typ, text, us):
                m = moment(us)
                if typ == 'date':
                    return m.date()
                if typ == 'time':
                    return m.time()
                if text == 'today':
                    m = m.replace(hour=0, minute=0, second=0, microsecond=0)
                return m

            def plain(typ, got):
                """the value, in comparable form"""
                if got is None:
                    return None
                if typ == 'datetime':
                    import arrow
                    if not isinstance(got, arrow.Arrow):
                        return 'not a datetime: %r' % (got,)
                    if got.utcoffset():
                        return 'with offset: %r' % (got,)
                    return got.naive
                want = datetime.date if typ == 'date' else datetime.time
                if type(got) is not want:
                    return 'not a %s: %r' % (typ, got)
                return got

            def observe(n, v, typ, got, where, was):
                """a value is seen at operation n, during which the clock was read from position was on"""
                got = plain(typ, got)
                if not v.known:
                    readings = log[v.since:len(log) if v.until is None else v.until]
                    ok = [us for us in readings if expected(typ, v.kind, us) == got]
                    if not ok:
                        fail('value', 'operation %d: %s, given as %s, is %s, which no reading of the clock from then on gives: %s' % (
                            n, where, v.kind, got, [str(moment(us)) for us in readings[-4:]]))
                    if len(readings) > 1:
                        days = {us // DAY for us in readings}
                        if len(days) > 1:
                            probe('midnight-inside')
                        if readings != sorted(readings):
                            probe('backwards-inside')
                        if len({moment(us).year for us in readings}) > 1:
                            probe('year-end-inside')
                    if was > v.since:
                        probe('first-read-later')
                    probe(v.kind)
                    v.known, v.const = True, got
                    v.at = log[-1] if log else 0
                    return
                if got != v.const:
                    fail('changed', 'operation %d: %s, given as %s, was %s and is now %s' % (n, where, v.kind, v.const, got))
                if v.kind in ('now', 'today'):
                    probe('read-again')
                    if state['now'] // DAY != v.at // DAY:
                        probe('read-after-jump')

            def new_value(text, typ, since, until):
                if text in ('now', 'today'):
                    return Value(text, None, since, until)
                if text in (0, 1):
                    x = LITERALS[typ][text]
                    if typ == 'date':
                        x = datetime.datetime.strptime(x, '%Y-%m-%d').date()
                    elif typ == 'time':
                        x = datetime.datetime.strptime(x, '%H:%M:%S').time()
                    return Value('const', x)
                raise core.Skip()

            def literal(text, typ):
                return text if isinstance(text, str) else LITERALS[typ][text]

            def access(o, prop, by):
                if by == 'item':
                    return o[prop]
                if by == 'get':
                    return o.get(prop)
                for p in prop.split('.'):
                    o = getattr(o, p)
                return o

            def attempt(f):
                try:
                    return ('ok', f())
                except (Mismatch, core.Skip):
                    raise
                except Exception as er:
                    return ('error', er)

            def see(n, m, prop, by, was):
                o = m['obj']
                v = m['values'].get(prop)
                if prop in ('l', 'dl'):
                    a = getattr(o, prop)
                    if len(a) != len(m[prop]):
                        fail('length', 'operation %d: the array %s has %d items instead of %d' % (n, prop, len(a), len(m[prop])))
                    for i, v in enumerate(m[prop]):
                        observe(n, v, TYPES[prop], a[i], 'item %d of %s' % (i, prop), was)
                        probe('item')
                    return
                if v is None:
                    v = m['values'][prop] = Value('none')
                got = access(o, prop, by)
                if prop in ('ddt', 'dd') and v.kind in ('now', 'today') and not v.known:
                    probe('default')
                if prop.startswith('n.'):
                    probe('nested')
                observe(n, v, TYPES[prop], got, prop, was)

            for n, op in enumerate(th['ops']):
                do = op['do']
                was = len(log)
                if do == 'tick':
                    state['now'] += op['by']
                    bound()
                    out.append(('fault', 'clock-jump'))
                    continue
                if do == 'new':
                    kw = {}
                    for k, text in op['with'].items():
                        if k not in TYPES or text not in ('now', 'today'):
                            raise core.Skip()
                        if k.startswith('n.'):
                            kw.setdefault('n', {})[k[2:]] = text
                        elif k in ('l', 'dl'):
                            kw[k] = [text, text]
                        else:
                            kw[k] = text
                        probe('created-with')
                    if op['lazy']:
                        kw['lazyLoading'] = True
                    o = classes['P'](**kw)
                    until = None if op['lazy'] else len(log)
                    m = {'obj': o, 'lazy': op['lazy'], 'values': {}, 'l': [], 'dl': []}
                    for k, text in op['with'].items():
                        if k in ('l', 'dl'):
                            m[k] = [new_value(text, TYPES[k], was, None) for i in range(2)]
                        else:
                            m['values'][k] = new_value(text, TYPES[k], was, until if not k.startswith('n.') else None)
                    m['values'].setdefault('ddt', Value('now', None, was))
                    m['values'].setdefault('dd', Value('today', None, was))
                    m['values'].setdefault('pt', Value('none'))
                    probe('lazy' if op['lazy'] else 'immediate')
                    objs.append(m)
                    continue
                if do == 'direct':
                    ty = classes[op['type']]
                    by = op['by']
                    if op['value'] not in ('now', 'today'):
                        raise core.Skip()
                    got = ty()(op['value']) if by == 'call' else ty.evaluate(op['value']) if by == 'evaluate' else ty.convert(op['value']) if by == 'convert' else \
                        ty.check(op['value'], convert=True)
                    probe('direct' if by == 'call' else 'class-evaluate')
                    if by == 'check':
                        if got is not True:
                            fail('value', 'operation %d: %s is not taken as a %s' % (n, op['value'], op['type']))
                        continue
                    observe(n, Value(op['value'], None, was), op['type'], got, 'a %s evaluated by %s' % (op['type'], by), was)
                    continue
                m = objs[op['obj']] if op['obj'] < len(objs) else None
                if m is None:
                    raise core.Skip()
                o = m['obj']
                if do == 'assign':
                    prop, text = op['prop'], op['value']
                    typ = TYPES[prop]
                    if prop.startswith('n.') and not any(k.startswith('n.') for k in m['values']):
                        o.n = {}
                    obj, name = (o.n, prop[2:]) if prop.startswith('n.') else (o, prop)
                    since = len(log)
                    value = literal(text, typ)
                    if prop == 'pt':
                        m['pattern'] = False
                    x = attempt(lambda: obj.__setitem__(name, value) if op['by'] == 'item' else setattr(obj, name, value))
                    if text == 'zz':
                        if x[0] == 'error':
                            probe('refused')
                            if not m['lazy']:
                                continue        # the previous value stays
                        # lazy: put something which can be read
                        obj.__setitem__(name, literal(0, typ))
                        m['values'][prop] = new_value(0, typ, since, None)
                        continue
                    if x[0] == 'error':
                        raise x[1]
                    old = m['values'].get(prop)
                    if old and old.kind in ('now', 'today'):
                        probe('reassigned' if text != old.kind else 'reassigned-same')
                        if old.known and isinstance(text, int):
                            probe('reassigned-literal')
                    # nested objects might be lazy in an immediate one
                    m['values'][prop] = new_value(text, typ, since, None if m['lazy'] or prop.startswith('n.') else len(log))
                elif do == 'read':
                    probe('prop:' + op['prop'])
                    if op['prop'].startswith('n.') and op['prop'] not in m['values']:
                        continue
                    see(n, m, op['prop'], op['by'], was)
                elif do in ('append', 'insert', 'replace'):
                    prop, typ = op['prop'], TYPES[op['prop']]
                    a = getattr(o, prop)
                    if not m.get('has ' + prop) and not m[prop]:
                        # an object without array gives an empty one, which it does not keep
                        setattr(o, prop, [])
                        a = getattr(o, prop)
                    m['has ' + prop] = True
                    v = new_value(op['value'], typ, len(log), None)
                    value = literal(op['value'], typ)
                    if do == 'append' or do == 'replace' and not m[prop]:
                        a.append(value)
                        m[prop].append(v)
                    elif do == 'insert':
                        at = min(op['at'], len(m[prop]))
                        a.insert(at, value)
                        m[prop].insert(at, v)
                        probe('item-inserted')
                    else:
                        at = op['at'] % len(m[prop])
                        a[at] = value
                        m[prop][at] = v
                        probe('item-replaced')
                elif do == 'pattern':
                    if op['value'] not in ('now', 'today'):
                        raise core.Skip()
                    if m.get('pattern'):
                        probe('pattern-changed')
                    if m.get('pattern') and m.get('s') == op['value']:
                        continue        # nothing changes
                    if m.get('pattern') and not m['values']['pt'].known:
                        continue        # not read yet: the value of before may come back with its input
                    o.s = op['value']
                    since = len(log)
                    o.pt = '{{s}}'
                    if m.get('pattern') and m['values']['pt'].kind == op['value']:
                        continue
                    m['s'] = op['value']
                    m['pattern'] = True
                    probe('pattern')
                    m['values']['pt'] = Value(op['value'], None, was)
                elif do == 'copy':
                    before = {k: v for k, v in m['values'].items()}
                    c = o.copy()
                    probe('copied')
                    for k, v in before.items():
                        if k in ('pt', 'n.dt', 'n.d') or v.kind not in ('now', 'today', 'const'):
                            continue
                        got = access(c, k, 'attr')
                        if v.known:
                            observe(n, v, TYPES[k], got, 'the copy of ' + k, was)
                        else:
                            observe(n, Value(v.kind, None, v.since), TYPES[k], got, 'the copy of ' + k, was)
                elif do == 'serialise':
                    d = o.do_serialize()
                    probe('serialised')
                    for k in TOP:
                        v = m['values'].get(k)
                        if v is None or v.kind == 'none':
                            continue
                        if k not in d:
                            continue
                        see(n, m, k, 'attr', was)
                        text = v.const.isoformat() + ('+00:00' if TYPES[k] == 'datetime' else '')
                        if d[k] != text:
                            fail('serialised', 'operation %d: %s is serialised as %s and read as %s' % (n, k, d[k], v.const))
                elif do == 'print':
                    str(o), repr(o)
                    probe('printed')
                elif do == 'validate':
                    x = attempt(lambda: o.do_validate())
                    probe('validated')
                elif do == 'computed':
                    v = m['values'].get('dt')
                    if v is None or v.kind == 'none':
                        continue
                    y = o.y
                    probe('computed-from-date')
                    see(n, m, 'dt', 'attr', was)
                    if y != str(o.dt):
                        fail('computed', 'operation %d: what is computed from dt is %s, and dt is %s' % (n, y, o.dt))
                elif do == 'items':
                    for k, x in list(o.items()):
                        v = m['values'].get(k)
                        if k in TOP and v is not None:
                            observe(n, v, TYPES[k], x, k, was)
                else:
                    raise core.Skip()
            # at the end everything is still the same
            for m in objs:
                was = len(log)
                for k in sorted(m['values']):
                    if k.startswith('n.') and m['values'][k].kind == 'none':
                        continue
                    see(len(th['ops']), m, k, 'attr', was)
                for k in ('l', 'dl'):
                    see(len(th['ops']), m, k, 'attr', was)
            return out

        def safe():
            try:
                return body()
            except Mismatch:
                return out
        return safe

    tz = os.environ.get('TZ')
    os.environ['TZ'] = plan['zone']
    time.tzset()
    core.clock.start(plan['start'] / 1e6, hook)
    try:
        if nt == 1:
            results = [('ok', program(0, plan['threads'][0])())]
            trace = []
        else:
            s = threadsim.Scheduler([tuple(x) for x in plan['switches']], 3000000)
            results = s.run([program(t, th) for t, th in enumerate(plan['threads'])], plan['first'])
            env.steps += s.step
            env.log('trace', s.trace)
            trace = s.trace
            if s.taken:
                env.fault('thread-switch', s.taken)
                env.probe('switched')
            if s.abort:
                return env.fail(*s.abort)
    finally:
        core.clock.stop()
        if tz is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = tz
        time.tzset()
    n = sum(len(x) for x in logs.values())
    env.vtime += abs(state['now'] - plan['start']) / 1e6
    for k in marks:
        env.fault(k)
        if k == 'clock-stall':
            env.probe('stalled')
    if plan['zone'] != 'UTC0':
        env.probe('other-zone')
    env.sign(plan['threads'], plan['clock'], n, trace)
    env.probe('threads:%d' % nt)
    for t, r in enumerate(results):
        if r[0] == 'error':
            if not r[2]:
                raise r[1]
            env.fail('unexpected-error', 'thread %d: %s: %s' % (t, type(r[1]).__name__, r[1]))
        for what in r[1]:
            env.log(t, *what)
            if what[0] == 'fail':
                env.fail(*what[1:])
            elif what[0] == 'probe':
                env.probe(what[1])
            elif what[0] == 'fault':
                env.fault(what[1])
