"""C11: arrays behave as lists of validated items."""
import copy
import decimal

import core

ID = 'C11'
LEVEL = 'exploration'
QUICK = (2400, 50)
THOROUGH = (150000, 200)
RULE = 'an execution is the kinds of arrays, the sequence of operations with what makes them fail, and the outcomes'
REAL = ['ngoschema array and object protocols, type builder, converters and validators']
STUBS = ['values and iterables failing when the plan says']
ASSUMPTIONS = ['items are all of one type', 'the owner of an array validates immediately', 'PyPy 3.9 interpreter']
PROBES = ['lazy', 'eager', 'held', 'alone', 'unique', 'int', 'str', 'num', 'obj', 'arr', 'accepted', 'invalid-item', 'out-of-range', 'slice-size', 'fragile',
          'broken-iterable', 'not-found', 'read-invalid', 'recovered', 'nested-change', 'moved', 'whole', 'text', 'stepped-slice', 'negative', 'long',
          'reversed', 'extend-self', 'two-arrays', 'same-list', 'list-changed', 'copied', 'lazy-invalid-kept']

serial = [0]
KINDS = ('int', 'str', 'num', 'obj', 'arr')
ITEMS = {'int': {'type': 'integer', 'minimum': 0, 'maximum': 99},
         'str': {'type': 'string', 'maxLength': 8},
         'num': {'type': 'number', 'minimum': 0, 'maximum': 99},
         'obj': {'type': 'object', 'properties': {'x': {'type': 'integer', 'minimum': 0, 'maximum': 99}}, 'additionalProperties': False},
         'arr': {'type': 'array', 'items': {'type': 'integer', 'minimum': 0, 'maximum': 99}}}
BAD = {'int': [500, -1, 'abc', {'x': 1}], 'str': ['y' * 20], 'num': [500, 'abc'], 'obj': [{'x': 500}, {'x': 'abc'}, {'zz': 1}], 'arr': [[500], ['abc'], [1, -1]]}
ERRORS = {'OSError': OSError, 'RuntimeError': RuntimeError, 'MemoryError': MemoryError, 'ValueError': ValueError, 'LookupError': LookupError}
ARMED = [None]


class Fail(Exception):
    pass


def trip():
    if ARMED[0]:
        raise ERRORS[ARMED[0]]('simulated failure of a value')


class FragileInt(object):
    def __init__(self, v):
        self.v = v

    def __int__(self):
        trip()
        return self.v

    def __index__(self):
        trip()
        return self.v

    def __str__(self):
        trip()
        return str(self.v)

    def __repr__(self):
        return 'Fragile(%r)' % self.v


class FragileDict(dict):
    def __getitem__(self, k):
        trip()
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        trip()
        return dict.get(self, k, d)

    def items(self):
        trip()
        return dict.items(self)

    def keys(self):
        trip()
        return dict.keys(self)

    def __iter__(self):
        trip()
        return dict.__iter__(self)


def prepare():
    import random
    rng = random.Random(7)
    for i in range(6):
        try:
            run(gen(rng), core.Env())
        except core.Violation:
            pass


# ---------------------------------------------------------------- plans

def gen_item(rng, kind, bad=.12, frag=.1):
    r = rng.random()
    if r < bad:
        return {'bad': rng.randint(0, len(BAD[kind]) - 1)}
    n = rng.choice([rng.randint(0, 4), rng.randint(0, 99)])
    it = {'v': n}
    if r < bad + frag and kind != 'num':
        it['frag'] = 1
    elif rng.random() < .3:
        it['conv'] = 1
    return it


def gen_pos(rng):
    return rng.choice([0, 0, 1, 1, 2, 3, -1, -1, -2, -3, rng.randint(-12, 12)])


def gen_slice(rng):
    s = [rng.choice([None, gen_pos(rng)]), rng.choice([None, gen_pos(rng)]), rng.choice([None, None, None, 1, 2, -1, -2, 3])]
    return s


def gen(rng):
    arrays = []
    for i in range(rng.choice([1, 1, 2])):
        lazy = rng.random() < .5
        kind = rng.choice(KINDS)
        arrays.append({'kind': kind, 'lazy': lazy, 'held': rng.random() < .5,
                       'unique': not lazy and kind in ('int', 'str') and rng.random() < .15,
                       'start': [gen_item(rng, kind, .1 if lazy else 0) for j in range(rng.choice([0, 1, 2, 3, 5, 11]))]})
        if i and rng.random() < .5:
            # from the very same list as the first one
            arrays[1].update(kind=arrays[0]['kind'], lazy=arrays[0]['lazy'], unique=arrays[0]['unique'], same=True, start=[])
    ops = []
    for i in range(rng.randint(3, 40)):
        a = rng.randint(0, len(arrays) - 1)
        k = arrays[a]['kind']
        do = rng.choice(['set', 'set', 'del', 'insert', 'insert', 'append', 'append', 'extend', 'iadd', 'setslice', 'setslice', 'delslice', 'pop', 'remove', 'reverse',
                         'clear', 'read', 'read', 'readslice', 'index', 'contains', 'count', 'iter', 'text', 'nested', 'move', 'whole', 'extself', 'outer', 'copy'])
        op = {'a': a, 'do': do, 'full': rng.random() < .3}
        if do in ('set', 'insert', 'append', 'remove', 'index', 'contains', 'count', 'nested', 'pop', 'del', 'read', 'move'):
            op['i'] = gen_pos(rng)
            op['item'] = gen_item(rng, k, 0 if do in ('remove', 'index', 'contains', 'count') else .2)
        if do in ('extend', 'iadd', 'setslice', 'whole'):
            op['items'] = [gen_item(rng, k) for j in range(rng.choice([0, 1, 2, 2, 3, 12]))]
            if do != 'whole' and rng.random() < .2:
                op['broken'] = rng.randint(0, len(op['items']))
        if do in ('setslice', 'delslice', 'readslice'):
            op['slice'] = gen_slice(rng)
        if do == 'move':
            op['to'] = rng.randint(0, len(arrays) - 1)
            op['j'] = gen_pos(rng)
        if do == 'outer':
            op.update(n=rng.randint(0, 3), how=rng.choice(['append', 'pop', 'clear', 'reverse']))
        if do in ('clear', 'whole') and rng.random() < .6:
            op['do'] = 'read'
            op['i'] = gen_pos(rng)
        if rng.random() < .3:
            op['armed'] = rng.choice(sorted(ERRORS))
        ops.append(op)
    return {'arrays': arrays, 'ops': ops}


def ok_item(it, kind):
    if not isinstance(it, dict):
        return False
    if 'bad' in it:
        return 0 <= it['bad'] < len(BAD[kind])
    return isinstance(it.get('v'), int) and not isinstance(it['v'], bool) and 0 <= it['v'] <= 99 and not (it.get('frag') and kind == 'num')


def check_plan(plan):
    if not plan['arrays']:
        raise core.Skip()
    for a in plan['arrays']:
        if a['unique'] and (a['lazy'] or a['kind'] not in ('int', 'str')):
            raise core.Skip()
        if not all(ok_item(x, a['kind']) and (a['lazy'] or 'bad' not in x) for x in a['start']):
            raise core.Skip()
    for i, a in enumerate(plan['arrays']):
        if a.get('same') and (not i or any(a[k] != plan['arrays'][0][k] for k in ('kind', 'lazy', 'unique'))):
            raise core.Skip()
    for op in plan['ops']:
        if not 0 <= op['a'] < len(plan['arrays']) or not 0 <= op.get('to', 0) < len(plan['arrays']):
            raise core.Skip()
        k = plan['arrays'][op['a']]['kind']
        for x in op.get('items', []) + ([op['item']] if 'item' in op else []):
            if not ok_item(x, k):
                raise core.Skip()
        if op['do'] in ('remove', 'index', 'contains', 'count') and 'bad' in op['item']:
            raise core.Skip()
        if 'slice' in op and (len(op['slice']) != 3 or op['slice'][2] == 0):
            raise core.Skip()


# ---------------------------------------------------------------- the reference list

class Cell(object):
    """an item: what was given (raw), the value it stands for; known to have been read or not"""

    def __init__(self, kind, it):
        self.kind = kind
        self.bad = 'bad' in it
        self.frag = bool(it.get('frag'))
        self.read = 'no'
        n = it.get('v')
        if self.bad:
            self.raw = copy.deepcopy(BAD[kind][it['bad']])
            self.value = None
            return
        conv = it.get('conv')
        if kind == 'int':
            self.value = n
            self.raw = FragileInt(n) if self.frag else str(n) if conv else n
        elif kind == 'str':
            self.value = ('s%d' if not conv and not self.frag else '%d') % n
            self.raw = FragileInt(n) if self.frag else n if conv else self.value
        elif kind == 'num':
            self.value = decimal.Decimal(n) / 2
            self.raw = str(self.value) if conv else n / 2
        elif kind == 'obj':
            self.value = {'x': n}
            self.raw = FragileDict(x=n) if self.frag else {'x': str(n) if conv else n}
        else:
            self.value = [n, 7]
            self.raw = [FragileInt(n), 7] if self.frag else (n, 7) if conv else [n, 7]

    def given(self):
        """what is given to the array"""
        return self.raw

    def again(self):
        """the same item at another place"""
        c = Cell.__new__(Cell)
        c.__dict__.update(self.__dict__)
        return c

    def get(self, sure=True):
        if self.bad or self.frag and ARMED[0] and self.read == 'no':
            raise Fail(self.bad)
        if sure:
            self.read = 'yes'
        return self.value


def moved(c, real):
    c = c.again()
    c.raw = real
    c.frag = False
    c.read = 'maybe'
    return c


class Broken(Exception):
    pass


def feed(values, broken):
    for i, v in enumerate(values):
        if i == broken:
            raise Broken('simulated: the iterable fails')
        yield v
    if broken is not None and broken >= len(values):
        raise Broken('simulated: the iterable fails')


def plain(x, kind):
    if kind == 'obj':
        return {'x': int(x['x'])} if 'x' in x and len([k for k in x]) == 1 else ('strange', sorted(x))
    if kind == 'arr':
        return [i for i in x]
    return x


def same(x, v, kind):
    if kind == 'num' and not isinstance(x, decimal.Decimal):
        return False
    if kind == 'int' and (not isinstance(x, int) or isinstance(x, bool)):
        return False
    if kind == 'str' and not isinstance(x, str):
        return False
    return plain(x, kind) == v


def build(plan):
    from ngoschema.protocols import SchemaMetaclass
    serial[0] += 1
    props = {}
    for i, a in enumerate(plan['arrays']):
        s = {'type': 'array', 'items': ITEMS[a['kind']], 'lazyLoading': a['lazy']}
        if a['unique']:
            s['uniqueItems'] = True
        props['f%d' % i] = s
    sch = {'type': 'object', 'properties': props, 'additionalProperties': False}
    return SchemaMetaclass('C11x%d' % serial[0], (), {'_schema': sch, '_lazyLoading': False, '_id': 'http://sim/c11/%d' % serial[0], '__module__': 'sim_c11'})


def forget():
    from ngoschema.managers.type_builder import type_builder
    from ngoschema.resolvers.uri_resolver import UriResolver
    uri = 'http://sim/c11/%d' % serial[0]
    for k in [k for k in type_builder._registry if k.startswith(uri)]:
        del type_builder._registry[k]
    UriResolver.unregister_doc(uri)


# ---------------------------------------------------------------- execution

def run(plan, env):
    check_plan(plan)
    ARMED[0] = None
    specs = plan['arrays']
    try:
        _run(plan, env, specs)
    finally:
        ARMED[0] = None
        forget()


def _run(plan, env, specs):
    cls = build(plan)
    lists, arrs, owners = [], [], []
    if len(specs) > 1:
        env.probe('two-arrays')
    inside = []         # those that are items of them
    sources = []        # the lists given to arrays, and what they contain

    def source(values):
        if type(values) is list:
            sources.append([values, list(values)])
            inside.extend((x, x.copy()) for x in values if type(x) in (list, dict))
        return values

    for i, s in enumerate(specs):
        if s.get('same'):
            env.probe('same-list')
            cells = [Cell(s['kind'], x) for x in specs[0]['start']]
            given = sources[0][0]
            for c, x in zip(cells, given):
                c.raw = x
        else:
            cells = [Cell(s['kind'], x) for x in s['start']]
            given = source([c.given() for c in cells])
        name = 'f%d' % i
        if s['held']:
            o = cls(**{name: given})
            owners.append(o)
            arrs.append(o[name])
        else:
            o = cls(**{name: []})
            owners.append(None)
            arrs.append(type(o[name])(given))
        if not s['lazy']:
            for c in cells:
                c.get()
        lists.append(cells)
        for p in ('held' if s['held'] else 'alone', 'lazy' if s['lazy'] else 'eager', s['kind']) + (('unique',) if s['unique'] else ()):
            env.probe(p)
        env.sign(s['kind'], s['lazy'], s['held'], s['unique'], len(cells))
    bound = {}      # id of the reference value of an item -> the object of the array

    def bind(v, x):
        if isinstance(v, (dict, list)):
            k = bound.setdefault(id(v), (x, v))
            env.check(k[0] is x, 'identity', 'reading an item again gives another object')

    def full(i, what):
        s, a, cells = specs[i], arrs[i], lists[i]
        env.check(len(a) == len(cells), 'length', '%s the array has %d items instead of %d' % (what, len(a), len(cells)))
        for j, c in enumerate(cells):
            try:
                x = a[j]
            except Exception as er:
                env.check(c.bad, 'item', '%s reading item %d raises %s: %s' % (what, j, type(er).__name__, er))
                env.probe('read-invalid')
                continue
            env.check(not c.bad, 'accepted', '%s item %d is read although it is invalid' % (what, j))
            v = c.get()
            env.check(same(x, v, s['kind']), 'item', '%s item %d is %r instead of %r' % (what, j, plain(x, s['kind']), v))
            bind(v, x)
        if not any(c.bad for c in cells):
            got = [plain(x, s['kind']) for x in a]
            env.check(got == [c.value for c in cells], 'items', '%s iterating gives %r' % (what, got))
            env.check([plain(x, s['kind']) for x in a[:]] == got, 'items', '%s the whole slice differs from the items' % what)
            if specs[i]['held']:
                env.check(owners[i]['f%d' % i] is a, 'owner', '%s the owner gives another array' % what)

    def text(i):
        a, cells, kind = arrs[i], lists[i], specs[i]['kind']
        t = str(a)
        env.check(t[:1] == '[' and t[-1:] == ']', 'text', 'text %r' % t)
        pos = 1
        for j, c in enumerate(cells[:10]):
            if j:
                env.check(t[pos:pos + 2] == ', ', 'text', 'text %r of %r' % (t, [x.value for x in cells]))
                pos += 2
            alts = []
            if c.value is not None:
                if kind in ('obj', 'arr'):
                    q = type(bound[id(c.value)][0]).qualname() if id(c.value) in bound else None
                    if q:
                        alts.append('%s(%s)' % (q, 'x=%d' % c.value['x'] if kind == 'obj' else '[%s]' % ', '.join('%r' % x for x in c.value)))
                    elif c.read == 'yes':
                        return
                else:
                    alts.append(repr(c.value))
            if c.read != 'yes' and not isinstance(c.raw, (FragileDict,)):
                alts.append(repr(c.raw))
            if isinstance(c.raw, FragileDict) and c.read != 'yes' or any(len(x) > 38 for x in alts) or not alts:
                return
            for x in alts:
                if t.startswith(x, pos):
                    pos += len(x)
                    break
            else:
                env.fail('text', 'the text is %r, item %d is %r' % (t, j, alts[0]))
        rest = ', +%d...' % (len(cells) - 10) if len(cells) > 10 else ''
        env.check(t[pos:] == rest + ']', 'text', 'the text %r of %d items ends with %r' % (t, len(cells), t[pos:]))
        env.probe('text')

    failed = [False] * len(specs)
    for n, op in enumerate(plan['ops']):
        i, do = op['a'], op['do']
        s = specs[i]
        kind, lazy = s['kind'], s['lazy']
        a, cells = arrs[i], lists[i]
        armed = op.get('armed') if do in ('set', 'insert', 'append', 'extend', 'iadd', 'setslice', 'whole', 'read') else None
        env.steps += 1
        # what must happen on the reference list; `why` tells why it must fail
        after = list(cells)
        why, lists_error, result, maybe = None, None, None, False
        new = [Cell(kind, x) for x in op.get('items', [])]
        one = Cell(kind, op['item']) if 'item' in op else None
        sl = slice(*op['slice']) if 'slice' in op else None
        pos = op.get('i')
        ARMED[0] = armed

        def find(target, start=0):
            for j, c in enumerate(cells[start:], start):
                if (c.get() is target if kind == 'obj' else c.get() == target):
                    return j
            return None

        def entering(cs):
            # items given to an array that validates immediately
            if not lazy:
                for c in cs:
                    try:
                        c.get()
                    except Fail:
                        return 'invalid-item' if c.bad else 'fragile'

        j = None
        target = None
        if do == 'outer':
            # what the caller does with a list after giving it does not concern the array
            lst = sources[op['n'] % len(sources)]
            if lst[0] or op['how'] != 'pop':
                getattr(lst[0], op['how'])(*[None] * (op['how'] == 'append'))
            lst[1] = list(lst[0])
            env.probe('list-changed')
            env.log(do, op['how'])
            full(i, 'after its list was changed,')
            continue
        values = source([c.given() for c in new])
        if op.get('broken') is not None and do in ('extend', 'iadd', 'setslice'):
            values = feed(values, op['broken'])
        try:
            if do in ('remove', 'index', 'contains', 'count'):
                # an item of the array for objects and arrays, a value otherwise
                if kind in ('obj', 'arr'):
                    if not cells:
                        continue
                    j = pos % len(cells)
                    if cells[j].bad:
                        continue
                    want = cells[j].get()
                    target = a[j]
                    bind(want, target)
                else:
                    want = target = one.value
                if do == 'count':
                    result = sum(1 for c in cells if (c.get() is want if kind == 'obj' else c.get() == want))
                else:
                    k = find(want)
                    result = k
                    if k is None:
                        why = 'not-found'
                        lists_error = ValueError
                    elif do == 'remove':
                        del after[k]
                    if do == 'contains':
                        result, why = k is not None, None
                act = {'remove': lambda: a.remove(target), 'index': lambda: a.index(target), 'contains': lambda: target in a,
                       'count': lambda: a.count(target)}[do]
                if do == 'remove':
                    result = None
            elif do == 'set':
                try:
                    after[pos] = one
                except IndexError:
                    why, lists_error = 'out-of-range', IndexError
                if why is None:
                    why = entering([one])
                act = lambda: a.__setitem__(pos, one.given())
            elif do == 'del':
                try:
                    del after[pos]
                except IndexError:
                    why, lists_error = 'out-of-range', IndexError
                act = lambda: a.__delitem__(pos)
            elif do in ('insert', 'append'):
                if do == 'insert':
                    after.insert(pos, one)
                else:
                    after.append(one)
                why = entering([one])
                act = (lambda: a.insert(pos, one.given())) if do == 'insert' else (lambda: a.append(one.given()))
            elif do in ('extend', 'iadd'):
                after.extend(new)
                why = 'broken-iterable' if op.get('broken') is not None else None
                why = why or entering(new)
                def act():
                    if do == 'extend':
                        return a.extend(values)
                    b = a
                    b += values
                    env.check(b is a, 'iadd', 'adding in place gives another array')
            elif do == 'extself':
                if len(cells) > 30 or any(c.bad for c in cells):
                    continue
                env.probe('extend-self')
                after = cells + [moved(c, None) for c in cells]
                for c in after:
                    c.read = 'maybe' if lazy else 'yes'
                    c.get()
                act = lambda: a.extend(a)
            elif do == 'setslice':
                if sl.step not in (None, 1):
                    env.probe('stepped-slice')
                if op.get('broken') is not None:
                    why = 'broken-iterable'
                else:
                    try:
                        after[sl] = new
                    except ValueError:
                        why, lists_error = 'slice-size', ValueError
                    why = why or entering(new)
                act = lambda: a.__setitem__(sl, values)
            elif do == 'delslice':
                del after[sl]
                act = lambda: a.__delitem__(sl)
            elif do == 'readslice':
                result = [c.get() for c in cells[sl]]
                act = lambda: a[sl]
            elif do == 'pop':
                try:
                    c = after.pop(pos) if n % 2 else after.pop()
                    result = c.get()
                except IndexError:
                    why, lists_error = 'out-of-range', IndexError
                act = (lambda: a.pop(pos)) if n % 2 else (lambda: a.pop())
            elif do == 'reverse':
                for k in range(len(cells) // 2):
                    cells[k].get()
                    cells[-1 - k].get()
                after.reverse()
                env.probe('reversed')
                act = a.reverse
            elif do == 'copy':
                b = a.copy()
                env.check(b is not a and len(b) == len(cells), 'copy', 'the copy has %d items instead of %d' % (len(b), len(cells)))
                for j, c in enumerate(cells):
                    if not c.bad:
                        v = c.get()
                        env.check(same(b[j], v, kind), 'copy', 'item %d of the copy is %r instead of %r' % (j, plain(b[j], kind), v))
                        if not lazy:
                            bind(v, b[j])
                if n % 2:
                    b.clear()
                elif len(b):
                    del b[0]
                env.probe('copied')
                env.log(do)
                full(i, 'after its copy was changed,')
                continue
            elif do == 'clear':
                after = []
                act = a.clear
            elif do == 'read':
                try:
                    c = cells[pos]
                    maybe = bool(armed) and c.read == 'maybe' and c.frag
                    result = c.get()
                except IndexError:
                    why, lists_error = 'out-of-range', IndexError
                act = lambda: a[pos]
            elif do == 'iter':
                result = [c.get() for c in cells]
                act = lambda: list(reversed(a))[::-1] if n % 3 == 0 else list(a)
            elif do == 'text':
                text(i)
                continue
            elif do == 'nested':
                if kind not in ('obj', 'arr') or not cells:
                    continue
                j = pos % len(cells)
                if cells[j].bad:
                    continue
                v = cells[j].get()
                x = a[j]
                bind(v, x)
                bad = 'bad' in op['item']
                m = 500 if bad else op['item']['v']
                env.probe('nested-change')
                if kind == 'obj':
                    act = lambda: setattr(x, 'x', m)
                    if not bad:
                        v['x'] = m
                else:
                    act = lambda: x.append(m)
                    if not bad:
                        v.append(m)
                why = 'invalid-item' if bad else None
            elif do == 'move':
                k = op['to']
                if specs[k]['kind'] != kind or not cells:
                    continue
                j = pos % len(cells)
                if cells[j].bad:
                    continue
                if kind in ('obj', 'arr') and k != i:
                    continue        # types of items differ: it would be another object
                v = cells[j].get()
                x = a[j]
                bind(v, x)
                c = moved(cells[j], x)
                if not specs[k]['lazy']:
                    c.read = 'yes'
                tgt = lists[k]
                if k == i:
                    after.insert(op['j'], c)
                else:
                    tgt.insert(op['j'], c)
                b = arrs[k]
                env.probe('moved')
                act = lambda: b.insert(op['j'], x)
            elif do == 'whole':
                if not s['held']:
                    continue
                env.probe('whole')
                why = entering(new)
                after = new
                act = lambda: setattr(owners[i], 'f%d' % i, values)
            else:
                raise core.Skip()
        except Fail:
            why = 'read-invalid' if why is None else why
            if armed and do == 'read' and not cells[pos].bad:
                why = 'fragile'
            act = {'remove': lambda: a.remove(target), 'index': lambda: a.index(target), 'contains': lambda: target in a, 'count': lambda: a.count(target),
                   'readslice': lambda: a[sl], 'pop': (lambda: a.pop(pos)) if n % 2 else (lambda: a.pop()), 'reverse': a.reverse, 'read': lambda: a[pos],
                   'iter': lambda: list(a)}[do]
            after = list(cells)
        if s['unique'] and why is None and len(set(c.value for c in after if not c.bad)) < len(after):
            maybe = True
        got = None
        try:
            got = act()
            out = 'ok'
        except Exception as er:
            out, err = type(er).__name__, er
        ARMED[0] = None
        env.log(do, i, why, out)
        env.sign(do, i, why, out)
        if why == 'fragile':
            env.fault('failing-value')
        elif why == 'broken-iterable':
            env.fault('failing-iterable')
        elif why:
            env.fault(why)
        if why is None and maybe and out != 'ok':
            after = cells
        elif why is None:
            if out != 'ok':
                raise err
            env.probe('accepted')
            if isinstance(pos, int) and pos < 0:
                env.probe('negative')
            if failed[i]:
                env.probe('recovered')
            if do in ('index', 'contains', 'count'):
                env.check(got == result, 'result', '%s gives %r instead of %r' % (do, got, result))
            elif do in ('pop', 'read'):
                env.check(same(got, result, kind), 'result', '%s gives %r instead of %r' % (do, plain(got, kind), result))
                bind(result, got)
            elif do in ('readslice', 'iter'):
                env.check(len(got) == len(result) and all(same(x, v, kind) for x, v in zip(got, result)), 'result', '%s gives %r instead of %r' % (do, got, result))
                for x, v in zip(got, result):
                    bind(v, x)
            if do == 'whole':
                arrs[i] = owners[i]['f%d' % i]
            lists[i] = after
            if do == 'reverse' or do == 'extself':
                for c in after:
                    if c.read != 'yes':
                        c.read = 'maybe'
            if lazy and any(c.bad for c in after):
                env.probe('lazy-invalid-kept')
            if len(after) > 10:
                env.probe('long')
        else:
            env.probe(why)
            if maybe and out == 'ok':
                pass
            else:
                env.check(out != 'ok', 'accepted', '%s must fail (%s) and does not' % (do, why))
                if lists_error:
                    env.check(isinstance(err, lists_error), 'error', '%s raises %s instead of %s' % (do, out, lists_error.__name__))
                failed[i] = True
                if do == 'reverse':
                    for c in cells:
                        c.read = 'maybe' if c.read != 'no' or c.frag else c.read
        env.check(all(len(x) == len(y) and all(p is q for p, q in zip(x, y)) for x, y in sources), 'given', '%s changes a list that was given to an array' % do)
        env.check(all(len(x) == len(y) and all(x[k] is y[k] for k in (y if type(y) is dict else range(len(y)))) for x, y in inside), 'given', '%s changes what was given as an item' % do)
        env.check(len(arrs[i]) == len(lists[i]), 'length', 'after %s %s, the array has %d items instead of %d' % (
            do, 'failing (%s)' % why if why else '', len(arrs[i]), len(lists[i])))
        if op['full'] or why and not lazy:
            full(i, 'after %s%s,' % (do, ' failing (%s)' % why if why else ''))
            if not lazy:
                text(i)
    for i in range(len(specs)):
        full(i, 'at the end,')
        text(i)
