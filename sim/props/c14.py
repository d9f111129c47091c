"""C14: the result of a query does not depend on how and when others are consumed."""
import _thread
import operator

import core
import threadsim

ID = 'C14'
LEVEL = 'exploration'
QUICK = (8000, 100)
THOROUGH = (400000, 400)
RULE = 'an execution is the source, the queries derived, the ways they are consumed by each thread with the failures, and the interleaving reached'
REAL = ['ngoschema queries and filters', 'ngoschema objects and arrays (in part of the runs)', 'interpreter threads']
STUBS = ['sources and values which fail when the plan says', 'locks (simulated)']
ASSUMPTIONS = ['the source and its objects are not changed while they are queried', 'a source which can be iterated once either does not fail, or gives after a failure the element it failed to give',
               'threads are switched between source lines of the library, not inside a line', 'PyPy 3.9 interpreter']
SOURCES = ['list', 'tuple', 'again', 'values', 'once', 'retry', 'array']
PROBES = ['source:' + s for s in SOURCES] + [
    'filter', 'exclude', 'filter_any_of', 'exclude_any_of', 'order_by', 'reverse', 'union', 'intersection', 'difference', 'distinct', 'ordered-filter',
    'list', 'open', 'step', 'abandon', 'len', 'index', 'index-out', 'slice', 'contains', 'contains-not', 'first', 'last', 'first-none', 'all', 'empty', 'get', 'get-none',
    'get-several', 'next', 'next-none', 'source-failed', 'comparison-failed', 'complete-after-failure', 'criteria-error', 'order-error', 'derived-from-derived',
    'derived-after-consumption', 'failed-derivation', 'interleaved-iterations', 'threads:1', 'threads:2', 'threads:3', 'switched', 'array-get']
URI = 'https://numengo.org/sim14'
classes = {}


class Simulated(Exception):
    pass


class ModelError(Exception):
    pass


class Trip(object):
    def __init__(self):
        self.left = {}
        self.hits = {}
        self.point = None

    def set(self, what, n):
        self.left[what, _thread.get_ident()] = n

    def __call__(self, what):
        k = what, _thread.get_ident()
        n = self.left.get(k, 0)
        if n:
            self.left[k] = n - 1
            if n == 1:
                self.hits[k] = self.hits.get(k, 0) + 1
                raise Simulated('simulated: %s' % what)

    def tripped(self):
        """what failed in this thread since it was last asked"""
        out = []
        for k in list(self.hits):
            if k[1] == _thread.get_ident():
                out += [k[0]] * self.hits.pop(k)
        for k in list(self.left):
            if k[1] == _thread.get_ident():
                del self.left[k]
        return out


trip = Trip()


def _cmp(name):
    op = getattr(int, name)

    def f(self, other):
        trip('comparison')
        return op(self, other)
    return f


class Num(int):
    """an integer whose comparisons can fail"""
    for _n in ('__lt__', '__le__', '__gt__', '__ge__', '__eq__', '__ne__'):
        locals()[_n] = _cmp(_n)
    __hash__ = int.__hash__


class El(dict):
    """a dictionary which can be hashed"""

    def __hash__(self):
        return hash((int(self.get('n') or 0), self.get('s')))


class Again(object):
    def __init__(self, items):
        self._items = items

    def __iter__(self):
        for x in self._items:
            trip('source')
            yield x
        trip('source')


class Retry(object):
    """can be iterated once; after a failure it gives the element it could not give"""

    def __init__(self, items):
        self._items, self._at = items, 0

    def __iter__(self):
        return self

    def __next__(self):
        trip('source')
        if self._at == len(self._items):
            raise StopIteration
        i = self._at
        if trip.point:
            trip.point()
        self._at = i + 1
        return self._items[i]


def once(items):
    for x in items:
        if trip.point:
            trip.point()
        yield x


def prepare():
    import random
    build()
    rng = random.Random(8)
    for i in range(6):
        run(gen(rng), core.Env())


def build():
    if classes:
        return
    from ngoschema.protocols import SchemaMetaclass, with_metaclass
    from ngoschema.loaders.schemas import load_schema
    load_schema({'$id': URI, '$defs': {'El': {'type': 'object', 'properties': {
        'n': {'type': 'integer'}, 's': {'type': 'string'}, 'l': {'type': 'array', 'items': {'type': 'integer'}},
        'c': {'type': 'object', 'properties': {'x': {'type': 'integer'}, 'size': {'type': 'integer'}}}}},
        'Holder': {'type': 'object', 'properties': {'e': {'type': 'array', 'items': {'$ref': '#/$defs/El'}}}}}})

    class El_(with_metaclass(SchemaMetaclass)):
        _id = URI + '#/$defs/El'

    class Holder_(with_metaclass(SchemaMetaclass)):
        _id = URI + '#/$defs/Holder'
    classes['El'], classes['Holder'] = El_, Holder_


# ---------------------------------------------------------------- generation

def gen_el(rng, kind):
    if kind in ('list', 'again', 'tuple') and rng.random() < .04:
        return {}
    d = {'n': rng.randint(0, 5)}
    if rng.random() < .85:
        d['s'] = rng.choice(['ab', 'abc', 'b', 'Ba', 'c'])
    if kind == 'array' or rng.random() < .7:     # missing arrays and objects are empty ones in an object
        d['l'] = [rng.randint(0, 4) for i in range(rng.randint(1, 3))]
    if kind == 'array' or rng.random() < .7:
        d['c'] = {'x': rng.randint(0, 4), 'size': rng.randint(1, 4)}
    if kind != 'array' and rng.random() < .7:
        d['m'] = {'size': rng.randint(1, 4)} if rng.random() < .5 else [0] * rng.randint(1, 4)
    return d


def gen_crit(rng, errors=True):
    out = []
    for i in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
        k = rng.choice(['n', 'n__lt', 'n__ge', 'n__in', 'n__not', 'n__neq', 's', 's__startswith', 's__istartswith', 's__contains', 'l__contains', 'l__size__ge', 'c__x',
                        'c__x__gt', 'c__x__not', 'n__le__not', 'c__size', 'c__size__ge', 'm__size__ge', 'm__size__ge'])
        p = k.split('__')
        if k == 'n__in':
            v = [rng.randint(0, 5) for j in range(rng.randint(0, 3))]
        elif p[0] == 's':
            v = rng.choice(['a', 'ab', 'b', 'c', 'B']) if len(p) > 1 else rng.choice(['ab', 'abc', 'b'])
        else:
            v = rng.randint(0, 5)
        if errors and k in ('n__lt', 'c__x__gt') and rng.random() < .08:
            v = 'a'
        if k not in [c[0] for c in out]:
            out.append([k, v])
    return out


def gen_derive(rng, n, hashable):
    do = rng.choice(['filter', 'filter', 'filter', 'exclude', 'filter_any_of', 'exclude_any_of', 'order_by', 'order_by', 'reverse', 'union', 'intersection', 'difference'])
    op = {'do': do, 'of': rng.randint(0, n - 1)}
    if do in ('filter', 'exclude', 'filter_any_of', 'exclude_any_of'):
        op['crit'] = gen_crit(rng)
        op['attrs'] = [a for a in ('s', 'l', 'c__x') if rng.random() < .12]
        if rng.random() < .3:
            op['order_by'] = rng.choice(['n', 'n', 'n', 's', 'c.x'])
        if rng.random() < .15:
            op['reverse'] = True
        if hashable and rng.random() < .3:
            op['distinct'] = True
    elif do == 'order_by':
        op['order_by'] = rng.choice(['n', 'n', 'n', 's', 'c.x'])
        op['reverse'] = rng.random() < .3
    elif do != 'reverse':
        op['with'] = [rng.randint(0, n - 1) for i in range(rng.choice([0, 1, 1, 2]))]
    return op


def gen_consume(rng, n):
    do = rng.choice(['list', 'list', 'open', 'open', 'open', 'step', 'step', 'step', 'step', 'step', 'step', 'abandon', 'len', 'count', 'index', 'slice', 'contains', 'first', 'last', 'all', 'empty', 'get', 'next', 'next'])
    op = {'do': do, 'of': rng.randint(0, n - 1)}
    if do in ('step', 'abandon'):
        op['it'] = rng.randint(0, 3)
        op['count'] = rng.randint(1, 4)
        del op['of']
    elif do == 'index':
        op['at'] = rng.randint(0, 8)
    elif do == 'slice':
        op['at'] = [rng.choice([None, 0, 1, 3]), rng.choice([None, 0, 2, 5]), rng.choice([None, 1, 2])]
    elif do == 'contains':
        op['el'] = rng.randint(0, 7)
    elif do in ('get', 'next'):
        op['crit'] = gen_crit(rng)
        op['array'] = rng.random() < .3
    return op


def gen(rng):
    kind = rng.choice(SOURCES + ['again', 'again', 'list'])
    els = [gen_el(rng, kind) for i in range(rng.choice([0, 1, 3, 5, 8, 12]))]
    if len(els) > 2 and rng.random() < .5:
        els[-1] = dict(els[0])
    hashable = kind in ('list', 'again', 'tuple', 'once', 'retry') and rng.random() < .5
    nums = kind != 'array' and rng.random() < .7
    nt = rng.choice([1, 1, 1, 2, 3] if kind not in ('once', 'retry') else [1, 2, 3])
    base = {'hashable': hashable, 'order_by': rng.choice([None, None, None, 'n', 's']), 'reverse': rng.random() < .15,
            'distinct': hashable and rng.random() < .15}

    def fault(op):
        if rng.random() < .3:
            w = rng.choice((['source'] if kind in ('again', 'retry') else []) + (['comparison'] if nums else []) or [None])
            if w:
                op['fail'] = [w, rng.choice([1, 2, 3, 5, 8, 13])]
        return op
    n = 1
    ops, common = [], 1
    for i in range(rng.choice([2, 4, 8, 16] if nt == 1 else [1, 3, 6])):
        if rng.random() < (.45 if nt == 1 else .75):
            ops.append(fault(gen_derive(rng, n, hashable)))
            n += 1
        else:
            ops.append(fault(gen_consume(rng, n)))
    threads = []
    for t in range(nt):
        m, mine = n, []
        for i in range(rng.choice([2, 5, 10, 20] if nt == 1 else [1, 3, 6])):
            if rng.random() < .25:
                mine.append(fault(gen_derive(rng, m, hashable)))
                m += 1
            else:
                mine.append(fault(gen_consume(rng, m)))
        threads.append(mine)
    return {'source': kind, 'els': els, 'nums': nums, 'base': base, 'ops': ops, 'threads': threads, 'first': rng.randint(0, nt - 1),
            'switches': threadsim.random_switches(rng, rng.choice([20, 100, 800]), nt) if nt > 1 else []}


# ---------------------------------------------------------------- model

OPS = {'lt': operator.lt, 'le': operator.le, 'ge': operator.ge, 'gt': operator.gt, 'eq': operator.eq, 'neq': operator.ne,
       'in': lambda a, b: a in b, 'contains': lambda a, b: b in a, 'size': lambda a, b: len(a), 'startswith': lambda a, b: a.startswith(b),
       'istartswith': lambda a, b: a.lower().startswith(b.lower())}


def child(d, path):
    for p in path:
        if not isinstance(d, dict):
            return None
        d = d.get(p)
    return d


def matches(el, crit, attrs, negate, any_of):
    test = not any_of
    for k, v in crit:
        path = [p for p in k.split('__') if p in ('n', 's', 'l', 'c', 'x') or k.startswith('c__size') and p == 'size']
        ops = [p for p in k.split('__') if p not in path]
        neg = 'not' in ops
        ops = [p for p in ops if p != 'not'] or ['eq']
        if path == [] and k == 'm__size__ge':      # the attribute of a mapping, the length of a list
            path, ops = ['m'], ['size', 'ge']
            if isinstance(el.get('m'), dict):
                path, ops = ['m', 'size'], ['ge']
        a = child(el, path)
        if a is None:
            test = False
            break
        for o in ops:
            try:
                a = OPS[o](a, v)
            except TypeError:
                raise ModelError('TypeError')
        one = bool(a) is not neg
        test = (test or one) if any_of else (test and one)
        if test is any_of:
            break
    for k in attrs:
        one = child(el, k.split('__')) is not None
        test = (test or one) if any_of else (test and one)
        if test is any_of:
            break
    return test is not negate


class M(object):
    """a query of the model: gives indices of elements"""

    def __init__(self, els, same, source, distinct=False, order_by=None, reverse=False):
        self.els, self.same, self.source = els, same, source
        self.distinct, self.order_by, self.reverse = distinct, order_by, reverse

    def select(self, crit=(), attrs=(), negate=False, any_of=False, distinct=None):
        seen = []
        for i in self.source():
            if not self.els[i] or not matches(self.els[i], crit, attrs, negate, any_of):
                continue
            if distinct:
                if any(self.same(i, j) for j in seen):
                    continue
                seen.append(i)
            yield i

    def results(self):
        res = list(self.source())
        if self.order_by:
            key = self.order_by.split('.')
            try:
                res = sorted(res, key=lambda i: child(self.els[i], key))
            except TypeError:
                raise ModelError('TypeError')
        return res[::-1] if self.reverse else res

    def make(self, source, distinct=False, order_by=None, reverse=False):
        return M(self.els, self.same, source, distinct, order_by, reverse)

    def derive(self, op, others):
        do = op['do']
        if do in ('filter', 'exclude', 'filter_any_of', 'exclude_any_of'):
            distinct = op.get('distinct') or self.distinct
            return self.make(lambda: self.select(op['crit'], op['attrs'], do.startswith('exclude'), do.endswith('any_of'), distinct),
                             distinct, op.get('order_by') or self.order_by, op.get('reverse') or self.reverse)
        if do == 'order_by':
            return self.make(self.source, self.distinct, op['order_by'], op['reverse'])
        res = self.results()
        if do == 'reverse':
            return self.make(lambda: res[::-1], self.distinct)
        for o in others:
            r = o.results()
            if do == 'union':
                res = res + r
            else:
                res = [i for i in res if any(self.same(i, j) for j in r) is (do == 'intersection')]
        return self.make(lambda: res, self.distinct, self.order_by)


# ---------------------------------------------------------------- run

DERIVE = ('filter', 'exclude', 'filter_any_of', 'exclude_any_of', 'order_by', 'reverse', 'union', 'intersection', 'difference')


def run(plan, env):
    from ngoschema.query import Query
    build()
    kind, els = plan['source'], plan['els']
    if kind not in SOURCES or not plan['threads'] or plan['nums'] and kind == 'array':
        raise core.Skip()
    for e in els:
        if e and 'n' not in e or not e and kind not in ('list', 'again', 'tuple') or 'l' in e and not e['l'] or 'c' in e and ('x' not in e['c'] or not e['c'].get('size')) or \
                'm' in e and (not e['m'] or kind == 'array' or isinstance(e['m'], dict) and not e['m'].get('size')) or \
                not isinstance(e.get('s', ''), str) or kind == 'array' and not ('l' in e and 'c' in e):
            raise core.Skip()
    trip.left.clear()
    trip.hits.clear()
    trip.point = None
    if kind == 'array':
        src = classes['Holder'](e=[dict(e) for e in els]).e
        real = list(src)
        same = lambda i, j: i == j
    else:
        make = El if plan['base']['hashable'] else dict
        real = [make((k, Num(v) if k == 'n' and plan['nums'] else {'x': Num(v['x']), 'size': v['size']} if k == 'c' and plan['nums'] else v) for k, v in e.items()) for e in els]
        same = lambda i, j: els[i] == els[j]
        src = {'list': lambda: list(real), 'tuple': lambda: tuple(real), 'again': lambda: Again(real), 'values': lambda: dict(enumerate(real)).values(),
               'once': lambda: once(real), 'retry': lambda: Retry(real)}[kind]()
    env.probe('source:' + kind)
    number = {}
    for i, x in enumerate(real):
        number[id(x)] = i
    if len(number) != len(real):
        raise core.Skip()
    every = list(range(len(els)))
    b = plan['base']
    query = Query(src, distinct=b['distinct'], order_by=b['order_by'] or False, reverse=b['reverse'])
    model = M(els, same, lambda: list(every), b['distinct'], b['order_by'], b['reverse'])

    def idx(r):
        return [number.get(id(x), 'unknown object') for x in r]

    def program(ops, queries, out, common=False):
        iters = []

        def probe(p):
            out.append(('probe', p))

        def fail(*what):
            out.append(('fail',) + what)

        def outcome(f):
            try:
                return ('ok', f())
            except ModelError as er:
                return ('error', str(er))
            except Exception as er:
                return ('error', type(er).__name__)

        failed = set()
        used = set()
        for n, op in enumerate(ops):
            do = op['do']
            if do in ('step', 'abandon'):
                live = [it for it in iters if it is not None]
                if not live:
                    continue
                q = m = None
                of = None
            else:
                of = op['of']
                if not 0 <= of < len(queries) or queries[of] is None:
                    if do in DERIVE:
                        queries.append(None)
                    continue
                q, m = queries[of]
            if op.get('fail'):
                trip.set(*op['fail'])
            others = []
            if do in DERIVE:
                others = [queries[j] for j in op.get('with', [])] if all(0 <= j < len(queries) for j in op.get('with', [])) else [None]
                if None in others:
                    queries.append(None)
                    trip.tripped()
                    continue
                if do in ('filter', 'exclude', 'filter_any_of', 'exclude_any_of'):
                    kw = dict((k, v) for k, v in op['crit'])
                    given = dict(kw)
                    for k in ('order_by', 'reverse', 'distinct'):
                        if op.get(k):
                            kw[k] = op[k]
                    act = lambda: getattr(q, do)(*op['attrs'], **kw)
                elif do == 'order_by':
                    act = lambda: q.order_by(op['order_by'], reverse=op['reverse'])
                elif do == 'reverse':
                    act = lambda: q.reverse()
                else:
                    act = lambda: getattr(q, do)(*[o[0] for o in others])
                ref = lambda: m.derive(op, [o[1] for o in others])
                same_ = None
            else:
                same_ = lambda got, want: got == want
                if do == 'list':
                    act, ref = lambda: idx(list(q)), lambda: m.results()
                elif do == 'all':
                    act, ref = lambda: idx(q.all()), lambda: m.results()
                elif do == 'open':
                    act, ref = lambda: iter(q), lambda: None
                    same_ = None
                elif do in ('len', 'count'):
                    act, ref = (lambda: len(q)) if do == 'len' else (lambda: q.count()), lambda: len(m.results())
                elif do == 'empty':
                    act, ref = lambda: q.isEmpty(), lambda: not m.results()
                elif do == 'index':
                    def ref():
                        try:
                            return [m.results()[op['at']]]
                        except IndexError:
                            raise ModelError('IndexError')
                    act = lambda: idx([q[op['at']]])
                elif do == 'slice':
                    act, ref = lambda: idx(q[slice(*op['at'])]), lambda: m.results()[slice(*op['at'])]
                elif do == 'contains':
                    if not real:
                        continue
                    e = op['el'] % len(real)
                    act, ref = lambda: real[e] in q, lambda: any(same(e, j) for j in m.results())
                elif do in ('first', 'last'):
                    act = lambda: idx([x for x in [getattr(q, do)()] if x is not None])
                    ref = lambda: m.results()[:1] if do == 'first' else m.results()[-1:]
                elif do in ('get', 'next'):
                    kw = dict((k, v) for k, v in op['crit'])
                    if kind == 'array' and op.get('array'):
                        act = lambda: idx([x for x in [src.get(**kw)] if x is not None])
                        ref = lambda: first(model.select(op['crit']))
                        probe('array-get')
                    elif do == 'get':
                        def ref():
                            r = list(m.select(op['crit'], distinct=m.distinct))
                            if len(r) != 1:
                                probe('get-several' if r else 'get-none')
                                raise ModelError('Exception')
                            return r
                        act = lambda: idx([q.get(**kw)])
                    else:
                        def ref():
                            r = first(m.select(op['crit'], distinct=m.distinct))
                            if not r:
                                probe('next-none')
                                raise ModelError('StopIteration')
                            return r
                        act = lambda: idx([q.next(**kw)])
                elif do == 'abandon':
                    k = op['it'] % len(iters)
                    iters[k] = None
                    probe('abandon')
                    continue
                elif do == 'step':
                    k = op['it'] % len(iters)
                    if iters[k] is None:
                        continue
                    it = iters[k]
                    probe('step')
                    if len([x for x in iters if x is not None]) > 1:
                        probe('interleaved-iterations')
                    for c in range(op['count']):
                        trip.tripped()
                        if op.get('fail'):
                            trip.set(*op['fail'])
                        try:
                            x = next(it['it'])
                        except StopIteration:
                            x = None
                            trip.tripped()
                            want = outcome(it['model'].results)
                            if want[0] == 'error' or it['n'] != len(want[1]):
                                fail('iteration', 'operation %d: an iteration ends after %d results (%s)' % (n, it['n'], want))
                            iters[k] = None
                            break
                        except Exception as er:
                            hit = trip.tripped()
                            want = outcome(it['model'].results)
                            if not (hit and isinstance(er, Simulated)) and want != ('error', type(er).__name__):
                                raise
                            iters[k] = None
                            break
                        hit = trip.tripped()
                        if hit:
                            fail('swallowed', 'operation %d: the failure of a %s is not reported' % (n, hit[0]))
                        want = outcome(it['model'].results)
                        if want[0] == 'error' or it['n'] >= len(want[1]) or idx([x]) != [want[1][it['n']]]:
                            fail('iteration', 'operation %d: result %d of an iteration is %s (%s)' % (n, it['n'], idx([x]), want))
                        it['n'] += 1
                    continue
                else:
                    raise core.Skip()
            want = outcome(ref)
            er = None
            try:
                got = ('ok', act())
            except Exception as e:
                er, got = e, ('error', type(e).__name__)
            hit = trip.tripped()
            probe({'count': 'len'}.get(do, do))
            if hit:
                probe(hit[0] + '-failed')
                out.append(('fault', hit[0]))
                if do in DERIVE:
                    probe('failed-derivation')
                if got[0] == 'ok':
                    fail('swallowed', 'operation %d (%s): the failure of a %s is not reported' % (n, do, hit[0]))
                elif not isinstance(er, Simulated) and got != want:
                    raise er
                failed.add(of)
                if do in DERIVE:
                    queries.append(None)
                continue
            if do == 'open':
                # the results can be computed now or at the first step
                if got[0] == 'ok':
                    iters.append({'it': got[1], 'model': m, 'n': 0})
                    continue
                want = outcome(m.results)
            if got[0] != want[0] or got[0] == 'error' and got != want:
                if er is not None and want[0] == 'ok':
                    raise er
                fail('result', 'operation %d (%s of query %s): %s instead of %s' % (n, do, of, got[1] if do not in DERIVE else got[0], want))
            elif got[0] == 'ok' and same_ is not None and not same_(got[1], want[1]):
                fail('result', 'operation %d (%s of query %s): %s instead of %s' % (n, do, of, got[1], want[1]))
            if got[0] == 'error':
                probe({'TypeError': 'criteria-error' if do not in ('order_by',) and not m.order_by else 'order-error', 'IndexError': 'index-out'}.get(got[1], do))
            elif of in failed:
                failed.discard(of)
                probe('complete-after-failure')
            if do == 'contains' and got == ('ok', False):
                probe('contains-not')
            if do in ('first', 'last') and got == ('ok', []):
                probe('first-none')
            if do in DERIVE:
                if of:
                    probe('derived-from-derived')
                if of in used:
                    probe('derived-after-consumption')
                if m.order_by and 'crit' in op:
                    probe('ordered-filter')
                if op.get('distinct'):
                    probe('distinct')
                queries.append((got[1], want[1]) if got[0] == 'ok' else None)
            else:
                used.add(of)
        return out

    def first(g):
        for i in g:
            return [i]
        return []

    queries = [(query, model)]
    outs = [program(plan['ops'], queries, [])]
    nt = len(plan['threads'])
    env.probe('threads:%d' % nt)
    trace = []
    if nt == 1:
        outs.append(program(plan['threads'][0], queries, []))
    else:
        s = threadsim.Scheduler([tuple(x) for x in plan['switches']])
        trip.point = s.point
        results = s.run([lambda ops=ops: program(ops, list(queries), []) for ops in plan['threads']], plan['first'])
        trip.point = None
        env.steps += s.step
        env.log('trace', s.trace)
        trace = s.trace
        if s.taken:
            env.fault('thread-switch', s.taken)
            env.probe('switched')
        if s.abort:
            return env.fail(*s.abort)
        for t, r in enumerate(results):
            if r[0] == 'error':
                if not r[2]:
                    raise r[1]
                env.fail('unexpected-error', 'thread %d: %s: %s' % (t, type(r[1]).__name__, r[1]))
            outs.append(r[1])
    env.sign(plan['source'], plan['els'], plan['ops'], plan['threads'], trace)
    for t, out in enumerate(outs):
        for what in out:
            env.log(t, *what)
            if what[0] == 'fail':
                env.fail(*what[1:])
            elif what[0] == 'probe':
                env.probe(what[1])
            elif what[0] == 'fault':
                env.fault(what[1])
    trip.tripped()
    # consuming changed neither the source nor the other queries
    if kind not in ('once', 'retry'):
        env.check(idx(list(src)) == every, 'source', 'the source has changed')
    if kind != 'array':
        env.check([dict((k, v) for k, v in e.items()) for e in real] == els, 'source', 'the objects of the source have changed')
    for i, qm in enumerate(queries):
        if qm is None:
            continue
        for again in range(2):
            try:
                got = ('ok', idx(list(qm[0])))
            except Exception as er:
                got = ('error', type(er).__name__)
            try:
                want = ('ok', qm[1].results())
            except ModelError as er:
                want = ('error', str(er))
            env.check(got == want, 'result', 'at the end query %d gives %s instead of %s' % (i, got, want))
