"""C15: operations give back the process-wide state they borrow."""
import builtins
import decimal
import os

import core
import threadsim

ID = 'C15'
LEVEL = 'exploration'
QUICK = (6000, 100)
THOROUGH = (600000, 400)
RULE = 'an execution is the nesting of casts, evaluations and directory changes of each thread with the exceptions raised in them, and the interleaving reached'
REAL = ['ngoschema casted_as, working_directory, number types, their evaluation by themselves and by objects and arrays', 'decimal contexts of the interpreter']
STUBS = ['the expressions evaluated call back the simulator, which nests operations and raises', 'locks (simulated)']
ASSUMPTIONS = ['casts of one instance end in the reverse order of their beginning', 'directories are changed by programs of one thread',
               'threads are switched between source lines of the library, not inside a line', 'PyPy 3.9 interpreter']
PROBES = ['cast', 'cast-in-cast', 'cast-in-eval', 'cast-invalid', 'cast-plain', 'cast-schema', 'eval:inst', 'eval:call', 'eval:cls', 'eval:prop', 'eval:item',
          'eval:check', 'eval:literal', 'eval-in-eval', 'eval-in-eval-other-precision', 'eval-in-cast', 'caught', 'raised-through-cast', 'raised-through-eval', 'raised-through-dir',
          'disturbed-prec', 'disturbed-flags', 'disturbed-set', 'disturbed-traps', 'invalid-number', 'not-multiple', 'dir', 'dir-missing', 'dir-in-dir', 'dir-in-eval', 'dir-left', 'gens', 'gen-close', 'gen-exhaust',
          'gen-throw', 'gen-drop', 'gens-crossed', 'exc:ValueError', 'exc:KeyboardInterrupt', 'exc:SystemExit', 'exc:GeneratorExit', 'exc:StopIteration', 'exc:AttributeError',
          'threads:1', 'threads:2', 'threads:3', 'switched', 'traps', 'flags']

URI = 'https://numengo.org/sim15'
EXC = {'ValueError': ValueError, 'KeyboardInterrupt': KeyboardInterrupt, 'SystemExit': SystemExit, 'GeneratorExit': GeneratorExit,
       'StopIteration': StopIteration, 'AttributeError': AttributeError}
PRECS = (1, 2, 3, 5, 9, 12, 17, 28, 40)
DENS = (3, 7, 9, 11, 13, 2, 4)
VIAS = ('inst', 'call', 'cls', 'prop', 'item', 'check')
ROUNDINGS = ('ROUND_HALF_EVEN', 'ROUND_DOWN', 'ROUND_UP', 'ROUND_CEILING', 'ROUND_FLOOR', 'ROUND_05UP')
SIGNALS = ('Inexact', 'Rounded', 'Subnormal', 'InvalidOperation', 'DivisionByZero', 'Clamped', 'Overflow', 'Underflow')
TARGETS = 7     # classes of the hierarchies, see build
stuff = {}
current = {}        # node to run for each thread and identifier


def prepare():
    import random
    build()
    rng = random.Random(3)
    for i in range(20):
        try:
            run(gen(rng), core.Env())
        except (core.Skip, core.Violation):
            pass


def build():
    if stuff:
        return
    from ngoschema.protocols import SchemaMetaclass, with_metaclass
    from ngoschema.loaders.schemas import load_schema
    from ngoschema.types import Number, Array

    class A(object):
        pass

    class B(A):
        pass

    class B2(A):
        pass

    class C(B, B2):
        pass
    load_schema({'$id': URI, '$defs': {
        'P': {'type': 'object', 'properties': {'n': {'type': 'number'}, 's': {'type': 'string'}}},
        'Q': {'type': 'object', 'extends': ['#/$defs/P'], 'properties': {'m': {'type': 'number'}}}}})

    class P(with_metaclass(SchemaMetaclass)):
        _id = URI + '#/$defs/P'

    class Q(with_metaclass(SchemaMetaclass, P)):
        _id = URI + '#/$defs/Q'
    types = {}
    for p in PRECS:
        types[p] = Number(precision=p), type('Number%d' % p, (Number,), {'_dcmContext': decimal.Context(prec=p)})
    stuff.update(classes=[A, B, B2, C, P, Q, int], P=P, types=types, array=Array(items={'type': 'number'}), multiple=Number(multipleOf=2))
    builtins.sim15_node = callback


def callback(k):
    import _thread
    return current[_thread.get_ident()](k)


def gen_node(rng, depth, nt, nobj):
    x = rng.random()
    node = {}
    if x < .45 or depth == 0 and x < .6:
        node.update(k='eval', via=rng.choice(VIAS), prec=rng.choice(PRECS), den=rng.choice(DENS))
        if rng.random() < .3:
            node['disturb'] = rng.sample(['prec', 'flags', 'set', 'traps'], rng.randint(1, 2))
    elif x < .72:
        node.update(k='cast', obj=rng.randint(0, nobj - 1), to=rng.randint(0, TARGETS - 1))
    elif x < .8:
        node.update(k='literal', via=rng.choice(VIAS), prec=rng.choice(PRECS), what=rng.choice(['bad', 'long', 'nan', 'multiple', 'multiple-ok', 'none']))
        return node
    elif x < .88:
        node.update(k='gens', objs=[[rng.randint(0, nobj - 1), rng.randint(0, TARGETS - 1), rng.choice(['close', 'exhaust', 'throw', 'drop'])] for i in range(rng.randint(1, 3))])
        node['order'] = list(range(len(node['objs'])))
        rng.shuffle(node['order'])
    elif nt == 1:
        node.update(k='dir', dir=rng.randint(0, 3))
        if rng.random() < .3:
            node['move'] = rng.randint(0, 2)
    else:
        node.update(k='cast', obj=rng.randint(0, nobj - 1), to=rng.randint(0, TARGETS - 1))
    if rng.random() < .3:
        node['raise'] = [rng.choice(sorted(EXC)), rng.choice(['before', 'after'])]
    if rng.random() < .35:
        node['catch'] = True
    node['sub'] = [gen_node(rng, depth - 1, nt, nobj) for i in range(rng.choice([0, 1, 1, 2]))] if depth else []
    return node


def gen(rng):
    nt = rng.choice([1, 1, 2, 2, 3])
    threads = []
    for t in range(nt):
        nobj = rng.randint(1, 3)
        threads.append({
            'context': {'prec': rng.choice(PRECS), 'rounding': rng.choice(ROUNDINGS), 'traps': rng.sample(SIGNALS, rng.choice([0, 0, 1, 2, 3])),
                        'flags': rng.sample(SIGNALS, rng.choice([0, 0, 1, 3])), 'Emax': rng.choice([99, 999999]), 'Emin': rng.choice([-99, -999999])},
            'objs': [rng.choice([1, 2, 3, 3, 5, 5, 4]) for i in range(nobj)],
            'nodes': [gen_node(rng, rng.choice([0, 1, 2, 3, 3]), nt, nobj) for i in range(rng.choice([1, 2, 4]))]})
    return {'threads': threads, 'first': rng.randint(0, nt - 1),
            'switches': threadsim.random_switches(rng, rng.choice([10, 60, 300, 1500]), nt) if nt > 1 else []}


def valid_node(n, nt, nobj, depth=0):
    if n['k'] not in ('eval', 'cast', 'literal', 'gens', 'dir') or depth > 5:
        return False
    if n['k'] in ('eval', 'literal') and (n['via'] not in VIAS or n['prec'] not in PRECS):
        return False
    if n['k'] == 'eval' and n['den'] < 1 or n['k'] == 'dir' and (nt > 1 or not 0 <= n['dir'] <= 3):
        return False
    if n['k'] == 'cast' and not (0 <= n['obj'] < nobj and 0 <= n['to'] < TARGETS):
        return False
    if n['k'] == 'gens' and (sorted(n['order']) != list(range(len(n['objs']))) or not all(0 <= o < nobj and 0 <= to < TARGETS for o, to, e in n['objs'])):
        return False
    if 'raise' in n and (n['raise'][0] not in EXC or n['raise'][1] not in ('before', 'after')):
        return False
    return all(valid_node(x, nt, nobj, depth + 1) for x in n.get('sub', []))


def valid(plan):
    nt = len(plan['threads'])
    if not nt:
        return False
    for th in plan['threads']:
        c = th['context']
        if c['prec'] < 1 or c['rounding'] not in ROUNDINGS or set(c['traps'] + c['flags']) - set(SIGNALS) or not all(1 <= o <= 5 for o in th['objs']):
            return False
        if c['Emax'] < 99 or c['Emin'] > -99 or c['Emax'] > 999999 or c['Emin'] < -999999:
            return False
        if not all(valid_node(n, nt, len(th['objs'])) for n in th['nodes']):
            return False
    return True


def state():
    c = decimal.getcontext()
    return (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp,
            tuple(sorted(k.__name__ for k, v in c.traps.items() if v)), tuple(sorted(k.__name__ for k, v in c.flags.items() if v)))


def run(plan, env):
    from ngoschema.utils import casted_as, working_directory
    from ngoschema.exceptions import InvalidValue, ConversionError
    build()
    if not valid(plan):
        raise core.Skip()
    nt = len(plan['threads'])
    classes, types = stuff['classes'], stuff['types']
    home = os.getcwd()
    dirs = []
    if nt == 1 and 'dir' in repr(plan['threads'][0]['nodes']):
        for i in range(3):
            dirs.append(os.path.join(os.path.realpath(env.scratch), 'd%d' % i))
            os.makedirs(dirs[i], exist_ok=True)
        dirs.append(os.path.join(os.path.realpath(env.scratch), 'missing'))

    def program(t, th):
        out = []
        where = []          # kinds of the operations in progress
        def probe(p):
            out.append(('probe', p))

        def fail(what, text):
            out.append(('fail', what, text))

        class Mismatch(BaseException):
            """a check failed: leaves the whole program"""

        def check(cond, what, text):
            if not cond:
                fail(what, text)
                raise Mismatch()

        def body():
            import _thread
            me = _thread.get_ident()
            c = th['context']
            old = decimal.getcontext()
            decimal.setcontext(decimal.Context(prec=c['prec'], rounding=c['rounding'], Emin=c['Emin'], Emax=c['Emax'], capitals=1, clamp=0,
                                               flags=[getattr(decimal, f) for f in c['flags']], traps=[getattr(decimal, f) for f in c['traps']]))
            if c['traps']:
                probe('traps')
            if c['flags']:
                probe('flags')
            objs = []
            for o in th['objs']:
                objs.append(classes[o]())
            expected = [classes[o] for o in th['objs']]
            cwd = [os.getcwd()]
            nodes = []

            def same_classes(when):
                for i, (o, e) in enumerate(zip(objs, expected)):
                    check(type(o) is e and o.__class__ is e, 'class', '%s, instance %d is a %s instead of a %s' % (when, i, type(o).__name__, e.__name__))

            def settle(n, before, when):
                # everything which was borrowed is back
                now = state()
                check(now == before, 'context', '%s, the decimal context is %s instead of %s' % (when, now, before))
                same_classes(when)
                if dirs:
                    check(os.getcwd() == cwd[-1], 'directory', '%s, the working directory is not the previous one' % when)

            def children(n):
                r = n.get('raise')
                if r and r[1] == 'before':
                    boom(r[0])
                for x in n.get('sub', []):
                    node(x)
                if r and r[1] == 'after':
                    boom(r[0])

            def boom(name):
                probe('exc:' + name)
                out.append(('fault', 'exception'))
                raise EXC[name]('simulated')

            def node(n):
                before = state()
                depth = len(where)
                try:
                    KINDS[n['k']](n)
                except (Mismatch, threadsim.SimAbort):
                    raise
                except BaseException as er:
                    # the frames left by the exception belong to this thread only
                    settle(n, before, 'after %s left by %s' % (n['k'], type(er).__name__))
                    probe('raised-through-' + n['k']) if n['k'] in ('cast', 'eval', 'dir') else None
                    del where[depth:]
                    if not n.get('catch'):
                        raise
                    probe('caught')
                else:
                    settle(n, before, 'after %s' % n['k'])
                    del where[depth:]

            def do_cast(n):
                o, to = objs[n['obj']], classes[n['to']]
                cls = expected[n['obj']]
                if to not in cls.__mro__:
                    probe('cast-invalid')
                    try:
                        with casted_as(o, to):
                            check(False, 'cast', 'a %s is used as a %s, which is not one of its parents' % (cls.__name__, to.__name__))
                    except AttributeError:
                        return children(n)
                    check(False, 'cast', 'a %s is used as a %s, which is not one of its parents, without exception' % (cls.__name__, to.__name__))
                probe('cast')
                probe('cast-schema' if 4 <= n['to'] <= 5 else 'cast-plain')
                if 'cast' in where:
                    probe('cast-in-cast')
                if 'eval' in where:
                    probe('cast-in-eval')
                where.append('cast')
                try:
                    with casted_as(o, to) as x:
                        expected[n['obj']] = to
                        check(x is o, 'cast', 'the cast gives another object')
                        same_classes('during a cast')
                        children(n)
                        same_classes('at the end of a cast')
                finally:
                    expected[n['obj']] = cls

            def do_eval(n):
                via, p = n['via'], n['prec']
                prec = 12 if via in ('prop', 'item') else p
                if via == 'check':
                    prec = p
                probe('eval:' + via)
                if 'eval' in where:
                    probe('eval-in-eval')
                    if nodes and nodes[-1][1] != prec:
                        probe('eval-in-eval-other-precision')
                if 'cast' in where:
                    probe('eval-in-cast')
                outer = state()
                k = len(nodes)
                calls = []
                raised = []

                def called():
                    # runs inside the evaluation
                    calls.append(1)
                    cx = decimal.getcontext()
                    check(cx.prec == prec, 'precision', 'an evaluation of precision %d runs with precision %d' % (prec, cx.prec))
                    check(cx.rounding == 'ROUND_HALF_EVEN' and not cx.flags[decimal.Inexact] and cx.Emax == decimal.DefaultContext.Emax, 'precision',
                          'an evaluation of precision %d runs with rounding %s, flags and limits of another context' % (prec, cx.rounding))
                    depth = len(where)
                    where.append('eval')
                    # what is left in the list of nodes belongs to evaluations left by an exception
                    mine = nodes[:]
                    try:
                        children(n)
                    except BaseException as er:
                        raised.append(type(er))
                        raise
                    finally:
                        nodes[:] = mine
                        for d in n.get('disturb', []):
                            if d == 'traps' and raised:
                                continue        # the failed expression would then be converted to NaN
                            probe('disturbed-' + d)
                            if d == 'prec':
                                decimal.getcontext().prec = 33
                            elif d == 'flags':
                                decimal.getcontext().flags[decimal.Subnormal] = True
                            elif d == 'traps':
                                decimal.getcontext().traps[decimal.InvalidOperation] = False
                            else:
                                decimal.setcontext(decimal.Context(prec=21, rounding='ROUND_UP'))
                            out.append(('fault', 'context-disturbed'))
                    del where[depth:]
                    return decimal.Context(prec=prec).divide(1, n['den']) if n.get('disturb') else decimal.Decimal(1) / n['den']
                saved = nodes[:]
                nodes.append((called, prec))
                text = '`sim15_node(%d)' % k
                ok = True
                try:
                    if via == 'prop':
                        x = stuff['P'](lazyLoading=True)
                        x.n = text
                        got = x.n
                    elif via == 'item':
                        got = stuff['array']([text])[0]
                    elif via == 'inst':
                        got = types[p][0]._evaluate(types[p][0], text)
                    elif via == 'call':
                        got = types[p][0](text)
                    elif via == 'cls':
                        got = types[p][1].evaluate(text)
                    else:
                        got = types[p][1].check(text, convert=True)
                        ok = got or bool(raised)
                        got = decimal.Context(prec=prec).divide(1, n['den'])
                except Exception as er:
                    nodes[:] = saved
                    if any(x[0] == 'fail' for x in out):
                        raise Mismatch()
                    if raised and issubclass(raised[-1], Exception):
                        # the expression failed: an exception of the library reports it
                        if not calls:
                            raise
                        raise EXC['ValueError']('simulated: evaluation')
                    raise
                finally:
                    nodes[:] = saved
                if any(x[0] == 'fail' for x in out):
                    raise Mismatch()
                if raised and issubclass(raised[-1], Exception):
                    if via == 'check':
                        raise EXC['ValueError']('simulated: evaluation')
                    check(False, 'value', 'an evaluation by %s which failed gives %r' % (via, got))
                want = decimal.Context(prec=prec).divide(1, n['den'])
                check(ok and got == want and str(got) == str(want), 'value', 'an evaluation of 1/%d with precision %d gives %s' % (n['den'], prec, got))

            def do_literal(n):
                p, what = n['prec'], n['what']
                via = n['via'] if n['via'] in ('inst', 'call', 'cls') else 'call'
                ty = types[p][1 if via == 'cls' else 0]
                value = {'bad': 'zz', 'long': '1.' + '123456789' * 6, 'nan': 'NaN', 'multiple': '3.00000000000000000000000000000000000000000001',
                         'multiple-ok': '4', 'none': None}[what]
                probe('eval:literal')
                if what.startswith('multiple'):
                    ty, via = stuff['multiple'], 'call' if via == 'cls' else via
                try:
                    got = ty._evaluate(ty, value) if via == 'inst' else ty(value) if via == 'call' else ty.evaluate(value)
                except (ConversionError, InvalidValue):
                    check(what in ('bad', 'multiple'), 'value', 'the literal %s is refused' % value)
                    probe('invalid-number' if what == 'bad' else 'not-multiple')
                else:
                    check(what not in ('bad', 'multiple'), 'value', 'the literal %s is accepted' % value)
                    if value is not None:
                        check(str(got) == str(decimal.Decimal(value)), 'value', 'the literal %s gives %s' % (value, got))

            def do_gens(n):
                probe('gens')
                used = set()
                gens = []

                def g(o, to):
                    with casted_as(o, to):
                        yield o
                back = dict(enumerate(expected))
                try:
                    for i, to, end in n['objs']:
                        if i in used or classes[to] not in expected[i].__mro__:
                            gens.append(None)
                            continue
                        used.add(i)
                        it = g(objs[i], classes[to])
                        next(it)
                        expected[i] = classes[to]
                        gens.append((i, it, end))
                        same_classes('during a cast in a generator')
                    if len(used) > 1 and n['order'] != sorted(n['order'], reverse=True):
                        probe('gens-crossed')
                    try:
                        children(n)
                    finally:
                        for j in n['order']:
                            if not gens[j]:
                                continue
                            i, it, end = gens[j]
                            gens[j] = None
                            probe('gen-' + end)
                            out.append(('fault', 'generator-' + end))
                            if end == 'exhaust':
                                check(next(it, None) is None, 'cast', 'the generator goes on')
                            elif end == 'throw':
                                try:
                                    it.throw(KeyboardInterrupt('simulated'))
                                except KeyboardInterrupt:
                                    pass
                            else:
                                it.close()      # what abandoning it does, but at a time of our choice
                            expected[i] = back[i]
                            same_classes('after a cast in a generator')
                finally:
                    for i, e in back.items():
                        expected[i] = e

            def do_dir(n):
                d = dirs[n['dir']]
                if n['dir'] == 3:
                    probe('dir-missing')
                    try:
                        with working_directory(d):
                            check(False, 'directory', 'a missing directory is used')
                    except OSError:
                        return children(n)
                probe('dir')
                if 'dir' in where:
                    probe('dir-in-dir')
                if 'eval' in where:
                    probe('dir-in-eval')
                where.append('dir')
                with working_directory(d if n['dir'] else os.path.relpath(d)):
                    cwd.append(d)
                    try:
                        check(os.getcwd() == d, 'directory', 'the working directory is not the one given')
                        children(n)
                        check(os.getcwd() == d, 'directory', 'the working directory changed inside')
                    finally:
                        cwd.pop()
                        if 'move' in n:
                            probe('dir-left')
                            os.chdir(dirs[n['move']])
            KINDS = {'cast': do_cast, 'eval': do_eval, 'literal': do_literal, 'gens': do_gens, 'dir': do_dir}
            current[me] = lambda k: nodes[k][0]()
            try:
                for n in th['nodes']:
                    try:
                        node(n)
                    except (Mismatch, threadsim.SimAbort):
                        raise
                    except BaseException as er:
                        if str(er).startswith('simulated') or type(er) in EXC.values() and er.args == ('simulated',):
                            continue
                        raise
            except Mismatch:
                pass
            finally:
                current.pop(me, None)
                decimal.setcontext(old)
            return out
        return body

    try:
        if nt == 1:
            results = [('ok', program(0, plan['threads'][0])())]
            trace = []
        else:
            s = threadsim.Scheduler([tuple(x) for x in plan['switches']], 3000000)
            results = s.run([program(t, th) for t, th in enumerate(plan['threads'])], plan['first'])
            env.steps += s.step
            env.log('trace', s.trace)
            trace = s.trace
            if s.taken:
                env.fault('thread-switch', s.taken)
                env.probe('switched')
            if s.abort:
                return env.fail(*s.abort)
    finally:
        current.clear()
        os.chdir(home)
    env.sign(plan['threads'], trace)
    env.probe('threads:%d' % nt)
    for t, r in enumerate(results):
        if r[0] == 'error':
            if not r[2]:
                raise r[1]
            env.fail('unexpected-error', 'thread %d: %s: %s' % (t, type(r[1]).__name__, r[1]))
        for what in r[1]:
            env.log(t, *what)
            if what[0] == 'fail':
                env.fail(*what[1:])
            elif what[0] == 'probe':
                env.probe(what[1])
            elif what[0] == 'fault':
                env.fault(what[1])
