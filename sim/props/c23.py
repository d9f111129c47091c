"""C23: values computed across linked objects stay current."""
import json

import core
import objects

ID = 'C23'
LEVEL = 'exploration'
QUICK = (700, 35)
THOROUGH = (60000, 100)
RULE = ('an execution is a graph of objects, the sequence of links, changes and reads, and the outcomes; only those reading a value computed '
        'from an object changed after a first read of it count')
REAL = ['ngoschema object and array protocols, type builder, contexts, templates and expressions', 'jinja2']
STUBS = ['getters failing when the plan says']
ASSUMPTIONS = ['links never form a circle', 'a getter declares the properties it uses', 'PyPy 3.9 interpreter']
PROBES = ['lazy', 'eager', 'ref-set', 'ref-new', 'kid-added', 'kid-new', 'kid-replaced', 'kid-removed', 'shared', 'changed-direct', 'changed-through', 'parent-read', 'read',
          'read-after-far-change', 'same-object', 'rejected', 'invalid-lazy', 'getter-failed', 'recovered', 'detached-read', 'whole-list', 'constructed-around', 'subclass']

serial = [0]
TMPL = {
    'path': '{% if this.ref %}{{ this.ref.path }}.{% endif %}{{ this.name }}',
    'rname': '<{{ this.ref.name }}>',
    'total': '`this.num + (this.ref.total if this.ref else 0)',
    'names': '{% for k in this.kids %}{{ k.path }};{% endfor %}',
    'first': '{% if this.kids %}{{ this.kids[0].name }}{% endif %}',
    'summ': '`sum(k.total for k in this.kids) + this.num',
    'full': '{% if this._parent %}{{ this._parent.full }}/{% endif %}{{ this.name }}',
    'pname': '{{ this._parent.name }}:{{ name }}',
    'held': '{% for k in this.kids %}{{ k.pname }}{{ k.full }};{% endfor %}',
    'far': '{{ ref.ref.name if ref else "-" }}',
    'deep': '`[len(kids or []), ref.num if ref else -1][0 if kids else 1]',
}
INTS = ('total', 'summ', 'down', 'deep', 'best')
GETTERS = {'down': ('num', 'kids'), 'best': ('num', 'ref', 'ref.num')}
COMPUTED = sorted(TMPL) + sorted(GETTERS)


def prepare():
    import random
    rng = random.Random(5)
    for i in range(4):
        plan = gen(rng)
        try:
            run(plan, core.Env())
        except core.Violation:
            pass


def gen_node(rng, depth):
    n = {'name': rng.choice(['a', 'b', 'cc', 'x y', 'é', '']), 'num': rng.randint(0, 100)}
    if depth and rng.random() < .5:
        n['ref'] = gen_node(rng, depth - 1)
    if depth and rng.random() < .6:
        n['kids'] = [gen_node(rng, depth - 1) for i in range(rng.randint(1, 2))]
    return n


def gen(rng):
    ops = []
    for i in range(rng.randint(5, 40)):
        op = {'on': rng.randint(0, 30), 'style': rng.choice(['attr', 'item'])}
        r = rng.random()
        if r < .42:
            op.update(do='read', name=rng.choice(COMPUTED if rng.random() < .9 else ['name', 'num']))
            if rng.random() < .15:
                op['name'] = rng.choice(sorted(GETTERS))
                op['fail'] = rng.choice(sorted(objects.ERRORS))
                op['nth'] = rng.randint(1, 3)
        elif r < .48:
            op.update(do='all')
        elif r < .72:
            op.update(do='set', name=rng.choice(['name', 'num']), through=rng.randint(0, 5), bad=rng.random() < .1)
            op['value'] = rng.choice(['n%d' % i, 'q', 'z z']) if op['name'] == 'name' else rng.randint(0, 100)
        elif r < .8:
            op.update(do='ref', to=rng.randint(0, 30) if rng.random() < .7 else gen_node(rng, 1))
        elif r < .96:
            op.update(do='kids', how=rng.choice(['append', 'append', 'insert', 'set', 'pop', 'del', 'whole', 'extend']), i=rng.randint(0, 4),
                      to=rng.randint(0, 30) if rng.random() < .7 else gen_node(rng, 1))
        elif r < .98:
            op.update(do='around', to=rng.randint(0, 30), how=rng.choice(['ref', 'kids']))
        else:
            op.update(do='badlink', how=rng.choice(['ref', 'append', 'set']))
        ops.append(op)
    return {'lazy': rng.random() < .5, 'computed': sorted(rng.sample(COMPUTED, rng.randint(4, len(COMPUTED)))),
            'nodes': [dict(gen_node(rng, rng.choice([0, 0, 1, 1, 2])), sub=rng.random() < .25) for i in range(rng.randint(1, 4))], 'ops': ops}


class Node(object):
    """the model of an object"""

    def __init__(self, parent=None):
        self.name = self.num = None
        self.ref = None
        self.kids = []
        self.parent = parent    # Node, None, or 'unknown' once moved
        self.held = [parent] if parent else []      # all that ever held it
        self.handle = None
        self.read = set()


def sensible(n):
    return isinstance(n, dict) and set(n) <= {'name', 'num', 'ref', 'kids', 'sub'} and isinstance(n.get('name'), str) and \
        isinstance(n.get('num'), int) and 0 <= n['num'] <= 100 and ('ref' not in n or sensible(n['ref'])) and \
        all(sensible(k) for k in n.get('kids', []))


class Run(object):
    def __init__(self, plan, env):
        self.plan, self.env = plan, env
        self.lazy = plan['lazy']
        self.nodes = []
        self.changed = 0

    # ---- model

    def make(self, data, parent=None):
        n = Node(parent)
        self.nodes.append(n)
        n.name, n.num = data['name'], data['num']
        if 'ref' in data:
            n.ref = self.make(data['ref'], n)
        n.kids = [self.make(k, n) for k in data.get('kids', [])]
        return n

    def reaches(self, a, b):
        return a is b or (a.ref is not None and self.reaches(a.ref, b)) or any(self.reaches(k, b) for k in a.kids)

    def holders(self, n, seen=None):
        """all that hold it or held it, directly or not"""
        seen = [] if seen is None else seen
        if n not in seen:
            seen.append(n)
            for h in n.held:
                self.holders(h, seen)
        return seen

    def below(self, n):
        return 1 + max([0] + [self.below(k) for k in ([n.ref] if n.ref else []) + n.kids])

    def above(self, n):
        return 1 + max([0] + [self.above(h) for h in self.nodes if h.ref is n or n in h.kids])

    def value(self, n, name, depth=0):
        """the value, objects.Fail if it raises, objects.Gone if it is not promised"""
        if depth > 60:
            raise objects.Gone(name)        # an object moved under one it holds
        v = lambda m, x: self.value(m, x, depth + 1)
        if name == 'name':
            return n.name
        if name == 'num':
            if isinstance(n.num, str):
                raise objects.Fail(name)
            return n.num
        if name == 'path':
            return (v(n.ref, 'path') + '.' if n.ref else '') + n.name
        if name == 'rname':
            return '<%s>' % (n.ref.name if n.ref else '')
        if name == 'total':
            return v(n, 'num') + (v(n.ref, 'total') if n.ref else 0)
        if name == 'names':
            return ''.join(v(k, 'path') + ';' for k in n.kids)
        if name == 'first':
            return n.kids[0].name if n.kids else ''
        if name == 'summ':
            return sum(v(k, 'total') for k in n.kids) + v(n, 'num')
        if name in ('full', 'pname') and n.parent == 'unknown':
            raise objects.Gone(name)
        if name == 'full':
            return (v(n.parent, 'full') + '/' if n.parent else '') + n.name
        if name == 'pname':
            return '%s:%s' % (n.parent.name if n.parent else '', n.name)
        if name == 'held':
            return ''.join(v(k, 'pname') + v(k, 'full') + ';' for k in n.kids)
        if name == 'far':
            if n.ref is None:
                return '-'
            return n.ref.ref.name if n.ref.ref else ''
        if name == 'deep':
            r = v(n.ref, 'num') if n.ref else -1
            return len(n.kids) if n.kids else r
        if name == 'down':
            return v(n, 'num') + sum(v(k, 'down') for k in n.kids)
        if name == 'best':
            return max([v(n, 'num')] + ([v(n.ref, 'num')] if n.ref else []))
        raise core.Skip()

    def bad(self):
        """the nodes whose number cannot be read"""
        return [n for n in self.nodes if isinstance(n.num, str)]

    def touches_bad(self, n, seen=None):
        seen = set() if seen is None else seen
        if n is None or n == 'unknown' or id(n) in seen:
            return False
        seen.add(id(n))
        return isinstance(n.num, str) or any(self.touches_bad(k, seen) for k in [n.ref, n.parent] + n.kids)

    # ---- objects

    def build(self):
        from ngoschema.protocols import SchemaMetaclass
        from ngoschema.decorators import depend_on_prop
        from ngoschema.loaders.schemas import load_schema
        serial[0] += 1
        uri = 'http://sim.test/c23/%d' % serial[0]
        props = {'name': {'type': 'string', 'maxLength': 20}, 'num': {'type': 'integer', 'minimum': 0, 'maximum': 100},
                 'ref': {'$ref': '#/$defs/N'}, 'kids': {'type': 'array', 'items': {'$ref': '#/$defs/N'}}}
        body = {'_id': uri + '#/$defs/N', '_lazyLoading': self.lazy}
        for c in self.plan['computed'] + ['path', 'total', 'full', 'down', 'pname']:
            props[c] = {'type': 'integer' if c in INTS else 'string'}
            if c in TMPL:
                props[c]['default'] = TMPL[c]

        def get_down(o):
            self.call('down')
            return o.num + sum(k.down for k in o.kids or [])

        def get_best(o):
            self.call('best')
            return max([o.num] + ([o.ref.num] if o.ref else []))

        for g, f in (('down', get_down), ('best', get_best)):
            if g in props:
                body['get_' + g] = depend_on_prop(*GETTERS[g])(f)
        load_schema({'$id': uri, '$defs': {'N': {'type': 'object', 'properties': props}, 'S': {'type': 'object', 'properties': {'more': {'type': 'integer'}}}}})
        self.props = props
        self.arm = None
        self.hits = 0

        self.cls = SchemaMetaclass('N', (), body)
        self.sub = SchemaMetaclass('S', (self.cls,), {'_id': uri + '#/$defs/S', '_lazyLoading': self.lazy})

    def call(self, name):
        if self.arm:
            self.arm[1] -= 1
            if self.arm[1] == 0:
                self.hits += 1
                raise objects.ERRORS[self.arm[0]]('simulated: %s fails' % name)

    def obj(self, n):
        """the object of a node: created by the plan, or read from one that holds it"""
        if n.handle is None:
            for h in self.nodes:
                if h is n or (h.ref is not n and n not in h.kids):
                    continue
                o = self.obj(h)
                if o is None:
                    continue
                n.handle = o.ref if h.ref is n else o.kids[h.kids.index(n)]
                break
        return n.handle

    def verify(self, n):
        """the objects linked are the ones that were given"""
        o = self.obj(n)
        if n.ref is not None:
            r = o.ref
            if n.ref.handle is None:
                n.ref.handle = r
            self.env.check(r is n.ref.handle, 'other-object', 'the object referred to is not the one that was given')
        got = list(o.kids or [])
        self.env.check(len(got) == len(n.kids), 'items', '%d items instead of %d' % (len(got), len(n.kids)))
        for k, g in zip(n.kids, got):
            if k.handle is None:
                k.handle = g
            self.env.check(g is k.handle, 'other-object', 'an item is not the object that was given')
        self.env.probe('same-object')

    def read(self, n, name, style='attr', op=None):
        env = self.env
        if name not in self.props:
            return
        o = self.obj(n)
        if o is None:
            return
        try:
            want = ('value', self.value(n, name))
        except objects.Gone:
            return
        except objects.Fail:
            want = ('raises', None)
        self.arm = [op['fail'], op['nth']] if op and 'fail' in op else None
        self.hits = 0
        try:
            v = getattr(o, name) if style == 'attr' else o[name]
            got = ('value', objects.show(v))
        except Exception as er:
            got = ('raises', type(er).__name__)
        hits, self.arm = self.hits, None
        env.log('read', self.nodes.index(n), name, got, hits)
        env.sign('read', name, got[0], bool(hits))
        if hits:
            env.fault('getter')
            env.probe('getter-failed')
            n.read.add(('failed', name))
        if got[0] == 'raises':
            env.check(want[0] == 'raises' or hits, 'unexpected-error', 'reading %s raises %s although its value is %r' % (name, got[1], want[1]))
            return
        if want[0] == 'raises':
            env.fail('not-raised', 'reading %s gives %r although a value it uses is invalid' % (name, got[1]))
        env.check(got[1] == want[1], 'value', 'reading %s gives %r instead of %r' % (name, got[1], want[1]))
        env.probe('read')
        if name in ('full', 'pname') and n.parent is not None:
            env.probe('parent-read')
        if (name, self.changed) not in n.read and any(x == name for x, c in n.read):
            env.probe('read-after-far-change')
            env.nontrivial = True
        if ('failed', name) in n.read:
            env.probe('recovered')
            n.read.discard(('failed', name))
        n.read.add((name, self.changed))

    def attempt(self, what, act, ok=True, may=False):
        """carry out a change; the model is changed by the caller if True is returned"""
        try:
            act()
        except Exception as er:
            if ok and not may:
                raise
            self.env.log(what, 'rejected')
            self.env.fault('invalid-value')
            self.env.probe('rejected')
            return False
        self.env.check(ok, 'accepted', '%s: an invalid value is accepted' % what)
        self.env.log(what, 'done')
        return True

    def move(self, n):
        # what holds an object after it is moved is not promised
        n.parent = 'unknown'

    def go(self):
        plan, env = self.plan, self.env
        self.build()
        env.probe('lazy' if self.lazy else 'eager')
        for data in plan['nodes']:
            n = self.make(data)
            # an object of a class that extends the one expected is accepted as it is
            cls = self.sub if data.get('sub') else self.cls
            n.handle = cls({k: v for k, v in json.loads(json.dumps(data)).items() if k != 'sub'})
            if data.get('sub'):
                env.probe('subclass')
        for i, op in enumerate(plan['ops']):
            env.steps += 1
            n = self.nodes[op['on'] % len(self.nodes)]
            o = self.obj(n)
            if o is None:
                continue
            env.sign(op['do'], self.nodes.index(n))
            do = op['do']
            if do == 'read':
                self.read(n, op['name'], op['style'], op)
                continue
            if do == 'all':
                for name in self.plan['computed']:
                    self.read(n, name, op['style'])
                self.verify(n)
                continue
            self.changed += 1
            if do == 'set':
                self.set(n, o, op)
            elif do == 'around':
                t = self.nodes[op['to'] % len(self.nodes)]
                h = self.obj(t)
                if h is None or self.touches_bad(t) and not self.lazy or self.below(t) > 3:
                    continue
                m = Node()
                self.nodes.append(m)
                m.name, m.num = 'w%d' % i, 1
                if op['how'] == 'ref':
                    m.ref = t
                    m.handle = self.cls(name=m.name, num=1, ref=h)
                else:
                    m.kids = [t]
                    m.handle = self.cls(name=m.name, num=1, kids=[h])
                self.move(t)
                t.held.append(m)
                env.log('around', op['how'])
                env.probe('constructed-around')
                self.verify(m)
            elif do == 'badlink':
                self.badlink(n, o, op)
            else:
                self.link(n, o, op)
        for n in list(self.nodes):
            if self.obj(n) is not None:
                self.verify(n)
                for name in self.plan['computed'] + ['name', 'num']:
                    self.read(n, name)

    def set(self, n, o, op):
        env = self.env
        name, value = op['name'], op['value']
        holders = [h for h in self.nodes if h is not n and (h.ref is n or n in h.kids) and self.obj(h) is not None]
        if len(holders) > 1:
            env.probe('shared')
        invalid = 'x' * 30 if name == 'name' else 'abc'
        raw = invalid if op['bad'] else value
        if op['bad'] and (self.lazy and name == 'name'):
            return
        target = o
        if op['through'] and holders:
            h = holders[(op['through'] - 1) % len(holders)]
            ho = self.obj(h)
            target = ho.ref if h.ref is n else ho.kids[h.kids.index(n)]
            env.check(target is o, 'other-object', 'an object read through one that holds it is another object')
            path = 'ref.' + name if h.ref is n else 'kids[%d].%s' % (h.kids.index(n), name)
        if op['style'] == 'attr':
            act = lambda: setattr(target, name, raw)
        elif target is o and op['through'] and holders and not op['bad']:
            act = lambda: ho.__setitem__(path, raw)
        else:
            act = lambda: target.__setitem__(name, raw)
        ok = not op['bad'] or self.lazy
        if self.attempt('set', act, ok):
            setattr(n, name, raw)
            if op['bad']:
                env.probe('invalid-lazy')
            elif op['through'] and holders:
                env.probe('changed-through')
            else:
                env.probe('changed-direct')
            if not holders:
                env.probe('detached-read')

    def badlink(self, n, o, op):
        if self.lazy:
            return
        bad = {'name': 'k', 'num': 500}
        if op['how'] == 'ref':
            act = lambda: setattr(o, 'ref', bad)
        elif op['how'] == 'append' or not n.kids:
            act = lambda: o.kids.append(bad)
        else:
            act = lambda: o.kids.__setitem__(0, bad)
        self.attempt('badlink', act, False)
        self.verify(n)

    def target(self, n, op):
        """the object or the values to link to a node, and its model"""
        if isinstance(op['to'], dict):
            data = op['to']
            if not sensible(data):
                raise core.Skip()
            if self.above(n) > 2:
                return None, None
            return json.loads(json.dumps(data)), lambda: self.make(data, n)
        t = self.nodes[op['to'] % len(self.nodes)]
        if t in self.holders(n) or self.reaches(t, n) or self.above(n) + self.below(t) > 4:
            return None, None       # the library reads far links many times
        h = self.obj(t)
        if h is None or self.touches_bad(t) and not self.lazy:
            return None, None

        def moved():
            self.move(t)
            t.held.append(n)
            return t
        return h, moved

    def link(self, n, o, op):
        env = self.env
        if not self.lazy and self.touches_bad(n):
            return
        what, node = self.target(n, op)
        how = op.get('how')
        new = isinstance(op['to'], dict)
        if op['do'] == 'ref':
            if what is None:
                return
            if op['style'] == 'attr':
                o.ref = what
            else:
                o['ref'] = what
            if n.ref is not None:
                self.move(n.ref)
            n.ref = node()
            env.log('ref', new)
            env.probe('ref-new' if new else 'ref-set')
            return
        kids = o.kids
        i = op['i'] % len(n.kids) if n.kids else 0
        if how in ('pop', 'del'):
            if not n.kids:
                return
            k = n.kids[i]
            self.obj(k)
            if how == 'pop':
                got = kids.pop(i)
                env.check(k.handle is None or got is k.handle, 'other-object', 'the item popped is not the object that was given')
            else:
                del kids[i]
            del n.kids[i]
            self.move(k)
            env.log('removed')
            env.probe('kid-removed')
            return
        if what is None or (how != 'set' and (len(n.kids) > 4 or len(self.nodes) > 16)):
            return
        if how == 'set' and n.kids:
            self.obj(n.kids[i])
            kids[i] = what
            self.move(n.kids[i])
            n.kids[i] = node()
            env.probe('kid-replaced')
        elif how == 'whole':
            for k in n.kids:
                self.obj(k)
            o.kids = [what]
            for k in n.kids:
                self.move(k)
            n.kids = [node()]
            env.probe('whole-list')
        elif how == 'insert':
            kids.insert(i, what)
            n.kids.insert(i, node())
        else:
            kids.extend([what]) if how == 'extend' else kids.append(what)
            n.kids.append(node())
        env.log('kids', how, new)
        env.probe('kid-new' if new else 'kid-added')


def run(plan, env):
    if not plan['nodes'] or not all(sensible(n) for n in plan['nodes']) or not set(plan['computed']) <= set(COMPUTED):
        raise core.Skip()
    for op in plan['ops']:
        if op['do'] == 'set' and (not isinstance(op['value'], str if op['name'] == 'name' else int) or isinstance(op['value'], int) and not 0 <= op['value'] <= 100):
            raise core.Skip()
        if op['do'] == 'set' and isinstance(op['value'], str) and len(op['value']) > 10:
            raise core.Skip()
    env.sign(plan['lazy'], plan['computed'], json.dumps(plan['nodes'], sort_keys=True))
    Run(plan, env).go()
