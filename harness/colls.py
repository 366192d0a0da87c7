"""C14: object lists and attribute maps against plain lists and dictionaries of the objects."""
import gc
from . import harness
from .layout import ORDERS
from .graph import make_file, parse_file, leaf_file
from .access import hand_seq, hand_attr
from . import spec

LISTS = ['opened', 'opened_prls', 'created', 'created_prls']
LOPS = ['append', 'insert', 'extend', 'iadd', 'imul', 'setitem', 'setslice', 'delitem', 'delslice', 'remove', 'pop', 'pop_i',
        'clear', 'sort', 'sort_rev', 'reverse']
QUERIES = ['getitem', 'slice', 'contains', 'index', 'count', 'iterate', 'compare', 'concat', 'repeat', 'equal']


class Env(object):
    """A list of objects with repeats and a null member: [x0, x1, x0, None] (or the prefix of that length)."""

    def __init__(self, s, kind, order, n):
        self.s, self.kind, self.order, self.n = s, kind, order, n
        self.kids = [1, 2, 1, 0][:n]
        if kind.startswith('opened'):
            recs = leaf_file(s, order, 3, None)
            big = order == 'big'
            if kind == 'opened':
                recs.append(('SEQU', hand_seq(s, order, 's.', self.kids)[0]))
            else:
                recs.append(('PRLS', s.join([b'\x02\x01', s.pack(n, 4, big)] + [s.pack(k, 4, big) for k in self.kids] +
                                            [b'\x03'])))
            recs.append(('ATTR', hand_attr(s, order, s.i('a.n', 32), 3)[0]))
            root = spec.build(s, 'ABIN', 'write', order, 0, large=0, count=1,
                              ref_fn=lambda x: {'mob': 4, 'attributes': 5}.get(x), prefix='r.')
            recs.append(('ABIN', root.bytes()))
            data, _ = make_file(s, order, recs, 6)
            self.f = f = s.mod('file').AVBFile(s.stream(data), use_ext=False)
            self.pool = [f.read_object(i) for i in (1, 2, 3)]
        else:
            self.f = f = s.mod('file').AVBFile()
            self.pool = []
            for i in range(3):
                o = f.create.Filler(media_kind='picture')
                o.length = s.u('len%d' % i, 32)
                self.pool.append(o)
            self.own = f.create.ParameterList() if kind == 'created_prls' else f.create.Sequence(media_kind='picture')
            f.content.attributes[u'own'] = self.own
            for k in self.kids:
                self.list().append(self.obj(k))
        self.model = Objects([self.obj(k) for k in self.kids])

    def obj(self, k): return self.pool[k - 1] if k else None

    def owner(self):
        if self.kind.startswith('opened'):
            return self.f.content.items[0].mob
        return self.own

    def list(self):
        o = self.owner()
        return o if self.kind.endswith('prls') else o.components

    def idx(self, name):
        """a position or a slice bound"""
        return self.s.int(name, -self.n - 1, self.n + 1)

    def pick(self, name):
        return ([None] + self.pool)[self.s.choice(name, range(4))]


class Objects(list):
    """A plain list; the searches are written out because list.index puts repr(x) into its error."""

    def index(self, x, *args):
        for i in range(*slice(*(list(args) + [None] * (2 - len(args)))).indices(len(self))):
            if self[i] is x:
                return i
        raise ValueError('not in list')

    def remove(self, x):
        del self[self.index(x)]


def both(s, what, real, model):
    """The same operation on both: same result or same error."""
    a, b = s.attempt(real), s.attempt(model)
    s.check(a.ok == b.ok, what + ': succeeds exactly when it does for a list')
    if a.ok and b.ok:
        s.check(same_val(a.value, b.value), what + ': result')
    elif not a.ok and not b.ok:
        s.check(a.exc_name == b.exc_name, what + ': error')


def same_val(a, b):
    if isinstance(b, list):
        a = list(a)
        return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(b, tuple):
        return isinstance(a, tuple) and same_val(list(a), list(b))
    return a is b or (isinstance(b, (int, bool)) and a == b)


def list_op(s, e, op, k, depth=1):
    lst, m = e.list(), e.model
    nm = lambda x: '%s%d' % (x, k)
    if op in ('append', 'insert', 'setitem', 'remove'):
        x = e.pick(nm('x'))
    if op in ('extend', 'iadd', 'setslice'):
        xs = [[], [e.pool[2]], [e.pool[1], None, e.pool[1]]][s.choice(nm('xs'), range(3))]
    if op in ('insert', 'setitem', 'delitem', 'pop_i', 'setslice', 'delslice'):
        i = e.idx(nm('i'))
    if op == 'imul':
        i = s.choice(nm('i'), [-1, 0, 1, 2, 3])
    if op in ('setslice', 'delslice'):
        j = e.idx(nm('j'))
        step = s.choice(nm('step'), [None, 2, -1]) if op == 'delslice' and depth > 1 else None

    def do(t):
        if op == 'append':
            return t.append(x)
        if op == 'insert':
            return t.insert(i, x)
        if op == 'extend':
            return t.extend(y for y in xs) if k % 2 else t.extend(xs)
        if op == 'iadd':
            u = t
            u += xs
            if u is not t:
                raise RuntimeError('another list')
            return None
        if op == 'imul':
            u = t
            u *= i
            if u is not t:
                raise RuntimeError('another list')
            return None
        if op == 'setitem':
            t[i] = x
        elif op == 'setslice':
            t[i:j] = xs
        elif op == 'delitem':
            del t[i]
        elif op == 'delslice':
            del t[i:j:step]
        elif op == 'remove':
            return t.remove(x)
        elif op == 'pop':
            return t.pop()
        elif op == 'pop_i':
            return t.pop(i)
        elif op == 'clear':
            return t.clear()
        elif op == 'sort':
            return t.sort(key=lambda o: -1 if o is None else o.length)
        elif op == 'sort_rev':
            return t.sort(key=lambda o: -1 if o is None else o.length, reverse=True)
        elif op == 'reverse':
            return t.reverse()
    both(s, op, lambda: do(lst), lambda: do(m))
    s.check(same_val(lst, m), op + ': the list afterwards')
    s.check(len(lst) == len(m), op + ': the length afterwards')


def query(s, e, q):
    lst, m = e.list(), e.model
    if q == 'getitem':
        i = e.idx('qi')
        both(s, q, lambda: lst[i], lambda: m[i])
    elif q == 'slice':
        i, j = s.choice('qi', [None, -5, -1, 0, 1, 2]), s.choice('qj', [None, -2, 0, 3, 5])
        step = s.choice('qs', [None, 2, -1, 0])
        both(s, q, lambda: lst[i:j:step], lambda: m[i:j:step])
    elif q == 'contains':
        x = e.pick('qx')
        both(s, q, lambda: x in lst, lambda: x in m)
    elif q == 'index':
        x = e.pick('qx')
        how = s.choice('qh', [0, 1, 2])
        i = e.idx('qi') if how else 0
        e.n = max(0, e.n - 1)
        args = [(x,), (x, i), (x, i, e.n)][how]
        own = Objects(lst) if type(lst) is list else lst
        both(s, q, lambda: own.index(*args), lambda: m.index(*args))
    elif q == 'count':
        x = e.pick('qx')
        both(s, q, lambda: lst.count(x), lambda: m.count(x))
    elif q == 'iterate':
        both(s, q, lambda: [x for x in lst], lambda: [x for x in m])
        both(s, q, lambda: list(reversed(lst)), lambda: list(reversed(m)))
        both(s, q, lambda: [(i, x) for i, x in enumerate(lst)], lambda: list(enumerate(m)))
    elif q == 'concat':
        xs = [[], [e.pool[2]], [None, e.pool[0]]][s.choice('qi', range(3))]
        both(s, q, lambda: lst + xs, lambda: list(m) + xs)
        both(s, q, lambda: xs + lst, lambda: xs + list(m))
        both(s, q, lambda: lst + lst, lambda: list(m) + list(m))
        both(s, q, lambda: lst + 1, lambda: list(m) + 1)
    elif q == 'repeat':
        i = s.choice('qi', [-1, 0, 1, 2, 3])
        both(s, q, lambda: lst * i, lambda: list(m) * i)
        both(s, q, lambda: i * lst, lambda: i * list(m))
    elif q == 'equal':
        xs = list(m)
        if s.choice('qi', [False, True]):
            xs = xs[:s.choice('qn', range(e.n + 1))] + ([e.pick('qx')] if s.choice('qm', [False, True]) else [])
        eq = len(xs) == len(m) and all(x is y for x, y in zip(xs, m))
        for what, got in (('==', lambda: lst == xs), ('== reversed', lambda: xs == lst),
                          ('==, both object lists', lambda: lst == lst and e.list() == lst)):
            both(s, what, got, lambda: True if what.endswith('lists') else eq)
        both(s, '!=', lambda: lst != xs, lambda: not eq)
        both(s, '!= reversed', lambda: xs != lst, lambda: not eq)
        both(s, '== something else', lambda: lst == 1 or lst == None, lambda: False)   # noqa: E711
    elif q == 'compare':
        both(s, q, lambda: len(lst), lambda: len(m))
        both(s, q, lambda: bool(len(lst)), lambda: bool(m))


def lists_params(tier):
    d = 1 if tier == 'quick' else 2
    return [[k, (i + j) % 2, op, d] for i, k in enumerate(LISTS) for j, op in enumerate(LOPS)]


@harness('C14', params=lists_params)
def list_ops(s, p):
    """object lists of length 0 to 4 with a repeated and a null member, of opened and created sequences and parameter
    lists: every operation (quick 1, thorough 2 in a row) with every index, bound and member, all member lengths"""
    kind, o, op, depth = p
    n = s.choice('n', range(5) if op not in ('setslice', 'delslice') else [1, 4])
    e = Env(s, kind, ORDERS[o], n)
    for k in range(depth):
        list_op(s, e, op if k == 0 else s.choice('op%d' % k, LOPS), k, depth)
    s.cover('done')


@harness('C14', params=[[k, i % 2, q] for i, k in enumerate(LISTS) for q in QUERIES])
def list_queries(s, p):
    """reading operations of the same lists: every index, slice, search and iteration"""
    kind, o, q = p
    e = Env(s, kind, ORDERS[o], s.choice('n', range(5) if q not in ('slice', 'index') else [0, 4]))
    query(s, e, q)
    s.cover('done')


MAPS = ['opened', 'created']
MOPS = ['set', 'del', 'pop', 'pop_default', 'popitem', 'setdefault', 'update', 'ior', 'move', 'move_first', 'clear', 'read', 'equal']
KEYS = [u'n', u'o', u'\xe9t', u'z', u'']


class MapEnv(object):
    def __init__(self, s, kind, order):
        big = order == 'big'
        self.s, self.kind = s, kind
        num, txt = s.i('num', 32), s.text('txt', 2, 'mac_roman')
        blob = s.bytearray('blob', 3)
        if kind == 'opened':
            recs = leaf_file(s, order, 3, None)
            recs.append(('ATTR', s.join([
                b'\x02\x01', s.pack(5, 4, big), s.pack(1, 4, big), s.pack(1, 2, big), b'n', s.pack(num, 4, big),
                s.pack(3, 4, big), s.pack(1, 2, big), b'o', s.pack(2, 4, big),
                s.pack(2, 4, big), s.pack(2, 2, big), b'\x8et', s.pack(2, 2, big), s.encode_text(txt, 'mac_roman'),
                s.pack(4, 4, big), s.pack(1, 2, big), b'b', s.pack(3, 4, big), blob,
                s.pack(3, 4, big), s.pack(0, 2, big), s.pack(0, 4, big), b'\x03'])))
            root = spec.build(s, 'ABIN', 'write', order, 0, large=0, count=0,
                              ref_fn=lambda x: {'attributes': 4}.get(x), prefix='r.')
            recs.append(('ABIN', root.bytes()))
            data, _ = make_file(s, order, recs, 5)
            self.f = f = s.mod('file').AVBFile(s.stream(data), use_ext=False)
            self.pool = [f.read_object(i) for i in (1, 2, 3)]
            self.model = [(u'n', num), (u'o', self.pool[1]), (u'\xe9t', txt), (u'b', blob), (u'', None)]
        else:
            self.f = f = s.mod('file').AVBFile()
            self.pool = [f.create.Filler(media_kind='picture') for i in range(3)]
            self.model = [(u'n', num), (u'o', self.pool[1]), (u'\xe9t', txt), (u'b', blob), (u'', None)]
            for k, v in self.model:
                f.content.attributes[k] = v
        self.model = Plain(self.model)

    def map(self): return self.f.content.attributes

    def value(self, name, later):
        k = self.s.choice(name, [0, 2] if later else range(4))
        if k == 0:
            return self.s.i(name + 'i', 32)
        if k == 1:
            return self.s.text(name + 't', 1, 'mac_roman')
        return [None, None, self.pool[0], None][k]


class Plain(object):
    """An insertion-ordered map, written out."""

    def __init__(self, items): self.l = list(items)

    def find(self, k):
        for i, (x, v) in enumerate(self.l):
            if x == k:
                return i
        return -1

    def __contains__(self, k): return self.find(k) >= 0

    def __getitem__(self, k):
        i = self.find(k)
        if i < 0:
            raise KeyError(k)
        return self.l[i][1]

    def __setitem__(self, k, v):
        i = self.find(k)
        if i < 0:
            self.l.append((k, v))
        else:
            self.l[i] = (k, v)

    def __delitem__(self, k):
        i = self.find(k)
        if i < 0:
            raise KeyError(k)
        del self.l[i]

    def get(self, k, d=None): return self[k] if k in self else d
    def clear(self): del self.l[:]
    def __len__(self): return len(self.l)
    def __iter__(self): return iter([k for k, v in self.l])
    def keys(self): return [k for k, v in self.l]
    def values(self): return [v for k, v in self.l]
    def items(self): return list(self.l)

    def pop(self, k, *d):
        if k in self:
            v = self[k]
            del self[k]
            return v
        if d:
            return d[0]
        raise KeyError(k)

    def popitem(self):
        if not self.l:
            raise KeyError('empty')
        return self.l.pop()

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def update(self, other):
        for k, v in other:
            self[k] = v

    def __ior__(self, other):
        self.update(other)
        return self

    def move_to_end(self, k, last=True):
        v = self[k]
        del self[k]
        self.l.insert(len(self.l) if last else 0, (k, v))


def both_map(s, what, real, model):
    a, b = s.attempt(real), s.attempt(model)
    s.check(a.ok == b.ok, what + ': succeeds exactly when it does for a dictionary')
    if a.ok and b.ok:
        match(s, a.value, b.value, what)
    elif not a.ok and not b.ok:
        s.check(a.exc_name == b.exc_name, what + ': error')


def match(s, a, b, what):
    if isinstance(b, (list, tuple)):
        a = list(a)
        s.check(len(a) == len(b), what + ': size')
        for x, y in zip(a, b):
            match(s, x, y, what)
    elif b is None or hasattr(b, 'class_id'):
        s.check(a is b, what + ': the object')
    else:
        s.check(s.same(a, b), what + ': value')


def map_equal(s, e, k):
    """equality with a plain dictionary of the same entries, and of one that differs in an entry"""
    t, m = e.map(), e.model
    d = {}
    for x, v in m.items():
        d[x] = v
    s.check(t == d, 'equal to a dictionary of the same entries')
    s.check(d == t, 'a dictionary of the same entries is equal')
    s.check(s.neg(t != d), 'not unequal to a dictionary of the same entries')
    s.check(t == t, 'equal to itself')
    d[u'o'] = e.pool[0]
    s.check(s.neg(t == d) if (u'o' not in m or m[u'o'] is not e.pool[0]) else t == d, 'unequal when an entry differs')
    d.pop(u'o')
    s.check(s.neg(t == d) if u'o' in m else t == d, 'unequal when an entry is missing')
    s.check(s.neg(t == 1), 'unequal to something else')


def map_op(s, e, op, k):
    t, m = e.map(), e.model
    nm = lambda x: '%s%d' % (x, k)
    key = KEYS[s.choice(nm('key'), range(5) if k == 0 else [0, 3, 4])] if op in ('set', 'del', 'pop', 'pop_default', 'setdefault', 'read', 'move', 'move_first') else None
    v = e.value(nm('v'), k) if op in ('set', 'pop_default', 'setdefault', 'update', 'ior') else None

    def do(d):
        if op == 'set':
            d[key] = v
        elif op == 'del':
            del d[key]
        elif op == 'pop':
            return d.pop(key)
        elif op == 'pop_default':
            return d.pop(key, v)
        elif op == 'popitem':
            return d.popitem()
        elif op == 'setdefault':
            return d.setdefault(key, v)
        elif op == 'update':
            return d.update([(u'n', v), (u'new', v)])
        elif op == 'ior':
            u = d
            u |= [(u'n', v), (u'new', v)]
            if u is not d:
                raise RuntimeError('another map')
        elif op == 'move':
            return d.move_to_end(key)
        elif op == 'move_first':
            return d.move_to_end(key, last=False)
        elif op == 'clear':
            return d.clear()
        elif op == 'read':
            return [d[key], key in d, d.get(key), d.get(u'none'), d.get(key, 1), d.get(u'none', 1), len(d)]
    if op == 'equal':
        return map_equal(s, e, k)
    both_map(s, op, lambda: do(t), lambda: do(m))
    both_map(s, op + ', items', lambda: [list(x) for x in t.items()], lambda: [list(x) for x in m.items()])
    both_map(s, op + ', values', lambda: list(t.values()), lambda: m.values())
    both_map(s, op + ', keys', lambda: list(t.keys()), lambda: m.keys())
    both_map(s, op + ', iteration', lambda: [x for x in t], lambda: [x for x in m])


@harness('C14', params=lambda tier: [[k, o, op, 2] for o, k in enumerate(MAPS) for op in MOPS])
def map_ops(s, p):
    """an attribute map of 5 entries of every type and an empty reference under the empty name, opened or created: every sequence of 2 operations over 5 and 3 keys and
    values of all types"""
    kind, o, op, depth = p
    e = MapEnv(s, kind, ORDERS[o])
    for k in range(depth):
        map_op(s, e, op if k == 0 else s.choice('op%d' % k, MOPS), k)
    s.cover('done')


@harness('C14', params=lambda tier: [[k, op, ORDERS[i % 2]] for i, k in enumerate(('opened', 'opened_prls', 'map'))
                                     for op in (MOPS if k == 'map' else LOPS) if op not in ('read', 'equal')])
def kept(s, p):
    """a change by any of the operations to a list or map of an opened file survives although the caller keeps no
    object, and is what is saved"""
    kind, op, order = p
    if kind == 'map':
        e = MapEnv(s, 'opened', order)
        map_op(s, e, op, 0)
        gc.collect()
        both_map(s, op + ', later', lambda: [list(x) for x in e.map().items()],
                 lambda: [list(x) for x in e.model.items()])
    else:
        e = Env(s, kind, order, 2 if op in ('setslice', 'delslice') else 4)
        list_op(s, e, op, 0)
        gc.collect()
        s.check(same_val(e.list(), e.model), op + ': the list later')
    out = s.new_file('out.avb')
    e.f.write(out, ORDERS[op in LOPS[::2] + MOPS[::2]])
    g = s.mod('file').AVBFile(out, use_ext=False)
    if kind == 'map':
        items = e.model.items()
        got = list(g.content.attributes.items())
        s.check(len(got) == len(items), 'number of saved attributes')
        for (k, v), (k2, v2) in zip(got, items):
            s.check(s.same(k, k2), 'saved attribute name')
            if hasattr(v2, 'class_id'):
                s.check(s.same(v.length, v2.length), 'saved attribute object')
            else:
                s.check(s.same(v, v2), 'saved attribute value')
    else:
        o = g.content.items[0].mob
        got = list(o if kind == 'opened_prls' else o.components)
        s.check(len(got) == len(e.model), 'number of saved members')
        for i in range(min(len(got), len(e.model))):
            a, b = got[i], e.model[i]
            s.check((a is None) == (b is None), 'saved null member')
            if a is not None and b is not None:
                s.check(s.same(a.length, b.length), 'saved member')
            for j in range(i):
                s.check((got[j] is a) == (e.model[j] is b), 'saved members are shared as before')
    g.close()
