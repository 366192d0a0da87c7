"""C12, C13: access orders and edit histories of an open file, against a plain model of its records."""
import gc
from . import harness
from . import spec
from .spec import Ref, Rec
from .layout import ORDERS, raw_items, raw_list
from .graph import make_file, parse_file, deref, is_obj

CLS = {'FILL': 'Filler', 'ATTR': 'Attributes', 'SEQU': 'Sequence', 'CMPO': 'Composition', 'ABIN': 'Bin',
       'SCLP': 'SourceClip', 'PRLS': 'ParameterList'}


class Node(object):
    """One object of the model: its class name and the fields that are known."""

    def __init__(self, cls, fields, stored=True):
        self.cls, self.fields, self.stored = cls, fields, stored


def hand_seq(s, order, pre, kids):
    big = order == 'big'
    g = spec.build(s, 'FILL', 'write', order, 1, ref_fn=lambda n: None, prefix=pre)
    head = g.bytes()
    body = s.join([head[:len(head) - 2 - 4 - 3], b'\x02\x03', s.pack(len(kids), 4, big)] +
                  [s.pack(k, 4, big) for k in kids] + [b'\x03'])
    f = dict(g.fields)
    del f['length']
    f['components'] = [Ref(k) for k in kids]
    return body, f


def hand_attr(s, order, num, ref):
    big = order == 'big'
    body = s.join([b'\x02\x01', s.pack(2, 4, big), s.pack(1, 4, big), s.pack(1, 2, big), b'n', s.pack(num, 4, big),
                   s.pack(3, 4, big), s.pack(1, 2, big), b'o', s.pack(ref, 4, big), b'\x03'])
    return body, {'@items': [[u'n', num], [u'o', Ref(ref)]]}


def lib(s, order):
    """1, 2 fillers, 3 attributes (refers to 1), 4 sequence (1, 2), 5 mob (track with the sequence, attributes 3),
    6 root bin with the mob; returns (records, model nodes)"""
    recs, nodes = [], {}

    def add(kind, body, fields):
        recs.append((kind, body))
        nodes[len(recs)] = Node(CLS[kind], fields)
    for i in (1, 2):
        g = spec.build(s, 'FILL', 'write', order, 1, ref_fn=lambda n: None, prefix='f%d.' % i)
        add('FILL', g.bytes(), g.fields)
    add('ATTR', *hand_attr(s, order, s.i('a.n', 32), 1))
    add('SEQU', *hand_seq(s, order, 's.', [1, 2]))
    g = spec.build(s, 'CMPO', 'write', order, 0, large=2, count=1,
                   ref_fn=lambda n: {'component': 4, 'attributes': 3}.get(n), prefix='m.')
    add('CMPO', g.bytes(), g.fields)
    g = spec.build(s, 'ABIN', 'write', order, 0, large=0, count=1, ref_fn=lambda n: {'mob': 5}.get(n), prefix='b.')
    add('ABIN', g.bytes(), g.fields)
    return recs, nodes


class Match(object):
    """An object tree against model nodes (one object per node)."""

    def __init__(self, s, nodes, what):
        self.s, self.nodes, self.what = s, nodes, what
        self.of, self.back, self.keep = {}, {}, []

    def bad(self, where, why):
        self.s.check(False, '%s: %s: %s' % (self.what, where, why))

    def ref(self, e, a, where):
        a = deref(a)
        if e is None or e.index is None:
            if a is not None:
                self.bad(where, 'refers to something')
        elif not is_obj(a):
            self.bad(where, 'refers to nothing')
        else:
            self.node(e.index, a, where)

    def node(self, i, a, where):
        n = self.nodes[i]
        if i in self.of or id(a) in self.back:
            if self.of.get(i) is not a or self.back.get(id(a)) != i:
                self.bad(where, 'leads to another object')
            return
        self.of[i] = a
        self.back[id(a)] = i
        self.keep.append(a)
        if type(a).__name__ != n.cls:
            return self.bad(where, 'is a %s' % type(a).__name__)
        if '@items' in n.fields:
            got, exp = raw_items(a), n.fields['@items']
            if len(got) != len(exp):
                return self.bad(n.cls, 'number of attributes')
            for (k, v), (k2, v2) in zip(got, exp):
                self.s.check(self.s.same(k, k2), self.what + ': attribute name')
                self.value(v2, v, n.cls + ' value')
        elif '@list' in n.fields:
            self.value(n.fields['@list'], a, n.cls)
        else:
            self.rec(n.fields, a, n.cls, n.stored)

    def rec(self, fields, a, where, exact):
        got = dict(raw_items(a.property_data))
        if exact and set(got) != set(fields):
            return self.bad(where, 'other fields')
        for k in fields:
            if k not in got:
                return self.bad(where, 'no field ' + k)
            self.value(fields[k], got[k], where + '.' + k)

    def value(self, e, a, where):
        if isinstance(e, Ref):
            self.ref(e, a, where)
        elif isinstance(e, Rec):
            if type(a).__name__ != e.cls:
                return self.bad(where, 'is a %s' % type(a).__name__)
            self.rec(e.fields, a, where, True)
        elif isinstance(e, list):
            if not isinstance(a, (list, tuple)):
                return self.bad(where, 'is not a list')
            x = raw_list(a) if isinstance(a, list) else list(a)
            if len(x) != len(e):
                return self.bad(where, 'number of members')
            for p, q in zip(e, x):
                self.value(p, q, where)
        elif isinstance(e, dict):
            if not isinstance(a, dict) or sorted(a) != sorted(e):
                return self.bad(where, 'keys')
            for k in e:
                self.value(e[k], a[k], where + '.' + k)
        else:
            self.s.check(self.s.same(a, e), '%s: %s' % (self.what, where))


# ------------------------------------------------------------------ C12
N = 6


def c12_params(tier):
    return [[o, i, tier != 'quick'] for o in ORDERS for i in range(N + 3)]


def via_refs(f, i):
    """The object reached through references from the root."""
    root = f.content
    if i == 6:
        return root
    m = root.items[0].mob
    if i == 5:
        return m
    t = m.tracks[0]
    if i == 3:
        return t.attributes if f.next_object_id % 2 else m.attributes
    if i == 4:
        return t.component
    if i == 1 and f.next_object_id % 2 == 0:
        return t.attributes[u'o']
    return t.component.components[i - 1]


@harness('C12', params=c12_params)
def orders(s, p):
    """every sequence of 3 accesses to a file of 6 records: by record number or through references (quick: alternating),
    stepping through the chunk and kind enumerations, each result kept or dropped (and collected); all field values;
    opened by path or from a stream"""
    order, first, full = p
    depth = 3
    pattern = None if full else s.choice('pattern', [0, 1])
    recs, nodes = lib(s, order)
    data, spans = make_file(s, order, recs, N)
    if first % 2 == (order == 'big'):
        path = s.new_file('in.avb')
        s.write_file(path, data)
        f = s.mod('file').AVBFile(path, use_ext=False)
    else:
        f = s.mod('file').AVBFile(s.stream(data), use_ext=False)
    alive = {N: f.content}
    walk, kinds = [f.chunks(), 0], [f.iter_class_ids([b'FILL', b'SEQU']), 0]
    order_of = [1, 2, 4]

    def step(op):
        if op < N:
            i = op + 1
            how = ['number', 'refs'][s.choice('how%d' % k, [0, 1]) if full else (k + pattern) % 2]
            o = f.read_object(i) if how == 'number' else via_refs(f, i)
        elif op == N:
            # one step of the record enumeration; the root chunk comes first
            c = next(walk[0])
            if walk[1] == 0:
                c = next(walk[0])
                walk[1] = 1
            i = walk[1]
            walk[1] += 1
            check_chunk(s, c, recs[i - 1], spans[i - 1])
            return
        elif op == N + 1:
            i = order_of[kinds[1]]
            kinds[1] += 1
            o = next(kinds[0])
        else:
            i = s.choice('chunk%d' % k, [2, 5])
            check_chunk(s, f.read_chunk(i), recs[i - 1], spans[i - 1])
            return
        if i in alive:
            s.check(o is alive[i], 'the same object on every access while it is alive')
        s.check(type(o).__name__ == nodes[i].cls, 'the object of that record')
        m = Match(s, nodes, 'access %d' % k)
        m.node(i, o, 'object')
        for j in alive:
            if j in m.of:
                s.check(m.of[j] is alive[j], 'references lead to the object that is alive')
        if k + 1 == depth or s.choice('keep%d' % k, [True, False]):
            alive[i] = o
        else:
            del m, o
            gc.collect()
    for k in range(depth):
        step(first if k == 0 else s.choice('op%d' % k, range(N + 3)))
    s.cover('accessed')
    s.check(f.read_object(0) is None, 'record number 0 is no object')
    f.close()


def check_chunk(s, c, rec, span):
    s.check(s.same(c.class_id, rec[0].encode('ascii')), 'kind of the record')
    s.check(s.conj([c.pos == span[0], c.size == span[1]]), 'place of the record')
    s.check(s.same(c.read(), rec[1]), 'data of the record')


@harness('C12', params=[[n, o] for n in (0, 1, 4, 40) for o in ORDERS])
def enumerate_all(s, p):
    """all chunks and all objects of chosen kinds of a file with n fillers (bodies free for the first 4), in order,
    with or without reading objects in between, twice"""
    n, order = p
    from .graph import leaf_file
    recs = leaf_file(s, order, n, None)
    recs.append(('ATTR', hand_attr(s, order, s.i('a.n', 32), 0)[0]))
    root = spec.build(s, 'ABIN', 'write', order, s.choice('v', [0, 1]), ref_fn=lambda x: n + 1 if x == 'mob' else None,
                      prefix='r.')
    recs.append(('ABIN', root.bytes()))
    at = s.choice('root', sorted(set([0, n // 2, n + 1])))
    # the root may be any record
    recs.insert(at, recs.pop())
    data, spans = make_file(s, order, recs, at + 1)
    f = s.mod('file').AVBFile(s.stream(data), use_ext=False)
    between = s.choice('between', [None, 1, len(recs)])
    for turn in range(2):
        i = 0
        for c in f.chunks():
            if i == 0:
                s.check(s.same(c.class_id, b'OBJD'), 'the header comes first')
            else:
                check_chunk(s, c, recs[i - 1], spans[i - 1])
            if between:
                f.read_object(between)
            i += 1
        s.check(i == len(recs) + 1, 'every record is enumerated once')
    for want in ([b'FILL'], [b'ABIN', b'ATTR'], [b'SEQU'], [b'FILL', b'ATTR', b'ABIN']):
        exp = [i + 1 for i in range(len(recs)) if recs[i][0].encode('ascii') in want]
        got = []
        for o in f.iter_class_ids(want):
            got.append(o)
            if between:
                f.read_object(between)
        s.check(len(got) == len(exp), 'every object of the kinds is enumerated once')
        if len(got) == len(exp):
            s.check(all(got[i] is f.read_object(exp[i]) for i in range(len(exp))), 'objects come in file order')
    s.check(f.content is f.read_object(at + 1), 'the root is the record the header names')
    f.close()


@harness('C12', params=ORDERS)
def chunk_data(s, order):
    """the chunks of a file of 6 records, taken first and read later: every pair of them, one after another, also twice,
    after objects were read, or after the stream was moved"""
    recs, nodes = lib(s, order)
    data, spans = make_file(s, order, recs, N)
    f = s.mod('file').AVBFile(s.stream(data), use_ext=False)
    chunks = list(f.chunks())
    i, j = s.choice('i', range(1, N + 1)), s.choice('j', range(1, N + 1))
    what = s.choice('between', ['nothing', 'object', 'start', 'end'])
    check_chunk(s, chunks[i], recs[i - 1], spans[i - 1])
    if what == 'object':
        f.read_object(j)
    elif what == 'start':
        f.f.seek(0)
    elif what == 'end':
        f.f.seek(len(data))
    check_chunk(s, chunks[j], recs[j - 1], spans[j - 1])
    check_chunk(s, f.read_chunk(i), recs[i - 1], spans[i - 1])
    s.cover('read')
    f.close()


@harness('C12', params=[[k] for k in spec.KINDS])
def every_kind(s, p):
    """one record of each kind (lists and texts of no, one or two members at one place; values free), reached by number,
    through two references of an attribute map and by enumeration, in both orders; and the same record cut short (by one
    byte or to nothing): every access fails, also while an earlier failure is kept"""
    kind = p[0]
    order = s.choice('order', ORDERS)
    n = s.choice('n', [0, 1, 2])
    j = s.choice('j', range(10)) if n != 1 else 0
    g = spec.build(s, kind, 'read', order, 0, j, n, ref_fn=lambda x: None)
    if j and j >= g.nums:
        s.check(True, 'the record has fewer lists')
        return
    body = g.bytes()
    damage = s.choice('cut', [0, 1, len(body)]) if n == 1 else 0
    body = body[:len(body) - damage]
    big = order == 'big'
    items = [b'\x02\x01', s.pack(2, 4, big)]
    for name in (b'a', b'b'):
        items += [s.pack(3, 4, big), s.pack(1, 2, big), name, s.pack(1, 4, big)]
    data, spans = make_file(s, order, [(kind, body), ('ATTR', s.join(items + [b'\x03']))], 2)
    f = s.mod('file').AVBFile(s.stream(data), use_ext=False)
    ways = [lambda: f.read_object(1), lambda: f.content[u'a'], lambda: f.content[u'b'],
            lambda: next(f.iter_class_ids([kind.encode('ascii')]))]
    if s.choice('backwards', [False, True]):
        ways.reverse()
    kept = []
    for w in ways:
        r = s.attempt(w)
        kept.append(r)
        if damage:
            s.check(not r.ok, 'a damaged record is no object, however often it is read')
        else:
            s.check(r.ok and r.value is kept[0].value, 'every path leads to the same object')
    for name, r in (('a', s.attempt(lambda: f.content.get(u'a'))), ('b', s.attempt(lambda: list(f.content.values())[1]))):
        if damage:
            s.check(not r.ok, 'a damaged record is no object, however often it is read')
        else:
            s.check(r.ok and r.value is kept[0].value, 'every path leads to the same object')
    s.cover('read')
    f.close()


# ------------------------------------------------------------------ C13
BAD = 7     # a malformed record nothing refers to
OPS = ['walk', 'length0', 'length1', 'append', 'share', 'delete', 'insert', 'name', 'attr', 'attr_del', 'attr_obj',
       'detach', 'track_field', 'track_add', 'save', 'add_mob', 'bad', 'pop', 'bin_field', 'extend', 'attr_clear',
       'replace']


class Hist(object):
    def __init__(self, s, order, held):
        self.s, self.order, self.held = s, order, held
        recs, self.nodes = lib(s, order)
        recs.append(('FILL', b'\x02\x03\0\0'))
        self.data, self.spans = make_file(s, order, recs, 6)
        self.path = s.new_file('in.avb')
        s.write_file(self.path, self.data)
        self.f = s.mod('file').AVBFile(self.path, use_ext=False)
        self.k = 0
        self.edited = set()
        self.created = {}          # record number of a new object -> node number
        self.pins = []
        self.n = 100

    def mob(self): return self.f.content.items[0].mob
    def seq(self): return self.mob().tracks[0].component

    def new_filler(self, v):
        o = self.f.create.Filler(media_kind='picture')
        o.length = v
        self.n += 1
        self.nodes[self.n] = Node('Filler', {'length': v}, False)
        return o, self.n

    def nm(self, x): return '%s%d' % (x, self.k)

    def settle(self):
        """Between two operations the caller keeps all objects, or none."""
        if not self.held:
            gc.collect()

    def comps(self): return self.nodes[4].fields['components']

    def run(self, op):
        s, f = self.s, self.f
        self.k += 1
        if self.held:
            self.pins += [self.mob(), self.seq(), list(self.seq().components), self.mob().tracks[0].attributes]
        getattr(self, 'do_' + op)()
        self.settle()

    # every operation reaches its objects from the root, performs one edit and updates the model
    def do_walk(self):
        n = 0
        for o in self.s.mod('core').walk_references(self.f.content):
            n += 1
        self.s.check(n >= 1, 'objects are found')

    def set_length(self, i):
        c = self.seq().components
        if i < len(c):
            v = self.s.u(self.nm('len'), 32)
            c[i].length = v
            n = self.comps()[i].index
            self.nodes[n].fields['length'] = v
            self.edited.add(n)

    def do_length0(self): self.set_length(0)
    def do_length1(self): self.set_length(1)

    def do_append(self):
        o, n = self.new_filler(self.s.u(self.nm('new'), 32))
        self.seq().components.append(o)
        self.comps().append(Ref(n))
        self.edited.add(4)

    def do_extend(self):
        o, n = self.new_filler(self.s.u(self.nm('new'), 32))
        self.seq().components.extend([o, o])
        self.comps().extend([Ref(n), Ref(n)])
        self.edited.add(4)

    def do_insert(self):
        o, n = self.new_filler(self.s.u(self.nm('new'), 32))
        self.seq().components.insert(1, o)
        self.comps().insert(1, Ref(n))
        self.edited.add(4)

    def do_share(self):
        c = self.seq().components
        if len(c) > 1:
            c[1] = c[0]
            self.comps()[1] = self.comps()[0]
            self.edited.add(4)

    def do_delete(self):
        c = self.seq().components
        if len(c):
            del c[0]
            del self.comps()[0]
            self.edited.add(4)

    def do_pop(self):
        c = self.seq().components
        if len(c):
            c.pop()
            self.comps().pop()
            self.edited.add(4)

    def do_replace(self):
        # a whole list, and a whole object
        c = self.s.mod('core').AVBRefList
        seq = self.seq()
        lst = c.__new__(c, root=self.f, parent=seq)
        for x in reversed(list(seq.components)):
            lst.append(x)
        seq.components = lst
        self.comps().reverse()
        self.edited.add(4)

    def do_name(self):
        v = self.s.text(self.nm('name'), 2, 'mac_roman')
        self.mob().name = v
        self.nodes[5].fields['name'] = v
        self.edited.add(5)

    def attrs(self): return self.mob().tracks[0].attributes
    def items(self): return self.nodes[3].fields['@items']

    def set_item(self, key, v):
        for it in self.items():
            if it[0] == key:
                it[1] = v
                break
        else:
            self.items().append([key, v])
        self.edited.add(3)

    def do_attr(self):
        v = self.s.i(self.nm('attr'), 32)
        self.attrs()[u'n'] = v
        self.set_item(u'n', v)

    def do_attr_del(self):
        a = self.attrs()
        if u'n' in a:
            del a[u'n']
            self.items()[:] = [x for x in self.items() if x[0] != u'n']
            self.edited.add(3)

    def do_attr_clear(self):
        self.attrs().clear()
        self.items()[:] = []
        self.edited.add(3)

    def do_attr_obj(self):
        o, n = self.new_filler(self.s.u(self.nm('new'), 32))
        self.attrs()[u'o'] = o
        self.set_item(u'o', Ref(n))

    def do_detach(self):
        m = self.mob()
        m.attributes = None
        self.nodes[5].fields['attributes'] = Ref(None)
        self.edited.add(5)

    def lost(self, seen, region):
        """A part of an object was edited; returns whether the edit still exists."""
        self.settle()
        ok = seen()
        self.s.check(ok, 'an edit of a part of an object stays visible', known=[('K13a', region)])
        return ok

    def do_track_field(self):
        v = self.s.i(self.nm('index'), 16)
        region = not self.held and 5 not in self.edited
        self.mob().tracks[0].index = v
        fields = self.nodes[5].fields['tracks'][0].fields
        if region:
            # the owner is collected before the next access
            fields['index'] = self.observe('index')(fields['index'], v)
        else:
            fields['index'] = v

    def observe(self, what):
        def pick(old, new):
            self.settle()
            cur = self.mob().tracks[0].index
            self.s.check(self.s.same(cur, new), 'an edit of a track stays visible', known=[('K13a', True)])
            return cur
        return pick

    def do_track_add(self):
        region = not self.held and 5 not in self.edited
        m = self.mob()
        t = self.f.create.Track()
        t.index = v = self.s.i(self.nm('index'), 16)
        t.lock_number = 0
        m.tracks.append(t)
        n = len(m.tracks)
        del m, t
        if region:
            self.settle()
            there = len(self.mob().tracks) == n
            self.s.check(there, 'an added track stays visible', known=[('K13a', True)])
            if not there:
                return
        self.nodes[5].fields['tracks'].append(Rec('Track', {'index': v, 'lock_number': 0}))

    def do_save(self):
        self.final('mid%d.avb' % self.k, ORDERS[self.k % 2])

    def do_add_mob(self):
        m = self.f.create.Composition(mob_type='MasterMob')
        m.mob_id = self.s.mobid(self.nm('id'))
        m.last_modified = self.s.datetime(self.nm('mod'))
        m.creation_time = self.s.datetime(self.nm('crt'))
        m.usage_code = self.s.i(self.nm('use'), 32)
        item = self.f.content.add_mob(m)
        item.x = self.s.i(self.nm('x'), 16)
        self.n += 1
        self.nodes[self.n] = Node('Composition', {'mob_id': m.mob_id, 'usage_code': m.usage_code, 'tracks': []}, False)
        self.nodes[6].fields['items'].append(Rec('BinItem', {'mob': Ref(self.n), 'x': item.x, 'y': item.y, 'keyframe': item.keyframe,
                                                             'user_placed': item.user_placed}))

    def do_bad(self):
        r = self.s.attempt(self.f.read_object, BAD)
        self.s.check(not r.ok, 'a malformed record is rejected')

    def do_bin_field(self):
        v = self.s.i(self.nm('mask'), 32)
        self.f.content.display_mask = v
        self.nodes[6].fields['display_mask'] = v
        self.edited.add(6)

    def final(self, name, out_order):
        s, f = self.s, self.f
        out = s.new_file(name)
        f.write(out, out_order)
        data = s.read_file(out)
        p = parse_file(s, data, out_order)
        g = s.mod('file').AVBFile(out, use_ext=False)
        m = Match(s, self.nodes, 'saved')
        m.node(6, g.content, 'root')
        n = len(p.chunks)
        s.check(n >= len(m.of), 'every object of the edited file is stored')
        g.close()

    def modified(self):
        """Record numbers that count as modified."""
        return set(i for i in self.f.modified_objects if i <= BAD)


def c13_params(tier):
    return [[h, o, op] for h in (0, 1) for o in ORDERS for op in OPS]


def c13_depth(tier):
    return 2 if tier == 'quick' else 3


@harness('C13', params=lambda tier: [[h, (h + i) % 2, op, c13_depth(tier)] for h in (0, 1) for i, op in enumerate(OPS)])
def edits(s, p):
    """every sequence of 2 (thorough 3) of 22 edit operations on an opened file, between two of which the caller keeps
    all objects or none; all values; the result is saved in each byte order and reopened"""
    held, o, op, depth = p
    h = Hist(s, ORDERS[o], held)
    for k in range(depth):
        h.run(op if k == 0 else s.choice('op%d' % k, OPS))
    s.cover('edited')
    s.check(h.modified() <= h.edited, 'only edited objects count as modified')
    h.final('out.avb', s.choice('out', ORDERS) if depth < 3 else ORDERS[o])
    s.check(s.same(s.read_file(h.path), h.data), 'the opened file itself is left alone')
    h.f.close()


@harness('C13', params=lambda tier: [[o, m] for o in ORDERS for m in ('number', 'walk', 'save')])
def read_only(s, p):
    """reading every object in any way, and saving, modifies nothing; saving then stores the same content"""
    o, mode = p
    h = Hist(s, o, s.choice('held', [0, 1]))
    if mode == 'number':
        keep = [h.f.read_object(i) for i in range(1, 7)]
        s.check(len(keep) == 6, 'all objects are read')
    elif mode == 'walk':
        h.run('walk')
    else:
        h.run('save')
    s.check(not h.modified(), 'reading does not count as a modification')
    if s.choice('fail', [0, 1]):
        h.do_bad()
        s.check(not h.modified(), 'a failed read does not count as a modification')
        h.run('name')
        s.check(h.modified() == {5}, 'an edit after a failed read counts')
    h.final('out.avb', s.choice('out', ORDERS))
    h.f.close()


EMPTY_ATTR = b'\x02\x01\0\0\0\0\x03'


def field_params(tier):
    if tier == 'quick':
        return [[k, ORDERS[i % 2], 0] for i, k in enumerate(spec.KINDS)]
    return [[k, o, v] for k in spec.KINDS for o in ORDERS for v in range(4)]


@harness('C13', params=field_params)
def every_field(s, p):
    """a file with two records of any kind (all field values and optional fields; references lead to two empty attribute
    maps): each field of the first is assigned the value the second one has, nothing is kept, and the field is read
    again; list and map objects: a member is added"""
    kind, order, v = p
    recs = [('ATTR', EMPTY_ATTR), ('ATTR', EMPTY_ATTR)]
    for i in (1, 2):
        g = spec.build(s, kind, 'write', order, v, 99, 1, ref_fn=lambda n: i, prefix='x%d.' % i, only=(99, False))
        recs.append((kind, g.bytes()))
    root = spec.build(s, 'ABIN', 'write', order, 0, 0, 2, ref_fn=lambda n: {'mob': 3, 'attributes': 4}.get(n), prefix='r.')
    recs.append(('ABIN', root.bytes()))
    data, _ = make_file(s, order, recs, 5)
    path = s.new_file('in.avb')
    s.write_file(path, data)
    f = s.mod('file').AVBFile(path, use_ext=False)
    b, leaf = f.read_object(4), f.read_object(2)

    def edited():
        s.check(3 in f.modified_objects and len(f.modified_objects) == 1,
                'the edited object, and only it, counts as modified')
        gc.collect()
        return f.read_object(3)
    if isinstance(b, dict):
        f.read_object(3)[u'new'] = leaf
        a = edited()
        s.check(u'new' in a and a[u'new'] is leaf, 'the new attribute is there')
    elif isinstance(b, list):
        f.read_object(3).append(leaf)
        a = edited()
        s.check(len(a) > 0 and a[len(a) - 1] is leaf, 'the new member is there')
    else:
        for name, raw in raw_items(b.property_data):
            setattr(f.read_object(3), name, getattr(b, name))
            now = dict(raw_items(edited().property_data))[name]
            if is_obj(deref(raw)):
                s.check(deref(now) is deref(raw), 'the field leads to the other object: ' + name)
            elif isinstance(raw, (list, dict)):
                s.check(now is raw, 'the field is the other list: ' + name)
            else:
                s.check(s.same(now, raw), 'the field has the value it was given: ' + name)
            # back to the stored object
            now = None
            f.modified_objects.clear()
            gc.collect()
    s.check(True, 'done')
    s.cover('edited')
    f.close()
