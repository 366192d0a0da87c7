"""C11-C13: object graphs of whole files."""
from . import harness
from . import spec
from .layout import ORDERS, raw_items, raw_list

MAGIC = {'little': b'\x06\x00', 'big': b'\x00\x06'}


def fourcc(b, order):
    return b if order == 'big' else b[::-1]


def num(s, data, order):
    """A concrete little/big-endian number of the file."""
    v = 0
    for x in (data if order == 'big' else data[::-1]):
        v = v * 256 + x
    return v


def make_file(s, order, records, root, ts=0, version=b'test', day=b'2001/02/03 04:05:06', tail=b'\0' * 16):
    """An independent writer: header, records [(kind, body)], 1-based root index."""
    big = order == 'big'

    def p(v, n):
        return s.pack(v, n, big)

    def st(b):
        return s.join([p(len(b), 2), b])
    parts = [MAGIC[order], b'Domain', fourcc(b'OBJD', order), st(b'AObjDoc'), b'\x04', st(day), p(len(records), 4),
             p(root, 4), b'IIII' if order == 'little' else b'MMMM', p(ts, 4), b'\0\0\0\0', fourcc(b'ATob', order),
             fourcc(b'ATve', order), st(version), tail]
    pos, spans = 0, []
    for x in parts:
        pos += len(x)
    for kind, body in records:
        parts += [fourcc(kind.encode('ascii'), order), p(len(body), 4), body]
        spans.append((pos + 8, len(body)))
        pos += 8 + len(body)
    return s.join(parts), spans


class Parsed(object):
    pass


def parse_file(s, data, order):
    """Independent parser of a written file; checks its header."""
    out = Parsed()
    big = order == 'big'
    state = [0]

    def take(n):
        r = data[state[0]:state[0] + n]
        state[0] += n
        s.check(len(r) == n, 'the header is complete')
        return r

    def lit(b, what):
        s.check(s.same(take(len(b)), b), what)

    lit(MAGIC[order], 'byte order mark')
    lit(b'Domain', 'file signature')
    lit(fourcc(b'OBJD', order), 'header kind')
    lit(s.join([s.pack(7, 2, big), b'AObjDoc', b'\x04']), 'document kind')
    n = num(s, take(2), order)
    out.day = take(n)
    out.count = num(s, take(4), order)
    out.root = num(s, take(4), order)
    lit(b'IIII' if order == 'little' else b'MMMM', 'byte order code')
    out.ts = take(4)
    take(4)
    lit(fourcc(b'ATob', order), 'header field')
    lit(fourcc(b'ATve', order), 'header field')
    n = num(s, take(2), order)
    out.version = take(n)
    take(16)
    out.chunks = []
    while state[0] < len(data) and len(out.chunks) < 1000:
        kind = take(4)
        size = num(s, take(4), order)
        if not big:
            kind = kind[::-1]
        out.chunks.append((kind, state[0], size))
        state[0] += size
    s.check(state[0] == len(data), 'the records fill the file exactly')
    s.check(out.count == len(out.chunks), 'the header counts the stored records')
    return out


def is_obj(x):
    return hasattr(x, 'class_id') and bool(x.class_id) and hasattr(x, 'instance_id')


def deref(v):
    return v.value if type(v).__name__ == 'AVBObjectRef' else v


class Compare(object):
    """Graph isomorphism of two object trees (conditions are checked, shapes must agree)."""

    def __init__(self, s, what, ignore=()):
        self.s, self.what = s, what
        self.fwd, self.bwd, self.keep = {}, {}, []
        self.ignore = ignore
        self.order = []

    def bad(self, where, why):
        self.s.check(False, '%s: %s: %s' % (self.what, where, why))

    def value(self, a, b, where):
        a, b = deref(a), deref(b)
        if a is None or b is None:
            if not (a is None and b is None):
                self.bad(where, 'present in one file only')
            return
        if is_obj(a) or is_obj(b):
            if not (is_obj(a) and is_obj(b)):
                return self.bad(where, 'an object in one file only')
            return self.obj(a, b, where)
        if hasattr(a, 'property_data'):
            if type(a).__name__ != type(b).__name__:
                return self.bad(where, 'another kind of part')
            return self.fields(a, b, where)
        if isinstance(a, dict):
            if not isinstance(b, dict) or sorted(a.keys()) != sorted(b.keys()):
                return self.bad(where, 'other keys')
            for k in a.keys():
                self.value(a[k], b[k], where + '.' + k)
            return
        if isinstance(a, (list, tuple)):
            return self.seq(a, b, where)
        self.s.check(self.s.same(a, b), '%s: %s' % (self.what, where))

    def seq(self, a, b, where):
        if not isinstance(b, (list, tuple)):
            return self.bad(where, 'not a list')
        x = raw_list(a) if isinstance(a, list) else list(a)
        y = raw_list(b) if isinstance(b, list) else list(b)
        if len(x) != len(y):
            return self.bad(where, 'another number of members')
        for i in range(len(x)):
            self.value(x[i], y[i], where + '[%d]' % i if i < 4 else where + '[..]')

    def fields(self, a, b, where):
        x, y = dict(raw_items(a.property_data)), dict(raw_items(b.property_data))
        for k in self.ignore:
            x.pop(k, None)
            y.pop(k, None)
        if set(x) != set(y):
            return self.bad(where, 'other fields: %s' % sorted(set(x) ^ set(y)))
        for k in x:
            self.value(x[k], y[k], where + '.' + k)

    def obj(self, a, b, where):
        if id(a) in self.fwd or id(b) in self.bwd:
            if self.fwd.get(id(a)) is not b or self.bwd.get(id(b)) is not a:
                self.bad(where, 'sharing differs')
            return
        self.fwd[id(a)], self.bwd[id(b)] = b, a
        self.keep += [a, b]
        if type(a).__name__ != type(b).__name__ or a.class_id != b.class_id:
            return self.bad(where, 'another kind of object')
        where = type(a).__name__
        if where == 'Attributes':
            x, y = raw_items(a), raw_items(b)
            if len(x) != len(y):
                return self.bad(where, 'another number of attributes')
            for (k, v), (k2, v2) in zip(x, y):
                self.s.check(self.s.same(k, k2), self.what + ': attribute name')
                self.value(v, v2, where + ' value')
        elif isinstance(a, list):
            self.seq(a, b, where)
        else:
            self.fields(a, b, where)


def same_graph(s, a, b, what, ignore=()):
    """Both trees have the same content; returns the number of objects."""
    c = Compare(s, what, ignore)
    c.obj(a, b, 'root')
    return len(c.keep) // 2


def read_back(s, f, path, order, what):
    """Checks a file written from f and returns it reopened."""
    data = s.read_file(path)
    p = parse_file(s, data, order)
    r = s.attempt(s.mod('file').AVBFile, path, use_ext=False)
    s.check(r.ok, what + ': the written file can be opened')
    if not r.ok:
        return None
    g = r.value
    s.check(0 < p.root <= len(p.chunks), 'the root is one of the records')
    if 0 < p.root <= len(p.chunks):
        s.check(s.same(p.chunks[p.root - 1][0], f.content.class_id), 'the root record is the root object')
    s.check(s.same(s.timestamp(g.last_save), s.timestamp(f.last_save)), 'save time')
    s.check(s.same(p.ts, s.pack(s.timestamp(f.last_save), 4, order == 'big')), 'stored save time')
    v = f.creator_version
    n = min(len(v), 30)
    s.check(s.same(g.creator_version, v[:30] + ' ' * (30 - n)), 'creator version, padded to 30')
    n = same_graph(s, f.content, g.content, what)
    s.check(n == len(p.chunks), 'every reachable object is stored exactly once')
    return g


# ------------------------------------------------------------------ C11
def kind_params(tier):
    return [[k, v] for k in spec.KINDS for v in ([0, 3] if tier == 'quick' else range(8))]


@harness('C11', params=kind_params)
def resave_kind(s, p):
    """a stored file: 3 leaf records, one record of any kind referring to them (all field values, 2 or 8 patterns of
    optional fields and list lengths), a bin as root that refers to it twice; opened and saved in each byte order"""
    kind, v = p
    order = s.choice('order', ORDERS)
    out_order = s.choice('out', ORDERS)
    leaves = 3
    state = [0]

    def ref(name):
        # cycles through the leaves, an already used one and null
        state[0] += 1
        return (1, 2, 3, 2, None)[(state[0] + v) % 5]
    recs = []
    for i in range(leaves):
        k = ('FILL', 'MCBR', 'TCCP')[i]
        recs.append((k, spec.build(s, k, 'write', order, 2 + i, ref_fn=lambda n: None, prefix='l%d.' % i).bytes()))
    g = spec.build(s, kind, 'write', order, v, ref_fn=ref, prefix='x.')
    recs.append((kind, g.bytes()))
    root = spec.build(s, 'ABIN', 'write', order, 0, ref_fn=lambda n: {'mob': 4, 'attributes': 3}.get(n), prefix='r.')
    recs.append(('ABIN', root.bytes()))
    ts = s.u('ts', 32)
    ver = s.text('ver', 4, 'mac_roman')
    data, _ = make_file(s, order, recs, 5, ts, s.encode_text(ver, 'mac_roman'))
    path = s.new_file('in.avb')
    s.write_file(path, data)
    f = s.mod('file').AVBFile(path, use_ext=False)
    s.check(s.same(f.creator_version, ver), 'creator version')
    s.check(s.same(s.timestamp(f.last_save), ts), 'save time')
    out = s.new_file('out.avb')
    f.write(out, out_order)
    s.cover('saved')
    g = read_back(s, f, out, out_order, 'saved and reopened')
    f.close()
    if g is not None:
        g.close()


def leaf_file(s, order, n, kids, tag='q'):
    """n filler records (lengths symbolic for the first 4, else their index), a sequence of kids, a bin with one item."""
    recs = []
    for i in range(n):
        if i < 4:
            b = spec.build(s, 'FILL', 'write', order, 1, ref_fn=lambda x: None, prefix='%s%d.' % (tag, i)).bytes()
        else:
            b = s.join([b'\x02\x03', b'\0' * 10, s.pack(25, 4, order == 'big'), b'\0\0\xff\xff\xff\xff', b'\0' * 12,
                        b'\x02\x01', s.pack(i, 4, order == 'big'), b'\x02\x01\x03'])
        recs.append(('FILL', b))
    return recs


@harness('C11', params=[[n, o] for n in (3, 70, 300) for o in ORDERS])
def many_objects(s, p):
    """a sequence of 3, 70 or 300 stored clips (plus the first one again), saved and reopened in the other byte order"""
    n, order = p
    recs = leaf_file(s, order, n, None)
    kids = list(range(1, n + 1)) + [1]
    big = order == 'big'
    base = spec.build(s, 'SEQU', 'write', order, 1, large=0, count=0, ref_fn=lambda x: None, prefix='s.').bytes()
    # replace the (empty or short) component list by ours
    head = spec.build(s, 'FILL', 'write', order, 1, ref_fn=lambda x: None, prefix='h.').bytes()
    comp = head[:len(head) - 2 - 4 - 3]
    recs.append(('SEQU', s.join([comp, b'\x02\x03', s.pack(len(kids), 4, big)] + [s.pack(k, 4, big) for k in kids] +
                                [b'\x03'])))
    root = spec.build(s, 'ABIN', 'write', order, 1, ref_fn=lambda x: n + 1 if x == 'mob' else None, prefix='r.')
    root2 = spec.build(s, 'ABIN', 'write', order, 0, ref_fn=lambda x: n + 1 if x == 'mob' else None, prefix='b.')
    recs.append(('ABIN', root2.bytes()))
    data, _ = make_file(s, order, recs, n + 2)
    path, out = s.new_file('in.avb'), s.new_file('out.avb')
    s.write_file(path, data)
    f = s.mod('file').AVBFile(path, use_ext=False)
    seq = f.read_object(n + 1)
    s.check(len(seq.components) == n + 1, 'number of components')
    s.check(seq.components[0] is seq.components[n], 'one object per record')
    s.check(s.conj([s.same(seq.components[i].length, i) for i in range(4, n)]), 'every clip leads to its record')
    other = 'big' if order == 'little' else 'little'
    f.write(out, other)
    g = read_back(s, f, out, other, 'saved and reopened')
    if g is not None:
        s.check(len(g.object_positions) == n + 3, 'number of records')


SHAPE = [('seq', 4), ('a_obj', 4), ('m2', 3), ('clip_attr', 3), ('plist', 2), ('desc', 2)]


def build_graph(s, f, pick):
    """Objects made with the public interface; pick(name, n) chooses the shape."""
    c = f.create
    a0 = c.Attributes()
    a0[u'n'] = s.i('a.n', 32)
    a0[u't'] = s.text('a.t', 2, 'mac_roman')
    a0[u'b'] = s.bytearray('a.b', 3)
    fill = c.Filler(media_kind='picture')
    fill.length = s.u('f.len', 32)
    clip = c.SourceClip(media_kind='picture', edit_rate=24)
    clip.length = s.u('c.len', 31)
    clip.mob_id = s.mobid('c.mob')
    clip.track_id = s.i('c.track', 16)
    clip.start_time = s.i('c.start', 32)
    plist = c.ParameterList()
    plist.append(fill)
    if pick('plist', 2):
        plist.append(clip)
        clip.param_list = c.ParameterList()
    a_obj = pick('a_obj', 4)
    if a_obj:
        a0[u'' if a_obj == 2 else u'o'] = [None, plist, fill, fill.attributes][a_obj]
    k = pick('clip_attr', 3)
    clip.attributes = [clip.attributes, fill.attributes if a_obj == 1 else a0, None][k]
    seq = c.Sequence(media_kind='picture')
    for x in [[], [fill], [clip, fill, clip], [fill, fill]][pick('seq', 4)]:
        seq.components.append(x)
    m1 = c.Composition(mob_type='CompositionMob')
    m1.name = s.text('m1.name', 3, 'mac_roman')
    m1.last_modified = s.datetime('m1.mod')
    m1.creation_time = s.datetime('m1.crt')
    m1.mob_id = s.mobid('m1.id')
    t = c.Track()
    t.index = s.i('t.index', 16)
    t.component = seq
    t.lock_number = 0
    m1.tracks.append(t)
    if pick('desc', 2):
        d = c.MediaDescriptor()
        d.mob_kind = s.u('d.kind', 8)
        loc = c.MacFileLocator()
        loc.path = s.text('loc.path', 2, 'mac_roman')
        loc.path_utf8 = s.text('loc.utf8', 2, 'utf-8')
        d.locator = loc
        d.attributes = a0
        m1.descriptor = d
    f.content.add_mob(m1)
    m2 = pick('m2', 3)
    if m2:
        m = c.Composition(mob_type='MasterMob')
        m.name = None
        m.last_modified = s.datetime('m2.mod')
        m.creation_time = s.datetime('m2.crt')
        m.mob_id = s.mobid('m2.id')
        t = c.Track()
        t.index = 1
        t.component = [None, clip, seq][m2]
        t.attributes = a0
        t.lock_number = s.i('t2.lock', 16)
        m.tracks.append(t)
        f.content.add_mob(m)
    return {'a0': a0, 'fill': fill, 'clip': clip, 'plist': plist, 'seq': seq, 'm1': m1}


# combinations covering every pair of (m2, clip_attr, plist, desc)
COVER = [(0, 0, 0, 0), (0, 1, 1, 1), (0, 2, 0, 1), (1, 0, 1, 1), (1, 1, 0, 0), (1, 2, 1, 0), (2, 0, 0, 1), (2, 1, 1, 0),
         (2, 2, 0, 0), (2, 2, 1, 1)]
REST = [n for n, k in SHAPE if n not in ('seq', 'a_obj')]


def created_params(tier):
    quick = [[i, j, (i * 4 + j * 5 + k * 3) % len(COVER)] for i in range(4) for j in range(4) for k in range(2)]
    return quick if tier == 'quick' else [[i, j, k] for i in range(4) for j in range(4) for k in range(len(COVER))]


@harness('C11', params=created_params)
def created(s, p):
    """a new bin with 1-2 mobs, tracks, a sequence with repeated or shared clips, shared attribute maps, parameter list,
    descriptor and locator (32 or 160 shapes covering all pairs of choices, all field values), written in each byte order; then written again after
    reopening"""
    fixed = dict(zip(['seq', 'a_obj'] + REST, [p[0], p[1]] + list(COVER[p[2]])))

    def pick(name, n):
        return fixed[name]
    order = s.choice('order', ORDERS)
    f = s.mod('file').AVBFile()
    f.last_save = s.datetime('save')
    f.creator_version = s.text('version', 3, 'mac_roman')
    f.content.uid = s.u('uid', 64)
    build_graph(s, f, pick)
    out = s.new_file('out.avb')
    f.write(out, order)
    g = read_back(s, f, out, order, 'created, saved and reopened')
    if g is not None:
        s.cover('reopened')
        out2 = s.new_file('out2.avb')
        g.write(out2, 'big')
        h = read_back(s, g, out2, 'big', 'saved again')
        if h is not None:
            h.close()
        g.close()


@harness('C11', params=ORDERS)
def version_field(s, order):
    """a new bin whose creator version has 0, 1, 28 to 33 or 64 characters of the Mac character set"""
    n = s.choice('n', [0, 1, 28, 29, 30, 31, 32, 33, 64])
    f = s.mod('file').AVBFile()
    f.last_save = s.datetime('save')
    ends = s.text('ends', min(2, n), 'mac_roman')
    f.creator_version = ends[:1] + u'v' * (n - 2) + ends[1:]
    f.content.display_mask = s.i('mask', 32)
    out = s.new_file('out.avb')
    f.write(out, order)
    g = read_back(s, f, out, order, 'saved and reopened')
    if g is not None:
        s.cover('reopened')
        g.close()
