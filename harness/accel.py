"""C09, C10: the compiled accelerator against the pure reader."""
import struct
import uuid
from . import harness
from . import spec
from . import layout
from . import graph
from .layout import make_root, record, raw_items, raw_list, rejected

KINDS = ['CMPO', 'TKFX', 'MDES', 'DIDD', 'CDCI', 'SLCT', 'SEQU', 'FILL', 'SCLP', 'PRCL', 'PRIT', 'TRKR', 'FXPS', 'ATTR']
EXT = dict(ext=True, replay='ext')
_NAMES = {'SymInt': 'int', 'SymZ': 'int', 'SymBool': 'bool', 'SymReal': 'float', 'SymDouble': 'float', 'SymStr': 'str',
          'SymBytes': 'bytes', 'SymByteArray': 'bytearray', 'unicode': 'str', 'long': 'int'}


def kind_of(v):
    n = type(v).__name__
    return _NAMES.get(n, n)


def index_of(v, in_list=False):
    """The index a stored reference holds; a null reference is None."""
    if v is None:
        return 0
    if kind_of(v) == 'AVBObjectRef':
        return v.index
    if in_list and kind_of(v) == 'int':
        return v
    return None


def is_ref(v):
    return kind_of(v) == 'AVBObjectRef'


def compare(s, a, b, where, acc, in_list=False):
    """a (pure) and b (accelerated) have the same type; the conditions for the same value are added to acc."""
    if is_ref(a) or is_ref(b):
        ia, ib = index_of(a, in_list), index_of(b, in_list)
        if ia is None or ib is None:
            s.check(False, where + ': both readers give a reference')
        else:
            acc.append(s.same(ia, ib))
        return
    ka, kb = kind_of(a), kind_of(b)
    if ka != kb:
        s.check(False, '%s: same type (%s)' % (where, ka))
        return
    if hasattr(a, 'property_data'):
        compare_fields(s, a.property_data, b.property_data, where, acc)
    elif isinstance(a, (list, tuple)):
        xs = raw_list(a) if isinstance(a, list) else list(a)
        ys = raw_list(b) if isinstance(b, list) else list(b)
        if len(xs) != len(ys):
            s.check(False, where + ': same number of members')
            return
        for i in range(len(xs)):
            compare(s, xs[i], ys[i], '%s[%d]' % (where, i), acc, ka == 'AVBRefList')
    elif isinstance(a, dict):
        compare_fields(s, a, b, where, acc)
    else:
        acc.append(s.same(a, b))


def compare_fields(s, a, b, where, acc=None):
    """One obligation per field of the outermost table, all of them together in inner ones."""
    da, db = dict(raw_items(a)), dict(raw_items(b))
    if set(da) != set(db):
        s.check(False, '%s: same fields' % where)
    for k in da:
        if k not in db:
            continue
        if acc is not None:
            compare(s, da[k], db[k], '%s.%s' % (where, k), acc)
            continue
        inner = []
        compare(s, da[k], db[k], '%s.%s' % (where, k), inner)
        s.check(s.conj(inner), '%s.%s: same value' % (where, k))


def compare_attributes(s, a, b, where):
    xa, xb = raw_items(a), raw_items(b)
    s.check(len(xa) == len(xb), where + ': same number of attributes')
    if len(xa) == len(xb):
        for i in range(len(xa)):
            acc = [s.same(xa[i][0], xb[i][0])]
            compare(s, xa[i][1], xb[i][1], where + ': attribute', acc)
            s.check(s.conj(acc), where + ': same attribute name and value')


def both(s, kind, body):
    """(pure, accelerated) results of reading a record, with their files."""
    data = record(s, kind, 'little', body)
    out = []
    for ext in (False, True):
        root = make_root(s, 'little', data, ext=ext)
        out += [s.attempt(root.read_object, 1), root]
    return out


def written(s, root, obj):
    root.octx = root.ictx
    f = s.stream()
    r = s.attempt(root.write_object, f, obj)
    return f.getvalue() if r.ok else None


def check_same(s, kind, g, write=False):
    rp, pure, ra, accel = both(s, kind, g.bytes())
    s.check(rp.ok, 'the pure reader accepts the record')
    s.check(ra.ok, 'the accelerated reader accepts the record')
    if not rp.ok or not ra.ok:
        return
    a, b = rp.value, ra.value
    s.check(type(a) is type(b), 'same kind of object')
    if kind == 'ATTR':
        compare_attributes(s, a, b, kind)
    else:
        compare_fields(s, a.property_data, b.property_data, kind)
    s.check(len(accel.modified_objects) == 0, 'reading does not mark the object as modified')
    if not write or (kind == 'FXPS' and len(raw_list(a.property_data['parameters'])) > 1):
        s.cover('same')
        return
    x, y = written(s, pure, a), written(s, accel, b)
    s.check((x is None) == (y is None), 'both objects can be written')
    if x is not None and y is not None:
        s.check(len(x) == len(y), 'both objects are written with the same size')
        if len(x) == len(y):
            s.check(s.same(x, y), 'both objects are written the same')
            s.cover('same')


def variants(tier):
    return [[k, 6 if tier == 'quick' else 24] for k in KINDS]


@harness('C09', params=variants, **EXT)
def accel_decode(s, p):
    """every field value of one record of each accelerated kind; 6 (quick) or 24 (thorough) patterns of optional fields,
    list lengths 0..3 and text lengths 0..3"""
    kind, nv = p
    check_same(s, kind, spec.build(s, kind, 'read', 'little', s.choice('v', range(nv))), True)


def kinds(tier):
    return [[k, 'little'] for k in KINDS]


@harness('C09', params=kinds, **EXT)
def accel_large(s, p):
    """one of the lists, texts or data blocks of the record has 257 members, the others 1"""
    g = layout.large_spec(s, p[0], 'read', 'little')
    if g is not None:
        check_same(s, p[0], g)


@harness('C09', params=kinds, **EXT)
def accel_few(s, p):
    """one of the lists, texts or data blocks of the record has 0 or 2 members, the others 1"""
    g = layout.few_spec(s, p[0], 'read', 'little')
    if g is not None:
        check_same(s, p[0], g)


@harness('C09', params=kinds, **EXT)
def accel_optional(s, p):
    """each optional part of the record as the only one that is there, and as the only one that is not"""
    g = layout.optional_spec(s, p[0], 'read', 'little')
    if g is not None:
        check_same(s, p[0], g)


@harness('C09', params=kinds, **EXT)
def accel_text(s, p):
    """texts of up to 3 arbitrary bytes, with zero bytes and bytes that are not text"""
    kind = p[0]
    g = spec.build(s, kind, 'read', 'little', s.choice('v', range(4)), raw_text=True)
    rp, pure, ra, accel = both(s, kind, g.bytes())
    s.check(rp.ok == ra.ok, 'both readers accept or reject the record')
    if rp.ok and ra.ok:
        if kind == 'ATTR':
            compare_attributes(s, rp.value, ra.value, kind)
        else:
            compare_fields(s, rp.value.property_data, ra.value.property_data, kind)


@harness('C09', params=kinds, **EXT)
def accel_edit(s, p):
    """each list of references of one record, read by either reader: adding a member marks the same object as changed;
    every value and field is given back the same way by items, values, get and subscription of the field table"""
    kind = p[0]
    g = spec.build(s, kind, 'read', 'little', s.choice('v', range(4)))
    rp, pure, ra, accel = both(s, kind, g.bytes())
    s.check(rp.ok and ra.ok, 'both readers accept the record')
    if not (rp.ok and ra.ok) or kind == 'ATTR':
        return
    a, b = rp.value, ra.value
    da, db = dict(raw_items(a.property_data)), dict(raw_items(b.property_data))
    for k in sorted(da):
        if kind_of(da[k]) == 'AVBRefList' and kind_of(db.get(k)) == 'AVBRefList':
            da[k].append(None)
            db[k].append(None)
            s.check((len(pure.modified_objects) == 0) == (len(accel.modified_objects) == 0),
                    'adding a member to %s marks the object as changed' % k)
            if len(accel.modified_objects):
                s.check(b in list(accel.modified_objects.values()), 'the object that holds %s is marked' % k)
            s.cover('list')
    pa, pb = a.property_data, b.property_data
    ia, ib = dict(pa.items()), dict(pb.items())
    la, lb = list(pa.values()), list(pb.values())
    s.check(len(ia) == len(ib) == len(da) and len(la) == len(lb) == len(da), 'as many items and values')
    ka, kb = list(da), list(db)
    acc = []
    for k in sorted(da):
        for x, y, how in ((pa[k], pb[k], 'subscription'), (pa.get(k), pb.get(k), 'get'),
                          (ia.get(k), ib.get(k), 'items'),
                          (la[ka.index(k)], lb[kb.index(k)] if k in kb else None, 'values')):
            if (x is None) != (y is None):
                s.check(False, '%s: %s gives the same value' % (k, how))
            else:
                compare(s, x, y, '%s by %s' % (k, how), acc)
    s.check(s.conj(acc), 'items, values, get and subscription give the same values')
    s.check(pb.get('no such field', 5) == 5, 'get of a field that is not there')


def bad_params(tier):
    if tier == 'quick':
        return [[k, 'little', v] for k in KINDS for v in (0, 2)]
    return [[k, 'little', v] for k in KINDS for v in range(8)]


def refuse(s, kind, body, msg, size=None):
    data = record(s, kind, 'little', body, size)
    rejected(s, make_root(s, 'little', data, ext=True), msg)


@harness('C10', params=bad_params, **EXT)
def accel_cut(s, p):
    """every strict prefix of the record (record size adjusted), one or two further bytes; all field values"""
    kind, order, v = p
    g, body = s.memo('rec', lambda: layout.rec_of(s, kind, order, v))
    if s.choice('how', ['prefix', 'longer']) == 'longer':
        body = s.join([body, s.bytes('extra', s.choice('n', [1, 2]))])
        refuse(s, kind, body, 'a record with bytes after its end is rejected')
        return
    refuse(s, kind, body[:s.choice('k', range(len(body)))], 'a record that is cut short is rejected')


@harness('C10', params=bad_params, **EXT)
def accel_mark(s, p):
    """every other value of each version, tag, length-constant and end byte; all field values"""
    kind, order, v = p
    g, body = s.memo('rec', lambda: layout.rec_of(s, kind, order, v))
    off, orig, excl = g.marks[s.choice('i', range(len(g.marks)))]
    b = s.bytes('b', 1)
    s.assume(s.conj([b[0] != x for x in (orig,) + tuple(excl)]))
    refuse(s, kind, s.join([body[:off], b, body[off + 1:]]), 'a wrong version, tag or end marker is rejected')


@harness('C10', params=bad_params, **EXT)
def accel_ref(s, p):
    """each reference replaced by any index that is not in the file (file of 2**31 - 1 objects)"""
    kind, order, v = p
    g, body = s.memo('rec', lambda: layout.rec_of(s, kind, order, v))
    if not g.refs:
        s.check(True, 'the record has no references')
        return
    off = g.refs[s.choice('i', range(len(g.refs)))]
    x = s.int('idx', spec.REF_N, (1 << 32) - 1)
    refuse(s, kind, s.join([body[:off], s.pack(x, 4, False), body[off + 4:]]),
           'a reference to an object that does not exist is rejected')


@harness('C10', params=bad_params, **EXT)
def accel_code(s, p):
    """each type code, set of flags, selection and number of items or bytes replaced by any value that is not one"""
    kind, order, v = p
    g, body = s.memo('rec', lambda: layout.rec_of(s, kind, order, v))
    first = 0 if kind in ('TKFX', 'CMPO') else g.mdes_bad if kind in ('DIDD', 'CDCI') else g.base_bad
    if first >= len(g.bad):
        s.check(True, 'the record has no codes or numbers of its own')
        return
    off, n, what = g.bad[s.choice('i', range(first, len(g.bad)))]
    x = s.int('x', 0, (1 << 8 * n) - 1)
    if what == 'count':
        s.assume(x > len(body))
    elif what[0] == 'flags':
        x = what[1] + (x % 63 + 1) * 1024
    elif what[0] == 'max':
        s.assume(x >= what[1])
    else:
        s.assume(s.conj([x != y for y in what]))
    refuse(s, kind, s.join([body[:off], s.pack(x, n, False), body[off + n:]]), 'an invalid code or number is rejected')


class Fixed(object):
    """Stands for s where a record is built of one value per field (the same in every run)."""
    symbolic = False

    def __init__(self, s):
        self.s = s
        self.n = 0

    def __getattr__(self, name):
        return getattr(self.s, name)

    def next(self):
        self.n = (self.n * 37 + 11) % 251
        return self.n

    def int(self, name, lo, hi):
        return lo + (self.next() * 65537 + 259) % (hi - lo + 1)

    def u(self, name, bits):
        return self.int(name, 0, (1 << bits) - 1)

    def i(self, name, bits):
        return self.int(name, -1 << (bits - 1), (1 << (bits - 1)) - 1)

    def bool(self, name):
        return self.next() % 2 == 0

    def bytes(self, name, n):
        return bytes(bytearray(self.next() for _ in range(n)))

    def bytearray(self, name, n):
        return bytearray(self.bytes(name, n))

    def text(self, name, n, codec='mac_roman', nonul=True):
        return u''.join(u'%c' % (97 + self.next() % 26) for _ in range(n))

    def double(self, name):
        return 1.5 * self.next()

    def double_bits(self, v):
        return struct.unpack('<Q', struct.pack('<d', v))[0]

    def uuid(self, name):
        return uuid.UUID(bytes=self.bytes(name, 16))

    def mobid(self, name):
        m = self.s.mod('mobid').MobID()
        m.bytes_le = bytearray(self.bytes(name, 32))
        return m

    def datetime(self, name):
        return 1000000000 + self.next()

    def timestamp(self, v):
        return v

    def pack(self, v, n, big):
        return (v & ((1 << (8 * n)) - 1)).to_bytes(n, 'big' if big else 'little')

    def encode_text(self, t, codec):
        return t.encode(codec)


def damage_params(tier):
    return [[k, v] for k in KINDS for v in ((0, 2) if tier == 'quick' else range(8))]


@harness('C10', params=damage_params, quick={'witnesses': 6, 'values': 256}, thorough={'values': 256}, **EXT)
def accel_damage(s, p):
    """one record of each kind with any single byte replaced by any value (the fields hold one value each): both readers
    accept it with the same values or both reject it"""
    kind, v = p
    body = s.memo('rec', lambda: spec.build(Fixed(s), kind, 'read', 'little', v).bytes())
    k = s.choice('k', range(len(body)))
    rp, pure, ra, accel = both(s, kind, s.join([body[:k], s.bytes('b', 1), body[k + 1:]]))
    s.check(rp.ok == ra.ok, 'both readers accept or reject the record')
    if rp.ok and ra.ok:
        if kind == 'ATTR':
            compare_attributes(s, rp.value, ra.value, kind)
        else:
            compare_fields(s, rp.value.property_data, ra.value.property_data, kind)
        s.cover('accepted')


def open_params(tier):
    return [[k, o, v] for k in KINDS for o in layout.ORDERS for v in ((1,) if tier == 'quick' else range(4))]


@harness('C09', params=open_params, **EXT)
def accel_open(s, p):
    """a file with one record of each accelerated kind (all field values, null references), opened with and without the
    accelerator, and saved again in the other byte order"""
    kind, order, v = p
    g = spec.build(s, kind, 'read', order, v, ref_fn=lambda n: None)
    data, _ = graph.make_file(s, order, [(kind, g.bytes())], 1)
    path = s.new_file('in.avb')
    s.write_file(path, data)
    res, outs, copies = [], [], []
    for ext in (True, False):
        f = s.mod('file').AVBFile(path, use_ext=ext)
        r = s.attempt(f.read_object, 1)
        s.check(r.ok, 'the object can be read')
        if not r.ok:
            return
        res.append(r.value)
        c = s.attempt(r.value.copy, s.mod('file').AVBFile())
        s.check(c.ok, 'the object can be copied')
        copies.append(c.value)
        out = s.new_file('out%d.avb' % ext)
        w = s.attempt(f.write, out, 'big' if order == 'little' else 'little')
        outs.append(s.read_file(out) if w.ok else None)
        f.close()
    b, a = res
    s.check(type(a) is type(b), 'same kind of object')
    if kind == 'ATTR':
        compare_attributes(s, a, b, kind)
    else:
        compare_fields(s, a.property_data, b.property_data, kind)
        if copies[0] is not None and copies[1] is not None:
            compare_fields(s, copies[1].property_data, copies[0].property_data, 'copied ' + kind)
    s.check((outs[0] is None) == (outs[1] is None), 'both files can be saved')
    if outs[0] is not None and outs[1] is not None:
        s.check(s.same(outs[0], outs[1]), 'both files are saved the same')
        s.cover('saved')
