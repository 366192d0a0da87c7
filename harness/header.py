"""C22: what is accepted as a file."""
from . import harness
from . import spec
from .layout import ORDERS
from .graph import make_file, MAGIC, fourcc


def small(s, order, root=2, ts=0, version=b'test', day=b'2001/02/03 04:05:06', tail=b'\0' * 16):
    """A filler, and an attribute map that refers to it."""
    big = order == 'big'
    g = spec.build(s, 'FILL', 'write', order, 0, ref_fn=lambda n: None)
    body = s.join([b'\x02\x01', s.pack(1, 4, big), s.pack(3, 4, big), s.pack(1, 2, big), b'o', s.pack(1, 4, big), b'\x03'])
    return make_file(s, order, [('FILL', g.bytes()), ('ATTR', body)], root, ts, version, day, tail)


def fixed(order, day):
    """(offset, bytes) of the constant parts of the header, offset of the counts, of the version, end of the header"""
    at = 2 + 6 + 4 + 2 + 7 + 1 + 2 + len(day)
    parts = [(0, MAGIC[order]), (2, b'Domain'), (8, fourcc(b'OBJD', order)),
             (12, b'\x00\x07' if order == 'big' else b'\x07\x00'), (14, b'AObjDoc'), (21, b'\x04'),
             (at + 8, b'IIII' if order == 'little' else b'MMMM'),
             (at + 20, fourcc(b'ATob', order)), (at + 24, fourcc(b'ATve', order))]
    return parts, at, at + 28


def opened(s, data, way):
    if way == 'path':
        path = s.new_file('in.avb')
        s.write_file(path, data)
        return s.attempt(s.mod('file').AVBFile, path, use_ext=False)
    return s.attempt(s.mod('file').AVBFile, s.stream(data), use_ext=False)


@harness('C22', params=ORDERS, quick={'values': 256}, thorough={'values': 256})
def any_byte(s, order):
    """a file of two records: each byte of the constant parts of the header replaced by any other; opened by path or from a
    stream"""
    day = b'2001/02/03 04:05:06'
    data, spans = small(s, order, day=day)
    places = [at + i for at, b in fixed(order, day)[0] for i in range(len(b))]
    at = s.choice('at', places)
    v = s.u('v', 8)
    s.assume(v != data[at])
    bad = s.join([data[:at], s.pack(v, 1, False), data[at + 1:]])
    s.check(not opened(s, bad, s.choice('way', ['path', 'stream'])).ok, 'a header that differs is rejected')


@harness('C22', params=ORDERS)
def two_bytes(s, order):
    """the two bytes of the byte order mark, and the four of the byte order code, replaced by any values that are not one"""
    data, spans = small(s, order)
    day = b'2001/02/03 04:05:06'
    if s.choice('which', [0, 1]):
        v = s.bytes('v', 2)
        s.assume(s.neg(s.disj([s.same(v, MAGIC[o]) for o in ORDERS])))
        bad = s.join([v, data[2:]])
    else:
        v = s.bytes('v', 4)
        s.assume(s.neg(s.disj([s.same(v, b'IIII'), s.same(v, b'MMMM')])))
        at = fixed(order, day)[1] + 8
        bad = s.join([data[:at], v, data[at + 4:]])
    s.check(not opened(s, bad, 'stream').ok, 'a header that differs is rejected')


@harness('C22', params=ORDERS)
def cut_file(s, order):
    """the file cut at every byte up to the last record: rejected; inside the last record: rejected when that record (the
    root, or not) is read; also nothing but zeros, or the first byte of another record, after the cut"""
    root = s.choice('root', [1, 2])
    data, spans = small(s, order, root=root)
    n = s.choice('n', range(len(data)))
    r = opened(s, data[:n], 'stream')
    last = spans[1][0]
    if n < last or root == 2:
        s.check(not r.ok, 'a file that is cut short is rejected')
    elif r.ok:
        s.check(s.same(r.value.content.class_id, b'FILL'), 'the records before the cut are there')
        s.check(not s.attempt(r.value.read_object, 2).ok, 'the record that is cut short is rejected')
    else:
        s.fail('the records before the cut are there')


@harness('C22', params=ORDERS, quick={'values': 256}, thorough={'values': 256})
def numbers(s, order):
    """a number of objects above the number of records (by 1, 2, 1000), and a number of the root that is no record's: 3 to 255,
    0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff"""
    data, spans = small(s, order)
    at = fixed(order, b'2001/02/03 04:05:06')[1]
    big = order == 'big'
    if s.choice('which', [0, 1]):
        k = s.choice('k', [3, 4, 1002])
        bad = s.join([data[:at], s.pack(k, 4, big), data[at + 4:]])
    else:
        root = s.choice('far', [None, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff])
        if root is None:
            root = s.u('root', 8)
            s.assume(root > 2)
        bad = s.join([data[:at + 4], s.pack(root, 4, big), data[at + 8:]])
    s.check(not opened(s, bad, 'stream').ok, 'numbers that do not fit the records are rejected')


@harness('C22', params=[[o, w] for o in ORDERS for w in ('path', 'stream')])
def free_parts(s, p):
    """a file of two records with any date text of 0, 2 or 19 bytes that is not padded with zeros, any save time, creator version of 0, 1, 3
    or 30 characters, reserved bytes: opens; root, version and save time are those of the header"""
    order, way = p
    k = s.choice('len', [0, 1, 3, 30])
    version = s.text('version', k, 'mac_roman')
    if k:
        cps = s.ord_list(version)
        s.assume(s.conj([cps[0] != 0, cps[-1] != 0]))
    k = s.choice('daylen', [0, 2, 19])
    day = s.bytes('day', k)
    if k:
        s.assume(s.conj([day[0] != 0, day[-1] != 0]))
    ts = s.u('ts', 32)
    data, spans = small(s, order, root=s.choice('root', [1, 2]), ts=ts, version=s.encode_text(version, 'mac_roman'),
                        day=day, tail=s.bytes('tail', 16))
    r = opened(s, data, way)
    s.check(r.ok, 'a whole file opens')
    if r.ok:
        f = r.value
        s.check(s.same(f.creator_version, version), 'creator version')
        s.check(s.same(s.timestamp(f.last_save), ts), 'save time')
        s.check(f.content.class_id in (b'FILL', b'ATTR'), 'the root is there')
        a = f.read_object(2)
        s.check(a[u'o'] is f.read_object(1), 'the objects are there')
        s.cover('opened')
        f.close()
