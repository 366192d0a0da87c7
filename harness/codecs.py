"""C01-C04: primitive value codecs of the I/O context."""
from . import harness

ORDERS = ['little', 'big']
INTS = {'u8': (1, False), 's8': (1, True), 'u16': (2, False), 's16': (2, True), 'u32': (4, False),
        's32': (4, True), 'u64': (8, False), 's64': (8, True)}


def io(s, order):
    return s.mod('ioctx').AVBIOContext(order)


def value_of(s, data, order, signed):
    """Reference decoding: positional value of the bytes, two's complement."""
    n = len(data)
    idx = range(n) if order == 'big' else range(n - 1, -1, -1)
    v = 0
    for i in idx:
        v = v * 256 + data[i]
    if signed:
        v = s.ite(v >= 1 << (8 * n - 1), v - (1 << (8 * n)), v)
    return v


@harness('C01', params=[[t, o] for t in INTS for o in ORDERS])
def int_read(s, p):
    """every byte string of 1/2/4/8 bytes, plus 2 bytes of following data; both orders, 8 integer types"""
    t, order = p
    n, signed = INTS[t]
    c = io(s, order)
    data = s.bytes('d', n)
    f = s.stream(s.join([data, b'\x5a\xa5']))
    v = getattr(c, 'read_' + t)(f)
    s.obs('v', v)
    s.check(s.same(v, value_of(s, data, order, signed)), 'decoded integer is the positional value of its bytes')
    s.check(f.tell() == n, 'exactly the encoded bytes are consumed')
    g = s.stream()
    getattr(c, 'write_' + t)(g, v)
    s.check(s.same(g.getvalue(), data), 'encoding a decoded integer gives the same bytes')


@harness('C01', params=[[t, o] for t in INTS for o in ORDERS])
def int_write(s, p):
    """every integer in -2**70..2**70: in range encodes and decodes to itself, out of range is rejected"""
    t, order = p
    n, signed = INTS[t]
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
    c = io(s, order)
    v = s.int('v', -(1 << 70), 1 << 70)
    g = s.stream()
    r = s.attempt(getattr(c, 'write_' + t), g, v)
    if r.ok:
        s.cover('encoded')
        s.check(s.conj([v >= lo, v <= hi]), 'an integer outside the field range is rejected')
        out = g.getvalue()
        s.obs('out', out)
        s.check(len(out) == n, 'field width')
        if len(out) == n:
            s.check(s.same(out, s.pack(v, n, order == 'big')), 'encoded integer has the declared byte order')
            f = s.stream(out)
            s.check(s.same(getattr(c, 'read_' + t)(f), v), 'decode(encode(v)) == v')
    else:
        s.cover('rejected')
        s.check(s.disj([v < lo, v > hi]), 'every integer in the field range is accepted')
        s.check(len(g.getvalue()) == 0, 'nothing is written for a rejected integer')


WIDTH = {'double': 8, 'bool': 1, 'fourcc': 4, 'rect': 10, 'rgb_color': 8, 'datetime': 4}


@harness('C01', params=[[t, o] for t in list(INTS) + sorted(WIDTH) for o in ORDERS])
def short_read(s, p):
    """every strict prefix of each fixed-size field is rejected"""
    t, order = p
    n = WIDTH.get(t) or INTS[t][0]
    k = s.choice('k', range(n))
    r = s.attempt(getattr(io(s, order), 'read_' + t), s.stream(s.bytes('d', k)))
    s.check(not r.ok, 'a field cut short by the end of the data is rejected')


@harness('C01', params=ORDERS)
def double_codec(s, order):
    """every finite 64-bit pattern, both byte orders"""
    c = io(s, order)
    x = s.double('x')
    bits = s.double_bits(x)
    g = s.stream()
    c.write_double(g, x)
    out = g.getvalue()
    s.check(s.same(out, s.pack(bits, 8, order == 'big')), 'a double is encoded in the declared byte order')
    y = c.read_double(s.stream(s.join([s.pack(bits, 8, order == 'big'), b'\x01'])))
    s.check(s.same(s.double_bits(y), bits), 'a double is decoded in the declared byte order')


@harness('C01', params=ORDERS)
def bool_codec(s, order):
    """every byte; both truth values"""
    c = io(s, order)
    d = s.bytes('d', 1)
    v = c.read_bool(s.stream(d))
    s.check(s.same(v, d[0] == 1), 'a flag byte is true exactly when it is 1')
    b = s.bool('b')
    g = s.stream()
    c.write_bool(g, b)
    s.check(s.same(g.getvalue(), s.pack(s.ite(b, 1, 0), 1, False)), 'a flag is written as 0 or 1')


@harness('C01', params=ORDERS)
def fourcc_codec(s, order):
    """every 4-byte code; lengths 0..6 for rejection"""
    c = io(s, order)
    n = s.choice('n', range(7))
    d = s.bytes('d', n)
    g = s.stream()
    r = s.attempt(c.write_fourcc, g, d)
    if n != 4:
        s.check(not r.ok, 'a code that is not four bytes is rejected')
        return
    s.check(r.ok, 'a four byte code is accepted')
    if r.ok:
        out = g.getvalue()
        exp = d if order == 'big' else d[::-1]
        s.check(s.same(out, exp), 'a code is byte-reversed in little-endian files only')
        s.check(s.same(c.read_fourcc(s.stream(s.join([out, b'zz']))), d), 'decode(encode(code)) == code')


@harness('C01', params=[[k, o] for k in ('rect', 'rgb_color') for o in ORDERS])
def quad_codec(s, p):
    """every rectangle of 16-bit signed coordinates / colour of 16-bit channels; every version word"""
    kind, order = p
    c = io(s, order)
    big = order == 'big'
    n = 4 if kind == 'rect' else 3
    vals = [s.i('v%d' % i, 16) if kind == 'rect' else s.u('v%d' % i, 16) for i in range(n)]
    g = s.stream()
    getattr(c, 'write_' + kind)(g, vals)
    exp = s.join([s.pack(1, 2, big)] + [s.pack(v, 2, big) for v in vals])
    s.check(s.same(g.getvalue(), exp), 'encoded as version 1 followed by its members')
    ver = s.bytes('ver', 2)
    body = s.join([ver] + [s.pack(v, 2, big) for v in vals])
    r = s.attempt(getattr(c, 'read_' + kind), s.stream(body))
    isone = s.same(ver, s.pack(1, 2, big))
    if r.ok:
        s.check(isone, 'an unknown version is rejected')
        s.check(s.same(list(r.value), vals), 'decode(encode(v)) == v')
    else:
        s.check(s.neg(isone), 'version 1 is accepted')


@harness('C01', params=[[k, o] for k in ('rect', 'rgb_color') for o in ORDERS])
def quad_range(s, p):
    """every member in -2**40..2**40, one at a time: out of range it is rejected"""
    kind, order = p
    n, lo, hi = (4, -(1 << 15), (1 << 15) - 1) if kind == 'rect' else (3, 0, (1 << 16) - 1)
    vals = [s.i('v%d' % i, 16) if kind == 'rect' else s.u('v%d' % i, 16) for i in range(n)]
    v = s.int('v', -(1 << 40), 1 << 40)
    vals[s.choice('i', range(n))] = v
    r = s.attempt(getattr(io(s, order), 'write_' + kind), s.stream(), vals)
    if r.ok:
        s.check(s.conj([v >= lo, v <= hi]), 'a member outside its field is rejected')
    else:
        s.check(s.disj([v < lo, v > hi]), 'members in range are accepted')


@harness('C01', params=ORDERS)
def datetime_codec(s, order):
    """every 32-bit timestamp (time zone five and a half hours ahead of UTC, with one summer time: a skipped hour and a repeated one)"""
    c = io(s, order)
    t = s.u('t', 32)
    data = s.pack(t, 4, order == 'big')
    d = c.read_datetime(s.stream(data))
    s.check(s.is_datetime(d), 'a timestamp is read as a datetime')
    s.check(s.same(s.timestamp(d), t), 'a timestamp is read as that many seconds since the epoch')
    g = s.stream()
    c.write_datetime(g, d)
    s.check(s.same(g.getvalue(), data), 'encode(decode(t)) == t')


@harness('C01')
def bad_order(s, p):
    """byte order names"""
    for name in ('middle', 'LITTLE', '', 'II'):
        s.check(not s.attempt(io, s, name).ok, 'an unknown byte order is rejected')


# ------------------------------------------------------------------ C02
def str_sizes(tier):
    n = range(0, 7) if tier == 'quick' else range(0, 13)
    return [[k, o] for k in n for o in ORDERS]


@harness('C02', params=str_sizes)
def str_roundtrip(s, p):
    """Mac Roman text of 0..6 (quick) / 0..12 (thorough) characters without NUL, both orders"""
    n, order = p
    c = io(s, order)
    t = s.text('t', n)
    g = s.stream()
    c.write_string(g, t)
    out = g.getvalue()
    raw = s.encode_text(t, 'mac_roman') if n else b''
    s.check(s.same(out, s.join([s.pack(n, 2, order == 'big'), raw])), 'text is a 16-bit length and its Mac Roman bytes')
    f = s.stream(s.join([out, b'\x41\x42']))
    back = c.read_string(f)
    s.check(s.same(back, t), 'decode(encode(text)) == text')
    s.check(f.tell() == len(out), 'exactly the encoded text is consumed')


@harness('C02', params=str_sizes)
def utf8_roundtrip(s, p):
    """Unicode text of 0..6 (quick) / 0..12 (thorough) code points: first, last and one middle one any
    non-NUL scalar value, the others ASCII; both orders"""
    n, order = p
    c = io(s, order)
    free = {0, n - 1, n // 2} if n <= 4 else {0, n - 1}
    t = None
    for i in range(n):
        ch = s.text('t%d' % i, 1, 'utf-8') if i in free else s.text('a%d' % i, 1, 'ascii')
        t = ch if t is None else t + ch
    t = '' if t is None else t
    g = s.stream()
    c.write_string(g, t, 'utf-8')
    out = g.getvalue()
    if n == 0:
        s.check(s.same(out, b'\x00\x00'), 'empty text is a zero length')
    else:
        raw = s.encode_text(t, 'utf-8')
        s.check(s.same(out, s.join([s.pack(len(raw) + 2, 2, order == 'big'), b'\x00\x00', raw])),
                'UTF-8 text is a 16-bit length, two zero bytes and its UTF-8 bytes')
    f = s.stream(s.join([out, b'\x41']))
    s.check(s.same(c.read_string(f, 'utf-8'), t), 'decode(encode(text)) == text')
    s.check(f.tell() == len(out), 'exactly the encoded text is consumed')


@harness('C02', params=str_sizes)
def str_read(s, p):
    """any 16-bit length word followed by n arbitrary bytes, n = 0..6 (quick) / 0..12 (thorough)"""
    n, order = p
    c = io(s, order)
    big = order == 'big'
    size = s.u('size', 16)
    data = s.bytes('d', n)
    f = s.stream(s.join([s.pack(size, 2, big), data]))
    r = s.attempt(c.read_string, f)
    if not r.ok:
        s.check(s.conj([size > n, size < 65535]), 'a string whose data is there is read')
        return
    v = r.value
    s.check(s.disj([size <= n, size == 65535]), 'a string whose data ends early is rejected')
    if size == 65535:
        s.check(s.same(v, ''), 'the null marker reads as empty text')
        s.check(f.tell() == 2, 'the null marker has no body')
    else:
        k = f.tell() - 2
        s.check(s.same(k, size), 'exactly the declared number of bytes is consumed')
        body = data[:k]
        lo, hi = 0, len(body)
        while lo < hi and body[lo] == 0:
            lo += 1
        while hi > lo and body[hi - 1] == 0:
            hi -= 1
        g = s.stream()
        c.write_string(g, v)
        exp = s.join([s.pack(hi - lo, 2, big), body[lo:hi]])
        s.check(s.same(g.getvalue(), exp), 're-encoding decoded text gives its bytes without NUL padding')


def utf8_valid(s, b):
    """Condition: the bytes b are well-formed UTF-8 (Unicode 15, table 3-7), written out by position."""
    n = len(b)
    ok = [False] * n + [True]

    def within(x, lo, hi):
        return s.conj([x >= lo, x <= hi])
    for i in range(n - 1, -1, -1):
        alts = [s.conj([b[i] <= 0x7f, ok[i + 1]])]
        if i + 2 <= n:
            alts.append(s.conj([within(b[i], 0xc2, 0xdf), within(b[i + 1], 0x80, 0xbf), ok[i + 2]]))
        for lead, lo, hi in (((0xe0, 0xe0), 0xa0, 0xbf), ((0xe1, 0xec), 0x80, 0xbf), ((0xed, 0xed), 0x80, 0x9f),
                             ((0xee, 0xef), 0x80, 0xbf)):
            if i + 3 <= n:
                alts.append(s.conj([within(b[i], *lead), within(b[i + 1], lo, hi), within(b[i + 2], 0x80, 0xbf),
                                    ok[i + 3]]))
        for lead, lo, hi in (((0xf0, 0xf0), 0x90, 0xbf), ((0xf1, 0xf3), 0x80, 0xbf), ((0xf4, 0xf4), 0x80, 0x8f)):
            if i + 4 <= n:
                alts.append(s.conj([within(b[i], *lead), within(b[i + 1], lo, hi), within(b[i + 2], 0x80, 0xbf),
                                    within(b[i + 3], 0x80, 0xbf), ok[i + 4]]))
        ok[i] = s.disj(alts)
    return ok[0]


@harness('C02', params=lambda tier: [[n, o] for n in range(0, 5 if tier == 'quick' else 6) for o in ORDERS])
def utf8_read(s, p):
    """any length word followed by n arbitrary bytes read as UTF-8, n = 0..4 (quick) / 0..5 (thorough)"""
    n, order = p
    c = io(s, order)
    big = order == 'big'
    size = s.u('size', 16)
    data = s.bytes('d', n)
    f = s.stream(s.join([s.pack(size, 2, big), data]))
    s.assume(s.disj([size <= n, size == n + 1, size == 65535]))
    r = s.attempt(c.read_string, f, 'utf-8')
    if size == 65535:
        s.check(r.ok and s.same(r.value, ''), 'the null marker reads as empty text')
        return
    if size > n:
        s.check(not r.ok, 'a string whose data ends early is rejected')
        return
    k = int(size)
    body = data[:k]
    valid = utf8_valid(s, [body[i] for i in range(k)])
    s.check(valid if r.ok else s.neg(valid), 'text is read exactly when its bytes are valid UTF-8')
    if not r.ok:
        return
    s.check(s.same(f.tell(), 2 + k), 'exactly the declared number of bytes is consumed')
    lo, hi = 0, k
    while lo < hi and body[lo] == 0:
        lo += 1
    while hi > lo and body[hi - 1] == 0:
        hi -= 1
    raw = s.encode_text(r.value, 'utf-8') if hi > lo else b''
    s.check(s.same(raw, body[lo:hi]), 'the text is that of its bytes without NUL padding')


@harness('C02', params=ORDERS)
def str_none(s, order):
    """None, empty text and empty bytes"""
    c = io(s, order)
    for v in (None, '', b''):
        for enc in ('macroman', 'utf-8'):
            g = s.stream()
            c.write_string(g, v, enc)
            s.check(s.same(g.getvalue(), b'\x00\x00'), 'absent text is a zero length')


@harness('C02', params=ORDERS)
def str_unencodable(s, order):
    """one arbitrary Unicode scalar value next to one Mac Roman character"""
    c = io(s, order)
    a, u = s.text('a', 1), s.text('u', 1, 'utf-8')
    g = s.stream()
    r = s.attempt(c.write_string, g, a + u)
    if r.ok:
        s.check(s.same(c.read_string(s.stream(g.getvalue())), a + u), 'text that is accepted reads back unchanged')
    else:
        s.check(len(g.getvalue()) == 0, 'nothing is written for rejected text')
        s.check(u > '\x7f', 'plain text is accepted')


@harness('C02', params=[[n, o, e] for n in (255, 256, 257, 1024, 4096, 32767, 32768, 65530, 65532, 65533, 65534, 65535, 65536) for o in ORDERS
                        for e in ('macroman', 'utf-8')])
def str_long(s, p):
    """text of 255..65536 characters, first and last any printable ASCII character"""
    n, order, enc = p
    c = io(s, order)
    a, b = s.text('a', 1, 'ascii'), s.text('b', 1, 'ascii')
    t = a + 'x' * (n - 2) + b
    g = s.stream()
    r = s.attempt(c.write_string, g, t, enc)
    size = n + (2 if enc == 'utf-8' else 0)
    if size < 65535:
        s.check(r.ok, 'text shorter than 65535 bytes is accepted')
    if r.ok:
        s.check(s.same(c.read_string(s.stream(g.getvalue()), enc), t), 'text that is accepted reads back unchanged')
    else:
        s.check(len(g.getvalue()) == 0, 'nothing is written for rejected text')


# ------------------------------------------------------------------ C03
def uuid_le(b):
    return [b[3], b[2], b[1], b[0], b[5], b[4], b[7], b[6]] + [b[i] for i in range(8, 16)]


def blist(s, items):
    return s.join([s.pack(x, 1, False) for x in items])


def enc_uuid(s, b, order):
    """Tagged UUID: b are the 16 big-endian (RFC 4122) bytes."""
    m = uuid_le(b) if order == 'little' else [b[i] for i in range(16)]
    return s.join([b'\x48', blist(s, m[0:4]), b'\x46', blist(s, m[4:6]), b'\x46', blist(s, m[6:8]), b'\x41',
                   s.pack(8, 4, order == 'big'), blist(s, m[8:])])


@harness('C03', params=ORDERS)
def uuid_codec(s, order):
    """every 128-bit UUID, both orders; tagged and raw forms"""
    c = io(s, order)
    u = s.uuid('u')
    b = u.bytes
    g = s.stream()
    c.write_uuid(g, u)
    exp = enc_uuid(s, b, order)
    s.check(s.same(g.getvalue(), exp), 'a UUID is written as its four tagged parts in the file byte order')
    f = s.stream(s.join([exp, b'\x09']))
    s.check(s.same(c.read_uuid(f), u), 'decode(encode(uuid)) == uuid')
    s.check(f.tell() == len(exp), 'exactly the UUID is consumed')
    g = s.stream()
    c.write_raw_uuid(g, u)
    raw = blist(s, uuid_le(b)) if order == 'little' else b
    s.check(s.same(g.getvalue(), raw), 'a raw UUID is 16 bytes in the file byte order')
    f = s.stream(s.join([raw, b'\x09']))
    s.check(s.same(c.read_raw_uuid(f), u), 'decode(encode(raw uuid)) == uuid')
    s.check(f.tell() == 16, 'exactly 16 bytes are consumed')


@harness('C03', params=ORDERS)
def mobid_codec(s, order):
    """every 256-bit MobID, both orders"""
    c = io(s, order)
    m = s.mobid('m')
    raw = [m.bytes_le[i] for i in range(32)]
    b = [raw[16 + i] for i in (3, 2, 1, 0, 5, 4, 7, 6)] + raw[24:]
    g = s.stream()
    c.write_mob_id(g, m)
    parts = [b'\x41', s.pack(12, 4, order == 'big'), blist(s, raw[:12])]
    for x in raw[12:16]:
        parts += [b'\x44', s.pack(x, 1, False)]
    exp = s.join(parts + [enc_uuid(s, b, order)])
    s.check(s.same(g.getvalue(), exp), 'a MobID is written as its tagged parts in the file byte order')
    f = s.stream(s.join([exp, b'\x09']))
    n = c.read_mob_id(f)
    s.check(s.same(n.bytes_le, m.bytes_le), 'decode(encode(mob id)) == mob id')
    s.check(n == m, 'a decoded MobID equals the original')
    s.check(f.tell() == len(exp), 'exactly the MobID is consumed')


@harness('C03', params=[[k, o] for k in ('uuid', 'mob_id', 'raw_uuid') for o in ORDERS])
def id_reject(s, p):
    """arbitrary bytes of the exact encoded size (24, 49 or 16), every shorter prefix of a valid encoding"""
    kind, order = p
    c = io(s, order)
    n = {'uuid': 24, 'mob_id': 49, 'raw_uuid': 16}[kind]
    mode = s.choice('mode', ['any', 'short'])
    rd = getattr(c, 'read_' + kind)
    if mode == 'any':
        d = s.bytes('d', n)
        r = s.attempt(rd, s.stream(d))
        if r.ok:
            g = s.stream()
            getattr(c, 'write_' + kind)(g, r.value)
            s.check(s.same(g.getvalue(), d), 'bytes that decode to an identifier are its encoding')
    else:
        g = s.stream()
        getattr(c, 'write_' + kind)(g, s.mobid('m') if kind == 'mob_id' else s.uuid('u'))
        d = g.getvalue()
        s.check(len(d) == n, 'encoded size')
        k = s.choice('k', range(n))
        s.check(not s.attempt(rd, s.stream(d[:k])).ok, 'a truncated identifier is rejected')


# ------------------------------------------------------------------ C04
@harness('C04', params=[[lo, hi, o] for lo, hi in ((0.0, 200000.0), (-200000.0, 0.0), (2.0e5, 2147483647.0),
                                                   (-2147483648.0, -2.0e5)) for o in ORDERS])
def rate_accuracy(s, p):
    """every float rate in -2**31..2**31-1, as a real number; IEEE rounding of each multiplication bounded by
    2**-53 relative error"""
    lo, hi, order = p
    c = io(s, order)
    v = s.real('v', lo, hi)
    s.rounding()
    g = s.stream()
    r = s.attempt(c.write_exp10_encoded_float, g, v)
    s.check(r.ok, 'a rate that fits 32 bits is accepted')
    if not r.ok:
        return
    out = g.getvalue()
    s.check(len(out) == 6, 'a rate takes six bytes')
    w = c.read_exp10_encoded_float(s.stream(out))
    s.rounding(False)
    err = s.ite(w >= v, w - v, v - w)
    mag = s.ite(v >= 0, v, -v)
    s.check(s.disj([err <= 1.0001e-6, err <= mag * 5e-9]), 'a rate reads back within 1e-6 or 5 parts in 10**9')


@harness('C04', params=ORDERS)
def rate_whole(s, order):
    """every whole rate in -2**40..2**40"""
    c = io(s, order)
    n = s.int('n', -(1 << 40), 1 << 40)
    g = s.stream()
    r = s.attempt(c.write_exp10_encoded_float, g, n * 1.0)
    if r.ok:
        w = c.read_exp10_encoded_float(s.stream(g.getvalue()))
        s.check(s.same(w, n), 'a whole rate reads back exactly')
    else:
        s.check(s.disj([n > 0x7fffffff, n < -0x80000000]), 'a whole rate that fits 32 bits is accepted')


@harness('C04', params=[[e, o] for e in range(-10, 7) for o in ORDERS])
def rate_read(s, p):
    """every 32-bit mantissa with exponents -10..6"""
    e, order = p
    c = io(s, order)
    m = s.i('m', 32)
    big = order == 'big'
    w = c.read_exp10_encoded_float(s.stream(s.join([s.pack(m, 4, big), s.pack(e, 2, big)])))
    x = m * (10 ** e) if e >= 0 else m
    y = w if e >= 0 else w * (10 ** -e)
    err = s.ite(y >= x, y - x, x - y)
    s.check(s.disj([err <= 1e-9, err <= s.ite(x >= 0, x, -x) * 1e-12]), 'a rate is mantissa * 10**exponent')
