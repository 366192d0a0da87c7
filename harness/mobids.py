"""C05: MobID identity and its representations."""
from . import harness

K_URN = 'K05a'


def big_of(s, m):
    v = 0
    for i in range(32):
        v = v * 256 + m.bytes_le[i]
    return v


@harness('C05')
def urn_roundtrip(s, p):
    """every 256-bit MobID"""
    m = s.mobid('m')
    b = m.bytes_le
    urn = m.urn
    half = s.conj([b[11] == 0] + [b[24 + i] == x for i, x in enumerate((6, 0x0e, 0x2b, 0x34, 0x7f, 0x7f))])
    n = s.mod('mobid').MobID(urn)
    s.obs('urn', urn)
    # the URN of an unswapped id whose material number starts with the swap marker is ambiguous
    region = s.conj([s.neg(half), b[11] == 0, b[19] == 6, b[18] == 0x0e, b[17] == 0x2b, b[16] == 0x34,
                     b[21] == 0x7f, b[20] == 0x7f])
    s.check(s.same(n.bytes_le, b), 'parsing the URN of an id gives the id', known=[(K_URN, region)])
    s.check(len(urn) == 15 + 64 + 7, 'URN has 64 hexadecimal digits in eight groups')
    s.check(s.same(urn[:15], 'urn:smpte:umid:'), 'URN prefix')


@harness('C05')
def urn_spec(s, p):
    """every 256-bit MobID: URN text against its definition"""
    m = s.mobid('m')
    b = m.bytes_le
    mat = [b[16 + i] for i in (3, 2, 1, 0, 5, 4, 7, 6)]
    d4 = [b[i] for i in range(24, 32)]
    half = s.conj([b[11] == 0] + [b[24 + i] == x for i, x in enumerate((6, 0x0e, 0x2b, 0x34, 0x7f, 0x7f))])
    order = [b[i] for i in range(16)] + (d4 + mat if half else mat + d4)
    urn = s.ord_list(m.urn)
    exp = [ord(x) for x in 'urn:smpte:umid:']
    for i, x in enumerate(order):
        if i and i % 4 == 0:
            exp.append(ord('.'))
        for nib in (x >> 4, x & 15):
            exp.append(s.ite(nib < 10, nib + 48, nib + 87))
    s.check(len(urn) == len(exp), 'URN length')
    s.check(s.conj([s.same(x, y) for x, y in zip(urn, exp)]), 'URN spells the id in SMPTE order, half-swapped ids first')
    s.check(s.same(str(m.__repr__()), m.urn) if not s.symbolic else s.same(m.__repr__(), m.urn), 'repr is the URN')


@harness('C05')
def int_roundtrip(s, p):
    """every 256-bit MobID"""
    M = s.mod('mobid').MobID
    m = s.mobid('m')
    v = m.int
    s.check(s.same(v, big_of(s, m)), 'the integer form is the 256-bit big-endian value')
    s.check(s.same(M(int=v).bytes_le, m.bytes_le), 'id -> integer -> id')
    s.check(s.same(m.__int__(), v), 'int() gives the integer form')
    s.check(s.same(M(bytes_le=m.bytes_le).bytes_le, m.bytes_le), 'id -> bytes -> id')


@harness('C05')
def dict_roundtrip(s, p):
    """every 256-bit MobID"""
    m = s.mobid('m')
    d = m.to_dict()
    n = s.mod('mobid').MobID()
    n.from_dict(d)
    s.check(s.same(n.bytes_le, m.bytes_le), 'id -> dictionary -> id')
    b = m.bytes_le
    s.check(s.same(d['SMPTELabel'], [b[i] for i in range(12)]), 'label in dictionary')
    s.check(s.conj([s.same(d['length'], b[12]), s.same(d['instanceHigh'], b[13]), s.same(d['instanceMid'], b[14]),
                    s.same(d['instanceLow'], b[15])]), 'instance number in dictionary')
    s.check(s.same(d['material']['Data4'], [b[i] for i in range(24, 32)]), 'material in dictionary')
    s.check(s.same(d['material']['Data1'], b[16] + b[17] * 256 + b[18] * 65536 + b[19] * (1 << 24)), 'Data1')
    s.check(s.same(d['material']['Data2'], b[20] + b[21] * 256), 'Data2')
    s.check(s.same(d['material']['Data3'], b[22] + b[23] * 256), 'Data3')


@harness('C05')
def parts(s, p):
    """every value of each component, set on an arbitrary id"""
    m = s.mobid('m')
    b0 = [m.bytes_le[i] for i in range(32)]
    which = s.choice('which', ['length', 'instanceHigh', 'instanceMid', 'instanceLow', 'Data1', 'Data2', 'Data3',
                               'Data4', 'SMPTELabel', 'material'])
    lo, n = {'length': (12, 1), 'instanceHigh': (13, 1), 'instanceMid': (14, 1), 'instanceLow': (15, 1),
             'Data1': (16, 4), 'Data2': (20, 2), 'Data3': (22, 2), 'Data4': (24, 8), 'SMPTELabel': (0, 12),
             'material': (16, 16)}[which]
    if which == 'material':
        v = s.uuid('u')
        exp = v.bytes_le
    elif which in ('Data4', 'SMPTELabel'):
        exp = s.bytes('x', n)
        v = [exp[i] for i in range(n)]
    else:
        v = s.u('x', 8 * n)
        exp = s.pack(v, n, False)
    setattr(m, which, v)
    got = getattr(m, which)
    s.check(s.same(list(got), v) if n > 4 and which != 'material' else s.same(got, v), 'a component reads back as set')
    b1 = [m.bytes_le[i] for i in range(len(m.bytes_le))]
    s.check(len(b1) == 32, 'an id stays 32 bytes long')
    if len(b1) == 32:
        s.check(s.same(b1[:lo] + b1[lo + n:], b0[:lo] + b0[lo + n:]), 'setting one component leaves the others alone')
        s.check(s.same(b1[lo:lo + n], [exp[i] for i in range(n)]), 'component layout')


@harness('C05')
def ordering(s, p):
    """every pair of 256-bit MobIDs"""
    a, b = s.mobid('a'), s.mobid('b')
    x, y = big_of(s, a), big_of(s, b)
    s.check(s.same(a == b, x == y), 'equality is equality of all 32 bytes')
    s.check(s.same(a != b, x != y), 'inequality')
    s.check(s.same(a < b, x < y), '< is integer order')
    s.check(s.same(a <= b, x <= y), '<= is integer order')
    s.check(s.same(a > b, x > y), '> is integer order')
    s.check(s.same(a >= b, x >= y), '>= is integer order')


@harness('C05')
def hashing(s, p):
    """every MobID and an equal copy of it built from its URN-free byte form"""
    a = s.mobid('a')
    b = s.mod('mobid').MobID(bytes_le=a.bytes_le)
    s.check(a == b, 'copy equals original')
    s.check(s.same(s.hash_of(a), s.hash_of(b)), 'equal ids hash equally')
    s.check(s.neg(s.same(a, None)), 'an id is not None')
    s.check((a == 5) is False, 'an id never equals something else')
    b.length = b.length ^ 1
    s.check(s.neg(a == b), 'ids built from the same bytes are independent')


@harness('C05', params=[0, 1, 2])
def urn_forms(s, form):
    """every URN digit string, upper or lower case, with or without prefix and separators"""
    M = s.mod('mobid').MobID
    m = s.mobid('m')
    b = m.bytes_le
    hexs = m.urn[15:]
    if form == 0:
        n = M(hexs)
    elif form == 1:
        n = M(hexs.replace('.', ''))
    else:
        n = M('0x' + hexs.replace('.', '-'))
    ref = M(m.urn)
    s.check(s.same(n.bytes_le, ref.bytes_le), 'prefix and separators do not matter')


@harness('C05')
def urn_bad(s, p):
    """64 hexadecimal digits +- up to 2 characters; one character at any of 64 places replaced by any ASCII character, or by one of 8 others"""
    M = s.mod('mobid').MobID
    mode = s.choice('mode', ['len', 'chr', 'odd', 'two'])
    if mode == 'len':
        k = s.choice('k', [-2, -1, 1, 2])
        s.check(not s.attempt(M, 'urn:smpte:umid:' + '0' * (64 + k)).ok, 'wrong number of digits is rejected')
    elif mode == 'chr':
        k = s.choice('k', range(64))
        ch = s.text('c', 1, 'ascii')
        t = '1' * k + ch + '1' * (63 - k)
        r = s.attempt(M, t)
        o = s.ord_list(ch)[0]
        isx = s.disj([s.conj([o >= 48, o <= 57]), s.conj([o >= 65, o <= 70]), s.conj([o >= 97, o <= 102])])
        if r.ok:
            s.check(isx, 'a character that is not a hexadecimal digit is rejected')
        else:
            s.check(s.neg(isx), 'hexadecimal digits of either case are accepted')
    else:
        k = s.choice('k', range(64) if mode == 'odd' else range(63))
        ch = s.choice('c', [u'\uff11', u'\u0663', u'\u00e9', u'\u212a', u'\u00a0', u'\u00b2', u'\ud83d', u'\u0131']
                      if mode == 'odd' else [u'+1', u' 1', u'1 ', u'_1', u'0x', u'0o', u'\n1', u'g0'])
        r = s.attempt(M, u'1' * k + ch + u'1' * (64 - len(ch) - k))
        s.check(not r.ok, 'a character that is not a hexadecimal digit is rejected')


@harness('C05')
def unique(s, p):
    """newly generated ids carry the prescribed label"""
    m = s.mod('mobid').MobID.new()
    s.check(s.same([m.bytes_le[i] for i in range(16)],
                   [6, 0x0a, 0x2b, 0x34, 1, 1, 1, 5, 1, 1, 0x0f, 0x20, 0x13, 0, 0, 0]), 'label and instance of new ids')
    n = s.mod('mobid').MobID()
    s.check(s.same(n.bytes_le, b'\x00' * 32), 'an id built from nothing is zero')
