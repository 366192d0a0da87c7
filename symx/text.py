"""Codecs, hex and formatting over symbolic text."""
import codecs
import z3
from . import engine as E
from .values import (SymBytes, SymInt, SymZ, SymStr, SymBool, Ch, mkbytes, mkstr, mkbool, ch_eq, ch_e,
                     is_sym, byte_val, disj, conj, cps_of, items_of, SymReal, SymDouble)


def _table(codec):
    cps = [ord(bytes([i]).decode(codec)) for i in range(256)]
    if len(set(cps)) != 256:
        raise RuntimeError('codec %s is not bijective' % codec)
    if cps[:128] != list(range(128)):
        raise RuntimeError('codec %s does not extend ASCII' % codec)
    return cps


for _c in ('mac_roman', 'latin_1'):
    Ch.TABLES[_c] = _table(_c)
Ch.TABLES['hex'] = [ord(c) for c in '0123456789abcdef']
for _c, _t in Ch.TABLES.items():
    Ch.INV[_c] = {cp: i for i, cp in enumerate(_t)}

CANON = {}


def canon(name):
    if isinstance(name, SymStr):
        raise E.Unsupported('symbolic codec name')
    r = CANON.get(name)
    if r is None:
        n = codecs.lookup(name).name
        r = {'mac-roman': 'mac_roman', 'iso8859-1': 'latin_1', 'utf-8': 'utf-8', 'ascii': 'ascii',
             'utf-16-le': 'utf-16-le'}.get(n, n)
        CANON[name] = r
    return r


def decode(items, encoding, errors='strict'):
    c = canon(encoding)
    if c in Ch.TABLES:
        t = Ch.TABLES[c]
        return mkstr([t[x] if isinstance(x, int) else Ch(src=(c, x)) for x in items])
    if all(isinstance(x, int) for x in items):
        return bytes(items).decode(encoding, errors)
    if c == 'ascii':
        for i, x in enumerate(items):
            bad = x >= 128 if isinstance(x, int) else bool(mkbool(z3.UGE(x, 128)))
            if bad:
                raise UnicodeDecodeError('ascii', b'?' * len(items), i, i + 1, 'ordinal not in range(128)')
        return mkstr([x if isinstance(x, int) else Ch(src=('mac_roman', x)) for x in items])
    if c == 'utf-8':
        return decode_utf8(items, errors)
    raise E.Unsupported('decode ' + c)


def _bv(x):
    return z3.BitVecVal(x, 8) if isinstance(x, int) else x


def _t(cond):
    return bool(mkbool(cond))


def decode_utf8(items, errors):
    if errors != 'strict':
        raise E.Unsupported('utf-8 decode errors=' + errors)
    out, i, n = [], 0, len(items)

    def bad(i):
        raise UnicodeDecodeError('utf-8', b'?' * n, i, i + 1, 'invalid data')

    def cont(k):
        if k >= n:
            bad(i)
        b = _bv(items[k])
        if not _t((b & 0xC0) == 0x80):
            bad(k)
        return z3.Extract(5, 0, b)
    while i < n:
        b = _bv(items[i])
        if _t(z3.ULT(b, 0x80)):
            out.append(items[i] if isinstance(items[i], int) else Ch(z3.simplify(z3.ZeroExt(13, b))))
            i += 1
            continue
        if _t(z3.And(z3.UGE(b, 0xC2), z3.ULE(b, 0xDF))):
            k = 2
            e = z3.Concat(z3.Extract(4, 0, b), cont(i + 1))
        elif _t((b & 0xF0) == 0xE0):
            k = 3
            c1 = cont(i + 1)
            e = z3.Concat(z3.Extract(3, 0, b), c1, cont(i + 2))
            if not _t(z3.And(z3.UGE(e, 0x800), z3.Or(z3.ULT(e, 0xD800), z3.UGT(e, 0xDFFF)))):
                bad(i)
        elif _t(z3.And(z3.UGE(b, 0xF0), z3.ULE(b, 0xF4))):
            k = 4
            c1 = cont(i + 1)
            c2 = cont(i + 2)
            e = z3.Concat(z3.Extract(2, 0, b), c1, c2, cont(i + 3))
            if not _t(z3.And(z3.UGE(e, 0x10000), z3.ULE(e, 0x10FFFF))):
                bad(i)
        else:
            bad(i)
        e = z3.simplify(z3.ZeroExt(21 - e.size(), e) if e.size() < 21 else e)
        out.append(e.as_long() if z3.is_bv_value(e) else Ch(e))
        i += k
    return mkstr(out)


def _it(e):
    e = z3.simplify(e)
    return e.as_long() if z3.is_bv_value(e) else e


def hex_byte(n):
    n = z3.ZeroExt(4, n)
    return z3.If(z3.ULE(n, 9), n + 48, n + 87)


def encode(cps, encoding, errors='strict'):
    c = canon(encoding)
    if all(isinstance(x, int) for x in cps):
        return ''.join(map(chr, cps)).encode(encoding, errors)
    if errors != 'strict':
        raise E.Unsupported('encode errors=' + str(errors))
    out = []
    if c in Ch.TABLES or c == 'ascii':
        tn = c if c in Ch.TABLES else 'mac_roman'
        inv = Ch.INV[tn]
        for i, x in enumerate(cps):
            if isinstance(x, int):
                b = inv.get(x)
                if b is None or (c == 'ascii' and b > 127):
                    raise UnicodeEncodeError(encoding, '?' * len(cps), i, i + 1, 'character maps to <undefined>')
                out.append(b)
                continue
            if x.src and x.src[0] == tn:
                b = x.src[1]
            elif x.src and x.src[0] == 'hex':
                out.append(hex_byte(x.src[1]))
                continue
            else:
                e = x.e
                # membership fork, then inverse table
                hi = [(cp, k) for cp, k in inv.items() if k >= 128]
                ok = z3.Or(z3.ULT(e, 128), *[e == cp for cp, k in hi])
                if not _t(ok):
                    raise UnicodeEncodeError(encoding, '?' * len(cps), i, i + 1, 'character maps to <undefined>')
                b = z3.Extract(7, 0, e)
                for cp, k in hi:
                    b = z3.If(e == cp, z3.BitVecVal(k, 8), b)
            if c == 'ascii' and _t(z3.UGE(b, 128)):
                raise UnicodeEncodeError(encoding, '?' * len(cps), i, i + 1, 'ordinal not in range(128)')
            out.append(b)
        return mkbytes(out)
    if c == 'utf-8':
        for i, x in enumerate(cps):
            if isinstance(x, int):
                out.extend(chr(x).encode('utf-8'))
                continue
            if x.src and x.src[0] == 'hex':
                out.append(hex_byte(x.src[1]))
                continue
            e = x.e
            if _t(z3.ULT(e, 0x80)):
                out.append(_it(z3.Extract(7, 0, e)))
            elif _t(z3.ULT(e, 0x800)):
                out.append(_it(z3.Concat(z3.BitVecVal(6, 3), z3.Extract(10, 6, e))))
                out.append(_it(z3.Concat(z3.BitVecVal(2, 2), z3.Extract(5, 0, e))))
            elif _t(z3.ULT(e, 0x10000)):
                if _t(z3.And(z3.UGE(e, 0xD800), z3.ULE(e, 0xDFFF))):
                    raise UnicodeEncodeError('utf-8', '?' * len(cps), i, i + 1, 'surrogates not allowed')
                out.append(_it(z3.Concat(z3.BitVecVal(14, 4), z3.Extract(15, 12, e))))
                out.append(_it(z3.Concat(z3.BitVecVal(2, 2), z3.Extract(11, 6, e))))
                out.append(_it(z3.Concat(z3.BitVecVal(2, 2), z3.Extract(5, 0, e))))
            else:
                out.append(_it(z3.Concat(z3.BitVecVal(30, 5), z3.Extract(20, 18, e))))
                out.append(_it(z3.Concat(z3.BitVecVal(2, 2), z3.Extract(17, 12, e))))
                out.append(_it(z3.Concat(z3.BitVecVal(2, 2), z3.Extract(11, 6, e))))
                out.append(_it(z3.Concat(z3.BitVecVal(2, 2), z3.Extract(5, 0, e))))
        return mkbytes(out)
    raise E.Unsupported('encode ' + c)


def lower(c):
    if isinstance(c, int):
        s = chr(c).lower()
        return ord(s) if len(s) == 1 else c
    if c.src and c.src[0] == 'hex':
        return c
    # exact for ASCII; other letters only when the character is ASCII
    if not _t(z3.ULT(c.e, 128)):
        raise E.Unsupported('lower() of a non-ASCII symbolic character')
    return Ch(z3.simplify(z3.If(z3.And(z3.UGE(c.e, 65), z3.ULE(c.e, 90)), c.e + 32, c.e)))


def nibble_ch(bv4):
    bv4 = z3.simplify(bv4)
    if z3.is_bv_value(bv4):
        return Ch.TABLES['hex'][bv4.as_long()]
    return Ch(src=('hex', bv4))


def hexlify(items):
    out = []
    for x in items:
        x = _bv(x)
        out.append(nibble_ch(z3.Extract(7, 4, x)))
        out.append(nibble_ch(z3.Extract(3, 0, x)))
    return mkstr(out)


def hex_digit(c):
    """BV4 value of one hex digit; raises ValueError."""
    if isinstance(c, int):
        return z3.BitVecVal(int(chr(c), 16), 4)
    if c.src and c.src[0] == 'hex':
        return c.src[1]
    e = c.e
    dig = z3.And(z3.UGE(e, 48), z3.ULE(e, 57))
    lo = z3.And(z3.UGE(e, 97), z3.ULE(e, 102))
    up = z3.And(z3.UGE(e, 65), z3.ULE(e, 70))
    if not _t(z3.Or(dig, lo, up)):
        raise ValueError('invalid literal for int() with base 16')
    return z3.simplify(z3.Extract(3, 0, z3.If(dig, e - 48, z3.If(lo, e - 87, e - 55))))


def _isa(c, *ranges):
    """Is the character in one of the ranges of code points?  (forks)"""
    if isinstance(c, int):
        return any(lo <= c <= hi for lo, hi in ranges)
    if c.src and c.src[0] == 'hex':
        return False                # asked about characters other than digits only
    return _t(z3.Or(*[z3.And(z3.UGE(c.e, lo), z3.ULE(c.e, hi)) for lo, hi in ranges]))


def _bare(v, base):
    """What int() allows around and between digits: white space, a sign, a prefix, single underscores."""
    for c in v:
        if not isinstance(c, int) and not c.src and _t(z3.UGE(c.e, 128)):
            raise E.Unsupported('int() of a non-ASCII symbolic character')
    v, sign = list(v), 1
    while v and _isa(v[0], (9, 13), (28, 32)):
        v.pop(0)
    while v and _isa(v[-1], (9, 13), (28, 32)):
        v.pop()
    if v and _isa(v[0], (43, 43), (45, 45)):
        sign = -1 if _isa(v[0], (45, 45)) else 1
        v.pop(0)
    if base == 16 and len(v) > 1 and v[0] == 48 and _isa(v[1], (88, 88), (120, 120)):
        v = v[2:]
        if v and _isa(v[0], (95, 95)):
            v.pop(0)
    out, last = [], False
    for i, c in enumerate(v):
        if 0 < i < len(v) - 1 and not last and _isa(c, (95, 95)):
            last = True
            continue
        last = False
        out.append(c)
    return out, sign


def parse_int(s, base):
    v = s.v
    if base == 16:
        v, sign = _bare(v, 16)
        if not v:
            raise ValueError('invalid literal for int()')
        ds = [hex_digit(c) for c in v]
        e = ds[0] if len(ds) == 1 else z3.Concat(*ds)
        r = SymInt.from_bv(z3.simplify(e), False)
        return -r if sign < 0 else r
    if base == 10:
        r = 0
        v, sign = _bare(v, 10)
        if not v:
            raise ValueError('invalid literal for int() with base 10')
        for c in v:
            if isinstance(c, int):
                d = int(chr(c))
            else:
                if not _t(z3.And(z3.UGE(c.e, 48), z3.ULE(c.e, 57))):
                    raise ValueError('invalid literal for int() with base 10')
                d = SymInt.from_bv(z3.Extract(3, 0, c.e - 48), False)
            r = r * 10 + d
        return -r if sign < 0 else r
    raise E.Unsupported('int base %r' % base)


def fmt_value(conv, flags, width, v):
    """One %-style conversion of a symbolic value -> list of code points."""
    if isinstance(v, SymBool):
        v = v._i() if conv in 'dxX' else ('True' if v else 'False')
    if isinstance(v, SymZ):
        v = v.__index__()
    if isinstance(v, SymInt) and conv in ('x',):
        if not bool(v >= 0):
            raise E.Unsupported('hex of a negative')
        n = max(1, (v.hi.bit_length() + 3) // 4)
        e = z3.ZeroExt(4 * n + 4, v.at(4 * n + 1)) if False else z3.Extract(4 * n - 1, 0, z3.ZeroExt(4 * n, v.e))
        chars = [nibble_ch(z3.Extract(4 * (n - i) - 1, 4 * (n - i - 1), e)) for i in range(n)]
        zero = '0' in flags
        # drop leading zeros beyond the minimum width
        keep = max(1, width if zero else 1)
        while len(chars) > keep and bool(ch_eq(chars[0], 48)):
            chars.pop(0)
        if zero:
            chars = [48] * max(0, width - len(chars)) + chars
        else:
            chars = [32] * max(0, width - len(chars)) + chars
        return chars
    if isinstance(v, SymInt) and conv in 'diusr':
        chars = dec_text(v)
        pad = max(0, width - len(chars))
        if '-' in flags:
            return chars + [32] * pad
        if '0' in flags:
            k = 1 if chars and chars[0] == 45 else 0
            return chars[:k] + [48] * pad + chars[k:]
        return [32] * pad + chars
    if isinstance(v, SymStr) and conv in 'srd':
        return v.v
    if conv in 'sr':
        return [ord(c) for c in str(v)]
    return [ord(c) for c in '<sym>']


def dec_text(v):
    """Decimal digits of a symbolic integer (forks on sign and digit count)."""
    out = []
    if v.lo < 0 and bool(v < 0):
        out.append(45)
        v = -v
        if not isinstance(v, SymInt):
            return out + [ord(c) for c in str(v)]
    n = 1
    while 10 ** n <= v.hi and not bool(v < 10 ** n):
        n += 1
    for i in range(n - 1, -1, -1):
        d = (v // 10 ** i) % 10
        if isinstance(d, int):
            out.append(48 + d)
        else:
            e = z3.simplify(48 + z3.Extract(20, 0, z3.SignExt(21, d.e)))
            out.append(Ch(e))
    return out


def percent(fmt, args):
    """fmt % args with symbolic arguments."""
    import re
    tup = args if isinstance(args, tuple) else (args,)
    out, pos, k = [], 0, 0
    mapping = isinstance(args, dict)
    for m in re.finditer(r'%(\((\w+)\))?([-#0 +]*)(\d+)?(?:\.(\d+))?([a-zA-Z%])', fmt):
        out += [ord(c) for c in fmt[pos:m.start()]]
        pos = m.end()
        if m.group(6) == '%':
            out.append(37)
            continue
        if mapping and m.group(2):
            v = args[m.group(2)]
        else:
            if k >= len(tup):
                raise TypeError('not enough arguments for format string')
            v = tup[k]
            k += 1
        if is_sym(v):
            out += fmt_value(m.group(6), m.group(3), int(m.group(4) or 0), v)
        else:
            spec = '%' + m.group(3) + (m.group(4) or '') + ('.' + m.group(5) if m.group(5) else '') + m.group(6)
            out += [ord(c) for c in spec % (v,)]
    if not mapping and k < len(tup):
        raise TypeError('not all arguments converted during string formatting')
    out += [ord(c) for c in fmt[pos:]]
    return mkstr(out)


def fmt_spec(v, spec):
    """format(v, spec) for a symbolic value."""
    import re
    if isinstance(v, SymStr) and not spec:
        return v.v
    m = re.match(r'^(0?)(\d*)([xds]?)$', spec)
    if m:
        return fmt_value(m.group(3) or ('d' if isinstance(v, SymInt) else 's'), m.group(1), int(m.group(2) or 0), v)
    return [ord(c) for c in '<sym>']
