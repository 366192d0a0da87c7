"""Environment model: the builtins and standard-library modules seen by the
loaded code.  Each accepts concrete values (delegating to the real thing) and
symbolic ones."""
import builtins as _b
import collections as _collections
import struct as _struct
import io as _io
import uuid as _uuid
import datetime as _datetime
import time as _time
import math as _math
import binascii as _binascii
import calendar as _calendar
import codecs as _codecs
import operator as _operator
import types
import re as _re
import z3
from . import engine as E
from . import text
from .values import (SymBool, SymInt, SymZ, SymReal, SymDouble, SymBytes, SymByteArray, SymStr, Ch,
                     mkbytes, mkstr, mkbool, items_of, items_eq, byte_item, byte_val, seq_int, cat,
                     int_to_items, int_to_bytes, conj, disj, neg, is_sym, toreal, cps_of, zb, is_num)

RB = types.SimpleNamespace(**{k: getattr(_b, k) for k in (
    'int', 'float', 'str', 'bytes', 'bytearray', 'bool', 'dict', 'set', 'range', 'print', 'isinstance',
    'len', 'hash', 'ord', 'chr', 'repr', 'min', 'max', 'round', 'hex', 'memoryview', 'format', 'list',
    'frozenset', 'abs', 'sum', 'pow', 'type')})


# ------------------------------------------------------------ type shims
class _TypeMeta(type):
    def __new__(mcs, name, bases, ns, **kw):
        if any(type(b) is _TypeMeta for b in bases):
            # a class of the code under test that derives from a builtin type
            bases = tuple((SymDict if b._real is dict else b._real) if type(b) is _TypeMeta else b for b in bases)
            import types
            return types.new_class(name, bases, kw, lambda d: d.update(ns))
        return type.__new__(mcs, name, bases, ns, **kw)

    def __instancecheck__(cls, o):
        return RB.isinstance(o, cls._real) or RB.isinstance(o, cls._sym)

    def __subclasscheck__(cls, sub):
        return sub is cls or issubclass(sub, cls._real) or issubclass(sub, cls._sym)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, name):
        return getattr(cls._real, name)


class int_(metaclass=_TypeMeta):
    _real = int
    _sym = (SymInt, SymZ, SymBool)
    __name__ = 'int'

    def __new__(cls, x=0, base=None):
        if base is not None:
            if RB.isinstance(x, SymStr):
                return text.parse_int(x, base)
            if RB.isinstance(x, SymBytes):
                return text.parse_int(x.decode('ascii'), base)
            return int(x, base)
        if RB.isinstance(x, (SymInt, SymZ)):
            return x
        if RB.isinstance(x, SymBool):
            return x._i()
        if RB.isinstance(x, SymReal):
            return x.trunc()
        if RB.isinstance(x, SymStr):
            return text.parse_int(x, 10)
        if RB.isinstance(x, SymDouble):
            raise E.Unsupported('int(opaque double)')
        f = getattr(type(x), '__int__', None)
        if f is not None and type(x).__module__.startswith('avb'):
            return f(x)
        return int(x)

    @staticmethod
    def from_bytes(data, byteorder='big', signed=False):
        it = items_of(data)
        if it is None:
            it = [byte_item(v) for v in data]
        return seq_int(it if byteorder == 'big' else it[::-1], signed)

    @staticmethod
    def to_bytes(v, *a, **k):
        return v.to_bytes(*a, **k)


class float_(metaclass=_TypeMeta):
    _real = float
    _sym = (SymReal, SymDouble)
    __name__ = 'float'

    def __new__(cls, x=0.0):
        if RB.isinstance(x, (SymReal, SymDouble)):
            return x
        if RB.isinstance(x, (SymInt, SymZ, SymBool)):
            return toreal(x)
        if RB.isinstance(x, SymStr):
            raise E.Unsupported('float(text)')
        return float(x)


class str_(metaclass=_TypeMeta):
    _real = str
    _sym = SymStr
    __name__ = 'str'

    def __new__(cls, x='', *a, **k):
        if RB.isinstance(x, SymStr):
            return x
        if RB.isinstance(x, (SymBytes, SymByteArray)):
            if a or k:
                return x.decode(*a, **k)
            return str(x)
        if RB.isinstance(x, SymUUID):
            return x._text()
        if RB.isinstance(x, (SymInt,)):
            return mkstr(text.dec_text(x))
        f = getattr(type(x), '__str__', None)
        if type(x).__module__.startswith('avb') and not a:
            if f is object.__str__:
                f = type(x).__repr__
            return f(x)
        return str(x, *a, **k) if (a or k) else str(x)


class bytes_(metaclass=_TypeMeta):
    _real = bytes
    _sym = SymBytes
    __name__ = 'bytes'

    def __new__(cls, x=b'', *a):
        if RB.isinstance(x, (SymBytes, SymByteArray)):
            return mkbytes(list(x.v))
        if RB.isinstance(x, (SymStr, str)):
            return x.encode(*a)
        if RB.isinstance(x, (SymInt, SymZ)):
            x = x.__index__()
        if RB.isinstance(x, (int, bytes, bytearray, memoryview)) and not a:
            return bytes(x)
        if hasattr(type(x), '__bytes__'):
            return type(x).__bytes__(x)
        return mkbytes([byte_item(v) for v in x])

    @staticmethod
    def fromhex(s):
        return unhexlify(s) if is_sym(s) else bytes.fromhex(s)

    @staticmethod
    def join(sep, parts):
        return bjoin(sep, parts)


class bytearray_(metaclass=_TypeMeta):
    _real = bytearray
    _sym = SymByteArray
    __name__ = 'bytearray'

    def __new__(cls, x=b'', *a):
        if RB.isinstance(x, SymByteArray):
            return SymByteArray(x.v)
        if RB.isinstance(x, (SymStr, str)):
            return SymByteArray(items_of(x.encode(*a)))
        if RB.isinstance(x, (SymInt, SymZ)):
            x = x.__index__()
        if RB.isinstance(x, int):
            return SymByteArray([0] * x) if x >= 0 else bytearray(x)
        it = items_of(x)
        return SymByteArray(it if it is not None else [byte_item(v) for v in x])

    @staticmethod
    def fromhex(s):
        return SymByteArray(items_of(unhexlify(s) if is_sym(s) else bytes.fromhex(s)))


class bool_(metaclass=_TypeMeta):
    _real = bool
    _sym = SymBool
    __name__ = 'bool'

    def __new__(cls, x=False):
        if RB.isinstance(x, SymBool):
            return x
        if RB.isinstance(x, (SymInt, SymZ, SymReal)):
            return x != 0
        return bool(x)


class memoryview_(object):
    def __new__(cls, x):
        if RB.isinstance(x, (SymBytes, SymByteArray)):
            return x
        return memoryview(x)


# ------------------------------------------------------------ dict / set
def key_sym(k):
    """Does hashing k natively miss symbolic equality?"""
    if RB.isinstance(k, (SymStr, SymInt, SymZ, SymReal, SymDouble, SymBytes, SymUUID, SymBool)):
        return True
    if RB.isinstance(k, tuple):
        return any(key_sym(x) for x in k)
    t = type(k)
    if t.__module__.startswith('avb') and t.__eq__ is not object.__eq__ and not RB.isinstance(k, (list, dict)):
        return True
    return False


class SymKey(object):
    """Wrapper stored in the native dict for a symbolic key (identity hash)."""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return 'SymKey'


def _unw(k):
    return k.k if type(k) is SymKey else k


def make_dict_type(base):
    _get, _set, _del, _con = base.__getitem__, base.__setitem__, base.__delitem__, base.__contains__
    _iter = base.__iter__

    class SymAware(base):
        _symx_dict = True
        _nsym = 0          # >0: some key is symbolic

        def _find(self, key):
            """Stored key equal to `key` (forking on symbolic equality), or None."""
            if type(key) is str or not key_sym(key):
                if _con(self, key):
                    # an earlier symbolic key may be equal too, but then it
                    # would have been unified at insertion
                    return key
                if not self._nsym:
                    return None
                for k in list(_iter(self)):
                    if type(k) is SymKey and bool(k.k == key):
                        return k
                return None
            for k in list(_iter(self)):
                ku = _unw(k)
                if ku is key or bool(ku == key):
                    return k
            return None

        def __init__(self, *a, **k):
            base.__init__(self)
            if len(a) > 1:
                raise TypeError('expected at most 1 argument')
            self.update(*a, **k)

        def __getitem__(self, key):
            k = SymAware._find(self, key)
            if k is None:
                raise KeyError(key)
            return _get(self, k)

        def __setitem__(self, key, val):
            k = SymAware._find(self, key)
            if k is None:
                if key_sym(key):
                    k = SymKey(key)
                    self._nsym = 1
                else:
                    k = key
            _set(self, k, val)

        def __delitem__(self, key):
            k = SymAware._find(self, key)
            if k is None:
                raise KeyError(key)
            _del(self, k)

        def __contains__(self, key):
            return SymAware._find(self, key) is not None

        def __iter__(self):
            for k in _iter(self):
                yield _unw(k)

        def keys(self):
            return [_unw(k) for k in _iter(self)]

        def values(self):
            return [_get(self, k) for k in list(_iter(self))]

        def items(self):
            return [(_unw(k), _get(self, k)) for k in list(_iter(self))]

        def get(self, key, default=None):
            k = SymAware._find(self, key)
            return default if k is None else _get(self, k)

        def setdefault(self, key, default=None):
            k = SymAware._find(self, key)
            if k is None:
                self[key] = default
                return default
            return self[key]

        def pop(self, key, *default):
            k = SymAware._find(self, key)
            if k is None:
                if default:
                    return default[0]
                raise KeyError(key)
            v = _get(self, k)
            _del(self, k)
            return v

        def popitem(self, last=True):
            ks = list(_iter(self))
            if not ks:
                raise KeyError('dictionary is empty')
            k = ks[-1 if last else 0]
            v = _get(self, k)
            _del(self, k)
            return _unw(k), v

        def update(self, *a, **kw):
            if a:
                o = a[0]
                if hasattr(o, 'keys'):
                    for k in o.keys():
                        self[k] = o[k]
                else:
                    for k, v in o:
                        self[k] = v
            for k, v in kw.items():
                self[k] = v

        def copy(self):
            return type(self)(self)
        __copy__ = copy

        def __or__(self, o):
            r = SymAware.copy(self)
            r.update(o)
            return r

        def __eq__(self, o):
            if not RB.isinstance(o, dict):
                return False
            if len(self) != len(o):
                return False
            for k, v in SymAware.items(self):
                k2 = None
                for x in o.keys():
                    if bool(x == k):
                        k2 = x
                        break
                else:
                    return False
                if not bool(v == o[k2]):
                    return False
            return True

        def __ne__(self, o):
            return not self == o

        __hash__ = None

        def move_to_end(self, key, last=True):
            k = SymAware._find(self, key)
            if k is None:
                raise KeyError(key)
            v = _get(self, k)
            if last:
                _del(self, k)
                _set(self, k, v)
            else:
                rest = [(x, _get(self, x)) for x in list(_iter(self)) if x is not k]
                base.clear(self)
                _set(self, k, v)
                for x, y in rest:
                    _set(self, x, y)

        @classmethod
        def fromkeys(cls, ks, v=None):
            r = cls()
            for k in ks:
                r[k] = v
            return r
    SymAware.__name__ = base.__name__
    SymAware.__qualname__ = base.__name__
    return SymAware


SymDict = make_dict_type(dict)
SymOrderedDict = make_dict_type(_collections.OrderedDict)


class _DictMeta(_TypeMeta):
    pass


class SymSet(set):
    """Set flavour with symbolic-aware membership."""

    def __init__(self, xs=()):
        set.__init__(self)
        self._l = []
        for x in xs:
            self.add(x)

    def _idx(self, x):
        for i, y in enumerate(self._l):
            if y is x or bool(y == x):
                return i
        return -1

    def add(self, x):
        if self._idx(x) < 0:
            self._l.append(x)

    def __contains__(self, x): return self._idx(x) >= 0

    def discard(self, x):
        i = self._idx(x)
        if i >= 0:
            del self._l[i]

    def remove(self, x):
        i = self._idx(x)
        if i < 0:
            raise KeyError(x)
        del self._l[i]

    def __iter__(self): return iter(list(self._l))
    def __len__(self): return len(self._l)
    def __bool__(self): return bool(self._l)

    def update(self, *xs):
        for x in xs:
            for y in x:
                self.add(y)

    def pop(self): return self._l.pop()
    def clear(self): self._l[:] = []
    def copy(self): return SymSet(self._l)
    def union(self, *o):
        r = SymSet(self._l)
        r.update(*o)
        return r
    __or__ = union

    def __sub__(self, o): return SymSet([x for x in self._l if x not in o])
    def __and__(self, o): return SymSet([x for x in self._l if x in o])
    difference, intersection = __sub__, __and__

    def __eq__(self, o): return len(self) == len(o) and all(x in o for x in self._l)
    __hash__ = None


class dict_(metaclass=_TypeMeta):
    _real = dict
    _sym = ()

    def __new__(cls, *a, **k):
        return SymDict(*a, **k)

    @staticmethod
    def fromkeys(ks, v=None):
        return SymDict.fromkeys(ks, v)


class frozenset_(metaclass=_TypeMeta):
    _real = frozenset
    _sym = (SymSet,)
    __name__ = 'frozenset'

    def __new__(cls, xs=()):
        return SymSet(xs)


class set_(metaclass=_TypeMeta):
    _real = set
    _sym = ()

    def __new__(cls, xs=()):
        return SymSet(xs)


# ------------------------------------------------------------ functions
def range_(*a):
    if not any(is_sym(x) for x in a):
        return range(*a)
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    return SymRange(start, stop, step)


class SymRange(object):
    def __init__(self, start, stop, step):
        self.a = (start, stop, step)

    def __iter__(self):
        i, stop, step = self.a
        if is_sym(step):
            step = step.__index__()
        while bool(i < stop) if step > 0 else bool(i > stop):
            yield i
            i = i + step

    def __len__(self):
        return len(list(iter(self)))

    def __reversed__(self):
        return reversed(list(iter(self)))

    def __contains__(self, x):
        return bool(in_range(x, *self.a))

    def __bool__(self):
        start, stop, step = self.a
        return bool(start < stop if step > 0 else start > stop)


def in_range(x, start, stop, step):
    if is_sym(step):
        step = step.__index__()
    if step > 0:
        return conj([x >= start, x < stop, step == 1 or (x - start) % step == 0])
    return conj([x <= start, x > stop, step == -1 or (start - x) % -step == 0])


def in_op(x, c):
    """x in c"""
    t = type(c)
    if t is range and RB.isinstance(x, (SymInt, SymZ)):
        return bool(in_range(x, c.start, c.stop, c.step))
    if (t is bytes or t is bytearray) and is_sym(x):
        return x in SymBytes(list(c))
    if t is str and RB.isinstance(x, SymStr):
        return x in SymStr([ord(k) for k in c])
    return x in c


def type_of(x):
    t = type(x)
    if is_sym(x):
        for k in (bool_, int_, float_, str_, bytes_, bytearray_):
            if RB.isinstance(x, k._sym):
                return k
    return {int: int_, float: float_, str: str_, bytes: bytes_, bytearray: bytearray_, bool: bool_, set: set_}.get(t, t)


def dict_parts(parts):
    """{**a, k: v}"""
    d = SymDict()
    for p in parts:
        if len(p) == 1:
            d.update(p[0])
        else:
            d[p[0]] = p[1]
    return d


def hash_(x):
    if RB.isinstance(x, (SymBytes,)):
        f = z3.Function('hash_bytes_%d' % len(x.v), z3.BitVecSort(8 * max(1, len(x.v))), z3.BitVecSort(62))
        return SymInt.from_bv(f(cat(x.v)), True)
    if RB.isinstance(x, bytes) and len(x):
        f = z3.Function('hash_bytes_%d' % len(x), z3.BitVecSort(8 * len(x)), z3.BitVecSort(62))
        return SymInt.from_bv(f(cat(list(x))), True)
    if RB.isinstance(x, SymInt):
        f = z3.Function('hash_int', z3.BitVecSort(512), z3.BitVecSort(62))
        return SymInt.from_bv(f(x.at(512)), True)
    if RB.isinstance(x, tuple) and any(is_sym(y) for y in x):
        raise E.Unsupported('hash of a symbolic tuple')
    f = type(x).__dict__.get('__hash__')
    if f is not None and type(x).__module__.startswith('avb'):
        return f(x)
    return hash(x)


def ord_(c):
    if RB.isinstance(c, SymStr):
        (x,) = c.v
        return x if RB.isinstance(x, int) else SymInt.from_bv(x.e, False)
    if RB.isinstance(c, (SymBytes, SymByteArray)):
        (x,) = c.v
        return byte_val(x)
    return ord(c)


def chr_(n):
    if RB.isinstance(n, SymInt):
        if not bool(conj([n >= 0, n <= 0x10ffff])):
            raise ValueError('chr() arg not in range(0x110000)')
        return mkstr([Ch(z3.simplify(z3.Extract(20, 0, n.at(max(22, n.w)))))])
    return chr(n)


def hex_(n):
    if RB.isinstance(n, SymInt):
        return mkstr([48, 120] + text.fmt_value('x', '', 0, n))
    return hex(n)


def round_(x, n=None):
    if is_sym(x):
        return x.__round__(n)
    return round(x) if n is None else round(x, n)


def abs_(x):
    return x.__abs__() if is_sym(x) else abs(x)


def repr_(x):
    if RB.isinstance(x, SymStr):
        return mkstr([39] + x.v + [39])
    return repr(x)


def print_(*a, **k):
    return None


def format_(v, spec=''):
    if is_sym(v):
        return mkstr(text.fmt_spec(v, spec))
    return format(v, spec)


def sum_(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def divmod_(a, b):
    if is_sym(a):
        return a.__divmod__(b)
    if is_sym(b):
        return (a // b, a % b)
    return _b.divmod(a, b)


def pow_(a, b, mod=None):
    if mod is not None:
        return pow(a, b, mod)
    if RB.isinstance(b, (SymInt, SymZ)):
        b = b.__index__()
    return a ** b if is_sym(a) else pow(a, b)


# ------------------------------------------------------- AST call targets
def _opaque(x):
    return is_sym(x) or RB.isinstance(x, (SymUUID, SymDateTime)) or type(x).__module__.startswith('avb') or (
        RB.isinstance(x, (list, tuple, dict)) and not RB.isinstance(x, str))


def mod_msg(a, b):
    """a % b in a raise/assert/print: the text only informs, so symbolic parts become a placeholder."""
    args = b if RB.isinstance(b, tuple) else (b,)
    if RB.isinstance(a, SymStr) or any(_opaque(x) for x in args):
        if RB.isinstance(a, str):
            n = len([m for m in _re.finditer(r'%[-#0 +]*\d*(?:\.\d+)?[a-zA-Z]', a.replace('%%', ''))])
            if n != len(args) and not RB.isinstance(b, dict):
                raise TypeError('wrong number of arguments for format string')
            return '<msg>'
        if is_num(a):
            return a % b
        return '<msg>'
    return a % b


def fstr_msg(*parts):
    return ''.join(p if RB.isinstance(p, str) else (
        '<sym>' if _opaque(p[0]) or RB.isinstance(p[2], SymStr) else format(
            repr(p[0]) if p[1] == 'r' else str(p[0]) if p[1] == 's' else p[0], p[2])) for p in parts)


def method_msg(x, name):
    if name == 'format' and RB.isinstance(x, str):
        return lambda *a, **k: '<msg>' if any(_opaque(v) for v in list(a) + list(k.values())) else x.format(*a, **k)
    return method(x, name)


def mod_op(a, b):
    if RB.isinstance(a, (str,)):
        args = b if RB.isinstance(b, tuple) else (b,)
        if any(is_sym(x) or RB.isinstance(x, SymUUID) for x in args):
            return text.percent(a, b)
        # objects of the loaded code in messages: their repr may be symbolic
        if any(type(x).__module__.startswith('avb') for x in args):
            return a % tuple(x if not type(x).__module__.startswith('avb') else '<obj>' for x in args)
    if RB.isinstance(a, SymStr):
        raise E.Unsupported('symbolic format string')
    return a % b


def fstr(*parts):
    out = []
    for p in parts:
        if RB.isinstance(p, str):
            out += [ord(c) for c in p]
            continue
        v, conv, spec = p
        if conv == 'r':
            v = repr_(v)
        elif conv == 's':
            v = str_(v)
        if RB.isinstance(spec, SymStr):
            raise E.Unsupported('symbolic format spec')
        if is_sym(v):
            out += text.fmt_spec(v, spec)
        elif RB.isinstance(v, SymUUID):
            out += cps_of(str_(v))
        elif type(v).__module__.startswith('avb'):
            out += [ord(c) for c in '<obj>']
        else:
            out += [ord(c) for c in format(v, spec)]
    return mkstr(out)


def bjoin(sep, parts):
    out = []
    for i, p in enumerate(parts):
        if i:
            out += items_of(sep)
        it = items_of(p)
        if it is None:
            raise TypeError('a bytes-like object is required')
        out += it
    return SymByteArray(out) if RB.isinstance(sep, (bytearray, SymByteArray)) else mkbytes(out)


def _anysym(xs):
    for x in xs:
        if is_sym(x) or RB.isinstance(x, SymUUID):
            return True
    return False


def method(obj, name):
    """obj.name for method calls on concrete str/bytes with possibly symbolic arguments."""
    t = type(obj)
    if t is str or t is bytes or t is bytearray:
        def call(*a, **k):
            if name == 'join' and a:
                parts = list(a[0])
                if _anysym(parts):
                    if t is str:
                        return SymStr([ord(c) for c in obj]).join(parts)
                    return bjoin(obj, parts)
                return obj.join(parts)
            if name == 'format' and (_anysym(a) or _anysym(k.values())):
                return str_format(obj, a, k)
            if _anysym(a):
                if t is str:
                    return getattr(SymStr([ord(c) for c in obj]), name)(*a, **k)
                return getattr(SymBytes(list(obj)), name)(*a, **k)
            r = getattr(obj, name)(*a, **k)
            return r
        return call
    if t is list and name == 'index':
        return lambda x, *a: list_index(obj, x, *a)
    return getattr(obj, name)


def list_index(obj, x, start=0, stop=1 << 62):
    # list.index puts the repr of x into its error
    for i in range(*_b.slice(start, stop).indices(len(obj))):
        if obj[i] is x or obj[i] == x:
            return i
    raise ValueError('not in list')


def str_format(fmt, a, k):
    import string
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out += [ord(c) for c in lit]
        if field is None:
            continue
        if field == '':
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        else:
            v = string.Formatter().get_field(field, a, k)[0]
        out += cps_of(fstr((v, conv, spec)))
    return mkstr(out)


# ------------------------------------------------------------ struct
_CODES = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
          'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False), '?': (1, False)}


def _parse(fmt):
    if RB.isinstance(fmt, bytes):
        fmt = fmt.decode('ascii')
    fmt = fmt.replace(' ', '')
    order = '@'
    if fmt[:1] in '<>!=@':
        order, fmt = fmt[0], fmt[1:]
    if order == '@' and _struct.calcsize('@' + fmt) != _struct.calcsize('=' + fmt):
        raise E.Unsupported('native struct alignment')
    big = order in '>!'
    out, i = [], 0
    while i < len(fmt):
        n = ''
        while fmt[i].isdigit():
            n += fmt[i]
            i += 1
        c = fmt[i]
        i += 1
        if c == 's':
            out.append(('s', int(n) if n else 1))
        elif c == 'x':
            out.append(('x', int(n) if n else 1))
        else:
            if c not in _CODES and c not in 'df':
                _struct.calcsize(c)
                raise E.Unsupported('struct code ' + c)
            out += [(c, 1)] * (int(n) if n else 1)
    return big, out


def s_calcsize(fmt):
    return _struct.calcsize(fmt)


def s_pack(fmt, *vals):
    if not any(is_sym(v) for v in vals):
        return _struct.pack(fmt, *vals)
    big, codes = _parse(fmt)
    if len([c for c in codes if c[0] != 'x']) != len(vals):
        raise _struct.error('pack expected a different number of items')
    out, k = [], 0
    for c, n in codes:
        if c == 'x':
            out += [0] * n
            continue
        v = vals[k]
        k += 1
        if c == 's':
            it = items_of(v)
            if it is None:
                raise _struct.error("argument for 's' must be a bytes object")
            out += (it + [0] * n)[:n]
            continue
        if c in 'df':
            out += pack_double(v, big) if c == 'd' else list(_struct.pack(('>' if big else '<') + c, v))
            continue
        if c == '?':
            out.append(int_to_items(bool_(v), 1, False, _struct.error('?'))[0] if is_sym(v) else int(bool(v)))
            continue
        size, signed = _CODES[c]
        if not RB.isinstance(v, (int, SymInt, SymZ, SymBool)):
            raise _struct.error('required argument is not an integer')
        it = int_to_items(v, size, signed, _struct.error('argument out of range'))
        out += it if big else it[::-1]
    return mkbytes(out)


def pack_double(v, big):
    if RB.isinstance(v, SymDouble):
        it = [z3.simplify(z3.Extract(8 * i + 7, 8 * i, v.bits)) for i in range(7, -1, -1)]
        it = [x.as_long() if z3.is_bv_value(x) else x for x in it]
        return it if big else it[::-1]
    if RB.isinstance(v, (int, float)):
        return list(_struct.pack('>d' if big else '<d', v))
    if RB.isinstance(v, (SymReal, SymInt, SymZ, SymBool)):
        raise E.Unsupported('packing a computed float')
    raise _struct.error('required argument is not a float')


def s_unpack(fmt, data):
    it = items_of(data)
    if it is None:
        raise TypeError("a bytes-like object is required, not '%s'" % type(data).__name__)
    big, codes = _parse(fmt)
    if len(it) != _struct.calcsize(fmt):
        raise _struct.error('unpack requires a buffer of %d bytes' % _struct.calcsize(fmt))
    if all(RB.isinstance(x, int) for x in it):
        return _struct.unpack(fmt, bytes(it))
    out, p = [], 0
    for c, n in codes:
        if c == 'x':
            p += n
            continue
        if c == 's':
            out.append(mkbytes(it[p:p + n]))
            p += n
            continue
        size = 8 if c == 'd' else 4 if c == 'f' else _CODES[c][0]
        ch = it[p:p + size]
        p += size
        ch = ch if big else ch[::-1]
        if c == 'd':
            if all(RB.isinstance(x, int) for x in ch):
                out.append(_struct.unpack('>d', bytes(ch))[0])
            else:
                out.append(SymDouble(cat(ch)))
        elif c == 'f':
            raise E.Unsupported('float32')
        elif c == '?':
            out.append(byte_val(ch[0]) != 0)
        else:
            out.append(seq_int(ch, _CODES[c][1]))
    return tuple(out)


def s_pack_into(fmt, buf, offset, *vals):
    data = items_of(s_pack(fmt, *vals))
    if RB.isinstance(buf, SymByteArray):
        if offset < 0:
            offset += len(buf.v)
        if offset < 0 or offset + len(data) > len(buf.v):
            raise _struct.error('pack_into requires a buffer of at least %d bytes' % (offset + len(data)))
        buf.v[offset:offset + len(data)] = data
    else:
        raise E.Unsupported('pack_into native buffer')


def s_unpack_from(fmt, buf, offset=0):
    n = _struct.calcsize(fmt)
    it = items_of(buf)
    if offset + n > len(it):
        raise _struct.error('unpack_from requires a buffer of at least %d bytes' % n)
    return s_unpack(fmt, mkbytes(it[offset:offset + n]))


def s_iter_unpack(fmt, buf):
    n = _struct.calcsize(fmt)
    it = items_of(buf)
    if n == 0 or len(it) % n:
        raise _struct.error('iterative unpacking requires a buffer of a multiple of %d bytes' % n)
    return iter([s_unpack(fmt, mkbytes(it[i:i + n])) for i in range(0, len(it), n)])


def codec_decode(obj, encoding='utf-8', errors='strict'):
    if items_of(obj) is not None and is_sym(obj):
        return obj.decode(encoding, errors)
    return _codecs.decode(obj, encoding, errors)


def codec_encode(obj, encoding='utf-8', errors='strict'):
    if is_sym(obj):
        return obj.encode(encoding, errors)
    return _codecs.encode(obj, encoding, errors)


def op_index(x):
    return x if RB.isinstance(x, (SymInt, SymZ)) else _operator.index(x)


class SStruct(object):
    def __init__(self, fmt):
        self.format = fmt
        self.size = _struct.calcsize(fmt)

    def pack(self, *v): return s_pack(self.format, *v)
    def unpack(self, d): return s_unpack(self.format, d)
    def pack_into(self, b, o, *v): return s_pack_into(self.format, b, o, *v)
    def unpack_from(self, b, offset=0): return s_unpack_from(self.format, b, offset)
    def iter_unpack(self, b): return s_iter_unpack(self.format, b)


# ------------------------------------------------------------ io
class BytesIO(object):
    def __init__(self, data=b''):
        self.v = list(items_of(data) or [])
        self.p = 0
        self.closed = False
        self.name = None

    def _c(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def read(self, n=-1):
        self._c()
        rem = max(0, len(self.v) - self.p)
        if n is None:
            n = -1
        if is_sym(n):
            if RB.isinstance(n, SymBool):
                n = n._i()
            if bool(n < 0) or bool(n >= rem):
                n = rem
            else:
                n = n.__index__()
        n = n.__index__() if not RB.isinstance(n, int) else n
        if n < 0 or n > rem:
            n = rem
        r = self.v[self.p:self.p + n]
        self.p += n
        return mkbytes(r)

    read1 = read

    def readinto(self, buf):
        self._c()
        n = min(len(buf), max(0, len(self.v) - self.p))
        if RB.isinstance(buf, SymByteArray):
            buf.v[:n] = self.v[self.p:self.p + n]
        else:
            raise E.Unsupported('readinto native buffer')
        self.p += n
        return n

    def write(self, data):
        self._c()
        it = items_of(data)
        if it is None:
            raise TypeError("a bytes-like object is required, not '%s'" % type(data).__name__)
        if self.p > len(self.v):
            self.v += [0] * (self.p - len(self.v))
        self.v[self.p:self.p + len(it)] = it
        self.p += len(it)
        return len(it)

    def tell(self):
        self._c()
        return self.p

    def seek(self, off, whence=0):
        self._c()
        if is_sym(off):
            off = off.__index__()
        p = off if whence == 0 else self.p + off if whence == 1 else len(self.v) + off
        if p < 0:
            raise ValueError('negative seek value %d' % p)
        self.p = p
        return p

    def truncate(self, n=None):
        n = self.p if n is None else n
        del self.v[n:]
        return n

    def getvalue(self):
        self._c()
        return mkbytes(list(self.v))

    def getbuffer(self):
        return mkbytes(list(self.v))

    def close(self): self.closed = True
    def flush(self): pass
    def readable(self): return True
    def writable(self): return True
    def seekable(self): return True
    def __enter__(self): return self
    def __exit__(self, *a): self.close()

    def readall(self): return self.read()

    def __iter__(self):
        raise E.Unsupported('iterating a binary stream')


VFS = {}     # path -> list of byte items (reset per path by the runner)


class VFile(BytesIO):
    def __init__(self, path, mode):
        if 'w' in mode:
            BytesIO.__init__(self)
            self.v = VFS.setdefault(path, self.v)      # same inode: truncated in place
            del self.v[:]
        else:
            if path not in VFS:
                raise FileNotFoundError(2, 'No such file or directory', path)
            BytesIO.__init__(self)
            self.v = VFS[path]
            if 'a' in mode:
                self.p = len(self.v)
        self.name = path
        self.mode = mode

    def write(self, data):
        if 'w' not in self.mode and '+' not in self.mode and 'a' not in self.mode:
            raise _io.UnsupportedOperation('write')
        return BytesIO.write(self, data)


def io_open(path, mode='r', *a, **k):
    if 'b' not in mode:
        raise E.Unsupported('text mode open')
    return VFile(path, mode)


# ------------------------------------------------------------ uuid
class SymUUID(object):
    _symx_reflect = True
    _symx_symbolic = False

    def __init__(self, items):
        self.v = items     # 16 big-endian items

    def _sl(self, a, b): return self.v[a:b]

    @property
    def bytes(self): return mkbytes(list(self.v))

    @property
    def bytes_le(self):
        v = self.v
        return mkbytes(v[3::-1] + v[5:3:-1] + v[7:5:-1] + v[8:])

    time_low = property(lambda s: seq_int(s.v[0:4]))
    time_mid = property(lambda s: seq_int(s.v[4:6]))
    time_hi_version = property(lambda s: seq_int(s.v[6:8]))
    clock_seq_hi_variant = property(lambda s: seq_int(s.v[8:9]))
    clock_seq_low = property(lambda s: seq_int(s.v[9:10]))
    node = property(lambda s: seq_int(s.v[10:16]))
    int = property(lambda s: seq_int(s.v))
    hex = property(lambda s: text.hexlify(s.v))
    fields = property(lambda s: (s.time_low, s.time_mid, s.time_hi_version, s.clock_seq_hi_variant,
                                 s.clock_seq_low, s.node))

    def _text(self):
        h = cps_of(self.hex)
        return mkstr(h[:8] + [45] + h[8:12] + [45] + h[12:16] + [45] + h[16:20] + [45] + h[20:])

    def __str__(self): return '<symuuid>'
    __repr__ = __str__

    def __eq__(self, o):
        if RB.isinstance(o, SymUUID):
            return items_eq(self.v, o.v)
        if RB.isinstance(o, _uuid.UUID):
            return items_eq(self.v, list(o.bytes))
        return False

    def __ne__(self, o): return neg(self == o)
    def __lt__(self, o): return self.int < o.int
    def __gt__(self, o): return self.int > o.int
    def __le__(self, o): return self.int <= o.int
    def __ge__(self, o): return self.int >= o.int

    def __hash__(self):
        r = [x if RB.isinstance(x, RB.int) else E.CUR.concretise(x, lambda v: v.as_long(), 'uuid byte') for x in self.v]
        return hash(_uuid.UUID(bytes=RB.bytes(r)))

    def __int__(self):
        return self.int.__index__()


class UUID_(metaclass=_TypeMeta):
    _real = _uuid.UUID
    _sym = SymUUID

    def __new__(cls, hex=None, bytes=None, bytes_le=None, fields=None, int=None, version=None):
        src = bytes if bytes is not None else bytes_le
        if src is not None and hex is None and fields is None and int is None and version is None:
            it = items_of(src)
            if len(it) != 16:
                raise ValueError('%s is not a 16-char string' % ('bytes' if bytes is not None else 'bytes_le'))
            if bytes_le is not None:
                it = it[3::-1] + it[5:3:-1] + it[7:5:-1] + it[8:]
            if all(RB.isinstance(x, RB.int) for x in it):
                return _uuid.UUID(bytes=RB.bytes(it))
            return SymUUID(list(it))
        if int is not None and is_sym(int):
            return SymUUID(int_to_items(int, 16, False, ValueError('int is out of range (need a 128-bit value)')))
        if fields is not None and any(is_sym(x) for x in fields):
            out = []
            for x, n in zip(fields, (4, 2, 2, 1, 1, 6)):
                out += int_to_items(x, n, False, ValueError('field out of range'))
            return SymUUID(out)
        if hex is not None and RB.isinstance(hex, SymStr):
            h = hex.replace('urn:', '').replace('uuid:', '')
            h = h.strip('{}').replace('-', '') if True else h
            if len(h) != 32:
                raise ValueError('badly formed hexadecimal UUID string')
            return SymUUID(items_of(unhexlify(h)))
        if bytes_le is not None and RB.isinstance(bytes_le, SymByteArray):
            bytes_le = RB.bytes(bytes_le.v)
        if bytes is not None and RB.isinstance(bytes, SymByteArray):
            bytes = RB.bytes(bytes.v)
        return _uuid.UUID(hex=hex, bytes=bytes, bytes_le=bytes_le, fields=fields, int=int, version=version)


# ------------------------------------------------------------ datetime
STD, DST, T1, T2 = 19800, 23400, 999999580, 1020000780       # harness/zone.tz (run.py sets TZ to it): summer time from T1 to T2


def zone(ts):
    """Seconds the local time zone is ahead of UTC at a time."""
    s = conj([ts >= T1, ts < T2])
    return DST if s is True else STD if s is False else ite_num(s, DST, STD)


def unzone(w, fold=0):
    """The timestamp of a wall clock reading in the local time zone (of a repeated hour the first or second, as given; of a
    skipped one as if the clock had not been changed)."""
    a, b = w - STD, w - DST
    summer = conj([b >= T1, b < T2])
    if fold:
        summer = conj([summer, a < T2])
    return b if summer is True else a if summer is False else ite_num(summer, b, a)


def ite_num(c, a, b):
    from .api import S
    return S.ite(None, c, a, b)


class SymDelta(object):
    """A timedelta of symbolic seconds."""

    def __init__(self, s): self.s = s
    def total_seconds(self): return toreal(self.s)
    @property
    def days(self): return self.s // 86400
    @property
    def seconds(self): return self.s % 86400
    microseconds = 0
    def __eq__(self, o): return self.s == (o.s if RB.isinstance(o, SymDelta) else o.total_seconds())
    def __ne__(self, o): return neg(self == o)
    __hash__ = None


class SymDateTime(object):
    """A naive datetime with the wall clock of timestamp ts, local or in a zone off seconds ahead of UTC."""
    _symx_reflect = True

    def __init__(self, ts, off=None):
        self.ts = ts
        self.off = off

    def wall(self): return self.ts + (zone(self.ts) if self.off is None else self.off)

    def local(self):
        """The timestamp, when the wall clock is taken as local time."""
        return self.ts if self.off is None else unzone(self.wall())

    def timetuple(self): return self
    utctimetuple = timetuple

    def timestamp(self): return toreal(self.local())

    def strftime(self, fmt): return '1970/01/01 00:00:00'
    def isoformat(self, *a): return '1970-01-01T00:00:00'

    def _other(self, o):
        return o.wall() if RB.isinstance(o, SymDateTime) else _calendar.timegm(o.timetuple())

    def __eq__(self, o):
        if RB.isinstance(o, SymDateTime) and (o.ts is self.ts or o.off is not None) and o.off == self.off:
            return self.ts == o.ts
        if RB.isinstance(o, (SymDateTime, _datetime.datetime)):
            return self.wall() == self._other(o)
        return False

    def __ne__(self, o): return neg(self == o)
    def __lt__(self, o): return self.wall() < self._other(o)
    def __le__(self, o): return self.wall() <= self._other(o)
    def __gt__(self, o): return self.wall() > self._other(o)
    def __ge__(self, o): return self.wall() >= self._other(o)

    def __sub__(self, o):
        if RB.isinstance(o, SymDelta):
            return SymDateTime(self.wall() - o.s, 0)
        if RB.isinstance(o, _datetime.timedelta):
            return SymDateTime(self.wall() - int(o.total_seconds()), 0)
        return SymDelta(self.wall() - self._other(o))

    def __add__(self, o):
        return SymDateTime(self.wall() + (o.s if RB.isinstance(o, SymDelta) else int(o.total_seconds())), 0)
    __radd__ = __add__

    def __hash__(self): raise E.Unsupported('hash of datetime')
    def __repr__(self): return '<symdatetime>'
    __str__ = __repr__
    tzinfo = None
    microsecond = 0

    def replace(self, **k):
        if set(k) <= {'microsecond'} or k == {'tzinfo': None}:
            return self
        raise E.Unsupported('datetime.replace')


class timedelta_(metaclass=_TypeMeta):
    _real = _datetime.timedelta
    _sym = SymDelta

    def __new__(cls, *a, **k):
        if not a and set(k) == {'seconds'} and is_sym(k['seconds']):
            return SymDelta(k['seconds'])
        return _datetime.timedelta(*a, **k)


class datetime_(metaclass=_TypeMeta):
    _real = _datetime.datetime
    _sym = SymDateTime

    def __new__(cls, *a, **k): return DateTime(*a, **k)

    @staticmethod
    def fromtimestamp(t, tz=None):
        if RB.isinstance(t, (SymInt, SymZ)):
            if tz is not None:
                raise E.Unsupported('fromtimestamp with tz')
            return SymDateTime(t)
        return DateTime.fromtimestamp(t, tz)

    @staticmethod
    def utcfromtimestamp(t):
        if RB.isinstance(t, (SymInt, SymZ)):
            return SymDateTime(t, 0)
        return DateTime.utcfromtimestamp(t)

    @staticmethod
    def now(tz=None): return DateTime.now(tz)


class DateTime(_datetime.datetime):
    """A concrete one that takes part in arithmetic with symbolic ones."""

    def __add__(self, o):
        if RB.isinstance(o, SymDelta):
            return SymDateTime(o.s + _calendar.timegm(self.timetuple()), 0)
        return _datetime.datetime.__add__(self, o)


DateTime.__name__ = DateTime.__qualname__ = 'datetime'


def mktime(t):
    if RB.isinstance(t, SymDateTime):
        # a time tuple does not tell the second of two equal hours from the first (glibc takes the offset it used last)
        return toreal(unzone(t.wall(), 1))
    return _time.mktime(t)


def timegm(t):
    if RB.isinstance(t, SymDateTime):
        return t.wall()
    return _calendar.timegm(t)


# ------------------------------------------------------------ binascii / math
def unhexlify(s):
    if not is_sym(s):
        return _binascii.unhexlify(s)
    cps = cps_of(s)
    if cps is None:
        cps = cps_of(text.decode(items_of(s), 'ascii'))
    if len(cps) % 2:
        raise _binascii.Error('Odd-length string')
    out = []
    for c in cps:
        if RB.isinstance(c, int) and (c > 127 or chr(c) not in '0123456789abcdefABCDEF'):
            raise (ValueError('string argument should contain only ASCII characters') if c > 127 else
                   _binascii.Error('Non-hexadecimal digit found'))
    for i in range(0, len(cps), 2):
        out.append(byte_item(SymInt.from_bv(z3.Concat(text.hex_digit(cps[i]), text.hex_digit(cps[i + 1])), False)))
    return mkbytes(out)


class LazyHex(SymBytes):
    """The digits are made when they are looked at: most only get printed when an error is reported."""
    __slots__ = ('raw', 'done')

    def __init__(self, items):
        self.raw, self.done = items, None

    @property
    def v(self):
        if self.done is None:
            self.done = items_of(text.hexlify(self.raw).encode('ascii'))
        return self.done


def hexlify(d, *a):
    if RB.isinstance(d, (SymBytes, SymByteArray)):
        return LazyHex(list(d.v))
    return _binascii.hexlify(d, *a)


def _mathfn(name):
    real = getattr(_math, name)

    def f(*a):
        if any(is_sym(x) for x in a):
            if name in ('floor', 'ceil', 'trunc') and len(a) == 1:
                x = a[0]
                return x if not RB.isinstance(x, SymReal) else getattr(x, name)()
            if name == 'fabs':
                return abs_(toreal(a[0]))
            if name == 'pow':
                return toreal(a[0]) ** a[1]
            if name in ('isnan', 'isinf'):
                return False
            if name == 'isfinite':
                return True
            if name == 'sqrt':
                x = toreal(a[0])
                if x < 0:
                    raise ValueError('math domain error')
                en = E.CUR
                en.fresh_n += 1
                y = z3.Real('sqrt!%d' % en.fresh_n)
                en.assume(z3.And(y >= 0, y * y == x.e))
                return SymReal(y)
            if name == 'modf':
                x = toreal(a[0])
                t = toreal(x.trunc())
                return (x - t, t)
            raise E.Unsupported('math.' + name)
        return real(*a)
    return f


def make_modules():
    M = {}

    def mod(name, base, **over):
        m = types.ModuleType(name)
        if base is not None:
            for k in dir(base):
                if not k.startswith('__'):
                    setattr(m, k, getattr(base, k))
        for k, v in over.items():
            setattr(m, k, v)
        M[name] = m
        return m
    mod('struct', _struct, pack=s_pack, unpack=s_unpack, pack_into=s_pack_into, unpack_from=s_unpack_from,
        iter_unpack=s_iter_unpack, calcsize=s_calcsize, Struct=SStruct)
    mod('io', _io, BytesIO=BytesIO, open=io_open)
    mod('uuid', _uuid, UUID=UUID_)
    mod('datetime', _datetime, datetime=datetime_, timedelta=timedelta_)
    mod('time', _time, mktime=mktime)
    mod('calendar', _calendar, timegm=timegm)
    mod('codecs', _codecs, decode=codec_decode, encode=codec_encode)
    mod('operator', _operator, index=op_index)
    mod('binascii', _binascii, hexlify=hexlify, unhexlify=unhexlify)
    mod('collections', _collections, OrderedDict=SymOrderedDict)
    mod('math', _math, **{n: _mathfn(n) for n in dir(_math) if callable(getattr(_math, n)) and not n.startswith('_')})
    return M


def make_builtins(importer):
    d = dict(vars(_b))
    d.update(int=int_, float=float_, str=str_, bytes=bytes_, bytearray=bytearray_, bool=bool_,
             memoryview=memoryview_, range=range_, hash=hash_, ord=ord_, chr=chr_, hex=hex_, round=round_,
             abs=abs_, repr=repr_, print=print_, format=format_, sum=sum_, divmod=divmod_, pow=pow_,
             dict=dict_, set=set_, frozenset=frozenset_, open=io_open, __import__=importer)
    d['__symx_mod__'] = mod_op
    d['__symx_fstr__'] = fstr
    d['__symx_method__'] = method
    d['__symx_mod_msg__'] = mod_msg
    d['__symx_fstr_msg__'] = fstr_msg
    d['__symx_method_msg__'] = method_msg
    d['__symx_dict__'] = SymDict
    d['__symx_set__'] = SymSet
    d['__symx_in__'] = in_op
    d['__symx_type__'] = type_of
    d['__symx_dictparts__'] = dict_parts
    return d
