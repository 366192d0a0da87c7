"""Executes C++ functions symbolically from clang's typed syntax tree.

The tree of the translation unit is dumped by clang on every run (all implicit
conversions are explicit in it) and compiled to Python closures over the value
model of symx: integers of fixed width over SymInt, structures, unions,
std::vector (with its invalidation rules) and pointers into byte buffers,
vectors and objects.  Every access is checked: one outside its object, through
a stale reference or of an uninitialised value is a Fault.
"""
import json
import os
import subprocess
import tempfile
import z3
from . import engine as E
from . import values as V
from . import shims
from .values import SymInt, SymBool, SymReal, SymDouble


class Fault(BaseException):
    """Undefined behaviour of the executed C++ (never caught by code under test)."""


class Unset(object):
    def __repr__(self):
        return '<uninitialised>'


UNSET = Unset()
MAX_ITEMS = 1 << 14     # larger vectors are not followed
HUGE = 1 << 29          # allocations above this are out of proportion to any record of the harnesses
MAX_STEPS = 400000


# ------------------------------------------------------------------- types
INT, BOOL, DBL, VOID, PTR, REF, REC, VEC, ARR, FN, OTHER = (
    'int', 'bool', 'double', 'void', 'ptr', 'ref', 'rec', 'vec', 'arr', 'fn', 'other')

_BASIC = {
    'char': (INT, 8, True), 'signed char': (INT, 8, True), 'unsigned char': (INT, 8, False),
    'short': (INT, 16, True), 'unsigned short': (INT, 16, False), 'int': (INT, 32, True),
    'unsigned int': (INT, 32, False), 'unsigned': (INT, 32, False), 'long': (INT, 64, True),
    'unsigned long': (INT, 64, False), 'long long': (INT, 64, True), 'unsigned long long': (INT, 64, False),
    'bool': (BOOL,), 'double': (DBL,), 'float': (DBL,), 'void': (VOID,),
    'int8_t': (INT, 8, True), 'uint8_t': (INT, 8, False), 'int16_t': (INT, 16, True), 'uint16_t': (INT, 16, False),
    'int32_t': (INT, 32, True), 'uint32_t': (INT, 32, False), 'int64_t': (INT, 64, True), 'uint64_t': (INT, 64, False),
    'size_t': (INT, 64, False), 'ssize_t': (INT, 64, True), 'ptrdiff_t': (INT, 64, True), 'bint': (BOOL,),
    'Py_ssize_t': (INT, 64, True), 'size_type': (INT, 64, False),
}
CLASSY = (REC, VEC)


def size_of(t):
    if t[0] == INT:
        return t[1] // 8
    if t[0] == BOOL:
        return 1
    if t[0] in (DBL, PTR):
        return 8
    if t[0] == ARR:
        return t[2] * size_of(t[1])
    raise E.Unsupported('sizeof %s' % (t,))


# ------------------------------------------------------------------ values
def wrap(v, t):
    """v as a value of integer type t."""
    bits, signed = t[1], t[2]
    if isinstance(v, SymBool):
        v = v._i()
    if isinstance(v, SymInt):
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        if v.lo >= lo and v.hi <= hi:
            return v
        return SymInt.from_bv(v.at(bits) if v.w < bits else z3.Extract(bits - 1, 0, v.e), signed)
    if v is UNSET:
        raise Fault('uninitialised value used')
    v = int(v) & ((1 << bits) - 1)
    if signed and v >> (bits - 1):
        v -= 1 << bits
    return v


def truth(v):
    if v is UNSET:
        raise Fault('uninitialised value used')
    if isinstance(v, Ptr):
        return True
    if v is None:
        return False
    return bool(v)


def as_bool(v):
    if v is UNSET:
        raise Fault('uninitialised value used')
    if isinstance(v, (bool, SymBool)):
        return v
    if isinstance(v, Ptr):
        return True
    if v is None:
        return False
    return v != 0


def concrete(v, what):
    if isinstance(v, SymBool):
        v = v._i()
    if isinstance(v, SymInt):
        return v.__index__()
    if v is UNSET:
        raise Fault('uninitialised value used')
    return int(v)


def to_bytes(v, t):
    if t[0] == INT:
        code = {8: 'b', 16: 'h', 32: 'i', 64: 'q'}[t[1]]
        return V.items_of(shims.s_pack('<' + (code if t[2] else code.upper()), v))
    if t[0] == DBL:
        return V.items_of(shims.s_pack('<d', v))
    if t[0] == BOOL:
        return V.items_of(shims.s_pack('<B', wrap(v, (INT, 8, False))))
    raise E.Unsupported('bytes of %s' % (t,))


def from_bytes(items, t):
    data = V.mkbytes(list(items))
    if t[0] == INT:
        code = {8: 'b', 16: 'h', 32: 'i', 64: 'q'}[t[1]]
        return shims.s_unpack('<' + (code if t[2] else code.upper()), data)[0]
    if t[0] == DBL:
        return shims.s_unpack('<d', data)[0]
    if t[0] == BOOL:
        return shims.s_unpack('<B', data)[0] != 0
    raise E.Unsupported('%s from bytes' % (t,))


def zero(t, tu, unset=False):
    """Value-initialised (or default-initialised) object of type t."""
    if t[0] == VEC:
        return CVec(t[1], tu)
    if t[0] == REC:
        r = tu.record(t[1])
        if r.union:
            return CUnion(r, UNSET if unset else 0)
        o = CStruct(r)
        for n, ft in r.fields:
            o.f[n] = zero(ft, tu, unset)
        return o
    if t[0] == ARR:
        a = CVec(t[1], tu)
        a.fixed = True
        a.items = [zero(t[1], tu, unset) for _ in range(t[2])]
        return a
    if unset:
        return UNSET
    if t[0] == INT:
        return 0
    if t[0] == BOOL:
        return False
    if t[0] == DBL:
        return 0.0
    if t[0] == PTR:
        return None
    raise E.Unsupported('object of type %s' % (t,))


def copy(v):
    return v.copy() if isinstance(v, (CStruct, CVec, CUnion)) else v


class CStruct(object):
    __slots__ = ('rec', 'f', 'dead')

    def __init__(self, rec):
        self.rec = rec
        self.f = {}
        self.dead = False

    def copy(self):
        self.live()
        o = CStruct(self.rec)
        for k, v in self.f.items():
            o.f[k] = copy(v)
        return o

    def live(self):
        if self.dead:
            raise Fault('reference to an element of a vector that has been reallocated')

    def assign(self, o):
        self.live()
        for k, v in o.copy().f.items():
            self.f[k] = v


class CUnion(object):
    """Members of one size share one unsigned value."""
    __slots__ = ('rec', 'raw', 'dead')

    def __init__(self, rec, raw):
        self.rec, self.raw, self.dead = rec, raw, False

    def copy(self):
        return CUnion(self.rec, self.raw)

    def live(self):
        if self.dead:
            raise Fault('stale reference')

    def assign(self, o):
        self.raw = o.raw


class CVec(object):
    __slots__ = ('t', 'tu', 'items', 'cap', 'dead', 'gen', 'fixed')

    def __init__(self, t, tu):
        self.t, self.tu = t, tu
        self.items = []
        self.cap = 0
        self.dead = False
        self.gen = 0
        self.fixed = False

    def live(self):
        if self.dead:
            raise Fault('reference to an element of a vector that has been reallocated')

    def copy(self):
        self.live()
        o = CVec(self.t, self.tu)
        o.items = [copy(x) for x in self.items]
        o.cap = len(o.items)
        o.fixed = self.fixed
        return o

    def assign(self, o):
        self.live()
        new = [copy(x) for x in o.items]
        self._kill()
        self.items = new
        self.cap = max(self.cap, len(new))

    def _kill(self):
        self.gen += 1
        for x in self.items:
            kill(x)

    def grow(self, n):
        """The elements move to new storage when the capacity is exceeded."""
        self.live()
        if n > self.cap:
            if self.t[0] in CLASSY:
                old = self.items
                self.items = [copy(x) for x in old]
                for x in old:
                    kill(x)
            self.gen += 1
            self.cap = n

    def new(self):
        return zero(self.t, self.tu)

    # -- std::vector
    def m_size(self):
        self.live()
        return len(self.items)

    def m_capacity(self):
        return self.cap

    def m_empty(self):
        self.live()
        return not self.items

    def _n(self, n):
        if isinstance(n, SymInt):
            self._nres(n)
            n = n.__index__()
        if n < 0 or n > HUGE:
            raise Fault('allocation out of proportion to the record')
        if n > MAX_ITEMS:
            raise E.Unsupported('vector of %d elements' % n)
        return n

    def m_resize(self, n, v=UNSET):
        n = self._n(n)
        self.grow(n)
        if n < len(self.items):
            for x in self.items[n:]:
                kill(x)
            del self.items[n:]
        while len(self.items) < n:
            self.items.append(self.new() if v is UNSET else copy(v))

    def m_reserve(self, n):
        if isinstance(n, SymInt):
            self._nres(n)
            n = n.__index__() if n.hi <= 64 else len(self.items)
        elif n > HUGE or n < 0:
            raise Fault('allocation out of proportion to the record')
        self.grow(n)

    def _nres(self, n):
        if (n.lo < 0 or n.hi > HUGE) and truth(V.disj([n < 0, n > HUGE])):
            raise Fault('allocation out of proportion to the record')
        if n.hi > MAX_ITEMS and truth(n > MAX_ITEMS):
            raise E.Unsupported('vector of more than %d elements' % MAX_ITEMS)

    def m_push_back(self, v):
        v = copy(v)
        self.grow(len(self.items) + 1)
        self.items.append(v)

    m_emplace_back = m_push_back

    def m_pop_back(self):
        self.live()
        if not self.items:
            raise Fault('pop_back of an empty vector')
        kill(self.items.pop())

    def m_clear(self):
        self.live()
        self._kill()
        self.items = []

    def m_assign(self, a, b):
        if isinstance(a, Ptr):
            self.assign_items([copy(x) for x in span(a, b)])
        else:
            self.assign_items([copy(b) for _ in range(self._n(a))])

    def assign_items(self, items):
        self._kill()
        self.items = items
        self.cap = max(self.cap, len(items))

    def m_insert(self, pos, a, b=UNSET):
        at = pos.off
        if b is UNSET:
            new = [copy(a)]
        elif isinstance(a, Ptr):
            new = [copy(x) for x in span(a, b)]
        else:
            new = [copy(b) for _ in range(self._n(a))]
        self.grow(len(self.items) + len(new))
        self.gen += 1
        self.items[at:at] = new
        return Ptr(self, at, self.t)

    def m_begin(self):
        self.live()
        return Ptr(self, 0, self.t)

    m_cbegin = m_begin

    def m_end(self):
        self.live()
        return Ptr(self, len(self.items), self.t)

    m_cend = m_end

    def m_data(self):
        self.live()
        return Ptr(self, 0, self.t)

    def m_swap(self, o):
        self.items, o.items = o.items, self.items
        self.cap, o.cap = o.cap, self.cap

    def index(self, i):
        """Checked index of an element."""
        self.live()
        n = len(self.items)
        if isinstance(i, SymInt):
            if truth(V.disj([i < 0, i >= n])):
                raise Fault('vector index out of range')
            return i.__index__()
        if not 0 <= i < n:
            raise Fault('vector index out of range')
        return i


def kill(x):
    if isinstance(x, CStruct):
        x.dead = True
        for v in x.f.values():
            kill(v)
    elif isinstance(x, CVec):
        x.dead = True
        for v in x.items:
            if isinstance(v, (CStruct, CVec)):
                kill(v)


def span(a, b):
    if a.base is not b.base:
        raise Fault('iterators of different containers')
    out = []
    for i in range(a.off, b.off):
        out.append(Ptr(a.base, i, a.t).load())
    return out


class Buf(object):
    """A block of memory that holds bytes (items as in symx bytes)."""
    __slots__ = ('items', 'name')

    def __init__(self, items, name):
        self.items, self.name = items, name


class Box(object):
    """Memory of one scalar (a local variable whose address is taken)."""
    __slots__ = ('frame', 'key', 't')

    def __init__(self, frame, key, t):
        self.frame, self.key, self.t = frame, key, t

    def get(self):
        return self.frame[self.key]

    def set(self, v):
        self.frame[self.key] = v


class FieldRef(object):
    __slots__ = ('o', 'name', 't')

    def __init__(self, o, name, t):
        self.o, self.name, self.t = o, name, t

    def get(self):
        o = self.o
        o.live()
        if o.__class__ is CUnion:
            if o.raw is UNSET:
                return UNSET
            return from_raw(o.raw, self.t)
        return o.f[self.name]

    def set(self, v):
        o = self.o
        o.live()
        if o.__class__ is CUnion:
            o.raw = to_raw(v, self.t)
        else:
            o.f[self.name] = v


def from_raw(raw, t):
    if t[0] == DBL:
        return from_bytes(to_bytes(raw, (INT, 64, False)), t)
    return wrap(raw, t)


def to_raw(v, t):
    if t[0] == DBL:
        return from_bytes(to_bytes(v, t), (INT, 64, False))
    return wrap(v, (INT, t[1], False))


class ElemRef(object):
    __slots__ = ('vec', 'i', 't')

    def __init__(self, vec, i):
        self.vec, self.i, self.t = vec, i, vec.t

    def get(self):
        return self.vec.items[self.vec.index(self.i)]

    def set(self, v):
        self.vec.items[self.vec.index(self.i)] = v


class PtrRef(object):
    """*p of a scalar."""
    __slots__ = ('p', 't')

    def __init__(self, p):
        self.p, self.t = p, p.t

    def get(self):
        return self.p.load()

    def set(self, v):
        self.p.store(v)


class Ptr(object):
    """Pointer: base is a Buf, a CVec, a Box/FieldRef/ElemRef or an object; off counts elements of type t."""
    __slots__ = ('base', 'off', 't', 'gen')

    def __init__(self, base, off, t):
        self.base, self.off, self.t = base, off, t
        self.gen = base.gen if base.__class__ is CVec else None

    def add(self, n):
        if isinstance(n, SymInt):
            n = n.__index__()
        p = Ptr.__new__(Ptr)
        p.base, p.off, p.t, p.gen = self.base, self.off + n, self.t, self.gen
        return p

    def cast(self, t):
        if t[0] == VOID or t == self.t:
            return self
        p = Ptr.__new__(Ptr)
        p.base, p.gen, p.t = self.base, self.gen, t
        if t[0] in (INT, DBL, BOOL) and self.t[0] in (INT, DBL, BOOL):
            a, b = self.off * size_of(self.t), size_of(t)
            if a % b:
                raise E.Unsupported('misaligned pointer cast')
            p.off = a // b
        else:
            p.off = self.off
        return p

    def _own(self):
        b = self.base
        if b.__class__ is CVec:
            b.live()
            if self.gen != b.gen:
                raise Fault('pointer into a vector that has been reallocated')
            return b.t
        if b.__class__ is Buf:
            return (INT, 8, False)
        return getattr(b, 't', None)

    def obj(self):
        """The object a pointer to a class type leads to."""
        b = self.base
        if b.__class__ is CVec and not (self.t[0] == VEC and self.off == 0 and b.t != self.t):
            self._own()
            return b.items[b.index(self.off)]
        if self.off != 0:
            raise Fault('pointer outside its object')
        b.live()
        return b

    def load(self):
        t = self.t
        if t[0] in CLASSY:
            return self.obj()
        own = self._own()
        b = self.base
        if b.__class__ is Buf:
            n = size_of(t)
            o = self.off * n
            if o < 0 or o + n > len(b.items):
                raise Fault('read %s the %s' % ('before' if o < 0 else 'after the end of', b.name))
            if n == 1:
                v = V.byte_val(b.items[o])
                return wrap(v, t) if t[0] == INT else v
            return from_bytes(b.items[o:o + n], t)
        if b.__class__ is CVec:
            if own == t or own[0] == t[0] == PTR:
                return b.items[b.index(self.off)]
            so, sn = size_of(own), size_of(t)
            if so == sn:
                return from_bytes(to_bytes(b.items[b.index(self.off)], own), t)
            raw = []
            first = self.off * sn // so
            for i in range(first, first + max(1, sn // so)):
                raw += to_bytes(b.items[b.index(i)], own)
            at = self.off * sn - first * so
            return from_bytes(raw[at:at + sn], t)
        if own == t:
            if self.off != 0:
                raise Fault('pointer outside its variable')
            return b.get()
        raw = to_bytes(b.get(), own)
        n = size_of(t)
        if not 0 <= self.off * n <= len(raw) - n:
            raise Fault('pointer outside its variable')
        return from_bytes(raw[self.off * n:self.off * n + n], t)

    def store(self, v):
        own = self._own()
        b, t = self.base, self.t
        if b.__class__ is Buf:
            raise E.Unsupported('write to the record')
        if b.__class__ is CVec:
            if own == t or own[0] == t[0] == PTR:
                b.items[b.index(self.off)] = v
                return
            so, n = size_of(own), size_of(t)
            if so == n:
                b.items[b.index(self.off)] = from_bytes(to_bytes(v, t), own)
                return
            if so == 1:
                raw = to_bytes(v, t)
                for i in range(n):
                    b.items[b.index(self.off * n + i)] = from_bytes(raw[i:i + 1], own)
                return
            raise E.Unsupported('store through a cast pointer')
        if own == t:
            if self.off != 0:
                raise Fault('pointer outside its variable')
            b.set(v)
            return
        raw = b.get()
        raw = [0] * size_of(own) if raw is UNSET else to_bytes(raw, own)
        x = to_bytes(v, t)
        n = len(x)
        if not 0 <= self.off * n <= len(raw) - n:
            raise Fault('pointer outside its variable')
        raw[self.off * n:self.off * n + n] = x
        b.set(from_bytes(raw, own))

    def key(self):
        b = self.base
        return (b.o, b.name) if b.__class__ is FieldRef else (b.frame, b.key) if b.__class__ is Box else b

    def __eq__(self, o):
        if o is None:
            return False
        return isinstance(o, Ptr) and self.base is o.base and self.off == o.off

    def __ne__(self, o):
        return not self == o

    __hash__ = None


def cstr(data):
    return Ptr(Buf(list(data) + [0], 'string'), 0, (INT, 8, True))


def strlen(p):
    n = 0
    while truth(p.add(n).load() != 0):
        n += 1
    return n


def cstr_bytes(p):
    if p is None:
        raise Fault('null string')
    if p is UNSET:
        raise Fault('uninitialised value used')
    n = strlen(p)
    return slice_bytes(p, 0, n)


def slice_bytes(p, start, stop):
    """The bytes p[start:stop] of a char pointer."""
    start, stop = concrete(start, 'slice'), concrete(stop, 'slice')
    u8 = (INT, 8, False)
    q = p.cast(u8)
    out = []
    for i in range(start, stop):
        out += to_bytes(q.add(i).load(), u8)
    return V.mkbytes(out)


class Rec(object):
    def __init__(self, name, union):
        self.name, self.union = name, union
        self.fields = []
        self.types = {}


BREAK, CONTINUE, RETURN = 1, 2, 3


class TU(object):
    """A translation unit: records, enumerators and functions of the sources."""

    def __init__(self, decls):
        self.recs = {}
        self.rec_ids = {}
        self.enums = {}
        self.enum_names = set()
        self.typedefs = {}
        self.fns = {}
        self.fn_name = {}
        self.compiled = {}
        self.fields = {}
        self.globals = {}
        self.gdecl = {}
        self.steps = 0
        self.called = set()
        self._types = {}
        self.decls = decls
        for d in decls:
            self.declare(d, '')

    @staticmethod
    def load(path, cache=None):
        decls = dump(path)
        return TU(decls)

    def declare(self, d, scope):
        k = d.get('kind')
        if k in ('CXXRecordDecl', 'RecordDecl'):
            if d.get('isImplicit') or 'name' not in d or 'inner' not in d and not d.get('completeDefinition'):
                return
            name = scope + d['name']
            r = Rec(name, d.get('tagUsed') == 'union')
            self.recs[name] = r
            for c in d.get('inner', []):
                if c['kind'] in ('CXXRecordDecl', 'EnumDecl', 'RecordDecl', 'TypedefDecl'):
                    self.declare(c, name + '::')
                elif c['kind'] == 'FieldDecl':
                    t = self.type(c['type'], name)
                    r.fields.append((c['name'], t))
                    r.types[c['name']] = t
                    self.fields[c['id']] = (c['name'], t)
                elif c['kind'] == 'CXXMethodDecl' and not c.get('isImplicit') and body_of(c):
                    self.fns[c['id']] = c
                    self.fn_name['%s::%s' % (name, c['name'])] = c
        elif k == 'EnumDecl':
            self.enum_names.add(scope + d.get('name', ''))
            nxt = 0
            for c in d.get('inner', []):
                if c['kind'] != 'EnumConstantDecl':
                    continue
                if c.get('inner'):
                    nxt = const_value(c['inner'][0])
                self.enums[c['id']] = nxt
                self.enums[c['name']] = nxt
                nxt += 1
        elif k in ('TypedefDecl', 'TypeAliasDecl'):
            self.typedefs[d['name']] = d['type']
        elif k == 'FunctionDecl':
            if body_of(d):
                self.fns[d['id']] = d
                self.fn_name[d['name']] = d
            elif d.get('name') not in self.fn_name:
                self.fns.setdefault(d['id'], d)
        elif k == 'VarDecl':
            self.gdecl[d['id']] = d
        elif k in ('NamespaceDecl', 'LinkageSpecDecl'):
            for c in d.get('inner', []):
                self.declare(c, scope)

    def record(self, name):
        if name in self.recs:
            return self.recs[name]
        tail = [r for r in self.recs if r.endswith('::' + name)]
        if len(tail) == 1:
            return self.recs[tail[0]]
        raise E.Unsupported('record %s' % name)

    def type(self, ti, scope=None):
        s = ti if isinstance(ti, str) else ti.get('desugaredQualType') or ti['qualType']
        key = (s, scope)
        t = self._types.get(key)
        if t is None:
            t = self.parse(s, scope)
            if t[0] == OTHER and not isinstance(ti, str) and ti['qualType'] != s:
                t2 = self.parse(ti['qualType'], scope)
                if t2[0] != OTHER:
                    t = t2
            self._types[key] = t
        return t

    def parse(self, s, scope=None):
        s = s.strip()
        while True:
            for p in ('const ', 'volatile ', 'struct ', 'union ', 'enum ', 'class ', 'typename ', 'std::', '::'):
                if s.startswith(p):
                    s = s[len(p):].strip()
                    break
            else:
                break
        for suf in ('const', '__restrict', 'volatile'):
            if s.endswith(suf) and (s[:-len(suf)].endswith(' ') or s[:-len(suf)].endswith('*')):
                return self.parse(s[:-len(suf)], scope)
        if s.endswith('&&'):
            return (REF, self.parse(s[:-2], scope))
        if s.endswith('&'):
            return (REF, self.parse(s[:-1], scope))
        if s.endswith('*'):
            return (PTR, self.parse(s[:-1], scope))
        if s.endswith(']'):
            i = s.rindex('[')
            n = s[i + 1:-1]
            if n.isdigit():
                return (ARR, self.parse(s[:i], scope), int(n))
            return (OTHER, s)
        if s in _BASIC:
            return _BASIC[s]
        if s.startswith('vector') and '<' in s:
            i = s.index('<')
            depth, j = 0, i
            arg = None
            for j in range(i, len(s)):
                c = s[j]
                if c == '<':
                    depth += 1
                elif c == '>':
                    depth -= 1
                    if depth == 0:
                        break
                elif c == ',' and depth == 1 and arg is None:
                    arg = s[i + 1:j]
            rest = s[j + 1:].strip()
            t = (VEC, self.parse(arg if arg is not None else s[i + 1:j], scope))
            if not rest:
                return t
            if rest in ('::value_type',):
                return t[1]
            if rest in ('::reference', '::const_reference'):
                return (REF, t[1])
            if rest in ('::size_type',):
                return _BASIC['size_t']
            if rest in ('::iterator', '::const_iterator', '::pointer'):
                return (PTR, t[1])
            return (OTHER, s)
        if s.startswith('__gnu_cxx::__normal_iterator<'):
            inner = s[s.index('<') + 1:]
            return self.parse(inner.split(',')[0], scope)
        if s in self.enum_names or scope and scope + '::' + s in self.enum_names:
            return (INT, 32, False)
        if scope and scope + '::' + s in self.recs:
            return (REC, scope + '::' + s)
        if s in self.recs:
            return (REC, s)
        if s in self.typedefs:
            return self.type(self.typedefs[s])
        tail = [r for r in self.recs if r.endswith('::' + s)]
        if len(tail) == 1:
            return (REC, tail[0])
        return (OTHER, s)

    # -------------------------------------------------------------- calls
    def start(self):
        self.steps = 0

    def call(self, name, args):
        """Call a function by name with C values (class objects for references)."""
        d = self.fn_name.get(name)
        if d is None:
            raise E.Unsupported('no C++ function %s' % name)
        return self.invoke(d, args)

    def invoke(self, d, args, this=None):
        fn = self.compiled.get(d['id'])
        if fn is None:
            fn = self.compiled[d['id']] = self.compile_fn(d)
        self.called.add(d.get('name'))
        return fn(args, this)

    def compile_fn(self, d):
        params = [c for c in d.get('inner', []) if c['kind'] == 'ParmVarDecl']
        body = body_of(d)
        C = Compiler(self)
        run = C.stmt(body)
        plist = [(p['id'], self.type(p['type'])) for p in params]
        name = d['name']
        rt = d['type']['qualType'].split('(')[0].strip()
        void = rt == 'void'
        defaults = {}
        for o in [d] + [o for o in self.fns.values() if o.get('name') == name and o is not d]:
            ps = [c for c in o.get('inner', []) if c['kind'] == 'ParmVarDecl']
            if len(ps) == len(params):
                for i, p in enumerate(ps):
                    if p.get('init') and p.get('inner') and i not in defaults:
                        defaults[i] = C.init(p['inner'][-1], plist[i][1])

        def fn(args, this):
            args = list(args)
            while len(args) in defaults and len(args) < len(plist):
                args.append(defaults[len(args)]({'this': this}))
            if len(args) != len(plist):
                raise E.Unsupported('call of %s with %d arguments' % (name, len(args)))
            fr = {'this': this}
            for (i, t), a in zip(plist, args):
                fr[i] = copy(a) if t[0] in CLASSY else a
            sig = run(fr)
            if sig == RETURN:
                return fr.get('ret')
            if not void:
                return UNSET
            return None
        return fn


def body_of(d):
    for c in d.get('inner', []):
        if c.get('kind') == 'CompoundStmt':
            return c
    return None


def const_value(n):
    if 'value' in n and n['kind'] in ('IntegerLiteral', 'ConstantExpr', 'CharacterLiteral'):
        return int(n['value'])
    if n['kind'] == 'UnaryOperator' and n['opcode'] == '-':
        return -const_value(n['inner'][0])
    return const_value(n['inner'][0])


_CMP = {'==', '!=', '<', '>', '<=', '>='}


def arith(op, a, b, t):
    """Result of a binary operator on values of the (common) type t."""
    if a is UNSET or b is UNSET:
        raise Fault('uninitialised value used')
    if op == '+':
        r = a + b
    elif op == '-':
        r = a - b
    elif op == '*':
        r = a * b
    elif op == '/':
        if t[0] != INT:
            if truth(b == 0):
                raise E.Unsupported('floating division by zero')
            return a / b
        if truth(b == 0):
            raise Fault('division by zero')
        r = abs(a) // abs(b) if not truth((a < 0)) else -(abs(a) // abs(b))
        if truth(b < 0):
            r = -r
    elif op == '%':
        if truth(b == 0):
            raise Fault('division by zero')
        r = abs(a) % abs(b)
        if truth(a < 0):
            r = -r
    elif op == '&':
        r = wrap(a, t) & wrap(b, t)
    elif op == '|':
        r = wrap(a, t) | wrap(b, t)
    elif op == '^':
        r = wrap(a, t) ^ wrap(b, t)
    elif op == '<<':
        n = concrete(b, 'shift')
        if not 0 <= n < t[1]:
            raise Fault('shift by %d' % n)
        r = a << n
    elif op == '>>':
        n = concrete(b, 'shift')
        if not 0 <= n < t[1]:
            raise Fault('shift by %d' % n)
        r = a >> n
    else:
        raise E.Unsupported('operator %s' % op)
    return wrap(r, t) if t[0] == INT else r


def compare(op, a, b):
    if a is UNSET or b is UNSET:
        raise Fault('uninitialised value used')
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if op == '==':
            return a == b if isinstance(a, Ptr) else b == a
        if op == '!=':
            return not (a == b if isinstance(a, Ptr) else b == a)
        if a is None or b is None or a.base is not b.base:
            raise Fault('comparison of pointers into different objects')
        a, b = a.off, b.off
    if isinstance(a, (bool, SymBool)):
        a = wrap(a, (INT, 32, True))
    if isinstance(b, (bool, SymBool)):
        b = wrap(b, (INT, 32, True))
    return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '>': lambda: a > b,
            '<=': lambda: a <= b, '>=': lambda: a >= b}[op]()


class Compiler(object):
    def __init__(self, tu):
        self.tu = tu

    def T(self, n):
        t = self.tu.type(n['type'])
        return t[1] if t[0] == REF else t

    # ---------------------------------------------------------- statements
    def stmt(self, n):
        k = n.get('kind')
        if k is None:
            return lambda fr: None
        f = getattr(self, 's_' + k, None)
        if f is not None:
            return f(n)
        e = self.rv(n)

        def run(fr):
            e(fr)
            return None
        return run

    def s_NullStmt(self, n):
        return lambda fr: None

    def s_CompoundStmt(self, n):
        ss = [self.stmt(c) for c in n.get('inner', [])]
        tu = self.tu

        def run(fr):
            for s in ss:
                tu.steps += 1
                r = s(fr)
                if r is not None:
                    return r
            if tu.steps > MAX_STEPS:
                raise E.Unsupported('C++ step limit')
            return None
        return run

    def s_DeclStmt(self, n):
        ss = [self.var(c) for c in n.get('inner', []) if c['kind'] == 'VarDecl']

        def run(fr):
            for s in ss:
                s(fr)
            return None
        return run

    def var(self, c):
        t = self.tu.type(c['type'])
        i = c['id']
        if c.get('storageClass') == 'static':
            raise E.Unsupported('static local variable')
        inner = [x for x in c.get('inner', []) if x.get('kind', '').endswith(('Expr', 'Operator', 'Literal', 'Cleanups'))
                 or x.get('kind') in ('ExprWithCleanups',)]
        tu = self.tu
        if t[0] == REF:
            lv = self.lv(inner[0])

            def run(fr):
                fr[i] = lv(fr)
            return run
        if not inner:
            def run(fr):
                fr[i] = zero(t, tu, True)
            return run
        e = self.init(inner[0], t)
        if t[0] in CLASSY or t[0] == ARR:
            def run(fr):
                fr[i] = e(fr)
        else:
            def run(fr):
                fr[i] = e(fr)
        return run

    def init(self, n, t):
        """Closure giving a new object of type t from its initialiser."""
        if t[0] in CLASSY or t[0] == ARR:
            e = self.rv(n)
            fresh = n['kind'] in ('CXXConstructExpr', 'InitListExpr', 'CXXTemporaryObjectExpr')
            return e if fresh else (lambda fr: copy(e(fr)))
        return self.rv(n)

    def s_IfStmt(self, n):
        inner = list(n['inner'])
        pre = None
        if n.get('hasInit'):
            pre = self.stmt(inner.pop(0))
        if n.get('hasVar'):
            v = self.stmt(inner.pop(0))
            pre = v if pre is None else (lambda a, b: lambda fr: (a(fr), b(fr)) and None)(pre, v)
        cond = self.rv(inner[0])
        a = self.stmt(inner[1])
        b = self.stmt(inner[2]) if len(inner) > 2 else None

        def run(fr):
            if pre is not None:
                pre(fr)
            if truth(cond(fr)):
                return a(fr)
            if b is not None:
                return b(fr)
            return None
        return run

    def _loop(self, cond, body, inc, first):
        tu = self.tu

        def run(fr):
            go = not first or truth(cond(fr))
            while go:
                tu.steps += 1
                if tu.steps > MAX_STEPS:
                    raise E.Unsupported('C++ step limit')
                r = body(fr)
                if r == BREAK:
                    break
                if r == RETURN:
                    return r
                if inc is not None:
                    inc(fr)
                go = cond is None or truth(cond(fr))
            return None
        return run

    def s_WhileStmt(self, n):
        inner = n['inner']
        if n.get('hasVar'):
            raise E.Unsupported('declaration in while')
        return self._loop(self.rv(inner[0]), self.stmt(inner[1]), None, True)

    def s_DoStmt(self, n):
        return self._loop(self.rv(n['inner'][1]), self.stmt(n['inner'][0]), None, False)

    def s_ForStmt(self, n):
        init, _var, cond, inc, body = (n['inner'] + [{}] * 5)[:5]
        init = self.stmt(init)
        c = self.rv(cond) if cond.get('kind') else None
        loop = self._loop(c, self.stmt(body), self.stmt(inc) if inc.get('kind') else None, c is not None)

        def run(fr):
            init(fr)
            return loop(fr)
        return run

    def s_CXXForRangeStmt(self, n):
        decls = [c for c in n['inner'] if c.get('kind') == 'DeclStmt']
        rng = decls[0]['inner'][0]
        var = decls[-1]['inner'][0]
        seq = self.lv(rng['inner'][0])
        t = self.tu.type(var['type'])
        vid = var['id']
        body = self.stmt(n['inner'][-1])

        def run(fr):
            v = seq(fr)
            if not isinstance(v, CVec):
                raise E.Unsupported('range for over something else than a vector')
            i = 0
            while i < len(v.items):
                x = v.items[v.index(i)]
                if t[0] == REF:
                    fr[vid] = x if v.t[0] in CLASSY else ElemRef(v, i)
                else:
                    fr[vid] = copy(x)
                r = body(fr)
                if r == BREAK:
                    break
                if r == RETURN:
                    return r
                i += 1
            return None
        return run

    def s_BreakStmt(self, n):
        return lambda fr: BREAK

    def s_ContinueStmt(self, n):
        return lambda fr: CONTINUE

    def s_ReturnStmt(self, n):
        inner = n.get('inner')
        if not inner:
            return lambda fr: RETURN
        t = self.tu.type(inner[0]['type'])
        byref = inner[0].get('valueCategory') == 'lvalue'
        e = self.lv(inner[0]) if byref else self.init(inner[0], t)

        def run(fr):
            fr['ret'] = e(fr)
            return RETURN
        return run

    def s_SwitchStmt(self, n):
        inner = list(n['inner'])
        cond = self.rv(inner[0])
        body = inner[-1]
        flat = []        # (labels, statement)

        def add(c):
            labels = []
            while c.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if c['kind'] == 'CaseStmt':
                    labels.append(self.rv(c['inner'][0]))
                else:
                    labels.append(None)
                c = c['inner'][-1]
            flat.append((labels, self.stmt(c)))
        for c in (body['inner'] if body['kind'] == 'CompoundStmt' else [body]):
            add(c)

        def run(fr):
            v = cond(fr)
            at = None
            for i, (labels, _) in enumerate(flat):
                for lab in labels:
                    if lab is not None and truth(compare('==', v, lab(fr))):
                        at = i
                        break
                if at is not None:
                    break
            if at is None:
                for i, (labels, _) in enumerate(flat):
                    if None in labels:
                        at = i
            if at is None:
                return None
            for _, s in flat[at:]:
                r = s(fr)
                if r == BREAK:
                    return None
                if r is not None:
                    return r
            return None
        return run

    def s_CXXTryStmt(self, n):
        raise E.Unsupported('try')

    # --------------------------------------------------------- expressions
    def rv(self, n):
        f = getattr(self, 'e_' + n['kind'], None)
        if f is None:
            raise E.Unsupported('C++ %s' % n['kind'])
        return f(n)

    def lv(self, n):
        """Closure giving a reference (scalars) or the object itself (class types)."""
        t = self.T(n)
        f = getattr(self, 'l_' + n['kind'], None)
        if f is not None:
            return f(n, t)
        e = self.rv(n)          # a temporary
        if t[0] in CLASSY or t[0] == ARR:
            return e

        def run(fr):
            return Box({'t': e(fr)}, 't', t)
        return run

    def passthrough(self, n):
        return self.rv(n['inner'][0])

    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = passthrough
    e_SubstNonTypeTemplateParmExpr = passthrough

    def e_ConstantExpr(self, n):
        return self.rv(n['inner'][0])

    def lpass(self, n, t):
        return self.lv(n['inner'][0])

    l_ParenExpr = l_ExprWithCleanups = l_MaterializeTemporaryExpr = l_CXXBindTemporaryExpr = lpass

    def e_IntegerLiteral(self, n):
        v = wrap(int(n['value']), self.T(n))
        return lambda fr: v

    e_CharacterLiteral = e_IntegerLiteral

    def e_CXXBoolLiteralExpr(self, n):
        v = bool(n['value'])
        return lambda fr: v

    def e_FloatingLiteral(self, n):
        v = float(n['value'])
        return lambda fr: v

    def e_CXXNullPtrLiteralExpr(self, n):
        return lambda fr: None

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_StringLiteral(self, n):
        v = cstr(json.loads(n['value']).encode('utf-8'))
        return lambda fr: v

    def e_ImplicitValueInitExpr(self, n):
        t, tu = self.T(n), self.tu
        return lambda fr: zero(t, tu)

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_InitListExpr(self, n):
        t, tu = self.T(n), self.tu
        if t[0] == REC:
            r = tu.record(t[1])
            subs = [self.rv(c) for c in n.get('inner', [])]
            if r.union:
                fld = n.get('field')

                def run(fr):
                    o = zero(t, tu)
                    if fld is not None and subs:
                        FieldRef(o, fld['name'], r.types[fld['name']]).set(subs[0](fr))
                    return o
                return run

            def run(fr):
                o = zero(t, tu)
                for (name, ft), e in zip(r.fields, subs):
                    o.f[name] = copy(e(fr)) if ft[0] in CLASSY else e(fr)
                return o
            return run
        if t[0] == ARR:
            items = n.get('inner')
            fill = n.get('array_filler')
            if items is None and fill is not None:
                items = [c for c in fill if c.get('kind') != 'ImplicitValueInitExpr']
            subs = [self.rv(c) for c in items or []]

            def run(fr):
                o = zero(t, tu)
                for i, e in enumerate(subs):
                    o.items[i] = e(fr)
                return o
            return run
        if len(n.get('inner', [])) == 1:
            return self.rv(n['inner'][0])
        if not n.get('inner'):
            return lambda fr: zero(t, tu)
        raise E.Unsupported('initialiser list of %s' % (t,))

    def e_CXXConstructExpr(self, n):
        t, tu = self.T(n), self.tu
        args = [c for c in n.get('inner', []) if c.get('kind') != 'CXXDefaultArgExpr']
        ctor = n.get('ctorType', {}).get('qualType', '')
        if t[0] == PTR and args:
            return self.rv(args[0])
        if t[0] not in CLASSY:
            raise E.Unsupported('construction of %s' % (t,))
        unset = n['kind'] == 'CXXConstructExpr' and t[0] == REC and not n.get('zeroing')
        if not args:
            return lambda fr: zero(t, tu, unset)
        if len(args) == 1 and self.T(args[0]) == t:
            e = self.rv(args[0])
            return lambda fr: copy(e(fr))
        if t[0] == VEC:
            es = [self.rv(a) for a in args]

            def run(fr):
                v = CVec(t[1], tu)
                a = [e(fr) for e in es]
                if isinstance(a[0], Ptr):
                    v.m_assign(a[0], a[1])
                else:
                    v.m_resize(*a)
                return v
            return run
        raise E.Unsupported('constructor %s' % ctor)

    def e_CXXTemporaryObjectExpr(self, n):
        return self.e_CXXConstructExpr(dict(n, kind='CXXTemporaryObjectExpr'))

    def e_CXXFunctionalCastExpr(self, n):
        return self.cast(n)

    def e_CStyleCastExpr(self, n):
        return self.cast(n)

    e_CXXStaticCastExpr = e_CXXReinterpretCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr = e_CStyleCastExpr

    def cast(self, n):
        ck = n['castKind']
        sub = n['inner'][0]
        t = self.T(n)
        if ck == 'LValueToRValue':
            if sub['kind'] == 'DeclRefExpr':
                return self.rv(sub)
            if t[0] in CLASSY:
                return self.lv(sub)
            lv = self.lv(sub)

            def run(fr):
                v = lv(fr).get()
                if v is UNSET:
                    raise Fault('uninitialised value used')
                return v
            return run
        if ck == 'NoOp':
            return self.rv(sub)
        if ck == 'ArrayToPointerDecay':
            if sub['kind'] == 'StringLiteral':
                return self.rv(sub)
            lv = self.lv(sub)
            return lambda fr: Ptr(lv(fr), 0, t[1])
        if ck == 'FunctionToPointerDecay':
            return self.rv(sub)
        if ck == 'ToVoid':
            return self.rv(sub)
        if ck == 'NullToPointer':
            return lambda fr: None
        if ck == 'ConstructorConversion':
            e = self.rv(sub)
            return e
        e = self.rv(sub)
        if ck == 'IntegralCast':
            if t[0] == BOOL:
                return lambda fr: as_bool(e(fr))
            return lambda fr: wrap(e(fr), t)
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            return lambda fr: as_bool(e(fr))
        if ck in ('IntegralToFloating',):
            return lambda fr: shims.float_(e(fr))
        if ck == 'FloatingToIntegral':
            return lambda fr: wrap(shims.int_(e(fr)), t)
        if ck == 'FloatingCast':
            if n['type'].get('desugaredQualType', n['type']['qualType']).endswith('float'):
                raise E.Unsupported('float')
            return e
        if ck in ('BitCast', 'LValueBitCast'):
            if t[0] == PTR:
                def run(fr):
                    p = e(fr)
                    return p if p is None else p.cast(t[1])
                return run
        raise E.Unsupported('cast %s' % ck)

    def l_ImplicitCastExpr(self, n, t):
        ck = n['castKind']
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase'):
            return self.lv(n['inner'][0])
        e = self.rv(n)
        if t[0] in CLASSY:
            return e
        return lambda fr: Box({'t': e(fr)}, 't', t)

    l_CXXStaticCastExpr = l_CStyleCastExpr = l_CXXConstCastExpr = l_ImplicitCastExpr

    # -- names
    def e_DeclRefExpr(self, n):
        d = n['referencedDecl']
        i = d['id']
        if d['kind'] == 'EnumConstantDecl':
            v = self.tu.enums[i] if i in self.tu.enums else self.tu.enums[d['name']]
            return lambda fr: v
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return lambda fr: d
        t = self.tu.type(d['type'])
        if i in self.tu.gdecl or d['kind'] != 'ParmVarDecl' and d.get('name') in ('stderr', 'stdout'):
            return self.global_value(d, t)
        if t[0] == REF:
            if t[1][0] in CLASSY or t[1][0] == ARR:
                return lambda fr: fr[i]

            def run(fr):
                v = fr[i].get()
                if v is UNSET:
                    raise Fault('uninitialised value used')
                return v
            return run
        if t[0] in CLASSY or t[0] == ARR:
            return lambda fr: fr[i]

        def run(fr):
            v = fr[i]
            if v is UNSET:
                raise Fault('uninitialised value used')
            return v
        return run

    def global_value(self, d, t):
        if d.get('name') in ('stderr', 'stdout'):
            return lambda fr: None
        g = self.tu.gdecl[d['id']]
        if 'const' not in g['type']['qualType'] and not g.get('constexpr'):
            raise E.Unsupported('global variable %s' % g['name'])
        inner = [x for x in g.get('inner', []) if 'kind' in x]
        if not inner:
            raise E.Unsupported('global variable %s' % g['name'])
        e = self.init(inner[0], t)
        tu = self.tu

        def run(fr):
            if g['id'] not in tu.globals:
                tu.globals[g['id']] = e({})
            return tu.globals[g['id']]
        return run

    def l_DeclRefExpr(self, n, t):
        d = n['referencedDecl']
        i = d['id']
        if i in self.tu.gdecl:
            e = self.global_value(d, t)
            if t[0] in CLASSY or t[0] == ARR:
                return e
            return lambda fr: Box({'t': e(fr)}, 't', t)
        dt = self.tu.type(d['type'])
        if t[0] in CLASSY or t[0] == ARR or dt[0] == REF:
            return lambda fr: fr[i]
        return lambda fr: Box(fr, i, t)

    def e_CXXThisExpr(self, n):
        return lambda fr: Ptr(fr['this'], 0, (REC, fr['this'].rec.name))

    def owner(self, n):
        """Closure giving the object a member expression is about."""
        sub = n['inner'][0]
        if n.get('isArrow'):
            e = self.rv(sub)

            def run(fr):
                p = e(fr)
                if p is None:
                    raise Fault('null pointer used')
                if p.__class__ is Ptr:
                    return p.obj()
                if p is UNSET:
                    raise Fault('uninitialised value used')
                return p
            return run
        return self.lv(sub)

    def l_MemberExpr(self, n, t):
        own = self.owner(n)
        name = n['name']
        if t[0] in CLASSY or t[0] == ARR:
            def run(fr):
                o = own(fr)
                o.live()
                return o.f[name]
            return run
        return lambda fr: FieldRef(own(fr), name, t)

    def e_MemberExpr(self, n):
        t = self.T(n)
        lv = self.l_MemberExpr(n, t)
        if t[0] in CLASSY or t[0] == ARR:
            return lv

        def run(fr):
            v = lv(fr).get()
            if v is UNSET:
                raise Fault('uninitialised value used')
            return v
        return run

    def element(self, base, idx, t):
        def run(fr):
            b, i = base(fr), idx(fr)
            if isinstance(b, Ptr):
                p = b.add(i)
                return p.load() if t[0] in CLASSY else PtrRef(p)
            if t[0] in CLASSY:
                return b.items[b.index(i)]
            return ElemRef(b, i)
        return run

    def l_ArraySubscriptExpr(self, n, t):
        return self.element(self.rv(n['inner'][0]), self.rv(n['inner'][1]), t)

    def e_ArraySubscriptExpr(self, n):
        return self.load(self.l_ArraySubscriptExpr(n, self.T(n)), self.T(n))

    def load(self, lv, t):
        if t[0] in CLASSY or t[0] == ARR:
            return lv

        def run(fr):
            v = lv(fr).get()
            if v is UNSET:
                raise Fault('uninitialised value used')
            return v
        return run

    # -- operators
    def e_UnaryOperator(self, n):
        op = n['opcode']
        sub = n['inner'][0]
        t = self.T(n)
        if op == '&':
            return self.address(sub, t)
        if op == '*':
            return self.load(self.l_UnaryOperator(n, t), t)
        if op in ('++', '--'):
            lv = self.lv(sub)
            d = 1 if op == '++' else -1
            post = n.get('isPostfix')
            return self.incdec(lv, d, post)
        e = self.rv(sub)
        if op == '-':
            return (lambda fr: wrap(-e(fr), t)) if t[0] == INT else (lambda fr: -e(fr))
        if op == '+':
            return e
        if op == '~':
            return lambda fr: wrap(~e(fr), t)
        if op == '!':
            def run(fr):
                v = as_bool(e(fr))
                return V.neg(v) if isinstance(v, SymBool) else not v
            return run
        raise E.Unsupported('operator %s' % op)

    def incdec(self, lv, d, post):
        def run(fr):
            r = lv(fr)
            v = r.get()
            if v is UNSET:
                raise Fault('uninitialised value used')
            w = v.add(d) if isinstance(v, Ptr) else wrap(v + d, r.t)
            r.set(w)
            return v if post else w
        return run

    def address(self, sub, t):
        while sub['kind'] in ('ParenExpr',):
            sub = sub['inner'][0]
        et = t[1] if t[0] == PTR else self.T(sub)
        if sub['kind'] == 'CXXOperatorCallExpr' and self.opname(sub) == 'operator[]':
            base, idx = self.lv(sub['inner'][1]), self.rv(sub['inner'][2])

            def run(fr):
                b = base(fr)
                b.live()
                return Ptr(b, concrete(idx(fr), 'index'), b.t)
            return run
        if sub['kind'] == 'ArraySubscriptExpr':
            base, idx = self.rv(sub['inner'][0]), self.rv(sub['inner'][1])
            return lambda fr: base(fr).add(idx(fr))
        if sub['kind'] == 'UnaryOperator' and sub['opcode'] == '*':
            return self.rv(sub['inner'][0])
        lv = self.lv(sub)
        return lambda fr: mkptr(lv(fr), et)

    def l_UnaryOperator(self, n, t):
        op = n['opcode']
        if op == '*':
            e = self.rv(n['inner'][0])

            def run(fr):
                p = e(fr)
                if p is None:
                    raise Fault('null pointer used')
                return p.load() if t[0] in CLASSY else PtrRef(p)
            return run
        if op in ('++', '--'):
            lv = self.lv(n['inner'][0])
            step = self.incdec(lv, 1 if op == '++' else -1, False)

            def run(fr):
                step(fr)
                return lv(fr)
            return run
        raise E.Unsupported('lvalue of %s' % op)

    def e_BinaryOperator(self, n):
        op = n['opcode']
        a, b = n['inner']
        if op == ',':
            x, y = self.rv(a), self.rv(b)

            def run(fr):
                x(fr)
                return y(fr)
            return run
        if op == '=':
            return self.load(self.l_BinaryOperator(n, self.T(n)), self.T(n))
        if op == '&&':
            x, y = self.rv(a), self.rv(b)
            return lambda fr: truth(x(fr)) and truth(y(fr))
        if op == '||':
            x, y = self.rv(a), self.rv(b)
            return lambda fr: truth(x(fr)) or truth(y(fr))
        x, y = self.rv(a), self.rv(b)
        if op in _CMP:
            return lambda fr: compare(op, x(fr), y(fr))
        t = self.T(n)
        if t[0] == PTR:
            def run(fr):
                p, q = x(fr), y(fr)
                if not isinstance(p, Ptr):
                    p, q = q, p
                return p.add(q if op == '+' else -q)
            return run
        if self.T(a)[0] == PTR:
            def run(fr):
                p, q = x(fr), y(fr)
                if p.base is not q.base:
                    raise Fault('difference of pointers into different objects')
                return p.off - q.off
            return run
        return lambda fr: arith(op, x(fr), y(fr), t)

    def l_BinaryOperator(self, n, t):
        op = n['opcode']
        if op == '=':
            lv, e = self.lv(n['inner'][0]), self.rv(n['inner'][1])

            def run(fr):
                v = e(fr)
                r = lv(fr)
                r.set(v)
                return r
            return run
        if op == ',':
            x, y = self.rv(n['inner'][0]), self.lv(n['inner'][1])

            def run(fr):
                x(fr)
                return y(fr)
            return run
        raise E.Unsupported('lvalue of %s' % op)

    def l_CompoundAssignOperator(self, n, t):
        op = n['opcode'][:-1]
        lv, e = self.lv(n['inner'][0]), self.rv(n['inner'][1])
        ct = self.tu.type(n.get('computeResultType') or n['type'])

        def run(fr):
            r = lv(fr)
            w = e(fr)
            v = r.get()
            if v is UNSET:
                raise Fault('uninitialised value used')
            if isinstance(v, Ptr):
                r.set(v.add(w if op == '+' else -w))
                return r
            if ct[0] == INT and op not in ('<<', '>>'):
                v = wrap(v, ct)
            x = arith(op, v, w, ct)
            if r.t[0] == INT:
                x = wrap(shims.int_(x) if ct[0] == DBL else x, r.t)
            elif r.t[0] == BOOL:
                x = as_bool(x)
            r.set(x)
            return r
        return run

    def e_CompoundAssignOperator(self, n):
        return self.load(self.l_CompoundAssignOperator(n, self.T(n)), self.T(n))

    def e_ConditionalOperator(self, n):
        c, a, b = [self.rv(x) for x in n['inner']]
        return lambda fr: a(fr) if truth(c(fr)) else b(fr)

    def l_ConditionalOperator(self, n, t):
        c = self.rv(n['inner'][0])
        a, b = self.lv(n['inner'][1]), self.lv(n['inner'][2])
        return lambda fr: a(fr) if truth(c(fr)) else b(fr)

    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') != 'sizeof':
            raise E.Unsupported(n.get('name'))
        t = self.tu.type(n['argType']) if 'argType' in n else self.T(n['inner'][0])
        v = size_of(t)
        return lambda fr: v

    # -- calls
    def opname(self, n):
        f = n['inner'][0]
        while 'referencedDecl' not in f:
            f = f['inner'][0]
        return f['referencedDecl']['name']

    def args(self, nodes, ptypes=None):
        out = []
        for c in nodes:
            if c.get('kind') == 'CXXDefaultArgExpr':
                continue
            if c.get('valueCategory') in ('lvalue', 'xvalue') or c['kind'] == 'MaterializeTemporaryExpr':
                out.append(self.lv(c))
            else:
                out.append(self.init(c, self.T(c)))
        return out

    def call_raw(self, n):
        f = n['inner'][0]
        while 'referencedDecl' not in f:
            if not f.get('inner'):
                raise E.Unsupported('indirect call')
            f = f['inner'][0]
        d = f['referencedDecl']
        if d['kind'] != 'FunctionDecl':
            raise E.Unsupported('indirect call')
        tu = self.tu
        args = self.args(n['inner'][1:])
        name = d['name']
        decl = tu.fns.get(d['id'])
        if decl is None or not body_of(decl):
            decl = tu.fn_name.get(name)
        if decl is not None and body_of(decl):
            return lambda fr: tu.invoke(decl, [a(fr) for a in args])
        nat = NATIVE.get(name)
        if nat is None:
            raise E.Unsupported('C++ function %s' % name)
        rt = self.T(n)
        return lambda fr: nat(rt, *[a(fr) for a in args])

    def e_CallExpr(self, n):
        c = self.call_raw(n)
        t = self.T(n)
        if n.get('valueCategory') == 'lvalue' and not (t[0] in CLASSY):
            return self.load(c, t)
        return c

    def l_CallExpr(self, n, t):
        c = self.call_raw(n)
        if n.get('valueCategory') == 'lvalue' or t[0] in CLASSY:
            return c
        return lambda fr: Box({'t': c(fr)}, 't', t)

    def member_raw(self, n):
        m = n['inner'][0]
        while m['kind'] == 'ParenExpr':
            m = m['inner'][0]
        own = self.owner(m)
        name = m['name']
        args = self.args(n['inner'][1:])
        rid = m.get('referencedMemberDecl')
        tu = self.tu

        def run(fr):
            o = own(fr)
            a = [x(fr) for x in args]
            if isinstance(o, CStruct):
                d = tu.fns.get(rid) or tu.fn_name.get('%s::%s' % (o.rec.name, name))
                if d is not None:
                    return tu.invoke(d, a, o)
                if name == 'operator=':
                    o.assign(a[0])
                    return o
            if isinstance(o, (CUnion,)) and name == 'operator=':
                o.assign(a[0])
                return o
            if not isinstance(o, CVec):
                raise E.Unsupported('method %s' % name)
            o.live()
            a = [x.get() if isinstance(x, (Box, FieldRef, ElemRef, PtrRef)) else x for x in a]
            if name in ('front', 'back', 'at', 'operator[]'):
                i = a[0] if name in ('at', 'operator[]') else 0 if name == 'front' else len(o.items) - 1
                if o.t[0] in CLASSY:
                    return o.items[o.index(i)]
                return ElemRef(o, i)
            f = getattr(o, 'm_' + name, None)
            if name == 'operator=':
                o.assign(a[0])
                return o
            if f is None:
                raise E.Unsupported('vector::%s' % name)
            return f(*a)
        return run

    def e_CXXMemberCallExpr(self, n):
        t = self.T(n)
        c = self.member_raw(n)
        if n.get('valueCategory') == 'lvalue' and not t[0] in CLASSY:
            return self.load(c, t)
        return c

    def l_CXXMemberCallExpr(self, n, t):
        c = self.member_raw(n)
        if n.get('valueCategory') == 'lvalue' or t[0] in CLASSY:
            return c
        return lambda fr: Box({'t': c(fr)}, 't', t)

    def l_CXXOperatorCallExpr(self, n, t):
        op = self.opname(n)
        if op == 'operator[]':
            return self.element(self.lv(n['inner'][1]), self.rv(n['inner'][2]), t)
        if op == 'operator=':
            a, b = self.lv(n['inner'][1]), self.lv(n['inner'][2])

            def run(fr):
                v = b(fr)
                r = a(fr)
                if isinstance(r, (CStruct, CVec, CUnion)):
                    r.assign(v)
                else:
                    r.set(v.get())
                return r
            return run
        if op == 'operator*':
            e = self.rv(n['inner'][1])

            def run(fr):
                p = e(fr)
                return p.load() if t[0] in CLASSY else PtrRef(p)
            return run
        if op in ('operator++', 'operator--'):
            lv = self.lv(n['inner'][1])
            step = self.incdec(lv, 1 if op.endswith('++') else -1, False)

            def run(fr):
                step(fr)
                return lv(fr)
            return run
        raise E.Unsupported(op)

    def e_CXXOperatorCallExpr(self, n):
        op = self.opname(n)
        t = self.T(n)
        if op in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
            x, y = self.rv(n['inner'][1]), self.rv(n['inner'][2])
            return lambda fr: compare(op[8:], x(fr), y(fr))
        if op in ('operator++', 'operator--') and len(n['inner']) == 3:
            return self.incdec(self.lv(n['inner'][1]), 1 if op.endswith('++') else -1, True)
        if op in ('operator+', 'operator-'):
            x, y = self.rv(n['inner'][1]), self.rv(n['inner'][2])

            def run(fr):
                p, q = x(fr), y(fr)
                if isinstance(q, Ptr):
                    return p.off - q.off
                return p.add(q if op.endswith('+') else -q)
            return run
        if op == 'operator->':
            return self.rv(n['inner'][1])
        return self.load(self.l_CXXOperatorCallExpr(n, t), t)


def mkptr(o, t):
    if isinstance(o, ElemRef):
        return Ptr(o.vec, concrete(o.i, 'index'), o.vec.t)
    if isinstance(o, PtrRef):
        return o.p
    return Ptr(o, 0, t)


def val(x):
    return x.get() if isinstance(x, (Box, FieldRef, ElemRef, PtrRef)) else x


def n_memcpy(rt, dst, src, n):
    n = concrete(n, 'size')
    u8 = (INT, 8, False)
    d, s = dst, src
    data = []
    q = s.cast(u8)
    for i in range(n):
        data.append(q.add(i).load())
    if d.base.__class__ is CVec and size_of(d.base.t) == 1 or d.base.__class__ is not CVec:
        q = d.cast(u8)
        for i in range(n):
            q.add(i).store(data[i])
    else:
        raise E.Unsupported('memcpy to a vector of wider elements')
    return dst


def n_memset(rt, dst, v, n):
    n = concrete(n, 'size')
    q = dst.cast((INT, 8, False))
    for i in range(n):
        q.add(i).store(wrap(v, (INT, 8, False)))
    return dst


def n_memcmp(rt, a, b, n):
    for i in range(concrete(n, 'size')):
        x, y = a.cast((INT, 8, False)).add(i).load(), b.cast((INT, 8, False)).add(i).load()
        if truth(x != y):
            return -1 if truth(x < y) else 1
    return 0


def n_strcmp(rt, a, b):
    x, y = cstr_bytes(a), cstr_bytes(b)
    return 0 if truth(x == y) else 1


def n_pow(rt, a, b):
    if not V.is_sym(a) and a == 10 and (isinstance(b, SymInt) or float(b) == int(b)):
        r = shims.pow_(10, b if isinstance(b, SymInt) else int(b))
        if V.is_sym(r):
            return r
        try:
            return float(r)
        except OverflowError:
            return float('inf')
    return shims.pow_(a, b)


def n_minmax(less):
    def f(rt, a, b):
        x, y = val(a), val(b)
        pick = b if truth(y < x if less else x < y) else a
        return pick if isinstance(pick, (Box, FieldRef, ElemRef, PtrRef)) else Box({'t': pick}, 't', rt)
    return f


NATIVE = {
    'fprintf': lambda rt, *a: 0, 'printf': lambda rt, *a: 0, 'fputs': lambda rt, *a: 0, 'puts': lambda rt, *a: 0,
    'fflush': lambda rt, *a: 0,
    'pow': n_pow, 'memcpy': n_memcpy, 'memmove': n_memcpy, 'memset': n_memset, 'memcmp': n_memcmp,
    '__builtin_memcpy': n_memcpy, 'strcmp': n_strcmp, 'strlen': lambda rt, p: strlen(p),
    'min': n_minmax(True), 'max': n_minmax(False), 'move': lambda rt, x: x, 'abs': lambda rt, x: abs(x),
}


# --------------------------------------------------------------------- clang
MARK = '__symx_mark'


def dump(path, clang='clang++'):
    """Declarations of a C++ source file from clang's JSON tree (those of its headers left out)."""
    with open(path) as f:
        inc = [x.strip() for x in f if x.strip().startswith('#include') and '<' in x]
    tmp = tempfile.mkdtemp(prefix='symx-cxx-')
    try:
        main = os.path.join(tmp, 'tu.cpp')
        with open(main, 'w') as f:
            f.write('#include <stdint.h>\n#include <stdio.h>\n#include <string.h>\n#include <stdlib.h>\n'
                    '#include <vector>\n' + '\n'.join(inc) +
                    '\nint %s;\n#include "%s"\n' % (MARK, path))
        p = subprocess.run([clang, '-std=c++14', '-w', '-fsyntax-only', '-Xclang', '-ast-dump=json', main],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode:
            raise E.Unsupported('clang: ' + p.stderr.decode('utf-8', 'replace')[:400])
        tops = json.loads(p.stdout)['inner']
    finally:
        for x in os.listdir(tmp):
            os.unlink(os.path.join(tmp, x))
        os.rmdir(tmp)
    at = [i for i, d in enumerate(tops) if d.get('name') == MARK][0]
    return [strip(d) for d in tops[at + 1:]]


_DROP = {'loc', 'range', 'mangledName', 'definitionData', 'isUsed', 'isReferenced'}


def strip(d):
    if isinstance(d, dict):
        if d.get('kind') in ('CXXConstructorDecl', 'CXXDestructorDecl') and d.get('isImplicit'):
            return {'kind': d['kind'], 'isImplicit': True}
        if d.get('kind') == 'CXXMethodDecl' and d.get('isImplicit'):
            return {'kind': d['kind'], 'isImplicit': True}
        return {k: strip(v) for k, v in d.items() if k not in _DROP}
    if isinstance(d, list):
        return [strip(x) for x in d]
    return d
