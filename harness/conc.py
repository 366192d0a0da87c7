"""Concrete twin of symx.api.S: replays recorded inputs on the real package."""
from __future__ import print_function
import io
import os
import struct
import sys
import time
import datetime
import importlib
import tempfile
import uuid as _uuid


class AssumeFailed(Exception):
    pass


class Result(object):
    def __init__(self, ok, value, exc):
        self.ok, self.value, self.exc = ok, value, exc

    @property
    def exc_name(self):
        return type(self.exc).__name__ if self.exc is not None else None


class S(object):
    symbolic = False

    def __init__(self, case, known_ids, tmp):
        self.inp = case['inputs']
        self.known_ids = known_ids
        self.tmp = tmp
        self.failed = []
        self.known = []
        self.obs_l = []
        self.nfiles = 0
        self.covers = {}

    def mod(self, name):
        return importlib.import_module('avb.' + name)

    def _g(self, name):
        return self.inp[name]

    def int(self, name, lo, hi): return self._g(name)
    def u(self, name, bits): return self._g(name)
    def i(self, name, bits): return self._g(name)
    def z(self, name, lo=None, hi=None): return self._g(name)

    def dyadic(self, name, lo, hi, den=4):
        n, d = self._g(name)
        return n / float(d)

    def real(self, name, lo, hi): return float(self._g(name))
    def rounding(self, on=True): pass

    def decimal(self, name, digits, maxint):
        n, d = self._g(name)
        return float('%de-%d' % (n, d)) if d else float(n)

    def bool(self, name): return bool(self._g(name))
    def bytes(self, name, n): return bytes(bytearray(self._g(name)))
    def bytearray(self, name, n): return bytearray(self._g(name))

    def text(self, name, n, codec='mac_roman', nonul=True):
        v = self._g(name)
        if codec in ('utf-8', 'ascii'):
            return u''.join(chr(c) for c in v)
        return bytes(bytearray(v)).decode(codec)

    def double(self, name): return struct.unpack('>d', struct.pack('>Q', self._g(name)))[0]
    def uuid(self, name): return _uuid.UUID(bytes=bytes(bytearray(self._g(name))))

    def mobid(self, name):
        m = self.mod('mobid').MobID()
        m.bytes_le = bytearray(self._g(name))
        return m

    def datetime(self, name): return datetime.datetime.fromtimestamp(self._g(name))

    def choice(self, name, options):
        return list(options)[self._g(name)]

    def memo(self, key, fn): return fn()

    def stream(self, data=b''): return io.BytesIO(bytes(data))

    def exact(self, data):
        """The bytes in a block of memory of their own."""
        import ctypes
        libc = ctypes.CDLL(None)
        libc.malloc.restype, libc.malloc.argtypes = ctypes.c_void_p, [ctypes.c_size_t]
        at = libc.malloc(max(len(data), 1))
        ctypes.memmove(at, bytes(data), len(data))
        return (ctypes.c_ubyte * len(data)).from_address(at)

    def pack_le(self, v, n): return (int(v) & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')

    def pack(self, v, n, big):
        return (int(v) & ((1 << (8 * n)) - 1)).to_bytes(n, 'big' if big else 'little')

    def double_bits(self, v): return struct.unpack('>Q', struct.pack('>d', v))[0]
    def timestamp(self, dt): return int(dt.timestamp())
    def join(self, parts): return b''.join(bytes(p) for p in parts)
    def encode_text(self, s, codec): return s.encode(codec)
    def conj(self, cs): return all(cs)
    def disj(self, cs): return any(cs)
    def neg(self, c): return not c
    def ite(self, c, a, b): return a if c else b
    def same(self, a, b): return same(a, b)
    def is_datetime(self, v): return isinstance(v, datetime.datetime)

    def attempt(self, fn, *a, **k):
        try:
            return Result(True, fn(*a, **k), None)
        except Exception as e:
            return Result(False, None, e)

    def new_file(self, path='out.avb'):
        return os.path.join(self.tmp, path)

    def read_file(self, path):
        with open(path, 'rb') as f:
            return f.read()

    def write_file(self, path, data):
        with open(path, 'wb') as f:
            f.write(data)

    def hash_of(self, o): return hash(o)
    def ord_list(self, st): return [ord(c) for c in st]

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def cover(self, tag): self.covers[tag] = self.covers.get(tag, 0) + 1
    def obs(self, name, v): self.obs_l.append([name, conc(v)])

    def check(self, c, msg, known=()):
        if c:
            return
        for k, r in known:
            if k in self.known_ids and r:
                self.known.append(k)
                return
        self.failed.append(msg)

    def fail(self, msg, known=()):
        self.check(False, msg, known)

    def flush(self):
        pass


def conc(v):
    if v is None or isinstance(v, (bool, int)):
        return v
    if isinstance(v, float):
        return ['f', v]
    if isinstance(v, (bytes, bytearray)):
        return ['b', list(v)]
    if isinstance(v, str):
        return ['s', [ord(c) for c in v]]
    if isinstance(v, _uuid.UUID):
        return ['u', list(v.bytes)]
    if isinstance(v, (list, tuple)):
        return ['l', [conc(x) for x in v]]
    if isinstance(v, BaseException):
        return ['e', type(v).__name__]
    return ['o', type(v).__name__]


def same(a, b):
    if a is b:
        return True
    if isinstance(a, datetime.datetime) and isinstance(b, datetime.datetime):
        return a.timestamp() == b.timestamp()
    if isinstance(a, bool) or isinstance(b, bool):
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            return False
        return a == b
    if isinstance(a, float) and isinstance(b, float):
        return struct.pack('>d', a) == struct.pack('>d', b) or a == b
    if isinstance(a, (bytes, bytearray)):
        return isinstance(b, (bytes, bytearray)) and bytes(a) == bytes(b)
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)):
            return False
        a, b = list(a), list(b)
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and len(a) == len(b) and all(k in b and same(a[k], b[k]) for k in a.keys())
    if type(a).__name__ == 'MobID' and type(b).__name__ == 'MobID':
        return a.bytes_le == b.bytes_le
    return bool(a == b)
