"""The compiled accelerator (_ext.pyx + _ext_core.cpp) as a module of the symbolic package.

prepare() runs in the parent before the jobs are forked: clang's tree of the C++
file is loaded (cxx.TU) and the .pyx module is translated by pyx_emit.py.  The
module that loader() returns is that translation, executed over the runtime
below.  replay_opts() builds the real extension with AddressSanitizer from a
scratch copy of the sources; counterexamples are replayed on it.
"""
import ast
import os
import shutil
import subprocess
import sys
import types
from . import cxx
from . import engine as E
from . import shims
from . import values as V
from .cxx import CStruct, CVec, CUnion, Ptr, Buf, FieldRef, UNSET, Fault, INT, BOOL, DBL, VOID, PTR, REC, VEC

SRC = '/repo/src'
PKG = os.path.join(SRC, 'avb')
PYPY = '/opt/venv-ext/bin/python'
HERE = os.path.dirname(os.path.abspath(__file__))

_STATE = {}


def emit():
    env = dict(os.environ)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    p = subprocess.run([PYPY, os.path.join(HERE, 'pyx_emit.py'), os.path.join(PKG, '_ext.pyx'), 'avb._ext', SRC],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=300, cwd='/')
    if p.returncode:
        raise E.Unsupported('translation of _ext.pyx failed: %s' % p.stderr.decode('utf-8', 'replace')[-400:])
    return p.stdout.decode('utf-8')


def core_path():
    """The C++ file the .pyx includes."""
    import re
    with open(os.path.join(PKG, '_ext.pyx')) as f:
        m = re.search(r'cdef\s+extern\s+from\s+"([^"]+\.(?:cpp|h|hpp|cc|cxx))"', f.read())
    if not m:
        raise E.Unsupported('no C++ source named in _ext.pyx')
    return os.path.join(PKG, m.group(1))


def prepare():
    if _STATE:
        return
    try:
        from .loader import Rewrite
        text = emit()
        tu = cxx.TU.load(core_path())
        for d in list(tu.fn_name.values()):
            try:
                tu.compiled[d['id']] = tu.compile_fn(d)
            except E.Unsupported:
                pass          # raised again when it is called
        path = os.path.join(PKG, '_ext.pyx')
        tree = ast.parse(text, path)
        tree = ast.fix_missing_locations(Rewrite().visit(tree))
        _STATE['code'] = compile(tree, path, 'exec', dont_inherit=True)
        _STATE['tu'] = tu
        _STATE['text'] = text
    except Exception as e:
        _STATE['error'] = '%s: %s' % (type(e).__name__, e)


def loader(job):
    prepare()

    def load(pkg):
        if 'error' in _STATE:
            raise E.Unsupported('accelerator: ' + _STATE['error'])
        m = types.ModuleType('avb._ext')
        m.__file__ = os.path.join(PKG, '_ext.pyx')
        m.__package__ = 'avb'
        m.__dict__['__builtins__'] = pkg.builtins
        rt = Runtime(_STATE['tu'])
        m.__dict__['__pyx_rt__'] = rt
        exec(_STATE['code'], m.__dict__)
        pkg.files.append(os.path.join(PKG, '_ext.pyx'))
        pkg.files.append(core_path())
        return m
    return load


def called():
    return sorted(_STATE['tu'].called) if 'tu' in _STATE else []


def fix(t):
    return tuple(fix(x) if isinstance(x, tuple) else x for x in t)


class Runtime(object):
    """C values in translated Cython code."""

    def __init__(self, tu):
        self.tu = tu
        tu.start()
        self.UNSET = UNSET

    def unsupported(self, why):
        raise E.Unsupported(why)

    def new(self, t):
        if t[0] in (VEC, REC):
            return cxx.zero(t, self.tu, True)
        return UNSET

    copy = staticmethod(cxx.copy)
    wrap = staticmethod(cxx.wrap)

    def assign(self, var, v):
        var.assign(self.rec(v))

    def rec(self, v):
        if isinstance(v, Ptr):
            return v.obj()
        if v is None or v is UNSET:
            raise Fault('null or uninitialised object')
        return v

    def enum(self, name):
        v = self.tu.enums.get(name)
        if v is None:
            raise E.Unsupported('enumerator %s' % name)
        return v

    def cstr(self, data):
        return cxx.cstr(data)

    # -- conversions
    def to_py(self, v, t, want):
        if v is UNSET:
            raise Fault('uninitialised value used')
        if t[0] == BOOL:
            return cxx.as_bool(v)
        if t[0] == VEC:
            v = self.rec(v)
            v.live()
            return [self.to_py(x, t[1], 'object') for x in v.items]
        if t[0] == PTR:
            if t[1][0] != INT or t[1][1] != 8:
                raise E.Unsupported('pointer as a Python object')
            b = cxx.cstr_bytes(v)
            if want == 'unicode':
                return b.decode('utf-8')
            return shims.bytearray_(b) if want == 'bytearray' else b
        if t[0] == REC:
            raise E.Unsupported('structure as a Python object')
        if t[0] == INT and isinstance(v, (bool, V.SymBool)):
            return cxx.wrap(v, t)
        return v

    def from_py(self, v, t):
        if t[0] == INT:
            bits, signed = t[1], t[2]
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
            if isinstance(v, (bool, V.SymBool)):
                return cxx.wrap(v, t)
            if not isinstance(v, (int, V.SymInt)):
                raise TypeError('an integer is required')
            if cxx.truth(V.disj([v < lo, v > hi])):
                raise OverflowError('value too large to convert')
            return v
        if t[0] == DBL:
            return shims.float_(v)
        if t[0] == PTR and v is None:
            raise TypeError('expected bytes, NoneType found')
        if t[0] == PTR:
            return cxx.Ptr(Buf(list(V.items_of(v)) + [0], 'string'), 0, t[1])
        if t[0] == VEC:
            o = CVec(t[1], self.tu)
            o.items = [self.from_py(x, t[1]) for x in v]
            o.cap = len(o.items)
            return o
        raise E.Unsupported('C value %s from Python' % (t,))

    def cast(self, v, ta, t):
        if v is UNSET:
            raise Fault('uninitialised value used')
        if t[0] == PTR:
            return v.cast(t[1]) if isinstance(v, Ptr) else v
        if t[0] == INT:
            if ta[0] == DBL:
                raise E.Unsupported('double to integer')
            return cxx.wrap(v, t)
        if t[0] == DBL and ta[0] == INT:
            raise E.Unsupported('integer to double')
        return v

    def truth(self, v):
        if isinstance(v, (Ptr, bool, V.SymBool, int, V.SymInt)) or v is UNSET or v is None:
            return cxx.truth(v)
        return bool(v)

    def as_bool(self, v):
        return cxx.as_bool(v)

    def sizeof(self, t):
        return cxx.size_of(t)

    # -- operators
    def cmp(self, op, a, b, t):
        if t is not None and t[0] == INT:
            a, b = cxx.wrap(a, t), cxx.wrap(b, t)
        return cxx.compare(op, a, b)

    def arith(self, op, a, b, t, cdivision):
        if op in ('/', '//', '%') and not cdivision:
            if cxx.truth(b == 0):
                raise ZeroDivisionError('integer division or modulo by zero')
            if t[0] == INT:
                return cxx.wrap(a // b if op != '%' else a % b, t)
        if op == '//':
            op = '/'
        if t[0] == INT:
            a, b = cxx.wrap(a, t), cxx.wrap(b, t)
        return cxx.arith(op, a, b, t)

    def ptr_arith(self, op, a, b):
        if isinstance(b, Ptr):
            if isinstance(a, Ptr) and op == '-':
                if a.base is not b.base:
                    raise Fault('difference of pointers into different objects')
                return a.off - b.off
            a, b = b, a
        if not isinstance(a, Ptr):
            raise Fault('arithmetic on a null pointer')
        return a.add(b if op == '+' else -b)

    # -- access
    def field(self, o, name, t):
        o = self.rec(o)
        if isinstance(o, FieldRef):
            o = o.get()
        if not isinstance(o, (CStruct, CUnion)):
            raise E.Unsupported('field of %s' % type(o).__name__)
        return FieldRef(o, name, t).get()

    def set_field(self, o, name, t, v):
        o = self.rec(o)
        if t is not None and t[0] in (REC, VEC):
            FieldRef(o, name, t).get().assign(self.rec(v))
            return
        if isinstance(o, CStruct):
            ft = dict(o.rec.fields).get(name)
            if ft is not None and ft[0] == BOOL:
                v = cxx.as_bool(v)
        FieldRef(o, name, t).set(v)

    def elem(self, b, i):
        if isinstance(b, CVec):
            i = b.index(i)
            return b.items[i]
        if isinstance(b, Ptr):
            return b.add(i).load()
        raise Fault('index of a null pointer')

    def set_elem(self, b, i, v):
        if isinstance(b, CVec):
            i = b.index(i)
            if b.t[0] in (REC, VEC):
                b.items[i].assign(self.rec(v))
            else:
                b.items[i] = v
            return
        b.add(i).store(v)

    def addr_elem(self, b, i, t):
        if isinstance(b, CVec):
            b.live()
            return Ptr(b, cxx.concrete(i, 'index'), t)
        return b.add(i)

    def addr(self, o, t):
        if isinstance(o, Ptr):
            return o
        return Ptr(o, 0, t)

    def addr_field(self, o, name, t):
        return Ptr(FieldRef(self.rec(o), name, t), 0, t)

    def iterate(self, v):
        v = self.rec(v)
        v.live()
        gen, i = v.gen, 0
        while i < len(v.items):
            if v.gen != gen:
                raise Fault('iterator of a vector that has been reallocated')
            yield v.items[i]
            i += 1

    def method(self, o, name, args):
        o = self.rec(o)
        f = getattr(o, 'm_' + name, None)
        if f is None:
            if name in ('at', 'front', 'back'):
                i = {'front': 0, 'back': len(o.items) - 1}.get(name)
                return o.items[o.index(args[0] if i is None else i)]
            raise E.Unsupported('method %s' % name)
        return f(*args)

    def ccall(self, name, args):
        return self.tu.call(name, args)

    def memview(self, v):
        if v is None:
            raise TypeError('Argument must not be None')
        if not isinstance(v, (bytes, bytearray, memoryview, V.SymBytes, V.SymByteArray)):
            raise TypeError('a bytes-like object is required')
        self.tu.start()
        return Buf(list(V.items_of(v)), 'record')

    def mv_index(self, b, i, check):
        n = len(b.items)
        i = cxx.concrete(i, 'index')
        if i < 0:
            i += n
        if check and not 0 <= i < n:
            raise IndexError('Out of bounds on buffer access')
        return i

    def load_mv(self, b, i, check):
        return Ptr(b, self.mv_index(b, i, check), (INT, 8, False)).load()

    def addr_mv(self, b, i, check):
        return Ptr(b, self.mv_index(b, i, check), (INT, 8, False))

    def slice(self, p, a, b, want):
        if p is None:
            raise Fault('slice of a null pointer')
        if isinstance(p, Buf):
            n = len(p.items)
            a, b, _ = slice(a, b).indices(n)
            return Buf(p.items[a:b], p.name)
        if b is None:
            r = cxx.cstr_bytes(p)
            return r[a:] if a else r
        r = cxx.slice_bytes(p, a, b)
        if want == 'bytearray':
            return shims.bytearray_(r)
        if want == 'unicode':
            return r.decode('utf-8')
        return r

    def unraisable(self, e, t):
        """A C function without an exception value reports the exception and carries on."""
        if t[0] == INT:
            return 0
        if t[0] == DBL:
            return 0.0
        return None


# ----------------------------------------------------------------- replay
SCRIPT = """import sys
from setuptools import setup
from distutils.extension import Extension
from Cython.Build import cythonize
flags = ['-O1', '-g', '-fsanitize=address']
setup(name='avbext', script_args=['build_ext', '--inplace', '--build-temp', 'tmp'], packages=[],
      ext_modules=cythonize([Extension('avb._ext', ['avb/_ext.pyx'], language='c++', extra_compile_args=flags,
                                       extra_link_args=['-fsanitize=address'])]))
"""


def build_start(tmp):
    """Start building the real extension, with AddressSanitizer, in tmp/extbuild/avb."""
    dst = os.path.join(tmp, 'extbuild')
    os.makedirs(dst)
    env = dict(os.environ)
    env.update({'PYTHONDONTWRITEBYTECODE': '1', 'LC_ALL': 'C.UTF-8'})
    shutil.copytree(PKG, os.path.join(dst, 'avb'), ignore=shutil.ignore_patterns('*.so', '_ext.cpp', '__pycache__'))
    with open(os.path.join(dst, 'build_asan.py'), 'w') as f:
        f.write(SCRIPT)
    log = open(os.path.join(dst, 'build.log'), 'wb')
    p = subprocess.Popen([PYPY, 'build_asan.py'], cwd=dst, env=env, stdout=log, stderr=subprocess.STDOUT)
    log.close()
    return dst, p


def replay_opts(started):
    """Options for run.replay; None when the extension does not build."""
    dst, p = started
    try:
        rc = p.wait(timeout=400)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return None
    sos = [n for n in os.listdir(os.path.join(dst, 'avb')) if n.startswith('_ext') and n.endswith('.so')]
    if rc or not sos:
        with open(os.path.join(dst, 'build.log'), 'rb') as f:
            print(f.read().decode('utf-8', 'replace')[-800:])
        return None
    lib = subprocess.run(['g++', '-print-file-name=libasan.so'], stdout=subprocess.PIPE).stdout.decode().strip()
    env = {'VERIF_AVB_PATH': dst, 'LD_PRELOAD': lib,
           'ASAN_OPTIONS': 'detect_leaks=0:max_allocation_size_mb=400:allocator_may_return_null=0'}
    full = dict(os.environ)
    full.update(env)
    test = "import sys; sys.path.insert(0, %r); import avb._ext; assert avb._ext.__file__.startswith(%r)" % (dst, dst)
    p = subprocess.run([PYPY, '-c', test], env=full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    if p.returncode:
        print(p.stdout.decode('utf-8', 'replace')[-800:])
        return None
    return {'python': PYPY, 'isolate': True, 'env': env}
