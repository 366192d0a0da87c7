"""Harness-side API, symbolic flavour.  harness/conc.py is the concrete twin."""
import sys
import random
import gc
import traceback
import z3
from . import engine as E
from . import shims, loader, text
from .cxx import Fault
from .values import *
from .values import mkb
from fractions import Fraction


class Result(object):
    __slots__ = ('ok', 'value', 'exc')

    def __init__(self, ok, value, exc):
        self.ok, self.value, self.exc = ok, value, exc

    @property
    def exc_name(self):
        return type(self.exc).__name__ if self.exc is not None else None


class S(object):
    """One harness execution context (one path at a time)."""
    symbolic = True

    def __init__(self, eng, job, known_ids, seed=1, max_failures=4):
        self.eng = eng
        self.job = job
        self.known_ids = known_ids
        self.failures = []
        self.known_hits = {}
        self.witnesses = []
        self.covers = {}
        self.checks = {}
        self.max_failures = max_failures
        self.rng = random.Random(seed)
        self.pkg = None
        self.files = set()
        self.samples = []
        self.memos = {}

    # -- per path
    def begin(self):
        self.inputs = {}          # name -> (kind, payload)
        self.pending = []
        self.obs_l = []
        shims.VFS.clear()
        self.pkg = None
        SymReal.rounding = False

    @property
    def lib(self):
        if self.pkg is None:
            self.pkg = loader.Package(ext=getattr(self, 'ext_loader', None))
            self.files.update(self.pkg.files)
        return self.pkg

    def mod(self, name):
        return self.lib.mod(name)

    # -- inputs
    def _new(self, name, kind, payload):
        if name in self.inputs:
            raise RuntimeError('duplicate input ' + name)
        self.inputs[name] = (kind, payload)

    def int(self, name, lo, hi):
        w = width_for(lo, hi)
        e = z3.BitVec(name, w)
        if lo != -(1 << (w - 1)) or hi != (1 << (w - 1)) - 1:
            self.eng.assume(z3.And(e >= lo, e <= hi), True)
        self._new(name, 'int', e)
        return SymInt.mk(e, lo, hi)

    def u(self, name, bits):
        e = z3.BitVec(name, bits)
        self._new(name, 'uint', e)
        return SymInt.from_bv(e, False)

    def i(self, name, bits):
        e = z3.BitVec(name, bits)
        self._new(name, 'int', e)
        return SymInt.from_bv(e, True)

    def z(self, name, lo=None, hi=None):
        e = z3.Int(name)
        if lo is not None:
            self.eng.assume(e >= lo, True)
        if hi is not None:
            self.eng.assume(e <= hi, True)
        self._new(name, 'z', e)
        return SymZ.mk(e)

    def dyadic(self, name, lo, hi, den=4):
        """A float that is a multiple of 1/den (den a power of two)."""
        n = z3.Int(name)
        self.eng.assume(z3.And(n >= lo * den, n <= hi * den), True)
        self._new(name, 'dyadic', (n, den))
        return SymReal(z3.ToReal(n) / den)

    def real(self, name, lo, hi):
        """Any float of the interval, taken as a real number."""
        e = z3.Real(name)
        self.eng.assume(z3.And(e >= z3.Q(*lo.as_integer_ratio()), e <= z3.Q(*hi.as_integer_ratio())), True)
        self._new(name, 'real', e)
        return SymReal(e)

    def rounding(self, on=True):
        """Bound the rounding error of each float multiplication/division by 2**-53 instead of ignoring it."""
        SymReal.rounding = on

    def decimal(self, name, digits, maxint):
        """A float nearest to n / 10**digits, 0 <= n <= maxint."""
        n = z3.Int(name)
        self.eng.assume(z3.And(n >= 0, n <= maxint), True)
        self._new(name, 'decimal', (n, digits))
        d = z3.ToReal(n) / (10 ** digits)
        if digits == 0:
            return SymReal(z3.ToReal(n), SymZ.mk(n))
        r = z3.Real(name + '!f')
        self.eng.assume(z3.And(r - d <= d / 2 ** 53, d - r <= d / 2 ** 53), True)
        return SymReal(r)

    def bool(self, name):
        e = z3.Bool(name)
        self._new(name, 'bool', e)
        return SymBool(e)

    def byte_list(self, name, n):
        es = [z3.BitVec('%s[%d]' % (name, i), 8) for i in range(n)]
        self._new(name, 'bytes', es)
        return es

    def bytes(self, name, n):
        return mkbytes(self.byte_list(name, n))

    def bytearray(self, name, n):
        return SymByteArray(self.byte_list(name, n))

    def text(self, name, n, codec='mac_roman', nonul=True):
        if codec == 'utf-8':
            es = [z3.BitVec('%s[%d]' % (name, i), 21) for i in range(n)]
            if es:
                self.eng.assume(z3.And(*[z3.And(z3.ULE(e, 0x10FFFF), z3.Or(z3.ULT(e, 0xD800), z3.UGT(e, 0xDFFF)))
                                         for e in es] + ([e != 0 for e in es] if nonul else [])), True)
            self._new(name, 'cps', es)
            return mkstr([Ch(e) for e in es])
        if codec == 'ascii':
            es = [z3.BitVec('%s[%d]' % (name, i), 21) for i in range(n)]
            if es:
                self.eng.assume(z3.And(*[z3.ULT(e, 0x80) for e in es] + ([e != 0 for e in es] if nonul else [])), True)
            self._new(name, 'cps', es)
            return mkstr([Ch(e) for e in es])
        es = [z3.BitVec('%s[%d]' % (name, i), 8) for i in range(n)]
        if nonul and es:
            self.eng.assume(z3.And(*[e != 0 for e in es]), True)
        self._new(name, 'mac', es)
        return mkstr([Ch(src=(codec, e)) for e in es])

    def double(self, name):
        e = z3.BitVec(name, 64)
        self.eng.assume(z3.Extract(62, 52, e) != 0x7FF, True)
        self._new(name, 'double', e)
        return SymDouble(e)

    def uuid(self, name):
        es = self.byte_list(name, 16)
        return shims.SymUUID(es)

    def mobid(self, name):
        m = self.mod('mobid').MobID()
        m.bytes_le = SymByteArray(self.byte_list(name, 32))
        return m

    def datetime(self, name):
        e = z3.BitVec(name, 32)
        self._new(name, 'ts', e)
        return shims.SymDateTime(SymInt.from_bv(e, False))

    def choice(self, name, options):
        options = list(options)
        k = self.eng.choice(len(options), name)
        self._new(name, 'choice', k)
        return options[k]

    def memo(self, key, fn):
        """fn() once per job: its inputs and assumptions are re-established on later paths (fn must not fork)."""
        hit = self.memos.get(key)
        if hit is None:
            before, pos = set(self.inputs), self.eng.pos
            log, self.eng.assume_log = self.eng.assume_log, []
            try:
                val = fn()
                if any(d.kind != 'a' for d in self.eng.tape[pos:self.eng.pos]):
                    return val
                self.memos[key] = (val, {k: v for k, v in self.inputs.items() if k not in before},
                                   self.eng.assume_log)
            finally:
                self.eng.assume_log = log
            return val
        val, inputs, assumed = hit
        for k, (kind, p) in inputs.items():
            self._new(k, kind, p)
        for e in assumed:
            self.eng.assume(e, True)
        return val

    # -- helpers mirrored in the concrete twin
    def exact(self, data):
        return data

    def stream(self, data=b''):
        return shims.BytesIO(data)

    def pack_le(self, v, n):
        """Little-endian bytes of integer v modulo 2**(8n)."""
        return mkbytes(self._le(v, n))

    @staticmethod
    def _le(v, n):
        if isinstance(v, SymBool):
            v = v._i()
        if isinstance(v, (SymInt,)):
            raw = v.e.decl().kind() == z3.Z3_OP_UNINTERPRETED and v.w == 8 * n and n > 1
            bv = v.e if raw else v.at(8 * n) if v.w >= 8 * n else z3.SignExt(8 * n - v.w, v.e)
            out = []
            for i in range(n):
                b = z3.Extract(8 * i + 7, 8 * i, bv)
                if not raw:
                    b = z3.simplify(b)
                    b = b.as_long() if z3.is_bv_value(b) else b
                out.append(b)
            return out
        v = int(v) & ((1 << (8 * n)) - 1)
        return list(v.to_bytes(n, 'little'))

    def pack(self, v, n, big):
        it = self._le(v, n)
        return mkbytes(it[::-1] if big else it)

    def double_bits(self, v):
        """The 64-bit pattern of a float as an integer."""
        if isinstance(v, SymDouble):
            return SymInt.from_bv(v.bits, False)
        import struct
        return struct.unpack('>Q', struct.pack('>d', v))[0]

    def timestamp(self, dt):
        if isinstance(dt, shims.SymDateTime):
            return dt.local()
        return int(dt.timestamp())

    def join(self, parts):
        out = []
        for p in parts:
            out += items_of(p)
        return mkbytes(out)

    def encode_text(self, s, codec):
        return s.encode(codec)

    def conj(self, cs): return conj(cs)
    def disj(self, cs): return disj(cs)
    def neg(self, c): return neg(c)

    def ite(self, c, a, b):
        if c is True or c is False:
            return a if c else b
        if isinstance(a, (SymInt, int)) and isinstance(b, (SymInt, int)) and not isinstance(a, bool):
            z = SymInt.mk(z3.BitVec('dummy!', 2), -2, 1)
            x, y = z._co(a), z._co(b)
            lo, hi = min(x.lo, y.lo), max(x.hi, y.hi)
            w = max(x.w, y.w)
            return SymInt.mk(z3.If(c.e, x.at(w), y.at(w)), lo, hi)
        if isinstance(a, (SymZ, int)) and isinstance(b, (SymZ, int)):
            return SymZ.mk(z3.If(c.e, SymZ.co(a), SymZ.co(b)))
        if is_num(a) and is_num(b):
            return SymReal.mk(z3.If(c.e, SymReal.co(a), SymReal.co(b)))
        return a if bool(c) else b

    def same(self, a, b):
        return same(a, b)

    def is_datetime(self, v):
        return isinstance(v, shims.datetime_)

    def attempt(self, fn, *a, **k):
        try:
            return Result(True, fn(*a, **k), None)
        except RecursionError as e:
            return Result(False, None, e)
        except Exception as e:
            return Result(False, None, e)

    def new_file(self, path='out.avb'):
        return path

    def read_file(self, path):
        return mkbytes(list(shims.VFS[path]))

    def write_file(self, path, data):
        shims.VFS[path] = list(items_of(data))

    def hash_of(self, o):
        return shims.hash_(o)

    def ord_list(self, st):
        """Code points of text as a list of ints."""
        return [x if isinstance(x, int) else SymInt.from_bv(x.e, False) for x in cps_of(st)]

    # -- assertions
    def assume(self, c):
        self.flush()
        if isinstance(c, SymBool):
            self.eng.assume(c.e)
        else:
            self.eng.assume(bool(c))

    def cover(self, tag):
        self.covers[tag] = self.covers.get(tag, 0) + 1

    def obs(self, name, v):
        self.obs_l.append((name, v))

    def check(self, c, msg, known=()):
        self.checks[msg] = self.checks.get(msg, 0) + 1
        self.eng.stats.obligations += 1
        known = [(k, r) for k, r in known if k in self.known_ids]
        if c is True:
            self.eng.stats.discharged += 1
            self.eng.stats.trivial += 1
            return
        self.pending.append((c, msg, known))

    def fail(self, msg, known=()):
        self.check(False, msg, known)

    def flush(self):
        pend, self.pending = self.pending, []
        if not pend:
            return
        def full(c, known):
            return z3.Or(zb(c), *[zb(r) for _, r in known]) if known else zb(c)
        todo = [(full(c, k), c, msg, k) for c, msg, k in pend]
        rounds = 0
        while todo:
            r = self.eng._check(z3.Not(z3.And(*[t[0] for t in todo])))
            if r == z3.unsat:
                self.eng.stats.discharged += len(todo)
                break
            if r == z3.unknown:
                # one at a time
                if len(todo) > 1:
                    for t in todo:
                        r1 = self.eng._check(z3.Not(t[0]))
                        if r1 == z3.unsat:
                            self.eng.stats.discharged += 1
                        elif r1 == z3.sat:
                            self._fail(t[2], self.eng.solver.model(), t[0])
                        else:
                            self.eng.stats.inconclusive.append('unknown: ' + t[2])
                else:
                    self.eng.stats.inconclusive.append('unknown: ' + todo[0][2])
                break
            m = self.eng.solver.model()
            rest = []
            for t in todo:
                if z3.is_false(m.eval(t[0], model_completion=True)):
                    self._fail(t[2], m, t[0])
                else:
                    rest.append(t)
            if len(rest) == len(todo):
                self.eng.stats.inconclusive.append('model evaluation: ' + todo[0][2])
                break
            todo = rest
            rounds += 1
        for c, msg, known in pend:
            for kid, region in known:
                if kid in self.known_hits:
                    continue
                r = self.eng._check(z3.And(z3.Not(zb(c)), zb(region)))
                if r == z3.sat:
                    self.known_hits[kid] = self.case(self.eng.solver.model(), msg)

    def _fail(self, msg, model, formula):
        n = sum(1 for f in self.failures if f['msg'] == msg)
        if n < self.max_failures:
            self.failures.append(self.case(model, msg))
            # a second, different model guards against non-reproducing corner values
        elif len(self.failures) < 200:
            pass

    def case(self, model, msg=None):
        vals = {}
        for name, (kind, p) in self.inputs.items():
            vals[name] = conc_input(model, kind, p)
        return {'harness': self.job['harness'], 'param': self.job['param'], 'inputs': vals, 'msg': msg}

    def witness(self):
        m = self.eng.get_model()
        c = self.case(m)
        obs = []
        for name, v in self.obs_l:
            try:
                obs.append([name, conc(m, v)])
            except Exception as e:      # observation not evaluable: skip it
                obs.append([name, None])
        c['obs'] = obs
        return c


def mval(m, e):
    return m.eval(e, model_completion=True)


def conc_input(m, kind, p):
    if kind == 'choice':
        return p
    if kind == 'int':
        return mval(m, p).as_signed_long()
    if kind in ('uint', 'ts'):
        return mval(m, p).as_long()
    if kind == 'z':
        return mval(m, p).as_long()
    if kind == 'bool':
        return z3.is_true(mval(m, p))
    if kind in ('bytes', 'mac', 'cps'):
        return [mval(m, x).as_long() for x in p]
    if kind == 'double':
        return mval(m, p).as_long()
    if kind == 'real':
        x = mval(m, p)
        if not z3.is_rational_value(x):
            x = x.approx(30)
        return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
    if kind in ('dyadic', 'decimal'):
        return [mval(m, p[0]).as_long(), p[1]]
    raise RuntimeError(kind)


def conc(m, v):
    """JSON form of an observed value under a model."""
    if isinstance(v, SymBool):
        return z3.is_true(mval(m, v.e))
    if isinstance(v, SymInt):
        return mval(m, v.e).as_signed_long()
    if isinstance(v, SymZ):
        return mval(m, v.e).as_long()
    if isinstance(v, SymReal):
        x = mval(m, v.e)
        return ['f', float(Fraction(x.numerator_as_long(), x.denominator_as_long()))]
    if isinstance(v, SymDouble):
        return ['d', mval(m, v.bits).as_long()]
    if isinstance(v, (SymBytes, SymByteArray)):
        return ['b', [x if isinstance(x, int) else mval(m, x).as_long() for x in v.v]]
    if isinstance(v, (bytes, bytearray)):
        return ['b', list(v)]
    if isinstance(v, SymStr):
        return ['s', [x if isinstance(x, int) else mval(m, x.e).as_long() for x in v.v]]
    if isinstance(v, str):
        return ['s', [ord(c) for c in v]]
    if isinstance(v, shims.SymUUID):
        return ['u', [x if isinstance(x, int) else mval(m, x).as_long() for x in v.v]]
    if isinstance(v, (list, tuple)):
        return ['l', [conc(m, x) for x in v]]
    if v is None or isinstance(v, (bool, int)):
        return v
    if isinstance(v, float):
        return ['f', v]
    if isinstance(v, BaseException):
        return ['e', type(v).__name__]
    return ['o', type(v).__name__]


def same(a, b):
    """Deep equality as a condition (no forking)."""
    if a is b:
        return True
    if isinstance(a, SymDouble) or isinstance(b, SymDouble):
        if isinstance(a, SymDouble) and isinstance(b, SymDouble):
            return mkbool(a.bits == b.bits)
        import struct
        if isinstance(b, SymDouble):
            a, b = b, a
        if isinstance(b, (int, float)):
            return mkbool(a.bits == struct.unpack('>Q', struct.pack('>d', b))[0])
        return False
    if isinstance(a, (bytes, bytearray, SymBytes, SymByteArray)):
        ib = items_of(b)
        return False if ib is None else items_eq(items_of(a), ib)
    if isinstance(a, (str, SymStr)):
        if not isinstance(b, (str, SymStr)):
            return False
        return SymStr(cps_of(a)) == b
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(list(a)) != len(list(b)):
            return False
        return conj([same(x, y) for x, y in zip(list(a), list(b))])
    if isinstance(a, dict):
        if not isinstance(b, dict) or len(a) != len(b):
            return False
        return conj([same(a[k], b[k]) if k in b else False for k in a.keys()])
    if is_num(a):
        if not is_num(b):
            return False
        r = a == b if is_sym(a) else b == a
        return r
    if a is None or b is None:
        return False
    if hasattr(a, 'bytes_le') and hasattr(b, 'bytes_le') and type(a).__name__ == 'MobID' and type(b).__name__ == 'MobID':
        return same(a.bytes_le, b.bytes_le)
    if isinstance(a, shims.SymUUID) or isinstance(b, shims.SymUUID):
        return a == b if isinstance(a, shims.SymUUID) else b == a
    if isinstance(a, shims.SymDateTime) or isinstance(b, shims.SymDateTime):
        a, b = [x.local() if isinstance(x, shims.SymDateTime) else int(x.timestamp()) if hasattr(x, 'timestamp') else None
                for x in (a, b)]
        return False if a is None or b is None else a == b
    r = a == b
    return r if isinstance(r, (bool, SymBool)) else bool(r)


class Profile(object):
    """Names of the functions of the loaded package that were executed."""

    def __init__(self, prefix):
        self.prefix = prefix
        self.names = set()

    def __call__(self, frame, event, arg):
        if event == 'call':
            c = frame.f_code
            if c.co_filename.startswith(self.prefix):
                self.names.add('%s:%s' % (c.co_filename[len(self.prefix):].lstrip('/'), c.co_qualname))


def run_job(fn, job, known_ids, cfg):
    """Explore one harness instance; returns a JSON-able result."""
    import time
    t0 = time.time()
    eng = E.Engine(query_timeout_ms=cfg.get('query_ms', 20000), time_budget=cfg.get('job_s', 120),
                   max_paths=cfg.get('max_paths', 20000), concretise_limit=cfg.get('values', 64))
    eng.solver.set('random_seed', cfg.get('seed', 1))
    s = S(eng, job, known_ids, seed=cfg.get('seed', 1))
    if cfg.get('ext'):
        s.ext_loader = cfg['ext']
    max_w = cfg.get('witnesses', 3)
    state = {'n': 0}
    prof = Profile('/repo/src/avb')

    # collections happen only where a harness asks for one: weak references behave the same on every run
    gc.collect()
    gc.freeze()
    gc.disable()

    def one():
        if state['n'] % 50 == 49:
            gc.collect()
        s.begin()
        state['n'] += 1
        use_prof = state['n'] <= 2
        if use_prof:
            sys.setprofile(prof)
        try:
            try:
                fn(s, job['param'])
            except E.PathEnd:
                s.flush()
                raise
            except Fault as e:
                s.check(False, 'undefined behaviour: %s' % e)
            except Exception as e:
                if isinstance(e, RuntimeError) and 'nondeterministic' in str(e):
                    raise E.Unsupported(str(e))
                tb = traceback.extract_tb(e.__traceback__)
                where = ' '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in tb[-4:])
                s.check(False, 'unexpected %s: %s' % (type(e).__name__, str(e)[:160]))
                s.last_where = where
        finally:
            if use_prof:
                sys.setprofile(None)
        s.flush()
        if len(s.witnesses) < max_w or (s.rng.random() < 0.02 and len(s.witnesses) < 4 * max_w):
            s.witnesses.append(s.witness())

    try:
        complete = eng.explore(one)
        err = None
    except Exception as e:
        complete, err = False, '%s: %s' % (type(e).__name__, traceback.format_exc()[-1500:])
        E.CUR = None
    st = eng.stats
    return {'job': job, 'complete': complete, 'error': err, 'failures': s.failures, 'known_hits': s.known_hits,
            'witnesses': s.witnesses, 'covers': s.covers, 'checks': s.checks, 'stats': st.as_dict(),
            'functions': sorted(prof.names), 'files': sorted(s.files), 'wall_s': time.time() - t0,
            'where': getattr(s, 'last_where', None)}
