"""Record layouts of the format, written down independently of the reader and
writer code: one function per object kind, over a generator G that produces the
bytes of a record together with the field values they stand for.

mode 'read'  - values as found in arbitrary well-formed records (flag bytes, reserved and legacy data are free)
mode 'write' - values a caller can store, and the canonical bytes for them
"""

REF_N = 1 << 31        # object indices 1..REF_N-1 are valid


class Rec(object):
    """A nested helper record."""

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class Ref(object):
    def __init__(self, index):
        self.index = index        # None: null reference


class G(object):
    def __init__(self, s, mode, order, v, large=None, count=257):
        # large: the large-th length of the record is count, all others are 1
        self.s, self.mode, self.order, self.v = s, mode, order, v
        self.big = order == 'big'
        self.parts, self.pos = [], 0
        self.fields = {}
        self.marks = []           # (offset, original byte, excluded values): structural bytes
        self.refs = []            # offsets of object references
        self.bad = []             # (offset, width, which values are bad)
        self.opts = 0             # optional parts so far
        self.only = None          # (i, present): presence of the i-th optional part, the others are the opposite
        self.k = 0                # input counter
        self.b = 0                # pattern bit counter
        self.large, self.count, self.nums = large, count, 0
        self.ref_fn = None        # name -> concrete index or None
        self.prefix = ''          # of input names
        self.raw_text = False     # texts of any bytes (their value is not described)
        self.base = 0             # lengths that belong to the base layout of many kinds
        self.base_bad = 0         # codes that do
        self.mdes_bad = 0         # those of a media descriptor

    # -- patterns
    def bit(self):
        i, v = self.b, self.v
        self.b += 1
        if v == 0:
            return True
        if v == 1:
            return False
        x = (i >> ((v >> 1) - 1)) & 1
        return bool(x) == (v % 2 == 0)

    def num(self, n=3, lo=0):
        self.k += 1
        self.nums += 1
        if self.large is not None:
            return self.count if self.nums - 1 == self.large else 1
        return lo + (self.v + self.k) % n if not (self.v == 0) else max(lo, 1 + self.k % max(1, n - 1))

    def nm(self, name):
        self.k += 1
        return '%s%s#%d' % (self.prefix, name, self.k)

    # -- raw output
    def put(self, b):
        self.parts.append(b)
        self.pos += len(b)

    def bytes(self):
        return self.s.join(self.parts)

    def tag(self, val, excl=()):
        self.marks.append((self.pos, val, tuple(excl)))
        self.put(bytes(bytearray([val])))

    def tags(self, *vals):
        """The marks that start a section; 1 in place of the first would start another extension item."""
        for i, x in enumerate(vals):
            self.tag(x, (1,) if i == 0 and self.pos else ())

    def end(self):
        self.tag(3)

    def num_const(self, val, n):
        self.put(self.s.pack(val, n, self.big))

    def count_(self, val, n):
        """A number of items or bytes: with its top bit set it is negative or more than there can be."""
        self.bad.append((self.pos, n, 'count'))
        self.num_const(val, n)

    def code(self, val, n, good):
        """A type code, one of good."""
        self.bad.append((self.pos, n, good))
        self.num_const(val, n)

    def const(self, val, n):
        """A structural constant wider than a byte (marked byte by byte)."""
        self.put_marked(bytes(self.s.pack(val, n, self.big)))

    def put_marked(self, b):
        for x in bytearray(b):
            self.tag(x)

    def free(self, n, name='reserved'):
        """Bytes that are ignored when read and zero when written."""
        self.put(self.s.bytes(self.nm(name), n) if self.mode == 'read' else b'\0' * n)

    def set(self, name, val):
        self.fields[name] = val

    # -- values
    def rint(self, name, n, signed):
        v = (self.s.i if signed else self.s.u)(self.nm(name), 8 * n)
        self.put(self.s.pack(v, n, self.big))
        return v

    def u8(self, name): self.set(name, self.rint(name, 1, False))
    def s8(self, name): self.set(name, self.rint(name, 1, True))
    def u16(self, name): self.set(name, self.rint(name, 2, False))
    def s16(self, name): self.set(name, self.rint(name, 2, True))
    def u32(self, name): self.set(name, self.rint(name, 4, False))
    def s32(self, name): self.set(name, self.rint(name, 4, True))
    def u64(self, name): self.set(name, self.rint(name, 8, False))
    def s64(self, name): self.set(name, self.rint(name, 8, True))

    def rbool(self, name):
        if self.mode == 'read':
            d = self.s.bytes(self.nm(name), 1)
            self.put(d)
            return d[0] == 1
        v = self.bit()
        self.put(b'\x01' if v else b'\x00')
        return v

    def bool(self, name): self.set(name, self.rbool(name))

    def rdouble(self, name):
        v = self.s.double(self.nm(name))
        self.put(self.s.pack(self.s.double_bits(v), 8, self.big))
        return v

    def double(self, name): self.set(name, self.rdouble(name))

    def rate(self, name):
        """mantissa and exponent; the exponent is 0 here (C04 decides the encoding of every rate)"""
        v = self.s.i(self.nm(name), 32)
        self.put(self.s.pack(v, 4, self.big))
        self.put(self.s.pack(0, 2, self.big))
        self.set(name, v)

    def rref(self, name):
        self.refs.append(self.pos)
        if self.ref_fn is not None:
            v = self.ref_fn(name)
            self.put(self.s.pack(v or 0, 4, self.big))
            return Ref(v)
        null = not self.bit() and not self.bit()
        if null:
            self.put(self.s.pack(0, 4, self.big))
            return Ref(None)
        v = self.s.int(self.nm(name), 1, REF_N - 1)
        self.put(self.s.pack(v, 4, self.big))
        return Ref(v)

    def ref(self, name): self.set(name, self.rref(name))
    def refs_(self, *names):
        for n in names:
            self.ref(n)

    def reflist(self, name, width, signed_max=None):
        n = self.num(4)
        self.count_(n, width)
        self.set(name, [self.rref('%s%d' % (name, i)) for i in range(n)])

    def rstr(self, name, null=False):
        """A length-prefixed legacy string; null: absent and empty both read as None, written as 0xFFFF."""
        n = self.num(4)
        if n == 0:
            if not null:
                self.num_const(0, 2)
                return ''
            self.num_const(0 if self.mode == 'read' and self.bit() else 0xFFFF, 2)
            return None
        self.num_const(n, 2)
        return self.put_text(name, n)

    def put_text(self, name, n):
        if self.raw_text:
            self.put(self.s.bytes(self.nm(name), n))
            return None
        t = self.s.text(self.nm(name), n, 'mac_roman')
        self.put(self.s.encode_text(t, 'mac_roman'))
        return t

    def str(self, name): self.set(name, self.rstr(name))
    def nstr(self, name): self.set(name, self.rstr(name, True))

    def utf8(self, name):
        n = self.num(4)
        if n == 0:
            self.num_const(0, 2)
            self.set(name, '')
            return
        t = self.s.text(self.nm(name), n, 'ascii')
        self.num_const(n + 2, 2)
        self.put(b'\0\0')
        self.put(self.s.bytes(self.nm(name + '_raw'), n) if self.raw_text else self.s.encode_text(t, 'utf-8'))
        self.set(name, t)

    def rblob(self, name, n):
        d = self.s.bytearray(self.nm(name), n)
        self.put(bytes(d) if not self.s.symbolic else self.s.join([d]))
        return d

    def blob(self, name, width, signed=True):
        n = self.num(4)
        self.count_(n, width)
        self.set(name, self.rblob(name, n))

    def fourcc(self, name):
        d = self.s.bytes(self.nm(name), 4)
        self.put(d if self.big else d[::-1])
        self.set(name, d)

    def rdate(self, name):
        d = self.s.datetime(self.nm(name))
        self.put(self.s.pack(self.s.timestamp(d), 4, self.big))
        return d

    def date(self, name): self.set(name, self.rdate(name))

    def uuid_raw(self, name):
        u = self.s.uuid(self.nm(name))
        b = u.bytes
        if not self.big:
            b = self.s.join([b[0:4][::-1], b[4:6][::-1], b[6:8][::-1], b[8:16]])
        self.put(b)
        self.set(name, u)

    def rmobid(self, name):
        m = self.s.mobid(self.nm(name))
        b = m.bytes_le

        def sl(i, j):
            return self.s.join([b[i:j]])

        self.tag(65)
        self.const(12, 4)
        self.put(sl(0, 12))
        for i in range(12, 16):
            self.tag(68)
            self.put(sl(i, i + 1))
        for t, i, j in ((72, 16, 20), (70, 20, 22), (70, 22, 24)):
            self.tag(t)
            x = sl(i, j)
            self.put(x[::-1] if self.big else x)
        self.tag(65)
        self.const(8, 4)
        self.put(sl(24, 32))
        return m

    def legacy_mob(self, present, name='mob_id'):
        """The 64-bit predecessor of a MobID: ignored when read, derived from the id when written."""
        if self.mode == 'read':
            self.free(8, 'legacy')
            self._later = None
            return
        self.hole = len(self.parts)
        self.parts.append(None)
        self.pos += 8

    def fill_legacy(self, m, marker=None):
        if self.mode == 'read':
            return
        b = m.bytes_le
        x, y = self.s.join([b[16:20]]), self.s.join([b[20:24]])
        if self.big:
            x, y = x[::-1], y[::-1]
        self.parts[self.hole] = self.s.join([x, y])

    def mob_ext(self, known, tag):
        """Optional MobID in an extension; in write mode it is always there."""
        if self.mode == 'write' or self.bit():
            self.ext(known, tag)
            m = self.rmobid('mob_id')
            self.set('mob_id', m)
            self.fill_legacy(m)

    def ext(self, known, tag, *markers):
        self.tag(1, (0, 1, 2, 3))
        self.tag(tag, known)
        for m in markers:
            self.tag(m)

    def opt(self):
        """Whether an optional part is there."""
        self.opts += 1
        if self.only is not None:
            return (self.opts - 1 == self.only[0]) == self.only[1]
        return self.bit()

    def rec(self, cls, fn):
        saved, self.fields = self.fields, {}
        fn()
        r = Rec(cls, self.fields)
        self.fields = saved
        return r


# ---------------------------------------------------------------- components

def comp(g):
    g.tags(2, 3)
    g.refs_('left_bob', 'right_bob')
    g.s16('media_kind_id')
    g.rate('edit_rate')
    g.nstr('name')
    g.nstr('effect_id')
    g.refs_('attributes', 'session_attrs', 'precomputed')
    if g.opt():
        g.ext((1,), 1, 72)
        g.ref('param_list')
    g.base = g.nums


def clip(g):
    comp(g)
    g.tags(2, 1)
    g.u32('length')


def SEQU(g):
    comp(g)
    g.tags(2, 3)
    g.reflist('components', 4)
    g.end()


def SCLP(g):
    clip(g)
    g.tags(2, 3)
    g.legacy_mob(True)
    g.s16('track_id')
    g.s32('start_time')
    g.mob_ext((1,), 1)
    g.end()


def TCCP(g):
    clip(g)
    g.tags(2, 1)
    g.u32('flags')
    g.u16('fps')
    g.free(6)
    g.u32('start')
    g.end()


def ECCP(g):
    clip(g)
    g.tags(2, 1)
    g.set('header', g.rblob('header', 8))
    g.u8('film_kind')
    g.u8('code_format')
    g.u16('base_perf')
    g.free(4)
    g.s32('start_ec')
    g.end()


def TRKR(g):
    clip(g)
    g.tags(2, 1)
    g.s16('relative_scope')
    g.s16('relative_track')
    g.end()


def pair(g, name, n=4):
    return [g.rint(name + 'n', n, True), g.rint(name + 'd', n, True)]


def PRCL(g):
    clip(g)
    g.tags(2, 1)
    g.s32('interp_kind')
    vt = (1, 2, 4)[g.v % 3]
    g.set('value_type', vt)
    g.code(vt, 2, (1, 2, 4))
    n = g.num(3)
    g.count_(n, 4)
    pts = []
    for i in range(n):
        def point():
            g.set('offset', pair(g, 'offset'))
            g.s32('timescale')
            g.set('value', g.rint('value', 4, True) if vt == 1 else g.rdouble('value') if vt == 2 else g.rref('value'))
            m = g.num(3)
            g.count_(m, 2)
            pp = []
            for j in range(m):
                def prop():
                    g.s16('code')
                    t = 1 + (g.v + i + j) % 2
                    g.code(t, 2, (1, 2))
                    g.set('type', t)
                    g.set('value', g.rint('ppv', 4, True) if t == 1 else g.rdouble('ppv'))
                pp.append(g.rec('ParamControlPointProperty', prop))
            g.set('pp', pp)
        pts.append(g.rec('ParamControlPoint', point))
    g.set('control_points', pts)
    if g.opt():
        g.ext((1, 2), 1, 71)
        g.s32('extrap_kind')
    if g.opt():
        g.ext((1, 2), 2, 71)
        g.s32('fields')
    g.end()


def CTRL(g):
    clip(g)
    g.tags(2, 3)
    g.s32('interp_kind')
    n = g.num(3)
    g.count_(n, 4)
    pts = []
    for i in range(n):
        def point():
            g.set('offset', pair(g, 'offset'))
            g.s32('time_scale')
            g.tag(1)
            g.set('value', pair(g, 'value'))
            m = g.num(3)
            g.count_(m, 2)
            pp = []
            for j in range(m):
                def prop():
                    g.s16('code')
                    g.set('value', pair(g, 'ppv'))
                pp.append(g.rec('ControlPointProperty', prop))
            g.set('pp', pp)
        pts.append(g.rec('ControlPoint', point))
    g.set('control_points', pts)
    g.end()


def FILL(g):
    clip(g)
    g.tags(2, 1)
    g.end()


# ---------------------------------------------------------------- track groups

TRACK_FLAGS = [('index', 0), ('attributes', 1), ('session_attr', 9), ('component', 2), ('filler_proxy', 3),
               ('bob_data', 4), ('control_code', 5), ('control_sub_code', 6), ('start_pos', 7), ('read_only', 8)]


def trkg(g, min_tracks=0):
    comp(g)
    g.tags(2, 8)
    g.u8('mc_mode')
    g.s32('length')
    g.s32('num_scalars')
    n = g.num(3, min_tracks)
    g.count_(n, 4)
    tracks = []
    for i in range(n):
        def track():
            on = [f for f in TRACK_FLAGS if g.opt()]
            flags = sum(1 << b for _, b in on)
            g.bad.append((g.pos, 2, ('flags', flags)))
            g.num_const(flags, 2)
            for name, b in on:
                if b in (1, 2, 3, 4, 9):
                    g.ref(name)
                elif b == 7:
                    g.s32(name)
                elif b == 8:
                    g.bool(name)
                else:
                    g.s16(name)
        tracks.append(g.rec('Track', track))
    # tracks of an existing object all carry a lock number or none does; the writer always stores them
    if n and (g.mode == 'write' or g.opt()):
        g.ext((1,), 1)
        for t in tracks:
            g.tag(69)
            t.fields['lock_number'] = g.rint('lock', 2, True)
    g.set('tracks', tracks)
    g.base = g.nums
    g.base_bad = len(g.bad)


def info(g, tag, trackman):
    g.tags(2, tag)
    g.s32('left_length')
    g.s32('right_length')
    g.s16('info_version')
    g.s32('info_current')
    g.s32('info_smooth')
    g.s16('info_color_item')
    g.s16('info_quality')
    g.s8('info_is_reversed')
    g.bool('info_aspect_on')
    g.ref('keyframes')
    g.bool('info_force_software')
    g.bool('info_never_hardware')
    if g.opt():
        g.ext((trackman,), trackman, 72)
        g.ref('trackman')


def tkfx(g):
    trkg(g)
    info(g, 6, 2)


def TKFX(g):
    tkfx(g)
    g.end()


def PVOL(g):
    tkfx(g)
    g.tags(2, 5)
    g.s32('level')
    g.s32('pan')
    g.bool('suppress_validation')
    g.bool('level_set')
    g.bool('pan_set')
    if g.opt():
        g.ext((1, 2), 1, 71)
        g.s32('supports_seperate_gain')
    if g.opt():
        g.ext((1, 2), 2, 71)
        g.s32('is_trim_gain_effect')
    g.end()


def ASPI(g):
    tkfx(g)
    g.tags(2, 1)
    g.const(1, 4)

    def plugin():
        g.str('name')
        g.u32('manufacturer_id')
        g.u32('product_id')
        g.u32('plugin_id')
        n = g.num(3)
        g.count_(n, 4)
        chunks = []
        for i in range(n):
            def chunk():
                size = g.num(4)
                g.count_(size, 4)
                g.s32('version')
                g.u32('manufacturer_id')
                g.u32('product_id')
                g.u32('plugin_id')
                g.u32('chunk_id')
                g.str('name')
                g.set('data', g.rblob('data', size))
            chunks.append(g.rec('ASPIPluginChunk', chunk))
        g.set('chunks', chunks)
    g.set('plugins', [g.rec('ASPIPlugin', plugin)])
    known = (1, 2, 3, 4, 5, 6, 8, 9)
    mob = g.opt()
    if mob:
        # the legacy id comes in a tagged pair; ignored when read
        g.ext(known, 1)
        if g.mode == 'read':
            for i in range(2):
                g.tag(71)
                g.free(4)
            g.ext(known, 8)
            g.set('mob_id', g.rmobid('mob_id'))
        else:
            holes = []
            for i in range(2):
                g.tag(71)
                holes.append(len(g.parts))
                g.parts.append(None)
                g.pos += 4
            g.ext(known, 8)
            m = g.rmobid('mob_id')
            b = m.bytes_le
            for h, (i, j) in zip(holes, ((16, 20), (20, 24))):
                x = g.s.join([b[i:j]])
                g.parts[h] = x[::-1] if g.big else x
            g.set('mob_id', m)
    if g.opt():
        g.ext(known, 2, 77)
        g.s64('mark_in')
    if g.opt():
        g.ext(known, 3, 77)
        g.s64('mark_out')
    if g.opt():
        g.ext(known, 4, 72)
        g.s32('tracks_to_affect')
    if g.opt():
        g.ext(known, 5, 71)
        g.s32('rendering_mode')
    if g.opt():
        g.ext(known, 6, 71)
        g.s32('padding_secs')
    if g.opt():
        g.ext(known, 9, 72)
        n = g.num(3)
        g.count_(n, 4)
        if n:
            g.tag(65)
            g.num_const(n, 4)
        g.set('preset_path', g.rblob('preset_path', n))
    g.end()


def EQMB(g):
    tkfx(g)
    g.tags(2, 5)
    n = g.num(3)
    g.count_(n, 4)
    bands = []
    for i in range(n):
        def band():
            g.s32('type')
            g.s32('freq')
            g.s32('gain')
            g.s32('q')
            g.bool('enable')
        bands.append(g.rec('EqualizerBand', band))
    g.set('bands', bands)
    g.bool('effect_enable')
    g.str('filter_name')
    g.end()


def warp(g):
    trkg(g)
    g.tags(2, 2)
    g.s32('phase_offset')


def MASK(g):
    warp(g)
    g.tags(2, 1)
    g.bool('is_double')
    g.u32('mask_bits')
    g.end()


def STRB(g):
    warp(g)
    g.tags(2, 1)
    g.s32('strobe_value')
    g.end()


def SPED(g):
    warp(g)
    g.tags(2, 3)
    g.set('speed_ratio', pair(g, 'speed_ratio'))
    known = (1, 2, 3)
    if g.opt():
        g.ext(known, 1, 75)
        g.double('offset_adjust')
    if g.opt():
        g.ext(known, 2, 72)
        g.ref('source_param_list')
    if g.opt():
        g.ext(known, 3, 66)
        g.bool('new_source_calculation')
    g.end()


def REPT(g):
    warp(g)
    g.tags(2, 1)
    g.end()


def RSET(g):
    trkg(g)
    g.tags(2, 1)
    if g.opt():
        g.ext((1,), 1, 71)
        g.s32('rep_set_type')
    g.end()


def TNFX(g):
    trkg(g)
    g.tags(2, 1)
    g.s32('cutpoint')
    info(g, 5, 1)
    g.end()


def SLCT(g):
    trkg(g, 1)
    g.tags(2, 1)
    g.bool('is_ganged')
    v = g.s.int(g.nm('selected'), 0, len(g.fields['tracks']) - 1)
    g.bad.append((g.pos, 2, ('max', len(g.fields['tracks']))))
    g.put(g.s.pack(v, 2, g.big))
    g.set('selected', v)
    g.end()


def CMPO(g):
    trkg(g)
    g.tags(2, 2)
    g.legacy_mob(True)
    g.date('last_modified')
    g.u8('mob_type_id')
    g.s32('usage_code')
    g.ref('descriptor')
    if g.opt():
        g.ext((1, 2), 1, 71)
        g.date('creation_time')
    g.mob_ext((1, 2), 2)
    g.end()


# ---------------------------------------------------------------- attributes and lists

def ATTR(g):
    g.tags(2, 1)
    n = g.num(5)
    g.count_(n, 4)
    items = []
    for i in range(n):
        t = 1 + (g.v + i) % 4
        g.code(t, 4, (1, 2, 3, 4))
        key = u'k\xe9%03d' % i
        g.num_const(5, 2)
        g.put(b'k\x8e' + ('%03d' % i).encode('ascii'))
        if t == 1:
            val = g.rint(key, 4, True)
        elif t == 2:
            val = g.rstr(key)
        elif t == 3:
            val = g.rref(key)
        else:
            m = g.num(3)
            g.count_(m, 4)
            val = g.rblob(key, m)
        items.append([key, val])
    g.set('@items', items)
    g.end()


def PRLS(g):
    g.tags(2, 1)
    g.reflist('@list', 4)
    g.end()


def TMCS(g):
    g.tags(2, 1)
    g.reflist('@list', 2)
    g.end()


# ---------------------------------------------------------------- bins

def BVst(g):
    g.tags(2, 6)
    g.str('name')
    g.str('kind')
    g.s16('attr_count')
    g.s16('attr_type')
    g.ref('attributes')
    g.tags(2, 10)
    n = g.num(3)
    g.count_(n, 2)
    cols = []
    for i in range(n):
        cols.append({'title': g.rstr('title'), 'format': g.rint('format', 2, True), 'type': g.rint('type', 2, True),
                     'hidden': g.rbool('hidden')})
    g.set('columns', cols)
    if g.opt():
        g.ext((1,), 1, 69)
        m = g.num(3)
        g.count_(m, 2)
        fds = []
        for i in range(m):
            g.tag(69)
            cid = g.rint('cid', 2, True)
            g.tag(71)
            k = g.num(3)
            g.count_(k, 4)
            g.tag(76)
            if g.mode == 'read':
                g.free(4)
            else:
                g.num_const(k + 2, 2)
                g.num_const(0, 2)
            if k:
                t = g.s.text(g.nm('fd'), k, 'ascii')
                g.put(g.s.encode_text(t, 'utf-8'))
            else:
                t = ''
            fds.append({'vcid_free_column_id': cid, 'format_descriptor': t})
        g.set('format_descriptors', fds)
    g.end()


def abin(g):
    large = g.v % 2 == 1
    g.set('large_bin', large)
    g.tag(2)
    g.tag(0x0f if large else 0x0e, (0x0e, 0x0f))
    g.ref('view_setting')
    g.u64('uid')
    n = g.num(3)
    g.count_(n, 4 if large else 2)
    items = []
    for i in range(n):
        def item():
            g.ref('mob')
            g.s16('x')
            g.s16('y')
            g.s32('keyframe')
            g.bool('user_placed')
        items.append(g.rec('BinItem', item))
    g.set('items', items)
    g.s32('display_mask')
    g.s16('display_mode')
    g.bool('sifted')
    sift = []
    for i in range(6):
        def it():
            g.s16('method')
            g.str('string')
            g.str('column')
        sift.append(g.rec('SiftItem', it))
    g.set('sifted_settings', sift)
    n = g.num(3)
    g.count_(n, 2)
    g.set('sort_columns', [[g.rint('dir', 1, False), g.rstr('col')] for i in range(n)])
    g.s16('mac_font')
    g.s16('mac_font_size')
    g.s16('mac_image_scale')
    g.const(1, 2)
    g.set('home_rect', [g.rint('rect', 2, True) for i in range(4)])
    for name in ('background_color', 'forground_color'):
        g.const(1, 2)
        g.set(name, [g.rint(name, 2, False) for i in range(3)])
    g.s16('ql_image_scale')
    g.ref('attributes')
    g.bool('was_iconic')


def ABIN(g):
    abin(g)
    g.end()


def BINF(g):
    abin(g)
    g.tags(2, 1)
    g.s32('unknown_s32')
    g.end()


# ---------------------------------------------------------------- locators, effects, parameters

def FILE(g):
    g.tags(2, 2)
    g.str('path')
    known = (1, 2, 3)
    if g.opt():
        g.ext(known, 1, 76)
        g.str('path_posix')
    if g.opt():
        g.ext(known, 2, 76)
        g.utf8('path_utf8')
    if g.opt():
        g.ext(known, 3, 76)
        g.utf8('path2_utf8')
    g.end()


def URLL(g):
    g.end()


def blob_record(name, width):
    def fn(g):
        g.tags(2, 1)
        g.blob(name, width)
        g.end()
    return fn


def FXPS(g):
    g.tags(2, 0x12)
    g.s32('orig_length')
    g.s32('window_offset')
    n = g.num(3)
    g.count_(n, 4)
    g.s32('keyframe_size')
    ps = []
    for i in range(n):
        def param():
            for x in ('percent_time', 'level', 'pos_x', 'floor_x', 'ceil_x', 'pos_y', 'floor_y', 'ceil_y', 'scale_x',
                      'scale_y', 'crop_left', 'crop_right', 'crop_top', 'crop_bottom'):
                g.s32(x)
            g.set('box', [g.rint('box', 4, True) for j in range(4)])
            for x in ('box_xscale', 'box_yscale', 'box_xpos', 'box_ypos'):
                g.bool(x)
            g.s32('border_width')
            g.s32('border_soft')
            for x in ('splill_gain2', 'splill_gain', 'splill_soft2', 'splill_soft'):
                g.s16(x)
            g.s8('enable_key_flags')
            m = g.num(3)
            g.count_(m, 4)
            g.set('colors', [g.rint('color', 4, True) for j in range(m)])
            g.blob('user_param', 4)
            g.bool('selected')
        ps.append(g.rec('EffectParam', param))
    g.set('parameters', ps)
    g.end()


def AVUP(g):
    g.tags(2, 1)
    g.const(0x4949, 2)
    g.set('byte_order', 0x4949)
    g.uuid_raw('uuid')
    n = g.num(4)
    g.num_const(n + 4, 4)
    g.num_const(n, 4)
    g.set('data', g.rblob('data', n))
    g.end()


def PRIT(g):
    g.tags(2, 2)
    g.uuid_raw('uuid')
    vt = (1, 2, 4)[g.v % 3]
    g.code(vt, 2, (1, 2, 4))
    g.set('value_type', vt)
    g.set('value', g.rint('value', 4, True) if vt == 1 else g.rdouble('value') if vt == 2 else g.rref('value'))
    n = g.num(4)
    if n == 0:
        # the empty name reads as an empty text and is written as an absent one
        g.num_const(0 if g.mode == 'read' and g.bit() else 0xFFFF, 2)
        g.set('name', '')
    else:
        g.num_const(n, 2)
        g.set('name', g.put_text('name', n))
    g.bool('enable')
    g.ref('control_track')
    if g.opt():
        g.ext((1,), 1, 66)
        g.bool('contribs_to_sig')
    g.end()


def MSML(g):
    g.tags(2, 2)
    g.legacy_mob(True)
    g.str('last_known_volume')
    known = (1, 2, 3)
    if g.opt():
        g.ext(known, 1, 71)
        g.s32('domain_type')
    g.mob_ext(known, 2)
    if g.opt():
        g.ext(known, 3, 76)
        g.utf8('last_known_volume_utf8')
    g.end()


def apos(g):
    g.tags(2, 1)
    g.legacy_mob(True)
    g.mob_ext((1,), 1)


def APOS(g):
    apos(g)
    g.end()


def abob(g):
    apos(g)
    g.tags(2, 1)
    g.s32('sample_num')
    g.s32('length')
    g.s16('track_type')
    g.s16('track_index')


def ABOB(g):
    abob(g)
    g.end()


def didp(g):
    abob(g)
    g.tags(2, 1)
    g.s32('strip')
    g.u64('offset')
    g.u64('byte_length')
    g.bool('spos_invalid')


def DIDP(g):
    didp(g)
    g.end()


def MPGP(g):
    didp(g)
    g.tags(2, 1)
    g.s16('trailing_discards')
    g.bool('need_seq_hdr')
    n = g.num(3)
    g.count_(n, 2)
    if n:
        if g.mode == 'read':
            g.free(2)
        else:
            g.num_const(2 * n, 2)
    g.set('fields', [[g.rint('kind', 1, False), g.rint('len', 4, False)] for i in range(n)])
    g.end()


def MCBR(g):
    g.tags(2, 1)
    g.s32('uid_high')
    g.s32('uid_low')
    g.str('name')
    if g.opt():
        g.ext((1,), 1, 76)
        g.utf8('name_utf8')
    g.end()


def mcmr(g):
    g.tags(2, 1)
    g.legacy_mob(True)
    g.s32('position')
    g.mob_ext((1,), 1)


def MCMR(g):
    mcmr(g)
    g.end()


def TMBC(g):
    mcmr(g)
    g.tags(2, 3)
    g.s32('comp_offset')
    g.ref('attributes')
    g.const(1, 2)
    g.set('color', [g.rint('color', 2, False) for i in range(3)])
    if g.opt():
        g.ext((1,), 1, 66)
        g.bool('handled_codes')
    g.end()


def TKMN(g):
    g.tags(2, 1)
    g.refs_('data_slots', 'param_slots')
    g.end()


def TKDS(g):
    g.tags(2, 1)
    g.reflist('tracker_data', 4)
    if g.opt():
        g.ext((1,), 1, 66)
        g.bool('track_fg')
    g.end()


def TKPS(g):
    g.tags(2, 1)
    g.blob('settings', 2)
    g.reflist('params', 4)
    g.end()


def TKDA(g):
    g.tags(2, 1)
    g.blob('settings', 2)
    g.u32('clip_version')
    g.reflist('clips', 2)
    known = (1, 2, 3, 4, 5, 6)
    for i, name in enumerate(('offset_tracking', 'smoothing', 'jitter_removal')):
        if g.opt():
            g.ext(known, 1 + i, 72)
            g.u32(name)
    if g.opt():
        g.ext(known, 4, 75)
        g.double('filter_amount')
    for i, name in enumerate(('clip5', 'clip6')):
        if g.opt():
            g.ext(known, 5 + i, 72)
            g.ref(name)
    g.end()


# ---------------------------------------------------------------- media descriptors

def mdes(g):
    g.tags(2, 3)
    g.u8('mob_kind')
    g.ref('locator')
    g.bool('intermediate')
    g.ref('physical_media')
    known = (1, 2, 3)
    if g.opt():
        g.ext(known, 1, 65)
        g.const(16, 4)
        g.uuid_raw('uuid')
    if g.opt():
        g.ext(known, 2, 65)
        g.blob('wchar', 4)
    if g.opt():
        g.ext(known, 3, 72)
        g.ref('attributes')
    g.mdes_bad = len(g.bad)


def MDES(g):
    mdes(g)
    g.end()


def MDTP(g):
    mdes(g)
    g.tags(2, 2)
    g.s16('cframe')
    g.end()


def MDFM(g):
    mdes(g)
    g.tags(2, 1)
    g.end()


def mdfl(g):
    mdes(g)
    g.tags(2, 3)
    g.rate('edit_rate')
    g.s32('length')
    g.s16('is_omfi')
    g.s32('data_offset')


def MDFL(g):
    mdfl(g)
    g.end()


def MULD(g):
    mdfl(g)
    g.tags(2, 1)
    g.reflist('descriptors', 4)
    g.end()


def WAVE(g):
    mdfl(g)
    g.tags(2, 1)
    g.put_marked(b'RIFF')
    n = g.num(4)
    g.put(g.s.pack(n, 4, False))
    g.set('summary', g.rblob('summary', n))
    g.end()


def AIFC(g):
    mdfl(g)
    g.tags(2, 1)
    g.put_marked(b'FORM')
    n = g.num(4)
    g.put(g.s.pack(n, 4, True))
    g.set('summary', g.rblob('summary', n))
    if g.opt():
        g.ext((1,), 1, 71)
        g.s32('data_pos')
    g.end()


def audio(g):
    mdfl(g)
    g.tags(2, 1)
    g.u16('channels')
    g.u16('quantization_bits')
    g.rate('sample_rate')
    g.bool('locked')
    g.s16('audio_ref_level')
    g.s32('electro_spatial_formulation')
    g.u16('dial_norm')
    g.u32('coding_format')


def PCMA(g):
    audio(g)
    g.u32('block_align')
    g.u16('sequence_offset')
    g.u32('average_bps')
    g.bool('has_peak_envelope_data')
    for x in ('peak_envelope_version', 'peak_envelope_format', 'points_per_peak_value', 'peak_envelope_block_size',
              'peak_channel_count', 'peak_frame_count'):
        g.s32(x)
    g.u64('peak_of_peaks_offset')
    g.s32('peak_envelope_timestamp')
    if g.opt():
        g.ext((1, 3), 1, 77)
        g.s64('ebu_timestamp')
    if g.opt():
        g.ext((1, 3), 3, 76)
        g.str('timecode_framerate')
    g.end()


def MPGA(g):
    audio(g)
    g.u32('bit_rate')
    if g.opt():
        g.ext((1, 2), 1, 77)
        g.u64('sub_frame_alignment')
    if g.opt():
        g.ext((1, 2), 2, 77)
        g.u64('origin')
    g.end()


def box(g, name):
    pts = []
    for i in range(4):
        p = []
        for j in range(2):
            g.tag(71)
            p.append(g.rint(name, 4, True))
        pts.append(p)
    g.set(name, pts)


def didd(g):
    mdfl(g)
    g.tags(2, 2)
    for x in ('stored_height', 'stored_width', 'sampled_height', 'sampled_width', 'sampled_x_offset',
              'sampled_y_offset', 'display_height', 'display_width', 'display_x_offset', 'display_y_offset'):
        g.s32(x)
    g.s16('frame_layout')
    g.set('aspect_ratio', pair(g, 'aspect_ratio'))
    n = g.num(3)
    g.count_(4 * n, 4)
    g.set('line_map', [g.rint('line', 4, True) for i in range(n)])
    g.s32('alpha_transparency')
    g.bool('uniformness')
    g.s32('did_image_size')
    g.ref('next_did_desc')
    g.fourcc('compress_method')
    g.s32('resolution_id')
    g.s32('image_alignment_factor')
    known = (1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 14, 15)
    if g.opt():
        g.ext(known, 1, 69)
        g.s16('frame_index_byte_order')
    if g.opt():
        g.ext(known, 2, 71)
        g.s32('frame_sample_size')
    if g.opt():
        g.ext(known, 3, 71)
        g.s32('first_frame_offset')
    if g.opt():
        g.ext(known, 4, 71)
        g.s32('client_fill_start')
        g.tag(71)
        g.s32('client_fill_end')
    if g.opt():
        g.ext(known, 5, 71)
        g.s32('offset_to_rle_frame_index')
    if g.opt():
        g.ext(known, 6, 71)
        g.s32('frame_start_offset')
    if g.opt():
        g.ext(known, 8)
        box(g, 'valid_box')
        box(g, 'essence_box')
        box(g, 'source_box')
    if g.opt():
        g.ext(known, 9)
        box(g, 'framing_box')
        g.tag(71)
        g.s32('reformatting_option')
    if g.opt():
        g.ext(known, 10, 80)
        g.uuid_raw('transfer_characteristic')
    if g.opt():
        g.ext(known, 11, 80)
        g.uuid_raw('color_primaries')
        g.tag(80)
        g.uuid_raw('coding_equations')
    if g.opt():
        g.ext(known, 12, 80)
        g.uuid_raw('essence_compression')
    if g.opt():
        g.ext(known, 14, 68)
        g.u8('essence_element_size_kind')
    if g.opt():
        g.ext(known, 15, 66)
        g.bool('frame_checked_with_mapper')


def DIDD(g):
    didd(g)
    g.end()


def cdci(g):
    didd(g)
    g.tags(2, 2)
    g.u32('horizontal_subsampling')
    g.u32('vertical_subsampling')
    g.s32('component_width')
    g.s16('color_sitting')
    g.u32('black_ref_level')
    g.u32('white_ref_level')
    g.u32('color_range')
    g.s64('frame_index_offset')
    if g.opt():
        g.ext((1, 2), 1, 72)
        g.u32('alpha_sampled_width')
    if g.opt():
        g.ext((1, 2), 2, 72)
        g.u32('ignore_bw')


def CDCI(g):
    cdci(g)
    g.end()


def MPGI(g):
    cdci(g)
    g.tags(2, 1)
    for x in ('mpeg_version', 'profile', 'gop_structure', 'stream_type'):
        g.u8(x)
    for x in ('random_access', 'leading_discard', 'trailing_discard'):
        g.bool(x)
    g.u16('min_gop_length')
    g.u16('max_gop_length')
    g.blob('sequence_hdr', 4)
    g.end()


def JPED(g):
    cdci(g)
    g.tags(2, 1)
    g.s32('jpeg_table_id')
    g.u64('jpeg_frame_index_offset')
    g.blob('quantization_tables', 4)
    if g.opt():
        g.ext((1,), 1, 71)
        g.s32('image_start_align')
    g.end()


def RGBA(g):
    didd(g)
    g.tags(2, 1)
    n = g.num(3)
    g.count_(n, 4)
    codes = [g.rint('code', 1, False) for i in range(n)]
    g.num_const(n, 4)
    sizes = [g.rint('size', 1, False) for i in range(n)]
    g.set('pixel_layout', [{'Code': c, 'Size': z} for c, z in zip(codes, sizes)])
    for i in range(3):
        g.const(0, 4)
    known = (1, 2, 3)
    if g.opt():
        g.ext(known, 1, 77)
        g.u64('frame_index_offset')
    if g.opt():
        g.ext(known, 2, 66)
        g.bool('has_comp_min_ref')
        g.tag(72)
        g.u32('comp_min_ref')
        g.tag(66)
        g.bool('has_comp_max_ref')
        g.tag(72)
        g.u32('comp_max_ref')
    if g.opt():
        g.ext(known, 3, 72)
        g.u32('alpha_min_ref')
        g.tag(72)
        g.u32('alpha_max_ref')
    g.end()


def datd(g):
    mdfl(g)
    g.tags(2, 1)
    g.bool('is_offset_to_frame_indexes_valid')
    g.u64('offset_to_frame_indexes')
    g.s32('first_frame_offset')
    g.s32('min_sample_size')
    g.s32('max_sample_size')


def DATD(g):
    datd(g)
    g.end()


def ANCD(g):
    datd(g)
    g.tags(2, 1)
    g.s32('manifest_element_count')
    g.end()


GRFX = blob_record('pict_data', 4)
SHLP = blob_record('shape_data', 4)
CCFX = blob_record('color_correction', 2)
TKPA = blob_record('settings', 2)
WINF = FILE
MDNG = MDFM

KINDS = ['SEQU', 'SCLP', 'TCCP', 'ECCP', 'TRKR', 'PRCL', 'CTRL', 'FILL', 'TKFX', 'PVOL', 'ASPI', 'EQMB', 'MASK',
         'STRB', 'SPED', 'REPT', 'RSET', 'TNFX', 'SLCT', 'CMPO', 'ATTR', 'PRLS', 'TMCS', 'BVst', 'ABIN', 'BINF',
         'FILE', 'WINF', 'URLL', 'GRFX', 'SHLP', 'CCFX', 'FXPS', 'AVUP', 'PRIT', 'MSML', 'APOS', 'ABOB', 'DIDP',
         'MPGP', 'MCBR', 'MCMR', 'TMBC', 'TKMN', 'TKDS', 'TKPS', 'TKDA', 'TKPA', 'MDES', 'MDTP', 'MDFM', 'MDNG',
         'MDFL', 'MULD', 'WAVE', 'AIFC', 'PCMA', 'MPGA', 'DIDD', 'CDCI', 'MPGI', 'JPED', 'RGBA', 'DATD', 'ANCD']


def build(s, kind, mode, order, v, large=None, count=257, ref_fn=None, prefix='', only=None, raw_text=False):
    g = G(s, mode, order, v, large, count)
    g.raw_text = raw_text
    g.only = only
    g.ref_fn, g.prefix = ref_fn, prefix
    globals()[kind](g)
    return g
