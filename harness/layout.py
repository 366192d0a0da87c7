"""C06-C08: record layouts.  Reads and writes single records of every kind through
AVBFile.read_object / write_object and compares with harness/spec.py."""
from . import harness
from . import spec
from .spec import Ref, Rec

ORDERS = ['little', 'big']
ITEM_ATTR, ITEM_LIST = '@items', '@list'


def exact_readers(s):
    """The accelerated readers; each gets the record in a block of exactly its size."""
    def wrap(read):
        return lambda root, obj, data: read(root, obj, s.exact(data))
    return dict((k, wrap(v)) for k, v in s.mod('_ext').READERS.items())


def make_root(s, order, data=None, refs=spec.REF_N, ext=False):
    """A real file object with one record (index 1) and object references that resolve to themselves."""
    root = s.mod('file').AVBFile()
    root.fast_readers = exact_readers(s) if ext else {}
    root.ictx = s.mod('ioctx').AVBIOContext(order)
    root.octx = None
    root.debug_copy_refs = True
    root.object_positions = range(refs)
    root.object_cache.clear()
    root.modified_objects.clear()
    if data is not None:
        root.f = s.stream(data)
    return root


def record(s, kind, order, body, size=None):
    fourcc = bytes(kind.encode('ascii'))
    n = len(body) if size is None else size
    # object 1 lies at position 1
    return s.join([b'\xaa', fourcc if order == 'big' else fourcc[::-1], s.pack(n, 4, order == 'big'), body])


def raw_items(obj):
    return [(k.k if type(k).__name__ == 'SymKey' else k, v) for k, v in dict.items(obj)]


def raw_list(obj):
    return list(list.__iter__(obj))


def expect(s, exp, act, where):
    """Check that a value read from a record is the expected one."""
    if isinstance(exp, Ref):
        ok = type(act).__name__ == 'AVBObjectRef'
        if exp.index is None:
            s.check(act is None or (ok and s.same(act.index, 0)), where + ': null reference')
        else:
            s.check(ok, where + ': is a reference')
            if ok:
                s.check(s.same(act.index, exp.index), where + ': reference index')
    elif isinstance(exp, Rec):
        ok = type(act).__name__ == exp.cls
        s.check(ok, where + ': is a ' + exp.cls)
        if ok:
            expect_fields(s, exp.fields, act, where)
    elif isinstance(exp, list):
        ok = isinstance(act, (list, tuple))
        s.check(ok, where + ': is a list')
        if ok:
            act = raw_list(act) if isinstance(act, list) else list(act)
            s.check(len(act) == len(exp), where + ': number of members')
            if len(act) == len(exp):
                for i in range(len(exp)):
                    expect(s, exp[i], act[i], '%s[%d]' % (where, i))
    elif isinstance(exp, dict):
        ok = isinstance(act, dict) and sorted(act.keys()) == sorted(exp.keys())
        s.check(ok, where + ': keys')
        if ok:
            for k in exp:
                expect(s, exp[k], act[k], where + '.' + k)
    elif exp is None:
        s.check(act is None, where + ': absent')
    else:
        s.check(s.same(act, exp), where)


def expect_fields(s, fields, obj, where):
    if ITEM_LIST in fields:
        expect(s, fields[ITEM_LIST], obj, where)
        return
    if ITEM_ATTR in fields:
        got, exp = raw_items(obj), fields[ITEM_ATTR]
        s.check(len(got) == len(exp), where + ': number of attributes')
        if len(got) == len(exp):
            for i in range(len(exp)):
                s.check(s.same(got[i][0], exp[i][0]), where + ': attribute name')
                expect(s, exp[i][1], got[i][1], where + ': attribute value')
        return
    got = dict(raw_items(obj.property_data))
    s.check(set(got) == set(fields), '%s: fields present are exactly those of the record' % where)
    for k in fields:
        if k in got:
            expect(s, fields[k], got[k], where + '.' + k)


def to_value(s, root, v, parent):
    utils = s.mod('utils')
    if isinstance(v, Ref):
        return None if v.index is None else utils.AVBObjectRef(root, v.index)
    if isinstance(v, Rec):
        return to_object(s, root, utils.AVBClassName_dict[v.cls], v.fields)
    if isinstance(v, list):
        if v and isinstance(v[0], Ref):
            cls = s.mod('core').AVBRefList
            out = cls.__new__(cls, root=root, parent=parent)
            for x in v:
                out.append(utils.AVBObjectRef(root, 0 if x.index is None else x.index))
            return out
        return [to_value(s, root, x, parent) for x in v]
    return v


def to_object(s, root, cls, fields):
    obj = cls.__new__(cls, root=root)
    if ITEM_LIST in fields:
        for x in to_value(s, root, fields[ITEM_LIST], None):
            obj.append(x)
        return obj
    if ITEM_ATTR in fields:
        obj.__init__(obj)
        for k, v in fields[ITEM_ATTR]:
            obj[k] = to_value(s, root, v, None)
        return obj
    for k in fields:
        setattr(obj, k, to_value(s, root, fields[k], obj))
    return obj


def cls_of(s, kind):
    return s.mod('utils').AVBClaseID_dict[bytes(kind.encode('ascii'))]


def variants(tier):
    return list(range(6)) if tier == 'quick' else list(range(24))


def kinds(tier):
    return [[k, len(variants(tier))] for k in spec.KINDS]


@harness('C06', params=kinds)
def decode(s, p):
    """every field value of one record of each kind; both byte orders; 6 (quick) or 24 (thorough) patterns of optional
    fields, list lengths 0..3 and text lengths 0..3"""
    kind, nv = p
    order = s.choice('order', ORDERS)
    v = s.choice('v', range(nv))
    check_decode(s, kind, order, spec.build(s, kind, 'read', order, v))


def check_decode(s, kind, order, g):
    root = make_root(s, order, record(s, kind, order, g.bytes()))
    r = s.attempt(root.read_object, 1)
    s.check(r.ok, 'a well-formed record is accepted')
    if r.ok:
        obj = r.value
        s.check(type(obj) is cls_of(s, kind), 'the object has the kind of its record')
        expect_fields(s, g.fields, obj, kind)
        s.check(len(root.modified_objects) == 0, 'reading does not mark the object as modified')
        s.cover('read')


@harness('C07', params=kinds)
def encode(s, p):
    """every field value of one object of each kind; bounds as for decoding"""
    kind, nv = p
    order = s.choice('order', ORDERS)
    v = s.choice('v', range(nv))
    check_encode(s, kind, order, spec.build(s, kind, 'write', order, v))


def check_encode(s, kind, order, g):
    root = make_root(s, order)
    root.octx = root.ictx
    root.reading = True
    obj = to_object(s, root, cls_of(s, kind), g.fields)
    root.reading = False
    f = s.stream()
    r = s.attempt(root.write_object, f, obj)
    s.check(r.ok, 'an object with valid fields can be written')
    if not r.ok:
        return
    out = f.getvalue()
    exp = record(s, kind, order, g.bytes())[1:]
    s.check(len(out) == len(exp), 'record size')
    if len(out) == len(exp):
        s.check(s.same(out, exp), 'the record is the canonical encoding of the fields')
    root2 = make_root(s, order, s.join([b'\xaa', out]))
    r = s.attempt(root2.read_object, 1)
    s.check(r.ok, 'a written record can be read')
    if r.ok:
        expect_fields(s, g.fields, r.value, kind)
        root2.octx = root2.ictx
        f = s.stream()
        r = s.attempt(root2.write_object, f, r.value)
        s.check(r.ok, 'an object that was read can be written')
        if r.ok:
            s.check(s.same(f.getvalue(), out), 'writing what was read gives the same bytes')
            s.cover('rewritten')


def large_params(tier):
    return [[k, o] for k in spec.KINDS for o in (ORDERS if tier == 'thorough' else ORDERS[:1])]


def large_spec(s, kind, mode, order):
    j = s.choice('j', range(10))
    g = spec.build(s, kind, mode, order, 0, j)
    if kind not in ('FILL', 'TKFX') and j < g.base or j >= g.nums:
        s.check(True, 'lengths of the common part are covered by other kinds')
        return None
    return g


@harness('C06', params=large_params)
def decode_large(s, p):
    """one of the lists, texts or data blocks of the record has 257 members, the others 1 (lengths of the part common to
    all components or track groups: for one kind); little-endian (both orders in thorough)"""
    kind, order = p
    g = large_spec(s, kind, 'read', order)
    if g is not None:
        check_decode(s, kind, order, g)


@harness('C07', params=large_params)
def encode_large(s, p):
    """bounds as for large records when decoding"""
    kind, order = p
    g = large_spec(s, kind, 'write', order)
    if g is not None:
        check_encode(s, kind, order, g)


def few_spec(s, kind, mode, order):
    j = s.choice('j', range(14))
    g = spec.build(s, kind, mode, order, s.choice('v', range(4)) if kind == 'ATTR' else 0, j, s.choice('n', [0, 2]))
    if kind not in ('FILL', 'TKFX') and j < g.base or j >= g.nums or kind == 'SLCT' and not g.fields['tracks']:
        s.check(True, 'lengths of the common part are covered by other kinds')
        return None
    return g


@harness('C06', params=large_params)
def decode_few(s, p):
    """one of the lists, texts or data blocks of the record has 0 or 2 members, the others 1; other bounds as for large
    records"""
    kind, order = p
    g = few_spec(s, kind, 'read', order)
    if g is not None:
        check_decode(s, kind, order, g)


@harness('C07', params=large_params)
def encode_few(s, p):
    """bounds as for short records when decoding"""
    kind, order = p
    g = few_spec(s, kind, 'write', order)
    if g is not None:
        check_encode(s, kind, order, g)


def optional_spec(s, kind, mode, order):
    i = s.choice('i', range(20))
    g = spec.build(s, kind, mode, order, 0, 99, only=(i, s.choice('present', [True, False])))
    assert g.opts <= 20
    if i >= g.opts:
        s.check(True, 'the record has no such optional part')
        return None
    return g


@harness('C06', params=large_params)
def decode_optional(s, p):
    """each optional part of the record as the only one that is there, and as the only one that is not; lists and texts of
    one member; little-endian (both orders in thorough)"""
    kind, order = p
    g = optional_spec(s, kind, 'read', order)
    if g is not None:
        check_decode(s, kind, order, g)


@harness('C07', params=large_params)
def encode_optional(s, p):
    """bounds as for optional parts when decoding"""
    kind, order = p
    g = optional_spec(s, kind, 'write', order)
    if g is not None:
        check_encode(s, kind, order, g)


MOB_KINDS = ['SCLP', 'CMPO', 'MSML', 'APOS', 'ABOB', 'DIDP', 'MPGP', 'MCMR', 'TMBC']


@harness('C07', params=MOB_KINDS)
def no_mob_id(s, kind):
    """objects of the kinds that refer to a mob, without a MobID (records of old files have only the legacy id)"""
    g = spec.build(s, kind, 'write', 'little', 0)
    root = make_root(s, 'little')
    root.octx = root.ictx
    root.reading = True
    g.fields.pop('mob_id')
    obj = to_object(s, root, cls_of(s, kind), g.fields)
    root.reading = False
    r = s.attempt(root.write_object, s.stream(), obj)
    s.check(r.ok, 'an object without a MobID can be written', known=[('K07a', True)])


def bad_params(tier):
    if tier == 'quick':
        return [[k, o, v] for k in spec.KINDS for o, v in (('little', 0), ('big', 2))]
    return [[k, o, v] for k in spec.KINDS for o in ORDERS for v in range(8)]


def rec_of(s, kind, order, v):
    g = spec.build(s, kind, 'read', order, v)
    return g, g.bytes()


def rejected(s, root, msg):
    r = s.attempt(root.read_object, 1)
    s.check(not r.ok, msg)


@harness('C08', params=bad_params)
def cut(s, p):
    """every strict prefix of the record (record size adjusted; for four kinds also left as it was), one or two further bytes; all field values"""
    kind, order, v = p
    g, body = s.memo('rec', lambda: rec_of(s, kind, order, v))
    how = s.choice('how', ['prefix', 'longer', 'file'] if kind in ('URLL', 'FILL', 'MCBR', 'ATTR') else ['prefix', 'longer'])
    if how == 'longer':
        body = s.join([body, s.bytes('extra', s.choice('n', [1, 2]))])
        rejected(s, make_root(s, order, record(s, kind, order, body)), 'a record with bytes after its end is rejected')
        return
    k = s.choice('k', range(len(body)))
    data = record(s, kind, order, body[:k], None if how == 'prefix' else len(body))
    rejected(s, make_root(s, order, data), 'a record that is cut short is rejected')


@harness('C08', params=bad_params)
def wrong_mark(s, p):
    """every other value of each version, tag, length-constant and end byte; all field values"""
    kind, order, v = p
    g, body = s.memo('rec', lambda: rec_of(s, kind, order, v))
    i = s.choice('i', range(len(g.marks)))
    off, orig, excl = g.marks[i]
    b = s.bytes('b', 1)
    s.assume(s.conj([b[0] != x for x in (orig,) + tuple(excl)]))
    body = s.join([body[:off], b, body[off + 1:]])
    rejected(s, make_root(s, order, record(s, kind, order, body)), 'a wrong version, tag or end marker is rejected')


@harness('C08', params=bad_params)
def bad_ref(s, p):
    """each reference replaced by any index that is not in the file (file of 2**31 - 1 objects)"""
    kind, order, v = p
    g, body = s.memo('rec', lambda: rec_of(s, kind, order, v))
    if not g.refs:
        s.check(True, 'the record has no references')
        return
    off = g.refs[s.choice('i', range(len(g.refs)))]
    x = s.int('idx', spec.REF_N, (1 << 32) - 1)
    body = s.join([body[:off], s.pack(x, 4, order == 'big'), body[off + 4:]])
    rejected(s, make_root(s, order, record(s, kind, order, body)), 'a reference to an object that does not exist is rejected')


@harness('C08', params=bad_params)
def bad_code(s, p):
    """each type code, set of flags, selection and number of items or bytes replaced by any value that is not one (numbers:
    -1, -2 and the smallest)"""
    kind, order, v = p
    g, body = s.memo('rec', lambda: rec_of(s, kind, order, v))
    if not g.bad:
        s.check(True, 'the record has no codes or numbers')
        return
    first = 0 if kind in ('TKFX', 'CMPO') else g.base_bad
    if first == len(g.bad):
        s.check(True, 'its codes and numbers are those of the common part')
        return
    off, n, what = g.bad[s.choice('i', range(first, len(g.bad)))]
    if what == 'count':
        top = 1 << 8 * n
        x = s.choice('x', [top >> 1, top - 2, top - 1])
    else:
        x = s.int('x', 0, (1 << 8 * n) - 1)
    if what == 'count':
        pass
    elif what[0] == 'flags':
        x = what[1] + (x % 63 + 1) * 1024
    elif what[0] == 'max':
        s.assume(x >= what[1])
    else:
        s.assume(s.conj([x != y for y in what]))
    body = s.join([body[:off], s.pack(x, n, order == 'big'), body[off + n:]])
    rejected(s, make_root(s, order, record(s, kind, order, body)), 'an invalid code or number is rejected')


# ------------------------------------------------------------------ counts
COUNTS = [['items', 65535], ['items', 65536], ['columns', 65535], ['columns', 65536], ['formats', 32767], ['formats', 32768],
          ['sort', 32767], ['sort', 32768], ['crumbs', 32767], ['crumbs', 32768], ['pp', 32767], ['pp', 32768],
          ['sifted', 5], ['sifted', 7]]


@harness('C07', params=[c + [ORDERS[i // 2 % 2]] for i, c in enumerate(COUNTS)])
def counts(s, p):
    """lists with as many members as their count field can express, and with one more, the members alike but for the last
    one, any values: decoded back equal, or rejected when written"""
    what, n, order = p
    AVBFile = s.mod('file').AVBFile
    f, path = AVBFile(), s.new_file()
    v, w = s.int('v', -1 << 15, (1 << 15) - 1), s.int('w', -1 << 15, (1 << 15) - 1)
    c = f.create
    if what in ('items', 'sort', 'sifted'):
        x = f.content
        x.large_bin = False
        if what == 'items':
            a, b = c.BinItem(), c.BinItem()
            a.mob = b.mob = None
            a.x, b.x = v, w
            x.items = [a] * (n - 1) + [b]
        elif what == 'sort':
            x.sort_columns = [[1, u'a']] * (n - 1) + [[0, u'bc']]
        else:
            a, b = c.SiftItem(), c.SiftItem()
            a.method, b.method = v, w
            x.sifted_settings = [a] * (n - 1) + [b]
    elif what in ('columns', 'formats'):
        x = c.BinViewSetting()
        if what == 'columns':
            a = {'title': u'a', 'format': v, 'type': 1, 'hidden': False}
            x.columns = [a] * (n - 1) + [dict(a, format=w)]
        else:
            x.format_descriptors = [{'vcid_free_column_id': v, 'format_descriptor': u''}] * (n - 1) + [
                {'vcid_free_column_id': w, 'format_descriptor': u'z'}]
    elif what == 'crumbs':
        x = c.TimeCrumbList()
        y = c.Attributes()
        x.extend([None] * (n - 1) + [y])
    else:
        x = c.ParamClip(media_kind='picture')
        x.interp_kind, x.value_type = 1, 1
        cp = c.ParamControlPoint()
        cp.offset, cp.timescale, cp.value = [1, 1], 1, 5
        a, b = c.ParamControlPointProperty(), c.ParamControlPointProperty()
        a.code = b.code = 3
        a.type = b.type = 1
        a.value, b.value = v, w
        cp.pp = [a] * (n - 1) + [b]
        x.control_points = [cp]
    if what not in ('items', 'sort', 'sifted'):
        f.content.attributes[u'x'] = x
    r = s.attempt(f.write, path, order)
    fits = n in (65535, 32767) or what == 'items'
    s.check(not fits or r.ok, 'a list that its count field can express is written')
    if not r.ok:
        return
    g = AVBFile(s.stream(s.read_file(path)), use_ext=False)
    y = g.content if what in ('items', 'sort', 'sifted') else g.content.attributes[u'x']
    got = {'items': lambda: y.items, 'sort': lambda: y.sort_columns, 'sifted': lambda: y.sifted_settings,
           'columns': lambda: y.columns, 'formats': lambda: y.format_descriptors, 'crumbs': lambda: raw_list(y),
           'pp': lambda: y.control_points[0].pp}[what]()
    s.check(len(got) == n, 'every member is decoded back')
    if len(got) == n:
        a, b, z = got[0], got[n - 2], got[n - 1]
        if what == 'items':
            s.check(s.conj([s.same(a.x, v), s.same(b.x, v), s.same(z.x, w)]), 'each member is the one written')
        elif what == 'sort':
            s.check([list(a), list(b), list(z)] == [[1, u'a'], [1, u'a'], [0, u'bc']], 'each member is the one written')
        elif what == 'sifted':
            s.check(s.conj([s.same(a.method, v), s.same(z.method, w)]), 'each member is the one written')
        elif what == 'columns':
            s.check(s.conj([s.same(a['format'], v), s.same(b['format'], v), s.same(z['format'], w)]),
                    'each member is the one written')
        elif what == 'formats':
            k = 'vcid_free_column_id'
            s.check(s.conj([s.same(a[k], v), s.same(b[k], v), s.same(z[k], w)]), 'each member is the one written')
        elif what == 'pp':
            s.check(s.conj([s.same(a.value, v), s.same(b.value, v), s.same(z.value, w)]), 'each member is the one written')


BLOCKS = [['CCFX', 'color_correction'], ['TKPA', 'settings'], ['TKPS', 'settings'], ['TKDA', 'settings'], ['TKDA', 'clips']]


@harness('C07', params=[b + [n, ORDERS[i % 2]] for i, b in enumerate(BLOCKS) for n in (32767, 32768)])
def blocks(s, p):
    """data blocks and lists with a 16-bit length, as long as it can express and one longer, first and last byte any:
    decoded back equal, or rejected when written"""
    kind, name, n, order = p
    g = spec.build(s, kind, 'write', order, 0)
    root = make_root(s, order)
    root.octx = root.ictx
    root.reading = True
    x = to_object(s, root, cls_of(s, kind), g.fields)
    if name == 'clips':
        setattr(x, name, [None] * n)
    else:
        a, b = s.u('first', 8), s.u('last', 8)
        setattr(x, name, s.join([s.pack(a, 1, True), b'\x05' * (n - 2), s.pack(b, 1, True)]))
    root.reading = False
    f = s.stream()
    r = s.attempt(root.write_object, f, x)
    s.check(n > 32767 or r.ok, 'a block that its length can express is written')
    if not r.ok:
        return
    root2 = make_root(s, order, s.join([b'\xaa', f.getvalue()]))
    r = s.attempt(root2.read_object, 1)
    s.check(r.ok, 'a written record can be read')
    if r.ok:
        y = r.value.property_data[name] if name != 'clips' else list(raw_list(getattr(r.value, name)))
        s.check(len(y) == n, 'every member is decoded back')
        if name != 'clips' and len(y) == n:
            s.check(s.conj([s.same(y[0], a), s.same(y[n - 1], b)]), 'the block decoded is the one written')
