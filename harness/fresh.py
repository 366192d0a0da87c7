"""C15: copies.  C16: new objects."""
from . import harness
from . import spec
from .layout import ORDERS, raw_items, raw_list
from .graph import make_file, Compare, deref, is_obj, build_graph, COVER, REST


class Tree(Compare):
    """Equal content; an object referred to twice may have two counterparts."""

    def obj(self, a, b, where):
        if len(self.keep) > 4000:
            return self.bad(where, 'endless')
        self.keep.append(b)
        if type(a).__name__ != type(b).__name__ or a.class_id != b.class_id:
            return self.bad(where, 'another kind of object')
        where = type(a).__name__
        if where == 'Attributes':
            x, y = raw_items(a), raw_items(b)
            if len(x) != len(y):
                return self.bad(where, 'another number of attributes')
            for (k, v), (k2, v2) in zip(x, y):
                self.s.check(self.s.same(k, k2), self.what + ': attribute name')
                self.value(v, v2, where + ' value')
        elif isinstance(a, list):
            self.seq(a, b, where)
        else:
            self.fields(a, b, where)


def same_tree(s, a, b, what, ignore=()):
    c = Tree(s, what, ignore)
    c.value(a, b, type(a).__name__)
    return c


def parts(v, out):
    """All changeable parts of a tree: objects, helper objects, lists, maps, byte arrays, mob ids."""
    v = deref(v)
    if v is None:
        return out
    if isinstance(v, dict):
        for k, x in raw_items(v):
            parts(x, out)
        out.append(v)
    elif isinstance(v, list):
        for x in raw_list(v):
            parts(x, out)
        out.append(v)
    elif isinstance(v, tuple):
        for x in v:
            parts(x, out)
    elif hasattr(v, 'property_data'):
        for k, x in raw_items(v.property_data):
            parts(x, out)
        out.append(v)
    elif isinstance(v, bytearray) or type(v).__name__ in ('SymByteArray', 'MobID'):
        out.append(v)
    return out


def change(s, v):
    """Change a part in place."""
    if type(v).__name__ == 'MobID':
        v.length = v.length ^ 0xff
        v.material = s.mod('mobid').UUID(int=5) if hasattr(s.mod('mobid'), 'UUID') else v.material
    elif isinstance(v, dict):
        for k, x in raw_items(v):
            v[k] = u'changed'
        v[u'a new key'] = 7
    elif isinstance(v, list):
        if len(v):
            v[0] = 77
        v.append(78)
    elif hasattr(v, 'property_data'):
        for k, x in raw_items(v.property_data):
            setattr(v, k, 79)
    elif len(v):
        v[0] = v[0] ^ 0xff
        v.append(80)
    else:
        v.append(80)


def change_all(s, v):
    for x in parts(v, []):
        change(s, x)


# ------------------------------------------------------------------ C15
def kind_params(tier):
    return [[k, v] for k in spec.KINDS for v in ([0, 3] if tier == 'quick' else range(8))]


def source_file(s, kind, order, v):
    """Records 1-3 leaves, 4 the object (references to the leaves or null), 5 the root with the object."""
    state = [0]

    def ref(name):
        state[0] += 1
        return (1, 2, None, 3, 2)[(state[0] + v) % 5]
    recs = []
    for i, k in enumerate(('ATTR', 'MCBR', 'TCCP')):
        recs.append((k, spec.build(s, k, 'write', order, 2 + i, ref_fn=lambda n: None, prefix='l%d.' % i).bytes()))
    recs.append((kind, spec.build(s, kind, 'write', order, v, ref_fn=ref, prefix='x.').bytes()))
    root = spec.build(s, 'ABIN', 'write', order, 0, ref_fn=lambda n: {'mob': 4}.get(n), prefix='r.')
    recs.append(('ABIN', root.bytes()))
    return make_file(s, order, recs, 5)[0]


@harness('C15', params=kind_params)
def copy_kind(s, p):
    """a stored object of any kind with 3 objects it refers to (and null references), all field values, 2 or 8 patterns
    of optional fields and list lengths, both byte orders, copied into a new file (or the same): equal; then every part
    of the copy (or of the original) is changed: the other one stays as it was"""
    kind, v = p
    order = s.choice('order', ORDERS)
    data = s.memo('data-' + order, lambda: source_file(s, kind, order, v))
    avb = s.mod('file').AVBFile
    f = avb(s.stream(data), use_ext=False)
    fresh = avb(s.stream(data), use_ext=False)
    where = s.choice('to', ['new file', 'same file'])
    g = avb() if where == 'new file' else f
    x, ref = f.read_object(4), fresh.read_object(4)
    r = s.attempt(x.copy, g)
    s.check(r.ok, 'an object can be copied')
    if not r.ok:
        return
    y = r.value
    same_tree(s, x, y, 'the copy is equal')
    same_tree(s, ref, x, 'copying does not change the original')
    for o in parts(y, []):
        if is_obj(o):
            s.check(o.root is g, 'the copy belongs to the target file')
    side = s.choice('change', ['copy', 'original'])
    if side == 'copy':
        change_all(s, y)
        same_tree(s, ref, x, 'changing the copy does not change the original')
    else:
        change_all(s, x)
        same_tree(s, ref, y, 'changing the original does not change the copy')
    s.cover('changed')


@harness('C15', params=kind_params)
def copy_saved(s, p):
    """the same objects, copied into a new file (as a value of an attribute map of its bin), saved in each byte order and reopened: the
    copied object is stored with the same content"""
    kind, v = p
    order = s.choice('order', ORDERS)
    out_order = s.choice('out', ORDERS)
    data = s.memo('data-' + order, lambda: source_file(s, kind, order, v))
    avb = s.mod('file').AVBFile
    f = avb(s.stream(data), use_ext=False)
    x = f.read_object(4)
    g = avb()
    g.last_save = f.last_save
    g.content.attributes[u'x'] = x.copy(g)
    path = s.new_file('out.avb')
    r = s.attempt(g.write, path, out_order)
    s.check(r.ok, 'a file with a copied object can be saved')
    if r.ok:
        h = avb(path, use_ext=False)
        y = h.content.attributes[u'x']
        same_tree(s, x, y, 'the copy is saved')
        s.check(len(h.object_positions) > 1, 'the copy is stored')
        h.close()


def graph_params(tier):
    quick = [[i, j, (i * 4 + j * 5) % len(COVER)] for i in range(1, 4) for j in range(0, 4)]
    return quick if tier == 'quick' else [[i, j, k] for i in range(4) for j in range(4) for k in range(len(COVER))]


@harness('C15', params=graph_params)
def copy_mobs(s, p):
    """new mobs with tracks, sequence, clips, attribute maps, parameter list, descriptor and locator (12 or 160 shapes):
    copied to another new file, equal, and independent of it for every single edit of either"""
    fixed = dict(zip(['seq', 'a_obj'] + REST, [p[0], p[1]] + list(COVER[p[2]])))
    avb = s.mod('file').AVBFile
    f, g = avb(), avb()
    o = build_graph(s, f, lambda n, k: fixed[n])
    x = o['m1']
    y, z = x.copy(g), x.copy(g)
    g.content.add_mob(y)
    same_tree(s, x, y, 'the copy is equal')
    n = len(parts(y, []))
    side = s.choice('change', ['copy', 'original'])
    i = s.choice('i', range(min(n, 40)))
    t = y if side == 'copy' else x
    change(s, parts(t, [])[i])
    if side == 'copy':
        same_tree(s, x, z, 'changing the copy does not change the original')
    else:
        same_tree(s, y, z, 'changing the original does not change the copy')


# ------------------------------------------------------------------ C16
NAMES = ['AIFCDescriptor', 'ANCDataDescriptor', 'ASPIPlugin', 'ASPIPluginChunk', 'AVBRefList', 'Attributes',
         'AudioSuitePluginEffect', 'BOBPosition', 'Bin', 'BinFirst', 'BinItem', 'BinRef', 'BinViewSetting',
         'CDCIDescriptor', 'CFUserParam', 'CaptureMask', 'ColorCorrectionEffect', 'Composition', 'ControlClip',
         'ControlPoint', 'ControlPointProperty', 'DIDDescriptor', 'DIDPosition', 'DataDescriptor', 'Edgecode',
         'EffectParam', 'EffectParamList', 'EqualizerBand', 'EqualizerMultiBand', 'EssenceGroup', 'Filler',
         'FilmDescriptor', 'GraphicEffect', 'JPEGDescriptor', 'MPGADescriptor', 'MPGIDescriptor', 'MPGPosition',
         'MSMLocator', 'MacFileLocator', 'Marker', 'MediaDescriptor', 'MediaFileDescriptor', 'MobRef', 'MotionEffect',
         'MultiDescriptor', 'NagraDescriptor', 'PCMADescriptor', 'PanVolumeEffect', 'ParamClip', 'ParamControlPoint',
         'ParamControlPointProperty', 'ParameterItem', 'ParameterList', 'Position', 'RGBADescriptor', 'Repeat',
         'Selector', 'Sequence', 'ShapeList', 'SiftItem', 'SourceClip', 'StrobeEffect', 'TapeDescriptor',
         'TimeCrumbList', 'Timecode', 'Track', 'TrackEffect', 'TrackGroup', 'TrackRef', 'TrackerData',
         'TrackerDataSlot', 'TrackerManager', 'TrackerParameter', 'TrackerParameterSlot', 'TransitionEffect',
         'URLLocator', 'WaveDescriptor', 'WinFileLocator']
# drawn anew for every object
OWN = ('mob_id', 'uid', 'last_modified', 'creation_time')


def spoil(s, v, n):
    """Change a part to values n (symbolic)."""
    if type(v).__name__ == 'MobID':
        v.length = v.length ^ 0xff
    elif isinstance(v, dict):
        for k, x in raw_items(v):
            v[k] = n
        v[u'a new key'] = n
    elif isinstance(v, list):
        if len(v):
            v[0] = n
        v.append(n)
    elif hasattr(v, 'property_data'):
        for k in list(v.propertydefs_dict):
            setattr(v, k, n)
    else:
        v.append(1)


@harness('C16', params=NAMES)
def defaults(s, name):
    """every kind of object: three are made, in one or two files; one part of the second (any one: the object, its parts, lists,
    maps, ids) is changed to any number; the first, the other parts of the second and another one made afterwards have the
    defaults"""
    avb = s.mod('file').AVBFile
    f = avb()
    g = f if s.choice('files', [1, 2]) == 1 else avb()
    a, b, c = f.create.from_name(name), getattr(g.create, name)(), f.create.from_name(name)
    n = s.i('n', 32)
    s.check(type(a).__name__ == name and type(b).__name__ == name, 'the kind asked for is made')
    s.check(a is not b, 'each call makes a new object')
    same_tree(s, a, b, 'equal defaults', OWN)
    pa, pb = parts(a, []), parts(b, [])
    s.check(len(pa) == len(pb), 'as many parts')
    i = s.choice('i', range(len(pb)))
    ids = [o.mob_id for o in (a, c) if 'mob_id' in getattr(o, 'property_data', ())]
    keep = [m.bytes_le[:] for m in ids]
    spoil(s, pb[i], n)
    same_tree(s, a, c, 'changing a new object does not change another', OWN)
    d = g.create.from_name(name)
    same_tree(s, a, d, 'changing a new object does not change later ones', OWN)
    for m, k in zip(ids, keep):
        s.check(s.same(m.bytes_le, k), 'changing a new object does not change another')
    pc = parts(c, [])
    # the other parts of b that do not contain the changed one
    for j in range(len(pb)):
        if j == i or any(x is pb[i] for x in parts(pb[j], [])):
            continue
        if any(x is pb[j] for x in parts(pb[i], [])):
            continue
        if type(pb[j]).__name__ != 'MobID':
            same_tree(s, pc[j], pb[j], 'changing a part of a new object does not change its other parts', OWN)


@harness('C16', params=[[i, j] for i in range(0, len(NAMES), 13) for j in range(0, len(NAMES), 17)])
def factory(s, p):
    """creation functions taken for two kinds before either is used (30 pairs): each makes its own kind"""
    a, b = NAMES[p[0]], NAMES[p[1]]
    f, g = s.mod('file').AVBFile(), s.mod('file').AVBFile()
    fa, fb, ga = getattr(f.create, a), getattr(f.create, b), getattr(g.create, a)
    for x in s.choice('order', ['ab', 'ba', 'bab', 'gab']):
        o = {'a': fa, 'b': fb, 'g': ga}[x]()
        s.check(type(o).__name__ == {'a': a, 'b': b, 'g': a}[x], 'a creation function makes its own kind')
        s.check(o.root is (g if x == 'g' else f), 'in its own file')
    r = s.attempt(f.create.NoSuchKind)
    s.check(not r.ok, 'an unknown kind is rejected')


TYPES = {'CompositionMob': 1, 'MasterMob': 2, 'SourceMob': 3}
KINDS = [None, 'picture', 'sound', 'timecode', 'DescriptiveMetadata']
COMPONENTS = ['Sequence', 'SourceClip', 'Filler', 'Timecode', 'Edgecode', 'TrackRef', 'ParamClip', 'ControlClip',
              'TrackGroup', 'TrackEffect', 'PanVolumeEffect', 'AudioSuitePluginEffect', 'EqualizerMultiBand',
              'MotionEffect', 'CaptureMask', 'StrobeEffect', 'Repeat', 'TransitionEffect', 'Selector', 'EssenceGroup']


def apart(s, x, y):
    px, py = parts(x, []), parts(y, [])
    s.check(not any(a is b for a in px for b in py), 'two new objects share no part')


@harness('C16', params=COMPONENTS)
def component_args(s, name):
    """every kind of timeline component, any whole edit rate, 5 media kinds: the new object has them"""
    f = s.mod('file').AVBFile()
    rate, kind = s.int('rate', 0, 1 << 31), s.choice('kind', KINDS)
    o = getattr(f.create, name)(edit_rate=rate, media_kind=kind)
    s.check(s.same(o.edit_rate, rate), 'edit rate as given')
    s.check(o.media_kind == kind, 'media kind as given')
    q = getattr(f.create, name)(edit_rate=rate, media_kind=kind)
    apart(s, o, q)
    p = getattr(f.create, name)()
    s.check(p.edit_rate == 25 and p.media_kind is None, 'default edit rate and media kind')


@harness('C16', params=['CompositionMob', 'MasterMob', 'SourceMob', 'Mob', '', None])
def mob_args(s, mob_type):
    """new mobs of any name and every mob type, and unknown types"""
    f = s.mod('file').AVBFile()
    name = s.text('name', 2, 'utf-8')
    if mob_type not in TYPES:
        r = s.attempt(f.create.Composition, name, mob_type)
        s.check(not r.ok, 'unknown mob types are rejected')
        r = s.attempt(f.create.Composition, mob_type=mob_type)
        s.check(not r.ok, 'unknown mob types are rejected')
        return
    m, n = f.create.Composition(name, mob_type), f.create.Composition(name=name, mob_type=mob_type)
    apart(s, m, n)
    for x in (m, n):
        s.check(s.same(x.name, name), 'the name as given')
        s.check(x.mob_type == mob_type and x.mob_type_id == TYPES[mob_type], 'the mob type as given')
        s.check(x.usage_code == 0 and list(x.tracks) == [] and x.length == 0, 'no tracks')
        s.check(x.descriptor is None, 'no descriptor')
    s.check(s.neg(s.same(m.mob_id, n.mob_id)), 'every new mob has its own id')


@harness('C16', params=ORDERS)
def new_file(s, order):
    """an empty new file, saved in each byte order and reopened"""
    avb = s.mod('file').AVBFile
    f = avb()
    f.last_save = s.datetime('save')
    f.content.uid = s.u('uid', 64)
    s.check(len(f.content.items) == 0 and list(f.content.mobs) == [], 'a new bin is empty')
    path = s.new_file('out.avb')
    f.write(path, order)
    g = avb(path, use_ext=False)
    same_tree(s, f.content, g.content, 'an empty new file, saved and reopened')
