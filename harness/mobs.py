"""C20: mob lookup and dependencies.  C21: names of kinds."""
from . import harness
from . import spec
from .layout import ORDERS
from .graph import make_file
from .access import hand_seq


MOB_TYPES = ['MasterMob', 'SourceMob', 'CompositionMob']


def new_mob(f, mob_type='MasterMob'):
    return f.create.Composition(mob_type=mob_type)


def small_id(s, n):
    """A mob id that carries n (0..255) in its material number."""
    m = s.mod('mobid').MobID()
    m.length = 0x13
    m.Data1 = n
    m.instanceLow = 1
    return m


def add_track(f, mob, index, component):
    t = f.create.Track()
    t.index = index
    t.component = component
    mob.tracks.append(t)
    return t


# ------------------------------------------------------------------ C20
@harness('C20', params=lambda tier: [[n, h] for n in range(0, 4 if tier == 'quick' else 5) for h in (0, 1, 2)])
def lookup(s, p):
    """bins of 0 to 3 (thorough 4) mobs with any 32-byte ids and of all types, added before, between or after lookups: any id asked for is
    found exactly when a mob has it, and with that id"""
    n, h = p
    f = s.mod('file').AVBFile()
    bin_ = f.content
    mobs = []
    rot = s.choice('types', [0, 1, 2])

    def ask(name):
        q = s.mobid(name)
        got = bin_.find_by_mob_id(q)
        same = [s.same(m.mob_id.bytes_le, q.bytes_le) for m in mobs]
        if got is None:
            s.check(s.neg(s.disj(same)), 'a mob of the bin is found by its id')
        else:
            s.check(any(got is m for m in mobs), 'what is found is a mob of the bin')
            s.check(s.same(got.mob_id.bytes_le, q.bytes_le), 'with the id asked for')
        for i, m in enumerate(mobs):
            other = [s.same(x.mob_id.bytes_le, m.mob_id.bytes_le) for x in mobs if x is not m]
            s.check(s.disj([bin_.find_by_mob_id(m.mob_id) is m] + other), 'every mob of the bin is found by its id')
    for i in range(n):
        if h == 1 or (h == 2 and i == n - 1):
            ask('q%d' % i)
        m = new_mob(f, MOB_TYPES[(rot + i) % 3])
        m.mob_id = s.mobid('m%d' % i)
        item = bin_.add_mob(m)
        s.check(item.mob is m and bin_.items[-1] is item, 'a mob that is added becomes an item of the bin')
        mobs.append(m)
    ask('q')
    s.check([x for x in bin_.mobs] == mobs, 'the mobs of the bin in the order they were added')


@harness('C20', params=['id', 'bytes', 'remove', 'replace', 'insert'])
def changed(s, how):
    """a bin with two mobs in which a mob was looked up before: then one mob gets another id, or is taken out, replaced or
    put in through the list of items"""
    f = s.mod('file').AVBFile()
    bin_ = f.content
    a, b, c = new_mob(f), new_mob(f), new_mob(f)
    ids = []
    for m, n in ((a, 1), (b, 2), (c, 3)):
        m.mob_id = small_id(s, n)
    first = s.choice('looked up', [False, True])
    bin_.add_mob(a)
    bin_.add_mob(b)
    if first:
        bin_.find_by_mob_id(b.mob_id)
    new = s.u('new', 8)
    s.assume(new > 3)
    if how == 'id':
        a.mob_id = small_id(s, new)
    elif how == 'bytes':
        a.mob_id.Data1 = new
    elif how == 'remove':
        del bin_.items[0]
    elif how == 'replace':
        bin_.items[0].mob = c
    else:
        item = f.create.BinItem()
        item.mob = c
        bin_.items.insert(0, item)
    known = [('K20a', first)]
    now = list(bin_.mobs)
    for m in now:
        s.check(bin_.find_by_mob_id(m.mob_id) is m, 'every mob of the bin is found by its id', known=known)
    for m in (a, b, c):
        if not any(m is x for x in now):
            s.check(bin_.find_by_mob_id(m.mob_id) is None, 'a mob that is not in the bin is not found', known=known)
    if how in ('id', 'bytes'):
        s.check(bin_.find_by_mob_id(small_id(s, 1)) is None, 'a mob is not found by the id it had', known=known)


@harness('C20', params=lambda tier: [[o, n] for o in ORDERS for n in ((1, 2) if tier == 'quick' else (1, 2, 3))])
def opened(s, p):
    """stored bins of 1 or 2 (thorough 3) mobs with any ids, types and usage codes: every
    mob is found by its id and listed under its type, in order"""
    order, n = p
    recs, ids, fields = [], [], []
    for i in range(n):
        g = spec.build(s, 'CMPO', 'write', order, 0, large=9, count=1, ref_fn=lambda x: None, prefix='m%d.' % i)
        recs.append(('CMPO', g.bytes()))
        fields.append(g.fields)
    state = [0]

    def ref(name):
        if name == 'mob':
            state[0] += 1
            return state[0] if state[0] <= n else None
    g = spec.build(s, 'ABIN', 'write', order, 0, large=0, count=n, ref_fn=ref, prefix='r.')
    recs.append(('ABIN', g.bytes()))
    f = s.mod('file').AVBFile(s.stream(make_file(s, order, recs, n + 1)[0]), use_ext=False)
    bin_ = f.content
    mobs = [f.read_object(i + 1) for i in range(n)]
    s.check(list(bin_.mobs) == mobs, 'the mobs of the bin, in order')
    types = [x['mob_type_id'] for x in fields]
    for t in types:
        s.assume(s.conj([t >= 1, t <= 3]))
    kinds = [('CompositionMob', 1, bin_.compositionmobs), ('MasterMob', 2, bin_.mastermobs)]
    for name, num, fn in kinds:
        got = list(fn())
        for i in range(n):
            s.check(s.same(types[i] == num, any(x is mobs[i] for x in got)), 'listed exactly under its type')
        s.check([x for x in mobs if any(x is y for y in got)] == got, 'once and in order')
    got = list(bin_.toplevel())
    for i in range(n):
        want = s.conj([types[i] == 1, fields[i]['usage_code'] == 0])
        s.check(s.same(want, any(x is mobs[i] for x in got)), 'top level: compositions without a usage code')
    q = s.mobid('q')
    r = bin_.find_by_mob_id(q)
    same = [s.same(m.mob_id.bytes_le, q.bytes_le) for m in mobs]
    if r is None:
        s.check(s.neg(s.disj(same)), 'a mob of the bin is found by its id')
    else:
        s.check(s.same(r.mob_id.bytes_le, q.bytes_le), 'with the id asked for')


@harness('C20', params=[0, 1, 2])
def source_track(s, k):
    """a clip with any track number and 3 media kinds, a mob with 3 tracks (any numbers; media kinds of all three; one without
    a number or component; another mob of the bin has no id): mob and track of the clip"""
    f = s.mod('file').AVBFile()
    c = f.create
    names = ['picture', 'sound', None]
    m = new_mob(f)
    m.mob_id = s.mobid('id')
    tracks = []
    for i in range(3):
        t = c.Track()
        if not (k == 1 and i == 0):
            t.index = s.i('t%d' % i, 16)
        if k == 2 and i == 0:
            t.component = None
        elif not (k == 2 and i == 1):
            t.component = c.Filler(media_kind=names[s.choice('kind%d' % i, [0, 1])])
        m.tracks.append(t)
        tracks.append(t)
    bare = c.Composition()
    del bare.property_data['mob_id']
    f.content.add_mob(bare)
    f.content.add_mob(m)
    clip = c.SourceClip(media_kind=names[s.choice('kind', [0, 1, 2])])
    clip.mob_id = s.mobid('ref')
    clip.track_id = s.i('n', 16)
    mob, track = clip.mob, clip.track
    here = s.same(clip.mob_id.bytes_le, m.mob_id.bytes_le)
    s.check(mob is None or mob is m, 'the mob is the one with the id')
    s.check(s.same(here, mob is m), 'the mob is found by its id')
    match = []
    for t in tracks:
        if hasattr(t, 'index') and getattr(t, 'component', None) is not None and \
                t.component.media_kind == clip.media_kind:
            match.append((t, t.index == clip.track_id))
    if track is None:
        s.check(s.disj([s.neg(here), s.neg(s.disj([x for t, x in match]))]), 'a matching track is found')
    else:
        before = []
        found = False
        for t, x in match:
            if t is track:
                found = True
                s.check(x, 'the track has the number of the clip')
                break
            before.append(x)
        s.check(found, 'the track has the media kind of the clip')
        s.check(here, 'the track belongs to the mob with the id')
        s.check(s.neg(s.disj(before)), 'the first matching track')


PLACES = ['track', 'sequence', 'effect', 'attribute', 'params', 'nested']


def put_clip(f, mob, clip, place, i):
    c = f.create
    if place == 'track':
        add_track(f, mob, i, clip)
    elif place == 'sequence':
        q = c.Sequence()
        q.components.append(c.Filler())
        q.components.append(clip)
        add_track(f, mob, i, q)
    elif place == 'effect':
        e = c.TrackEffect()
        add_track(f, e, 1, clip)
        add_track(f, mob, i, e)
    elif place == 'attribute':
        x = c.Filler()
        x.attributes[u'ref'] = clip
        add_track(f, mob, i, x)
    elif place == 'params':
        x = c.Filler()
        x.param_list = c.ParameterList()
        x.param_list.append(clip)
        add_track(f, mob, i, x)
    else:
        q = c.Sequence()
        e = c.Selector()
        r = c.Sequence()
        r.components.append(clip)
        add_track(f, e, 1, c.Filler())
        add_track(f, e, 2, r)
        q.components.append(e)
        add_track(f, mob, i, q)


def dep_params(tier):
    shapes = [[1, 1, 1], [2, 1, 0], [2, 2], [1, 1]] if tier == 'quick' else \
        [[1, 1, 1], [2, 1, 0], [2, 2], [1, 1], [2, 1, 1], [2, 2, 1], [1, 1, 1, 1]]
    return [[sh, p] for sh in shapes for p in range(len(PLACES))]


@harness('C20', params=dep_params)
def dependencies(s, p):
    """2 or 3 (thorough 4) mobs with up to 2 clips each, in 6 places of the mob, each clip referring to any mob (cycles
    included) or to one that is not in the bin: the dependencies of a mob are the mobs reachable through its clips, each once, and, if
    there are no cycles, each after its own dependencies"""
    shape, pl = p
    f = s.mod('file').AVBFile()
    n = len(shape)
    mobs, edges = [], []
    for i in range(n):
        m = new_mob(f)
        m.mob_id = small_id(s, i + 1)
        mobs.append(m)
    for i in range(n):
        targets = []
        for k in range(shape[i]):
            t = s.choice('clip%d.%d' % (i, k), list(range(n)) + [None])
            c = f.create.SourceClip()
            c.mob_id = small_id(s, 99 if t is None else t + 1)
            put_clip(f, mobs[i], c, PLACES[(pl + k + i) % len(PLACES)], k + 1)
            if t is not None:
                targets.append(t)
        edges.append(targets)
    for m in mobs[::-1]:
        f.content.add_mob(m)

    def reach(i):
        seen, todo = [], [i]
        while todo:
            for t in edges[todo.pop()]:
                if t not in seen:
                    seen.append(t)
                    todo.append(t)
        return seen
    cyclic = any(i in reach(i) for i in range(n))
    for i in range(n):
        got = []
        for m in mobs[i].dependant_mobs():
            got.append([x is m for x in mobs].index(True))
            if len(got) > 2 * n:
                break
        s.check(sorted(got) == sorted(t for t in reach(i) if t != i), 'the mobs reachable through its clips, each once')
        if not cyclic:
            for k, t in enumerate(got):
                s.check(all(d in got[:k] for d in edges[t]), 'after their own dependencies')
    e = f.create.TrackEffect()
    c = f.create.SourceClip()
    c.mob_id = small_id(s, 1)
    add_track(f, e, 1, c)
    r = s.attempt(lambda: [m for m in e.dependant_mobs()])
    s.check(r.ok, 'the dependencies of an effect can be listed')
    if r.ok:
        s.check(sorted([x is m for x in mobs].index(True) for m in r.value) == sorted(set(reach(0)) | set([0])),
                'the mobs reachable through its clips, each once')


# ------------------------------------------------------------------ C21
MEDIA = {0: None, 1: 'picture', 2: 'sound', 3: 'timecode', 4: 'edgecode', 5: 'attribute', 6: 'effectdata',
         7: 'DescriptiveMetadata', 16: 'DataEssenceTrack'}
USAGE = {0: None, 1: 'precompute', 2: 'subclip', 3: 'effect', 4: 'group', 5: 'groupoofter', 6: 'motion',
         7: 'mastermob', 9: 'precompute_file'}
TYPES = {1: 'CompositionMob', 2: 'MasterMob', 3: 'SourceMob'}
VALUES = {1: 'int', 2: 'double', 4: 'reference'}
INTERP = {2: 'ConstantInterp', 3: 'LinearInterp', 5: 'BezierInterpolator', 6: 'CubicInterpolator'}
POINTS = {5: 'PP_IN_TANGENT_POS_U', 6: 'PP_IN_TANGENT_VAL_U', 7: 'PP_OUT_TANGENT_POS_U', 8: 'PP_OUT_TANGENT_VAL_U',
          9: 'PP_TANGENT_MODE_U', 14: 'PP_BASE_FRAME_U'}


def by_table(s, n, table, got, other, what):
    """got is the name of n."""
    for k in sorted(table):
        s.check(s.disj([n != k, s.same(got, table[k])]), '%s %d is %s' % (what, k, table[k]))
    rest = s.conj([n != k for k in table])
    s.check(s.disj([s.neg(rest), s.same(got, other)]), 'other numbers have no name: ' + what)


@harness('C21', params=['component', 'track', 'effect'])
def media_number(s, where):
    """every stored media kind number of a component, effect or the component of a track"""
    f = s.mod('file').AVBFile()
    c = f.create
    n = s.i('n', 16)
    o = c.TrackEffect() if where == 'effect' else c.Filler()
    o.media_kind_id = n
    got = o.media_kind
    if where == 'track':
        t = c.Track()
        t.component = o
        got = t.media_kind
    known = s.disj([n == k for k in MEDIA])
    for k in sorted(MEDIA):
        s.check(s.disj([n != k, s.same(got, MEDIA[k])]), 'media kind %d is %s' % (k, MEDIA[k]))
    m = s.i('m', 16)
    p = c.Filler()
    p.media_kind_id = m
    other = p.media_kind
    s.check(s.disj([n == m, s.neg(s.same(got, other))]), 'two media kinds never have the same name')
    # the name leads back to the number
    r = s.attempt(setattr, p, 'media_kind', got)
    if r.ok:
        s.check(s.same(p.media_kind_id, n), 'a media kind name leads back to its number')
    else:
        s.check(s.neg(known), 'every known media kind name is accepted')


@harness('C21', params=lambda tier: list(range(0, 20)))
def media_name(s, n):
    """every text of 0 to 19 characters given as media kind"""
    f = s.mod('file').AVBFile()
    o = f.create.Filler(media_kind='sound')
    t = s.text('t', n, 'utf-8')
    r = s.attempt(setattr, o, 'media_kind', t)
    names = [k for k in MEDIA if MEDIA[k] is not None]
    ok = s.disj([s.same(t, MEDIA[k]) for k in names])
    s.check(s.same(r.ok, ok) if r.ok else s.neg(ok), 'exactly the known media kind names are accepted')
    if r.ok:
        for k in names:
            s.check(s.disj([s.neg(s.same(t, MEDIA[k])), s.same(o.media_kind_id, k)]), 'the number of the name')
        s.check(s.same(o.media_kind, t), 'and the name is given back')
    else:
        s.check(s.same(o.media_kind_id, 2), 'a name that is not known changes nothing')


@harness('C21', params=[0])
def mob_kinds(s, p):
    """every stored mob type and usage code"""
    f = s.mod('file').AVBFile()
    m = f.create.Composition()
    n = s.u('type', 8)
    m.mob_type_id = n
    r = s.attempt(lambda: m.mob_type)
    ok = s.disj([n == k for k in TYPES])
    if r.ok:
        s.check(ok, 'unknown mob types are rejected')
        for k in TYPES:
            s.check(s.disj([n != k, s.same(r.value, TYPES[k])]), 'mob type %d' % k)
    else:
        s.check(s.neg(ok), 'known mob types have a name')
    u = s.i('usage', 32)
    m.usage_code = u
    by_table(s, u, USAGE, m.usage, 'unknown', 'usage code')


@harness('C21', params=[0])
def curve_kinds(s, p):
    """every stored interpolation, value type and control point property number"""
    f = s.mod('file').AVBFile()
    c = f.create
    n, v, t, k = s.i('interp', 32), s.i('type', 16), s.i('pptype', 16), s.i('code', 16)
    o = c.ParamClip()
    o.interp_kind = n
    by_table(s, n, INTERP, o.interp, 'unknown', 'interpolation')
    o.value_type = v
    by_table(s, v, VALUES, o.value_type_name, 'unknown', 'value type')
    q = c.ParamControlPointProperty()
    q.code, q.type, q.value = k, t, 1.5
    by_table(s, k, POINTS, q.name, None, 'point property')
    by_table(s, t, VALUES, q.type_name, 'unknown', 'property type')
    i = c.ParameterItem()
    i.value_type = v
    by_table(s, v, VALUES, i.value_type_name, 'unknown', 'parameter type')
