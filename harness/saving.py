"""C23: a save that fails, a save that is repeated, a save over the file that is open."""
from . import harness
from . import spec
from .layout import ORDERS, raw_items, raw_list
from .graph import build_graph, read_back, deref, is_obj, COVER, REST
from .fresh import source_file, same_tree


def kind_params(tier):
    return [[k, v] for k in spec.KINDS for v in ([1, 3] if tier == 'quick' else range(8))]


@harness('C23', params=kind_params)
def again(s, p):
    """a stored object of any kind with 3 objects it refers to, all field values, 2 or 8 patterns of optional fields and
    list lengths, saved three times, in any two byte orders: memory is as before, the first and the third file are equal"""
    kind, v = p
    order = s.choice('order', ORDERS)
    outs = s.choice('outs', [['little', 'big'], ['big', 'little'], ['little', 'little'], ['big', 'big']])
    data = s.memo('data-' + order, lambda: source_file(s, kind, order, v))
    avb = s.mod('file').AVBFile
    f = avb(s.stream(data), use_ext=False)
    fresh = avb(s.stream(data), use_ext=False)
    x, ref = f.read_object(4), fresh.read_object(4)
    f.creator_version = fresh.creator_version = u'a version of more than \u00a7 30 letters'
    files = []
    for i, o in enumerate([outs[0], outs[1], outs[0]]):
        path = s.new_file('out%d.avb' % i)
        r = s.attempt(f.write, path, o)
        s.check(r.ok, 'a stored object can be saved, and saved again')
        if not r.ok:
            return
        files.append(s.read_file(path))
    same_tree(s, ref, x, 'saving changes nothing in memory')
    s.check(s.same(s.timestamp(f.last_save), s.timestamp(fresh.last_save)), 'saving changes nothing in memory: save time')
    s.check(s.same(f.creator_version, fresh.creator_version), 'saving changes nothing in memory: creator version')
    s.check(s.same(files[0], files[2]), 'saving again stores the same')
    s.cover('again')


def blank(x, how):
    """Every text field of an object and its helper objects set to nothing or to the empty text, or every list emptied."""
    n = 0
    for k, v in raw_items(x.property_data):
        v = deref(v)
        if how != 'lists' and hasattr(v, 'encode'):
            setattr(x, k, None if how == 'none' else u'')
            n += 1
        elif how == 'lists' and isinstance(v, list) and not is_obj(v) and len(v):
            del v[:]
            n += 1
        elif isinstance(v, list) and not is_obj(v):
            for y in raw_list(v):
                if hasattr(y, 'property_data') and not is_obj(y):
                    n += blank(y, how)
    return n


@harness('C23', params=[[k] for k in spec.KINDS])
def again_blank(s, p):
    """the same for stored objects whose texts are then all set to nothing, to the empty text, or whose lists are emptied (if
    that can be saved)"""
    kind = p[0]
    how = s.choice('how', ['none', 'empty', 'lists'])
    order, out = s.choice('order', [['little', 'big'], ['big', 'little']])
    data = s.memo('data-' + order, lambda: source_file(s, kind, order, 1))
    avb = s.mod('file').AVBFile
    f = avb(s.stream(data), use_ext=False)
    fresh = avb(s.stream(data), use_ext=False)
    x, ref = f.read_object(4), fresh.read_object(4)
    if not hasattr(x, 'property_data') or not blank(x, how):
        return s.check(same_tree(s, ref, x, 'nothing to change') is not None, 'nothing to change')
    blank(ref, how)
    files = []
    for i in range(2):
        path = s.new_file('out%d.avb' % i)
        r = s.attempt(f.write, path, out)
        if not r.ok:
            s.check(i == 0, 'what was saved can be saved again')
            break
        files.append(s.read_file(path))
    same_tree(s, ref, x, 'saving changes nothing in memory')
    if len(files) == 2:
        s.check(s.same(files[0], files[1]), 'saving again stores the same')
        s.cover('again')


def graph(s, pick):
    f = s.mod('file').AVBFile()
    f.last_save = s.datetime('save')
    f.content.uid = s.u('uid', 64)
    return f, build_graph(s, f, pick)


# place, attribute, values that no field of the format can hold
FAULTS = [('fill', 'length', [1 << 40, -1 << 40, u'ten', None]), ('clip', 'track_id', [1 << 15, -1 << 20]),
          ('clip', 'start_time', [1 << 40]), ('clip', 'mob_id', [u'id', 5]), ('m1', 'name', [5, u'\u0416' * 3]),
          ('m1', 'mob_type_id', [1 << 8, -1, None]), ('m1', 'last_modified', [5, None]), ('seq', 'edit_rate', [u'x', None]),
          ('a0', u'n', [1 << 32, -1 << 40, 1.5, (1,)]), ('bin', 'uid', [1 << 64, -1, None]), ('bin', 'items', [5])]
OTHER = ['a0', 'plist', 'seq', 'tracks', 'items']


def fault_params(tier):
    n = len(FAULTS) + len(OTHER)
    return [[i, (i * 3 + j) % len(COVER), (i + j) % 4] for i in range(n) for j in range(1 if tier == 'quick' else 8)]


@harness('C23', params=fault_params)
def refused(s, p):
    """a new file of 1-2 mobs (8 shapes or more) with one field, attribute or list member that cannot be stored (42 values at
    11 places, objects of another file at 5), saved where another file is; then put right and saved"""
    which, cover, a_obj = p
    fixed = dict(zip(['seq', 'a_obj'] + REST, [2, a_obj] + list(COVER[cover])))
    f, parts = graph(s, lambda name, n: fixed[name])
    parts['bin'] = f.content
    order = s.choice('order', ORDERS)
    want = s.new_file('want.avb')
    f.write(want, order)
    out = s.new_file('out.avb')
    old = s.join([b'\x06\x00Domain', s.bytes('old', 4)])
    s.write_file(out, old)
    if which < len(FAULTS):
        name, field, values = FAULTS[which]
        o = parts[name]
        if name == 'a0':
            good = o[field]
            o[field] = s.choice('bad', values)
        else:
            good = getattr(o, field)
            setattr(o, field, s.choice('bad', values))
    else:
        name = OTHER[which - len(FAULTS)]
        g = s.mod('file').AVBFile()
        odd = g.create.Filler(media_kind='picture')
        if name == 'a0':
            parts['a0'][u'z'] = odd
        elif name == 'plist':
            parts['plist'].append(odd)
        elif name == 'seq':
            parts['seq'].components.append(odd)
        elif name == 'tracks':
            good = parts['m1'].tracks[0].component
            parts['m1'].tracks[0].component = odd
        else:
            good = f.content.items[0].mob
            f.content.items[0].mob = odd
    r = s.attempt(f.write, out, order)
    if r.ok:
        # not reachable, or not part of what is stored
        s.check(which >= len(FAULTS) and name == 'plist' or name == 'a0', 'what cannot be stored is refused')
        s.check(s.same(s.read_file(out), s.read_file(want)), 'what is not stored does not matter')
        return
    s.check(s.same(s.read_file(out), old), 'a save that fails leaves the earlier file as it was')
    s.cover('refused')
    if which < len(FAULTS):
        if name == 'a0':
            o[field] = good
        else:
            setattr(o, field, good)
    elif name == 'a0':
        del parts['a0'][u'z']
    elif name == 'plist':
        parts['plist'].pop()
    elif name == 'seq':
        parts['seq'].components.pop()
    elif name == 'tracks':
        parts['m1'].tracks[0].component = good
    else:
        f.content.items[0].mob = good
    r = s.attempt(f.write, out, order)
    s.check(r.ok, 'after a failed save the file can be saved')
    if r.ok:
        s.check(s.same(s.read_file(out), s.read_file(want)), 'after a failed save the same is stored')


@harness('C23', params=ORDERS)
def no_place(s, order):
    """a new file saved in a byte order that does not exist, then over an existing file: refused, then stored"""
    fixed = dict(zip(['seq', 'a_obj'] + REST, [2, 1] + list(COVER[4])))
    f, parts = graph(s, lambda name, n: fixed[name])
    out = s.new_file('out.avb')
    old = s.bytes('old', 4)
    s.write_file(out, old)
    r = s.attempt(f.write, out, s.choice('bad', ['middle', '', None, 'LITTLE']))
    s.check(not r.ok, 'an unknown byte order is refused')
    s.check(s.same(s.read_file(out), old), 'a save that fails leaves the earlier file as it was')
    f.write(out, order)
    g = read_back(s, f, out, order, 'saved after a failed save')
    if g is not None:
        s.cover('saved')
        g.close()


def over_params(tier):
    return [[i, j] for i in range(4) for j in (range(0, len(COVER), 4) if tier == 'quick' else range(len(COVER)))]


@harness('C23', params=over_params)
def over_itself(s, p):
    """a file of 1-2 mobs, opened by path; none, the first mob or all objects are read and a name is edited or not; saved over
    itself in each byte order: the same content as saved elsewhere, and the open file can still be read"""
    a_obj, cover = p
    fixed = dict(zip(['seq', 'a_obj'] + REST, [a_obj, a_obj] + list(COVER[cover])))
    f, parts = graph(s, lambda name, n: fixed[name])
    path = s.new_file('bin.avb')
    f.write(path, s.choice('order', ORDERS))
    twin = s.new_file('twin.avb')
    s.write_file(twin, s.read_file(path))
    avb = s.mod('file').AVBFile
    how = s.choice('read', ['nothing', 'name', 'all'])
    name = s.text('name', 3, 'mac_roman')
    order = s.choice('out', ORDERS)
    for at, out in ((twin, s.new_file('want.avb')), (path, path)):
        g = avb(at, use_ext=False, buffering=0)        # (a buffer would hide what happens to the file)
        if how == 'name':
            g.content.items[0].mob.name = name
        elif how == 'all':
            keep = [g.read_object(i) for i in range(1, len(g.object_positions))]
            s.check(len(keep) > 0, 'there are objects')
        r = s.attempt(g.write, out, order)
        s.check(r.ok, 'a file can be saved over itself')
        if not r.ok:
            return
        if at == path:
            keep2 = how == 'all'
            now = s.attempt(lambda: (g.content.items[0].mob.name, g.content.items[0].mob.tracks[0].index))
            good = s.conj([s.same(now.value[0], before[0]), s.same(now.value[1], before[1])]) if now.ok else False
            s.check(good, 'after it was saved over itself the open file can still be read', known=[('K23a', not keep2)])
        else:
            before = (g.content.items[0].mob.name, g.content.items[0].mob.tracks[0].index)
        g.close()
    s.cover('saved')
    s.check(s.same(s.read_file(path), s.read_file(s.new_file('want.avb'))), 'the same content as saved elsewhere')
