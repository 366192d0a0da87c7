"""C24: the printable form of objects."""
from . import harness
from . import spec
from .layout import raw_items
from .fresh import source_file, NAMES

def text_of(s, x):
    """repr() demands a real str: the method is called."""
    return s.attempt(x.__repr__)


def has(s, text, part):
    r = s.attempt(lambda: part in text)
    return r.value if r.ok else False


LISTS = ('ATTR', 'PRLS', 'TMCS')
PLAIN = {'mob_id': None, 'name': u'N', 'length': 7, 'track_id': 1, 'start_time': 0, 'media_kind_id': 1,
         'mob_type_id': 2}


def kind_params(tier):
    return [[k, v] for i, k in enumerate(spec.KINDS) if k not in LISTS for v in ([i % 2 * 3] if tier == 'quick' else range(8))]


@harness('C24', params=kind_params)
def stored(s, p):
    """a stored object of any kind (but attribute maps and lists, which print as such), 1 or 8 patterns of optional fields and
    list lengths, any field values, of MobID, name, length, track, start time, media kind and mob type one at a time; also names of 0 to 6
    characters and lengths 0, 1, 123456"""
    kind, v = p
    data = s.memo('data', lambda: source_file(s, kind, 'little', v))
    f = s.mod('file').AVBFile(s.stream(data), use_ext=False)
    x = f.read_object(4)
    fields = dict(raw_items(x.property_data))
    here = [k for k in sorted(PLAIN) if k in fields]
    free = s.choice('free', here) if here else None
    for k in here:
        if k != free:
            setattr(x, k, PLAIN[k])
    name, n = fields.get('name', None) and PLAIN['name'], None
    if free == 'name':
        name = s.choice('name', [None, u'', u'A name', u'N\u00e4me \u20ac', u'50% of {0} {x} %s', 0])
        if name == 0:
            name = None
        else:
            x.name = name
    elif 'name' in fields:
        name = PLAIN['name']
    if free == 'length':
        n = s.choice('n', [None, 0, 1, 123456])
        if n is not None:
            x.length = n
    elif 'length' in fields:
        n = PLAIN['length']
    r = text_of(s, x)
    s.check(r.ok, 'an object can be printed')
    if r.ok:
        s.cover('printed')
        s.check(has(s, r.value, type(x).__name__), 'the printed form names the kind')
        if name:
            s.check(has(s, r.value, name), 'the printed form has the name')
        if n is not None:
            s.check(has(s, r.value, 'len: %d' % n), 'the printed form has the length')
        now = dict(raw_items(x.property_data))
        s.check(sorted(now) == sorted(fields), 'printing changes nothing')


@harness('C24', params=[[i] for i in range(len(NAMES))])
def created(s, p):
    """a new object of any kind, before anything is set"""
    f = s.mod('file').AVBFile()
    x = f.create.from_name(NAMES[p[0]])
    r = text_of(s, x)
    s.check(r.ok, 'a new object can be printed')
    if r.ok:
        s.cover('printed')
        if not isinstance(x, (list, dict)):
            s.check(has(s, r.value, NAMES[p[0]]), 'the printed form names the kind')
