"""C17: sequence positions.  C18, C19: parameter curves."""
from . import harness
from .layout import ORDERS
from .graph import make_file, leaf_file
from .access import hand_seq
from . import spec

# c: clip, t: transition, s: nested sequence, f: filler, e: track effect
SEQS_Q = ['', 'f', 'c', 'cc', 'ctc', 'fcf', 'ftf', 'cct', 'fcctcf', 'sts', 'ctctc', 'efc', 'fcftf', 'cfctc', 'este']
SEQS_T = SEQS_Q + ['fctctcf', 'cccccc', 'ctcctc', 'cscsts', 'ffctff', 'ctctctc']


def sequence(s, pattern):
    """A created sequence; returns it with the lengths of its components."""
    f = s.mod('file').AVBFile()
    c = f.create
    seq = c.Sequence(media_kind='picture')
    lens = []
    for i, k in enumerate(pattern):
        n = s.z('len%d' % i, 0, 1 << 30)
        if k == 's':
            o = c.Sequence(media_kind='picture')
            a, b = c.Filler(media_kind='picture'), c.Filler(media_kind='picture')
            a.length = s.z('sub%d' % i, 0, 1 << 30)
            b.length = n - a.length
            s.assume(a.length <= n)
            o.components.append(a)
            o.components.append(b)
        else:
            o = getattr(c, {'f': 'Filler', 'c': 'SourceClip', 't': 'TransitionEffect', 'e': 'TrackEffect'}[k])(
                media_kind='picture')
            o.length = n
        seq.components.append(o)
        lens.append(n)
    return f, seq, lens


def starts(pattern, lens):
    """Start of every component and the total length."""
    out, pos = [], 0
    for k, n in zip(pattern, lens):
        if k == 't':
            pos = pos - n
            out.append(pos)
        else:
            out.append(pos)
            pos = pos + n
    return out, pos


@harness('C17', params=lambda tier: SEQS_Q if tier == 'quick' else SEQS_T)
def positions(s, pattern):
    """created sequences of up to 6 (thorough 7) components (clips, fillers, nested sequences, effects, transitions in
    the stated patterns), all lengths 0 to 2**30: starts and total length"""
    f, seq, lens = sequence(s, pattern)
    exp, total = starts(pattern, lens)
    for turn in range(2):
        got = list(seq.positions())
        s.check(len(got) == len(pattern), 'every component has a position')
        for i in range(min(len(got), len(pattern))):
            s.check(got[i][0] == i, 'components come in order')
            s.check(got[i][2] is seq.components[i], 'with the component itself')
            s.check(s.same(got[i][1], exp[i]), 'a component starts where the ones before it end')
    s.check(s.same(seq.length, total), 'the sequence is as long as its components, transitions overlapping')


@harness('C17', params=lambda tier: [p for p in (SEQS_Q if tier == 'quick' else SEQS_T) if p[-1:] != 't'])
def lookup(s, pattern):
    """the same sequences, transitions no longer than their neighbours: the component found for every time from -2**31
    to 2**32"""
    f, seq, lens = sequence(s, pattern)
    for i, k in enumerate(pattern):
        if k == 't':
            s.assume(s.conj([lens[i] <= lens[i - 1], lens[i] <= lens[i + 1]]))
    check_lookup(s, seq, pattern, lens)


def check_lookup(s, seq, pattern, lens, t=None):
    exp, total = starts(pattern, lens)
    if t is None:
        t = s.z('t', -1 << 31, 1 << 32)
    if not pattern:
        r = s.attempt(seq.nearest_index_at_time, t)
        s.check(r.ok and r.value == (0, 0), 'an empty sequence has position 0')
        return
    index, pos = seq.nearest_index_at_time(t)
    comp, pos2 = seq.nearest_component_at_time(t)
    s.check(comp is seq.components[index], 'the component of that index')
    s.check(s.same(pos, pos2), 'the same position both ways')
    solid = [n > 0 for n in lens]
    none = s.conj([n == 0 for n in lens])
    s.check(s.disj([none, s.same(pos, exp[index])]), 'the position is the start of the component')
    s.check(s.disj([none, solid[index]]), 'components without length are not found')

    def inside(i): return s.conj([exp[i] <= t, t < exp[i] + lens[i]])
    within = s.conj([t >= 0, t < total])
    s.check(s.disj([s.neg(within), inside(index)]), 'the time lies in the component found')
    for i, k in enumerate(pattern):
        if k == 't' and pattern[index] != 't':
            s.check(s.neg(inside(i)), 'a transition is found rather than the clips it joins')
        if i < index:
            s.check(s.disj([none, t >= 0, s.neg(solid[i])]), 'before the start: the first component')
        if i > index:
            s.check(s.disj([none, t < total, s.neg(solid[i])]), 'after the end: the last component')


@harness('C17', params=['f', 'cc', 'ctc', 'fcf', 'cct'])
def changed(s, pattern):
    """positions, length and lookup asked, then one component changed in length, replaced, inserted or taken out, and
    asked again; all lengths"""
    f, seq, lens = sequence(s, pattern)
    got = list(seq.positions())
    seq.length
    look = s.attempt(seq.nearest_component_at_time, 0)
    s.check(look.ok and len(got) == len(pattern), 'a sequence with components is searched')
    at = s.choice('at', list(range(len(pattern))))
    how = s.choice('how', ['length', 'replace', 'insert', 'remove'])
    pat, n = list(pattern), s.z('new', 0, 1 << 30)
    lens = list(lens)
    o = f.create.Filler(media_kind='picture')
    o.length = n
    if how == 'length':
        seq.components[at].length = n
        lens[at] = n
    elif how == 'replace':
        seq.components[at] = o
        pat[at], lens[at] = 'f', n
    elif how == 'insert':
        seq.components.insert(at, o)
        pat.insert(at, 'f')
        lens.insert(at, n)
    else:
        del seq.components[at]
        del pat[at], lens[at]
    exp, total = starts(pat, lens)
    got = list(seq.positions())
    s.check(len(got) == len(pat), 'every component has a position')
    for i in range(min(len(got), len(pat))):
        s.check(s.conj([got[i][0] == i, s.same(got[i][1], exp[i])]), 'a component starts where the ones before it end')
        s.check(got[i][2] is seq.components[i], 'with the component itself')
    s.check(s.same(seq.length, total), 'the sequence is as long as its components, transitions overlapping')
    if 't' not in pat:
        check_lookup(s, seq, pat, lens, s.z('t', -100, 1 << 32))


@harness('C17', params=[[o, n] for o in ORDERS for n in (1, 4)])
def opened(s, p):
    """an opened sequence of up to 4 fillers (the first one repeated), all lengths"""
    order, n = p
    recs = leaf_file(s, order, n, None)
    recs.append(('SEQU', hand_seq(s, order, 's.', list(range(1, n + 1)) + [1])[0]))
    root = spec.build(s, 'ABIN', 'write', order, 0, large=0, count=1, ref_fn=lambda x: {'mob': n + 1}.get(x), prefix='r.')
    recs.append(('ABIN', root.bytes()))
    data, _ = make_file(s, order, recs, n + 2)
    f = s.mod('file').AVBFile(s.stream(data), use_ext=False)
    seq = f.content.items[0].mob
    lens = [f.read_object(i).length for i in range(1, n + 1)]
    lens.append(lens[0])
    for n in lens:
        s.assume(n >= 0)
    check_lookup(s, seq, 'f' * len(lens), lens, s.int('t', -1 << 31, 1 << 32))


# ------------------------------------------------------------------ C18
CONSTANT, LINEAR, BEZIER, CUBIC = 'ConstantInterp', 'LinearInterp', 'BezierInterpolator', 'CubicInterpolator'
KINDS = {}


def curve(s, kind, points, value_type='double'):
    """points: (num, den, timescale, value, properties)"""
    comp = s.mod('components')
    f = s.mod('file').AVBFile()
    p = f.create.ParamClip(media_kind='effectdata')
    codes = [k for k, v in comp.INTERPOLATION_MAP.items() if v == kind]
    p.interp_kind = codes[0] if codes else 99
    p.value_type = 1 if value_type == 'int' else 2
    p.control_points = []
    for num, den, scale, value, props in points:
        cp = f.create.ParamControlPoint()
        cp.offset = [num, den]
        cp.timescale = scale
        cp.value = value
        cp.pp = []
        for code, v in props:
            pp = f.create.ParamControlPointProperty()
            pp.code = code
            pp.type = 2
            pp.value = v
            cp.pp.append(pp)
        p.control_points.append(cp)
    return p


def close(s, a, b, tol=1e-6):
    return s.conj([a - b <= tol, b - a <= tol])


GAPS = [[1, 1, 1, 1, 1], [1, 2, 5, 3, 9], [25, 1, 100, 7, 2], [3, 480, 24, 1, 6]]


@harness('C18', params=lambda tier: [[k, n, v] for k in (CONSTANT, LINEAR) for n in range(1, 5 if tier == 'quick' else 7)
                                     for v in ('double', 'int')])
def steps_and_lines(s, p):
    """constant and linear curves of 1 to 4 (thorough 6) points at increasing whole times (constant: all from -1000 to
    1000; linear: from there on, 4 patterns of distances), all values (integers, or multiples of 1/4) up to 10**6,
    evaluated at every multiple of 1/4"""
    kind, n, vt = p
    if kind == CONSTANT:
        times = [s.z('t%d' % i, -1000, 1000) for i in range(n)]
        for i in range(n - 1):
            s.assume(times[i] < times[i + 1])
    else:
        first, gaps = s.z('t0', -1000, 1000), s.choice('gaps', GAPS)
        times = [first + sum(gaps[:i]) for i in range(n)]
    vals = [s.z('v%d' % i, -10 ** 6, 10 ** 6) if vt == 'int' else s.dyadic('v%d' % i, -10 ** 6, 10 ** 6)
            for i in range(n)]
    c = curve(s, kind, [(times[i], 1, 1, vals[i], []) for i in range(n)], vt)
    t = s.dyadic('t', -1100, 1100)
    got = c.value_at(t)
    k = c.nearest_index(t)
    for i in range(n):
        s.check(s.disj([s.neg(times[i] <= t), k >= i]), 'nearest index: the last point not after the time')
        s.check(s.disj([s.neg(times[i] > t), k < i] + ([k == 0] if i == 0 else [])),
                'nearest index: no point after the time, except the first')
        s.check(s.disj([t != times[i], s.same(got, float_of(vals[i]))]), 'at a control point: its value')
    s.check(s.disj([t > times[0], s.same(got, float_of(vals[0]))]), 'before the first point: its value')
    s.check(s.disj([t < times[n - 1], s.same(got, float_of(vals[n - 1]))]), 'after the last point: its value')
    for i in range(n - 1):
        between = s.conj([times[i] < t, t < times[i + 1]])
        a, b = vals[i], vals[i + 1]
        if kind == CONSTANT:
            s.check(s.disj([s.neg(between), s.same(got, float_of(a))]), 'constant: the value of the point before')
        else:
            d = times[i + 1] - times[i]
            # (got - a) * d == (b - a) * (t - t_i), up to rounding
            x = (got - a) * d - (b - a) * (t - times[i])
            s.check(s.disj([s.neg(between), s.conj([x <= 1e-4, x >= -1e-4])]), 'linear: on the line')


def float_of(v):
    return v * 1.0


@harness('C18', params=[[k, n] for k in (CONSTANT, LINEAR, BEZIER, CUBIC) for n in (1, 2, 3)])
def ends(s, p):
    """every interpolation: control points whose time is a fraction (numerator, denominator and time scale free),
    evaluated before the first and after the last point and at the last point"""
    kind, n = p
    den, scale = s.choice('den', [1, 2, 25, 30, -4]), s.choice('scale', [1, 2, 24])
    nums = [s.z('n%d' % i, -1000, 1000) for i in range(n)]
    for i in range(n - 1):
        s.assume(nums[i] * (1 if den > 0 else -1) < nums[i + 1] * (1 if den > 0 else -1))
    vals = [s.dyadic('v%d' % i, -1000, 1000) for i in range(n)]
    c = curve(s, kind, [(nums[i], den, scale, vals[i], []) for i in range(n)])
    t = s.z('t', -60000, 60000)
    for i in range(n):
        # exact time: num * scale / den
        s.check(close(s, c.control_points[i].time * den, nums[i] * scale), 'time of a control point')
    where = s.choice('where', ['before', 'after'])
    if where == 'before':
        s.assume(t * abs(den) <= nums[0] * scale * (1 if den > 0 else -1) - 1)
        s.check(s.same(c.value_at(t), float_of(vals[0])), 'before the first point: its value')
    else:
        s.assume(t * abs(den) >= nums[n - 1] * scale * (1 if den > 0 else -1) + 1)
        s.check(s.same(c.value_at(t), float_of(vals[n - 1])), 'after the last point: its value')


@harness('C18', params=[[k, n] for k in (CONSTANT, LINEAR) for n in (6, 7, 17, 70)])
def many(s, p):
    """constant and linear curves of 6, 7, 17 and 70 points 3 frames apart, all values, evaluated at every multiple of 1/4"""
    kind, n = p
    times = [3 * i - 10 for i in range(n)]
    vals = [s.dyadic('v%d' % i, -10 ** 4, 10 ** 4) for i in range(n)]
    c = curve(s, kind, [(times[i], 1, 1, vals[i], []) for i in range(n)])
    t = s.dyadic('t', -100, 300)
    got = c.value_at(t)
    s.check(s.disj([t > times[0], s.same(got, float_of(vals[0]))]), 'before the first point: its value')
    s.check(s.disj([t < times[n - 1], s.same(got, float_of(vals[n - 1]))]), 'after the last point: its value')
    for i in range(n - 1):
        inside = s.conj([times[i] <= t, t < times[i + 1]])
        a, b = vals[i], vals[i + 1]
        if kind == CONSTANT:
            s.check(s.disj([s.neg(inside), s.same(got, float_of(a))]), 'constant: the value of the point before')
        else:
            x = (got - a) * 3 - (b - a) * (t - times[i])
            s.check(s.disj([s.neg(inside), s.conj([x <= 1e-4, x >= -1e-4])]), 'linear: on the line')


CHANGES = ['value', 'time', 'scale', 'kind', 'insert', 'append', 'remove', 'replace', 'swap', 'handle', 'base']


@harness('C18', params=[[k, h] for k in (CONSTANT, LINEAR, BEZIER) for h in CHANGES if h != 'handle' or k == BEZIER])
def changed_curve(s, p):
    """a curve of three points evaluated (and integrated), one thing of it changed, evaluated again: the same as a new
    curve with those points"""
    kind, how = p

    def props(k, dx=2.0):
        if kind != BEZIER:
            return [(14, 5.0)] if k == 0 else []
        return [(5, -dx), (6, 0.5), (7, dx), (8, -0.5)] + ([(14, 5.0)] if k == 0 else [])
    vals = [s.dyadic('v%d' % i, -1000, 1000) for i in range(3)]
    x = s.dyadic('x', -1000, 1000)
    pts = [[8 * k, 1, 1, vals[k], props(k)] for k in range(3)]
    c = curve(s, kind, pts)
    t = s.choice('t', [-1.0, 2.0, 6.0, 8.0, 11.0, 16.0])
    c.value_at(t)
    c.nearest_index(t)
    f = c.root
    ps = c.control_points
    new = curve(s, kind, [[12, 1, 1, x, props(3)]]).control_points[0]
    if how == 'value':
        ps[1].value = x
        pts[1][3] = x
    elif how == 'time':
        ps[1].offset = [5, 1]
        pts[1][0] = 5
    elif how == 'scale':
        ps[2].timescale = 1
        ps[2].offset = [40, 2]
        pts[2][:2] = [40, 2]
    elif how == 'kind':
        other = CONSTANT if kind == LINEAR else LINEAR
        c.interp_kind = curve(s, other, []).interp_kind
        kind = other
    elif how == 'insert':
        ps.insert(2, new)
        pts.insert(2, [12, 1, 1, x, props(3)])
    elif how == 'append':
        new.offset = [20, 1]
        ps.append(new)
        pts.append([20, 1, 1, x, props(3)])
    elif how == 'remove':
        del ps[1]
        del pts[1]
    elif how == 'replace':
        c.control_points = [ps[0], new]
        pts = [pts[0], [12, 1, 1, x, props(3)]]
    elif how == 'swap':
        ps[0].value, ps[2].value = ps[2].value, ps[0].value
        pts[0][3], pts[2][3] = pts[2][3], pts[0][3]
    elif how == 'handle':
        for pp in ps[1].pp:
            pp.value = pp.value * 1.5
        pts[1][4] = [(a, b * 1.5) for a, b in pts[1][4]]
    else:
        ps[0].pp[-1].value = 9.0
        pts[0][4] = pts[0][4][:-1] + [(14, 9.0)]
    d = curve(s, kind, pts)
    got, exp = s.attempt(c.value_at, t), s.attempt(d.value_at, t)
    s.check(got.ok and exp.ok, 'the changed curve has a value')
    s.check(close(s, got.value, exp.value), 'a changed curve is evaluated as it is now')
    s.check(c.nearest_index(t) == d.nearest_index(t), 'a changed curve is searched as it is now')


@harness('C18', params=[0])
def bad_points(s, p):
    """no control points, a zero denominator or time scale, an unknown interpolation: rejected"""
    c = curve(s, LINEAR, [])
    r = s.attempt(c.value_at, s.z('t', -10, 10))
    s.check(not r.ok and r.exc_name == 'ValueError', 'a curve without points has no value')
    r = s.attempt(c.nearest_index, 0)
    s.check(not r.ok and r.exc_name == 'ValueError', 'a curve without points has no nearest point')
    num = s.z('num', -1000, 1000)
    for den, scale in ((0, 1), (1, 0)):
        c = curve(s, LINEAR, [(num, den, scale, 1.0, [])])
        r = s.attempt(c.value_at, 0)
        s.check(not r.ok and r.exc_name == 'ValueError', 'a control point without a time is rejected')
    c = curve(s, 'Other', [(0, 1, 1, 1.0, []), (2, 1, 1, 2.0, [])])
    r = s.attempt(c.value_at, 1)
    s.check(not r.ok and r.exc_name == 'NotImplementedError', 'an unknown interpolation is rejected')


@harness('C18', params=[CONSTANT, LINEAR, BEZIER])
def together(s, kind):
    """two of three points at the same time (whole times -1000 to 1000), evaluated there: a value of one of the two"""
    t = s.z('t', -1000, 1000) if kind != BEZIER else s.choice('t', [-7, 0, 12])
    first = s.choice('first', [0, 1])
    times = [t, t, t + 5] if first else [t - 5, t, t]
    vals = [s.dyadic('v%d' % i, -1000, 1000) for i in range(3)]
    c = curve(s, kind, [(times[i], 1, 1, vals[i], []) for i in range(3)])
    got = c.value_at(t)
    a, b = (vals[0], vals[1]) if first else (vals[1], vals[2])
    s.check(s.disj([s.same(got, float_of(a)), s.same(got, float_of(b))]), 'the value of one of the points there')


def bern(p, u):
    return p[0] * ((1 - u) ** 3) + p[1] * (3 * (1 - u) ** 2 * u) + p[2] * (3 * (1 - u) * u * u) + p[3] * u ** 3


def solve(xs, x):
    """u with bern(xs, u) == x by bisection (xs monotone)"""
    lo, hi = 0.0, 1.0
    for i in range(200):
        m = (lo + hi) / 2
        if bern(xs, m) < x:
            lo = m
        else:
            hi = m
    return (lo + hi) / 2


# tangent lengths of the two points, as parts of their distance
HANDLES = [(1 / 3.0, 1 / 3.0), (0.25, 0.25), (0.5, 0.5), (0.1, 0.6), (0.75, 0.2), (0.0, 0.0), (1.0, 1.0), (0.0, 0.5),
           (0.9, 0.9), (1 / 6.0, 0.5), (0.5, 1 / 6.0), (1.5, 0.5), (0.2, 2.0), (-0.5, 0.5), (0.5, -0.25)]
TIMES = [(0, 12), (-6, 6), (100, 124)]


@harness('C18', params=lambda tier: [[h, t, q] for h in range(len(HANDLES)) for t in range(1 if tier == 'quick' else 3)
                                     for q in (0, 1)])
def bezier(s, p):
    """bezier curves between two points whose handles have 15 given lengths in time (3 placements of the points), all
    values and handle heights: the point of the cubic bezier curve with those four control points, at 7 times;
    decoy handles on the outer sides; handles that reach past the other point are shortened in their direction, those
    that lead backwards have no length in time"""
    h, ti, q = p
    x0, x3 = TIMES[ti]
    d = x3 - x0
    x1, x2 = x0 + HANDLES[h][0] * d, x3 - HANDLES[h][1] * d
    v0, v3 = s.dyadic('v0', -1000, 1000), s.dyadic('v3', -1000, 1000)
    y1, y2 = s.dyadic('y1', -1000, 1000), s.dyadic('y2', -1000, 1000)
    o1, o2 = s.dyadic('o1', -1000, 1000), s.dyadic('o2', -1000, 1000)
    pts = [(x0, 1, 1, v0, [(5, -2.0), (6, o1), (7, x1 - x0), (8, y1)]),
           (x3, 1, 1, v3, [(5, x2 - x3), (6, y2), (7, 3.0), (8, o2)])]
    if q:
        pts = [(x0 - 10, 1, 1, o1, [])] + pts + [(x3 + 10, 1, 1, o2, [])]
    c = curve(s, BEZIER, pts)
    bezier_points(s, c, (x0, x1, x2, x3), (v0, y1, y2, v3), [x0 + d * k / 6.0 for k in range(0, 7)])


def bezier_points(s, c, xs, ys, at):
    x0, x1, x2, x3 = xs
    v0, y1, y2, v3 = ys
    if x1 > x3:
        y1, x1 = y1 * ((x3 - x0) / float(x1 - x0)), x3
    if x2 < x0:
        y2, x2 = y2 * ((x3 - x0) / float(x3 - x2)), x0
    x1, x2 = max(x0, x1), min(x2, x3)
    for x in at:
        got = c.value_at(x)
        u = solve((x0, x1, x2, x3), x)
        exp = bern((v0, v0 + y1, v3 + y2, v3), u)
        s.check(close(s, got, exp, 0.01), 'bezier: the value of the curve')


# four times of control points and a time where the equation of the curve has a double root away from the curve
DOUBLE = [(0, 4, 5, 5, 4), (0, 0, 1, 5, 1)]


@harness('C18', params=list(range(len(DOUBLE))))
def bezier_double(s, i):
    """two curves at a time where the cubic equation has a double root outside the curve, all values and handle heights"""
    x0, x1, x2, x3, x = DOUBLE[i]
    v0, v3 = s.dyadic('v0', -1000, 1000), s.dyadic('v3', -1000, 1000)
    y1, y2 = s.dyadic('y1', -1000, 1000), s.dyadic('y2', -1000, 1000)
    c = curve(s, BEZIER, [(x0, 1, 1, v0, [(5, 0.0), (6, 0.0), (7, float(x1 - x0)), (8, y1)]),
                          (x3, 1, 1, v3, [(5, float(x2 - x3)), (6, y2), (7, 0.0), (8, 0.0)])])
    bezier_points(s, c, (x0, x1, x2, x3), (v0, y1, y2, v3), [x])


@harness('C18', params=lambda tier: [[n, i, e] for n in (2, 3, 4) for i in range(n - 1) for e in (0, 1)])
def spline(s, p):
    """spline curves of 2 to 4 points at given times, all values: at a control point its value, between two points a
    value between theirs, and a straight line where four evenly spaced points lie on a line"""
    n, i, even = p
    times = [0, 8, 16, 24][:n] if even else [0, 5, 12, 32][:n]
    vals = [s.real('v%d' % k, -1000.0, 1000.0) for k in range(n)]
    c = curve(s, CUBIC, [(times[k], 1, 1, vals[k], []) for k in range(n)])
    d = times[i + 1] - times[i]
    k = s.choice('k', [0, 2, 5, 8])
    x = times[i] + d * k / 8.0
    got = c.value_at(x)
    a, b = vals[i], vals[i + 1]
    if k == 0:
        s.check(close(s, got, a, 1e-6), 'at a control point: its value')
    elif k == 8:
        s.check(close(s, got, b, 1e-6), 'at a control point: its value')
    lo, hi = s.ite(a < b, a, b), s.ite(a < b, b, a)
    s.check(s.conj([got >= lo - 1e-6, got <= hi + 1e-6]), 'spline: between the values of its neighbours')
    if n == 4 and i == 1 and times[1] == 8:
        line = s.conj([vals[1] - vals[0] == vals[2] - vals[1], vals[2] - vals[1] == vals[3] - vals[2]])
        s.check(s.disj([s.neg(line), close(s, got, a + (b - a) * (k / 8.0), 0.01)]), 'spline: a line through points on a line')


# ------------------------------------------------------------------ C19
RANGES = [(0, 4), (0, 0), (1, 3), (-3, 2), (-4, -2), (2, 2), (0, 1), (-1, 0), (-9, 21)]


@harness('C19', params=[[k, r] for k in (CONSTANT, LINEAR, BEZIER) for r in range(len(RANGES))])
def constant_speed(s, p):
    """a constant speed (given by one to three equal points) of any value up to 1000 and a base offset, integrated over 9
    ranges of frames before, around and after the first point (at frame 0, 3 or -2): one entry per half frame, in order, offset = base +
    speed * time"""
    kind, r = p
    a, b = RANGES[r]
    v = s.dyadic('v', -1000, 1000)
    base = s.dyadic('base', -1000, 1000)
    n = s.choice('n', [1, 2, 3])
    zero = s.choice('zero', [0, 3, -2])
    # control points 2 and 3 are optional; the first one is the zero point
    pts = [(zero + 2 * k, 1, 1, v, [(14, base)] if k == 0 else []) for k in range(n)]
    c = curve(s, kind, pts)
    got = c.integrate(a, b)
    s.check([x[0] for x in got] == [a + k * 0.5 for k in range(2 * (b - a) + 1)], 'one entry per half frame')
    for t, x in got:
        s.check(close(s, x, base + v * (t - zero)), 'constant speed: base + speed * time')


@harness('C19', params=[[k, r] for k in (CONSTANT, LINEAR) for r in range(len(RANGES))])
def varying_speed(s, p):
    """three points at frames 0, 2 and 5 (or all 4 later, 3 earlier) with any values: every half-frame step advances by an amount between half the
    lowest and half the highest speed around it, the zero point has the base offset, and a longer range gives the same
    offsets"""
    kind, r = p
    a, b = max(RANGES[r][0], -5), min(RANGES[r][1], 6)
    vals = [s.dyadic('v%d' % i, -1000, 1000) for i in range(3)]
    base = s.dyadic('base', -1000, 1000)
    zero = s.choice('zero', [0, 4, -3])
    pts = [(t + zero, 1, 1, vals[i], [(14, base)] if i == 0 else []) for i, t in enumerate((0, 2, 5))]
    c = curve(s, kind, pts)
    wide = dict((t - zero, x) for t, x in c.integrate(zero - 5, zero + 6))
    s.check(sorted(wide) == [-5 + k * 0.5 for k in range(23)], 'one entry per half frame')
    s.check(close(s, wide[0.0], base), 'the zero point has the base offset')
    narrow = c.integrate(zero + a, zero + b)
    s.check([x[0] - zero for x in narrow] == [a + k * 0.5 for k in range(2 * (b - a) + 1)], 'one entry per half frame')
    for t, x in narrow:
        s.check(close(s, x, wide[t - zero]), 'the offset does not depend on the range')
    for k in range(22):
        t = -5 + k * 0.5
        step = wide[t + 0.5] - wide[t]
        if kind == LINEAR:
            # the steps sample the curve a tenth of a frame early
            exp = 0
            x = [c.value_at(zero + t - 0.1 + j * 0.1) for j in range(6)]
            for j in range(5):
                exp = exp + (x[j] + x[j + 1]) * 0.05
            s.check(close(s, step, exp, 1e-4), 'each step is the trapezoid sum of the speeds')
        near = [vals[i] for i, tt in enumerate((0, 2, 5)) if t - 2 <= tt <= t + 0.5 or
                (i == 0 and t < 2) or (i == 1 and 0 <= t <= 5) or (i == 2 and t >= 2)]
        lo, hi = near[0], near[0]
        for v in near[1:]:
            lo, hi = s.ite(v < lo, v, lo), s.ite(v > hi, v, hi)
        s.check(s.conj([step >= lo * 0.5 - 1e-6, step <= hi * 0.5 + 1e-6]), 'each step is between the speeds around it')


@harness('C19', params=[0])
def default_range(s, p):
    """without an end the range ends at the last control point; a range that ends before it starts is rejected"""
    v = s.dyadic('v', -1000, 1000)
    times = s.choice('times', [[0, 1], [0, 3], [0, 4], [-2, 1, 3], [0], [2], [-3]])
    c = curve(s, CONSTANT, [(x, 1, 1, v, []) for x in times])
    start = s.choice('start', [0, times[0], times[-1], -4])
    got = s.attempt(c.integrate, start)
    if start > times[-1]:
        s.check(not got.ok and got.exc_name == 'ValueError', 'an inverted range is rejected')
        return
    s.check(got.ok, 'a curve is integrated to its last point')
    s.check([x[0] for x in got.value] == [start + k * 0.5 for k in range(2 * (times[-1] - start) + 1)],
            'ends at the last control point')
    for t, x in got.value:
        s.check(close(s, x, v * (t - times[0])), 'constant speed: base + speed * time')
    r = s.attempt(c.integrate, 3, 2)
    s.check(not r.ok and r.exc_name == 'ValueError', 'an inverted range is rejected')


@harness('C19', params=[CONSTANT, LINEAR])
def changed_speed(s, kind):
    """a curve of three points integrated, one thing of it changed, integrated again: the same as a new curve"""
    vals = [s.dyadic('v%d' % i, -1000, 1000) for i in range(3)]
    x = s.dyadic('x', -1000, 1000)
    pts = [[2 * k, 1, 1, vals[k], [(14, 5.0)] if k == 0 else []] for k in range(3)]
    c = curve(s, kind, pts)
    c.integrate(-1, 3)
    ps = c.control_points
    how = s.choice('how', ['value', 'base', 'time', 'first', 'add', 'points'])
    if how == 'value':
        ps[1].value = x
        pts[1][3] = x
    elif how == 'base':
        ps[0].pp[0].value = x
        pts[0][4] = [(14, x)]
    elif how == 'time':
        ps[1].offset = [3, 1]
        pts[1][0] = 3
    elif how == 'first':
        ps[0].offset = [1, 1]
        pts[0][0] = 1
    elif how == 'add':
        new = curve(s, kind, [[5, 1, 1, x, []]]).control_points[0]
        ps.append(new)
        pts.append([5, 1, 1, x, []])
    else:
        pts = [[1, 1, 1, x, [(14, 2.0)]], [2, 1, 1, vals[0], []]]
        c.control_points = curve(s, kind, pts).control_points
    got, exp = c.integrate(-1, 3), curve(s, kind, pts).integrate(-1, 3)
    s.check([e[0] for e in got] == [e[0] for e in exp], 'one entry per half frame')
    for g, e in zip(got, exp):
        s.check(close(s, g[1], e[1]), 'a changed curve is integrated as it is now')
    s.check([e[0] for e in c.integrate(0)] == [e[0] for e in curve(s, kind, pts).integrate(0)],
            'ends at the last control point')
