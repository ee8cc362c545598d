"""C29: a manifest and its updates agree."""
import struct

import content as C
import manifest as MP
import session as S
from sx import harness

BOUNDS = {
    'quick': 'two requests for the same manifest at times < 2^31 s (steps 1/4 s), the second at any later time for manifests of one period with '
             'number templates, up to one and a half periods later for several periods, up to five segments (a loop) later for timelines; '
             'session start, stop, lengths (up to 10^4 s), numbers, offsets as in C05; 60, 30, 12 periods per hour; windows up to four segments with timelines',
    'thorough': 'as quick with all period rates, segment durations 2 and 6 s and more combinations',
}
OUTSIDE = 'continuity properties and links (the first listed period has none); outages and validity events (C16); more than two manifests ' \
          '(every pair of a series is covered by two)'
ASSUMPTIONS = 'the second request is for the Location of the first manifest where it has one'

SETS = [[], ['snr'], ['snrdef'], ['tsbd'], ['start'], ['start', 'stop'], ['start', 'timeoffset', 'snr'], ['startrel'],
        ['startrel', 'stoprel'], ['start', 'dur'], ['start', 'dur', ['dur_600']], ['start', ['dur_60'], ['dur_40'], 'mup'], ['cont'], ['tfdt32'],
        ['mup', 'ato'], ['start', ['spd_40'], ['scte35_2'], ['utc_direct-head']], ['start', 'chunkdur', 'ato'], [['modulo', 10]], ['snr', ['modulo', 1]], ['atoinf', 'tsbd']]
PERIODS = [[], ['snr'], ['start'], ['start', 'stop'], ['startrel'], ['start', 'timeoffset', 'snr'], ['start', 'dur'],
           ['start', 'dur', ['dur_65']], ['tsbd'], ['start', ['dur_60'], ['dur_70'], ['mup_9']], [['modulo', 2]], ['chunkdur', 'ato'], [['scte35_1'], ['spd_10'], ['tsbd_0']]]
LINES = [[], ['start'], ['start', 'stop'], ['start', 'timeoffset', 'snr'], ['startrel', 'tsbd'], ['start', ['dur_4'], ['dur_6']]]


def cases(tier):
    out = []
    quick = tier == 'quick'

    def add(kind, opts, n, dur, **k):
        nm = '+'.join(x if isinstance(x, str) else ''.join(map(str, x)) for x in opts) or 'plain'
        nm = '%s-%s%s-%d%s' % (kind, nm, '' if n < 0 else '-n%d' % n, dur, '-uneven' if k.get('uneven') else '')
        out.append(dict({'name': nm, 'kind': kind, 'opts': opts, 'n': n, 'dur': dur, 'etp': 0, 'cb': 0, 'peroff': False}, **k))
    for i, st in enumerate(SETS):
        for dur in ((2, 6)[i % 2],) if quick else (2, 6):
            add('number', st, -1, dur)
    for i, st in enumerate(PERIODS):
        for n in [(60, 30, 12)[i % 3]] if quick else (60, 30, 20, 12, 6, 2, 1):
            add('periods', st, n, (2, 6)[i % 2], peroff=i % 4 == 1, etp=n if i % 4 == 2 else 0, cb=n // 2 if i % 3 == 1 else 0)
    add('periods', ['snr'], 0, 2)
    for i, st in enumerate(LINES):
        for mode in ('time', 'nr'):
            if quick and len(st) == 3 and (i % 2) == (mode == 'nr'):
                continue
            add(mode, st, -1, 2)
    for mode in ('time', 'nr'):
        add(mode, ['start'] if mode == 'nr' else ['tsbd'], -1, 2, uneven=True)
    add('time', [], 60, 2)
    add('nr', ['start'], 60, 2)
    return out


def same(h, a, b, skip=()):
    "are two elements the same (but for the listed (tag, attribute) and tags)?"
    if a.tag != b.tag:
        return False
    tag = a.tag.split('}')[-1]
    ka = [k for k in sorted(a.attrib) if (tag, k) not in skip]
    kb = [k for k in sorted(b.attrib) if (tag, k) not in skip]
    if ka != kb:
        return False
    out = [h.eq(a.attrib[k], b.attrib[k]) for k in ka]
    ca = [c for c in a if c.tag.split('}')[-1] not in skip]
    cb = [c for c in b if c.tag.split('}')[-1] not in skip]
    if len(ca) != len(cb):
        return False
    if not ca:
        out.append(h.eq(a.text or '', b.text or ''))
    out += [same(h, x, y, skip) for x, y in zip(ca, cb)]
    return h.all(*out)


def run(h, case):
    dur, n, kind = case['dur'], case['n'], case['kind']
    lines = kind in ('time', 'nr')
    nseg = 5
    media = {'video': {'reps': ['V1', 'V2'], 'timescale': 90000, 'total': nseg * dur * 90000, 'dat': 'v.dat'},
             'audio': {'reps': ['A1'], 'timescale': 48000, 'total': nseg * dur * 48000, 'dat': 'a.dat'}}
    if case.get('uneven'):
        h.file(C.CFG + '/v.dat', struct.pack('HHIIHHIIHHII', 1, 1, 0, 150000, 3, 0, 300000, 240000, 4, 1, 540000, 180000))
    else:
        h.file(C.CFG + '/v.dat', struct.pack('HHII', 1, nseg - 1, 0, dur * 90000))
    h.file(C.CFG + '/a.dat', struct.pack('HHII', 1, nseg - 1, 0, dur * 48000))
    tsbd0 = 3 * dur if lines else 60
    C.setup(h, 'tp', dur, nseg, media=media, segment=lambda rep, k, ext: b'', tsbd=tsbd0, version='1.1',
            mpd={'Manifest.mpd': MP.content(dur, sets=('video',) if lines else ('audio', 'video'))})
    now = h.real('now', 0, 1 << 31, 4)
    later = now + h.real('later', 0, 1 << 31, 4)
    s = S.make(h, case['opts'], dur, now, tsbd0=tsbd0)
    pd = 3600 // n if n > 0 else None
    if lines:
        h.assume(later - now <= nseg * dur)
        h.assume(s.tsbd <= 4 * dur)
        h.assume(now >= s.ast)
        for d in s.ends:
            h.assume(d <= 6 * dur)
    elif pd:
        h.assume(later - now <= pd + pd // 2)
        h.assume(s.tsbd <= pd + 60)
        for d in s.ends:
            h.assume(d <= 3 * pd)
        if s.stop is not None:
            h.assume(s.stop - s.ast <= 2 * pd)
    else:
        for d in s.ends:
            h.assume(d <= 10000)
    parts = list(s.parts)
    if lines:
        parts.append('segtimeline_1' if kind == 'time' else 'segtimelinenr_1')
    if n >= 0:
        parts.append('periods_%d' % n)
    if case['etp']:
        parts.append('etp_%d' % case['etp'])
    if case['cb']:
        parts.append('mpdcallback_%d' % case['cb'])
    if case['peroff']:
        parts.append('peroff_1')
    url = '/'.join(['', 'dash'] + parts + ['tp', 'Manifest.mpd'])
    h.set_clock(harness.Clock([now], advance=True))
    r = h.attempt(MP.get, h, C, url, now)
    h.check(r[0] == 'ok', 'manifest generated')
    m1 = MP.parse(h, r[1])
    if m1.location:
        url = '/' + '/'.join(m1.location[0].split('/')[3:])
        h.reach('location')
    h.set_clock(harness.Clock([later], advance=True))
    r = h.attempt(MP.get, h, C, url, later)
    h.check(r[0] == 'ok', 'update generated')
    m2 = MP.parse(h, r[1])
    h.check(m2.publish >= m1.publish, 'the publish time never goes back')
    h.check(m2.ast >= m1.ast, 'the availability start never goes back')
    fixed = not any(o in ('cont', 'tfdt32') or o[0] == 'modulo' for o in case['opts'])
    if fixed:
        h.check(m2.ast == m1.ast, 'the availability start stays')
    elif not h.sat(m2.ast == m1.ast):
        h.check(later > m1.ast, 'a new session only after the previous one has begun')
        h.reach('new session')
        return
    h.check(h.imp(m1.type == 'static', m2.type == 'static'), 'static stays static')
    if m1.type == 'static':
        h.reach('static')
        h.check(same(h, m1.root, m2.root, {('MPD', 'publishTime')}), 'a static manifest does not change')
    if s.stop is None:
        h.check(m1.tsbd is not None and m2.tsbd is not None and m1.tsbd == m2.tsbd, 'the buffer depth stays')
    for f in ('maxseg', 'spd'):
        x, y = getattr(m1, f), getattr(m2, f)
        h.check((x is None) == (y is None) and (x is None or h.sat(x == y)), '%s stays' % f)
    h.check(m1.root.get('profiles') == m2.root.get('profiles') and m1.root.get('minBufferTime') == m2.root.get('minBufferTime'),
            'profiles and buffer time stay')
    # the end
    for f in ('mpdur', 'aet'):
        x, y = getattr(m1, f), getattr(m2, f)
        h.check((x is None) == (y is None), 'an announced end stays announced')
        if x is not None:
            h.check(y >= x, 'the end never comes nearer')
            if h.sat(y > x):
                h.reach('extended')
                h.check(m1.mup is not None, 'the extension of a session is announced in a manifest that is updated')
                e = m1.aet if s.ends else m1.ast + m1.mpdur
                h.check(now + m1.mup <= e, 'a player that updates as told sees the extension before the announced end')
    # periods
    ids1 = [p.id for p in m1.periods]
    nr = (lambda p: h.num(p.id[1:])) if n > 0 else (lambda p: 0)
    for q in m2.periods:
        old = [p for p in m1.periods if h.sat(h.eq(p.id, q.id))]
        if not old:
            h.check(nr(q) > nr(m1.periods[-1]), 'only later periods are new')
            if m1.mup is not None and not lines:
                h.check(h.imp(later < now + m1.mup, m2.ast + q.start > later), 'a period begins only after the update that announces it is due')
            h.reach('new period')
            continue
        p = old[0]
        h.check(p.start == q.start, 'the start of a period stays')
        if lines:
            h.check(same(h, p.elem, q.elem, {('SegmentTemplate', 'startNumber'), 'SegmentTimeline', ('Period', 'duration')}),
                    'a listed period stays')
            for e, f in zip(p.sets, q.sets):
                compare(h, case, e, f)
        else:
            h.check(same(h, p.elem, q.elem), 'a listed period stays')
    if n > 0:
        gone = [p for p in m1.periods if not h.sat(h.any(*[h.eq(p.id, q.id) for q in m2.periods]))]
        for p in gone:
            h.check(nr(p) < nr(m2.periods[0]), 'only earlier periods disappear')
            h.check(m1.ast + p.start + (pd if p.duration is None or pd >= case['dur'] else 0) <= later - m1.tsbd
                    if s.stop is None else False, 'and only when they have left the buffer')
            h.reach('left')
    h.reach(kind)


def listing(h, e):
    out = []
    t = None
    for st, d, r in e.timeline:
        d, r = h.val(d), h.val(r)
        if st is not None:
            t = st
        for _ in range(r + 1):
            out.append((t, d))
            t = t + d
    return out


def compare(h, case, e, f):
    a, b = listing(h, e), listing(h, f)
    if not a:
        h.reach('nothing before')
        return
    if not b:
        return
    h.check(b[0][0] >= a[0][0], 'the listing never goes back')
    h.check(b[-1][0] + b[-1][1] >= a[-1][0] + a[-1][1], 'a listed segment is not withdrawn')
    for i, (t, d) in enumerate(b):
        if h.sat(t < a[-1][0] + a[-1][1]):
            k = [j for j, x in enumerate(a) if h.sat(x[0] == t)]
            h.check(k and a[k[0]][1] == d, 'what both list has the same time and duration')
            if case['kind'] == 'nr':
                h.check(e.start_number + k[0] == f.start_number + i, 'and the same number')
            h.reach('both')
        else:
            if case['kind'] == 'nr' and h.sat(t == a[-1][0] + a[-1][1]):
                h.check(f.start_number + i == e.start_number + len(a), 'new segments go on with the next number')
            h.reach('new segment')
            break


def reach(tier):
    return ['number', 'periods', 'time', 'nr', 'location', 'static', 'extended', 'new session', 'new period', 'left', 'both', 'new segment']
