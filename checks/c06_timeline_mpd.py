"""C06: SegmentTimeline manifests list exactly the segments of the window, and the listed ones are served."""
import struct

import content as C
import manifest as MP
import session as S

BOUNDS = {
    'quick': 'time < 2^31 s (steps 1/4 s), start time < 2^31, buffer depth and session length up to a loop and a segment, dur_ options up to 50 s (three loops of one segment), start number up '
             'to 10^6; loops of 1, 4 and 6 segments of 2 s, with constant, alternating (AAC-like) and split duration '
             'tables; time and number templates',
    'thorough': 'as quick, buffer depth up to 3 loops, more tables, loops of 8 segments and segment durations',
}
OUTSIDE = 'content whose tables have gaps, overlap or do not add up to the loop; segments drifting a second or more from the ' \
          'nominal grid; subtitle and thumbnail adaptation sets; times before the availability start'

F = 1024
# durations of the segments per loop, and the entries (numbers of segments) they are stored in
TABLES = {
    'one': (2, [2 * 90000], [1]),
    'even': (2, [2 * 90000] * 4, [4]),
    'split': (2, [2 * 90000] * 6, [2, 1, 3]),
    'late': (2, [94 * F, 94 * F, 94 * F, 93 * F], [3, 1]),
    'early': (2, [93 * F, 94 * F, 94 * F, 94 * F], [1, 3]),
    'late8': (2, [94 * F, 94 * F, 94 * F, 93 * F] * 2, [3, 1, 3, 1]),
    'early8': (2, [93 * F, 94 * F, 94 * F, 94 * F] * 2, [1, 3, 1, 3]),
    'wild': (2, [99000, 342000, 54000, 225000], [1, 1, 1, 1]),
    'alt': (3, [3 * 48000 + 600, 3 * 48000 - 600] * 2, [1, 1, 1, 1]),
    'big': (6, [288768, 287744, 287744, 287744, 288768, 287744, 287744, 287744], [1, 3, 1, 3]),
}
SCALE = {'one': 90000, 'wild': 90000, 'even': 90000, 'split': 90000, 'late': 48000, 'early': 48000, 'late8': 48000, 'early8': 48000, 'alt': 48000, 'big': 48000}
SETS = [[], ['snr'], ['snrdef'], ['tsbd'], ['start', 'tsbd'], ['start', 'stop'], ['start', 'stop', 'timeoffset'],
        ['start', 'tsbd', 'timeoffset', 'snr'], ['start', 'dur', 'snr'], [['modulo', 1]], ['startrel', 'stoprel']]
DEEP = [['cont'], ['tfdt32', 'tsbd'], ['start', 'dur', 'dur2'], ['start', 'stop', 'snr', 'timeoffset'], ['snr', ['modulo', 2]],
        ['startrel', 'tsbd'], ['start', 'dur', 'timeoffset']]


def cases(tier):
    out = []
    quick = tier == 'quick'
    for st in SETS + ([] if quick else DEEP):
        heavy = len(st) > 2 or 'dur' in st or isinstance((st or [''])[0], list)
        for tab in ('even', 'late', 'wild', 'one', 'split', 'early') + (() if quick else ('alt', 'late8', 'early8', 'big')):
            if quick and tab in ('split', 'early', 'wild') and heavy:
                continue
            if heavy and tab in ('late8', 'early8', 'alt'):
                continue
            if isinstance((st or [''])[0], list) and tab not in (('one',) if quick else ('even', 'one', 'split')):
                continue
            for mode in ('time', 'nr'):
                if quick and mode == 'nr' and (tab not in ('even', 'late', 'wild') or heavy and tab == 'late'):
                    continue
                nm = '+'.join(x if isinstance(x, str) else ''.join(map(str, x)) for x in st) or 'plain'
                typ = 'video' if SCALE[tab] == 90000 else 'audio'
                win = {'one': 6, 'even': 9, 'split': 13, 'late': 9, 'early': 9, 'wild': 9}.get(tab, 18)
                if not quick:
                    win = win * 5 // 3 if heavy else win * 3
                out.append({'name': '%s-%s-%s' % (mode, nm, tab), 'opts': st, 'mode': mode, 'table': tab, 'type': typ,
                            'window': win})
    return out


def dat(durs, entries):
    out = b''
    t = 0
    k = 0
    for n in entries:
        assert len(set(durs[k:k + n])) == 1
        out += struct.pack('HHII', k + 1, n - 1, t, durs[k])
        t += durs[k] * n
        k += n
    assert k == len(durs)
    return out


def run(h, case):
    dur, durs, entries = TABLES[case['table']]
    ts = SCALE[case['table']]
    n_loop = len(durs)
    starts = [sum(durs[:i]) for i in range(n_loop)]
    wrap = sum(durs)
    assert wrap == n_loop * dur * ts
    other = 'audio' if case['type'] == 'video' else 'video'
    rid = {'video': 'V1', 'audio': 'A1'}

    def segment(rep, n, ext):
        t = starts[0]
        for i in range(1, n_loop):
            t = h.ite(n == 1 + i, starts[i], t)
        return C.media_segment(h, tfdt=t, tfdt_v=1, samples=[{'dur': dur * ts, 'size': 1, 'flags': 0, 'cto': 0, 'data': b'x'}])
    media = {case['type']: {'reps': [rid[case['type']]], 'timescale': ts, 'total': wrap, 'dat': 'a.dat'},
             other: {'reps': [rid[other]], 'timescale': ts, 'total': wrap, 'dat': 'a.dat'}}
    h.file(C.CFG + '/a.dat', dat(durs, entries))
    C.setup(h, 'tp', dur, n_loop, media=media, segment=segment, mpd={'Manifest.mpd': MP.content(dur, sets=(case['type'],))},
            version='1.1', tsbd=case['window'] - 2)
    now = h.real('now', 0, 1 << 31, 4)
    s = S.make(h, case['opts'], dur, now, tsbd0=case['window'] - 2)
    h.assume(now >= s.ast)
    for d in s.ends:
        h.assume(d <= 50)
    h.assume(s.tsbd <= case['window'])
    opt = 'segtimeline_1' if case['mode'] == 'time' else 'segtimelinenr_1'
    url = '/'.join(['', 'dash'] + s.parts + [opt, 'tp', 'Manifest.mpd'])
    r = h.attempt(MP.get, h, C, url, now)
    h.check(r[0] == 'ok', 'manifest generated')
    m = MP.parse(h, r[1])
    p = m.periods[0]
    h.check(len(m.periods) == 1 and len(p.sets) == 1, 'one period, one adaptation set')
    st = p.sets[0]
    h.check(st.timeline is not None and st.duration is None, 'timeline instead of a duration')
    h.check(st.timescale == ts, 'timescale of the track')
    h.check(st.pto == s.media_at_ast * ts, 'presentation time offset')
    # the listing the session calls for
    nowc = s.now_int
    last = s.now_int
    if s.stop is not None:
        nowc = last = h.ite(s.stop < nowc, s.stop, nowc)
    elif m.mpdur is not None:
        end = m.ast + m.mpdur
        last = h.ite(end < nowc, end, nowc)
    lo = h.ite(s.ast < nowc - s.tsbd, nowc - s.tsbd, s.ast) - s.ast + s.media_at_ast
    hi = last - s.ast + s.media_at_ast

    def index(x):
        "number of the segment (from media time 0) during which the tick x falls"
        w = x // wrap
        rel = x - w * wrap
        j = 0
        for i in range(1, n_loop):
            j = h.ite(rel >= starts[i], i, j)
        return w * n_loop + j

    first = index(lo * ts)
    if h.sat(lo == s.media_at_ast):      # a session begins with the segment closest to its start
        first = lo // dur
    count = index(hi * ts) - first
    listed = []
    for k, (t, d, rr) in enumerate(st.timeline):
        h.check((t is not None) == (k == 0), 'start time given once')
        d, rr = h.val(d), h.val(rr)
        h.check(rr >= 0, 'repeat count')
        listed += [d] * (rr + 1)
    if not listed:
        h.check(count <= 0, 'an empty timeline only when no segment is complete')
        h.reach('empty')
        return
    h.note('n', len(listed))
    h.check(count == len(listed), 'exactly the segments from the window start to the latest complete one')
    ph = h.val(first % n_loop)
    t0 = st.timeline[0][0]
    h.check(t0 == first // n_loop * wrap + starts[ph], 'start time of the first segment')
    h.check(listed == [durs[(ph + i) % n_loop] for i in range(len(listed))], 'durations of the listed segments')
    num = '$Number$' if case['mode'] == 'nr' else 't$Time$'
    h.check(num in st.media, 'template')
    if case['mode'] == 'nr':
        h.check(st.start_number == s.snr + first, 'number of the first segment')
    # any of them can be fetched
    i = h.int('i', 0, len(listed) - 1) if case['mode'] == 'nr' else h.choice('i', sorted({0, len(listed) // 2, len(listed) - 1}))
    ti = t0
    for k in range(1, len(listed)):
        ti = h.ite(i >= k, t0 + sum(listed[:k]), ti)
    leaf = st.media.replace('$RepresentationID$', st.reps[0]).replace('$Time$', h.dec(ti)) \
        .replace('$Number$', h.dec(st.start_number + i))
    base = (m.location or [m.base[0].text if m.base else url])[0]
    parts = base.split('/')[3:-1]
    rq = C.get_media(h, '/' + '/'.join(parts) + '/' + leaf, now)
    ok = not C.refused(h, rq)
    h.note('ok', ok)
    promised = []
    if m.aet is not None:
        promised.append(now <= m.aet)
    h.check(h.imp(h.all(*promised), ok) if promised else ok, 'a listed segment is served')
    if ok:
        h.check(C.tfdt_of(h, rq) == ti, 'decode time = listed time')
        h.reach(case['mode'])


def reach(tier):
    return ['time', 'nr', 'empty']
