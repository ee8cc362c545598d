"""C23: with several periods, the segment timelines of the periods share out the segments of the window."""
import struct

import content as C
import manifest as MP
import session as S

BOUNDS = {
    'quick': 'time < 2^31 s (steps 1/4 s), start time < 2^31, buffer depth 70 s (a period and a sixth) or symbolic up to 35 s, '
             'start number up to 10^6; 60 and 30 periods per hour; segment durations 7, 10 (uneven), 20, 30 s in loops of 1 to 3 '
             'segments; time and number templates; early terminated periods of half a period and of 13, 20 and 41 s',
    'thorough': 'as quick, with every table and template for every session, more session options, a buffer depth of 130 s and 20 periods per hour for sessions without options',
}
OUTSIDE = 'the uneven table together with a time offset; content whose tables have gaps or overlap; times before the availability start'

TABLES = {
    'u20': (20, 90000, [20 * 90000] * 2, [2]),
    'u7': (7, 90000, [7 * 90000] * 3, [3]),
    'u30': (30, 90000, [30 * 90000], [1]),
    'uneven': (10, 48000, [10 * 48000 + 512, 10 * 48000 - 512], [1, 1]),
    'drift': (10, 48000, [480256, 480256, 479488], [2, 1]),
}
SETS = [[], ['snr'], ['start', 'tsbd'], ['start', 'stop'], ['start', 'stop', 'timeoffset', 'snr'], ['startrel'], ['start', 'dur', 'snrdef']]
DEEP = [['start', 'tsbd', 'timeoffset'], ['startrel', 'stoprel'], ['snrdef', 'tsbd'], ['start', 'dur', 'dur2'], ['cont']]


def cases(tier):
    out = []
    quick = tier == 'quick'

    def add(st, tab, mode, n, etp=0, etpdur=None, peroff=False):
        nm = '+'.join(st) or 'plain'
        out.append({'name': '%s-%s-%s-n%d%s' % (mode, nm, tab, n, '-etp%d-%s' % (etp, etpdur) if etp else '') + ('-peroff' if peroff else ''), 'opts': st, 'peroff': peroff, 'mode': mode,
                    'table': tab, 'n': n, 'etp': etp, 'etpdur': etpdur, 'window': 35 if 'tsbd' in st else 75 if quick or len(st) > 1 or tab == 'u7' else 135})
    tabs = sorted(TABLES)
    for i, st in enumerate(SETS + ([] if quick else DEEP)):
        for j, tab in enumerate(tabs):
            if quick and (i + j) % 2 or 'dur' in st and tab not in ('u20', 'u30'):
                continue
            if 'timeoffset' in st and tab == 'uneven':     # out of the solver's reach
                continue
            if quick and (tab == 'drift' and len(st) > 1 or st == ['startrel'] and tab == 'u7' or 'dur' in st and tab == 'u30'):
                continue
            for k, mode in enumerate(('time', 'nr')):
                if quick and (j + k + i // 2) % 2:
                    continue
                for n in (60,) if i % 3 else (60, 30) if quick or st else (60, 30, 20):
                    add(st, tab, mode, n)
    add([], 'u20', 'time', 60, 60, 41)
    add([], 'u20', 'nr', 60, 60, 20)
    add([], 'u7', 'time', 60, 30, 13)
    add(['start', 'snr'], 'u20', 'nr', 60, 30)
    add(['start'], 'uneven', 'time', 60, 60)
    add(['start', 'stop', 'timeoffset', 'snr'], 'u20', 'nr', 60)
    add(['start'], 'u20', 'time', 60, peroff=True)
    add([], 'uneven', 'nr', 60, peroff=True)
    if not quick:
        add(['start', 'stop', 'timeoffset'], 'u20', 'time', 60, peroff=True)
        add(['start', 'stop'], 'uneven', 'nr', 60, 30, 41)
        add([], 'u7', 'nr', 60, 30)
        add([], 'u30', 'time', 60, 60)
    return out


def run(h, case):
    dur, ts, durs, entries = TABLES[case['table']]
    n_loop = len(durs)
    starts = [sum(durs[:i]) for i in range(n_loop)]
    wrap = sum(durs)
    assert wrap == n_loop * dur * ts
    typ = 'video' if ts == 90000 else 'audio'
    rid = {'video': 'V1', 'audio': 'A1'}[typ]
    table, t, k = b'', 0, 0
    for e in entries:
        table += struct.pack('HHII', k + 1, e - 1, t, durs[k])
        t += durs[k] * e
        k += e

    def segment(rep, n, ext):
        t = starts[0]
        for i in range(1, n_loop):
            t = h.ite(n == 1 + i, starts[i], t)
        return C.media_segment(h, tfdt=t, tfdt_v=1, samples=[{'dur': dur * ts, 'size': 1, 'flags': 0, 'cto': 0, 'data': b'x'}])
    h.file(C.CFG + '/a.dat', table)
    C.setup(h, 'tp', dur, n_loop, media={typ: {'reps': [rid], 'timescale': ts, 'total': wrap, 'dat': 'a.dat'}}, segment=segment,
            mpd={'Manifest.mpd': MP.content(dur, sets=(typ,))}, version='1.1', tsbd=case['window'] - 5)
    now = h.real('now', 0, 1 << 31, 4)
    s = S.make(h, case['opts'], dur, now, tsbd0=case['window'] - 5)
    pd = 3600 // case['n']
    h.assume(now >= s.ast)
    h.assume(s.tsbd <= case['window'])
    for d in s.ends:
        h.assume(d <= s.ast + 150)
    parts = s.parts + ['periods_%d' % case['n'], 'segtimeline_1' if case['mode'] == 'time' else 'segtimelinenr_1']
    if case['peroff']:
        parts.append('peroff_1')
    etp = case['etp']
    etpdur = pd // 2
    if etp:
        parts.append('etp_%d' % etp)
        if case['etpdur']:
            etpdur = case['etpdur']
            parts.append('etpDuration_%d' % etpdur)
    url = '/'.join(['', 'dash'] + parts + ['tp', 'Manifest.mpd'])
    r = h.attempt(MP.get, h, C, url, now)
    h.check(r[0] == 'ok', 'manifest generated')
    m = MP.parse(h, r[1])
    # the window in the media timeline, as for one period
    nowc = last = s.now_int
    if s.stop is not None:
        nowc = last = h.ite(s.stop < nowc, s.stop, nowc)
    elif m.mpdur is not None:
        last = h.ite(m.ast + m.mpdur < nowc, m.ast + m.mpdur, nowc)
    lo = h.ite(s.ast < nowc - s.tsbd, nowc - s.tsbd, s.ast) - s.ast + s.media_at_ast
    hi = last - s.ast + s.media_at_ast

    def index(x):
        w = x // wrap
        rel = x - w * wrap
        j = 0
        for i in range(1, n_loop):
            j = h.ite(rel >= starts[i], i, j)
        return w * n_loop + j
    first = index(lo * ts)
    if h.sat(lo == s.media_at_ast):
        first = lo // dur
    count = index(hi * ts) - first
    pos = 0
    got = []
    ph = h.val(first % n_loop)
    base_t = first // n_loop * wrap

    def at(q):
        return base_t + starts[ph] + sum(durs[(ph + x) % n_loop] for x in range(q))
    for i, p in enumerate(m.periods):
        h.check(len(p.sets) == 1, 'one adaptation set')
        st = p.sets[0]
        h.check(st.timeline is not None and st.duration is None, 'timeline instead of a duration')
        h.check(st.timescale == ts, 'timescale of the track')
        h.check(st.pto == (p.start + s.media_at_ast) * ts, 'presentation time offset of the period')
        if case['peroff']:
            h.check(st.template.get('presentationTimeOffset') is None, 'offset only in the period')
            h.reach('period offset')
        begin = (p.start + s.media_at_ast) * ts
        end = None
        if i + 1 < len(m.periods):
            end = (m.periods[i + 1].start + s.media_at_ast) * ts
        early = None
        if etp and h.sat(h.num(p.id[1:]) % (case['n'] // etp) == 0):
            early = (p.start + etpdur + s.media_at_ast) * ts
        mine = []
        for k, (t, d, rr) in enumerate(st.timeline):
            h.check((t is not None) == (k == 0), 'start time given once')
            h.check(h.val(rr) >= 0, 'repeat count')
            mine += [h.val(d)] * (h.val(rr) + 1)
        if early is not None:
            h.reach('early')
        if mine:
            t0 = st.timeline[0][0]
            if etp:
                # the segments of an earlier period may have been cut off
                while pos < 200 // dur and not h.sat(t0 == at(pos)):
                    pos += 1
            tt = at(pos)
            h.check(t0 == tt, 'the timeline goes on where the previous period ended')
            h.check(mine == [durs[(ph + pos + q) % n_loop] for q in range(len(mine))], 'durations of the listed segments')
            te = t0 + sum(mine)
            h.check(t0 + mine[0] > begin, 'the first listed segment reaches into the period')
            if end is not None:
                h.check(te <= end, 'no segment ends after the period')
                if early is not None:
                    nxt = at(pos + len(mine) + 1)
                    h.check(te <= early, 'no segment ends after the announced duration')
                    h.check(h.any(nxt > early, nxt > hi * ts), 'nothing left out')
            if case['mode'] == 'nr':
                h.check(st.start_number == s.snr + first + pos, 'number of the first segment of the period')
                h.check('$Number$' in st.media, 'template')
            else:
                h.check('t$Time$' in st.media, 'template')
            for q in range(len(mine)):
                got.append((st, t0 + sum(mine[:q]), q))
            pos += len(mine)
            if i:
                h.reach('later period')
        else:
            h.reach('empty')
    if not etp:
        h.check(h.any(count == pos, h.all(count <= 0, pos == 0)), 'all segments of the window are in some period')
    if not got:
        return
    st, t, q = got[h.choice('i', sorted({0, len(got) // 2, len(got) - 1}))]
    leaf = st.media.replace('$RepresentationID$', st.reps[0]).replace('$Time$', h.dec(t))
    if case['mode'] == 'nr':
        leaf = leaf.replace('$Number$', h.dec(st.start_number + q))
    base = (m.location or [m.base[0].text if m.base else url])[0].split('/')[3:-1]
    rq = C.get_media(h, '/' + '/'.join(base) + '/' + leaf, now)
    ok = not C.refused(h, rq)
    promised = [] if m.aet is None else [now <= m.aet]
    h.check(h.imp(h.all(*promised), ok) if promised else ok, 'a listed segment is served')
    if ok:
        h.check(C.tfdt_of(h, rq) == t, 'decode time = listed time')
        h.reach(case['mode'])


def reach(tier):
    return ['time', 'nr', 'empty', 'later period', 'early', 'period offset']
