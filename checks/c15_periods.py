"""C15: multi-period manifests: the periods cover the session without gaps, keep their identity and their segments are
the ones served."""
import content as C
import manifest as MP
import session as S

BOUNDS = {
    'quick': 'time < 2^31 s (steps 1/4 s), start/stop times < 2^31, start number up to 10^6, buffer depth up to two periods, session length up to eight periods, early '
             'termination durations up to one period; all period rates (plain, with start or start number; 60, 30 and 12 with the other options) and the single late period; '
             'segment durations 2, 6 and 7 s; listed option combinations',
    'thorough': 'as quick with all period rates and segment durations 1, 2, 3, 6, 7, 8, 10 s and more combinations',
}
OUTSIDE = 'periods longer than the time until 2^31 s; SegmentTimeline in several periods (see C23)'

RATES = (1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60)
SETS = [[], ['snr'], ['snrdef'], ['tsbd'], ['start'], ['start', 'stop'], ['start', 'timeoffset', 'snr'], ['startrel'],
        ['start', 'dur']]
DEEP = [['start', 'tsbd'], ['startrel', 'stoprel'], ['start', 'stop', 'timeoffset'], ['start', 'dur', 'dur2'],
        ['start', 'snrdef'], ['tfdt32'], ['cont'], ['mup'], ['snr', 'ato']]


def cases(tier):
    out = []
    quick = tier == 'quick'

    def add(opts, n, dur, **k):
        nm = '+'.join(x if isinstance(x, str) else ''.join(map(str, x)) for x in opts) or 'plain'
        nm += '-n%d-d%d' % (n, dur) + ''.join('-%s%s' % kv for kv in sorted(k.items()))
        if nm not in [c['name'] for c in out]:
            out.append(dict({'name': nm, 'opts': opts, 'n': n, 'dur': dur, 'etp': 0, 'cb': 0, 'cont': False, 'peroff': False},
                            **k))
    for i, st in enumerate(SETS + ([] if quick else DEEP)):
        rates = [(60, 30, 12)[i % 3]] if quick else RATES
        for n in rates:
            for dur in ((2, 6, 7)[(i + n) % 3],) if quick else ((1, 2, 3, 6, 7, 8, 10)[(i + RATES.index(n)) % 7],):
                add(st, n, dur, cont=bool(i % 2), peroff=i % 3 == 1)
    add([], 1, 2)
    add([], 0, 2)
    add(['start', 'snr'], 0, 6, peroff=True)
    add(['snrdef'], 0, 2)
    add(['start', 'timeoffset'], 0, 2, peroff=True)
    add(['start', 'timeoffset'], 0, 2)
    for n, e in ((60, 30), (60, 60), (30, 10), (12, 12)) if quick else ((60, 30), (60, 20), (60, 60), (30, 10), (20, 5), (12, 12), (6, 1), (2, 1)):
        add([], n, 2, etp=e, etpdur=True)
        add(['start'], n, 6, etp=e)
        add(['start'], n, 2, cb=e, cont=True)
        if not quick:
            add(['tsbd'], n, 2, etp=e, cb=e, etpdur=True)
    if quick:
        for i, n in enumerate((2, 3, 4, 5, 6, 10, 15, 20)):
            add([['snr'], ['start'], []][i % 3], n, (2, 6, 7)[i % 3], cont=i % 2 == 0, peroff=i % 2 == 1)
    add(['start'], 60, 2, said=100)
    for bad in (dict(n=7), dict(n=60, etp=7), dict(n=60, cb=7), dict(n=30, etp=30, etpdur='long')):
        k = dict(bad)
        add([], k.pop('n'), 2, bad=True, **k)
    return out


def run(h, case):
    dur, n = case['dur'], case['n']
    ts = {'V1': 90000, 'A1': 48000}

    def segment(rep, k, ext):
        return C.media_segment(h, tfdt=(k - 1) * dur * ts[rep],
                               samples=[{'dur': dur * ts[rep], 'size': 1, 'flags': 0, 'cto': 0, 'data': b'x'}])
    media = {'video': {'reps': ['V1', 'V2'], 'timescale': 90000}, 'audio': {'reps': ['A1'], 'timescale': 48000}}
    C.setup(h, 'tp', dur, 600, media=media, segment=segment, mpd={'Manifest.mpd': MP.content(dur)})
    now = h.real('now', 0, 1 << 31, 4)
    s = S.make(h, case['opts'], dur, now)
    pd = 3600 // n if n > 0 else 0
    if 'tsbd' in case['opts']:
        h.assume(s.tsbd <= 2 * pd)
    if s.stop is not None:
        h.assume(s.stop - s.ast <= 2 * pd)
    for d in s.ends:
        h.assume(d <= 4 * pd)
    parts = list(s.parts) + ['periods_%d' % case.get('said', n)]
    etp = case['etp']
    etpdur = pd // 2
    if etp:
        parts.append('etp_%d' % etp)
        if case.get('etpdur') == 'long':
            etpdur = h.int('etpdur', pd + 1, 100 * pd)
            parts.append('etpDuration_' + h.dec(etpdur))
        elif case.get('etpdur'):
            etpdur = h.int('etpdur', 0, pd)
            parts.append('etpDuration_' + h.dec(etpdur))
    if case['cb']:
        parts.append('mpdcallback_%d' % case['cb'])
    if case['cont']:
        parts.append('continuous_1')
    if case['peroff']:
        parts.append('peroff_1')
    url = '/'.join(['', 'dash'] + parts + ['tp', 'Manifest.mpd'])
    r = h.attempt(MP.get, h, C, url, now)
    if case.get('bad'):
        h.check(r[0] == 'exc', 'impossible period options are refused')
        h.reach('refused')
        return
    h.check(r[0] == 'ok', 'manifest generated')
    m = MP.parse(h, r[1])
    rel = s.now_int - s.ast
    if n == 0:
        h.check(len(m.periods) == 1, 'one period')
        h.check(m.periods[0].start == 3600000, 'one period starting 1000 h after the session')
    else:
        h.check(len(m.periods) >= 1, 'at least one period')
        first, last = m.periods[0], m.periods[-1]
        i0 = h.num(first.id[1:])
        for i, p in enumerate(m.periods):
            h.check(p.id[:1] == 'p' and h.sat(h.num(p.id[1:]) == i0 + i), 'period ids follow each other')
            h.check(p.start == (i0 + i) * pd, 'the start follows from the id: periods join without gaps')
        end = rel
        if s.stop is not None:
            end = h.ite(s.stop - s.ast < rel, s.stop - s.ast, rel)
        h.check(first.start <= h.ite(end - s.tsbd - dur > 0, end - s.tsbd - dur, 0), 'the buffered media lies in the periods')
        total = s.mpdur if s.stop is None else s.stop - s.ast
        if total is None:
            h.check(last.start + pd > rel + (pd - pd // 2 - 1), 'the coming half period is announced')
        else:
            h.check(h.any(last.start + pd > rel + (pd - pd // 2 - 1), last.start + pd >= total), 'the coming half period is announced')
            h.check(last.start < h.ite(total > 0, total, 1), 'no period after the end of the session')
            h.reach('limited')
        if m.type != 'static':
            want = pd // 2 - 5
            if s.aet is not None:       # an end that may be extended is looked for as often as in a single period
                own = {'tfdt32': 5400, 'cont': 10800}.get(case['opts'][0], 10 if s.mup is None else s.mup)
                want = h.ite(own < want, own, want)
            h.check(m.mup == want, 'update period')
            h.check(h.any(last.start + pd > rel + m.mup, last.start + pd >= total if total is not None else False),
                    'updating as told never misses a period')
        else:
            h.reach('static')
    # what the periods say
    prev = None
    for i, p in enumerate(m.periods):
        nr = None if n == 0 else h.num(p.id[1:])
        early = bool(etp) and h.sat(nr % (n // etp) == 0)
        if early:
            h.check(p.duration is not None and p.duration == etpdur, 'early terminated period')
            h.reach('early')
        else:
            h.check(p.duration is None, 'no explicit duration')
        ev = p.elem.findall(MP.NS + 'EventStream')
        if case['cb'] and h.sat(nr % (n // case['cb']) == 0):
            h.check(len(ev) == 1 and p.elem[0] is ev[0], 'callback event stream')
            h.check(ev[0].get('schemeIdUri') == 'urn:mpeg:dash:event:callback:2015' and ev[0].get('value') == '1', 'callback scheme')
            h.check([e.get('messageData') for e in ev[0]] == ['http://sim.org/dash/mpdcallback/'], 'callback target')
            h.reach('callback')
        else:
            h.check(not ev, 'no callback')
        h.check([x.type for x in p.sets] == ['audio', 'video'], 'adaptation sets in every period')
        sb = p.elem.findall(MP.NS + 'SegmentBase')
        for e in p.sets:
            sp = e.elem.findall(MP.NS + 'SupplementalProperty')
            if case['cont'] and prev is not None:
                h.check(len(sp) == 1 and sp[0].get('schemeIdUri') == 'urn:mpeg:dash:period_continuity:2014', 'continuity signalled')
                h.check(h.eq(sp[0].get('value'), prev), 'continuity refers to the previous period')
                h.reach('continuous')
            else:
                h.check(not sp, 'no continuity signalled')
            h.check(len(sb) == (1 if case['peroff'] and h.sat(e.pto != 0) else 0), 'offset at the requested level')
            if case['peroff']:
                h.check(e.template.get('presentationTimeOffset') is None, 'offset only in the period')
                h.reach('period offset')
            h.check(e.duration == dur * e.timescale, 'segment duration')
            h.check(e.pto == (p.start + s.media_at_ast) * e.timescale, 'presentation time offset of the period')
        prev = p.id
    # the segments: position k of any period
    k = h.int('k', 0, 1 << 31)
    which = h.val(h.int('which', 0, len(m.periods) - 1))
    p = m.periods[which]
    base = m.location[0].split('/')[3:-1] if m.location else m.base[0].text.split('/')[3:-1]
    for e in p.sets[:1] if which % 2 else p.sets[1:]:
        nn = e.start_number + k
        leaf = e.media.replace('$RepresentationID$', e.reps[0]).replace('$Number$', h.dec(nn))
        rr = C.get_media(h, '/' + '/'.join(base) + '/' + leaf, now)
        ok = not C.refused(h, rr)
        seg_end = m.ast + p.start + (k + 1) * dur
        in_period = True
        if which + 1 < len(m.periods):
            in_period = p.start + k * dur < m.periods[which + 1].start
        if p.duration is not None:
            in_period = h.all(in_period, k * dur < p.duration)
        promised = [h.no(now < seg_end - (m.ato if m.ato is not None else 0)), in_period]
        if m.mpdur is not None:
            promised.append(p.start + (k + 1) * dur <= m.mpdur)
        if m.tsbd is not None and m.type != 'static':
            promised.append(now <= seg_end + m.tsbd)
        if m.aet is not None:
            promised.append(now <= m.aet)
        h.check(h.imp(h.all(*promised), ok), 'announced segment is served')
        if ok:
            t = C.tfdt_of(h, rr)
            want = (e.pto + k * dur * e.timescale) * ts[e.reps[0]]
            got = t * e.timescale
            if n == 0 or pd % dur == 0:
                h.check(got == want, 'media time = presentation time offset + position in period')
            else:
                h.check(h.all(got <= want, got > want - dur * ts[e.reps[0]]), 'segments cover the start of the period')
            h.reach('served')


def reach(tier):
    return ['refused', 'early', 'callback', 'continuous', 'period offset', 'served', 'static', 'limited']
