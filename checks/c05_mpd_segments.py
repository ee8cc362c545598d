"""C05: what the manifest announces is what the segment server delivers."""
import content as C
import manifest as MP
import session as S

BOUNDS = {
    'quick': 'time < 2^31 s (steps 1/4 s), start/stop times < 2^31, start number up to 10^6, buffer depth up to 10^6 s, '
             'offsets up to 1 h, segment index < 2^31; segment durations 2 and 6 s',
    'thorough': 'as quick with segment durations 1,2,3,4,6,8,10 s and all modulo values',
}
OUTSIDE = 'several periods (C15) and SegmentTimeline (C06); relative start before the epoch'

SETS = [[], ['snr'], ['snrdef'], ['tsbd'], ['start'], ['start', 'snr', 'tsbd'], ['ato'], ['atoinf'], ['start', 'ato'],
        ['timeoffset'], ['start', 'timeoffset'], ['start', 'stop'], ['start', 'stop', 'timeoffset', 'snr'],
        ['startrel', 'stoprel'], ['startrel'], ['startrel', 'stoprel', 'timeoffset'],
        ['start', 'dur'], ['start', 'snr', 'dur', 'dur2'], ['start', 'dur', 'timeoffset'], ['tfdt32'], ['cont'],
        ['snr', 'cont'], ['ato', ['chunkdur_1']], ['start', 'snrdef', 'dur'],
        ['start', 'snr', 'ato', 'timeoffset'], [['ato_-3.5']]]
DEEP = [['start', 'mup'], ['tsbd', 'ato'], ['start', 'atoinf', 'stop'], ['start', 'dur', 'ato'], ['tsbd', 'timeoffset', 'start'],
        ['startrel', 'snr', 'ato'], ['cont', 'ato'], ['tfdt32', 'snr', 'ato']]


def cases(tier):
    out = []
    durs = (2, 6) if tier == 'quick' else (1, 2, 3, 4, 6, 8, 10)
    mods = (1, 10, 30) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60)
    for st in SETS + (DEEP if tier != 'quick' else []) + [[['modulo', m]] for m in mods] + [['snr', ['modulo', 10]]]:
        for d in durs:
            nm = '+'.join(x if isinstance(x, str) else ''.join(map(str, x)) for x in st) or 'plain'
            out.append({'name': '%s-%d' % (nm, d), 'opts': st, 'dur': d})
    return out


def run(h, case):
    dur, loop = case['dur'], 600
    ts = {'V1': 90000, 'A1': 48000}

    def segment(rep, n, ext):
        return C.media_segment(h, tfdt=(n - 1) * dur * ts[rep],
                               samples=[{'dur': dur * ts[rep], 'size': 1, 'flags': 0, 'cto': 0, 'data': b'x'}])
    media = {'video': {'reps': ['V1', 'V2'], 'timescale': 90000}, 'audio': {'reps': ['A1'], 'timescale': 48000}}
    tsbd = 300 if len(case['opts']) % 2 else 77
    C.setup(h, 'tp', dur, loop, tsbd=tsbd, media=media, segment=segment, mpd={'Manifest.mpd': MP.content(dur)})
    now = h.real('now', 0, 1 << 31, 4)
    s = S.make(h, case['opts'], dur, now, tsbd0=tsbd)
    url = '/'.join(['', 'dash'] + s.parts + ['tp', 'Manifest.mpd'])
    r = h.attempt(MP.get, h, C, url, now)
    h.check(r[0] == 'ok', 'manifest generated')
    m = MP.parse(h, r[1])
    h.check(len(m.periods) == 1, 'one period')
    p = m.periods[0]
    h.check([x.type for x in p.sets] == ['audio', 'video'], 'adaptation sets kept')
    k = h.int('k', 0, 1 << 31)
    for st in p.sets:
        d = st.duration
        h.check(d == dur * st.timescale, 'announced segment duration')
        n = st.start_number + k
        rep = st.reps[0]
        # the media URL the client builds
        leaf = st.media.replace('$RepresentationID$', rep).replace('$Number$', h.dec(n))
        if m.location:
            parts = m.location[0].split('/')[3:-1]      # the session continues at Location
        elif m.base:
            parts = m.base[0].text.split('/')[3:-1]
        else:
            parts = url.split('/')[1:-1]
        rr = C.get_media(h, '/' + '/'.join(parts) + '/' + leaf, now)
        ok = not C.refused(h, rr)
        h.note('ok', ok)
        seg_end = m.ast + p.start + (k + 1) * dur
        early = now < seg_end - (m.ato if m.ato is not None else 0)
        if m.ato_inf:
            early = now < m.ast
        promised = [h.no(early)]
        if m.mpdur is not None:
            promised.append((k + 1) * dur <= m.mpdur)
        if m.type == 'static':
            promised = [(k + 1) * dur <= m.mpdur]
        elif m.tsbd is not None:
            if not m.ato_inf:
                promised.append(now <= seg_end + dur + m.tsbd)
        if m.aet is not None:
            promised.append(now <= m.aet)
        h.check(h.imp(h.all(*promised), ok), 'announced segment is served')
        if m.type != 'static':
            h.check(h.imp(early, not ok), 'segment announced for later is refused')
        if ok:
            t = C.tfdt_of(h, rr)
            h.check(t * st.timescale == (st.pto + k * dur * st.timescale) * ts[rep],
                    'media time = presentation time offset + position in period')
            h.reach('served')
        else:
            h.reach('refused')
    if m.type == 'static':
        h.reach('static')


def reach(tier):
    return ['served', 'refused', 'static']
