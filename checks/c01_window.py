"""C01: a media segment is served exactly inside its availability window."""
import content as C
import session as S

BOUNDS = {
    'quick': 'now = k/1024 s for every k with 0 <= now < 2^31 s; segment number 0..2^31; start number 0..10^6; '
             'timeshift depth 0..10^6 s; start/stop time 0..2^31; dur options 1..2^24 s; availability offsets k/4 s up to '
             '1 h; relative start/stop up to 10^6 s; segment durations 2 and 6 s, loop length 600',
    'thorough': 'as quick, with segment durations 1,2,3,4,6,8,10 s, loop lengths 1,3,600,1800 and all option '
                'combinations listed in SETS',
}
OUTSIDE = 'start times given with a fraction, negative relative times beyond 10^6 s, options outside the documented list'

SETS = [[], ['snr'], ['snrdef'], ['tsbd'], ['start'], ['ast'], ['ato'], ['atoinf'], ['start', 'stop'],
        ['startrel', 'stoprel'], ['startrel', 'stoprel', 'timeoffset'],
        ['start', 'dur'], ['start', 'dur', 'dur2'], ['start', 'snr', 'dur'], ['start', 'snrdef', 'dur'],
        ['timeoffset'], ['start', 'timeoffset'], ['start', 'stop', 'timeoffset'], ['start', 'dur', 'timeoffset'],
        ['tfdt32'], ['cont'], ['tfdt32', 'ato'], ['snr', 'cont'],
        ['snr', 'tsbd', 'start', 'ato'], ['snr', 'tsbd', 'ato', 'start', 'stop', 'timeoffset'],
        ['snr', 'start', 'stop', 'atoinf'], ['start', 'dur', 'atoinf', 'tsbd'],
        [['modulo', 1]], [['modulo', 10], 'snr'], ['ato', ['modulo', 5]], [['modulo', 60], 'tsbd'],
        ['ato', ['chunkdur_1']], [['ato_-3.5']], [['ato_x'], 'start'], [['chunkdur_-1'], 'ato'], ['start', 'mup', 'dur', 'dur2', 'tsbd', 'ato', 'snr']]


def cases(tier):
    out = []
    durs = (2, 6) if tier == 'quick' else (1, 2, 3, 4, 6, 8, 10)
    loops = (600,) if tier == 'quick' else (1, 3, 600, 1800)
    for st in SETS:
        nm = '+'.join(x if isinstance(x, str) else ''.join(map(str, x)) for x in st) or 'plain'
        for d in durs:
            for loop in loops:
                out.append({'name': '%s-%d-%d' % (nm, d, loop), 'opts': st, 'dur': d, 'loop': loop, 'form': 'nr'})
    for d in durs:
        for f in ('time', 'jpg', 'mux', 'tjpg'):
            for st in ([], ['start'], ['tsbd', 'ato'], ['snr'], ['snrdef'], ['start', 'dur'], ['atoinf'],
                       ['start', 'stop'], ['start', 'timeoffset'], ['ato', ['modulo', 5]]):
                nm = '+'.join(x if isinstance(x, str) else ''.join(map(str, x)) for x in st) or 'plain'
                out.append({'name': '%s:%s-%d' % (f, nm, d), 'opts': st, 'dur': d, 'loop': 600, 'form': f})
    return out


def run(h, case):
    dur, loop = case['dur'], case['loop']
    form = case['form']
    seg = C.media_segment(h, tfdt=0, samples=[{'dur': 90000, 'size': 1, 'flags': 0, 'cto': 0, 'data': b'x'}])
    media = {'video': {'reps': ['V1'], 'timescale': 90000}, 'audio': {'reps': ['A1'], 'timescale': 48000},
             'image': {'reps': ['thumbs'], 'timescale': 1}}
    tsbd = 300 if len(case['opts']) % 2 else 77
    C.setup(h, 'tp', dur, loop, tsbd=tsbd, media=media, segment=lambda rep, n, ext: seg)
    now = h.real('now', 0, 1 << 31, 1024)
    s = S.make(h, case['opts'], dur, now, tsbd0=tsbd)
    n = h.int('n', 0, 1 << 31)
    if form in ('time', 'tjpg'):
        n = n + s.snr       # media time 0 is the first number
    rep, name = 'V1', h.dec(n) + '.m4s'
    if form == 'time':
        name = 't' + h.dec((n - s.snr) * dur * 90000) + '.m4s'
    elif form == 'jpg':
        rep, name = 'thumbs', h.dec(n) + '.jpg'
    elif form == 'tjpg':
        rep, name = 'thumbs', 't' + h.dec((n - s.snr) * dur) + '.jpg'
    elif form == 'mux':
        rep = 'A1__V1'
    r = C.get_media(h, S.url(h, s, 'tp', rep, name), now)
    ok = not C.refused(h, r)
    h.note('ok', ok)
    h.check(h.iff(S.window(h, s, n, dur, now), ok), 'served iff inside the availability window')
    h.reach('served' if ok else 'refused')


def reach(tier):
    return ['served', 'refused']
