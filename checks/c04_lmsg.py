"""C04: the last-segment brand marks exactly the last segment of a time-limited session."""
import content as C
import session as S

BOUNDS = {
    'quick': 'segment number < 2^31, time < 2^31 s (steps 1/16 s), start < 2^31, durations 1..2^24 s, start number up to '
             '10^6, time offset multiple of the duration; segment durations 2 and 6 s; stored brands with or without lmsg',
    'thorough': 'as quick with segment durations 1,2,3,4,6,8,10 s and modulo sessions of 1,2,3,4,5,6,10,12,15,20,30,60 min',
}
OUTSIDE = 'segments stored without a brand box cannot carry the brand'

SETS = [[], ['snr'], ['start'], ['start', 'dur'], ['start', 'dur', 'dur2'], ['start', 'snr', 'dur'],
        ['start', 'snrdef', 'dur'], ['start', 'timeoffset', 'dur'], ['start', 'stop'], ['tfdt32'], ['cont'], ['start', 'dur', 'ato'],
        ['start', 'dur', 'snr', 'atoinf']]


def cases(tier):
    out = []
    durs = (2, 6) if tier == 'quick' else (1, 2, 3, 4, 6, 8, 10)
    mods = (1, 5, 10, 60) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60)
    for st in SETS + [[['modulo', m]] for m in mods] + [['snr', ['modulo', 10]], ['timeoffset', ['modulo', 10]], ['timeoffset', 'snr', ['modulo', 5]], ['ato', ['modulo', 10]], ['atoinf', ['modulo', 5]]]:
        for d in durs:
            for form in ('nr', 'mux', 'time'):
                for br in (0, 1):
                    nm = '+'.join(x if isinstance(x, str) else ''.join(map(str, x)) for x in st) or 'plain'
                    out.append({'name': '%s:%s-%d-%d' % (form, nm, d, br), 'opts': st, 'dur': d, 'form': form, 'br': br})
    return out


def run(h, case):
    dur = case['dur']
    seg = C.media_segment(h, tfdt=0, samples=[{'dur': 90000, 'size': 1, 'flags': 0, 'cto': 0, 'data': b'x'}],
                          styp=[b'msdh', b'lmsg'] if case['br'] else [b'msdh', b'msix'])
    media = {'video': {'reps': ['V1'], 'timescale': 90000}, 'audio': {'reps': ['A1'], 'timescale': 48000}}
    C.setup(h, 'tp', dur, 600, media=media, segment=lambda rep, n, ext: seg)
    now = h.real('now', 0, 1 << 31, 16)
    s = S.make(h, case['opts'], dur, now)
    n = h.int('n', 0, 1 << 31)
    name = h.dec(n)
    if case['form'] == 'time':
        n = n + s.snr
        name = 't' + h.dec((n - s.snr) * dur * 90000)
    r = C.get_media(h, S.url(h, s, 'tp', 'V1__A1' if case['form'] == 'mux' else 'V1', name + '.m4s'), now)
    if C.refused(h, r):
        h.reach('refused')
        return
    has = b'lmsg' in C.brands_of(h, r)
    h.note('lmsg', has)
    want = n == s.last if s.last is not None else False
    h.check(h.iff(want, has), 'brand iff last segment')
    h.reach('last' if has else 'not last')


def reach(tier):
    return ['last', 'not last']
