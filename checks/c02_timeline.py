"""C02: looped VoD content appears as one continuous timeline."""
import content as C
import session as S

BOUNDS = {
    'quick': 'segment number and time symbolic (now < 2^31 s, n < 2^31, start numbers < 10^6, start times < 2^31, time '
             'offsets multiple of the segment duration), first VoD segment number 0..10^6; stored decode times up to '
             '2^32-1 (32-bit boxes) or 2^62 (64-bit boxes); segment durations 2 and 6 s; loops of 1, 3 and 600 segments; '
             'timescales 1, 1000, 48000, 90000, 10^7',
    'thorough': 'as quick with segment durations 1,2,3,4,6,8,10 s and loops 1,2,3,7,450,600,1800',
}
OUTSIDE = 'time-named segments beyond 2^50 ticks; segment durations given in milliseconds; content whose segments are not aligned to the nominal duration is ' \
          'only checked through its stored decode time'


def cases(tier):
    out = []
    durs = (2, 6) if tier == 'quick' else (1, 2, 3, 4, 6, 8, 10)
    loops = (1, 3, 600) if tier == 'quick' else (1, 2, 3, 7, 450, 600, 1800)
    scales = (1, 1000, 48000, 90000, 10000000)
    k = 0
    for st in ([], ['snr'], ['start', 'snr'], ['start', 'timeoffset', 'snr'], ['tfdt32'], ['cont', 'snr'], ['start', 'snrdef'],
               ['start', 'stop', 'timeoffset']):
        for d in durs:
            for lp in loops:
                for form in ('nr', 'mux', 'jpg', 'time') if st in ([], ['start', 'timeoffset', 'snr']) else ('nr',):
                    for v in (0, 1):
                        if v == 1 and form not in ('nr', 'mux'):
                            continue
                        ts = scales[k % len(scales)]
                        k += 1
                        out.append({'name': '%s:%s-%d-%d-v%d-%d' % (form, '+'.join(st) or 'plain', d, lp, v, ts),
                                    'opts': st, 'dur': d, 'loop': lp, 'form': form, 'v': v, 'ts': ts})
    return out


def run(h, case):
    dur, loop, form, v, ts = case['dur'], case['loop'], case['form'], case['v'], case['ts']
    first = h.int('first', 0, 1000000)
    stored = h.int('stored', 0, (1 << 32) - 1 if v == 0 else 1 << 62)
    stored2 = h.int('stored2', 0, (1 << 32) - 1 if v == 0 else 1 << 62) if form == 'mux' else 0
    asked = []

    def segment(rep, n, ext):
        asked.append((rep, n))
        if ext == '.jpg':
            return C.u32(h, n)
        return C.media_segment(h, tfdt=stored if rep == 'V1' else stored2, tfdt_v=v, mfhd_seq=7,
                               samples=[{'dur': dur * ts, 'size': 4, 'flags': 0, 'cto': 0, 'data': C.u32(h, n)}])
    media = {'video': {'reps': ['V1'], 'timescale': ts}, 'audio': {'reps': ['A1'], 'timescale': 48000},
             'image': {'reps': ['thumbs'], 'timescale': 1}}
    C.setup(h, 'tp', dur, loop, first=first, media=media, segment=segment)
    now = h.real('now', 0, 1 << 31, 64)
    s = S.make(h, case['opts'], dur, now)
    n = h.int('n', 0, 1 << 31 if form != 'time' else min(1 << 31, (1 << 50) // (dur * ts)))
    rep, name = 'V1', h.dec(n) + '.m4s'
    if form == 'time':
        # announced times may deviate from the nominal grid, as audio segments do
        e = h.int('e', -(dur * ts // 3), dur * ts // 3) if loop == 1 else 0
        h.assume(n * dur * ts + e >= 0)
        name = 't' + h.dec(n * dur * ts + e) + '.m4s'
        n = n + s.snr       # media time 0 is the first number
    elif form == 'jpg':
        rep, name = 'thumbs', h.dec(n) + '.jpg'
    elif form == 'mux':
        rep = 'V1__A1'
    r = C.get_media(h, S.url(h, s, 'tp', rep, name), now)
    if C.refused(h, r):
        h.reach('refused')
        return
    h.reach(form)
    media_time = (n - s.first) * dur + s.media_at_ast
    loops_done = media_time // (loop * dur)
    k = (media_time - loops_done * loop * dur) // dur
    shift = loops_done * loop * dur
    for rp, vod in asked:
        h.check(h.all(vod == first + k, vod >= first, vod < first + loop), 'VoD segment of the loop position')
    if form == 'jpg':
        h.check(h.beq(r, C.u32(h, first + k)), 'thumbnail content')
        return
    if form == 'mux':
        trafs = [b for b in C.boxes(h, r, *inner(h, r, b'moof')) if b[0] == b'traf']
        h.check(len(trafs) == 2, 'two tracks')
        vals = []
        for t, a, b in trafs:
            for t2, a2, b2 in C.boxes(h, r, a + 8, b):
                if t2 == b'tfdt':
                    vv = h.val(h.u(r[a2 + 8:a2 + 9]))
                    vals.append(h.u(r[a2 + 12:a2 + 16]) if vv == 0 else h.u(r[a2 + 12:a2 + 20]))
        h.check(h.all(vals[0] == stored + shift * ts, vals[1] == stored2 + shift * 48000), 'decode times')
        h.note('tfdt', vals)
    else:
        t = C.tfdt_of(h, r)
        h.note('tfdt', t)
        h.check(t == stored + shift * ts, 'decode time = stored decode time + whole loops')
    h.check(C.seqno_of(h, r) == n, 'fragment sequence number = segment number')
    md = C.find(h, r, b'mdat')
    h.check(h.beq(r[md[0] + 8:md[0] + 12], C.u32(h, first + k)), 'media data of the loop position')
    if 'timeoffset' not in case['opts'] and form == 'nr':
        pos = s.media_at_ast + (n - s.first) * dur
        h.check(h.imp(stored == k * dur * ts, t == pos * ts), 'media time follows the session clock')


def inner(h, data, typ):
    a, b = C.find(h, data, typ)
    return a + 8, b


def reach(tier):
    return ['nr', 'mux', 'jpg', 'time']
