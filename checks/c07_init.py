"""C07: init segments are the stored ones with live durations, from the documented time on."""
import content as C
import session as S

BOUNDS = {
    'quick': 'mvhd/tkhd/mdhd version 0 and 1 independently per track, 0 to 3 brands, extra boxes in the tracks; every '
             'timescale, duration, date, track id, handler and trex field at full width; now = k/1024 s below 2^31 s; '
             'init offset 0..10^6 s, start 0..2^31',
    'thorough': 'as quick with all versions, option sets and extra boxes crossed',
}
OUTSIDE = 'several tracks in one stored init segment; boxes other than ftyp, moov, mvhd, trak, tkhd, mdia, mdhd, hdlr, ' \
          'minf, mvex, trex, udta and free'

SETS = [[], ['init'], ['start'], ['start', 'init'], ['ato', 'start'], ['atoinf', 'start'], ['startrel', 'init'],
        ['start', 'stop', 'timeoffset', 'init'], ['start', 'dur', 'snr'], ['tfdt32', 'init'], [['modulo', 10], 'init'],
        ['start', 'tsbd', 'mup', 'snrdef']]


def cases(tier):
    out = []
    i = 0
    for st in SETS:
        nm = '+'.join(x if isinstance(x, str) else ''.join(map(str, x)) for x in st) or 'plain'
        for form in ('one', 'mux'):
            for vv in (((i % 2, (i // 2) % 2),) if tier == 'quick' else ((0, 0), (0, 1), (1, 0), (1, 1))):
                for ex in ((i % 4,) if tier == 'quick' else range(4)):
                    out.append({'name': '%s-%s-v%d%d-x%d' % (nm, form, vv[0], vv[1], ex), 'opts': st, 'form': form,
                                'v': vv, 'ex': ex})
            i += 1
    for vv in (0, 1):
        for ex in range(4):
            out.append({'name': 'read-v%d-x%d' % (vv, ex), 'form': 'read', 'v': (vv, vv), 'ex': ex})
    return out


U32 = (1 << 32) - 1
U64 = (1 << 64) - 1


def track(h, p, v, ex):
    w = U32 if v == 0 else U64
    k = {'timescale': h.int(p + 'ts', 0, U32), 'track_id': h.int(p + 'id', 0, U32), 'handler': h.bytes(p + 'h', 4),
         'v': v, 'mvhd_dur': h.int(p + 'md', 0, w), 'tkhd_dur': h.int(p + 'td', 0, w), 'mdhd_dur': h.int(p + 'dd', 0, w),
         'trex': [h.int(p + 'trex%d' % i, 0, U32) for i in range(4)], 'mvhd_ts': h.int(p + 'mts', 0, U32),
         'ct': h.int(p + 'ct', 0, w), 'mt': h.int(p + 'mt', 0, w),
         'brands': [h.bytes(p + 'b%d' % i, 4) for i in range(ex)],
         'tail': C.box(h, b'stbl', h.bytes(p + 'stbl', 3 + ex))}
    return k


def extended(h, k, ex, payload):
    d = C.init_segment(h, **k)
    if ex & 1:
        d = C.box(h, b'free', payload) + d
    if ex & 2:
        d = d + C.box(h, b'udta', payload)
    return d


def part(h, data, *path):
    r = C.find(h, data, *path)
    return data[r[0]:r[1]]


def run(h, case):
    ka = track(h, 'a', case['v'][0], case['ex'])
    pay = h.bytes('pay', 5)
    stored = extended(h, ka, case['ex'], pay)
    if case['form'] == 'read':
        m = h.load('dashlivesim.dashlib.initsegmentfilter')
        h.file('/vfs/x.mp4', stored)
        f = m.InitFilter('/vfs/x.mp4')
        out = f.filter()
        h.check(h.beq(out, stored), 'reading leaves the segment unchanged')
        h.check(f.track_timescale == ka['timescale'], 'track timescale')
        h.check(f.track_id == ka['track_id'], 'track id')
        h.check(h.beq(f.handler_type, ka['handler']), 'handler type')
        h.check(f.default_sample_description_index == ka['trex'][0], 'default description')
        h.check(f.default_sample_duration == ka['trex'][1], 'default duration')
        h.check(f.default_sample_size == ka['trex'][2], 'default size')
        h.check(f.default_sample_flags == ka['trex'][3], 'default flags')
        h.reach('read')
        return
    kb = track(h, 'b', case['v'][1], (case['ex'] + 1) % 4)
    second = extended(h, kb, case['ex'] ^ 1, pay)
    media = {'video': {'reps': ['V1'], 'timescale': 90000}, 'audio': {'reps': ['A1'], 'timescale': 48000}}
    sub = 'sub' if case['ex'] >= 2 else ''
    C.setup(h, 'tp', 2, 10, media=media, sub=sub, init=lambda rep: stored if rep == 'A1' else second)
    now = h.real('now', 0, 1 << 31, 1024)
    s = S.make(h, case['opts'], 2, now)
    m = h.load('dashlivesim.dashlib.dash_proxy')
    rep = 'A1' if case['form'] == 'one' else 'A1__V1'
    out = m.get_init(C.provider(h, S.url(h, s, 'tp', (sub + '/' if sub else '') + rep, 'init.mp4'), now, mod=m))
    ok = not C.refused(h, out)
    h.check(h.iff(s.now_int >= s.ast - s.init, ok), 'served from the availability start minus the init offset on')
    if not ok:
        h.reach('refused')
        return
    h.reach('served')
    h.note('out', out)
    za = dict(ka, mvhd_dur=0, tkhd_dur=0, mdhd_dur=0)
    if case['form'] == 'one':
        h.check(h.beq(out, extended(h, za, case['ex'], pay)), 'stored init segment with zero durations')
        return
    zb = dict(kb, mvhd_dur=0, tkhd_dur=0, mdhd_dur=0)
    a, b = C.init_segment(h, **za), C.init_segment(h, **zb)
    h.check([t for t, _, _ in C.boxes(h, out)] == [b'ftyp', b'moov'], 'ftyp and moov')
    h.check(h.beq(part(h, out, b'ftyp'), part(h, a, b'ftyp')), 'ftyp of the first track')
    lo, hi = C.find(h, out, b'moov')
    kids = C.boxes(h, out, lo + 8, hi)
    h.check(sorted(t for t, _, _ in kids) == [b'mvex', b'mvhd', b'trak', b'trak'], 'one header and two tracks')
    h.check(h.beq(part(h, out, b'moov', b'mvhd'), part(h, a, b'moov', b'mvhd')), 'movie header of the first track')
    traks = [out[x:y] for t, x, y in kids if t == b'trak']
    h.check(h.beq(traks[0], part(h, a, b'moov', b'trak')), 'first track')
    h.check(h.beq(traks[1], part(h, b, b'moov', b'trak')), 'second track')
    x, y = C.find(h, out, b'moov', b'mvex')
    tr = C.boxes(h, out, x + 8, y)
    h.check([t for t, _, _ in tr] == [b'trex', b'trex'], 'two track extends boxes')
    h.check(h.beq(out[tr[0][1]:tr[0][2]], part(h, a, b'moov', b'mvex', b'trex')), 'first trex')
    h.check(h.beq(out[tr[1][1]:tr[1][2]], part(h, b, b'moov', b'mvex', b'trex')), 'second trex')


def reach(tier):
    return ['served', 'refused', 'read']
