"""C25: the options of a URL may come in any order."""
import itertools
from xml.etree import ElementTree as ET
import content as C
from sx import harness
import manifest as MP
import session as S

BOUNDS = {
    'quick': 'time < 2^31 s (steps 1/4 s), start/stop times < 2^31, start number, buffer depth, update period, init offset up to 10^6, offsets up to '
             '1 h, durations up to 2^24 s, segment numbers < 2^31; the listed sets of two to five options in three orders; manifests, '
             'media, init and multiplexed segments, thumbnails',
    'thorough': 'as quick with more orders and segment durations 2 and 6 s',
}
OUTSIDE = 'the mutual order of several dur_ and of several baseurl_ options, which has a meaning'
KINDS = ('mpd', 'seg', 'init', 'mux', 'jpg', 'time')
SETS = [['start', 'snr', 'tsbd'], ['start', 'stop', 'ato'], ['startrel', 'stoprel', 'timeoffset'], ['start', ['dur_1800'], ['mup_30'], 'snr'],
        ['tfdt32', 'snr', 'tsbd'], ['cont', 'snr', 'ato'], ['snr', ['modulo', 10], 'ato'], ['start', 'atoinf', 'dur'],
        ['ast', 'timeoffset', 'snrdef'], ['init', 'start', 'tsbd'], ['start', ['mup_30'], ['dur_1800'], ['dur_3600']],
        ['start', ['periods_60'], ['continuous_1'], ['tsbd_10']], ['start', ['periods_60'], ['etp_30'], ['etpDuration_20']],
        ['start', ['xlink_30'], ['periods_60'], ['insertad_1']], ['start', ['segtimeline_1'], ['tsbd_4']], ['snr', ['segtimelinenr_1'], ['tsbd_4']],
        ['start', ['scte35_1'], 'snr'], ['ato', ['chunkdur_0.5'], 'start'], ['start', ['utc_direct-head'], ['spd_7'], ['mup_30']],
        ['start', ['baseurl_u10_d10'], 'snr', ['baseurl_d20_u10']], ['start', 'snr', ['sidx_1'], ['baseurl_u20_d10']], ['start', ['segtimelineloss_1'], ['segtimeline_1'], ['baseurl_u40_d20'], ['tsbd_4']],
        [['peroff_1'], ['periods_60'], 'start', ['mpdcallback_30'], ['tsbd_10']]]
MPD_ONLY = ('periods', 'scte35', 'xlink', 'segtimeline', 'utc', 'spd', 'peroff')


def cases(tier):
    out = []
    quick = tier == 'quick'
    for i, st in enumerate(SETS):
        nm = '+'.join(x if isinstance(x, str) else ''.join(map(str, x)) for x in st)
        names = [x[0] for x in st if not isinstance(x, str)]
        only = any(str(x).startswith(MPD_ONLY) for x in names)
        kinds = ['mpd']
        if not only:
            kinds += ['seg', ('init', 'mux', 'jpg', 'time')[i % 4]] if quick else list(KINDS[1:])
        for k in kinds:
            for d in ((2,) if quick or k == 'mpd' else (2, 6)):
                out.append({'name': '%s-%s-%d' % (k, nm, d), 'kind': k, 'opts': st, 'dur': d, 'i': i})
    return out


def name(o):
    return o if isinstance(o, str) else o[0]


def orders(opts, tier, i):
    idx = list(range(len(opts)))
    keep = [k for k in idx if name(opts[k]).startswith(('dur', 'baseurl_'))]
    perms = [p for p in itertools.permutations(idx) if list(p) != idx and [k for k in p if k in keep] == keep]
    n = 2 if tier == 'quick' else 6
    if len(perms) <= n:
        return perms
    step = len(perms) // n
    return [perms[-1]] + [perms[(i + k * step) % (len(perms) - 1)] for k in range(n - 1)]


def canon(e):
    return (e.tag, sorted(e.attrib.items()), e.text, [canon(c) for c in e])


def same(h, a, b, opts, p):
    ok = [a[0] == b[0], len(a[1]) == len(b[1]), len(a[3]) == len(b[3])]
    if not all(ok):
        return False
    for x, y in zip(a[1], b[1]):
        if '{http://www.w3.org/1999/xlink}href' in x[0] and x[0] == y[0]:
            ok.append(url(h, x[1], y[1], opts, p))
        else:
            ok += [x[0] == y[0], h.eq(x[1], y[1])]
    if a[0] in (MP.NS + 'BaseURL', MP.NS + 'Location'):
        ok.append(url(h, a[2], b[2], opts, p))
    elif a[2] is None or b[2] is None:
        ok.append(a[2] is b[2])
    else:
        ok.append(h.eq(a[2], b[2]))
    for x, y in zip(a[3], b[3]):
        ok.append(same(h, x, y, opts, p))
    return h.all(*ok)


def url(h, a, b, opts, p):
    "the same URL but for the order of the options"
    a, b = a.split('/'), b.split('/')
    if len(a) != len(b):
        return False
    special = [name(o) for o in opts if name(o).startswith('baseurl_')]
    if special and a[2] == 'sim.org':
        if [x for x in a if x in special] != [x for x in b if x in special]:
            return False
        a, b = [x for x in a if x not in special], [x for x in b if x not in special]
        left = [i for i, o in enumerate(opts) if name(o) not in special]
        p = [left.index(i) for i in p if i in left]
    n = len(p)
    if a[2] != 'sim.org':
        return h.eq('/'.join(a), '/'.join(b))
    return h.all(*[h.eq(x, y) for x, y in zip(a[:4] + [a[4 + i] for i in p] + a[4 + n:], b)])


def run(h, case):
    import struct
    dur, kind = case['dur'], case['kind']
    ts = {'V1': 90000, 'A1': 48000}

    def segment(rep, n, ext):
        if ext == '.jpg':
            return b'jpg' + h.be(n, 4)
        return C.media_segment(h, tfdt=(n - 1) * dur * ts[rep], samples=[{'dur': dur * ts[rep], 'size': 1, 'flags': 0, 'cto': 0, 'data': b'x'}])
    media = {'video': {'reps': ['V1'], 'timescale': 90000}, 'audio': {'reps': ['A1'], 'timescale': 48000},
             'image': {'reps': ['thumbs'], 'timescale': 1}}
    for k, m in media.items():
        m.update(total=4 * dur * m['timescale'], dat='a_%s.dat' % k)
        h.file(C.CFG + '/a_%s.dat' % k, struct.pack('HHII', 1, 3, 0, dur * m['timescale']))
    text = MP.content(dur).replace('         <Representation id="V2" bandwidth="48000"/>\n', '')
    C.setup(h, 'tp', dur, 4, media=media, segment=segment, version='1.1', tsbd=30, mpd={'Manifest.mpd': text}, init=lambda rep: C.init_segment(h))
    now = h.real('now', 0, 1 << 31, 4)
    if ['segtimeline_1'] in case['opts'] or ['segtimelinenr_1'] in case['opts'] or ['periods_60'] in case['opts']:
        tmax = 1 << 20
        h.assume(now < tmax)
    if ['utc_direct-head'] in case['opts']:
        h.set_clock(harness.Clock([now], advance=True))
    s = S.make(h, case['opts'], dur, now, tsbd0=30)
    leaf = ['Manifest.mpd']
    if kind != 'mpd':
        n = h.int('n', 0, 1 << 31)
        name = h.dec(n)
        if kind == 'time':
            name = 't' + h.dec(n * dur * 90000)
        leaf = {'seg': ['V1', name + '.m4s'], 'time': ['V1', name + '.m4s'], 'mux': ['A1__V1', name + '.m4s'], 'jpg': ['thumbs', name + '.jpg'],
                'init': ['V1', 'init.mp4']}[kind]

    def get(parts):
        u = '/'.join(['', 'dash'] + parts + ['tp'] + leaf)
        if kind == 'mpd':
            return h.attempt(MP.get, h, C, u, now)
        if kind == 'init':
            m = h.load('dashlivesim.dashlib.dash_proxy')
            return h.attempt(m.get_init, C.provider(h, u, now, mod=m))
        return h.attempt(C.get_media, h, u, now)
    r0 = get(s.parts)
    todo = orders(case['opts'], h.tier, case['i'])
    p = todo[h.val(h.int('order', 0, len(todo) - 1))]
    r1 = get([s.parts[k] for k in p])
    if r0[0] == 'exc' or r1[0] == 'exc':
        h.check(r0[0] == r1[0], 'answered in any order')
        h.reach('refused')
        return
    a, b = r0[1], r1[1]
    if C.refused(h, a) or C.refused(h, b):
        h.check(C.refused(h, a) and C.refused(h, b), 'refused in any order')
        h.reach('refused')
        return
    if kind == 'mpd':
        x, y = h.attempt(ET.fromstring, a), h.attempt(ET.fromstring, b)
        h.check(x[0] == 'ok' and y[0] == 'ok', 'well-formed')
        h.check(same(h, canon(x[1]), canon(y[1]), case['opts'], p), 'the same manifest in any order')
        h.reach('manifest')
    else:
        h.check(h.len(a) == h.len(b) and h.beq(a, b), 'the same segment in any order')
        h.reach(kind)


def reach(tier):
    return ['refused', 'manifest'] + list(KINDS[1:])
