"""C16: simulated outages of (redundant) base URLs: exactly the announced seconds, announced in advance, manifests frozen."""
import struct
import content as C
import manifest as MP
import session as S

BOUNDS = {
    'quick': 'request time < 2^31 s (steps 1/4 s), segment numbers < 2^31, start number up to 10^6, buffer depth, start and '
             'stop times; eleven up/down patterns incl. empty and longer than a minute; one to three base URLs; option '
             'before or after other options; number and timeline addressing',
    'thorough': 'as quick with twenty patterns for every option set',
}
OUTSIDE = 'init segments, thumbnails and manifests are served during outages; chunked and multiplexed replies carry no event'

PATTERNS = [('u', 10, 20), ('u', 20, 10), ('u', 40, 20), ('d', 40, 20), ('d', 20, 10), ('u', 7, 6), ('d', 25, 12), ('u', 0, 9), ('u', 60, 0),
            ('d', 15, 45), ('u', 50, 70)]
MORE = [('u', 1, 1), ('d', 1, 1), ('d', 0, 20), ('u', 30, 30), ('d', 30, 30), ('d', 70, 5), ('u', 13, 4), ('d', 59, 1), ('u', 59, 1)]
SETS = [[], ['snr'], ['tsbd', 'start'], ['start', 'stop'], ['startrel'], ['snrdef'], ['atoinf'], ['start', 'timeoffset'], ['dur'], ['ato']]


def opt(p):
    return 'baseurl_%s%d_%s%d' % (p[0], p[1], 'd' if p[0] == 'u' else 'u', p[2])


def cases(tier):
    out = []
    quick = tier == 'quick'
    pats = PATTERNS + ([] if quick else MORE)
    for i, p in enumerate(pats):
        for j, st in enumerate(SETS):
            if quick and j not in (i % 10, (i * 3 + 5) % 10):
                continue
            nm = '+'.join(st) or 'plain'
            out.append({'name': 'media-%s%d_%d-%s' % (p + (nm,)), 'kind': 'media', 'pats': [p], 'opts': st, 'front': (i + j) % 2,
                        'rep': ['V1', 'A1'][(i + j) % 2], 'sidx': (i + j) % 3 == 1, 'time': (i + j) % 4 == 2})
    for i, st in enumerate(SETS):
        st = [['tsbd_70'] if x == 'tsbd' else ['mup_5'] if x == 'stop' else x for x in st]
        ps = [[PATTERNS[i]], [PATTERNS[2], PATTERNS[3]], [PATTERNS[i], PATTERNS[(i + 4) % 11], PATTERNS[(i + 7) % 11]]]
        for k in range(3) if not quick else (i % 3, (i + 1) % 3):
            out.append({'name': 'mpd%d-%s' % (k + 1, '+'.join(map(str, st)) or 'plain'), 'kind': 'mpd', 'pats': ps[k], 'opts': st,
                        'front': (i + k) % 3, 'https': i % 2,
                        'base': ('', '   <BaseURL>http://old.org/x/</BaseURL>\n   <BaseURL>y/</BaseURL>\n')[(i + k // 2) % 2]})
    for i, p in enumerate(pats):
        for j, st in enumerate((['start'], ['snr'], [], ['start', ['mup_7'], ['tsbd_3']])):
            if quick and j != i % 4:
                continue
            out.append({'name': 'loss-%s%d_%d-%s' % (p + ('+'.join(map(str, st)) or 'plain',)), 'kind': 'loss', 'pats': [p], 'opts': st,
                        'front': (i + j) % 2, 'mode': ('segtimeline_1', 'segtimelinenr_1')[(i + j // 2) % 2], 'prof': (i + j) % 3 != 1})
    return out


def join(parts, urls, front):
    if front == 1:
        return urls + parts
    if front == 2 and urls:
        return urls[:1] + parts + urls[1:]
    return parts + urls


def state(h, p, now):
    "(down, last second before an outage) of a pattern at whole second now"
    t = now % 60
    first, a, b = p
    tot = a + b
    down, last = [], []
    for k in range(0, 60, tot):             # the pattern restarts every minute
        if first == 'u':
            down.append(h.all(k + a < t, t <= k + tot))
            last.append(t == k + a)
        else:
            down.append(h.all(k < t, t <= k + a))
    return h.any(*down), h.any(*last) if last else False


EMSG = b'urn:mpeg:dash:event:2012\x001\x00'


def same_but_event(h, r, r0, now):
    "r is r0 with one event box before the fragment and its index"
    a = min(x[1] for x in C.boxes(h, r0) if x[0] in (b'sidx', b'moof'))
    n = 12 + len(EMSG) + 16 + 20
    h.check(h.len(r) == h.len(r0) + n, 'one event box more')
    h.check(h.beq(r[:a], r0[:a]) and h.beq(r[a + n:], r0[a:]), 'the rest of the segment is unchanged')
    e = r[a:a + n]
    h.check(h.u(e[:4]) == n and h.beq(e[4:8], b'emsg') and h.u(e[8:12]) == 0, 'event box header')
    h.check(h.beq(e[12:12 + len(EMSG)], EMSG), 'manifest validity event')
    q = 12 + len(EMSG)
    h.check(h.all(h.u(e[q:q + 4]) == 1, h.u(e[q + 4:q + 8]) == 2, h.u(e[q + 8:q + 12]) == 0, h.u(e[q + 12:q + 16]) == 0), 'event in two seconds')
    h.check(h.ts(e[q + 16:].decode('utf-8')) == now, 'the manifest of this second is the last valid one')


def run(h, case):
    dur, ts = 2, 90000
    kind = case['kind']

    def segment(rep, n, ext):
        return C.media_segment(h, tfdt=(n - 1) * dur * ts, samples=[{'dur': dur * ts, 'size': 1, 'flags': 0, 'cto': 0, 'data': b'x'}])
    media = {'video': {'reps': ['V1', 'V2'], 'timescale': ts}, 'audio': {'reps': ['A1'], 'timescale': ts}}
    text = MP.content(dur, base=case.get('base', ''))
    now = h.real('now', 0, 1 << 31, 4)
    if kind == 'loss':
        for m in media.values():
            m.update(total=dur * ts, dat='a.dat')
        h.file(C.CFG + '/a.dat', struct.pack('HHII', 1, 0, 0, dur * ts))
        if case['prof']:
            text = text.replace('dash264"', 'dash264,http://dashif.org/guidelines/dash-if-simple"')
        C.setup(h, 'tp', dur, 1, media=media, segment=segment, mpd={'Manifest.mpd': text}, version='1.1', tsbd=6)
    else:
        C.setup(h, 'tp', dur, 60, media=media, segment=segment, mpd={'Manifest.mpd': text})
    s = S.make(h, case['opts'], dur, now, tsbd0=6 if kind == 'loss' else 300)
    urls = [opt(p) for p in case['pats']]
    sec = int(now)
    t = h.int('t', 0, 59)
    h.assume(sec % 60 == t)
    if kind == 'loss':
        return loss(h, case, s, urls, now, sec)
    if kind == 'mpd':
        return mpd(h, case, s, urls, now, sec)
    n = h.int('n', 0, 1 << 31)
    extra = ['sidx_1'] if case['sidx'] else []
    leaf = 't' + h.dec(n * dur * ts) + '.m4s' if case['time'] else h.dec(n) + '.m4s'
    r0 = C.get_media(h, '/'.join(['', 'dash'] + s.parts + extra + ['tp', case['rep'], leaf]), now)
    r = C.get_media(h, '/'.join(['', 'dash'] + join(s.parts, urls, case['front']) + extra + ['tp', case['rep'], leaf]), now)
    down, last = state(h, case['pats'][0], sec)
    if C.refused(h, r0):
        h.check(C.refused(h, r), 'nothing more is served')
        return
    if h.sat(down):
        h.check(C.refused(h, r), 'nothing is served during an outage')
        h.reach('down')
        return
    h.check(not C.refused(h, r), 'served outside the outages')
    if h.sat(last):
        same_but_event(h, r, r0, sec)
        h.reach('last')
    else:
        h.check(h.len(r) == h.len(r0) and h.beq(r, r0), 'the ordinary segment')
        h.reach('up')


def mpd(h, case, s, urls, now, sec):
    mp = h.load('dashlivesim.dashlib.mpd_proxy')

    def text(us):
        u = '/'.join(['', 'dash'] + join(s.parts, us, case['front']) + ['tp', 'Manifest.mpd'])
        return mp.get_mpd(C.provider(h, u, now, https=case['https']))
    m0 = MP.parse(h, text([]))
    r = h.attempt(text, urls)
    h.check(r[0] == 'ok', 'manifest generated')
    m = MP.parse(h, r[1])
    if m0.location:
        h.check(len(m.location) == 1 and not m.base, 'location of sessions with relative times')
        h.reach('location')
        return
    h.check(len(m.base) == len(urls), 'one base URL per redundant server')
    plain = m0.base[0].text.split('/')
    h.check(plain[-1] == '' and '' not in plain[3:-1], 'plain base URL')
    which = h.val(h.int('which', 0, len(urls) - 1))
    for k, (b, u) in enumerate(zip(m.base, urls)):
        h.check(sorted(b.attrib) == sorted(m0.base[0].attrib), 'same attributes')
        h.check(h.all(*[h.eq(v, m0.base[0].attrib[a]) for a, v in b.attrib.items()]), 'same availability offset')
        parts = b.text.split('/')
        h.check(u in parts and [x for x in parts if x != u] == plain, 'the base URL of the session with the option of one server')
        h.check(parts.index(u) < parts.index('tp'), 'the option precedes the content')
        if k != which:
            continue
        n = h.int('n', 0, 1 << 31)
        leaf = '/'.join(['V1', h.dec(n) + '.m4s'])
        r0 = C.get_media(h, '/' + '/'.join(plain[3:-1]) + '/' + leaf, now)
        r = C.get_media(h, '/' + '/'.join(parts[3:-1]) + '/' + leaf, now)
        if C.refused(h, r0):
            h.check(C.refused(h, r), 'nothing more is served')
        else:
            down, last = state(h, case['pats'][k], sec)
            h.check(h.iff(C.refused(h, r), down), 'the server of the base URL fails in its outages')
            h.reach('server')
    h.reach('several' if len(urls) > 1 else 'single')


def canon(e):
    return (e.tag, sorted(e.attrib.items()), [canon(c) for c in e])


def same(h, a, b):
    if a[0] != b[0] or len(a[1]) != len(b[1]) or len(a[2]) != len(b[2]):
        return False
    ok = []
    for x, y in zip(a[1], b[1]):
        ok += [x[0] == y[0], h.eq(x[1], y[1])]
    for x, y in zip(a[2], b[2]):
        ok.append(same(h, x, y))
    return h.all(*ok)


def loss(h, case, s, urls, now, sec):
    p = case['pats'][0]
    h.assume(now >= s.ast)
    down, last = state(h, p, sec)
    frozen = sec
    t = sec % 60
    if p[0] == 'u' and h.sat(down):
        for k in range(0, 60, p[1] + p[2]):
            frozen = h.ite(h.all(k + p[1] < t, t <= k + p[1] + p[2]), sec - t + k + p[1], frozen)
        h.assume(frozen >= s.ast)
        h.reach('frozen')
        last = False
    base = join(s.parts, urls, case['front']) + [case['mode']]
    r = h.attempt(MP.get, h, C, '/'.join(['', 'dash'] + base + ['segtimelineloss_1', 'tp', 'Manifest.mpd']), now)
    h.check(r[0] == 'ok', 'manifest generated')
    m = MP.parse(h, r[1])
    m0 = MP.parse(h, MP.get(h, C, '/'.join(['', 'dash'] + base + ['tp', 'Manifest.mpd']), frozen))
    profs = m0.root.get('profiles')
    h.check(m.root.get('profiles') == profs.replace('dash-if-simple', 'dash-if-main'), 'main live profile')
    m.root.set('profiles', profs)
    for e in m.root.findall(MP.NS + 'BaseURL'):
        h.check('segtimelineloss_1/' in e.text, 'the base URL keeps the option')
    for st in m.periods[0].sets:
        ev = st.elem.findall(MP.NS + 'InbandEventStream')
        if h.sat(last):
            h.check(len(ev) == 1 and ev[0].get('schemeIdUri') == 'urn:mpeg:dash:event:2012' and ev[0].get('value') == '1' and
                    st.elem[0] is ev[0], 'validity events announced before the outage')
            st.elem.remove(ev[0])
            h.reach('announced')
    h.check(same(h, canon(m.root), canon(m0.root)), 'the manifest of the last second served')


def reach(tier):
    return ['down', 'last', 'up', 'server', 'several', 'single', 'location', 'frozen', 'announced']
