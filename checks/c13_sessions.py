"""C13: with a session limit, manifests redirect into a dated session and dated sessions end on time."""
import content as C
import manifest as M
import session as S
import web

BOUNDS = {
    'quick': 'every request time k/1024 s below 2^31 s, session limit 1..10^7 s, session start below 2^31 s; manifest, init, media segment '
             'and thumbnail requests; without, with numeric and with unusable session start; plain and optioned URLs, '
             'query strings, http and https',
    'thorough': 'as quick with more option sets',
}
OUTSIDE = 'several session starts in one URL, negative session starts; uniqueness of session ids (random)'

SETS = [[], ['start', 'dur'], ['snr', 'tsbd'], ['startrel', 'stoprel']]
DEEP = [['start', 'stop', 'timeoffset'], ['tfdt32'], [['modulo', 10]], ['atoinf'], ['start', 'snr', 'dur', 'dur2']]


def cases(tier):
    out = []
    i = 0
    for st in SETS + ([] if tier == 'quick' else DEEP):
        nm = '+'.join(x if isinstance(x, str) else ''.join(map(str, x)) for x in st) or 'plain'
        for what in ('mpd', 'm4s', 'mp4', 'jpg', 'period'):
            for sts in ('none', 'num', 'text'):
                if what == 'period' and sts == 'num':
                    continue
                i += 1
                out.append({'name': '%s-%s-%s' % (what, nm, sts), 'what': what, 'opts': st, 'sts': sts, 'https': i % 2,
                            'query': (None, 'a=b&c=d')[i % 3 == 0]})
    return out


def run(h, case):
    dur = 2
    what = case['what']
    seg = C.media_segment(h, samples=[{'dur': 90000, 'size': 1, 'flags': 0, 'cto': 0, 'data': b'x'}])
    media = {'video': {'reps': ['V1'], 'timescale': 90000}, 'image': {'reps': ['thumbs'], 'timescale': 1}}
    C.setup(h, 'tp', dur, 600, media=media, segment=lambda rep, n, ext: seg, init=lambda rep: C.init_segment(h),
            mpd={'Manifest.mpd': M.content(dur, sets=('video',))})
    now = h.real('now', 0, 1 << 31, 1024)
    s = S.make(h, case['opts'], dur, now)
    n = h.int('n', 0, 1 << 31)
    limit = h.int('limit', 1, 10000000)
    tail = ['tp'] + {'mpd': ['Manifest.mpd'], 'period': ['Manifest.mpd+p0.period'], 'm4s': ['V1', h.dec(n) + '.m4s'],
                     'mp4': ['V1', 'init.mp4'], 'jpg': ['thumbs', h.dec(n) + '.jpg']}[what]
    pre = []
    if case['sts'] == 'num':
        sts = h.int('sts', 0, 1 << 31)
        pre = ['sts_' + h.dec(sts), 'sid_0123abcd']
    elif case['sts'] == 'text':
        pre = ['sts_abc', 'sid_0123abcd']
    parts = s.parts + tail
    url = '/'.join(['', 'dash'] + pre + parts)
    kw = {'https': bool(case['https']), 'query': case['query']}
    w = web.Web(h, now)
    w.mod.MAX_SESSION_LENGTH = limit
    status, body = w.get(url, **kw)
    h.note('status', status)
    h.check(w.calls == 1, 'one reply')
    h.check(h.num(w.headers['Content-Length']) == h.len(body), 'announced length')
    if case['sts'] != 'num':
        if what != 'mpd':
            h.check(status == 404, 'media requires a session')
            h.reach('no session')
            return
        h.check(w.status == '302 Found', 'redirect')
        loc = w.headers['Location']
        base, _, q = loc.partition('?')
        h.check(q == (case['query'] or ''), 'query kept')
        lp = base.split('/')
        h.check('/'.join(lp[:3]) == ('https' if case['https'] else 'http') + '://sim.org', 'same scheme and host')
        h.check(lp[3] == 'dash', 'same path prefix')
        h.check(lp[4].startswith('sts_') and lp[5].startswith('sid_') and len(lp[5]) > 4, 'session start and id')
        h.check(h.num(lp[4][4:]) == s.now_int, 'session starts now')
        h.check(h.eq('/'.join(lp[6:]), '/'.join(pre + parts)), 'the rest of the path is kept')
        h.reach('redirect')
        # the client follows it, a moment later
        later = h.real('wait', 0, 1000000, 1024)
        w.clock.now = now + later
        h.assume(w.clock.now <= s.now_int + limit)
        if 'startrel' in case['opts'] or 'dur' in case['opts']:
            h.assume(later < 1)
        status2, body2 = w.get('/' + '/'.join(lp[3:]), **kw)
        h.check(status2 == 200, 'the redirect leads to the manifest')
        m = M.parse(h, body2.decode('utf-8'))
        b = m.location[0] if m.location else m.base[0].text
        bp = b.split('/')
        h.check(bp[0] == lp[0] and bp[2:4] == lp[2:4] and h.sat(h.eq(bp[4], lp[4])) and bp[5] == lp[5], 'media is requested in the session')
        if m.location:
            return
        media_url = '/' + '/'.join(bp[3:]) + 'V1/init.mp4'
        status3, body3 = w.get(media_url, **kw)
        w.mod.MAX_SESSION_LENGTH = 0
        status4, body4 = w.get('/' + '/'.join(['dash'] + s.parts + ['tp', 'V1', 'init.mp4']), **kw)
        h.check(status3 == status4 and h.sat(h.beq(body3, body4)), 'media of the session')
        return
    if h.sat(now > sts + limit):
        h.check(w.status == '410 Gone', 'session over')
        h.reach('over')
        return
    if h.sat(now < sts - 5):
        h.check(status == 404, 'session in the future')
        h.reach('future')
        return
    w.mod.MAX_SESSION_LENGTH = 0
    status0, body0 = w.get(url, **kw)
    h.check(status == status0, 'same status as without limit')
    h.check(h.beq(body, body0), 'same content as without limit')
    if status == 200:
        h.reach('served ' + what)


def reach(tier):
    return ['redirect', 'no session', 'over', 'future'] + ['served ' + x for x in ('mpd', 'm4s', 'mp4', 'jpg')]
