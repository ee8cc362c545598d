"""C12: every request gets one well-formed HTTP reply with the status its outcome calls for."""
import content as C
import manifest as M
import session as S
import web

BOUNDS = {
    'quick': 'times k/1024 s below 2^31 s, every segment number, start, stop, duration, start number, offsets; requests for manifests, '
             'init and media segments, multiplexed segments, thumbnails, other files; 17 kinds of URLs that name nothing and '
             '27 unusable option values; with and without query string, http and https',
    'thorough': 'as quick with more option sets and segment durations',
}
OUTSIDE = 'requests without a Host header; status of requests with option values the documentation leaves open'
ASSUMPTIONS = ['an option value that cannot be used is answered with a refusal (404), as the error text says']

SETS = [[], ['start', 'tsbd'], ['start', 'dur', 'snr'], ['start', 'stop'], ['ato'], ['timeoffset'], ['tfdt32'], ['cont'],
        [['modulo', 10]], [['ato_-3.5'], ['chunkdur_-1']], ['init', 'start'], ['startrel', 'stoprel']]
DEEP = [['start', 'timeoffset', 'snr'], ['start', 'dur', 'dur2'], ['snrdef', 'tsbd'], ['atoinf', 'start'], ['startrel', 'ato']]
TYPES = {'mpd': 'application/dash+xml', 'm4s': 'video/iso.segment', 'mux': 'video/iso.segment', 'mp4': 'video/mp4',
         'jpg': None}
# URLs that name nothing; %s is a number
NOTHING = ['/', '/dash', '/dash/', '/dash/tp', '/dash/tp/', '/dash/tp/V1/', '/dash/tp/Other.mpd', '/dash/other/Manifest.mpd',
           '/dash/other/V1/%s.m4s', '/dash/tp/V9/%s.m4s', '/dash/tp/V9/init.mp4', '/dash/tp/V1/%s', '/dash/tp/V1/%s.txt',
           '/dash/tp/V1/abc.m4s', '/dash/tp/V1/.m4s', '/dash/tp/V1/x%s.m4s', '/dash/tp/V1/start.mp4', '/dash/tp/V1__V9/%s.m4s',
           '/dash/t\xe5p/Manifest.mpd', '/dash/tp/V1/\xe5%s.m4s', '/dash/tp/\u20ac/init.mp4', '/dash/tp/V1/-1%s.m4s']
# option values that cannot be used
BAD = ['start_', 'start_x', 'start_1.5', 'stop_x', 'dur_x', 'tsbd_x', 'mup_x', 'init_x', 'timeoffset_x', 'snr_x', 'snr_-2', 'snr_-1.5',
       'modulo_x', 'modulo_0', 'periods_x', 'periods_7', 'periods_-2', 'startrel_x', 'stoprel_x', 'scte35_x', 'spd_x', 'sidx_x',
       'utc_foo', 'start_0/modulo_10', 'tfdt_32/cont_1', 'xlink_2', 'periods_10/xlink_3', 'peroff_x', 'continuous_x',
       'segtimeline_x', 'periods_10/insertad_1', 'start', 'periods_2/etp_3', 'periods_2/mpdcallback_3',
       'periods_60/etp_60/etpDuration_100', 'start_\u20ac', 'k\xe5l_1']
MPD_ONLY = ('periods_7', 'periods_-2', 'utc_foo', 'xlink_2', 'periods_10/xlink_3', 'periods_10/insertad_1',
            'periods_2/etp_3', 'periods_2/mpdcallback_3', 'periods_60/etp_60/etpDuration_100')


def cases(tier):
    out = []
    quick = tier == 'quick'
    i = 0
    for st in SETS + ([] if quick else DEEP):
        nm = '+'.join(x if isinstance(x, str) else ''.join(map(str, x)) for x in st) or 'plain'
        for what in ('mpd', 'm4s', 'mp4', 'jpg', 'mux'):
            for dur in ((2,) if quick else (2, 6)):
                i += 1
                out.append({'name': '%s-%s-%d' % (what, nm, dur), 'kind': 'good', 'what': what, 'opts': st, 'dur': dur,
                            'https': i % 2, 'query': ('', 'a=b')[i % 3 == 0]})
    for k, u in enumerate(NOTHING):
        out.append({'name': 'nothing-%s' % u, 'kind': 'nothing', 'url': u, 'https': k % 2, 'query': ''})
    for k, o in enumerate(BAD):
        for what in ('mpd',) if o in MPD_ONLY else ('mpd', 'm4s', 'mp4'):
            out.append({'name': 'bad-%s-%s' % (o, what), 'kind': 'bad', 'opt': o, 'what': what, 'https': 0, 'query': ''})
    return out


DEFAULTS = {'Access-Control-Allow-Origin': '*', 'Cache-Control': 'no-cache', 'Pragma': 'no-cache', 'Expires': '-1',
            'Accept-Ranges': 'bytes', 'Access-Control-Allow-Methods': 'GET,HEAD,OPTIONS',
            'Access-Control-Allow-Headers': 'origin,range,accept-encoding,referer',
            'Access-Control-Expose-Headers': 'Server,range,Content-Length,Content-Range,Date'}


def run(h, case):
    dur = case.get('dur', 2)
    seg = C.media_segment(h, samples=[{'dur': 90000, 'size': 1, 'flags': 0, 'cto': 0, 'data': b'x'}])
    media = {'audio': {'reps': ['A1'], 'timescale': 48000}, 'video': {'reps': ['V1'], 'timescale': 90000},
             'image': {'reps': ['thumbs'], 'timescale': 1}}
    C.setup(h, 'tp', dur, 600, media=media, segment=lambda rep, n, ext: seg, init=lambda rep: C.init_segment(h),
            mpd={'Manifest.mpd': M.content(dur)})
    now = h.real('now', 0, 1 << 31, 1024)
    n = h.int('n', 0, 1 << 31)
    want = None
    kind = case['kind']
    if kind == 'good':
        s = S.make(h, case['opts'], dur, now)
        what = case['what']
        rep, name = {'mpd': (None, 'Manifest.mpd'), 'm4s': ('V1', h.dec(n) + '.m4s'), 'mux': ('A1__V1', h.dec(n) + '.m4s'),
                     'mp4': ('V1', 'init.mp4'), 'jpg': ('thumbs', h.dec(n) + '.jpg')}[what]
        url = '/'.join(['', 'dash'] + s.parts + ['tp'] + ([rep] if rep else []) + [name])
        if what == 'mpd':
            want = True
        elif what == 'mp4':
            want = s.now_int >= s.ast - s.init
        else:
            want = S.window(h, s, n, dur, now)
    elif kind == 'nothing':
        url = case['url'].replace('%s', h.dec(n))
        want = False
    else:
        want = False
        url = '/dash/%s/tp/' % case['opt'] + {'mpd': 'Manifest.mpd', 'm4s': 'V1/' + h.dec(n) + '.m4s', 'mp4': 'V1/init.mp4'}[case['what']]
    w = web.Web(h, now)
    r = h.attempt(w.get, url, https=bool(case['https']), query=case['query'] or None)
    h.check(r[0] == 'ok', 'no exception reaches the web server')
    status, body = r[1]
    h.note('status', status)
    h.check(w.calls == 1, 'headers sent exactly once')
    h.check(len(set(k.lower() for k, _ in w.header_list)) == len(w.header_list), 'no header twice')
    h.check(all(isinstance(k, str) and isinstance(v, str) for k, v in w.header_list), 'header text')
    for k, v in DEFAULTS.items():
        h.check(w.headers.get(k) == v, 'header %s' % k)
    h.check(h.iff(want, status == 200), 'served exactly when there is something to serve')
    h.check(status in (200, 404), 'status')
    h.check(w.status == ('200 OK' if status == 200 else '404 Not Found'), 'status line')
    h.check(h.num(w.headers['Content-Length']) == h.len(body), 'announced length')
    h.check(h.len(body) > 0, 'a body')
    ct = w.headers['Content-Type']
    if status == 200:
        t = TYPES[case['what']]
        h.check(ct == t if t else '/' in ct, 'content type')
        h.reach('200 ' + case['what'])
    else:
        h.check(ct == 'text/plain', 'refusals are text')
        h.reach('404 ' + kind)


def reach(tier):
    return ['200 ' + x for x in TYPES] + ['404 ' + k for k in ('good', 'nothing', 'bad')]
