"""C21: a reply depends on the request, the content and the time, not on what the server process did before."""
import struct

import content as C
import manifest as MP
import session as S
import web

BOUNDS = {
    'quick': 'two or three requests to one server process, the last ones repeated in a new process; request times k/4 s below 2^31 s in '
             'any order, segment numbers < 2^31, start, start number, time offset below 2^31; two contents; manifests, media, '
             'init, multiplexed (with splice announcements: first 12 days), thumbnail and chunked requests, refused and unusable requests; one request answered while the chunks '
             'of another are being delivered',
    'thorough': 'as quick with more pairs of requests',
}
OUTSIDE = 'session identifiers, which are random by intent; pre-emption within one processing step of a request; content that changes on disk'

# kind, content, options
REQ = {
    'seg': ('m4s', 'tp', ['start', 'snr']),
    'seg0': ('m4s', 'tp', []),
    'segq': ('m4s', 'tq', ['snr']),
    'segoff': ('m4s', 'tp', ['start', 'timeoffset']),
    'segdur': ('m4s', 'tp', ['start', 'dur']),
    'segmod': ('m4s', 'tq', [['modulo', 10]]),
    'segcont': ('m4s', 'tp', ['cont']),
    'seg32': ('m4s', 'tp', ['tfdt32']),
    'segout': ('m4s', 'tp', [['baseurl_d10_u10']]),
    'segscte': ('m4s', 'tp', [['scte35_3']]),
    'sidx': ('m4s', 'tp', [['sidx_1']]),
    'sts': ('m4s', 'tp', [['segtimeline_1'], ['snr_3']]),
    'aud': ('aud', 'tp', ['snr']),
    'sub': ('sub', 'tp', ['start']),
    'mux': ('mux', 'tp', ['start']),
    'muxq': ('mux', 'tq', []),
    'init': ('mp4', 'tp', ['start']),
    'initdur': ('mp4', 'tp', ['start', 'dur']),
    'initq': ('mp4', 'tq', []),
    'initmux': ('mp4mux', 'tp', []),
    'jpg': ('jpg', 'tp', ['start']),
    'chunk': ('m4s', 'tp', [['chunkdur_1'], ['ato_1']]),
    'chunkq': ('m4s', 'tq', [['chunkdur_1'], ['ato_1'], 'start']),
    'mpd': ('mpd', 'tp', ['start']),
    'mpd0': ('mpd', 'tp', []),
    'mpdq': ('mpd', 'tq', ['snr']),
    'mpdper': ('mpd', 'tp', [['periods_60'], ['tsbd_10']]),
    'mpdcont': ('mpd', 'tp', [['periods_60'], ['continuous_1'], ['tsbd_10']]),
    'mpdetp': ('mpd', 'tp', [['periods_60'], ['etp_60'], ['etpDuration_20'], ['tsbd_10']]),
    'mpdxl': ('mpd', 'tp', [['periods_60'], ['xlink_60'], ['tsbd_10'], ['insertad_1']]),
    'mpdutc': ('mpd', 'tp', [['utc_direct-head']]),
    'mpdscte': ('mpd', 'tp', [['scte35_1']]),
    'mpdchunk': ('mpd', 'tp', [['chunkdur_1'], ['ato_1']]),
    'mpdspd': ('mpd', 'tp', [['spd_7'], ['ato_1']]),
    'mpdbase': ('mpd', 'tp', [['baseurl_u10_d10'], ['baseurl_d10_u10']]),
    'mpdrel': ('mpd', 'tp', ['startrel']),
    'mpdlist': ('mpd', 'tp', [['segtimeline_1'], ['tsbd_4']]),
    'mpdmux': ('mpd', 'tq', [['tsbd_30'], ['ato_inf']]),
    'none': ('none', 'tp', []),
    'badopt': ('m4s', 'tp', [['start_x']]),
    'badval': ('mpd', 'tp', [['periods_7'], ['tsbd_10']]),
}
PAIRS = ['seg segq', 'segq seg', 'seg0 segoff', 'segoff seg0', 'segdur seg', 'segmod segq', 'segcont seg0', 'seg32 seg0', 'segout seg0',
         'segscte seg0', 'sidx seg0', 'seg0 sidx', 'sts seg0', 'seg0 sub', 'sub seg', 'aud seg', 'seg aud', 'mux muxq', 'muxq mux', 'mux seg', 'seg mux',
         'init initq', 'initdur init', 'initq init', 'initmux init', 'init initmux', 'jpg seg', 'chunk seg', 'seg chunk', 'chunk chunkq',
         'chunkq chunk', 'mpd mpdq', 'mpdq mpd', 'mpdper mpd0', 'mpdcont mpd0', 'mpdcont mpdper', 'mpdetp mpdper', 'mpdxl mpdper', 'mpdutc mpd0', 'mpdscte mpd0',
         'mpdchunk mpd0', 'mpdspd mpd0', 'mpdspd mpdchunk', 'mpdbase mpd0', 'mpdbase seg0', 'mpdrel mpd', 'mpdlist mpd0', 'mpdlist mpdlist', 'mpd mpd',
         'mpdmux mpdq', 'none seg', 'badopt seg', 'badval mpdper', 'badval mpd0', 'mpd seg', 'seg mpd', 'seg seg', 'mux mux', 'init init', 'chunk mpd0', 'segdur initdur']
MORE = ['segdur segdur', 'segmod segmod', 'mpdper mpdper', 'mpdper mpdetp', 'mpdper mpdxl', 'mpdxl mpd0', 'mpdscte mpdper', 'mpdchunk mpdlist', 'mpdlist mpdchunk',
        'mpdbase mpdbase', 'sub sub', 'segout segout', 'segcont segcont', 'chunk chunk', 'mpdrel mpdrel', 'mpdutc mpdutc', 'badval seg',
        'none mpd', 'badopt mpd', 'jpg jpg', 'mpdspd mpdq', 'aud mux', 'mux aud', 'sidx chunk', 'chunk sidx', 'sts mpdlist', 'mpdmux mpd0']
TRIPLES = ['mpd mpdper mpd0', 'seg mux aud', 'initdur mpdlist init', 'chunk none seg0', 'mpdbase mpdscte mpd0']


def cases(tier):
    out = []
    for p in PAIRS + ([] if tier == 'quick' else MORE) + TRIPLES:
        out.append({'name': p.replace(' ', '+'), 'reqs': p.split(), 'weight': 2 if 'mpd' in p else 1})
    for a, b in (('chunk', 'seg0'), ('chunk', 'chunkq'), ('chunk', 'mpdchunk'), ('chunkq', 'segq'), ('chunk', 'none'), ('chunk', 'mux')):
        for k in (1,) if tier == 'quick' else (1, 2):
            out.append({'name': '%s-during-%s-%d' % (b, a, k), 'reqs': [a, b], 'inside': k})
    return out


class Named:
    "h with the input names of one request"

    def __init__(self, h, prefix):
        self._h, self._p = h, prefix

    def __getattr__(self, k):
        return getattr(self._h, k)

    def int(self, name, lo, hi):
        return self._h.int(self._p + name, lo, hi)

    def real(self, name, lo, hi, den):
        return self._h.real(self._p + name, lo, hi, den)


CONT = {'tp': (2, 4, 1), 'tq': (6, 3, 5)}
TTML = b'<tt><p begin="00:00:01.000" end="00:00:02.000">Segment # 17</p></tt>'


def setup(h):
    for name, (dur, loop, first) in CONT.items():
        scale = {'A1': 48000, 'V1': 90000 if name == 'tp' else 1000, 'thumbs': 1, 'S1': 1000}
        media = {'audio': {'reps': ['A1'], 'timescale': 48000}, 'video': {'reps': ['V1'], 'timescale': scale['V1']},
                 'image': {'reps': ['thumbs'], 'timescale': 1}}
        if name == 'tp':
            media['subtitles'] = {'reps': ['S1'], 'timescale': 1000}
        for k, m in media.items():
            m['total'] = dur * loop * m['timescale']
            m['dat'] = '%s_%s.dat' % (name, k)
            h.file('%s/%s' % (C.CFG, m['dat']), struct.pack('HHII', first, loop - 1, 0, dur * m['timescale']))

        def segment(rep, n, ext, name=name, dur=dur, scale=scale, first=first):
            mark = rep.encode() + name.encode()
            if ext == '.jpg':
                return b'jpg' + mark + C.u32(h, n)
            t = scale[rep]
            if rep == 'S1':
                return C.media_segment(h, tfdt=(n - first) * dur * t, trun={}, tf_flags=0x020018, tfhd_fields=(dur * t, len(TTML)), samples=[{'data': TTML}])
            return C.media_segment(h, tfdt=(n - first) * dur * t, trun={'dur': 1, 'size': 1, 'data_offset': 1},
                                   samples=[{'dur': dur * t // 2, 'size': 4, 'flags': 0, 'cto': 0, 'data': C.u32(h, n)},
                                            {'dur': dur * t // 2, 'size': 4, 'flags': 0, 'cto': 0, 'data': mark[-4:]}])
        C.setup(h, name, dur, loop, first=first, media=media, segment=segment, version='1.1',
                init=lambda rep, scale=scale: C.init_segment(h, timescale=scale[rep], handler={'V': b'vide', 'A': b'soun'}.get(rep[0], b'subt')),
                mpd={'Manifest.mpd': MP.content(dur)})


def make(h, case, i):
    kind, name, opts = REQ[case['reqs'][i]]
    g = Named(h, 'r%d_' % i)
    now = g.real('now', 0, 1 << (20 if opts == [['scte35_3']] else 31), 4)
    s = S.make(g, opts, CONT[name][0], now)
    n = g.int('n', 0, 1 << 31) if kind not in ('mpd', 'mp4', 'mp4mux') else 0
    leaf = {'m4s': 'V1/%s.m4s', 'aud': 'A1/%s.m4s', 'sub': 'S1/%s.m4s', 'mux': 'A1__V1/%s.m4s', 'jpg': 'thumbs/%s.jpg', 'mp4': 'V1/init.mp4', 'mp4mux': 'A1__V1/init.mp4',
            'mpd': 'Manifest.mpd', 'none': 'V7/%s.m4s'}[kind].replace('%s', h.dec(n))
    return '/'.join(['', 'dash'] + s.parts + [name, leaf]), now, i


def start(h, req, mod):
    url, now, i = req
    w = web.Web(h, now, mod)
    it = w.request(url, host=('sim.org', 'other.net', 'sim.org')[i], https=bool(i == 1))
    return [w, it, []]


def advance(h, st, parts=None):
    "deliver up to that many parts of the reply"
    w, it, got = st
    h.set_clock(w.clock)
    while parts is None or parts > 0:
        try:
            got.append(next(it))
        except StopIteration:
            break
        if parts is not None:
            parts -= 1
    return st


def run(h, case):
    setup(h)
    web_mod = 'dashlivesim.mod_wsgi.mod_dashlivesim'
    mod = h.load(web_mod)
    reqs = [make(h, case, i) for i in range(len(case['reqs']))]
    if case.get('inside'):
        a = start(h, reqs[0], mod)
        advance(h, a, case['inside'])
        b = advance(h, start(h, reqs[1], mod))
        advance(h, a)
        sts = [a, b]
        again = [0, 1]
    else:
        sts = [advance(h, start(h, r, mod)) for r in reqs]
        again = range(1, len(reqs))
    for i in again:
        h.fresh()
        f = advance(h, start(h, reqs[i], h.load(web_mod)))
        w, it, got = sts[i]
        h.check(h.eq(w.status, f[0].status), 'same status')
        h.check(w.calls == f[0].calls, 'headers sent as often')
        h.check(len(w.header_list) == len(f[0].header_list), 'same number of headers')
        for (k, v), (k2, v2) in zip(w.header_list, f[0].header_list):
            h.check(k == k2 and h.eq(v, v2), 'same header ' + k)
        h.check(len(got) == len(f[2]), 'same number of parts')
        for x, y in zip(got, f[2]):
            h.check(h.beq(x, y), 'same body')
        h.note('status', int(w.status[:3]))
        h.reach(case['reqs'][i] + w.status[:3])
        if case.get('inside'):
            h.reach('during')


def reach(tier):
    return [r + '200' for p in PAIRS for r in p.split()[1:] if r not in ('segout',)] + ['during', 'seg404']
