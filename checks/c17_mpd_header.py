"""C17: the head of a generated manifest describes the session."""
from xml.etree import ElementTree as ET
import content as C
import manifest as MP
import session as S
from sx import harness

BOUNDS = {
    'quick': 'time < 2^31 s (steps 1/1024 s), start/stop times < 2^31, start number, buffer depth, presentation delay up '
             'to 10^6, update period up to 10^5 s, durations up to 2^24 s; segment durations 2 and 6 s; the listed '
             'option combinations, clock synchronisation lists and content manifests',
    'thorough': 'as quick with segment durations 1,2,3,6,10 s, more combinations, all modulo values',
}
OUTSIDE = 'several periods (C15), SegmentTimeline (C06); which outside time servers are named in UTCTiming'

UTC = {'direct': 'urn:mpeg:dash:utc:direct:2014', 'head': 'urn:mpeg:dash:utc:http-head:2014',
       'ntp': 'urn:mpeg:dash:utc:ntp:2014', 'sntp': 'urn:mpeg:dash:utc:sntp:2014',
       'httpxsdate': 'urn:mpeg:dash:utc:http-xsdate:2014', 'httpiso': 'urn:mpeg:dash:utc:http-iso:2014'}

SETS = [[], ['tsbd'], ['mup'], ['spd'], ['start'], ['start', 'mup', ['tsbd_70']], ['start', 'tsbd', ['mup_3']], ['start', 'stop'], ['startrel', 'stoprel'],
        ['start', 'stop', ['mup_30'], ['spd_40']], ['startrel'], ['start', 'dur'], ['start', ['dur_1800'], ['dur_300'], 'mup'], ['start', 'dur', 'dur2', ['spd_3700']],
        ['tfdt32', 'tsbd'], ['cont', 'spd'], ['ato', 'spd', 'snr'], ['atoinf'], ['startrel', 'stoprel', 'timeoffset'],
        ['start', 'timeoffset', 'tsbd'], ['snrdef', 'mup'], ['stop'], ['dur'], [['ato_-3.5'], ['chunkdur_-1']], [['ato_x'], ['chunkdur_x']], ['ato', 'tsbd']]
DEEP = [['start', 'stop', 'ato'], ['start', 'stop', 'spd'], ['startrel', 'dur'], ['startrel', 'mup', 'spd'],
        ['tfdt32', 'ato'], ['cont', 'mup', 'tsbd'], ['start', 'stop', 'timeoffset', 'snr']]


def cases(tier):
    out = []
    durs = (2, 6) if tier == 'quick' else (1, 2, 3, 6, 10)
    mods = (10, 60) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60)
    utcs = [[], ['direct'], ['head', 'direct'], ['ntp', 'sntp', 'httpxsdate', 'httpiso']]
    bases = ['', '   <BaseURL>http://old.org/x/</BaseURL>\n']
    i = 0
    for st in SETS + (DEEP if tier != 'quick' else []) + [[['modulo', m]] for m in mods] + [['snr', 'tsbd', ['modulo', 10]]]:
        for d in durs:
            nm = '+'.join(x if isinstance(x, str) else ''.join(map(str, x)) for x in st) or 'plain'
            out.append({'name': '%s-%d' % (nm, d), 'opts': st, 'dur': d, 'utc': utcs[i % 4], 'base': bases[i % 5 == 2],
                        'https': i % 2, 'mpds': i % 3 == 1})
            i += 1
    return out


def run(h, case):
    dur = case['dur']
    media = {'video': {'reps': ['V1', 'V2'], 'timescale': 90000}, 'audio': {'reps': ['A1'], 'timescale': 48000}}
    text = MP.content(dur, base=case['base'])
    if case['mpds']:
        text = text.replace(' maxSegmentDuration="PT6S"', '').replace(' mediaPresentationDuration="PT1H5M"', '')
    tsbd = 300 if len(case['opts']) % 2 else 77
    C.setup(h, 'tp', dur, 600, tsbd=tsbd, media=media, mpd={'Manifest.mpd': text})
    now = h.real('now', 0, 1 << 31, 1024)
    clock = harness.Clock([now], advance=True)
    h.set_clock(clock)
    opts = [o for o in case['opts'] if o != 'spd']
    s = S.make(h, opts, dur, now, tsbd0=tsbd)
    parts = list(s.parts)
    spd = None
    if ['spd_40'] in opts:
        spd = 40
    elif ['spd_3700'] in opts:
        spd = 3700
    if 'spd' in case['opts']:
        spd = h.int('spd', 0, 1000000)
        parts.append('spd_' + h.dec(spd))
    if case['utc']:
        parts.insert(0, 'utc_' + '-'.join(case['utc']))
    url = '/'.join(['', 'dash'] + parts + ['tp', 'Manifest.mpd'])
    mp = h.load('dashlivesim.dashlib.mpd_proxy')
    r = h.attempt(mp.get_mpd, C.provider(h, url, now, https=case['https']))
    h.check(r[0] == 'ok', 'manifest generated')
    m = MP.parse(h, r[1])
    a = m.root.attrib
    scheme = 'https' if case['https'] else 'http'

    has_start = any(o in ('start', 'startrel') for o in opts)
    stop = s.stop if has_start else None
    static = stop is not None and h.sat(s.now_int > stop)
    h.check(m.type == ('static' if static else 'dynamic'), 'static after the stop time and only then')
    h.check(m.ast == s.ast, 'availability start')
    h.check(m.publish == s.now_int, 'publish time is the request time')
    h.check(m.maxseg == dur, 'maximum segment duration')
    h.check(a['minBufferTime'] == 'PT2S', 'minimum buffer time kept')
    h.check(a['profiles'] == 'urn:mpeg:dash:profile:isoff-live:2011,urn:com:dashif:dash264', 'profiles kept')
    # end of the session
    if s.aet is not None:
        h.check(m.aet is not None and m.aet == s.aet, 'availability end')
        h.reach('end')
    else:
        h.check(m.aet is None, 'no availability end')
    mpdur = s.mpdur
    if stop is not None:
        mpdur = stop - s.ast
    if mpdur is not None:
        h.check(m.mpdur is not None and m.mpdur == mpdur, 'presentation duration')
    else:
        h.check(m.mpdur is None, 'no presentation duration')
    # update period
    if static:
        h.reach('static')
        h.check(m.mup is None, 'nothing to update')
    else:
        mup = s.mup
        if 'tfdt32' in opts:
            mup = 5400
        elif 'cont' in opts:
            mup = 10800
        elif mup is None:
            mup = 10 if has_start else 100 * 365 * 86400
        h.check(m.mup is not None and m.mup == mup, 'update period')
    # buffer depth
    if stop is not None:
        h.check(m.tsbd is None, 'everything stays available')
        h.reach('stop')
    else:
        h.check(m.tsbd is not None and m.tsbd == s.tsbd, 'buffer depth')
    if spd is not None:
        h.check(m.spd is not None and m.spd == spd, 'presentation delay')
        h.reach('delay')
    else:
        h.check(m.spd is None, 'no presentation delay')
    # availability of segments ahead of time
    h.check(m.ato_inf == s.inf, 'endless availability offset')
    if not s.inf:
        h.check((0 if m.ato is None else m.ato) == s.ato, 'availability offset')
    # where to go
    if 'startrel' in opts or 'stoprel' in opts:
        h.check(len(m.location) == 1 and not m.base, 'Location and no BaseURL')
        lp = m.location[0].split('/')
        h.check('/'.join(lp[:4]) == scheme + '://sim.org/dash', 'Location on this server')
        h.check(lp[-2:] == ['tp', 'Manifest.mpd'], 'Location of the manifest')
        want = []
        for p in parts:
            k, v = p.split('_', 1)
            if k == 'startrel':
                want.append(('start', s.ast))
            elif k == 'stoprel':
                want.append(('stop', stop))
            else:
                want.append((p, None))
        h.check(len(lp) == 4 + len(want) + 2, 'Location options')
        for got, (k, v) in zip(lp[4:], want):
            if v is None:
                h.check(h.eq(got, k), 'option kept in Location')
            else:
                gk, gv = got.split('_', 1)
                h.check(gk == k and h.num(gv) == v, 'absolute time in Location')
        h.reach('location')
    else:
        h.check(not m.location and len(m.base) == 1, 'BaseURL and no Location')
        h.check(h.eq(m.base[0].text, '/'.join([scheme + '://sim.org/dash'] + parts + ['tp', ''])), 'BaseURL in the session')
    # clock synchronisation
    tm = m.root.findall(MP.NS + 'UTCTiming')
    h.check([t.get('schemeIdUri') for t in tm] == [UTC[u] for u in case['utc']], 'UTCTiming in the requested order')
    for t, u in zip(tm, case['utc']):
        if u == 'direct':
            h.check(h.ts(t.get('value')) == s.now_int, 'direct time')
            h.reach('direct')
        elif u == 'head':
            h.check(t.get('value') == scheme + '://sim.org/dash/time.txt' or t.get('value').startswith(scheme + '://sim.org/'),
                    'time resource on this server')
        elif u in ('ntp', 'sntp'):
            v = t.get('value') or ''
            h.check('.' in v and '/' not in v and ':' not in v, 'name of a time server')
        else:
            h.check((t.get('value') or '').startswith('http'), 'address of a time resource')
    # order of the children
    order = ['ProgramInformation', 'BaseURL', 'Location', 'Period', 'UTCTiming']
    tags = [c.tag.replace(MP.NS, '') for c in m.root]
    pos = [order.index(t) for t in tags]
    h.check(pos == sorted(pos), 'children in schema order')


def reach(tier):
    return ['static', 'stop', 'delay', 'location', 'direct', 'end']
