"""C28: what a low-latency manifest says about latency, clock and encoder times agrees with the media it describes."""
import content as C
import manifest as MP
import session as S

BOUNDS = {
    'quick': 'request time k/4 s below 2^31 s; start time, number, offset and buffer depth symbolic; availability offset k/4 s up to one hour; '
             'chunk durations 0.25 to 1 s; 60 periods per hour; timelines; segment durations 2 and 4 s; two content types',
    'thorough': 'as quick, every session with both segment durations',
}
OUTSIDE = 'start/stop sessions longer than 100 s in combination with periods or timelines; chunk durations that do not exist in the media (C09, C10 take those); the fixed latency targets beyond their order'
NS = MP.NS
SETS = [[], ['start'], ['start', 'timeoffset'], ['startrel'], ['snr'], ['ato'], ['start', 'ato', 'snr'], ['atoinf'], ['start', 'stop'], ['start', 'dur'],
        ['cont'], ['start', 'timeoffset', 'snr', 'ato']]
EXTRA = [[], ['periods_60', 'tsbd_20'], ['segtimeline_1', 'tsbd_4'], ['utc_head-ntp'], ['periods_60', 'tsbd_20', 'peroff_1'], ['scte35_1'],
         ['baseurl_u10_d10', 'baseurl_d10_u10'], ['segtimelinenr_1', 'tsbd_4']]


def cases(tier):
    out = []
    for i, st in enumerate(SETS):
        for j, ex in enumerate(EXTRA):
            if j and (i + j) % 3:
                continue
            if ex and ex[0].startswith('periods') and ('cont' in st or len(st) > 2) or ex and 'dur' in st:
                continue
            for dur in (2, 4) if tier != 'quick' else ((2, 4)[(i + j) % 2],):
                for chunk in (['0.25', '0.5', '1'][(i + 2 * j) % 3],):
                    nm = '+'.join(st + ex) or 'plain'
                    out.append({'name': '%s-d%d-c%s' % (nm, dur, chunk), 'opts': st, 'extra': ex, 'dur': dur, 'chunk': chunk})
    for st in ([], ['start'], ['ato']):
        out.append({'name': 'off-' + ('+'.join(st) or 'plain'), 'opts': st, 'extra': [], 'dur': 2, 'chunk': None})
    return out


def run(h, case):
    dur = case['dur']
    media = {k: {'reps': [r], 'timescale': ts, 'total': 8 * dur * ts, 'dat': 'a_%s.dat' % k}
             for k, r, ts in (('audio', 'A1', 48000), ('video', 'V1', 90000))}
    import struct
    for k, v in media.items():
        h.file(C.CFG + '/' + v['dat'], struct.pack('HHII', 1, 7, 0, dur * v['timescale']))
    C.setup(h, 'tp', dur, 8, media=media, version='1.1', mpd={'Manifest.mpd': MP.content(dur, sets=('video', 'audio'))})
    now = h.real('now', 0, 1 << 31, 4)
    s = S.make(h, case['opts'], dur, now)
    h.assume(now >= s.ast)
    if s.stop is not None and case['extra']:
        h.assume(s.stop <= s.ast + 100)
    parts = s.parts + case['extra']
    if case['chunk']:
        parts = parts + ['chunkdur_' + case['chunk']]
    url = '/'.join(['', 'dash'] + parts + ['tp', 'Manifest.mpd'])
    from sx import harness
    h.set_clock(harness.Clock([now], advance=True))
    r = h.attempt(MP.get, h, C, url, now)
    h.check(r[0] == 'ok', 'manifest generated')
    m = MP.parse(h, r[1])
    tags = [e.tag for e in m.root]
    sd = m.root.findall(NS + 'ServiceDescription')
    h.check(m.ato_inf == s.inf, 'endless availability offset')
    if case['chunk'] is None:
        h.check(not sd, 'no service description')
        for p in m.periods:
            for e in p.sets:
                h.check(e.elem.find(NS + 'ProducerReferenceTime') is None, 'no encoder times')
        h.reach('off')
        return
    h.check(len(sd) == 1 and tags.index(NS + 'ServiceDescription') < tags.index(NS + 'Period'), 'one service description before the periods')
    lat = sd[0].find(NS + 'Latency')
    rate = sd[0].find(NS + 'PlaybackRate')
    lo, t, hi = [int(lat.get(k)) for k in ('min', 'target', 'max')]
    h.check(0 < lo <= t <= hi, 'latency bounds in order')
    h.check(float(rate.get('min')) <= 1 <= float(rate.get('max')), 'playback rates around 1')
    utc = [e.get('schemeIdUri') for e in m.root.findall(NS + 'UTCTiming')]
    if any(x.startswith('utc_') for x in case['extra']):
        h.check(utc == ['urn:mpeg:dash:utc:http-head:2014', 'urn:mpeg:dash:utc:ntp:2014'], 'the clock sources asked for')
    else:
        h.check(utc == ['urn:mpeg:dash:utc:http-iso:2014'], 'a clock source')
    h.check('http://www.dashif.org/guidelines/low-latency-live-v5' in m.root.get('profiles').split(','), 'low-latency profile')
    h.check(len(m.periods) >= 1, 'a period')
    for p in m.periods:
        h.check([e.type for e in p.sets] == ['video', 'audio'], 'adaptation sets')
        for e in p.sets:
            prt = e.elem.findall(NS + 'ProducerReferenceTime')
            h.check(len(prt) == 1, 'encoder times of every adaptation set')
            prt = prt[0]
            h.check(prt.get('id') == lat.get('referenceId'), 'the latency refers to these encoder times')
            h.check(prt.get('type') == 'encoder', 'times of the encoder')
            clock = prt.findall(NS + 'UTCTiming')
            h.check(len(clock) == 1, 'clock of the encoder times')
            h.check(clock[0].get('schemeIdUri') == 'urn:mpeg:dash:utc:http-iso:2014' and clock[0].get('value', '').startswith('http'),
                    'a clock in ISO format over HTTP')
            wall = prt.get('wallClockTime')
            wall = h.ts(wall + 'Z' if wall == '1970-01-01T00:00:00' else wall)
            at = h.num(prt.get('presentationTime'))
            # the media at the period start is produced at the period start
            h.check((m.ast + p.start - wall) * e.timescale == e.pto - at, 'encoder time of the media at the start of the period')
            st = e.template
            h.check(st.get('availabilityTimeComplete') == 'false', 'segments are announced before they are complete')
            h.check(st.get('availabilityTimeOffset') is not None, 'availability offset of every template')
            v = h.fl(st.get('availabilityTimeOffset'))
            if not s.inf:
                h.check(v == s.ato, 'availability offset of the template')
            if h.sat(wall > 0):
                h.reach('late wall')
    h.reach('periods' if len(m.periods) > 1 else 'period')
    if e.timeline is not None:
        h.reach('timeline')
    if 'timeoffset' in case['opts']:
        h.reach('offset')


def reach(tier):
    return ['off', 'late wall', 'periods', 'period', 'timeline', 'offset']
