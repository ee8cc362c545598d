"""C14: SCTE-35 splice announcements come at the right time, exactly once per segment, on the media timeline."""
import math
import content as C
import manifest as MP
import session as S

BOUNDS = {
    'quick': 'media time in four windows of 100000 s (0; around the first wrap of the 33-bit clock; 1.7e9; 2e9), request time < 2^31 s '
             '(steps 1/4 s), start number up to 10^6, start time and time offset < 2^31; '
             'segment durations 2, 6, 7, 8, 10, 15 s; 0, 1, 2, 3 and 8 announcements per minute; video, audio, subtitle and '
             'index-carrying segments',
    'thorough': 'as quick with segment durations 1..12, 15, 20, 30 s and more option sets',
}
OUTSIDE = 'multiplexed and chunked replies (they carry no events); undocumented rates 4..7'

TABLE = {0: [], 1: [10], 2: [10, 40], 3: [10, 36, 46], 8: [10, 30]}
SCHEME = b'urn:scte:scte35:2013:xml'

WINDOWS = (0, 50000, 1700000000, 2000000000)


def cases(tier):
    out = []
    quick = tier == 'quick'
    durs = (2, 6, 7, 8, 10, 15) if quick else (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 20, 30)
    sets = [[], ['snr'], ['start'], ['start', 'snr', 'timeoffset']] + ([] if quick else [['startrel', 'stoprel'], ['snrdef', 'start']])
    for i, d in enumerate(durs):
        for j, r in enumerate((1, 2, 3, 8)):
            sel = [sets[(i + j) % len(sets)]] if quick else [sets[(i + j) % len(sets)], sets[(i + j + 2) % len(sets)]]
            for st in sel:
                out.append({'name': 'seg:%s-%d-%d' % ('+'.join(st) or 'plain', d, r), 'opts': st, 'dur': d, 'rate': r,
                            'what': 'seg', 'rep': 'V1', 'sidx': j == 1, 'lmsg': i % 2, 'win': (i + j) % 4 if quick else (i + 2 * j + len(out) % 2) % 4})
    out.append({'name': 'audio', 'opts': [], 'dur': 2, 'rate': 3, 'what': 'seg', 'rep': 'A1', 'sidx': False, 'lmsg': 0, 'win': 2})
    out.append({'name': 'text', 'opts': [], 'dur': 2, 'rate': 3, 'what': 'seg', 'rep': 'S1', 'sidx': False, 'lmsg': 0, 'win': 2})
    out.append({'name': 'none', 'opts': [], 'dur': 2, 'rate': 0, 'what': 'seg', 'rep': 'V1', 'sidx': False, 'lmsg': 0, 'win': 2})
    for r in (0, 1, 2, 3, 8):
        for pr in (0, 1):
            out.append({'name': 'mpd-%d-%d' % (r, pr), 'what': 'mpd', 'rate': r, 'dur': 2, 'prof': pr,
                        'opts': [[], ['start', 'snr']][r % 2], 'periods': pr})
    return out


def text_len(h, v):
    return h.len(h.dec(v))


def message(h, sid, pts, dur):
    t = ('<SpliceInfoSection ptsAdjustment="0" scte35:tier="4095">\n<SpliceInsert spliceEventId="%s" '
         'spliceEventCancelIndicator="false" outOfNetworkIndicator="false" uniqueProgramId="0" availNum="0" '
         'availsExpected="0" spliceImmediateFlag="false" >\n<Program><SpliceTime ptsTime="%s"/></Program>\n'
         '<BreakDuration autoReturn="true" duration="%s"/>\n</SpliceInsert>\n</SpliceInfoSection>')
    return t % (sid, pts, dur)


def run(h, case):
    dur, rate = case['dur'], case['rate']
    ts = 90000
    payload = b'x'

    def segment(rep, n, ext):
        br = (b'msdh', b'lmsg') if case.get('lmsg') else (b'msdh', b'msix')
        if rep == 'S1':
            return C.media_segment(h, tfdt=(n - 1) * dur * ts, styp=br, tf_flags=0x020018, tfhd_fields=[dur * ts, 1], trun={'data_offset': 1},
                                   samples=[{'dur': dur * ts, 'size': 1, 'flags': 0, 'cto': 0, 'data': payload}])
        return C.media_segment(h, tfdt=(n - 1) * dur * ts, styp=br,
                               samples=[{'dur': dur * ts, 'size': 1, 'flags': 0, 'cto': 0, 'data': payload}])
    media = {'video': {'reps': ['V1', 'V2'], 'timescale': ts}, 'audio': {'reps': ['A1'], 'timescale': ts},
             'subtitles': {'reps': ['S1'], 'timescale': ts}}
    text = MP.content(dur)
    if case.get('prof'):
        text = text.replace('dash264"', 'dash264,http://dashif.org/guidelines/adin/app"') if rate % 2 else \
            text.replace(' profiles="', ' profiles="http://dashif.org/guidelines/adin/app,')
    C.setup(h, 'tp', dur, 60, media=media, segment=segment, mpd={'Manifest.mpd': text})
    now = h.real('now', 0, 1 << 31, 4)
    s = S.make(h, case['opts'], dur, now)
    parts = list(s.parts)
    if rate or case['what'] == 'seg' and case['rep'] == 'V1':
        parts.append('scte35_%d' % rate)
    if case['what'] == 'mpd':
        if case['periods']:
            h.assume(now - s.ast < 100000000)
            parts.append('periods_30')
        mpd(h, case, parts, now)
        return
    if case['sidx']:
        parts.append('sidx_1')
    # position in the minute (concrete) and minute (symbolic)
    per = 60 // math.gcd(60, dur)
    j = h.val(h.int('j', 0, per - 1))
    w = WINDOWS[case['win']]
    q = h.int('q', w // (per * dur), (w + 100000) // (per * dur))
    mi = per * q + j
    h.val((mi * dur + 8) * 90000 // (1 << 33))      # one 33-bit clock cycle at a time
    n = mi + s.first - (s.media_at_ast // dur if 'timeoffset' in case['opts'] else 0)
    h.assume(n >= 0)
    r = C.get_media(h, '/'.join(['', 'dash'] + parts + ['tp', case['rep'], h.dec(n) + '.m4s']), now)
    if C.refused(h, r):
        return
    start = mi * dur                # media time of the segment
    end = start + dur
    top = C.boxes(h, r)
    types = [b[0] for b in top]
    h.check(types[0] == b'styp' and [t for t in types if t != b'emsg'] == [b'styp'] + ([b'sidx'] if case['sidx'] else []) +
            [b'moof', b'mdat'], 'boxes of the segment')
    # the splices this segment must announce
    minute = start - j * dur % 60
    due = []
    if case['rep'] == 'V1':
        for m in (0, 60):
            for t in TABLE[rate]:
                T = minute + m + t
                if h.sat(h.any(*[h.all(start <= T - w, T - w <= end) for w in (6, 8)])):
                    due.append(T)
    got = [(a, b) for t, a, b in top if t == b'emsg']
    h.check(len(got) == len(due), 'one event per splice to announce')
    h.check(types[1:1 + len(got)] == [b'emsg'] * len(got), 'events follow the segment type')
    ad = 20 if rate == 8 else 10
    ids = []
    for (a, b), T in zip(got, due):
        e = r[a:b]
        pos = 12
        h.check(h.u(e[8:12]) == 0, 'version 0')
        want = SCHEME + b'\x00999\x00'
        h.check(h.beq(e[pos:pos + len(want)], want), 'scheme and value')
        pos += len(want)
        h.check(h.u(e[pos:pos + 4]) == 90000, 'event timescale')
        h.check(h.u(e[pos + 4:pos + 8]) == (T - start) * 90000, 'event time relative to the segment')
        h.check(h.u(e[pos + 8:pos + 12]) == ad * 90000, 'event duration')
        eid = h.u(e[pos + 12:pos + 16])
        h.check(eid == T // 10, 'event id identifies the splice')
        body = e[pos + 16:]
        sid, pts = h.dec(eid), h.dec(T * 90000 % (1 << 33))
        want = message(h, sid, pts, str(ad * 90000)).encode('utf-8')
        h.check(h.len(body) == h.len(want), 'message length')
        h.check(h.beq(body, want), 'splice message')
        h.reach('event')
    if len(due) > 1:
        h.reach('two events')
    if not due:
        h.reach('no event')


def mpd(h, case, parts, now):
    url = '/'.join(['', 'dash'] + parts + ['tp', 'Manifest.mpd'])
    m = MP.parse(h, MP.get(h, C, url, now))
    profs = m.root.get('profiles').split(',')
    base = ['urn:mpeg:dash:profile:isoff-live:2011', 'urn:com:dashif:dash264']
    app = 'http://dashif.org/guidelines/adin/app'
    want = base + ([app] if case['rate'] or case['prof'] else [])
    if case['prof'] and case['rate'] % 2 == 0:
        want = [app] + base
    h.check(profs == want, 'ad insertion profile')
    for p in m.periods:
        for st in p.sets:
            ev = st.elem.findall(MP.NS + 'InbandEventStream')
            if st.type == 'video' and case['rate']:
                h.check(len(ev) == 1 and ev[0].get('schemeIdUri') == SCHEME.decode() and ev[0].get('value') == '999',
                        'event stream announced in every video set')
                h.check(st.elem[0].tag == MP.NS + 'InbandEventStream', 'before the segment information')
                h.reach('announced')
            else:
                h.check(not ev, 'no event stream')


def reach(tier):
    return ['event', 'two events', 'no event', 'announced']
