"""C19: subtitle documents follow the live timeline and their segments stay consistent."""
import content as C
import session as S

BOUNDS = {
    'quick': 'segment numbers < 2^31, request time < 2^31 s (steps 1/4 s), start number, start time, time offset; every '
             'stored cue and text time 00:00:00 .. 99:99:99 and stored number; loops of 1, 30 and 1000 segments of 2, 6 s; eight '
             'documents and six box layouts',
    'thorough': 'as quick with every document in every layout and more option sets',
}
OUTSIDE = 'fragments with several subtitle samples; documents in other encodings than UTF-8; times with a fraction are moved by whole seconds'

SETS = [[], ['snr'], ['start'], ['start', 'timeoffset'], ['snrdef', 'tsbd'], ['startrel'], ['cont'], ['start', 'stop', 'snr']]

# documents: bytes and fields: T = cue time, U = text time, V = text time with fraction, N = segment number, D = two digits to be left alone
HEAD = b'<?xml version="1.0" encoding="UTF-8"?>\n<tt xmlns="http://www.w3.org/ns/ttml" ttp:timeBase="media"><body><div>'
DOCS = {
    'none': [HEAD, b'</div></body></tt>\n'],
    'cue': [HEAD, b'<p xml:id="s1" begin="', 'T', b'.000" end="', 'T', b'.960">hello</p></div></body></tt>'],
    'text': [HEAD, b'<p begin="', 'T', b'" end="', 'T', b'">eng : ', 'V', b'</p>', b'</div></tt>'],
    'nofrac': [b'<tt><p end="', 'T', b'" begin="', 'T', b'">swe : ', 'U', b'<br/>\xc3\xa5 ', b'</p></tt>'],
    'number': [b'<tt><p begin="', 'T', b'.5">Segment # ', 'N', b'</p></tt>'],
    'all': [HEAD, b'<p begin="', 'T', b'.000" end="', 'T', b'.500"><span>Segment # ', 'N', b'</span> x : ', 'V', b'</p></tt>'],
    'repeat': [b'<tt><p begin="', 'T', b'">Segment # ', 'N', b' x : ', 'U', b'</p><p>Segment # ', 'N', b' yy : ', 'V', b'</p></tt>'],
    'two': [b'<p begin="', 'T', b'"/><p end="', 'T', b':12"/>'],
    'other': [b'<tt><p dur="00:00:', 'D', b'" at="', 'D', b':30:00" begin="5s">it was 12:', 'D', b':00 ; eng: 00:00:', 'D', b' Segment #5</p></tt>'],
}
LAYOUTS = {
    'plain': dict(flags=0x020018, fields=('dur', 'size'), trun={}),
    'offset': dict(flags=0x020018, fields=('dur', 'size'), trun={'data_offset': 1}),
    'v1': dict(flags=0x020018, fields=('dur', 'size'), trun={'data_offset': 1}, tfdt_v=1),
    'flags': dict(flags=0x020038, fields=('dur', 'size', 'fl'), trun={}, styp=None),
    'sdi': dict(flags=0x02001a, fields=('sdi', 'dur', 'size'), trun={'data_offset': 1}, tfdt_v=1),
    'sidx': dict(flags=0x020018, fields=('dur', 'size'), trun={}, sidx=True),
}


def cases(tier):
    out = []
    quick = tier == 'quick'
    loops = ((2, 30), (6, 1000), (2, 1))
    i = 0
    for d in DOCS:
        for l in LAYOUTS:
            i += 1
            if quick and (i + i // 6) % 2 and not (d == 'all' and l in ('v1', 'sidx')):
                continue
            for k in ((i // 2) % 8,) if quick else ((i // 2) % 8, (i // 2 + 3) % 8):
                dur, loop = loops[i % 3 if 'snrdef' not in SETS[k] else 0]
                out.append({'name': '%s-%s-%s' % (d, l, '+'.join(SETS[k]) or 'plain'), 'doc': d, 'lay': l, 'opts': SETS[k],
                            'dur': dur, 'loop': loop})
    return out


def two(h, v):
    return C.u8(h, 48 + v // 10) + C.u8(h, 48 + v % 10)


def run(h, case):
    dur, loop = case['dur'], case['loop']
    lay = LAYOUTS[case['lay']]
    ts = 1000
    doc = b''
    vals = []
    k = 0
    for part in DOCS[case['doc']]:
        if isinstance(part, bytes):
            doc = doc + part
            vals.append(part)
            continue
        k += 1
        if part in 'TUV':
            v = [[h.int('t%d%d%s' % (k, j, x), 0, 9) for x in 'ab'] for j in range(3)]
            for j in range(3):
                doc = doc + (b':' if j else b'') + C.u8(h, 48 + v[j][0]) + C.u8(h, 48 + v[j][1])
            doc = doc + (b'.25' if part == 'V' else b'')
            vals.append((part, sum((10 * a + b) * f for (a, b), f in zip(v, (3600, 60, 1)))))
        elif part == 'N':
            a = h.int('seg%d' % k, 0, 9)
            doc = doc + C.u8(h, 48 + a) + b'7'
            vals.append((part, None))
        else:
            a = h.int('d%d' % k, 0, 9)
            b = C.u8(h, 48 + a) + b'3'
            doc = doc + b
            vals.append(b)
    n0 = len(doc)
    sdur = h.int('sdur', 0, (1 << 32) - 1)
    tf = {'dur': sdur, 'size': n0, 'fl': h.int('fl', 0, (1 << 32) - 1), 'sdi': 1}
    stored = {}

    def segment(rep, n, ext):
        r = C.media_segment(h, tfdt=(n - 1) * dur * ts, tfdt_v=lay.get('tfdt_v', 0), tf_flags=lay['flags'],
                            tfhd_fields=[tf[f] for f in lay['fields']], trun=dict(lay['trun']),
                            styp=lay.get('styp', (b'msdh', b'dash')), samples=[{'data': doc}])
        stored['seg'] = r
        stored['n'] = n
        return r
    C.setup(h, 'tp', dur, loop, media={'subtitles': {'reps': ['S1'], 'timescale': ts}}, segment=segment)
    now = h.real('now', 0, 1 << 31, 4)
    s = S.make(h, case['opts'], dur, now)
    parts = list(s.parts) + (['sidx_1'] if lay.get('sidx') else [])
    n = h.int('n', 0, 1 << 31)
    r = C.get_media(h, '/'.join(['', 'dash'] + parts + ['tp', 'S1', h.dec(n) + '.m4s']), now)
    if C.refused(h, r):
        return
    start = (n - s.first) * dur + s.media_at_ast
    base = start // (loop * dur) * (loop * dur)
    h.check(stored['n'] == (start - base) // dur + 1, 'the stored document of that place in the loop')
    top = C.boxes(h, r)
    want = (['styp'] if lay.get('styp', 1) else []) + (['sidx'] if lay.get('sidx') else []) + ['moof', 'mdat']
    h.check([t.decode() for t, a, b in top] == want, 'boxes of the segment')
    a, b = [(a, b) for t, a, b in top if t == b'mdat'][0]
    text = r[a + 8:b]
    # the document
    pos = 0
    for v in vals:
        if not isinstance(v, tuple):
            h.check(h.beq(text[pos:pos + len(v)], v), 'the rest of the document is unchanged')
            pos += len(v)
        elif v[0] == 'T':
            t = v[1] + base
            hh, mm, ss = t // 3600, t % 3600 // 60, t % 60
            e = two(h, hh) if h.sat(hh < 100) else h.dec(hh).encode('utf-8')
            e = e + b':' + two(h, mm) + b':' + two(h, ss)
            h.check(h.beq(text[pos:pos + len(e)], e), 'cue times are moved by the completed loops')
            pos += len(e)
            h.reach('cue')
        elif v[0] in 'UV':
            h.check(h.beq(text[pos:pos + 6], b'UTC = '), 'text time marked as UTC')
            h.check(h.ts(text[pos + 6:pos + 26].decode('utf-8')) == v[1] + base, 'text time as date')
            pos += 26
            h.reach('utc')
        else:
            e = h.dec(n).encode('utf-8')
            h.check(h.beq(text[pos:pos + len(e)], e), 'number of the segment')
            pos += len(e)
            h.reach('number')
    h.check(pos == len(text), 'nothing follows')
    # the boxes around it
    size = len(text)
    p = C.find(h, r, b'moof', b'traf', b'tfhd')
    q = p[0] + 16
    for f in lay['fields']:
        v = h.u(r[q:q + 4])
        h.check(v == (size if f == 'size' else tf[f]), 'sample size is that of the new document; other defaults unchanged')
        q += 4
    h.check(q == p[1], 'no other defaults')
    p = C.find(h, r, b'moof', b'traf', b'trun')
    m = C.find(h, r, b'moof')
    h.check(h.u(r[p[0] + 12:p[0] + 16]) == 1, 'one sample')
    if lay['trun']:
        h.check(h.u(r[p[0] + 16:p[0] + 20]) == m[1] - m[0] + 8, 'data offset points at the document')
    h.check(C.tfdt_of(h, r) == start * ts, 'decode time')
    h.check(C.seqno_of(h, r) == n, 'sequence number')
    if lay.get('sidx'):
        x = C.find(h, r, b'sidx')
        i = x[0]
        h.check(h.u(r[i + 44:i + 48]) == sdur, 'index duration')
        h.check(h.u(r[i + 40:i + 44]) == m[1] - m[0] + b - a, 'index size')
        h.reach('index')


def reach(tier):
    return ['cue', 'utc', 'number', 'index']
