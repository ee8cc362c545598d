"""C27: the generator of subtitle content makes well-formed segments that carry what they are asked to."""
import sys
import types

import content as C

BOUNDS = {
    'quick': 'every track id and sequence number (32 bit), segment duration (32 bit), decode time (64 bit), every byte of documents of up to 40 bytes, every '
             'time scale and creation time (32 bit), languages from a list, handler names from a list; whole runs of 1 to 3 segments with '
             'every segment duration of 1 to 5 time stamps of 1 s or 0.5 s',
    'thorough': 'as quick with documents of up to 300 bytes and runs of up to 5 segments',
}
OUTSIDE = 'segment durations that are no multiple of the time stamp resolution (the last cue then reaches into the next segment); languages that are ' \
          'not three lower-case letters; the template library (replaced, see assumptions)'
ASSUMPTIONS = ['jinja2 is not installed here: its Template is replaced by one that expands {{name.attr}} and {% for %} as documented']

LANGS = ['eng', 'swe', 'aaa', 'zzz', 'qaz']
NAMES = [None, 'x', 'DASH-IF TTML', 'Unders\u00f6kning', 'a' * 300]


class Template:
    def __init__(self, text):
        self.text = text

    @staticmethod
    def _expand(t, env):
        out = ''
        for i, part in enumerate(t.split('{{')):
            if i == 0:
                out = out + part
                continue
            name, rest = part.split('}}', 1)
            name = name.strip()
            if '.' in name:
                a, b = name.split('.')
                v = env[a][b]
            else:
                v = env[name]
            out = out + v + rest
        return out

    def render(self, **env):
        out = ''
        t = self.text
        while '{%' in t:
            head, rest = t.split('{%', 1)
            tag, rest = rest.split('%}', 1)
            var, seq = tag.split()[1], tag.split()[3]
            body, rest = rest.split('{%', 1)
            t = rest.split('%}', 1)[1]
            out = out + self._expand(head, env)
            for v in env[seq]:
                out = out + self._expand(body, dict(env, **{var: v}))
        return out + self._expand(t, env)


def cases(tier):
    out = []
    for n in (0, 1, 2, 7, 40) + ((100, 300) if tier != 'quick' else ()):
        out.append({'name': 'media-%d' % n, 'kind': 'media', 'n': n})
    for lang in LANGS:
        for k in range(len(NAMES)):
            for ct in (0, 1):
                out.append({'name': 'init-%s-%d-%d' % (lang, k, ct), 'kind': 'init', 'lang': lang, 'hname': k, 'ct': ct})
    for n in (1, 2, 3) + ((4, 5) if tier != 'quick' else ()):
        for res in (1000, 500):
            for fmt in ('%d', 's%05d'):
                out.append({'name': 'run-%d-%d-%s' % (n, res, fmt), 'kind': 'run', 'n': n, 'res': res, 'fmt': fmt})
    out.append({'name': 'time', 'kind': 'time'})
    return out


def media(h, data, track, seq, dur, time, doc):
    top = C.boxes(h, data)
    h.check([x[0] for x in top] == [b'styp', b'moof', b'mdat'], 'boxes of the segment')
    h.check(C.seqno_of(h, data) == seq, 'sequence number')
    h.check(C.tfdt_of(h, data) == time, 'decode time')
    a, b = C.find(h, data, b'moof', b'traf')
    parts = {x[0]: data[x[1]:x[2]] for x in C.boxes(h, data, a + 8, b)}
    th, tr = parts[b'tfhd'], parts[b'trun']
    h.check(h.val(h.u(th[8:12])) == 0x020018, 'offsets relative to the fragment, default duration and size')
    h.check(len(th) == 24, 'fragment header size')
    h.check(h.u(th[12:16]) == track, 'track')
    h.check(h.u(th[16:20]) == dur, 'sample duration')
    h.check(h.u(th[20:24]) == len(doc), 'sample size')
    h.check(h.val(h.u(tr[8:12])) == 1 and h.val(h.u(tr[12:16])) == 1 and len(tr) == 20, 'one sample')
    h.check(top[1][1] + h.u(tr[16:20]) == top[2][1] + 8, 'data offset')
    h.check(top[2][2] - top[2][1] - 8 == len(doc), 'media data size')
    h.check(h.beq(data[top[2][1] + 8:top[2][2]], doc), 'the document is the sample')


def init(h, data, track, lang, scale, name, ctime, base):
    "against the template init segment of the generator"
    def at(*p):
        r = C.find(h, data, *p)
        h.check(r is not None, 'box %r' % (p[-1],))
        return data[r[0]:r[1]]
    h.check([x[0] for x in C.boxes(h, data)] == [b'ftyp', b'moov'], 'boxes of the init segment')
    mv, tk, tx = at(b'moov', b'mvhd'), at(b'moov', b'trak', b'tkhd'), at(b'moov', b'mvex', b'trex')
    md, hd = at(b'moov', b'trak', b'mdia', b'mdhd'), at(b'moov', b'trak', b'mdia', b'hdlr')
    h.check(h.u(mv[20:24]) == scale, 'movie time scale')
    h.check(h.val(h.u(mv[24:28])) == 0 and h.val(h.u(md[24:28])) == 0 and h.val(h.u(tk[28:32])) == 0, 'no duration')
    h.check(h.u(mv[-4:]) == track + 1, 'next track id')
    h.check(h.u(tk[20:24]) == track, 'track id')
    h.check(h.u(tx[12:16]) == track, 'defaults for this track')
    h.check(h.u(md[20:24]) == scale, 'track time scale')
    bits = h.u(md[28:30])
    h.check([h.val(bits >> s & 31) + 96 for s in (10, 5, 0)] == [ord(c) for c in lang], 'language')
    h.check(h.val_bytes(hd[16:20]) == b'subt', 'handler')
    h.check(h.val_bytes(hd[32:]) == (name or 'DASH-IF TTML').encode('utf-8') + b'\0', 'handler name')
    for box, in ((mv,), (tk,), (md,)):
        h.check(h.all(h.u(box[12:16]) == ctime, h.u(box[16:20]) == ctime), 'creation and modification time')
    h.check(C.find(h, data, b'moov', b'trak', b'mdia', b'minf', b'stbl', b'stsd') is not None, 'sample description')


def run(h, case):
    U = (1 << 32) - 1
    sc = h.load('dashlivesim.dashlib.stpp_generator.stpp_creator')
    if case['kind'] == 'media':
        track, seq, dur, time = h.int('track', 1, U), h.int('seq', 0, U), h.int('dur', 0, U), h.int('time', 0, (1 << 64) - 1)
        doc = h.bytes('doc', case['n'])
        data = sc.create_media_segment(track, seq, dur, time, doc)
        media(h, data, track, seq, dur, time, doc)
        h.reach('media')
    elif case['kind'] == 'init':
        track, scale = h.int('track', 1, U - 1), h.int('scale', 1, U)
        ct = h.int('ctime', 1, U) if case['ct'] else None
        name = NAMES[case['hname']]
        data = sc.create_init_segment(case['lang'], track, scale, ct, name)
        init(h, data, track, case['lang'], scale, name, 0 if ct is None else ct, None)
        h.reach('init')
    else:
        j = types.ModuleType('jinja2')
        j.Template = Template
        sys.modules['jinja2'] = j
        mk = h.load('dashlivesim.dashlib.stpp_generator.make_stpp_segments')
        if case['kind'] == 'time':
            t = h.int('t', 0, 359999999)
            s = mk.SegmentCreator(1, 1000, 1000, '%d', 'eng', 3, C.CONTENT + '/s').create_time_string(t)
            check_time(h, s, t)
            h.reach('time')
            return
        res = case['res']
        k = h.int('k', 1, 5)
        k = h.val(k)
        dur = k * res
        track = h.int('track', 1, U - 1)
        out = C.CONTENT + '/subs'
        h.attempt(mk.SegmentCreator(case['n'], dur, res, case['fmt'], 'swe', track, out).create_segments)
        files = h.files.written
        h.check(sorted(files) == sorted([out + '/init.mp4'] + [out + '/' + case['fmt'] % i + '.m4s' for i in range(1, case['n'] + 1)]), 'files written')
        init(h, files[out + '/init.mp4'], track, 'swe', 1000, None, 0, None)
        for i in range(case['n']):
            data = files[out + '/' + case['fmt'] % (i + 1) + '.m4s']
            r = C.find(h, data, b'mdat')
            doc = data[r[0] + 8:r[1]]
            media(h, data, track, i + 1, dur, i * dur, doc)
            from xml.etree import ElementTree as ET
            root = ET.fromstring(h.val_bytes(doc))
            ps = [e for e in root.iter() if e.tag.endswith('}p')]
            h.check(len(ps) == k, 'a cue for every time stamp of the segment')
            for q, p in enumerate(ps):
                check_time(h, p.get('begin'), i * dur + q * res)
                check_time(h, p.get('end'), i * dur + (q + 1) * res)
                h.check(''.join(p.itertext()).strip() == 'swe : ' + p.get('begin'), 'text of the cue')
            ids = [p.get('{http://www.w3.org/XML/1998/namespace}id') for p in ps]
            h.check(len(set(ids)) == k, 'distinct cue ids')
        h.reach('run')


def check_time(h, s, t):
    hms, ms = s.split('.')
    a, b, c = hms.split(':')
    h.check(h.len(ms) == 3 and h.len(b) == 2 and h.len(c) == 2, 'time format')
    h.check(h.num(a) * 3600000 + h.num(b) * 60000 + h.num(c) * 1000 + h.num(ms) == t, 'time of the cue')
    h.check(h.all(h.num(b) < 60, h.num(c) < 60), 'minutes and seconds')


def reach(tier):
    return ['media', 'init', 'run', 'time']
