"""Small driver for demonstrations: scratch content and requests through the WSGI entry point (run with cwd /repo)."""
import atexit
import contextlib
import io
import os
import shutil
import struct
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())

ROOT = tempfile.mkdtemp(prefix='demo')
atexit.register(shutil.rmtree, ROOT, True)
CFG = os.path.join(ROOT, 'cfg')
VOD = os.path.join(ROOT, 'vod')
os.makedirs(CFG)
os.makedirs(VOD)


def u32(v):
    return struct.pack('>I', v)


def box(t, *parts):
    b = b''.join(parts)
    return u32(8 + len(b)) + t + b


def full(t, v, f, *parts):
    return box(t, bytes([v]) + struct.pack('>I', f)[1:], *parts)


def segment(tfdt, samples, v=0, tf_flags=0x020000, tfhd=(), trun_flags=0xf01, first=None, saio=None, styp=True, extra=b'',
            trun_v=0, track=1):
    "samples: (dur, size, flags, cto, data)"
    tf = full(b'tfhd', 0, tf_flags, u32(track), *[u32(x) for x in tfhd])
    td = full(b'tfdt', v, 0, struct.pack('>Q' if v else '>I', tfdt))

    def moof(off):
        p = [u32(len(samples))]
        if trun_flags & 1:
            p.append(u32(off))
        if trun_flags & 4:
            p.append(u32(first))
        for d, s, f, c, _ in samples:
            for bit, val in ((0x100, d), (0x200, s), (0x400, f), (0x800, c)):
                if trun_flags & bit:
                    p.append(u32(val & 0xffffffff))
        kids = [tf, td, full(b'trun', trun_v, trun_flags, *p)]
        if saio:
            kids.append(saio)
        return box(b'moof', full(b'mfhd', 0, 0, u32(1)), box(b'traf', *kids))
    m = moof(len(moof(0)) + 8)
    out = box(b'styp', b'msdh', u32(0), b'msdh') if styp else b''
    return out + extra + m + box(b'mdat', b''.join(s[4] for s in samples))


def init(timescale, v=0, dur=1000, track=1, trex=(1, 0, 0, 0)):
    q = '>Q' if v else '>I'
    t = struct.pack(q, 1) + struct.pack(q, 2)
    mat = bytes(36)
    mvhd = full(b'mvhd', v, 0, t, u32(1000), struct.pack(q, dur), bytes(10), bytes(10)[:6], mat, bytes(24), u32(2))
    tkhd = full(b'tkhd', v, 7, t, u32(track), u32(0), struct.pack(q, dur), bytes(16), mat, u32(1), u32(2))
    mdhd = full(b'mdhd', v, 0, t, u32(timescale), struct.pack(q, dur), b'\x55\xc4\x00\x00')
    hdlr = full(b'hdlr', 0, 0, u32(0), b'vide', bytes(12), b'x\0')
    trak = box(b'trak', tkhd, box(b'mdia', mdhd, hdlr, box(b'minf')))
    return box(b'ftyp', b'isom', u32(0)) + box(b'moov', mvhd, box(b'mvex', full(b'trex', 0, 0, u32(track), *[u32(x) for x in trex])), trak)


MPD = '''<?xml version="1.0" encoding="utf-8"?>
<MPD xmlns="urn:mpeg:dash:schema:mpd:2011" profiles="urn:mpeg:dash:profile:isoff-live:2011" maxSegmentDuration="PT6S" availabilityStartTime="1970-01-01T00:00:00" minBufferTime="PT2S" type="static" mediaPresentationDuration="PT1H">
<ProgramInformation><Title>t</Title></ProgramInformation>
<Period id="p">
<AdaptationSet contentType="audio" mimeType="audio/mp4"><SegmentTemplate initialization="$RepresentationID$/init.mp4" media="$RepresentationID$/$Number$.m4s" duration="%d" startNumber="1"/><Representation id="A1" bandwidth="1"/></AdaptationSet>
<AdaptationSet contentType="video" mimeType="video/mp4"><SegmentTemplate initialization="$RepresentationID$/init.mp4" media="$RepresentationID$/$Number$.m4s" duration="%d" startNumber="1"/><Representation id="V1" bandwidth="1"/></AdaptationSet>
</Period>
</MPD>
'''


def content(name, dur, loop, video=None, audio=None, first=1, files=None, vts=90000, ats=48000, images=False, tsbd=300,
            vdat=None, adat=None):
    "video/audio: function number -> segment bytes; vdat/adat: rows (start nr, repeats, start time, duration)"
    rows = {'video': vdat or [(first, loop - 1, 0, dur * vts)], 'audio': adat or [(first, loop - 1, 0, dur * ats)]}
    t = '[General]\nversion = 1.1\n[Setup]\nfirst_segment_in_loop = %d\nnr_segments_in_loop = %d\nsegment_duration_s = %d\n' \
        'default_tsbd_secs = %d\n' % (first, loop, dur, tsbd)
    for k, rep, ts in (('video', 'V1', vts), ('audio', 'A1', ats)):
        t += '[%s]\nrepresentations = %s\ntimescale = %d\ntotal_duration = %d\ndat_file = %s_%s.dat\n' % (
            k, rep, ts, ts * dur * loop, name, k)
        with open('%s/%s_%s.dat' % (CFG, name, k), 'wb') as f:
            for r in rows[k]:
                f.write(struct.pack('HHII', *r))
    if images:
        t += '[image]\nrepresentations = thumbs\ntimescale = 1\ntotal_duration = 1\ndat_file = x.dat\n'
    open('%s/%s.cfg' % (CFG, name), 'w').write(t)
    base = '%s/%s' % (VOD, name)
    for rep in ('V1', 'A1', 'thumbs'):
        os.makedirs('%s/%s' % (base, rep))
    open(base + '/Manifest.mpd', 'w').write(MPD % (dur, dur))
    for n in range(first, first + loop):
        if images:
            open('%s/thumbs/%d.jpg' % (base, n), 'wb').write(b'jpg%d' % n)
        i = n - first
        for rep, ts, fn, k in (('V1', vts, video, 'video'), ('A1', ats, audio, 'audio')):
            start, d = locate(rows[k], n)
            data = fn(n, start, d) if fn else segment(start, [(d, 4, 0, 0, b'%s%02d' % (rep.encode(), i % 100))])
            open('%s/%s/%d.m4s' % (base, rep, n), 'wb').write(data)
    open(base + '/V1/init.mp4', 'wb').write((files or {}).get('V1/init.mp4', init(vts)))
    open(base + '/A1/init.mp4', 'wb').write((files or {}).get('A1/init.mp4', init(ats, track=2)))


def locate(rows, n):
    for nr, rep, st, d in rows:
        if nr <= n <= nr + rep:
            return st + (n - nr) * d, d
    raise ValueError(n)


class Reply:
    pass


def get(url, now, rng=None, host='sim.org', https=False, max_session=0, tests_content=False, query=''):
    from dashlivesim.mod_wsgi import mod_dashlivesim as mod
    clock = [float(now)]
    mod.time = lambda: clock[0]

    def sleep(s):
        clock[0] += s
    mod.sleep = sleep
    mod.MAX_SESSION_LENGTH = max_session
    r = Reply()
    r.calls = 0

    def start(status, headers):
        r.status = int(status[:3])
        r.headers = dict(headers)
        r.calls += 1
    t = os.path.join(os.getcwd(), 'dashlivesim', 'tests')
    env = {'HTTP_HOST': host, 'REQUEST_URI': url + ('?' + query if query else ''), 'QUERY_STRING': query,
           'VOD_CONF_DIR': os.path.join(t, 'vod_cfg') if tests_content else CFG,
           'CONTENT_ROOT': t if tests_content else VOD, 'wsgi.url_scheme': 'https' if https else 'http'}
    if rng is not None:
        env['HTTP_RANGE'] = rng
    r.parts = []
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        for part in mod.application(env, start):
            r.parts.append((clock[0], part))
    r.body = b''.join(p for _, p in r.parts)
    return r


def boxes(b, lo=0, hi=None):
    hi = len(b) if hi is None else hi
    while lo < hi:
        n, t = struct.unpack('>I4s', b[lo:lo + 8])
        assert n >= 8 and lo + n <= hi, 'box %r of size %d at %d does not fit' % (t, n, lo)
        yield t, lo, lo + n
        lo += n


def find(b, *path, nr=0):
    lo, hi = 0, len(b)
    for i, t in enumerate(path):
        c = [(x, y) for tt, x, y in boxes(b, lo, hi) if tt == t]
        k = nr if i == len(path) - 1 else 0
        if len(c) <= k:
            return None
        start, end = c[k]
        lo, hi = start + 8, end
    return b[start:end]


def tfdt(b):
    t = find(b, b'moof', b'traf', b'tfdt')
    return struct.unpack('>Q', t[12:20])[0] if t[8] else struct.unpack('>I', t[12:16])[0]


def seqno(b):
    return struct.unpack('>I', find(b, b'moof', b'mfhd')[12:16])[0]


def brands(b):
    s = find(b, b'styp')
    return [s[i:i + 4] for i in range(8, len(s), 4)]


def expect(a, b, what=''):
    if a != b:
        print('%s: got %r, expected %r' % (what, a, b))
        sys.exit(1)
