"""Synthetic VoD content in virtual files: configuration, init segments and media segments whose
box layout is concrete and whose field values may be symbolic."""

CFG = '/vfs/cfg'
CONTENT = '/vfs/content'


def u8(h, v):
    return h.be(v, 1)


def u16(h, v):
    return h.be(v, 2)


def u32(h, v):
    return h.be(v, 4)


def u64(h, v):
    return h.be(v, 8)


def box(h, typ, *parts):
    n = 8
    for p in parts:
        n += len(p)
    out = u32(h, n) + typ
    for p in parts:
        out = out + p
    return out


def fullbox(h, typ, version, flags, *parts):
    return box(h, typ, h.be(version, 1) + h.be(flags, 3), *parts)


# ---------------------------------------------------------------- media segments

def trun_flags(opts):
    f = 0
    for k, bit in (('data_offset', 1), ('first_flags', 4), ('dur', 0x100), ('size', 0x200), ('flags', 0x400),
                   ('cto', 0x800)):
        if opts.get(k):
            f |= bit
    return f


def media_segment(h, tfdt=0, tfdt_v=0, samples=(), tf_flags=0x020000, tfhd_fields=(), trun=None, trun_v=0,
                  first_flags=None, styp=(b'msdh', b'msix'), saio=None, sidx=None, mfhd_seq=1, mdat=None, free=None,
                  track_id=1, extra_traf=(), extra_top=(), data_offset=None, saio_first=False):
    """One moof+mdat segment. samples: dicts with dur,size,flags,cto,data. Returns bytes."""
    if trun is None:
        trun = {'data_offset': 1, 'dur': 1, 'size': 1, 'flags': 1, 'cto': 1}
    data = b''
    if mdat is None:
        for s in samples:
            data = data + s['data']
    else:
        data = mdat
    mfhd = fullbox(h, b'mfhd', 0, 0, u32(h, mfhd_seq))
    tfhd = fullbox(h, b'tfhd', 0, tf_flags, u32(h, track_id), *[u32(h, v) for v in tfhd_fields])
    if tfdt_v == 0:
        tb = fullbox(h, b'tfdt', 0, 0, u32(h, tfdt))
    else:
        tb = fullbox(h, b'tfdt', 1, 0, u64(h, tfdt))

    def mk(off):
        parts = [u32(h, len(samples))]
        if trun.get('data_offset'):
            parts.append(u32(h, off))
        if trun.get('first_flags'):
            parts.append(u32(h, first_flags))
        for s in samples:
            if trun.get('dur'):
                parts.append(u32(h, s['dur']))
            if trun.get('size'):
                parts.append(u32(h, s['size']))
            if trun.get('flags'):
                parts.append(u32(h, s['flags']))
            if trun.get('cto'):
                parts.append(u32(h, s['cto']))
        tr = fullbox(h, b'trun', trun_v, trun_flags(trun), *parts)
        traf_children = [tfhd, tb, tr]
        if saio is not None:
            traf_children.insert(2 if saio_first else 3, saio)
        for e in extra_traf:
            traf_children.append(e)
        return box(h, b'moof', mfhd, box(h, b'traf', *traf_children))
    if data_offset is None:
        moof = mk(0)
        moof = mk(len(moof) + 8)
    else:
        moof = mk(data_offset)
    out = b''
    if styp is not None:
        out = box(h, b'styp', *styp)
    if sidx is not None:
        out = out + sidx
    for e in extra_top:
        out = out + e
    return out + moof + box(h, b'mdat', data)


def samples_of(h, n, prefix, size, dur=None, flags=None, cto=None, symbolic_data=True):
    out = []
    for i in range(n):
        d = h.bytes('%sd%d' % (prefix, i), size) if symbolic_data else bytes([(i * 7 + j) & 255 for j in range(size)])
        out.append({'dur': dur if dur is not None else h.int('%sdur%d' % (prefix, i), 1, 1 << 20),
                    'size': size,
                    'flags': flags[i] if flags is not None else 0,
                    'cto': cto[i] if cto is not None else 0, 'data': d})
    return out


# ---------------------------------------------------------------- init segments

def init_segment(h, timescale=90000, track_id=1, handler=b'vide', v=0, mvhd_dur=0, tkhd_dur=0, mdhd_dur=0,
                 trex=(1, 0, 0, 0), mvhd_ts=1000, ct=0, mt=0, brands=(b'iso6', b'dash'), tail=b''):
    ftyp = box(h, b'ftyp', b'isom', u32(h, 0), *brands)
    if v == 1:
        tim = lambda: u64(h, ct) + u64(h, mt)
        du = u64
    else:
        tim = lambda: u32(h, ct) + u32(h, mt)
        du = u32
    mat = bytes([0, 1, 0, 0] + [0] * 12 + [0, 1, 0, 0] + [0] * 12 + [64, 0, 0, 0])
    mvhd = fullbox(h, b'mvhd', v, 0, tim(), u32(h, mvhd_ts), du(h, mvhd_dur), bytes([0, 1, 0, 0, 1, 0] + [0] * 10),
                   mat, bytes(24), u32(h, 2))
    tkhd = fullbox(h, b'tkhd', v, 7, tim(), u32(h, track_id), u32(h, 0), du(h, tkhd_dur), bytes(16), mat,
                   u32(h, 0x01400000), u32(h, 0x00B40000))
    mdhd = fullbox(h, b'mdhd', v, 0, tim(), u32(h, timescale), du(h, mdhd_dur), bytes([0x55, 0xC4, 0, 0]))
    hdlr = fullbox(h, b'hdlr', 0, 0, u32(h, 0), handler, bytes(12), b'x\x00')
    minf = box(h, b'minf', tail if len(tail) else b'\x00\x00\x00\x08free')
    trak = box(h, b'trak', tkhd, box(h, b'mdia', mdhd, hdlr, minf))
    mvex = box(h, b'mvex', fullbox(h, b'trex', 0, 0, u32(h, track_id), *[u32(h, x) for x in trex]))
    return ftyp + box(h, b'moov', mvhd, mvex, trak)


# ---------------------------------------------------------------- configuration

def config_text(h, dur, loop, first=1, tsbd=300, media=None, version='1.0'):
    """media: {'video': {'reps': [...], 'timescale': n, 'total': n, 'dat': name}}"""
    t = '[General]\nversion = %s\n\n[Setup]\nfirst_segment_in_loop = %s\nnr_segments_in_loop = %s\n' \
        'segment_duration_s = %s\ndefault_tsbd_secs = %s\n' % (version, h.dec(first), h.dec(loop), h.dec(dur),
                                                               h.dec(tsbd))
    for k, m in media.items():
        t = t + '\n[%s]\nrepresentations = %s\ntimescale = %d\n' % (k, ','.join(m['reps']), m['timescale'])
        if version == '1.1':
            t = t + 'total_duration = %s\ndat_file = %s\n' % (h.dec(m['total']), m['dat'])
    return t


def vod_number(h, path):
    "number in .../<number>.<ext>"
    leaf = path.split('/')[-1]
    dot = leaf.rindex('.')
    return h.num(leaf[:dot])


def setup(h, name, dur, loop, first=1, tsbd=300, media=None, segment=None, init=None, version='1.0', mpd=None, sub=''):
    """Register content. segment(rep, number, ext) -> bytes, init(rep) -> bytes; representations below directory `sub`."""
    h.file('%s/%s.cfg' % (CFG, name), config_text(h, dur, loop, first, tsbd, media, version))
    if mpd is not None:
        for fn, text in mpd.items():
            h.file('%s/%s/%s' % (CONTENT, name, fn), text)
    root = '%s/%s/' % (CONTENT, name)
    inits = {}

    def provider(path):
        if not path.startswith(root):
            return None
        rest = [p for p in path[len(root):].split('/') if not h.eq(p, '')]
        if sub and rest[:1] == [sub]:
            rest = rest[1:]
        elif sub:
            return None
        if len(rest) != 2:
            return None
        rep = rest[-2]
        known = [r for m in media.values() for r in m['reps']]
        if rep not in known:
            return None
        if rest[-1] == 'init.mp4':
            if init is None:
                return None
            if rep not in inits:
                inits[rep] = init(rep)
            return inits[rep]
        leaf = rest[-1]
        if '.' not in leaf or segment is None:
            return None
        ext = leaf[leaf.rindex('.'):]
        if ext not in ('.m4s', '.jpg'):
            return None
        n = vod_number(h, leaf)
        if not h.sat(h.all(n >= first, n < first + loop)):
            return None
        return segment(rep, n, ext)
    h.files.provide(provider)


# ---------------------------------------------------------------- reading results (independent box walker)

def boxes(h, data, lo=0, hi=None):
    "[(type, start, end)] of the boxes in data[lo:hi]; fails the check when they do not tile the range"
    out = []
    hi = len(data) if hi is None else hi
    pos = lo
    while pos < hi:
        if pos + 8 > hi:
            h.fail('box header truncated')
            return out
        n = h.u(data[pos:pos + 4])
        n = h.val(n)
        typ = h.val_bytes(data[pos + 4:pos + 8])
        if n < 8 or pos + n > hi:
            h.fail('box %r has size %d beyond its container' % (typ, n))
            return out
        out.append((typ, pos, pos + n))
        pos += n
    return out


def find(h, data, *path):
    "(start, end) of the first box along the path of types, or None"
    lo, hi = 0, len(data)
    r = None
    for i, t in enumerate(path):
        r = None
        for typ, a, b in boxes(h, data, lo, hi):
            if typ == t:
                r = (a, b)
                break
        if r is None:
            return None
        lo, hi = r[0] + 8, r[1]
    return r


def tfdt_of(h, data):
    r = find(h, data, b'moof', b'traf', b'tfdt')
    b = data[r[0]:r[1]]
    v = h.val(h.u(b[8:9]))
    return h.u(b[12:16]) if v == 0 else h.u(b[12:20])


def seqno_of(h, data):
    r = find(h, data, b'moof', b'mfhd')
    return h.u(data[r[0] + 12:r[0] + 16])


def brands_of(h, data):
    r = find(h, data, b'styp')
    return [h.val_bytes(data[i:i + 4]) for i in range(r[0] + 8, r[1], 4)]


# ---------------------------------------------------------------- requests

def provider(h, url, now, host='sim.org', mod=None, https=0):
    """DashProvider for a path such as /dash/<options>/content/rep/1.m4s"""
    m = mod or h.load('dashlivesim.dashlib.dash_proxy')
    parts = url.split('/')[1:]
    return m.createProvider(host, parts, None, CFG, CONTENT, now, None, https)


def get_media(h, url, now, chunk=False):
    m = h.load('dashlivesim.dashlib.dash_proxy')
    return m.get_media(provider(h, url, now, mod=m), chunk)


def refused(h, r):
    return isinstance(r, dict) and r['ok'] is False
