"""C03: rewriting a media segment changes only what must change and leaves a consistent file."""
import content as C

BOUNDS = {
    'quick': 'one movie fragment per segment, 0 to 3 samples, sample records with every combination of data offset, first '
             'flags, duration, size, flags and composition offset; tfdt 32 or 64 bit; saio 32/64 bit with 0 to 2 entries, '
             'with and without type; brand lists of 0 to 4 brands with and without lmsg; extra boxes in the fragment and '
             'at top level; all field values (times, offsets, sizes, flags, brands payload bytes) symbolic over their '
             'full width; loop shift 0..2^32 s',
    'thorough': 'as quick with 0 to 8 samples and all layouts crossed',
}
OUTSIDE = 'several fragments or tracks in one stored segment; saio placed before tfdt; TTML segments (see C19)'

TRUNS = [{'data_offset': 1, 'dur': 1, 'size': 1, 'flags': 1, 'cto': 1},
         {'data_offset': 1, 'size': 1},
         {'data_offset': 1, 'first_flags': 1, 'dur': 1, 'size': 1},
         {'dur': 1, 'cto': 1},
         {'data_offset': 1, 'flags': 1, 'cto': 1, 'size': 1},
         {'first_flags': 1, 'dur': 1, 'size': 1},
         {}]
BR = [[b'msdh', b'msix'], [b'msdh', b'lmsg', b'dash'], [b'lmsg'], [], [b'lmsg', b'msdh', b'lmsg', b'iso6']]


def cases(tier):
    out = []
    ns = (1, 2, 3) if tier == 'quick' else (0, 1, 2, 3, 5, 8)
    i = 0
    for v in (0, 1):
        for ti in range(len(TRUNS)):
            for saio in (None, (0, 1, 0), (1, 1, 0), (0, 2, 1), (1, 2, 1), (0, 0, 0)):
                i += 1
                for n in (ns if tier != 'quick' else (ns[i % 3],)):
                    for top in ((0, 1, 2, 3) if tier != 'quick' else (i % 4,)):
                        out.append({'name': 'v%d-trun%d-%s-n%d-top%d-br%d' % (v, ti, saio, n, top, i % len(BR)), 'v': v,
                                    'trun': ti, 'saio': saio, 'n': n, 'top': top, 'br': i % len(BR), 'sidx': i % 2,
                                    'opt': i % 3 == 0, 'first': i % 5 == 0})
    return out


def mk_saio(h, v, flags, entries, extra):
    parts = []
    if flags & 1:
        parts.append(b'cenc' + C.u32(h, 0))
    parts.append(C.u32(h, len(entries)))
    for e in entries:
        parts.append(C.u32(h, e + extra) if v == 0 else C.u64(h, e + extra))
    return C.fullbox(h, b'saio', v, flags, *parts)


def run(h, case):
    nsamp = case['n']
    trun = TRUNS[case['trun']]
    dur, loop, ts = 2, 10, 90000
    samples = []
    for i in range(nsamp):
        samples.append({'dur': h.int('dur%d' % i, 0, 1 << 20), 'size': h.int('size%d' % i, 0, (1 << 32) - 1),
                        'flags': h.int('fl%d' % i, 0, (1 << 32) - 1), 'cto': h.int('cto%d' % i, 0, (1 << 32) - 1)})
    mdat = h.bytes('mdat', 5)
    stored = h.int('tfdt', 0, (1 << 32) - 1 if case['v'] == 0 else 1 << 62)
    off = h.int('off', 0, (1 << 31) - 100)
    ff = h.int('ff', 0, (1 << 32) - 1)
    seq = h.int('seq', 0, (1 << 32) - 1)
    tfh = [0x020000, 0x020008, 0x020038, 0x02002a][(case['trun'] + case['n']) % 4]
    nf = bin(tfh & 0xffff).count('1')
    fields = [h.int('tfhd%d' % i, 0, (1 << 20) if tfh & 8 and i == (1 if tfh & 2 else 0)
                    else (1 << 32) - 1) for i in range(nf)]
    entries = []
    if case['saio']:
        sv, ne, sfl = case['saio']
        entries = [h.int('saio%d' % i, 0, (1 << 32) - 100 if sv == 0 else 1 << 60) for i in range(ne)]
    brands = BR[case['br']]
    extra_traf = [C.box(h, b'senc', h.bytes('senc', 6))] if case['top'] & 1 else []
    tops = []
    if case['top'] & 1:
        tops.append(C.box(h, b'prft', h.bytes('prft', 5)))
    if case['top'] & 2:
        tops.append(C.box(h, b'emsg', h.bytes('emsg', 7)))
    track = h.int('track', 1, (1 << 32) - 1)
    sidx = C.box(h, b'sidx', h.bytes('sidx', 36)) if case['sidx'] else None

    def build(version, t, extra, brs, sidx, sq):
        return C.media_segment(h, tfdt=t, tfdt_v=version, samples=samples, tf_flags=tfh, tfhd_fields=fields, trun=trun,
                               first_flags=ff, styp=brs, mdat=mdat, track_id=track, extra_traf=extra_traf,
                               extra_top=tops, data_offset=off + extra, mfhd_seq=sq, sidx=sidx,
                               saio=mk_saio(h, sv, sfl, entries, extra) if case['saio'] else None,
                               saio_first=case['first'])
    stored_bytes = build(case['v'], stored, 0, brands, sidx, seq)
    C.setup(h, 'tp', dur, loop, media={'video': {'reps': ['V1'], 'timescale': ts}},
            segment=lambda rep, n, ext: stored_bytes)
    n = h.int('n', 0, (1 << 31) - 1)
    opts = ['ato_inf'] + (['sidx_1'] if case['opt'] else [])
    out = C.get_media(h, '/'.join(['', 'dash'] + opts + ['tp', 'V1', h.dec(n) + '.m4s']), 0)
    h.check(not C.refused(h, out), 'served')
    h.note('out', out)
    top = C.boxes(h, out)
    h.check([b[0] for b in top].count(b'moof') == 1, 'one fragment')
    a, b = C.find(h, out, b'moof', b'traf', b'tfdt')
    ver = h.val(h.u(out[a + 8:a + 9]))
    h.check(ver in (0, 1) and ver >= case['v'], 'decode time box version')
    growth = 4 if ver != case['v'] else 0
    t = stored + n // loop * loop * dur * ts
    if ver == 0:
        h.check(t < 1 << 32, 'decode time fits its box')
    if growth:
        h.reach('grown')
    else:
        h.reach('same size')
    br = [x for x in brands if x != b'lmsg']
    want = build(ver, t, growth, br, None, n)
    if case['opt']:
        h.reach('sidx')
        for i, (typ, lo, hi) in enumerate(top):
            if typ == b'sidx':
                got = out[lo:hi]
                h.check(top[i + 1][0] == b'moof', 'index precedes the fragment')
                out = out[:lo] + out[hi:]
                break
        else:
            h.fail('no index inserted')
            return
        total = 0
        for s in samples:
            total = total + (s['dur'] if trun.get('dur') else default_dur(tfh, fields))
        sizes = [hi - lo for typ, lo, hi in top if typ in (b'moof', b'mdat')]
        knows = trun.get('dur') or tfh & 8
        pre = C.u32(h, 52) + b'sidx\x01\x00\x00\x00'
        h.check(h.beq(got[:12], pre), 'index header')
        h.check(h.u(got[16:20]) == ts, 'index timescale')
        h.check(h.u(got[20:28]) == t, 'index earliest time')
        h.check(h.u(got[28:36]) == 0, 'index first offset')
        h.check(h.u(got[36:40]) == 1, 'one reference')
        h.check(h.u(got[40:44]) == sizes[0] + sizes[1], 'referenced size')
        if knows:
            h.check(h.u(got[44:48]) == total, 'referenced duration')
    h.check(h.beq(out, want), 'all other bytes as stored')


def default_dur(flags, fields):
    if not flags & 8:
        return 0
    return fields[1 if flags & 2 else 0]


def reach(tier):
    return ['grown', 'same size', 'sidx']
