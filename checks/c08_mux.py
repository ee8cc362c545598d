"""C08: multiplexed media segments carry the samples of both tracks, each found through its own track fragment."""
import content as C

BOUNDS = {
    'quick': 'two tracks with one fragment each, 0 to 3 samples of 1 to 4 symbolic bytes per track; every mix of sample '
             'record fields, tfdt version (with and without growth to 64 bit), leading unused media bytes, extra boxes in '
             'the fragments, segment type box present or not, duration limited session with last-segment brand; decode '
             'times, sequence numbers, sizes, flags, offsets and payload bytes symbolic',
    'thorough': 'as quick with up to 6 samples and all layouts crossed',
}
OUTSIDE = 'stored fragments without data offset; auxiliary information offsets (saio) and index/event boxes in multiplexed ' \
          'segments'

TR = [{'data_offset': 1, 'dur': 1, 'size': 1, 'flags': 1, 'cto': 1}, {'data_offset': 1, 'size': 1},
      {'data_offset': 1, 'first_flags': 1, 'dur': 1, 'size': 1}, {'data_offset': 1, 'size': 1, 'cto': 1}]


def cases(tier):
    out = []
    i = 0
    ns = ((1, 2), (2, 1), (0, 3), (3, 0), (1, 1)) if tier == 'quick' else \
        [(a, b) for a in (0, 1, 2, 6) for b in (0, 1, 2, 5)]
    for va in (0, 1):
        for vb in (0, 1):
            for ta in range(len(TR)):
                for tb in range(len(TR)):
                    i += 1
                    for n in ((ns[i % len(ns)],) if tier == 'quick' else ns):
                        out.append({'name': 'v%d%d-t%d%d-n%d%d-%d' % (va, vb, ta, tb, n[0], n[1], i), 'v': (va, vb),
                                    't': (ta, tb), 'n': n, 'styp': (i % 3) % 3, 'x': i % 4, 'pad': (i % 2, i // 2 % 3),
                                    'last': i % 5 == 0})
    return out


def stored(h, p, v, trun, n, styp, ex, pad, track):
    samples = []
    for i in range(n):
        size = 1 + (i + len(p)) % 4
        samples.append({'dur': h.int('%sd%d' % (p, i), 0, 1 << 20), 'size': size, 'flags': h.int('%sf%d' % (p, i), 0, (1 << 32) - 1),
                        'cto': h.int('%sc%d' % (p, i), 0, (1 << 32) - 1), 'data': h.bytes('%sx%d' % (p, i), size)})
    body = h.bytes(p + 'pad', pad)
    for s in samples:
        body = body + s['data']
    t = h.int(p + 'tfdt', 0, (1 << 32) - 1 if v == 0 else 1 << 62)
    extra = [C.box(h, b'senc', h.bytes(p + 'senc', 5))] if ex else []
    kw = dict(tfdt=t, tfdt_v=v, samples=samples, trun=trun, first_flags=h.int(p + 'ff', 0, (1 << 32) - 1),
              mfhd_seq=h.int(p + 'seq', 0, (1 << 32) - 1), mdat=body, track_id=track, extra_traf=extra,
              styp=styp)
    d = C.media_segment(h, data_offset=0, **kw)
    moof = C.find(h, d, b'moof')
    d = C.media_segment(h, data_offset=moof[1] - moof[0] + 8 + pad, **kw)
    return d, samples, t


def run(h, case):
    styp = {0: (b'msdh', b'msix'), 1: (b'dash', b'lmsg'), 2: None}[case['styp']]
    dur, loop = 2, 10
    ida, idb = h.int('ida', 1, (1 << 32) - 1), h.int('idb', 1, (1 << 32) - 1)
    da, sa, ta = stored(h, 'a', case['v'][0], TR[case['t'][0]], case['n'][0], styp, case['x'] & 1, case['pad'][0], ida)
    db, sb, tb = stored(h, 'bb', case['v'][1], TR[case['t'][1]], case['n'][1], (b'zzzz',), case['x'] & 2, case['pad'][1], idb)
    media = {'video': {'reps': ['V1'], 'timescale': 90000}, 'audio': {'reps': ['A1'], 'timescale': 48000}}
    sub = ['sub'] if case['x'] == 1 else []
    C.setup(h, 'tp', dur, loop, media=media, sub=''.join(sub), segment=lambda rep, n, ext: da if rep == 'A1' else db)
    n = h.int('n', 0, (1 << 31) - 1)
    if case['last']:
        k = h.int('k', 1, 1 << 20)
        url = ['', 'dash', 'start_0', 'dur_' + h.dec(k * dur), 'ato_inf', 'tp'] + sub + ['A1__V1', h.dec(n) + '.m4s']
        h.assume(n < k)
        lmsg = h.sat(n == k - 1)
    else:
        url = ['', 'dash', 'ato_inf', 'tp'] + sub + ['A1__V1', h.dec(n) + '.m4s']
        lmsg = False
    out = C.get_media(h, '/'.join(url), 0)
    h.check(not C.refused(h, out), 'served')
    h.note('out', out)
    top = C.boxes(h, out)
    names = [x[0] for x in top]
    h.check(names == ([b'styp'] if styp is not None else []) + [b'moof', b'mdat'], 'one fragment with one media data box')
    if styp is not None:
        want = [x for x in styp if x != b'lmsg'] + ([b'lmsg'] if lmsg else [])
        h.check(C.brands_of(h, out) == want, 'brands of the first track')
    h.check(C.seqno_of(h, out) == n, 'sequence number')
    lo, hi = C.find(h, out, b'moof')
    kids = C.boxes(h, out, lo + 8, hi)
    h.check([x[0] for x in kids] == [b'mfhd', b'traf', b'traf'], 'two track fragments')
    mlo, mhi = top[-1][1] + 8, top[-1][2]
    used = []
    for (typ, a, b), v, samples, t0, ts, stored_bytes, tid in ((kids[1], case['v'][0], sa, ta, 48000, da, ida),
                                                               (kids[2], case['v'][1], sb, tb, 90000, db, idb)):
        parts = {x[0]: x for x in C.boxes(h, out, a + 8, b)}
        td = out[parts[b'tfdt'][1]:parts[b'tfdt'][2]]
        ver = h.val(h.u(td[8:9]))
        got = h.u(td[12:16]) if ver == 0 else h.u(td[12:20])
        h.check(got == t0 + n // loop * loop * dur * ts, 'decode time of the track')
        if ver != v:
            h.reach('grown')
        src = {x[0]: x for x in C.boxes(h, stored_bytes, *[f(C.find(h, stored_bytes, b'moof', b'traf'))
                                                           for f in (lambda r: r[0] + 8, lambda r: r[1])])}
        h.check(sorted(parts) == sorted(src), 'boxes of the track fragment')
        for k in src:
            if k in (b'tfdt', b'trun'):
                continue
            h.check(h.beq(out[parts[k][1]:parts[k][2]], stored_bytes[src[k][1]:src[k][2]]), 'box %s as stored' % k.decode())
        tr = out[parts[b'trun'][1]:parts[b'trun'][2]]
        so = stored_bytes[src[b'trun'][1]:src[b'trun'][2]]
        h.check(h.beq(tr[:16], so[:16]), 'sample table header as stored')
        h.check(h.beq(tr[20:], so[20:]), 'sample table as stored')
        off = h.val(h.u(tr[16:20]))
        pos = lo + off
        size = sum(s['size'] for s in samples)
        h.check(mlo <= pos and pos + size <= mhi, 'data offset points into the media data')
        used.append((pos, pos + size))
        for s in samples:
            h.check(h.beq(out[pos:pos + s['size']], s['data']), 'samples found through the data offset')
            pos += s['size']
    h.check(used[0][1] <= used[1][0] or used[1][1] <= used[0][0], 'tracks do not share media data')
    h.reach('last' if lmsg else 'other')


def reach(tier):
    return ['grown', 'last', 'other']
