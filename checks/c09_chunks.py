"""C09: chunked delivery carries exactly the samples of the segment."""
import content as C

BOUNDS = {
    'quick': '1 to 4 samples of 0 to 3 symbolic bytes; sample durations, sizes, flags and composition offsets (32 bit, '
             'signed with table version 1) from the sample records, the fragment header or the track defaults in the '
             'listed layouts (with 3 or more samples, flags and composition offset symbolic in one of them); first-sample flags; decode time 32 and 64 bit with growth; chunk durations 0.04, 0.2, 0.5, 1 and '
             '1.5 s; sample durations up to the chunk duration; segment numbers below 2^31',
    'thorough': 'as quick with up to 6 samples and all layouts crossed',
}
OUTSIDE = 'samples longer than the chunk duration; several fragments or tracks per segment; index, event and segment type ' \
          'boxes, which chunks do not carry'
ASSUMPTIONS = ['a sample is a sync sample iff the non-sync bit (0x10000) of its flags is clear (ISO 14496-12 8.8.3.1)']

# which of duration, size, flags come from: r record, h fragment header, x track extends
LAY = [('r', 'r', 'r', 1, 0), ('r', 'r', 'x', 1, 0), ('h', 'r', 'r', 0, 0), ('x', 'r', 'h', 1, 1), ('h', 'h', 'h', 0, 1),
       ('x', 'x', 'x', 1, 1), ('r', 'h', 'h', 1, 0), ('h', 'r', 'x', 1, 1), ('r', 'r', 'r', 0, 1), ('r', 'x', 'r', 1, 0)]


def cases(tier):
    out = []
    i = 0
    for li in range(len(LAY)):
        for v in (0, 1):
            for cto in (0, 1, 2):
                for n in (((1, 2, 3, 4)[i % 4],) if tier == 'quick' else (1, 2, 3, 4, 5, 6)):
                    out.append({'name': 'lay%d-v%d-cto%d-n%d' % (li, v, cto, n), 'lay': li, 'v': v, 'cto': cto, 'n': n,
                                'cd': ('1', '0.5', '0.04', '1.5', '0.2')[i % 5], 'sidx': i % 4 == 3, 'pad': i % 2})
                i += 1
    return out


def run(h, case):
    ds, ss, fs, has_off, first = LAY[case['lay']]
    n = case['n']
    ts = 90000
    cd = {'1': ts, '0.5': ts // 2, '0.04': 3600, '1.5': ts * 3 // 2, '0.2': ts // 5}[case['cd']]
    trun = {'data_offset': 1}
    if ds == 'r':
        trun['dur'] = 1
    if ss == 'r':
        trun['size'] = 1
    if fs == 'r':
        trun['flags'] = 1
    if first and fs != 'r':
        trun['first_flags'] = 1
    if case['cto']:
        trun['cto'] = 1
    U = (1 << 32) - 1
    ddur, dflags = h.int('ddur', 1, cd), h.int('dflags', 0, U)
    dsize = 2
    other_dur, other_size, other_flags = h.int('odur', 1, cd), 3, h.int('oflags', 0, U)
    ff = h.int('ff', 0, U)
    want = []
    samples = []
    for i in range(n):
        size = (i + case['lay']) % 4 if ss == 'r' else dsize
        free = n < 3 or i == (case['lay'] + case['v']) % n
        d = {'dur': h.int('d%d' % i, 1, cd), 'size': size, 'data': h.bytes('x%d' % i, size)}
        d['flags'] = h.int('f%d' % i, 0, U) if free else (0x01010000, 0x02000000, 0x00010000)[(i + n) % 3]
        d['cto'] = h.int('c%d' % i, 0, (1 << 31) - 1 if case['cto'] == 1 else U) if free else \
            (0, 5, U - 2 if case['cto'] == 2 else 7)[(i + case['lay']) % 3]
        samples.append(d)
        w = {'dur': d['dur'] if ds == 'r' else ddur, 'data': d['data'], 'flags': d['flags'] if fs == 'r' else dflags}
        if i == 0 and trun.get('first_flags'):
            w['flags'] = ff
        c = 0
        if case['cto']:
            c = d['cto']
            if case['cto'] == 2:
                c = h.ite(c >= 1 << 31, c - (1 << 32), c)
        w['cto'] = c
        want.append(w)
    tf, fields = 0x020000, []
    if case['pad']:
        tf |= 2
        fields.append(h.int('desc', 1, 100))
    if ds == 'h':
        tf |= 8
        fields.append(ddur)
    if ss == 'h':
        tf |= 16
        fields.append(dsize)
    if fs == 'h':
        tf |= 32
        fields.append(dflags)
    trex = [1, ddur if ds == 'x' else other_dur, dsize if ss == 'x' else other_size, dflags if fs == 'x' else other_flags]
    stored = h.int('tfdt', 0, U if case['v'] == 0 else 1 << 62)
    track = h.int('track', 1, U)
    kw = dict(tfdt=stored, tfdt_v=case['v'], samples=samples, tf_flags=tf, tfhd_fields=fields, trun=trun,
              first_flags=ff, trun_v=1 if case['cto'] == 2 else 0, track_id=track)
    if case['pad']:
        body = h.bytes('lead', 2)
        for s in samples:
            body = body + s['data']
        seg = C.media_segment(h, mdat=body, data_offset=0, **kw)
        r = C.find(h, seg, b'moof')
        seg = C.media_segment(h, mdat=body, data_offset=r[1] - r[0] + 10, **kw)
    else:
        seg = C.media_segment(h, **kw)
    dur, loop = 2, 10
    C.setup(h, 'tp', dur, loop, media={'video': {'reps': ['V1'], 'timescale': ts}}, segment=lambda rep, nr, ext: seg,
            init=lambda rep: C.init_segment(h, timescale=ts, track_id=track, trex=trex))
    nr = h.int('n', 0, (1 << 31) - 1)
    opts = ['chunkdur_' + case['cd'], 'ato_inf'] + (['sidx_1'] if case['sidx'] else [])
    r = C.get_media(h, '/'.join(['', 'dash'] + opts + ['tp', 'V1', h.dec(nr) + '.m4s']), 0, True)
    h.check(not C.refused(h, r), 'served')
    h.check(type(r).__name__ == 'ChunkedSegment', 'chunked')
    t = stored + nr // loop * loop * dur * ts
    got = []
    total = 0
    chunks = list(r.chunks)
    for k, ch in enumerate(chunks):
        h.note('chunk%d' % k, ch)
        top = C.boxes(h, ch)
        h.check([x[0] for x in top] == [b'moof', b'mdat'], 'a chunk is one fragment')
        h.check(C.seqno_of(h, ch) == nr, 'sequence number')
        a, b = C.find(h, ch, b'moof', b'traf')
        parts = {x[0]: ch[x[1]:x[2]] for x in C.boxes(h, ch, a + 8, b)}
        th = parts[b'tfhd']
        h.check(h.u(th[12:16]) == track, 'track of the segment')
        h.check(C.tfdt_of(h, ch) == t, 'decode time of the chunk continues the previous one')
        fl = h.val(h.u(th[9:12]))
        h.check(fl & 0x20001 == 0x20000, 'offsets relative to the fragment')
        tr = parts[b'trun']
        rf = h.val(h.u(tr[9:12]))
        ver = h.val(h.u(tr[8:9]))
        cnt = h.val(h.u(tr[12:16]))
        h.check(cnt > 0, 'no empty chunk')
        pos = 16
        off = 0
        if rf & 1:
            off = h.val(h.u(tr[16:20]))
            pos = 20
        h.check(rf & 0x700 == 0x700 and not rf & 4, 'sample records complete')
        dp = top[0][1] + off
        start = total
        for _ in range(cnt):
            d, sz, f = h.u(tr[pos:pos + 4]), h.val(h.u(tr[pos + 4:pos + 8])), h.u(tr[pos + 8:pos + 12])
            pos += 12
            c = 0
            if rf & 0x800:
                c = h.u(tr[pos:pos + 4])
                if ver == 1:
                    c = h.ite(c >= 1 << 31, c - (1 << 32), c)
                pos += 4
            h.check(dp >= top[1][1] + 8 and dp + sz <= top[1][2], 'sample within the media data')
            got.append({'dur': d, 'data': ch[dp:dp + sz], 'flags': f, 'cto': c})
            dp += sz
            t = t + d
            last = total
            total = total + d
        h.check(pos == len(tr), 'sample table size')
        if k < len(chunks) - 1:
            h.check(h.all(total >= (k + 1) * cd, last < (k + 1) * cd), 'chunk holds its chunk duration and no further sample')
        else:
            h.check(last < (k + 1) * cd, 'last chunk within its chunk duration')
    h.check(len(got) == len(want), 'every sample once')
    for g, w in zip(got, want):
        h.check(h.beq(g['data'], w['data']), 'sample data in order')
        h.check(g['dur'] == w['dur'], 'sample duration')
        h.check(g['cto'] == w['cto'], 'composition offset')
        h.check(h.iff(w['flags'] // 0x10000 % 2 == 0, g['flags'] // 0x10000 % 2 == 0), 'sync sample marking')
    h.reach('one chunk' if len(chunks) == 1 else 'several chunks')


def reach(tier):
    return ['one chunk', 'several chunks']
