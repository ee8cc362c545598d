"""C24: the caption inserter puts every caption into the sample it belongs to, once, and leaves everything else as it is."""
import contextlib
import io
import content as C
import manifest as MP

BOUNDS = {
    'quick': 'two segments of one to three samples of one to three NAL units; every NAL unit type and payload, sample duration '
             'below 2^17 ticks, flags, composition offset, first decode time below 2^30; one to three captions at any minute and second '
             'of the first ten minutes (frame numbers 0, 12, 29) of 1, 3, 31 and 33 words; both fields; durations in the fragment, as fragment or track '
             'default; with and without segment index',
    'thorough': 'as quick with all layouts crossed',
}
OUTSIDE = 'drop-frame times (with ;); segments with several fragments; samples without explicit sizes; NAL unit type of the inserted ' \
          'message beyond being SEI (its reference indication is not judged)'
VOD = C.CONTENT + '/tp'
OUT = '/vfs/out'
TS = 90000
WORDS = {1: ['9420'], 3: ['94ae', '9140', 'E56E'], 31: ['%04x' % (i * 2081 + 5) for i in range(31)], 33: ['%04x' % (i * 1979 + 7) for i in range(33)]}
# NAL units of the samples of a segment: payload sizes
SHAPES = [[[1], [2, 1], [1]], [[2, 1, 1]], [[1, 2], [1]], [[1, 1], [1, 2, 1]]]
FORMS = [dict(trun={'data_offset': 1, 'dur': 1, 'size': 1, 'flags': 1, 'cto': 1}), dict(trun={'data_offset': 1, 'first_flags': 1, 'dur': 1, 'size': 1}),
         dict(trun={'data_offset': 1, 'size': 1}, tf=0x020008), dict(trun={'data_offset': 1, 'first_flags': 1, 'size': 1, 'cto': 1}, tf=0x02002a),
         dict(trun={'data_offset': 1, 'size': 1, 'flags': 1}, trex=True)]
CAPS = [[(1, 0)], [(3, 12), (1, 0)], [(31, 29)], [(33, 0), (3, 12)]]


def cases(tier):
    out = []
    quick = tier == 'quick'
    i = 0
    for f in range(len(FORMS)):
        for s in range(len(SHAPES)):
            for c in range(len(CAPS)):
                i += 1
                if quick and (f + s + c) % 4 != 0:
                    continue
                out.append({'name': 'f%d-s%d-c%d' % (f, s, c), 'form': f, 'shape': s, 'caps': c, 'sidx': i % 3, 'field': 1 + i % 2, 'v': i // 2 % 2})
    out.append({'name': 'gap', 'form': 0, 'shape': 1, 'caps': 0, 'sidx': 0, 'field': 1, 'v': 0, 'gap': True})
    return out


def message(words, field):
    "SEI NAL unit with the words (ANSI/SCTE 128), first byte left out"
    t = [4, 11 + 3 * len(words), 0xb5, 0, 0x31, 0x47, 0x41, 0x39, 0x34, 3, 0xc0 + len(words), 0xff]
    for w in words:
        v = int(w, 16)
        t += [0xfb + field, v >> 8, v & 255]
    return bytes(t + [0xff, 0x80])


def run(h, case):
    form, shape = FORMS[case['form']], SHAPES[case['shape']]
    trun = form['trun']
    segs = []
    t = h.int('tfdt', 0, (1 << 30) - 1)
    tf = form.get('tf', 0x020000)
    common = None if trun.get('dur') else h.int('sdur', 1, (1 << 17) - 1)
    for k in range(2):
        g = {'start': t, 'samples': []}
        for i, nals in enumerate(shape if k == 0 else [[1]]):
            x = '%d_%d' % (k, i)
            s = {'dur': h.int('dur' + x, 1, (1 << 17) - 1) if common is None else common, 'flags': h.int('fl' + x, 0, (1 << 32) - 1),
                 'cto': h.int('cto' + x, 0, (1 << 32) - 1), 'start': t, 'nals': []}
            data = b''
            for j, n in enumerate(nals):
                ty = h.int('type%s_%d' % (x, j), 1, 31)
                ref = h.int('ref%s_%d' % (x, j), 0, 3)
                nal = C.u32(h, n) + C.u8(h, 32 * ref + ty) + h.bytes('p%s_%d' % (x, j), n - 1)
                s['nals'].append((ty, nal))
                data = data + nal
            s['data'] = data
            s['size'] = len(data)
            t = t + s['dur']
            g['samples'].append(s)
        g['end'] = t
        fields = {0x020000: [], 0x020008: [common], 0x02002a: [1, common, 77]}[tf]
        size = h.int('isize%d' % k, 0, 1 << 30)
        sidx = None
        if case['sidx']:
            v = case['sidx'] - 1
            tm = C.u32(h, 5) + C.u32(h, 0) if v == 0 else C.u64(h, 5) + C.u64(h, 0)
            sidx = C.fullbox(h, b'sidx', v, 0, C.u32(h, 1), C.u32(h, TS), tm, C.u32(h, 1), C.u32(h, size), C.u32(h, 7), C.u32(h, 0x90000000))
        g['isize'] = size
        g['data'] = C.media_segment(h, tfdt=g['start'], tfdt_v=case['v'], tf_flags=tf, tfhd_fields=fields, trun=trun, samples=g['samples'],
                                    first_flags=h.int('ff%d' % k, 0, (1 << 32) - 1), sidx=sidx)
        segs.append(g)
        if not (case.get('gap') and k == 1):
            h.file('%s/V1/%d.m4s' % (VOD, 1 + k), g['data'])
    if case.get('gap'):
        h.file('%s/V1/3.m4s' % VOD, segs[1]['data'])
    text = MP.content(2, sets=('video',)).replace('         <Representation id="V2" bandwidth="48000"/>\n', '')
    h.file(VOD + '/Manifest.mpd', text)
    h.file(VOD + '/V1/init.mp4', C.init_segment(h, timescale=TS, trex=(1, common if form.get('trex') else 0, 0, 0)))
    scc = 'Scenarist_SCC V1.0\n\n'
    caps = []
    for i, (n, fr) in enumerate(CAPS[case['caps']]):
        mi, s1, s2 = h.int('min%d' % i, 0, 9), h.int('ten%d' % i, 0, 5), h.int('sec%d' % i, 0, 9)
        scc = scc + '00:0' + h.dec(mi) + ':' + h.dec(s1) + h.dec(s2) + ':%02d ' % fr + ' '.join(WORDS[n]) + '\n\n'
        ms = (60 * mi + 10 * s1 + s2) * 1000 + fr * 100000 // 2997
        for a in range(0, n, 31):
            caps.append((ms, WORDS[n][a:a + 31]))
    h.file('/vfs/c.scc', scc)
    ci = h.load('dashlivesim.cc_inserter.cc_inserter')
    with contextlib.redirect_stdout(io.StringIO()):
        a = h.attempt(ci.CCInserter, VOD + '/Manifest.mpd', '/vfs/c.scc', OUT, -1, case['field'], 0)
        h.check(a[0] == 'ok', 'manifest read')
        r = h.attempt(a[1].analyze)
    if case.get('gap'):
        h.check(r[0] == 'exc' and r[1] == 'CCInserterError', 'a missing segment is reported')
        h.reach('gap')
        return
    h.check(r[0] == 'ok', 'captions inserted')
    for k, g in enumerate(segs):
        old = g['data']
        ins = []        # per sample: (position of the insertion in the sample, inserted messages)
        for s in g['samples']:
            due = [w for ms, w in caps if h.sat(h.all(s['start'] * 1000 <= ms * TS, ms * TS < (s['start'] + s['dur']) * 1000))]
            pos = 0
            if due:
                for ty, nal in s['nals']:
                    if h.sat(ty < 6):
                        break
                    pos += len(nal)
            ins.append((pos, due))
        new = h.files.lookup('%s/%d.m4s' % (OUT, k + 1))
        if not any(d for p, d in ins):
            h.check(new is None or h.len(new) == len(old) and h.beq(new, old), 'segments without captions are not touched')
            h.reach('untouched')
            continue
        h.check(new is not None, 'segment with captions written')
        if new is None:
            return
        added = sum(19 + 3 * len(w) for p, d in ins for w in d)
        h.check(h.len(new) == len(old) + added, 'size of the new segment')
        # everything before the sample data
        m0 = C.find(h, old, b'mdat')[0]
        m1 = C.find(h, new, b'mdat')[0]
        h.check(m0 == m1, 'boxes before the media data keep their size')
        sizes = []
        tr = C.find(h, old, b'moof', b'traf', b'trun')
        q = tr[0] + 20 + 4 * bool(trun.get('first_flags')) 
        for s, (p, d) in zip(g['samples'], ins):
            q += 4 * bool(trun.get('dur'))
            sizes.append((q, len(s['data']) + sum(19 + 3 * len(w) for w in d)))
            q += 4 * (1 + bool(trun.get('flags')) + bool(trun.get('cto')))
        h.check(q == tr[1], 'sample table')
        if case['sidx']:
            x = C.find(h, old, b'sidx')[0]
            sizes.append((x + (32, 40)[case['sidx'] - 1], g['isize'] + added))
        sizes.append((m0, h.len(new) - m0))
        pos = 0
        for q, v in sorted(sizes, key=lambda z: z[0]):
            h.check(h.beq(new[pos:q], old[pos:q]), 'all other fields are unchanged')
            h.check(h.u(new[q:q + 4]) == v, 'sample, index and box sizes follow the insertion')
            pos = q + 4
        base = m0 + 8
        h.check(h.beq(new[pos:base], old[pos:base]), 'media data box')
        pos = base
        for s, (p, d) in zip(g['samples'], ins):
            h.check(h.beq(new[pos:pos + p], s['data'][:p]), 'NAL units before the picture')
            pos += p
            for w in d:
                msg = message(w, case['field'])
                h.check(h.u(new[pos:pos + 4]) == len(msg) + 1, 'length of the caption message')
                ty = h.u(new[pos + 4:pos + 5])
                h.check(h.all(ty % 32 == 6, ty < 128), 'caption message is an SEI NAL unit')
                h.check(h.beq(new[pos + 5:pos + 5 + len(msg)], msg), 'caption message')
                pos += 5 + len(msg)
                h.reach('caption')
            if len(d) > 1:
                h.reach('several in a sample')
            if p:
                h.reach('after other units')
            rest = s['data'][p:]
            h.check(h.beq(new[pos:pos + len(rest)], rest), 'the picture follows unchanged')
            pos += len(rest)
        h.check(pos == h.len(new), 'nothing follows')


def reach(tier):
    return ['caption', 'several in a sample', 'after other units', 'untouched', 'gap']
