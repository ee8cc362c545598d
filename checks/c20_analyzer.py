"""C20: the configuration written by the VoD analyzer describes the content, and the server reads it back as such."""
import contextlib
import io
import content as C
import manifest as MP

BOUNDS = {
    'quick': 'stored segments 1..4 per representation, first number 0, 1 or 30000, one or two representations per set, '
             'video and audio (or one of them); every first decode time < 2^30 and every segment duration < 2^30 ticks; sample durations in '
             'the fragment, as track default or as fragment default',
    'thorough': 'as quick with up to 6 segments and all combinations',
}
OUTSIDE = 'first or repeated segment numbers above 65535 and decode times above 2^32 (do not fit the binary table); ' \
          'subtitle sets (the analyzer writes no section for them)'
VOD = C.CONTENT + '/tp'


def cases(tier):
    out = []
    quick = tier == 'quick'
    i = 0
    for n in (1, 2, 3, 4) if quick else (1, 2, 3, 4, 5, 6):
        for sets in (('video', 'audio'), ('audio', 'video'), ('video',), ('audio',)):
            for form in ('trun', 'trex', 'tfhd'):
                i += 1
                if quick and (i + n) % 2 and n < 4:
                    continue
                out.append({'name': '%s-%d-%s' % ('+'.join(sets), n, form), 'n': n, 'sets': sets, 'form': form,
                            'first': (1, 0, 30000)[i % 3], 'dur': (2, 6, 3)[i % 3], 'two': i % 2, 'kind': 'ok'})
    for n in (2, 3):
        out.append({'name': 'drift-%d' % n, 'n': n, 'sets': ('video',), 'form': 'trun', 'first': 1, 'dur': 2, 'two': 0, 'kind': 'drift'})
    for sh in ('audio', 'video'):
        for k in (1, 2):
            out.append({'name': 'short-%s-%d' % (sh, k), 'n': 4, 'sets': ('video', 'audio'), 'form': 'trun', 'first': 1, 'dur': 2,
                        'two': 0, 'kind': 'ok', 'short': (sh, k)})
    for r in ('A2', 'V2', 'V1', 'A1'):
        out.append({'name': 'short-' + r, 'n': 3, 'sets': ('video', 'audio'), 'form': 'tfhd', 'first': 1, 'dur': 2,
                    'two': 1, 'kind': 'ok', 'shortrep': r})
    out.append({'name': 'gap', 'n': 4, 'sets': ('video', 'audio'), 'form': 'trun', 'first': 1, 'dur': 2, 'two': 0, 'kind': 'gap'})
    out.append({'name': 'scales', 'n': 2, 'sets': ('video',), 'form': 'trun', 'first': 1, 'dur': 2, 'two': 1, 'kind': 'scales'})
    return out


SCALE = {'video': 90000, 'audio': 48000}
REPS = {'video': ['V1', 'V2'], 'audio': ['A1', 'A2']}


def run(h, case):
    n, dur, first, form = case['n'], case['dur'], case['first'], case['form']
    sets = case['sets']
    durs, starts, count = {}, {}, {}
    for s in sets:
        ts = SCALE[s]
        count[s] = n - (case['short'][1] if case.get('short', ('', 0))[0] == s else 0)
        t = h.int('t0_' + s, 0, 1 << 30)
        lim = ts // 10
        if form == 'trun':
            if case['kind'] == 'drift':
                durs[s] = [h.int('d_%s%d' % (s, i), 1, 3 * dur * ts) for i in range(n)]
            else:
                durs[s] = [h.int('d_%s%d' % (s, i), 1, 1 << 30) for i in range(n)]
        else:                       # one duration for all
            d = h.int('d_' + s, 1, 1 << 30)
            durs[s] = [d] * n
        starts[s] = []
        acc = 0
        for i, d in enumerate(durs[s]):
            starts[s].append(t + acc)
            acc = acc + d
            if case['kind'] != 'drift' and i < count[s]:
                h.assume(h.all(acc - (i + 1) * dur * ts < lim, (i + 1) * dur * ts - acc < lim))
    reps = {s: REPS[s][:2 if case['two'] else 1] for s in sets}
    owner = {r: s for s in sets for r in reps[s]}
    text = MP.content(dur, sets=sets)
    for r in ('V2', 'A2'):
        if r not in owner:
            text = text.replace('         <Representation id="%s" bandwidth="48000"/>\n' % r, '')
    if 'A2' in owner:
        text = text.replace('<Representation id="A1" bandwidth="48000"/>', '<Representation id="A1" bandwidth="1"/><Representation id="A2" bandwidth="2"/>')
    text = text.replace('startNumber="1"', 'startNumber="%d"' % first)

    def segment(s, i):
        d = durs[s][i]
        kw = dict(tfdt=starts[s][i])
        if form == 'trun':      # two samples
            a = h.ite(d > 1, d // 2, 0)
            return C.media_segment(h, trun={'dur': 1, 'size': 1}, samples=[{'dur': a, 'size': 1, 'data': b'x'}, {'dur': d - a, 'size': 1, 'data': b'y'}], **kw)
        if form == 'tfhd':
            return C.media_segment(h, trun={'size': 1}, tf_flags=0x020008, tfhd_fields=(d,), samples=[{'size': 1, 'data': b'x'}], **kw)
        return C.media_segment(h, trun={'size': 1}, samples=[{'size': 1, 'data': b'x'}], **kw)
    h.file(VOD + '/Manifest.mpd', text)
    for r, s in owner.items():
        ts = SCALE[s] if not (case['kind'] == 'scales' and r == 'V2') else 1000
        h.file('%s/%s/init.mp4' % (VOD, r), C.init_segment(h, timescale=ts, track_id=1, handler={'video': b'vide', 'audio': b'soun'}[s],
                                                          trex=(1, durs[s][0] if form == 'trex' else 0, 0, 0)))
        for i in range(count[s] - (case.get('shortrep') == r)):
            if case['kind'] == 'gap' and s == 'audio' and i == 2:
                continue
            h.file('%s/%s/%d.m4s' % (VOD, r, first + i), segment(s, i))
    da = h.load('dashlivesim.vodanalyzer.dashanalyzer')
    cp = h.load('dashlivesim.dashlib.configprocessor')
    sl = h.load('dashlivesim.dashlib.segtimeline')
    with contextlib.redirect_stdout(io.StringIO()):
        a = h.attempt(da.DashAnalyzer, VOD + '/Manifest.mpd', 0)
        h.check(a[0] == 'ok', 'manifest read')
        a = a[1]
        a.base_name = C.CFG + '/tp'
        a.config_filename = C.CFG + '/tp.cfg'
        r = h.attempt(a.analyze)
    if case['kind'] in ('gap', 'scales'):
        h.check(r[0] == 'exc' and r[1] == 'DashAnalyzerError', 'unusable content is reported')
        h.reach('unusable')
        return
    if case['kind'] == 'drift':
        ts = SCALE['video']
        acc = 0
        bad = False
        for i, d in enumerate(durs['video']):
            acc = acc + d
            x = acc - (i + 1) * dur * ts
            bad = h.any(bad, x >= ts // 10, x <= -(ts // 10))
        if h.sat(bad):
            h.check(r[0] == 'exc' and r[1] == 'DashAnalyzerError', 'drifting segment durations are reported')
            h.reach('drift')
            return
    h.check(r[0] == 'ok', 'usable content is accepted')
    cfg = cp.VodConfig()
    t = h.attempt(cfg.read_config, C.CFG + '/tp.cfg')
    h.check(t[0] == 'ok', 'the written configuration can be read')
    h.check(cfg.first_segment_in_loop == first, 'first segment')
    loop = min(count.values()) - ('shortrep' in case)
    h.check(cfg.nr_segments_in_loop == loop, 'segments available in all sets')
    h.check(cfg.segment_duration_s == dur, 'segment duration')
    h.check(sorted(cfg.media_data) == sorted(sets), 'sets')

    class Cfg:
        vod_cfg_dir = C.CFG
        vod_wrap_seconds = loop * dur
        vod_nr_segments_in_loop = loop
        vod_first_segment_in_loop = first
    for s in sets:
        m = cfg.media_data[s]
        h.check(m['representations'] == reps[s], 'representations')
        h.check(m['timescale'] == SCALE[s], 'timescale')
        total = 0
        for i in range(loop):
            total = total + durs[s][i]
        h.check(m['total_duration'] == total, 'total duration of the loop')
        g = sl.SegmentTimeLineGenerator(m, Cfg)
        i = 0
        for e in g.segtimedata:
            h.check(e.repeats >= 0, 'repeat count')
            rep = h.val(e.repeats)
            h.check(i < loop, 'no segment outside the loop')
            h.check(e.start_nr == first + i and e.start_time == starts[s][i], 'number and start of a run')
            for k in range(rep + 1):
                h.check(i < loop and e.duration == durs[s][i], 'durations of a run')
                i += 1
            h.reach('run' if rep else 'single')
        h.check(i == loop, 'every segment of the loop is in the table')
    h.reach('described')


def reach(tier):
    return ['described', 'run', 'single', 'unusable', 'drift']
