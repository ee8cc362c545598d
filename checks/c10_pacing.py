"""C10: chunks of a low-latency segment are released when they are complete, not before and not later."""
import content as C
import session as S
import web

BOUNDS = {
    'quick': 'request times k/1024 s below 2^31 s, every segment number, start, start number, time offset (up to 2^31 s), '
             'segment duration 2 and 6 s, chunk durations 0.25, 0.5, 1, 1.5 and 2 s, availability offsets k/4 s up to 1 h or '
             'infinite, 1 to 3 chunks per segment, clock that advances by the time slept (and by an arbitrary symbolic '
             'delay of up to 100 s between chunks)',
    'thorough': 'as quick with up to 4 chunks and all option sets crossed',
}
OUTSIDE = 'clocks that run backwards, time spent in the server itself; chunk durations that are no multiple of 1/4 s'
ASSUMPTIONS = ['release times compared with a tolerance of 1/2 ms (binary rounding of the 0.1 s margin)']
TOL = 1 / 2048

SETS = [['ato'], ['atoinf'], ['start', 'ato'], ['snr', 'ato'], ['start', 'snr', 'ato'], ['start', 'stop', 'ato'],
        ['start', 'dur', 'ato'], ['start', 'timeoffset', 'ato'], ['startrel', 'ato'], ['tfdt32', 'ato'], ['cont', 'ato'],
        ['snrdef', 'ato'], [['modulo', 10], 'ato'], ['tsbd', 'ato', 'start']]


def cases(tier):
    out = []
    i = 0
    for st in SETS:
        nm = '+'.join(x if isinstance(x, str) else ''.join(map(str, x)) for x in st)
        for dur in ((2, 6) if tier != 'quick' else ((2, 6)[i % 2],)):
            for cd in (('0.25', '0.5', '1', '1.5', '2') if tier != 'quick' else (('0.5', '1', '0.25', '1.5', '2')[i % 5],)):
                for n in ((1, 2, 3, 4) if tier != 'quick' else (2, 3)):
                    out.append({'name': '%s-%d-cd%s-n%d' % (nm, dur, cd, n), 'opts': st, 'dur': dur, 'cd': cd, 'n': n})
        i += 1
    return out


def run(h, case):
    dur, loop, ts = case['dur'], 10, 90000
    cd = float(case['cd'])
    n = case['n']
    smp = [{'dur': int(cd * ts), 'size': 1, 'flags': 0x10000, 'cto': 0, 'data': bytes([65 + i])} for i in range(n)]
    seg = C.media_segment(h, samples=smp)
    C.setup(h, 'tp', dur, loop, media={'video': {'reps': ['V1'], 'timescale': ts}}, segment=lambda rep, nr, ext: seg,
            init=lambda rep: C.init_segment(h, timescale=ts))
    now = h.real('now', 0, 1 << 31, 1024)
    s = S.make(h, case['opts'], dur, now)
    nr = h.int('n', 0, 1 << 31)
    url = S.url(h, s, 'tp', 'V1', h.dec(nr) + '.m4s').replace('/dash/', '/dash/chunkdur_%s/' % case['cd'])
    delay = h.real('delay', 0, 100, 4) + 1 / 64
    w = web.Web(h, now)
    it = w.request(url)
    first = next(it, None)
    if w.status != '200 OK':
        h.reach('refused')
        h.check(w.status == '404 Not Found', 'refused')
        h.check(h.no(S.window(h, s, nr, dur, now)), 'refused outside the window only')
        return
    h.check(S.window(h, s, nr, dur, now), 'served inside the window only')
    start = s.ast + (nr - s.first) * dur
    k = 0
    chunk = first
    ready = now
    while chunk is not None:
        k += 1
        h.check(k <= n, 'number of chunks')
        t = w.clock.now
        due = start + k * cd
        h.check(t >= due - 0.1 - TOL, 'chunk not released more than 0.1 s before it is complete')
        h.check(h.any(t <= ready + TOL, t <= due - 0.1 + TOL), 'chunk not held back longer than needed')
        h.check(h.beq(chunk[-1:], smp[k - 1]['data']), 'chunks in order')
        h.reach('waited' if h.sat(t > ready + TOL) else 'at once')
        if k == 1:
            w.clock.now = w.clock.now + delay
        ready = w.clock.now
        chunk = next(it, None)
    h.check(k == n, 'every chunk')
    h.check('Content-Length' not in w.headers, 'no length announced for chunked delivery')


def reach(tier):
    return ['refused', 'waited', 'at once']
