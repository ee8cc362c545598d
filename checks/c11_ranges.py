"""C11: byte-range requests deliver exactly the requested bytes or the whole resource."""
import content as C
import web

BOUNDS = {
    'quick': 'resources of 1, 2, 7 and 40 symbolic bytes (thumbnails), init and media segments (open and suffix ranges); range header '
             'forms a-b, a-, -n, a-b,c-d, "-", "", "a", "a-b-c", non-numeric, signed, with and without unit; every a, b, '
             'n below 2^40; refused requests with a range header',
    'thorough': 'as quick with resources of 1..16, 40 and 100 bytes',
}
OUTSIDE = 'range units other than bytes, the If-Range header (not supported by the server), chunked replies'
ASSUMPTIONS = ['a server may ignore a range header it cannot satisfy and send the whole resource (RFC 7233 3.1)']

FORMS = ['ab', 'a', 'n', 'multi', 'dash', 'empty', 'nodash', 'three', 'alpha', 'alpha2', 'neg']


def cases(tier):
    out = []
    sizes = (1, 2, 7, 40) if tier == 'quick' else list(range(1, 17)) + [40, 100]
    for f in FORMS:
        for n in sizes:
            if n > 7 and f in ('ab',):
                n = 12 if tier == 'quick' else min(n, 40)
            out.append({'name': '%s-%d' % (f, n), 'form': f, 'n': n, 'what': 'jpg', 'unit': n != 2})
        for w in ('mp4', 'm4s', 'late', 'mpd'):
            if f == 'ab' and w != 'late':
                continue
            if w != 'mpd' or f in ('alpha', 'multi', 'dash'):
                out.append({'name': '%s-%s' % (f, w), 'form': f, 'n': 0, 'what': w, 'unit': True})
    return out


def run(h, case):
    w = case['what']
    data = h.bytes('d', case['n'])
    media = {'video': {'reps': ['V1'], 'timescale': 90000}, 'image': {'reps': ['thumbs'], 'timescale': 1}}

    def segment(rep, n, ext):
        if ext == '.jpg':
            return data
        return C.media_segment(h, samples=[{'dur': 9, 'size': 3, 'flags': 0, 'cto': 0, 'data': b'abc'}], mfhd_seq=0)
    import manifest as M
    C.setup(h, 'tp', 2, 10, media=media, segment=segment, init=lambda rep: C.init_segment(h),
            mpd={'M.mpd': M.content(2, sets=('video',))})
    url = {'jpg': '/dash/tp/thumbs/0.jpg', 'mp4': '/dash/tp/V1/init.mp4', 'm4s': '/dash/tp/V1/0.m4s',
           'late': '/dash/tp/V1/100.m4s', 'mpd': '/dash/tp/M.mpd'}[w]
    wb = web.Web(h, 4)
    big = 1 << 40
    a = b = c = d = None
    f = case['form']
    if f in ('ab', 'multi', 'three', 'alpha2'):
        a, b = h.int('a', 0, big), h.int('b', 0, big)
    elif f in ('a', 'nodash'):
        a = h.int('a', 0, big)
    elif f in ('n', 'neg'):
        b = h.int('b', 0, big)
    text = {'ab': lambda: h.dec(a) + '-' + h.dec(b), 'a': lambda: h.dec(a) + '-', 'n': lambda: '-' + h.dec(b),
            'multi': lambda: h.dec(a) + '-' + h.dec(b) + ',0-0', 'dash': lambda: '-', 'empty': lambda: '',
            'nodash': lambda: h.dec(a), 'three': lambda: h.dec(a) + '-' + h.dec(b) + '-5', 'alpha': lambda: 'x-y',
            'alpha2': lambda: h.dec(a) + '-' + h.dec(b) + 'z', 'neg': lambda: '--' + h.dec(b)}[f]()
    status0, full = wb.get(url)
    status, body = wb.get(url, rng=('bytes=' if case['unit'] else '') + text)
    h.note('reply', (status, body))
    h.check(wb.calls == 1, 'one reply')
    h.check(h.num(wb.headers['Content-Length']) == h.len(body), 'announced length')
    n = len(full)
    if w == 'late':
        h.check(status == 404 and 'Content-Range' not in wb.headers, 'refusals are not partial')
        h.check(h.beq(body, full), 'refusal text')
        return
    h.check(status0 == 200, 'served')
    valid = {'ab': lambda: h.all(a <= b, a < n), 'a': lambda: a < n, 'n': lambda: b > 0}.get(f, lambda: False)()
    if h.sat(valid):
        h.check(status == 206, 'partial content')
        if f == 'n':
            lo, hi = h.ite(b > n, 0, n - b), n - 1
        elif f == 'a':
            lo, hi = a, n - 1
        else:
            lo, hi = a, h.ite(b > n - 1, n - 1, b)
        cr = wb.headers['Content-Range']
        lo, hi = h.val(lo), h.val(hi)
        h.check(h.eq(cr, 'bytes %d-%d/%d' % (lo, hi, n)), 'announced range')
        h.check(h.beq(body, full[lo:hi + 1]), 'exactly the requested bytes')
        h.reach('partial')
    else:
        h.check(status in (200, 416), 'not partial')
        h.check('Content-Range' not in wb.headers or status == 416, 'no range announced')
        if status == 200:
            h.check(h.beq(body, full), 'whole resource')
        h.reach('whole')


def reach(tier):
    return ['partial', 'whole']
