"""C26: a request reads only inside the content it names, and leaves nothing behind."""
import posixpath

import content as C
import manifest as M
import session as S
import web

PARTS = ['V1', '..', '', '.', 'secret', 'A1__V1', '%2e%2e', '..%2fsecret']
BOUNDS = {
    'quick': 'paths with up to three directory parts between the content name and the file name, each part any of %s; content names tp, '
             'tp2 or made of dots or nothing; manifest, init, media segment, thumbnail, xlink period and nameless files; every segment '
             'number below 2^31 and request time k/4 s below 2^31 s; with and without options in front; every file name outside the '
             'content directories exists' % ', '.join(repr(p) for p in PARTS),
    'thorough': 'as quick with up to four directory parts',
}
OUTSIDE = 'symbolic links; content configurations that themselves name directories elsewhere; the access rules of the web server in front'
ASSUMPTIONS = ['the file system resolves names as POSIX does']

WHAT = ['mpd', 'init', 'm4s', 'jpg', 'period', 'none']


def cases(tier):
    out = []
    for what in WHAT:
        for depth in range(4 if tier == 'quick' else 5):
            for opts in ([], ['start'], ['atoinf']) if depth < 2 else ([],):
                for k in range(len(PARTS)) if depth > 2 else (None,):
                    out.append({'name': '%s-%d-%s-%s' % (what, depth, '+'.join(opts), k), 'what': what, 'depth': depth, 'opts': opts,
                                'contents': ['tp'], 'first': k})
        for opts in ([], [['tsbd_10']]):
            out.append({'name': '%s-names-%s' % (what, len(opts)), 'what': what, 'depth': 1, 'opts': opts, 'contents': ['tp2', '..', '.', '', '%2e%2e']})
    return out


def inside(root, path):
    return path.startswith(root + '/')


def run(h, case):
    seg = C.media_segment(h, samples=[{'dur': 90000, 'size': 1, 'flags': 0, 'cto': 0, 'data': b'x'}])
    media = {'audio': {'reps': ['A1'], 'timescale': 48000}, 'video': {'reps': ['V1'], 'timescale': 90000},
             'image': {'reps': ['thumbs'], 'timescale': 1}}
    C.setup(h, 'tp', 2, 600, media=media, mpd={'Manifest.mpd': M.content(2)})
    init = C.init_segment(h)

    def everywhere(path):
        if path.endswith('.cfg'):
            return C.config_text(h, 2, 600, 1, 300, media, '1.0')
        if path.endswith('.mpd'):
            return M.content(2)
        if path.endswith('init.mp4'):
            return init
        if path.endswith('.m4s') or path.endswith('.jpg'):
            return seg
        return None
    h.files.provide(everywhere)
    h.files.roots = ('/secret', '/V1', '/A1', '/thumbs', '/tp', '/cfg', '/content', '/init', '/Manifest', '/%', '/..', '/.', '/tp')
    now = h.real('now', 0, 1 << 31, 4)
    n = h.int('n', 0, 1 << 31)
    s = S.make(h, case['opts'], 2, now)
    name = h.choice('content', case['contents'])
    known = ['thumbs'] + PARTS[1:] if case['what'] == 'jpg' else PARTS
    parts = [h.choice('part%d' % i, known) if i or case.get('first') is None else known[case['first']] for i in range(case['depth'])]
    if case['what'] in ('m4s', 'init', 'jpg') and case['depth'] > 1:
        parts[-1] = {'m4s': 'V1', 'init': h.choice('rep', ['V1', 'A1__V1']), 'jpg': 'thumbs'}[case['what']]
    leaf = {'mpd': 'Manifest.mpd', 'init': 'init.mp4', 'm4s': h.dec(n) + '.m4s', 'jpg': h.dec(n) + '.jpg',
            'period': 'Manifest.mpd+p0.period', 'none': '..'}[case['what']]
    url = '/'.join(['', 'dash'] + s.parts + [name] + parts + [leaf])
    w = web.Web(h, now)
    r = h.attempt(w.get, url)
    h.check(r[0] == 'ok', 'no exception reaches the web server')
    status, body = r[1]
    real = [posixpath.normpath(p) for p in h.files.tried]
    for p in real:
        h.check(inside(C.CFG, p) or inside(C.CONTENT, p), 'only the content and configuration directories are read')
    if name == 'tp':
        for p in real:
            h.check(p == C.CFG + '/tp.cfg' or inside(C.CONTENT + '/tp', p), 'only the content named in the URL is read')
    h.check(not h.files.written, 'nothing is written')
    h.check(status in (200, 404), 'status')
    if status == 200:
        h.check(len(h.files.opened) > 0, 'what is served has been read')
    h.reach('%d %s' % (status, case['what']))
    if any(p in ('..', '') for p in parts[:-1]):
        h.reach('climbing path')


def reach(tier):
    return ['200 mpd', '200 init', '200 m4s', '200 jpg', '404 none', '404 m4s', '404 jpg', 'climbing path']
