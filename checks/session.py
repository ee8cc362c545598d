"""What a request URL means: symbolic URL options and the session parameters they define (written from the
documentation, independently of the code)."""


class Session:
    pass


def make(h, names, dur, now, tmax=1 << 31, tsbd0=300):
    """Symbolic options `names`; returns the session: URL parts and documented parameters."""
    s = Session()
    parts = []
    s.now = now
    s.now_int = int(now)
    s.snr = 0          # number of the first segment
    s.snr_in_mpd = True
    s.ast = 0
    s.tsbd = tsbd0
    s.ato = 0
    s.inf = False
    s.stop = None      # end of a start/stop session (absolute)
    s.ends = []        # ends of the growing session (dur options), absolute
    s.total = None     # sum of dur options
    s.aet = None
    s.mpdur = None
    s.mup = None
    s.timeoffset = None
    s.init = 0
    modulo = False
    start = None
    for name in names:
        if name == 'snr':
            s.snr = h.int('snr', 0, 1000000)
            parts.append('snr_' + h.dec(s.snr))
        elif name == 'snrdef':
            s.snr = 1
            s.snr_in_mpd = False
            parts.append('snr_-1')
        elif name == 'tsbd':
            s.tsbd = h.int('tsbd', 0, 1000000)
            parts.append('tsbd_' + h.dec(s.tsbd))
        elif name == 'mup':
            s.mup = h.int('mup', 1, 100000)
            parts.append('mup_' + h.dec(s.mup))
        elif name in ('start', 'ast'):
            start = h.int('start', 0, tmax)
            parts.append(name + '_' + h.dec(start))
        elif name == 'startrel':
            v = h.int('startrel', 0, 1000000)
            h.assume(s.now_int >= v)
            start = s.now_int - v
            parts.append('startrel_-' + h.dec(v))
        elif name == 'stop':
            stop = h.int('stop', 0, tmax)
            parts.append('stop_' + h.dec(stop))
            s.stop = stop
        elif name == 'stoprel':
            v = h.int('stoprel', 0, 1000000)
            s.stop = s.now_int + v
            parts.append('stoprel_' + h.dec(v))
        elif name in ('dur', 'dur2'):
            k = h.int(name, dur, 1 << 24)
            parts.append('dur_' + h.dec(k))
            s.ends.append(k)
        elif name == 'ato':
            s.ato = h.real('ato', 0, 3600, 4)
            parts.append('ato_' + h.dec(s.ato))
        elif name == 'atoinf':
            s.inf = True
            parts.append('ato_inf')
        elif name == 'init':
            s.init = h.int('init', 0, 1000000)
            parts.append('init_' + h.dec(s.init))
        elif name == 'timeoffset':
            k = h.int('toff', 0, tmax // dur)
            s.timeoffset = k * dur
            parts.append('timeoffset_' + h.dec(s.timeoffset))
        elif name == 'tfdt32':
            parts.append('tfdt_32')
            s.ast = s.now_int // 10800 * 10800
            s.aet = s.ast + 10800
            s.mpdur = 10800
        elif name == 'cont':
            parts.append('cont_1')
            h.assume(s.now_int >= dur)
            s.ast = (s.now_int - dur) // dur * dur
            s.aet = s.ast + 10800
            s.mpdur = 10800
        elif name == 'chunkdur':
            parts.append('chunkdur_1')
        elif isinstance(name, list) and name[0] == 'modulo':
            p = name[1] * 60
            parts.append('modulo_%d' % name[1])
            pos = s.now_int % p
            base = s.now_int - pos
            s.ast = h.ite(pos * 10 >= 9 * p, base + p, base)
            tenths = h.ite(pos * 10 < p, 2, h.ite(pos * 10 < 3 * p, 4, h.ite(pos * 10 < 5 * p, 6,
                                                                            h.ite(pos * 10 < 9 * p, 8, 2))))
            s.mpdur = tenths * (p // 10)
            s.mup = p // 20
            s.aet = s.ast + s.mpdur + s.mup
            modulo = True
        elif isinstance(name, list):
            parts.append(name[0])          # fixed text
            k, v = name[0].split('_', 1)
            if k in ('tsbd', 'mup'):
                setattr(s, k, int(v))
            elif k == 'dur':
                s.ends.append(int(v))
        else:
            raise ValueError(name)
    s.last = None
    if start is not None:
        s.ast = start // dur * dur
        if s.stop is not None:
            h.assume(s.stop > start)
            s.stop = (s.stop + dur - 1) // dur * dur
        if s.ends:
            mup = 10 if s.mup is None else s.mup
            s.mup_eff = mup
            tot = 0
            aets = []
            for d in s.ends:
                tot = tot + d
                aets.append(((start + tot) // dur * dur, tot))
            s.end = aets[-1][0]
            # the end announced now: the first one whose update point has not been reached
            aet, mpdur = aets[-1]
            known = None
            for a, t in reversed(aets[:-1]):
                hold = s.now_int <= a - 2 * mup
                aet = h.ite(hold, a, aet)
                mpdur = h.ite(hold, t, mpdur)
            s.aet = aet
            s.mpdur = mpdur
    else:
        s.stop = None
    s.first = s.snr
    s.media_at_ast = 0
    if s.timeoffset is not None:
        h.assume(s.ast >= s.timeoffset)
        s.first = s.snr + (s.ast - s.timeoffset) // dur
        s.media_at_ast = s.ast - s.timeoffset
    if start is not None and s.ends:
        s.last = s.first + (s.end - s.ast) // dur - 1
    if modulo:
        s.last = s.first + s.mpdur // dur - 1
    if s.stop is not None:
        s.tsbd = s.stop - s.ast
    s.stop_nr = None if s.stop is None else s.first + (s.stop - s.ast) // dur
    s.parts = parts
    return s


def url(h, s, content, rep, name):
    return '/'.join(['', 'dash'] + s.parts + [content, rep, name])


def window(h, s, n, dur, now):
    "is segment n served at the time now?"
    start = s.ast + (n - s.first) * dur
    end = start + dur
    early = now < end - s.ato
    late = now > end + dur + s.tsbd
    if s.stop is not None:
        late = False
    if s.inf:
        early = now < s.ast
        late = False
    else:
        early = h.any(early, now < s.ast + dur - s.ato)
    bad = [early, late, n < s.first]
    if s.stop_nr is not None:
        bad.append(n >= s.stop_nr)
    if s.last is not None:
        bad.append(n > s.last)
    if s.aet is not None:
        bad.append(now >= s.aet + 61)
    return h.no(h.any(*bad))
