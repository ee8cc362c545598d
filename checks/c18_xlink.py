"""C18: remote periods: a linked period is exactly the one the link resolves to; nothing else changes."""
from xml.etree import ElementTree as ET
import content as C
import manifest as MP
import session as S

BOUNDS = {
    'quick': 'session start < 2^31 s, request time (steps 1/4 s) in the first twelve periods or around the hundredth of the session, link '
             'followed up to one update period later; 60, 30 and 12 periods per hour; all advertisement variants; buffer '
             'depth 300 s',
    'thorough': 'as quick with more period and link rates and session options, links followed up to a period later',
}
OUTSIDE = 'content manifests with several periods; contents of the remote advertisement periods'

ADS = {1: 'http://vm1.dashif.org/dynamicxlink/ad.php?id=6_ad', 2: 'http://vm1.dashif.org/dynamicxlink/ad.php?id=6_ad_twoperiods',
       3: 'http://vm1.dashif.org/dynamicxlink/ad.php?id=6_ad_twoperiods_withremote',
       4: 'http://vm1.dashif.org/dynamicxlink/invalidurl.php', 5: 'http://vm1.dashif.org/dynamicxlink/ad.php?id=6_ad'}
XL = '{http://www.w3.org/1999/xlink}'
SETS = [['start'], ['start', 'snr'], ['startrel'], ['start', ['ato_4']], ['start', 'snrdef'], ['start', ['scte35_1']],
        ['start', ['continuous_1']], ['start', ['peroff_1']]]


def cases(tier):
    out = []
    quick = tier == 'quick'
    rates = [(60, 30), (60, 60), (30, 10), (12, 4)] if quick else [(60, 30), (60, 60), (60, 20), (60, 12), (30, 10), (20, 5), (12, 4), (12, 12), (6, 2), (4, 1)]
    for i, (n, x) in enumerate(rates):
        for ad in (0, 1, 2, 3, 4, 5):
            sel = [(i * 6 + ad) % len(SETS)] if quick else [(i + ad) % len(SETS), (i + ad + 3) % len(SETS)]
            for k in sel:
                st = SETS[k]
                for late in (False, True):
                    if quick and late != bool((i + ad) % 2):
                        continue
                    out.append({'name': '%s-n%d-x%d-ad%d-%d' % ('+'.join(y if isinstance(y, str) else y[0] for y in st), n, x, ad, late),
                                'opts': st, 'n': n, 'x': x, 'ad': ad, 'late': late, 'attrs': (i + ad) % 2})
    for nm, parts in (('noperiods', ['xlink_30']), ('fraction', ['periods_60', 'xlink_7']), ('nolink', ['periods_60', 'insertad_1'])):
        out.append({'name': nm, 'opts': [], 'bad': parts, 'n': 60})
    return out


def canon(e):
    "comparable form of an element"
    return (e.tag, sorted(e.attrib.items()), [canon(c) for c in e])


def same(h, a, b):
    if a[0] != b[0] or len(a[1]) != len(b[1]) or len(a[2]) != len(b[2]):
        return False
    ok = [h.eq(x[0], y[0]) if True else 0 for x, y in zip(a[1], b[1])]
    for x, y in zip(a[1], b[1]):
        ok.append(h.eq(x[1], y[1]))
    for x, y in zip(a[2], b[2]):
        ok.append(same(h, x, y))
    return h.all(*ok)


def run(h, case):
    dur = 2
    n = case['n']
    pd = 3600 // n
    media = {'video': {'reps': ['V1', 'V2'], 'timescale': 90000}, 'audio': {'reps': ['A1'], 'timescale': 48000}}
    attrs = 'start="PT0S" id="precambrian"' if case.get('attrs') else 'id="precambrian"'
    C.setup(h, 'tp1', dur, 600, media=media, mpd={'Manifest.mpd': MP.content(dur, period_attrs=attrs)})
    now = h.real('now', 0, 1 << 31, 4)
    h.sharp_text()
    if case.get('bad'):
        r = h.attempt(MP.get, h, C, '/'.join(['', 'dash'] + case['bad'] + ['tp1', 'Manifest.mpd']), now)
        h.check(r[0] == 'exc', 'impossible link options are refused')
        h.reach('refused')
        return
    s = S.make(h, case['opts'], dur, now)
    rel = s.now_int - s.ast
    lo = 98 * pd if case['late'] else 0
    h.assume(h.all(rel >= lo, rel < lo + (4 if case['late'] else 12) * pd))
    h.val((rel + pd // 2) // pd)
    h.val(h.ite(rel - 302 > 0, rel - 302, 0) // pd)
    pos = len(s.parts)
    link = ['xlink_%d' % case['x']] + (['insertad_%d' % case['ad']] if case['ad'] else [])
    plain = '/'.join(['', 'dash'] + s.parts + ['periods_%d' % n, 'tp1', 'Manifest.mpd'])
    url = '/'.join(['', 'dash'] + s.parts + ['periods_%d' % n] + link + ['tp1', 'Manifest.mpd'])
    m0 = MP.parse(h, MP.get(h, C, plain, now))
    r = h.attempt(MP.get, h, C, url, now)
    h.check(r[0] == 'ok', 'manifest generated')
    t = h.attempt(ET.fromstring, r[1])
    h.check(t[0] == 'ok', 'the manifest is well-formed XML')
    root = t[1]
    got = root.findall(MP.NS + 'Period')
    h.check(len(got) == len(m0.periods), 'every period is kept or linked')
    for k in ('availabilityStartTime', 'minimumUpdatePeriod', 'timeShiftBufferDepth', 'publishTime', 'type'):
        h.check(h.eq(root.attrib.get(k), m0.root.attrib.get(k)), 'the head of the manifest is unchanged')
    freq = n // case['x']
    seen = 0
    todo = []
    for i, (p, e) in enumerate(zip(m0.periods, got)):
        nr = int(p.id[1:])
        hit = nr % freq == 0
        seen += hit
        linked = hit and not (case['ad'] and seen == 1)
        want = canon(p.elem)
        if case['ad'] and i + 1 < len(m0.periods) and int(m0.periods[i + 1].id[1:]) % freq == 0:
            want = (want[0], sorted(want[1] + [('duration', 'PT%dS' % pd)]), want[2])
        if not linked:
            if case['ad']:
                h.check(len(e) > 0 and e[0].tag == MP.NS + 'AssetIdentifier', 'asset identified')
                e.remove(e[0])
                h.reach('asset')
            h.check(same(h, canon(e), want), 'other periods are unchanged')
            h.reach('kept')
            continue
        h.reach('linked')
        h.check(e.get(XL + 'actuate') == 'onLoad', 'resolved when loaded')
        href = e.get(XL + 'href')
        if case['ad']:
            h.check(href == ADS[case['ad']], 'advertisement link')
        else:
            base = root.findall(MP.NS + 'BaseURL')
            b = base[0].text if base else root.find(MP.NS + 'Location').text
            b = b[:b.rindex('/') + 1]
            h.check(h.eq(href, b + 'Manifest.mpd+' + p.id + '.period'), 'link to the period on this server')
            todo.append((href, want, nr))
        if case['ad'] == 5:
            h.check(same(h, (want[0], [], [canon(c) for c in e]), (want[0], [], want[2])), 'default content in the link')
            h.reach('default')
        else:
            h.check(len(e) == 0, 'nothing but the link')
    if not todo:
        return
    wait = h.real('wait', 0, pd // 2 - 5 if h.tier == 'quick' else pd, 4)
    later = now + wait
    h.assume(later < 1 << 31)
    rel2 = int(later) - s.ast
    h.val((rel2 + pd // 2) // pd)
    old = h.val(h.ite(rel2 - 302 > 0, rel2 - 302, 0) // pd)
    href, want, nr = todo[-1]
    path = '/' + '/'.join(href.split('/')[3:])
    r = h.attempt(MP.get, h, C, path, later)
    if nr < old:                # no longer in the buffer
        h.check(r[0] == 'exc' or C.refused(h, r[1]), 'a link to a period that is gone is refused')
        h.reach('gone')
        return
    if case['late']:
        other = '/' + '/'.join(href.replace('+p%d.' % nr, '+p%d.' % (nr // 10)).split('/')[3:])
        x = h.attempt(MP.get, h, C, other, later)
        h.check(x[0] == 'exc' or C.refused(h, x[1]), 'a link to a period that is not listed is refused')
        h.reach('not listed')
    h.check(r[0] == 'ok', 'the link resolves')
    t = h.attempt(ET.fromstring, r[1])
    h.check(t[0] == 'ok', 'the linked period is well-formed XML')
    h.check(same(h, canon(t[1]), want), 'the link resolves to the period of the manifest')
    h.reach('resolved')


def reach(tier):
    return ['refused', 'linked', 'kept', 'asset', 'default', 'resolved', 'not listed'] + (['gone'] if tier == 'thorough' else [])
