"""Content manifests and reading of generated manifests (attribute values may be symbolic)."""
from xml.etree import ElementTree as ET

NS = '{urn:mpeg:dash:schema:mpd:2011}'

HEAD = '''<?xml version="1.0" encoding="utf-8"?>
<MPD xmlns="urn:mpeg:dash:schema:mpd:2011" profiles="urn:mpeg:dash:profile:isoff-live:2011,urn:com:dashif:dash264" maxSegmentDuration="PT6S" availabilityStartTime="1970-01-01T00:00:00" minBufferTime="PT2S" publishTime="2013-04-19T13:58:32" type="static" mediaPresentationDuration="PT1H5M">
   <ProgramInformation>
      <Title>Test</Title>
   </ProgramInformation>
'''


def content(dur, sets=('audio', 'video'), extra='', period_attrs='id="precambrian"', numbering='$Number$', base=''):
    t = HEAD + base + '   <Period %s>\n' % period_attrs
    ids = {'audio': ['A1'], 'video': ['V1', 'V2'], 'subtitles': ['S1'], 'image': ['thumbs']}
    for s in sets:
        ext = 'jpg' if s == 'image' else 'm4s'
        t += '      <AdaptationSet contentType="%s" mimeType="%s/mp4" segmentAlignment="true" startWithSAP="1">\n' % (s, s)
        t += '         <SegmentTemplate initialization="$RepresentationID$/init.mp4" ' \
             'media="$RepresentationID$/%s.%s" duration="%d" startNumber="1"/>\n' % (numbering, ext, dur)
        for r in ids[s]:
            t += '         <Representation id="%s" bandwidth="48000"/>\n' % r
        t += '      </AdaptationSet>\n'
    return t + extra + '   </Period>\n</MPD>\n'


class M:
    pass


def parse(h, text):
    "text of an MPD -> M (fails the check when the document is malformed)"
    r = h.attempt(ET.fromstring, text)
    h.check(r[0] == 'ok', 'the manifest is well-formed XML')
    root = r[1]
    h.check(root.tag == NS + 'MPD', 'MPD root')
    m = M()
    m.root = root
    a = root.attrib
    m.type = a.get('type')
    m.ast = h.ts(a['availabilityStartTime'])
    m.aet = h.ts(a['availabilityEndTime']) if 'availabilityEndTime' in a else None
    m.publish = h.ts(a['publishTime'])
    for f, k in (('tsbd', 'timeShiftBufferDepth'), ('mpdur', 'mediaPresentationDuration'), ('mup', 'minimumUpdatePeriod'),
                 ('maxseg', 'maxSegmentDuration'), ('spd', 'suggestedPresentationDelay')):
        v = None
        if k in a:
            v = h.dur(a[k])
            h.check(v is not None, '%s is a valid duration' % k)
        setattr(m, f, v)
    m.base = [b for b in root.findall(NS + 'BaseURL')]
    m.location = [b.text for b in root.findall(NS + 'Location')]
    m.ato = None
    m.ato_inf = False
    if m.base:
        _ato(h, m, m.base[0])
    m.periods = []
    for p in root.findall(NS + 'Period'):
        q = M()
        q.elem = p
        q.id = p.get('id')
        q.start = h.dur(p.get('start')) if p.get('start') is not None else 0
        h.check(q.start is not None, 'Period@start is a valid duration')
        q.duration = h.dur(p.get('duration')) if p.get('duration') is not None else None
        q.sets = []
        sb = p.find(NS + 'SegmentBase')
        q.pto = h.num(sb.get('presentationTimeOffset', '0')) if sb is not None else None
        for s in p.findall(NS + 'AdaptationSet'):
            e = M()
            e.elem = s
            e.type = s.get('contentType')
            st = s.find(NS + 'SegmentTemplate')
            e.template = st
            e.timescale = h.num(st.get('timescale', '1'))
            e.duration = h.num(st.get('duration')) if st.get('duration') is not None else None
            e.start_number = h.num(st.get('startNumber')) if st.get('startNumber') is not None else 1
            e.has_start_number = st.get('startNumber') is not None
            e.pto = h.num(st.get('presentationTimeOffset', '0'))
            if q.pto is not None:
                e.pto = q.pto * e.timescale
            e.media = st.get('media')
            e.init = st.get('initialization')
            _ato(h, m, st)
            e.timeline = None
            tl = st.find(NS + 'SegmentTimeline')
            if tl is not None:
                e.timeline = []
                for x in tl.findall(NS + 'S'):
                    e.timeline.append((h.num(x.get('t')) if x.get('t') is not None else None, h.num(x.get('d')),
                                       h.num(x.get('r', '0'))))
            e.reps = [x.get('id') for x in s.findall(NS + 'Representation')]
            q.sets.append(e)
        m.periods.append(q)
    return m


def _ato(h, m, elem):
    v = elem.get('availabilityTimeOffset')
    if v is None:
        return
    if v == 'INF':
        m.ato_inf = True
    else:
        f = h.fl(v)
        if h.sat(f == -1):
            m.ato_inf = True
        else:
            m.ato = f


def get(h, C, url, now, prov=None):
    mp = h.load('dashlivesim.dashlib.mpd_proxy')
    return mp.get_mpd(prov or C.provider(h, url, now))
