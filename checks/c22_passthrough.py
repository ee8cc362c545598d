"""C22: what the stored manifest says beyond the live timing reaches the client unchanged."""
import struct
from xml.etree import ElementTree as ET

import content as C
import manifest as MP
import session as S

BOUNDS = {
    'quick': 'three stored manifests (three to four adaptation sets with descriptors, protection data, components, labels, comments, other '
             'namespaces, escaped and non-ASCII text, metrics, programme information); every number in their attributes and texts symbolic '
             'below 2^31; request time k/4 s below 2^31 s; the listed option sets',
    'thorough': 'as quick',
}
OUTSIDE = 'stored manifests with several periods, with timing the server does not rewrite (segment lists, templates inside representations), or that ' \
          'are dynamic themselves; white space between elements, comments and the choice of namespace prefixes'

NS = MP.NS
OPTS = [[], ['start'], ['start', 'stop'], ['startrel'], [['periods_60'], ['tsbd_10']], [['periods_60'], ['continuous_1'], ['tsbd_10']],
        [['periods_60'], ['etp_60'], ['etpDuration_20'], ['tsbd_10']], [['periods_60'], ['mpdcallback_60'], ['tsbd_10']], [['scte35_1']],
        [['chunkdur_1'], ['ato_1']], [['segtimeline_1'], ['tsbd_4']], [['segtimelinenr_1'], ['tsbd_4']], [['baseurl_u10_d10'], ['baseurl_d10_u10']],
        [['utc_direct-head-ntp-sntp-httpxsdate-httpiso']], [['spd_7']], ['snr'], ['snrdef'], [['peroff_1'], ['periods_60'], ['tsbd_10']], [['ato_inf']], [['segtimelineloss_1'], ['segtimeline_1'], ['tsbd_4']],
        [['start_0'], ['stop_100']], [['mup_5'], ['tsbd_30']], [['scte35_3'], ['utc_head'], ['chunkdur_0.5'], ['ato_0.5']]]

DOC = {}
DOC['rich'] = '''<?xml version="1.0" encoding="utf-8"?>
<!-- a comment -->
<MPD xmlns="urn:mpeg:dash:schema:mpd:2011" xmlns:cenc="urn:mpeg:cenc:2013" xmlns:x="urn:returns0:x" profiles="urn:mpeg:dash:profile:isoff-live:2011,http://dashif.org/guidelines/dash-if-simple,urn:further" availabilityStartTime="1970-01-01T00:00:00Z" minBufferTime="PT%(a)sS" maxSubsegmentDuration="PT%(b)sS" publishTime="2013-04-19T13:58:32Z" type="static" mediaPresentationDuration="PT1H5M" maxSegmentDuration="PT4S" x:private="ns0:%(c)s">
   <ProgramInformation lang="sv" moreInformationURL="http://x.se/?a=1&amp;b=%(d)s">
      <Title>T &lt;%(e)s&gt; &amp; more \u00e5\u00e4\u00f6</Title>
      <Source>ns0:%(f)s</Source>
   </ProgramInformation>
   <ProgramInformation lang="en"><Title/></ProgramInformation>
   <ServiceDescription id="%(ai)s"><Scope schemeIdUri="urn:sd"/><Latency target="%(aj)s"/></ServiceDescription>
   <x:Before/>
   <Period id="p">
      <AssetIdentifier schemeIdUri="urn:org:returns0:asset" value="v%(g)s"/>
      <AdaptationSet id="%(h)s" group="%(i)s" contentType="audio" lang="eng" mimeType="audio/mp4" segmentAlignment="true" startWithSAP="1" selectionPriority="%(j)s">
         <Accessibility schemeIdUri="urn:tva:metadata:cs:AudioPurposeCS:2007" value="%(k)s"/>
         <Role schemeIdUri="urn:mpeg:dash:role:2011" value="main"/>
         <Label id="%(l)s">caf\u00e9 "&lt;&gt;"</Label>
         <SegmentTemplate initialization="$RepresentationID$/init.mp4" media="$RepresentationID$/$Number$.m4s" duration="2" startNumber="1"/>
         <Representation id="A1" bandwidth="%(m)s" audioSamplingRate="%(n)s" codecs="mp4a.40.2" qualityRanking="%(o)s">
            <AudioChannelConfiguration schemeIdUri="urn:mpeg:dash:23003:3:audio_channel_configuration:2011" value="%(p)s"/>
            <SubRepresentation level="%(q)s" dependencyLevel="0 1"/>
         </Representation>
      </AdaptationSet>
      <AdaptationSet contentType="video" maxWidth="%(r)s" maxHeight="%(s)s" maxFrameRate="30000/1001" par="16:9" mimeType="video/mp4" segmentAlignment="true">
         <ContentProtection schemeIdUri="urn:mpeg:dash:mp4protection:2011" value="cenc" cenc:default_KID="0123-%(t)s"/>
         <ContentProtection schemeIdUri="urn:uuid:edef8ba9" value="W"><cenc:pssh>AAAA%(u)s==</cenc:pssh></ContentProtection>
         <EssentialProperty schemeIdUri="urn:x" value="0,%(v)s"/>
         <Viewpoint schemeIdUri="urn:v"/>
         <x:Extra x:n="%(w)s"><x:Sub>text<x:Inner/>tail</x:Sub></x:Extra>
         <ContentComponent id="%(x)s" contentType="video"/>
         <SegmentTemplate initialization="$RepresentationID$/init.mp4" media="$RepresentationID$/$Number$.m4s" duration="2" startNumber="1"/>
         <Representation id="V1" bandwidth="%(y)s" width="%(z)s" height="720" codecs="avc1.64001e" frameRate="25" sar="1:1"/>
         <Representation id="V2" bandwidth="%(aa)s" width="320" height="180" codecs="avc1.64001e" frameRate="25" sar="1:1" dependencyId="V1"/>
      </AdaptationSet>
%(img)s      <SupplementalProperty schemeIdUri="urn:s" value="%(ab)s"/>
   </Period>
   <Metrics metrics="DVBErrors"><Range starttime="PT%(ac)sS"/><Reporting schemeIdUri="urn:dvb:dash:reporting:2014" value="%(ad)s"/></Metrics>
   <SupplementalProperty schemeIdUri="urn:end" value="%(ae)s"/>
</MPD>
'''
IMG = '''      <AdaptationSet contentType="image" mimeType="image/jpeg">
         <SegmentTemplate media="$RepresentationID$/$Number$.jpg" duration="2" startNumber="1"/>
         <Representation id="thumbs" bandwidth="%(af)s" width="4096" height="180">
            <EssentialProperty schemeIdUri="http://dashif.org/guidelines/thumbnail_tile" value="10x%(ag)s"/>
         </Representation>
      </AdaptationSet>
      <AdaptationSet contentType="text" lang="se" mimeType="application/mp4" codecs="stpp">
         <Role schemeIdUri="urn:mpeg:dash:role:2011" value="subtitle"/>
         <SegmentTemplate initialization="$RepresentationID$/init.mp4" media="$RepresentationID$/$Number$.m4s" duration="2" startNumber="1" timescale="1" presentationTimeOffset="0"/>
         <Representation id="S1" bandwidth="%(ah)s"/>
      </AdaptationSet>
'''
# the same with a prefix for the DASH namespace
DOC['prefixed'] = None
DOC['plain'] = '''<MPD xmlns="urn:mpeg:dash:schema:mpd:2011" profiles="urn:x%(a)s,http://www.dashif.org/guidelines/low-latency-live-v5,urn:y" minBufferTime="PT2S" type="static"><Period><AdaptationSet contentType="video"><SegmentTemplate initialization="$RepresentationID$/init.mp4" media="$RepresentationID$/$Number$.m4s" duration="2"/><Representation id="V1" bandwidth="%(b)s"/></AdaptationSet><AdaptationSet contentType="audio" lang="%(c)s"><SegmentTemplate initialization="$RepresentationID$/init.mp4" media="$RepresentationID$/$Number$.m4s" duration="2"/><Representation id="A1"/></AdaptationSet></Period></MPD>'''
KEYS = 'a b c d e f g h i j k l m n o p q r s t u v w x y z aa ab ac ad ae af ag ah ai aj'.split()


def cases(tier):
    out = []
    for i, o in enumerate(OPTS):
        nm = '+'.join(x if isinstance(x, str) else x[0] for x in o) or 'plain'
        for d in ('rich', 'plain', 'prefixed'):
            out.append({'name': '%s-%s' % (d, nm), 'doc': d, 'opts': o})
    return out


# what the live timing may change, add or leave out
LIVE_MPD = {'type', 'availabilityStartTime', 'availabilityEndTime', 'timeShiftBufferDepth', 'minimumUpdatePeriod', 'maxSegmentDuration',
            'mediaPresentationDuration', 'suggestedPresentationDelay', 'publishTime', 'id'}
NEW = {'MPD': {'BaseURL', 'Location', 'ServiceDescription', 'UTCTiming'},
       'Period': {'SegmentBase', 'EventStream'},
       'AdaptationSet': {'InbandEventStream', 'ProducerReferenceTime'},
       'SegmentTemplate': {'SegmentTimeline'}}


def local(tag):
    return tag[len(NS):] if tag.startswith(NS) else None


def text(x):
    return (x or '').strip()


def same(h, s, t, case, path):
    "element s of the stored manifest is passed on as t"
    h.check(s.tag == t.tag, 'element %s' % path)
    name = local(s.tag)
    opts = [x if isinstance(x, str) else x[0] for x in case['opts']]
    timeline = any(o.startswith('segtimeline') for o in opts)
    free = set()
    if name == 'MPD':
        free = LIVE_MPD | {'profiles'}
    elif name == 'Period':
        free = {'id', 'start', 'duration'}
    elif name == 'SegmentTemplate':
        free = {'startNumber', 'presentationTimeOffset'}
        if timeline and path.split('/')[-2].split(':')[-1] in ('audio', 'video'):
            free |= {'duration', 'timescale', 'media'}
        if any(o.startswith('chunkdur') for o in opts):
            free |= {'availabilityTimeOffset', 'availabilityTimeComplete'}
    for k, v in s.attrib.items():
        if k not in free:
            h.check(k in t.attrib and h.eq(t.attrib[k], v), 'attribute %s of %s' % (k.split('}')[-1], path))
    for k in t.attrib:
        h.check(k in free or k in s.attrib, 'no attribute added to %s' % path)
    if name == 'MPD':
        old = s.attrib['profiles'].split(',')
        new = t.attrib['profiles'].split(',')
        if any(o.startswith('segtimelineloss') for o in opts):
            new = [x.replace('dash-if-main', 'dash-if-simple') for x in new]
        for a, b in zip(old, new):
            h.check(h.eq(a, b), 'stored profiles are kept')
        h.check(len(new) >= len(old), 'no profile is dropped')
        want = []
        if any(o.startswith('scte35') for o in opts):
            want.append('http://dashif.org/guidelines/adin/app')
        if any(o.startswith('chunkdur') for o in opts):
            want.append('http://www.dashif.org/guidelines/low-latency-live-v5')
        h.check(new[len(old):] == [x for x in want if x not in old], 'the profiles of the options are added, and no other')
    if name == 'SegmentTemplate' and 'media' in free:
        h.check(t.attrib['media'].replace('t$Time$', '$Number$') == s.attrib['media'], 'media template')
    if len(s) == 0 and len(t) == 0 or name is None:
        h.check(h.eq(text(s.text), text(t.text)), 'text of %s' % path)
        if name is None:
            h.check(h.eq(text(s.tail), text(t.tail)), 'text after %s' % path)
    if name == 'MPD':       # several periods are copies of the stored one
        sp = s.find(NS + 'Period')
        tp = t.findall(NS + 'Period')
        h.check(len(tp) >= 1, 'a period')
        where = list(t).index(tp[0])
        h.check([e.tag for e in list(t)[where:where + len(tp)]] == [NS + 'Period'] * len(tp), 'periods follow each other')
        for p in tp:
            same(h, sp, p, case, path + '/Period')
        h.reach('periods' if len(tp) > 1 else 'period')
        for part, ref in ((list(s)[:list(s).index(sp)], list(t)[:where]), (list(s)[list(s).index(sp) + 1:], list(t)[where + len(tp):])):
            children(h, part, ref, case, path, NEW['MPD'])
        return
    new = set(NEW.get(name, ()))
    if name == 'AdaptationSet' and 'continuous_1' in opts:
        new.add('continuity')
    children(h, list(s), list(t), case, path, new)


def children(h, old, new, case, path, allowed):
    kept = []
    have = {e.tag for e in old}
    for e in new:
        name = local(e.tag)
        if name == 'ServiceDescription':
            if e.find(NS + 'Scope') is None:
                continue        # the one for low latency; the stored one has a scope
        elif name in allowed and e.tag not in have:
            continue
        if 'continuity' in allowed and name == 'SupplementalProperty' and e.get('schemeIdUri') == 'urn:mpeg:dash:period_continuity:2014':
            continue
        kept.append(e)
    h.check([e.tag for e in kept] == [e.tag for e in old], 'children of %s' % path)
    for a, b in zip(old, kept):
        same(h, a, b, case, path + '/' + (local(a.tag) or a.tag.split('}')[-1]) + (':' + a.get('contentType', '') if local(a.tag) == 'AdaptationSet' else ''))


def run(h, case):
    vals = {k: h.dec(h.int('v_' + k, 0, (1 << 31) - 1)) for k in KEYS}
    if case['doc'] == 'plain':
        doc = DOC['plain'] % vals
    else:
        vals['img'] = IMG % vals
        doc = DOC['rich'] % vals
        if case['doc'] == 'prefixed':
            out = []
            for part in doc.split('<'):
                if part[:1] == '/' and ':' not in part.split('>')[0]:
                    part = '/d:' + part[1:]
                elif part[:1].isalpha() and ':' not in part.split('>')[0].split(' ')[0]:
                    part = 'd:' + part
                out.append(part)
            doc = '<'.join(out).replace(' xmlns=', ' xmlns:d=')
    media = {}
    for k, r, ts in (('audio', ['A1'], 48000), ('video', ['V1', 'V2'], 90000), ('subtitles', ['S1'], 1000), ('image', ['thumbs'], 1)):
        media[k] = {'reps': r, 'timescale': ts, 'total': 8 * ts, 'dat': 'a_%s.dat' % k}
        h.file(C.CFG + '/a_%s.dat' % k, struct.pack('HHII', 1, 3, 0, 2 * ts))
    C.setup(h, 'tp', 2, 4, media=media, version='1.1', mpd={'Manifest.mpd': doc})
    now = h.real('now', 0, 1 << 31, 4)
    s = S.make(h, case['opts'], 2, now)
    url = '/'.join(['', 'dash'] + s.parts + ['tp', 'Manifest.mpd'])
    from sx import harness
    h.set_clock(harness.Clock([now], advance=True))
    r = MP.get(h, C, url, now)
    if C.refused(h, r):
        h.reach('refused')
        return
    t = h.attempt(ET.fromstring, r)
    h.check(t[0] == 'ok', 'well-formed')
    same(h, ET.fromstring(doc), t[1], case, '')
    h.reach(case['doc'])


def reach(tier):
    return ['rich', 'plain', 'prefixed', 'periods', 'period']
