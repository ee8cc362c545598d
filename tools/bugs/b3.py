D = 'dashlib/'
BUGS = [
dict(id='range-single', property='C11', file='mod_wsgi/mod_dashlivesim.py',
     old='    if range_end < range_start:', new='    if range_end <= range_start:',
     demo='''
content('c', 4, 10)
whole = get('/dash/snr_0/c/V1/9.m4s', 50).body
r = get('/dash/snr_0/c/V1/9.m4s', 50, rng='bytes=5-6')
expect((r.status, r.body), (206, whole[5:7]), 'two bytes')
r = get('/dash/snr_0/c/V1/9.m4s', 50, rng='bytes=5-5')
expect((r.status, r.body), (206, whole[5:6]), 'one byte')
''', needs='a range of exactly one byte', breaks='The whole resource is sent'),

dict(id='period-id-wrap', property='C15', file=D+'mpd_proxy.py',
     old='''            data = {'id': "p%d" % period_nr, 'start': 'PT%dS' % start_time,''',
     new='''            data = {'id': "p%d" % (period_nr % 1000000), 'start': 'PT%dS' % start_time,''',
     demo='''
import re
content('c', 6, 10, tsbd=70)


def ids(now):
    t = get('/dash/periods_60/c/Manifest.mpd', now).body.decode()
    return dict(re.findall(r'<Period [^>]*id="([^"]*)"[^>]*start="([^"]*)"', t))


a, b = ids(60 * 5 + 10), ids(60 * 1000005 + 10)
expect(set(a) & set(b), set(), 'different periods have different ids')
''', needs='a session of more than a million periods', breaks='Two periods of a session have the same id'),

dict(id='loss-profiles', property='C22', file=D+'mpdprocessor.py',
     old='new_profiles = old_profiles.replace("dash-if-simple", "dash-if-main")',
     new='new_profiles = old_profiles[:old_profiles.index("dash-if-simple")] + "dash-if-main"',
     demo='''
content('c', 6, 10, tsbd=30)
p = VOD + '/c/Manifest.mpd'
t = open(p).read()
open(p, 'w').write(t.replace('profiles="urn:mpeg:dash:profile:isoff-live:2011"',
                             'profiles="http://dashif.org/guidelines/dash-if-simple,urn:mpeg:dash:profile:isoff-live:2011"'))
r = get('/dash/segtimelineloss_1/segtimeline_1/baseurl_u20_d10/baseurl_d20_u10/c/Manifest.mpd', 1000).body.decode()
expect('urn:mpeg:dash:profile:isoff-live:2011' in r, True, 'other profiles kept')
expect('dash-if-main' in r, True, 'main profile')
''', needs='content that lists further profiles after the simple one, in a session with losses in the timeline',
     breaks='The profiles after it are dropped'),

dict(id='etp-timeline', property='C23', file=D+'mpd_proxy.py',
     old="""                    data['etpDuration'] = etp_duration
                    data['period_duration_s'] = etp_duration
""", new="""                    data['etpDuration'] = etp_duration
                    data['period_duration_s'] = max(etp_duration, half_period_duration)
""",
     demo='''
import re
content('c', 2, 10, tsbd=150)
t = get('/dash/periods_60/etp_60/etpDuration_20/segtimeline_1/c/Manifest.mpd', 1000).body.decode()
n = 0
for p in re.findall(r'<Period .*?</Period>', t, re.S):
    start = int(re.search(r'start="PT(\\d+)S"', p).group(1))
    for tl in re.findall(r'timescale="(\\d+)".*?<SegmentTimeline>(.*?)</SegmentTimeline>', p, re.S):
        at = None
        for s in re.findall(r'<S [^>]*>', tl[1]):
            v = dict((k, int(x)) for k, x in re.findall(r'(\\w)="(-?\\d+)"', s))
            at = v.get('t', at)
            for i in range(v.get('r', 0) + 1):
                at += v['d']
                n += 1
                expect(at <= (start + 20) * int(tl[0]), True, 'segment ends at %d of a period from %d' % (at // int(tl[0]), start))
expect(n > 0, True, 'segments listed')
''', needs='early terminated periods of less than half a period, with timelines', breaks='Segments beyond the end of the period are listed'),

dict(id='stpp-day', property='C27', file=D+'stpp_generator/make_stpp_segments.py',
     old='hours, time_ms = divmod(time_ms, 3600000)', new='hours, time_ms = divmod(time_ms % 86400000, 3600000)',
     demo='''
try:
    import jinja2
except ImportError:
    import types
    sys.modules['jinja2'] = types.ModuleType('jinja2')
    sys.modules['jinja2'].Template = None
from dashlivesim.dashlib.stpp_generator.make_stpp_segments import SegmentCreator
c = SegmentCreator(1, 2000, 1000, '%d', 'eng', 3, '/nonexistent')
expect(c.create_time_string(3723004), '01:02:03.004', 'time')
expect(c.create_time_string(90000000), '25:00:00.000', 'time after a day')
''', needs='a sequence of more than a day', breaks='Cue times start again from zero after 24 hours'),

dict(id='stpp-lang', property='C27', file=D+'stpp_generator/stpp_creator.py',
     old='(get_char_bits(lang[0]) << 10) + (get_char_bits(lang[1]) << 5) + get_char_bits(lang[2])',
     new='(get_char_bits(lang[0]) << 10) + (get_char_bits(lang[1]) << 5) + (get_char_bits(lang[2]) & 15)',
     demo='''
from dashlivesim.dashlib.stpp_generator.stpp_creator import create_init_segment
for lang in ('eng', 'deu', 'swe', 'spa', 'msz', 'zxx'):
    b = create_init_segment(lang, 5)
    m = find(b, b'moov', b'trak', b'mdia', b'mdhd')
    v = struct.unpack('>H', m[40:42] if m[8] else m[28:30])[0]
    got = ''.join(chr(96 + (v >> s & 31)) for s in (10, 5, 0))
    expect(got, lang, 'language')
''', needs='a language code whose last letter is p or later', breaks='Another language is signalled'),

dict(id='prt-periods', property='C28', file=D+'mpdprocessor.py',
     old='''                if ll_data:
                    self.insert_producer_reference(ad_set, ad_pos)''',
     new='''                if ll_data and last_period_id == '-1':
                    self.insert_producer_reference(ad_set, ad_pos)''',
     demo='''
content('c', 4, 10, tsbd=100)
t = get('/dash/chunkdur_1/ato_3/periods_60/c/Manifest.mpd', 1000).body.decode()
expect(t.count('<Period ') > 1, True, 'several periods')
expect(t.count('<ProducerReferenceTime'), t.count('<AdaptationSet'), 'encoder times of every adaptation set')
''', needs='low latency together with several periods', breaks='Only the first period has encoder times'),

dict(id='ll-ato-digits', property='C28', file=D+'mpd_proxy.py',
     old="ll_data['availabilityTimeOffset'] = '%f' % in_data['availability_time_offset_in_s']",
     new="ll_data['availabilityTimeOffset'] = '%f' % (int(in_data['availability_time_offset_in_s'] * 10) / 10)",
     demo='''
import re
content('c', 4, 10)
for ato in (3.5, 3.75):
    t = get('/dash/chunkdur_0.25/ato_%s/c/Manifest.mpd' % ato, 1000).body.decode()
    for v in re.findall(r'<SegmentTemplate[^>]*availabilityTimeOffset="([^"]*)"', t):
        expect(float(v), ato, 'offset')
''', needs='a chunk duration of a quarter of a second, so an offset with two decimals', breaks='Chunks are announced before they exist'),

dict(id='modulo-edge', property='C29', file=D+'moduloperiod.py',
     old="        if self.percent >= 90:", new="        if self.percent > 90:",
     demo='''
import re
content('c', 4, 10)


def end(now):
    t = get('/dash/modulo_10/c/Manifest.mpd', now).body.decode()
    return (re.search(r'availabilityStartTime="([^"]*)"', t).group(1), int(re.search(r'mediaPresentationDuration="PT(\\d+)M', t).group(1)))


before, at, after = end(60000 + 539), end(60000 + 540), end(60000 + 541)
expect(at[0] > before[0] or at[1] >= before[1], True, 'the end does not come nearer: %s %s' % (before, at))
expect(after[0] > before[0], True, 'next session')
''', needs='a modulo session asked for in the very second in which nine tenths of the period have passed',
     breaks='The session that has ended becomes shorter'),

dict(id='extend-late', property='C29', file=D+'configprocessor.py',
     old="                if now_int > aet - 2*self.minimum_update_period_in_s:",
     new="                if now_int > aet - 2*min(self.minimum_update_period_in_s, self.seg_duration):",
     demo='''
import re
content('c', 2, 10)


def end(now):
    t = get('/dash/start_1000/mup_30/dur_100/dur_100/c/Manifest.mpd', now).body.decode()
    return re.search(r'availabilityEndTime="([^"]*)"', t).group(1)


expect(end(1020) < end(1100), True, 'session is extended')
expect(end(1075), end(1100), 'an update before the end shows the extension')
''', needs='a session of several durations with an update period of more than a segment',
     breaks='A player that updates as often as told sees the extension after the announced end'),
]
