D = 'dashlib/'
BUGS = [
dict(id='thumb-first', property='C02', file=D+'dash_proxy.py',
     old='''    vod_nr = seg_nr_in_loop + cfg.vod_first_segment_in_loop
    assert 0 <= vod_nr - cfg.vod_first_segment_in_loop < cfg.vod_nr_segments_in_loop
    rel_path = cfg.rel_path
    thumb_path''',
     new='''    vod_nr = time_since_ast // seg_dur % cfg.vod_nr_segments_in_loop + 1
    rel_path = cfg.rel_path
    thumb_path''',
     demo='''
for first in (1, 4, 0):
    n = 'c%d' % first
    content(n, 4, 10, images=True, first=first)
    for k in (3, 9, 10, 25):
        r = get('/dash/snr_0/%s/thumbs/%d.jpg' % (n, k), k * 4 + 10)
        expect((r.status, r.body), (200, b'jpg%d' % (first + k % 10)), 'thumbnail %d of content from %d' % (k, first))
''', needs='content with thumbnails whose first segment number is not 1', breaks='Thumbnails of other segments (or none) are served'),

dict(id='error-encoding', property='C12', file='mod_wsgi/mod_dashlivesim.py',
     old='''        if isinstance(payload_in, str):
            payload_in = payload_in.encode('utf-8')''',
     new='''        if isinstance(payload_in, str):
            payload_in = payload_in.encode('ascii')''',
     demo='''
content('c', 4, 10)
r = get('/dash/c\\u00e9/V1/1.m4s', 100)
expect(r.status, 404, 'unknown content with an accent')
expect(r.headers['Content-Length'], str(len(r.body)), 'length')
''', needs='a request for an unknown path with a character outside ASCII', breaks='The server raises instead of answering 404'),

dict(id='session-int', property='C13', file='mod_wsgi/mod_dashlivesim.py',
     old='elif now > start_time + MAX_SESSION_LENGTH:', new='elif int(now) > start_time + MAX_SESSION_LENGTH:',
     demo='''
content('c', 4, 10)
expect(get('/dash/sts_1000/sid_1/c/V1/240.m4s', 1060, max_session=60).status != 410, True, 'at the end')
expect(get('/dash/sts_1000/sid_1/c/V1/240.m4s', 1060.5, max_session=60).status, 410, 'half a second later')
''', needs='a request within the second after the end of a session', breaks='The session goes on for up to a second'),

dict(id='emsg-id', property='C14', file=D+'mediasegmentfilter.py',
     old='emsg_id = splice_id = splice_time//10', new='emsg_id = splice_id = splice_time//60',
     demo='''
content('c', 6, 10)


def ids(opt, lo, hi):
    out = []
    for n in range(lo, hi):
        r = get('/dash/%s/snr_0/c/V1/%d.m4s' % (opt, n), n * 6 + 10)
        for t, a, b in boxes(r.body):
            if t == b'emsg':
                pos = r.body.index(b'\\0', r.body.index(b'\\0', a + 12) + 1) + 1
                out.append((struct.unpack('>I', r.body[pos + 12:pos + 16])[0], r.body[a:b].split(b'ptsTime="')[1].split(b'"')[0]))
    return out


for opt in ('scte35_1', 'scte35_2', 'scte35_3'):
    e = ids(opt, 100, 130)
    expect(len(set(i for i, p in e)), len(set(p for i, p in e)), 'one id for each splice (%s)' % opt)
''', needs='two or more announcements a minute', breaks='Different splices of a minute have the same event id'),

dict(id='outage-loop', property='C16', file=D+'dash_proxy.py',
     old='num_loop = int(ceil(60.0 / (float(total_dur))))', new='num_loop = max(1, 60 // total_dur)',
     demo='''
content('c', 2, 30)


def up(opt, s):
    return get('/dash/%s/c/V1/3000.m4s' % opt, 6000 + s).status == 200


for s in (5, 18, 33, 45, 57):
    expect(up('baseurl_u20_d10', s), s % 30 <= 20, 'second %d of u20_d10' % s)
for s in (5, 18, 30, 38, 58):
    expect(up('baseurl_u20_d15', s), s % 35 <= 20, 'second %d of u20_d15' % s)
''', needs='a pattern whose length does not divide a minute', breaks='The outage at the end of the minute does not happen'),

dict(id='aet-margin', property='C17', file=D+'configprocessor.py',
     old='if now_int > aet - 2*self.minimum_update_period_in_s:', new='if now_int >= aet - 2*self.minimum_update_period_in_s:',
     demo='''
import re
content('c', 2, 30)


def dur(now):
    return re.search('mediaPresentationDuration="([^"]*)"', get('/dash/start_1000/dur_100/dur_60/mup_10/c/Manifest.mpd', now).body.decode()).group(1)


expect(dur(1080), 'PT1M40S', 'two update periods before the first end')
expect(dur(1081), 'PT2M40S', 'after that')
''', needs='a manifest requested exactly two update periods before the first of several announced ends',
     breaks='The prolongation of the session is announced a second early'),

dict(id='xlink-digit', property='C18', file=D+'mpd_proxy.py',
     old='if int(x[1:]) % one_xlinks_for_how_many_periods == 0]', new='if int(x[-1]) % one_xlinks_for_how_many_periods == 0]',
     demo='''
import re
content('c', 6, 10, tsbd=1000)
for now in (700, 1500, 6100):
    t = get('/dash/periods_60/xlink_20/c/Manifest.mpd', now).body.decode()
    linked = [int(x) for x in re.findall(r'Manifest.mpd\\+p(\\d+).period', t)]
    plain = [int(x) for x in re.findall(r'<Period[^>]*id="p(\\d+)"', t)]
    expect(all(x % 3 == 0 for x in linked) and not any(x % 3 == 0 for x in plain), True, 'linked periods at %d' % now)
''', needs='a link rate of every third (or fourth, sixth...) period and period numbers of ten and more',
     breaks='Other periods are linked, so links come and go between periods'),

dict(id='ttml-count', property='C19', file=D+'ttml_timing_offset.py',
     old='xml_str = re.sub(CONTENT_PATTERN_SEGMENT, replace_segment_nr, xml_str)',
     new='xml_str = re.sub(CONTENT_PATTERN_SEGMENT, replace_segment_nr, xml_str, count=1)',
     demo='''
from dashlivesim.dashlib.ttml_timing_offset import adjust_ttml_content
doc = b'<p begin="00:00:00" end="00:00:01">en : 00:00:00.000<br/>Segment # 1</p><p begin="00:00:01" end="00:00:02">Segment # 1</p>'
out = adjust_ttml_content(doc, 3600, 1801)
expect(out.count(b'Segment # 1801'), 2, 'segment numbers in the document')
''', needs='a subtitle document that states its number in several cues', breaks='All cues but the first keep the stored number'),

dict(id='dat-second-rep', property='C20', file='vodanalyzer/dashanalyzer.py',
     old='if lastDuration != 0 and rep_nr == 0:', new='if lastDuration != 0:',
     demo='''
import re
from dashlivesim.vodanalyzer.dashanalyzer import DashAnalyzer
durs = [90000, 89000, 91000, 90000]


def video(n, s, d):
    return segment(sum(durs[:n - 1]), [(durs[n - 1], 4, 0, 0, b'abcd')])


content('c', 1, 4, video=video)
base = VOD + '/c'
shutil.copytree(base + '/V1', base + '/V2')
m = open(base + '/Manifest.mpd').read().replace('<Representation id="V1" bandwidth="1"/>', '<Representation id="V1" bandwidth="1"/><Representation id="V2" bandwidth="2"/>')
m = re.sub('<AdaptationSet contentType="audio".*?</AdaptationSet>', '', m).replace('PT1H', 'PT4S')
open(base + '/Manifest.mpd', 'w').write(m)
out = tempfile.mkdtemp(prefix='demo')
atexit.register(shutil.rmtree, out, True)
cwd = os.getcwd()
os.chdir(out)
with contextlib.redirect_stdout(io.StringIO()):
    DashAnalyzer(base + '/Manifest.mpd', 0).analyze()
data = open('c_video.dat', 'rb').read()
os.chdir(cwd)
rows = [struct.unpack('HHII', data[i:i + 12]) for i in range(0, len(data), 12)]
expect([r[0] for r in rows], [1, 2, 3, 4], 'first numbers of the table')
''', needs='two representations in a set and segments of varying duration', breaks='The timing table lists the segments of the second representation again'),

dict(id='utc-shared', property='C21', edits=[
     (D+'configprocessor.py', '        self.utc_timing_methods = []\n', ''),
     (D+'configprocessor.py', '        self.emsg_last_seg = False\n\n    def __str__', '        self.emsg_last_seg = False\n\n    utc_timing_methods = []  # Default\n\n    def __str__')],
     demo='''
content('c', 2, 30)
url = '/dash/c/Manifest.mpd'
a = get(url, 1000).body
get('/dash/chunkdur_1/c/Manifest.mpd', 1000)
expect(get(url, 1000).body, a, 'manifest after a low-latency manifest')
''', needs='a low-latency manifest request, then any other manifest request in the same process',
     breaks='All later manifests get a UTCTiming element (one more for each low-latency request)'),

dict(id='caption-inclusive', property='C24', file='cc_inserter/cc_inserter.py',
     old="if start_time <= i['start_time'] < end_time:", new="if start_time <= i['start_time'] <= end_time:",
     demo='''
import re
from dashlivesim.cc_inserter.cc_inserter import CCInserter
nal = u32(2) + b'\\x65\\x01'
content('c', 2, 3, video=lambda n, s, d: segment(s, [(90000, 6, 0, 0, nal), (90000, 6, 0, 0, nal)]))
base = VOD + '/c'
m = re.sub('<AdaptationSet contentType="audio".*?</AdaptationSet>', '', open(base + '/Manifest.mpd').read()).replace('PT1H', 'PT6S')
open(base + '/Manifest.mpd', 'w').write(m)
open(base + '/x.scc', 'w').write('Scenarist_SCC V1.0\\n\\n00:00:01:00 94ae 9420\\n\\n00:00:04:15 9140\\n\\n')
out = tempfile.mkdtemp(prefix='demo')
atexit.register(shutil.rmtree, out, True)
with contextlib.redirect_stdout(io.StringIO()):
    CCInserter(base + '/Manifest.mpd', base + '/x.scc', out, -1, 1, 0).analyze()
count = 0
for d, _, fs in os.walk(out):
    for f in fs:
        if f.endswith('.m4s'):
            count += open(os.path.join(d, f), 'rb').read().count(b'GA94')
expect(count, 2, 'caption messages in the segments')
''', needs='a caption exactly at the boundary of two samples', breaks='The caption is inserted into both samples'),

dict(id='mup-order', property='C25', edits=[
     (D+'configprocessor.py', '''                start_time = int(value)
            elif key == "stop":''', '''                start_time = int(value)
                cfg.minimum_update_period_in_s = DEFAULT_SHORT_MINIMUM_UPDATE_PERIOD_IN_S
            elif key == "stop":'''),
     (D+'configprocessor.py', '''        if self.minimum_update_period_in_s is None:
            self.minimum_update_period_in_s = DEFAULT_SHORT_MINIMUM_UPDATE_PERIOD_IN_S
        if len(durations) > 0:''', '''        if self.minimum_update_period_in_s is None:  # Relative start time
            self.minimum_update_period_in_s = DEFAULT_SHORT_MINIMUM_UPDATE_PERIOD_IN_S
        if len(durations) > 0:''')],
     demo='''
import re
content('c', 2, 30)


def mup(url):
    return re.search('minimumUpdatePeriod="([^"]*)"', get(url, 2000).body.decode()).group(1)


expect(mup('/dash/start_1000/mup_30/c/Manifest.mpd'), 'PT30S', 'start, then mup')
expect(mup('/dash/mup_30/start_1000/c/Manifest.mpd'), 'PT30S', 'mup, then start')
''', needs='the update period option before the start time in the URL', breaks='The update period asked for is ignored'),
]
