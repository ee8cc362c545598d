D = 'dashlib/'
BUGS = [
dict(id='stop-aligned', property='C01', file=D+'configprocessor.py',
     old='self.stop_time = quantize(stop_time + 0.999 * self.seg_duration,',
     new='self.stop_time = quantize(stop_time + self.seg_duration,',
     demo='''
content('c', 4, 10)
# the session 1000..1040 has segments 0..9
expect(get('/dash/start_1000/stop_1040/c/V1/9.m4s', 1050).status, 200, 'last segment')
expect(get('/dash/start_1000/stop_1041/c/V1/10.m4s', 1050).status, 200, 'segment of the partial interval')
expect(get('/dash/start_1000/stop_1040/c/V1/10.m4s', 1050).status, 404, 'segment after the stop')
''', needs='a stop time that is a multiple of the segment duration', breaks='One segment beyond the stop time is served (and announced)'),

dict(id='thumb-ato', property='C01', file=D+'dash_proxy.py',
     old='''    if cfg.availability_time_offset_in_s != -1:  # -1 is infinity
        if now_float < seg_ast - cfg.availability_time_offset_in_s:
            return error_response(dashProv, "Request for %s was %.1fs too early" % (seg_name, seg_ast - now_float))
        # If stop_number is not None, the manifest will become static
        if ((now_float > seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s) and not stop_number):''',
     new='''    if cfg.availability_time_offset_in_s != -1:  # -1 is infinity
        if now_float < seg_ast - cfg.availability_time_offset_in_s:
            return error_response(dashProv, "Request for %s was %.1fs too early" % (seg_name, seg_ast - now_float))
        # If stop_number is not None, the manifest will become static
        if ((dashProv.now > seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s) and not stop_number):''',
     demo='''
content('c', 4, 10, images=True)
expect(get('/dash/tsbd_20/c/thumbs/5.jpg', 24 + 4 + 20).status, 200, 'at the edge')
expect(get('/dash/tsbd_20/c/thumbs/5.jpg', 24 + 4 + 20.5).status, 404, 'after the edge')
''', needs='a thumbnail request within the second after it left the time-shift buffer', breaks='Thumbnails are served up to a second after the window'),

dict(id='dur-quantize', property='C01', file=D+'configprocessor.py',
     old='end_time = quantize(start_time + total_dur, self.seg_duration)',
     new='end_time = quantize(start_time, self.seg_duration) + quantize(total_dur, self.seg_duration)',
     demo='''
content('c', 4, 10)
# 1002 + 22 = 1024, session starts at 1000: segments 0..5
expect(get('/dash/start_1002/dur_22/c/V1/5.m4s', 1024).status, 200, 'last segment')
expect(get('/dash/start_1002/dur_22/c/V1/6.m4s', 1028).status, 404, 'after the last segment')
''', needs='start time and duration that are no multiples of the segment duration but whose remainders add up to one segment', breaks='The last segment of the session is refused'),

dict(id='tfdt-32-limit', property='C03', file=D+'mediasegmentfilter.py',
     old='if new_base_media_decode_time < 4294967296:',
     new='if new_base_media_decode_time <= 4294967296:',
     demo='''
content('c', 4, 16, vts=65536, video=lambda n, s, d: segment(s, [(d, 4, 0, 0, b'abcd')]))
n = 65536 // 4
r = get('/dash/c/V1/%d.m4s' % n, n * 4 + 10)
expect(r.status, 200)
expect(tfdt(r.body), 1 << 32, 'decode time')
''', needs='a decode time of exactly 2^32 in a segment stored with a 32-bit decode time', breaks='The decode time wraps (or the request fails) for that segment'),

dict(id='saio-multi', property='C03', file=D+'mediasegmentfilter.py',
     old='''                pos += 4
                output += uint32_to_str(offset + delta_offset)
                if i == 0:
                    self.new_saio_value = offset + delta_offset''',
     new='''                pos += 4
                if i == 0:
                    self.new_saio_value = offset = offset + delta_offset
                output += uint32_to_str(offset)''',
     demo='''
saio = full(b'saio', 0, 0, u32(2), u32(100), u32(200))
content('c', 4, 16, vts=65536, video=lambda n, s, d: segment(s, [(d, 4, 0, 0, b'abcd')], saio=saio))
n = 65536 // 4 + 3
r = get('/dash/c/V1/%d.m4s' % n, n * 4 + 10)
b = find(r.body, b'moof', b'traf', b'saio')
expect((b[16:20], b[20:24]), (u32(104), u32(204)), 'offsets')
''', needs='a fragment whose auxiliary information has several offsets, with a decode time that has to grow to 64 bits',
     breaks='All but the first auxiliary offset keep pointing 4 bytes too early'),

dict(id='saio-aux-info', property='C03', file=D+'mediasegmentfilter.py',
     old='''        if flags & 0x1:
            pos += 8
        entry_count = str_to_uint32(data[pos:pos + 4])''',
     new='''        if version == 1:
            pos += 8
        entry_count = str_to_uint32(data[pos:pos + 4])''',
     demo='''
saio = full(b'saio', 0, 1, b'cenc', u32(0), u32(1), u32(100))
content('c', 4, 16, vts=65536, video=lambda n, s, d: segment(s, [(d, 4, 0, 0, b'abcd')], saio=saio))
n = 65536 // 4 + 3
r = get('/dash/c/V1/%d.m4s' % n, n * 4 + 10)
expect(r.status, 200)
b = find(r.body, b'moof', b'traf', b'saio')
expect(b[12:], b'cenc' + u32(0) + u32(1) + u32(104), 'auxiliary offsets')
''', needs='auxiliary offsets box with the aux_info_type fields', breaks='The box is cut or its offsets are wrong'),

dict(id='mux-lmsg', property='C04', file=D+'dash_proxy.py',
     old='''        seg1 = filter_media_segment(dashProv, cfg.reps[0], rel_path1, vod_nr, seg_nr, seg_ext,
                                    offset_at_loop_start, lmsg)''',
     new='''        seg1 = filter_media_segment(dashProv, cfg.reps[0], rel_path1, vod_nr, seg_nr, seg_ext,
                                    offset_at_loop_start, False)''',
     demo='''
content('c', 4, 10)
r = get('/dash/start_1000/dur_40/c/V1__A1/9.m4s', 1042)
expect(b'lmsg' in brands(r.body), True, 'last segment marked')
''', needs='a multiplexed last segment', breaks='The last multiplexed segment of a session is not marked'),

dict(id='modulo-last', property='C04', file=D+'configprocessor.py',
     old='self.last_segment_numbers.append(first_segment_number + nr_segments - 1)',
     new='''if modulo_period.percent < 90:
            self.last_segment_numbers.append(first_segment_number + nr_segments - 1)''',
     demo='''
content('c', 4, 10)
# period of 600 s: in its first tenth the presentation lasts 120 s; from 90 % on the next one is announced
expect(get('/dash/modulo_10/ato_200/c/V1/30.m4s', 6000 + 570).status, 404, 'beyond the last segment')
expect(get('/dash/modulo_10/ato_200/c/V1/29.m4s', 6000 + 570).status, 200, 'last segment')
r = get('/dash/modulo_10/ato_200/c/V1/29.m4s', 6000 + 570)
expect(b'lmsg' in brands(r.body), True, 'marked')
''', needs='a request in the last tenth of a modulo period with an availability offset', breaks='Last segment of the coming session is not marked and later numbers are served'),

dict(id='mpd-etp', property='C05', file=D+'mpd_proxy.py',
     old='''    if cfg.stop_time is not None and (now > cfg.stop_time):''',
     new='''    if cfg.stop_time is not None and (now >= cfg.stop_time - cfg.seg_duration):''',
     demo='''
content('c', 4, 10)
expect('type="dynamic"' in get('/dash/start_1000/stop_1040/c/Manifest.mpd', 1036).body.decode(), True, 'dynamic at 1036')
expect('type="static"' in get('/dash/start_1000/stop_1040/c/Manifest.mpd', 1041).body.decode(), True, 'static at 1041')
''', needs='a manifest requested during the last segment of a start/stop session', breaks='The manifest turns static while the last announced segment is not available yet'),

dict(id='timeline-end', property='C06', file=D+'segtimeline.py',
     old='        while end_tics > end:\n',
     new='        while end_tics >= end:\n',
     demo='''
content('c', 4, 100)
b = get('/dash/segtimeline_1/tsbd_8/c/Manifest.mpd', 43).body.decode()
b2 = get('/dash/segtimeline_1/tsbd_8/c/Manifest.mpd', 44).body.decode()
expect(b2.count('t="%d"' % (36 * 90000)), 1, 'first entry at 44')
import re
expect([int(x) for x in re.findall(r'r="(\\d+)"', b2)], [1, 1], 'repeats at 44')
''', needs='a request at the very second a segment completes', breaks='The newest complete segment is missing from the timeline'),

dict(id='timeline-round', property='C06', file=D+'dash_proxy.py',
     old='''        seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale))
        seg_nr += cfg.start_nr == -1 and 1 or cfg.start_nr  # Media time 0 is the first segment number
    else:
        seg_nr = int(seg_base)
    seg_start_nr = cfg.start_nr == -1 and 1 or cfg.adjusted_start_number
    if seg_nr < seg_start_nr:
        return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
    stop_number = cfg.stop_number
    if stop_number and seg_nr >= stop_number:
        return error_response(dashProv, "Beyond last segment %d" % stop_number)
    if len(cfg.last_segment_numbers) > 0:
        very_last_segment = cfg.last_segment_numbers[-1]
        if seg_nr > very_last_segment:
            return error_response(dashProv, "Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
    lmsg =''',
     new='''        seg_nr = int(float(seg_base[1:]) / seg_dur / timescale + 0.25)
        seg_nr += cfg.start_nr == -1 and 1 or cfg.start_nr  # Media time 0 is the first segment number
    else:
        seg_nr = int(seg_base)
    seg_start_nr = cfg.start_nr == -1 and 1 or cfg.adjusted_start_number
    if seg_nr < seg_start_nr:
        return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
    stop_number = cfg.stop_number
    if stop_number and seg_nr >= stop_number:
        return error_response(dashProv, "Beyond last segment %d" % stop_number)
    if len(cfg.last_segment_numbers) > 0:
        very_last_segment = cfg.last_segment_numbers[-1]
        if seg_nr > very_last_segment:
            return error_response(dashProv, "Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
    lmsg =''',
     demo='''
T = 90000
content('c', 2, 3, vdat=[(1, 0, 0, 2 * T - 54000), (2, 0, 2 * T - 54000, 2 * T + 54000), (3, 0, 4 * T, 2 * T)])
r = get('/dash/segtimeline_1/c/V1/t%d.m4s' % (2 * T - 54000), 5)
expect(r.status, 200, 'second segment by time')
expect(tfdt(r.body), 2 * T - 54000, 'decode time')
''', needs='segments that begin more than a quarter of the average duration early', breaks='A time-based request delivers the segment before the announced one'),

dict(id='init-v1-mdhd', property='C07', file=D+'initsegmentfilter.py',
     old='''        output = b""
        version = data[8]
        if version == 1:
            output += data[:32]
            output += b'\\x00' * 8  # duration
            output += data[40:]
        else:  # version = 0
            output += data[:24]
            output += b'\\x00' * 4  # duration
            output += data[28:]
        return output''',
     new='''        output = b""
        version = data[8]
        if version == 1:
            output += data[:28]
            output += b'\\x00' * 8  # duration
            output += data[36:]
        else:  # version = 0
            output += data[:24]
            output += b'\\x00' * 4  # duration
            output += data[28:]
        return output''',
     demo='''
content('c', 4, 10, files={'V1/init.mp4': init(90000, v=1, dur=0x123456789)})
b = get('/dash/c/V1/init.mp4', 100).body
m = find(b, b'moov', b'trak', b'mdia', b'mdhd')
expect(m[28:32], u32(90000), 'timescale')
expect(m[32:40], bytes(8), 'duration')
''', needs='an init segment with version 1 (64-bit) media header', breaks='The timescale is zeroed and the duration half kept'),

dict(id='mux-traf-scan', property='C08', file=D+'segmentmuxer.py',
     old='''        moof_size = 8 + len(self.mstruct1.mfhd) + len(self.mstruct1.traf) + len(self.mstruct2.traf)
        mdat_size =''',
     new='''        if len(self.mstruct1.mdat) == 8:  # Nothing in the first track
            traf2 = get_traf_with_mod_offset(self.mstruct2, len(self.mstruct1.traf) - 8)
        moof_size = 8 + len(self.mstruct1.mfhd) + len(self.mstruct1.traf) + len(self.mstruct2.traf)
        mdat_size =''',
     demo='''
content('c', 4, 10, video=lambda n, s, d: segment(s, []), audio=lambda n, s, d: segment(s, [(d, 4, 0, 0, b'wxyz')], track=2))
b = get('/dash/c/V1__A1/3.m4s', 18).body
m = b.index(b'moof') - 4
t = find(b, b'moof', b'traf', nr=1)
tr = find(t, b'traf', b'trun')
off = struct.unpack('>i', tr[16:20])[0]
expect(b[m + off:m + off + 4], b'wxyz', 'samples of the second track')
''', needs='a first track without media data in the segment', breaks='The data offset of the second track is 8 bytes too small'),

dict(id='chunk-drift', property='C09', file=D+'chunker.py',
     old='            d1 += duration\n            yield part', new='            d1 = d0 + duration\n            yield part',
     demo='''
T = 90000
sam = lambda n: [(36000, 4, 0, 0, b'%02d%02d' % (n, i)) for i in range(10)]
content('c', 4, 10, video=lambda n, s, d: segment(s, sam(n)))
r = get('/dash/chunkdur_1/ato_4/c/V1/3.m4s', 12)
# samples end at 0.4, 0.8, ... : chunks end with the samples that complete 1, 2, 3, 4 s
expect([tfdt(p) - 12 * T for _, p in r.parts], [0, 3 * 36000, 5 * 36000, 8 * 36000], 'chunk starts')
''', needs='sample durations that do not divide the chunk duration', breaks='Chunk boundaries drift, later chunks end too late and the number of chunks shrinks'),

dict(id='pace-stale', property='C10', file='mod_wsgi/mod_dashlivesim.py',
     old='                now_float = time()  # Update time\n',
     new='                if i == 1:\n                    now_float = time()  # Update time\n',
     demo='''
sam = lambda n: [(90000, 4, 0, 0, b'abcd') for i in range(4)]
content('c', 4, 10, video=lambda n, s, d: segment(s, sam(n)))
r = get('/dash/chunkdur_1/ato_4/c/V1/3.m4s', 12)
expect([round(t, 3) for t, _ in r.parts], [12.9, 13.9, 14.9, 15.9], 'release times')
''', needs='a segment requested while it is produced, three or more chunks', breaks='Each chunk sleeps for the total time since the request: releases are delayed more and more'),

dict(id='range-clamp', property='C11', file='mod_wsgi/mod_dashlivesim.py',
     old='range_end = min(int(range_end), length-1)', new='range_end = min(int(range_end), length)',
     demo='''
content('c', 4, 10)
n = len(get('/dash/c/V1/3.m4s', 18).body)
r = get('/dash/c/V1/3.m4s', 18, rng='bytes=10-%d' % (n + 5))
expect(r.headers['Content-Range'], 'bytes 10-%d/%d' % (n - 1, n), 'Content-Range')
''', needs='a range whose end lies beyond the resource', breaks='Content-Range names a byte after the end'),
]
