#@ dashlib/timeformatconversions.py +imports
from datetime import datetime, timedelta, timezone
#@ dashlib/timeformatconversions.py make_timestamp
def make_timestamp(time_in_s):
    "Return timestamp as string."
    moment = datetime(1970, 1, 1) + timedelta(seconds=time_in_s)
    return moment.isoformat(timespec='seconds') + 'Z'
#@ dashlib/timeformatconversions.py seconds_to_iso_duration
def seconds_to_iso_duration(nr_secs):
    "Make interval string in format PT... from time in seconds."
    text = []
    for name, unit, nr in (("D", 86400, None), ("H", 3600, 24), ("M", 60, 60), ("S", 1, 60)):
        count = nr_secs // unit
        if nr is not None:
            count %= nr
        if name == "H":
            text.append("T")
        if count > 0:
            text.append(str(count) + name)
    if text[-1] == "T":
        text.append("0S")
    return "P" + "".join(text)
#@ dashlib/configprocessor.py +imports
import os.path
from itertools import accumulate, takewhile
#@ dashlib/configprocessor.py quantize
def quantize(number, step):
    "Quantize number to a multiple of step."
    whole = int(number)
    return whole - whole % step
#@ dashlib/configprocessor.py Config.update_with_reps
def update_with_reps(self, vod_cfg, url_parts, url_pos):
    "Update config with representations and their data."
    def describe(rep):
        content_type = vod_cfg.content_type_for_rep(rep)
        return dict(id=rep, content_type=content_type, timescale=vod_cfg.media_data[content_type]['timescale'])
    only_manifest = len(url_parts) <= url_pos + 2
    self.reps = [] if only_manifest else [describe(rep) for rep in url_parts[-2].split(MUX_DIVIDER)]
#@ dashlib/configprocessor.py Config.update_with_aet
def update_with_aet(self, now_int, availability_end_times, media_presentation_durations):
    "Find the proper availabilityEndTime and mediaPresentation duration for now and set in cfg."
    margin = 2 * self.minimum_update_period_in_s
    announced = list(reversed(list(zip(availability_end_times, media_presentation_durations))))
    if not announced:
        return
    still_ahead = list(takewhile(lambda x: now_int <= x[0] - margin, announced))
    self.availability_end_time, self.media_presentation_duration = (still_ahead or announced[:1])[-1]
#@ dashlib/configprocessor.py Config.process_start_time
def process_start_time(self, start_time, durations, now_int, stop_time):
    "Process start_time and durations and set appropriate values."
    step = self.seg_duration
    ast = quantize(start_time, step)
    self.availability_start_time_in_s = self.start_time = ast
    if self.minimum_update_period_in_s is None:
        self.minimum_update_period_in_s = DEFAULT_SHORT_MINIMUM_UPDATE_PERIOD_IN_S
    if durations:
        totals = list(accumulate(durations))
        ends = [quantize(start_time + total, step) for total in totals]
        first = self.adjusted_start_number if self.start_nr != -1 else 1
        self.last_segment_numbers += [first + (ends[-1] - ast) // step - 1]
        self.update_with_aet(now_int, ends, totals)
    if stop_time is None:
        return
    self.stop_time = quantize(stop_time + 0.999 * step, step)
    self.media_presentation_duration = self.timeshift_buffer_depth_in_s = self.stop_time - ast
#@ dashlib/configprocessor.py Config.adjusted_pto
def adjusted_pto(self, pto, timescale):
    if self.timeoffset is None:
        return pto
    shift = self.availability_start_time_in_s - self.timeoffset
    return shift * timescale + pto
#@ dashlib/configprocessor.py Config.stop_number
@property
def stop_number(self):
    return None if self.stop_time is None else \
        self.media_presentation_duration // self.seg_duration + self.adjusted_start_number
#@ dashlib/configprocessor.py ConfigProcessor.process_url
def process_url(self, url_parts, now_int=0):
    """Extract config and calculate availabilityStartTimeInS and availabilityEndTime from URL."""
    cfg = self.cfg
    session = {'start': None, 'stop': None, 'offset': None, 'cont': False, 'modulo': None, 'location': False}
    durations = []

    def attr(name, convert=int):
        return lambda value: setattr(cfg, name, convert(value))

    def flag(name):
        def setter(value):
            if int(value) == 1:
                setattr(cfg, name, True)
        return setter

    def entry(name, convert=int):
        def setter(value):
            session[name] = convert(value)
        return setter

    def relative(name):
        def setter(value):
            session[name] = now_int + int(value)
            session['location'] = True
        return setter

    def set_ato(value):
        try:
            cfg.availability_time_offset_in_s = -1 if value == "inf" else max(float(value), 0)
        except ValueError:
            cfg.availability_time_offset_in_s = 0

    def set_chunkdur(value):
        try:
            duration = float(value)
        except ValueError:
            return
        if duration > 0:
            cfg.chunk_duration_in_s, cfg.availability_time_complete = duration, False

    handlers = {
        'sts': lambda value: None, 'sid': lambda value: None,
        'start': entry('start'), 'ast': entry('start'), 'stop': entry('stop'),
        'startrel': relative('start'), 'stoprel': relative('stop'),
        'dur': lambda value: durations.append(int(value)),
        'timeoffset': entry('offset'), 'init': attr('init_seg_avail_offset'),
        'tsbd': attr('timeshift_buffer_depth_in_s'), 'mup': attr('minimum_update_period_in_s'),
        'modulo': entry('modulo', lambda value: ModuloPeriod(int(value), now_int)),
        'tfdt': attr('tfdt32_flag', lambda value: True), 'cont': entry('cont', lambda value: True),
        'periods': attr('periods_per_hour'), 'xlink': attr('xlink_periods_per_hour'),
        'etp': attr('etp_periods_per_hour'), 'etpDuration': attr('etp_duration'), 'insertad': attr('insert_ad'),
        'mpdcallback': attr('mpd_callback'), 'continuous': flag('cont_multiperiod'),
        'segtimeline': flag('seg_timeline'), 'segtimelinenr': flag('seg_timeline_nr'),
        'baseurl': cfg.multi_url.append, 'peroff': attr('period_offset'), 'scte35': attr('scte35_per_minute'),
        'utc': attr('utc_timing_methods', lambda value: value.split("-")), 'snr': attr('start_nr', self.interpret_start_nr),
        'ato': set_ato, 'spd': attr('suggested_presentation_delay_in_s'), 'sidx': flag('insert_sidx'),
        'segtimelineloss': flag('segtimelineloss'), 'chunkdur': set_chunkdur}
    url_pos = 0
    for part in url_parts:
        key, sep, value = part.partition("_")
        if key not in handlers:
            break
        if not sep:
            raise ValueError("No value for " + key)
        handlers[key](value)
        url_pos += 1

    cfg.update_with_filedata(url_parts, url_pos)
    vod_cfg = VodConfig()
    vod_cfg.read_config(os.path.join(self.vod_cfg_dir, cfg.content_name + ".cfg"))
    cfg.update_with_reps(vod_cfg, url_parts, url_pos)
    cfg.update_with_vodcfg(vod_cfg)

    if session['offset'] is not None:
        cfg.set_timeoffset(session['offset'])
    if session['start'] is not None:
        if session['modulo'] is not None:
            raise ConfigProcessorError("Cannot have both start_time and modulo_period set!")
        cfg.process_start_time(session['start'], durations, now_int, session['stop'])
    if cfg.tfdt32_flag:
        if session['cont']:
            raise ConfigProcessorError("Cannot have continuous update with tfdt_32 (similar behavior)")
        cfg.update_for_tfdt32(now_int)
    if session['cont']:
        cfg.update_for_cont_update(now_int)
    if session['modulo'] is not None:
        cfg.update_with_modulo_period(session['modulo'], cfg.seg_duration)
    cfg.update_publish_time(now_int)
    if session['location']:
        cfg.do_add_location()
#@ dashlib/segtimeline.py +imports
from dataclasses import dataclass
from struct import iter_unpack


@dataclass(order=True)
class Spot:
    "A segment of the endless timeline."
    wraps: int
    index: int
    repeats: int
#@ dashlib/segtimeline.py SegmentTimeLineGenerator.__init__
def __init__(self, media_data, cfg):
    self.timescale = media_data['timescale']
    self.cfg = cfg
    with open(os.path.join(cfg.vod_cfg_dir, media_data['dat_file']), "rb") as ifh:
        self.segtimedata = [SegTimeEntry(*fields) for fields in iter_unpack(SEGTIMEFORMAT, ifh.read())]
    self.interval_starts = [start for _, _, start, _ in self.segtimedata]
    self.wrap_duration = cfg.vod_wrap_seconds * self.timescale
    self.nr_segments_per_wrap = cfg.vod_nr_segments_in_loop
    self.first_segment_number = cfg.vod_first_segment_in_loop
    self.start_number = None
#@ dashlib/segtimeline.py SegmentTimeLineGenerator.create_segtimeline
def create_segtimeline(self, start_time, end_time, use_closest=False):
    "Create and insert a new <SegmentTimeline> element and S entries."
    seg_timeline = ElementTree.Element(add_ns('SegmentTimeline'))
    seg_timeline.text = seg_timeline.tail = "\n"
    self.start_number = None
    start, end = (t * self.timescale for t in (start_time, end_time))
    index, repeats, wraps = self.find_latest_starting_before(end)
    if index is None:
        raise SegmentTimeLineGeneratorError("No end_index for %d %d. Before AST" % (start_time, end_time))
    last = Spot(wraps, index, repeats)
    while self.get_seg_endtime(last.wraps, last.index, last.repeats) > end:
        if last.repeats:
            last.repeats -= 1
            continue
        last.index -= 1
        if last.index < 0:
            last.index += len(self.segtimedata)
            last.wraps -= 1
            if last.wraps < 0:
                return seg_timeline
        last.repeats = self.segtimedata[last.index].repeats
    finder = self.find_closest_start if use_closest else self.find_latest_starting_before
    index, repeats, wraps = finder(start)
    first = Spot(wraps, index, repeats)
    first_time = self.get_seg_starttime(first.wraps, first.index, first.repeats)
    if self.get_seg_starttime(last.wraps, last.index, last.repeats) < first_time:
        return seg_timeline
    wraps, index = first.wraps, first.index
    while (wraps, index) <= (last.wraps, last.index):
        data = self.segtimedata[index]
        at_first = (wraps, index) == (first.wraps, first.index)
        at_last = (wraps, index) == (last.wraps, last.index)
        count = (last.repeats if at_last else data.repeats) - (first.repeats if at_first else 0)
        seg_timeline.append(self.generate_s_elem(first_time if at_first else None, data.duration, count))
        index += 1
        if index == len(self.segtimedata):
            wraps, index = wraps + 1, 0
    number = self.get_seg_number(first.wraps, first.index, first.repeats)
    self.start_number = number + (1 if self.cfg.start_nr == -1 else self.cfg.start_nr)
    return seg_timeline
#@ dashlib/segtimeline.py SegmentTimeLineGenerator.find_latest_starting_before
def find_latest_starting_before(self, act_time):
    "Find the latest segment starting before act_time."
    nr_wraps = act_time // self.wrap_duration
    if nr_wraps < 0:
        return (None, None, None)  # This is before AST
    rel_time = act_time - nr_wraps * self.wrap_duration
    index = max(0, bisect.bisect_right(self.interval_starts, rel_time)) - 1
    seg_data = self.segtimedata[index]
    return index, max(0, (rel_time - seg_data.start_time) // seg_data.duration), nr_wraps
#@ dashlib/segtimeline.py SegmentTimeLineGenerator.generate_s_elem
def generate_s_elem(self, start_time, duration, repeat):
    "Generate the S elements for the SegmentTimeline."
    attrib = {} if start_time is None else {"t": f"{start_time}"}
    attrib["d"] = f"{duration}"
    if repeat > 0:
        attrib["r"] = f"{repeat}"
    s_elem = ElementTree.Element(add_ns('S'), attrib)
    s_elem.tail = "\n"
    return s_elem
#@ dashlib/chunker.py partition
def partition(samples, duration):
    done, limit = 0, duration
    part = []
    for sample in samples:
        if done >= limit:
            yield part
            part, limit = [], limit + duration
        part += [sample]
        done += sample.duration
    if len(part) > 0:
        yield part
#@ dashlib/chunker.py chunk
def chunk(data, duration, trex_box):
    "Decode data into a segment and chunk it given duration and trex_box data."
    moof = mp4(data).find(b'moof')
    seqno, track_id = moof.find(b'mfhd').seqno, moof.find(b'traf.tfhd').track_id
    samples = decode_fragment(data, trex_box)
    return [b''.join(box.serialize() for box in pair) for pair in encode_chunked(seqno, track_id, samples, duration)]
#@ dashlib/segmentmuxer.py +imports
from functools import reduce


def make_box(kind, *parts):
    payload = b"".join(parts)
    return (len(payload) + 8).to_bytes(4, 'big') + kind + payload
#@ dashlib/segmentmuxer.py MultiplexInits.construct_muxed
def construct_muxed(self):
    "Construct a multiplexed init segment."
    one, two = self.istruct1, self.istruct2
    mvex = make_box(b'mvex', one.trex, two.trex)
    return one.ftyp + make_box(b'moov', one.mvhd, mvex, one.trak, two.trak)
#@ dashlib/segmentmuxer.py MultiplexMediaSegments.mux_on_sample_level
def mux_on_sample_level(self):
    "Mux media samples into one mdata. This is done by simple concatenation."
    one, two = self.mstruct1, self.mstruct2
    shifts = (len(two.traf), len(one.traf) + len(one.mdat) - 8)
    trafs = []
    for struct, shift in zip((one, two), shifts):
        traf = bytearray(struct.traf)
        at = struct.trun_data_offset_in_traf
        if struct.trun_data_offset is not None:
            traf[at:at + 4] = uint32_to_str(struct.trun_data_offset + shift)
        trafs.append(bytes(traf))
    boxes = [one.styp or b"", make_box(b'moof', one.mfhd, *trafs), make_box(b'mdat', one.mdat[8:], two.mdat[8:])]
    return reduce(lambda a, b: a + b, boxes)
#@ dashlib/initsegmentfilter.py InitLiveFilter.process_mvhd
def process_mvhd(self, data):
    "Set duration in mvhd."
    wide = data[8] == 1
    at, width = (32, 8) if wide else (24, 4)
    self.movie_timescale = str_to_uint32(data[at - 4:at])
    return data[:at] + bytes(width) + data[at + width:]
#@ dashlib/initsegmentfilter.py InitLiveFilter.process_tkhd
def process_tkhd(self, data):
    "Set track duration."
    out = bytearray(data)
    span = slice(36, 44) if out[8] == 1 else slice(28, 32)
    out[span] = b'\0' * (span.stop - span.start)
    return bytes(out)
#@ dashlib/initsegmentfilter.py InitLiveFilter.process_mdhd
def process_mdhd(self, data):
    "Set media duration."
    start, stop = {1: (32, 40)}.get(data[8], (24, 28))
    return b"".join([data[:start], b'\x00' * (stop - start), data[stop:]])
#@ mod_wsgi/mod_dashlivesim.py +imports
import re

RANGE = re.compile(r"^(\d*)-(\d*)$")
#@ mod_wsgi/mod_dashlivesim.py start_reply
def start_reply(status_code, response, length=-1, headers=None):
    "Start reply by writing headers reply."
    out = dict(headers or {})
    out.update({'Accept-Ranges': 'bytes', 'Pragma': 'no-cache', 'Cache-Control': 'no-cache', 'Expires': '-1',
                'DASH-Live-Simulator': SERVER_AGENT,
                'Access-Control-Allow-Headers': 'origin,range,accept-encoding,referer',
                'Access-Control-Allow-Methods': 'GET,HEAD,OPTIONS', 'Access-Control-Allow-Origin': '*',
                'Access-Control-Expose-Headers': 'Server,range,Content-Length,Content-Range,Date'})
    if length >= 0:
        out['Content-Length'] = f"{length}"
    out.setdefault('Content-Type', 'text/plain')
    response(f"{status_code} {status_string[status_code]}", [*out.items()])
#@ mod_wsgi/mod_dashlivesim.py get_mime_type
def get_mime_type(ext):
    "Get mime-type depending on extension."
    return {".mpd": "application/dash+xml", ".m4s": "video/iso.segment", ".mp4": "video/mp4"}.get(ext, "text/plain")
#@ mod_wsgi/mod_dashlivesim.py handle_byte_range
def handle_byte_range(payload, range_line):
    """Handle byte range and return data and range-header value.
    If range is strange, return empty string."""
    refused = (payload, "")
    spec = range_line.rsplit("=", 1)[-1]
    if "," in spec or spec.count("-") != 1:
        return refused
    first, last = spec.split("-")
    length = len(payload)
    try:
        if first:
            start = int(first)
            end = min(int(last), length - 1) if last else length - 1
        elif last:
            start, end = max(0, length - int(last)), length - 1
        else:
            return refused
    except ValueError:  # Not a range of numbers
        return refused
    if start > end:
        return refused
    return payload[start:end + 1], f"bytes {start}-{end}/{length}"
#@ mod_wsgi/mod_dashlivesim.py +before application
def _paced(chunked, chunk_dur):
    "Yield the chunks, each when it has become available."
    margin = 0.1  # Make available 100ms before the formal time
    for nr, data in enumerate(chunked.chunks):
        wait = chunked.seg_start + (nr + 1) * chunk_dur - margin - time()
        if wait > 0:
            sleep(wait)
        yield data
#@ dashlib/mpd_proxy.py +imports
from functools import partial


def _per_hour(nr, others, text):
    "How many periods there are for each special one."
    count = min(others, 60)
    if nr % count:
        raise Exception(text)
    return nr // count
#@ dashlib/mpd_proxy.py generate_period_data
def generate_period_data(mpd_data, now, cfg):
    """Generate an array of period data depending on current time (now) and tsbd. 0 gives one period with start=1000h.

    mpd_data is changed (minimumUpdatePeriod)."""
    nr_per_hour = min(mpd_data['periodsPerHour'], 60)
    if nr_per_hour != -1 and nr_per_hour != 0 and (nr_per_hour < 0 or nr_per_hour not in (
            1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60)):
        raise Exception(f"Bad nr of periods per hour {nr_per_hour}")
    seg_dur = mpd_data['segDuration']
    number = mpd_data['startNumber']
    pto = mpd_data['presentationTimeOffset']
    if nr_per_hour == -1:
        return [dict(id="p0", start='PT0S', startNumber=f"{number}", duration=seg_dur, presentationTimeOffset=f"{pto}",
                     start_s=0)]
    number = 1 if number == -1 else number

    def make(nr, start):
        return {'id': f"p{nr}", 'start': f'PT{start}S', 'startNumber': str(number + start // seg_dur),
                'duration': seg_dur, 'presentationTimeOffset': pto + start, 'start_s': start}

    if nr_per_hour == 0:
        only = make(0, 3600 * 1000)
        only['presentationTimeOffset'] = str(only['presentationTimeOffset'])
        return [only]
    length = 3600 // nr_per_hour
    half = length // 2
    mup = cfg.seg_duration if cfg.seg_timeline or cfg.seg_timeline_nr else half - 5
    mpd_data['minimumUpdatePeriod'] = "PT%dS" % mup
    elapsed = now - cfg.availability_start_time_in_s
    first = max((elapsed - mpd_data['timeShiftBufferDepthInS'] - seg_dur) // length, 0)
    last = max((elapsed + half) // length, 0)
    etp_each = callback_each = None
    if mpd_data['etpPeriodsPerHour'] > 0:
        etp_each = _per_hour(nr_per_hour, mpd_data['etpPeriodsPerHour'],
                             "(Number of periods per hour/ Number of etp periods per hour) should be an integer.")
        etp = half if mpd_data['etpDuration'] == -1 else mpd_data['etpDuration']
        if etp > length:
            raise Exception("Duration of the early terminated period should be less that the duration of a "
                            "regular period")
    if mpd_data['mpdCallback'] > 0:
        callback_each = _per_hour(nr_per_hour, mpd_data['mpdCallback'],
                                  "(Number of periods per hour/ Number of callback periods per hour) "
                                  "should be an integer.")
    ad_each = nr_per_hour // mpd_data['xlinkPeriodsPerHour'] if mpd_data['insertAd'] > 0 else 0
    periods = []
    for nr in range(first, last + 1):
        period = make(nr, nr * length)
        if etp_each is not None and nr % etp_each == 0:
            period.update(etpDuration=etp, period_duration_s=etp)
        if callback_each is not None and nr % callback_each == 0:
            period['mpdCallback'] = 1
        if ad_each > 0 and nr % ad_each == 0 and periods:
            periods[-1].update(periodDuration='PT%dS' % length, period_duration_s=length)
        periods.append(period)
    for period in periods[:-1]:
        period.setdefault('period_duration_s', length)
    return periods
#@ dashlib/mpdprocessor.py set_values_from_dict
def set_values_from_dict(element, keys, data):
    "Set attribute key of element to value data[key] for all keys (if present)."
    element.attrib.update({key: f"{data[key]}" for key in keys if key in data})
#@ dashlib/mpdprocessor.py MpdProcessor.insert_baseurl
def insert_baseurl(self, mpd, pos, new_baseurl, new_ato, new_atc):
    "Create and insert a new <BaseURL> element."
    elem = ElementTree.Element(add_ns('BaseURL'))
    elem.text, elem.tail = new_baseurl, "\n"
    offset = float(new_ato)
    if offset == -1 or offset > 0:
        self.insert_ato(elem, 'INF' if offset == -1 else new_ato)
    if new_atc.lower() in {'false', '0'}:
        elem.attrib['availabilityTimeComplete'] = new_atc
    mpd.insert(pos, elem)
#@ mod_wsgi/mod_dashlivesim.py application
def application(environment, start_response):
    "WSGI Entrypoint"

    hostname = environment['HTTP_HOST']
    url = urlparse(environment.get('REQUEST_URI'))
    vod_conf_dir = environment['VOD_CONF_DIR']
    content_root = environment['CONTENT_ROOT']
    is_https = environment.get('wsgi.url_scheme') == 'https'
    path_parts = url.path.split('/')
    ext = splitext(path_parts[-1])[1]
    query = url.query if url.query else environment.get('QUERY_STRING', '')
    args = parse_qs(query)

    now = time()

    body = None

    if MAX_SESSION_LENGTH:  # Redirect and do limit sessions in time
        # Check if there is a sts_xxx parameter.
        start_time = None
        for part in path_parts:
            if part.startswith('sts_'):
                try:
                    start_time = int(part[4:])
                except Exception:
                    pass

        if ext == ".mpd" and start_time is None:
            new_url = 'https://' if is_https else 'http://'
            start_part = "sts_%d" % int(now)
            session_id_path = "sid_%s" % sessionid.generate_session_id()
            path_parts = (path_parts[:2] + [start_part] +
                          [session_id_path] + path_parts[2:])
            new_url += hostname + '/'.join(path_parts)
            if query:
                new_url += '?' + query
            body = b""
            start_reply(302, start_response, len(body), {'Location': new_url})
            body = b""
        elif start_time is None:
            body = b'No start_time in non-manifest request'
            start_reply(404, start_response, len(body))
        elif now > start_time + MAX_SESSION_LENGTH:
            msg = "Maximum session length %ds passed" % MAX_SESSION_LENGTH
            body = msg.encode('utf-8')
            start_reply(410, start_response, len(body))
        elif start_time > now + 5:  # Give some margin
            body = b'start_time is in future'
            start_reply(404, start_response, len(body))

    if body is not None:
        yield body
    else:
        range_line = None
        if 'HTTP_RANGE' in environment:
            range_line = environment['HTTP_RANGE']

        success = True
        mimetype = get_mime_type(ext)
        status_code = 200
        payload_in = None
        chunk = chunk_out = False

        try:
            dashProv = dash_proxy.createProvider(hostname, path_parts[1:], args,
                                                 vod_conf_dir, content_root, now,
                                                 None, is_https)
            cfg = dashProv.cfg
            ext = cfg.ext
            if ext == ".m4s":
                if cfg.chunk_duration_in_s is not None and cfg.chunk_duration_in_s > 0:
                    chunk = True
                response = dash_proxy.get_media(dashProv, chunk)
                if isinstance(response, ChunkedSegment):
                    chunk_out = True
            elif ext in (".mpd", ".period"):
                response = mpd_proxy.get_mpd(dashProv)
            elif ext == ".mp4":
                response = dash_proxy.get_init(dashProv)
            elif ext == ".jpg":
                response = dash_proxy.get_media(dashProv)
            if isinstance(response, bytes) or isinstance(response, str) or chunk_out:
                if isinstance(response, str):
                    response = response.encode('utf-8')
                payload_in = response
                if not payload_in:
                    success = False
            else:
                if not response['ok']:
                    success = False
                payload_in = response['pl']

        # pylint: disable=broad-except
        except Exception as exc:
            success = False
            traceback.print_exc()
            payload_in = "DASH Proxy Error: {0}\n URL={1}".format(exc, url)

        if not success:
            if not payload_in:
                payload_in = "Not found (now)"

            status_code = 404
            mimetype = "text/plain"

        if isinstance(payload_in, str):
            payload_in = payload_in.encode('utf-8')
        payload_out = payload_in

        # Setup response headers
        headers = {'Content-Type': mimetype}

        if status_code != 404:
            if range_line and not chunk_out:
                payload_out, range_out = handle_byte_range(payload_in, range_line)
                if range_out != "":  # OK
                    headers['Content-Range'] = range_out
                    status_code = 206
                else:  # Bad range, drop it
                    print("mod_dash_handler: Bad range {0}".format(range_line))

        if not chunk_out:
            start_reply(status_code, start_response, len(payload_out), headers)
            yield payload_out
        else:
            start_reply(status_code, start_response, -1, headers)
            yield from _paced(payload_out, cfg.chunk_duration_in_s)
