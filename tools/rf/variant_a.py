#@ dashlib/dash_proxy.py +imports
from pathlib import Path
from functools import partial
#@ dashlib/dash_proxy.py error_response
def error_response(dashProv, msg):
    "Return a mod_python error response."
    req = dashProv.req
    if req:
        tail = "/".join(dashProv.url_parts[-3:])
        req.log_error(f"dash_proxy: [{tail}] {msg}")
    return dict(ok=False, pl=f"{msg}\n")
#@ dashlib/dash_proxy.py get_init
def get_init(dashProv):
    cfg = dashProv.cfg
    if cfg.ext != ".mp4":  # Init segment
        raise ValueError("Bad extension for init segment")
    available_from = cfg.availability_start_time_in_s - cfg.init_seg_avail_offset
    if dashProv.now >= available_from:
        return process_init_segment(dashProv)
    return error_response(dashProv, f"Request for {cfg.filename} was {available_from - dashProv.now_float:.1f}s too early")
#@ dashlib/dash_proxy.py get_media
def get_media(dashProv, chunk=False):
    cfg = dashProv.cfg
    if cfg.ext not in {".m4s", ".jpg"}:  # Media segment or thumbnail
        raise ValueError(f"Extension {cfg.ext} not for media")
    refusal = _outside_session(dashProv)
    if refusal is not None:
        return refusal
    if cfg.ext == ".jpg":
        return process_thumbnail(dashProv, dashProv.now_float)
    serve = partial(process_media_segment, dashProv, dashProv.now_float, chunk)
    if len(cfg.multi_url) != 1:
        return serve()
    # There is one specific baseURL with losses specified
    (first, dur1), (second, dur2) = ((var[0], int(var[1:])) for var in cfg.multi_url[0].split("_"))
    total_dur = dur1 + dur2
    now_mod_60 = dashProv.now % 60
    starts = range(0, int(ceil(60.0 / float(total_dur))) * total_dur, total_dur)
    response = None
    if (first, second) == ('u', 'd'):
        for start in starts:
            if start + dur1 < now_mod_60 <= start + total_dur:
                return error_response(dashProv, "BaseURL server down at %d" % (dashProv.now))
            if now_mod_60 == start + dur1:
                cfg.emsg_last_seg = True
                try:
                    response = serve()
                finally:
                    cfg.emsg_last_seg = False
    elif (first, second) == ('d', 'u'):
        if any(start < now_mod_60 <= start + dur1 for start in starts):
            return error_response(dashProv, "BaseURL server down at %d" % (dashProv.now))
    return serve() if response is None else response
#@ dashlib/dash_proxy.py +before get_media
def _outside_session(dashProv):
    "A refusal when now is before or after the whole session."
    cfg = dashProv.cfg
    now = dashProv.now_float
    infinite = cfg.availability_time_offset_in_s == -1
    first = cfg.availability_start_time_in_s
    if not infinite:
        first = first + cfg.seg_duration - cfg.availability_time_offset_in_s
    if now < first:
        return error_response(dashProv, f"Request {cfg.filename} before first seg AST. {first - now:.1f}s too early")
    end = cfg.availability_end_time
    if end is None:
        return None
    last = end + EXTRA_TIME_AFTER_END_IN_S
    if dashProv.now > last:
        return error_response(dashProv, "Request for {} after AET. {:.1f}s too late".format(cfg.filename, now - last))
    return None


def _timescale(cfg):
    return next((rep['timescale'] for rep in cfg.reps if rep['id'] == cfg.rel_path), None)


def _requested_number(cfg):
    "Segment number of a name like 17.m4s or t360000.m4s."
    seg_base, seg_ext = splitext(cfg.filename)
    if not seg_base[0] == 't':
        return int(seg_base), seg_ext
    number = int(round(float(seg_base[1:]) / cfg.seg_duration / _timescale(cfg)))
    return number + (1 if cfg.start_nr == -1 else cfg.start_nr), seg_ext


def _first_number(cfg):
    return (cfg.start_nr == -1 and 1) or cfg.adjusted_start_number


def _number_refusal(dashProv, seg_nr):
    cfg = dashProv.cfg
    first = _first_number(cfg)
    if seg_nr < first:
        return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, first))
    stop = cfg.stop_number
    if stop and not seg_nr < stop:
        return error_response(dashProv, "Beyond last segment %d" % stop)
    if cfg.last_segment_numbers:
        *_, last = cfg.last_segment_numbers
        if seg_nr > last:
            return error_response(dashProv, "Request for segment %d beyond last (%d)" % (seg_nr, last))
    return None


def _time_refusal(dashProv, seg_ast, now_float):
    cfg = dashProv.cfg
    ato = cfg.availability_time_offset_in_s
    if ato == -1:  # infinity
        return None
    if seg_ast - ato > now_float:
        return error_response(dashProv, "Request for %s was %.1fs too early" % (cfg.filename, seg_ast - now_float))
    last = seg_ast + cfg.seg_duration + cfg.timeshift_buffer_depth_in_s
    if now_float > last and not cfg.stop_number:
        return error_response(dashProv, "Request for %s was %.1fs too late" % (cfg.filename, now_float - last))
    return None


def _loop_position(cfg, media_time):
    "Number of the stored segment and start time of the loop for a media time."
    loop_duration = cfg.seg_duration * cfg.vod_nr_segments_in_loop
    time_in_loop = media_time % loop_duration
    vod_nr = cfg.vod_first_segment_in_loop + time_in_loop // cfg.seg_duration
    assert vod_nr in range(cfg.vod_first_segment_in_loop, cfg.vod_first_segment_in_loop + cfg.vod_nr_segments_in_loop)
    return vod_nr, media_time - time_in_loop
#@ dashlib/dash_proxy.py process_media_segment
def process_media_segment(dashProv, now_float, chunk):
    """Process media segment. Return error response if timing is not OK.

    Assumes that segment_ast = (seg_nr+1-startNumber)*seg_dur + ast."""
    cfg = dashProv.cfg
    seg_nr, seg_ext = _requested_number(cfg)
    if refusal := _number_refusal(dashProv, seg_nr):
        return refusal
    lmsg = any(seg_nr == nr for nr in cfg.last_segment_numbers)
    since_start = (seg_nr - _first_number(cfg)) * cfg.seg_duration
    seg_ast = since_start + cfg.seg_duration + cfg.availability_start_time_in_s
    if refusal := _time_refusal(dashProv, seg_ast, now_float):
        return refusal
    media_time = since_start + cfg.adjusted_pto(0, 1)
    vod_nr, offset_at_loop_start = _loop_position(cfg, media_time)

    def fetch(rep, rel_path, trex_data=None):
        return filter_media_segment(dashProv, rep, rel_path, vod_nr, seg_nr, seg_ext, offset_at_loop_start, lmsg,
                                    trex_data, seg_time=media_time)

    rel_path = cfg.rel_path
    match cfg.reps:
        case [rep] if chunk:
            trex_data = get_trex_data(dashProv, rel_path)
            content = fetch(rep, rel_path, trex_data)
            dur = int(cfg.chunk_duration_in_s * rep['timescale'])
            return ChunkedSegment(seg_start=seg_ast - cfg.seg_duration, chunks=list(chunker.chunk(content, dur, trex_data)))
        case [rep]:
            return fetch(rep, rel_path)
        case _:
            head, _, _ = rel_path.rpartition("/")
            prefix = head + "/" if head else ""
            data1, data2 = [fetch(rep, prefix + rep['id']) for rep in cfg.reps[:2]]
            return segmentmuxer.MultiplexMediaSegments(data1=data1, data2=data2).mux_on_sample_level()
#@ dashlib/dash_proxy.py process_thumbnail
def process_thumbnail(dashProv, now_float):
    """Process thumbnail. Return error response if timing is not OK.

    Assumes that segment_ast = (seg_nr+1-startNumber)*seg_dur."""
    cfg = dashProv.cfg
    seg_nr, seg_ext = _requested_number(cfg)
    refusal = _number_refusal(dashProv, seg_nr)
    if refusal is None:
        since_start = (seg_nr - _first_number(cfg)) * cfg.seg_duration
        refusal = _time_refusal(dashProv, cfg.availability_start_time_in_s + since_start + cfg.seg_duration, now_float)
    if refusal is not None:
        return refusal
    vod_nr, _ = _loop_position(cfg, since_start + cfg.adjusted_pto(0, 1))
    return Path(dashProv.content_dir, cfg.content_name, cfg.rel_path, f"{vod_nr}{seg_ext}").read_bytes()
#@ dashlib/dash_proxy.py process_init_segment
def process_init_segment(dashProv):
    "Read non-multiplexed or create muxed init segments."
    cfg = dashProv.cfg
    base = join(dashProv.content_dir, cfg.content_name)
    count = len(cfg.reps)
    if count == 1:  # Not muxed
        return InitLiveFilter(file_name=join(base, cfg.rel_path, cfg.filename)).filter()
    if count != 2:
        return error_response(dashProv, f"Bad nr of representations: {count}")
    com_path = cfg.rel_path.rpartition("/")[0]
    names = ["/".join((base, com_path, rep['id'], cfg.filename)) for rep in cfg.reps]
    return InitLiveFilter(data=segmentmuxer.MultiplexInits(*names).construct_muxed()).filter()
#@ dashlib/mp4filter.py MP4Filter.check_box
def check_box(self, data):
    "Check the type of box starting at position pos."
    return int.from_bytes(data[:4], 'big'), data[4:8]
#@ dashlib/mp4filter.py MP4Filter.filter
def filter(self):
    "Top level box parsing. The lower-level parsing is done in self.filter_box(). "
    self.output = b""
    for boxtype, boxdata in self._split(self.data, 0):
        before = len(self.output)
        if boxtype in self.top_level_boxes_to_parse:
            self.output += self.filter_box(boxtype, boxdata, before)
        else:
            self.output += boxdata
        grown = len(self.output) - before
        if grown > 0:
            self.output_top_level_boxes.append((grown, boxtype))
    if self.next_phase_data:
        self.nr_iterations_done += 1
        self.data = self.output
        self.output = self.filter()
    self.finalize()
    return self.output
#@ dashlib/mp4filter.py +before MP4Filter.filter
def _split(self, data, pos):
    "Yield type and bytes of each box."
    while pos < len(data):
        size, boxtype = self.check_box(data[pos:pos + 8])
        yield boxtype, data[pos:pos + size]
        pos += size
#@ dashlib/mp4filter.py MP4Filter.filter_box
def filter_box(self, boxtype, data, file_pos, path=b""):
    "Filter box or tree of boxes recursively."
    if boxtype in (b"moof", b"mdat"):
        setattr(self, boxtype.decode() + '_start', file_pos)
    path = b".".join([path, boxtype]) if path else boxtype
    if boxtype not in self.composite_boxes_to_parse:
        method = getattr(self, "process_" + boxtype.decode('utf-8'), None)
        return data if method is None else method(data)
    parts = [data[:8]]
    pos = 8
    for child, child_data in self._split(data, 8):
        parts.append(self.filter_box(child, child_data, file_pos + pos, path))
        pos += len(child_data)
    output = b"".join(parts)
    if len(output) != len(data):
        return uint32_to_str(len(output)) + output[4:]
    return output
#@ dashlib/mediasegmentfilter.py +imports
import struct
from itertools import accumulate

_U32 = struct.Struct(">I")
#@ dashlib/mediasegmentfilter.py MediaSegmentFilter.finalize
def finalize(self):
    if not (self.insert_sidx or self.emsg_last_seg):
        return
    sizes = [size for size, _ in self.output_top_level_boxes]
    kinds = [kind for _, kind in self.output_top_level_boxes]
    starts = [0, *accumulate(sizes)]
    moofs = [start for start, kind in zip(starts, kinds) if kind == b'moof']
    where = moofs[-1] if moofs else 0
    for wanted, make in ((self.insert_sidx, lambda: self.create_sidx(
            sum(s for s, k in self.output_top_level_boxes if k in (b'moof', b'mdat')))),
                         (self.emsg_last_seg, self.create_emsg)):
        if wanted:
            self.output = b"".join((self.output[:where], make(), self.output[where:]))
#@ dashlib/mediasegmentfilter.py MediaSegmentFilter.process_styp
def process_styp(self, data):
    "Process styp and make sure lmsg presence follows the lmsg flag parameter. Add scte35 box if appropriate"
    size, = _U32.unpack(data[:4])
    brands = [data[i:i + 4] for i in range(8, size, 4)]
    brands = [b for b in brands if b != b"lmsg"] + [b"lmsg"] * bool(self.lmsg)
    payload = b"styp" + b"".join(brands)
    return _U32.pack(4 + len(payload)) + payload + self.create_scte35box()
#@ dashlib/mediasegmentfilter.py MediaSegmentFilter.process_mfhd
def process_mfhd(self, data):
    "Process mfhd box and set segmentNumber if requested."
    if self.seg_nr is not None:
        out = bytearray(data[:12])
        out.extend(self.seg_nr.to_bytes(4, 'big'))
        return bytes(out)
    return data
#@ dashlib/mediasegmentfilter.py MediaSegmentFilter.process_trun
def process_trun(self, data):
    "Get total duration from trun. Fix offset if self.size_change is non-zero."
    version_flags, sample_count = struct.unpack_from(">II", data, 8)
    flags = version_flags & 0xffffff
    pos = 16 + 4 * bool(flags & 0x1) + 4 * bool(flags & 0x4)
    record = 4 * sum(1 for bit in (0x100, 0x200, 0x400, 0x800) if flags & bit)
    if flags & 0x100:
        self.duration = sum(_U32.unpack_from(data, pos + k * record)[0] for k in range(sample_count))
    elif self.default_sample_duration is not None:
        self.duration = sample_count * self.default_sample_duration
    else:
        self.duration = 0
    if not (flags & 0x1 and self.size_change > 0):
        return data
    offset, = struct.unpack_from(">i", data, 16)
    return data[:16] + struct.pack(">i", offset + self.size_change) + data[20:]
#@ dashlib/mediasegmentfilter.py MediaSegmentFilter.process_saio
def process_saio(self, data):
    "Process saio and possibly change offset by size_change if needed."
    version, pos = data[8], 12
    if data[11] & 0x1:
        pos += 8
    count = _U32.unpack_from(data, pos)[0]
    pos += 4
    code, width = ("I", 4) if version == 0 else ("Q", 8)
    fmt = ">%d%s" % (count, code)
    offsets = [o + self.size_change for o in struct.unpack(fmt, data[pos:pos + count * width])]
    if offsets:
        self.new_saio_value = offsets[0]
    return data[:pos] + struct.pack(fmt, *offsets)
#@ dashlib/mediasegmentfilter.py MediaSegmentFilter.process_tfdt
def process_tfdt(self, data):
    """Generate new timestamps for tfdt and change size of boxes above if needed.

   Try to keep in 32 bits if possible."""
    shift = 0 if self.track_timescale is None else self.offset * self.track_timescale
    wide = data[8] != 0
    old = int.from_bytes(data[12:20] if wide else data[12:16], byteorder='big')
    new = self.tfdt_value = old + shift
    if wide:
        return data[:12] + new.to_bytes(8, 'big')
    if not new >> 32:
        return data[:12] + new.to_bytes(4, 'big')
    self.size_change = 4
    header = struct.pack('>I4sB', _U32.unpack(data[:4])[0] + 4, data[4:8], 1)
    return header + data[9:12] + struct.pack('>Q', new)
#@ dashlib/mediasegmentfilter.py MediaSegmentFilter.create_sidx
def create_sidx(self, seg_size):
    """Return a sidx box which can be inserted right before the moof.

    This is optional, but some clients require it to present."""
    body = struct.pack(">BBBBIIQQHHIII", 1, 0, 0, 0, 1, self.track_timescale, self.tfdt_value, 0, 0, 1, seg_size,
                       self.duration, 0x90000000)
    return struct.pack(">I4s", 8 + len(body), b'sidx') + body
#@ dashlib/moduloperiod.py ModuloPeriod.calc_media_pres_dur
def calc_media_pres_dur(self):
    "Calculate the media presentation duration."
    table = ((10, 2), (30, 4), (50, 6), (90, 8))
    tenths = next((t for limit, t in table if self.percent < limit), 2)
    return tenths * self.mod_secs // 10
#@ dashlib/moduloperiod.py ModuloPeriod.calc_availability_start_time
def calc_availability_start_time(self):
    "Get the availability startTime for this or coming period."
    nr, _ = divmod(int(self.now), self.mod_secs)
    return (nr + (1 if self.percent >= 90 else 0)) * self.mod_secs
#@ dashlib/timeformatconversions.py +imports
import datetime
#@ dashlib/timeformatconversions.py seconds_to_iso_duration
def seconds_to_iso_duration(nr_secs):
    "Make interval string in format PT... from time in seconds."
    minutes, seconds = divmod(nr_secs, 60)
    hours, minutes = divmod(minutes, 60)
    days, hours = divmod(hours, 24)
    date = f"{days}D" if days > 0 else ""
    clock = "".join("%d%s" % (v, u) for v, u in ((hours, "H"), (minutes, "M"), (seconds, "S")) if v > 0)
    return f"P{date}T{clock or '0S'}"
#@ dashlib/timeformatconversions.py make_timestamp
def make_timestamp(time_in_s):
    "Return timestamp as string."
    t = time.gmtime(time_in_s)
    return f"{t.tm_year:04d}-{t.tm_mon:02d}-{t.tm_mday:02d}T{t.tm_hour:02d}:{t.tm_min:02d}:{t.tm_sec:02d}Z"
