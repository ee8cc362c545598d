#@ dashlib/scte35.py create_scte35_insert_message
def create_scte35_insert_message(pts_adjustment, tier, splice_event_id, splice_event_cancel_indicator,
                                 out_of_network_indicator, unique_program_id, avail_num, avails_expected,
                                 splice_immediate_flag, pts_time, auto_return, duration):
    "Create the emsg message data for an SCTE-35 Insert Event."
    cancelled, immediate = bool(splice_event_cancel_indicator), bool(splice_immediate_flag)
    attributes = [('spliceEventId', splice_event_id), ('spliceEventCancelIndicator', make_xml_bool(cancelled))]
    body = []
    if not cancelled:
        attributes.extend([('outOfNetworkIndicator', make_xml_bool(out_of_network_indicator)),
                           ('uniqueProgramId', unique_program_id), ('availNum', avail_num),
                           ('availsExpected', avails_expected), ('spliceImmediateFlag', make_xml_bool(immediate))])
        if not immediate:
            body.append(f'<Program><SpliceTime ptsTime="{pts_time}"/></Program>')
        if duration:
            body.append('<BreakDuration autoReturn="{}" duration="{}"/>'.format(make_xml_bool(auto_return), duration))
    text = " ".join(f'{key}="{value}"' for key, value in attributes)
    opening = '<SpliceInsert ' + text + ('>' if cancelled else ' >')
    return "\n".join([f'<SpliceInfoSection ptsAdjustment="{pts_adjustment}" scte35:tier="{tier}">', opening, *body,
                      "</SpliceInsert>", "</SpliceInfoSection>"])
#@ dashlib/scte35.py make_xml_bool
def make_xml_bool(value):
    "Return a true or false string."
    return str(bool(value)).lower()
#@ dashlib/emsg.py Emsg.get_box
def get_box(self):
    "Return emsg box as string."
    def terminated(text):
        return text.encode("utf-8") + bytes(1)

    numbers = (self.timescale, self.presentation_time_delta, self.event_duration, self.emsg_id)
    payload = bytes(4) + terminated(self.scheme_id_uri) + terminated(self.value)
    payload += b"".join(map(uint32_to_str, numbers))
    payload += self.messagedata.encode("utf-8")
    return uint32_to_str(len(payload) + 8) + b"emsg" + payload
#@ dashlib/mediasegmentfilter.py +before MediaSegmentFilter
def break_seconds(per_minute):
    "Seconds in the minute at which breaks start, and how long they are."
    return {2: ((10, 40), 10), 3: ((10, 36, 46), 10), 8: ((10, 30), 20)}.get(per_minute, ((10,), 10))


def splice_times(minute_start, per_minute):
    "Breaks of two minutes."
    for minute in (minute_start, minute_start + 60):
        for second in break_seconds(per_minute)[0]:
            yield minute + second


#@ dashlib/mediasegmentfilter.py MediaSegmentFilter.create_scte35box
def create_scte35box(self):
    "Create SCTE-35 emsg boxes."
    per_minute = self.scte35_per_minute
    if not 1 <= per_minute <= 8:
        return b""
    begin = self.seg_time if self.seg_time is not None else self.seg_nr * self.seg_duration
    end = begin + self.seg_duration
    ad_duration = break_seconds(per_minute)[1]
    boxes = []
    for splice_time in splice_times(begin // 60 * 60, per_minute):
        if any(begin <= splice_time - ahead <= end for ahead in (6, 8)):
            number = splice_time // 10
            boxes.append(scte35.create_scte35_emsg(90000, 90000 * begin, 90000 * splice_time, 90000 * ad_duration,
                                                   number, number))
    return b"".join(boxes)
#@ dashlib/mediasegmentfilter.py MediaSegmentFilter.find_and_process_mdat
def find_and_process_mdat(self, data):
    "Change the ttml part of mdat and update mdat size. Return full new data."
    def boxes():
        rest = data
        while rest:
            size = str_to_uint32(rest[:4])
            box, rest = rest[:size], rest[size:]
            yield box

    return b"".join(self.update_ttml_mdat(box) if box[4:8] == b'mdat' else box for box in boxes())
#@ dashlib/mediasegmentfilter.py MediaSegmentFilter.update_ttml_mdat
def update_ttml_mdat(self, data):
    "Update the ttml payload of mdat and its size."
    adjusted = adjust_ttml_content(data[8:], self.offset, self.seg_nr)
    self.ttml_size = len(adjusted)
    return b"".join([uint32_to_str(8 + self.ttml_size), b'mdat', adjusted])
#@ dashlib/ttml_timing_offset.py +before adjust_ttml_content
def clock_seconds(match):
    "Seconds since midnight."
    total = 0
    for name in ('hours', 'minutes', 'seconds'):
        total = 60 * total + int(match.group(name))
    return total


#@ dashlib/ttml_timing_offset.py adjust_ttml_content
def adjust_ttml_content(xml_str, offset_in_s, output_seg_nr):
    "Add offset in seconds to begin and end elements in xml bytestring."
    def shifted(match):
        total = clock_seconds(match) + offset_in_s
        text = '="%02d:%02d:%02d' % (total // 3600, total // 60 % 60, total % 60)
        return match.group('attr') + text.encode('ascii')

    def utc(match):
        moment = time.gmtime(clock_seconds(match) + offset_in_s)
        return b' : UTC = '.join([match.group('lang'), time.strftime("%Y-%m-%dT%H:%M:%SZ", moment).encode('utf-8')])

    xml_str = TIME_PATTERN_S.sub(shifted, xml_str)
    xml_str = CONTENT_PATTERN_S.sub(utc, xml_str)
    return CONTENT_PATTERN_SEGMENT.sub(lambda m: m.group('intro') + str(output_seg_nr).encode(), xml_str)
#@ dashlib/mpd_proxy.py +before get_mpd
XLINK_HEAD = '<Period xlink:href="%s" xlink:actuate="onLoad" xmlns:xlink="http://www.w3.org/1999/xlink">'
AD_URL = 'http://vm1.dashif.org/dynamicxlink/ad.php?id='
AD_LINKS = {1: AD_URL + '6_ad', 5: AD_URL + '6_ad', 2: AD_URL + '6_ad_twoperiods', 3: AD_URL + '6_ad_twoperiods_withremote',
            4: 'http://vm1.dashif.org/dynamicxlink/invalidurl.php'}


def linked_period(response, period_id, target):
    "The text of a period and what replaces it."
    start = find_period(response, period_id)
    end = response.index("</Period>", start) + len("</Period>")
    return start, response[start:end], XLINK_HEAD % target


#@ dashlib/mpd_proxy.py generate_response_with_xlink
def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, nr_xlink_periods_per_hour, insert_ad):
    "Convert the normally created response into a response which has xlinks"
    if cfg != ".mpd":
        wanted = filename.split('+')[1][:-7]
        ns_start = response.find("xmlns=")
        ns_end = response.find('"', ns_start + 7) + 1
        start, period, _ = linked_period(response, wanted, '')
        return period.replace('">', '" %s>' % response[ns_start:ns_end], 1)
    every = nr_periods_per_hour // nr_xlink_periods_per_hour
    bases = findall('<BaseURL[^>]*>([^<]*)</BaseURL>', response) or \
        findall('<Location>([^<]*/)[^</]*</Location>', response)
    ids = [p.get('id') for p in ET.fromstring(response).iter('{urn:mpeg:dash:schema:mpd:2011}Period')]
    seen = 0
    for period_id in ids:
        linked = int(period_id[1:]) % every == 0
        seen += linked
        if insert_ad > 0 and (not linked or seen == 1):
            response = insert_asset_identifier(response, find_period(response, period_id))
            continue
        if not linked:
            continue
        target = AD_LINKS.get(insert_ad) or ''.join([bases[0], filename, '+', period_id, '.period'])
        _, period, replacement = linked_period(response, period_id, target)
        if insert_ad == 5:
            replacement += '\n<!--Default content that will be played if the xlink is not able to load.-->' + \
                period.partition('>')[2]
        else:
            replacement += '</Period>'
        response = replacement.join(response.split(period))
    return response
#@ dashlib/mpdprocessor.py MpdProcessor.process_mpd
def process_mpd(self, mpd, mpd_data):
    """Process the root element (MPD)"""
    assert mpd.tag == add_ns('MPD')
    static = mpd_data.get('type', 'dynamic') == 'static'
    mpd.set('type', mpd_data.get('type', 'dynamic'))
    self.update_profiles(mpd, mpd_data.get('add_profiles', ()))
    dropped = set()
    if static:
        dropped |= {'minimumUpdatePeriod', 'timeShiftBufferDepth'}
    elif self.cfg and self.cfg.stop_time is not None:
        dropped.add('timeShiftBufferDepth')
    keys = [k for k in ('availabilityStartTime', 'availabilityEndTime', 'timeShiftBufferDepth', 'minimumUpdatePeriod',
                        'maxSegmentDuration', 'mediaPresentationDuration', 'suggestedPresentationDelay')
            if k not in dropped]
    set_values_from_dict(mpd, keys, mpd_data)
    if 'mediaPresentationDuration' not in mpd_data:
        mpd.attrib.pop('mediaPresentationDuration', None)
    mpd.set('id', 'Config part of url maybe?')
    mpd.set('publishTime', make_timestamp(self.mpd_proc_cfg['now']))
    if any((self.segtimeline, self.segtimeline_nr)):
        mpd.attrib.pop('maxSegmentDuration', None)
        if not static:
            mpd.set('minimumUpdatePeriod', "PT0S")

def update_profiles(self, mpd, added):
    "Set the profiles."
    if self.scte35_present and scte35.PROFILE not in mpd.get('profiles'):
        mpd.set('profiles', ','.join((mpd.get('profiles'), scte35.PROFILE)))
    if self.segtimelineloss:
        mpd.set('profiles', mpd.get('profiles').replace("dash-if-simple", "dash-if-main"))
    if not added:
        return
    profiles = mpd.get('profiles').split(",")
    mpd.set('profiles', ",".join(profiles + [p for p in added if p not in profiles]))
#@ dashlib/mpdprocessor.py MpdProcessor.insert_service_description
def insert_service_description(self, mpd, pos):
    sd_elem = ElementTree.Element(add_ns('ServiceDescription'), {"id": "0"})
    for name, attribs in (('Latency', dict(min="2000", max="6000", target="4000", referenceId="0")),
                          ('PlaybackRate', dict(min="0.96", max="1.04"))):
        ElementTree.SubElement(sd_elem, add_ns(name), attribs).tail = "\n"
    sd_elem.text = sd_elem.tail = "\n"
    mpd.insert(pos, sd_elem)
#@ cc_inserter/cc_inserter.py CCInsertFilter.process_trun
def process_trun(self, data):
    """Process trun box."""
    flags = str_to_uint32(data[8:12]) & 0xffffff
    sample_count = str_to_uint32(data[12:16])
    pos = 16
    if flags & 0x1:
        self.trun_offset = str_to_uint32(data[16:20])
        pos = 20
    if flags & 0x4:
        pos += 4
    parts = [data[:pos]]
    fields = [(bit, name) for bit, name in ((0x100, 'duration'), (0x200, 'size'), (0x400, 'flags'), (0x800, 'cto'))
              if flags & bit]
    time_of_sample, media_pos = self.tfdt, 0
    for _ in range(sample_count):
        sample = dict(duration=self.default_sample_duration, size=0)
        for _bit, name in fields:
            sample[name] = str_to_uint32(data[pos:pos+4])
            pos += 4
        next_time = time_of_sample + sample['duration']
        captions = self.get_scc_data(time_of_sample / float(self.time_scale), next_time / float(self.time_scale))
        added = b""
        if captions:
            added = generate_data(captions, self.field)
            self.scc_map.append(dict(pos=media_pos, size=sample['size'], scc_nalu=added))
        media_pos += sample['size']
        sample['size'] += len(added)
        parts += [uint32_to_str(sample[name]) for _bit, name in fields]
        time_of_sample = next_time
    return b"".join(parts)
#@ cc_inserter/cc_inserter.py CCInsertFilter.process_mdat
def process_mdat(self, data):
    """Process mdat box and insert cea608 data before the video nal units."""
    first = self.trun_offset + self.moof_start - self.mdat_start
    parts = [data[4:first]]
    done = first
    for entry in self.scc_map:
        start = first + entry['pos']
        end = max(start, done) + entry['size']
        place = self.before_video(data, max(start, done), end)
        parts.extend((data[done:place], entry['scc_nalu'], data[place:end]))
        done = end
    parts.append(data[done:])
    body = b"".join(parts)
    return struct.pack(">I", 4 + len(body)) + body

@staticmethod
def before_video(data, pos, end):
    "Position of the first video NAL unit."
    while pos < end and data[pos+4] & 0x1f >= 6:
        pos += 4 + struct.unpack_from(">I", data, pos)[0]
    return pos
#@ cc_inserter/cc_inserter.py CCInsertFilter.get_scc_data
def get_scc_data(self, start_time, end_time):
    """Return scc data for a specified time period"""
    return [cue for cue in self.scc_data if not (cue['start_time'] < start_time or cue['start_time'] >= end_time)]
#@ cc_inserter/cc_inserter.py generate_data
def generate_data(scc_data, field=1):
    """Generate SEI CEA-608 NAL units prepended with size fields."""
    marker = {1: 0xfc, 2: 0xfd}
    units = []
    for words in (cue['cea608'] for cue in scc_data):
        count = len(words)
        unit = bytearray(b'\x66\x04')
        unit.append(11 + 3 * count)
        unit.extend(b'\xb5\x00\x31GA94\x03')
        unit += bytes([0xc0 + count, 0xff])
        for word in words:
            if field not in marker:
                raise ValueError("field value %s not supported" % field)
            unit += bytes([marker[field], *divmod(int(word, 16) & 0xffff, 256)])
        unit += b'\xff\x80'
        units += [len(unit).to_bytes(4, 'big'), bytes(unit)]
    return b"".join(units)
#@ vodanalyzer/dashanalyzer.py DashAnalyzer.getSegmentRange
def getSegmentRange(self, rep_data):
    "Search the directory for the first and last segment and set firstNumber and lastNumber for this MediaType."
    mediaDir, mediaName = os.path.split(rep_data['absMediaPath'])
    pattern = re.compile(mediaName.replace("%d", "(\\d+)").replace(".", "\\."))
    found = (pattern.match(name) for name in os.listdir(mediaDir))
    numbers = sorted(int(m.group(1)) for m in found if m is not None)
    for before, after in zip(numbers, numbers[1:]):
        if after - before != 1:
            raise DashAnalyzerError("%s segment missing between %d and %d" % (rep_data['id'], before, after))
    rep_data['firstNumber'], rep_data['lastNumber'] = numbers[0], numbers[-1]
    print("Found {id} segments {firstNumber} - {lastNumber}".format(**rep_data))
#@ dashlib/stpp_generator/stpp_creator.py StppInitFilter._insert_timing_data
def _insert_timing_data(self, data):
    "Help function to insert timestamps and timescale in similar boxes."
    number, width = (uint64_to_str, 8) if data[8] == 1 else (uint32_to_str, 4)
    when = self.creation_modfication_time
    times = 2 * number(when) if when else data[12:12 + 2 * width]
    return b"".join((data[:12], times, uint32_to_str(self.timescale), number(0)))
#@ dashlib/stpp_generator/stpp_creator.py StppInitFilter.process_mdhd
def process_mdhd(self, data):
    "Set the timescale for the trak, language and time."
    assert len(self.lang) == 3
    bits = 0
    for char in self.lang:
        bits = bits << 5 | ord(char) - 0x60
    return self._insert_timing_data(data) + uint32_to_str(bits << 16)
#@ dashlib/stpp_generator/stpp_creator.py StppMediaFilter.process_tfhd
def process_tfhd(self, data):
    "Process a tfhd box and set trackID, defaultSampleDuration and defaultSampleSize"
    assert str_to_uint32(data[8:12]) & 0xffffff == 0x020018, "Can only handle certain tf_flags combinations"
    values = [self.track_id, self.default_sample_duration, len(self.ttml_data)]
    return data[:12] + b"".join(uint32_to_str(v) for v in values)
#@ dashlib/stpp_generator/make_stpp_segments.py SegmentCreator.create_time_string
def create_time_string(self, time_ms):
    "Create time string from number of milliseconds."
    seconds = time_ms // 1000
    return "{:02d}:{:02d}:{:02d}.{:03d}".format(seconds // 3600, seconds % 3600 // 60, seconds % 60, time_ms % 1000)
#@ dashlib/stpp_generator/make_stpp_segments.py SegmentCreator.create_segments
def create_segments(self):
    "Create init and media segments."
    if not os.path.exists(self.output_path):
        os.mkdir(self.output_path)
    with open(os.path.join(self.output_path, "init.mp4"), 'wb') as iof:
        iof.write(StppInitFilter(self.language, self.trackid).filter())
    template = Template(TTML_XML.strip())
    for index in range(self.number_of_segments):
        begin = index * self.segment_duration
        name = self.segment_name_format % (index + 1) + ".m4s"
        text = self.render(template, begin, index + 1).encode('utf-8')
        segment = create_media_segment(self.trackid, index + 1, self.segment_duration, begin, text)
        with open(os.path.join(self.output_path, name), "wb") as mof:
            mof.write(segment)

def cue(self, begin):
    "One paragraph."
    start = self.create_time_string(begin)
    return dict(begin=start, end=self.create_time_string(begin + self.resolution), id="sub%05d" % begin,
                text=' : '.join([self.language, start]))

def render(self, template, begin, number):
    "The document of a segment."
    pars = [self.cue(t) for t in range(begin, begin + self.segment_duration, self.resolution)]
    return template.render(paragraph=pars, r1_id="%010d" % begin, r1_begin=self.create_time_string(begin),
                           r1_end=self.create_time_string(begin + self.segment_duration),
                           r1_text="Segment: %d" % number, lang=self.language)
