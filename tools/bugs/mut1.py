D = 'dashlib/'
P = D+'dash_proxy.py'; Cf = D+'configprocessor.py'; MP = D+'mpd_proxy.py'; PR = D+'mpdprocessor.py'
MS = D+'mediasegmentfilter.py'; ST = D+'segtimeline.py'; MO = D+'moduloperiod.py'; W = 'mod_wsgi/mod_dashlivesim.py'
SC = D+'scte35.py'; EM = D+'emsg.py'; TT = D+'ttml_timing_offset.py'; MX = D+'segmentmuxer.py'; CH = D+'chunker.py'
TI = D+'timeformatconversions.py'; AN = 'vodanalyzer/dashanalyzer.py'; IF = D+'initsegmentfilter.py'; MF = D+'mp4filter.py'
M = [
# dash_proxy
('init-avail-now', 'C01 C12', P, 'if dashProv.now < cfg.availability_start_time_in_s - cfg.init_seg_avail_offset:', 'if dashProv.now + 1 < cfg.availability_start_time_in_s - cfg.init_seg_avail_offset:'),
('aet-extra', 'C01', P, 'dashProv.now > cfg.availability_end_time + EXTRA_TIME_AFTER_END_IN_S):', 'dashProv.now >= cfg.availability_end_time + EXTRA_TIME_AFTER_END_IN_S):'),
('tnum-floor', 'C06 C02', P, 'assert 0 <= vod_nr - cfg.vod_first_segment_in_loop < cfg.vod_nr_segments_in_loop\n    rel_path = cfg.rel_path\n    nr_reps', 'vod_nr = max(vod_nr, 1)\n    rel_path = cfg.rel_path\n    nr_reps'),
('mux-lmsg-second', 'C04 C08', P, "    seg2 = filter_media_segment(dashProv, cfg.reps[1], rel_path2, vod_nr, seg_nr, seg_ext,\n                                    offset_at_loop_start, lmsg, seg_time=seg_time)", "    seg2 = filter_media_segment(dashProv, cfg.reps[1], rel_path2, vod_nr, seg_nr, seg_ext,\n                                    offset_at_loop_start, False)"),
('scte-audio', 'C14', P, "(rep['content_type'] == 'video') and cfg.scte35_per_minute or 0", "(rep['content_type'] != 'audio') and cfg.scte35_per_minute or 0"),
('chunk-dur-int', 'C09 C10', P, "dur = int(cfg.chunk_duration_in_s * cfg.reps[0]['timescale'])", "dur = int(cfg.chunk_duration_in_s) * cfg.reps[0]['timescale'] or int(cfg.chunk_duration_in_s * cfg.reps[0]['timescale'])"),
('outage-le', 'C16', P, "if i * total_dur + dur1 < now_mod_60 <= (i + 1) * total_dur:\n                        response = error", "if i * total_dur + dur1 < now_mod_60 < (i + 1) * total_dur:\n                        response = error"),
('outage-loop-ceil', 'C16', P, "num_loop = int(ceil(60.0 / (float(total_dur))))", "num_loop = int(60.0 / (float(total_dur)))"),
('ato-inf-first', 'C01', P, "        first_segment_ast = cfg.availability_start_time_in_s\n", "        first_segment_ast = 0\n"),
('jpg-lastnum', 'C01', P, "return error_response(dashProv, \"Request for segment %d beyond last (%d)\" % (seg_nr, very_last_segment))\n    # lmsg", "pass\n    # lmsg"),
('mux-paths', 'C08 C07', P, "com_path = \"/\".join(cfg.rel_path.split(\"/\")[:-1])", "com_path = \"\""),
# configprocessor
('dur-aet-2', 'C17 C04', Cf, 'if now_int > aet - 2*self.minimum_update_period_in_s:', 'if now_int >= aet - 2*self.minimum_update_period_in_s:'),
('tsbd-stop', 'C06 C01 C15', Cf, 'self.timeshift_buffer_depth_in_s = self.stop_time - self.start_time', 'self.timeshift_buffer_depth_in_s = stop_time - self.start_time'),
('stop-number-to', 'C01 C05', Cf, 'return start + self.media_presentation_duration // self.seg_duration', 'return start + (self.media_presentation_duration + self.seg_duration - 1) // self.seg_duration if self.timeoffset is None else start + self.media_presentation_duration // self.seg_duration + 1'),
('modulo-lastseg', 'C04', Cf, 'first_segment_number = 1 if self.start_nr == -1 else self.adjusted_start_number\n        self.last_segment_numbers.append(first_segment_number + nr_segments - 1)', 'first_segment_number = 1 if self.start_nr == -1 else self.start_nr\n        self.last_segment_numbers.append(first_segment_number + nr_segments - 1)'),
('tfdt32-end', 'C17 C01', Cf, 'self.availability_end_time = self.availability_start_time_in_s + 10800\n        self.media_presentation_duration = 10800\n        self.minimum_update_period_in_s = 10800//2', 'self.availability_end_time = now_int + 10800\n        self.media_presentation_duration = 10800\n        self.minimum_update_period_in_s = 10800//2'),
('cont-ast', 'C17 C05', Cf, 'quantize(now_int - seg_dur, seg_dur)', 'quantize(now_int, seg_dur) - seg_dur if now_int % (seg_dur * 60) else quantize(now_int, seg_dur)'),
('ato-nan', 'C12 C05', Cf, 'cfg.availability_time_offset_in_s = max(float(value), 0)', 'cfg.availability_time_offset_in_s = abs(float(value))'),
('chunkdur-neg', 'C17', Cf, 'if chunk_duration > 0:', 'if chunk_duration != 0:'),
('tsbd-default', 'C17 C05', Cf, 'self.timeshift_buffer_depth_in_s = vod_cfg.default_tsbd_secs', 'self.timeshift_buffer_depth_in_s = DEFAULT_TIMESHIFT_BUFFER_DEPTH_IN_SECS'),
('pto-scale', 'C05 C06', Cf, "return pto + (self.availability_start_time_in_s -\n                          self.timeoffset) * timescale", "return max(0, pto + (self.availability_start_time_in_s -\n                          self.timeoffset) * timescale)"),
('snr-minus1-ok', 'C12', Cf, 'if start_nr < -1:', 'if start_nr < -2:'),
('publish-mup', 'C17', MP, "if cfg.stop_time is not None and (now > cfg.stop_time):", "if cfg.stop_time is not None and (now >= cfg.stop_time):"),
# mpd_proxy
('peroff-late', 'C15', MP, "\"%d\" % (mpd_data['presentationTimeOffset'] + start)", "\"%d\" % (mpd_data['presentationTimeOffset'] or start)"),
('mup-half', 'C15', MP, 'minimum_update_period_s = (half_period_duration - 5)', 'minimum_update_period_s = half_period_duration'),
('first-period', 'C15', MP, "first_period_nr = max(0, (now - mpd_data['timeShiftBufferDepthInS'] - seg_dur) // period_duration)", "first_period_nr = max(0, (now - mpd_data['timeShiftBufferDepthInS']) // period_duration)"),
('last-period', 'C15', MP, "(cfg.media_presentation_duration - 1) // period_duration", "cfg.media_presentation_duration // period_duration"),
('etp-frac', 'C15', MP, "if period_nr % fraction_nr_periods_to_nr_etp == 0:", "if (period_nr - first_period_nr) % fraction_nr_periods_to_nr_etp == 0:"),
('cb-frac', 'C15', MP, "if period_nr % fraction_nr_periods_to_nr_callback == 0:", "if (period_nr - first_period_nr) % fraction_nr_periods_to_nr_callback == 0:"),
('adfreq', 'C18', MP, "if ad_frequency > 0 and ((period_nr % ad_frequency) == 0) and counter > 0:", "if ad_frequency > 0 and ((counter % ad_frequency) == 0) and counter > 0:"),
('find-period', 'C18', MP, "match = search(r'<Period\\b[^>]*\\bid=\"%s\"' % escape(period_id), response)", "match = search(r'<Period\\b[^>]*\\bid=\"%s' % escape(period_id), response)"),
('xlink-counter', 'C18', MP, "if insert_ad > 0 and counter == 1:", "if insert_ad > 0 and counter == 0:"),
('latest-up', 'C16', MP, "latestUptime = dashProv.now - now_mod_60 + (i * total_dur + dur1)", "latestUptime = dashProv.now - (now_mod_60 % total_dur) + dur1"),
('period-static', 'C15', MP, "now = min(now, cfg.stop_time)", "now = min(now, cfg.stop_time + 1)"),
('startnum-period', 'C15', MP, "'startNumber': \"%d\" % (first_nr + start_time//seg_dur), 'duration': seg_dur,\n                    'presentationTimeOffset': mpd_data", "'startNumber': \"%d\" % (first_nr + -(-start_time//seg_dur)), 'duration': seg_dur,\n                    'presentationTimeOffset': mpd_data"),
# mpdprocessor
('atc-false', 'C17', PR, "if new_atc in ('False', 'false', '0'):", "if new_atc in ('False', '0'):"),
('scte-prof', 'C14', PR, "if not old_profiles.find(scte35.PROFILE) >= 0:", "if not old_profiles.find(scte35.PROFILE) > 0:"),
('loss-first-only', 'C16', PR, "new_profiles = old_profiles.replace(\"dash-if-simple\", \"dash-if-main\")", "new_profiles = old_profiles.replace(\"dash-if-simple\", \"dash-if-main\", 1) if 1 else ''"),
('baseurl-multi-order', 'C16', PR, "option_pos = option_pos or len(other_parts)", "option_pos = len(other_parts)"),
('etp-last', 'C15', PR, "if 'periodDuration' in pdata:", "if 'periodDuration' in pdata and 'etpDuration' not in pdata:"),
('prt-only-first', 'C16', PR, "if self.emsg_last_seg:\n                    inband_event_elem", "if self.emsg_last_seg and content_type == 'video':\n                    inband_event_elem"),
('tl-now-int', 'C06', PR, "now = last_time = min(now, self.cfg.stop_time)", "last_time = min(now, self.cfg.stop_time)"),
('tl-pto', 'C06 C23', PR, "if pto != \"0\" and not offset_at_period_level:", "if pto != \"0\":"),
('tl-closest', 'C06', PR, "use_closest = start_time == ast", "use_closest = start_time <= ast + self.cfg.seg_duration"),
('profiles-split', 'C22 C14', PR, "profiles = mpd.get('profiles').split(\",\")", "profiles = mpd.get('profiles').split(\", \")"),
('mpdur-keep', 'C17', PR, "if 'mediaPresentationDuration' in mpd.attrib and 'mediaPresentationDuration' not in mpd_data:", "if 'mediaPresentationDuration' in mpd.attrib and 'mediaPresentationDuration' not in mpd_data and 'periodDuration' not in mpd_data and self.cfg.start_time is None:"),
# segtimeline
('tl-wraps', 'C06', ST, "if index >= len(self.interval_starts):\n            index = 0\n            nr_wraps += 1\n        return index, 0, nr_wraps", "if index >= len(self.interval_starts):\n            index = 0\n        return index, 0, nr_wraps"),
('tl-snr', 'C06', ST, "self.start_number += 1 if self.cfg.start_nr == -1 else self.cfg.start_nr", "self.start_number += max(0, self.cfg.start_nr)"),
('tl-bisect', 'C06', ST, "while accumulated_end_time <= rel_time:\n            accumulated_end_time += seg_data.duration\n            repeats += 1", "while accumulated_end_time < rel_time:\n            accumulated_end_time += seg_data.duration\n            repeats += 1"),
# modulo
('mod-90', 'C04 C17', MO, "elif self.percent < 90:\n            mpd = 8", "elif self.percent < 80:\n            mpd = 8"),
('mod-int', 'C17 C04', MO, "return (seconds*100)/self.mod_secs", "return (seconds*100)//self.mod_secs + 1 if seconds*100 % self.mod_secs > self.mod_secs - 100 else (seconds*100)//self.mod_secs"),
('mod-mup', 'C17', MO, "self._minimum_update_period = self.mod_secs//20", "self._minimum_update_period = self.mod_secs//30"),
# mediasegmentfilter
('trun-size0', 'C03 C19', MS, "if data_offset_present and self.size_change > 0:", "if data_offset_present and self.size_change > 0 and not self.is_ttml:"),
('trun-first-flags', 'C03', MS, "if flags & 0x4:\n            pos += 4  # First sample flags present", "if flags & 0x4 and flags & 1:\n            pos += 4  # First sample flags present"),
('tfhd-dur2', 'C03 C19', MS, "if tf_flags & 0x02:\n            pos += 4\n", "if tf_flags & 0x02 and not tf_flags & 0x10:\n            pos += 4\n"),
('sidx-offset', 'C03', MS, "output += uint64_to_str(self.tfdt_value)  # decode_time for now", "output += uint64_to_str(self.tfdt_value & 0xffffffff)  # decode_time for now"),
('scte-end', 'C14', MS, "if seg_starttime <= pre_warning_time <= seg_endtime:", "if seg_starttime <= pre_warning_time < seg_endtime:"),
('scte-next-min', 'C14', MS, "splice_insert_times += [splice_time + 60 for splice_time in splice_insert_times]", "splice_insert_times += [splice_insert_times[0] + 60]"),
('scte-seg-nr', 'C14', MS, "seg_starttime = self.seg_time\n", "seg_starttime = self.seg_time or seg_starttime\n"),
('scte-break', 'C14', MS, "ad_duration*timescale, emsg_id, splice_id)\n                    break", "ad_duration*timescale, emsg_id, splice_id)"),
('scte-pts', 'C14', SC, 'PTS_MOD = 2**33', 'PTS_MOD = 2**33 - 1'),
('emsg-mod', 'C14', EM, "parts.append(uint32_to_str(self.presentation_time_delta))", "parts.append(uint32_to_str(max(0, self.presentation_time_delta - 0)))" ),
# ttml
('ttml-hours', 'C19', TT, "hours, seconds = divmod(total_seconds, 3600)", "hours, seconds = divmod(total_seconds, 3600)\n        hours %= 1000"),
('ttml-once', 'C19', TT, "xml_str = re.sub(CONTENT_PATTERN_SEGMENT, replace_segment_nr, xml_str)", "xml_str = re.sub(CONTENT_PATTERN_SEGMENT, replace_segment_nr, xml_str, 1)"),
('ttml-frac', 'C19', TT, r"(?P<seconds>\d\d)(\.\d+)?')", r"(?P<seconds>\d\d)(\.\d\d\d)?')"),
# mux
('mux-delta2', 'C08', MX, "delta_offset2 = len(self.mstruct1.traf) + len(self.mstruct1.mdat) - 8", "delta_offset2 = len(self.mstruct1.traf) + len(self.mstruct1.mdat) - 8 + len(self.mstruct1.mfhd) - len(self.mstruct2.mfhd) if self.mstruct2.styp else len(self.mstruct1.traf) + len(self.mstruct1.mdat) - 8 - 0"),
('mux-ftyp', 'C07', MX, "data.append(self.istruct1.trex)\n        data.append(self.istruct2.trex)", "data.append(self.istruct2.trex)\n        data.append(self.istruct1.trex)"),
# chunker
('chunk-firstflags', 'C09', CH, "elif trun.has_first_sample_flags and sample_nr == 0:", "elif trun.has_first_sample_flags and sample_nr == 1:"),
('chunk-cto', 'C09', CH, "sync = not flags & NON_SYNC_SAMPLE_FLAG", "sync = not flags & NON_SYNC_SAMPLE_FLAG if flags else False"),
('chunk-part', 'C09', CH, "if d0 >= d1:\n            d1 += duration", "if d0 >= d1:\n            d1 = d0 + duration"),
# wsgi
('wsgi-302', 'C13', W, "path_parts = (path_parts[:2] + [start_part] +\n                          [session_id_path] + path_parts[2:])", "path_parts = (path_parts[:2] + [session_id_path] +\n                          [start_part] + path_parts[2:])"),
('wsgi-410', 'C13', W, "elif now > start_time + MAX_SESSION_LENGTH:", "elif now >= start_time + MAX_SESSION_LENGTH:"),
('wsgi-future', 'C13', W, "elif start_time > now + 5:", "elif start_time > int(now) + 5:"),
('wsgi-query', 'C13', W, "query = url.query if url.query else environment.get('QUERY_STRING', '')", "query = environment.get('QUERY_STRING', '')"),
('range-suffix', 'C11', W, "range_start = max(0, length - int(range_end))", "range_start = length - int(range_end)"),
('range-end', 'C11', W, "range_end = min(int(range_end), length-1)", "range_end = int(range_end)"),
('chunk-margin', 'C10', W, "chunk_availability_time = seg_start + i * chunk_dur - margin", "chunk_availability_time = seg_start + i * chunk_dur - i * margin"),
# init
('init-tkhd1', 'C07', IF, "self._track_id = str_to_uint32(data[28:32])", "self._track_id = str_to_uint32(data[20:24])"),
('init-mvhd', 'C07', IF, "output += data[:36]\n            output += b'\\x00' * 8  # duration\n            output += data[44:]", "output += data[:32]\n            output += b'\\x00' * 12  # duration\n            output += data[44:]"),
# analyzer
('an-drift', 'C20', AN, "if absDiffInTicks < maxDiffInTicks:", "if idealTicks - endTick < maxDiffInTicks:"),
('an-regex', 'C20', AN, 'mediaReg = re.compile(mediaRegexp)', 'mediaReg = re.compile(mediaRegexp[:-1])'),
('an-total', 'C20', AN, "as_data['totalTicks'] = rep_data['endTick'] - rep_data['startTick']", "as_data['totalTicks'] = rep_data['endTick']"),
('an-lastdur', 'C20', AN, "firstStartTimeInRepeat, duration, repeatCount)\n                        as_data", "firstStartTimeInRepeat, lastDuration, repeatCount - 1 if repeatCount > 1 else repeatCount)\n                        as_data"),
# time
('dur-hours', 'C17', TI, "if seconds > 0 or period.endswith(\"T\"):", "if seconds > 0:"),
# state
('state-emsg', 'C21', P, "cfg.emsg_last_seg = True\n                        response = process_media_segment(dashProv, dashProv.now_float, chunk)\n                        cfg.emsg_last_seg = False", "MediaSegmentFilter.emsg_default = True\n                        cfg.emsg_last_seg = True\n                        response = process_media_segment(dashProv, dashProv.now_float, chunk)\n                        cfg.emsg_last_seg = getattr(cfg, 'x', False)"),
]
