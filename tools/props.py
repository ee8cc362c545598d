"""The property table: source of properties.jsonl and MANIFEST.json (run tools/mkmeta.py)."""

D = 'dashlivesim/dashlib/'
PROPS = []


def P(**k):
    PROPS.append(k)


P(id='C01', title='Segments are served exactly inside their availability window',
  statement='A request for a media segment, thumbnail or multiplexed segment is answered with media if and only if the '
            'segment number belongs to the session described by the URL and the request time lies in that segment\'s '
            'window: from the end of the segment (availability start time + (number - first number + 1) * duration) minus '
            'the availability time offset, until one segment duration plus the time-shift buffer depth later. '
            'Sessions with a stop time never expire segments and serve none at or beyond the stop; an infinite offset '
            'disables both time limits after the availability start; sessions with durations serve no number after the last '
            'one and nothing more than a minute after their end. Otherwise a refusal is returned, never an exception.',
  over=['inputs', 'configurations'],
  quant='every request time (steps of 1/1024 s), segment number, start number, buffer depth, start/stop/duration value, '
        'time offset and availability offset, for the listed option combinations and segment forms (number, time, '
        'thumbnail, multiplexed)',
  why='Tests probe a handful of instants for two contents; off-by-one windows, interactions of options (start number with '
      'duration, offset with stop time) and thumbnails are not sampled.',
  files=[D + 'dash_proxy.py', D + 'configprocessor.py'],
  mech=[('early/late/first/last checks', D + 'dash_proxy.py get_media, process_media_segment, process_thumbnail'),
        ('session parameters from the URL', D + 'configprocessor.py process_url, process_start_time, update_with_aet')],
  note='All paths within the stated value bounds; times on a 1/1024 s grid; option sets are the listed combinations.')

P(id='C02', title='Looped VoD content forms one continuous live timeline',
  statement='The media of segment number n is the stored segment at the position of n\'s media time within the loop, and '
            'its decode time is the stored decode time plus the number of completed loops times the loop duration, in the '
            'track\'s own timescale. The fragment sequence number equals n. This holds for every start number, availability '
            'start, time offset, loop length, first stored number and naming form, so consecutive segments never overlap, '
            'jump or repeat across loop boundaries.',
  over=['inputs', 'configurations'],
  quant='every segment number below 2^31, request time, start number, start time, time offset, first stored segment number '
        'and stored decode time (32 and 64 bit), for the listed loop lengths, durations and timescales',
  why='The tests fetch a few segments near one or two loop boundaries of one content with fixed start numbers.',
  files=[D + 'dash_proxy.py', D + 'mediasegmentfilter.py', D + 'configprocessor.py'],
  mech=[('loop arithmetic', D + 'dash_proxy.py process_media_segment, process_thumbnail'),
        ('decode time shift', D + 'mediasegmentfilter.py process_tfdt, process_mfhd')],
  note='All paths within the stated value bounds; loop lengths, durations, timescales from listed sets.')

P(id='C03', title='Rewriting a media segment keeps the file consistent and the rest intact',
  statement='A served segment consists of the stored one with exactly these changes: sequence number, decode time, the last-'
            'segment brand, removal of the stored index and, when asked for, a new index whose size, time and duration '
            'describe the fragment. When the decode time box grows, every enclosing size, the sample data offset and the '
            'auxiliary information offsets grow by the same amount so they still point at the same bytes. All other bytes '
            'are unchanged.',
  over=['inputs', 'configurations'],
  quant='every stored field value and payload byte, segment number and loop shift, for the listed box layouts (sample '
        'record fields, tfhd defaults, auxiliary offsets, brands, extra boxes)',
  why='The tests rewrite a few real segments whose layout is always the same and look at single fields.',
  files=[D + 'mediasegmentfilter.py', D + 'mp4filter.py'],
  mech=[('box rewriting', D + 'mediasegmentfilter.py process_*'), ('size propagation', D + 'mp4filter.py filter_box')],
  note='Layouts enumerated, all values symbolic at full width; one fragment and track per stored segment.')

P(id='C04', title='The last segment of a time-limited session, and no other, is marked',
  statement='Within a session limited by durations or by a modulo period, the media segment that ends at an announced '
            'presentation end carries the last-segment brand exactly once in its segment type box; every other served '
            'segment does not. With several durations each announced end of the growing session is marked. The number of the '
            'marked segment follows the session\'s own numbering (start number, time offset, availability start).',
  over=['inputs', 'configurations'],
  quant='every request time, segment number, start, start number, time offset and duration value for one and two durations, '
        'and every modulo period and position in it; number and time naming, plain and multiplexed segments',
  why='A test looks at one last segment of one session with start number 0.',
  files=[D + 'dash_proxy.py', D + 'configprocessor.py', D + 'moduloperiod.py', D + 'mediasegmentfilter.py'],
  mech=[('last segment numbers', D + 'configprocessor.py process_start_time, update_with_modulo_period'),
        ('brand insertion', D + 'mediasegmentfilter.py process_styp')],
  note='All paths within the stated value bounds.')

P(id='C05', title='Every segment a manifest announces is the one the server delivers',
  statement='For any session URL, the number-based manifest generated at a time and the segment server agree: for every '
            'position in the period, the segment whose URL a client derives from the manifest (template, start number, base '
            'or location URL) is served when its announced availability time has come and it lies in the announced '
            'time-shift buffer and presentation, is refused before that, and carries the decode time equal to its '
            'presentation time offset plus its position. The document is well-formed, durations and dates are valid.',
  over=['inputs', 'configurations'],
  quant='every request time, segment index, start/stop/duration/number/offset/buffer value, for the listed option '
        'combinations and segment durations',
  why='Manifest and media tests are separate and compare fixed strings; no test relates the two.',
  files=[D + 'mpd_proxy.py', D + 'mpdprocessor.py', D + 'dash_proxy.py', D + 'configprocessor.py',
         D + 'timeformatconversions.py'],
  mech=[('manifest values', D + 'mpd_proxy.py generate_dynamic_mpd, generate_period_data'),
        ('template rewriting', D + 'mpdprocessor.py process_mpd, update_adaptation_sets'),
        ('segment window and mapping', D + 'dash_proxy.py process_media_segment')],
  note='All paths within the stated value bounds; one period, number template.')

P(id='C06', title='SegmentTimeline manifests list exactly the segments being served',
  statement='A SegmentTimeline manifest (time- or number-based) lists consecutive segments without gap or overlap: each '
            'entry starts where the previous one ends and has the duration of the stored segment at that loop position. '
            'Every listed segment is served at that moment under its announced time or number and carries exactly the listed '
            'decode time; the listing begins with the first segment that reaches into the time-shift buffer (or the first of '
            'the session) and ends with the newest complete one, within the session. For number-based timelines the start '
            'number is that of the first listed segment.',
  over=['inputs', 'configurations'],
  quant='every request time, start/stop time, start number, time offset, buffer depth, modulo position; segment tables '
        'with uneven segment durations for video and audio; loop boundaries',
  why='Tests look at two fixed instants of one content; window edges, loop wraps, uneven durations and session options are '
      'not sampled.',
  files=[D + 'segtimeline.py', D + 'mpdprocessor.py', D + 'mpd_proxy.py', D + 'dash_proxy.py'],
  mech=[('timeline generation', D + 'segtimeline.py SegmentTimeLineGenerator'),
        ('time to number', D + 'dash_proxy.py process_media_segment')],
  note='All paths within the stated value bounds; segment tables from a listed set.')

P(id='C07', title='Init segments are the stored ones with live durations',
  statement='An init segment is served from the availability start minus the configured init offset on and refused before. '
            'Its content is the stored one with the movie, track and media durations set to zero and everything else '
            'unchanged. For a multiplexed representation it holds the file type and movie header of the first and the track '
            'and track-extends boxes of both, also with zero durations, and consistent sizes. Reading an init segment yields '
            'its track id, timescale, handler and sample defaults.',
  over=['inputs', 'configurations'],
  quant='every header field value at full width in version 0 and 1 boxes, extra boxes, request time, start and init offset',
  why='Tests use version 0 boxes of two files and a few instants.',
  files=[D + 'initsegmentfilter.py', D + 'segmentmuxer.py', D + 'dash_proxy.py', D + 'mp4filter.py'],
  mech=[('durations', D + 'initsegmentfilter.py InitLiveFilter'), ('multiplexing', D + 'segmentmuxer.py MultiplexInits'),
        ('availability', D + 'dash_proxy.py get_init')],
  note='Box layouts enumerated, all values symbolic at full width.')

P(id='C08', title='Multiplexed segments carry the samples of both tracks intact',
  statement='A multiplexed media segment is one fragment with one media data box: sequence number and segment type of the '
            'first track, one track fragment per track with its own shifted decode time, all boxes as stored, and a data '
            'offset that leads to exactly that track\'s samples. The tracks do not share media data. The last segment of a '
            'limited session is marked.',
  over=['inputs', 'configurations'],
  quant='every decode time, segment number, sample field value and payload byte, for mixes of sample tables, box versions, '
        'leading media bytes and extra boxes in both tracks',
  why='One test multiplexes one pair of real segments.',
  files=[D + 'segmentmuxer.py', D + 'mediasegmentfilter.py', D + 'dash_proxy.py'],
  mech=[('offset adjustment', D + 'segmentmuxer.py mux_on_sample_level'), ('boxes', D + 'segmentmuxer.py MediaSegmentStructure')],
  note='Layouts enumerated, values symbolic at full width, up to 3 (thorough: 6) samples per track.')

P(id='C09', title='Chunked delivery carries exactly the samples of the segment',
  statement='The chunks of a low-latency segment are complete fragments that together carry every sample of the stored '
            'segment once and in order, with its bytes, duration, composition offset and sync marking, whether these come '
            'from the sample record, the fragment or the track defaults. Decode times continue from chunk to chunk, starting '
            'at the shifted decode time of the segment; sequence number and track stay the same. Each chunk ends with the '
            'sample that completes its chunk duration.',
  over=['inputs', 'configurations'],
  quant='every sample duration, flag, offset and payload byte, decode time and segment number, for the listed sources of '
        'sample values and chunk durations',
  why='No test looks inside chunked media.',
  files=[D + 'chunker.py', D + 'boxes.py', D + 'mp4.py', D + 'dash_proxy.py'],
  mech=[('sample reading', D + 'chunker.py decode_fragment; ' + D + 'mp4.py trun_box, tfhd_box'),
        ('partition', D + 'chunker.py partition'), ('fragment writing', D + 'boxes.py create_moof, TRUNBox')],
  note='Up to 4 (thorough: 6) samples; layouts enumerated.')

P(id='C10', title='Chunks are released when complete, not before and not later',
  statement='In chunked delivery chunk i of segment n leaves the server no earlier than 0.1 s before the wall-clock time at '
            'which it is complete (segment start plus i chunk durations), whatever start time, start number, offset or '
            'duration the session has, and is not held back once that time has come. All chunks are delivered in order; the '
            'server never sleeps for a negative time.',
  over=['inputs', 'schedules', 'configurations'],
  quant='every request time, segment number, session option value and client delay between chunks',
  why='Tests do not fetch chunked media; pacing needs a controlled clock.',
  files=['dashlivesim/mod_wsgi/mod_dashlivesim.py', D + 'dash_proxy.py', D + 'chunker.py'],
  mech=[('pacing', 'dashlivesim/mod_wsgi/mod_dashlivesim.py application'),
        ('segment start', D + 'dash_proxy.py process_media_segment ChunkedSegment')],
  note='Clock advances only by sleeping and by one symbolic client delay; up to 3 (thorough: 4) chunks.')

P(id='C11', title='Byte-range requests deliver exactly the requested bytes',
  statement='For a satisfiable single byte range of any resource the reply is 206 with exactly the bytes asked for (clipped '
            'to the resource), a Content-Range naming them and the full size, and a matching Content-Length. Any other range '
            'header (unsatisfiable, malformed, several ranges) yields the whole resource with status 200 and no Content-Range, '
            'or 416; it never breaks the reply. Refusals are never partial.',
  over=['inputs'],
  quant='every first/last/suffix value below 2^40 for resources of several sizes and kinds, and the listed malformed forms',
  why='No test sends a range header.',
  files=['dashlivesim/mod_wsgi/mod_dashlivesim.py'],
  mech=[('range parsing', 'dashlivesim/mod_wsgi/mod_dashlivesim.py handle_byte_range')],
  note='Resource sizes enumerated, range values and content symbolic.')

P(id='C12', title='Every request gets one well-formed reply with the right status',
  statement='Whatever is requested, the server answers exactly once, with a status line, each header at most once, the '
            'caching and cross-origin headers, a Content-Length equal to the body, and a content type that matches what is '
            'served. The status is 200 exactly when the URL names a manifest, an available init segment, or a segment inside '
            'its window; anything else, including unusable option values and URLs that name nothing, is a 404 with a text '
            'explanation, and no exception reaches the web server.',
  over=['inputs', 'configurations'],
  quant='every request time, segment number and option value in the listed option sets; listed kinds of meaningless URLs and '
        'unusable option values, with every segment number in them',
  why='The tests call the providers directly for a few good URLs; error paths and the HTTP layer are hardly touched.',
  files=['dashlivesim/mod_wsgi/mod_dashlivesim.py', D + 'dash_proxy.py', D + 'configprocessor.py'],
  mech=[('reply', 'dashlivesim/mod_wsgi/mod_dashlivesim.py application, start_reply, get_mime_type'),
        ('refusals', D + 'dash_proxy.py get_media, get_init; ' + D + 'configprocessor.py process_url')],
  note='All paths within the stated value bounds; option sets and malformed URLs enumerated.')

P(id='C13', title='Limited sessions: manifests redirect into a dated session that ends on time',
  statement='With a session limit, a manifest request without a usable session start is redirected to the same URL, query '
            'and scheme with the current second and a session id put in front; following it gives a manifest whose media '
            'URLs stay in that session. Media without a session start is refused. Within a session every reply equals the '
            'one without a limit until the limit has passed, then it is 410; a session start more than 5 s in the future is '
            'refused.',
  over=['inputs', 'histories'],
  quant='every request time, session start, limit, segment number and option value in the listed option sets; redirect '
        'followed up to 10^6 s later',
  why='There is no test of a configured session limit followed over time.',
  files=['dashlivesim/mod_wsgi/mod_dashlivesim.py', D + 'sessionid.py', D + 'configprocessor.py', D + 'mpd_proxy.py'],
  mech=[('session limit', 'dashlivesim/mod_wsgi/mod_dashlivesim.py application'),
        ('session parts of the URL', D + 'configprocessor.py process_url')],
  note='All paths within the stated value bounds; random session id left abstract.')

P(id='C14', title='Ad splices are announced at the right time, once, on the media timeline',
  statement='With scte35_N, splices lie at media-timeline seconds 10 (1 per minute), 10 and 40 (2), 10, 36 and 46 (3), or '
            '10 and 30 with 20 s breaks (8). Every video segment that covers the instant 8 s or 6 s before a splice starts '
            'with exactly one event box for it, right after the segment type box: scheme urn:scte:scte35:2013:xml, the '
            'timescale 90000, the delta from segment start to splice, the break duration, an id that is the same for all '
            'announcements of the splice and differs between splices, and a splice message with the splice time on the '
            '33-bit 90 kHz clock. No other segment (audio, not covering, option absent) carries one. The manifest declares '
            'the event stream in every video set of every period, and the ad profile, exactly when the option is set.',
  over=['inputs', 'configurations'],
  quant='every media time, start number, start time and time offset within the bounds, for the listed segment durations and '
        'splice rates',
  why='The tests generate a few events for one segment duration; announcements that straddle minute or segment boundaries, '
      'start numbers and the clock wrap are not sampled.',
  files=[D + 'scte35.py', D + 'emsg.py', D + 'mediasegmentfilter.py', D + 'dash_proxy.py', D + 'mpdprocessor.py'],
  mech=[('splice schedule', D + 'scte35.py create_scte35_emsg, _generate_mpd_events'),
        ('event box', D + 'emsg.py Emsg'), ('insertion', D + 'mediasegmentfilter.py process_styp/finalize')],
  note='All paths within the stated value bounds (four windows of media time); the existing rate table is taken as intended.')

P(id='C15', title='Multi-period manifests cover the session with periods of stable identity',
  statement='With periods_N the periods are 3600/N s long and aligned to multiples of that from the availability start; '
            'the listed ones are consecutive, have distinct ids derived from their position and start where the previous '
            'one ends; together they cover the time-shift buffer up to now, never beyond the end of the session. Within '
            'each period the segment URLs with the announced start number or presentation time offset address exactly the '
            'segments of that period and those are served when available. Period continuity, early termination '
            '(announced duration or shortened period), MPD callbacks, asset and per-period time offsets appear exactly '
            'where asked for. Impossible combinations are refused.',
  over=['inputs', 'configurations', 'histories'],
  quant='every request time, session start/stop, start number, buffer depth and session length in the bounds, for the '
        'listed period rates and option combinations',
  why='Tests look at a few manifests at fixed instants and never at the segments of the second and later periods.',
  files=[D + 'mpd_proxy.py', D + 'mpdprocessor.py', D + 'dash_proxy.py'],
  mech=[('period list', D + 'mpd_proxy.py generate_period_data'), ('period attributes', D + 'mpdprocessor.py update_periods'),
        ('early termination', D + 'dash_proxy.py process_media_segment')],
  note='All paths within the stated value bounds; period rates and segment durations enumerated.')

P(id='C17', title='The head of a manifest describes the session',
  statement='A generated manifest is dynamic with the availability start time, buffer depth, update period, presentation '
            'delay, publish time and end of the session the URL describes, each present exactly when it applies; it turns '
            'static with the whole session duration once the session has stopped; base URL or location point back to the '
            'same session with the request\'s scheme and host (relative start/stop times resolved to fixed ones), and the '
            'requested clock synchronisation methods appear in order with the right time value for the direct one. What '
            'the content manifest said about these things is replaced, everything else is passed on.',
  over=['inputs', 'configurations'],
  quant='every request time, start, stop, durations, buffer depth, presentation delay and update period within the bounds, '
        'for the listed option combinations',
  why='Tests check single attributes of a handful of manifests.',
  files=[D + 'mpd_proxy.py', D + 'mpdprocessor.py', D + 'configprocessor.py', D + 'timeformatconversions.py'],
  mech=[('top-level attributes', D + 'mpdprocessor.py process_mpd'), ('session values', D + 'mpd_proxy.py get_mpd'),
        ('UTCTiming', D + 'mpdprocessor.py insert_utc_timings')],
  note='All paths within the stated value bounds; dates and durations are symbolic tokens parsed back exactly.')

P(id='C18', title='A linked remote period is exactly the one its link resolves to',
  statement='With xlink_N every period of the manifest whose position is a multiple of the spacing is replaced by a link '
            'resolved on load, the others are unchanged. Following a link to this server (then or later while the '
            'period is listed) yields exactly the period that the manifest without links contains at that position; with '
            'insertad the links, default contents and asset identifiers are those of the chosen advertisement variant. '
            'Links to periods that are not listed (any longer), links without periods and at impossible rates are refused.',
  over=['inputs', 'configurations', 'histories'],
  quant='every session start and request time in the bounds, links followed up to one update period later, for the listed '
        'period and link rates, advertisement variants and session options',
  why='Tests compare one link at one instant and never follow it.',
  files=[D + 'mpd_proxy.py', D + 'mpdprocessor.py', 'dashlivesim/mod_wsgi/mod_dashlivesim.py'],
  mech=[('links', D + 'mpd_proxy.py get_mpd'), ('resolution', D + 'mpd_proxy.py find_period/generate_response')],
  note='All paths within the stated value bounds; contents of remote advertisement servers are outside.')

P(id='C16', title='Simulated server outages hit exactly their seconds and are announced',
  statement='A base URL option uA_dB (dA_uB) makes media requests fail exactly while the second within the minute lies in the '
            'down part of the repeated pattern; at all other times the reply is the ordinary one, except that the last '
            'second before an outage adds one manifest-validity event naming that second. With several such options the '
            'manifest lists one base URL per option, each a usable URL of the same session with just that option. With the '
            'timeline-loss option the manifest served during an outage is the one of the last second before it, the '
            'validity event stream is declared in that last second, and otherwise the manifest is the ordinary one with '
            'the main live profile.',
  over=['inputs', 'schedules', 'fault_sequences'],
  quant='every request time and segment number (and start number, start and stop time, buffer depth where used) for the '
        'listed outage patterns, base URL lists and option orders',
  why='Tests try a few instants of two patterns and never follow the listed base URLs.',
  files=[D + 'dash_proxy.py', D + 'mpd_proxy.py', D + 'mpdprocessor.py', D + 'mediasegmentfilter.py'],
  mech=[('outage windows', D + 'dash_proxy.py get_media'), ('frozen manifest', D + 'mpd_proxy.py get_mpd'),
        ('base URL list', D + 'mpdprocessor.py process_mpd_children')],
  note='All paths within the stated value bounds; patterns from a list; the first second of a minute counts as up.')

P(id='C19', title='Looped subtitle documents carry live times and keep everything else',
  statement='In a subtitle (TTML) segment every cue begin and end time is moved by the time of the completed loops (hours may '
            'exceed 99), a clock text is replaced by the wall-clock time of the cue, a segment number text by the '
            'live number, and every other character of the document is unchanged. Sample size, data box size, data offset, decode '
            'time, sequence number and index of the segment describe the new document.',
  over=['inputs'],
  quant='every stored cue time, loop time and segment number in the bounds, and every other document text of the stated shapes',
  why='Tests transform one stored segment.',
  files=[D + 'ttml_timing_offset.py', D + 'mediasegmentfilter.py'],
  mech=[('document', D + 'ttml_timing_offset.py adjust_ttml_content'), ('boxes', D + 'mediasegmentfilter.py update_ttml_mdat/process_tfhd')],
  note='All paths within the stated value bounds.')

P(id='C20', title='The analyzed configuration describes the stored content',
  statement='For content that it accepts, the VoD analyzer writes a configuration which, read back by the server, gives the first number '
            'of the stored segments, the number of segments available in every representation, the segment duration, and per set '
            'its representations, timescale, the exact total duration of the loop and a timing table whose runs expand to exactly '
            'the number, decode time and duration of every stored segment of the loop. Content with missing segments, differing '
            'timescales within a set, or segment ends 100 ms or more off their nominal time is refused.',
  over=['inputs', 'configurations'],
  quant='every decode time and every segment duration within the bounds, for the listed numbers of segments, sets and ways to store durations',
  why='No test runs the analyzer.',
  files=['dashlivesim/vodanalyzer/dashanalyzer.py', D + 'configprocessor.py', D + 'segtimeline.py', D + 'mediasegmentfilter.py'],
  mech=[('table', 'dashlivesim/vodanalyzer/dashanalyzer.py checkAndUpdateMediaData'), ('reading', D + 'configprocessor.py VodConfig')],
  note='All paths within the stated value bounds.')

P(id='C21', title='A reply depends on request, content and time only',
  statement='What the server answers (status, headers, every part of the body) is a function of the request, the stored content and '
            'the request time. Requests answered before by the same server process, for the same or other content, sessions, options, '
            'hosts or times, served or refused, do not change it, nor do requests answered while the chunks of the reply are still being '
            'delivered; the reply is the one a newly started process gives.',
  over=['inputs', 'histories', 'schedules'],
  quant='every request time (in any order), segment number, start, start number and offset of two or three requests in one process, for '
        'the listed pairs and triples of request kinds and options',
  why='Every test builds a fresh provider for one request; left-over state shows only in a sequence of different requests.',
  files=['dashlivesim/mod_wsgi/mod_dashlivesim.py', D + 'dash_proxy.py', D + 'mpd_proxy.py', D + 'configprocessor.py', D + 'mpdprocessor.py',
         D + 'segmentmuxer.py', D + 'initsegmentfilter.py', D + 'mediasegmentfilter.py'],
  mech=[('entry point', 'dashlivesim/mod_wsgi/mod_dashlivesim.py application'), ('one provider per request', D + 'dash_proxy.py DashProvider'),
        ('session state', D + 'configprocessor.py Config')],
  note='All paths within the stated value bounds; interleaving at the granularity of delivered body parts.')

P(id='C22', title='The live manifest keeps everything the stored one says beyond live timing',
  statement='Every element, attribute, number and text of the stored manifest, in any namespace, is in the manifest sent to the client, in '
            'the same place and order and with the same value, in every generated period, except the live timing: the '
            'presentation-level times, type, id and added profiles, period id, start and duration, and the template\'s start number and '
            'presentation time offset (with segment timelines its duration, timescale and time naming, with chunked delivery its availability offset). '
            'Nothing is added but the announced elements of the options in use.',
  over=['inputs', 'configurations'],
  quant='every number in the attributes and texts of the stored manifests, every request time and session start in the bounds, for the '
        'listed option sets',
  why='Tests look for single attributes of one manifest.',
  files=[D + 'mpdprocessor.py', D + 'mpd_proxy.py', D + 'dash_namespace.py'],
  mech=[('rewriting', D + 'mpdprocessor.py process_mpd, update_periods'), ('serialising', D + 'mpdprocessor.py get_full_xml')],
  note='All paths within the stated value bounds; manifest structures from a list; values symbolic.')

P(id='C23', title='Segment timelines of several periods share out the segments of the window',
  statement='In a multi-period SegmentTimeline manifest every segment of the time-shift window is listed in exactly one period, the one '
            'in which it ends: within a period the entries follow each other, the next period goes on with the following segment, and '
            'together they are the listing of the same session without periods. Times minus the offset of the period give the position '
            'in it; number-based timelines give the number of the first segment listed in that period. An early terminated period lists '
            'nothing after its announced duration. Listed segments are served with the listed decode time.',
  over=['inputs', 'configurations'],
  quant='every request time, session start/stop, start number, time offset and buffer depth in the bounds; segment tables aligned and '
        'not aligned with the period boundaries, even and uneven',
  why='Tests look at the timeline of a single period at fixed instants; period boundaries inside the window are not sampled.',
  files=[D + 'segtimeline.py', D + 'mpdprocessor.py', D + 'mpd_proxy.py', D + 'dash_proxy.py'],
  mech=[('period windows', D + 'mpdprocessor.py update_periods'), ('listing', D + 'segtimeline.py create_segtimeline'),
        ('periods', D + 'mpd_proxy.py generate_period_data')],
  note='All paths within the stated value bounds; segment tables and period rates from a list.')

P(id='C24', title='The caption inserter adds each caption once, to its sample, and nothing else',
  statement='The segments written by the caption inserter carry every caption of the SCC file whose time lies in one of their samples, '
            'in exactly that sample (start inclusive, end exclusive), as SEI messages of at most 31 words placed before the picture data, '
            'words in order, field as asked. Every other NAL unit, all sample durations, flags, composition offsets and decode times '
            'are unchanged; sample sizes, box sizes and the segment index describe the new data. A segment without captions is not '
            'changed. A segment missing in the sequence is reported as an error.',
  over=['inputs'],
  quant='every decode time, sample duration, flags, composition offset, NAL unit type and payload, and caption time in the bounds, for the '
        'listed segment layouts and caption lengths',
  why='The caption inserter has no test at all; captions at sample and segment boundaries and sample table layouts are what goes wrong.',
  files=['dashlivesim/cc_inserter/cc_inserter.py', 'dashlivesim/cc_inserter/mpdprocessor.py', D + 'mp4filter.py'],
  mech=[('insertion', 'dashlivesim/cc_inserter/cc_inserter.py CCInsertFilter'), ('asset', 'dashlivesim/cc_inserter/cc_inserter.py CCInserter')],
  note='All paths within the stated value bounds; layouts from a list.')

P(id='C25', title='The options of a URL may come in any order',
  statement='Two URLs that differ only in the order of their options give the same answer: the same manifest (but for the URLs it '
            'repeats, which keep the order asked for), the same segment, byte for byte, or both a refusal.',
  over=['inputs', 'configurations'],
  quant='every request time, segment number, start and stop time, start number, buffer depth, update period and offsets in the bounds; '
        'the listed option sets of two to five options and several orders of each',
  why='Options are read in one loop whose branches look at what earlier ones have set; tests use one order each.',
  files=[D + 'configprocessor.py', D + 'dash_proxy.py', D + 'mpd_proxy.py'],
  mech=[('parsing', D + 'configprocessor.py ConfigProcessor.process_url'), ('derived values', D + 'configprocessor.py Config.update_with_vodcfg')],
  note='All paths within the stated value bounds; option sets and orders from a list.')

P(id='C26', title='A request reads only inside the content it names and writes nothing',
  statement='Whatever path a request has, the server opens only the configuration of the content named in the URL and files in that '
            'content\'s own directory: path parts that are empty, dots, percent-encoded or names of other directories never make it read '
            'elsewhere. No request writes a file. A request that would have to read elsewhere is refused with 404.',
  over=['inputs'],
  quant='paths of up to three directory parts, each any of eight kinds of names, below five kinds of content names, for six kinds of '
        'files; every segment number and request time; every file elsewhere exists',
  why='The raw request URI reaches the code unnormalised; tests never send a path that is not a proper one.',
  files=[D + 'configprocessor.py', D + 'dash_proxy.py', D + 'mpd_proxy.py'],
  mech=[('paths', D + 'configprocessor.py Config.update_with_filedata, update_with_reps'), ('reading', D + 'dash_proxy.py process_init_segment, filter_media_segment, process_thumbnail')],
  note='All paths within the stated value bounds; path parts from a list.')

P(id='C27', title='The subtitle generator makes segments that carry the asked times and texts',
  statement='The init segment made by the subtitle generator has the asked track id (in the track, its sample defaults and the next free '
            'id), language, time scale, handler name and creation time; every media segment is one fragment whose track, sequence '
            'number, decode time, sample duration, sample size and data offset are right and whose only sample is the document. A '
            'generated sequence has consecutive numbers and decode times without gaps, and its documents have one cue per time stamp, '
            'back to back over the time of the segment, with distinct ids and the time as text.',
  over=['inputs', 'configurations'],
  quant='every track id, sequence number, duration, decode time, time scale, creation time and document byte in the bounds; listed '
        'languages and names',
  why='The generator has no test at all.',
  files=[D + 'stpp_generator/stpp_creator.py', D + 'stpp_generator/make_stpp_segments.py', D + 'mp4filter.py'],
  mech=[('segments', D + 'stpp_generator/stpp_creator.py StppMediaFilter, StppInitFilter'),
        ('sequence', D + 'stpp_generator/make_stpp_segments.py SegmentCreator')],
  note='All paths within the stated value bounds; the template library is a stand-in.')

P(id='C28', title='Low-latency manifests describe latency, clock and encoder times of their media',
  statement='A manifest requested with a chunk duration has one service description, before the periods, with ordered latency bounds; '
            'the low-latency profile; the clock sources asked for or one by default; and, in every adaptation set of every period, one '
            'producer reference time that the service description refers to and that is right: the media at the start of a period is '
            'encoded at the start of that period, whatever the session start, time offset, numbering and period. Every segment template '
            'has the availability offset of the request and says that segments are not complete. Without a chunk duration none of '
            'these are there.',
  over=['inputs', 'configurations'],
  quant='every request time, start, stop, duration, offset, start number and availability offset in the bounds; listed combinations with '
        'periods, timelines, several base URLs, ad markers and clock sources',
  why='One test looks for the presence of the elements at one instant in a session that starts in 1970.',
  files=[D + 'mpdprocessor.py', D + 'mpd_proxy.py', D + 'configprocessor.py'],
  mech=[('producer reference', D + 'mpdprocessor.py MpdProcessor.insert_producer_reference'),
        ('service description', D + 'mpdprocessor.py MpdProcessor.insert_service_description'),
        ('offsets', D + 'mpd_proxy.py generate_dynamic_mpd, ' + D + 'mpdprocessor.py update_periods')],
  note='All paths within the stated bounds.')

P(id='C29', title='A manifest and its later updates agree',
  statement='Of two manifests of one session URL (the Location, where there is one), the one requested later never has an earlier publish '
            'time, availability start or end. As long as the availability start is the same (it moves on only with tfdt_32, cont and '
            'modulo, and not before the previous session has begun) it has the same buffer depth, presentation delay, profiles and '
            'segment limits, and a static manifest is unchanged but for the publish time. A period listed in both is the same in all its '
            'content; only later periods appear and only periods that have left the buffer disappear. A segment in the timelines of both '
            'has the same time, duration and number, none is withdrawn at the end and the listing never moves back. A player that '
            'updates as often as told sees a period before it begins and the extension of a session before its announced end.',
  over=['inputs', 'histories', 'configurations'],
  quant='every pair of request times, and every start, stop, duration, offset, start number and buffer depth in the bounds; listed option '
        'combinations with number templates, several periods and timelines',
  why='Tests generate one manifest at one instant; no test compares two of the same session.',
  files=[D + 'mpd_proxy.py', D + 'mpdprocessor.py', D + 'segtimeline.py', D + 'configprocessor.py', D + 'moduloperiod.py'],
  mech=[('periods', D + 'mpd_proxy.py generate_period_data'), ('session end', D + 'configprocessor.py Config.update_with_aet, ' + D + 'moduloperiod.py'),
        ('timelines', D + 'segtimeline.py SegmentTimeLineGenerator'), ('head', D + 'mpdprocessor.py MpdProcessor.process_mpd')],
  note='All paths within the stated bounds. Two manifests suffice: the relation is pairwise.')
