"Writes properties.jsonl (the text lives here so that it can be edited in one place)."
import json
W = "dashlivesim/mod_wsgi/mod_dashlivesim.py"
P = "dashlivesim/dashlib/dash_proxy.py"
M = "dashlivesim/dashlib/mpd_proxy.py"
MP = "dashlivesim/dashlib/mpdprocessor.py"
CFG = "dashlivesim/dashlib/configprocessor.py"
ST = "dashlivesim/dashlib/segtimeline.py"
MF = "dashlivesim/dashlib/mediasegmentfilter.py"
F = "dashlivesim/dashlib/mp4filter.py"
IF = "dashlivesim/dashlib/initsegmentfilter.py"
MOD = "dashlivesim/dashlib/moduloperiod.py"
CH = "dashlivesim/dashlib/chunker.py"
BX = "dashlivesim/dashlib/boxes.py"
MX = "dashlivesim/dashlib/segmentmuxer.py"
SC = "dashlivesim/dashlib/scte35.py"
EM = "dashlivesim/dashlib/emsg.py"
TT = "dashlivesim/dashlib/ttml_timing_offset.py"
TF = "dashlivesim/dashlib/timeformatconversions.py"
AN = "dashlivesim/vodanalyzer/dashanalyzer.py"
AM = "dashlivesim/vodanalyzer/mpdprocessor.py"
CC = "dashlivesim/cc_inserter/cc_inserter.py"

def p(id, title, statement, over, text, why, files, mech, observe=None):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                        "observe_at": observe or ["HTTP responses of the WSGI application"], "hook_needed": None}}

PROPS = [
 p("C01", "Segments are served exactly inside their availability window",
   "A media segment or thumbnail N is answered 200 exactly while, by the clock of the server that handles the request, availabilityStartTime + (N - startNumber + 1) x segment duration - availabilityTimeOffset has been reached and at most the time-shift buffer depth plus one segment duration has passed since the segment's nominal end; an infinite availabilityTimeOffset switches both limits off, and an init segment is available from availabilityStartTime minus the configured init offset. "
   "Outside the window, and for numbers before the first one, the answer is 404 with a plain-text explanation (too early, too late, before first) and never media bytes. "
   "The window depends only on the URL, the asset and that clock, whatever the order, timing or origin of requests.",
   ["inputs", "configurations", "schedules", "histories"],
   "All assets, option combinations (start, snr, timeoffset, tsbd, ato, init, chunkdur), segment numbers and request instants, including sub-second boundaries, server clock skew and forward/backward clock steps.",
   "The tests call the provider object with a handful of fixed 'now' values; they never sweep request time across both edges of the window, never move or skew a clock, and never exercise thumbnails' limits.",
   [P, CFG, W], [("get_media, process_media_segment, process_thumbnail, get_init", P), ("Config.process_start_time / adjusted_start_number", CFG)]),
 p("C02", "Everything an MPD advertises can be fetched when it is advertised",
   "When a client receives a dynamic MPD from any server worker and then requests the init segment of a Representation, or a segment that this MPD declares available at the time of the request (by number template, SegmentTimeline time or SegmentTimeline number, in any listed Period and under any listed BaseURL), it gets 200 with media. "
   "Conversely a template or timeline never offers a segment that lies in the future of the server's clock. "
   "A client that keeps following the MPD, with delay, loss, retries and a worker restart in between, can therefore always play through.",
   ["configurations", "schedules", "fault_sequences", "histories"],
   "All assets and URL options that shape addressing (number, timeline by time, timeline by number, periods, start, snr, timeoffset, tsbd, ato), all request times, all worker choices, network delays and losses.",
   "Tests look at MPDs and at segments separately, at fixed times; no test derives the URLs from the MPD and fetches them as time passes.",
   [M, MP, ST, P, CFG], [("generate_dynamic_mpd, generate_period_data", M), ("MpdProcessor.update_periods", MP), ("SegmentTimeLineGenerator", ST), ("process_media_segment", P)]),
 p("C03", "The live media timeline is gap-free and anchored to the clock",
   "Each served media segment is the VoD segment that the endless loop puts at its number: its decode time equals the VoD decode time plus the number of completed loops times the loop duration (on the time axis that has its zero at the availability start time, shifted by timeoffset if given), its sequence number equals its segment number, and consecutive segments of a Representation are contiguous in decode time, also across loop wraps and beyond 32-bit times. "
   "Two Representations of the same asset stay aligned to within their VoD misalignment for ever. "
   "The same number always yields the same media, whenever and by whichever worker it is served.",
   ["inputs", "configurations", "histories"],
   "All assets (loop length, first number, timescales, tfdt versions), all segment numbers from 0 to far beyond the 32-bit tick range, all start/snr/timeoffset settings, all playout histories.",
   "The tests check a few tfdt values at fixed numbers for two bundled assets; contiguity across arbitrary wraps, starts and timescales is not sampled.",
   [P, MF, CFG], [("process_media_segment (loop arithmetic)", P), ("MediaSegmentFilter.process_tfdt / process_mfhd", MF)]),
 p("C04", "Rewriting a segment never damages its media",
   "A served media segment is a well-formed sequence of ISO boxes whose samples (bytes, durations, flags, composition offsets, auxiliary encryption data) are exactly those of the VoD segment, with every internal offset and size consistent, whatever rewriting was needed (32-to-64-bit decode time growth, styp change, sidx removal or insertion, event insertion). "
   "An inserted segment index describes the actual size, decode time and duration of the fragment. "
   "An init segment is the VoD init segment with only the movie, track and media durations set to zero.",
   ["inputs", "configurations"],
   "All valid single-fragment segments (box flavours: tfdt v0/v1, saio/senc, defaults in trex/tfhd/trun, sidx v0/v1, styp brands), all numbers on both sides of the 32-bit boundary, options sidx, scte35, baseurl events, sessions with lmsg.",
   "Tests compare a few box fields on the bundled assets; offsets after size growth, encryption offsets and combinations of insertions are sampled once or never.",
   [MF, F, IF, P], [("MediaSegmentFilter", MF), ("MP4Filter.filter/filter_box", F), ("InitLiveFilter", IF)]),
 p("C05", "SegmentTimelines are truthful and evolve consistently",
   "A generated SegmentTimeline lists contiguous segments, each with the start time and duration of the media actually served for it; it reaches back over the time-shift buffer (or to the start of the period) and forward to the last segment that has fully ended by the server's clock, and never beyond; at the end of a session it reaches to the last segment of the session. "
   "Addressing a segment by a listed time, by the corresponding number of the number-based timeline, or by plain number returns the same bytes. "
   "Between MPDs of the same session, entries are only removed at the old end and appended at the new end: a segment's listed start and duration never change.",
   ["configurations", "histories", "schedules"],
   "All assets incl. uneven audio segment durations and run-length patterns in the index data, all poll times and poll sequences, wraps, tsbd values, start/stop/snr/periods combinations.",
   "The tests generate single timelines at a few instants around one wrap; no test compares successive MPDs, sweeps poll times, or fetches the listed entries.",
   [ST, MP, P], [("SegmentTimeLineGenerator.create_segtimeline", ST), ("update_periods", MP), ("process_media_segment ('t' addressing)", P)]),
 p("C06", "Time-limited sessions announce their end and really end",
   "For a session with a start time and durations (or a stop time) the MPD announces availabilityStartTime at the start rounded down to a segment, a presentation duration that is correct for the running (and, shortly before its end, the next) stretch and that stays announced to the end, and for a stop time it becomes static when the stop time has passed (to the second). "
   "The last segment of a duration-limited session carries the last-media-segment mark and no other segment does; numbers beyond the end are refused, nothing is served before the start, and after the availability end time plus one minute every media segment is refused. "
   "As time passes the announced end never moves backwards, and a session with a stop time stays fetchable in full after it has become static.",
   ["configurations", "histories", "schedules"],
   "All start/dur(+dur)/stop/mup/tsbd/timeoffset/snr combinations, all segment numbers, all request and poll times before, during and after the session, across workers and clock steps.",
   "Tests check a few fixed instants; transitions (update points, static switch, end + grace) and the whole-session history are not covered.",
   [CFG, M, MP, P], [("process_start_time, update_with_aet, stop_number", CFG), ("generate_dynamic_mpd", M), ("last_segment_numbers / lmsg", P)]),
 p("C07", "Modulo sessions repeat with the documented pattern",
   "With modulo_N the MPD describes the session of the current N-minute interval: availabilityStartTime is the interval start (in its last tenth, the next interval's), presentation duration steps through 2/10, 4/10, 6/10 and 8/10 of the interval as time passes, availabilityEndTime follows it by one update period and the update period is 1/20 of the interval (zero with a SegmentTimeline). "
   "Segments of the session, numbered from the interval start, follow the availability rules of that session; the segment that ends at the announced end carries the last-segment mark, and numbers beyond it are refused. "
   "The pattern depends on the clock only, so it repeats exactly for ever and is the same on every worker.",
   ["configurations", "histories", "schedules"],
   "All N, all instants within and around interval boundaries, all segment numbers and poll sequences.",
   "The tests sample seven instants of one interval length on the helper class, and never request segments of a modulo session through its end.",
   [MOD, CFG, P], [("ModuloPeriod", MOD), ("update_with_modulo_period", CFG)]),
 p("C08", "Multi-period MPDs tile the timeline and stay consistent",
   "With periods_n the MPD lists exactly the Periods that overlap the time-shift window (extended by one segment duration) or begin within the next half period and not beyond an announced end; Period k starts k x 3600/n seconds after the availability start, has a stable id, start, start number and presentation time offset in every MPD that lists it, and Periods follow each other without gap or overlap unless early termination asks for a gap. "
   "If Periods hold whole segments, a segment reached through any Period has its media time equal to Period start plus the offset it is listed at, so playback continues seamlessly across the boundary; period-continuity signalling names the previous Period. "
   "Early-terminated Periods, MPD callback events, period offsets and remote (xlink) Periods appear at exactly the Periods their rates select.",
   ["configurations", "histories", "schedules"],
   "All periods/continuous/etp/etpDuration/mpdcallback/xlink/insertad/peroff combinations accepted, all poll times around boundaries.",
   "The tests count Periods at a few instants and compare one MPD text; evolution over time and the link to served media are not tested.",
   [M, MP], [("generate_period_data", M), ("update_periods", MP)]),
 p("C09", "Low-latency chunks are delivered at their production times",
   "In chunked mode no chunk of a segment leaves the server more than 100 ms before its production time (the start of the segment plus one chunk duration for every chunk up to and including it, at most the end of the segment), and once that moment has come it leaves without further delay than the host's own stalls; chunks already due are sent at once. "
   "The concatenated chunks are well-formed fragments holding the segment type and events of the whole segment and exactly its samples in order, with consistent decode times, the first i chunks together covering at least i times the requested duration (in whole ticks) unless they end the segment. "
   "This holds for every request time, pace of the reader and number of simultaneous readers.",
   ["schedules", "inputs", "configurations", "fault_sequences"],
   "All chunk durations, assets, start/timeoffset/ato settings, arrival times from before the first chunk to after the last, slow readers, oversleeping timers, concurrent requests, decode times beyond 32 bits.",
   "The tests only chunk one segment offline; the pacing loop in the WSGI entry is not executed by any test.",
   [W, P, CH, BX], [("application (pacing loop)", W), ("ChunkedSegment, process_media_segment", P), ("chunk, partition, encode_chunked", CH)]),
 p("C10", "Faults of the disk are contained and healed at once",
   "Whatever goes wrong when reading content or configuration (missing, unreadable, truncated, zero-filled or interrupted files, too many open files), the request is answered by a complete, well-formed HTTP response: 404 with an explanation, or otherwise what is readable of the stored media, and never hangs, crashes the worker or leaks file handles. "
   "Requests that do not touch the faulty file are answered as if there were no fault. "
   "As soon as the fault is gone, the same worker answers exactly as a fresh one.",
   ["fault_sequences", "schedules", "histories"],
   "All fault kinds at every file access of every request kind, alone and in bursts, with concurrent requests, and recovery at any time.",
   "No existing test injects any fault.",
   [W, P, F, CFG, ST, MX], [("application (exception handler)", W), ("MP4Filter file reading and parsing", F), ("VodConfig.read_config", CFG)]),
 p("C11", "A response depends only on its own request and the clock",
   "For any set of requests handled concurrently by one worker or spread over several workers, each response (status, headers, body) is the one the same request gets when it is served alone by a fresh worker at the same clock reading. "
   "Neither earlier requests, nor other clients' options, nor a worker's age, nor restarts, nor clients that disconnect half-way influence it.",
   ["schedules", "histories", "fault_sequences", "crash_points"],
   "All interleavings at statement granularity of concurrent requests of all kinds (MPD, init, media, chunked, muxed, subtitles, redirects, errors), all histories, kills and restarts.",
   "Every test makes one call at a time on freshly built objects.",
   [W, P, M, MP, CFG], [("application", W), ("no request state in module globals", P)]),
 p("C12", "HTTP framing and byte ranges are correct",
   "Every response has one valid status line, a Content-Length equal to the number of body bytes (except chunked delivery), the documented cross-origin and no-cache headers, and the media type that belongs to the resource. "
   "A satisfiable single byte range (first-last, first-, -suffix, also reaching beyond the end) of a resource is answered 206 with exactly those bytes and a Content-Range that describes them; any other Range header is ignored and the full resource is returned with 200. "
   "A client that loses the connection at arbitrary points and resumes with ranges reassembles exactly the full resource.",
   ["inputs", "fault_sequences", "histories"],
   "All resource kinds and options, all Range header values incl. malformed ones, all cut points and resume sequences.",
   "No test runs the WSGI entry or sends a Range header.",
   [W], [("start_reply, handle_byte_range, get_mime_type", W)]),
 p("C13", "Session limits redirect once and expire on time",
   "With a maximum session length configured, an MPD request without a session start is redirected to the same URL with the server's current time and a fresh session id inserted right after the service prefix (query and scheme kept), and following that redirect gives the same MPD as without the limit. "
   "A request that carries a session start is served until exactly the maximum length has passed on the server's clock and is answered 410 afterwards; a start more than five seconds in the future, or a non-MPD request without a start, is answered 404. "
   "This holds per request for any mix of sessions, workers and clock skews, and never affects the media that is served.",
   ["histories", "schedules", "configurations"],
   "All limits, request times around both limits, URL shapes (options, query, https), concurrent sessions and skewed workers.",
   "The limit is off in all tests.",
   [W, "dashlivesim/dashlib/sessionid.py", CFG], [("application (MAX_SESSION_LENGTH branch)", W), ("sts/sid options ignored", CFG)]),
 p("C14", "Simulated BaseURL outages follow the announced schedule",
   "With baseurl options the MPD lists one BaseURL per option, in order, each carrying only its own option, and a media request under a BaseURL with an up/down (or down/up) pattern is refused exactly in the down seconds of that pattern, which starts anew at every full minute (second 0 always being up), and served normally otherwise; init segments and MPDs are not affected. "
   "At any instant at which at least one listed BaseURL is up, a client that tries them all gets the segment. "
   "With segment-loss signalling, the timeline of an MPD fetched in a down stretch stops at the last up second, and a last-segment event is announced and inserted just before the stretch begins.",
   ["configurations", "schedules", "histories"],
   "All patterns uN_dM / dN_uM, all seconds of the minute, several BaseURLs, failing-over clients, segtimelineloss on and off.",
   "The tests check single instants for one or two patterns.",
   [P, MP, M, CFG], [("get_media (multi_url)", P), ("process_mpd_children (BaseURL)", MP), ("get_mpd (segtimelineloss)", M)]),
 p("C15", "SCTE-35 splice events are announced once, in time and consistently",
   "With scte35_n the MPD declares the event stream and profile on video only, and every splice of the documented schedule (10 s after each full minute; with 2 also 40 s; with 3 10, 36 and 46 s) is announced by an event in a video segment that starts at least six seconds before the splice (in every segment that overlaps the span 8 to 6 s ahead of it), the minutes being counted on the media timeline, for every play-out of the session. "
   "The event's time, relative to the segment that carries it, is exactly the scheduled splice time, its duration and ids are the same in every segment and worker that repeats the announcement, distinct splices have distinct ids, and segments of other media carry none. "
   "Inserting events changes nothing else in the segment.",
   ["configurations", "histories", "inputs"],
   "All rates, segment durations, segment numbers over many hours, workers and repeated fetches.",
   "The tests look at one segment for one rate.",
   [SC, EM, MF, MP], [("create_scte35box", MF), ("Scte35Emsg", SC)]),
 p("C16", "Subtitle segments keep in step with the clock",
   "In a served subtitle segment every begin and end time equals its VoD time plus the number of completed loops times the loop duration, the visible clock text shows that same time and the segment-number text shows the served number, while all other text is unchanged. "
   "The box structure (sample size, data offset, decode time) matches the changed text for every loop count, also when the hour count grows by digits. "
   "Consecutive subtitle segments are contiguous and aligned with video.",
   ["inputs", "configurations", "histories"],
   "All stpp assets, numbers, start and timeoffset settings.",
   "The tests adjust one or two subtitle documents once.",
   [TT, MF], [("adjust_ttml_content", TT), ("find_and_process_mdat, process_tfhd", MF)]),
 p("C17", "VoD analysis yields the same correct configuration or fails loudly",
   "For a well-formed VoD asset the analyzer writes a configuration and index files from which the server reproduces the asset's true loop (segment numbers, durations, start times, per-segment durations), independent of directory listing order and of what an earlier run left behind. "
   "If reading or writing fails or the process dies at any point, no later server run may serve from a configuration that looks complete but does not match its index files; a repeated run on a healthy disk always repairs the state. "
   "It never modifies the asset's media.",
   ["fault_sequences", "crash_points", "inputs"],
   "All single-fragment assets, all directory orders, crash points and write faults.",
   "The analyzer has no tests.",
   [AN, AM], [("DashAnalyzer", AN)], ["files written by the analyzer", "HTTP responses of a server using them"]),
 p("C19", "Multiplexed audio+video keeps both tracks intact",
   "A request for two Representations joined by '__' returns one init segment with both tracks and one media segment per number whose two tracks hold exactly the samples, decode times and offsets of the two separately served segments of that number, available in the same window. "
   "This holds for every pair, order and number, also when decode times grow to 64 bits.",
   ["inputs", "configurations", "histories"],
   "All pairs of Representations with different track ids, numbers on both sides of the 32-bit boundary, lmsg and session options.",
   "The tests mux one pair once and only compare sizes.",
   [MX, P], [("MultiplexInits, MultiplexMediaSegments", MX), ("process_init_segment, process_media_segment", P)]),
 p("C20", "Remote (xlink) Periods resolve to what they replace",
   "With xlink_m every Period selected by the rate is replaced by a reference, and fetching that reference from the same server returns exactly the Period element an MPD without xlink would contain; all other Periods and the rest of the MPD are unchanged. "
   "With ad insertion the selected Periods point to the ad service, the first listed selected Period is kept, and kept Periods carry the asset identifier.",
   ["configurations", "schedules", "histories"],
   "All periods/xlink/insertad/etp/continuous/timeline combinations accepted, all poll times, delays between MPD and Period fetch during which the Period stays listed.",
   "The tests count elements in one MPD.",
   [M], [("generate_response_with_xlink, insert_asset_identifier", M)]),
 p("C21", "Clock information given to clients is truthful",
   "The publish time of every MPD and the direct UTCTiming value are the server's own clock at the time of the request, UTCTiming methods are listed in the requested order directly after the last Period, and successive MPDs of one worker never go back in publish time unless its clock does. "
   "All announced times and durations are valid ISO 8601 values that parse back to the configured numbers, and a producer reference time relates the media time of the availability start to that moment of the clock.",
   ["configurations", "schedules", "histories"],
   "All utc method lists, tsbd/mup/spd/dur values, request times, skews, steps and clock movement during a request.",
   "The tests check presence of the elements, not their values as time moves.",
   [MP, M, TF], [("insert_utc_timings", MP), ("make_timestamp, seconds_to_iso_duration", TF)]),
 p("C22", "A player that follows its MPD plays without interruption",
   "A player that joins at the live edge or behind it and does nothing but what the MPDs tell it (refresh at the announced address and rate, resolve remote Periods, fail over between BaseURLs, request each segment from the moment it is due) gets its init segments and every next segment of every media type, until it stops, the session ends, or it falls out of the time-shift buffer by its own delay. "
   "Successive segments of a media type join without gap or overlap in decode time, also across Periods, loop wraps, MPD refreshes, changes of Representation and extensions of the session, each lies where its MPD places it, media types keep together, and nothing follows a segment marked as the last one of a session that is not extended. "
   "A session with an end is offered completely: playback comes to the announced end (in whole segments), for each media type, in a dynamic and in a static MPD.",
   ["configurations", "schedules", "histories", "fault_sequences"],
   "All assets, combinations of session, addressing, Period and delivery options, joining times, players' delays, network losses and retries, worker counts, restarts and slightly different worker clocks.",
   "The tests check single MPDs and single segments; none follows a session through its MPDs.",
   [P, M, MP, ST, CFG, MOD], [("generate_dynamic_mpd", M), ("generate_period_data", M), ("update_periods", MP), ("SegmentTimeLineGenerator.create_segtimeline", ST)]),
 p("C23", "Relative start and stop times are pinned at first contact",
   "An MPD requested with startrel/stoprel describes the session that starts and stops at the request time plus the given offsets (rounded to segments as for absolute times) and carries a Location with the equivalent absolute start and stop and no BaseURL. "
   "Refreshing through that Location at any later time and on any worker keeps describing the very same session, whose segments are the ones an absolute request gives.",
   ["configurations", "schedules", "histories"],
   "All offsets, further options, segment durations, request instants, refresh histories and workers with skewed clocks.",
   "The tests check one Location string.",
   [CFG, MP], [("process_url (startrel/stoprel)", CFG), ("process_mpd_children (Location)", MP)]),
 p("C18", "Every request is answered once and stays inside the content",
   "However malformed a request is (path, dot segments, options, numbers, encodings, query, Range header), the server gives exactly one complete, well-formed answer: the resource, a redirect, or 404 with a plain-text explanation, with a matching Content-Length, and never an unhandled exception or endless work. "
   "While answering it only reads files below the configured VoD configuration and content directories, never returns bytes of any other file, never creates, changes or removes anything, and leaves no file open. "
   "Good requests that are handled at the same time or later get the answers they get without it.",
   ["inputs", "schedules", "histories"],
   "All mutations of all kinds of good requests, mixed with good requests under all interleavings and over several workers; only requests that legitimately ask for an answer of unbounded size are left out.",
   "The tests make well-formed requests only and do not look at file accesses.",
   [W, P, CFG, M], [("application", W), ("createProvider", P), ("update_with_filedata", CFG)],
   ["HTTP responses of the WSGI application", "file accesses"]),
 p("C24", "Caption insertion is exact and preserves the video",
   "For a VoD asset and an SCC file the caption inserter writes exactly the video segments into whose time span captions fall, and in them every caption line appears exactly once, as CEA-608 user data in front of the first coded picture of the sample whose decode-time interval contains the caption's time. "
   "All other bytes of these samples, their durations, flags and composition offsets, the decode time and all other boxes are unchanged, and sizes, offsets and a segment index describe the new segment. "
   "The inputs are never modified; a run that meets an I/O error says so instead of silently leaving captions out, and a repeated run on a healthy disk gives the complete result whatever an interrupted one left behind.",
   ["inputs", "fault_sequences", "crash_points"],
   "All single-fragment video segments with individual sample sizes (tfdt, trun, sidx flavours), all SCC lines incl. equal times, times at sample and segment boundaries and long lines, directory orders, read/write faults and kills at any I/O call.",
   "The caption inserter has no tests.",
   [CC], [("CCInserter, CCInsertFilter, SCCParser, generate_data", CC)], ["files written by the inserter"]),
 p("C25", "The live MPD carries over everything else the VoD MPD says",
   "A live MPD, and each remote Period, says everything that the VoD MPD in effect at the time of the request says, apart from what turning it into the requested live session means: every AdaptationSet, Representation and SegmentTemplate, all attributes, descriptors, labels, content protection, event streams, BaseURLs below the MPD level, metrics, program information and elements of other namespaces appear in every Period of the VoD MPD's, unchanged, with the same text and in the same order, up to comments, namespace prefixes and layout. "
   "What is replaced is the timing of the session (identifiers, types and times of the MPD and its Periods, numbering, offsets, timescale, duration and $Number$/$Time$ of templates when asked for timelines), the profiles and the MPD-level BaseURL, and nothing is added but what the URL options and the low-latency mode ask for. "
   "Conversely what else the VoD MPD says never influences the session: the same request gets the same status, Periods, addresses and timelines as with a VoD MPD that says nothing else.",
   ["inputs", "configurations", "schedules", "histories"],
   "All VoD MPDs (descriptors, foreign namespaces, special characters, encodings), URL options, Period counts, concurrent requests, MPDs published while requests run, slow and failing disks.",
   "The tests use two VoD MPDs without such content and look at single attributes of the result.",
   [MP, M], [("MpdProcessor.process, get_full_xml", MP), ("generate_response_with_xlink, insert_asset_identifier", M)]),
p("C26", "The stand-alone server serves over HTTP what the application answers",
   "The stand-alone server (main() with the configuration and content directories, --host and --port) listens at the address it is given and answers every HTTP request, in turn, with exactly the status, headers and body that the WSGI application gives for that address, Host, Range and method at the clock reading of its handling, and for chunked low-latency segments with the same pace. "
   "Nothing is lost, added or mixed up between requests. Clients that are slow, leave half way, send garbage or break off, failing disks, and kills and restarts of the process never stop it from answering the next one, nor leave files or connections open.",
   ["inputs", "schedules", "crash_points", "fault_sequences", "configurations"],
   "All requests as bytes on connections in any number and order, arriving in any pieces and read at any pace, with disconnects, resets, disk faults, kills and restarts at any point.",
   "The tests never start the server nor open a connection; they call the application with a hand-made environment.",
   [W], [("main, application_wrapper, run_local_webserver, application", W)]),
]

PROPS.sort(key=lambda q: q["id"])

with open("/verif/properties.jsonl", "w") as f:
    for q in PROPS:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
