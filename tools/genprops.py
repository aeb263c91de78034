#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that edits stay readable).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

p("S01", "Subscriber sees announce, then completion, then packets - in that order",
  "For every order in which a demuxing session's streams, configuration and frames arrive and every moment at which probing ends (enough media buffered, or an explicit request at any point), the subscriber sees each track announced exactly once, in ascending track-index order starting at 0, then exactly one completion notice, then only packets. If no track exists when probing ends it sees exactly one track-not-found notice and nothing else, ever; no track is announced after the completion notice. Every packet names a track announced earlier and carries that track's media type, codec and time base.",
  ["histories","schedules","fault_sequences"],
  "all interleavings of stream announcements, frames and probe-completion triggers, under network loss, duplication, reordering, delay and fragmentation",
  "No existing test drives a demuxer at all; the protocol depends on when probing ends relative to every arrival, an unbounded set of histories.",
  ["demuxer.go","tracks.go","track.go","handler.go"],
  [("probe-complete switch and replay","demuxer.go OnProbeComplete"),("buffer-or-forward decision","demuxer.go processBufferedPacket"),("no tracks once complete","demuxer.go AddTrack")],
  [("Completed","probing has ended","demuxer.go BaseDemuxer"),("Packets","frames buffered per track","demuxer.go BaseDemuxer")],
  ["OnUnpackStreamHandler callbacks"])

p("S02", "Accepted frames are delivered exactly once, intact and in order",
  "Every frame a session accepts for a track reaches the subscriber exactly once with the submitted bytes, DTS, PTS, key flag, codec, packaging and track index, except that the newest frame of each track is withheld until its successor arrives; a refused frame (one whose stream has no track) never appears. Frames buffered while probing are replayed in ascending DTS with equal-DTS frames of a track kept in arrival order, and after probing every track's frames appear in arrival order. This holds whatever the interleaving of tracks, whichever track speaks first, and whatever the network lost, duplicated or reordered before the frame was assembled.",
  ["histories","schedules","fault_sequences","inputs"],
  "all feeds of frames over any number of tracks, arrival interleavings and fault sequences, and every probe-completion point",
  "Existing tests never feed frames; lost, duplicated or swapped frames only show for particular interleavings of several tracks with the probe boundary.",
  ["demuxer.go","collections/linked_list.go","av_packet.go","packet_utils.go","video_stream.go"],
  [("per-track pending list","demuxer.go processBufferedPacket"),("sorted replay","demuxer.go OnProbeComplete"),("stream-to-track binding","demuxer.go findTrackByBufferIndex")],
  [("Packets","frames buffered per track","demuxer.go"),("streamIndex2BufferIndex","track to stream-buffer binding","demuxer.go")],
  ["OnPacket callback"])

p("S03", "Probing ends on time and delivery lags by at most one frame",
  "Probing ends as soon as the frames buffered on some one track span (newest minus oldest DTS) the configured probe duration (never less than 200 ms; per-frame rounding to whole milliseconds allowed) or at once on an explicit request, and not earlier. A conditional request is ignored while a raw-PCM or G.726 track has fewer than two buffered frames and honoured otherwise. Once probing has ended, each accepted frame is delivered no later than the acceptance of its track's next frame, and every delivered frame's duration is the DTS distance to that next frame.",
  ["histories","schedules","configurations"],
  "all timestamp sequences (steady, jittered, repeated, jumping forwards or backwards), probe durations, time bases and moments of explicit requests",
  "There is no test of probing; whether a session ever leaves probing depends on the accumulated history of timestamps, and nothing bounds it except this property.",
  ["demuxer.go","packet_utils.go","av_packet.go"],
  [("probe span accumulation","demuxer.go processBufferedPacket"),("conditional request","demuxer.go TryCompleteProbe"),("duration of the previous frame","demuxer.go processBufferedPacket")],
  [("ProbeDuration","configured probing span in ms","demuxer.go")],
  ["OnTrackComplete / OnTrackNotFind / OnPacket callbacks, packet duration"])

p("S04", "Every buffered block and packet object is released exactly once",
  "In automatic-release mode each delivered frame's stream-buffer block and packet object are released exactly once, right after its delivery callback returns, so that the number of unreleased blocks of a stream always equals the number of frames the session still holds for it. In both modes the block of a refused frame or of a consumed configuration record is released before the submitting call returns, and no other block is. In manual mode nothing that was delivered is released by the session, a release its user asks for frees exactly the block asked for, and in no mode is a packet object handed back for recycling twice or while a frame still uses it.",
  ["histories","schedules","fault_sequences"],
  "all feeds with accepted, refused, configuration and damaged frames, slow or fast subscribers, both release modes",
  "Leaks and double releases are invisible to the existing tests, which never run the demuxer with a buffer; they depend on which frames are refused and when.",
  ["demuxer.go","av_packet.go","streams_buffer.go","data_pipeline.go"],
  [("release after callback","demuxer.go forwardPacket"),("discard on refusal","demuxer.go OnAudioPacket / OnVideoPacket"),("discard of configuration blocks","demuxer.go OnNewAudioTrack / OnNewVideoTrack"),("recycling","av_packet.go FreePacket")],
  [("PacketPool","recycled packet objects","av_packet.go")],
  ["DataPipeline calls made by the session; packet pool gets and puts"])

p("S05", "Announced tracks describe exactly the stream that was sent",
  "A track is created while probing from a stream's valid configuration record, its first start-code-packaged key frame that carries at least one parameter set of every kind (or a later frame once another track of the same codec supplied them), or its first audio frame; the announced track carries that stream's codec, time base, parameter sets (of a configuration record all of them in order, of a key frame the last of each kind), picture size (after cropping), sample rate, channel count and whether audio frames carry ADTS headers. That description stays unchanged for the life of the session however often the stream buffers are reused, and turning it into a decoder configuration record or start-code form yields the same parameter sets; the record declares the unit length size that the stream's length-prefixed packets use. The announced rate of raw PCM and G.726 tracks is the standard rate at or above the bytes per millisecond of the first buffered frame, or the declared one when no standard rate fits.",
  ["histories","inputs","fault_sequences","configurations"],
  "all stream configurations (H.264/H.265 records and key frames, ADTS and MPEG-4 audio configurations with table and explicit sampling frequencies, PCM/G.726) and all histories of buffer reuse and frame loss before and after the announcement",
  "Two fixed records are parsed by the tests and nothing is asserted about the result; survival of the description while the buffers it came from are recycled is never exercised.",
  ["demuxer.go","codec_paraments.go","video_stream.go","av_stream.go","avc/mp4.go","avc/util.go","avc/sps.go","hevc/mp4.go","hevc/util.go","hevc/sps.go","utils/aac_util.go"],
  [("private copy of configuration bytes","demuxer.go createVideoTrack / createAudioTrack"),("record parsing","avc/mp4.go Unmarshal, hevc/mp4.go Unmarshal"),("rate estimation","demuxer.go calculatePCMFrequency / calculateG726BitRate")],
  None, ["Track passed to OnNewTrack, and the same object at session end"])

p("S06", "After close a session is silent and safe at every point",
  "Once a session has been closed - at any instant, including from inside any of its own callbacks - the subscriber and the preprocessing callback are never invoked again. Frames, configuration and probe-completion requests that still arrive are absorbed without crashing the process. In automatic-release mode they keep being released, so the blocks held stay bounded.",
  ["crash_points","histories","schedules"],
  "close at every step of every feed: while probing, inside each callback, in the middle of the replay, after delivery started; followed by any late input",
  "No test closes a demuxer; the failure needs a close at one particular instant followed by late data.",
  ["demuxer.go"],
  [("detaching the subscriber","demuxer.go Close"),("callback sites","demuxer.go OnProbeComplete / forwardPacket")],
  [("Handler","current subscriber","demuxer.go")],
  ["callbacks after Close; process survival; DataPipeline calls"])

p("S07", "A session's output is a function of its feed only",
  "Two sessions given the same frames, configuration and requests in the same order produce identical callback sequences with identical packet fields. The outcome does not depend on how the frames were cut into network fragments, on the internal iteration order of associative containers, on which recycled packet objects happen to be reused, on the kind or capacity of the stream buffers, on the subscriber's release timing, or on the wall clock.",
  ["schedules","configurations","histories"],
  "all pairs of executions of one feed that differ only in fragmentation, recycling state, container iteration order, buffer capacity, release timing and clock",
  "A test samples one execution and never compares two; the runtime randomises map iteration and object recycling behind the test's back.",
  ["demuxer.go","av_packet.go","streams_buffer.go"],
  [("stream-to-track lookup","demuxer.go findTrackByBufferIndex"),("one track per stream","demuxer.go OnNewAudioTrack / OnNewVideoTrack"),("state reset on recycling","av_packet.go FreePacket")],
  None, ["callback sequence"])

p("S08", "Damaged input never crashes a session nor harms other tracks",
  "Whatever bytes arrive as configuration or frames - flipped, truncated, emptied or replaced at any point - feeding them to a session, reading a decoder configuration or parameter set out of them, or converting such a packet's packaging neither panics nor hangs; it yields an error, a refusal or a best-effort result. Frames of undamaged tracks are still delivered as if nothing had happened, and damaged frames of an existing track are delivered with the bytes received. A track whose first configuration was damaged is created from the next intact one if probing is still on.",
  ["inputs","fault_sequences","histories"],
  "all corruptions of all configuration records, key frames and frames at all positions of a feed",
  "Tests parse two well-formed records; a truncated or bit-flipped network payload is never tried, and recovery after damage is a multi-step history.",
  ["demuxer.go","packet_utils.go","video_stream.go","codec_paraments.go","avc/util.go","avc/mp4.go","avc/sps.go","hevc/util.go","hevc/mp4.go","hevc/sps.go","utils/aac_util.go","bufio/bytes_buffer.go"],
  [("bounds-checked reads","bufio/bytes_buffer.go peekN"),("refusal on parse errors","demuxer.go OnAudioPacket / createVideoTrack"),("NAL splitting","avc/util.go SplitNalU, FindStartCode")],
  None, ["absence of panics and unbounded loops; callbacks of the other tracks"])

p("B01", "Ring buffer blocks stay intact until they are released",
  "A block fetched from the ring buffer is exactly the concatenation of the bytes written since the previous block ended, and keeps those bytes until the consumer releases it, however many later blocks are written, wrapped around, grown over, dropped from the tail or released in front of it meanwhile. Releases retire blocks strictly oldest first and drops retire the newest, also across growth, and the reported pending size is always the bytes written to the unfinished block. Once every block is released the buffer is empty and fully reusable, and a consumer whose backlog stays bounded never makes it grow without bound.",
  ["histories","schedules"],
  "all interleavings of fragment writes, allocations, fetches, tail drops, releases and resets, with any consumer lag, block sizes and capacities",
  "The one ring test actually instantiates the other buffer kind and checks nothing; wrap-around with exact fits and repeated growth need specific multi-step histories.",
  ["collections/buffer_rb.go","collections/buffer_direct.go","collections/queue.go","collections/ring_buffer.go","collections/block_buffer.go"],
  [("placement: tail, wrap or grow","collections/buffer_rb.go Alloc"),("blocks abandoned by growth","collections/buffer_rb.go discardBlockCount"),("capacity restore","collections/buffer_rb.go Pop")],
  [("capacity","usable bytes before the wrap point","collections/buffer_rb.go"),("discardBlockCount","blocks lost to growth but not yet released","collections/buffer_rb.go")],
  ["bytes of held blocks, PendingBlockSize, Size"])

p("B02", "Merge-write buffer: exact bytes, and a split leaves both halves disjoint",
  "Between clears, and as long as nothing was removed, the merge-write buffer's data is exactly everything written, in order, across any growth, and each fetched block is exactly its own bytes. After a split the old buffer refuses further writes, fetches and removals and its bytes never change again, while the new buffer starts empty, owns only the free space, and behaves like a fresh buffer; this holds through any chain of splits and after the old buffer is cleared and reused. Readers may keep using bytes of the sealed part while writers fill the new one.",
  ["histories","schedules"],
  "all interleavings of writes, allocations, fetches, splits, clears and concurrent readers of sealed parts, with all capacities and sizes",
  "The tests push single bytes and pop them without looking; splitting is never executed.",
  ["collections/buffer_direct.go","collections/block_buffer.go"],
  [("growth copies","collections/buffer_direct.go grow"),("sealing","collections/buffer_direct.go SplitOff"),("contiguous blocks","collections/buffer_direct.go Alloc")],
  [("nextOffset","end of the written bytes","collections/buffer_direct.go"),("sealed","no further writes","collections/buffer_direct.go")],
  ["Data, Fetch, AvailableBytes, refusals"])

p("B03", "Frame reassembly returns exactly the fragments of its own stream",
  "Fetching a stream's pending frame returns exactly the fragments written to that stream since its last fetch, in order, with no byte of any other stream, for any interleaving of fragments of any number of streams, first used in any order. The pending size reported is exactly the bytes written to the stream's unfinished frame, less those it was wound back by. Dropping the newest frame or releasing the oldest affects only that stream and only that frame; frames not yet released keep their bytes.",
  ["schedules","histories","fault_sequences"],
  "all interleavings of fragments of several streams with abandoned frames (lost fragments), drops and releases, through each pipeline implementation",
  "No test touches the pipelines; cross-stream mix-ups need particular interleavings and first-use orders.",
  ["streams_buffer.go","direct_pipeline.go","data_pipeline.go","collections/buffer_rb.go"],
  [("one buffer per stream","streams_buffer.go findOrCreateStreamBuffer"),("growing accumulation","direct_pipeline.go Write / Fetch")],
  None, ["DataPipeline.Write/Fetch/PendingBlockSize/Discard*"])

p("B04", "Queues between producer and consumer lose, repeat and reorder nothing",
  "Whatever the interleaving of a producer and a consumer, and however long either stalls, the growable queue yields every element exactly once in insertion order from the head (newest first from the tail), and indexed peeks, head, tail and size agree with the elements inserted and not yet removed. The fixed-capacity ring keeps exactly its newest capacity elements, dropping only the oldest when the consumer lags. The linked list returns and removes exactly the element at the requested position and keeps the others in order.",
  ["schedules","histories"],
  "all interleavings of pushes, pops, tail pops, positional removals and clears, over all capacities and lags",
  "Existing tests fill and drain once; wrap-around combined with growth, tail pops and clears is never reached.",
  ["collections/queue.go","collections/ring_buffer.go","collections/linked_list.go"],
  [("unwrap on growth","collections/queue.go Push"),("overwrite oldest","collections/ring_buffer.go Push"),("relinking","collections/linked_list.go Remove")],
  None, ["return values, Size, Head, Tail, Peek, Data"])

p("P01", "Repackaging a packet preserves its NAL units",
  "Converting a video packet from start-code to length-prefixed packaging yields exactly its non-empty NAL units in order, each with a 4-byte length; converting a length-prefixed packet to start codes yields the same NAL units in order (H.264 supplemental information dropped), preceded on key frames by the track's parameter sets, and a start-code key frame that lacks them gains them in front. Packets of other codecs or already in the requested packaging keep their bytes. The packet's own payload is never modified, a repeated conversion returns the same bytes, and results are right for any number of units and any size, with recycled packets and caller-supplied dirty memory (converted bytes of a packet with an allocator hook lie in memory that hook returned), whichever subscribers convert the packet, in whatever order.",
  ["histories","inputs","schedules"],
  "all access units (any count, type and size of NAL units, 3- and 4-byte start codes, 1/2/4-byte H.265 lengths, 4-byte H.264 lengths), any sequence of conversions by several subscribers, any recycling and allocator state",
  "No test converts a packet; caching across subscribers and recycling is a history property, and size limits need unusual unit counts.",
  ["packet_utils.go","avc/util.go","hevc/util.go","av_packet.go","codec_paraments.go"],
  [("conversion and caching","packet_utils.go AVCCPacket2AnnexB / AnnexBPacket2AVCC"),("NAL rewriting","avc/util.go AVCC2AnnexB / AnnexB2AVCC, hevc/util.go Mp4ToAnnexB")],
  [("dataAVCC/dataAnnexB","cached conversions","av_packet.go")],
  ["returned bytes, packet payload afterwards"])

p("P02", "A recycled packet is indistinguishable from a fresh one",
  "A packet obtained from a constructor carries exactly the attributes passed to it and neutral values for everything else, whether or not its object was used before and whatever its previous user stored in or converted from it. No two packets in use at the same time share an object, whatever the interleaving of threads allocating and freeing them.",
  ["schedules","histories"],
  "all interleavings of allocation, use, conversion and freeing of packets by several threads, all recycling decisions of the pool",
  "There is no test of packet recycling; leftovers only show when a particular previous life meets a particular next one.",
  ["av_packet.go","packet_utils.go"],
  [("reset before recycling","av_packet.go FreePacket"),("constructors","av_packet.go NewAudioPacket / NewVideoPacket")],
  [("PacketPool","recycled packet objects","av_packet.go")],
  ["public packet fields and conversion results"])

p("C01", "Exactly one releaser of a shared object is told it was the last",
  "Under every interleaving of threads taking and dropping references, exactly one drop reports that it was the last one - the one after which no references remain - and never while another thread still holds a reference. The reported count equals references taken minus references dropped at some instant during the call. So cleanup triggered by the last drop runs exactly once and never under a live reader.",
  ["schedules"],
  "all interleavings of concurrent reference/release/count operations",
  "The test uses one thread; lost updates need a particular preemption between reading and writing the counter.",
  ["collections/reference_counter.go"],
  [("atomic counter","collections/reference_counter.go Refer / Release / UseCount")],
  [("refer","live references","collections/reference_counter.go")],
  ["return values of Release and UseCount"])

p("C02", "Concurrent sessions do not influence each other",
  "Sessions, buffers, parsers and conversions used by different threads behave, under every interleaving of those threads, exactly as if each ran alone, and threads may concurrently read one announced track's description and convert different packets of that track. Nothing but deliberately shared objects connects two sessions.",
  ["schedules"],
  "all interleavings, at the granularity of individual statements, of several sessions and converters running in one process",
  "Tests are single-threaded; interference through shared package state needs a preemption inside a parser or conversion.",
  ["demuxer.go","packet_utils.go","av_packet.go","avc/util.go","avc/mp4.go","hevc/mp4.go","hevc/util.go","codec_paraments.go","streams_buffer.go"],
  [("no package-level scratch state","whole library"),("shared packet pool","av_packet.go PacketPool")],
  None, ["callback sequences and conversion results compared with solo runs"])

p("E01", "A stream relayed from session to session arrives as it was published",
  "For every chain of sessions in which each one's deliveries are repackaged for the next one's container (length-prefixed or start-code video, raw or ADTS AAC, 1000 or 90000 time base), and every loss, duplication, outage, back-pressure, crash-and-restart and interleaving on the way, each session announces the published codec, parameter sets, picture size, sample rate and channels, and delivers exactly the frames that reached its current incarnation (the newest withheld), each with the published coded units or payload, key flag and time stamps (at most one unit of rounding per hop). Every key frame repackaged with start codes carries the announced parameter sets ahead of its first coded unit. A packet shared by several readers under a reference count, and every repackaged form of it, stays unchanged until the last of them has released it, and exactly one of them is told it was the last.",
  ["histories","schedules","fault_sequences","crash_points"],
  "all chains of relaying sessions, publishers, link faults, crash points and interleavings of publishers, relays and readers",
  "No test connects two parts of the library; the composition (configuration written by one session and read by the next, packaging converted back and forth, packets shared by readers while the session moves on) only exists in a running relay.",
  ["demuxer.go","packet_utils.go","av_packet.go","codec_paraments.go","avc/mp4.go","avc/util.go","hevc/mp4.go","hevc/util.go","utils/aac_util.go","collections/reference_counter.go","streams_buffer.go"],
  [("description out and in","codec_paraments.go MP4ExtraData / ParseAVCDecoderConfigurationRecord"),("repackaging","packet_utils.go"),("hand over and release","demuxer.go forwardPacket / DiscardHeadPacket")],
  None, ["each session's callbacks compared with what was published and what reached it; packets re-compared by readers"])

p("F01", "Elementary-stream dumps hold exactly what was delivered, or fail loudly",
  "After every delivered packet, each track's dump file holds exactly the elementary stream of the packets delivered on that track so far - audio and other payloads byte for byte, H.264/H.265 as start-code NAL units with parameter sets ahead of each key frame - with nothing buffered, no byte of another track and nothing left over from an earlier dump at the same path, and its owner can read it. A failing or short disk write, or a failing open, is never ignored: the handler stops loudly instead of continuing with a hole in the file. After a crash at any point followed by a new dump to the same path, the files are those of the new dump alone.",
  ["fault_sequences","crash_points","histories"],
  "all delivered packet sequences, disk faults (open failure, write error, short write, full disk) and crash points, followed by restarts over the surviving files",
  "No test runs the dump handler, and none can make the disk fail at a chosen write or restart over old files.",
  ["handler.go","packet_utils.go"],
  [("file per track","handler.go OnNewTrack"),("write through, panic on error","handler.go OnPacket")],
  None, ["simulated disk contents; panic of the handler"])

p("G01", "Bit reader decodes the stream, whatever the byte source does",
  "The bit and Exp-Golomb values read equal those encoded in the source bytes, however the source delivers them: byte by byte, with empty reads in between, or with the final byte accompanied by end-of-stream. When the source ends or fails before a value is complete the read reports the error, and no value is ever produced from bytes the source did not deliver.",
  ["fault_sequences","inputs"],
  "all sequences of reads over sources that return short, empty or failing reads or end with data",
  "No test uses this reader with anything but complete in-memory data.",
  ["bufio/golomb_reader.go"],
  [("byte refill","bufio/golomb_reader.go ReadBit")],
  [("left","unread bits of the current byte","bufio/golomb_reader.go")],
  ["returned values and errors"])

p("R01", "Random identifiers stay random when the clock stalls or steps",
  "Random strings have the requested length and only letters and digits, and two of them of 16 or more characters drawn in one process differ, even when drawn within one clock tick, concurrently from several threads, or after the clock was set back. Random integers always lie within the inclusive range asked for, can take every value of it, and keep varying while the clock stands still.",
  ["schedules","fault_sequences","configurations"],
  "all clock behaviours (coarse ticks, stalls, backward steps, repeats) and thread interleavings around the draws",
  "There is no test, and a test runs on a fine-grained forward-moving clock where the collision cannot appear.",
  ["utils/random_util.go"],
  [("seeding","utils/random_util.go")],
  None, ["returned strings and integers"])

# not simulation targets
p("N01", "Timestamp conversion between time bases is exact to one unit",
  "Converting a timestamp between two time bases yields the mathematically exact value truncated toward zero, to within one unit, and is monotone.",
  ["inputs"], "all timestamps and time bases", "tests never convert a timestamp; all inputs",
  ["packet_utils.go","av_packet.go"], [("float scaling","packet_utils.go ConvertTs")])
p("N02", "Bit-level writes read back",
  "Reading any bit range just written returns the written value and leaves all other bits unchanged.",
  ["inputs"], "all buffers, offsets, widths and values", "one fixed read is printed, nothing asserted",
  ["bufio/bits_reader.go","bufio/bits_writer.go"], [("bit loops","bufio/bits_reader.go, bufio/bits_writer.go")])
p("N03", "ADTS headers round-trip",
  "An ADTS header built for given parameters parses back to those parameters.",
  ["inputs"], "all profiles, rates, channel configurations and sizes", "no test builds a header",
  ["utils/aac_util.go"], [("field packing","utils/aac_util.go SetADtsHeader / ReadADtsFixedHeader")])
p("N04", "Frame rate, profile and level follow the sequence parameter set",
  "The frame rate, profile and level derived from any legal sequence parameter set are the ones the codec standards define.",
  ["inputs"], "all legal parameter sets", "two fixed parameter sets are parsed and printed",
  ["avc/sps.go","hevc/sps.go"], [("field parsing","avc/sps.go ParseSPS, hevc/sps.go ParseSPS")])
p("N05", "Byte reader and writer stay within their slice",
  "No read, write or seek of the byte reader and writer touches memory outside the slice or moves past its end; out-of-range requests return an error and change nothing.",
  ["inputs"], "all slices and call arguments", "no test exercises the bounds",
  ["bufio/bytes_buffer.go","bufio/bytes_reader.go","bufio/bytes_wirter.go"], [("bounds check","bufio/bytes_buffer.go peekN")])
p("N06", "A muxer accepts one track per media type",
  "Adding a second track of a media type already present is rejected and the accepted tracks are numbered from 0 in order of addition.",
  ["inputs"], "all sequences of added tracks", "no test adds tracks to a muxer",
  ["muxer.go"], [("duplicate check","muxer.go AddTrack")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
