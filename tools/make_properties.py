#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts live)."""
import json, os
P = []

def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

GSF = "mediagrains/gsf.py"
M = "mediagrains/"
NOSTABLE = ("The stable test set does not run tests/test_gsf.py at all (its example files are missing), so no "
            "existing test encodes or decodes a GSF file; even that file only samples a handful of fixed grains.")

prop("G01", "GSF files give back exactly the grains, segments and tags written",
     "Whatever grains (of every type, with any timestamps, rates, durations, time labels, aspect ratios, component "
     "layouts, unit offsets, event payloads and data bytes that the file format can represent), segments and tags are "
     "written to a GSF file, decoding that file yields the same segments, tags, segment grain counts and the same grains in the same "
     "order with equal metadata and equal data bytes. This holds for every supported way of writing (one-shot dump to bytes or "
     "file, encoder session, progressive session, synchronous or asynchronous) and every supported way of reading.",
     ["inputs", "configurations"],
     "All grain sequences of the six grain types over representable field values, all segment/tag arrangements, GSF "
     "minor options, sync and async writers, sync and async readers.",
     NOSTABLE, [GSF, "mediagrains/grains/*.py"],
     [("GSFEncoder / OpenGSFEncoder / OpenAsyncGSFEncoder block writers", GSF),
      ("GSFBlock / AsyncGSFBlock readers and GSFDecoder._decode_grain*", GSF)],
     ["grains returned by loads()/load()/GSFDecoder sessions", "file headers returned with them"])

prop("G02", "Every GSF file written conforms to the published GSF layout",
     "Every byte sequence the library writes as a GSF file parses completely under the published GSF block "
     "specification: correct magic and version, every block size exactly covering its children, required blocks present in their "
     "required order, all fields in their specified widths, signs and byte order, segment grain counts equal to the grains present, and a "
     "single terminating empty grain block at the end. The field values found by an independent reader equal the "
     "attributes of the grains, segments and tags that were written, provided they fit their fields; a string too long for its field is cut "
     "at the last whole character that fits, and a grain with any other value that does not fit its field is refused with an encoding "
     "error, leaving a file being written intact for the grains that follow.",
     ["inputs", "configurations"],
     "All grains, segments, tags, versions 7 to 9 where the writer offers them, sync/async and seekable/streaming outputs.",
     NOSTABLE + " A round trip through the same library would also hide any mistake made symmetrically on both sides.",
     [GSF, "gsf_docs/gsf.md"],
     [("write_* primitives, SSB header, block size patching, segment count patching", GSF)],
     ["bytes written to the output file"])

prop("G03", "Any conformant GSF file is decoded to exactly the content it describes",
     "A GSF file produced by any conformant writer, in any supported version (7, 8 and 9), including files with unknown blocks, padding "
     "blocks, optional blocks absent or present, unusual but legal block order, several segments and flow information, and grains "
     "in any interleaving, decodes to exactly the header and grains it describes, in order, with fields unknown to the "
     "reader skipped without disturbing anything else. Requesting particular segments yields exactly the grains "
     "of those segments, in file order.",
     ["inputs", "configurations"],
     "All spec-conformant files: versions, optional/unknown blocks, sizes, segment ids, segment filters.",
     NOSTABLE, [GSF, "gsf_docs/gsf.md"],
     [("block iteration, child bounds, unknown-block skipping, local id filter", GSF),
      ("version dependent fields (sync timestamps sign, key frame, temporal offset)", GSF)],
     ["grains and headers decoded from independently constructed bytes"])

prop("G04", "Loading mode and input source never change what a GSF file decodes to",
     "Decoding one GSF file gives the same headers and the same grains, in the same order and with the same data once "
     "loaded, whichever loading mode is chosen and whether it is read from bytes, a seekable file, a non-seekable pipe or an "
     "asynchronous source (a pipe being read through the library's stream wrappers), with reads of any size. Only whether the data is present before it is asked for may differ: the mode that "
     "never loads data gives grains without data, and deferred data becomes available, unchanged, when "
     "accessed or awaited while the file is open.",
     ["inputs", "configurations", "schedules"],
     "All files x loading modes x source kinds x read chunkings x orders in which deferred data is accessed.",
     NOSTABLE + " Equivalence over modes and sources is a cross product no example set covers.",
     [GSF, "mediagrains/utils/iobytes.py", "mediagrains/utils/asyncbinaryio.py"],
     [("GrainDataLoadingMode handling, IOBytes lazy data, _GSFLazyLoader/awaitable data", GSF)],
     ["grain.data, grain.length, grain.has_data(), awaited grains"])

prop("G05", "Deferred grain data is correct under every interleaving of async readers",
     "However many tasks await deferred grains of an asynchronously opened GSF file, in any order, concurrently with each "
     "other, repeatedly for the same grain, while further grains are still being decoded, and while others of the tasks are "
     "cancelled, every one of them receives exactly that grain's own data bytes and the decoding of later grains is undisturbed. Leaving the "
     "file's context never fails and leaves already loaded grains intact; the mode that always loads has loaded every grain by then, and the mode that always "
     "defers loads nothing that was not awaited.",
     ["schedules", "inputs", "histories"],
     "All task interleavings over the file position, all await orders, all exit points of the decode session.",
     NOSTABLE + " Interleavings of several tasks sharing one file position are never exercised by sequential tests.",
     [GSF, "mediagrains/utils/asyncbinaryio.py"],
     [("out-of-order read (tell/seek/read/seek back) of deferred data", GSF),
      ("lazy-loader bookkeeping on exit", GSF)],
     ["bytes received by each awaiting task, exceptions"],
     state=[("shared file position", "moved by both the decoding loop and every deferred read", GSF)])

prop("G06", "Progressive GSF encoding writes every grain once and never accepts misuse",
     "In a progressive encoding session every grain accepted is in the file exactly once, in acceptance order, "
     "attached to the requested segment, and after a normal exit the recorded count of each segment equals the grains in it on "
     "seekable outputs and is the streaming marker on non-seekable ones; the result decodes to the same content as writing the same grains in one go. "
     "The same holds when several tasks add grains at once and some of them are cancelled (their own grains may be left out) or go on after the end. "
     "Adding a duplicate local segment identifier, or a segment or file tag after the header has been written, is refused with an encoding error and "
     "leaves what is written intact, and an encoder can be used for further dumps, each a correct file holding the grains added since the last.",
     ["histories", "inputs", "fault_sequences"],
     "All sequences of session operations (add segment/tag/grain via encoder or segment object, enter, exit, re-enter), outputs seekable or not.",
     NOSTABLE + " The guarantee quantifies over operation histories.",
     [GSF],
     [("GSFEncoder/OpenGSFEncoderBase/GSFEncoderSegment state guards, count patching on exit", GSF)],
     ["bytes in the output, errors raised, segment counts"])

prop("G07", "Cutting a GSF file short never yields an altered or invented grain",
     "If writing is interrupted at any byte, or a file is truncated at any byte, then decoding what is there either reports a "
     "GSF decoding error or ends normally, and every grain it delivered before that, with its data, is one of the grains written, "
     "complete, unaltered and in order. All grains completely contained in the surviving bytes are delivered. "
     "Where data is deferred the error may come when it is asked for, and data never loaded is not part of this.",
     ["crash_points", "inputs", "configurations"],
     "All files, all cut points, all loading modes and sources, synchronous and asynchronous.",
     NOSTABLE + " Every one of the file's byte offsets is a crash point.",
     [GSF],
     [("EOF handling in primitive reads, block bounds and top-level grain iteration", GSF)],
     ["grains delivered before the error or end"])

prop("G08", "Malformed GSF input is rejected cleanly",
     "Given any bytes whatsoever as a GSF file, decoding terminates and either yields well-formed grains or raises the library's GSF decoding errors (bad file type, "
     "unsupported version, decode error), never another exception type and never a hang. A wrong magic, a wrong file type and an unsupported version are always "
     "reported as such.",
     ["inputs", "fault_sequences"],
     "All byte strings, in particular mutated, spliced, size-corrupted and field-corrupted valid files.",
     NOSTABLE + " Robustness is a claim about all byte strings.",
     [GSF],
     [("block size and bounds checks, exception wrapping", GSF)],
     ["exception types, number of grains/reads, time in steps"])

prop("G09", "Concatenated GSF files decode to the concatenation of their grains",
     "Decoding several GSF files joined end to end with concatenation support yields all their grains in order, and the header in force "
     "while a grain is delivered is the header of the file that grain came from; without that support decoding stops cleanly after the first "
     "file with only its grains. The same holds through every entry point that accepts the option, in "
     "every loading mode and from synchronous and asynchronous sources.",
     ["inputs", "configurations"],
     "All sequences of files, including empty files and differing versions.",
     NOSTABLE, [GSF, "README.md", "CHANGELOG.md"],
     [("support_concatenation header restart in the grain iterator", GSF)],
     ["grains delivered, headers observed alongside"])

G = "mediagrains/grains/"
prop("M01", "A grain's attributes, metadata dictionary and tuple view always agree",
     "For every grain type, attributes given when creating a grain or assigned later are read back as equal values of the documented type, "
     "are reflected in the grain's metadata dictionary in its documented JSON-serialisable form and in the two-element tuple view, and "
     "do not affect any other attribute; omitted timestamps default from one another in the documented order. Rebuilding a grain from that metadata (directly or after a JSON round trip) and data "
     "gives an equal grain of the same class.",
     ["inputs", "histories"],
     "All grain types, all attribute values, all sequences of assignments.",
     "test_grain.py asserts a few fixed values per attribute; interactions between assignments, unusual values (negative timestamps, "
     "non-reduced fractions, all enum members) and rebuild equality are unbounded.",
     [G + "*.py", "mediagrains/typing.py"],
     [("property getters/setters over meta; GrainFactory dispatch; meta normalisation in constructors", G + "Grain.py")],
     ["attribute values, grain.meta, tuple(grain), json.dumps(meta)"])

prop("M02", "Grain list views behave like lists and always show the stored metadata",
     "The list-like attributes of grains (time labels, video components, unit offsets, and event data, a fresh list of live element views) "
     "behave under indexing, slicing, assignment, deletion, insertion, extension, reversal, popping and comparison exactly as a Python list of the same "
     "elements would, raising the same kinds of errors, and a change made through any view is immediately visible in every other view and in the "
     "metadata dictionary, which stays JSON-serialisable.",
     ["histories", "inputs"],
     "All sequences of list operations on the views.",
     "Tests perform one short fixed sequence per view; the property is about every operation history.",
     [G + "Grain.py", G + "VideoGrain.py", G + "CodedVideoGrain.py", G + "EventGrain.py"],
     [("TIMELABELS, COMPONENT_LIST, UNITOFFSETS, DATA mapping views", G)],
     ["view contents after each operation, meta"])

prop("M03", "Copies of grains are equal, and deep copies are fully independent",
     "Copying any loaded grain gives an equal grain of the same class (including the numpy-capable variants and converted grains); after a deep copy no change to either grain's metadata, views or data, "
     "through any attribute, is visible in the other, and "
     "a shallow copy shares the data buffer of the original.",
     ["inputs", "histories"],
     "All grain types and contents and all subsequent mutations of either side.",
     "Tests copy a few fixed grains and mutate one field.",
     [G + "Grain.py", "mediagrains/numpy/numpy_grains/VideoGrain.py", "mediagrains/numpy/numpy_grains/AudioGrain.py"],
     [("__copy__/__deepcopy__", G + "Grain.py")],
     ["both grains after mutation of one"])

prop("M04", "Grain time ranges and presentation times are exact for every rate",
     "The final origin timestamp of a grain is the time of its last sample (the origin timestamp itself for non-audio grains), its origin "
     "time range runs inclusively from first to last sample, the presentation times are those shifted by the temporal offset where there is one, "
     "the media rate is the frame or sample rate or nothing when zero, and normalising a time snaps it to that rate (or leaves it alone without one). Consecutive "
     "audio grains tile time without gap or overlap in samples.",
     ["inputs"],
     "All timestamps (including negative), rates (including non-integer such as 30000/1001), sample counts, temporal offsets.",
     "Tests use one 25 Hz / 48 kHz example; rounding errors appear only at particular rate/timestamp combinations.",
     [G + "*.py"],
     [("final_origin_timestamp, origin_timerange, presentation_*, normalise_time, media_rate", G)],
     ["returned Timestamps and TimeRanges"])

prop("M05", "Event grain payload bytes and event attributes are two views of one state",
     "At every moment the data bytes of an event grain are the UTF-8 JSON encoding of exactly its current event type, topic and event data "
     "elements (path, and pre/post only when present), and assigning data sets exactly those attributes from it; malformed payloads are refused "
     "with an error. An event grain rebuilt from its data, whether the data is given directly or arrives later, has equal "
     "event attributes.",
     ["inputs", "histories"],
     "All JSON payloads, unicode strings, sequences of appends, element edits and data assignments.",
     "Tests use single fixed payloads.",
     [G + "EventGrain.py"],
     [("data property getter/setter, DATA mapping, append", G + "EventGrain.py")],
     ["grain.data, grain.event_data, grain.meta"])

prop("V01", "Video grain component layout exactly describes its buffer for every format",
     "For every raw YUV and RGB frame format and every frame size its chroma subsampling divides, the components of a grain newly created with that format and size have the widths, heights, strides, offsets and "
     "lengths that the format defines, are contiguous and non-overlapping from the start of the buffer, and the allocated data "
     "length, the reported length and the expected length all equal the end of the last component; the expected length stays the end of the furthest component when components are moved or resized. An audio grain's data length and expected length equally equal the size its "
     "format, channel count and sample count define. The format helpers (packed, planar, RGB, alpha, compressed; active bits, bytes per value and subsampling shifts of planar "
     "formats; planar, paired and interleaved audio) agree with the format for every format, and building a planar format from chroma and depth gives that format.",
     ["inputs"],
     "All formats x widths x heights x layouts; all audio formats x channels x samples.",
     "Tests cover some formats at one or two frame sizes (mostly 1920x1080 and 16x16).",
     [G + "VideoGrain.py", G + "AudioGrain.py", "mediagrains/cogenums.py", "mediagrains/numpy/numpy_grains/VideoGrain.py"],
     [("size_for_format / components_for_format / size_for_audio_format", G)],
     ["components, len(data), length, expected_length"])

NV = "mediagrains/numpy/numpy_grains/VideoGrain.py"
prop("N01", "Numpy component views alias exactly the right bytes of the grain",
     "For every supported video format, layout and size, each named component array of a numpy video grain has the component's dimensions, "
     "element [x,y] is the sample at column x and row y of that component as the format defines it, writes through the array appear in the grain's data at "
     "exactly that sample's bytes and nowhere else and vice versa, and no view reaches outside the grain's data buffer. After the grain's components are edited "
     "and its data replaced this is true of the views obtained then; v210, whose samples have no bytes of their own, has no component arrays.",
     ["inputs", "histories"],
     "All formats x sizes x strides/offsets x sample positions.",
     "test_numpy_videograin checks fixed 16x16 and 1920x1080 grains and does not check every sample or memory bounds.",
     [NV, "mediagrains/cogenums.py"],
     [("component array construction over the data buffer (as_strided / frombuffer)", NV)],
     ["array shapes, contents, byte bounds of the views against the buffer"])

NA = "mediagrains/numpy/numpy_grains/AudioGrain.py"
prop("N02", "Numpy audio channel views match the audio format's sample layout",
     "For every raw audio format, channel count and sample count, a numpy audio grain exposes one array per channel with one element per sample, whose values are that "
     "channel's samples as the format (planar, interleaved or pairs; integer or floating point; 16, 24, 32 or 64 bit) defines them, "
     "and reading the channels never modifies the grain's data or reaches outside it. Where the views alias the data, writes through them change "
     "exactly that sample.",
     ["inputs"],
     "All audio formats x channels x samples x data patterns.",
     "test_numpy_audiograin uses fixed small grains and does not check that the source is unmodified.",
     [NA],
     [("channel array construction per format", NA)],
     ["channel_data values, data bytes before and after"])

CV = "mediagrains/numpy/convert.py"
prop("N03", "Video format conversion produces the right picture for every conversion",
     "Every available conversion between video formats yields a grain of the requested format whose samples are those defined by the conversion: exact copies where "
     "only the arrangement changes, averaged or duplicated chroma when the subsampling changes, rounded samples when bit depth is reduced and "
     "samples whose upper bits are the original when it is increased, the Rec.709 equations for RGB/YUV, with multi-step conversions equal to their steps, "
     "and every output sample within the output format's range (never wrapped around). Unavailable conversions are refused.",
     ["inputs"],
     "All ordered pairs of formats offered, all frame sizes, all sample values including extremes.",
     "test_numpy_videograin converts one fixed pattern per pair with hand-written expectations.",
     [CV, NV],
     [("registered conversion functions and combination of conversions", CV)],
     ["samples of the converted grain against an independent reference"])

prop("N04", "Video format conversion preserves the source grain and all other metadata",
     "Converting a video grain never changes the source grain's metadata or data, and the result keeps the source's source identifier, origin and sync timestamps, rate, duration, "
     "layout, aspect ratios, time labels and dimensions, differing only in format, components, data, creation time and the flow identifier, "
     "which is a deterministic function of the source flow and the requested format. Converting to the grain's own format gives an equal copy. The result shares no mutable state with the "
     "source.",
     ["inputs", "histories"],
     "All conversions x metadata contents.",
     "Tests inspect pixel values only.",
     [CV, NV],
     [("grain_from_numpy_data / flow_id_for_converted_flow / convert / asformat", NV)],
     ["source before/after, result metadata"])

CI = "mediagrains/comparison/_internal.py"
prop("C01", "Grain comparison reports equal exactly when the compared fields are equal",
     "Comparing two grains with no options succeeds if and only if they are of the same type and every metadata field and data sample that takes part in comparison is equal "
     "(creation time being ignored), for every grain type and every raw format; the result pinpoints the differing fields and list entries and only those, its message names the first position at which data differs, comparison is "
     "symmetric in its verdict, never alters the grains, and the textual report is available for every result and shows the values that differ.",
     ["inputs"],
     "All pairs of grains, all single-field and single-sample mutations, all formats.",
     "test_comparison checks fixed grains and a fixed list of single differences; samples at unusual positions/formats are not covered.",
     [CI, "mediagrains/comparison/__init__.py"],
     [("comparison tree built per grain type and data format", CI)],
     ["truthiness, failing_children, str() of the result, grains before/after"])

prop("C02", "Comparison options affect exactly the fields they name",
     "Excluding a field makes the comparison insensitive to that field and to nothing else; including a field that is ignored by default makes it "
     "count; an expected difference makes the comparison succeed exactly when that difference (or a difference satisfying the given bound) is present, or a combination of them made with & and |; metadata-only comparison ignores data "
     "and nothing else; and a PSNR bound replaces exact data comparison by that bound. Options combine independently of their "
     "order.",
     ["inputs", "configurations"],
     "All option sets x differences.",
     "Tests apply one option at a time to fixed grains.",
     [CI, "mediagrains/comparison/options.py"],
     [("option matching by path and the excluded/expected/PSNR handling", CI)],
     ["verdicts with and without options"])

prop("C03", "Pairwise comparison of grain streams is exact about order, length and content",
     "Comparing two streams of grains pairwise succeeds if and only if both have the same number of grains and each corresponding pair compares equal under the "
     "same options, whatever kind of iterable they come from; it consumes each stream at most once in order, its length is the number of pairs it compared, and returning only the last result does not "
     "change the verdict.",
     ["inputs", "histories"],
     "All pairs of grain sequences including empty and unequal-length ones and one-shot iterators.",
     "Tests cover two or three fixed streams.",
     [CI],
     [("compare_grains_pairwise", CI)],
     ["verdict, children, items consumed"])

prop("C04", "PSNR values equal their mathematical definition",
     "The PSNR computed between two video or audio grains of the same format is, per component or channel, ten times the base-ten logarithm of the squared peak value over the "
     "mean squared sample error, infinite for identical samples, symmetric in its arguments, for every supported format and size; it never alters "
     "either grain, and unsupported formats or mismatched grains are refused with an error rather than given a number.",
     ["inputs"],
     "All supported formats x sizes x sample values.",
     "Tests use a few fixed patterns per format.",
     ["mediagrains/comparison/psnr.py"],
     [("compute_psnr and its per-format helpers", "mediagrains/comparison/psnr.py")],
     ["returned values against reference, grains before/after"])

PG = "mediagrains/patterngenerators/"
prop("P01", "Video pattern generators draw the documented picture at every size and time",
     "For every supported format, frame size, rate and intensity, each video pattern generator yields grains whose every sample in every component has the value its pattern documents "
     "(eight equal-width luma steps or colour bars, the given still, or a bar of the given height at the position the time implies with the rest of "
     "the source picture untouched; the intensity scales luma), for grains at any time and however they are requested; asking for grains never changes the generator or "
     "grains already handed out.",
     ["inputs", "histories"],
     "All formats x sizes x intensities x times x request orders.",
     "Tests sample a few pixels of fixed sizes.",
     [PG + "video/*.py"],
     [("ColourBars, LumaSteps, StillPatternGenerator, MovingBarOverlay", PG + "video")],
     ["every sample of generated grains"])

prop("P02", "Audio tone generators are sample-accurate and phase-continuous everywhere",
     "For every format, sample rate, frequency, channel count, volume and grain size, the tone generator's samples, concatenated over consecutive grains, equal the ideal tone at each absolute sample index within quantisation, "
     "regardless of how or in which order grains are requested; every channel carries the same tone, silence is all zero, and sample values never wrap or exceed the format's range.",
     ["inputs", "histories"],
     "All formats x rates x frequencies x volumes x grain indices.",
     "Tests check one or two seconds at a couple of configurations.",
     [PG + "audio/tone.py"],
     [("Tone/Tone1K/Silence sample generation by index", PG + "audio/tone.py")],
     ["decoded sample values per channel and index"])

prop("P03", "Pattern generators address grains consistently by count, time and range",
     "Requesting a grain by integer count or by the time of that count gives the same grain, with the timestamp of that count at the generator's rate, the generator's source and flow identifiers and a "
     "duration of one grain; slices (both ends included) and time ranges give exactly the grains inside them in order, with the same contents as individual requests; membership tests and lookups with default agree with "
     "direct requests; and times that are not those of a grain (for audio: of a sample, to the nearest one; an integer counts samples there) are rejected.",
     ["inputs", "histories"],
     "All generators x rates x counts (including negative) x ranges x inclusivities.",
     "Tests cover indexing at a handful of points at 25 Hz.",
     [PG + "abc.py", PG + "video/abc.py", PG + "audio/abc.py"],
     [("GrainGenerator __getitem__/__contains__/get/__iter__", PG + "abc.py")],
     ["grains returned and their timestamps"])

U = "mediagrains/utils/"
prop("W01", "Raw essence wrapping partitions the input into contiguous grains",
     "Wrapping raw video or audio essence yields grains whose data, concatenated, is exactly the input, each grain but the last being one full frame, with "
     "origin timestamps on consecutive instants of the grain rate from the first one not before the start time, unchanged template metadata otherwise, and independent of how "
     "the input delivers its bytes; grains already yielded never change afterwards.",
     ["inputs", "configurations"],
     "All input lengths (including empty and partial last frame), rates, chunkings, start times.",
     "No existing stable test covers the wrappers.",
     [U + "grain_wrapper.py"],
     [("GrainWrapper.grains", U + "grain_wrapper.py")],
     ["yielded grains versus input bytes"])

prop("W02", "ADTS AAC wrapping finds every frame and describes it correctly",
     "For any well-formed ADTS stream of constant parameters the AAC wrapper yields exactly one grain per ADTS frame, in order, with the frame's exact bytes, with the sample rate and channel count its header defines, "
     "and timestamps advancing by exactly one frame of 1024 samples (or the template's number) from the start time's grid; parsed header fields equal those in the bits for every header; the result does not depend on how the input delivers its bytes, and bytes that are "
     "not a valid, complete frame are refused with a ValueError and never emitted as one.",
     ["inputs", "fault_sequences"],
     "All header field values, frame lengths, CRC presence, garbage and truncation.",
     "test_adts_aac_parser parses a fixed header or two; the wrapper has no stable test.",
     [U + "adts_aac_parser.py", U + "adts_aac_grain_wrapper.py"],
     [("ADTSAACParser, ADTSAACGrainWrapper.grains", U)],
     ["yielded grains and parsed headers versus an independent bit writer"])

prop("W03", "H.264 wrapping splits a byte stream into exact access units",
     "For any conformant H.264 byte stream (single layer, starting with its parameter sets) the wrapper yields one grain per primary coded picture, in order; the grains' data concatenated is the input, grain boundaries are the access unit boundaries of the H.264 specification, unit offsets point at the "
     "NAL units within the grain, key frames are the pictures coded in I and SI slices only, picture sizes and the frame rate are those coded in the stream, timestamps advance one grain at a time, and the result is independent of how the input delivers its "
     "bytes.",
     ["inputs", "configurations"],
     "All sequences of parameter sets, slices (types, frame/field, POC types), delimiters, SEI, emulation prevention, start-code lengths, chunkings.",
     "No stable test runs the H.264 parser or wrapper.",
     [U + "h264_parser.py", U + "h264_grain_wrapper.py"],
     [("H264Parser NAL scanning and access-unit detection", U + "h264_parser.py"),
      ("H264GrainWrapper.grains", U + "h264_grain_wrapper.py")],
     ["yielded grains versus an independent H.264 writer"])

prop("T01", "Command-line wrap and extract tools are exact inverses on essence",
     "Wrapping a raw video, raw audio, AAC or H.264 file into GSF with the command line tools and extracting the essence again gives back the original essence bytes (for all supported options, files or standard streams), the "
     "intermediate file is a valid GSF file with the identifiers, format, size, rate and start time given on the command line, and probing any GSF file prints a JSON description that "
     "agrees with its contents.",
     ["inputs", "configurations"],
     "All formats, sizes, option combinations, file/pipe endpoints, input lengths.",
     "The stable tests never run the tools.",
     ["mediagrains/tools/*.py", U + "*.py"],
     [("wrap_video_in_gsf, wrap_audio_in_gsf, extract_gsf_essence, gsf_probe, file_or_pipe", "mediagrains/tools")],
     ["bytes produced by the tools run as real processes"])

prop("I01", "Lazily read byte ranges behave exactly like the bytes they stand for",
     "A lazy byte range over a file behaves as the immutable bytes at that range: equal length, equal content under conversion, indexing, slicing, iteration, reversal, search and count, membership, comparison and hashing, "
     "with the same errors (assignment and deletion are refused), whatever order it is used in and however many ranges share one file, "
     "and using it never disturbs the file position seen by other users of the file.",
     ["inputs", "histories"],
     "All ranges, all operation sequences, several ranges interleaved with direct file reads.",
     "test_iobytes checks one fixed buffer.",
     [U + "iobytes.py"],
     [("IOBytes lazy load and Sequence protocol", U + "iobytes.py")],
     ["results versus the plain bytes model; file position before/after"])

prop("I02", "Asynchronous binary files behave exactly like their synchronous counterparts",
     "Every asynchronous binary file wrapper gives, for any sequence of reads, line-free bulk reads, writes, seeks, tells and truncations, the same "
     "results, the same final content and the same position as the equivalent synchronous file, for in-memory, wrapped-file and stream sources; readers from streams "
     "never lose, duplicate or reorder bytes under any chunking, and short input is reported as a short read.",
     ["histories", "schedules", "inputs"],
     "All operation sequences, chunkings of streams, task interleavings between writer and reader.",
     "No stable test covers these classes.",
     [U + "asyncbinaryio.py"],
     [("OpenAsyncBinaryIO implementations", U + "asyncbinaryio.py")],
     ["return values, contents and positions versus a synchronous model"])

prop("F01", "Failures of sources and destinations are reported, never absorbed",
     "Whatever operation of a source or destination fails, at whatever point and with whatever exception - a read, tell or connection error while decoding in any loading mode, a write, "
     "drain, seek, tell or truncate error while encoding, an iterable or an awaitable that raises, a lazily loaded grain whose data cannot be had - that exception comes out of the library call "
     "under way; decoding never ends as if the file had, encoding never ends as if all were written, a comparison never gives a verdict, a wrapper never ends as if the essence had, and a command line tool "
     "exits with a failure status. What was delivered before the failure is right; loading deferred data again after a failed or cancelled attempt, in the same or another grain, gives "
     "the right octets; and an encoder whose caller goes on after one grain could not be added still writes a conformant file holding exactly the other grains with the right counts.",
     ["inputs", "crash points", "schedules", "histories"],
     "Every position of the failure, exception, source or sink kind, way of reading and writing, and continuation after it.",
     "Tests use sources and sinks that never fail.",
     [M + "gsf.py", U + "asyncbinaryio.py", U + "iobytes.py", U + "grain_wrapper.py", U + "adts_aac_grain_wrapper.py", U + "h264_grain_wrapper.py", M + "comparison/_internal.py",
      M + "tools/extract_from_gsf.py", M + "tools/wrap_in_gsf.py", M + "tools/_file_or_pipe.py"],
     [("GSFDecoder, GSFEncoder", M + "gsf.py"), ("IOBytes", U + "iobytes.py")],
     ["the exception that comes out (identity), grains delivered before, data loaded afterwards, files written, exit status"])

prop("F02", "Files opened by the library are used only while open and always closed",
     "An asynchronous file that is not yet open when given to a decoder, load() or an encoder is opened once per use and closed exactly once, however that use ends: normally, abandoned "
     "part way, by an exception of the caller, by malformed input, by any operation on the file failing, or by cancellation at any point, including while entering or leaving the context "
     "and while other tasks are still loading or adding grains. No operation reaches the file before it has been opened or after it has been closed. The same object can serve further uses. "
     "A file given already open, synchronous or not, is never closed by the library, whatever happens. The command line tools and file_or_pipe leave no descriptor open.",
     ["inputs", "crash points", "schedules", "histories"],
     "Every way and moment a session can end, over every file content.",
     "Tests check a closed file in one successful decode.",
     [M + "gsf.py", U + "asyncbinaryio.py", U + "iobytes.py", U + "grain_wrapper.py", M + "tools/_file_or_pipe.py", M + "tools/extract_from_gsf.py", M + "tools/wrap_in_gsf.py"],
     [("GSFDecoder, GSFEncoder, load", M + "gsf.py"), ("AsyncBinaryIO", U + "asyncbinaryio.py")],
     ["the sequence of open, close and other operations on the file", "open descriptors of the process"])

prop("R01", "Streams are worked on a few grains at a time, and only what is asked for is read",
     "Decoding, progressive (streaming) encoding, wrapping of essence and the command line tools need memory for the grains at hand, not for the whole stream: grains the caller has let "
     "go of are released (in an asynchronous session, deferred ones once they have been loaded), nothing keeps all of the data. A grain is delivered by the decoder as soon as its last "
     "octet has arrived, and the file headers as soon as theirs have; a progressive encoder has written a grain when adding it returns, and asks an iterator for the next only then; a wrapper "
     "gives a grain without reading far beyond it; frames piped into a tool come out one by one. Of the data of grains skipped (LOAD_NEVER), in segments not selected, or deferred and not yet "
     "asked for, nothing is read from a seekable file, and loading one grain reads that grain's data only, once. A file that claims blocks far larger than itself makes the decoder take memory "
     "for what it contains, not for what it claims.",
     ["inputs", "histories", "schedules"],
     "Streams of every length and pace, every way of reading, writing and wrapping, every claimed size.",
     "Tests use a few small grains held in memory whole.",
     [M + "gsf.py", U + "asyncbinaryio.py", U + "iobytes.py", U + "grain_wrapper.py", U + "h264_grain_wrapper.py", U + "adts_aac_grain_wrapper.py", M + "tools/_file_or_pipe.py", M + "tools/extract_from_gsf.py", M + "tools/wrap_in_gsf.py"],
     [("GSFDecoder, GSFEncoder", M + "gsf.py"), ("essence wrappers", U), ("command line tools", M + "tools/")],
     ["octets taken from and given to files, by position and moment", "grains still alive", "memory in use"])

prop("S01", "Results depend on what was given, not on history, company or environment",
     "An operation on the same inputs gives the same result however often and after whatever else it is done (also when the results of the earlier ones have been altered by their owner), whatever other "
     "sessions, generators, tasks or threads are doing meanwhile with objects of their own, and whatever the process's hash seed, time zone, locale, working directory, memory contents, garbage "
     "collection or assertion setting. This covers reading (well-formed or damaged files), writing with ids and dates given, making, editing and copying grains, comparing, PSNR, conversion that does not "
     "add depth, numpy views, pattern generators, essence wrappers, lazily read octets and asynchronous files. Grains made without data, labels or lists given get their own. No operation leaves "
     "the process's own settings (seeds of random numbers, warnings, numpy's error state, locale, environment, signals, recursion limit, working directory, logging...) changed.",
     ["inputs", "histories", "schedules", "environment"],
     "Every order, interleaving and combination of operations; every schedule of threads working on separate objects; every environment.",
     "Each test runs one operation at a time on fresh objects in one environment.",
     [M + "gsf.py", M + "grains/", M + "comparison/_internal.py", M + "numpy/convert.py", M + "patterngenerators/video/colourbars.py", M + "patterngenerators/audio/tone.py", U + "h264_parser.py", U + "asyncbinaryio.py"],
     [("whole public interface", M)],
     ["results of each operation alone and in company, to the octet", "the process's settings before and after"])

prop("H01", "Generated grain strategies only produce valid grains as constrained",
     "Every grain drawn from the library's property-testing strategies is a valid grain of the requested type whose explicitly constrained attributes take exactly "
     "the given value or a value drawn from the given strategy, whose other attributes lie in their documented default ranges, and whose data has the length that its format, size or sample count defines; "
     "grains drawn from a template equal it in everything but the data, and the template is not changed by drawing.",
     ["inputs", "configurations"],
     "All strategies x constraint combinations x draws.",
     "No stable test runs the strategies.",
     ["mediagrains/hypothesis/strategies.py"],
     [("grains, grains_with_data, grains_from_template_with_data strategies", "mediagrains/hypothesis/strategies.py")],
     ["drawn grains"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
