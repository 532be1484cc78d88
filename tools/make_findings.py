"""Writes known_findings.json: recorded findings below, and one "fixed" line per fix: commit in /repo."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = []     # dict(property=, key=, what=)
# start of the commit subject after "fix: " -> (property, what failed)
FIXED = [
    ("an asynchronous decoder left the file", "F02", "the file an asynchronous decoder opens was left open when the header could not be decoded or data could not be loaded on leaving"),
    ("an asynchronous encoder never closed", "F02", "the asynchronous encoder opened the file it was given but never closed it"),
    ("a failure to seek past a block", "F01", "an input failing while a block was skipped (e.g. a pipe): the error was swallowed and decoding carried on at the wrong position"),
    ("values that do not fit their fields", "G02", "numbers too large for their field, negative numbers in unsigned fields and negative timestamps in version 7 were silently cut when written to a GSF file"),
    ("the report on differing data", "C01", "the lines of the report that describe differing data showed values of the second grain from the wrong positions"),
    ("expected differences of an attribute", "C02", "combining expected differences with & or | raised TypeError"),
    ("gsf_probe describes the segments", "T01", "gsf_probe ended in a KeyError for grains of segments that the first header of a concatenation lacks"),
    ("loads() passes", "G09", "loads(..., support_concatenation=False) ignored its extra keyword arguments"),
    ("deferred grain data of asynchronously", "G05", "grains awaited while other grains were being decoded or awaited got wrong bytes or disturbed the decoder"),
    ("event grains from asynchronously", "G05", "a deferred event grain could not be awaited or measured"),
    ("over-long strings are cut", "G02", "a tag over 65535 octets ending inside a multi-byte character was written as invalid UTF-8"),
    ("a GSF encoder can dump again", "G06", "a second dump of an encoder wrote wrong segment counts and tags"),
    ("no grain or header change is silently lost", "G06", "grains or tags added during an asynchronous dump were lost without an error"),
    ("tasks adding grains concurrently", "G06", "concurrent add_grain calls interleaved blocks of an asynchronous dump"),
    ("writing a grain whose deferred data", "G06", "writing a not yet awaited deferred grain wrote a corrupt file"),
    ("a GSF grain without data, or a block", "G08", "a grain without grdt block, or a child larger than its parent, misplaced everything after it"),
    ("a GSF file too short or too garbled", "G08", "files shorter than a signature or with non-UTF-8 signatures raised other errors than the decoding errors"),
    ("strings in GSF files end", "G03", "octets after the terminator of fixed-size strings were taken as part of the string"),
    ("invalid header fields", "G08", "invalid dates and short fields raised ValueError and others; null date unreadable"),
    ("grain data cut short", "G07", "deferred grain data cut off by the end of the file was delivered short without an error"),
    ("malformed event payloads", "M05", "a malformed event payload left the grain half changed, and came out of GSF decoding as KeyError and others"),
    ("data assigned to a grain while", "M01", "data assigned while awaiting deferred data was overwritten"),
    ("short reads from asynchronous", "I02", "read() of asynchronous files raised EOFError on short input and allocated whatever size was asked for"),
    ("asynchronous in-memory files seek", "I02", "AsyncBytesIO: readall left the position, truncate grew the file, truncated bytes reappeared, seek returned None"),
    ("readall() of asynchronous", "I02", "readall() failed on wrapped buffered files and counted stream bytes twice"),
    ("lazily read byte ranges compare with each other", "I01", "two equal IOBytes objects compared unequal, ordering and membership raised TypeError"),
    ("tools reading a pipe", "T01", "input from a pipe ended in EOFError, losing the last bytes"),
    ("raw essence is wrapped in whole frames", "W01", "short reads from a pipe made short grains in the middle of the stream"),
    ("ADTS frames are read whole", "W02", "short reads, truncated or impossible frames were wrapped as grains or raised other errors"),
    ("AAC can be wrapped with a template", "W02", "a template without a number of samples (0) raised ZeroDivisionError instead of meaning 1024"),
    ("slices of one H.264 picture may differ", "W03", "a picture with slices of nal_ref_idc 1 and 2 was split into two grains"),
    ("the slice group identifiers", "W03", "slice_group_id was read with the wrong number of bits"),
    ("H.264 streams with an unspecified extended", "W03", "VUI sample aspect ratio 0:0 raised ZeroDivisionError"),
    ("the duration of wrapped H.264 grains", "W03", "grains kept the template's duration whatever rate the stream has"),
    ("all slices of an H.264 picture in data", "W03", "a last picture in data partitions was judged a key frame by its first slice alone"),
    ("the presentation times of coded video grains without", "M04", "presentation times with a temporal offset and rate 0 raised TsValueError"),
    ("the final origin timestamp of audio grains without", "M04", "origin_timerange() of audio grains with sample rate 0 raised TsValueError, and so did gsf_probe"),
    ("channel views of planar 24-bit", "N02", "channel views of S24_PLANES audio shifted the grain's own data, and failed for read-only data"),
    ("raw audio, and AAC without further options", "T01", "wrap_audio_in_gsf crashed for PCM and for AAC with default options"),
    ("essence can be extracted from GSF files with", "T01", "extract_gsf_essence crashed on a grain without data"),
    ("time labels of a grain can be sliced", "M02", "slices, +=, extend and assignment of timelabels raised or lost labels; views went stale"),
    ("the components of a video grain can be edited", "M02", "assigning or extending components replaced the view, left objects in the metadata that json could not write"),
    ("unit offsets of a coded grain can be sliced", "M02", "slices, extend and deletion of unit_offsets raised when there were none"),
    ("the absent pre value of an event", "M02", "setting pre to None on an event without one raised KeyError"),
    ("unit offsets given to a coded grain", "M01", "the list given as unit_offsets was shared with the grain"),
    ("grains whose data is a memoryview", "M03", "deepcopy raised TypeError (cannot pickle memoryview)"),
    ("numpy grains can be compared for equality", "M03", "== of numpy grains raised ValueError (truth value of an array)"),
    ("AYUV frames", "V01", "AYUV frames were given the layout and allocation of three-byte pixels"),
    ("numpy video grains can be BGRA", "N01", "numpy VideoGrain of BGRX/BGRA raised"),
    ("numpy grains without data", "M01", "length and deletion of data raised for numpy grains without data or awaiting it"),
    ("numpy grains can be made from lazily", "N01", "numpy grains of IOBytes data raised"),
    ("numpy grains made from grains still awaiting", "M01", "numpy grains of un-awaited grains never got the data; data assigned meanwhile was overwritten"),
    ("component views of numpy video", "N01", "component offsets beyond the data, or sliced packed frames, gave views of other bytes"),
    ("channel views of numpy audio", "N02", "channel views of too short data silently had the wrong shape"),
    ("a grain whose awaited data turns out to be None", "M01", "awaiting a second time raised RuntimeError (cannot reuse already awaited coroutine)"),
    ("grains whose data is a numpy array", "M03", "== of byte grains holding arrays raised ValueError (truth value of an array)"),
    ("data assigned to an event grain is kept", "M05", "data assigned to an event grain awaiting its payload was overwritten when that arrived"),
    ("event data set from bytes keeps", "M05", "an event grain rebuilt from data with post before pre had other data bytes and compared unequal"),
    ("reducing the bit depth of video", "N03", "samples next to the maximum were rounded up past it and stored as 0 (or out of range) when the bit depth was reduced"),
    ("conversion to RGB clips", "N03", "colours brighter than the maximum wrapped to 0 (or out of range samples) in conversion from YUV to RGB"),
    ("converted video keeps", "N04", "time labels and aspect ratios were dropped by conversion"),
    ("grains whose data does not consist of whole samples", "C01", "comparison raised struct.error for odd lengths, and ignored the last one or two octets of 24-bit audio data"),
    ("comparing floating point data with itself", "C01", "a grain of float audio containing NaN compared different from itself"),
    ("PSNR is refused for grains", "C04", "PSNR of v210 video or of grains without samples was [], of differing depths or colour orders a number, of differing subsampling ValueError"),
    ("expected differences are applied to integer", "C02", "ExpectedDifference of an integer attribute was not applied: the values were compared for equality"),
    ("a PSNR comparison is found as the data", "C02", "result.data of a comparison with a PSNR option raised AttributeError"),
    ("an expected difference of creation timestamps", "C02", "ExpectedDifference.creation_timestamp was ignored unless Include.creation_timestamp was given as well"),
    ("a PSNR comparison of grains which PSNR refuses", "C02", "comparing grains of differing sizes with a PSNR option raised AttributeError instead of failing"),
    ("pairwise comparison returning only the last", "C03", "return_last_only raised UnboundLocalError for streams of which one is empty; for unequal lengths two results were returned, the last one not last"),
    ("the report of a pairwise comparison names", "C03", "the entry named as first difference was one too high when a pair differs"),
    ("the report of a comparison names", "C01", "the message named positions whose values are equal as the first different ones"),
    ("video patterns can be requested by count", "P03", "integer keys raised ValueError, grains were handed out at times between those of the pattern, MovingBarOverlay.get raised KeyError instead of returning the default"),
    ("the default passed to get of a tone generator", "P03", "None was returned instead of the default"),
    ("the duration of generated grains", "P03", "the duration of generated grains stayed 1/25 at other rates"),
    ("luma steps and colour bars can be drawn", "P01", "widths that are not multiples of 8 raised IndexError or ZeroDivisionError, or had steps beyond white"),
    ("tones of an odd number of channels", "P02", "struct.error for odd numbers of channels in formats of pairs"),
    ("tones at full volume are limited", "P02", "full volume raised struct.error, or wrapped to negative full scale in 24-bit formats"),
    ("tones in S24_PLANES have", "P02", "the data of generated S24_PLANES grains was a quarter too short for its format"),
    ("a bar can be overlaid on stills", "P01", "TypeError, or the bar in other places, for stills of read-only or numpy data"),
    ("pattern generators accept objects", "P03", "objects with a mediatimerange method raised ValueError"),
    ("the format given to a strategy", "H01", "the format given to strategies for audio and video grains was ignored"),
    ("strategies for coded grains don't produce", "H01", "coded grains of unknown format were drawn by default"),
    ("unit offsets are drawn", "H01", "unit offsets were drawn in any order, and never empty"),
    ("timestamps of event grains drawn", "H01", "TypeError for event grains with a timestamp left unset"),
    ("the creation timestamp given to the strategy", "H01", "the creation timestamp given to the strategy for coded audio grains was ignored"),
    ("a grain made without identifiers", "M01", "a grain constructed without src_id or flow_id held the text \"None\" and raised ValueError when its identifiers were read or it was converted"),
    ("GSF files written to unbuffered files", "G06", "writes to raw files were taken to be complete even where they were short, leaving out parts of the file"),
    ("cancelling a task that adds grains", "G06", "a cancelled add_grain lost grains added through a segment before it, recorded grains never written, or let the next write start before its own ended"),
    ("leaving the context of a GSF encoder while", "G06", "grains that tasks were still adding when the encoder's context was left were written after, or in the middle of, the end of the file"),
    ("cancelling a task that waits", "G05", "cancelling a task that awaits a deferred grain, or a decoding step, on a file read in a thread let the next read use the file at the same time: wrong bytes, or decoding errors"),
]


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "55ab4ff..HEAD"], capture_output=True, text=True).stdout
    fixed, left = [], list(FIXED)
    for line in log.splitlines():
        h, s = line.split(" ", 1)
        m = [f for f in FIXED if s.startswith("fix: " + f[0])]
        assert len(m) == 1, line
        left.remove(m[0])
        fixed.append("fixed: property=%s %s %s" % (m[0][1], h, m[0][2]))
    assert not left, left
    json.dump(dict(known=KNOWN, fixed=fixed), open(os.path.join(V, "known_findings.json"), "w"), indent=1)


main()
