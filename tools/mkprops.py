#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single source of both)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "No input makes the library misbehave",
 "Whatever bytes a caller passes to any public parsing entry point (Annex B, length-framed, single NAL unit, RTP packet, or the parser of any single syntax structure), with whatever parameter sets were stored before, the call returns in bounded time and memory without crashing, reading or writing outside the given buffer, or executing undefined behaviour. The same holds for dumping whatever was returned, with any dump options and indentation.",
 ["inputs", "histories", "configurations"], "every byte string of every length, every prior parser state, every framing width, every dump option",
 "The unit tests feed a few dozen well-formed buffers; memory safety and termination are claims about all byte strings, in particular hostile ones, and about parameter sets and slices that do not belong together.",
 ["src/h264_bitstream_parser.cc", "src/h264_nal_unit_parser.cc", "src/h264_nal_unit_payload_parser.cc", "src/h264_rtp_parser.cc", "src/rtc_common.cc", "src/h264_pps_parser.cc", "src/h264_slice_header_parser.cc"],
 [("length-checked bit reader", "src/rtc_common.cc BitBuffer"), ("range checks on every loop count", "src/h264_pps_parser.cc, src/h264_hrd_parameters_parser.cc, src/h264_slice_header_parser.cc"), ("bounded list loops", "src/h264_ref_pic_list_modification_parser.cc, src/h264_dec_ref_pic_marking_parser.cc")],
 ["return value, AddressSanitizer/UBSan reports, CPU time and allocation size per call"])
prop("C02", "Annex B splitting finds exactly the NAL units between start codes",
 "For every byte buffer, the Annex B splitter reports one NAL unit per start code (00 00 01, with a preceding zero byte counted as part of a 4-byte start code), in order, whose payload is exactly the bytes between that start code and the next one or the end of the buffer. Bytes before the first start code belong to no NAL unit, and no byte is reported twice or lost. For length-framed data the explicit splitter reports exactly the units its 4-byte big-endian length fields describe, including empty ones, stopping at the first length that does not fit in what is left.",
 ["inputs"], "every buffer, including start codes at the very beginning or end, runs of zeros, adjacent start codes, and every length-field value",
 "The tests split a handful of fixed buffers; off-by-one errors sit at buffer ends, in zero runs and between adjacent start codes.",
 ["src/h264_bitstream_parser.cc", "include/h264_bitstream_parser.h"],
 [("start code scan", "src/h264_bitstream_parser.cc FindNaluIndices"), ("length-field walk", "src/h264_bitstream_parser.cc FindNaluIndicesExplicitFraming")], ["the returned offsets and sizes"])
prop("C03", "Emulation prevention is removed exactly as the standard says",
 "For every byte string, unescaping removes exactly the 03 bytes that follow two zero bytes and keeps every other byte in order; escaping any payload and unescaping it gives the payload back. Every entry point that takes a NAL unit or a structure as bytes decodes the escaped bytes exactly as it decodes the unescaped ones.",
 ["inputs"], "every byte string, with emulation prevention at any position including the last byte, and every byte-level entry point",
 "The tests contain a few fixed sequences; the rule concerns every position and combination of zero runs, and every one of the entry points that unescape on their own.",
 ["src/h264_common.cc", "src/h264_nal_unit_parser.cc"],
 [("emulation prevention removal", "src/h264_common.cc UnescapeRbsp"), ("unescape at each byte-level entry point", "src/h264_*_parser.cc Parse*(const uint8_t*, size_t, ...)")], ["unescaped bytes, decoded fields"])
prop("C04", "Bit-level codes read back exactly what was written",
 "For every sequence of fixed-length, Exp-Golomb, signed Exp-Golomb and non-symmetric codes within their ranges, what the bit writer writes the bit reader reads back with the same values and the same position, matching the standard's bit patterns. A read that would pass the end of the buffer fails without moving the position, and reads, seeks and peeks never disagree about the position.",
 ["inputs", "histories"], "every value, width and bit alignment; every sequence of reads, peeks, seeks and writes",
 "The tests check isolated values at byte-aligned positions; the codes must be right for every value at every alignment and after any history of operations.",
 ["src/rtc_common.cc", "include/rtc_common.h"],
 [("bit reader", "src/rtc_common.cc BitBuffer"), ("bit writer", "src/rtc_common.cc BitBufferWriter")], ["values, offsets, RemainingBitCount, raw bytes"])
prop("C05", "Every SPS is decoded to exactly what the bitstream says",
 "For every sequence parameter set, including scaling lists, VUI and HRD parameters, each syntax element present in the bitstream is decoded to its coded value, each absent one reads as its inferred value, and optional structures are present exactly when the bitstream has them (of several explicit scaling lists of one size, which share one field, the last one is reported). An SPS with an out-of-range element or one cut short is not decoded.",
 ["inputs"], "every combination of profile, optional parts, element values and loop counts, and corruptions of them",
 "The tests decode fewer than ten fixed SPSs; most combinations of optional syntax (chroma 4:4:4, POC type 1, both HRDs, each VUI branch, 12 scaling lists) never occur in them.",
 ["src/h264_sps_parser.cc", "src/h264_vui_parameters_parser.cc", "src/h264_hrd_parameters_parser.cc"],
 [("seq_parameter_set_data()", "src/h264_sps_parser.cc ParseSpsData"), ("vui_parameters()", "src/h264_vui_parameters_parser.cc"), ("hrd_parameters()", "src/h264_hrd_parameters_parser.cc")], ["fields of the decoded SPS"])
prop("C06", "Values derived from an SPS follow the standard's formulas",
 "For every SPS, the reported picture width and height are the standard's cropped luma dimensions for its chroma format, field coding and cropping; the chroma array type, the macroblock and picture-size derivations, the frame rate and the profile name are those the standard gives for its fields.",
 ["inputs"], "every combination of chroma format, separate planes, frame_mbs_only, dimensions, cropping, timing and profile/constraint flags",
 "The tests check the resolution of a few streams, nearly all 4:2:0 progressive; the formulas branch on fields those streams never vary.",
 ["src/h264_sps_parser.cc", "src/h264_common.cc", "include/h264_sps_parser.h"],
 [("resolution", "src/h264_sps_parser.cc SpsDataState::getResolution"), ("derived variables", "src/h264_sps_parser.cc SpsDataState get*"), ("profile classification", "src/h264_sps_parser.cc GetProfileType")], ["derived values"])
prop("C07", "Every PPS is decoded to exactly what the bitstream says",
 "For every picture parameter set, including slice groups of every map type and the optional transform/scaling extension interpreted with the chroma format of the SPS it refers to, each syntax element is decoded to its coded value and optional parts are present exactly when the bitstream has them. A PPS with an out-of-range element or one cut short is not decoded.",
 ["inputs", "histories"], "every PPS under every stored SPS, valid and corrupted",
 "The tests decode a few PPSs without slice groups and with the default chroma format; the number of scaling lists depends on an SPS received earlier.",
 ["src/h264_pps_parser.cc", "src/h264_nal_unit_payload_parser.cc"],
 [("pic_parameter_set_rbsp()", "src/h264_pps_parser.cc ParsePps"), ("chroma_format_idc of the referenced SPS", "src/h264_nal_unit_payload_parser.cc"), ("more_rbsp_data()", "src/h264_common.cc")], ["fields of the decoded PPS"])
prop("C08", "Every slice header is decoded to exactly what the bitstream says",
 "For every coded slice of an IDR or non-IDR picture, under whatever SPS and PPS it refers to, each slice header element, including reference list modification, prediction weights, reference marking and slice group change cycle, is decoded to its coded or inferred value with the field widths those parameter sets imply. A slice whose header is out of range, cut short, or refers to a parameter set never received is not decoded.",
 ["inputs", "histories"], "every slice type, parameter-set combination and element value, valid and corrupted",
 "The tests decode about twenty slices from encoders that use a small part of the syntax; widths and branches depend on two other structures.",
 ["src/h264_slice_header_parser.cc", "src/h264_ref_pic_list_modification_parser.cc", "src/h264_pred_weight_table_parser.cc", "src/h264_dec_ref_pic_marking_parser.cc", "src/h264_slice_layer_without_partitioning_rbsp_parser.cc"],
 [("slice_header()", "src/h264_slice_header_parser.cc ParseSliceHeader"), ("nested structures", "src/h264_ref_pic_list_modification_parser.cc, src/h264_pred_weight_table_parser.cc, src/h264_dec_ref_pic_marking_parser.cc")], ["fields of the decoded slice header"])
prop("C09", "Every SVC structure is decoded to exactly what the bitstream says",
 "For scalable streams, the NAL unit header extension, subset SPS with its SVC extension, prefix NAL unit and scalable slice header are decoded to exactly the coded or inferred values, using the subset SPS and PPS they refer to. Ones that are out of range, cut short, or refer to a parameter set never received are not decoded.",
 ["inputs", "histories"], "every SVC structure under every subset SPS/PPS combination, valid and corrupted",
 "The tests cover a handful of SVC NAL units; branches depend on header extension flags combined with subset SPS flags.",
 ["src/h264_subset_sps_parser.cc", "src/h264_sps_svc_extension_parser.cc", "src/h264_prefix_nal_unit_parser.cc", "src/h264_slice_header_in_scalable_extension_parser.cc", "src/h264_slice_layer_extension_rbsp_parser.cc", "src/h264_nal_unit_header_svc_extension_parser.cc"],
 [("slice_header_in_scalable_extension()", "src/h264_slice_header_in_scalable_extension_parser.cc"), ("subset_seq_parameter_set_rbsp()", "src/h264_subset_sps_parser.cc"), ("prefix_nal_unit_rbsp()", "src/h264_prefix_nal_unit_parser.cc")], ["fields of the decoded structures"])
prop("C10", "Out-of-range or truncated syntax is rejected, never half-decoded",
 "A structure in which a range-checked element (identifiers, counts, depths, types, offsets) lies outside the standard's range, or whose data ends before its last element, is rejected as a whole: the parser returns nothing for it, its NAL unit is reported with its header but without a decoded payload, and the stored parameter sets stay as they were. Nothing inside the valid range is rejected.",
 ["inputs", "fault_sequences"], "every range-checked element of every structure at and beyond its bounds; every truncation point",
 "The tests have almost no negative cases; each of about sixty checked elements needs values at both sides of each bound, in every context.",
 ["src/h264_sps_parser.cc", "src/h264_pps_parser.cc", "src/h264_slice_header_parser.cc", "src/h264_vui_parameters_parser.cc", "src/h264_hrd_parameters_parser.cc", "src/h264_nal_unit_payload_parser.cc"],
 [("range checks after each element", "src/h264_*_parser.cc"), ("null return propagation", "src/h264_nal_unit_payload_parser.cc")], ["null result / IsPayloadParsed, stored parameter sets"])
prop("C11", "Parameter sets stay in force exactly as last received",
 "Over any sequence of NAL units, each SPS, PPS and subset SPS id refers to the content of the last successfully decoded parameter set with that id, kinds are kept apart, and every slice is decoded with the parameter sets in force at its position. NAL units that fail to decode, or of any other kind, change nothing.",
 ["histories"], "every sequence of new, repeated, changed, broken and unrelated NAL units with colliding ids",
 "The tests parse short streams with one SPS and one PPS; replacement, id collisions between kinds, and failures between updates need longer histories.",
 ["src/h264_bitstream_parser_state.cc", "src/h264_nal_unit_payload_parser.cc", "include/h264_bitstream_parser_state.h"],
 [("parameter-set maps", "src/h264_bitstream_parser_state.cc"), ("commit after a successful parse", "src/h264_nal_unit_payload_parser.cc")],
 ["stored parameter sets after each NAL unit, decoded slices"], [("parser state", "last decoded SPS/PPS/subset SPS per id", "include/h264_bitstream_parser_state.h")])
prop("C12", "The framing a stream arrives in does not change what is decoded",
 "The same sequence of NAL units yields the same decoded NAL units, in the same order and with the same stored parameter sets, whether it is parsed one unit at a time, as one Annex B buffer with any mix of 3- and 4-byte start codes, or with big-endian length prefixes of any supported width. Each NAL unit carries the offset and length at which it lies in the buffer, and a NAL unit with an undecodable header is left out without disturbing its neighbours. A length prefix of zero, or one that does not fit in what is left, ends the stream.",
 ["inputs", "histories", "configurations"], "every NAL sequence and every framing of it",
 "The tests parse each framing on separate fixed buffers and never compare them; lengths above one byte, odd widths, and truncated last units are not exercised.",
 ["src/h264_bitstream_parser.cc", "src/h264_nal_unit_parser.cc"],
 [("Annex B path", "src/h264_bitstream_parser.cc ParseBitstream"), ("length-framed path", "src/h264_bitstream_parser.cc ParseBitstreamNALULength")], ["nal_units, offset, length, parser state"])
prop("C13", "RTP packets decode like the NAL units they carry",
 "A single-NAL-unit RTP packet decodes exactly as that NAL unit does; a STAP-A packet decodes to exactly the NAL units its size fields delimit, each as if parsed alone in order; the first fragment of an FU-A packet exposes the fragmentation fields and decodes the start of the NAL unit it carries, and other fragments expose only their fields. Parameter sets carried in RTP update the same state as those in a byte stream, and a packet whose sizes do not fit is rejected.",
 ["inputs", "histories"], "every NAL unit, aggregation and fragmentation, valid and malformed",
 "The tests decode four fixed packets; aggregation sizes, emulation prevention inside aggregates, and fragment flags are barely varied.",
 ["src/h264_rtp_parser.cc", "src/h264_rtp_single_parser.cc", "src/h264_rtp_stapa_parser.cc", "src/h264_rtp_fua_parser.cc"],
 [("packet type dispatch", "src/h264_rtp_parser.cc"), ("aggregation unit walk", "src/h264_rtp_stapa_parser.cc"), ("fragmentation header", "src/h264_rtp_fua_parser.cc")], ["RtpState, parser state"])
prop("C14", "The text dump shows every decoded element with its value",
 "For every decoded NAL unit the text dump contains each syntax element present in the bitstream, under its name, inside its structure, with its decoded value (signed elements as signed numbers, lists in order). The one-line and the indented forms contain the same tokens in the same order, and each dump option adds or removes only its own field.",
 ["inputs", "configurations"], "every decodable NAL unit, every dump option combination and indentation",
 "The tests never look at dump output; each of some 300 fields in 20 structures is printed by its own statement.",
 ["src/h264_sps_parser.cc", "src/h264_pps_parser.cc", "src/h264_slice_header_parser.cc", "src/h264_nal_unit_parser.cc", "src/h264_common.cc"],
 [("fdump methods", "src/h264_*_parser.cc fdump")], ["text written by fdump"])
prop("C15", "The command-line tool reports streams faithfully and exits accordingly",
 "For every input file and option combination, the h264nal tool prints, to standard output or the file named with -o, the dump (or per-NAL length table) of exactly the NAL units in the stream as the library decodes them with those options. It exits 0 when everything was decoded, 1 when a NAL unit was kept undecoded or (in an Annex B stream) left out because its header cannot be decoded, 2 when unimplemented syntax was met, and 255 with no output on usage or I/O errors, including output that cannot be written.",
 ["inputs", "configurations"], "every stream (valid, corrupted, empty, any framing) and every documented option",
 "No test runs the tool; its exit codes, length table and option handling are untested.",
 ["tools/h264nal.cc", "src/h264_utils.cc"],
 [("option parsing", "tools/h264nal.cc"), ("exit status", "tools/h264nal.cc main"), ("length table", "tools/h264nal.cc --dump-length")], ["stdout, output file, exit status"])
prop("C16", "Unimplemented syntax is always reported, and nothing else is",
 "Whenever a NAL unit needs syntax the library does not implement (MVC or 3D-AVC header extensions, MVC reference list modification, reference base picture marking), the process-wide count of unimplemented elements grows by exactly one for it and the affected structure is not decoded; for every other NAL unit the count does not change. The tool then exits with status 2.",
 ["inputs", "histories"], "every NAL unit, valid or corrupted, in every parser state",
 "The tests touch two of the unimplemented constructs; the claim is that no path skips unimplemented syntax silently and no path reports it wrongly.",
 ["src/h264_common.cc", "src/h264_nal_unit_header_parser.cc", "src/h264_slice_header_parser.cc", "src/h264_prefix_nal_unit_parser.cc", "src/h264_slice_header_in_scalable_extension_parser.cc", "tools/h264nal.cc"],
 [("unimplemented counter", "src/h264_common.cc report_unimplemented"), ("exit status 2", "tools/h264nal.cc")], ["unimplemented count before/after, exit status"])
prop("C17", "Checksum and parsed length describe the NAL unit exactly",
 "For every NAL unit, the checksum reported when requested is the one's complement of the carry-folded sum of the big-endian 32-bit words of the unescaped NAL unit, so it depends on every byte and not on framing or parser state. The parsed length of a decoded NAL unit is the number of bytes up to the last decoded element.",
 ["inputs", "configurations"], "every NAL unit of every length and content, every option combination",
 "The tests compare the checksum of a few NAL units; lengths not divisible by four, carries and long units are not covered.",
 ["src/h264_nal_unit_parser.cc", "src/h264_common.cc"],
 [("checksum", "src/h264_common.cc NaluChecksum"), ("parsed length", "src/h264_nal_unit_parser.cc")], ["checksum, parsed_length fields"])
prop("C18", "Parsing is deterministic and parses do not interfere",
 "Parsing the same bytes from the same state always gives the same result, whatever other streams are parsed in between or at the same time with other states, whatever the parsing options, and however the caller's buffer is placed. The input buffer is never modified, and results stay valid and unchanged after the buffer, the parser state or later NAL units are gone or replaced.",
 ["inputs", "histories", "schedules"], "every interleaving of streams over separate states, every option combination, every lifetime order",
 "The tests parse each buffer once, in isolation; aliasing of stored parameter sets, hidden global state and dangling pointers need interleavings.",
 ["src/h264_nal_unit_payload_parser.cc", "src/h264_bitstream_parser_state.cc", "include/h264_bitstream_parser_state.h"],
 [("no shared mutable state", "src/"), ("shared ownership of parameter sets", "include/h264_bitstream_parser_state.h")], ["decoded NAL units, state, input buffer"])
prop("C19", "Splitting a stream by resolution loses and reorders nothing",
 "The h264nal-split.py tool cuts a stream into segments exactly at the SPSs whose picture resolution differs from the one in force, and the numbered segment files concatenated in order are byte-for-byte the original stream, which is itself left as it was. A stream with a single resolution is not split: no segment file is written. A stream that does not decode is refused, with a failure status and no segment files.",
 ["inputs", "histories"], "every sequence of SPS changes, start code lengths and NAL contents",
 "No test runs the Python tools; the split depends on offsets and resolutions parsed from the dump.",
 ["tools/h264nal-split.py", "tools/h264nal.cc", "src/h264_nal_unit_parser.cc"],
 [("segment computation", "tools/h264nal-split.py")], ["segment files"])
prop("C20", "NAL and slice type classification matches the standard's tables",
 "For every NAL unit type and slice type value, the classification helpers (slice segment, IDR, reserved, unspecified, parameter set and the like), the names printed for them, and the choice of which payload is decoded agree with the standard's tables, for all values including out-of-table ones.",
 ["inputs"], "all 32 NAL unit types, all slice types and arbitrary out-of-range values",
 "The tests sample a few values; tables are where single-entry mistakes hide.",
 ["src/h264_common.cc", "include/h264_common.h", "src/h264_nal_unit_payload_parser.cc"],
 [("type tables", "src/h264_common.cc"), ("payload dispatch", "src/h264_nal_unit_payload_parser.cc")], ["helper return values, decoded payload kind"])
prop("C21", "A structure decodes the same on its own as inside its stream",
 "Every syntax structure with its own public parser, called on bytes or on a bit reader positioned anywhere, decodes to exactly the values of its syntax table for the context passed in and, where the structure is followed by others, leaves the reader right after its last element. It accepts and rejects exactly what it would as part of a NAL unit.",
 ["inputs", "configurations"], "18 structure parsers, both call forms, every context argument combination, every alignment",
 "The tests call some structure parsers on one or two fixed byte strings each.",
 ["src/h264_hrd_parameters_parser.cc", "src/h264_pred_weight_table_parser.cc", "src/h264_ref_pic_list_modification_parser.cc", "src/h264_dec_ref_pic_marking_parser.cc", "src/h264_sps_extension_parser.cc", "src/h264_sps_svc_extension_parser.cc", "src/h264_prefix_nal_unit_parser.cc"],
 [("two call forms per parser", "src/h264_*_parser.cc Parse*(const uint8_t*, ...) and Parse*(BitBuffer*, ...)")], ["fields, reader position"])
prop("C22", "The conformance summary says of each stream what is in it",
 "For every list of files, h264nal-conformance.py writes one CSV row per file (directories are skipped), in the order given, naming the file and its directory, with the resolutions, profiles and levels of the sequence parameter sets and subset sequence parameter sets decoded (each distinct value once, in order of first appearance), the number of NAL units decoded, of slice NAL units (types 1, 5 and 20) among them, and of slice headers decoded. A file is reported as clean only when the tool ran to its end without failing or complaining; otherwise the row tells a broken stream from one with unimplemented syntax, and the slice header column says how many of the slice headers could be decoded.",
 ["inputs", "histories", "configurations"], "every set of streams, valid, broken or using unimplemented syntax, every file name, and every way the tool can fail",
 "No test runs the Python tools; the summary is scraped from the text of the dump, so any collision of names or change of format goes unnoticed.",
 ["tools/h264nal-conformance.py", "tools/h264nal.cc", "src/h264_sps_parser.cc", "src/h264_nal_unit_parser.cc"],
 [("row from the dump", "tools/h264nal-conformance.py analyze_file"), ("status from exit code and messages", "tools/h264nal-conformance.py run_h264nal"), ("level and profile names", "tools/h264nal-conformance.py format_level, src/h264_sps_parser.cc")], ["the CSV file"])
prop("C23", "The DPB report follows the standard's reference marking",
 "For every conforming stream of frame-coded pictures without gaps in frame_num, h264nal-dpb_parse.py writes one row per picture, in decoding order, with its type, frame_num and reference status under the parameter sets that picture refers to. The reference pictures listed before decoding and after marking are those of the standard's marking process: sliding window, or the coded memory management operations, with frame_num wrapping, long-term frame indices and the current picture's own marking. The references listed for a P or SP picture are the active entries of its list 0 after modification, in order; those of a B picture likewise when decoding and output order agree. A stream that does not decode is refused, with a failure status and no rows.",
 ["inputs", "histories"], "every sequence of pictures, frame_num wrap-arounds, marking operations 1 to 6, list modifications and parameter set changes that the standard allows for frames",
 "No test runs the Python tools; the report is a state machine over the whole stream, and mistakes appear only after particular sequences of marking operations.",
 ["tools/h264nal-dpb_parse.py", "tools/h264nal.cc", "src/h264_dec_ref_pic_marking_parser.cc", "src/h264_ref_pic_list_modification_parser.cc"],
 [("reference marking", "tools/h264nal-dpb_parse.py simulate_dpb"), ("reference list", "tools/h264nal-dpb_parse.py build_ref_pic_list0, apply_rplm"), ("fields scraped from the dump", "tools/h264nal-dpb_parse.py parse_frames")], ["the CSV rows"],
 [("dpb", "pictures marked as used for reference, in decoding order", "tools/h264nal-dpb_parse.py simulate_dpb")])
prop("C24", "The small footprint build decodes exactly like the full one",
 "The small footprint configuration (no dumping, no error messages, no RTP), also with assertions compiled out, builds, and for every input it finds the same NAL units, decodes every structure to the same values, accepts and rejects the same structures, keeps the same parameter sets, reports the same offsets, lengths, parsed lengths and checksums, and counts the same unimplemented syntax as the full build; its command-line tool ends with the same exit status.",
 ["configurations", "inputs", "histories"], "every input and history of the properties above, in the small footprint configuration",
 "The unit tests run in the full configuration only; code under a conditional (a return inside an error message block, a counter inside a dump block) disappears from the other build without any test noticing.",
 ["src/CMakeLists.txt", "src/h264_sps_parser.cc", "src/h264_pps_parser.cc", "src/h264_slice_header_parser.cc", "src/h264_nal_unit_payload_parser.cc", "tools/h264nal.cc"],
 [("conditional error messages", "#ifdef FPRINT_ERRORS blocks in src/h264_*_parser.cc"), ("conditional dumping", "#ifdef FDUMP_DEFINE blocks in src/ and tools/h264nal.cc")], ["decoded values, verdicts, parameter set state, counter, exit status of the small build"])

NOTE = "Decided by generated-input search with an executable oracle; a clean run shows no violation among the cases explored, not absence. Trusts the reference walkers (harness/model.h), clang and its sanitizers. "
T = {
 "C01": ("fuzzing: random, mutated and structure-aware inputs under ASan/UBSan with CPU and allocation limits", "Oracle: sanitizers, time and memory limits."),
 "C02": ("property-based test against an independent splitter model", "Oracle: independent quadratic-time splitter."),
 "C03": ("property-based test: round-trip and byte-level model of emulation prevention", "Oracle: reference (un)escaper, and equality of escaped/unescaped entry points."),
 "C04": ("property-based and stateful model test of the bit reader/writer", "Oracle: bit-string model."),
 "C05": ("grammar-based generation, differential against a reference SPS walker", "Oracle: reference walker."),
 "C06": ("property-based test against the standard's formulas", "Oracle: independent 64-bit computation from the fields."),
 "C07": ("grammar-based generation, differential against a reference PPS walker", "Oracle: reference walker."),
 "C08": ("grammar-based generation, differential against a reference slice-header walker", "Oracle: reference walker under the generated parameter sets."),
 "C09": ("grammar-based generation, differential against reference SVC walkers", "Oracle: reference walker."),
 "C10": ("fault injection at every range-checked element and truncation point, differential", "Oracle: reference walker's verdict."),
 "C11": ("stateful model-based testing over NAL unit histories", "Oracle: reference parameter-set maps."),
 "C12": ("metamorphic test across framings plus an offset/length model", "Oracle: equality across framings, exact offsets."),
 "C13": ("differential test: RTP packets against direct NAL unit parsing", "Oracle: direct parse of the carried NAL units."),
 "C14": ("property-based test: dump tokens against the reference trace and struct values", "Oracle: reference trace; equality of the two forms."),
 "C15": ("property-based end-to-end test of the tool against a library-level model", "Oracle: library dump and a model of exit status and length table."),
 "C16": ("property-based test of the unimplemented counter against the reference verdict", "Oracle: reference walker's Unimplemented verdict. The silently skipped subset SPS extensions are a known finding and are excluded by class."),
 "C17": ("property-based test against an independent checksum and length model", "Oracle: independent checksum, reference bit position."),
 "C18": ("metamorphic test over interleavings, options, buffer placement, lifetimes and threads", "Oracle: equality of full decoded states."),
 "C19": ("property-based end-to-end test of the split tool", "Oracle: concatenation identity and model of cut points."),
 "C20": ("exhaustive-in-range generated table test against the standard's tables", "Oracle: tables retyped from the standard."),
 "C21": ("grammar-based generation, differential per structure parser, both call forms", "Oracle: reference walker and its bit position."),
 "C22": ("property-based end-to-end test of the summary tool", "Oracle: rows computed by the reference walkers from the generated NAL units; stand-in tools that fail in known ways."),
 "C23": ("stateful model-based end-to-end test of the DPB tool", "Oracle: reference model of clauses 8.2.4 and 8.2.5 for frames, driven by the same generated history. The order of a B picture's references when output order differs is a known finding."),
 "C24": ("grammar-based and stateful generation on the small footprint build, differential against the reference walkers", "Oracle: the same reference walkers and models as for the full build."),
}
have = json.load(open(os.path.join(HERE, "tools", "claimed.json")))
checks, na = [], []
for p in P:
    i = p["id"]
    if i in have:
        checks.append({"property": i, "quick_cmd": "python3 check.py run " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py run " + i,
                       "technique": T[i][0], "level": "fault_enumeration" if i == "C10" else "exploration", "level_note": NOTE + T[i][1]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
M = {"version": 1, "setup_cmd": "python3 check.py build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harnesses use the public API only. check.py builds from /repo's working tree into /verif/build (git-ignored)."}
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1); f.write("\n")
