#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay reviewable)."""
import json, os
R = "packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs"
G = "packages/optivorbis/src/remuxer/ogg_to_ogg/granulator.rs"
MG = "packages/optivorbis/src/remuxer/ogg_to_ogg/ogg_vorbis_stream_mangler.rs"
O = "packages/optivorbis/src/vorbis/optimizer.rs"
OD = "packages/optivorbis/src/vorbis/optimizer/"
CB = "packages/optivorbis/src/vorbis/codebook/"
BP = "packages/vorbis_bitpack/src/lib.rs"
CLI = "packages/optivorbis_cli/src/bin/optivorbis.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "A remux that succeeds is lossless and complete, however its I/O went",
  "Whenever a remux reports success, every Vorbis stream of the input appears in the output, in the same order, with the same identification data and decoder setup, and with every audio packet a decoder would decode, in the same order, decoding to exactly the same sequence of values as before. Nothing is lost, duplicated, reordered or altered, whatever codebooks, floors, residues, mappings, modes, block sizes, packet padding and page layout the input uses and however slowly or in however small pieces the source and the sink moved the bytes. Only packets that every decoder must ignore (empty, or ending before the block mode is known) may disappear. A stream that the Vorbis specification allows (with floor type 1) is never refused unless its I/O fails.",
  ["inputs", "schedules", "fault_sequences"],
  "For every valid Ogg Vorbis input (any stream setup and any number of chained streams), every fragmentation of reads and writes and every sequence of transient I/O faults the run survives.",
  "The tests remux ten real files from memory and compare a few header fields or that decoding works; the guarantee ranges over every setup header, every symbol sequence and every I/O schedule, and rare codebook shapes never occur in those files.",
  [R, OD + "audio_packet_common.rs", OD + "audio_packet_rewrite.rs", OD + "setup_header_parse.rs", OD + "setup_header_rewrite.rs", CB + "huffman_tree.rs", CB + "huffman_codeword_lengths.rs", BP],
  [("two-pass packet walk shared by analysis and rewrite", OD + "audio_packet_common.rs"), ("setup header reserialisation", OD + "setup_header_rewrite.rs"), ("canonical leftmost codeword assignment", CB + "huffman_tree.rs"), ("bit reader and writer", BP)],
  ["bytes accepted by the sink", "result of remux"])
p("C02", "Playback timing and sample counts survive, or are repaired",
  "In the output, the granule position of every page on which an audio packet ends equals the number of samples a decoder can return up to that packet plus the start offset the input's first audio page established (or plus zero when the caller asked to ignore start offsets), header pages carry zero, and pages on which no packet ends carry the 'no position' value. The final position of each stream is the input's own when it is plausible (it yields at least one and at most all samples of the final block), so lossless end trimming is kept exactly, and otherwise the position that plays the whole final block. A page that is both the first and the last with audio states the end, and establishes no start offset unless it carries a single audio packet. Wrong positions on other pages of the input are replaced by the correct ones.",
  ["inputs", "fault_sequences", "configurations"],
  "For every sequence of block sizes, every page layout, every start offset (negative, zero, positive, extreme), every final trimming, and every corruption of granule positions in the input, in every chained stream.",
  "Existing tests only check that granule positions of one or two files did not change; start offsets, implausible or damaged positions and dropped packets interact combinatorially.",
  [G, R],
  [("per-packet granule recomputation state machine", G), ("recording of the anchor packet of the first audio page", R)],
  ["granule field of output pages"],
  [("anchor", "granule position and number of the last kept packet of the first audio page", R), ("last written granule/block size", "running position", G)])
p("C03", "Everything written is a well-formed Ogg Vorbis file",
  "Whatever a successful remux writes parses as Ogg with no stray bytes: every page has a correct checksum, page numbers of each stream count up from zero without gaps, each stream has its begin mark only on its first page and its end mark only on its last page, streams follow one another without interleaving, and continued-packet marks agree with the data. The identification header is alone on the first page, the setup header ends its page so that audio starts on a fresh one, and the three headers have the layout, version, framing and sizes that the Vorbis specification demands. This holds even when the input omitted the end mark, padded its headers, or had wrong framing bits or page numbers.",
  ["inputs", "fault_sequences", "configurations"],
  "For every accepted input, including damaged ones that are repaired, and all settings.",
  "The tests look at a handful of files, chiefly with the same Ogg library that wrote them; the page structure depends on packet sizes and counts (255-segment boundaries, multi-page packets, chains) that the samples do not vary.",
  [R, OD + "identification_header_copy.rs", OD + "comment_header_copy.rs", OD + "setup_header_rewrite.rs"],
  [("page end decisions by packet number and by the packet count of the first pass", R), ("header regeneration", OD + "comment_header_copy.rs")],
  ["bytes accepted by the sink"])
p("C04", "I/O failures stop the remux, are reported, and leave a clean prefix",
  "If any read, seek or position query on the source fails, or any write to the sink fails or makes no progress, the remux returns an error that carries the underlying I/O failure; it never reports success, never panics and never keeps reading or writing after the failure. Everything the sink accepted up to that moment is exactly a prefix of what a failure-free run would have written. A failure while the input is first examined means that nothing at all was written.",
  ["fault_sequences", "crash_points", "schedules"],
  "For every operation index at which a source or sink operation can fail, every error kind (other than the end-of-file kind, which the source uses to say that it ended), and combinations with short reads, short writes and interruptions.",
  "Unit tests use in-memory cursors that never fail; there are thousands of failure points per file.",
  [R],
  [("error propagation with the question mark operator through both passes", R), ("first pass completes before the packet writer exists", R)],
  ["result of remux and its error chain", "bytes accepted by the sink", "operations issued after the failure"])
p("C05", "Output bytes do not depend on how the bytes were delivered",
  "For a given input, settings and source of randomness, the bytes written are identical however the source fragments its reads, however the sink fragments or interrupts its writes, and wherever in a larger source the Ogg data starts, as long as the source is positioned at that start when the remux is called. Data located before the starting position never influences the result.",
  ["schedules", "inputs", "fault_sequences"],
  "For every fragmentation of reads and writes, every pattern of interrupted or partial writes, and every starting position.",
  "Cursors deliver everything at once from position zero, so no test sees another schedule.",
  [R],
  [("rewinding to the remembered starting position", R), ("exact reads and complete writes", R)],
  ["bytes accepted by the sink"])
p("C06", "Damaged pages never leak through verification, and are repaired without it",
  "With checksum verification on (the default), an input in which any byte of any page that takes part in the remux was altered, other than in the four-byte capture pattern, is rejected with an error instead of producing output from damaged data. With verification off, a page whose only damage is its checksum field is accepted, and the output is, with the same stream serials, byte for byte what the undamaged file would have produced. Either way the output never contains a wrong checksum.",
  ["fault_sequences", "inputs", "configurations"],
  "For every page, every byte position in it and every bit pattern of damage; single and multiple flips.",
  "One test file has one wrong checksum; damage can be anywhere in any page of any stream, including pages of ignored streams and pages already read in an earlier pass.",
  [R],
  [("page parsing options shared by both passes", R)],
  ["result of remux", "bytes accepted by the sink"])
p("C07", "A file cut off at any byte yields an error or exactly the intact packets",
  "If the input ends early, at any byte, the remux either returns an error or succeeds with exactly the audio packets that lie completely within the complete pages before the cut, with correct timing and a proper end mark. A cut that falls between two pages, once the headers are complete, always succeeds. No partial packet is ever emitted.",
  ["crash_points", "inputs"],
  "For every cut position in every input (recording interrupted by a crash, full disk, broken download).",
  "No existing test truncates a file; there are as many cut points as bytes.",
  [R, G],
  [("last packet determined by the count made in the first pass, not by the end mark", R), ("final granule plausibility test", G)],
  ["result of remux", "bytes accepted by the sink"])
p("C08", "Arbitrary damage never causes a panic, a hang or malformed output",
  "For arbitrary bytes as input, including streams damaged inside their headers and audio data behind valid checksums, a remux finishes without panicking, aborting or overflowing the stack, and uses an amount of source operations and computing time that is bounded by the size of the input and of the codebooks it declares. If it reports success, what it wrote is a well-formed file; unless it has audio packets that were already cut short in the input, it can itself be remuxed successfully.",
  ["inputs", "fault_sequences"],
  "For every byte string, and in particular for every combination of bit flips, field edits, dropped, duplicated, reordered and torn pages applied to valid streams.",
  "Only a fuzz target without recorded corpus or oracle exists upstream; unit tests feed valid files.",
  [O, OD + "setup_header_parse.rs", OD + "audio_packet_common.rs", G, CB + "huffman_tree.rs", R],
  [("bounds checks while parsing the setup header", OD + "setup_header_parse.rs"), ("wrapping and saturating granule arithmetic", G), ("end-of-packet handling", OD + "audio_packet_common.rs")],
  ["result of remux", "process survival", "operation and time budgets"])
p("C09", "Remuxers carry nothing over between runs, and remuxing twice changes nothing",
  "Using one remuxer for any sequence of inputs, including ones that fail half way through, gives for each input exactly the result and bytes that a brand new remuxer with the same settings would give with the same randomness. Remuxing the output again with the same fixed stream serials reproduces it byte for byte, so optimization reaches its fixed point in one run; this excepts streams with audio packets that were cut short, with a vendor string that was torn away, or whose start offset the output can no longer show because all its audio fits on a single page.",
  ["histories", "fault_sequences", "inputs"],
  "For every sequence of remuxes (successes, rejected inputs, I/O failures at any point) on one remuxer, and for every successful output outside those exceptions.",
  "Tests build a new remuxer for each file and never remux an output.",
  [R, OD + "comment_header_parse.rs", CB + "huffman_codeword_lengths.rs"],
  [("per-run stream state", R), ("tag appended only if absent", OD + "comment_header_parse.rs"), ("deterministic codeword assignment", CB + "huffman_tree.rs")],
  ["bytes accepted by the sink", "result of remux"],
  [("settings cell", "settings and mangler borrowed for the duration of a run", R)])
p("C10", "Concurrent remuxes do not interfere",
  "Any number of remuxes running at the same time in one process, each with its own remuxer, produce what they would produce if they had run one at a time in some order: without reproducible serials each is byte-identical to its solo run with the same randomness, and with reproducible serials the serials handed out are those of some sequential order. None of them deadlocks, panics or is affected by another one failing.",
  ["schedules", "histories", "fault_sequences"],
  "For every interleaving of the threads at I/O, entropy, logging and lock operations, with failures injected in some of the remuxes.",
  "There is no concurrent test; the shared generator state is only reachable in one process with several remuxes.",
  [R],
  [("process-wide generator behind a mutex", R)],
  ["bytes accepted by each sink", "results", "progress of every thread"],
  [("process-wide serial generator", "initialised by the first user, advanced by each remux", R)])
p("C11", "SOURCE_DATE_EPOCH makes runs reproducible; missing entropy never blocks a remux",
  "With a valid SOURCE_DATE_EPOCH (a signed decimal integer of up to 128 bits), a process that performs the same sequence of remuxes writes the same bytes every time, whatever the clock, the entropy source and the I/O timing do, and does not consult the system entropy source or the clock for serials. An invalid value makes a remux that randomizes serials fail with the dedicated error before anything is written, and has no effect on one that does not randomize. Without the variable, a failing entropy source never fails the remux. A library built without its default features does not look at the variable, and does in all other respects what the default build does when the variable is not set. In all cases the remuxes of one process that draw from the process-wide generator are given different serials.",
  ["histories", "fault_sequences", "configurations"],
  "For every value of the variable, every history of remuxes in the process, clock jumps (including before 1970) and entropy failures at any call.",
  "The tests cannot restart the process-wide generator, fake the clock or fail the entropy source.",
  [R],
  [("seeded generator mixed with the checksum of the processed pages", R), ("fallback generator seeded from the clock", R)],
  ["serials in the output", "calls made to entropy and clock"],
  [("process-wide serial generator", "seeded once per process", R)])
p("C12", "Stream serials are unique, and follow the configured offset",
  "The output streams of one remux have pairwise distinct serials. Without randomization they are the configured first serial and its successors, modulo 2^32, in stream order; with randomization, the offset is added (modulo 2^32) to random serials drawn afresh for each remux. When serials are fixed or come from the entropy source, the serials of the input never influence the output, whatever their values.",
  ["inputs", "configurations", "histories"],
  "For every number and order of chained streams, every offset including those that wrap around, every random draw, and every choice of input serials.",
  "Tests remux at most a two-stream chain with one draw of the random source.",
  [R],
  [("serial derived from stream index, first serial and odd increment", R)],
  ["serial field of output pages"])
p("C13", "The command-line program never reports success after losing data",
  "If opening, reading or seeking the input, or creating or writing the output file or standard output fails at any point, including the very last buffered bytes, the program prints a message on standard error and exits with a non-zero status (an interrupted read or seek may instead be repeated). If it exits with status zero, the output contains the complete result, identical to what the library writes for the same input and options. It never crashes or exits by a panic, and a run that was killed at any point does not disturb the next one.",
  ["fault_sequences", "crash_points", "schedules"],
  "For every system call that the program issues on its files and every failure of it (full disk, I/O error, interruption, short transfer), for files and for standard output.",
  "The program has no tests at all, and disk failures cannot be provoked by calling functions.",
  [CLI],
  [("buffered output handed to the remuxer", CLI), ("exit status from the result", CLI)],
  ["exit status", "standard error", "contents of the simulated disk"])
p("C14", "The command-line program touches only its output, and honours every option",
  "The program opens its input only for reading, writes to no file other than the output named on the command line (nothing at all on a usage error, if there is no input file, or when the output is standard output), and produces for every combination of options exactly what the library produces with the corresponding settings. Invalid option names or values, and missing files, produce a non-zero exit status and a message. If a remuxer option is repeated, its first value counts. With the quiet option, nothing but the Ogg data is written to standard output; without it, a greeting comes before the data. An output that is also the input is outside this property.",
  ["configurations", "inputs", "fault_sequences"],
  "For every combination of options, option spellings and repeated options, output names and input files.",
  "The program has no tests; the option space is combinatorial.",
  [CLI],
  [("option table and mapping to settings", CLI)],
  ["trace of system calls on the simulated disk", "contents of the simulated disk", "exit status"])
p("C15", "Vendor and comment actions do exactly what was asked, also on torn headers",
  "With the default settings, every user comment is kept byte for byte, in order, whatever bytes it contains, and a tag is appended to the vendor string unless it already ends with one; every other action keeps, replaces, tags, shortens or empties exactly the part it names. A comment header cut off at any byte does not fail the remux: the comments and vendor string that are complete are kept, everything from the cut on is dropped, and a complete valid comment header is written. These actions never change the audio.",
  ["inputs", "configurations", "crash_points"],
  "For every pair of actions, every vendor and comment content (empty, huge, not UTF-8, already tagged) and every cut point of the comment header.",
  "Tests cover a few strings with intact headers only.",
  [OD + "comment_header_parse.rs", OD + "comment_header_copy.rs"],
  [("checked slicing of the comment header", OD + "comment_header_parse.rs"), ("regeneration of the comment header", OD + "comment_header_copy.rs")],
  ["comment header packet of the output"])
p("C16", "The bit packer writes and reads exactly the bits it was asked to",
  "Any sequence of writes of integers (of any value and any width from 0 to 32 bits), flags and floats, with finalizations in between, produces exactly the concatenation of the least significant bits of each value, least significant bit first, with zero padding up to a byte boundary only where the writer was finalized or dropped. Any sequence of reads with any widths returns exactly the corresponding bits of the source, signed reads extend the sign, and reading past the end reports an end-of-file error. Delivery in pieces and interruptions of the underlying source or sink never change the bits, and a failure of the underlying source or sink is reported, with and without the standard library. A reader takes no more bytes from its source than the bits it returned need. A width of more than 32 bits cannot be made.",
  ["histories", "inputs", "fault_sequences"],
  "For every sequence of operations, values, widths and alignments, and every I/O schedule and failure underneath.",
  "The tests write a few fixed sequences at a few alignments into vectors that cannot fail.",
  [BP],
  [("pending byte of the writer", BP), ("remaining bits of the reader", BP)],
  ["bytes accepted by the sink", "values returned"],
  [("pending byte and count", "bits not yet written or read", BP)])
p("C17", "The packet-level optimizer agrees with itself across its two passes",
  "When the packets of a Vorbis stream are handed first to the analysis and then those that it accepted, in the same order, to the optimization of the packet-level interface, both passes accept or reject, discard or keep the same packets and report the same block size for each, and the optimized packets form a stream that decodes to the same values. The result does not depend on whether packets are handed over as borrowed or owned data, and several optimizers used in turns do not affect one another. A packet that the analysis rejects leaves the optimizer able to continue with the following packets.",
  ["histories", "inputs", "schedules"],
  "For every stream, every interleaving of several optimizers, and every position of malformed packets among good ones.",
  "The tests drive the interface with the packets of a sample file or two, in one fixed pattern.",
  [O, OD + "audio_packet_analyze.rs", OD + "audio_packet_rewrite.rs"],
  [("state machine of analysis and optimization states", O)],
  ["return values of the packet-level interface"],
  [("optimizer state", "which header or pass comes next", O)])
p("C18", "A mangler sees every value once per packet and has the final say",
  "A user-supplied mangler is asked once per stream for the sampling frequency and bitrates and once per written packet for serial, page end and granule position, with the values that would otherwise have been used, the correct packet number counted from zero per stream, and the header and last-packet marks set exactly when true. What it returns is what is written, and a mangler that returns its arguments gives byte for byte the output of the built-in one. Its state survives from one remux to the next even if one of them fails.",
  ["histories", "inputs", "configurations"],
  "For every input, mangler behaviour and sequence of remuxes.",
  "No test supplies a mangler.",
  [MG, R],
  [("mangler call sites of both passes", R)],
  ["arguments received by a recording mangler", "bytes accepted by the sink"])
p("C19", "Each output codebook is an optimal prefix code for what the stream uses",
  "In the output, each codebook gives codewords to exactly the entries that the audio packets of that stream use, and the total number of bits spent on its entries in the whole stream is the minimum that any prefix code can achieve for their frequencies (one bit per use if only one entry is used), or within a thousandth of it for frequencies so uneven that it would take codewords of more than 32 bits. All other parts of the codebooks are unchanged, including the exact bit pattern of the lookup parameters, and no codeword is longer than 32 bits.",
  ["inputs", "histories"],
  "For every distribution of entry frequencies over the whole history of packets in a stream, chained streams being independent of one another.",
  "Tests check one textbook frequency table; the frequencies come from the complete history of the stream.",
  [CB + "huffman_codeword_lengths.rs", CB + "huffman_tree.rs", CB + "mod.rs", OD + "setup_header_rewrite.rs"],
  [("frequency recording while decoding", CB + "mod.rs"), ("in-place minimum-redundancy code lengths", CB + "huffman_codeword_lengths.rs")],
  ["setup header and audio packets of the output"])
p("C20", "An input that changes between the two passes is detected",
  "If the source delivers different data when it is read for the second time (a file that grows, shrinks or is overwritten while it is processed), the remux does not panic, and does not report success for an output that is missing packets, continues after its end mark or otherwise is not a well-formed, complete file.",
  ["schedules", "fault_sequences"],
  "For every point in time and every kind of change: appended pages, truncation at any byte, replaced packets, another valid stream.",
  "In-memory test data never changes between passes.",
  [R, OD + "audio_packet_rewrite.rs"],
  [("packet counts and frequencies of the first pass", R)],
  ["result of remux", "bytes accepted by the sink"])
p("C21", "Streams are selected correctly: Vorbis kept, others dropped, grouping refused",
  "Logical streams that are not Vorbis are left out, wherever they start and however their pages are interleaved with the others, without changing what is written for the Vorbis streams. A Vorbis stream that starts before the previous Vorbis stream ended is refused with the dedicated error rather than merged or interleaved, and any number of properly chained ones is accepted. An input with no Vorbis stream gives the dedicated error, or success with an empty output when the caller allowed that.",
  ["inputs", "configurations", "schedules"],
  "For every number, kind, order and page interleaving of logical streams.",
  "The tests contain one skeleton file and one Opus file.",
  [R],
  [("classification of begin-of-stream packets and tracking of the stream in progress", R)],
  ["result of remux", "bytes accepted by the sink"])
p("C22", "The browser build behaves like the native library",
  "The WebAssembly build, called through its JavaScript bindings with any sequence of inputs on any number of remuxers of one page, writes for each of them the bytes that the native library writes with default settings and the same randomness, and throws an exception with the same message where the native library returns an error. It never aborts where the native library does not, and a failing crypto.getRandomValues never fails a remux, nor does it repeat serials on that page.",
  ["inputs", "histories", "fault_sequences"],
  "For every sequence of inputs and every pattern of entropy failures.",
  "No test compiles or runs the bindings, and none runs with 32-bit addresses.",
  ["packages/optivorbis/src/wasm_bindings.rs", R],
  [("bindings wrapper", "packages/optivorbis/src/wasm_bindings.rs"), ("fallback generator for serials", R)],
  ["result of OggToOgg.remux in JavaScript"])
p("C23", "Codebook float conversion is exact for every representable value",
  "Converting any 32-bit codebook float word with a normalised mantissa to a native float and back returns the same word, and the native value is exactly the value the specification assigns.",
  ["inputs"],
  "For every one of the 2^32 words.",
  "An ignored test samples words with step 3 and compares only the numeric value.",
  [BP],
  [("float packing and unpacking", BP)])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
