#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the wording is reviewed in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
BP = "packages/vorbis_bitpack/src/lib.rs"
O = "packages/optivorbis/src/"
V = O + "vorbis/optimizer/"
R = O + "remuxer/ogg_to_ogg/"

p("B01", "Bit-packed values survive a write/read round trip",
  "Any sequence of unsigned integers and flags written with the bit packer at any legal widths and then aligned and flushed is read back with the same widths as exactly the same values. The output is exactly the number of bits written rounded up to whole bytes, laid out least-significant-bit first, and the padding bits are zero.",
  ["inputs", "histories"], "every sequence of (width, value) writes with widths 0..=32, at every bit alignment, with flags and alignment operations interleaved",
  "The unit tests write a handful of fixed sequences; a defect at one (alignment, width, value) combination is invisible to them.",
  [BP], [("BitpackWriter::write_unsigned_integer / write_flag / flush", BP), ("BitpackReader::read_unsigned_integer", BP)])
p("B02", "The bit reader decodes any byte string exactly as the Vorbis spec says",
  "For every byte string and every sequence of read operations, the bit reader returns the value obtained by consuming bits least significant bit first, with signed values sign-extended in two's complement. Up to and including the first read that asks for more bits than remain, a read reports end of data exactly when fewer bits remain than were requested, and a value narrower than requested never leaks stale or out-of-range bits.",
  ["inputs", "histories"], "every byte string and every sequence of unsigned, signed and flag reads of widths 0..=32",
  "Existing tests read a few fixed buffers; end-of-data exactness and bit positions depend on the combination of all previous widths.",
  [BP], [("BitpackReader", BP), ("sign_extend, ones_mask", BP)])
p("B03", "Vorbis 32-bit floats unpack exactly and repacking preserves their value",
  "Unpacking any 32-bit Vorbis float word gives the exact real number mantissa x 2^(exponent-788) with its sign. Packing the unpacked number again yields a word that denotes the same number.",
  ["inputs"], "all 2^32 words (all signs, exponents and mantissas, normalised or not, including zero)",
  "Tests pick a few words; codebooks of real encoders use few of the 2^32 words, and a rounding or normalisation slip affects isolated words.",
  [BP], [("float32_unpack, float32_pack", BP), ("vector quantisation minimum/delta", V + "setup_header_rewrite.rs")])
p("V01", "Identification headers are validated and re-emitted faithfully",
  "An identification header is accepted exactly when it is a Vorbis I identification header: version 0, at least one channel, non-zero sample rate, and block sizes that are powers of two from 64 to 8192 with the short one not above the long one. The header written for an accepted stream is 30 bytes and carries the same version, channel count, sample rate, bitrates and block sizes with the framing bit set; whatever is rejected yields an error and never output.",
  ["inputs"], "every packet presented as first packet, of any length and content",
  "The tests feed headers from a few well-formed files; acceptance boundaries and each field bit need the whole input space.",
  [O + "vorbis/optimizer.rs", V + "identification_header_copy.rs"],
  [("VorbisOptimizer::new", O + "vorbis/optimizer.rs"), ("IdentificationHeaderCopy", V + "identification_header_copy.rs")])
p("V02", "Comment headers follow the configured actions and otherwise keep every byte",
  "With the copy actions, the rewritten comment header contains the same vendor string and the same user comments, byte for byte and in the same order, including empty and non-UTF-8 ones. With the other actions the vendor string or comment list is emptied, replaced or extended with exactly the documented tag, never tagging an already tagged string twice, and header data cut short by the end of the packet is turned into a well-formed header with consistent lengths and a set framing bit.",
  ["inputs", "configurations"], "every comment header packet (any counts, lengths, contents, truncation point) under every combination of vendor and comment actions",
  "The tests use the comment headers of sample files under default settings; truncation points, odd lengths and action combinations are not exercised.",
  [V + "comment_header_parse.rs", V + "comment_header_copy.rs"],
  [("CommentHeaderParse", V + "comment_header_parse.rs"), ("CommentHeaderCopy", V + "comment_header_copy.rs")])
p("V03", "The rewritten setup header describes the same decoder configuration",
  "Apart from codebook codeword lengths, decoding the rewritten setup header as the Vorbis specification says gives the same configuration as the original one: codebook dimensions, entry counts and vector quantisation tables, floors, residues, mappings and modes, in the same order. It is a well-formed setup header that can itself be parsed again.",
  ["inputs"], "every valid setup header: every codebook lookup type, entry ordering and sparseness, floor shape, residue type and cascade, mapping submaps and couplings, modes",
  "Encoders in the wild produce only a few fixed setup headers, so the sample files never reach most syntactic variants (lookup type 2, multi-submap mappings, high cascade bits and so on).",
  [V + "setup_header_parse.rs", V + "setup_header_rewrite.rs", O + "vorbis/codebook/mod.rs"],
  [("SetupHeaderParse", V + "setup_header_parse.rs"), ("SetupHeaderRewrite", V + "setup_header_rewrite.rs"), ("VorbisCodebook", O + "vorbis/codebook/mod.rs")])
p("V04", "Setup headers that a decoder must refuse are refused",
  "A setup header that no decoder could use - a wrong packet type, codeword lengths that overpopulate the tree or exceed 32 bits, entry counts that do not add up, out-of-range codebook, floor, residue, mapping, channel or submap numbers, a classbook with too few entries, repeated or too many floor points, unsupported floor, residue, mapping or lookup types, or a packet cut short - is reported as an error, so that no output is produced from it. A header that follows the Vorbis specification (with floor type 1) is never rejected; mere blemishes that do not hinder decoding, such as bad sync patterns, underpopulated codeword trees, non-zero reserved values or a missing framing bit, may be tolerated.",
  ["inputs"], "every byte string presented as a setup header following a valid identification header",
  "There are no negative tests for most of the rules; each rule needs its boundary values checked in combination with the rest of the header.",
  [V + "setup_header_parse.rs", O + "vorbis/codebook/huffman_tree.rs"],
  [("SetupHeaderParse validation", V + "setup_header_parse.rs"), ("VorbisHuffmanTree::try_from_codeword_lengths", O + "vorbis/codebook/huffman_tree.rs")])
p("V05", "Optimised codeword lengths are an optimal, decodable Huffman code",
  "In each rewritten codebook, exactly the entries used by the kept audio packets get a codeword, of 1 to 32 bits, and the lengths form a full prefix code as the Vorbis specification demands (or the permitted single one-bit codeword). Weighted by how often each entry is used, no other such code (with codewords of at most 32 bits) spends fewer bits.",
  ["inputs", "histories"], "every stream, that is every number of entries and every vector of entry usage counts",
  "Tests check a few frequency tables; optimality and completeness must hold for every multiset of counts, including ties, zeros, single symbols and skewed counts.",
  [O + "vorbis/codebook/huffman_codeword_lengths.rs", V + "audio_packet_analyze.rs", V + "setup_header_rewrite.rs"],
  [("optimal codeword length computation", O + "vorbis/codebook/huffman_codeword_lengths.rs"), ("entry usage counting", V + "audio_packet_analyze.rs")])
p("V06", "Optimised audio packets decode to exactly the same audio",
  "For every kept audio packet that is not cut short, decoding the rewritten packet with the rewritten headers as the Vorbis specification says yields the same mode, window flags, floor values and residue entries, in the same order, as decoding the original packet with the original headers.",
  ["inputs", "histories"], "every sequence of audio packets of every stream: floors, residue types 0 to 2, coupled and multi-submap channels, long and short windows",
  "Tests decode a few sample files produced by one encoder family; losslessness must hold for every packet content and stream configuration.",
  [V + "audio_packet_common.rs", V + "audio_packet_rewrite.rs", O + "vorbis/codebook/huffman_tree.rs"],
  [("audio packet walk", V + "audio_packet_common.rs"), ("AudioPacketRewrite", V + "audio_packet_rewrite.rs"), ("Huffman decode/encode", O + "vorbis/codebook/huffman_tree.rs")])
p("V07", "Optimisation never makes the audio data bigger",
  "For every stream whose audio packets are not cut short, the total number of bits of the kept audio packets after optimisation is at most the number of meaningful bits they had before, and unused trailing data of a packet is dropped.",
  ["inputs", "histories"], "every sequence of audio packets of every stream",
  "Tests compare sizes of a few sample files only; a suboptimal or inconsistent code shows up only for particular usage counts.",
  [V + "audio_packet_rewrite.rs", O + "vorbis/codebook/huffman_codeword_lengths.rs"],
  [("AudioPacketRewrite", V + "audio_packet_rewrite.rs"), ("optimal codeword lengths", O + "vorbis/codebook/huffman_codeword_lengths.rs")])
p("V08", "Only packets without audio are dropped, and both passes agree",
  "An audio packet is dropped exactly when it ends before its mode and window information is complete, which includes empty packets. A packet of another type or with an undefined mode in the audio part of the stream is reported as an error by the analysis. The analysis and the rewriting pass make the same decision for every packet and report the same block size, which is the one the packet's mode selects.",
  ["inputs", "histories"], "every packet content after the headers, every mode configuration",
  "Sample files contain no degenerate packets; the agreement of the two passes is a relation over all packets.",
  [O + "vorbis/optimizer.rs", V + "audio_packet_common.rs", V + "audio_packet_analyze.rs", V + "audio_packet_rewrite.rs"],
  [("VorbisOptimizer::analyze_packet / optimize_packet", O + "vorbis/optimizer.rs"), ("audio packet walk", V + "audio_packet_common.rs")])
p("V09", "Untrusted stream data never crashes the optimizer",
  "Whatever bytes the packets of a stream contain, analysing and optimising them either succeeds or returns an error; it never panics, overflows or loops forever.",
  ["inputs", "histories"], "every sequence of packets handed over in stream order",
  "The fuzz target samples this space; only exploring all values of the decisive fields settles it.",
  [O + "vorbis/optimizer.rs", V + "setup_header_parse.rs", V + "audio_packet_common.rs", V + "comment_header_parse.rs"],
  [("packet parsers", V)])
p("O01", "Granule positions give the right playback positions",
  "Header pages have granule position zero. An audio page gets the position of the last packet that ends in it: the sum of a quarter of the block sizes of each packet and its predecessor, starting at zero. The offset implied by the last packet of the source's first audio page (if it is not the last of several packets, in which case it tells the end) is added from that packet on unless the settings ask to ignore it, and the end position of the source is kept (shifted likewise) when it cuts the last packet short by less than all its samples, else the full count is used. A page ends where the source's first audio page did exactly if there is such an offset to tell and more audio follows.",
  ["inputs", "histories", "configurations"], "every sequence of block sizes, page layouts, dropped packets, source granule positions (of magnitude below 2^60; beyond, only that a result is produced) and both settings of the start offset option",
  "Tests use a few well-formed files with ordinary positions; negative, huge or corrupt positions and page layouts are combinations no sample set covers.",
  [R + "granulator.rs", R + "mod.rs"], [("granule_position_for_packet", R + "granulator.rs"), ("first pass bookkeeping", R + "mod.rs")])
p("O02", "Stream serials are distinct, stable within a stream and derived as configured",
  "All pages of an output stream carry the same serial and different Vorbis streams of a file get different serials. Without randomisation the serials are the configured offset plus the stream's index; with it, they are an arithmetic progression with an odd step starting at a random 32-bit number plus the offset, all modulo 2^32.",
  ["inputs", "configurations"], "every serial offset, every random draw and every number of chained streams",
  "Tests run one random draw each; wrap-around and step collisions appear only for particular draws.",
  [R + "mod.rs"], [("random_stream_serial_and_increment", R + "mod.rs"), ("second_pass", R + "mod.rs")])
p("O03", "The output is a well-formed Ogg Vorbis stream with every kept packet in order",
  "For files whose Vorbis streams have their three headers, the output contains, for every Vorbis stream in source order, its three headers and all its kept audio packets in their original order and nothing else. The identification header has the first page for itself, the setup header ends its page, the first page is marked as beginning of stream and exactly the page of the last kept packet as end of stream, whether or not the source marked it, with consecutive page sequence numbers and correct checksums. Apart from the headers, the end and a start offset (O01), pages are filled to 255 segments.",
  ["inputs", "histories"], "every packet sequence, page layout (packets and headers sharing or spanning pages), presence or absence of end-of-stream marks, and dropped packets anywhere including the last",
  "The test files are well-formed; missing end marks, dropped final packets and unusual page layouts are not sampled.",
  [R + "mod.rs"], [("second_pass", R + "mod.rs")])
p("O04", "Foreign, chained and multiplexed streams are handled as documented",
  "Logical streams whose first packet does not begin like a Vorbis identification header are left out without affecting the Vorbis ones, and chained Vorbis streams are all kept in order. A Vorbis stream starting before the last packet of the previous one, on a page marked as end of stream, was read is reported as unsupported multiplexing, a corrupt identification header as an error, and a file without Vorbis streams as an error or an empty output as the settings say. A wrong page checksum is an error of the container exactly if checksums are to be verified.",
  ["inputs", "configurations"], "every interleaving of the pages of Vorbis and non-Vorbis logical streams, with and without end-of-stream marks, every content of foreign first packets, every checksum difference, all settings",
  "Tests cover one grouped and one chained file; the interleavings of beginnings, ends and foreign pages are not enumerated.",
  [R + "mod.rs"], [("first_pass", R + "mod.rs"), ("second_pass", R + "mod.rs")])
p("O05", "Remuxing starts at the source's current position in both passes",
  "Whatever position the source is at when remuxing starts, both passes read from that position, so that data before it has no influence and the result equals that of a source holding only the remaining data.",
  ["inputs"], "every prefix length and content, every stream after it",
  "Tests always start at offset zero.",
  [R + "mod.rs", O + "remuxer.rs"], [("OggToOgg::remux", R + "mod.rs")])
p("O06", "User manglers see true values and have the final say",
  "The stream mangler is called once per stream with the true sampling frequency and bitrates, and once per written packet with the computed serial, page end mark and granule position and the true packet number, header and last-packet flags. What it returns, and nothing else, appears in the output: header fields, page boundaries, serials, end-of-stream marks and granule positions; the built-in pass-through mangler changes nothing.",
  ["inputs", "configurations"], "every mangler return value and every packet sequence",
  "Only the pass-through mangler is used in the tests.",
  [R + "mod.rs", R + "ogg_vorbis_stream_mangler.rs"], [("OggVorbisStreamMangler", R + "ogg_vorbis_stream_mangler.rs"), ("first_pass / second_pass", R + "mod.rs")])
p("O07", "Remuxing is reproducible and idempotent",
  "With a fixed serial policy the output depends only on the input bytes and the settings, also when the same remuxer is used again. Optimising an already optimised file, none of whose audio packets was cut short in the source, with the same settings gives the same packets in the same pages with the same positions.",
  ["inputs", "histories"], "every input file",
  "Tests do not compare two runs; dependence on hash order, leftover state or non-canonical output shows up only on particular inputs.",
  [R + "mod.rs", V + "setup_header_rewrite.rs", O + "vorbis/codebook/huffman_codeword_lengths.rs"],
  [("OggToOgg::remux", R + "mod.rs"), ("codeword length computation", O + "vorbis/codebook/huffman_codeword_lengths.rs")])
p("O08", "SOURCE_DATE_EPOCH makes randomised serials reproducible",
  "With randomised serials and the environment variable SOURCE_DATE_EPOCH set to an integer (decimal digits with an optional sign), neither system randomness nor the clock is consulted, so what a process produces depends only on the variable, the settings and the files. Any other value is reported as invalid and nothing is written. Without the variable, serials come from the system's random source, or if that fails still form a progression of distinct serials. Without randomisation the variable has no effect.",
  ["inputs", "configurations", "fault_sequences"], "every value of the variable, every random draw, a failing random source, every offset and number of chained streams",
  "No test sets the variable or lets the random source fail.",
  [R + "mod.rs"], [("random_stream_serial_and_increment", R + "mod.rs")])
p("O09", "Errors of the source and the sink are never swallowed",
  "If any read or seek of the source or any write to the sink fails (or a write takes nothing), remuxing ends with that error, never with success, and what was written by then is a beginning of the right output. How many bytes the source gives or the sink takes at a time does not matter.",
  ["inputs", "fault_sequences"], "every call to the source or sink at which a failure can happen, every error kind but Interrupted, every file, every chunking of reads and writes",
  "Tests read from and write to memory, which never fails and never gives less than was asked for.",
  [R + "mod.rs"], [("OggToOgg::remux, first_pass, second_pass", R + "mod.rs")])
p("O10", "Damaged containers never crash the remuxer nor yield malformed files",
  "Whatever happened to the pages of a file - wrong marks, lengths, numbers or serials, lost, repeated, reordered, cut or foreign data between them - remuxing returns an error or a file, and never panics. A file it returns is made of well-formed "
  "pages with right checksums, numbers and stream marks, and holds for every Vorbis stream exactly the optimised form of the packets that the damaged container still holds for it.",
  ["inputs"], "every damage to every page, with checksums not verified (or made right again)",
  "Tests use sound files and flip single checksum bytes.",
  [R + "mod.rs"], [("first_pass, second_pass", R + "mod.rs")])
p("C01", "The command-line program does what its arguments say and reports every failure",
  "Called with an input file, an output file (or - for the standard output) and options, the command-line program writes exactly what the remuxer and optimizer produce with the settings that the options document, "
  "and exits with status 0. Whenever anything goes wrong - invalid options, wrong file arguments, a file that cannot be opened, an unsound or foreign input, an error while reading, seeking, writing or flushing - "
  "it exits with a non-zero status and explains the failure on the standard error stream; arguments that are not valid Unicode are no exception. Nothing but the output goes to the standard output when it is the "
  "output; a quiet run prints nothing but errors; -h and --version print information and touch no file.",
  ["inputs", "configurations", "fault_sequences"], "every combination of options and every input or output fault",
  "There are no tests of the command-line program.",
  ["packages/optivorbis_cli/src/bin/optivorbis.rs"], [("main / run / remux", "packages/optivorbis_cli/src/bin/optivorbis.rs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
