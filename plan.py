"""What each check runs: entries of the harness, their bounds and the situations that must be reached."""

ENTRY_INFO = {
    "h_b01_roundtrip": {
        "bounds": "two rounds of writes with an alignment in between: any starting bit position, kinds unsigned/signed/flag, widths 0..=32, all 32-bit values",
        "covers": ["round trip"],
    },
    "h_b02_read": {
        "bounds": "all byte strings up to the given length, the given number of reads of any kind and width 0..=32",
        "covers": ["all read", "end of data"],
    },
    "h_b03_float": {"bounds": "all 2^32 float words", "covers": ["float"]},
    "h_v01_ident": {"bounds": "all packets up to the given length", "covers": ["copied", "refused"]},
    "h_v02_any": {"bounds": "all packets up to the given length, all settings", "covers": ["any bytes", "refused"]},
    "h_v02_structured": {
        "bounds": "vendor strings up to the given length, up to the given number of comments of 0..=2 bytes, all contents, a symbolic trailing byte, cut at every length, all settings",
        "covers": ["structured", "with comments"],
    },
    "h_v02_tags": {
        "bounds": "vendor strings made of a symbolic prefix up to the given length, a tag with its separator with any byte altered to any value and up to three leading bytes missing, and up to one more byte; all settings",
        "covers": ["already tagged", "not tagged"],
    },
    "h_set_books": {
        "bounds": "setup headers with a tested codebook before or after another one; lengths part: up to n entries in dense, sparse and ordered form, every length "
                  "1..=32 of the first entries and lengths 1..=3 of the others, every dimension count; lookup part: every lookup type 0..=15, dimensions 0, 1, 2, 3, 65535, "
                  "value widths 1, 7, 16 (all for up to one entry), all multiplicands, special float words (all floats: B03)",
        "covers": ["accepted"],
    },
    "h_set_floors": {
        "bounds": "one or two floors of up to three partitions (see parts in e_setup.rs), all types, multipliers, subclasses, book numbers; several dimensions, range widths "
                  "0, 1, 4, 15, one point zero or repeated",
        "covers": ["accepted"],
    },
    "h_set_points": {"bounds": "57 to 73 floor points, the last one repeated or not", "covers": ["accepted"]},
    "h_set_residues": {
        "bounds": "one or two residues: every type, begin, end, partition size, classbook and book number; 1 to 2 (3) classifications; classbook dimensions 0, 1, 2, 3, 65535; "
                  "every cascade of the first classification",
        "covers": ["accepted"],
    },
    "h_set_mappings": {
        "bounds": "one or two mappings: 1, 2, 3 (5, 255) channels, up to 3 submaps, up to 2 coupling steps, every type, reserved, multiplex, floor, residue and channel value",
        "covers": ["accepted"],
    },
    "h_set_modes": {"bounds": "1 to 3 time domain transforms, 1 to n modes, all their fields, framing bit, up to 2 trailing bytes", "covers": ["accepted"]},
    "h_set_cut": {"bounds": "a header with something of everything cut at every length, the last byte arbitrary", "covers": []},
    "h_set_window": {
        "bounds": "a header with something of everything with a window of w arbitrary consecutive bytes at every position (float words: five values per byte; up to 1000 codebook entries)",
        "covers": ["accepted"],
    },
    "h_aud_floor": {
        "bounds": "one audio packet with n arbitrary bytes; floors with 1 to 3 partitions of 1 to 4 dimensions, subclasses 1, 2, 4, 8, absent books, master books, "
                  "all multipliers; sparse, single entry and dense codebooks",
        "covers": ["optimised"],
    },
    "h_aud_residue": {
        "bounds": "one audio packet with n arbitrary bytes; residue types 0, 1, 2, one (two coupled or not) channels, six ranges (inside, partly and fully beyond the block), "
                  "classbooks of 1 to 3 classwords and 1 to 9 entries, three cascades, book dimensions that divide the partition or not",
        "covers": ["optimised", "refused"],
    },
    "h_aud_modes": {
        "bounds": "streams of packets of 0 to n arbitrary bytes; 1, 2, 3 or 5 modes, four pairs of block sizes, both block flags",
        "covers": ["optimised", "refused"],
    },
    "h_aud_maps": {
        "bounds": "one audio packet with n arbitrary bytes; 2 or 3 channels, up to two coupling steps in any order, up to two submaps with any multiplexing, residue types 0 to 2",
        "covers": ["optimised"],
    },
    "h_aud_stats": {
        "bounds": "streams of several packets of n arbitrary bytes that share a codebook of 4 to 8 entries, dense, sparse and ordered",
        "covers": ["optimised"],
    },
    "h_aud_big": {
        "bounds": "one stream per limit of the format: 32-bit codewords; 300 entries; 256 codebooks; Fibonacci usage counts; counts in the thousands; 9 and 17 channels; 256 partitions; 64 modes, mappings, "
                  "floors and residues, 16 submaps - with the bits named packet, posts, entry, energy, classes arbitrary",
        "covers": ["optimised"],
    },
    "h_cli_usage": {
        "bounds": "help, version, unknown options; quiet and verbose options; remuxer given or not, one byte altered; 0 to 3 file arguments, missing input; output names with any extension of three bytes",
        "covers": ["done", "refused", "information"],
    },
    "h_cli_options": {
        "bounds": "each option given as one or two arguments with valid, invalid and empty values or any printable text of up to n characters; sound, damaged and foreign files",
        "covers": ["done", "refused"],
    },
    "h_cli_faults": {
        "bounds": "the n-th call to the input or to the output fails, n arbitrary; missing input, refused output; complete or short reads and writes; file or standard output; output below and above the buffer size",
        "covers": ["complete", "failed"],
    },
    "h_ogg_container": {
        "bounds": "one damage (see O10) of any page of one or two chained streams of three audio packets whose codebook entries all differ",
        "covers": ["remuxed", "refused"],
    },
    "h_ogg_granule": {
        "bounds": "one stream of n audio packets, each short, long or (kinds 3) dropped, any page ends, granule position of every page any 64-bit value, both settings",
        "covers": ["granules"],
    },
    "h_ogg_granule_many": {
        "bounds": "n audio packets with 1, 100, 253 or 300 in a source page; granule positions of the first and last audio page any 64-bit value, both settings",
        "covers": ["many"],
    },
    "h_ogg_pages": {
        "bounds": "one stream of n audio packets of the first k of the lengths 4, 0, 510, 300, 254, 255, 256, 600, 1 with an arbitrary byte; every packet may end its source page and "
                  "have a page break inside; three header layouts; end mark missing, on the last page, on an empty page",
        "covers": ["remuxed", "last packet dropped"],
    },
    "h_ogg_many": {
        "bounds": "the first k of 0, 1, 253 to 257, 509 to 511, 514 audio packets, 0 to 2 dropped ones at the end, five source page sizes, three end marks",
        "covers": ["many"],
    },
    "h_ogg_random": {"bounds": "m chained streams, every random draw, every 32-bit offset", "covers": ["random"]},
    "h_ogg_serials": {"bounds": "m chained streams, four choices of source serials, seven offsets including wrap-around", "covers": ["in order"]},
    "h_ogg_mux": {
        "bounds": "m logical streams (Vorbis with one or more audio packets, foreign with any 8-byte first packet, foreign with one of five first packets), end marks or not, every "
                  "interleaving of their pages, both settings",
        "covers": ["remuxed", "grouped", "no vorbis", "chained"],
    },
    "h_ogg_damage": {
        "bounds": "any difference in the checksum of any page, verified or not; any version byte, channel count, sampling frequency and block sizes, and every length below 30 of the identification header",
        "covers": ["accepted", "wrong checksum", "corrupt", "short"],
    },
    "h_ogg_prefix": {"bounds": "1 to n arbitrary bytes, a capture pattern, a whole file, a cut file before the position; a whole file, part of a page, a cut file after it",
                     "covers": ["remuxed", "refused"]},
    "h_ogg_mangler": {
        "bounds": "streams of n audio packets, last packet dropped or not; any sampling frequency, bitrates and granule positions returned, one of two serials and any page end mark "
                  "for each packet (the last one ends its page)",
        "covers": ["mangled"],
    },
    "h_ogg_twice": {
        "bounds": "one stream of n audio packets, each short, long or dropped, any page ends and granule positions (magnitude below 2^60), both settings, end mark or not",
        "covers": ["twice"],
    },
    "h_ogg_epoch": {
        "bounds": "m chained streams, SOURCE_DATE_EPOCH unset, any bytes up to the given length, and ten longer values; system random numbers (any) or none; every offset",
        "covers": ["invalid", "in order", "reproducible", "clock", "random"],
    },
    "h_ogg_faults": {
        "bounds": "files of one or two streams of n audio packets, with or without a foreign one before them; any call of read, seek or write fails, with one of the first k error kinds (or takes "
                  "nothing); reads and writes of everything asked for, at most 5 or 1 byte",
        "covers": ["complete", "failed"],
    },
    "h_len_counts": {
        "bounds": "usage counts of n entries, each any number below 2^w, in any order (last parameter 0) or in decreasing order (1), codewords of at most max bits",
        "covers": ["lengths", "several used entries"],
        "hook": True,
    },
}

def R(entry, *params, **kw):
    return dict(entry=entry, params=list(params), **kw)

PLAN = {
    "B01": {
        "quick": [R("h_b01_roundtrip", sample=400)],
        "bounds": "consecutive operations from every bit position; all widths and all values symbolic",
        "outside": "longer operation sequences (the writer and reader keep no state beyond the pending byte and the bit position, both of which take every value)",
    },
    "B02": {
        "quick": [R("h_b02_read", 10, 3, sample=200)],
        "thorough": [R("h_b02_read", 14, 4, sample=200, secs=800)],
        "bounds": "all byte strings of up to 10 (thorough: 14) bytes, three (four) reads of all kinds and widths",
        "outside": "longer byte strings and sequences; reads after one that reported the end of data",
    },
    "B03": {
        "quick": [R("h_b03_float", sample=100)],
        "bounds": "all 2^32 words",
        "outside": "packing numbers that no word denotes",
    },
    "V01": {
        "quick": [R("h_v01_ident", 33)],
        "bounds": "all packets of up to 33 bytes",
        "outside": "longer packets (the bytes after the 30th are not looked at)",
    },
    "V02": {
        "quick": [R("h_v02_any", 17), R("h_v02_structured", 3, 2), R("h_v02_tags", 1)],
        "thorough": [R("h_v02_any", 23), R("h_v02_structured", 4, 3), R("h_v02_tags", 3)],
        "bounds": "all comment headers of up to 17 (23) bytes; well-formed ones of up to 2 (3) comments cut anywhere; vendor strings around the tags",
        "outside": "longer strings and lists",
    },
}

def setup(mask):
    return {
        "quick": [R("h_set_books", mask, 5, 2, 0), R("h_set_books", mask, 5, 1, 1), R("h_set_floors", mask, 0), R("h_set_points", mask),
                  R("h_set_residues", mask, 0), R("h_set_mappings", mask, 1), R("h_set_modes", mask, 2), R("h_set_cut", mask),
                  R("h_set_window", mask, 1, 0, 1)],
        "thorough": [R("h_set_books", mask, 6, 2, 0, secs=120), R("h_set_books", mask, 7, 1, 1, secs=120), R("h_set_floors", mask, 2, secs=120),
                     R("h_set_points", mask), R("h_set_residues", mask, 0), R("h_set_mappings", mask, 2), R("h_set_modes", mask, 3),
                     R("h_set_cut", mask), R("h_set_window", mask, 2, 0, 1, secs=600)],
        "bounds": "headers built around each part with the fields of that part arbitrary, and a header with something of everything with any 1 (2) consecutive bytes arbitrary or cut anywhere",
        "outside": "larger tables (more entries, floors, residues, mappings, modes) with all of their fields arbitrary at once; channel counts other than 1, 2, 3 (5, 255)",
    }

PLAN["V03"] = setup(1)
PLAN["V04"] = setup(2)

PLAN["V03"]["quick"] += [R("h_aud_stats", 32, 3, 2, 6, 2), R("h_aud_big", 32, 1, 100), R("h_aud_big", 32, 2), R("h_aud_big", 32, 6)]
PLAN["V03"]["thorough"] += [R("h_aud_stats", 32, 3, 2, 6, 2), R("h_aud_big", 32, 1, 100), R("h_aud_big", 32, 2), R("h_aud_big", 32, 6), R("h_aud_residue", 32, 4, 2, 0)]

def audio(mask, quick, thorough, **kw):
    names = {
        "floor": lambda n: R("h_aud_floor", mask, n, secs=400),
        "residue": lambda *a: R("h_aud_residue", mask, *a, secs=500),
        "modes": lambda *a: R("h_aud_modes", mask, *a, secs=400),
        "maps": lambda n: R("h_aud_maps", mask, n, secs=300),
        "stats": lambda *a: R("h_aud_stats", mask, *a, secs=400),
        "big": lambda *a: R("h_aud_big", mask, *a, secs=200),
    }
    f = lambda l: [x if isinstance(x, dict) else names[x[0]](*x[1:]) for x in l]
    return dict({"quick": f(quick), "thorough": f(thorough)}, **kw)

def counts(n, top, w, inc=0, secs=300):
    return R("h_len_counts", 0, n, top, w, inc, linear=True, secs=secs)

BIG = [("big", 0, 6), ("big", 1, 100), ("big", 2), ("big", 4), ("big", 5), ("big", 6)]
OFTEN = [("big", 7, 2)]
FIB = [("big", 3, 12, 1), ("big", 3, 16, 0)]
AUDIO = "whole streams through both passes: headers around each decoding feature and packets of the stated number of arbitrary bytes, so that every path the decoder can take on them is explored"
AOUT = "longer packets and streams; setup headers other than the listed families (V03 and V04 are about headers)"
PLAN["V05"] = audio(1, [("floor", 4), ("stats", 3, 2, 6, 2), ("stats", 3, 3, 6, 1), ("residue", 3, 1, 1), ("big", 0, 6), ("big", 1, 100), ("big", 2)] + FIB
                       + [counts(5, 32, 40), counts(5, 3, 40), counts(4, 2, 40), counts(7, 32, 40, 1), counts(7, 3, 40, 1)],
                    [("floor", 5), ("stats", 3, 3, 6, 2), ("residue", 4, 1, 1)] + BIG + FIB
                       + [counts(6, 32, 40), counts(5, 3, 40), counts(4, 2, 40), counts(8, 32, 40, 1), counts(8, 3, 40, 1), counts(8, 4, 40, 1)],
                    bounds=AUDIO + "; the length computation also for all usage counts of 5 (6) entries in any order and 7 (8) in decreasing order", outside=AOUT)
PLAN["V06"] = audio(2, [("floor", 3), ("floor", 5), ("residue", 3, 1, 1), ("residue", 4, 2, 0), ("modes", 3, 2), ("maps", 5), ("stats", 3, 2, 6, 2)] + BIG,
                    [("floor", 3), ("floor", 6), ("residue", 4, 1, 1), ("residue", 5, 2, 0), ("modes", 4, 2), ("maps", 6), ("stats", 3, 3, 6, 2)] + BIG + FIB,
                    bounds=AUDIO, outside=AOUT)
PLAN["V07"] = audio(4, [("floor", 4), ("residue", 3, 1, 1), ("modes", 3, 2), ("maps", 5), ("stats", 3, 2, 6, 2), ("stats", 3, 3, 6, 1)] + BIG + FIB + OFTEN,
                    [("floor", 6), ("residue", 4, 1, 1), ("residue", 5, 2, 0), ("modes", 4, 2), ("maps", 6), ("stats", 3, 3, 6, 2)] + BIG + FIB + [("big", 7, 5)],
                    bounds=AUDIO, outside=AOUT)
PLAN["V08"] = audio(8, [("modes", 4, 2), ("modes", 1, 3), ("floor", 3), ("residue", 3, 1, 1), ("maps", 5), ("big", 4), ("big", 6)],
                    [("modes", 3, 3), ("modes", 6, 2), ("floor", 4), ("residue", 4, 1, 1), ("maps", 6), ("big", 4), ("big", 6)],
                    bounds=AUDIO, outside=AOUT)
NOPANIC = [R("h_v01_ident", 33), R("h_v02_any", 17), R("h_v02_structured", 3, 2)]
SETP = [R("h_set_books", 4, 5, 2, 0), R("h_set_books", 4, 5, 1, 1), R("h_set_floors", 4, 0), R("h_set_points", 4), R("h_set_residues", 4, 0),
        R("h_set_mappings", 4, 1), R("h_set_modes", 4, 2), R("h_set_cut", 4)]
PLAN["V09"] = audio(16, [("modes", 4, 2), ("floor", 4), ("residue", 3, 1, 1), ("maps", 5), ("stats", 3, 2, 6, 2)] + BIG + FIB + NOPANIC + SETP + [R("h_set_window", 4, 1, 0, 1)],
                    [("modes", 3, 3), ("floor", 6), ("residue", 4, 1, 1), ("residue", 5, 2, 0), ("maps", 6)] + BIG + FIB + NOPANIC + SETP + [R("h_set_window", 4, 2, 0, 1, secs=600)],
                    bounds=AUDIO + "; setup headers as for V03; overflow checks are compiled in", outside=AOUT, panics_only=True)

OGG = "whole Ogg files through the remuxer, the ogg crate included; "
PLAN["O01"] = {
    "quick": [R("h_ogg_granule", 1, 3), R("h_ogg_granule", 2, 3), R("h_ogg_granule", 3, 3, secs=400), R("h_ogg_granule_many", 300)],
    "thorough": [R("h_ogg_granule", 1, 3), R("h_ogg_granule", 2, 3), R("h_ogg_granule", 3, 3, secs=400), R("h_ogg_granule", 4, 2, secs=800), R("h_ogg_granule_many", 300)],
    "bounds": OGG + "every page layout of up to 3 (4) audio packets with all granule positions symbolic, and 300 packets in four layouts",
    "outside": "longer streams with arbitrary layouts; positions of magnitude 2^60 and above",
}
PLAN["O02"] = {
    "quick": [R("h_ogg_random", 1), R("h_ogg_random", 3), R("h_ogg_serials", 1), R("h_ogg_serials", 3)],
    "thorough": [R("h_ogg_random", 1), R("h_ogg_random", 4), R("h_ogg_serials", 1), R("h_ogg_serials", 3)],
    "bounds": OGG + "up to 3 (4) chained streams, all random draws and offsets (randomised), seven offsets (in order)",
    "outside": "more chained streams; the fallback when the system has no random numbers",
    "assumptions": ["the randomised serials are taken where they are handed to the mangler, which returns other ones (arbitrary serials would make the hash table of the ogg crate's writer undecidable)"],
}
PLAN["O03"] = {
    "quick": [R("h_ogg_pages", 0, 1, covers=["remuxed"]), R("h_ogg_pages", 1, 9), R("h_ogg_pages", 2, 7, secs=300), R("h_ogg_many", 9, secs=300)],
    "thorough": [R("h_ogg_pages", 0, 1, covers=["remuxed"]), R("h_ogg_pages", 2, 9, secs=300), R("h_ogg_pages", 3, 4, secs=600), R("h_ogg_many", 11, secs=600)],
    "bounds": OGG + "every layout of up to 2 (3) packets of nine lengths, and up to 257 (514) packets in regular layouts",
    "outside": "packets of more than 600 bytes; longer irregular streams",
}
PLAN["O04"] = {
    "quick": [R("h_ogg_mux", 2, 0, secs=300), R("h_ogg_damage")],
    "thorough": [R("h_ogg_mux", 2, 1, secs=400), R("h_ogg_mux", 3, 0, secs=800), R("h_ogg_damage")],
    "bounds": OGG + "every interleaving of the pages of two (three) logical streams",
    "outside": "more logical streams; streams of more pages; a stream that ends with an empty page before the next one starts is reported as multiplexing (the ogg crate does not show empty pages)",
}
PLAN["O05"] = {
    "quick": [R("h_ogg_prefix", 5)],
    "thorough": [R("h_ogg_prefix", 300)],
    "bounds": OGG + "up to 5 (300) arbitrary bytes or one of three contents before the position",
    "outside": "longer prefixes; sources other than std::io::Cursor",
}
PLAN["O06"] = {
    "quick": [R("h_ogg_mangler", 0), R("h_ogg_mangler", 2, secs=300)],
    "thorough": [R("h_ogg_mangler", 0), R("h_ogg_mangler", 1), R("h_ogg_mangler", 3, secs=800)],
    "bounds": OGG + "streams of up to 2 (3) audio packets with everything returned arbitrary (serials: two)",
    "outside": "longer streams; arbitrary serials",
}
PLAN["O07"] = {
    "quick": [R("h_ogg_twice", 1, 3), R("h_ogg_twice", 2, 3), R("h_ogg_twice", 3, 3, secs=300), R("h_aud_stats", 64, 3, 2, 6, 2, secs=300), R("h_aud_residue", 64, 3, 1, 0, secs=300),
              R("h_aud_floor", 64, 4, secs=300), R("h_aud_big", 64, 1, 100, secs=100)],
    "thorough": [R("h_ogg_twice", 3, 3, secs=300), R("h_ogg_twice", 4, 3, secs=800), R("h_aud_stats", 64, 3, 3, 6, 2, secs=400), R("h_aud_residue", 64, 4, 1, 0, secs=500),
                 R("h_aud_floor", 64, 5, secs=300), R("h_aud_maps", 64, 5, secs=300), R("h_aud_big", 64, 1, 100, secs=100)],
    "bounds": OGG + "every page layout of up to 3 (4) audio packets; the optimizer alone on the setups and packets of V05 and V06",
    "outside": "longer streams; setup headers other than the listed families",
}

PLAN["O08"] = {
    "quick": [R("h_ogg_epoch", 2, 3), R("h_ogg_epoch", 1, 2)],
    "thorough": [R("h_ogg_epoch", 3, 3), R("h_ogg_epoch", 2, 5, secs=600)],
    "bounds": OGG + "up to 2 (3) chained streams; every value of the variable of up to 3 (5) bytes, all random draws and offsets",
    "outside": "longer values other than those listed; a change of the variable while the process runs",
}
PLAN["O09"] = {
    "quick": [R("h_ogg_faults", 1, 5), R("h_ogg_faults", 3, 1)],
    "thorough": [R("h_ogg_faults", 1, 5), R("h_ogg_faults", 6, 5, secs=600)],
    "bounds": OGG + "a failure of any one call to the source or the sink, in files of up to two Vorbis streams of up to 3 (6) audio packets",
    "outside": "more than one failure; the error kind Interrupted, which asks for another try",
}

PLAN["O10"] = {
    "quick": [R("h_ogg_container", 0, 14, 2), R("h_ogg_container", 1, 14, 1)],
    "thorough": [R("h_ogg_container", 0, 14, 4, secs=300), R("h_ogg_container", 1, 14, 3, secs=300)],
    "bounds": OGG + "one damage to one page: marks, sequence number, granule position, serial, any length of a segment, segment count, body cut at every byte, page lost, repeated, "
              "swapped or emptied, up to 2 (4) arbitrary bytes in between, file cut in the last 29 bytes of a page, any value of the page header bytes before the marks and of the segment count",
    "outside": "several damages at once; damage to packet contents (V09) and identification headers (O04)",
    "assumptions": ["which packets a damaged container holds is what the ogg crate's reader says"],
}
CLI = "the command-line program with a model of the system calls it makes (open, read, seek, write, close, exit): "
PLAN["C01"] = {
    "cli": True,
    "quick": [R("h_cli_usage"), R("h_cli_options", 4), R("h_cli_faults", 6)],
    "thorough": [R("h_cli_usage"), R("h_cli_options", 7, secs=500), R("h_cli_faults", 30, secs=300)],
    "bounds": CLI + "one option with any of the listed values or any printable text of up to 4 (7) characters, on a sound, a damaged and a foreign file; the combinations of file "
              "arguments, remuxer (any one character altered), output name (any extension of three characters), verbosity and information options; a failure of any one call",
    "outside": "several options at once other than the listed ones, repeated options, calls that are interrupted, failures of several calls; terminals; errors of the standard error stream",
    "assumptions": ["the system calls behave as in the model (harness/src/e_cli.rs); argument parsing, buffering and error reporting are the real getopts, std and stderrlog code"],
}

HOOKS = ["b16a068"]
NOT_APPLICABLE = {}
