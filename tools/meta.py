#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed) from one table."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D, L, V, P, G, X = "src/decode.rs", "src/lib.rs", "src/version_db.rs", "src/prepare.rs", "src/identify/grid.rs", "src/detect.rs"

PROPS = []
def prop(id, title, statement, over, text, why, files, mech, note, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None),
                      _note=note))

prop("C01", "Undamaged symbols decode to exactly the encoded bytes",
     "For every version 1-40, error correction level and mask, a grid holding an undamaged, standard-conforming QR symbol decodes successfully to exactly the encoded payload bytes, whatever those bytes are and whatever the remainder modules hold. The reported metadata is the symbol's version, level (format bit value 0-3) and mask (0-7).",
     ["inputs", "configurations"], "every payload content x version x level x mask",
     "Tests decode about fifty fixed images; most version/level pairs (block layouts, alignment positions) are never read. Two table/layout defects (V21 alignment position, last codeword of long blocks hidden by error correction) survived them.",
     [D, V, L], [("format, zigzag reading and mask removal", "decode.rs get_raw/read_data/reserved_cell"), ("block de-interleaving and parameters", "decode.rs codestream_ecc, version_db.rs"), ("segment decoding", "decode.rs decode_payload")],
     "Bounded: one byte segment filling the symbol with all payload bits symbolic, all 160 version x level pairs; masks (version+level) mod 8 in quick.",
     ["Grid::decode_to", "Grid::decode"])
prop("C02", "Format information survives three module errors in either copy",
     "If at most three of the fifteen modules of the first format copy are wrong, the level and mask of the symbol are reported correctly and decoding works, whatever the second copy holds. If the first copy is not correctable, a second copy with at most three wrong modules is used instead; if neither is usable the result is the format error, and the value taken from a copy is always one of the nearest valid format words.",
     ["inputs", "fault_sequences"], "every format value, every error pattern of the stated weight in one copy, arbitrary other copy",
     "There are 2^30 combinations of the two copies; tests only see clean or one particular damaged copy.",
     [D], [("BCH(15,5) correction", "decode.rs correct_format, berlekamp_massey"), ("fallback to the second location", "decode.rs read_format")],
     "Bounded only by the listed versions: all 32 values, all <=3-flip patterns and all 15-bit words of the other copy are symbolic.",
     ["Grid::get_raw_data", "Grid::decode_to"])
prop("C03", "Errors up to half the parity of a block are corrected",
     "A symbol in which each block has at most floor(p/2) wrong codewords (p = its number of error correction codewords) decodes to exactly the original payload and metadata, regardless of which codewords (data or error correction) are hit and how. This holds for every block, short or long, of every version and level.",
     ["inputs", "fault_sequences"], "every error position set and error value up to the capacity",
     "The number of error patterns is astronomic; tests hold a few damaged images in which other blocks or positions are never hit.",
     [D, V], [("syndromes, Berlekamp-Massey, Chien search, Forney", "decode.rs correct_block"), ("block layout", "decode.rs codestream_ecc")],
     "Bounded: single errors exhaustive for V1; multi-error jobs at capacity with symbolic error values at fixed position patterns for every parity length.",
     ["Grid::decode_to"])
prop("C04", "Uncorrectable damage is reported, never silently decoded",
     "If a block holds more errors than it can correct, decoding either fails with an error or yields a result that is consistent with the read symbol: it never returns success for data whose blocks do not satisfy the code, i.e. data that differs from what was read in more codewords than the code can correct. It never panics.",
     ["inputs", "fault_sequences"], "every error pattern beyond the capacity",
     "Tests contain no over-damaged symbols; a missing final verification is invisible to them.",
     [D], [("re-computation of the syndromes after correction", "decode.rs correct_block"), ("zero derivative check", "decode.rs correct_block")],
     "Bounded: capacity+1..+3 errors at seeded positions, symbolic error values.",
     ["Grid::decode_to"])
prop("C05", "Every segment kind decodes to its standard meaning in every version",
     "Numeric, alphanumeric, byte and kanji segments (kanji as Shift JIS byte pairs), alone or in any sequence and with any interleaved ECI designators (which produce no output), decode to the concatenation of their characters, with the character count widths of the three version ranges 1-9, 10-26 and 27-40. Decoding stops at the terminator or when fewer than four bits are left, and whatever follows is ignored.",
     ["inputs", "configurations"], "every character content, count, segment sequence and version range",
     "Tests contain almost only byte-mode symbols of small versions.",
     [D], [("segment decoders", "decode.rs decode_numeric/decode_alpha/decode_byte/decode_kanji/decode_eci"), ("dispatch and terminator", "decode.rs decode_payload")],
     "Bounded: all characters of up to three units per segment symbolic; counts 1-6 and symbol-filling; version range boundaries.",
     ["Grid::decode_to"])
prop("C06", "Malformed data streams give the right error, never a panic",
     "A symbol whose (error-corrected) data stream promises more characters than are left fails with the data underflow error, and an unknown or unsupported mode indicator fails with the unknown-data-type error; streams that are well-formed are not rejected. No stream whatsoever makes decoding panic or read past the end of the symbol's data.",
     ["inputs"], "every data codeword sequence",
     "Such symbols are never produced by encoders, so no test image contains one.",
     [D], [("bits_remaining checks", "decode.rs decode_*"), ("dispatch", "decode.rs decode_payload")],
     "Bounded: differential against a reference stream decoder on symbolic 10-14 bit windows placed at the start, after each segment kind and over the end.",
     ["Grid::decode_to"])
prop("C07", "Mirrored symbols decode like upright ones",
     "A transposed (mirrored) symbol decodes to the same payload and metadata as the upright one. If neither reading is correctable, the error reported is the one of the upright reading and nothing is written; if the upright reading is correctable, it alone determines the outcome.",
     ["inputs", "configurations"], "every symbol content x version x level x mask, every pair of unreadable readings",
     "One mirrored image is tested; which error wins is not tested at all.",
     [D, L], [("second attempt on the transposed grid", "decode.rs decode, lib.rs MirroredGrid")],
     "Bounded: 4-8 symbolic payload bits per symbol; four readability combinations for unreadable ones.",
     ["Grid::decode_to"])
prop("C08", "Writer failures surface as IoError after an exact prefix",
     "If the writer given to decode_to fails after accepting k bytes, decoding returns the I/O error and exactly the first k bytes of the message were written, for every k smaller than the message length. Short writes and interrupted calls are continued, and a writer that accepts everything gets exactly the message.",
     ["crash_points", "fault_sequences"], "every failure point and kind, every chunking",
     "Tests only write into vectors that never fail.",
     [D], [("write_all with error mapping", "decode.rs decode_numeric/decode_alpha/decode_byte/decode_kanji")],
     "Bounded: failure point symbolic over 0..127, four failure kinds, four chunk sizes, twelve messages.",
     ["Grid::decode_to"])
prop("C09", "decode() returns the bytes as text exactly when they are UTF-8",
     "Grid::decode returns Ok with a string whose bytes equal the decoded bytes if those are well-formed UTF-8, and the encoding error otherwise; no byte is altered, replaced or dropped.",
     ["inputs"], "every byte content",
     "Tests decode a few ASCII/UTF-8 texts.",
     [L], [("String::from_utf8", "lib.rs Grid::decode")],
     "Bounded: up to four adjacent symbolic bytes at several offsets.",
     ["Grid::decode"])
prop("C10", "Any grid of any size is handled without panic or stray access",
     "For every grid size and module content, reading raw data or decoding terminates with a result or an error, never a panic, and only modules inside the grid are ever asked for. Sizes that belong to no version (below 21 or above 180) are rejected with the version/grid size error, and reported metadata is always in range.",
     ["inputs", "configurations"], "every size (including 0 and 2^64-1) and every content",
     "Tests use well-formed grids only; sizes below 9 used to panic.",
     [D, L], [("size check", "decode.rs read_format, Version::from_size"), ("zigzag bounds", "decode.rs read_data")],
     "Bounded: sizes 0-20 and samples of larger ones fully symbolic for raw reading; windows of symbolic modules for full decodes.",
     ["Grid::decode_to", "Grid::get_raw_data"])
prop("C11", "Raw data is the physical data modules in standard order",
     "get_raw_data returns the still masked values of all data and remainder modules of the symbol, and no others, in the standard placement order, most significant bit first, with the exact length in bits; unused bits are zero. The metadata reported with it is that of the symbol.",
     ["inputs", "configurations"], "every module content x version",
     "No test looks at the raw stream of more than one symbol; masks and error correction hide order mistakes in single modules.",
     [D, V], [("zigzag reading", "decode.rs read_data, reserved_cell"), ("bit packing", "decode.rs RawData::push")],
     "All 40 versions with every data module symbolic.",
     ["Grid::get_raw_data"])
prop("C12", "In-memory grids and size helpers are faithful",
     "A SimpleGrid built from a function returns, for every position, exactly the value the function gave for that column and row, and asks it only for positions inside the grid; clones are equal and new grids have zero bounds. Converting a size to a version and back is consistent for all sizes, and pushing bits to raw data appends exactly those bits.",
     ["inputs"], "every size and content",
     "Tests build a handful of grids of square symmetric sizes.",
     [L, D], [("bit packing", "lib.rs SimpleGrid"), ("version arithmetic", "decode.rs Version")],
     "All contents for sizes 0-33 and up to 177; all 2^64 sizes for the version conversion.",
     ["SimpleGrid::from_func", "BitGrid::bit", "Version::from_size", "RawData::push"])

exec(open(os.path.join(HERE, "tools", "meta_image.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "meta_image.py")) else None

NA = []
def main():
    with open(f"{HERE}/properties.jsonl", "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks = []
    for p in PROPS:
        if p["id"] in {n["property"] for n in NA}:
            continue
        checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} quick", thorough_cmd=f"python3 check.py {p['id']} thorough",
                           technique="symbolic execution of the crate's LLVM IR; GF(2) normal forms, truth tables and Z3 decide every branch and assertion; counterexamples replayed natively",
                           level="model_checking", level_note=p["_note"] + " Trusts rustc's lowering, the engine (cross-validated natively every run) and Z3."))
    m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=NA,
             notes="No hooks in /repo: the harness uses the public API only.")
    json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
    open(f"{HERE}/MANIFEST.json", "a").write("\n")
main()
