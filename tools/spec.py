#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/spec.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
# checks that are not finished yet
PENDING = set()
def prop(id, title, stmt, over, text, why, files, mech, level_note, technique, ready=True, state=None, observe=None, reason=None):
    P.append(dict(id=id, title=title, stmt=stmt, over=over, text=text, why=why, files=files, mech=mech,
                  note=level_note, tech=technique, ready=ready and id not in PENDING, state=state, observe=observe, reason=reason))

SAMPLES = "The repository's tests decode one sample picture per format and compare nothing (Rust) or a rough similarity (Python); they reach a few thousand of the 2^64 or 2^128 encodings of a block and never look at single texels. "
BLK = ("bounded exhaustive enumeration of encoded blocks (all blocks within k field/bit/nibble/byte deviations of base blocks, full products of coupled fields) executed on the real decoder and compared texel by texel with an independently written reference model")
def blk(id, title, stmt, text, files, mech, extra="", ready=True):
    prop(id, title, stmt, ["inputs"], text, SAMPLES + extra, files, mech,
         "Every block inside the stated deviation bounds is decoded by the real code and compared with the model; blocks further from the bases than the bound are not covered.", BLK, ready,
         observe=["16 texels (or one footprint) written by the block decoder, plus guard words behind them"])

blk("C01", "BC1, BC1A, BC2 and BC3 blocks decode to the S3TC palette",
    "Every 8-byte BC1 block decodes to the S3TC palette of its two 5:6:5 colours, with three colours plus black when the first colour word is not greater (transparent black in the alpha-aware variant), and BC2/BC3 blocks always use the four-colour palette together with their explicit or interpolated 8-bit alpha. Each texel takes the palette entry its own 2-bit, 4-bit or 3-bit code selects, and nothing outside the sixteen texels is written.",
    "all encoded blocks: both orders of the two colours, every channel value, every texel code",
    ["src/bcn/bc1.rs", "src/bcn/bc2.rs", "src/bcn/bc3.rs"],
    [{"name": "palette construction and code lookup", "where": "src/bcn/bc1.rs"}, {"name": "alpha from 4-bit codes / 8-entry ramp", "where": "src/bcn/bc2.rs, src/bcn/bc3.rs"}],
    "A swapped comparison or an off-by-one rounding only shows for particular colour pairs.")
blk("C02", "BC4 and BC5 blocks decode to the RGTC ramp",
    "Every BC4 block decodes to the 8-value ramp (or 6-value ramp with 0 and 255) of its two endpoints in the red channel, and BC5 does the same for red and green from its two halves. Texel codes are read as consecutive 3-bit little-endian fields.",
    "all encoded blocks: all 65536 endpoint pairs, both ramp kinds, every code at every texel",
    ["src/bcn/bc4.rs", "src/bcn/bc5.rs", "src/bcn/bc3.rs"],
    [{"name": "ramp selection by endpoint order", "where": "src/bcn/bc3.rs"}, {"name": "48-bit code extraction", "where": "src/bcn/bc4.rs"}],
    "The endpoint order selects the ramp, and equal or adjacent endpoints are corner cases.")
blk("C03", "BC6H blocks decode as the format specifies",
    "Every BC6H block, unsigned or signed, decodes to the half-float colours the format defines: mode, scattered endpoint bits, delta transform with sign extension and wrap-around, unquantization, partition, anchor-shortened indices and interpolation; reserved modes give black. The half floats are converted to 8 bits by clamping to [0,1].",
    "all 14 modes and the reserved ones, all 32 partitions, all endpoint bit positions, both signedness settings",
    ["src/bcn/bc6.rs", "src/bitreader.rs"],
    [{"name": "mode table and scattered endpoint bits", "where": "src/bcn/bc6.rs"}, {"name": "unquantize/finish steps", "where": "src/bcn/bc6.rs"}],
    "Modes 2..14 with signed data, deltas that wrap and 16-bit endpoints are not in the samples.")
blk("C04", "BC7 blocks decode as the format specifies",
    "Every BC7 block decodes to the colours the format defines for its mode: partition, rotation, index selection, endpoint and p-bit expansion, anchor-shortened primary and secondary indices and interpolation weights. The reserved encoding (no mode bit) gives transparent black.",
    "all 8 modes, every partition, rotation, index selector, endpoint value, p-bit and texel code",
    ["src/bcn/bc7.rs", "src/bitreader.rs"],
    [{"name": "mode table, partition tables and anchors", "where": "src/bcn/bc7.rs"}, {"name": "bit cursor", "where": "src/bitreader.rs"}],
    "Each mode has its own field widths; encoders rarely emit modes 0, 2, 4 and 7.")
blk("C05", "ETC1 and ETC2 RGB blocks decode as the format specifies",
    "Every ETC1 block decodes to its two sub-block base colours (individual or differential) plus the selected modifier, clamped; ETC2 RGB blocks additionally decode the T, H and planar modes that differential overflow selects. Sub-block orientation and the column-major texel codes decide which modifier each texel gets.",
    "all encoded blocks: both flip settings, every codeword pair, all differential overflows, T/H distances, planar corners",
    ["src/etc.rs"],
    [{"name": "mode selection by differential overflow", "where": "src/etc.rs"}, {"name": "modifier tables and write order", "where": "src/etc.rs"}],
    "Overflow-selected modes appear only for particular base/delta pairs.")
blk("C06", "ETC2 RGBA1 and RGBA8 blocks decode as the format specifies",
    "Every ETC2 punch-through block decodes to the ETC2 colours with texels of code 2 transparent when the opaque bit is clear, and every RGBA8 block combines ETC2 colours with its 8-bit EAC alpha. Opaque texels have alpha 255.",
    "all encoded blocks: opaque bit, all modes, every alpha base, multiplier, table and code",
    ["src/etc.rs"],
    [{"name": "punch-through handling per mode", "where": "src/etc.rs"}, {"name": "alpha from base, multiplier and table", "where": "src/etc.rs"}],
    "Punch-through in T/H mode and multiplier 0 are absent from the samples.")
blk("C07", "EAC R11/RG11 and standalone alpha blocks decode as specified",
    "Every EAC R11 or RG11 block, unsigned or signed, decodes to the 11-bit value base*8+4 (signed: base*8) plus modifier*multiplier*8 (multiplier 0: modifier alone), clamped and reduced to 8 bits, in red and green. The standalone single-channel block functions give the same values in the channel they are documented to fill.",
    "all encoded blocks: every base, multiplier, table and texel code, both signs",
    ["src/etc.rs"],
    [{"name": "11-bit reconstruction and clamping", "where": "src/etc.rs"}, {"name": "big-endian texel code order", "where": "src/etc.rs"}],
    "Clamping and multiplier 0 need particular combinations.")
blk("C08", "ATC blocks decode as the format specifies",
    "Every ATC RGB block decodes to the palette of its 5:5:5 and 5:6:5 colours under the method its top bit selects, and ATC RGBA adds the interpolated 8-bit alpha of its first half.",
    "all encoded blocks: both methods, every channel pair, every code",
    ["src/atc.rs"],
    [{"name": "method bit and palette", "where": "src/atc.rs"}],
    "The second method's clamped colour needs dark/bright colour pairs.")

prop("C09", "PVRTC images decode as the format specifies",
     "Every PVRTC image of either bit rate decodes to the colours the format defines: Morton block order, colour endpoints of the four nearest blocks interpolated with wrap-around, and per-texel modulation including punch-through and the three interpolated 2bpp modes. Images whose block counts are not powers of two are refused.",
     ["inputs", "configurations"], "all block grids up to the bound, all fields of every block and of its neighbours, both bit rates",
     SAMPLES + "PVRTC texels depend on up to nine blocks, so wrap-around and mode mixes between neighbours are invisible in one sample picture.",
     ["src/pvrtc.rs", "src/morton.rs", "src/bitreader.rs"],
     [{"name": "block info and neighbour interpolation", "where": "src/pvrtc.rs"}, {"name": "Morton index", "where": "src/morton.rs"}],
     "Small grids are enumerated completely over field deviations of one or two blocks; larger grids only over shape and order.", "bounded exhaustive enumeration of small block grids (field deviations of one and two blocks, all power-of-two grid shapes to the bound) executed on the real decoder and compared with an independent whole-image reference model")
blk("C10", "ASTC LDR blocks decode as the specification says",
    "Every legal ASTC block of the 14 standard footprints with LDR endpoints decodes to the colours the specification defines: block mode, dual plane, partition hash, colour endpoint modes, integer-sequence decoding, unquantization, weight infill and interpolation. Texels are the 8-bit UNORM values in BGRA order.",
    "all footprints, all block modes, partition counts and seeds, endpoint modes and quantization levels within the bounds",
    ["src/astc.rs"],
    [{"name": "block mode parsing", "where": "src/astc.rs"}, {"name": "integer sequence decoding and unquantization", "where": "src/astc.rs"}, {"name": "partition selection and weight infill", "where": "src/astc.rs"}],
    "The encoder that made the samples uses a small part of 2^11 block modes, 4096 partition seeds and 16 endpoint modes.")
blk("C11", "ASTC HDR endpoints and void-extent blocks decode as specified",
    "ASTC blocks with HDR endpoint modes decode through the specified bit layouts, sign extensions and logarithmic interpolation, clamped to 8 bits; void-extent blocks, LDR or HDR, give their constant colour in every texel.",
    "all HDR endpoint modes and their sub-modes, all void-extent colours, all footprints within the bounds",
    ["src/astc.rs", "src/f16.rs"],
    [{"name": "HDR endpoint unpacking", "where": "src/astc.rs"}, {"name": "half-float conversion", "where": "src/f16.rs"}],
    "No sample uses HDR endpoints.")
prop("C12", "Every ASTC encoding gives a result: legal ones decode, illegal ones error colour",
     "For every 128-bit value and every supported footprint the decoder terminates without panicking and writes exactly one footprint: encodings the specification declares illegal or reserved give the error colour in every texel, all others never do so for structural reasons. Block dimensions the decoder does not support are refused with an error.",
     ["inputs", "configurations"], "all 2^11 block modes x partition counts x endpoint-mode words x footprints, plus arbitrary block dimensions",
     "The samples contain only legal blocks of a handful of modes.",
     ["src/astc.rs"], [{"name": "legality checks in block mode parsing", "where": "src/astc.rs"}, {"name": "dimension check", "where": "src/astc.rs"}],
     "Complete over block mode x partition count x endpoint selector for every standard footprint.", "exhaustive enumeration of the ASTC configuration space on the real decoder against an independent legality model")
prop("C13", "Images are the raster of their blocks, cropped to the requested size",
     "For every format and every width and height, texel (x, y) of a decoded image is the texel the block decoder produces for block (x/bw, y/bh) at (x mod bw, y mod bh), with blocks stored in row-major order. Padding texels of partial edge blocks are dropped, every pixel is written and pixels beyond width*height are left alone.",
     ["inputs", "configurations"], "all widths and heights up to the bound, all formats, all block contents in the alphabet, larger and extreme aspect sizes",
     "The tests decode whole multiples of the block size only.",
     ["src/macros.rs", "src/color.rs", "src/astc.rs", "src/bcn.rs", "src/etc.rs", "src/atc.rs"],
     [{"name": "block loop and copy with cropping", "where": "src/macros.rs, src/color.rs"}],
     "All sizes up to three blocks each way are complete; larger ones are a fixed list.", "bounded exhaustive enumeration of image shapes and block arrangements on the real decoders against a composition model")
prop("C14", "Buffers too small give an error, never a panic or a partial write",
     "For every format and size, an encoded buffer or an output image shorter than the size needs makes the call return an error and leaves the image untouched; buffers of at least the needed size succeed, and what lies behind the needed part does not matter. This includes empty images and sizes whose product does not fit the address space, and the Crunch decoders, where the blocks the file describes are what the size needs.",
     ["inputs", "configurations"], "all formats x sizes up to the bound x all buffer lengths around the threshold, including zero and overflowing dimensions",
     "No test passes a short buffer.",
     ["src/macros.rs", "src/astc.rs", "src/pvrtc.rs", "src/crunch.rs", "src/unitycrunch.rs"],
     [{"name": "length checks at function entry", "where": "src/macros.rs"}],
     "Complete for all sizes and buffer lengths inside the stated grid.", "exhaustive enumeration of (format, size, data length, image length) call configurations on the real decoders against the documented contract")
prop("C15", "Decoding is a pure function of its arguments",
     "The result of a decode call depends only on its arguments: not on earlier calls in the process, on calls running in other threads, on the previous content of the output image, or on the alignment and surroundings of the buffers. The encoded input is never changed.",
     ["histories", "schedules", "inputs"], "all call sequences up to the depth bound over an alphabet of calls to every decoder; all schedules of two calls in which one is preempted at an instruction boundary by the whole other call",
     "Each test makes one call in a fresh process with a zeroed image.",
     ["src/lib.rs", "src/pvrtc.rs", "src/astc.rs", "src/crunch.rs"],
     [{"name": "no shared mutable state", "where": "src/lib.rs"}],
     "Call sequences are complete to the stated depth over the stated alphabet. Schedules: one preemption, at machine-instruction granularity, of every call by every other call it can share data with (same function family, or one of the two writes static memory).", "exhaustive exploration of call histories to a depth bound (a forked process per history) and of two-call schedules with one preemption at every instruction boundary (single-stepped real code), compared with first-call results", state=[{"name": "history", "meaning": "the calls made so far in the process and the one in progress in another thread"}, {"name": "static memory", "meaning": "writable sections of the process image", "where": "the crate declares none"}])
prop("C16", "Crunch headers are parsed faithfully and checked",
     "Parsing a Crunch header reports exactly the big-endian width, height, level and face counts, format, user data and block size stored in it, and fails for a wrong signature, a truncated buffer, an undersized header, an unknown format, a declared data size beyond the given data or a structure size that is not the crate's. It never panics, whatever the bytes and the stated size.",
     ["inputs"], "all values of every header field, all truncations, all pairs of byte substitutions in the bound",
     "One valid header per sample file is parsed.",
     ["src/crnlib.rs", "src/crunch/crn_decomp.rs"],
     [{"name": "field offsets and checks", "where": "src/crunch/crn_decomp.rs"}],
     "Complete over single header fields and byte pairs.", "exhaustive enumeration of header fields and truncations on the real parser against an independent model")
CR = "bounded exhaustive enumeration of streams produced by an independent encoder model (all symbol sequences, chunk encodings, palette sizes and image shapes to the bound), decoded by the real code and compared with the model"
prop("C17", "Crunch textures decode to the blocks their streams describe",
     "A Crunch file whose streams describe a given sequence of palette entries, chunk encodings and selectors decodes to the texture made of exactly those DXT blocks, for every supported format, image shape, face count and level count. Files of formats without a decoder are refused.",
     ["inputs", "configurations"], "all symbol streams within the bound for tables, palettes and levels; every format; odd and even block counts; 1 or more faces",
     "Two sample files are decoded.",
     ["src/crunch.rs", "src/crunch/crn_unpacker.rs", "src/crunch/crn_symbol_codec.rs", "src/crunch/crn_static_huffman_data_model.rs"],
     [{"name": "Huffman tables", "where": "src/crunch/crn_static_huffman_data_model.rs"}, {"name": "palette and level decoding", "where": "src/crunch/crn_unpacker.rs"}],
     "Complete over the stream shapes in the bound; larger palettes are reached with deviations only.", CR)
prop("C18", "Unity Crunch textures decode to the blocks their streams describe",
     "A Unity-variant Crunch file whose streams describe a given sequence of palette entries, endpoint references and selectors decodes to the texture made of exactly those DXT or ETC blocks, for every supported format, image shape, face count and level count.",
     ["inputs", "configurations"], "all symbol streams within the bound; every DXT, ETC1 and ETC2 format; odd and even block counts; 1 or more faces",
     "A few sample files are decoded.",
     ["src/unitycrunch.rs", "src/unitycrunch/crn_unpacker.rs", "src/crunch/crn_symbol_codec.rs"],
     [{"name": "endpoint reference decoding", "where": "src/unitycrunch/crn_unpacker.rs"}, {"name": "ETC palette transposition", "where": "src/unitycrunch/crn_unpacker.rs"}],
     "As C17.", CR)
prop("C19", "Malformed Crunch files are refused or decoded, never a panic",
     "For any byte string passed to either Crunch decoder the call returns normally within time and memory proportional to the input and the requested image: truncated, corrupted or inconsistent files produce an error or some picture, never a panic, an abort or an endless loop.",
     ["inputs"], "all truncations and all single-byte substitutions of valid files, all pairs of header bytes, all short table streams in the bound",
     "No test feeds a damaged file.",
     ["src/crunch.rs", "src/unitycrunch.rs", "src/crunch/crn_symbol_codec.rs", "src/crunch/crn_decomp.rs"],
     [{"name": "bounds checks on header, segments, tables and palettes", "where": "src/crunch/crn_unpacker.rs, src/unitycrunch/crn_unpacker.rs"}],
     "Complete for truncations and single-byte faults of the base files; pairs for headers.", "exhaustive fault injection (every truncation point and byte substitution) on the real decoders with a totality oracle")
prop("C20", "The Python functions return what the Rust decoders produce",
     "For every exported Python function and every input, the returned bytes object holds the image the Rust decoder produces as 4 bytes per pixel, and inputs the Rust decoder refuses raise an exception instead of crashing the interpreter. The input object is not modified.",
     ["inputs", "configurations"], "every exported function x sizes and block contents in the bound x short and exact inputs",
     "The Python tests decode one sample per function and compare approximately.",
     ["bindings/python/src/lib.rs"], [{"name": "argument conversion and buffer views", "where": "bindings/python/src/lib.rs"}],
     "Complete over functions, sizes and lengths in the bound.", "exhaustive enumeration of calls and call histories on the real Python module in worker interpreters, each compared with the Rust decoder (which C01-C19 compare with the reference models)")
prop("C21", "Decoding does not depend on whether the allocator feature is on",
     "The crate built without heap allocation produces the same pixels, errors and untouched buffers as the default build for every format it still offers.",
     ["configurations", "inputs"], "both build configurations x the inputs of the format checks in the bound",
     "The tests only build the default configuration.",
     ["Cargo.toml", "src/lib.rs", "src/astc.rs", "src/pvrtc.rs"], [{"name": "separate no-alloc code paths", "where": "src/pvrtc.rs, src/astc.rs"}],
     "Complete over the stated grid.", "exhaustive differential exploration of both build configurations over the bounded input space")
prop("C22", "Convenience functions agree with the general ones",
     "Every fixed-footprint, fixed-bit-rate or fixed-signedness function gives exactly the result of the general function called with the corresponding parameters, for images, blocks and errors alike.",
     ["inputs", "configurations"], "all wrapper functions x sizes, block contents and buffer lengths in the bound",
     "Wrappers are only run on one sample each.",
     ["src/lib.rs", "src/astc.rs", "src/pvrtc.rs", "src/bcn.rs"], [{"name": "wrapper definitions", "where": "src/astc.rs, src/pvrtc.rs, src/bcn.rs"}],
     "Complete over the stated grid.", "exhaustive differential enumeration of wrapper and general calls over the bounded input space")
PORT = "exhaustive differential enumeration: every call of the bounded space is executed by the real code in the usual build and %s, and results and pixels are compared"
prop("C23", "Decoding on 32-bit targets gives the results it gives on 64-bit ones",
     "On a target whose usize has 32 bits every decoder, block decoder and header parser compiles, and for every input gives the same verdict and the same pixels as on a 64-bit target; sizes whose products do not fit the address space are refused, never wrapped or trapped.",
     ["configurations", "inputs"], "both pointer widths x block contents, image sizes, buffer lengths and Crunch files in the bound",
     "The tests run on the 64-bit build machine only.",
     ["src/bcn/bc3.rs", "src/etc/eac.rs", "src/etc/etc2.rs", "src/macros.rs", "src/pvrtc.rs", "src/astc.rs", "src/crunch/crn_unpacker.rs", "src/crunch/crn_symbol_codec.rs"],
     [{"name": "bit fields kept in usize", "where": "src/bcn, src/etc, src/pvrtc.rs"}, {"name": "size arithmetic", "where": "src/macros.rs, src/pvrtc.rs, src/astc.rs"}],
     "Complete over the stated space for one 32-bit target (wasm32); reading the code is not part of it, the compiled crate runs.", PORT % "as a wasm32 module in node (overflow checks on, a trap counts as a panic)")
prop("C24", "Decoding on big-endian targets gives the results it gives on little-endian ones",
     "On a big-endian target every decoder, block decoder and header parser compiles, and for every input gives the same verdict and the same pixel values (as u32 numbers) as on a little-endian target.",
     ["configurations", "inputs"], "both byte orders x block contents, image sizes, buffer lengths and Crunch files in the bound",
     "The tests run on the little-endian build machine only.",
     ["src/color.rs", "src/crunch/crn_consts.rs", "src/crunch/crn_unpacker.rs", "src/crnlib.rs", "src/bitreader.rs"],
     [{"name": "byte order of pixels", "where": "src/color.rs"}, {"name": "byte order of encoded words", "where": "src/bitreader.rs, src/crunch, src/bcn, src/etc"}],
     "Complete over the stated space. The 32-bit program runs in an interpreter of ours, and a difference there is only reported when the same call differs under Miri too; the space explored in Miri itself is small.", PORT % "as big-endian programs: 32-bit MIPS in an instruction interpreter, and s390x under Miri")
prop("C25", "Decoding does not depend on the build profile",
     "The crate built as an application's release build is (no overflow checks, no debug assertions) gives for every input the same verdict and the same pixels as the checked build, and neither build panics.",
     ["configurations", "inputs"], "both build profiles x block contents, image sizes, buffer lengths and Crunch files in the bound",
     "The tests build one profile, and an overflow that wraps in one build and panics in the other needs particular values.",
     ["src/astc.rs", "src/atc.rs", "src/bcn.rs", "src/etc.rs", "src/pvrtc.rs", "src/crunch.rs", "src/unitycrunch.rs"],
     [{"name": "integer arithmetic on decoded fields", "where": "src"}, {"name": "assertions", "where": "src"}],
     "Complete over the stated space.", PORT % "in a build without overflow checks and debug assertions")

prop("C26", "Decoding gives back all memory and takes no more than its input justifies",
     "Whatever a call takes from the heap it has given back when it returns, whether it succeeds or fails. Only the Crunch decoders and parser and (with the allocator) the PVRTC decoders take any; what they hold at a time is bounded by the size of the encoded data (PVRTC: 64 bytes per 8-byte block; Crunch: 160 bytes per byte of the file plus 1 MiB and twice the declared palettes), never by sizes a damaged header merely claims.",
     ["inputs", "configurations"], "all image and block decoders x sizes, block contents and buffer lengths; all intact and damaged Crunch files in the bound",
     "The tests do not look at the heap; a leak or a huge allocation on an error path changes no pixel.",
     ["src/pvrtc.rs", "src/crunch/crn_unpacker.rs", "src/unitycrunch/crn_unpacker.rs", "src/crunch/crn_decomp.rs", "src/crunch/crn_static_huffman_data_model.rs"],
     [{"name": "palettes, tables and level buffers", "where": "src/crunch, src/unitycrunch"}, {"name": "block records", "where": "src/pvrtc.rs"}],
     "Complete over the stated space (that of C09, C13, C14, C16-C19).", "explicit-state enumeration of calls on the real code, executed under a counting allocator: balance after the call and peak during it")
prop("C27", "Decoding ends, after work linear in its input, on a small stack",
     "Every call returns, whatever the data say. The instructions it executes are at most a constant plus a constant for every block of the image (Crunch: for every byte of the file and every palette entry its header declares); room and data beyond what the image needs cost nothing, and a call that is refused for want of room or data does a constant amount of work. Its stack stays below 32 KiB.",
     ["inputs"], "all entry points x block contents, image sizes, buffer lengths and intact and damaged Crunch files in the bound",
     "The tests decode intact samples and look at the pixels; a loop whose length the data control, or a cost that grows faster than the image, shows only on other inputs and changes no pixel.",
     ["src/macros.rs", "src/astc.rs", "src/pvrtc.rs", "src/crunch/crn_unpacker.rs", "src/unitycrunch/crn_unpacker.rs", "src/crunch/crn_symbol_codec.rs", "src/crunch/crn_static_huffman_data_model.rs", "src/crnlib.rs"],
     [{"name": "loops over declared counts", "where": "src/crunch, src/unitycrunch"}, {"name": "loops over blocks and texels", "where": "src/macros.rs, src/astc.rs, src/pvrtc.rs"}],
     "Complete over the stated space. Work is counted in instructions of a 32-bit build, exactly and reproducibly; the constants are about four times what the dearest calls take, so a slowdown within that factor is not seen.",
     "explicit-state enumeration of calls on the real code, compiled for a 32-bit target and executed in an interpreter that counts instructions and bounds the stack")

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": p["mech"]}
            if p["state"]: a["state"] = p["state"]
            if p["observe"]: a["observe_at"] = p["observe"]
            a["hook_needed"] = None
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["stmt"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"].strip(), "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
    for p in P:
        if p["ready"]:
            m["checks"].append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"],
                "thorough_cmd": "./check.sh %s thorough" % p["id"], "technique": "model checking: " + p["tech"],
                "level": "model_checking", "level_note": p["note"]})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": p["reason"] or "the check is still being built"})
    m["notes"] = "All checks rebuild the crate from /repo's working tree; no hooks are needed."
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
main()
