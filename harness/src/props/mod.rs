pub mod astc;
pub mod blocks;
pub mod crnfault;
pub mod crunch;
pub mod image;
pub mod memory;
pub mod port;
pub mod pure;
pub mod pvrtc;
pub mod py;

use crate::engine::*;
use crate::fmts;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&Ctx),
    pub log2: (u32, u32),
    pub exhaustive: &'static str,
    pub assumptions: &'static [&'static str],
}
const REF: &[&str] = &["the reference model written from the published format description is the specification"];
const SELF: &[&str] = &[];
const WASM: &[&str] = &["wasm32 in node stands for 32-bit targets"];
const MIRI: &[&str] = &["32-bit MIPS in our interpreter and s390x in Miri stand for big-endian targets; a difference on the former counts when Miri sees one too"];
const MIPS: &[&str] = &["instructions of the 32-bit MIPS build stand for time"];
pub static ALL: &[Prop] = &[
    Prop { id: "C01", run: |c| c.run(blocks::s3tc(c)), log2: (27, 30), exhaustive: "64/128-bit blocks: <=2 (some <=3) bit, <=2 nibble, all two-byte changes of the base blocks; every endpoint pair per channel x 4 code patterns; every colour word x boundary words (thorough: all 2^32 colour pairs); <=3 changed texel codes", assumptions: REF },
    Prop { id: "C02", run: |c| c.run(blocks::rgtc(c)), log2: (27, 30), exhaustive: "all 65536 endpoint pairs x 4-8 code patterns (every code at every texel), <=3 changed texel codes, <=2 bit/nibble and all two-byte changes of the base blocks, both halves of BC5", assumptions: REF },
    Prop { id: "C03", run: |c| c.run(blocks::bc6(c)), log2: (27, 30), exhaustive: "all 14 modes + reserved x all 32 partitions x body list; per mode, component and subset: base endpoint (all or strided, boundaries always) x every delta; <=2-3 header bits; <=1-2 texel codes; generic bit/nibble/byte changes; both signedness settings", assumptions: REF },
    Prop { id: "C04", run: |c| c.run(blocks::bc7(c)), log2: (27, 30), exhaustive: "all 8 modes x every partition x rotation x selector x body list; every endpoint pair with p-bits per mode, channel and subset; <=2 boundary changes of endpoint/control fields; <=1-2 texel codes; generic bit/nibble/byte changes", assumptions: REF },
    Prop { id: "C05", run: |c| c.run(blocks::etc_rgb(c)), log2: (27, 30), exhaustive: "channel byte x control byte in full x 81 holds; both codewords x flip x mode bit in full; T/H colour nibbles <=3 changes, H colour order, planar corner triples per channel in full, padding bits in full; <=2 texel codes, all 16-bit halves of the code word (thorough: upper word 2^32 in full)", assumptions: REF },
    Prop { id: "C06", run: |c| c.run(blocks::etc_alpha(c)), log2: (27, 30), exhaustive: "as C05 for punch-through (opaque bit both ways) and RGBA8; EAC half: base x multiplier x table in full, <=3 texel codes", assumptions: REF },
    Prop { id: "C07", run: |c| c.run(blocks::eac(c)), log2: (27, 30), exhaustive: "base x multiplier x table in full (2^16 x 4-8 code patterns), <=2-3 texel codes, <=2-3 bit, <=2 nibble and all two-byte changes; both halves of RG11; the ten standalone channel functions", assumptions: REF },
    Prop { id: "C08", run: |c| c.run(blocks::atc(c)), log2: (27, 30), exhaustive: "as C01 for both methods (method bit x every endpoint pair of each asymmetric channel) and the alpha half as C02", assumptions: REF },
    Prop { id: "C09", run: |c| c.run(pvrtc::items(c)), log2: (25, 28), exhaustive: "one self-neighbouring block: <=2-3 bits, <=2 nibbles, every colour word x 6, modulation byte pairs in full; two blocks: <=2 nibbles, both shapes; 2x2: all arrangements of 15 (26) blocks; 4x4: all 1024 mode assignments of a block and its neighbours; all power-of-two grids to 64x64 (256x256); all sizes to 68x36 (132x68)", assumptions: REF },
    Prop { id: "C10", run: |c| c.run(astc::ldr(c)), log2: (26, 29), exhaustive: "14 footprints x all 2048 block modes x 1-4 partitions x every endpoint word; all 1024 seeds x partition counts; all class/member words; <=2 bits and all 10-bit windows around representative configurations; every weight field value per weight range; endpoint value pairs in full", assumptions: REF },
    Prop { id: "C11", run: |c| c.run(astc::hdr(c)), log2: (26, 29), exhaustive: "as C10 for HDR endpoint modes; the sub-mode bits of all endpoint values in full; all 65536 values of each void-extent channel; header bits", assumptions: REF },
    Prop { id: "C12", run: |c| c.run(astc::total(c)), log2: (26, 29), exhaustive: "14 footprints x 2048 modes x 4 partition counts x every endpoint word x fills; low 17 bits in full around bases; <=2 bit flips; class/member edge; block dimensions 0..75 (149) squared plus extreme ones", assumptions: REF },
    Prop { id: "C13", run: |c| c.run(image::raster_items(c)), log2: (24, 26), exhaustive: "all sizes to 3 blocks each way plus strips and larger ones; all ordered block pairs of an alphabet; one differing block at each position", assumptions: SELF },
    Prop { id: "C14", run: |c| c.run(image::contract_items(c)), log2: (25, 27), exhaustive: "sizes to the bound x every data length x every image length around the thresholds; larger sizes at the thresholds; overflowing sizes", assumptions: SELF },
    Prop { id: "C15", run: pure::run, log2: (16, 16), exhaustive: "all histories of 2 (3) calls over 510 (49) calls each from a fresh process; sequences containing every pair / triple of calls in 8 threads; one call single-stepped with a complete other call inserted at instruction boundaries, for every dependent pair of calls (one preemption); prefills, 32 alignments, guard pages", assumptions: SELF },
    Prop { id: "C16", run: |c| c.run(crnfault::header_items(c)), log2: (26, 28), exhaustive: "every value of every byte and 16-bit field of base headers, every pair of header bytes over boundary values, every slice length x stated size", assumptions: REF },
    Prop { id: "C17", run: |c| c.run(crunch::items(c, false)), log2: (26, 29), exhaustive: "per format: all image shapes to 20x20 (33x33) x 1,2,3,6 faces; all combinations of the stream choices of textures of one or two chunks; every single (and pair of) changed choice around base files; palettes 1..40 and boundaries to 8192; code-length shapes x serialisations; segment layouts x levels", assumptions: REF },
    Prop { id: "C18", run: |c| c.run(crunch::items(c, true)), log2: (26, 29), exhaustive: "as C17, with Unity's reference coding; ETC1, ETC2 and ETC2A included", assumptions: REF },
    Prop { id: "C19", run: |c| c.run(crnfault::fault_items(c)), log2: (27, 29), exhaustive: "base files of both variants: products of the sizes, offsets and counts a header claims, every truncation, every byte x every value, every pair of header bytes, nearby byte pairs, every short string in place of each segment, every string of <=2 bytes, inserted/removed/swapped bytes; sample files: truncations, header bytes and strided single faults", assumptions: SELF },
    Prop { id: "C20", run: |c| c.run(py::items(c)), log2: (25, 27), exhaustive: "38 functions x all sizes to 3 (5) blocks x exact and other lengths; block contents by byte and by alphabet pairs; decode_astc with all block sizes 0..15 (40) squared; 22 extreme numbers squared; 31 argument kinds; Crunch files by shape and with every single byte damaged; all ordered pairs (triples) of an alphabet of calls in one interpreter", assumptions: SELF },
    Prop { id: "C21", run: image::run_builds, log2: (25, 27), exhaustive: "all functions of the no-allocator build: sizes x lengths, block contents by byte, PVRTC grids", assumptions: SELF },
    Prop { id: "C22", run: |c| c.run(image::wrapper_items(c)), log2: (25, 27), exhaustive: "36 wrapper/general pairs: sizes x lengths, block contents by byte and alphabet pairs, overflowing sizes", assumptions: SELF },
    Prop { id: "C23", run: port::run_wasm, log2: (25, 29), exhaustive: "WebAssembly build: 61 entry points; base and special blocks with <=1-2 (3) bits flipped and every byte value, all 2048 ASTC block modes x partition counts x endpoint words x 14 footprints, sizes to 3 (6) blocks x buffer lengths and past 65536, 19x19 extreme sizes, Crunch files by shape and with damaged bytes", assumptions: WASM },
    Prop { id: "C24", run: port::run_be, log2: (26, 30), exhaustive: "32-bit MIPS build in an interpreter: the space of C23, a little smaller; s390x build in Miri: the same space at small bounds (<=1 bit flip, byte boundary values, strided ASTC modes and footprints, small images and Crunch files)", assumptions: MIRI },
    Prop { id: "C25", run: port::run_plain, log2: (26, 30), exhaustive: "build without overflow checks and debug assertions against the build with them: the space of C23, deeper", assumptions: SELF },
    Prop { id: "C26", run: memory::run, log2: (28, 30), exhaustive: "the states of C09, C13, C14, C16-C19 (thorough: and C12), executed under an allocator that counts", assumptions: SELF },
    Prop { id: "C27", run: port::run_steps, log2: (26, 30), exhaustive: "32-bit big-endian build in an interpreter that counts instructions: the space of C24, room and data beyond what an image needs, and Crunch headers by claimed size, levels, faces and palettes x lengths; images of 2^n blocks (n to 12, thorough 16) against images of twice as many", assumptions: MIPS },
];
pub fn replay(c: &Case) -> Result<String, String> {
    match c.get("kind") {
        "block" => fmts::replay_block(c),
        "pvrtc" => pvrtc::replay(c),
        "astc" => astc::replay(c),
        "astcdims" => astc::replay_dims(c),
        "raster" => image::replay_raster(c),
        "contract" => image::replay_contract(c),
        "crunch" => crunch::replay(c),
        "crunchbad" => crunch::replay_bad(c),
        "crnheader" => crnfault::replay_header(c),
        "crnfault" => crnfault::replay_fault(c),
        "history" => pure::replay_history(c),
        "preempt" => pure::replay_preempt(c),
        "crncontract" => image::replay_crn_contract(c),
        "near" => pure::replay_near(c),
        "around" => pure::replay_around(c),
        "python" => py::replay(c),
        "pythonname" => py::replay_name(c),
        "wrapper" => image::replay_pair(c, image::wrappers()),
        "builds" => image::replay_pair(c, image::builds().unwrap_or_default()),
        "nobuild" => image::replay_nobuild(),
        "port" => port::replay(c),
        "growth" => port::replay_growth(c),
        "noport" => port::replay_nobuild(c),
        k => Err(format!("unknown case kind {}", k)),
    }
}
