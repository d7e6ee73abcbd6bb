// Requests and answers.  A request is 26 bytes and the data, all little-endian:
//   function u8, want-image u8, four numbers u32, image length u32, data length u32, data
// An answer is a status u8 (0 decoded, 1 refused, 2 panicked) and a hash u64 of the image,
// followed by the image when it was asked for.
/// A worker says this first; whatever its launcher printed before it is skipped.
#[allow(dead_code)]
pub const HELLO: &[u8] = b"\0T2DPORT\n";
pub const HEAD: usize = 26;
pub const PREFILL: u32 = 0x5a3c_96e1;
pub struct Request<'a> {
    pub func: usize,
    pub full: bool,
    pub n: [usize; 4],
    pub ilen: usize,
    pub data: &'a [u8],
}
fn word(b: &[u8], at: usize) -> usize {
    u32::from_le_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]) as usize
}
pub fn parse(b: &[u8]) -> (Request<'_>, usize) {
    let n = word(b, 22);
    let r = Request {
        func: b[0] as usize,
        full: b[1] != 0,
        n: [word(b, 2), word(b, 6), word(b, 10), word(b, 14)],
        ilen: word(b, 18),
        data: &b[HEAD..HEAD + n],
    };
    (r, HEAD + n)
}
pub fn hash(image: &[u32]) -> u64 {
    let mut h = 0x9e37_79b9_7f4a_7c15u64;
    for p in image {
        h = (h ^ *p as u64).wrapping_mul(0x94d0_49bb_1331_11eb);
        h ^= h >> 29;
    }
    h
}
