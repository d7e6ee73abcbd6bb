//! C26: what a decoder takes from the heap it gives back, and what it takes is bounded by its input.
//! The states are those of the other explorations; the oracle is the allocator (engine::Meter).
use super::*;
use std::sync::atomic::Ordering::Relaxed;

/// Crunch: the blocks of the largest level (each needs at least one bit), the declared palettes, the tables
pub fn crunch(d: &[u8]) -> usize {
    let be = |at: usize| if d.len() > at + 1 { d[at] as usize * 256 + d[at + 1] as usize } else { 0 };
    // palette sizes: colour and alpha end points and selectors
    let palettes = 4 * be(39) + 4 * be(47) + 2 * be(55) + 6 * be(63);
    TABLES + 2 * palettes + 160 * d.len()
}
const TABLES: usize = 1 << 20;
/// the parser keeps the offsets of up to 255 levels
pub const HEADER: usize = 4096;
/// PVRTC: one record per block
pub fn pvrtc(data: usize) -> usize {
    64 * (data / 8 + 1)
}
pub fn run(c: &Ctx) {
    METERED.store(true, Relaxed);
    let th = c.thorough();
    let mut it = vec![];
    it.extend(crnfault::fault_items(c));
    // the damaged files go deeper in the thorough tier, the intact ones do not
    let q = Ctx::new("C26", Tier::Quick, 4, vec![]);
    it.extend(crunch::items(&q, false));
    it.extend(crunch::items(&q, true));
    it.extend(crnfault::header_items(c));
    it.extend(image::contract_items(c));
    it.extend(image::raster_items(c));
    it.extend(pvrtc::items(c));
    if th {
        it.extend(astc::total(c));
    }
    c.run(it);
    c.note(format!(
        "{} executions took memory; the fullest used {}/1000 of what it may",
        ALLOCATING.load(Relaxed),
        TIGHTEST.load(Relaxed)
    ));
}
