//! The crate under test as a bare big-endian 32-bit program: the harness loads it into an
//! interpreter, writes a request and an image into its memory and calls `answer`.
use crate::table;
use core::alloc::{GlobalAlloc, Layout};
use core::cell::UnsafeCell;

/// Where the next allocation goes and where memory ends; both are set by the harness.
#[repr(C)]
pub struct Heap(UnsafeCell<[usize; 2]>);
unsafe impl Sync for Heap {}
#[global_allocator]
#[no_mangle]
pub static HEAP: Heap = Heap(UnsafeCell::new([0; 2]));
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let h = &mut *self.0.get();
        let start = (h[0] + l.align() - 1) & !(l.align() - 1);
        match start.checked_add(l.size()) {
            Some(end) if end <= h[1] => {
                h[0] = end;
                start as *mut u8
            }
            // no memory left: not a fault of the code under test
            _ => core::arch::asm!("break 77", options(noreturn)),
        }
    }
    // what was taken last can be given back and resized
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = &mut *self.0.get();
        if p as usize + l.size() == h[0] {
            h[0] = p as usize;
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        let h = &mut *self.0.get();
        if p as usize + l.size() == h[0] && size <= h[1] - p as usize {
            h[0] = p as usize + size;
            return p;
        }
        let q = self.alloc(Layout::from_size_align_unchecked(size, l.align()));
        core::ptr::copy_nonoverlapping(p, q, size.min(l.size()));
        self.dealloc(p, l);
        q
    }
}
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    unsafe { core::arch::asm!("break 78", options(noreturn)) }
}
/// function, four numbers, image, its length, data, its length
#[no_mangle]
pub unsafe extern "C" fn answer(r: *const [usize; 9]) -> usize {
    let r = &*r;
    let img = core::slice::from_raw_parts_mut(r[5] as *mut u32, r[6]);
    let data = core::slice::from_raw_parts(r[7] as *const u8, r[8]);
    !table::call(r[0], [r[1], r[2], r[3], r[4]], data, img) as usize
}
