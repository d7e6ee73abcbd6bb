//! The crate under test on other targets: a WebAssembly module driven by js/worker.js, and a
//! bare big-endian program driven by the harness's interpreter.
#![no_std]
#![cfg_attr(target_arch = "mips", feature(asm_experimental_arch))]
extern crate alloc;
#[cfg(target_os = "none")]
mod bare;
#[cfg(any(target_arch = "wasm32", target_os = "none"))]
mod table {
    use texture2ddecoder as t;
    include!("table.rs");
}
#[cfg(target_arch = "wasm32")]
mod wire;
#[cfg(target_arch = "wasm32")]
mod wasm {
    use crate::{table, wire};
    use core::alloc::{GlobalAlloc, Layout};
    use core::cell::UnsafeCell;

    const PAGE: usize = 65536;
    struct Bump(UnsafeCell<usize>);
    unsafe impl Sync for Bump {}
    unsafe impl GlobalAlloc for Bump {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let at = &mut *self.0.get();
            let Some(start) = at.checked_add(l.align() - 1) else { return core::ptr::null_mut() };
            let start = start & !(l.align() - 1);
            let Some(end) = start.checked_add(l.size()) else { return core::ptr::null_mut() };
            if !reserve(end) {
                return core::ptr::null_mut();
            }
            *at = end;
            start as *mut u8
        }
        unsafe fn dealloc(&self, _: *mut u8, _: Layout) {}
    }
    #[global_allocator]
    static HEAP: Bump = Bump(UnsafeCell::new(0));
    fn reserve(end: usize) -> bool {
        let have = core::arch::wasm32::memory_size(0);
        let need = end.div_ceil(PAGE);
        need <= have || core::arch::wasm32::memory_grow(0, need - have) != usize::MAX
    }
    #[panic_handler]
    fn panic(_: &core::panic::PanicInfo) -> ! {
        core::arch::wasm32::unreachable()
    }

    struct Shared(UnsafeCell<[usize; 4]>);
    unsafe impl Sync for Shared {}
    /// requests answered, bytes of input read, bytes of output written, input buffer
    static STATE: Shared = Shared(UnsafeCell::new([0; 4]));

    extern "C" {
        static __heap_base: u8;
    }
    /// Room for a batch of `size` bytes and `out` bytes of answers; the code under test
    /// allocates behind it.
    #[no_mangle]
    pub extern "C" fn buffer(size: usize, out: usize) -> usize {
        unsafe {
            let base = (&__heap_base as *const u8 as usize + 15) & !15;
            let end = base + size + out + 32;
            if !reserve(end) {
                core::arch::wasm32::unreachable()
            }
            *HEAP.0.get() = end;
            *STATE.0.get() = [0, 0, 0, base];
            base
        }
    }
    #[no_mangle]
    pub extern "C" fn progress(i: usize) -> usize {
        unsafe { (&*STATE.0.get())[i] }
    }
    #[no_mangle]
    pub extern "C" fn run(count: usize, size: usize) {
        unsafe {
            let s = &mut *STATE.0.get();
            let input = core::slice::from_raw_parts(s[3] as *const u8, size);
            let out = (s[3] + size) as *mut u8;
            let mark = *HEAP.0.get();
            while s[0] < count {
                let (r, used) = wire::parse(&input[s[1]..]);
                let mut img = alloc::vec![wire::PREFILL; r.ilen];
                let ok = table::call(r.func, r.n, r.data, &mut img);
                let mut put = |b: &[u8]| {
                    core::ptr::copy_nonoverlapping(b.as_ptr(), out.add(s[2]), b.len());
                    s[2] += b.len();
                };
                put(&[!ok as u8]);
                put(&wire::hash(&img).to_le_bytes());
                if r.full {
                    img.iter().for_each(|p| put(&p.to_le_bytes()));
                }
                s[0] += 1;
                s[1] += used;
                *HEAP.0.get() = mark;
            }
        }
    }
}
