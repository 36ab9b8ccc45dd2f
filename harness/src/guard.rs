//! A global allocator that, while switched on for the current thread, places
//! every allocation against an inaccessible page (after it, or before it), so
//! that an access outside the buffer faults; the rest of the page carries a
//! pattern that is checked when the buffer is released.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn munmap(a: *mut u8, l: usize) -> i32;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
}
const PAGE: usize = 4096;
const FILL: u8 = 0xA5;

thread_local! { static MODE: Cell<u8> = const { Cell::new(0) }; }
pub fn set(mode: u8) { MODE.with(|m| m.set(mode)); }

const SLOTS: usize = 4096;
#[derive(Clone, Copy)]
struct Slot { ptr: usize, base: usize, len: usize, size: usize }
struct Table(std::cell::UnsafeCell<[Slot; SLOTS]>);
unsafe impl Sync for Table {}
static TABLE: Table = Table(std::cell::UnsafeCell::new([Slot { ptr: 0, base: 0, len: 0, size: 0 }; SLOTS]));
static LOCK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static USED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub static DIRTY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
use std::sync::atomic::Ordering::SeqCst;

struct Held;
fn lock() -> Held { while LOCK.swap(true, SeqCst) { std::hint::spin_loop(); } Held }
impl Drop for Held { fn drop(&mut self) { LOCK.store(false, SeqCst); } }

pub struct Guarded;

unsafe fn place(layout: Layout, mode: u8) -> *mut u8 {
    let size = layout.size();
    let body = size.div_ceil(PAGE) * PAGE;
    let base = mmap(std::ptr::null_mut(), body + 2 * PAGE, 3, 0x22, -1, 0);
    if base as isize == -1 { return std::ptr::null_mut(); }
    mprotect(base, PAGE, 0);
    mprotect(base.add(PAGE + body), PAGE, 0);
    std::ptr::write_bytes(base.add(PAGE), FILL, body);
    let off = if mode == 1 { (body - size) & !(layout.align() - 1) } else { 0 };
    let ptr = base.add(PAGE + off);
    let _h = lock();
    let t = &mut *TABLE.0.get();
    for s in t.iter_mut() {
        if s.ptr == 0 {
            *s = Slot { ptr: ptr as usize, base: base as usize, len: body + 2 * PAGE, size };
            USED.fetch_add(1, SeqCst);
            return ptr;
        }
    }
    munmap(base, body + 2 * PAGE);
    System.alloc(layout)
}

unsafe fn release(ptr: *mut u8) -> bool {
    if USED.load(SeqCst) == 0 { return false; }
    let found = {
        let _h = lock();
        let t = &mut *TABLE.0.get();
        let mut f = None;
        for s in t.iter_mut() {
            if s.ptr == ptr as usize { f = Some(*s); s.ptr = 0; USED.fetch_sub(1, SeqCst); break; }
        }
        f
    };
    match found {
        None => false,
        Some(s) => {
            let lo = s.base + PAGE;
            let hi = s.base + s.len - PAGE;
            let mut p = lo;
            while p < hi {
                if (p < s.ptr || p >= s.ptr + s.size) && *(p as *const u8) != FILL { DIRTY.store(true, SeqCst); }
                p += 1;
            }
            munmap(s.base as *mut u8, s.len);
            true
        }
    }
}

unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let m = MODE.with(|m| m.get());
        if m == 0 { System.alloc(layout) } else { place(layout, m) }
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        if !release(ptr) { System.dealloc(ptr, layout) }
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        let m = MODE.with(|m| m.get());
        if m == 0 { return System.alloc_zeroed(layout); }
        let p = place(layout, m);
        if !p.is_null() { std::ptr::write_bytes(p, 0, layout.size()); }
        p
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new: usize) -> *mut u8 {
        if USED.load(SeqCst) == 0 && MODE.with(|m| m.get()) == 0 { return System.realloc(ptr, layout, new); }
        let l2 = Layout::from_size_align_unchecked(new, layout.align());
        let q = self.alloc(l2);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(ptr, q, layout.size().min(new));
            self.dealloc(ptr, layout);
        }
        q
    }
}
