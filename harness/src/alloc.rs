//! Guarded allocator: fresh memory is poisoned, every block has a red zone
//! on either side that is checked when the block is freed, freed memory is
//! poisoned again, and growing always moves. Reads of memory that holds no
//! coefficient therefore see the poison (which the instrumented scalar
//! recognises), and writes past either end of a block abort the process.
use std::alloc::{GlobalAlloc, Layout, System};

pub struct Guarded;

const ZONE: usize = 64;
const FRESH: u8 = 0xA5;
const DEAD: u8 = 0x5A;
const GUARD: u8 = 0xC3;

fn front(l: Layout) -> usize {
    l.align().max(ZONE)
}
fn padded(l: Layout) -> Layout {
    Layout::from_size_align(l.size() + front(l) + ZONE, l.align()).unwrap()
}
fn overrun() -> ! {
    let msg = b"heap block overrun: a write past an end of an allocation\n";
    unsafe {
        libc::write(2, msg.as_ptr() as *const _, msg.len());
        libc::abort();
    }
}

unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(padded(l));
        if p.is_null() {
            return p;
        }
        std::ptr::write_bytes(p, GUARD, front(l));
        let q = p.add(front(l));
        std::ptr::write_bytes(q, FRESH, l.size());
        std::ptr::write_bytes(q.add(l.size()), GUARD, ZONE);
        q
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let after = std::slice::from_raw_parts(p.add(l.size()), ZONE);
        let before = std::slice::from_raw_parts(p.sub(front(l)), front(l));
        if after.iter().any(|&b| b != GUARD) || before.iter().any(|&b| b != GUARD) {
            overrun();
        }
        std::ptr::write_bytes(p, DEAD, l.size());
        System.dealloc(p.sub(front(l)), padded(l));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}
