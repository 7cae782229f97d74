//! A global allocator that makes memory errors of the code under test visible: fresh memory is filled with a
//! pattern (a read of bytes nobody wrote gives strange values), every block is surrounded by bytes that must not
//! change, freed blocks are overwritten, kept back for a while and must not be written to, and a block must be
//! freed once, with the layout it was made with. An error ends the process, which the driver records as a crash.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

pub struct Guard;

const MAGIC: u64 = 0x6375_6269_6e67_2121;
const FREED: u64 = 0x6672_6565_6421_2121;
const EDGE: u8 = 0xE7;
const DEAD: u8 = 0xDB;
const TAIL: usize = 32;
const HEAD: usize = 64; // magic, size, align, then edge bytes
const KEPT: usize = 4096;
const KEPT_SIZE: usize = 4096; // larger blocks are freed at once

static LOCK: AtomicBool = AtomicBool::new(false);
/// Every block is filled with another byte, so that two reads of bytes nobody wrote hardly ever agree.
static FRESH: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
/// Are freed blocks kept back? When they are not, a later block gets the address of an earlier one at once.
pub static KEEPING: AtomicBool = AtomicBool::new(true);
static mut KEEP: [(usize, usize); KEPT] = [(0, 0); KEPT]; // user pointer, align

fn die(what: &'static str) -> ! {
    // no allocation here
    unsafe {
        let (a, b) = ("memory error: ", "\n");
        for s in [a, what, b] {
            libc_write(2, s.as_ptr(), s.len());
        }
    }
    std::process::abort()
}

extern "C" {
    #[link_name = "write"]
    fn libc_write(fd: i32, p: *const u8, n: usize) -> isize;
}

fn head(align: usize) -> usize {
    HEAD.max(align)
}

unsafe fn full(size: usize, align: usize) -> Layout {
    Layout::from_size_align_unchecked(head(align) + size + TAIL, align.max(8))
}

unsafe fn all(p: *const u8, n: usize, v: u8) -> bool {
    std::slice::from_raw_parts(p, n).iter().all(|&x| x == v)
}

unsafe fn check_edges(p: *mut u8, size: usize) {
    if !all(p.sub(HEAD - 24), HEAD - 24, EDGE) {
        die("bytes before a block were overwritten");
    }
    if !all(p.add(size), TAIL, EDGE) {
        die("bytes after a block were overwritten");
    }
}

/// Gives a kept block back to the system, after checking that nobody wrote to it since it was freed.
unsafe fn release(p: *mut u8, align: usize) {
    let size = (p.sub(HEAD) as *const u64).add(1).read() as usize;
    if (p.sub(HEAD) as *const u64).read() != FREED || !all(p, size, DEAD) {
        die("a freed block was written to");
    }
    check_edges(p, size);
    System.dealloc(p.sub(head(align)), full(size, align));
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        crate::wire::MADE.fetch_add(1, Ordering::Relaxed);
        let base = System.alloc(full(l.size(), l.align()));
        if base.is_null() {
            return base;
        }
        let p = base.add(head(l.align()));
        let h = p.sub(HEAD) as *mut u64;
        h.write(MAGIC);
        h.add(1).write(l.size() as u64);
        h.add(2).write(l.align() as u64);
        p.sub(HEAD - 24).write_bytes(EDGE, HEAD - 24);
        p.add(l.size()).write_bytes(EDGE, TAIL);
        p.write_bytes(0x80 | (FRESH.fetch_add(0x35, Ordering::Relaxed) & 0x7F) as u8, l.size());
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = p.sub(HEAD) as *mut u64;
        match h.read() {
            MAGIC => {}
            FREED => die("a block was freed twice"),
            _ => die("bytes before a block were overwritten, or it was never allocated"),
        }
        if h.add(1).read() != l.size() as u64 || h.add(2).read() != l.align() as u64 {
            die("a block was freed with another layout than it was made with");
        }
        check_edges(p, l.size());
        h.write(FREED);
        p.write_bytes(DEAD, l.size());
        if l.size() > KEPT_SIZE || !KEEPING.load(Ordering::Relaxed) {
            System.dealloc(p.sub(head(l.align())), full(l.size(), l.align()));
            return;
        }
        while LOCK.swap(true, Ordering::Acquire) {
            std::hint::spin_loop();
        }
        let i = NEXT.load(Ordering::Relaxed);
        NEXT.store((i + 1) % KEPT, Ordering::Relaxed);
        let keep = std::ptr::addr_of_mut!(KEEP) as *mut (usize, usize);
        let old = keep.add(i).read();
        keep.add(i).write((p as usize, l.align()));
        LOCK.store(false, Ordering::Release);
        if old.0 != 0 {
            release(old.0 as *mut u8, old.1);
        }
    }
}
