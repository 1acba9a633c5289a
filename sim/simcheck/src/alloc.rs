//! Global allocator that remembers the largest single allocation the program under simulation asked for, and that gives
//! macro expansions a heap of their own at a fixed place, so that even addresses follow from the scenario.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering};

pub struct Watch;
static MAX: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static MACRO: Cell<bool> = const { Cell::new(false) };
}
const BASE: usize = 0x2000_0000_0000;
const SIZE: usize = 3 << 30;
static NEXT: AtomicUsize = AtomicUsize::new(0);

pub fn in_macro() -> bool {
    MACRO.try_with(|m| m.get()).unwrap_or(false)
}
pub fn macro_mode(on: bool) {
    if on && NEXT.load(Ordering::SeqCst) == 0 {
        unsafe {
            let p = libc::mmap(
                BASE as *mut libc::c_void,
                SIZE,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
                -1,
                0,
            );
            assert!(p as usize == BASE, "no room for the macros' heap");
        }
        NEXT.store(BASE, Ordering::SeqCst);
    }
    MACRO.with(|m| m.set(on));
}
pub fn macro_gap(n: usize) {
    if NEXT.load(Ordering::SeqCst) == 0 {
        macro_mode(true);
        macro_mode(false);
    }
    NEXT.fetch_add(n * 16, Ordering::SeqCst);
}
fn bump(l: Layout) -> *mut u8 {
    let need = l.size() + l.align();
    let at = NEXT.fetch_add((need + 15) & !15, Ordering::SeqCst);
    if at + need > BASE + SIZE {
        return std::ptr::null_mut();
    }
    ((at + l.align() - 1) & !(l.align() - 1)) as *mut u8
}
fn ours(p: *mut u8) -> bool {
    (p as usize).wrapping_sub(BASE) < SIZE && NEXT.load(Ordering::Relaxed) != 0
}

fn program() -> bool {
    simrt::ctx::IN_PROGRAM.try_with(|x| x.get()).unwrap_or(false)
}
fn note(n: usize) {
    if n > 65_536 && program() {
        MAX.fetch_max(n, Ordering::Relaxed);
    }
}

// Every block of ordinary alignment carries a word in front that says whether the program under simulation asked for it, so
// that what the program holds can be told from what the simulator holds.
static LIVE: AtomicIsize = AtomicIsize::new(0);
static PEAK: AtomicIsize = AtomicIsize::new(0);
const HEAD: usize = 16;
fn tagged(l: &Layout) -> bool {
    l.align() <= HEAD
}
unsafe fn grown(l: &Layout) -> Layout {
    Layout::from_size_align_unchecked(l.size() + HEAD, HEAD)
}
fn more(n: usize) {
    let now = LIVE.fetch_add(n as isize, Ordering::Relaxed) + n as isize;
    PEAK.fetch_max(now, Ordering::Relaxed);
}
unsafe fn tag(p: *mut u8, n: usize) -> *mut u8 {
    if p.is_null() {
        return p;
    }
    let mine = program();
    *(p as *mut usize) = mine as usize;
    if mine {
        more(n);
    }
    p.add(HEAD)
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if in_macro() {
            return bump(l);
        }
        note(l.size());
        if tagged(&l) {
            return tag(System.alloc(grown(&l)), l.size());
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if in_macro() {
            return bump(l); // fresh pages, never used twice
        }
        note(l.size());
        if tagged(&l) {
            return tag(System.alloc_zeroed(grown(&l)), l.size());
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ours(p) {
            return;
        }
        if tagged(&l) {
            let q = p.sub(HEAD);
            if *(q as *mut usize) == 1 {
                LIVE.fetch_sub(l.size() as isize, Ordering::Relaxed);
            }
            return System.dealloc(q, grown(&l));
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ours(p) || in_macro() {
            let new = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !new.is_null() {
                std::ptr::copy_nonoverlapping(p, new, l.size().min(n));
                self.dealloc(p, l);
            }
            return new;
        }
        note(n);
        if tagged(&l) {
            let q = p.sub(HEAD);
            let mine = *(q as *mut usize) == 1;
            let new = System.realloc(q, grown(&l), n + HEAD);
            if new.is_null() {
                return new;
            }
            if mine {
                LIVE.fetch_sub(l.size() as isize, Ordering::Relaxed);
                more(n);
            }
            return new.add(HEAD);
        }
        System.realloc(p, l, n)
    }
}

pub fn reset() {
    let _ = simrt::ctx::HELD.set(live);
    MAX.store(0, Ordering::Relaxed);
    LIVE.store(0, Ordering::Relaxed);
    PEAK.store(0, Ordering::Relaxed);
}
pub fn max() -> u64 {
    MAX.load(Ordering::Relaxed) as u64
}
/// what the program under simulation holds now
pub fn live() -> u64 {
    LIVE.load(Ordering::Relaxed).max(0) as u64
}
/// the most the program under simulation held at one time
pub fn peak() -> u64 {
    PEAK.load(Ordering::Relaxed).max(0) as u64
}
