//! Electric fence: while switched on for a thread, every allocation gets its own pages in a
//! reserved arena, with inaccessible pages on both sides, adjoining one end of the block.
//! Freed blocks become inaccessible at once.  Slack bytes between the block and its pages'
//! other end carry a canary that is checked on release.  Fresh memory is filled with a pattern.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
    fn madvise(a: *mut u8, l: usize, adv: i32) -> i32;
    fn signal(sig: i32, h: usize) -> usize;
    fn write(fd: i32, b: *const std::ffi::c_void, l: usize) -> isize;
    fn _exit(c: i32) -> !;
}
const RW: i32 = 3;
const PAGE: usize = 4096;
const ARENA: usize = 64 << 30;
const CANARY: u8 = 0xC7;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static FILL: Cell<u8> = const { Cell::new(0) };
    static START: Cell<bool> = const { Cell::new(false) };
}
static mut BASE: usize = 0;
static mut NEXT: usize = 0;
/// Where the part of the arena that is used again for every case begins.
static mut FLOOR: usize = 0;
/// The guarded heap blocks that are alive: (first page, end of the last page).
static mut LIVE: *mut (usize, usize) = std::ptr::null_mut();
static mut LIVES: usize = 0;
const LIVE_MAX: usize = 1 << 22;
static LOCK: AtomicBool = AtomicBool::new(false);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);

/// The case being run, for the report of a crash.
pub struct Current(UnsafeCell<[u8; 4096]>, UnsafeCell<usize>);
unsafe impl Sync for Current {}
pub static CURRENT: Current = Current(UnsafeCell::new([0; 4096]), UnsafeCell::new(0));

pub fn announce(s: &str) {
    unsafe {
        let n = s.len().min(4096);
        (&mut *CURRENT.0.get())[..n].copy_from_slice(&s.as_bytes()[..n]);
        *CURRENT.1.get() = n;
    }
}
/// Reports the current case and ends the process (async-signal-safe).
pub fn die(why: &[u8]) -> ! {
    unsafe {
        let b = &*CURRENT.0.get();
        let n = *CURRENT.1.get();
        write(1, b"\nCRASH ".as_ptr() as _, 7);
        write(1, why.as_ptr() as _, why.len());
        write(1, b" | ".as_ptr() as _, 3);
        write(1, b.as_ptr() as _, n);
        write(1, b"\n".as_ptr() as _, 1);
        _exit(3)
    }
}
extern "C" fn on_signal(sig: i32) {
    die(match sig {
        11 => b"access to memory outside every live block (SIGSEGV)",
        7 => b"SIGBUS",
        6 => b"abort",
        4 => b"SIGILL",
        _ => b"signal",
    })
}
pub fn install_handlers() {
    unsafe {
        for s in [4, 6, 7, 11] {
            signal(s, on_signal as extern "C" fn(i32) as usize);
        }
    }
}
pub fn init_arena() {
    unsafe {
        if BASE == 0 {
            // PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
            let p = mmap(std::ptr::null_mut(), ARENA, 0, 0x2 | 0x20 | 0x4000, -1, 0);
            if p as isize == -1 {
                eprintln!("cannot reserve the guarded arena");
                _exit(9);
            }
            BASE = p as usize;
            NEXT = BASE + PAGE;
            FLOOR = NEXT;
            let bytes = LIVE_MAX * std::mem::size_of::<(usize, usize)>();
            let t = mmap(std::ptr::null_mut(), bytes, RW, 0x2 | 0x20 | 0x4000, -1, 0);
            if t as isize == -1 {
                eprintln!("cannot reserve the table of guarded blocks");
                _exit(9);
            }
            LIVE = t as *mut (usize, usize);
        }
    }
}
fn locked<T>(f: impl FnOnce() -> T) -> T {
    while LOCK.swap(true, Ordering::Acquire) {
        std::hint::spin_loop();
    }
    let r = f();
    LOCK.store(false, Ordering::Release);
    r
}
/// Switches the fence on for this thread.
pub fn on(start: bool, fill: u8) {
    START.with(|s| s.set(start));
    FILL.with(|s| s.set(fill));
    ON.with(|o| o.set(true));
}
pub fn off() {
    ON.with(|o| o.set(false));
}
/// Makes everything used since the last call inaccessible and reusable, except heap blocks that
/// are still alive (a cache the code keeps for the whole process, say) and what lies below them.
pub fn reset() {
    locked(|| unsafe {
        let live = std::slice::from_raw_parts_mut(LIVE, LIVES);
        live.sort_unstable();
        let mut from = FLOOR;
        for &mut (a, e) in live {
            if a >= from {
                if a > from {
                    close(from, a);
                }
                from = e;
                FLOOR = e + PAGE;
            }
        }
        if NEXT > from {
            close(from, NEXT);
        }
        NEXT = FLOOR;
    })
}
unsafe fn close(from: usize, to: usize) {
    mprotect(from as *mut u8, to - from, 0);
    madvise(from as *mut u8, to - from, 4);
}
fn inside(p: *mut u8) -> bool {
    unsafe { BASE != 0 && (p as usize) >= BASE && (p as usize) < BASE + ARENA }
}

/// A guarded copy of `data` whose first `len` bytes are accessible; the slice has `claim` bytes.
/// `start`: the block starts right after an inaccessible page, else it ends right before one.
pub unsafe fn place(data: &[u8], claim: usize, start: bool) -> &'static [u8] {
    let len = data.len();
    let pages = (len + PAGE - 1) / PAGE * PAGE;
    let p = take(pages.max(PAGE) + (claim - len).div_ceil(PAGE) * PAGE, pages);
    let at = if start { p } else { p + pages - len };
    if len > 0 {
        std::ptr::copy_nonoverlapping(data.as_ptr(), at as *mut u8, len);
    }
    std::slice::from_raw_parts(at as *const u8, claim)
}
/// Takes `span` bytes of the arena, the first `open` of them accessible.
unsafe fn take(span: usize, open: usize) -> usize {
    let p = locked(|| {
        let p = NEXT;
        NEXT += span + PAGE;
        if NEXT > BASE + ARENA {
            die(b"harness: arena exhausted");
        }
        p
    });
    if open > 0 && mprotect(p as *mut u8, open, RW) != 0 {
        die(b"harness: mprotect failed");
    }
    p
}

pub struct Fence;
unsafe impl GlobalAlloc for Fence {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON.try_with(|o| o.get()).unwrap_or(false) {
            return System.alloc(l);
        }
        ALLOCS.fetch_add(1, Ordering::Relaxed);
        let pages = (l.size() + PAGE - 1) / PAGE * PAGE;
        if l.align() > PAGE {
            return std::ptr::null_mut();
        }
        let p = take(pages, pages);
        locked(|| {
            if LIVES == LIVE_MAX {
                die(b"harness: too many live blocks");
            }
            *LIVE.add(LIVES) = (p, p + pages);
            LIVES += 1;
        });
        let start = START.with(|s| s.get());
        let at = if start { p } else { (p + pages - l.size()) & !(l.align() - 1) };
        std::ptr::write_bytes(p as *mut u8, CANARY, at - p);
        std::ptr::write_bytes(at as *mut u8, FILL.with(|f| f.get()), l.size());
        std::ptr::write_bytes((at + l.size()) as *mut u8, CANARY, p + pages - at - l.size());
        at as *mut u8
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !inside(p) {
            return System.dealloc(p, l);
        }
        let a = p as usize;
        let first = a & !(PAGE - 1);
        let end = (a + l.size() + PAGE - 1) & !(PAGE - 1);
        let ok = |from: usize, to: usize| (from..to).all(|x| *(x as *const u8) == CANARY);
        if !ok(first, a) || !ok(a + l.size(), end) {
            die(b"write outside a heap block (canary)");
        }
        locked(|| {
            match (0..LIVES).rev().find(|&i| *LIVE.add(i) == (first, end)) {
                Some(i) => {
                    *LIVE.add(i) = *LIVE.add(LIVES - 1);
                    LIVES -= 1;
                }
                None => die(b"a heap block released twice or with another size"),
            }
        });
        if end > first {
            mprotect(first as *mut u8, end - first, 0);
        }
    }
}
