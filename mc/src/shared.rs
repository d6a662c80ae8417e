//! Makes accesses to the program's writable static memory visible.
//!
//! While watching, the writable segments (.data, .bss) of the executable - which hold every static of
//! the code under test - are inaccessible.  Each access faults; the handler reports it as a scheduling
//! point, opens the segments, executes the one instruction with the trap flag and closes them again.
//! Between two such points (and the encoder's callbacks) a thread touches no static memory, so no
//! other thread can notice where in between it was stopped.
//!
//! Nothing here may itself touch a static between `watch` and `unwatch`: state lives on the heap and is
//! found through a thread-local pointer.

use std::cell::Cell;

pub struct Watch {
    ranges: Vec<(usize, usize)>,
    /// number of instructions after an access that are scheduling points as well
    pub window: u32,
}
pub type PointFn = fn(*const u8, usize);

thread_local! {
    static W: Cell<*const Watch> = const { Cell::new(std::ptr::null()) };
    static HOOK: Cell<Option<PointFn>> = const { Cell::new(None) };
    static CTX: Cell<*const u8> = const { Cell::new(std::ptr::null()) };
    static LEFT: Cell<u32> = const { Cell::new(0) };
    static OPEN: Cell<bool> = const { Cell::new(false) };
}

extern "C" {
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
    fn sigaction(sig: i32, a: *const SigAction, old: *mut SigAction) -> i32;
    fn signal(sig: i32, h: usize) -> usize;
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

impl Watch {
    /// The writable mappings of this executable.
    pub fn new(window: u32) -> Watch {
        let mut ranges: Vec<(usize, usize)> = Vec::new();
        let exe = std::env::current_exe().map(|p| p.display().to_string()).unwrap_or_default();
        let mut ours = false;
        for l in std::fs::read_to_string("/proc/self/maps").unwrap_or_default().lines() {
            let f: Vec<&str> = l.split_whitespace().collect();
            if f.len() < 5 {
                continue;
            }
            let Some((a, b)) = f[0].split_once('-') else { continue };
            let (a, b) = (usize::from_str_radix(a, 16).unwrap_or(0), usize::from_str_radix(b, 16).unwrap_or(0));
            let named = f.len() > 5 && f[5..].join(" ") == exe;
            // the anonymous mapping right behind the executable is the rest of .bss
            let follows = f.len() == 5 && ours && ranges.last().map_or(false, |r| r.1 == a);
            if (named || follows) && f[1].starts_with("rw") {
                ranges.push((a, b));
            }
            ours = named || follows;
        }
        Watch { ranges, window }
    }
    unsafe fn set(&self, prot: i32) {
        for &(a, b) in &self.ranges {
            mprotect(a as *mut u8, b - a, prot);
        }
    }
    fn has(&self, a: usize) -> bool {
        self.ranges.iter().any(|r| a >= r.0 && a < r.1)
    }
    pub fn close(&self) {
        unsafe { self.set(0) }
    }
    pub fn open(&self) {
        unsafe { self.set(3) }
    }
}

#[cfg(target_arch = "x86_64")]
mod arch {
    /// offsets into ucontext_t on x86_64 Linux: gregs start at 40; EFL is gregs[17], RIP gregs[16]
    pub unsafe fn flags(uc: *mut u8) -> *mut u64 {
        (uc.add(40) as *mut u64).add(17)
    }
}

#[cfg(target_arch = "x86_64")]
extern "C" fn on_fault(_sig: i32, info: *mut u8, uc: *mut u8) {
    unsafe {
        let addr = *(info.add(16) as *const usize);
        let w = W.with(|w| w.get());
        if w.is_null() || !(*w).has(addr) {
            // a real fault: let it end the process
            if !w.is_null() {
                (*w).open();
            }
            signal(11, 0);
            return;
        }
        // an instruction that touches the memory twice faults twice: one point
        if !OPEN.with(|o| o.get()) {
            if let Some(h) = HOOK.with(|h| h.get()) {
                h(CTX.with(|c| c.get()), addr);
            }
        }
        OPEN.with(|o| o.set(true));
        (*w).open();
        LEFT.with(|l| l.set((*w).window));
        *arch::flags(uc) |= 0x100;
    }
}
#[cfg(target_arch = "x86_64")]
extern "C" fn on_trap(_sig: i32, _info: *mut u8, uc: *mut u8) {
    unsafe {
        let w = W.with(|w| w.get());
        if w.is_null() {
            *arch::flags(uc) &= !0x100;
            return;
        }
        if OPEN.with(|o| o.replace(false)) {
            (*w).close();
        }
        let left = LEFT.with(|l| l.get());
        if left > 0 {
            LEFT.with(|l| l.set(left - 1));
            if let Some(h) = HOOK.with(|h| h.get()) {
                h(CTX.with(|c| c.get()), 0);
            }
            *arch::flags(uc) |= 0x100;
        } else {
            *arch::flags(uc) &= !0x100;
        }
    }
}

pub fn install() {
    #[cfg(target_arch = "x86_64")]
    unsafe {
        for (s, h) in [
            (11, on_fault as extern "C" fn(i32, *mut u8, *mut u8) as usize),
            (5, on_trap as extern "C" fn(i32, *mut u8, *mut u8) as usize),
        ] {
            // SA_SIGINFO | SA_NODEFER
            let a = SigAction { handler: h, mask: [0; 16], flags: 4 | 0x4000_0000, restorer: 0 };
            sigaction(s, &a, std::ptr::null_mut());
        }
    }
}

/// Every thread that may run while the segments are closed registers first.
pub fn register(w: &'static Watch, hook: Option<PointFn>, ctx: *const u8) {
    CTX.with(|c| c.set(ctx));
    HOOK.with(|h| h.set(hook));
    LEFT.with(|l| l.set(0));
    OPEN.with(|o| o.set(false));
    W.with(|x| x.set(w));
}
pub fn unregister() {
    W.with(|x| x.set(std::ptr::null()));
}

/// Does watching work here?  Counts the accesses of two known ones.
pub fn works() -> bool {
    use std::sync::atomic::{AtomicU32, Ordering};
    static PROBE: AtomicU32 = AtomicU32::new(7);
    if !cfg!(target_arch = "x86_64") {
        return false;
    }
    let w: &'static Watch = Box::leak(Box::new(Watch::new(0)));
    if w.ranges.is_empty() || !w.has(&PROBE as *const _ as usize) {
        return false;
    }
    fn count(c: *const u8, addr: usize) {
        let c = c as *const Cell<u32>;
        if addr != 0 {
            unsafe { (*c).set((*c).get() + 1) }
        }
    }
    let n: &'static Cell<u32> = Box::leak(Box::new(Cell::new(0)));
    install();
    register(w, Some(count), n as *const _ as *const u8);
    w.close();
    PROBE.fetch_add(1, Ordering::SeqCst);
    PROBE.store(PROBE.load(Ordering::SeqCst) + 1, Ordering::SeqCst);
    w.open();
    unregister();
    n.get() == 3 && PROBE.load(Ordering::SeqCst) == 9
}
