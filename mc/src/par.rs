//! Exhaustive parallel enumeration of finite spaces, with a hang watchdog.

use crate::case::Case;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// A finite, indexable set of cases.
pub struct Space<'a> {
    pub name: String,
    pub n: u64,
    pub get: Box<dyn Fn(u64) -> Option<Case> + Sync + 'a>,
}

impl<'a> Space<'a> {
    pub fn new(name: &str, n: u64, get: impl Fn(u64) -> Option<Case> + Sync + 'a) -> Space<'a> {
        Space { name: name.to_string(), n, get: Box::new(get) }
    }
    pub fn list(name: &str, v: Vec<Case>) -> Space<'a> {
        let n = v.len() as u64;
        Space { name: name.to_string(), n, get: Box::new(move |i| Some(v[i as usize].clone())) }
    }
}

/// What a judge reports for one case.
#[derive(Default, Clone)]
pub struct Obs {
    /// fingerprint of the observed behaviour (normally of the output bytes); 0: not counted
    pub hash: u64,
    /// executions of the code under test
    pub execs: u64,
    /// counted as non-trivial
    pub nontrivial: bool,
}

pub struct Violation {
    pub replay: String,
    pub what: String,
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(1, 16)
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
    }
    for &x in it.remainder() {
        h = (h ^ x as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h ^= b.len() as u64;
    h = h.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    h ^ (h >> 32) | 1
}

pub struct Totals {
    pub cases: u64,
    pub execs: u64,
    pub distinct: u64,
    pub samples: Vec<String>,
    pub per_space: Vec<(String, u64)>,
}

pub const HANG_SECS: u64 = 120;

/// What each worker is doing, so that a crash (memory fault, abort, stack overflow) inside the code
/// under test is reported as a violation on that case instead of ending the check without a verdict.
struct Doing {
    prop: *const str,
    describe: *const (dyn Fn(u64) -> String + Sync),
    i: u64,
}
thread_local! {
    static DOING: std::cell::Cell<*const Doing> = const { std::cell::Cell::new(std::ptr::null()) };
    static SLOT: std::cell::Cell<*const Mutex<Option<(Instant, u64)>>> = const { std::cell::Cell::new(std::ptr::null()) };
}
/// A long case reports that it makes progress (to the hang watchdog).
pub fn still_running() {
    let s = SLOT.with(|s| s.get());
    if !s.is_null() {
        // set only while the slots are alive
        if let Some(x) = unsafe { &*s }.lock().unwrap().as_mut() {
            x.0 = Instant::now();
        }
    }
}
extern "C" {
    fn sigaction(sig: i32, a: *const SigAction, old: *mut SigAction) -> i32;
    fn alarm(s: u32) -> u32;
    fn _exit(c: i32) -> !;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" fn crashed(sig: i32) {
    static FIRST: AtomicBool = AtomicBool::new(true);
    unsafe {
        let d = DOING.with(|x| x.replace(std::ptr::null()));
        if !FIRST.swap(false, Ordering::SeqCst) {
            if d.is_null() {
                eprintln!("harness: signal {} while reporting a crash", sig);
                _exit(2); // in the reporting thread itself
            }
            loop {
                std::thread::sleep(Duration::from_secs(1)); // another thread is reporting
            }
        }
        alarm(20);
        if d.is_null() {
            eprintln!("harness: signal {} outside any case", sig);
            _exit(2);
        }
        let d = &*d;
        let name = match sig {
            11 | 7 => "memory fault (or stack overflow)",
            6 => "abort (stack overflow or memory exhausted)",
            8 => "arithmetic fault",
            _ => "illegal instruction",
        };
        let v = Violation { replay: (*d.describe)(d.i), what: format!("the process crashed: {}", name) };
        crate::report::print_violation(&*d.prop, &v);
        use std::io::Write;
        let _ = std::io::stdout().flush();
        _exit(1)
    }
}
/// Crash handlers (main process of a check), and a limit on its address space.
pub fn guard_process() {
    unsafe {
        for s in [4, 6, 7, 8, 11] {
            // SA_ONSTACK | SA_NODEFER
            let a = SigAction { handler: crashed as extern "C" fn(i32) as usize, mask: [0; 16], flags: 0x0800_0000 | 0x4000_0000, restorer: 0 };
            sigaction(s, &a, std::ptr::null_mut());
        }
    }
}
pub fn limit_memory(bytes: u64) {
    unsafe {
        setrlimit(9, &[bytes, u64::MAX]);
    }
}

/// Generic parallel loop over `0..n`; `f` returns an error text (violation) with replay text.
pub fn for_all(
    n: u64,
    prop: &str,
    describe: &(dyn Fn(u64) -> String + Sync),
    f: &(dyn Fn(u64, usize) -> Result<Obs, Violation> + Sync),
    seen: &Seen,
) -> Result<(u64, u64), Violation> {
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let cases = AtomicU64::new(0);
    let execs = AtomicU64::new(0);
    let found: Mutex<Option<(u64, Violation)>> = Mutex::new(None);
    let nt = threads().min(n.max(1) as usize);
    let slots: Vec<Mutex<Option<(Instant, u64)>>> = (0..nt).map(|_| Mutex::new(None)).collect();
    let done = AtomicU64::new(0);
    let chunk = (n / (nt as u64 * 64)).clamp(1, 64);
    std::thread::scope(|s| {
        for t in 0..nt {
            let (next, stop, cases, execs, found, slots, done) =
                (&next, &stop, &cases, &execs, &found, &slots, &done);
            std::thread::Builder::new()
                .stack_size(32 << 20)
                .spawn_scoped(s, move || {
                    let mut local = HashSet::new();
                    // the borrows outlive the scope of the threads
                    let mut doing = Doing {
                        prop,
                        describe: unsafe { std::mem::transmute::<&(dyn Fn(u64) -> String + Sync), &'static (dyn Fn(u64) -> String + Sync)>(describe) },
                        i: 0,
                    };
                    loop {
                        let a = next.fetch_add(chunk, Ordering::Relaxed);
                        if a >= n || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        for i in a..(a + chunk).min(n) {
                            *slots[t].lock().unwrap() = Some((Instant::now(), i));
                            doing.i = i;
                            DOING.with(|d| d.set(&doing));
                            SLOT.with(|s| s.set(&slots[t]));
                            let r = f(i, t);
                            SLOT.with(|s| s.set(std::ptr::null()));
                            DOING.with(|d| d.set(std::ptr::null()));
                            match r {
                                Ok(o) => {
                                    if o.execs > 0 {
                                        cases.fetch_add(1, Ordering::Relaxed);
                                        execs.fetch_add(o.execs, Ordering::Relaxed);
                                        if o.nontrivial && o.hash != 0 {
                                            local.insert(o.hash);
                                        }
                                    }
                                }
                                Err(v) => {
                                    let mut g = found.lock().unwrap();
                                    if g.as_ref().map_or(true, |x| i < x.0) {
                                        *g = Some((i, v));
                                    }
                                    stop.store(true, Ordering::Relaxed);
                                    break;
                                }
                            }
                        }
                        *slots[t].lock().unwrap() = None;
                        if local.len() > 4096 {
                            seen.add(&mut local);
                        }
                    }
                    *slots[t].lock().unwrap() = None;
                    seen.add(&mut local);
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .expect("spawn");
        }
        // watchdog
        let mut tick = 0u32;
        while done.load(Ordering::SeqCst) < nt as u64 {
            std::thread::sleep(Duration::from_millis(if tick < 50 { 2 } else { 20 }));
            tick += 1;
            if tick % 50 == 0 {
                for s in &slots {
                    let g = s.lock().unwrap();
                    if let Some((t0, i)) = *g {
                        if t0.elapsed() > Duration::from_secs(HANG_SECS) {
                            let v = Violation {
                                replay: describe(i),
                                what: format!("no result after {} s (does not terminate)", HANG_SECS),
                            };
                            crate::report::violation_exit(prop, &v);
                        }
                    }
                }
            }
        }
    });
    if let Some((_, v)) = found.into_inner().unwrap() {
        return Err(v);
    }
    Ok((cases.into_inner(), execs.into_inner()))
}

pub struct Seen {
    shards: Vec<Mutex<HashSet<u64>>>,
}
impl Default for Seen {
    fn default() -> Self {
        Seen { shards: (0..64).map(|_| Mutex::new(HashSet::new())).collect() }
    }
}
impl Seen {
    pub fn add(&self, l: &mut HashSet<u64>) {
        let mut by: Vec<Vec<u64>> = vec![Vec::new(); 64];
        for h in l.drain() {
            by[(h >> 20) as usize & 63].push(h);
        }
        for (s, v) in self.shards.iter().zip(by) {
            if !v.is_empty() {
                s.lock().unwrap().extend(v);
            }
        }
    }
    pub fn len(&self) -> u64 {
        self.shards.iter().map(|s| s.lock().unwrap().len() as u64).sum()
    }
    pub fn insert(&self, h: u64) -> bool {
        self.shards[(h >> 20) as usize & 63].lock().unwrap().insert(h)
    }
}

pub type Judge<'a> = dyn Fn(&Case, usize) -> Result<Obs, String> + Sync + 'a;

/// Runs `judge` on every case of every space.
pub fn explore(
    prop: &str,
    spaces: &[Space],
    judge: &Judge,
) -> Result<Totals, Violation> {
    let seen = Seen::default();
    let mut t = Totals { cases: 0, execs: 0, distinct: 0, samples: Vec::new(), per_space: Vec::new() };
    for s in spaces {
        let t0 = Instant::now();
        let (c, e) = for_all(
            s.n,
            prop,
            &|i| (s.get)(i).map(|c| c.to_string()).unwrap_or_default(),
            &|i, th| match (s.get)(i) {
                None => Ok(Obs::default()),
                Some(c) => match crate::enc::caught(|| judge(&c, th)) {
                    Ok(Ok(o)) => Ok(o),
                    Ok(Err(w)) => Err(Violation { replay: c.to_string(), what: w }),
                    Err(p) => Err(Violation {
                        replay: c.to_string(),
                        what: format!("panic outside the encode call: {}", p),
                    }),
                },
            },
            &seen,
        )?;
        t.cases += c;
        t.execs += e;
        t.per_space.push((s.name.clone(), c));
        if let Some(x) = (0..s.n).rev().find_map(|i| (s.get)(i)) {
            let mut x = x.to_string();
            if x.len() > 400 {
                x.truncate(400);
                x.push_str("...");
            }
            t.samples.push(format!("[{}] {}", s.name, x));
        }
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("  {:<28} {:>9} cases {:>9} execs {:6.2} s", s.name, c, e, t0.elapsed().as_secs_f64());
        }
    }
    t.distinct = seen.len();
    Ok(t)
}
