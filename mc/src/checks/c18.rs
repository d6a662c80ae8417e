//! C18: encoders do not influence one another: in sequence, nested in callbacks, or on two
//! threads, under every schedule with up to two preemptions at the callbacks and at the accesses to
//! static memory (see `shared`).
//!
//! The reference for every job is its outcome in a process of its own.

use super::*;
use std::cell::{Cell, RefCell};
use std::process::{Command, Stdio};
use std::sync::{Arc, Condvar};
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Trouble {
    None,
    /// the slice is one byte short
    Short,
    PanicRow(u16),
    FailWrite(usize),
    PanicWrite(usize),
    /// configured, never used
    Drop,
}
#[derive(Clone)]
struct Job {
    c: Case,
    trouble: Trouble,
}

fn jobs() -> Vec<Job> {
    let b = Case { color: 1, w: 19, h: 18, q: 85, content: Content::Pat(0, 1), ..Case::default() };
    let j = |c: Case, trouble: Trouble| Job { c, trouble };
    vec![
        j(Case { ..b.clone() }, Trouble::None),
        j(Case { q: 40, opt: true, samp: 0, w: 35, h: 11, entry: Entry::Buffer, content: Content::Pat(3, 2), ..b.clone() }, Trouble::None),
        j(Case { color: 0, prog: 3, rst: 2, ql: Qt::Lin(2), content: Content::Pat(1, 3), ..b.clone() }, Trouble::None),
        j(Case { color: 8, prog: 2, opt: true, entry: Entry::Buffer, rst: 1, ..b.clone() }, Trouble::None),
        j(Case { color: 6, samp: 4, rst: 3, apps: vec![App::Icc(20, 1)], dens: (1, 3, 4), ..b.clone() }, Trouble::None),
        j(Case { color: 7, w: 9, h: 26, entry: Entry::Buffer, ql: Qt::Preset(5), qc: Qt::Preset(2), q: 97, ..b.clone() }, Trouble::None),
        j(Case { opt: true, samp: 4, entry: Entry::Buffer, ..b.clone() }, Trouble::PanicRow(9)),
        j(Case { color: 2, opt: true, rst: 1, samp: 0, ..b.clone() }, Trouble::FailWrite(700)),
        j(Case { color: 0, prog: 4, opt: true, ..b.clone() }, Trouble::Short),
        j(Case { color: 5, samp: 0, q: 99, ..b.clone() }, Trouble::PanicWrite(650)),
        // the same image and settings as job 0 but for one setting
        j(Case { q: 86, ..b.clone() }, Trouble::None),
        j(Case { var: Var::Simd, ..b.clone() }, Trouble::None),
        j(Case { var: Var::Simd, color: 3, w: 27, h: 18, q: 30, opt: true, prog: 5, entry: Entry::Buffer, ..b.clone() }, Trouble::None),
        j(Case { var: Var::NoStd, color: 6, w: 19, h: 8, q: 30, opt: true, entry: Entry::Buffer, rst: 2, ..b.clone() }, Trouble::None),
    ]
}

/// The menu for pairs in sequence: the jobs above, then everything one setting away from two bases.
fn menu() -> Vec<Job> {
    let mut v = jobs();
    for (i, base) in [crate::dev::plain(), crate::dev::busy()].into_iter().enumerate() {
        let s = crate::dev::deviations("", base, 1, true, &[]);
        for k in 0..s.n {
            if let Some(c) = (s.get)(k) {
                let apps: usize = c.apps.iter().map(|a| match a { App::Seg(_, l, _) | App::Icc(l, _) => *l }).sum();
                if apps < 200_000 {
                    let t = if (k + i as u64) % 41 == 7 { Trouble::Drop } else { Trouble::None };
                    v.push(Job { c, trouble: t });
                }
            }
        }
    }
    // tables, images and segments that a careless key would take for the same
    let base = Case { q: 90, w: 24, h: 18, ..crate::dev::plain() };
    let t0: Vec<u16> = (0..64).map(|i| 3 + (i * 37 % 64) as u16 * 3 / 2).collect();
    let mut tables = vec![t0.clone()];
    let mut with = |f: &dyn Fn(&mut Vec<u16>)| {
        let mut t = t0.clone();
        f(&mut t);
        tables.push(t);
    };
    with(&|t| t.reverse());
    with(&|t| t.swap(1, 62));
    with(&|t| t.swap(28, 35));
    with(&|t| t.rotate_left(8));
    with(&|t| t.sort());
    with(&|t| {
        t[20] += 1;
        t[40] -= 1
    });
    with(&|t| {
        t[20] ^= 4;
        t[40] ^= 4
    });
    with(&|t| t[63] += 1);
    with(&|t| t[33] += 256);
    with(&|t| *t = (0..64).map(|i| t0[i % 8 * 8 + i / 8]).collect());
    for t in &tables {
        let q = Qt::Table(Box::new(t[..].try_into().unwrap()));
        v.push(Job { c: Case { ql: q.clone(), ..base.clone() }, trouble: Trouble::None });
        v.push(Job { c: Case { ql: Qt::Lin(2), qc: q, prog: 3, ..base.clone() }, trouble: Trouble::None });
    }
    let mut px: Vec<u8> = (0..24 * 18 * 3u32).map(|i| (i * i % 251) as u8).collect();
    for (w, h) in [(24u16, 18u16), (18, 24), (12, 36), (36, 12), (24, 17)] {
        for color in [1u8, 3, 5] {
            v.push(Job { c: Case { w, h, color, content: Content::Raw(px[..w as usize * h as usize * 3].to_vec()), ..base.clone() }, trouble: Trouble::None });
        }
    }
    for (a, b) in [(0usize, 1295usize), (600, 601), (3, 300), (647, 648)] {
        px.swap(a, b);
        v.push(Job { c: Case { content: Content::Raw(px.clone()), ..base.clone() }, trouble: Trouble::None });
    }
    px[700] ^= 0x80;
    v.push(Job { c: Case { content: Content::Raw(px.clone()), ..base.clone() }, trouble: Trouble::None });
    for apps in [
        vec![App::Seg(1, 40, 3), App::Seg(2, 40, 4)],
        vec![App::Seg(2, 40, 3), App::Seg(1, 40, 4)],
        vec![App::Seg(1, 40, 4), App::Seg(2, 40, 3)],
        vec![App::Icc(80, 3)],
        vec![App::Icc(80, 4)],
        vec![App::Icc(70_000, 3)],
        vec![App::Icc(70_000, 4)],
    ] {
        v.push(Job { c: Case { apps, ..base.clone() }, trouble: Trouble::None });
    }
    v
}

/// Questions about an image buffer's size and colour type, per encode, that are callbacks.
const ASKED: u32 = 40;

type Hook<'a> = &'a dyn Fn();

struct HookW<'a> {
    out: &'a RefCell<Vec<u8>>,
    hook: Hook<'a>,
    trouble: Trouble,
}
impl HookW<'_> {
    /// Ok(bytes accepted)
    fn take(&self, b: &[u8]) -> Result<(), ()> {
        (self.hook)();
        let mut o = self.out.borrow_mut();
        match self.trouble {
            Trouble::FailWrite(n) if o.len() + b.len() > n => return Err(()),
            Trouble::PanicWrite(n) if o.len() + b.len() > n => {
                drop(o);
                panic!("writer")
            }
            _ => {}
        }
        o.extend_from_slice(b);
        Ok(())
    }
}
impl std::io::Write for HookW<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.take(b).map(|_| b.len()).map_err(|_| std::io::Error::new(std::io::ErrorKind::Other, "full"))
    }
    fn flush(&mut self) -> std::io::Result<()> {
        (self.hook)();
        Ok(())
    }
}
macro_rules! std_w {
    ($n:ident, $h:ident) => {
        let $n = Dyn(&mut $h);
    };
}
macro_rules! nostd_w {
    ($n:ident, $h:ident) => {
        let _ = &mut $h;
        let mut f = |b: &[u8]| $h.take(b).map_err(|_| je_nostd::EncodingError::Write("full".into()));
        let $n = NDyn(&mut f);
    };
}

macro_rules! runner {
    ($m:ident, $k:ident, $v:ident, $w:ident) => {
        mod $m {
            use super::*;
            use $k::ImageBuffer;
            pub fn go(j: &Job, data: &[u8], p: &Planes, out: &RefCell<Vec<u8>>, hook: Hook) -> Result<(), E> {
                let c = &j.c;
                let mut hw = HookW { out, hook, trouble: j.trouble };
                $w!(w, hw);
                let mut e = $k::Encoder::new(w, c.q);
                hook();
                let setup = $v::configure(c, &mut e);
                hook();
                if j.trouble == Trouble::Drop {
                    return Ok(());
                }
                for r in setup {
                    r?;
                }
                match c.entry {
                    Entry::Slice => e.encode(data, c.w, c.h, $v::color(c.color)).map_err($v::err),
                    Entry::Buffer => {
                        let row = |y: u16| {
                            hook();
                            if j.trouble == Trouble::PanicRow(y) {
                                panic!("row");
                            }
                        };
                        let b = $v::Buf { p, hook: &row };
                        e.encode_image(Asked { b, hook, left: Cell::new(ASKED) }).map_err($v::err)
                    }
                }
            }

            /// Every call of the buffer is a callback, also those that ask for its size and colour type (of
            /// these the first `ASKED`), and its being dropped.
            struct Asked<'a> {
                b: $v::Buf<'a>,
                hook: Hook<'a>,
                left: Cell<u32>,
            }
            impl Asked<'_> {
                fn asked(&self) {
                    if self.left.get() > 0 {
                        self.left.set(self.left.get() - 1);
                        (self.hook)();
                    }
                }
            }
            impl Drop for Asked<'_> {
                fn drop(&mut self) {
                    if !std::thread::panicking() {
                        (self.hook)();
                    }
                }
            }
            impl $k::ImageBuffer for Asked<'_> {
                fn get_jpeg_color_type(&self) -> $k::JpegColorType {
                    self.asked();
                    self.b.get_jpeg_color_type()
                }
                fn width(&self) -> u16 {
                    self.asked();
                    self.b.width()
                }
                fn height(&self) -> u16 {
                    self.asked();
                    self.b.height()
                }
                fn fill_buffers(&self, y: u16, b: &mut [Vec<u8>; 4]) {
                    self.b.fill_buffers(y, b)
                }
            }
        }
    };
}
runner!(r_std, je, v_std, std_w);
runner!(r_simd, je_simd, v_simd, std_w);
runner!(r_nostd, je_nostd, v_nostd, nostd_w);

struct Prepared {
    j: Job,
    data: Vec<u8>,
    p: Planes,
}
impl Prepared {
    fn new(j: Job) -> Prepared {
        let mut data = j.c.data();
        let p = planes(&j.c, &data);
        if j.trouble == Trouble::Short {
            data.pop();
        }
        Prepared { j, data, p }
    }
}
fn prepare() -> Vec<Prepared> {
    jobs().into_iter().map(Prepared::new).collect()
}

/// Outcome fingerprint of one encode of the job.
fn outcome(p: &Prepared, hook: Hook) -> u64 {
    let out = RefCell::new(Vec::new());
    // every image that is not nested in another lies at the same address
    SLOT.with(|s| match s.try_borrow_mut() {
        Ok(mut s) => {
            s.clear();
            s.extend_from_slice(&p.data);
            outcome_at(p, &s, &out, hook)
        }
        Err(_) => outcome_at(p, &p.data, &out, hook),
    })
}
thread_local! {
    static SLOT: RefCell<Vec<u8>> = RefCell::new(Vec::with_capacity(1 << 20));
}
fn outcome_at(p: &Prepared, data: &[u8], out: &RefCell<Vec<u8>>, hook: Hook) -> u64 {
    let r = caught(|| match p.j.c.var {
        Var::Std => r_std::go(&p.j, data, &p.p, out, hook),
        Var::Simd => r_simd::go(&p.j, data, &p.p, out, hook),
        Var::NoStd => r_nostd::go(&p.j, data, &p.p, out, hook),
    });
    let tag = match r {
        Ok(Ok(())) => "ok".to_string(),
        Ok(Err(e)) => format!("{:?}", e),
        Err(_) => "panic".to_string(),
    };
    let b = out.try_borrow().map(|b| fnv(&b)).unwrap_or(0);
    fnv(format!("{} {:x}", tag, b).as_bytes())
}
fn nohook() {}

fn points(p: &Prepared) -> u64 {
    let n = Cell::new(0u64);
    outcome(p, &|| n.set(n.get() + 1));
    n.get()
}

// ---- scenarios (each runs in a process of its own) ----------------------------------------

/// A sequence of jobs on one thread.
fn seq(ps: &[Prepared], base: &[u64], s: &[usize]) -> Result<(), String> {
    for (k, &i) in s.iter().enumerate() {
        if outcome(&ps[i], &nohook) != base[i] {
            return Err(format!("job {} as number {} of the sequence {:?} differs from the same job alone", i, k + 1, s));
        }
    }
    Ok(())
}

/// The job `n` times in one process.
fn long(ps: &[Prepared], base: &[u64], i: usize, n: u64) -> Result<(), String> {
    for k in 0..n {
        if outcome(&ps[i], &nohook) != base[i] {
            return Err(format!("job {} as repetition {} differs from the same job alone", i, k + 1));
        }
    }
    Ok(())
}

/// A tower of `depth` encodes, each inside a callback of the one below: level l is job (first + l * step)
/// and starts in callback number `at` of the level below.
fn deep(ps: &[Prepared], base: &[u64], first: usize, step: usize, at: u64, depth: usize) -> Result<u64, String> {
    let bad = RefCell::new(None);
    let runs = Cell::new(0u64);
    fn level(ps: &[Prepared], base: &[u64], job: usize, step: usize, at: u64, left: usize, bad: &RefCell<Option<String>>, runs: &Cell<u64>) {
        let n = Cell::new(0u64);
        let hook = || {
            let k = n.get();
            n.set(k + 1);
            if k == at && left > 1 {
                level(ps, base, (job + step) % ps.len(), step, at, left - 1, bad, runs);
            }
        };
        let r = outcome(&ps[job], &hook);
        runs.set(runs.get() + 1);
        if r != base[job] && bad.borrow().is_none() {
            *bad.borrow_mut() = Some(format!("job {} with {} encodes inside it differs from the same job alone", job, left - 1));
        }
    }
    level(ps, base, first, step, at, depth, &bad, &runs);
    match bad.into_inner() {
        Some(w) => Err(w),
        None => Ok(runs.get()),
    }
}

/// Job `inner` runs inside callback number `at` of job `outer`.
fn nest(ps: &[Prepared], base: &[u64], outer: usize, inner: usize, at: u64) -> Result<(), String> {
    let n = Cell::new(0u64);
    let bad = Cell::new(false);
    let busy = Cell::new(false);
    let got = outcome(&ps[outer], &|| {
        if busy.get() {
            return;
        }
        let k = n.get();
        n.set(k + 1);
        if k == at {
            busy.set(true);
            bad.set(outcome(&ps[inner], &nohook) != base[inner]);
            busy.set(false);
        }
    });
    if bad.get() {
        return Err(format!("job {} inside callback {} of job {} differs from the same job alone", inner, at, outer));
    }
    if got != base[outer] {
        return Err(format!("job {} differs when job {} runs inside its callback {}", outer, inner, at));
    }
    Ok(())
}

/// Baton: which of the two threads may run, and for how many more callback points.
struct Baton {
    m: Mutex<(usize, u64, [bool; 2], bool)>, // turn, points left, finished, stuck
    c: Condvar,
}
/// A runs `a` points, B runs `b` points, A runs to its end, B runs to its end.
fn pair(ps: &Arc<Vec<Prepared>>, base: &[u64], x: usize, y: usize, a: u64, b: u64) -> Result<bool, String> {
    let bt = Arc::new(Baton { m: Mutex::new((0, a, [false; 2], false)), c: Condvar::new() });
    let phase = Arc::new(Mutex::new(0u8));
    let mut hs = Vec::new();
    for (me, job) in [(0usize, x), (1usize, y)] {
        let (bt, ps, phase) = (bt.clone(), ps.clone(), phase.clone());
        hs.push(std::thread::spawn(move || {
            let wait_turn = || {
                let mut g = bt.m.lock().unwrap();
                while g.0 != me && !g.2[1 - me] && !g.3 {
                    let (g2, to) = bt.c.wait_timeout(g, Duration::from_secs(4)).unwrap();
                    g = g2;
                    if to.timed_out() {
                        g.3 = true; // the other thread is blocked on us: let both run
                        bt.c.notify_all();
                    }
                }
            };
            let point = || {
                let mut g = bt.m.lock().unwrap();
                if g.2[1 - me] || g.3 {
                    return;
                }
                if g.1 == 0 {
                    // hand over
                    let mut p = phase.lock().unwrap();
                    *p += 1;
                    g.0 = 1 - me;
                    g.1 = if *p == 1 { b } else { u64::MAX };
                    bt.c.notify_all();
                    drop(p);
                    drop(g);
                    wait_turn();
                } else {
                    g.1 -= 1;
                }
            };
            wait_turn();
            let r = outcome(&ps[job], &point);
            let mut g = bt.m.lock().unwrap();
            g.2[me] = true;
            g.0 = 1 - me;
            bt.c.notify_all();
            r
        }));
    }
    let r: Vec<u64> = hs.into_iter().map(|h| h.join().unwrap_or(0)).collect();
    let stuck = bt.m.lock().unwrap().3;
    for (k, (job, other)) in [(x, y), (y, x)].into_iter().enumerate() {
        if r[k] != base[job] {
            return Err(format!("job {} differs when job {} runs on another thread (switches after {} and {} callback points)", job, other, a, b));
        }
    }
    Ok(stuck)
}

// ---- two threads, switched at callbacks and at accesses to static memory -------------------

use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};

/// Scheduler without statics: raw futex on `turn`.
struct Sched {
    turn: AtomicU32,
    fin: [AtomicU32; 2],
    stuck: AtomicU32,
    left: AtomicU64,
    phase: AtomicU32,
    second: u64,
    release: AtomicU32,
    ready: AtomicU32,
}
struct Me {
    s: &'static Sched,
    me: u32,
}
extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}
#[cfg(target_arch = "x86_64")]
const SYS_FUTEX: i64 = 202;
#[cfg(not(target_arch = "x86_64"))]
const SYS_FUTEX: i64 = 98;
/// false: timed out
fn futex_wait(a: &AtomicU32, v: u32, ms: i64) -> bool {
    let ts = [ms / 1000, ms % 1000 * 1_000_000];
    let r = unsafe { syscall(SYS_FUTEX, a as *const AtomicU32, 128i64, v as i64, &ts as *const [i64; 2], 0i64, 0i64) };
    !(r == -1 && a.load(SeqCst) == v)
}
fn futex_wake(a: &AtomicU32) {
    unsafe {
        syscall(SYS_FUTEX, a as *const AtomicU32, 129i64, 100i64, 0i64, 0i64, 0i64);
    }
}
impl Me {
    fn other(&self) -> usize {
        1 - self.me as usize
    }
    fn wait(&self) {
        let s = self.s;
        loop {
            let t = s.turn.load(SeqCst);
            if t == self.me || s.fin[self.other()].load(SeqCst) != 0 || s.stuck.load(SeqCst) != 0 {
                return;
            }
            if !futex_wait(&s.turn, t, 500) && s.turn.load(SeqCst) == t && s.fin[self.other()].load(SeqCst) == 0 {
                // the other thread is blocked on something this one holds: let both run
                s.stuck.store(1, SeqCst);
                futex_wake(&s.turn);
                return;
            }
        }
    }
    fn point(&self) {
        let s = self.s;
        if s.fin[self.other()].load(SeqCst) != 0 || s.stuck.load(SeqCst) != 0 {
            return;
        }
        let l = s.left.load(SeqCst);
        if l == 0 {
            let p = s.phase.fetch_add(1, SeqCst);
            s.left.store(if p == 0 { s.second } else { u64::MAX }, SeqCst);
            s.turn.store(1 - self.me, SeqCst);
            futex_wake(&s.turn);
            self.wait();
        } else {
            s.left.store(l - 1, SeqCst);
        }
    }
    fn finish(&self) {
        self.s.fin[self.me as usize].store(1, SeqCst);
        self.s.turn.store(1 - self.me, SeqCst);
        futex_wake(&self.s.turn);
    }
}
fn fault_point(ctx: *const u8, _addr: usize) {
    unsafe { (*(ctx as *const Me)).point() }
}

/// A runs `a` points, B runs `b` points, A runs to its end, B runs to its end; points are callbacks and
/// accesses to static memory.  Only in a forked child.
fn fine_pair(w: &'static crate::shared::Watch, x: &Prepared, y: &Prepared, a: u64, b: u64) -> (u64, u64, bool) {
    let s: &'static Sched = Box::leak(Box::new(Sched {
        turn: AtomicU32::new(0),
        fin: Default::default(),
        stuck: AtomicU32::new(0),
        left: AtomicU64::new(a),
        phase: AtomicU32::new(0),
        second: b,
        release: AtomicU32::new(0),
        ready: AtomicU32::new(0),
    }));
    let m: &'static [Me; 2] = Box::leak(Box::new([Me { s, me: 0 }, Me { s, me: 1 }]));
    std::thread::scope(|sc| {
        let h = sc.spawn(move || {
            crate::shared::register(w, Some(fault_point), &m[1] as *const Me as *const u8);
            s.ready.store(1, SeqCst);
            futex_wake(&s.ready);
            m[1].wait();
            let r = outcome(y, &|| m[1].point());
            m[1].finish();
            while s.release.load(SeqCst) == 0 {
                futex_wait(&s.release, 0, 1000);
            }
            crate::shared::unregister();
            r
        });
        while s.ready.load(SeqCst) == 0 {
            futex_wait(&s.ready, 0, 1000);
        }
        crate::shared::register(w, Some(fault_point), &m[0] as *const Me as *const u8);
        w.close();
        let r = outcome(x, &|| m[0].point());
        m[0].finish();
        while s.fin[1].load(SeqCst) == 0 {
            futex_wait(&s.turn, 1, 1000);
        }
        w.open();
        crate::shared::unregister();
        s.release.store(1, SeqCst);
        futex_wake(&s.release);
        (r, h.join().unwrap_or(0), s.stuck.load(SeqCst) != 0)
    })
}

/// Which of the job's points are accesses to static memory.
struct Count {
    v: RefCell<Vec<bool>>,
}
fn count_point(ctx: *const u8, _addr: usize) {
    unsafe { (*(ctx as *const Count)).v.borrow_mut().push(true) }
}
fn trace(w: &'static crate::shared::Watch, p: &Prepared) -> Vec<bool> {
    let c: &'static Count = Box::leak(Box::new(Count { v: RefCell::new(Vec::with_capacity(1 << 16)) }));
    crate::shared::register(w, Some(count_point), c as *const Count as *const u8);
    w.close();
    outcome(p, &|| c.v.borrow_mut().push(false));
    w.open();
    crate::shared::unregister();
    c.v.borrow().clone()
}

/// Runs `f` in a forked child; its result comes back through a shared page.
fn forked(page: *mut u64, f: &dyn Fn() -> Vec<u64>) -> Option<Vec<u64>> {
    unsafe {
        *page = u64::MAX;
        let p = fork();
        if p == 0 {
            alarm(100);
            let r = f();
            for (i, x) in r.iter().take(PAGE_WORDS - 1).enumerate() {
                *page.add(i + 1) = *x;
            }
            *page = r.len().min(PAGE_WORDS - 1) as u64;
            _exit(0)
        }
        let mut st = 0;
        waitpid(p, &mut st, 0);
        if *page == u64::MAX {
            return None;
        }
        Some((0..*page as usize).map(|i| *page.add(i + 1)).collect())
    }
}
const PAGE_WORDS: usize = 1 << 15;

/// the switch points of a job: every access to static memory (thinned out beyond `cap`), and
/// the first, middle and last callbacks
fn switch_points(t: &[bool], cap: usize) -> Vec<u64> {
    let ev: Vec<u64> = t.iter().enumerate().filter(|x| *x.1).map(|x| x.0 as u64).collect();
    let n = t.len() as u64;
    let mut v: Vec<u64> = vec![0, 2, n / 2, n.saturating_sub(2), n];
    if ev.len() <= cap {
        v.extend(&ev);
    } else {
        v.extend(&ev[..cap / 3]);
        v.extend(&ev[ev.len() - cap / 3..]);
        v.extend(ev.iter().step_by(ev.len() / (cap / 3) + 1));
    }
    v.sort();
    v.dedup();
    v
}

/// All schedules of two jobs with up to two preemptions of which at least one is at an access to
/// static memory, in fresh processes (cold) and after both jobs ran once (warm).
/// (runs, accesses seen, stuck)
fn fine(ps: &[Prepared], base: &[u64], x: usize, y: usize, cap: usize, only: Option<(bool, u64, u64)>) -> Result<(u64, u64, u64), (String, String)> {
    let w: &'static crate::shared::Watch = Box::leak(Box::new(crate::shared::Watch::new(2)));
    crate::shared::install();
    let page = unsafe { mmap(std::ptr::null_mut(), PAGE_WORDS * 8, 3, 0x21, -1, 0) } as *mut u64;
    let (mut runs, mut events, mut stuck) = (0, 0, 0);
    for warm in [false, true] {
        let prime = || {
            if warm {
                outcome(&ps[x], &nohook);
                outcome(&ps[y], &nohook);
            }
        };
        let tr = |p: &Prepared| -> Vec<bool> {
            let r = forked(page, &|| {
                prime();
                let t = trace(w, p);
                let mut v: Vec<u64> = vec![t.len() as u64];
                v.extend(t.iter().enumerate().filter(|x| *x.1).map(|x| x.0 as u64));
                v
            })
            .unwrap_or_default();
            let mut t = vec![false; r.first().copied().unwrap_or(0) as usize];
            for &i in r.iter().skip(1) {
                t[i as usize] = true;
            }
            t
        };
        let (tx, ty) = (tr(&ps[x]), tr(&ps[y]));
        events += tx.iter().chain(&ty).filter(|e| **e).count() as u64;
        for &a in &switch_points(&tx, cap) {
            for &b in &switch_points(&ty, cap) {
                let ev = |t: &[bool], i: u64| t.get(i as usize).copied().unwrap_or(false);
                if !ev(&tx, a) && !ev(&ty, b) {
                    continue; // explored at the callbacks already
                }
                if only.map_or(false, |o| o != (warm, a, b)) {
                    continue;
                }
                let r = forked(page, &|| {
                    prime();
                    let (p, q, s) = fine_pair(w, &ps[x], &ps[y], a, b);
                    vec![p, q, s as u64]
                });
                runs += 1;
                let sc = format!("fine {} {} {} {} {}", x, y, warm as u8, a, b);
                match r {
                    None => return Err((sc, "the process crashed or does not terminate".into())),
                    Some(r) => {
                        stuck += r[2];
                        for (k, (job, other)) in [(x, y), (y, x)].into_iter().enumerate() {
                            if r[k] != base[job] {
                                return Err((sc, format!("job {} differs when job {} runs on another thread (switches after {} and {} points, counting accesses to static memory)", job, other, a, b)));
                            }
                        }
                        if stuck > 24 {
                            return Ok((runs, events, stuck));
                        }
                    }
                }
            }
        }
    }
    Ok((runs, events, stuck))
}

// ---- child processes ----------------------------------------------------------------------

fn parse_base(s: &str) -> Vec<u64> {
    s.split(',').filter_map(|x| u64::from_str_radix(x, 16).ok()).collect()
}

/// `mc child18 ...` : one scenario family in a fresh process; prints "OK <runs> <transitions>",
/// "BAD <scenario> | <what>", or the hash of a single job.
pub fn child(a: &[String]) {
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    if a[0] == "job" {
        let p = Prepared::new(menu().swap_remove(num(1) as usize));
        println!("{:x} {}", outcome(&p, &nohook), points(&p));
        return;
    }
    if a[0] == "duos" {
        // job `first` before and after every job of the menu
        let (first, base) = (num(1) as usize, parse_base(&a[2]));
        let ps: Vec<Prepared> = menu().into_iter().map(Prepared::new).collect();
        for i in 0..ps.len() {
            if let Err(w) = seq(&ps, &base, &[first, i]) {
                println!("BAD duos {} upto {} | {} ({} / {})", first, i, w, ps[first].j.c, ps[i].j.c);
                return;
            }
        }
        println!("OK {} {}", ps.len(), 2 * ps.len());
        return;
    }
    let ps = prepare();
    match a[0].as_str() {
        "fines" => {
            let (x, y, base, cap) = (num(1) as usize, num(2) as usize, parse_base(&a[3]), num(4) as usize);
            match fine(&ps, &base, x, y, cap, None) {
                Ok((runs, events, stuck)) => println!("OK {} {} {} {}", runs, runs * 4, events, stuck),
                Err((sc, w)) => println!("BAD {} | {}", sc, w),
            }
        }
        "fine" => {
            let base = parse_base(&a[6]);
            match fine(&ps, &base, num(1) as usize, num(2) as usize, 1 << 20, Some((num(3) == 1, num(4), num(5)))) {
                Ok(_) => println!("OK 1 4"),
                Err((_, w)) => println!("BAD fine | {}", w),
            }
        }
        "probe" => println!("OK {}", crate::shared::works() as u8),
        "seqs" => {
            // all sequences of length `depth` starting with job `first`
            let (first, depth, base) = (num(1) as usize, num(2) as u32, parse_base(&a[3]));
            let k = ps.len() as u64;
            let mut runs = 0;
            for i in 0..k.pow(depth - 1) {
                let mut s = vec![first];
                let mut x = i;
                for _ in 1..depth {
                    s.push((x % k) as usize);
                    x /= k;
                }
                if let Err(w) = seq(&ps, &base, &s) {
                    println!("BAD seqs {} {} upto {} | {}", first, depth, i, w);
                    return;
                }
                runs += 1;
            }
            println!("OK {} {}", runs, runs * depth as u64);
        }
        "long" => {
            let (i, n, base) = (num(1) as usize, num(2), parse_base(&a[3]));
            match long(&ps, &base, i, n) {
                Ok(()) => println!("OK 1 {}", n),
                Err(w) => println!("BAD long {} {} | {}", i, n, w),
            }
        }
        "deeps" => {
            let (first, depth, base) = (num(1) as usize, num(2) as usize, parse_base(&a[3]));
            let ps = &ps;
            let base = &base;
            let r = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(1 << 28)
                    .spawn_scoped(s, move || {
                        let (mut runs, mut steps) = (0u64, 0u64);
                        for step in [0usize, 1, 5] {
                            for at in (0..12).chain([20, 40, 80, 160, 300]) {
                                match deep(ps, base, first, step, at, depth) {
                                    Ok(n) => {
                                        runs += 1;
                                        steps += n;
                                    }
                                    Err(w) => return Err(w),
                                }
                            }
                        }
                        Ok((runs, steps))
                    })
                    .expect("thread")
                    .join()
                    .unwrap_or_else(|_| Err("harness: the tower panicked".into()))
            });
            match r {
                Ok((n, m)) => println!("OK {} {}", n, m),
                Err(w) => println!("BAD deeps {} {} | {}", first, depth, w),
            }
        }
        "seq" => {
            let base = parse_base(&a[1]);
            let s: Vec<usize> = a[2..].iter().filter_map(|x| x.parse().ok()).collect();
            match seq(&ps, &base, &s) {
                Ok(()) => println!("OK 1 {}", s.len()),
                Err(w) => println!("BAD seq {:?} | {}", s, w),
            }
        }
        "nests" => {
            let (outer, base) = (num(1) as usize, parse_base(&a[2]));
            let n = points(&ps[outer]);
            let mut runs = 0;
            for inner in 0..ps.len() {
                for at in 0..n {
                    if let Err(w) = nest(&ps, &base, outer, inner, at) {
                        println!("BAD nest {} {} {} | {}", outer, inner, at, w);
                        return;
                    }
                    runs += 1;
                }
            }
            println!("OK {} {}", runs, runs * 2);
        }
        "nest" => {
            let base = parse_base(&a[4]);
            match nest(&ps, &base, num(1) as usize, num(2) as usize, num(3)) {
                Ok(()) => println!("OK 1 2"),
                Err(w) => println!("BAD nest | {}", w),
            }
        }
        "pairs" => {
            let (x, y, base, step) = (num(1) as usize, num(2) as usize, parse_base(&a[3]), num(4));
            let ps = Arc::new(ps);
            let (nx, ny) = (points(&ps[x]), points(&ps[y]));
            let grid = |n: u64| -> Vec<u64> {
                (0..=n).filter(|i| *i < 6 || i + 6 > n || i % step == 0).collect()
            };
            let (mut runs, mut stuck) = (0u64, 0);
            for a in grid(nx) {
                for b in grid(ny) {
                    match pair(&ps, &base, x, y, a, b) {
                        Ok(s) => {
                            runs += 1;
                            stuck += s as u64;
                            if stuck > 3 {
                                println!("OK {} {}", runs, runs * 4);
                                return;
                            }
                        }
                        Err(w) => {
                            println!("BAD pair {} {} {} {} | {}", x, y, a, b, w);
                            return;
                        }
                    }
                }
            }
            println!("OK {} {}", runs, runs * 4);
        }
        "pair" => {
            let base = parse_base(&a[5]);
            let ps = Arc::new(ps);
            match pair(&ps, &base, num(1) as usize, num(2) as usize, num(3), num(4)) {
                Ok(_) => println!("OK 1 4"),
                Err(w) => println!("BAD pair | {}", w),
            }
        }
        _ => println!("BAD child | unknown"),
    }
}

fn spawn(args: &[String], limit: Duration) -> Result<String, String> {
    let mut k = Command::new(std::env::current_exe().unwrap())
        .arg("child18")
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("child");
    let t0 = std::time::Instant::now();
    let mut out = k.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut s = String::new();
        use std::io::Read;
        let _ = out.read_to_string(&mut s);
        s
    });
    loop {
        if let Ok(Some(st)) = k.try_wait() {
            let s = h.join().unwrap_or_default();
            return if s.trim().is_empty() { Err(format!("the process ended without a result ({})", st)) } else { Ok(s.trim().to_string()) };
        }
        if t0.elapsed() > limit {
            let _ = k.kill();
            let _ = k.wait();
            return Err("no result: does not terminate".into());
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

fn baselines() -> Result<(Vec<u64>, Vec<u64>), Violation> {
    let k = menu().len();
    let next = AtomicU64::new(0);
    let res: Mutex<Vec<(u64, u64)>> = Mutex::new(vec![(0, 0); k]);
    let bad: Mutex<Option<Violation>> = Mutex::new(None);
    std::thread::scope(|s| {
        for _ in 0..threads() {
            s.spawn(|| loop {
                let i = next.fetch_add(1, SeqCst) as usize;
                if i >= k || bad.lock().unwrap().is_some() {
                    return;
                }
                let mut got = Vec::new();
                // twice: the outcome itself must be reproducible
                for _ in 0..2 {
                    match spawn(&["job".into(), i.to_string()], Duration::from_secs(100)) {
                        Ok(r) => {
                            let mut it = r.split(' ');
                            got.push((
                                u64::from_str_radix(it.next().unwrap_or(""), 16).unwrap_or(0),
                                it.next().and_then(|x| x.parse().ok()).unwrap_or(0u64),
                            ));
                        }
                        Err(e) => {
                            *bad.lock().unwrap() = Some(Violation { replay: format!("job {}", i), what: e });
                            return;
                        }
                    }
                }
                if got[0] != got[1] {
                    *bad.lock().unwrap() =
                        Some(Violation { replay: format!("job {}", i), what: "two processes encode the same image differently".into() });
                    return;
                }
                res.lock().unwrap()[i] = got[0];
            });
        }
    });
    if let Some(v) = bad.into_inner().unwrap() {
        return Err(v);
    }
    Ok(res.into_inner().unwrap().into_iter().unzip())
}
fn base_text(b: &[u64]) -> String {
    b.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(",")
}

pub fn replay(t: &str) -> Result<(), String> {
    let (b, _) = baselines().map_err(|v| v.what)?;
    let b = base_text(&b);
    let w: Vec<&str> = t.split_whitespace().collect();
    let args: Vec<String> = match w[0] {
        "seq" => {
            let mut v = vec!["seq".to_string(), b];
            v.extend(w[1..].iter().map(|x| x.trim_matches(|c: char| !c.is_ascii_digit()).to_string()));
            v
        }
        "seqs" => vec!["seqs".into(), w[1].into(), w[2].into(), b],
        "duos" => vec!["duos".into(), w[1].into(), b],
        "long" | "deeps" => vec![w[0].into(), w[1].into(), w[2].into(), b],
        "fines" => vec!["fines".into(), w[1].into(), w[2].into(), b, w[3].into()],
        "fine" => vec!["fine".into(), w[1].into(), w[2].into(), w[3].into(), w[4].into(), w[5].into(), b],
        "nest" => vec!["nest".into(), w[1].into(), w[2].into(), w[3].into(), b],
        "nests" => vec!["nests".into(), w[1].into(), b],
        "pair" => vec!["pair".into(), w[1].into(), w[2].into(), w[3].into(), w[4].into(), b],
        "pairs" => vec!["pairs".into(), w[1].into(), w[2].into(), b, w[3].into()],
        _ => return Ok(()), // "job i": baselines() was the replay
    };
    let r = spawn(&args, Duration::from_secs(600))?;
    match r.strip_prefix("BAD ") {
        Some(x) => Err(x.to_string()),
        None => Ok(()),
    }
}

pub fn run() -> Result<Ev, Violation> {
    let t = thorough();
    let (base, pts) = baselines()?;
    let b = base_text(&base);
    let k = jobs().len();
    let fine_works = spawn(&["probe".into()], Duration::from_secs(100)).map_or(false, |r| r == "OK 1");
    let depth = if t { 4 } else { 3 };
    let step = if t { 3u64 } else { 24 };
    let mut tasks: Vec<(String, Vec<String>)> = Vec::new();
    for i in 0..k {
        tasks.push((format!("seqs {} {}", i, depth), vec!["seqs".into(), i.to_string(), depth.to_string(), b.clone()]));
        tasks.push((format!("nests {}", i), vec!["nests".into(), i.to_string(), b.clone()]));
    }
    // longest first
    let many = if t { 1_000_000u64 } else { 70_000 };
    for i in 0..k {
        tasks.insert(0, (format!("long {} {}", i, many), vec!["long".into(), i.to_string(), many.to_string(), b.clone()]));
        let d = if t { 64 } else { 24 };
        tasks.push((format!("deeps {} {}", i, d), vec!["deeps".into(), i.to_string(), d.to_string(), b.clone()]));
    }
    for i in 0..base.len() {
        tasks.push((format!("duos {}", i), vec!["duos".into(), i.to_string(), b.clone()]));
    }
    let cap = if t { 240 } else { 36 };
    for x in 0..k {
        for y in 0..k {
            if fine_works {
                tasks.push((
                    format!("fines {} {} {}", x, y, cap),
                    vec!["fines".into(), x.to_string(), y.to_string(), b.clone(), cap.to_string()],
                ));
            }
            tasks.push((
                format!("pairs {} {} {}", x, y, step),
                vec!["pairs".into(), x.to_string(), y.to_string(), b.clone(), step.to_string()],
            ));
        }
    }
    let next = std::sync::atomic::AtomicUsize::new(0);
    let totals: Mutex<std::collections::BTreeMap<&'static str, (u64, u64)>> = Default::default();
    let bad: Mutex<Option<(usize, Violation)>> = Mutex::new(None);
    let accesses = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads() {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= tasks.len() || bad.lock().unwrap().is_some() {
                    return;
                }
                let (name, args) = &tasks[i];
                let v = match spawn(args, Duration::from_secs(if t { 3000 } else { 240 })) {
                    Err(e) => Violation { replay: name.clone(), what: e },
                    Ok(r) => {
                        if let Some(x) = r.strip_prefix("BAD ") {
                            let (sc, what) = x.split_once(" | ").unwrap_or((name, x));
                            // prefer the single scenario as replay if it fails on its own
                            let sc = if sc.starts_with("seqs") { name.as_str() } else { sc };
                            Violation { replay: sc.to_string(), what: what.to_string() }
                        } else {
                            let n: Vec<u64> = r.split(' ').filter_map(|x| x.parse().ok()).collect();
                            let fam = match args[0].as_str() {
                                "seqs" => "sequences",
                                "nests" => "nested runs",
                                "long" => "long repetitions",
                                "deeps" => "towers of nested encodes",
                                "duos" => "pairs one setting apart, in sequence",
                                "fines" => "thread schedules with switches at accesses to static memory",
                                _ => "thread schedules",
                            };
                            let mut g = totals.lock().unwrap();
                            let e = g.entry(fam).or_default();
                            e.0 += n.first().copied().unwrap_or(0);
                            e.1 += n.get(1).copied().unwrap_or(0);
                            if args[0] == "fines" {
                                accesses.fetch_add(n.get(2).copied().unwrap_or(0), SeqCst);
                            }
                            continue;
                        }
                    }
                };
                let mut g = bad.lock().unwrap();
                if g.as_ref().map_or(true, |x| i < x.0) {
                    *g = Some((i, v));
                }
            });
        }
    });
    if let Some((_, v)) = bad.into_inner().unwrap() {
        return Err(v);
    }
    let totals = totals.into_inner().unwrap();
    let mut fam = Json::new();
    for (n, (r, _)) in &totals {
        fam = fam.num(n, *r);
    }
    // states of the abstract system: (job A, point of A, job B, point of B)
    let pts = &pts[..k];
    let states: u64 = pts.iter().map(|a| pts.iter().map(|b| (a + 1) * (b + 1)).sum::<u64>()).sum();
    Ok(Ev {
        prop: "C18",
        level: "model_checking",
        coverage: Json::new()
            .num("states", states)
            .num("transitions", totals.values().map(|x| x.1).sum())
            .num("traces_validated_against_impl", totals.values().map(|x| x.0).sum())
            .obj("schedules", fam)
            .num("jobs", k as u64)
            .num("menu_of_single_setting_jobs", base.len() as u64)
            .bool("static_memory_watched", fine_works)
            .num("accesses_to_static_memory_seen", accesses.into_inner())
            .num("sequence_depth", depth as u64)
            .num("preemption_bound", 2)
            .str("rule", "states: pairs (callback point of job A, callback point of job B) of the two-encoder system; transitions: job executions and thread hand-overs replayed on the real encoder")
            .strs("samples", &[
                format!("seqs 7 {}: all sequences of {} jobs that start with a failing encode", depth, depth),
                "nests 1: each job inside every row and write callback of job 1".into(),
                format!("pairs 3 12 {}: A runs a callback points, B runs b, A finishes, B finishes, for all a, b on the grid", step),
            ])
            .bool("exhaustive", t),
        assumptions: vec![
            "threads are switched at the encoder's callbacks (rows read, bytes written, flush) and at every access to the program's writable static memory and two instructions beyond it; between those points a thread touches no static memory, so further switch points could only matter through heap memory reached from a pointer read at such a point".into(),
            "quick: switch points in the middle of an encode are taken every 24th (thorough: every 3rd); the first and last 6 are complete".into(),
        ],
    })
}
