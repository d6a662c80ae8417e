//! C06: every fault of the writer at every byte offset.

use super::*;
use std::cell::RefCell;
use std::io::{BufWriter, Error, ErrorKind, Write};
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    None,
    /// error at offset n, kind index, every later write fails too
    Sticky(usize, usize),
    /// error at offset n once, later writes are accepted
    Once(usize, usize),
    /// write returns Ok(0) from offset n on
    Zero(usize),
    /// one Interrupted at offset n
    Intr(usize),
    /// Interrupted before every write
    IntrAll,
    /// at most k bytes per call
    Short(usize),
    /// Interrupted at a, then a sticky error at b
    IntrErr(usize, usize),
    /// Interrupted in front of every 1-byte write
    ShortIntr,
    /// flush fails
    Flush(usize),
    /// write returns Ok(0) once, at offset n
    ZeroOnce(usize),
    /// the writer panics at offset n, once; later writes would be accepted
    Panic(usize),
    /// a plain operating system error at offset n
    Os(usize, i32),
}
const OS_TAG: u64 = 1 << 40;
/// ENOSPC, EIO, EPIPE, EFBIG, EAGAIN
const OS: [i32; 5] = [28, 5, 32, 27, 11];

pub const KINDS: [ErrorKind; 11] = [
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::PermissionDenied,
    ErrorKind::WriteZero,
    ErrorKind::UnexpectedEof,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionReset,
    ErrorKind::StorageFull,
    ErrorKind::InvalidInput,
    ErrorKind::OutOfMemory,
];

pub struct State {
    pub acc: Vec<u8>,
    pub f: Fault,
    pub hits: u32,
    pub flushes: u32,
    /// bytes accepted when last flushed
    pub flushed: Option<usize>,
    intr_next: bool,
}
impl State {
    pub fn new(f: Fault) -> State {
        State { acc: Vec::new(), f, hits: 0, flushes: 0, flushed: None, intr_next: true }
    }
    /// Ok(k): accept k bytes
    fn write(&mut self, b: &[u8]) -> Result<usize, (ErrorKind, u64)> {
        let l = self.acc.len();
        let mut k = b.len();
        if k == 0 {
            return Ok(0);
        }
        let until = |n: usize| -> Option<usize> {
            // bytes that may still be accepted before offset n; None: offset not in reach
            if n >= l && n < l + b.len() {
                Some(n - l)
            } else {
                None
            }
        };
        match self.f {
            Fault::None | Fault::Flush(_) => {}
            Fault::Sticky(n, kd) => {
                if l >= n {
                    self.hits += 1;
                    return Err((KINDS[kd], n as u64));
                }
                if let Some(m) = until(n) {
                    k = m;
                }
            }
            Fault::Once(n, kd) => {
                if self.hits == 0 {
                    if let Some(m) = until(n) {
                        if m == 0 {
                            self.hits = 1;
                            return Err((KINDS[kd], n as u64));
                        }
                        k = m;
                    }
                }
            }
            Fault::Os(n, code) => {
                if l >= n {
                    self.hits += 1;
                    return Err((ErrorKind::Interrupted, OS_TAG + code as u64));
                }
                if let Some(m) = until(n) {
                    k = m;
                }
            }
            Fault::ZeroOnce(n) | Fault::Panic(n) => {
                if self.hits == 0 {
                    if let Some(m) = until(n) {
                        if m == 0 {
                            self.hits = 1;
                            if let Fault::Panic(_) = self.f {
                                panic!("the writer panics");
                            }
                            return Ok(0);
                        }
                        k = m;
                    }
                }
            }
            Fault::Zero(n) => {
                if l >= n {
                    self.hits += 1;
                    return Ok(0);
                }
                if let Some(m) = until(n) {
                    k = m;
                }
            }
            Fault::Intr(n) => {
                if self.hits == 0 {
                    if let Some(m) = until(n) {
                        if m == 0 {
                            self.hits = 1;
                            return Err((ErrorKind::Interrupted, n as u64));
                        }
                        k = m;
                    }
                }
            }
            Fault::IntrAll => {
                self.intr_next = !self.intr_next;
                if !self.intr_next {
                    self.hits += 1;
                    return Err((ErrorKind::Interrupted, 0));
                }
            }
            Fault::ShortIntr => {
                self.intr_next = !self.intr_next;
                if !self.intr_next {
                    self.hits += 1;
                    return Err((ErrorKind::Interrupted, 0));
                }
                k = 1;
            }
            Fault::Short(m) => k = k.min(m),
            Fault::IntrErr(a, e) => {
                if l >= e {
                    self.hits += 1;
                    return Err((ErrorKind::Other, e as u64));
                }
                if let Some(m) = until(e) {
                    k = m;
                }
                if self.hits == 0 {
                    if let Some(m) = until(a) {
                        if m == 0 {
                            self.hits = 1;
                            return Err((ErrorKind::Interrupted, a as u64));
                        }
                        k = k.min(m);
                    }
                }
            }
        }
        self.acc.extend_from_slice(&b[..k]);
        Ok(k)
    }
}

pub struct FSink<'a>(pub &'a RefCell<State>);
impl Write for FSink<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().write(b).map_err(|(k, n)| {
            if n >= OS_TAG {
                Error::from_raw_os_error((n - OS_TAG) as i32)
            } else if k == ErrorKind::Interrupted {
                Error::from(k)
            } else {
                Error::new(k, Tag(n))
            }
        })
    }
    fn flush(&mut self) -> std::io::Result<()> {
        let mut s = self.0.borrow_mut();
        s.flushes += 1;
        s.flushed = Some(s.acc.len());
        if let Fault::Flush(k) = s.f {
            s.hits += 1;
            return Err(Error::new(KINDS[k], Tag(77)));
        }
        Ok(())
    }
}
/// Writer of the no_std build: write_all semantics, errors carry our message.
fn nostd_sink(st: &RefCell<State>) -> impl FnMut(&[u8]) -> Result<(), je_nostd::EncodingError> + '_ {
    move |mut b| {
        let mut s = st.borrow_mut();
        while !b.is_empty() {
            match s.write(b) {
                Ok(0) => return Err(je_nostd::EncodingError::Write("zero".into())),
                Ok(k) => b = &b[k..],
                Err((ErrorKind::Interrupted, n)) if n < OS_TAG => {}
                Err((k, n)) => return Err(je_nostd::EncodingError::Write(format!("{:?}@{}", k, n))),
            }
        }
        Ok(())
    }
}

/// how the encoder holds the writer
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Wrap {
    Direct,
    /// `&mut W` (no_std)
    Ref,
    /// through a BufWriter of this capacity
    Buf(usize),
}

fn encode_faulty(c: &Case, data: &[u8], f: Fault, wrap: Wrap) -> (Out, State) {
    let st = RefCell::new(State::new(f));
    let rows = RefCell::new(Vec::new());
    let mut setup = Vec::new();
    let out = to_out(caught(|| {
        macro_rules! go {
            ($v:ident) => {
                match wrap {
                    Wrap::Buf(n) => {
                        let mut w = BufWriter::with_capacity(n, FSink(&st));
                        $v::encode(c, data, &rows, Dyn(&mut w), &mut setup)
                    }
                    _ => $v::encode(c, data, &rows, Dyn(&mut FSink(&st)), &mut setup),
                }
            };
        }
        match c.var {
            Var::Std => go!(v_std),
            Var::Simd => go!(v_simd),
            Var::NoStd => {
                let mut f = nostd_sink(&st);
                let mut w = NDyn(&mut f);
                if wrap == Wrap::Ref {
                    v_nostd::encode(c, data, &rows, &mut w, &mut setup)
                } else {
                    v_nostd::encode(c, data, &rows, w, &mut setup)
                }
            }
        }
    }));
    let s = st.into_inner();
    (out, s)
}

fn judge(c: &Case, data: &[u8], full: &[u8], f: Fault, wrap: Wrap) -> Result<bool, String> {
    let (out, s) = encode_faulty(c, data, f, wrap);
    let l = full.len();
    if s.acc.len() > l || s.acc[..] != full[..s.acc.len()] {
        let at = s.acc.iter().zip(full).position(|(a, b)| a != b).unwrap_or(l);
        return Err(format!("the {} accepted bytes are not a prefix of the stream (first difference at {})", s.acc.len(), at));
    }
    if let Fault::Panic(n) = f {
        // the panic passes through the encoder; what was accepted stays a prefix
        return match out {
            Out::Panic(p) if n < l && p.starts_with("the writer panics") => Ok(true),
            Out::Ok if n >= l && s.acc.len() == l => Ok(false),
            o => Err(format!("the writer panics at byte {} of {}, the result is {:?}", n, l, o)),
        };
    }
    if let Out::Panic(p) = &out {
        return Err(format!("panic: {}", p));
    }
    let nostd = c.var == Var::NoStd;
    let io = |kind: ErrorKind, tag: u64| -> E {
        if nostd {
            E::Write(format!("{:?}@{}", kind, tag))
        } else {
            E::Io(format!("{:?}", kind), format!("injected fault {}", tag), Some(tag))
        }
    };
    let expect_err: Option<Option<E>> = match f {
        Fault::None | Fault::Intr(_) | Fault::IntrAll | Fault::Short(_) | Fault::ShortIntr => None,
        Fault::Sticky(n, k) | Fault::Once(n, k) if n < l => Some(Some(io(KINDS[k], n as u64))),
        Fault::Zero(n) | Fault::ZeroOnce(n) if n < l => Some(None),
        Fault::Os(n, code) if n < l => Some(Some(if nostd {
            E::Write(format!("{:?}@{}", ErrorKind::Interrupted, OS_TAG + code as u64))
        } else {
            let e = Error::from_raw_os_error(code);
            E::Io(format!("{:?}", e.kind()), e.to_string(), None)
        })),
        Fault::IntrErr(_, n) if n < l => Some(Some(io(ErrorKind::Other, n as u64))),
        Fault::Flush(k) if !nostd => Some(Some(io(KINDS[k], 77))),
        _ => None,
    };
    match (expect_err, &out) {
        (None, Out::Ok) => {
            if s.acc.len() != l {
                return Err(format!("success reported, {} of {} bytes written", s.acc.len(), l));
            }
            if !nostd && s.flushed != Some(l) {
                return Err(format!("success reported, but the writer was last flushed after {:?} of {} bytes", s.flushed, l));
            }
            Ok(s.hits > 0 || matches!(f, Fault::Short(_)))
        }
        (None, o) => Err(format!("no byte was refused, but the result is {:?}", o)),
        (Some(_), Out::Ok) => Err(format!("success reported although the writer failed ({} of {} bytes written)", s.acc.len(), l)),
        (Some(Some(e)), Out::Err(g)) => {
            if e != *g {
                return Err(format!("the error reported is {:?}, the writer failed with {:?}", g, e));
            }
            Ok(true)
        }
        (Some(None), Out::Err(g)) => match g {
            E::Io(..) | E::Write(_) => Ok(true),
            g => Err(format!("the error reported is {:?} for a writer that accepts nothing", g)),
        },
        (Some(_), o) => Err(format!("{:?}", o)),
    }
}

fn cases(t: bool) -> Vec<Case> {
    let mut v = Vec::new();
    let b = Case { w: 17, h: 9, q: 80, content: Content::Pat(0, 1), ..Case::default() };
    for var in VARS {
        v.push(Case { color: 0, var, ..b.clone() });
        v.push(Case { color: 1, samp: 0, var, rst: 1, ..b.clone() });
        v.push(Case { color: 6, samp: 3, var, opt: true, rst: 2, ..b.clone() });
        v.push(Case { color: 8, samp: 4, var, prog: 3, ..b.clone() });
        v.push(Case { color: 1, samp: 3, var, prog: 1, opt: true, rst: 1, entry: Entry::Buffer, ..b.clone() });
        v.push(Case { color: 7, samp: 3, var, entry: Entry::Buffer, apps: vec![App::Seg(1, 40, 255), App::Icc(30, 1), App::Seg(14, 0, 0)], dens: (1, 300, 300), ..b.clone() });
        // many stuffed bytes: flat optimised data
        v.push(Case { color: 0, w: 64, h: 24, q: 100, ql: Qt::Uniform(1), var, content: Content::Pat(3, 3), ..b.clone() });
        if t {
            v.push(Case { color: 2, w: 90, h: 70, q: 95, samp: 5, var, opt: true, rst: 3, ..b.clone() });
            v.push(Case { color: 4, w: 90, h: 70, q: 95, samp: 3, var, rst: 7, apps: vec![App::Icc(70000, 1)], ..b.clone() });
            v.push(Case { color: 8, w: 60, h: 60, q: 90, samp: 3, prog: 64, var, rst: 5, ..b.clone() });
        }
    }
    v
}

fn faults(l: usize, t: bool) -> Vec<Fault> {
    let mut v = vec![Fault::None, Fault::IntrAll, Fault::ShortIntr];
    for k in [1usize, 2, 3, 5, 7, 8, 64] {
        v.push(Fault::Short(k));
    }
    for k in 0..KINDS.len() {
        v.push(Fault::Flush(k));
    }
    for n in 0..=l {
        v.push(Fault::Sticky(n, n % KINDS.len()));
        v.push(Fault::Once(n, (n + 3) % KINDS.len()));
        v.push(Fault::Zero(n));
        v.push(Fault::Intr(n));
        v.push(Fault::ZeroOnce(n));
        v.push(Fault::Panic(n));
        v.push(Fault::Os(n, OS[n % OS.len()]));
        if t {
            for k in 0..KINDS.len() {
                v.push(Fault::Sticky(n, k));
                v.push(Fault::Once(n, k));
            }
        }
    }
    v
}

const WRAPS: [Wrap; 6] =
    [Wrap::Direct, Wrap::Buf(1), Wrap::Buf(7), Wrap::Buf(64), Wrap::Buf(512), Wrap::Buf(8192)];
const NWRAPS: [Wrap; 2] = [Wrap::Direct, Wrap::Ref];

fn text(c: &Case, f: Fault, w: Wrap) -> String {
    let f = match f {
        Fault::None => "none".to_string(),
        Fault::Sticky(a, b) => format!("sticky:{}:{}", a, b),
        Fault::Once(a, b) => format!("once:{}:{}", a, b),
        Fault::Zero(a) => format!("zero:{}:0", a),
        Fault::Intr(a) => format!("intr:{}:0", a),
        Fault::IntrAll => "intrall".into(),
        Fault::ShortIntr => "shortintr".into(),
        Fault::Short(a) => format!("short:{}:0", a),
        Fault::IntrErr(a, b) => format!("intrerr:{}:{}", a, b),
        Fault::Flush(a) => format!("flush:{}:0", a),
        Fault::ZeroOnce(a) => format!("zeroonce:{}:0", a),
        Fault::Panic(a) => format!("panic:{}:0", a),
        Fault::Os(a, b) => format!("os:{}:{}", a, b),
    };
    let w = match w {
        Wrap::Direct => "direct".to_string(),
        Wrap::Ref => "ref".into(),
        Wrap::Buf(n) => format!("buf:{}", n),
    };
    format!("{} fault={} wrap={}", c, f, w)
}

pub fn replay(t: &str) -> Result<(), String> {
    let c = parse_case(t)?;
    let get = |k: &str| t.split_whitespace().find_map(|x| x.strip_prefix(k)).unwrap_or("").to_string();
    let f = get("fault=");
    let p: Vec<&str> = f.split(':').collect();
    let n = |i: usize| p.get(i).and_then(|x| x.parse().ok()).unwrap_or(0usize);
    let f = match p[0] {
        "sticky" => Fault::Sticky(n(1), n(2)),
        "once" => Fault::Once(n(1), n(2)),
        "zero" => Fault::Zero(n(1)),
        "intr" => Fault::Intr(n(1)),
        "intrall" => Fault::IntrAll,
        "shortintr" => Fault::ShortIntr,
        "short" => Fault::Short(n(1)),
        "intrerr" => Fault::IntrErr(n(1), n(2)),
        "flush" => Fault::Flush(n(1)),
        "zeroonce" => Fault::ZeroOnce(n(1)),
        "panic" => Fault::Panic(n(1)),
        "os" => Fault::Os(n(1), n(2) as i32),
        _ => Fault::None,
    };
    let w = get("wrap=");
    let w = match w.as_str() {
        "ref" => Wrap::Ref,
        "direct" => Wrap::Direct,
        x => Wrap::Buf(x.split(':').nth(1).and_then(|x| x.parse().ok()).unwrap_or(64)),
    };
    let data = c.data();
    let full = run_data(&c, &data);
    if !full.ok() {
        return Err(format!("encoding into memory failed: {:?}", full.out));
    }
    judge(&c, &data, &full.bytes, f, w).map(|_| ())
}

/// Streams of a few hundred kilobytes in every mode, and one of more than 2^24 bytes.
fn long_cases(t: bool) -> Vec<Case> {
    let base = Case { w: 400, h: 300, q: 98, content: Content::Pat(0, 4), ..Case::default() };
    let mut v = Vec::new();
    for (k, &(color, samp, prog, opt, rst)) in
        [(1u8, 0u8, 0u8, false, 0u16), (8, 3, 0, true, 3), (6, 5, 4, false, 0), (1, 3, 3, true, 50), (5, 0, 64, true, 0)].iter().enumerate()
    {
        for var in [Var::Std, Var::Simd, Var::NoStd] {
            if t || var as usize == k % 3 || k == 0 {
                v.push(Case { color, samp, prog, opt, rst, var, ..base.clone() });
            }
        }
    }
    v.push(Case { apps: vec![App::Icc(16_707_345, 3)], w: 33, h: 17, ..base.clone() });
    v.push(Case { color: 0, w: 4100, h: 4100, q: 100, ..base.clone() });
    v
}

pub fn run() -> Result<Ev, Violation> {
    let t = thorough();
    let hits = AtomicU64::new(0);
    let seen = Seen::default();
    let (mut total, mut offsets) = (0u64, 0u64);
    let mut samples = Vec::new();
    let cs = cases(t);
    for (ci, c) in cs.iter().enumerate() {
        let data = c.data();
        let full = run_data(c, &data);
        if !full.ok() {
            return Err(Violation { replay: text(c, Fault::None, Wrap::Direct), what: format!("encoding into memory failed: {:?}", full.out) });
        }
        let full = full.bytes;
        offsets += full.len() as u64 + 1;
        let mut work: Vec<(Fault, Wrap)> = Vec::new();
        for f in faults(full.len(), t) {
            let wraps: &[Wrap] = if c.var == Var::NoStd { &NWRAPS } else { &WRAPS };
            for (wi, w) in wraps.iter().enumerate() {
                // direct: everything; the other holders: every offset in turn (quick) or all (thorough)
                let n = match f {
                    Fault::Sticky(n, _) | Fault::Once(n, _) | Fault::Zero(n) | Fault::Intr(n) | Fault::ZeroOnce(n) | Fault::Panic(n) | Fault::Os(n, _) => n,
                    _ => 0,
                };
                if wi == 0 || t || n == full.len() || n + 1 == full.len() || n % (wraps.len() - 1) == wi - 1 || n == 0 {
                    work.push((f, *w));
                }
            }
        }
        // pairs: interrupted at a, error at b
        if ci % 7 == 0 {
            let step = if t { 1 } else { 5 };
            for a in (0..full.len()).step_by(step) {
                for b in (a..=full.len()).step_by(if t { 1 } else { 7 }) {
                    work.push((Fault::IntrErr(a, b), Wrap::Direct));
                }
            }
        }
        if ci % 3 == 0 {
            if let Some((f, w)) = work.get(work.len() / 2) {
                samples.push(text(c, *f, *w));
            }
        }
        total += work.len() as u64;
        for_all(
            work.len() as u64,
            "C06",
            &|i| text(c, work[i as usize].0, work[i as usize].1),
            &|i, _| {
                let (f, w) = work[i as usize];
                match judge(c, &data, &full, f, w) {
                    Ok(h) => {
                        hits.fetch_add(h as u64, Ordering::Relaxed);
                        Ok(Obs { hash: fnv(text(c, f, w).as_bytes()), execs: 1, nontrivial: h })
                    }
                    Err(what) => Err(Violation { replay: text(c, f, w), what }),
                }
            },
            &seen,
        )?;
    }
    // long streams: failures around every boundary of 4096 bytes and every power of two
    let mut long = 0u64;
    for c in long_cases(t) {
        let data = c.data();
        let full = run_data(&c, &data);
        if !full.ok() {
            return Err(Violation { replay: text(&c, Fault::None, Wrap::Direct), what: format!("encoding into memory failed: {:?}", full.out) });
        }
        let full = full.bytes;
        let l = full.len();
        let huge = l > 1 << 22;
        let near = if huge { 0 } else { 2 };
        let mut at: Vec<usize> = Vec::new();
        let grid = (0..l / 4096 + 1).map(|k| k * 4096).filter(|_| !huge).chain((12..28).map(|k| 1 << k)).chain([l]);
        for b in grid {
            at.extend((b.max(near + 1) - near - 1..=b + near).filter(|n| *n <= l));
        }
        if !huge {
            at.extend((0..l).step_by(if t { 211 } else { 2003 }));
        }
        at.sort();
        at.dedup();
        long += at.len() as u64;
        total += at.len() as u64;
        let fault = |i: u64| {
            let n = at[i as usize];
            let f = match (i / 2) % 6 {
                0 | 1 => Fault::Sticky(n, i as usize % KINDS.len()),
                2 | 3 => Fault::Once(n, i as usize % KINDS.len()),
                4 => Fault::ZeroOnce(n),
                _ => Fault::Intr(n),
            };
            if n == l { Fault::Flush(i as usize % KINDS.len()) } else { f }
        };
        for_all(
            at.len() as u64,
            "C06",
            &|i| text(&c, fault(i), Wrap::Direct),
            &|i, _| {
                let f = fault(i);
                let h = judge(&c, &data, &full, f, Wrap::Direct).map_err(|what| Violation { replay: text(&c, f, Wrap::Direct), what })?;
                hits.fetch_add(h as u64, Ordering::Relaxed);
                Ok(Obs { hash: fnv(text(&c, f, Wrap::Direct).as_bytes()), execs: 1, nontrivial: h })
            },
            &seen,
        )?;
    }
    // the writer fails at every offset under every configuration near two bases
    let mut per = Json::new();
    let skip = ["content", "quality", "first table", "second table", "density"];
    for space in crate::dev::both(if t { 3 } else { 2 }, 2, false, &skip) {
        let (n, e) = for_all(
            space.n,
            "C06",
            &|i| (space.get)(i).map(|c| text(&c, Fault::None, Wrap::Direct)).unwrap_or_default(),
            &|i, _| {
                let Some(c) = (space.get)(i) else { return Ok(Obs::default()) };
                let data = c.data();
                let full = run_data(&c, &data);
                if !full.ok() {
                    return Err(Violation { replay: text(&c, Fault::None, Wrap::Direct), what: format!("encoding into memory failed: {:?}", full.out) });
                }
                let l = full.bytes.len();
                let far = if t { 1500 } else { 200 };
                let mut execs = 0;
                for n in (0..=l).filter(|n| if t { l < 4000 || *n < far || l - n < far || n % 997 == 0 } else { *n < far || l - n < 60 || n % (l / 50 + 1) == 0 }) {
                    let k = (n + i as usize) % KINDS.len();
                    let f = if (n + i as usize / 3) % 2 == 0 { Fault::Sticky(n, k) } else { Fault::Once(n, k) };
                    let fs = if n == l { vec![f, Fault::Flush(k)] } else { vec![f] };
                    for f in fs {
                        judge(&c, &data, &full.bytes, f, Wrap::Direct).map_err(|what| Violation { replay: text(&c, f, Wrap::Direct), what })?;
                        execs += 1;
                    }
                }
                hits.fetch_add(execs, Ordering::Relaxed);
                Ok(Obs { hash: fnv(&full.bytes), execs, nontrivial: true })
            },
            &seen,
        )?;
        per = per.num(&space.name, n);
        total += e;
    }
    Ok(Ev {
        prop: "C06",
        level: "fault_enumeration",
        coverage: Json::new()
            .num("evaluations", total)
            .num("distinct_nontrivial", seen.len())
            .str("rule", "for each history (one encode) the writer fails in every listed way at every byte offset of the output; non-trivial: the fault was actually hit (or the write was shortened)")
            .num("histories", cs.len() as u64)
            .num("failures_in_long_streams", long)
            .obj("configurations_with_a_failure_at_every_offset", per)
            .num("byte_offsets", offsets)
            .num("faults_hit", hits.into_inner())
            .strs("samples", &samples)
            .bool("exhaustive", t),
        assumptions: vec!["offsets and fault kinds are complete for the listed histories; histories are small images in every mode".into()],
    })
}
