//! C19: the memory an encode takes is bounded by its configuration, and all of it is given back,
//! however the encode ends.
//!
//! Monitor: a counting allocator (count.rs) around each encode; the writer and the image buffer of the
//! harness allocate nothing while it counts.

use super::*;
use crate::count;
use crate::dev;
use crate::spaces::*;
use std::cell::Cell;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    /// nothing goes wrong
    Whole,
    /// the writer fails from this byte on
    Fail(usize),
    /// the writer panics at this byte
    Panic(usize),
    /// flushing fails
    Flush,
    /// the image buffer panics when asked for this row
    Row(u16),
    /// the slice is too short by this many bytes
    Short(usize),
    /// no encode at all
    Unused,
}

struct Meter<'a> {
    n: &'a Cell<usize>,
    end: End,
}
impl Meter<'_> {
    /// Err(()): refuse
    fn take(&mut self, k: usize) -> Result<usize, ()> {
        let n = self.n.get();
        let room = match self.end {
            End::Fail(at) => {
                if n >= at {
                    return Err(());
                }
                at - n
            }
            End::Panic(at) => {
                if n >= at {
                    std::panic::resume_unwind(Box::new(()));
                }
                at - n
            }
            _ => k,
        };
        self.n.set(n + k.min(room));
        Ok(k.min(room))
    }
}
impl std::io::Write for Meter<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        self.take(b.len()).map_err(|_| std::io::Error::new(std::io::ErrorKind::Other, Tag(1)))
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if self.end == End::Flush {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, Tag(2)));
        }
        Ok(())
    }
}

/// Encodes once; Ok(whether the encoder reported success).
fn once(c: &Case, data: &[u8], p: &Planes, end: End, n: &Cell<usize>) -> Result<bool, ()> {
    let hook = move |y: u16| {
        if end == End::Row(y) {
            std::panic::resume_unwind(Box::new(()));
        }
    };
    let data = match end {
        End::Short(k) => &data[..data.len() - k.min(data.len())],
        _ => data,
    };
    let unused = end == End::Unused;
    let mut m = Meter { n, end };
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match c.var {
        Var::Std => v_std::encode_lean(c, data, p, &hook, unused, Dyn(&mut m)).is_ok(),
        Var::Simd => v_simd::encode_lean(c, data, p, &hook, unused, Dyn(&mut m)).is_ok(),
        Var::NoStd => {
            let mut f = |mut b: &[u8]| {
                while !b.is_empty() {
                    let k = m.take(b.len()).map_err(|_| je_nostd::EncodingError::Write(String::from("full")))?;
                    b = &b[k..];
                }
                Ok(())
            };
            v_nostd::encode_lean(c, data, p, &hook, unused, NDyn(&mut f)).is_ok()
        }
    }))
    .map_err(|_| ())
}

const SLACK: i64 = 128 << 10;
const PER_SAMPLE: i64 = 12;

/// The most heap bytes an encode of `c` may hold at once.
fn bound(c: &Case) -> i64 {
    let (h, v) = c.sampling();
    let (mw, mh) = (8 * h, 8 * v);
    let w = (c.w as usize).div_ceil(mw) * mw;
    let rows = if c.prog == 0 && !c.opt && h <= 2 && v <= 2 { mh } else { (c.h as usize).div_ceil(mh) * mh };
    let segs: usize = c
        .apps
        .iter()
        .map(|a| match a {
            App::Seg(_, l, _) | App::Icc(l, _) => *l,
        })
        .sum();
    (w * rows * c.ncomp()) as i64 * PER_SAMPLE + 4 * segs as i64 + SLACK
}

fn judge(c: &Case, data: &[u8], p: &Planes, end: End) -> Result<(bool, count::Use, usize), String> {
    let go = || {
        let n = Cell::new(0);
        forget_panic();
        count::on();
        let r = once(c, data, p, end, &n);
        let u = count::off();
        (r, u, n.get())
    };
    let (mut r, mut u, n) = go();
    if u.live != 0 {
        // something kept once per process is not a leak; something kept by every encode is
        for _ in 0..3 {
            (r, u, _) = go();
        }
    }
    if u.live > 0 {
        return Err(format!("{} bytes are never released ({:?}, the encode {})", u.live, end, say(r)));
    }
    if u.live < 0 {
        return Err(format!("harness: {} bytes released that were not allocated", -u.live));
    }
    if u.peak > bound(c) {
        return Err(format!("{} bytes in use at once, {} would be {} per sample and {} more", u.peak, bound(c), PER_SAMPLE, SLACK));
    }
    match (end, r) {
        (End::Whole | End::Unused, Ok(true)) => {}
        (End::Fail(_) | End::Flush | End::Short(_), Ok(_)) => {}
        (End::Panic(_) | End::Row(_), _) => {}
        (e, r) => return Err(format!("{:?}: the encode {}", e, say(r))),
    }
    Ok((r == Ok(true), u, n))
}
fn say(r: Result<bool, ()>) -> &'static str {
    match r {
        Ok(true) => "succeeds",
        Ok(false) => "fails",
        Err(()) => "panics",
    }
}

fn text(c: &Case, e: End) -> String {
    let e = match e {
        End::Whole => "whole".to_string(),
        End::Fail(n) => format!("fail:{}", n),
        End::Panic(n) => format!("panic:{}", n),
        End::Flush => "flush".into(),
        End::Row(n) => format!("row:{}", n),
        End::Short(n) => format!("short:{}", n),
        End::Unused => "unused".into(),
    };
    format!("{} end={}", c, e)
}
fn prepared(c: &Case) -> (Vec<u8>, Planes) {
    let d = c.data();
    let p = planes(c, &d);
    (d, p)
}

fn judge_all(c: &Case, ends: &[End]) -> Result<Obs, Violation> {
    let (d, p) = prepared(c);
    let mut o = Obs::default();
    let mut h = 0u64;
    for &e in ends {
        let (_, u, n) = judge(c, &d, &p, e).map_err(|what| Violation { replay: text(c, e), what })?;
        h = h.wrapping_mul(0x100_0000_01b3).wrapping_add(u.peak as u64 ^ (u.calls << 40) ^ (n as u64) << 20);
        o.execs += 1;
    }
    o.hash = h;
    o.nontrivial = true;
    Ok(o)
}

fn j19(c: &Case) -> Result<Obs, String> {
    judge_all(c, &[End::Whole]).map_err(|v| v.what)
}

fn spaces() -> Vec<Space<'static>> {
    let t = thorough();
    let mut v = vec![Geo {
        colors: ALL_COLORS.to_vec(),
        samps: (0..16).chain([SAMP_UNSET]).collect(),
        modes: if t { MODES.to_vec() } else { vec![(0, false), (0, true), (1, false), (5, true), (64, false)] },
        rsts: vec![0, 3],
        dims: vec![(1, 1), (17, 15), (64, 64), (257, 129)],
        pats: vec![(0, 0)],
        entries: vec![Entry::Slice, Entry::Buffer],
        vars: VARS.to_vec(),
        ..Geo::default()
    }
    .space("colour x sampling x mode x size x build")];
    // shapes for which buffering more than the configuration calls for stands out
    v.push(
        Geo {
            colors: if t { ALL_COLORS.to_vec() } else { vec![0, 1, 6, 8] },
            samps: vec![0, 1, 2, 3, 4, 6],
            modes: vec![(0, false), (0, true), (2, false)],
            rsts: vec![0],
            dims: vec![(8, 65535), (65535, 8), (33, 9000), (9000, 33), (600, 1500)],
            pats: vec![(0, 3)],
            quals: vec![100],
            entries: vec![Entry::Slice, Entry::Buffer],
            vars: VARS.to_vec(),
            ..Geo::default()
        }
        .space("long and tall images"),
    );
    v.extend(dev::both(if t { 4 } else { 3 }, 2, true, &["density", "quality"]));
    v.extend(dev::pairs(t, &["density", "quality"]));
    // every setting near a tall image, which tells a row of blocks from the whole image
    let tall = |color| Case { color, w: 64, h: 4001, q: 75, content: Content::Pat(0, 5), ..Case::default() };
    for (name, color) in [("at most 2 settings away from a tall gray image", 0u8), ("at most 2 settings away from a tall colour image", 1)] {
        v.push(dev::deviations(name, tall(color), if t { 3 } else { 2 }, true, &["height", "content"]));
    }
    let wide = |color| Case { color, w: 9001, h: 24, q: 75, content: Content::Pat(0, 5), ..Case::default() };
    for (name, color) in [("at most 2 settings away from a wide gray image", 0u8), ("at most 2 settings away from a wide colour image", 1)] {
        v.push(dev::deviations(name, wide(color), 2, true, &["width", "height", "content", "density"]));
    }
    v
}

fn ends(c: &Case, len: usize, all: bool) -> Vec<End> {
    let mut v = vec![End::Whole, End::Flush, End::Unused];
    let step = if all { 1 } else { (len / 40).max(1) };
    for n in (0..len).step_by(step).chain([len.saturating_sub(1), len.saturating_sub(2)]) {
        v.push(End::Fail(n));
        v.push(End::Panic(n));
    }
    if c.entry == Entry::Buffer {
        v.extend((0..c.h).map(End::Row));
    } else {
        v.extend([1usize, 2, c.bpp(), 1 << 30].map(End::Short));
    }
    v
}
fn faulty_cases() -> Vec<Case> {
    let mut v = Vec::new();
    let b = Case { w: 17, h: 19, q: 80, content: Content::Pat(0, 1), ..Case::default() };
    for var in VARS {
        for entry in [Entry::Slice, Entry::Buffer] {
            for &(color, samp) in &[(0u8, 0u8), (1, 3), (2, 4), (6, 1), (7, 3), (8, 5)] {
                for &(prog, opt, rst) in &[(0u8, false, 0u16), (0, true, 2), (1, false, 1), (5, true, 0), (64, true, 3)] {
                    let custom = if color % 2 == 0 { Qt::Lin(3) } else { Qt::Unset };
                    let apps = if prog == 1 { vec![App::Seg(3, 50, 255), App::Icc(90, 2), App::Seg(0, 5, 5)] } else { vec![] };
                    v.push(Case { color, samp, prog, opt, rst, entry, var, apps, ql: custom.clone(), qc: custom, ..b.clone() });
                }
            }
        }
    }
    v
}

/// Open files before and after encodes to files, in every way they can end.
fn files() -> Result<u64, Violation> {
    let open = || std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0);
    let dir = std::env::temp_dir().join(format!("mc19.{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let path = dir.join("x.jpg");
    let data = vec![7u8; 17 * 19 * 3];
    let mut n = 0;
    let mut bad = None;
    for round in 0..40u32 {
        let before = open();
        let what = match round % 5 {
            0 => "an encode to a file",
            1 => "an encode to a file that is refused",
            2 => "an encoder for a file, dropped unused",
            3 => "an encoder for a file that cannot be created",
            _ => "an encode to a file whose image buffer panics",
        };
        macro_rules! go {
            ($k:ident, $v:ident) => {{
                let to = if round % 5 == 3 { dir.join("no/x.jpg") } else { path.clone() };
                let r = caught(|| {
                    let Ok(mut e) = $k::Encoder::new_file(&to, 80) else { return };
                    e.set_progressive(round % 2 == 1);
                    match round % 5 {
                        0 => drop(e.encode(&data, 17, 19, $k::ColorType::Rgb)),
                        1 => drop(e.encode(&data[1..], 17, 19, $k::ColorType::Rgb)),
                        4 => {
                            let p = Planes { jct: 1, w: 17, h: 19, p: [data.clone(), data.clone(), data.clone(), Vec::new()] };
                            let hook = |y: u16| {
                                if y == 9 {
                                    std::panic::resume_unwind(Box::new(()))
                                }
                            };
                            drop(e.encode_image($v::Buf { p: &p, hook: &hook }))
                        }
                        _ => drop(e),
                    }
                });
                drop(r);
            }};
        }
        if round < 20 {
            go!(je, v_std)
        } else {
            go!(je_simd, v_simd)
        }
        n += 1;
        let after = open();
        if after > before {
            bad = Some(format!("{} leaves {} file(s) open", what, after - before));
            break;
        }
    }
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_dir(&dir);
    match bad {
        Some(what) => Err(Violation { replay: "files".into(), what }),
        None => Ok(n),
    }
}

pub fn replay(t: &str) -> Result<(), String> {
    if t.trim() == "files" {
        return files().map(|_| ()).map_err(|v| v.what);
    }
    let c = parse_case(t)?;
    let e = t.split_whitespace().find_map(|x| x.strip_prefix("end=")).unwrap_or("whole").to_string();
    let (k, n) = e.split_once(':').unwrap_or((&e, "0"));
    let n: usize = n.parse().unwrap_or(0);
    let end = match k {
        "fail" => End::Fail(n),
        "panic" => End::Panic(n),
        "flush" => End::Flush,
        "row" => End::Row(n as u16),
        "short" => End::Short(n),
        "unused" => End::Unused,
        _ => End::Whole,
    };
    judge_all(&c, &[end]).map(|_| ()).map_err(|v| v.what)
}

pub fn run() -> Result<Ev, Violation> {
    // the monitor sees a leak and a peak
    count::on();
    let keep: Vec<u8> = std::hint::black_box(Vec::with_capacity(1000));
    drop(std::hint::black_box(Vec::<u8>::with_capacity(5000)));
    let u = count::off();
    drop(keep);
    assert!(u.live == 1000 && u.peak == 6000, "harness: the allocation monitor does not count: {:?}", u);

    let files = files()?;
    let mut t = explore("C19", &spaces(), &|c, _| j19(c))?;
    let cs = faulty_cases();
    let all = thorough();
    let seen = Seen::default();
    let (n, e) = for_all(
        cs.len() as u64,
        "C19",
        &|i| text(&cs[i as usize], End::Whole),
        &|i, _| {
            let c = &cs[i as usize];
            let len = crate::enc::run(c).bytes.len();
            judge_all(c, &ends(c, len, all || i % 5 == 0))
        },
        &seen,
    )?;
    t.cases += n;
    t.execs += e;
    t.distinct += seen.len();
    t.per_space.push(("cases ended at every byte and row".into(), n));
    t.samples.push(text(&cs[cs.len() / 2], End::Row(3)));
    Ok(Ev {
        prop: "C19",
        level: "fault_enumeration",
        coverage: exploration(&t, "each case is encoded under a counting allocator, complete and ended early in every listed way at the listed bytes and rows; distinct: by peak, number of allocations and bytes written", true)
            .num("histories", t.cases)
            .num("faults_hit", e)
            .num("file_histories", files),
        assumptions: vec![
            "heap memory only; the stack is not measured".into(),
            "memory kept once per process (not per encode) is not a leak".into(),
        ],
    })
}
