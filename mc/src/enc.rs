//! The three builds of the real encoder (default, simd, no_std) behind one interface.

use crate::case::*;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum E {
    InvalidApp(u8),
    AppTooLarge(usize),
    IccTooLarge(usize),
    BadData { length: usize, required: usize },
    Zero { w: u16, h: u16 },
    /// ErrorKind (debug), message, tag of the payload if it is our own `Tag`
    Io(String, String, Option<u64>),
    Write(String),
    Other(String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Ok,
    Err(E),
    Panic(String),
}

/// Error payload that identifies the injected fault.
#[derive(Debug)]
pub struct Tag(pub u64);
impl std::fmt::Display for Tag {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "injected fault {}", self.0)
    }
}
impl std::error::Error for Tag {}

pub struct Planes {
    pub jct: u8,
    pub w: u16,
    pub h: u16,
    pub p: [Vec<u8>; 4],
}

/// Component samples an image stands for (the stored values).
pub fn planes(c: &Case, data: &[u8]) -> Planes {
    let bpp = c.bpp();
    let n = c.w as usize * c.h as usize;
    let mut p: [Vec<u8>; 4] = Default::default();
    for k in p.iter_mut().take(c.ncomp()) {
        k.reserve_exact(n);
    }
    for px in data.chunks(bpp).take(n) {
        match c.color {
            0 => p[0].push(px[0]),
            1..=4 => {
                let (r, g, b) = if c.color <= 2 { (px[0], px[1], px[2]) } else { (px[2], px[1], px[0]) };
                let (y, cb, cr) = je::rgb_to_ycbcr(r, g, b);
                p[0].push(y);
                p[1].push(cb);
                p[2].push(cr);
            }
            5 | 8 => {
                for k in 0..bpp {
                    p[k].push(px[k])
                }
            }
            6 => {
                for k in 0..4 {
                    p[k].push(255 - px[k])
                }
            }
            _ => {
                let (y, cb, cr) = je::rgb_to_ycbcr(px[0], px[1], px[2]);
                p[0].push(y);
                p[1].push(cb);
                p[2].push(cr);
                p[3].push(255 - px[3]);
            }
        }
    }
    Planes { jct: c.jct(), w: c.w, h: c.h, p }
}

/// The order in which the settings of a case are made: it is part of the case (a function of its
/// numbers), and all orders occur.
pub fn call_order(c: &Case) -> [u8; 7] {
    let mut k = 0xcbf2_9ce4_8422_2325u64;
    for x in [c.color as u64, c.samp as u64, c.w as u64, c.h as u64, c.q as u64, c.prog as u64, c.opt as u64, c.rst as u64,
              c.dens.1 as u64, c.apps.len() as u64, c.entry as u64] {
        k = (k ^ x).wrapping_mul(0x100_0000_01b3);
    }
    k ^= k >> 32;
    let mut o = [0, 1, 2, 3, 4, 5, 6];
    for i in (1..7).rev() {
        o.swap(i, (k % (i as u64 + 1)) as usize);
        k /= i as u64 + 1;
    }
    o
}

/// How a custom image buffer breaks its contract: `kind` 0..=10 concern the samples supplied for
/// component `comp` (4: all) of the rows `row` (0 all, 1 the first, 2 the last); the others
/// change an answer after `comp` calls.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Wildness {
    pub kind: u8,
    pub comp: u8,
    pub row: u8,
}
pub const WILD_COLOR: u8 = 11;
pub const WILD_WIDER: u8 = 12;
pub const WILD_NARROWER: u8 = 13;
pub const WILD_TALLER: u8 = 14;
pub const WILD_SHORTER: u8 = 15;
pub const WILD_KINDS: u8 = 16;

pub const CAP: usize = 96 << 20;

/// In-memory sink for the std builds (bounded so that a runaway encoder cannot exhaust memory).
pub struct Sink<'a>(pub &'a mut Vec<u8>);
impl std::io::Write for Sink<'_> {
    #[inline]
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0.len() + b.len() > CAP {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, Tag(u64::MAX)));
        }
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    #[inline]
    fn write_all(&mut self, b: &[u8]) -> std::io::Result<()> {
        self.write(b).map(|_| ())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// The one writer type the encoders are instantiated with (std builds).
pub struct Dyn<'a>(pub &'a mut dyn std::io::Write);
impl std::io::Write for Dyn<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.write(b)
    }
    fn write_all(&mut self, b: &[u8]) -> std::io::Result<()> {
        self.0.write_all(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.flush()
    }
}
/// The same for the no_std build's own writer trait.
pub struct NDyn<'a>(pub &'a mut dyn FnMut(&[u8]) -> Result<(), je_nostd::EncodingError>);
impl je_nostd::JfifWrite for NDyn<'_> {
    fn write_all(&mut self, b: &[u8]) -> Result<(), je_nostd::EncodingError> {
        (self.0)(b)
    }
}
pub fn nsink(v: &mut Vec<u8>) -> impl FnMut(&[u8]) -> Result<(), je_nostd::EncodingError> + '_ {
    move |b| {
        if v.len() + b.len() > CAP {
            return Err(je_nostd::EncodingError::Write("output limit of the harness".into()));
        }
        v.extend_from_slice(b);
        Ok(())
    }
}

macro_rules! variant {
    ($m:ident, $k:ident, { $($io:tt)* }, { $e:ident $text:ident $($said:tt)* }) => {
        pub mod $m {
            use super::*;
            use $k::{ColorType, Density, Encoder, EncodingError, ImageBuffer, JfifWrite, JpegColorType,
                     QuantizationTableType as Q, SamplingFactor as S};

            #[allow(unreachable_patterns)]
            pub fn err($e: EncodingError) -> E {
                // the text of an error tells what it holds
                let $text = $e.to_string();
                let said = match &$e {
                    EncodingError::InvalidAppSegment(n) => $text.contains(&n.to_string()),
                    EncodingError::AppSegmentTooLarge(n) | EncodingError::IccTooLarge(n) => $text.contains(&n.to_string()),
                    EncodingError::BadImageData { length, required } => {
                        $text.contains(&length.to_string()) && $text.contains(&required.to_string())
                    }
                    EncodingError::ZeroImageDimensions { width, height } => {
                        $text.contains(&width.to_string()) && $text.contains(&height.to_string())
                    }
                    EncodingError::Write(s) => $text.contains(s.as_str()),
                    $($said)*
                    _ => true,
                };
                if !said {
                    return E::Other(format!("{:?}, whose text is {:?} or whose source is lost", $e, $text));
                }
                match $e {
                    EncodingError::InvalidAppSegment(n) => E::InvalidApp(n),
                    EncodingError::AppSegmentTooLarge(n) => E::AppTooLarge(n),
                    EncodingError::IccTooLarge(n) => E::IccTooLarge(n),
                    EncodingError::BadImageData { length, required } => E::BadData { length, required },
                    EncodingError::ZeroImageDimensions { width, height } => E::Zero { w: width, h: height },
                    EncodingError::Write(s) => E::Write(s),
                    $($io)*
                    e => E::Other(format!("{:?}", e)),
                }
            }

            pub fn color(c: u8) -> ColorType {
                use ColorType::*;
                [Luma, Rgb, Rgba, Bgr, Bgra, Ycbcr, Cmyk, CmykAsYcck, Ycck][c as usize]
            }
            pub fn jcolor(c: u8) -> JpegColorType {
                use JpegColorType::*;
                [Luma, Ycbcr, Cmyk, Ycck][c as usize]
            }
            pub fn samp(c: u8) -> S {
                use S::*;
                [F_1_1, F_2_1, F_1_2, F_2_2, F_4_1, F_4_2, F_1_4, F_2_4,
                 R_4_4_4, R_4_4_0, R_4_4_1, R_4_2_2, R_4_2_0, R_4_2_1, R_4_1_1, R_4_1_0][c as usize]
            }
            /// Which of the sampling factors (0..8, then aliases) the numeric factors give.
            pub fn from_factors(h: u8, v: u8) -> Option<u8> {
                let s = S::from_factors(h, v)?;
                Some((0..16).find(|&i| samp(i) == s).unwrap_or(SAMP_UNSET))
            }
            pub fn qt(q: &Qt) -> Q {
                use Q::*;
                match q {
                    Qt::Unset => Default,
                    Qt::Preset(n) => [Default, Flat, CustomMsSsim, CustomPsnrHvs, ImageMagick,
                                      KleinSilversteinCarney, DentalXRays, VisualDetectionModel,
                                      ImprovedDetectionModel][*n as usize].clone(),
                    other => Custom(Box::new(other.custom().unwrap())),
                }
            }
            pub fn density(d: (u8, u16, u16)) -> Density {
                match d.0 {
                    1 => Density::Inch { x: d.1, y: d.2 },
                    2 => Density::Centimeter { x: d.1, y: d.2 },
                    _ => Density::None,
                }
            }

            /// Applies the configuration; returns the results of the fallible calls.
            pub fn configure<W: JfifWrite>(c: &Case, e: &mut Encoder<W>) -> Vec<Result<(), E>> {
                let mut r = Vec::new();
                for step in call_order(c) {
                    match step {
                        0 if c.samp != SAMP_UNSET => e.set_sampling_factor(samp(c.samp)),
                        1 if c.ql != Qt::Unset || c.qc != Qt::Unset => e.set_quantization_tables(qt(&c.ql), qt(&c.qc)),
                        2 if c.prog == 1 => e.set_progressive(true),
                        2 if c.prog > 1 => e.set_progressive_scans(c.prog),
                        3 if c.opt => e.set_optimized_huffman_tables(true),
                        4 if c.rst != 0 => e.set_restart_interval(c.rst),
                        5 if c.dens.0 != 255 => e.set_density(density(c.dens)),
                        6 => {
                            for a in &c.apps {
                                r.push(match a {
                                    App::Seg(n, l, s) => e.add_app_segment(*n, &app_bytes(*l, *s)).map_err(err),
                                    App::Icc(l, s) => e.add_icc_profile(&app_bytes(*l, *s)).map_err(err),
                                });
                            }
                        }
                        _ => {}
                    }
                }
                r
            }

            pub struct Buf<'a> {
                pub p: &'a Planes,
                /// called with every row asked for
                pub hook: &'a dyn Fn(u16),
            }
            impl ImageBuffer for Buf<'_> {
                fn get_jpeg_color_type(&self) -> JpegColorType {
                    jcolor(self.p.jct)
                }
                fn width(&self) -> u16 {
                    self.p.w
                }
                fn height(&self) -> u16 {
                    self.p.h
                }
                fn fill_buffers(&self, y: u16, b: &mut [Vec<u8>; 4]) {
                    (self.hook)(y);
                    let w = self.p.w as usize;
                    for k in 0..NCOMP[self.p.jct as usize] {
                        b[k].extend_from_slice(&self.p.p[k][y as usize * w..(y as usize + 1) * w]);
                    }
                }
            }

            /// Encodes without allocating anything of its own while it does.
            pub fn encode_lean<W: JfifWrite>(c: &Case, data: &[u8], p: &Planes, hook: &dyn Fn(u16), unused: bool,
                                             w: W) -> Result<(), EncodingError> {
                let mut e = Encoder::new(w, c.q);
                drop(configure(c, &mut e));
                if unused {
                    return Ok(());
                }
                match c.entry {
                    Entry::Slice => e.encode(data, c.w, c.h, color(c.color)),
                    Entry::Buffer => e.encode_image(Buf { p, hook }),
                }
            }

            /// A buffer that breaks the contract of `ImageBuffer` in the way `k` says.
            pub struct Wild<'a> {
                pub p: &'a Planes,
                pub k: Wildness,
                pub calls: std::cell::Cell<u32>,
            }
            impl Wild<'_> {
                fn late(&self) -> bool {
                    let n = self.calls.get() + 1;
                    self.calls.set(n);
                    n > self.k.comp as u32
                }
            }
            impl ImageBuffer for Wild<'_> {
                fn get_jpeg_color_type(&self) -> JpegColorType {
                    if self.k.kind == WILD_COLOR && self.late() {
                        return jcolor(if self.p.jct == 0 { 2 } else { 0 });
                    }
                    jcolor(self.p.jct)
                }
                fn width(&self) -> u16 {
                    match self.k.kind {
                        WILD_WIDER if self.late() => self.p.w + 37,
                        WILD_NARROWER if self.late() => self.p.w / 2,
                        _ => self.p.w,
                    }
                }
                fn height(&self) -> u16 {
                    match self.k.kind {
                        WILD_TALLER if self.late() => self.p.h + 29,
                        WILD_SHORTER if self.late() => self.p.h / 2,
                        _ => self.p.h,
                    }
                }
                fn fill_buffers(&self, y: u16, b: &mut [Vec<u8>; 4]) {
                    let w = self.p.w as usize;
                    let n = NCOMP[self.p.jct as usize];
                    let yy = y.min(self.p.h - 1) as usize;
                    let here = match self.k.row {
                        0 => true,
                        1 => y == 0,
                        _ => y + 1 >= self.p.h,
                    };
                    for k in 0..4 {
                        let row: &[u8] = if k < n { &self.p.p[k][yy * w..(yy + 1) * w] } else { &[] };
                        if !here || (self.k.comp as usize != k && self.k.comp != 4) {
                            b[k].extend_from_slice(row);
                            continue;
                        }
                        match self.k.kind {
                            0 => {}
                            1 => b[k].extend_from_slice(&row[..row.len().saturating_sub(1)]),
                            2 => {
                                b[k].extend_from_slice(row);
                                b[k].push(9);
                            }
                            3 => {
                                for _ in 0..40 {
                                    b[k].extend_from_slice(row);
                                    b[k].push(7);
                                }
                            }
                            4 => b[k].clear(),
                            5 => b[k] = Vec::new(),
                            6 => b[k] = row.to_vec(),
                            7 => panic!("image buffer panics"),
                            8 => {
                                b[k].extend_from_slice(row);
                                b[k].shrink_to_fit();
                            }
                            9 => b.swap(k, (k + 1) % 4),
                            10 => b[k].truncate(w / 2),
                            _ => b[k].extend_from_slice(row),
                        }
                    }
                }
            }
            pub fn encode_wild<W: JfifWrite>(c: &Case, data: &[u8], k: Wildness, w: W) -> Result<(), E> {
                let mut e = Encoder::new(w, c.q);
                configure(c, &mut e);
                let p = planes(c, data);
                e.encode_image(Wild { p: &p, k, calls: Default::default() }).map_err(err)
            }

            /// Runs the encode of `c` on `data` into `w`.
            pub fn encode<W: JfifWrite>(c: &Case, data: &[u8], rows: &RefCell<Vec<u16>>, w: W,
                                        setup: &mut Vec<Result<(), E>>) -> Result<(), E> {
                let mut e = Encoder::new(w, c.q);
                *setup = configure(c, &mut e);
                match c.entry {
                    Entry::Slice => e.encode(data, c.w, c.h, color(c.color)).map_err(err),
                    Entry::Buffer => {
                        let p = planes(c, data);
                        let hook = note_row(rows);
                        e.encode_image(Buf { p: &p, hook: &hook }).map_err(err)
                    }
                }
            }
        }
    };
}

pub fn note_row(rows: &RefCell<Vec<u16>>) -> impl Fn(u16) + '_ {
    move |y| {
        let mut r = rows.borrow_mut();
        if r.last() != Some(&y) {
            r.push(y);
        }
    }
}

fn io_err(e: std::io::Error) -> E {
    let tag = e.get_ref().and_then(|x| x.downcast_ref::<Tag>()).map(|t| t.0);
    E::Io(format!("{:?}", e.kind()), e.to_string(), tag)
}
fn told(e: &dyn std::error::Error, i: &std::io::Error, text: &str) -> bool {
    let s = e.source().and_then(|s| s.downcast_ref::<std::io::Error>());
    text.contains(&i.to_string()) && s.is_some_and(|s| s.kind() == i.kind() && s.to_string() == i.to_string())
}
pub fn io_err_ref(e: &std::io::Error) -> E {
    let tag = e.get_ref().and_then(|x| x.downcast_ref::<Tag>()).map(|t| t.0);
    E::Io(format!("{:?}", e.kind()), e.to_string(), tag)
}

variant!(v_std, je, { EncodingError::IoError(e) => io_err(e), }, { e text EncodingError::IoError(i) => told(&e, i, &text), });
variant!(v_simd, je_simd, { EncodingError::IoError(e) => io_err(e), }, { e text EncodingError::IoError(i) => told(&e, i, &text), });
variant!(v_nostd, je_nostd, {}, { e text });

pub struct Run {
    pub out: Out,
    pub bytes: Vec<u8>,
    pub setup: Vec<Result<(), E>>,
    pub rows: Vec<u16>,
}
impl Run {
    pub fn ok(&self) -> bool {
        self.out == Out::Ok
    }
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
/// Panics inside the code under test are caught and judged; keep them off stderr.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = m + &l);
    }));
}
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

/// Releases the memory of the last panic message.
pub fn forget_panic() {
    PANIC.with(|p| *p.borrow_mut() = String::new());
}

pub fn to_out(r: Result<Result<(), E>, String>) -> Out {
    match r {
        Ok(Ok(())) => Out::Ok,
        Ok(Err(e)) => Out::Err(e),
        Err(p) => Out::Panic(p),
    }
}

pub fn run_data(c: &Case, data: &[u8]) -> Run {
    let mut bytes = Vec::with_capacity(1024);
    let rows = RefCell::new(Vec::new());
    let mut setup = Vec::new();
    let out = to_out(caught(|| match c.var {
        Var::Std => v_std::encode(c, data, &rows, Dyn(&mut Sink(&mut bytes)), &mut setup),
        Var::Simd => v_simd::encode(c, data, &rows, Dyn(&mut Sink(&mut bytes)), &mut setup),
        Var::NoStd => v_nostd::encode(c, data, &rows, NDyn(&mut nsink(&mut bytes)), &mut setup),
    }));
    let rows = rows.try_borrow().map(|r| r.clone()).unwrap_or_default();
    Run { out, bytes, setup, rows }
}

/// The encode of a custom image buffer that breaks its contract.
pub fn run_wild(c: &Case, data: &[u8], k: Wildness) -> (Out, Vec<u8>) {
    let mut bytes = Vec::with_capacity(1024);
    let out = to_out(caught(|| match c.var {
        Var::Std => v_std::encode_wild(c, data, k, Dyn(&mut Sink(&mut bytes))),
        Var::Simd => v_simd::encode_wild(c, data, k, Dyn(&mut Sink(&mut bytes))),
        Var::NoStd => v_nostd::encode_wild(c, data, k, NDyn(&mut nsink(&mut bytes))),
    }));
    (out, bytes)
}

pub fn run(c: &Case) -> Run {
    run_data(c, &c.data())
}
