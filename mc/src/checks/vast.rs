//! Images of more than 2^31 pixels (and so, all but the grey ones, of more than 2^32 bytes).
//!
//! A strip of a few MCU rows is mapped over and over into a large address range, so that the
//! caller's slice really has that length while costing the memory of the strip. With one restart
//! interval per MCU row every MCU row is coded independently of all others: MCU row i of the huge
//! image must be coded in exactly the bytes of MCU row i mod k of the strip, encoded on its own.

use super::*;
use std::io;

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(a: *mut u8, len: usize) -> i32;
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn ftruncate(fd: i32, len: i64) -> i32;
    fn close(fd: i32) -> i32;
}

/// `times` repetitions of a strip.
struct Repeated(*mut u8, usize);
unsafe impl Sync for Repeated {}
impl Repeated {
    fn new(strip: &[u8], times: usize) -> Option<Repeated> {
        let len = strip.len() * times;
        unsafe {
            let fd = memfd_create(b"strip\0".as_ptr(), 0);
            if fd < 0 {
                return None;
            }
            let p = mmap(std::ptr::null_mut(), len, 0, 0x02 | 0x20 | 0x4000, -1, 0);
            if ftruncate(fd, strip.len() as i64) != 0 || p as isize == -1 {
                close(fd);
                return None;
            }
            let r = Repeated(p, len);
            for i in 0..times {
                // the first one writable, to fill it; MAP_SHARED | MAP_FIXED
                if mmap(p.add(i * strip.len()), strip.len(), if i == 0 { 3 } else { 1 }, 0x01 | 0x10, fd, 0) as isize == -1 {
                    close(fd);
                    return None;
                }
            }
            close(fd);
            std::ptr::copy_nonoverlapping(strip.as_ptr(), p, strip.len());
            Some(r)
        }
    }
    fn slice(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.0, self.1) }
    }
}
impl Drop for Repeated {
    fn drop(&mut self) {
        unsafe { munmap(self.0, self.1) };
    }
}

/// Flat 8x8 cells, all different along a row and between the rows of the strip.
fn strip(w: usize, rows: usize, bpp: usize) -> Vec<u8> {
    let mut v = vec![0u8; w * rows * bpp];
    for y in 0..rows {
        for x in 0..w {
            let mut k = ((y / 8 * 8192 + x / 8) as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
            k ^= k >> 31;
            for c in 0..bpp {
                v[(y * w + x) * bpp + c] = (k >> (8 * c)) as u8;
            }
        }
    }
    v
}

/// What the stream of the huge image must be, compared as it is written.
struct Expect {
    head: Vec<u8>,
    groups: Vec<Vec<u8>>,
    n: usize,
    /// group under way (0: header), position in it
    at: usize,
    pos: usize,
    total: u64,
    bad: Option<String>,
}
impl Expect {
    fn piece(&self, at: usize) -> (&[u8], [u8; 2]) {
        if at == 0 {
            return (&self.head, [0, 0]);
        }
        let g = &self.groups[(at - 1) % self.groups.len()];
        (g, [0xff, if at == self.n { 0xd9 } else { 0xd0 + ((at - 1) % 8) as u8 }])
    }
    fn take(&mut self, mut b: &[u8]) -> bool {
        self.total += b.len() as u64;
        while !b.is_empty() && self.bad.is_none() {
            if self.at > self.n {
                self.bad = Some("bytes after the end of the image".into());
                break;
            }
            let (body, tail) = self.piece(self.at);
            let len = body.len() + if self.at == 0 { 0 } else { 2 };
            let left = len - self.pos;
            let k = left.min(b.len());
            let mut ok = true;
            for (i, x) in b[..k].iter().enumerate() {
                let q = self.pos + i;
                ok &= *x == if q < body.len() { body[q] } else { tail[q - body.len()] };
            }
            if !ok {
                self.bad = Some(match self.at {
                    0 => format!("header: around byte {} of {}", self.pos, len),
                    g => format!("MCU row {}, around byte {} of {}: not the bytes that the same pixels give in a small image, or not the right marker after them", g - 1, self.pos, len),
                });
                break;
            }
            self.pos += k;
            b = &b[k..];
            if self.pos == len {
                self.at += 1;
                self.pos = 0;
                crate::par::still_running();
            }
        }
        self.bad.is_none()
    }
    fn done(&self) -> bool {
        self.at == self.n + 1 && self.pos == 0
    }
}
impl io::Write for Expect {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.take(b) {
            Ok(b.len())
        } else {
            Err(io::Error::new(io::ErrorKind::Other, Tag(1)))
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Pixels per row so that the strip is a whole number of pages: 4096 divides 24 * w.
fn width(bpp: usize) -> u16 {
    match bpp {
        3 => 61440,
        _ => 64512,
    }
}
const ROWS: usize = 24;

fn strip_case(color: u8, var: Var) -> Case {
    let bpp = BPP[color as usize];
    let w = width(bpp);
    Case {
        color,
        var,
        w,
        h: ROWS as u16,
        q: 30,
        samp: 0,
        rst: w / 8,
        content: Content::Raw(strip(w as usize, ROWS, bpp)),
        ..Case::default()
    }
}
/// Rows of the huge image: more than 2^31 pixels.
fn height(color: u8) -> u16 {
    let strips = ((1u64 << 31) / width(BPP[color as usize]) as u64 + 30) / ROWS as u64 + 1;
    (strips * ROWS as u64) as u16
}

/// `c`: the strip as a case.
fn judge(c: &Case, h: u16, big: &Repeated, judge_strip: &dyn Fn(&Case) -> Result<(), String>) -> Result<u64, String> {
    judge_strip(c).map_err(|e| format!("in an image of {} rows: {}", ROWS, e))?;
    let r = run(c);
    if !r.ok() {
        return Err(format!("an image of {}x{} gives {:?}", c.w, ROWS, r.out));
    }
    let (head, groups) = split(&r.bytes).ok_or("cannot find the scan of the small image")?;
    if groups.len() != ROWS / 8 {
        return Err(format!("{} restart intervals in an image of {} MCU rows", groups.len(), ROWS / 8));
    }
    let mut head = head;
    let sof = sof_at(&head).ok_or("no frame header")?;
    head[sof + 5..sof + 7].copy_from_slice(&h.to_be_bytes());
    let mut x = Expect { head, groups, n: h as usize / 8, at: 0, pos: 0, total: 0, bad: None };
    let huge = Case { h, content: Content::Raw(Vec::new()), ..c.clone() };
    let rows = Default::default();
    let mut setup = Vec::new();
    let out = to_out(caught(|| match c.var {
        Var::Std => v_std::encode(&huge, big.slice(), &rows, Dyn(&mut x), &mut setup),
        Var::Simd => v_simd::encode(&huge, big.slice(), &rows, Dyn(&mut x), &mut setup),
        Var::NoStd => v_nostd::encode(
            &huge,
            big.slice(),
            &rows,
            NDyn(&mut |b| {
                if x.take(b) {
                    Ok(())
                } else {
                    Err(je_nostd::EncodingError::Write("stop".into()))
                }
            }),
            &mut setup,
        ),
    }));
    if let Some(b) = &x.bad {
        return Err(b.clone());
    }
    if out != Out::Ok {
        return Err(format!("{:?} after {} bytes", out, x.total));
    }
    if !x.done() {
        return Err(format!("the stream ends after {} bytes, in MCU row {} of {}", x.total, x.at as i64 - 1, x.n));
    }
    Ok(x.total)
}

/// Position of the frame header's marker.
fn sof_at(b: &[u8]) -> Option<usize> {
    let mut p = 2;
    while p + 4 <= b.len() {
        if b[p + 1] >= 0xc0 && b[p + 1] <= 0xc2 {
            return Some(p);
        }
        p += 2 + u16::from_be_bytes([b[p + 2], b[p + 3]]) as usize;
    }
    None
}
/// Everything up to the only scan's data, and the data between the restart markers.
fn split(b: &[u8]) -> Option<(Vec<u8>, Vec<Vec<u8>>)> {
    let mut p = 2;
    while b.get(p + 1)? != &0xda {
        p += 2 + u16::from_be_bytes([*b.get(p + 2)?, *b.get(p + 3)?]) as usize;
    }
    p += 2 + u16::from_be_bytes([*b.get(p + 2)?, *b.get(p + 3)?]) as usize;
    let head = b[..p].to_vec();
    let mut groups = Vec::new();
    let mut from = p;
    while p + 1 < b.len() {
        if b[p] == 0xff && b[p + 1] != 0 {
            groups.push(b[from..p].to_vec());
            from = p + 2;
            p += 1;
        }
        p += 1;
    }
    Some((head, groups))
}

fn menu() -> Vec<(u8, Var)> {
    let mut v = vec![(1, Var::Std), (6, Var::NoStd), (1, Var::Simd), (2, Var::Simd), (3, Var::Simd), (4, Var::Simd), (2, Var::NoStd)];
    if thorough() {
        for c in 0..9u8 {
            for var in VARS {
                if !v.contains(&(c, var)) {
                    v.push((c, var));
                }
            }
        }
    }
    v
}

fn text(c: &Case, h: u16) -> String {
    format!("{} vast={}", Case { content: Content::Pat(0, 0), ..c.clone() }, h)
}

/// (huge images encoded, those that could not be mapped)
pub fn run_all(prop: &'static str, judge_strip: &(dyn Fn(&Case) -> Result<(), String> + Sync)) -> Result<(u64, u64), Violation> {
    let all = menu();
    // one mapping for all formats of as many bytes
    let big: Vec<Option<Repeated>> = (0..5u8)
        .map(|bpp| {
            let color = all.iter().find(|x| BPP[x.0 as usize] == bpp as usize)?.0;
            Repeated::new(&strip_case(color, Var::Std).data(), height(color) as usize / ROWS)
        })
        .collect();
    let m: Vec<_> = all.iter().filter(|x| big[BPP[x.0 as usize]].is_some()).collect();
    let case = |i: u64| strip_case(m[i as usize].0, m[i as usize].1);
    let (n, _) = for_all(
        m.len() as u64,
        prop,
        &|i| text(&case(i), height(m[i as usize].0)),
        &|i, _| {
            let (c, h) = (case(i), height(m[i as usize].0));
            let big = big[c.bpp()].as_ref().unwrap();
            judge(&c, h, big, judge_strip)
                .map(|b| Obs { hash: b, execs: 1, nontrivial: true })
                .map_err(|what| Violation { replay: text(&c, h), what: format!("image of {}x{} ({} bytes): {}", c.w, h, big.1, what) })
        },
        &Seen::default(),
    )?;
    Ok((n, (all.len() - m.len()) as u64))
}

/// `None`: not a replay of a huge image.
pub fn replay(t: &str, judge_strip: &dyn Fn(&Case) -> Result<(), String>) -> Option<Result<(), String>> {
    let h: u16 = t.split_whitespace().find_map(|x| x.strip_prefix("vast="))?.parse().ok()?;
    let c = Case::parse(t)?;
    let c = strip_case(c.color, c.var);
    let big = Repeated::new(&c.data(), h as usize / ROWS)?;
    Some(judge(&c, h, &big, judge_strip).map(|_| ()))
}

/// A flat image that is not in memory.
struct Flat(u16, u16);
impl je::ImageBuffer for Flat {
    fn get_jpeg_color_type(&self) -> je::JpegColorType {
        je::JpegColorType::Cmyk
    }
    fn width(&self) -> u16 {
        self.0
    }
    fn height(&self) -> u16 {
        self.1
    }
    fn fill_buffers(&self, _: u16, b: &mut [Vec<u8>; 4]) {
        crate::par::still_running();
        for b in b {
            b.resize(b.len() + self.0 as usize, 9);
        }
    }
}
struct Count(u64);
impl io::Write for Count {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn flat(w: u16, h: u16) -> Result<u64, String> {
    let mut n = Count(0);
    let out = to_out(caught(|| {
        let mut e = je::Encoder::new(&mut n, 90);
        e.set_sampling_factor(je::SamplingFactor::F_1_1);
        e.set_progressive_scans(64);
        e.set_optimized_huffman_tables(true);
        e.encode_image(Flat(w, h)).map_err(v_std::err)
    }));
    match out {
        Out::Ok => Ok(n.0),
        o => Err(format!("a flat {}x{} CMYK image in 64 scans with optimised tables gives {:?}", w, h, o)),
    }
}

/// More than 2^32 occurrences of one symbol: 63 end-of-band codes in each of 3 x 22.8 million blocks.
/// None: not enough memory (it takes 18 GB).
pub fn counts() -> Option<Result<(), Violation>> {
    let m = std::fs::read_to_string("/proc/meminfo").ok()?;
    let free: u64 = m.lines().find_map(|l| l.strip_prefix("MemAvailable:"))?.trim().trim_end_matches(" kB").parse().ok()?;
    if free < 21 << 20 {
        return None;
    }
    crate::par::limit_memory(u64::MAX);
    let (w, h) = (38160u16, 38200u16);
    Some(count_case(w, h).map_err(|what| Violation { replay: format!("counts={}x{}", w, h), what }))
}
pub fn count_case(w: u16, h: u16) -> Result<(), String> {
    let blocks = |w: u16, h: u16| (w as u64 / 8) * (h as u64 / 8);
    // one bit per block in each of the scans
    let data = |n: u64| 4 * 64 * ((n + 7) / 8);
    let small = flat(80, 80)?;
    let want = small - data(blocks(80, 80)) + data(blocks(w, h));
    let got = flat(w, h)?;
    // (the first DC code is longer)
    if got.abs_diff(want) > 16 {
        return Err(format!("a flat {}x{} CMYK image in 64 scans takes {} bytes, optimal codes take {}", w, h, got, want));
    }
    Ok(())
}
