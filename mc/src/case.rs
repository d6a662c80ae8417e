//! A test case is a complete, printable description of one encode: the
//! configuration calls, the image and the entry point.  `Display` and `parse`
//! are inverse, so every case can be written to a replay file.

use std::fmt;

pub const COLORS: [&str; 9] =
    ["Luma", "Rgb", "Rgba", "Bgr", "Bgra", "Ycbcr", "Cmyk", "CmykAsYcck", "Ycck"];
pub const BPP: [usize; 9] = [1, 3, 4, 3, 4, 3, 4, 4, 4];
/// jpeg colour class of each input type: 0 luma, 1 ycbcr, 2 cmyk, 3 ycck
pub const JCT: [u8; 9] = [0, 1, 1, 1, 1, 1, 2, 3, 3];
pub const JCT_NAMES: [&str; 4] = ["Luma", "Ycbcr", "Cmyk", "Ycck"];
pub const NCOMP: [usize; 4] = [1, 3, 4, 4];

pub const SAMPS: [(&str, usize, usize); 16] = [
    ("F_1_1", 1, 1),
    ("F_2_1", 2, 1),
    ("F_1_2", 1, 2),
    ("F_2_2", 2, 2),
    ("F_4_1", 4, 1),
    ("F_4_2", 4, 2),
    ("F_1_4", 1, 4),
    ("F_2_4", 2, 4),
    ("R_4_4_4", 1, 1),
    ("R_4_4_0", 1, 2),
    ("R_4_4_1", 1, 4),
    ("R_4_2_2", 2, 1),
    ("R_4_2_0", 2, 2),
    ("R_4_2_1", 2, 4),
    ("R_4_1_1", 4, 1),
    ("R_4_1_0", 4, 2),
];
pub const SAMP_UNSET: u8 = 255;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Qt {
    Unset,
    Preset(u8),
    Uniform(u16),
    /// table[i] = v + 1021 i (mod 65536): every position sees every value as v varies
    Lin(u16),
    /// `a` everywhere except `b` at natural index `pos`
    One(u16, u16, u8),
    Table(Box<[u16; 64]>),
    /// a custom table equal to preset n/2, for luma (even) or chroma (odd)
    Like(u8),
}

impl Qt {
    /// the custom table requested, if any (natural order)
    pub fn custom(&self) -> Option<[u16; 64]> {
        match self {
            Qt::Unset | Qt::Preset(_) => None,
            Qt::Uniform(v) => Some([*v; 64]),
            Qt::Lin(v) => {
                let mut t = [0u16; 64];
                for (i, x) in t.iter_mut().enumerate() {
                    *x = v.wrapping_add((i as u16).wrapping_mul(1021));
                }
                Some(t)
            }
            Qt::One(a, b, pos) => {
                let mut t = [*a; 64];
                t[*pos as usize] = *b;
                Some(t)
            }
            Qt::Table(t) => Some(**t),
            Qt::Like(n) => Some(if n % 2 == 0 { crate::presets::LUMA[*n as usize / 2] } else { crate::presets::CHROMA[*n as usize / 2] }),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum App {
    Seg(u8, usize, u8),
    Icc(usize, u8),
}

pub fn app_bytes(len: usize, seed: u8) -> Vec<u8> {
    match seed {
        // all marker prefix bytes
        255 => vec![0xFF; len],
        254 => (0..len).map(|i| if i % 2 == 0 { 0xFF } else { 0xD9 }).collect(),
        253 => b"ICC_PROFILE\0\x01\x01Adobe\0JFIF\0".iter().cycle().take(len).copied().collect(),
        // what an Adobe, JFIF or Exif segment starts with
        252 => b"Adobe\0\x64\0\0\0\0\x01".iter().cycle().take(len).copied().collect(),
        251 => b"JFIF\0\x01\x02\x01\0\x48\0\x48\0\0".iter().cycle().take(len).copied().collect(),
        250 => b"Exif\0\0II*\0\x08\0\0\0".iter().cycle().take(len).copied().collect(),
        249 => b"http://ns.adobe.com/xap/1.0/\0<?xpacket begin?>".iter().cycle().take(len).copied().collect(),
        248 => b"Photoshop 3.0\08BIM\x04\x04\0\0\0\0\0\0".iter().cycle().take(len).copied().collect(),
        247 => b"JFXX\0\x13\x01\x01\xff\xff\xff".iter().cycle().take(len).copied().collect(),
        246 => b"MPF\0II*\0\x08\0\0\0".iter().cycle().take(len).copied().collect(),
        245 => b"Ducky\0\x01\0\x04\0\0\0\x3c\0\0".iter().cycle().take(len).copied().collect(),
        // an ICC profile header whose size field is wrong (right)
        244 | 243 => {
            let mut v = vec![0u8; len.max(132)];
            let n = if seed == 244 { 128 } else { len as u32 };
            v[..4].copy_from_slice(&n.to_be_bytes());
            v[4..8].copy_from_slice(b"lcms");
            v[8] = 4;
            v[12..24].copy_from_slice(b"mntrRGB XYZ ");
            v[36..40].copy_from_slice(b"acsp");
            for (i, x) in v.iter_mut().enumerate().skip(132) {
                *x = (i * 7) as u8;
            }
            v.truncate(len);
            v
        }
        242 => vec![0; len],
        // a chunk of an ICC profile with a position and count of its own
        238..=241 => {
            let n: [u8; 2] = [[255, 255], [2, 1], [1, 1], [0, 0]][seed as usize - 238];
            let mut v: Vec<u8> = b"ICC_PROFILE\0".iter().copied().chain(n).collect();
            v.extend((0..len).map(|i| (i * 11) as u8));
            v.truncate(len);
            v
        }
        s => (0..len).map(|i| (i as u32).wrapping_mul(167).wrapping_add((i >> 8) as u32 * 13 + s as u32) as u8).collect(),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Content {
    /// pattern number, seed
    Pat(u8, u32),
    /// one block id per 8x8 cell (of `cell` MCU size), row-major, cyclic
    Blk { cw: u8, ch: u8, ids: Vec<u8> },
    /// one-component image built from quantised coefficients: every block is a list of
    /// (zigzag position, value in units of `unit`); blocks are (count, list) runs
    Syn { unit: u16, blocks: Vec<(u32, Vec<(u8, i16)>)> },
    Raw(Vec<u8>),
    /// flat 8x8 blocks (or cells) whose colour index is base + cell number (24-bit colours)
    Flats { cw: u8, base: u32 },
    /// pixel i has 24-bit colour base + i*stride
    Colors { base: u32, stride: u32 },
    /// natural DCT position, amplitude step/1000: block i is the basis function times i*step
    Basis { pos: u8, step: i32, start: i32 },
    /// sign pattern of the basis function at natural position (extreme coefficient), polarity
    Sign { pos: u8, neg: bool },
    /// block i of a row: pixel (x,y) is `hi` where bit x of i equals bit y of `row`, else `lo`
    Sep { row: u8, lo: u8, hi: u8 },
    /// one-component image of flat blocks: for each (category, n), n blocks whose level differs
    /// from the one before by a value of that many bits (when one level is one step)
    Dc(Vec<(u8, u32)>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Entry {
    Slice,
    Buffer,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Var {
    Std,
    Simd,
    NoStd,
}
pub const VARS: [Var; 3] = [Var::Std, Var::Simd, Var::NoStd];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Case {
    pub color: u8,
    pub samp: u8,
    pub w: u16,
    pub h: u16,
    pub q: u8,
    pub ql: Qt,
    pub qc: Qt,
    /// 0: not progressive; 1: set_progressive(true); n: set_progressive_scans(n)
    pub prog: u8,
    pub opt: bool,
    pub rst: u16,
    /// unit 0 none, 1 inch, 2 cm, 255 unset
    pub dens: (u8, u16, u16),
    pub apps: Vec<App>,
    pub content: Content,
    pub entry: Entry,
    pub var: Var,
}

impl Default for Case {
    fn default() -> Case {
        Case {
            color: 0,
            samp: SAMP_UNSET,
            w: 8,
            h: 8,
            q: 75,
            ql: Qt::Unset,
            qc: Qt::Unset,
            prog: 0,
            opt: false,
            rst: 0,
            dens: (255, 0, 0),
            apps: Vec::new(),
            content: Content::Pat(0, 0),
            entry: Entry::Slice,
            var: Var::Std,
        }
    }
}

impl Case {
    pub fn bpp(&self) -> usize {
        BPP[self.color as usize]
    }
    pub fn jct(&self) -> u8 {
        JCT[self.color as usize]
    }
    pub fn ncomp(&self) -> usize {
        NCOMP[self.jct() as usize]
    }
    /// effective (h, v) sampling setting
    pub fn sampling(&self) -> (usize, usize) {
        if self.samp == SAMP_UNSET {
            if self.q < 90 {
                (2, 2)
            } else {
                (1, 1)
            }
        } else {
            let s = SAMPS[self.samp as usize];
            (s.1, s.2)
        }
    }
    /// (h, v, quantisation table) per component as the documentation defines them
    pub fn layout(&self) -> Vec<(usize, usize, u8)> {
        let (h, v) = self.sampling();
        match self.jct() {
            0 => vec![(1, 1, 0)],
            1 => vec![(h, v, 0), (1, 1, 1), (1, 1, 1)],
            2 => vec![(1, 1, 1), (1, 1, 1), (1, 1, 1), (h, v, 0)],
            _ => vec![(h, v, 0), (1, 1, 1), (1, 1, 1), (h, v, 0)],
        }
    }
    pub fn scans(&self) -> Option<u8> {
        match self.prog {
            0 => None,
            1 => Some(4),
            n => Some(n),
        }
    }
    pub fn data_len(&self) -> usize {
        self.w as usize * self.h as usize * self.bpp()
    }

    pub fn data(&self) -> Vec<u8> {
        let (w, h, bpp) = (self.w as usize, self.h as usize, self.bpp());
        if let Content::Raw(v) = &self.content {
            return v.clone();
        }
        let mut out = vec![0u8; w * h * bpp];
        match &self.content {
            Content::Raw(_) => {}
            Content::Pat(n, seed) => fill_pattern(&mut out, w, h, bpp, *n, *seed),
            Content::Blk { cw, ch, ids } => {
                let (cw, ch) = (*cw as usize, *ch as usize);
                let cells = (w + cw - 1) / cw;
                for y in 0..h {
                    for x in 0..w {
                        let cell = (y / ch) * cells + x / cw;
                        let id = ids[cell % ids.len()];
                        for c in 0..bpp {
                            out[(y * w + x) * bpp + c] = block_sample(id, x % cw, y % ch, c);
                        }
                    }
                }
            }
            Content::Flats { cw, base } => {
                let cw = *cw as usize;
                let cells = (w + cw - 1) / cw;
                for y in 0..h {
                    for x in 0..w {
                        let cell = (y / cw) * cells + x / cw;
                        put_color(&mut out[(y * w + x) * bpp..][..bpp], base + cell as u32, cell);
                    }
                }
            }
            Content::Colors { base, stride } => {
                for (i, px) in out.chunks_mut(bpp).enumerate() {
                    put_color(px, base.wrapping_add((i as u32).wrapping_mul(*stride)) & 0xFF_FFFF, i);
                }
            }
            Content::Dc(counts) => {
                let bw = (w + 7) / 8;
                let mut level = 128u8;
                let seq = counts.iter().flat_map(|&(k, n)| (0..n).map(move |i| (k, i)));
                let seq: Vec<u8> = seq
                    .map(|(k, i)| {
                        if k > 0 {
                            let v = 1u16 << (k - 1);
                            level = (128 - v / 2 + if i % 2 == 0 { 0 } else { v }) as u8;
                        }
                        level
                    })
                    .collect();
                for y in 0..h {
                    for x in 0..w {
                        let v = seq.get(y / 8 * bw + x / 8).copied().unwrap_or(level);
                        for c in 0..bpp {
                            out[(y * w + x) * bpp + c] = v;
                        }
                    }
                }
            }
            Content::Syn { unit, blocks } => {
                let bw = (w + 7) / 8;
                let mut b = 0usize;
                for (n, list) in blocks {
                    let mut f = [0f64; 64];
                    for &(z, v) in list {
                        f[crate::jpeg::ZZ[z as usize] as usize] += v as f64 * *unit as f64;
                    }
                    let px = idct(&f);
                    for _ in 0..*n {
                        let (bx, by) = (b % bw, b / bw);
                        b += 1;
                        for y in 0..8 {
                            let yy = by * 8 + y;
                            if yy >= h {
                                break;
                            }
                            for x in 0..8 {
                                let xx = bx * 8 + x;
                                if xx < w {
                                    for c in 0..bpp {
                                        out[(yy * w + xx) * bpp + c] = px[y * 8 + x];
                                    }
                                }
                            }
                        }
                    }
                }
            }
            Content::Basis { pos, step, start } => {
                let bw = (w + 7) / 8;
                let (v, u) = ((*pos / 8) as usize, (*pos % 8) as usize);
                let c = costab();
                for y in 0..h {
                    for x in 0..w {
                        let b = ((y / 8) * bw + x / 8) as i32;
                        let a = (*start as f64 + b as f64 * *step as f64) / 1000.0;
                        let s = a * c[u][x % 8] * c[v][y % 8] + 128.0;
                        let s = s.round().clamp(0.0, 255.0) as u8;
                        for k in 0..bpp {
                            out[(y * w + x) * bpp + k] = s;
                        }
                    }
                }
            }
            Content::Sep { row, lo, hi } => {
                for y in 0..h {
                    for x in 0..w {
                        let i = x / 8;
                        let s = if (i >> (x % 8)) & 1 == (*row as usize >> (y % 8)) & 1 { *hi } else { *lo };
                        for k in 0..bpp {
                            out[(y * w + x) * bpp + k] = s;
                        }
                    }
                }
            }
            Content::Sign { pos, neg } => {
                let (v, u) = ((*pos / 8) as usize, (*pos % 8) as usize);
                let c = costab();
                for y in 0..h {
                    for x in 0..w {
                        let s = c[u][x % 8] * c[v][y % 8];
                        let s = if (s > 0.0) != *neg { 255 } else { 0 };
                        for k in 0..bpp {
                            out[(y * w + x) * bpp + k] = s;
                        }
                    }
                }
            }
        }
        out
    }
}

/// orthonormal DCT basis: c[u][x]
pub fn costab() -> [[f64; 8]; 8] {
    let mut c = [[0f64; 8]; 8];
    for (u, r) in c.iter_mut().enumerate() {
        for (x, v) in r.iter_mut().enumerate() {
            let s = if u == 0 { (0.125f64).sqrt() } else { 0.5 };
            *v = s * ((2 * x + 1) as f64 * u as f64 * std::f64::consts::PI / 16.0).cos();
        }
    }
    c
}

pub fn idct(f: &[f64; 64]) -> [u8; 64] {
    let c = costab();
    let mut t = [0f64; 64];
    for v in 0..8 {
        for x in 0..8 {
            let mut s = 0.0;
            for u in 0..8 {
                s += f[v * 8 + u] * c[u][x];
            }
            t[v * 8 + x] = s;
        }
    }
    let mut o = [0u8; 64];
    for y in 0..8 {
        for x in 0..8 {
            let mut s = 0.0;
            for v in 0..8 {
                s += t[v * 8 + x] * c[v][y];
            }
            o[y * 8 + x] = (s + 128.0).round().clamp(0.0, 255.0) as u8;
        }
    }
    o
}

fn put_color(px: &mut [u8], col: u32, i: usize) {
    let b = col.to_be_bytes();
    match px.len() {
        1 => px[0] = b[3],
        3 => px.copy_from_slice(&b[1..4]),
        _ => {
            px[..3].copy_from_slice(&b[1..4]);
            // fourth channel (alpha or K): cycles over all values
            px[3] = (i as u32).wrapping_mul(37).wrapping_add(col >> 3) as u8;
        }
    }
}

#[inline]
pub fn hash32(mut x: u32) -> u32 {
    x ^= x >> 16;
    x = x.wrapping_mul(0x7feb_352d);
    x ^= x >> 15;
    x = x.wrapping_mul(0x846c_a68b);
    x ^= x >> 16;
    x
}

/// Alphabet of 8x8 (or larger) cells, chosen so that together they reach every kind of symbol:
/// zero blocks, DC steps of every size, dense blocks, long zero runs, last-coefficient blocks.
pub const BLOCK_IDS: u8 = 12;
pub fn block_sample(id: u8, x: usize, y: usize, c: usize) -> u8 {
    match id {
        0 => 128,
        1 => 255,
        2 => 0,
        // dense noise, full range
        3 => hash32((y * 8 + x) as u32 * 7 + c as u32 * 1000) as u8,
        // highest frequency only (last zigzag coefficient): long zero runs
        4 => {
            if (x + y) % 2 == 0 {
                255
            } else {
                0
            }
        }
        // horizontal low frequency
        5 => (x * 36).min(255) as u8,
        // vertical step
        6 => {
            if y % 8 < 4 {
                20
            } else {
                230
            }
        }
        // different value per channel
        7 => [200u8, 90, 30, 160][c & 3],
        8 => 129,
        9 => 96,
        // single impulse
        10 => {
            if x % 8 == 3 && y % 8 == 5 {
                255
            } else {
                60
            }
        }
        // weak noise
        _ => 120 + (hash32((y * 8 + x) as u32 + 77 + c as u32 * 999) & 15) as u8,
    }
}

pub const PATTERNS: u8 = 18;
fn fill_pattern(out: &mut [u8], w: usize, h: usize, bpp: usize, n: u8, seed: u32) {
    for y in 0..h {
        for x in 0..w {
            for c in 0..bpp {
                let v: u8 = match n {
                    // independent noise, full range
                    0 => hash32((((y * w + x) * bpp + c) as u32).wrapping_add(seed.wrapping_mul(0x9E37_79B9))) as u8,
                    // smooth gradient, different slope in every channel
                    1 => match c {
                        0 => (x * 5 + y * 3 + seed as usize) as u8,
                        1 => (255 - (x * 2 + y * 7) % 256) as u8,
                        2 => (x * 3 + 128 + y) as u8,
                        _ => (x + y * 5 + 7) as u8,
                    },
                    // flat
                    2 => (seed >> (8 * c)) as u8,
                    // every pixel extreme
                    3 => {
                        if hash32((y * w + x) as u32 * 4 + c as u32 + seed) & 1 == 0 {
                            0
                        } else {
                            255
                        }
                    }
                    // weak texture: many zero coefficients
                    4 => 128u8.wrapping_add((hash32((y * w + x) as u32 * 3 + c as u32 + seed) % 9) as u8).wrapping_sub(4),
                    // block levels: each 8x8 cell flat, different per cell and channel
                    5 => hash32(((y / 8) * 8192 + x / 8) as u32 * 4 + c as u32 + seed) as u8,
                    // edges: last row / column and the corner marked
                    6 => {
                        if x + 1 == w || y + 1 == h {
                            (250 - 40 * c) as u8
                        } else {
                            (30 + 10 * c) as u8
                        }
                    }
                    // vertical bars of period 3, horizontal of period 5 (subsampling phase)
                    7 => {
                        let a = if x % 3 == 0 { 220 } else { 40 };
                        let b = if y % 5 == 0 { 200 } else { 25 };
                        if (c + seed as usize) % 2 == 0 {
                            a
                        } else {
                            b
                        }
                    }
                    // smooth hill: photographs
                    8 => {
                        let dx = x as f64 - w as f64 * 0.4;
                        let dy = y as f64 - h as f64 * 0.6;
                        let r = (dx * dx + dy * dy).sqrt();
                        (128.0 + 110.0 * (r / (6.0 + c as f64 * 3.0)).cos()) as u8
                    }
                    // noise, the same in every channel
                    10 => hash32(((y * w + x) as u32).wrapping_add(seed.wrapping_mul(0x9E37_79B9))) as u8,
                    // the same in every channel but the last
                    11 => hash32(((y * w + x) as u32).wrapping_add(seed) ^ ((c > 0 && c + 1 == bpp) as u32) << 30) as u8,
                    // every row (column) the same noise
                    12 => hash32((x * bpp + c) as u32 ^ seed << 12) as u8,
                    13 => hash32((y * bpp + c) as u32 ^ seed << 12) as u8,
                    // every block (pair of blocks) the same noise
                    14 => hash32((((y % 8) * 8 + x % 8) * bpp + c) as u32 ^ seed << 12) as u8,
                    15 => hash32((((y % 16) * 8 + x % 8) * bpp + c) as u32 ^ seed << 12) as u8,
                    // flat but for one pixel of every block, another one in each
                    16 => {
                        let k = (y / 8) * 37 + x / 8 + c * 11 + seed as usize;
                        if k % 64 == (y % 8) * 8 + x % 8 { 255 } else { 90 + 20 * c as u8 }
                    }
                    // blocks whose outer pixels are all equal
                    17 => {
                        if (1..7).contains(&(x % 8)) && (1..7).contains(&(y % 8)) {
                            hash32(((y * w + x) * bpp + c) as u32 ^ seed << 20) as u8
                        } else {
                            70 + 30 * c as u8
                        }
                    }
                    // black and white stripes one pixel wide
                    _ => {
                        if (x + seed as usize) % 2 == 0 {
                            0
                        } else {
                            255
                        }
                    }
                };
                out[(y * w + x) * bpp + c] = v;
            }
        }
    }
}

// ---------------------------------------------------------------- text form

pub fn qt_str(q: &Qt) -> String {
    match q {
        Qt::Unset => "unset".into(),
        Qt::Preset(n) => format!("p{}", n),
        Qt::Uniform(n) => format!("u{}", n),
        Qt::Lin(n) => format!("l{}", n),
        Qt::One(a, b, p) => format!("o{},{},{}", a, b, p),
        Qt::Like(n) => format!("k{}", n),
        Qt::Table(t) => {
            format!("t{}", t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
        }
    }
}
pub fn qt_parse(s: &str) -> Option<Qt> {
    if s == "unset" {
        return Some(Qt::Unset);
    }
    let (k, r) = s.split_at(1);
    Some(match k {
        "p" => Qt::Preset(r.parse().ok()?),
        "u" => Qt::Uniform(r.parse().ok()?),
        "l" => Qt::Lin(r.parse().ok()?),
        "k" => Qt::Like(r.parse().ok().filter(|n| *n < 18)?),
        "o" => {
            let v: Vec<u16> = r.split(',').map(|x| x.parse().ok()).collect::<Option<_>>()?;
            Qt::One(v[0], v[1], v[2] as u8)
        }
        "t" => {
            let v: Vec<u16> = r.split(',').map(|x| x.parse().ok()).collect::<Option<_>>()?;
            let mut t = [0u16; 64];
            t.copy_from_slice(&v);
            Qt::Table(Box::new(t))
        }
        _ => return None,
    })
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

impl fmt::Display for Case {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(
            f,
            "color={} samp={} w={} h={} q={} ql={} qc={} prog={} opt={} rst={} dens={},{},{}",
            COLORS[self.color as usize],
            if self.samp == SAMP_UNSET { "unset" } else { SAMPS[self.samp as usize].0 },
            self.w,
            self.h,
            self.q,
            qt_str(&self.ql),
            qt_str(&self.qc),
            self.prog,
            self.opt as u8,
            self.rst,
            self.dens.0,
            self.dens.1,
            self.dens.2
        )?;
        let apps: Vec<String> = self
            .apps
            .iter()
            .map(|a| match a {
                App::Seg(n, l, s) => format!("seg:{}:{}:{}", n, l, s),
                App::Icc(l, s) => format!("icc:{}:{}", l, s),
            })
            .collect();
        write!(f, " apps={}", if apps.is_empty() { "-".to_string() } else { apps.join(";") })?;
        let c = match &self.content {
            Content::Pat(n, s) => format!("pat:{}:{}", n, s),
            Content::Blk { cw, ch, ids } => format!("blk:{}:{}:{}", cw, ch, hex(ids)),
            Content::Raw(v) => format!("raw:{}", hex(v)),
            Content::Flats { cw, base } => format!("flats:{}:{}", cw, base),
            Content::Colors { base, stride } => format!("colors:{}:{}", base, stride),
            Content::Basis { pos, step, start } => format!("basis:{}:{}:{}", pos, step, start),
            Content::Sep { row, lo, hi } => format!("sep:{}:{}:{}", row, lo, hi),
            Content::Sign { pos, neg } => format!("sign:{}:{}", pos, *neg as u8),
            Content::Dc(n) => format!("dc:{}", n.iter().map(|(k, n)| format!("{}*{}", k, n)).collect::<Vec<_>>().join(",")),
            Content::Syn { unit, blocks } => format!(
                "syn:{}:{}",
                unit,
                blocks
                    .iter()
                    .map(|(n, l)| format!(
                        "{}*{}",
                        n,
                        l.iter().map(|(z, v)| format!("{}~{}", z, v)).collect::<Vec<_>>().join(",")
                    ))
                    .collect::<Vec<_>>()
                    .join("/")
            ),
        };
        write!(
            f,
            " content={} entry={} var={}",
            c,
            if self.entry == Entry::Slice { "slice" } else { "buffer" },
            match self.var {
                Var::Std => "std",
                Var::Simd => "simd",
                Var::NoStd => "nostd",
            }
        )
    }
}

impl Case {
    pub fn parse(text: &str) -> Option<Case> {
        let mut c = Case::default();
        for tok in text.split_whitespace() {
            let (k, v) = tok.split_once('=')?;
            match k {
                "color" => c.color = COLORS.iter().position(|x| *x == v)? as u8,
                "samp" => {
                    c.samp = if v == "unset" {
                        SAMP_UNSET
                    } else {
                        SAMPS.iter().position(|x| x.0 == v)? as u8
                    }
                }
                "w" => c.w = v.parse().ok()?,
                "h" => c.h = v.parse().ok()?,
                "q" => c.q = v.parse().ok()?,
                "ql" => c.ql = qt_parse(v)?,
                "qc" => c.qc = qt_parse(v)?,
                "prog" => c.prog = v.parse().ok()?,
                "opt" => c.opt = v == "1",
                "rst" => c.rst = v.parse().ok()?,
                "dens" => {
                    let p: Vec<u16> = v.split(',').map(|x| x.parse().ok()).collect::<Option<_>>()?;
                    c.dens = (p[0] as u8, p[1], p[2]);
                }
                "apps" => {
                    if v != "-" {
                        for a in v.split(';') {
                            let p: Vec<&str> = a.split(':').collect();
                            c.apps.push(match p[0] {
                                "seg" => App::Seg(
                                    p[1].parse().ok()?,
                                    p[2].parse().ok()?,
                                    p[3].parse().ok()?,
                                ),
                                "icc" => App::Icc(p[1].parse().ok()?, p[2].parse().ok()?),
                                _ => return None,
                            });
                        }
                    }
                }
                "content" => {
                    let p: Vec<&str> = v.splitn(4, ':').collect();
                    c.content = match p[0] {
                        "pat" => Content::Pat(p[1].parse().ok()?, p[2].parse().ok()?),
                        "blk" => Content::Blk {
                            cw: p[1].parse().ok()?,
                            ch: p[2].parse().ok()?,
                            ids: unhex(p[3])?,
                        },
                        "raw" => Content::Raw(unhex(p[1])?),
                        "flats" => {
                            Content::Flats { cw: p[1].parse().ok()?, base: p[2].parse().ok()? }
                        }
                        "colors" => {
                            Content::Colors { base: p[1].parse().ok()?, stride: p[2].parse().ok()? }
                        }
                        "basis" => Content::Basis {
                            pos: p[1].parse().ok()?,
                            step: p[2].parse().ok()?,
                            start: p[3].parse().ok()?,
                        },
                        "sep" => Content::Sep {
                            row: p[1].parse().ok()?,
                            lo: p[2].parse().ok()?,
                            hi: p[3].parse().ok()?,
                        },
                        "dc" => {
                            let mut n = Vec::new();
                            for e in p[1].split(',') {
                                let (k, x) = e.split_once('*')?;
                                n.push((k.parse().ok().filter(|k| *k < 9)?, x.parse().ok()?));
                            }
                            Content::Dc(n)
                        }
                        "sign" => Content::Sign { pos: p[1].parse().ok()?, neg: p[2] == "1" },
                        "syn" => {
                            let mut blocks = Vec::new();
                            for b in p[2].split('/') {
                                let (n, l) = b.split_once('*')?;
                                let mut list = Vec::new();
                                if !l.is_empty() {
                                    for e in l.split(',') {
                                        let (z, x) = e.split_once('~')?;
                                        list.push((z.parse().ok()?, x.parse().ok()?));
                                    }
                                }
                                blocks.push((n.parse().ok()?, list));
                            }
                            Content::Syn { unit: p[1].parse().ok()?, blocks }
                        }
                        _ => return None,
                    }
                }
                "entry" => c.entry = if v == "slice" { Entry::Slice } else { Entry::Buffer },
                "var" => {
                    c.var = match v {
                        "std" => Var::Std,
                        "simd" => Var::Simd,
                        _ => Var::NoStd,
                    }
                }
                _ => {} // extra keys belong to the check that wrote the replay file
            }
        }
        Some(c)
    }
}

/// mixed-radix decoder for product spaces
pub struct Radix(pub u64);
impl Radix {
    pub fn take(&mut self, n: usize) -> usize {
        let r = (self.0 % n as u64) as usize;
        self.0 /= n as u64;
        r
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        let i = self.take(s.len());
        &s[i]
    }
}
