//! Builders of the finite spaces the checks enumerate.

use crate::case::*;
use crate::par::Space;

pub type Mode = (u8, bool); // (progressive setting, optimised tables)
pub const MODES: [Mode; 8] =
    [(0, false), (0, true), (1, false), (1, true), (2, false), (3, true), (64, true), (23, false)];
pub const ALL_COLORS: [u8; 9] = [0, 1, 2, 3, 4, 5, 6, 7, 8];
/// one input type per jpeg colour class
pub const CLASSES: [u8; 4] = [0, 1, 6, 8];
pub const FACTORS: [u8; 8] = [0, 1, 2, 3, 4, 5, 6, 7];
pub const DIMS: [(u16, u16); 16] = [
    (1, 1), (8, 8), (7, 9), (16, 16), (17, 15), (33, 8), (8, 33), (31, 65), (65, 17), (1, 40),
    (40, 1), (100, 3), (24, 40), (9, 70), (64, 64), (130, 10),
];

#[derive(Clone)]
pub struct Geo {
    pub colors: Vec<u8>,
    pub samps: Vec<u8>,
    pub modes: Vec<Mode>,
    pub rsts: Vec<u16>,
    pub dims: Vec<(u16, u16)>,
    pub pats: Vec<(u8, u32)>,
    pub quals: Vec<u8>,
    pub entries: Vec<Entry>,
    pub vars: Vec<Var>,
}
impl Default for Geo {
    fn default() -> Geo {
        Geo {
            colors: CLASSES.to_vec(),
            samps: FACTORS.to_vec(),
            modes: MODES.to_vec(),
            rsts: vec![0, 1, 2, 3, 5],
            dims: DIMS.to_vec(),
            pats: vec![(0, 0), (1, 0)],
            quals: vec![80],
            entries: vec![Entry::Slice],
            vars: vec![Var::Std],
        }
    }
}
impl Geo {
    pub fn space(self, name: &str) -> Space<'static> {
        let g = self;
        let n = [
            g.colors.len(), g.samps.len(), g.modes.len(), g.rsts.len(), g.dims.len(), g.pats.len(),
            g.quals.len(), g.entries.len(), g.vars.len(),
        ]
        .iter()
        .map(|&x| x as u64)
        .product();
        Space::new(name, n, move |i| {
            let mut r = Radix(i);
            let vars = *r.pick(&g.vars);
            let pat = *r.pick(&g.pats);
            let color = *r.pick(&g.colors);
            let samp = *r.pick(&g.samps);
            let m = *r.pick(&g.modes);
            let rst = *r.pick(&g.rsts);
            let (w, h) = *r.pick(&g.dims);
            let q = *r.pick(&g.quals);
            let entry = *r.pick(&g.entries);
            Some(Case {
                color, samp, w, h, q, prog: m.0, opt: m.1, rst,
                content: Content::Pat(pat.0, pat.1),
                entry,
                var: vars,
                ..Case::default()
            })
        })
    }
}

pub fn grid(ws: std::ops::RangeInclusive<u16>, hs: std::ops::RangeInclusive<u16>) -> Vec<(u16, u16)> {
    let mut v = Vec::new();
    for h in hs {
        for w in ws.clone() {
            v.push((w, h));
        }
    }
    v
}

/// All sequences of MCU contents up to `depth` over `ids`, for every mode and restart interval.
pub fn mcu_sequences(
    name: &str,
    depth: usize,
    ids: Vec<u8>,
    colors: Vec<u8>,
    samps: Vec<u8>,
    modes: Vec<Mode>,
    rsts: Vec<u16>,
) -> Space<'static> {
    let k = ids.len() as u64;
    let seqs: u64 = (1..=depth as u32).map(|d| k.pow(d)).sum();
    let n = seqs * (colors.len() * samps.len() * modes.len() * rsts.len()) as u64;
    Space::new(name, n, move |i| {
        let mut r = Radix(i);
        let color = *r.pick(&colors);
        let samp = *r.pick(&samps);
        let m = *r.pick(&modes);
        let rst = *r.pick(&rsts);
        let mut s = r.0;
        let mut d = 1u32;
        while s >= k.pow(d) {
            s -= k.pow(d);
            d += 1;
        }
        let mut seq = Vec::new();
        for _ in 0..d {
            seq.push(ids[(s % k) as usize]);
            s /= k;
        }
        if rst as usize >= d as usize && rst > 1 && rst as usize > d as usize {
            return None; // same as an interval of d
        }
        let (h, v) = if color == 0 { (1, 1) } else { (SAMPS[samp as usize].1, SAMPS[samp as usize].2) };
        let (cw, ch) = (8 * h, 8 * v);
        Some(Case {
            color,
            samp,
            w: (cw * d as usize) as u16,
            h: ch as u16,
            q: 90,
            prog: m.0,
            opt: m.1,
            rst,
            content: Content::Blk { cw: cw as u8, ch: ch as u8, ids: seq },
            ..Case::default()
        })
    })
}

/// Every AC symbol at every bit phase: blocks with one coefficient of a chosen run and size,
/// separated by DC steps that advance the bit position.
pub fn symbol_phase(name: &str, modes: Vec<Mode>, rsts: Vec<u16>, reps: u32) -> Space<'static> {
    // positions 1..63, sizes 1..10, 2 magnitudes, 2 signs, 6 fillers
    let n = 63 * 10 * 2 * 2 * 6 * (modes.len() * rsts.len()) as u64;
    Space::new(name, n, move |i| {
        let mut r = Radix(i);
        let z = r.take(63) + 1;
        let size = r.take(10) as u32 + 1;
        let hi = r.take(2) == 1;
        let neg = r.take(2) == 1;
        let filler = r.take(6);
        let m = *r.pick(&modes);
        let rst = *r.pick(&rsts);
        let nat = crate::jpeg::ZZ[z];
        // step: large enough that pixel rounding cannot move the quantised value
        let unit: u16 = match size {
            10 => 1,
            9 => 2,
            8 => 4,
            _ => 6,
        };
        let lo = 1i32 << (size - 1);
        let mut v = if hi { (1 << size) - 1 } else { lo };
        // keep the basis function inside the 8-bit sample range
        let max = (if nat < 8 || nat % 8 == 0 { 700.0 } else { 520.0 } / unit as f64) as i32;
        if v > max {
            v = if size == 10 { lo + 3 } else { max.max(lo) };
        }
        if size == 10 && !hi {
            v = lo + 1;
        }
        let v = (if neg { -v } else { v }) as i16;
        let target = vec![(z as u8, v)];
        // fillers: DC levels in units of `unit` with DC step 255
        let dc = |k: i16| vec![(0u8, ((k * 255) / unit as i16))];
        let mut blocks = Vec::new();
        let seq: Vec<Vec<(u8, i16)>> = match filler {
            0 => vec![target],
            1 => vec![target, dc(1)],
            2 => vec![target, dc(-2), vec![]],
            3 => vec![dc(3), target.clone(), target],
            4 => vec![target, dc(1), dc(-1)],
            _ => vec![vec![], target, dc(-3), dc(3)],
        };
        let per = seq.len() as u32;
        for _ in 0..(reps + per - 1) / per {
            for b in &seq {
                blocks.push((1, b.clone()));
            }
        }
        let nb = blocks.len();
        Some(Case {
            color: 0,
            w: 8 * 8,
            h: (8 * ((nb + 7) / 8)) as u16,
            q: 90,
            ql: Qt::One(255, unit, nat),
            qc: Qt::Uniform(255),
            prog: m.0,
            opt: m.1,
            rst,
            content: Content::Syn { unit, blocks },
            ..Case::default()
        })
    })
}

/// Long runs of one bits at every bit position: after any number of padding bits, two blocks out of an
/// alphabet of blocks that are made of code words with up to 15 leading ones, followed and preceded by
/// magnitudes of ones only.  It is there for the patterns of 0xFF bytes (`Cov::words`).
pub fn ones(name: &str, modes: Vec<Mode>, rsts: Vec<u16>, firsts: u64) -> Space<'static> {
    // step 4
    let mut soft: Vec<Vec<(u8, i16)>> = Vec::new();
    for r in 0..=15u8 {
        for s in 1..=6u32 {
            let n = (63 / (r as usize + 1)).min([32, 16, 12, 6, 4, 2][s as usize - 1]);
            let v = (1i16 << s) - 1;
            soft.push((1..=n).map(|i| (i as u8 * (r + 1), v)).collect());
            if n > 1 && s < 5 {
                // alternately with a symbol of another length
                soft.push((1..=n).map(|i| (i as u8 * (r + 1), if i % 2 == 0 { 1 } else { v })).collect());
            }
        }
    }
    // large differences of DC followed by a 16-bit code: (zigzag position, block, block)
    let mut hard: Vec<(u8, [(i16, i16); 2])> = Vec::new();
    for z in [2u8, 6, 9, 10, 11, 12, 13, 14, 15, 16, 24] {
        let tops: Vec<(i16, i16)> = [260i16, 300, 400, 508, 509, 510, 511, 520, 530, 540].iter()
            .flat_map(|&v| [(-1i16, v), (-513, v)]).filter(|x| x.0 == -1 || x.1 < 512).collect();
        for &x in &tops {
            for &y in &tops {
                hard.push((z, [x, y]));
            }
        }
    }
    let (ns, nh) = (soft.len() as u64, hard.len() as u64);
    let firsts = firsts.min(ns);
    let mm = (modes.len() * rsts.len()) as u64;
    let n = 64 * mm * (firsts * ns + nh);
    Space::new(name, n, move |i| {
        let mut r = Radix(i);
        let (m, rst) = (*r.pick(&modes), *r.pick(&rsts));
        let pad = r.take(64) as u32;
        let mut blocks: Vec<(u32, Vec<(u8, i16)>)> = Vec::new();
        let k = r.0;
        let unit;
        let mut table = Qt::Uniform(4);
        if k < firsts * ns {
            unit = 4;
            // 6 bits for an empty block, 7 for one with a single (0,2), 9 for one with a single (0,1)
            let (a, b) = (k / ns * (ns / firsts), k % ns);
            let odd = pad % 6;
            if pad / 6 > 0 {
                blocks.push((pad / 6, vec![]));
            }
            if odd > 0 {
                blocks.push((odd, vec![(1, 1), (2, 3)]));
            }
            blocks.push((1, soft[a as usize].clone()));
            blocks.push((1, soft[b as usize].clone()));
        } else {
            unit = 1;
            let (z, two) = hard[(k - firsts * ns) as usize];
            // 24 bits for the first, 6 for each further empty block, 45 for a small hill of DC
            blocks.push((1 + pad / 2, vec![(0, -1024)]));
            if pad % 2 == 1 {
                for dc in [-1000, -1008, -1016, -1024] {
                    blocks.push((1, vec![(0, dc)]));
                }
            }
            for (dc, v) in two {
                blocks.push((1, vec![(0, dc), (z, v)]));
                blocks.push((1, vec![(0, -1024)]));
            }
            let mut t = [255u16; 64];
            t[0] = 1;
            t[crate::jpeg::ZZ[z as usize] as usize] = 1;
            table = Qt::Table(Box::new(t));
        }
        let nb: u32 = blocks.iter().map(|b| b.0).sum();
        Some(Case {
            color: 0,
            w: (8 * nb) as u16,
            h: 8,
            q: 90,
            ql: table,
            qc: Qt::Uniform(255),
            prog: m.0,
            opt: m.1,
            rst,
            content: Content::Syn { unit, blocks },
            ..Case::default()
        })
    })
}

/// Blocks that make the AC histogram have the given counts of (run, size) symbols.  Every block is
/// filled up to the last coefficient with (0,1) symbols, so EOB never occurs and (0,1) absorbs the
/// filling; (0,1) should be listed last, with the largest count.
pub fn skew_blocks(counts: &[(u8, u8, u32)]) -> Vec<(u32, Vec<(u8, i16)>)> {
    let mut blocks: Vec<(u32, Vec<(u8, i16)>)> = Vec::new();
    let mut ones = 0u64;
    let mk = |run: u8, size: u8, m: u32, salt: u32| -> (Vec<(u8, i16)>, u32) {
        let mut z = 0u32;
        let mut l = Vec::new();
        for i in 0..m {
            z += run as u32 + 1;
            let v = 1i16 << (size - 1);
            let s = hash32(z * 31 + salt + i * 7 + size as u32 * 1001) & 1 == 1;
            l.push((z as u8, if s { -v } else { v }));
        }
        let mut fill = 0;
        while z < 63 {
            z += 1;
            fill += 1;
            let s = hash32(z * 17 + salt) & 1 == 1;
            l.push((z as u8, if s { -1 } else { 1 }));
        }
        (l, fill)
    };
    for &(run, size, count) in counts {
        let per = 63 / (run as u32 + 1);
        let mut left = count;
        if (run, size) == (0, 1) {
            left = (count as u64).saturating_sub(ones) as u32;
        }
        let full = left / per;
        if full > 0 {
            let (l, f) = mk(run, size, per, run as u32 * 64 + size as u32);
            ones += f as u64 * full as u64;
            blocks.push((full, l));
            left -= full * per;
        }
        if left > 0 {
            let (l, f) = mk(run, size, left, 5);
            ones += f as u64;
            blocks.push((1, l));
        }
    }
    blocks
}

pub fn skew_case(counts: &[(u8, u8, u32)], unit: u16, m: Mode, rst: u16) -> Case {
    let blocks = skew_blocks(counts);
    let nb: u64 = blocks.iter().map(|b| b.0 as u64).sum();
    let bw = (nb as f64).sqrt().ceil().max(1.0) as u64;
    let bh = (nb + bw - 1) / bw;
    // the last row must be complete: repeat the last kind of block
    let mut blocks = blocks;
    let missing = bw * bh - nb;
    if missing > 0 {
        let l = blocks.last().unwrap().1.clone();
        // padding with (0,1) blocks keeps the skew
        let pad = blocks.iter().rev().find(|b| b.0 > 1).map(|b| b.1.clone()).unwrap_or(l);
        blocks.push((missing as u32, pad));
    }
    Case {
        color: 0,
        w: (bw * 8) as u16,
        h: (bh * 8) as u16,
        q: 90,
        ql: Qt::Uniform(unit),
        qc: Qt::Uniform(255),
        prog: m.0,
        opt: m.1,
        rst,
        content: Content::Syn { unit, blocks },
        ..Case::default()
    }
}

/// A grey image whose DC differences have the given counts of categories.
pub fn dc_case(counts: Vec<(u8, u32)>, m: Mode, rst: u16) -> Case {
    let nb: u64 = counts.iter().map(|b| b.1 as u64).sum();
    let bw = (nb as f64).sqrt().ceil().max(1.0) as u64;
    let bh = (nb + bw - 1) / bw;
    Case {
        color: 0,
        w: (bw * 8) as u16,
        h: (bh * 8) as u16,
        q: 90,
        ql: Qt::Uniform(8),
        qc: Qt::Uniform(255),
        prog: m.0,
        opt: m.1,
        rst,
        content: Content::Dc(counts),
        ..Case::default()
    }
}

/// (run, size) pairs ordered so that the commonest (last) are the cheapest to pack.
pub fn skew_symbols(n: usize) -> Vec<(u8, u8)> {
    let mut all = vec![(0u8, 1u8), (0, 2), (0, 3), (1, 1), (1, 2), (1, 3), (0, 4), (1, 4)];
    for r in 2..=15u8 {
        for s in 1..=4u8 {
            all.push((r, s));
        }
    }
    for r in 0..=15u8 {
        all.push((r, 5));
    }
    all.truncate(n);
    all.reverse();
    all
}

pub fn fib(n: usize) -> Vec<u32> {
    let mut v = vec![1u32, 1];
    while v.len() < n {
        let l = v.len();
        v.push(v[l - 1] + v[l - 2]);
    }
    v.truncate(n);
    v
}

/// All 65536 blocks that are outer products of two 0/1 patterns, for several level pairs.
pub fn separable(name: &str, levels: Vec<(u8, u8)>, vars: Vec<Var>, steps: Vec<u16>) -> Space<'static> {
    let n = (256 * levels.len() * vars.len() * steps.len()) as u64;
    Space::new(name, n, move |i| {
        let mut r = Radix(i);
        let row = r.take(256) as u8;
        let &(lo, hi) = r.pick(&levels);
        let var = *r.pick(&vars);
        let q = *r.pick(&steps);
        Some(Case {
            color: 0,
            w: 2048,
            h: 8,
            q: 100,
            ql: Qt::Uniform(q),
            qc: Qt::Uniform(q),
            content: Content::Sep { row, lo, hi },
            var,
            ..Case::default()
        })
    })
}

/// Images with more lines, columns or blocks per component than 16 bits can count, in colour.
pub fn beyond_16_bits(modes: &[Mode], rsts: &[u16], t: bool) -> Space<'static> {
    let mut l = Vec::new();
    let mut shapes: Vec<(u16, u16, u8, u8)> = vec![
        (65535, 9, 1, 3), (9, 65535, 1, 3), (65535, 17, 8, 5), (17, 65535, 6, 3), (65534, 8, 2, 0), (33, 40000, 3, 4), (40000, 33, 7, 6),
        (2056, 2056, 1, 0), (2056, 2056, 0, 0), (3000, 2100, 4, 3), (2056, 2056, 5, 1), (4104, 1032, 6, 0), (1032, 4104, 8, 2),
    ];
    if t {
        shapes.extend([(4112, 4112, 1, 3), (4112, 4112, 8, 3), (65535, 520, 1, 0), (520, 65535, 6, 3)]);
    }
    for (k, &(w, h, color, samp)) in shapes.iter().enumerate() {
        for (j, &m) in modes.iter().enumerate() {
            // quick: every shape in some mode, every mode with some shape
            if !t && modes.len() > 2 && (k + j) % 2 == 1 {
                continue;
            }
            let var = [Var::Std, Var::Simd, Var::NoStd][(k + j / 2) % 3];
            l.push(Case {
                color, samp, w, h, prog: m.0, opt: m.1, var,
                q: if k % 2 == 0 { 75 } else { 92 },
                rst: rsts[(k + j) % rsts.len()],
                content: Content::Pat([0u8, 1, 5][(k + j) % 3], 3),
                ..Case::default()
            });
        }
    }
    Space::list("more lines, columns or blocks than 16 bits count", l)
}

/// Large images in every colour type, sampling factor and mode: a single column or row of the greatest
/// length, more than 256 blocks in a row or column, thousands of MCUs.
pub fn large(modes: &[Mode], colors: &[u8], t: bool) -> Space<'static> {
    let mut dims: Vec<(u16, u16)> = vec![(1, 65535), (65535, 1), (2080, 90), (70, 2100), (1031, 517), (640, 480), (300, 1200)];
    if t {
        dims.extend([(2, 32769), (32769, 2), (16385, 5), (5, 16385), (4100, 260), (260, 4100), (1920, 1080)]);
    }
    let mut l = Vec::new();
    let mut k = 0;
    for &color in colors {
        for &samp in if color == 0 { &FACTORS[..2] } else { &FACTORS[..] } {
            for &m in modes {
                for &(w, h) in &dims {
                    k += 1;
                    l.push(Case {
                        color, samp, w, h, prog: m.0, opt: m.1,
                        q: if k % 2 == 0 { 60 } else { 93 },
                        rst: [0u16, 0, 300, 7][k / 5 % 4],
                        content: Content::Pat([1u8, 0, 5][k % 3], 2),
                        var: [Var::Std, Var::Simd, Var::NoStd][k % 7 % 3],
                        ..Case::default()
                    });
                }
            }
        }
    }
    Space::list("large images in every colour, sampling and mode", l)
}
