//! Judgements: what a stream must look like, given the case it was produced from.
//! Everything here is computed from the case and the standard, never from the encoder.

use crate::case::*;
use crate::enc::*;
use crate::jpeg::*;
use crate::presets;

type R<T = ()> = Result<T, String>;

/// Expected quantisation table in natural order.
pub fn expected_table(q: &Qt, quality: u8, luma: bool) -> [u8; 64] {
    let mut out = [0u8; 64];
    if let Some(t) = q.custom() {
        for i in 0..64 {
            out[i] = t[i].clamp(1, 255) as u8;
        }
        return out;
    }
    let n = match q {
        Qt::Preset(n) => *n as usize,
        _ => 0,
    };
    let base = if luma { &presets::LUMA[n] } else { &presets::CHROMA[n] };
    let q = (quality as i64).clamp(1, 100);
    let scale = if q < 50 { 5000 / q } else { 200 - 2 * q };
    for i in 0..64 {
        out[i] = ((base[i] as i64 * scale + 50) / 100).clamp(1, 255) as u8;
    }
    out
}

/// Success + strict conformance.
pub fn decode(run: &Run, cov: &mut Cov) -> R<Stream> {
    match &run.out {
        Out::Ok => {}
        Out::Err(e) => return Err(format!("a valid encode failed with {:?}", e)),
        Out::Panic(p) => return Err(format!("a valid encode panicked: {}", p)),
    }
    parse(&run.bytes, cov).map_err(|e| format!("not a conforming JPEG stream: {}", e))
}

pub fn headers(c: &Case, s: &Stream) -> R {
    let want_sof = if c.scans().is_some() { 0xC2 } else { 0xC0 };
    if s.sof != want_sof {
        return Err(format!("frame header SOF{:x}, configured SOF{:x}", s.sof & 15, want_sof & 15));
    }
    if (s.width, s.height) != (c.w, c.h) {
        return Err(format!("frame header says {}x{}, image is {}x{}", s.width, s.height, c.w, c.h));
    }
    let l = c.layout();
    if s.comps.len() != l.len() {
        return Err(format!("{} components, expected {}", s.comps.len(), l.len()));
    }
    for (i, (k, e)) in s.comps.iter().zip(&l).enumerate() {
        if (k.h, k.v) != (e.0, e.1) {
            return Err(format!("component {} has sampling {}x{}, expected {}x{}", i, k.h, k.v, e.0, e.1));
        }
    }
    // JFIF
    let first = s.segments.first().ok_or("no segments")?;
    if first.marker != 0xE0 || first.data.len() != 14 || &first.data[..5] != b"JFIF\0" {
        return Err("the first segment is not a JFIF APP0".into());
    }
    let d = &first.data;
    if d[5] != 1 {
        return Err(format!("JFIF version {}.{}", d[5], d[6]));
    }
    let want = match c.dens.0 {
        1 | 2 => c.dens,
        _ => (0, 1, 1),
    };
    let got = (d[7], (d[8] as u16) << 8 | d[9] as u16, (d[10] as u16) << 8 | d[11] as u16);
    if got != want {
        return Err(format!("JFIF density {:?}, configured {:?}", got, want));
    }
    if d[12] != 0 || d[13] != 0 {
        return Err("JFIF thumbnail size is not zero".into());
    }
    let app = app_segments(s)?;
    let adobe = match c.jct() {
        2 => Some(0u8),
        3 => Some(2u8),
        _ => None,
    };
    // user segments come after; the encoder's own Adobe marker is directly after JFIF
    let user = user_segments(c);
    let extra = app.len() as i64 - 1 - user.len() as i64;
    match adobe {
        Some(t) => {
            if extra != 1 {
                return Err(format!("{} encoder-written segments besides JFIF, expected the Adobe marker", extra));
            }
            let a = app[1];
            if a.marker != 0xEE || a.data.len() != 12 || &a.data[..5] != b"Adobe" {
                return Err("no Adobe APP14 marker after the JFIF header".into());
            }
            if a.data[11] != t {
                return Err(format!("Adobe transform {}, expected {}", a.data[11], t));
            }
        }
        None => {
            if extra != 0 {
                return Err(format!("{} unexpected APP segments", extra));
            }
        }
    }
    Ok(())
}

/// All APPn segments; they must precede the frame header.
pub fn app_segments(s: &Stream) -> R<Vec<&Segment>> {
    let mut out = Vec::new();
    let mut frame = false;
    for g in &s.segments {
        match g.marker {
            0xE0..=0xEF => {
                if frame {
                    return Err(format!("APP{} after the frame header", g.marker & 15));
                }
                out.push(g)
            }
            0xC0..=0xC2 => frame = true,
            _ => {}
        }
    }
    Ok(out)
}

pub const ICC_CHUNK: usize = 65535 - 2 - 14;

/// Result every configuration call must give, and the segments the file must hold.
pub fn expected_setup(c: &Case) -> (Vec<Result<(), E>>, Vec<(u8, Vec<u8>)>) {
    let (mut r, mut segs) = (Vec::new(), Vec::new());
    for a in &c.apps {
        match a {
            App::Seg(n, l, s) => {
                if *n == 0 || *n > 15 {
                    r.push(Err(E::InvalidApp(*n)))
                } else if *l > 65533 {
                    r.push(Err(E::AppTooLarge(*l)))
                } else {
                    r.push(Ok(()));
                    segs.push((*n, app_bytes(*l, *s)));
                }
            }
            App::Icc(l, s) => {
                let n = (*l + ICC_CHUNK - 1) / ICC_CHUNK;
                if n > 255 {
                    r.push(Err(E::IccTooLarge(*l)))
                } else {
                    r.push(Ok(()));
                    let d = app_bytes(*l, *s);
                    for (i, ch) in d.chunks(ICC_CHUNK).enumerate() {
                        let mut v = b"ICC_PROFILE\0".to_vec();
                        v.push(i as u8 + 1);
                        v.push(n as u8);
                        v.extend_from_slice(ch);
                        segs.push((2, v));
                    }
                }
            }
        }
    }
    (r, segs)
}
fn user_segments(c: &Case) -> Vec<(u8, Vec<u8>)> {
    expected_setup(c).1
}

/// Results of the configuration calls and the stored segments.  An ICC profile is only required to
/// be correctly chunked, however it is split.
pub fn segments(c: &Case, run: &Run, s: &Stream) -> R {
    let (setup, _) = expected_setup(c);
    if run.setup != setup {
        return Err(format!("configuration calls returned {:?}, expected {:?}", run.setup, setup));
    }
    let app = app_segments(s)?;
    let skip = 1 + (c.jct() >= 2) as usize;
    if app.len() < skip {
        return Err("standard header segments missing".into());
    }
    let mut it = app[skip..].iter();
    for (a, r) in c.apps.iter().zip(&setup) {
        if r.is_err() {
            continue;
        }
        match a {
            App::Seg(n, l, sd) => {
                let g = it.next().ok_or_else(|| format!("accepted APP{} segment missing", n))?;
                if g.marker != 0xE0 + n {
                    return Err(format!("found APP{} where APP{} was added", g.marker & 15, n));
                }
                if g.data != app_bytes(*l, *sd) {
                    return Err(format!("APP{}: {} bytes supplied, {} bytes stored, content differs", n, l, g.data.len()));
                }
            }
            App::Icc(l, sd) => {
                let d = app_bytes(*l, *sd);
                let mut got = 0usize;
                let mut total = None;
                let mut k = 0usize;
                while got < d.len() {
                    let g = it.next().ok_or("ICC chunks missing")?;
                    k += 1;
                    if g.marker != 0xE2 || g.data.len() < 14 || &g.data[..12] != b"ICC_PROFILE\0" {
                        return Err(format!("ICC chunk {} is not a consecutive APP2 ICC_PROFILE segment", k));
                    }
                    if g.data[12] as usize != k {
                        return Err(format!("ICC chunk {} is numbered {}", k, g.data[12]));
                    }
                    if *total.get_or_insert(g.data[13]) != g.data[13] {
                        return Err("ICC chunk total differs between chunks".into());
                    }
                    let ch = &g.data[14..];
                    if got + ch.len() > d.len() || d[got..got + ch.len()] != *ch {
                        return Err(format!("ICC chunk {}: content differs from the profile", k));
                    }
                    got += ch.len();
                }
                if let Some(t) = total {
                    if t as usize != k {
                        return Err(format!("ICC total says {}, {} chunks written", t, k));
                    }
                }
            }
        }
    }
    if let Some(g) = it.next() {
        return Err(format!("unexpected extra APP{} segment", g.marker & 15));
    }
    Ok(())
}

pub fn tables(c: &Case, s: &Stream) -> R {
    let want = [expected_table(&c.ql, c.q, true), expected_table(&c.qc, c.q, false)];
    for (i, (k, e)) in s.comps.iter().zip(c.layout()).enumerate() {
        let t = k.qt.ok_or("component without a table")?;
        let w = &want[e.2 as usize];
        for z in 0..64 {
            if t[z] != w[ZZ[z] as usize] {
                return Err(format!(
                    "component {}: table entry at zigzag {} is {}, requested {}",
                    i, z, t[z], w[ZZ[z] as usize]
                ));
            }
        }
    }
    Ok(())
}

pub fn restarts(c: &Case, s: &Stream) -> R {
    let n = c.rst as usize;
    if n == 0 {
        if !s.dri.is_empty() {
            return Err(format!("restart interval {} declared but none configured", s.dri[0]));
        }
        if s.total_rst != 0 {
            return Err("restart markers without a restart interval".into());
        }
        return Ok(());
    }
    if s.dri.iter().any(|&d| d as usize != n) || s.dri.is_empty() {
        return Err(format!("declared restart intervals {:?}, configured {}", s.dri, n));
    }
    for (i, sc) in s.scans.iter().enumerate() {
        if sc.dri != n {
            return Err(format!("scan {} runs with interval {}, configured {}", i, sc.dri, n));
        }
        if sc.rst_count != (sc.mcus - 1) / n {
            return Err(format!("scan {}: {} restart markers for {} MCUs", i, sc.rst_count, sc.mcus));
        }
    }
    Ok(())
}

pub fn script(c: &Case, s: &Stream) -> R {
    for k in 0..s.comps.len() {
        let mine: Vec<(usize, &Scan)> =
            s.scans.iter().enumerate().filter(|(_, x)| x.comps.contains(&k)).collect();
        match c.scans() {
            None => {
                if mine.len() != 1 || mine[0].1.ss != 0 || mine[0].1.se != 63 {
                    return Err(format!("component {} is not coded in exactly one full scan", k));
                }
            }
            Some(n) => {
                if mine.len() != n as usize {
                    return Err(format!("component {} has {} scans, {} requested", k, mine.len(), n));
                }
                if (mine[0].1.ss, mine[0].1.se) != (0, 0) {
                    return Err(format!("component {}: first scan is not the DC scan", k));
                }
                let mut next = 1u8;
                for (_, x) in &mine[1..] {
                    if x.ss != next || x.se < x.ss || x.se > 63 {
                        return Err(format!(
                            "component {}: AC band {}..{} after coefficient {}",
                            k, x.ss, x.se, next - 1
                        ));
                    }
                    next = x.se + 1;
                }
                if next != 64 {
                    return Err(format!("component {}: coefficients {}..63 are not coded", k, next));
                }
            }
        }
    }
    if c.scans().is_some() {
        let last_dc = s.scans.iter().rposition(|x| x.ss == 0).unwrap_or(0);
        let first_ac = s.scans.iter().position(|x| x.ss > 0).unwrap_or(usize::MAX);
        if first_ac < last_dc {
            return Err("an AC scan precedes a DC scan".into());
        }
    }
    if s.scans.iter().any(|x| x.ah != 0 || x.al != 0) {
        return Err("successive approximation used".into());
    }
    Ok(())
}

// ------------------------------------------------------------------ fidelity

pub struct Dct {
    c: [[f64; 8]; 8],
}
impl Default for Dct {
    fn default() -> Dct {
        Dct { c: costab() }
    }
}
impl Dct {
    /// natural order coefficients of the level-shifted block
    pub fn forward(&self, b: &[f64; 64]) -> [f64; 64] {
        let mut t = [0f64; 64];
        for y in 0..8 {
            for u in 0..8 {
                let mut s = 0.0;
                for x in 0..8 {
                    s += b[y * 8 + x] * self.c[u][x];
                }
                t[y * 8 + u] = s;
            }
        }
        let mut o = [0f64; 64];
        for v in 0..8 {
            for u in 0..8 {
                let mut s = 0.0;
                for y in 0..8 {
                    s += t[y * 8 + u] * self.c[v][y];
                }
                o[v * 8 + u] = s;
            }
        }
        o
    }
}

/// Component sample at (x, y) of the component's own (subsampled) raster.
#[inline]
pub fn sample(p: &Planes, k: usize, x: usize, y: usize, hs: usize, vs: usize) -> u8 {
    let px = (x * hs).min(p.w as usize - 1);
    let py = (y * vs).min(p.h as usize - 1);
    p.p[k][py * p.w as usize + px]
}

/// Largest deviation seen, in coefficient units beyond half a step.
#[derive(Default, Clone, Copy)]
pub struct Slack {
    pub arith: f64,
}

pub const TOL_Q: f64 = 1.0 / 8192.0;
pub const TOL_ABS: f64 = 0.25;

/// |q - F/Q| <= 1/2 + |F| / 8192 + 0.25 / Q for every coefficient of every visible block.
pub fn fidelity(c: &Case, p: &Planes, s: &Stream, dct: &Dct) -> R<Slack> {
    let (sh, sv) = if c.jct() == 0 { (1, 1) } else { c.sampling() };
    let lay = c.layout();
    let mut slack = Slack::default();
    if s.comps.len() != lay.len() || (s.width, s.height) != (c.w, c.h) {
        return Err("frame header does not describe the image".into());
    }
    for (k, comp) in s.comps.iter().enumerate() {
        let (hs, vs) = (sh / lay[k].0, sv / lay[k].1);
        let bw = ((c.w as usize + hs - 1) / hs + 7) / 8;
        let bh = ((c.h as usize + vs - 1) / vs + 7) / 8;
        if comp.bw != bw || comp.bh != bh {
            return Err(format!("component {} has {}x{} blocks, expected {}x{}", k, comp.bw, comp.bh, bw, bh));
        }
        let qt = comp.qt.ok_or("no table")?;
        let mut last: Option<([u8; 64], [f64; 64])> = None;
        for by in 0..bh {
            for bx in 0..bw {
                let mut b = [0u8; 64];
                for y in 0..8 {
                    for x in 0..8 {
                        b[y * 8 + x] = sample(p, k, bx * 8 + x, by * 8 + y, hs, vs);
                    }
                }
                let f = match &last {
                    Some((lb, lf)) if *lb == b => *lf,
                    _ => {
                        let mut fb = [0f64; 64];
                        for i in 0..64 {
                            fb[i] = b[i] as f64 - 128.0;
                        }
                        let f = dct.forward(&fb);
                        last = Some((b, f));
                        f
                    }
                };
                let got = &comp.coefs[by * comp.gw + bx];
                for z in 0..64 {
                    let n = ZZ[z] as usize;
                    let q = qt[z] as f64;
                    let e = (got[z] as f64 - f[n] / q).abs() - 0.5;
                    if e > 0.0 {
                        let room = e - f[n].abs() * TOL_Q - q * TOL_Q / 2.0;
                        slack.arith = slack.arith.max(room * q);
                        if room > TOL_ABS / q {
                            return Err(format!(
                                "component {} block ({},{}) zigzag {}: coefficient {} * step {} = {}, source DCT coefficient is {:.3}",
                                k, bx, by, z, got[z], q, got[z] as f64 * q, f[n]
                            ));
                        }
                    }
                }
            }
        }
    }
    Ok(slack)
}

// ------------------------------------------------------------------ Huffman

/// Cost of an optimal prefix code for `f` (all non-zero weights), in bits.
pub fn huffman_cost(f: &[u64]) -> u64 {
    let mut h: std::collections::BinaryHeap<std::cmp::Reverse<u64>> =
        f.iter().map(|&x| std::cmp::Reverse(x)).collect();
    let mut cost = 0;
    while h.len() > 1 {
        let a = h.pop().unwrap().0;
        let b = h.pop().unwrap().0;
        cost += a + b;
        h.push(std::cmp::Reverse(a + b));
    }
    cost
}
/// Depth of the deepest leaf of an optimal code when ties are broken towards depth: if this is at
/// most 16, no optimal code (however ties are broken) hits the length limit.
pub fn huffman_depth(f: &[u64]) -> u32 {
    let mut h: std::collections::BinaryHeap<std::cmp::Reverse<(u64, i32)>> =
        f.iter().map(|&x| std::cmp::Reverse((x, 0))).collect();
    if h.len() == 1 {
        return 1;
    }
    while h.len() > 1 {
        let a = h.pop().unwrap().0;
        let b = h.pop().unwrap().0;
        h.push(std::cmp::Reverse((a.0 + b.0, a.1.min(b.1) - 1)));
    }
    (-h.pop().unwrap().0 .1) as u32
}

pub struct DefaultLens {
    pub l: [[[u8; 256]; 2]; 2],
}
impl Default for DefaultLens {
    fn default() -> Self {
        use presets::*;
        let b = |l: &[u8; 16], v: &[u8]| Huff::build(l, v).unwrap().len;
        DefaultLens {
            l: [
                [b(&LUMA_DC_LEN, &LUMA_DC_VAL), b(&CHROMA_DC_LEN, &CHROMA_DC_VAL)],
                [b(&LUMA_AC_LEN, &LUMA_AC_VAL), b(&CHROMA_AC_LEN, &CHROMA_AC_VAL)],
            ],
        }
    }
}

#[derive(Default, Clone)]
pub struct HuffObs {
    pub tables: u64,
    pub limited: u64,
    pub max_len: usize,
    pub max_depth: u32,
    pub shapes: Vec<u64>,
}

/// Optimised tables: valid and complete is established by decoding; here: minimal.
pub fn huffman(s: &Stream, def: &DefaultLens) -> R<HuffObs> {
    let mut o = HuffObs::default();
    for cls in 0..2 {
        for id in 0..4 {
            let h = match &s.huff[cls][id] {
                Some(h) => h,
                None => continue,
            };
            let hist = &s.hist[cls][id];
            let total: u64 = hist.iter().map(|&x| x as u64).sum();
            if total == 0 || s.huff_defs[cls][id] != 1 {
                continue;
            }
            o.tables += 1;
            let lmax = h.counts.iter().rposition(|&c| c > 0).map_or(0, |i| i + 1);
            o.max_len = o.max_len.max(lmax);
            o.shapes.push(crate::par::fnv(&h.counts));
            let cost: u64 = (0..256).map(|v| hist[v] as u64 * h.len[v] as u64).sum();
            let f: Vec<u64> = hist.iter().filter(|&&x| x > 0).map(|&x| x as u64).collect();
            let mut fr = f.clone();
            fr.push(1);
            let depth = huffman_depth(&fr);
            o.max_depth = o.max_depth.max(depth);
            if depth <= 16 {
                let best = huffman_cost(&fr);
                if cost + lmax as u64 > best {
                    // a code cheaper than the procedure's is also fine
                    let mut fz = f.clone();
                    fz.push(0);
                    if cost > huffman_cost(&fz) {
                        return Err(format!(
                            "{} table {}: {} bits for {} symbols, an optimal code needs {} (with its all-ones code of {} bits reserved)",
                            if cls == 0 { "DC" } else { "AC" }, id, cost, total, best - lmax as u64, lmax
                        ));
                    }
                }
            } else {
                o.limited += 1;
            }
            if id < 2 {
                let d: u64 = (0..256).map(|v| hist[v] as u64 * def.l[cls][id][v] as u64).sum();
                if cost > d {
                    return Err(format!(
                        "{} table {}: {} bits with the optimised table, {} with the default table",
                        if cls == 0 { "DC" } else { "AC" }, id, cost, d
                    ));
                }
            }
        }
    }
    Ok(o)
}
