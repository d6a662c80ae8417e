//! C12: colour conversion, all 2^24 colours.

use super::*;
use crate::spaces::*;
use std::sync::atomic::{AtomicU64, Ordering};

fn exact(r: u8, g: u8, b: u8) -> [f64; 3] {
    let (r, g, b) = (r as f64, g as f64, b as f64);
    [
        0.299 * r + 0.587 * g + 0.114 * b,
        128.0 - 0.168735891647856 * r - 0.331264108352144 * g + 0.5 * b,
        128.0 + 0.5 * r - 0.418687589158345 * g - 0.081312410841655 * b,
    ]
}

/// The public conversion functions of the three builds, one colour.
fn point(col: u32, k: u8) -> Result<(), String> {
    let b = col.to_be_bytes();
    let (r, g, bl) = (b[1], b[2], b[3]);
    let y = je::rgb_to_ycbcr(r, g, bl);
    if je_simd::rgb_to_ycbcr(r, g, bl) != y || je_nostd::rgb_to_ycbcr(r, g, bl) != y {
        return Err("the builds disagree".into());
    }
    let e = exact(r, g, bl);
    for (n, (v, x)) in [y.0, y.1, y.2].iter().zip(e).enumerate() {
        if (*v as f64 - x).abs() > 0.51 {
            return Err(format!("rgb_to_ycbcr({},{},{}) component {} is {}, the formula gives {:.4}", r, g, bl, n, v, x));
        }
    }
    if r == g && g == bl && y != (r, 128, 128) {
        return Err(format!("grey {} converts to {:?}", r, y));
    }
    for f in [je::cmyk_to_ycck(r, g, bl, k), je_simd::cmyk_to_ycck(r, g, bl, k), je_nostd::cmyk_to_ycck(r, g, bl, k)] {
        if f != (y.0, y.1, y.2, 255 - k) {
            return Err(format!("cmyk_to_ycck({},{},{},{}) is {:?}", r, g, bl, k, f));
        }
    }
    Ok(())
}

/// Every pixel colour is also pushed through a whole encode.
///
/// Flats: each 8x8 block is one colour, step 1, no subsampling: DC / 8 is the stored sample.
/// Colors: one pixel per colour; the file must equal that of the converted samples.
fn judge(c: &Case, th: usize, cx: &Ctx) -> Result<Obs, String> {
    let data = c.data();
    let r = run_data(c, &data);
    match &c.content {
        Content::Flats { .. } => {
            let s = oracle::decode(&r, &mut cx.cov[th % cx.cov.len()].lock().unwrap())?;
            let (w, bpp) = (c.w as usize, c.bpp());
            if s.comps.len() != c.ncomp() {
                return Err("wrong number of components".into());
            }
            for (k, comp) in s.comps.iter().enumerate() {
                if comp.qt != Some([1; 64]) || comp.bw * 8 != w {
                    return Err("the stream does not use the requested table or sampling".into());
                }
                for by in 0..comp.bh {
                    for bx in 0..comp.bw {
                        let px = &data[(by * 8 * w + bx * 8) * bpp..][..bpp];
                        let got = comp.coefs[by * comp.gw + bx][0];
                        let ac = comp.coefs[by * comp.gw + bx][1..].iter().any(|&x| x != 0);
                        let ok = match c.color {
                            0 | 5 | 8 => got == (px[k] as i16 - 128) * 8,
                            6 => got == (255 - px[k] as i16 - 128) * 8,
                            _ => {
                                if k == 3 {
                                    got == (255 - px[3] as i16 - 128) * 8
                                } else {
                                    let (a, b, d) = if c.color == 3 || c.color == 4 { (px[2], px[1], px[0]) } else { (px[0], px[1], px[2]) };
                                    let e = exact(a, b, d)[k];
                                    got % 8 == 0 && ((got / 8 + 128) as f64 - e).abs() <= 0.51
                                        && (a != b || b != d || (got / 8 + 128) == if k == 0 { a as i16 } else { 128 })
                                }
                            }
                        };
                        if !ok || ac {
                            return Err(format!(
                                "a flat block of {:?} is stored in component {} as DC {} (level {}){}",
                                px, k, got, got as f64 / 8.0 + 128.0, if ac { " with AC coefficients" } else { "" }
                            ));
                        }
                    }
                }
            }
            Ok(obs(&r))
        }
        _ => {
            let b = run_data(&Case { entry: Entry::Buffer, ..c.clone() }, &data);
            if !r.ok() || !b.ok() {
                return Err(format!("encode failed: {:?} / {:?}", r.out, b.out));
            }
            if r.bytes != b.bytes {
                return Err("the encoded file differs from that of the samples rgb_to_ycbcr gives".into());
            }
            Ok(Obs { hash: fnv(&r.bytes), execs: 2, nontrivial: true })
        }
    }
}

fn spaces() -> Vec<Space<'static>> {
    let t = thorough();
    let mut v = Vec::new();
    // one pixel per colour, all colours, every format, every build
    v.push(Space::new("all 2^24 colours, one pixel each", 256 * 5 * 3, |i| {
        let mut r = Radix(i);
        let color = *r.pick(&[1u8, 2, 3, 4, 7]);
        let var = VARS[r.take(3)];
        let base = (r.0 * 65536) as u32;
        Some(Case { color, samp: 0, w: 256, h: 256, q: 100, content: Content::Colors { base, stride: 1 }, var, ..Case::default() })
    }));
    // one flat block per colour: exact stored samples
    let formats: Vec<(u8, Var)> = if t {
        ALL_COLORS.iter().flat_map(|&c| VARS.map(|v| (c, v))).collect()
    } else {
        vec![(1, Var::Std), (1, Var::Simd)]
    };
    let nf = formats.len();
    v.push(Space::new("all 2^24 colours, one block each", 4096 * nf as u64, move |i| {
        let mut r = Radix(i);
        let &(color, var) = r.pick(&formats);
        Some(Case {
            color, samp: 0, w: 512, h: 512, q: 100, ql: Qt::Uniform(1), qc: Qt::Uniform(1),
            content: Content::Flats { cw: 8, base: (r.0 * 4096) as u32 },
            var,
            ..Case::default()
        })
    }));
    // lattice for the remaining formats and builds
    v.push(Space::new("colour lattice, every format and build", 9 * 3 * 64, |i| {
        let mut r = Radix(i);
        let color = r.take(9) as u8;
        let var = VARS[r.take(3)];
        let k = r.0 as u32;
        Some(Case {
            color, samp: 0, w: 256, h: 256, q: 100, ql: Qt::Uniform(1), qc: Qt::Uniform(1),
            content: Content::Flats { cw: 8, base: (k * 262_144 + (k * 5003) % 200_000) & 0xFF_FFFF },
            var,
            ..Case::default()
        })
    }));
    v.push(
        Geo {
            colors: ALL_COLORS.to_vec(),
            samps: vec![0],
            modes: vec![(0, false), (0, true), (1, false)],
            dims: (1..=if t { 80 } else { 34 }).map(|w| (w, 2)).collect(),
            rsts: vec![0],
            pats: vec![(0, 5)],
            quals: vec![100],
            vars: VARS.to_vec(),
            ..Geo::default()
        }
        .space("every width"),
    );
    v
}

pub fn run() -> Result<Ev, Violation> {
    let seen = Seen::default();
    let n = AtomicU64::new(0);
    let ks: &[u8] = if thorough() { &[0, 1, 2, 77, 127, 128, 129, 254, 255, 13, 64, 191, 200, 33, 99, 250] } else { &[0, 255] };
    for_all(
        4096,
        "C12",
        &|i| format!("point={}", i * 4096),
        &|i, _| {
            for c in 0..4096u32 {
                let col = i as u32 * 4096 + c;
                for &k in ks {
                    let k = k.wrapping_add((col % 5) as u8);
                    if let Err(what) = crate::enc::caught(|| point(col, k)).and_then(|x| x) {
                        return Err(Violation { replay: format!("point={} k={}", col, k), what });
                    }
                }
            }
            n.fetch_add(4096 * ks.len() as u64, Ordering::Relaxed);
            Ok(Obs { hash: 0, execs: 1, nontrivial: false })
        },
        &seen,
    )?;
    let cx = Ctx::default();
    let t = explore("C12", &spaces(), &|c, th| judge(c, th, &cx))?;
    Ok(Ev {
        prop: "C12",
        level: "exploration",
        coverage: exploration(&t, "all 2^24 colours through the public functions of the three builds (conversions_evaluated), and through whole encodes; distinct encoded streams counted", true)
            .num("conversions_evaluated", n.into_inner()),
        assumptions: vec!["reference: BT.601 full-range formula in double precision".into()],
    })
}
pub fn replay(t: &str) -> Result<(), String> {
    if let Some(p) = t.split_whitespace().find_map(|x| x.strip_prefix("point=")) {
        let k = t.split_whitespace().find_map(|x| x.strip_prefix("k=")).and_then(|x| x.parse().ok()).unwrap_or(0);
        return crate::enc::caught(|| point(p.parse().unwrap_or(0), k)).and_then(|x| x);
    }
    judge(&parse_case(t)?, 0, &Ctx::default()).map(|_| ())
}
