//! C07: the simd, default and no_std builds agree byte for byte.

use super::*;
use crate::spaces::*;

fn judge(c: &Case, _th: usize) -> Result<Obs, String> {
    let data = c.data();
    let a = run_data(&Case { var: Var::Std, ..c.clone() }, &data);
    for var in [Var::Simd, Var::NoStd] {
        let b = run_data(&Case { var, ..c.clone() }, &data);
        let same_out = match (&a.out, &b.out) {
            (Out::Ok, Out::Ok) => true,
            (Out::Err(x), Out::Err(y)) => x == y,
            (Out::Panic(_), Out::Panic(_)) => true,
            _ => false,
        };
        if !same_out {
            return Err(format!("default build: {:?}, {:?} build: {:?}", a.out, var, b.out));
        }
        if a.setup != b.setup {
            return Err(format!("configuration results differ: {:?} / {:?} build {:?}", a.setup, var, b.setup));
        }
        // after a panic the partial output is not an output
        if !matches!(a.out, Out::Panic(_)) && a.bytes != b.bytes {
            let at = a.bytes.iter().zip(&b.bytes).position(|(x, y)| x != y).unwrap_or(a.bytes.len().min(b.bytes.len()));
            return Err(format!("{:?} build differs from the default build at byte {} ({} / {} bytes)", var, at, b.bytes.len(), a.bytes.len()));
        }
    }
    Ok(Obs { hash: fnv(&a.bytes), execs: 3, nontrivial: a.ok() })
}

fn spaces() -> Vec<Space<'static>> {
    let t = thorough();
    let mut v = Vec::new();
    v.push(
        Geo {
            colors: ALL_COLORS.to_vec(),
            pats: if t { (0..10).map(|p| (p, 7)).collect() } else { vec![(0, 7), (8, 7)] },
            dims: if t { DIMS.to_vec() } else { DIMS[..10].to_vec() },
            rsts: vec![0, 2],
            quals: if t { vec![10, 100] } else { vec![100] },
            ..Geo::default()
        }
        .space("colour x sampling x mode x size"),
    );
    // every width, so that every vector tail is seen
    v.push(
        Geo {
            colors: vec![1, 2, 3, 4, 7],
            samps: vec![0, 3],
            modes: vec![(0, false), (0, true)],
            rsts: vec![0],
            dims: (1..=if t { 600 } else { 140 }).map(|w| (w, 3)).chain((1..=40).map(|h| (9, h))).collect(),
            pats: vec![(0, 1), (0, 2)],
            quals: vec![100],
            entries: vec![Entry::Slice, Entry::Buffer],
            ..Geo::default()
        }
        .space("every width"),
    );
    // every colour
    let stride = if t { 1u32 } else { 4 };
    v.push(Space::new("all RGB colours", 256 * 4 / stride as u64 * 5, move |i| {
        let mut r = Radix(i);
        let color = *r.pick(&[1u8, 2, 3, 4, 7]);
        let base = r.0 as u32 * 16384 * stride;
        Some(Case { color, samp: 0, w: 128, h: 128, q: 100, content: Content::Colors { base, stride }, ..Case::default() })
    }));
    v.push(separable(
        "all separable two-level blocks",
        if t { vec![(0, 255), (127, 129), (128, 129), (60, 200), (255, 254), (0, 1), (1, 255)] } else { vec![(0, 255), (127, 129), (100, 101)] },
        vec![Var::Std],
        if t { vec![1, 2, 3, 7, 16] } else { vec![1] },
    ));
    v.push(Space::new("basis amplitude x position x step", 64 * 255, |i| {
        let mut r = Radix(i);
        let pos = r.take(64) as u8;
        let q = r.take(255) as u16 + 1;
        let max = if pos == 0 { 1020 } else { 540 };
        Some(Case { color: 0, w: 64, h: 32, q: 90, ql: Qt::Uniform(q), qc: Qt::Uniform(255), content: Content::Basis { pos, step: max * 1000 / 16, start: -max * 1000 + q as i32 * 31 }, ..Case::default() })
    }));
    v.push(Space::new("extreme coefficients", 64 * 2 * 2, |i| {
        let mut r = Radix(i);
        let pos = r.take(64) as u8;
        let neg = r.take(2) == 1;
        let opt = r.take(2) == 1;
        Some(Case { color: 0, w: 24, h: 8, q: 100, opt, ql: Qt::Uniform(1), qc: Qt::Uniform(1), content: Content::Sign { pos, neg }, ..Case::default() })
    }));
    // every pair (pixel position, value) over several backgrounds at step 1
    v.push(Space::new("single-pixel impulses", 64 * 256 * 2, |i| {
        let mut r = Radix(i);
        let pos = r.take(64);
        let lv = r.take(256) as u8;
        let bg = *r.pick(&[0u8, 131]);
        let mut px = vec![bg; 64];
        px[pos] = lv;
        Some(Case { color: 0, w: 8, h: 8, q: 100, ql: Qt::Uniform(1), qc: Qt::Uniform(1), content: Content::Raw(px), ..Case::default() })
    }));
    v.push(Space::new("noise blocks", if t { 2000 } else { 128 }, |i| {
        Some(Case { color: (i % 2) as u8, samp: 0, w: 256, h: 256, q: 100, content: Content::Pat(if i % 3 == 0 { 3 } else { 0 }, 100 + i as u32), ..Case::default() })
    }));
    v.push(
        Geo { samps: vec![0, 3], colors: CLASSES.to_vec(), modes: (0..=64u8).map(|n| (n, n % 2 == 0)).collect(), dims: vec![(40, 33)], rsts: vec![0, 3], ..Geo::default() }
            .space("every number of scans"),
    );
    v.push(Space::new("quality x preset", 256 * 9, |i| {
        let mut r = Radix(i);
        let q = r.take(256) as u8;
        let p = r.take(9) as u8;
        Some(Case { color: 1, w: 32, h: 16, q, ql: Qt::Preset(p), qc: Qt::Preset(8 - p), content: Content::Pat(0, q as u32), ..Case::default() })
    }));
    v.push(ones("runs of one bits at every bit position", vec![(0, false)], vec![0], if t { 48 } else { 12 }));
    v.push(large(&[(0, false), (0, true), (2, false)], &CLASSES, t));
    v.push(beyond_16_bits(&[(0, false), (0, true), (2, false), (5, true)], &[0, 0, 7, 65535], t));
    v.push(Space::new("segments and density", 60, |i| {
        let k = i as usize;
        Some(Case {
            color: (i % 9) as u8, w: 9, h: 9,
            apps: vec![App::Seg((k % 18) as u8, k * 1400, 1), App::Icc(k * 290_000, 2)],
            dens: ((i % 3) as u8, k as u16 * 999, 65535 - k as u16),
            content: Content::Pat(0, 0),
            ..Case::default()
        })
    }));
    v.push(Space::new("invalid input", 9 * 6 * 6 * 4, |i| {
        let mut r = Radix(i);
        let color = r.take(9) as u8;
        let w = *r.pick(&[0u16, 1, 7, 8, 9, 65535]);
        let h = *r.pick(&[0u16, 1, 7, 8, 9, 65535]);
        let need = w as usize * h as usize * BPP[color as usize];
        let len = match r.take(4) {
            0 => 0,
            1 => need.saturating_sub(1).min(70000),
            2 => (need + 1).min(70000),
            _ => need.min(70000),
        };
        Some(Case { color, w, h, content: Content::Raw((0..len).map(|x| (x * 7) as u8).collect()), ..Case::default() })
    }));
    v.extend(crate::dev::both(if t { 4 } else { 3 }, if t { 3 } else { 2 }, true, &["build"]));
    v.extend(crate::dev::pairs(t, &["build"]));
    v
}

pub fn run() -> Result<Ev, Violation> {
    let t = explore("C07", &spaces(), &judge)?;
    Ok(Ev {
        prop: "C07",
        level: "exploration",
        coverage: exploration(&t, "each case is run through all three builds of the real code (default with debug assertions, simd with AVX2 and debug assertions, no_std without) and results and bytes compared; distinct default-build streams counted", true)
            .bool("avx2_available", avx2()),
        assumptions: vec!["the machine has AVX2 (otherwise the simd build uses the scalar code and the comparison says little)".into()],
    })
}
pub fn avx2() -> bool {
    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
    {
        std::is_x86_feature_detected!("avx2")
    }
    #[cfg(not(any(target_arch = "x86", target_arch = "x86_64")))]
    {
        false
    }
}
pub fn replay(t: &str) -> Result<(), String> {
    judge(&parse_case(t)?, 0).map(|_| ())
}
