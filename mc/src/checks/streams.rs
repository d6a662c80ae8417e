//! Checks that judge each produced stream on its own: C01, C02, C04, C05, C09, C10, C11, C14.

use super::*;
use crate::dev;
use crate::spaces::*;

type R<T> = Result<T, String>;

fn v3() -> Vec<Var> {
    VARS.to_vec()
}

fn decode_in(c: &Case, cx: &Ctx, th: usize) -> R<(Run, Stream, Vec<u8>)> {
    let data = c.data();
    let r = run_data(c, &data);
    let s = oracle::decode(&r, &mut cx.cov[th % cx.cov.len()].lock().unwrap())?;
    Ok((r, s, data))
}

// ---------------------------------------------------------------- C01

fn j01(c: &Case, th: usize, cx: &Ctx) -> R<Obs> {
    let (r, s, _) = decode_in(c, cx, th)?;
    if r.setup.iter().zip(oracle::expected_setup(c).0).any(|(x, e)| x.is_err() && e.is_ok()) {
        return Err(format!("a valid configuration call failed: {:?}", r.setup));
    }
    if (s.width, s.height) != (c.w, c.h) || s.comps.len() != c.ncomp() {
        return Err(format!(
            "frame of {}x{} with {} components for an image of {}x{} with {}",
            s.width, s.height, s.comps.len(), c.w, c.h, c.ncomp()
        ));
    }
    Ok(obs(&r))
}

fn spaces01() -> Vec<Space<'static>> {
    let t = thorough();
    let mut v = Vec::new();
    v.push(
        Geo {
            colors: ALL_COLORS.to_vec(),
            vars: v3(),
            dims: if t { DIMS.to_vec() } else { DIMS[..12].to_vec() },
            pats: if t { (0..10).map(|p| (p, 0)).collect() } else { vec![(0, 0), (4, 0)] },
            rsts: if t { vec![0, 1, 2, 3, 5, 7] } else { vec![0, 1, 3] },
            ..Geo::default()
        }
        .space("colour x sampling x mode x restart x size"),
    );
    v.push(
        Geo {
            colors: if t { ALL_COLORS.to_vec() } else { CLASSES.to_vec() },
            modes: if t { MODES.to_vec() } else { vec![(0, false), (0, true), (1, true)] },
            dims: if t { grid(1..=66, 1..=66) } else { grid(1..=34, 1..=34) },
            rsts: vec![2],
            pats: vec![(0, 3)],
            ..Geo::default()
        }
        .space("every width x height"),
    );
    v.push(
        Geo {
            samps: (0..16).collect(),
            dims: vec![(37, 29)],
            entries: vec![Entry::Slice, Entry::Buffer],
            vars: v3(),
            ..Geo::default()
        }
        .space("sampling aliases x entry points"),
    );
    // every number of scans
    v.push(
        Geo {
            modes: (2..=64u8).flat_map(|n| [(n, false), (n, true)]).collect(),
            rsts: vec![0, 1, 7],
            dims: vec![(33, 25)],
            pats: vec![(0, 0), (8, 0), (2, 0x80_8080)],
            samps: if t { FACTORS.to_vec() } else { vec![0, 3, 4] },
            ..Geo::default()
        }
        .space("every number of progressive scans"),
    );
    // every quality, every preset
    let nq = 256u64 * 9 * 2 * 2;
    v.push(Space::new("quality x preset", nq, |i| {
        let mut r = Radix(i);
        let q = r.take(256) as u8;
        let p = r.take(9) as u8;
        let m = *r.pick(&[(0u8, false), (5, true)]);
        let col = *r.pick(&[1u8, 6]);
        Some(Case {
            color: col, w: 24, h: 16, q,
            ql: Qt::Preset(p), qc: Qt::Preset(8 - p),
            prog: m.0, opt: m.1,
            content: Content::Pat(0, q as u32),
            ..Case::default()
        })
    }));
    // every restart interval
    v.push(Space::new("every restart interval", 65535 * if t { 8 } else { 2 }, |i| {
        let mut r = Radix(i);
        let rst = r.take(65535) as u16 + 1;
        let m = MODES[r.take(8)];
        Some(Case {
            color: 0, w: 40, h: 24, q: 50, rst,
            prog: m.0, opt: m.1,
            content: Content::Pat(0, 9),
            ..Case::default()
        })
    }));
    v.push(mcu_sequences(
        "MCU content sequences",
        if t { 5 } else { 4 },
        vec![0, 1, 2, 3, 4, 6, 11],
        vec![0],
        vec![0],
        MODES[..4].to_vec(),
        vec![0, 1, 2, 3],
    ));
    v.push(mcu_sequences(
        "MCU content sequences, several components",
        if t { 4 } else { 3 },
        vec![0, 1, 2, 3, 7],
        vec![1, 6, 8],
        FACTORS.to_vec(),
        MODES[..4].to_vec(),
        vec![0, 1, 2],
    ));
    v.push(ones("runs of one bits at every bit position", if t { MODES[..4].to_vec() } else { vec![(0, false)] }, vec![0], if t { 1000 } else { 48 }));
    v.push(symbol_phase("AC symbol x sign x bit phase", if t { MODES[..4].to_vec() } else { vec![(0, false), (1, true)] }, vec![0], if t { 192 } else { 96 }));
    v.push(Space::list("large images", large_images(t)));
    v.push(large(&MODES, &CLASSES, t));
    v.push(extremes("extreme coefficients", t));
    v.push(dc_pairs("all pairs of DC levels", t));
    v.extend(dev::both(if t { 4 } else { 3 }, if t { 3 } else { 2 }, true, &[]));
    v.extend(dev::pairs(t, &[]));
    v
}

/// Widths and heights at the 16-bit limits, more MCUs than any restart interval.
fn large_images(t: bool) -> Vec<Case> {
    let mut v = Vec::new();
    for &(w, h) in &[(65535u16, 1u16), (1, 65535), (65535, 9), (17, 65535), (65528, 8), (8, 65528), (65520, 17)] {
        for &(m, o) in &[(0u8, false), (0, true), (2, true)] {
            for &(col, samp) in &[(0u8, 0u8), (1, 3), (8, 5)] {
                v.push(Case {
                    color: col, samp, w, h, q: 60, prog: m, opt: o, rst: if o { 65535 } else { 0 },
                    content: Content::Pat(4, 1),
                    ..Case::default()
                });
            }
        }
    }
    // more than 65535 MCUs
    for &rst in &[65534u16, 65535, 32768, 255] {
        for &(m, o) in &[(0u8, false), (0, true), (3, false)] {
            v.push(Case { color: 0, w: 2056, h: 2056, q: 30, prog: m, opt: o, rst, content: Content::Pat(5, 2), ..Case::default() });
        }
    }
    // dense data
    for &(m, o) in &[(0u8, false), (0, true), (1, false), (64, true)] {
        for var in VARS {
            v.push(Case { color: 1, samp: 0, w: 640, h: 480, q: 100, prog: m, opt: o, content: Content::Pat(0, 5), var, ..Case::default() });
            v.push(Case { color: 6, samp: 3, w: 320, h: 240, q: 100, prog: m, opt: o, content: Content::Pat(3, 5), var, ..Case::default() });
        }
    }
    // more than 2^24 bytes of coded data, more than 2^24 coefficients
    for (m, o) in [(0u8, false), (0, true), (3, true)] {
        v.insert(0, Case { color: 0, w: 4100, h: 4100, q: 100, prog: m, opt: o, content: Content::Pat(0, 8), ..Case::default() });
    }
    if t {
        v.push(Case { color: 0, w: 65535, h: 2048, q: 10, content: Content::Pat(1, 0), ..Case::default() });
        v.push(Case { color: 1, w: 4096, h: 4096, q: 95, opt: true, content: Content::Pat(0, 0), ..Case::default() });
    }
    v
}

/// Pixel patterns that reach the largest coefficient at each position, with step 1, in all modes.
fn extremes(name: &str, t: bool) -> Space<'static> {
    let modes: Vec<Mode> = if t { MODES.to_vec() } else { MODES[..4].to_vec() };
    let n = (64 * 2 * 4 * 3 * modes.len()) as u64;
    Space::new(name, n, move |i| {
        let mut r = Radix(i);
        let pos = r.take(64) as u8;
        let neg = r.take(2) == 1;
        let color = CLASSES[r.take(4)];
        let var = VARS[r.take(3)];
        let m = *r.pick(&modes);
        Some(Case {
            color: if color == 1 { 5 } else { color },
            samp: 0, w: 24, h: 8, q: 100, prog: m.0, opt: m.1,
            ql: Qt::Uniform(1), qc: Qt::Uniform(1),
            content: Content::Sign { pos, neg },
            var,
            ..Case::default()
        })
    })
}

/// Every difference between consecutive DC levels: two flat blocks, all 256 x 256 pairs (a row of 64
/// second blocks per case).
fn dc_pairs(name: &str, t: bool) -> Space<'static> {
    let n = 256 * 4 * if t { 4 } else { 2 };
    Space::new(name, n, move |i| {
        let mut r = Radix(i);
        let a = r.take(256) as u8;
        let quarter = r.take(4) as u8;
        let m = MODES[r.take(4)];
        let mut ids = Vec::new();
        for k in 0..64u8 {
            ids.push(a);
            ids.push(quarter * 64 + k);
        }
        // raw pixels: 128 flat blocks in one row
        let mut px = Vec::with_capacity(128 * 64);
        for _ in 0..8 {
            for &v in &ids {
                px.extend_from_slice(&[v; 8]);
            }
        }
        Some(Case {
            color: 0, w: 1024, h: 8, q: 100, prog: m.0, opt: m.1,
            ql: Qt::Uniform(1), qc: Qt::Uniform(1),
            content: Content::Raw(px),
            ..Case::default()
        })
    })
}

pub fn c01() -> Result<Ev, Violation> {
    let cx = Ctx::default();
    let t = explore("C01", &spaces01(), &|c, th| j01(c, th, &cx))?;
    let cov = cx.merged();
    Ok(Ev {
        prop: "C01",
        level: "model_checking",
        coverage: Json::new()
            .num("states", cov.n_states() + cov.n_syms())
            .num("transitions", cov.steps)
            .num("traces_validated_against_impl", t.execs)
            .num("coder_states", cov.n_states())
            .num("symbol_phase_pairs", cov.n_syms())
            .num("patterns_of_ff_bytes_in_words", cov.n_words().0)
            .num("patterns_of_ff_bytes_in_last_words", cov.n_words().1)
            .num("distinct_streams", t.distinct)
            .str("state_rule", "states of the T.81 reference decoder automaton visited while accepting the encoder's streams: (scan kind, components, bit position mod 64, restart number, MCUs to next restart) and (class, Huffman symbol, bit position mod 64); transitions are MCUs decoded")
            .strs("samples", &t.samples)
            .obj("cases_per_space", spaces_json(&t)),
        assumptions: vec![
            "the strict T.81 decoder in mc/src/jpeg.rs is the specification".into(),
            "bounded: image sizes, block alphabets and sequence depths as listed in cases_per_space".into(),
        ],
    })
}
pub fn replay01(t: &str) -> Result<(), String> {
    j01(&parse_case(t)?, 0, &Ctx::default()).map(|_| ())
}

// ---------------------------------------------------------------- C02

fn j02(c: &Case, th: usize, cx: &Ctx) -> R<Obs> {
    let (r, s, data) = decode_in(c, cx, th)?;
    let p = planes(c, &data);
    let sl = oracle::fidelity(c, &p, &s, &cx.dct)?;
    let mut g = cx.max_arith.lock().unwrap();
    if sl.arith > *g {
        *g = sl.arith;
        if std::env::var("MC_SLACK").is_ok() {
            eprintln!("slack {:.4} at {}", sl.arith, c.to_string().chars().take(300).collect::<String>());
        }
    }
    Ok(obs(&r))
}

fn spaces02() -> Vec<Space<'static>> {
    let t = thorough();
    let mut v = Vec::new();
    v.push(
        Geo {
            colors: ALL_COLORS.to_vec(),
            modes: vec![(0, false), (0, true), (3, false)],
            rsts: vec![0, 2],
            pats: (0..10).map(|p| (p, 1)).collect(),
            dims: if t { DIMS.to_vec() } else { DIMS[..11].to_vec() },
            vars: if t { v3() } else { vec![Var::Std] },
            quals: if t { vec![80, 100, 3] } else { vec![95] },
            ..Geo::default()
        }
        .space("colour x sampling x mode x size x pattern"),
    );
    v.push(
        Geo {
            colors: ALL_COLORS.to_vec(),
            modes: vec![(0, false), (0, true)],
            rsts: vec![0],
            pats: vec![(0, 1), (7, 0)],
            dims: vec![(31, 37), (64, 33)],
            vars: vec![Var::Simd, Var::NoStd],
            entries: vec![Entry::Slice, Entry::Buffer],
            quals: vec![100],
            ..Geo::default()
        }
        .space("other builds and entry points"),
    );
    v.push(
        Geo {
            modes: vec![(0, false), (0, true)],
            rsts: vec![0],
            pats: vec![(0, 2)],
            dims: if t { grid(1..=66, 1..=66) } else { grid(1..=36, 1..=36) },
            quals: vec![98],
            ..Geo::default()
        }
        .space("every width x height"),
    );
    v.extend(quantiser_spaces(t));
    v.push(extremes("extreme coefficients", t));
    v.push(dc_pairs("all pairs of DC levels", t));
    v.push(separable(
        "all separable two-level blocks",
        if t { vec![(0, 255), (127, 129), (128, 129), (60, 200), (255, 254), (0, 1)] } else { vec![(0, 255), (127, 130)] },
        VARS.to_vec(),
        if t { vec![1, 2, 3, 16] } else { vec![1] },
    ));
    // impulses: every pixel position, several heights, step 1
    v.push(Space::new("single-pixel impulses", 64 * 16 * 2, |i| {
        let mut r = Radix(i);
        let pos = r.take(64);
        let lv = r.take(16) as u8 * 17;
        let bg = *r.pick(&[0u8, 200]);
        let mut px = vec![bg; 64];
        px[pos] = lv;
        Some(Case { color: 0, w: 8, h: 8, q: 100, ql: Qt::Uniform(1), qc: Qt::Uniform(1), content: Content::Raw(px), ..Case::default() })
    }));
    v.push(Space::list("large images", {
        let mut l = Vec::new();
        for &(w, h, col, samp) in &[
            (65535u16, 1u16, 0u8, 0u8), (65535, 9, 1, 3), (65535, 33, 8, 5), (65528, 8, 6, 1), (1, 65535, 1, 3), (9, 65535, 0, 0),
            (17, 65535, 8, 7), (3000, 700, 1, 3), (2056, 2056, 0, 0),
        ] {
            for &(m, o) in &[(0u8, false), (0, true), (2, false)] {
                for pat in [0u8, 1, 5] {
                    l.push(Case { color: col, samp, w, h, q: 92, prog: m, opt: o, content: Content::Pat(pat, 3), ..Case::default() });
                }
            }
        }
        l
    }));
    v.push(large(&MODES[..4], &CLASSES, t));
    v.push(beyond_16_bits(&[(0, false), (0, true), (2, false), (5, true)], &[0, 0, 7, 65535], t));
    v.push(mcu_sequences("MCU content sequences", if t { 4 } else { 3 }, vec![0, 1, 2, 3, 5, 7, 10], CLASSES.to_vec(), FACTORS.to_vec(), vec![(0, false), (0, true)], vec![0, 1]));
    v.extend(dev::both(if t { 4 } else { 3 }, if t { 3 } else { 2 }, false, &["segments", "density", "optimised"]));
    v.extend(dev::pairs(t, &["segments", "density", "optimised"]));
    v
}

/// Amplitude sweeps of every basis function against every quantiser step.
fn quantiser_spaces(t: bool) -> Vec<Space<'static>> {
    let mut v = Vec::new();
    // all 64 positions x all 255 steps; the amplitude runs through 32..128 values in one image
    let steps = 255usize;
    let variants: Vec<Var> = if t { VARS.to_vec() } else { vec![Var::Std] };
    let nv = variants.len();
    v.push(Space::new("basis amplitude x position x step", (64 * steps * 2 * nv) as u64, move |i| {
        let mut r = Radix(i);
        let pos = r.take(64) as u8;
        let q = r.take(steps) as u16 + 1;
        let half = r.take(2);
        let var = variants[r.take(nv)];
        let (u, w) = (pos % 8, pos / 8);
        let max = if pos == 0 { 1020 } else if u == 0 || w == 0 { 720 } else { 520 };
        // 32 blocks cover 0..max (half 0) and 0..-max (half 1) with an offset that differs per step
        let step = max * 1000 / 32;
        let start = (q as i32 * 377) % step;
        let sg = if half == 0 { 1 } else { -1 };
        Some(Case {
            color: 0, w: 64, h: 32, q: 90,
            ql: Qt::One(255, q, pos), qc: Qt::Uniform(255),
            content: Content::Basis { pos, step: sg * step, start: sg * start },
            var,
            ..Case::default()
        })
    }));
    // all 256 grey levels x all steps: DC is exact
    v.push(Space::new("every grey level x every step", 255 * 3, |i| {
        let mut r = Radix(i);
        let q = r.take(255) as u16 + 1;
        let var = VARS[r.take(3)];
        Some(Case {
            color: 0, w: 16 * 8, h: 16 * 8, q: 90, ql: Qt::Uniform(q), qc: Qt::Uniform(255),
            content: Content::Flats { cw: 8, base: 0 },
            var,
            ..Case::default()
        })
    }));
    // chroma tables are used for chroma: distinct steps, dense noise, every quality
    v.push(Space::new("quality x preset x colour", 256 * 9 * 4, |i| {
        let mut r = Radix(i);
        let q = r.take(256) as u8;
        let p = r.take(9) as u8;
        let color = CLASSES[r.take(4)];
        Some(Case {
            color, w: 32, h: 24, q,
            ql: Qt::Preset(p), qc: Qt::Preset((p * 2 + 1) % 9),
            content: Content::Pat(0, q as u32 + p as u32 * 1000),
            ..Case::default()
        })
    }));
    v
}

pub fn c02() -> Result<Ev, Violation> {
    let cx = Ctx::default();
    let mut t = explore("C02", &spaces02(), &|c, th| j02(c, th, &cx))?;
    let t0 = std::time::Instant::now();
    let (n, missing) = vast::run_all("C02", &|c| j02(c, 0, &cx).map(|_| ()))?;
    if std::env::var("MC_VERBOSE").is_ok() {
        eprintln!("  {} huge images {:6.2} s", n, t0.elapsed().as_secs_f64());
    }
    t.execs += n;
    t.per_space.push(("images of more than 2^31 pixels".into(), n));
    t.per_space.push(("huge images that could not be mapped".into(), missing));
    let arith = *cx.max_arith.lock().unwrap();
    Ok(Ev {
        prop: "C02",
        level: "exploration",
        coverage: exploration(&t, "every case of the listed finite spaces is encoded by the real code and every coefficient of every visible block compared with a double-precision reference DCT; non-trivial: success with a stream whose bytes differ from all others counted", true)
            .flt("largest_arithmetic_error_beyond_half_step", arith),
        assumptions: vec![
            "reference: exact DCT in double precision of the samples given by rgb_to_ycbcr (itself decided by C12)".into(),
            "block contents outside the enumerated patterns, amplitude sweeps and sequences are not covered".into(),
        ],
    })
}
pub fn replay02(t: &str) -> Result<(), String> {
    if let Some(r) = vast::replay(t, &|c| j02(c, 0, &Ctx::default()).map(|_| ())) {
        return r;
    }
    j02(&parse_case(t)?, 0, &Ctx::default()).map(|_| ())
}

// ---------------------------------------------------------------- C04

fn j04(c: &Case, th: usize, cx: &Ctx) -> R<Obs> {
    let (r, s, data) = decode_in(c, cx, th)?;
    oracle::restarts(c, &s)?;
    if data.len() < 20000 {
        // decoding group by group with predictions reset gave these coefficients; they must be
        // those of the image (so no group depends on the one before)
        oracle::fidelity(c, &planes(c, &data), &s, &cx.dct)
            .map_err(|e| format!("decoding each interval on its own does not give the image: {}", e))?;
    }
    let mut o = obs(&r);
    o.nontrivial = c.rst > 0 && s.total_rst > 0;
    Ok(o)
}

fn spaces04() -> Vec<Space<'static>> {
    let t = thorough();
    let mut v = Vec::new();
    v.push(Space::new("every restart interval", 65536 * 4, |i| {
        let mut r = Radix(i);
        let rst = r.take(65536) as u16;
        let m = MODES[r.take(4)];
        Some(Case { color: 0, w: 40, h: 16, q: 50, rst, prog: m.0, opt: m.1, content: Content::Pat(5, 9), ..Case::default() })
    }));
    v.push(
        Geo {
            colors: CLASSES.to_vec(),
            rsts: (0..=if t { 40 } else { 12 }).collect(),
            dims: vec![(33, 47), (65, 17), (8, 8), (16, 130), (130, 24)],
            pats: vec![(5, 0), (0, 0)],
            ..Geo::default()
        }
        .space("interval x colour x sampling x mode x size"),
    );
    v.push(
        Geo {
            rsts: (1..=if t { 60 } else { 20 }).collect(),
            modes: vec![(0, false), (0, true), (2, false)],
            samps: vec![0, 3, 4],
            dims: vec![(200, 200), (264, 88)],
            pats: vec![(5, 3)],
            vars: v3(),
            ..Geo::default()
        }
        .space("many restarts per scan"),
    );
    v.push(mcu_sequences("MCU sequences x interval", if t { 7 } else { 5 }, vec![0, 1, 2, 3, 11], vec![0], vec![0], MODES[..4].to_vec(), vec![0, 1, 2, 3, 4]));
    v.push(mcu_sequences("MCU sequences x interval, colour", if t { 4 } else { 3 }, vec![0, 1, 2, 3, 7], vec![1, 6, 8], FACTORS.to_vec(), MODES[..4].to_vec(), vec![1, 2, 3]));
    v.push(Space::list("more MCUs than the interval can count", {
        let mut l = Vec::new();
        for &rst in &[1u16, 255, 256, 257, 32767, 32768, 65534, 65535] {
            for &(m, o) in &[(0u8, false), (0, true), (3, false), (2, true)] {
                l.push(Case { color: 0, w: 2056, h: 2056, q: 30, prog: m, opt: o, rst, content: Content::Pat(5, 2), ..Case::default() });
            }
        }
        l
    }));
    v.push(
        Geo {
            colors: vec![0, 6],
            samps: vec![3],
            modes: (2..=64u8).flat_map(|n| [(n, false), (n, true)]).collect(),
            rsts: vec![1, 2],
            dims: vec![(80, 2200)],
            quals: vec![30],
            pats: vec![(5, 2)],
            ..Geo::default()
        }
        .space("every number of scans x thousands of restarts"),
    );
    v.push(large(&[(0, false), (0, true), (2, false)], &CLASSES, t));
    v.push(beyond_16_bits(&[(0, false), (0, true), (2, false), (5, true)], &[1, 65535, 300, 257], t));
    v.push(symbol_phase("restart at every bit phase", if t { MODES[..4].to_vec() } else { vec![(0, false)] }, if t { vec![1, 3, 5, 7] } else { vec![3] }, 32));
    v.extend(dev::both(if t { 4 } else { 3 }, if t { 3 } else { 2 }, false, &["density", "first table", "second table"]));
    v.extend(dev::pairs(t, &["density", "first table", "second table"]));
    v
}

pub fn c04() -> Result<Ev, Violation> {
    let cx = Ctx::default();
    let t = explore("C04", &spaces04(), &|c, th| j04(c, th, &cx))?;
    let cov = cx.merged();
    Ok(Ev {
        prop: "C04",
        level: "model_checking",
        coverage: Json::new()
            .num("states", cov.n_states())
            .num("transitions", cov.steps)
            .num("traces_validated_against_impl", t.execs)
            .num("distinct_streams_with_restarts", t.distinct)
            .str("state_rule", "states (scan kind, components, bit position mod 64, restart number mod 8, MCUs to go capped at 15) of the restart automaton visited; transitions are MCUs")
            .strs("samples", &t.samples)
            .obj("cases_per_space", spaces_json(&t)),
        assumptions: vec!["the restart automaton of the strict decoder (mc/src/jpeg.rs) is the specification".into()],
    })
}
pub fn replay04(t: &str) -> Result<(), String> {
    j04(&parse_case(t)?, 0, &Ctx::default()).map(|_| ())
}

// ---------------------------------------------------------------- C05

fn j05(c: &Case, th: usize, cx: &Ctx) -> R<Obs> {
    let (r, s, _) = decode_in(c, cx, th)?;
    let h = oracle::huffman(&s, &cx.def)?;
    let mut o = obs(&r);
    o.nontrivial = h.tables > 0;
    for x in &h.shapes {
        cx.shapes.insert(*x);
    }
    let mut g = cx.huff.lock().unwrap();
    g.tables += h.tables;
    g.limited += h.limited;
    g.max_len = g.max_len.max(h.max_len);
    g.max_depth = g.max_depth.max(h.max_depth);
    Ok(o)
}

fn spaces05() -> Vec<Space<'static>> {
    let t = thorough();
    let mut v = Vec::new();
    v.push(
        Geo {
            colors: ALL_COLORS.to_vec(),
            modes: vec![(0, true), (1, true), (2, true), (7, true), (40, true), (64, true)],
            rsts: vec![0, 1, 2, 5],
            pats: (0..10).map(|p| (p, 0)).collect(),
            dims: DIMS[..if t { 16 } else { 9 }].to_vec(),
            quals: if t { vec![20, 75, 100] } else { vec![85] },
            ..Geo::default()
        }
        .space("colour x sampling x scans x restart x size x pattern"),
    );
    v.push(
        Geo {
            modes: (2..=64).map(|n| (n, true)).collect(),
            rsts: vec![0, 1, 3],
            dims: vec![(48, 40)],
            samps: vec![0, 3, 5],
            pats: vec![(0, 0), (8, 0), (4, 1)],
            ..Geo::default()
        }
        .space("every number of scans"),
    );
    let sm: Vec<Mode> = vec![(0, true), (1, true)];
    v.push(large(&[(0, true), (2, true), (64, true)], &CLASSES, t));
    v.push(beyond_16_bits(&[(0, true), (1, true), (2, true), (64, true)], &[0, 0, 5, 65535], t));
    v.push(mcu_sequences("block sequences", if t { 6 } else { 5 }, vec![0, 1, 2, 3, 4, 9], vec![0], vec![0], sm.clone(), vec![0, 1, 2]));
    v.push(mcu_sequences("block sequences, colour", if t { 4 } else { 3 }, vec![0, 1, 3, 7, 9], vec![1, 6, 8], FACTORS.to_vec(), sm.clone(), vec![0, 1, 2]));
    v.push(dc_pairs_opt(t));
    // small AC histograms, exhaustively: every vector of counts over a few symbols
    let levels: &'static [u32] = &[0, 1, 2, 3, 5, 8, 13];
    let k = if t { 7 } else { 5 };
    v.push(Space::new("every small histogram", (levels.len() as u64).pow(k) * 2, move |i| {
        let mut r = Radix(i);
        let m = *r.pick(&[(0u8, true), (3, true)]);
        let syms = skew_symbols(k as usize + 1);
        let mut c = Vec::new();
        for s in syms.iter().take(k as usize) {
            let n = *r.pick(levels);
            if n > 0 {
                c.push((s.0, s.1, n));
            }
        }
        if c.is_empty() {
            return None;
        }
        Some(skew_case(&c, 8, m, 0))
    }));
    // the same for DC differences, and counts beyond 16 bits in every order
    v.push(Space::new("every small DC histogram", (levels.len() as u64).pow(k) * 2, move |i| {
        let mut r = Radix(i);
        let m = *r.pick(&[(0u8, true), (3, true)]);
        let c: Vec<(u8, u32)> = [8u8, 0, 3, 1, 6, 4, 2][..k as usize].iter().map(|&s| (s, *r.pick(levels))).filter(|x| x.1 > 0).collect();
        (!c.is_empty()).then(|| dc_case(c, m, 0))
    }));
    let mut many = Vec::new();
    for set in [[70_000u32, 140_000, 280_000], [66_000, 66_000, 140_000], [40_000, 65_000, 135_000]].iter().take(if t { 3 } else { 1 }) {
        for p in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
            let c = [3u8, 5, 1].iter().zip(p).map(|(&s, j)| (s, set[j])).chain([(2, 30_000)]).collect();
            many.push(dc_case(c, if p[0] == 2 { (2, true) } else { (0, true) }, 0));
        }
    }
    v.push(Space::list("DC differences counted beyond 16 bits", many));
    v.push(Space::new("skewed DC histograms", 8 * 3 * 2, |i| {
        let mut r = Radix(i);
        let n = r.take(8) + 2;
        let kind = r.take(3);
        let m = *r.pick(&[(0u8, true), (2, true)]);
        let w: Vec<u32> = match kind {
            0 => fib(n),
            1 => (0..n).map(|k| 3u32.pow(k as u32)).collect(),
            _ => fib(n).into_iter().rev().collect(),
        };
        Some(dc_case(w.iter().enumerate().map(|(k, &x)| ((k % 9) as u8, x)).collect(), m, 0))
    }));
    // skewed histograms: a geometric/Fibonacci chain of every length, several growth rates, starts
    let depths = if t { 27 } else { 23 };
    v.push(Space::new("skewed histograms", depths * 4 * 3, move |i| {
        let mut r = Radix(i);
        let n = r.take(depths as usize) + 2;
        let kind = r.take(4);
        let m = *r.pick(&[(0u8, true), (2, true), (6, true)]);
        let w: Vec<u32> = match kind {
            0 => fib(n),
            1 => (0..n.min(18)).map(|k| 1u32 << k).collect(),
            2 => {
                // several equal smallest weights, then a chain
                let mut f = vec![1, 1, 1];
                let g = fib(n);
                f.extend(g[1.min(n - 1)..].iter().copied());
                f
            }
            _ => fib(n).iter().enumerate().map(|(k, x)| if k % 3 == 0 { *x } else { x + 1 }).collect(),
        };
        let syms = skew_symbols(w.len());
        let c: Vec<(u8, u8, u32)> = syms.iter().zip(&w).map(|(s, n)| (s.0, s.1, *n)).collect();
        Some(skew_case(&c, 4, m, 0))
    }));
    // chains deeper than 32 levels: image of about 20 megapixels
    let mut deep = Vec::new();
    for n in if t { vec![31usize, 32, 33, 34, 35] } else { vec![34] } {
        let syms = skew_symbols(n);
        let c: Vec<(u8, u8, u32)> = syms.iter().zip(fib(n)).map(|(s, n)| (s.0, s.1, n)).collect();
        deep.push(skew_case(&c, 4, (0, true), 0));
    }
    v.push(Space::list("Huffman trees deeper than 32", deep));
    v.push(symbol_phase("every single AC symbol", vec![(0, true), (64, true)], vec![0, 2], if t { 32 } else { 8 }));
    v.push(dev::deviations("at most 3 settings away from an optimised image", Case { opt: true, ..dev::plain() }, if t { 4 } else { 3 }, false, &["optimised", "density", "segments"]));
    for s in dev::pairs(t, &["optimised", "density", "segments"]) {
        let (name, n) = (s.name.clone(), s.n);
        v.push(Space::new(&name, n, move |i| (s.get)(i).map(|c| Case { opt: true, ..c })));
    }
    v.push(dev::deviations("at most 3 settings away from an optimised progressive image", Case { opt: true, prog: 3, color: 0, ..dev::plain() }, if t { 4 } else { 3 }, false, &["optimised", "density", "segments"]));
    v
}

/// Pairs of DC levels under optimised tables, with and without restarts between them.
fn dc_pairs_opt(t: bool) -> Space<'static> {
    let step = if t { 1usize } else { 5 };
    let lv: Vec<u8> = (0..256).step_by(step).map(|x| x as u8).collect();
    let n = (lv.len() * lv.len() * 2 * 3) as u64;
    Space::new("pairs of DC levels x restart", n, move |i| {
        let mut r = Radix(i);
        let a = *r.pick(&lv);
        let b = *r.pick(&lv);
        let m = *r.pick(&[(0u8, true), (2, true)]);
        let rst = r.take(3) as u16;
        let mut px = Vec::new();
        for _ in 0..8 {
            for v in [a, b, a] {
                px.extend_from_slice(&[v; 8]);
            }
        }
        Some(Case { color: 0, w: 24, h: 8, q: 100, prog: m.0, opt: m.1, rst, ql: Qt::Uniform(1), qc: Qt::Uniform(1), content: Content::Raw(px), ..Case::default() })
    })
}

pub fn c05() -> Result<Ev, Violation> {
    let cx = Ctx::default();
    let mut t = explore("C05", &spaces05(), &|c, th| j05(c, th, &cx))?;
    let mut huge = "not in this tier";
    if thorough() {
        huge = match vast::counts() {
            Some(r) => {
                r?;
                t.cases += 1;
                t.execs += 2;
                "encoded"
            }
            None => "not enough memory",
        };
    }
    let h = cx.huff.lock().unwrap().clone();
    Ok(Ev {
        prop: "C05",
        level: "exploration",
        coverage: exploration(&t, "every case of the listed spaces is encoded with optimised tables; the stream is decoded (validity, completeness), the symbol histogram recovered and the code compared with the optimal cost; distinct streams counted", true)
            .num("tables_checked", h.tables)
            .num("length_limited_tables", h.limited)
            .num("longest_code", h.max_len as u64)
            .num("deepest_unlimited_tree", h.max_depth as u64)
            .str("image_with_more_than_2^32_symbols", huge)
            .num("distinct_length_vectors", cx.shapes.len()),
        assumptions: vec!["minimality is compared with the optimum for a code that keeps the all-ones code free".into()],
    })
}
pub fn replay05(t: &str) -> Result<(), String> {
    if let Some((w, h)) = t.trim().strip_prefix("counts=").and_then(|x| x.split_once('x')) {
        crate::par::limit_memory(u64::MAX);
        return vast::count_case(w.parse().map_err(|_| "bad replay")?, h.parse().map_err(|_| "bad replay")?);
    }
    j05(&parse_case(t)?, 0, &Ctx::default()).map(|_| ())
}

// ---------------------------------------------------------------- C09

fn j09(c: &Case, th: usize, cx: &Ctx) -> R<Obs> {
    let (r, s, _) = decode_in(c, cx, th)?;
    oracle::segments(c, &r, &s)?;
    // the rest of the file must be as if the segments were not there
    let plain = Case { apps: Vec::new(), ..c.clone() };
    let p = run(&plain);
    let (mut a, mut i) = (Vec::with_capacity(p.bytes.len()), 0usize);
    let app = oracle::app_segments(&s)?;
    let keep = 1 + (c.jct() >= 2) as usize;
    for g in app.iter().skip(keep) {
        a.extend_from_slice(&r.bytes[i..g.pos]);
        i = g.pos + 4 + g.data.len();
    }
    a.extend_from_slice(&r.bytes[i..]);
    if a != p.bytes {
        return Err("the file with its extra segments removed differs from the file encoded without them".into());
    }
    Ok(obs(&r))
}

fn spaces09() -> Vec<Space<'static>> {
    let t = thorough();
    let base = |apps: Vec<App>, color: u8| Case { color, w: 9, h: 9, q: 40, apps, content: Content::Pat(2, 0x203040), ..Case::default() };
    let mut v = Vec::new();
    v.push(Space::new("segment number x length", 256 * 12 * 3, move |i| {
        let mut r = Radix(i);
        let nr = r.take(256) as u8;
        let len = *r.pick(&[0usize, 1, 2, 13, 14, 255, 256, 65532, 65533, 65534, 65535, 70000]);
        let seed = *r.pick(&[1u8, 255, 253]);
        Some(base(vec![App::Seg(nr, len, seed)], if nr % 2 == 0 { 0 } else { 6 }))
    }));
    v.push(Space::new("every segment length", 65540, move |i| Some(base(vec![App::Seg((i % 15) as u8 + 1, i as usize, i as u8)], (i % 9) as u8))));
    // sequences of calls, accepted and refused
    let alpha: Vec<App> = vec![
        App::Seg(1, 5, 1), App::Seg(15, 0, 0), App::Seg(2, 20, 253), App::Seg(14, 12, 253), App::Seg(0, 4, 2),
        App::Seg(16, 4, 3), App::Seg(7, 65534, 4), App::Icc(0, 5), App::Icc(100, 6), App::Icc(oracle::ICC_CHUNK + 1, 7),
    ];
    let d = if t { 5u32 } else { 4 };
    v.push(Space::new("sequences of segment calls", (1..=d).map(|k| 10u64.pow(k)).sum(), move |i| {
        let mut s = i;
        let mut k = 1;
        while s >= 10u64.pow(k) {
            s -= 10u64.pow(k);
            k += 1;
        }
        let mut apps = Vec::new();
        for _ in 0..k {
            apps.push(alpha[(s % 10) as usize].clone());
            s /= 10;
        }
        Some(base(apps, [0u8, 6, 7, 1][(i % 4) as usize]))
    }));
    // ICC: every chunk count at its boundaries
    let counts: Vec<usize> = if t { (0..=258).collect() } else { (0..=258).filter(|k| *k < 12 || k % 16 == 0 || k % 16 == 15 || *k > 250).collect() };
    v.push(Space::new("ICC profile at every chunk boundary", (counts.len() * 5) as u64, move |i| {
        let mut r = Radix(i);
        let d = *r.pick(&[-1i64, 0, 1, 2, 30000]);
        let k = *r.pick(&counts) as i64;
        let len = k * oracle::ICC_CHUNK as i64 + d;
        if len < 0 {
            return None;
        }
        Some(base(vec![App::Icc(len as usize, (k * 3 + 1) as u8 % 250)], 0))
    }));
    // contents that mean something to some programs, under every number
    v.push(Space::new("contents with a meaning", 18 * 20 * 16 * 2, move |i| {
        let mut r = Radix(i);
        let seed = r.take(18) as u8 + 238;
        let len = *r.pick(&[1usize, 4, 5, 6, 11, 12, 13, 14, 15, 16, 20, 34, 40, 128, 140, 1000, 32768, 65000, 65519, 65533]);
        let nr = r.take(16) as u8;
        let one = if nr == 0 { App::Icc(len, seed) } else { App::Seg(nr, len, seed) };
        let mut c = base(if r.take(2) == 0 { vec![one] } else { vec![one.clone(), App::Seg(1, 9, 4), one] }, [0u8, 1, 6, 8][len % 4]);
        c.dens = (1, 72, 72);
        Some(c)
    }));
    // what one call may add does not depend on what earlier calls added
    v.push(Space::list("several large ICC profiles", {
        let k = oracle::ICC_CHUNK;
        let mut l = Vec::new();
        for (a, b) in [(1usize, 255usize), (255, 1), (128, 128), (200, 56), (255, 255)] {
            l.push(base(vec![App::Icc(a * k, 3), App::Icc(b * k, 4)], 0));
            l.push(base(vec![App::Icc(a * k - 1, 3), App::Seg(2, 30, 253), App::Icc(b * k + 1, 5)], 1));
        }
        l.push(base((0..260).map(|i| App::Seg(i as u8 % 16, 65533, i as u8)).collect(), 0));
        l.push(base((0..700).map(|i| App::Seg(2, 20, 253 - (i % 2) as u8)).chain([App::Icc(k * 2, 9)]).collect(), 0));
        l
    }));
    for (name, b) in [("a profile in several chunks, at most 2 settings away from a plain image", dev::plain()), ("a profile in several chunks, at most 2 settings away from a progressive CMYK image", dev::busy())] {
        let apps = vec![App::Seg(1, 40, 250), App::Icc(3 * oracle::ICC_CHUNK + 5, 3), App::Seg(9, 30, 7)];
        v.push(dev::deviations(name, Case { apps, ..b }, 2, false, &["segments", "content", "build"]));
    }
    v.push(Space::new("short ICC profiles", 600, move |i| Some(base(vec![App::Icc(i as usize, 3), App::Seg(3, 3, 3)], 1))));
    v.push(Space::new("segments x mode x colour", 9 * 8 * 3 * 3, move |i| {
        let mut r = Radix(i);
        let color = r.take(9) as u8;
        let m = MODES[r.take(8)];
        let rst = r.take(3) as u16;
        let var = VARS[r.take(3)];
        let mut c = base(vec![App::Seg(14, 12, 253), App::Icc(70000, 254), App::Seg(1, 65533, 255), App::Seg(14, 12, 253)], color);
        c.prog = m.0;
        c.opt = m.1;
        c.rst = rst;
        c.var = var;
        Some(c)
    }));
    v.extend(dev::both(if t { 3 } else { 2 }, if t { 3 } else { 2 }, true, &[]));
    v.extend(dev::pairs(t, &[]));
    v
}
pub fn c09() -> Result<Ev, Violation> {
    let cx = Ctx::default();
    let t = explore("C09", &spaces09(), &|c, th| j09(c, th, &cx))?;
    Ok(Ev {
        prop: "C09",
        level: "exploration",
        coverage: exploration(&t, "each case is one sequence of add_app_segment / add_icc_profile calls followed by an encode; results of every call and the stored segments are compared with the model of accepted segments, the rest of the file with an encode without segments; distinct streams counted", true),
        assumptions: vec!["segment contents are taken from a few generators, not all byte strings".into()],
    })
}
pub fn replay09(t: &str) -> Result<(), String> {
    j09(&parse_case(t)?, 0, &Ctx::default()).map(|_| ())
}

// ---------------------------------------------------------------- C10

fn j10(c: &Case, th: usize, cx: &Ctx) -> R<Obs> {
    let (r, s, _) = decode_in(c, cx, th)?;
    oracle::headers(c, &s)?;
    Ok(obs(&r))
}
fn spaces10() -> Vec<Space<'static>> {
    let t = thorough();
    let mut v = Vec::new();
    v.push(Space::new("every width", 65535, |i| {
        Some(Case { w: i as u16 + 1, h: 1, q: 20, color: 0, content: Content::Pat(2, 128), ..Case::default() })
    }));
    let hs: Vec<u16> = if t {
        (1..=65535).collect()
    } else {
        (1..=4096u16).chain((4097..=65535).step_by(257)).chain([65535, 65534, 32768, 32767, 16384]).collect()
    };
    v.push(Space::new("heights", hs.len() as u64, move |i| {
        Some(Case { w: 1, h: hs[i as usize], q: 20, color: 0, content: Content::Pat(2, 128), ..Case::default() })
    }));
    v.push(
        Geo {
            colors: ALL_COLORS.to_vec(),
            samps: (0..16).chain([SAMP_UNSET]).collect(),
            modes: MODES.to_vec(),
            dims: vec![(1, 1), (300, 2), (2, 300), (255, 257)],
            rsts: vec![0, 4],
            pats: vec![(2, 77)],
            quals: vec![0, 1, 89, 90, 100, 255],
            entries: vec![Entry::Slice, Entry::Buffer],
            ..Geo::default()
        }
        .space("colour x sampling x mode x entry"),
    );
    v.push(
        Geo { colors: ALL_COLORS.to_vec(), samps: vec![3, SAMP_UNSET], dims: vec![(17, 5)], rsts: vec![0], pats: vec![(2, 77)], vars: v3(), ..Geo::default() }
            .space("all builds"),
    );
    let step = if t { 1 } else { 3 };
    v.push(Space::new("densities", 3 * (65536 / step) * 2, move |i| {
        let mut r = Radix(i);
        let unit = r.take(3) as u8;
        let swap = r.take(2) == 1;
        let x = (r.0 * step) as u16;
        let y = x.wrapping_mul(40503).wrapping_add(1);
        let (x, y) = if swap { (y, x) } else { (x, y) };
        Some(Case { w: 3, h: 3, q: 20, color: [0u8, 1, 8][(i % 3) as usize], dens: (unit, x, y), content: Content::Pat(2, 5), ..Case::default() })
    }));
    v.push(large(&MODES, &CLASSES, t));
    v.extend(dev::both(if t { 4 } else { 3 }, if t { 3 } else { 2 }, false, &["first table", "second table"]));
    v.extend(dev::pairs(t, &["first table", "second table"]));
    v
}
/// `SamplingFactor::from_factors` gives exactly the factors asked for, or nothing.
fn factors10(h: u8, v: u8, th: usize, cx: &Ctx) -> R<Obs> {
    let want = SAMPS.iter().take(8).any(|s| (s.1, s.2) == (h as usize, v as usize));
    let mut o = Obs::default();
    for (var, got) in [(Var::Std, v_std::from_factors(h, v)), (Var::Simd, v_simd::from_factors(h, v)), (Var::NoStd, v_nostd::from_factors(h, v))] {
        match got {
            None if want => return Err(format!("from_factors({}, {}) refuses factors that are supported ({:?})", h, v, var)),
            None => {}
            Some(s) if !want => return Err(format!("from_factors({}, {}) gives {}, there is no such factor ({:?})", h, v, s, var)),
            Some(s) if SAMPS.get(s as usize).map(|x| (x.1, x.2)) != Some((h as usize, v as usize)) => {
                return Err(format!("from_factors({}, {}) gives number {} ({:?})", h, v, s, var))
            }
            Some(samp) => {
                for color in [1u8, 6, 8] {
                    o = j10(&Case { color, samp, var, w: 19, h: 35, q: 50, content: Content::Pat(0, 1), ..Case::default() }, th, cx)?;
                }
            }
        }
    }
    Ok(o)
}
pub fn c10() -> Result<Ev, Violation> {
    let cx = Ctx::default();
    let mut t = explore("C10", &spaces10(), &|c, th| j10(c, th, &cx))?;
    let (n, e) = for_all(
        65536,
        "C10",
        &|i| format!("factors={},{}", i & 255, i >> 8),
        &|i, th| factors10(i as u8, (i >> 8) as u8, th, &cx).map_err(|what| Violation { replay: format!("factors={},{}", i & 255, i >> 8), what }),
        &Seen::default(),
    )?;
    t.cases += n;
    t.execs += e;
    t.per_space.push(("pairs of numeric sampling factors".into(), n));
    Ok(Ev {
        prop: "C10",
        level: "exploration",
        coverage: exploration(&t, "every case is encoded and its frame, JFIF and Adobe headers compared with the configuration; distinct streams counted", true),
        assumptions: vec!["single-parameter sweeps are complete, combinations are the listed products".into()],
    })
}
pub fn replay10(t: &str) -> Result<(), String> {
    if let Some(f) = t.strip_prefix("factors=") {
        let n: Vec<u8> = f.split(',').filter_map(|x| x.parse().ok()).collect();
        return factors10(n[0], n[1], 0, &Ctx::default()).map(|_| ());
    }
    j10(&parse_case(t)?, 0, &Ctx::default()).map(|_| ())
}

// ---------------------------------------------------------------- C11

fn j11(c: &Case, th: usize, cx: &Ctx) -> R<Obs> {
    let (r, s, data) = decode_in(c, cx, th)?;
    oracle::tables(c, &s)?;
    oracle::fidelity(c, &planes(c, &data), &s, &cx.dct).map_err(|e| format!("the table is not the step used: {}", e))?;
    Ok(obs(&r))
}
fn spaces11() -> Vec<Space<'static>> {
    let t = thorough();
    let mut v = Vec::new();
    v.push(Space::new("preset x preset x quality", 9 * 9 * 256, |i| {
        let mut r = Radix(i);
        let q = r.take(256) as u8;
        let a = r.take(9) as u8;
        let b = r.take(9) as u8;
        Some(Case { color: CLASSES[1 + ((a + b) % 3) as usize], samp: 0, w: 16, h: 16, q, ql: Qt::Preset(a), qc: Qt::Preset(b), content: Content::Pat(0, i as u32), ..Case::default() })
    }));
    v.push(Space::new("default tables x quality x colour", 256 * 9 * 2, |i| {
        let mut r = Radix(i);
        let q = r.take(256) as u8;
        let color = r.take(9) as u8;
        let m = *r.pick(&[(0u8, false), (4, true)]);
        Some(Case { color, w: 16, h: 16, q, prog: m.0, opt: m.1, content: Content::Pat(0, i as u32), ..Case::default() })
    }));
    // table[i] = v + 1021 i: over v every position takes every 16-bit value
    v.push(Space::new("custom tables: every value at every position", 65536, |i| {
        let v = i as u16;
        Some(Case { color: if v % 2 == 0 { 0 } else { 5 }, samp: 0, w: 8, h: 8, q: (v % 101) as u8, ql: Qt::Lin(v), qc: Qt::Lin(v.wrapping_mul(3).wrapping_add(7)), content: Content::Pat(0, v as u32), ..Case::default() })
    }));
    v.push(Space::new("uniform custom tables x quality", 300 * 3 * 4, |i| {
        let mut r = Radix(i);
        let u = r.take(300) as u16;
        let q = *r.pick(&[1u8, 50, 100]);
        let color = CLASSES[r.take(4)];
        Some(Case { color, samp: 0, w: 16, h: 8, q, ql: Qt::Uniform(u), qc: Qt::Uniform(300 - u), content: Content::Pat(0, i as u32), ..Case::default() })
    }));
    v.extend(quantiser_spaces(t));
    v.push(
        Geo { colors: ALL_COLORS.to_vec(), dims: vec![(25, 17)], rsts: vec![0], quals: vec![10, 50, 51, 90], pats: vec![(0, 0)], vars: v3(), ..Geo::default() }
            .space("table assignment: colour x sampling x mode"),
    );
    v.extend(dev::both(if t { 4 } else { 3 }, if t { 3 } else { 2 }, false, &["density", "restart"]));
    v.extend(dev::pairs(t, &["density", "restart"]));
    v
}
pub fn c11() -> Result<Ev, Violation> {
    let cx = Ctx::default();
    let t = explore("C11", &spaces11(), &|c, th| j11(c, th, &cx))?;
    Ok(Ev {
        prop: "C11",
        level: "exploration",
        coverage: exploration(&t, "every case is encoded, the tables in the stream compared with the IJG scaling computed independently, and every coefficient checked to have been quantised with them; distinct streams counted", true),
        assumptions: vec!["the preset base tables in mc/src/presets.rs are the published ones".into()],
    })
}
pub fn replay11(t: &str) -> Result<(), String> {
    j11(&parse_case(t)?, 0, &Ctx::default()).map(|_| ())
}

// ---------------------------------------------------------------- C14

fn j14(c: &Case, th: usize, cx: &Ctx) -> R<Obs> {
    let (r, s, _) = decode_in(c, cx, th)?;
    oracle::script(c, &s)?;
    for x in &s.scans {
        cx.scans.insert(fnv(&[x.ss, x.se, x.comps[0] as u8, x.comps.len() as u8, c.prog, s.comps.len() as u8]));
    }
    Ok(obs(&r))
}
fn spaces14() -> Vec<Space<'static>> {
    let t = thorough();
    let mut v = Vec::new();
    v.push(
        Geo {
            colors: if t { ALL_COLORS.to_vec() } else { CLASSES.to_vec() },
            modes: (0..=64u8).flat_map(|n| [(n, false), (n, true)]).collect(),
            rsts: vec![0, 1, 2],
            dims: vec![(8, 8), (33, 17)],
            pats: vec![(0, 0), (2, 0)],
            ..Geo::default()
        }
        .space("every number of scans x colour x sampling x tables x restart"),
    );
    v.push(
        Geo { colors: ALL_COLORS.to_vec(), modes: vec![(0, false), (0, true), (1, false), (1, true), (2, false), (64, true)], dims: DIMS.to_vec(), vars: v3(), rsts: vec![0], ..Geo::default() }
            .space("colour x sampling x mode x size"),
    );
    v.push(large(&MODES, &CLASSES, t));
    v.push(beyond_16_bits(&[(0, false), (0, true), (2, false), (5, true)], &[0, 0, 7, 65535], t));
    v.extend(dev::both(if t { 4 } else { 3 }, if t { 3 } else { 2 }, false, &["density", "first table", "second table"]));
    v.extend(dev::pairs(t, &["density", "first table", "second table"]));
    v
}
pub fn c14() -> Result<Ev, Violation> {
    let cx = Ctx::default();
    let t = explore("C14", &spaces14(), &|c, th| j14(c, th, &cx))?;
    let cov = cx.merged();
    Ok(Ev {
        prop: "C14",
        level: "model_checking",
        coverage: Json::new()
            .num("states", cx.scans.len())
            .num("transitions", cov.steps)
            .num("traces_validated_against_impl", t.execs)
            .num("distinct_streams", t.distinct)
            .str("state_rule", "states of the scan-script automaton: (scans requested, frame components, scan component, band start, band end); every stream's scan sequence is replayed on it; transitions are MCUs decoded inside scans")
            .strs("samples", &t.samples)
            .obj("cases_per_space", spaces_json(&t)),
        assumptions: vec![],
    })
}
pub fn replay14(t: &str) -> Result<(), String> {
    j14(&parse_case(t)?, 0, &Ctx::default()).map(|_| ())
}
