//! C16: the output depends only on the component samples.

use super::*;
use crate::spaces::*;

fn same(what: &str, a: &Run, b: &Run) -> Result<(), String> {
    if !a.ok() || !b.ok() {
        return Err(format!("{}: {:?} / {:?}", what, a.out, b.out));
    }
    if a.bytes != b.bytes {
        let at = a.bytes.iter().zip(&b.bytes).position(|(x, y)| x != y).unwrap_or(0);
        return Err(format!("{}: the files differ at byte {} ({} / {} bytes)", what, at, a.bytes.len(), b.bytes.len()));
    }
    Ok(())
}

fn judge(c: &Case, _th: usize) -> Result<Obs, String> {
    let data = c.data();
    let a = run_data(c, &data);
    let mut execs = 1;
    // the same samples through a custom image buffer
    let b = run_data(&Case { entry: Entry::Buffer, ..c.clone() }, &data);
    execs += 1;
    same("custom image buffer", &a, &b)?;
    let mut asked = vec![false; c.h as usize];
    for &y in &b.rows {
        if y >= c.h {
            return Err(format!("row {} of an image of height {} was requested", y, c.h));
        }
        asked[y as usize] = true;
    }
    if let Some(y) = asked.iter().position(|x| !x) {
        return Err(format!("row {} was never requested from the image buffer", y));
    }
    let p = planes(c, &data);
    let n = c.w as usize * c.h as usize;
    match c.color {
        1..=4 => {
            // the same colours in the other layouts
            let rgb: Vec<[u8; 3]> = data
                .chunks(c.bpp())
                .take(n)
                .map(|x| if c.color <= 2 { [x[0], x[1], x[2]] } else { [x[2], x[1], x[0]] })
                .collect();
            for color in 1..=4u8 {
                for alpha in 0..if BPP[color as usize] == 4 { 3 } else { 1 } {
                    let mut d = Vec::with_capacity(n * 4);
                    for (i, x) in rgb.iter().enumerate() {
                        if color <= 2 {
                            d.extend_from_slice(x);
                        } else {
                            d.extend_from_slice(&[x[2], x[1], x[0]]);
                        }
                        if BPP[color as usize] == 4 {
                            d.push([0u8, 255, (i * 73) as u8][alpha]);
                        }
                    }
                    let r = run_data(&Case { color, ..c.clone() }, &d);
                    execs += 1;
                    same(&format!("as {}", COLORS[color as usize]), &a, &r)?;
                }
            }
            let mut d = Vec::with_capacity(n * 3);
            for i in 0..n {
                d.extend_from_slice(&[p.p[0][i], p.p[1][i], p.p[2][i]]);
            }
            let r = run_data(&Case { color: 5, ..c.clone() }, &d);
            execs += 1;
            same("as pre-converted YCbCr", &a, &r)?;
        }
        7 => {
            let mut d = Vec::with_capacity(n * 4);
            for i in 0..n {
                d.extend_from_slice(&[p.p[0][i], p.p[1][i], p.p[2][i], p.p[3][i]]);
            }
            let r = run_data(&Case { color: 8, ..c.clone() }, &d);
            execs += 1;
            same("as pre-converted YCCK", &a, &r)?;
        }
        _ => {}
    }
    Ok(Obs { hash: fnv(&a.bytes), execs, nontrivial: true })
}

fn spaces() -> Vec<Space<'static>> {
    let t = thorough();
    let colors: Vec<u8> = if t { ALL_COLORS.to_vec() } else { vec![0, 1, 4, 5, 6, 7, 8] };
    let mut v = Vec::new();
    v.push(
        Geo {
            colors: colors.clone(),
            dims: if t { DIMS.to_vec() } else { DIMS[..9].to_vec() },
            rsts: vec![0, 2],
            modes: if t { MODES.to_vec() } else { MODES[..4].to_vec() },
            pats: if t { vec![(0, 0), (1, 0), (7, 0), (3, 0)] } else { vec![(0, 0), (1, 0)] },
            quals: vec![97],
            vars: VARS.to_vec(),
            ..Geo::default()
        }
        .space("colour x sampling x mode x size x build"),
    );
    v.push(
        Geo {
            colors: vec![0, 1, 6, 7],
            samps: if t { FACTORS.to_vec() } else { vec![0, 3, 5, 7] },
            modes: vec![(0, false), (0, true)],
            dims: if t { grid(1..=50, 1..=50) } else { grid(1..=26, 1..=26) },
            rsts: vec![0],
            pats: vec![(0, 8)],
            quals: vec![100],
            ..Geo::default()
        }
        .space("every width x height"),
    );
    v.push(Space::new("all colours", 256 * 2, |i| {
        let mut r = Radix(i);
        let var = *r.pick(&[Var::Std, Var::Simd]);
        Some(Case { color: 1, samp: 0, w: 256, h: 256, q: 100, content: Content::Colors { base: (r.0 * 65536) as u32, stride: 1 }, var, ..Case::default() })
    }));
    v.push(large(&[(0, false), (0, true), (2, false)], &CLASSES, t));
    v.push(beyond_16_bits(&[(0, false), (0, true), (2, false), (5, true)], &[0, 0, 7, 65535], t));
    v.push(Space::list("large images", {
        let mut l = Vec::new();
        for &(w, h, samp) in &[(65535u16, 3u16, 3u8), (3, 65535, 3), (65535, 9, 4), (1, 65535, 0)] {
            for color in [0u8, 1, 6, 7] {
                for &(m, o) in &[(0u8, false), (2, true)] {
                    l.push(Case { color, samp, w, h, q: 60, prog: m, opt: o, content: Content::Pat(1, 0), ..Case::default() });
                }
            }
        }
        l
    }));
    v.extend(crate::dev::both(if t { 4 } else { 3 }, if t { 3 } else { 2 }, false, &["entry", "density"]));
    v.extend(crate::dev::pairs(t, &["entry", "density"]));
    v
}

pub fn run() -> Result<Ev, Violation> {
    let t = explore("C16", &spaces(), &judge)?;
    Ok(Ev {
        prop: "C16",
        level: "exploration",
        coverage: exploration(&t, "each case encodes the same samples through every equivalent pixel format and through a recording image buffer; files must be identical and every row requested; distinct files counted", true),
        assumptions: vec![],
    })
}
pub fn replay(t: &str) -> Result<(), String> {
    judge(&parse_case(t)?, 0).map(|_| ())
}
