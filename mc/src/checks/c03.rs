//! C03: the coding mode never changes the coefficients.

use super::*;
use crate::spaces::*;

fn judge(c: &Case, th: usize, cx: &Ctx) -> Result<Obs, String> {
    let data = c.data();
    let base = Case { prog: 0, opt: false, rst: 0, apps: Vec::new(), dens: (255, 0, 0), ..c.clone() };
    let mut cov = cx.cov[th % cx.cov.len()].lock().unwrap();
    let (ra, rb) = (run_data(&base, &data), run_data(c, &data));
    let a = oracle::decode(&ra, &mut cov).map_err(|e| format!("baseline encode: {}", e))?;
    let b = oracle::decode(&rb, &mut cov)?;
    same(&a, &b)?;
    Ok(Obs { hash: fnv(&rb.bytes), execs: 2, nontrivial: true })
}

pub fn same(a: &Stream, b: &Stream) -> Result<(), String> {
    if (a.width, a.height, a.comps.len()) != (b.width, b.height, b.comps.len()) {
        return Err("frame geometry differs between the modes".into());
    }
    for (k, (x, y)) in a.comps.iter().zip(&b.comps).enumerate() {
        if x.qt != y.qt {
            return Err(format!("component {}: quantisation tables differ between the modes", k));
        }
        if (x.bw, x.bh) != (y.bw, y.bh) {
            return Err(format!("component {}: block grids differ between the modes", k));
        }
        for by in 0..x.bh {
            for bx in 0..x.bw {
                let (p, q) = (&x.coefs[by * x.gw + bx], &y.coefs[by * y.gw + bx]);
                if p != q {
                    let z = (0..64).find(|&z| p[z] != q[z]).unwrap();
                    return Err(format!(
                        "component {} block ({},{}) zigzag {}: {} in baseline mode, {} in this mode",
                        k, bx, by, z, p[z], q[z]
                    ));
                }
            }
        }
    }
    Ok(())
}

fn spaces() -> Vec<Space<'static>> {
    let t = thorough();
    let mut v = Vec::new();
    let modes: Vec<Mode> = [0u8, 1, 2, 3, 9, 33, 34, 64].iter().flat_map(|&n| [(n, false), (n, true)]).collect();
    v.push(
        Geo {
            colors: if t { ALL_COLORS.to_vec() } else { CLASSES.to_vec() },
            modes: modes.clone(),
            rsts: vec![0, 1, 3],
            dims: if t { DIMS.to_vec() } else { DIMS[..10].to_vec() },
            pats: if t { (0..10).map(|p| (p, 4)).collect() } else { vec![(0, 4), (1, 4)] },
            quals: vec![85],
            ..Geo::default()
        }
        .space("colour x sampling x mode x restart x size"),
    );
    v.push(
        Geo {
            modes: vec![(0, true), (1, false)],
            rsts: vec![2],
            dims: if t { grid(1..=66, 1..=66) } else { grid(1..=33, 1..=33) },
            pats: vec![(0, 6)],
            quals: vec![70],
            ..Geo::default()
        }
        .space("every width x height"),
    );
    v.push(
        Geo {
            modes: (2..=64u8).flat_map(|n| [(n, false), (n, true)]).collect(),
            rsts: vec![0, 2],
            dims: vec![(40, 24)],
            samps: vec![0, 3, 7],
            pats: vec![(0, 0), (4, 0), (8, 0), (3, 0)],
            quals: vec![100],
            vars: if t { VARS.to_vec() } else { vec![Var::Std] },
            ..Geo::default()
        }
        .space("every number of scans"),
    );
    v.push(mcu_sequences(
        "MCU sequences x mode x restart",
        if t { 5 } else { 4 },
        vec![0, 1, 2, 3, 4, 11],
        vec![0],
        vec![0],
        vec![(0, false), (0, true), (1, false), (1, true), (2, true)],
        vec![0, 1, 2, 3],
    ));
    v.push(mcu_sequences(
        "MCU sequences, colour",
        if t { 4 } else { 3 },
        vec![0, 1, 3, 7],
        vec![1, 6, 8],
        FACTORS.to_vec(),
        vec![(0, true), (1, true), (5, false)],
        vec![0, 1, 2],
    ));
    v.push(symbol_phase("every AC symbol in every mode", if t { vec![(0, true), (1, false), (1, true), (64, false)] } else { vec![(1, false), (0, true)] }, vec![0], if t { 64 } else { 8 }));
    v.push(large(&[(0, true), (2, false), (5, true)], &CLASSES, t));
    v.push(beyond_16_bits(&[(0, true), (1, false), (2, true), (64, false)], &[0, 0, 7, 65535], t));
    v.push(Space::list("large images", {
        let mut l = Vec::new();
        for &(w, h, col, samp) in &[(65535u16, 9u16, 1u8, 3u8), (65528, 8, 8, 5), (1, 65535, 1, 3), (9, 65535, 0, 0), (1031, 517, 6, 3), (1031, 517, 1, 4)] {
            for &(m, o) in &[(0u8, true), (2, false), (64, true)] {
                for rst in [0u16, 1000] {
                    l.push(Case { color: col, samp, w, h, q: 92, prog: m, opt: o, rst, content: Content::Pat(0, 3), ..Case::default() });
                }
            }
        }
        l
    }));
    v.extend(crate::dev::both(if t { 4 } else { 3 }, if t { 3 } else { 2 }, true, &["density"]));
    v.extend(crate::dev::pairs(t, &["density"]));
    v
}

pub fn run() -> Result<Ev, Violation> {
    let cx = Ctx::default();
    let t = explore("C03", &spaces(), &|c, th| judge(c, th, &cx))?;
    Ok(Ev {
        prop: "C03",
        level: "exploration",
        coverage: exploration(&t, "each case encodes one image in baseline mode and in one other mode and compares all coefficients of the visible blocks; distinct streams of the other mode counted", true),
        assumptions: vec!["equality is established through the strict reference decoder".into()],
    })
}
pub fn replay(t: &str) -> Result<(), String> {
    judge(&parse_case(t)?, 0, &Ctx::default()).map(|_| ())
}
