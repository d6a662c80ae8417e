//! Cases small enough to be run under an interpreter: every value of every setting, every pair of
//! colour type and mode, of factors and mode, of colour type and factors.

use crate::case::*;

pub fn cases(t: bool, var: Var) -> Vec<Case> {
    let modes: [(u8, bool); 4] = [(0, false), (0, true), (2, false), (5, true)];
    let mut v: Vec<Case> = Vec::new();
    let mut k = 0u32;
    let mut add = |c: Case, v: &mut Vec<Case>| {
        k += 1;
        let dims: [(u16, u16); 8] = [(9, 5), (1, 1), (17, 3), (8, 16), (3, 18), (16, 8), (25, 2), (10, 10)];
        let (w, h) = dims[k as usize % 8];
        let c = Case {
            w,
            h,
            q: [50, 75, 92, 100, 1, 30][k as usize % 6],
            rst: [0, 1, 0, 2, 3][k as usize % 5],
            entry: if k % 5 == 4 { Entry::Buffer } else { Entry::Slice },
            content: Content::Pat([0u8, 0, 5, 1, 9][k as usize % 5], k),
            var,
            ..c
        };
        v.push(c);
    };
    // all pairs of colour type, factors and mode in a table of 16 x 4 (thorough: all triples)
    for samp in 0..16u8 {
        for (m, mode) in modes.iter().enumerate() {
            for color in 0..9u8 {
                // (an interpreter takes much longer to optimise tables than for all the rest)
                let n = if mode.1 { 72 } else { 3 };
                if !t && (samp as usize * 2 + m * 5 + color as usize) % n != 0 {
                    continue;
                }
                if t && samp > 7 && color % 4 != samp % 4 {
                    continue;
                }
                add(Case { color, samp, prog: mode.0, opt: mode.1, ..Case::default() }, &mut v);
            }
        }
    }
    // every setting on its own
    let mut one = |c: Case| v.push(Case { var, ..c });
    let b = Case { color: 1, w: 9, h: 9, content: Content::Pat(0, 7), ..Case::default() };
    for n in 0..9u8 {
        one(Case { ql: Qt::Preset(n), qc: Qt::Preset((n + 4) % 9), ..b.clone() });
    }
    for q in [Qt::Lin(60000), Qt::Uniform(1), Qt::Uniform(65535), Qt::Uniform(0), Qt::One(1, 300, 63)] {
        one(Case { ql: q.clone(), qc: Qt::Lin(3), ..b.clone() });
    }
    for dens in [(1, 72, 65535), (2, 256, 1), (0, 0, 0)] {
        one(Case { dens, apps: vec![App::Seg(1, 0, 0), App::Seg(15, 300, 9), App::Icc(5, 1)], ..b.clone() });
    }
    // coefficients of all sizes, all codes of ones
    for (pos, neg) in [(0u8, false), (1, true), (63, false), (7, true), (56, false), (27, true)] {
        one(Case { color: 0, w: 8, h: 8, q: 100, content: Content::Sign { pos, neg }, ..b.clone() });
    }
    // refused: sizes of which the product is 0 modulo 2^32, or does not fit
    for (w, h, color) in [(0u16, 5u16, 1u8), (5, 0, 1), (32768, 32768, 2), (65535, 65535, 2), (65535, 65535, 0), (43691, 32768, 1)] {
        one(Case { color, w, h, content: Content::Raw(vec![1; 100]), ..b.clone() });
    }
    one(Case { apps: vec![App::Seg(16, 3, 1), App::Seg(0, 3, 1), App::Seg(3, 65534, 1)], ..b.clone() });
    v
}
