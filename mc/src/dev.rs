//! Deviation-bounded configuration spaces: every configuration that differs from a base in at most k
//! settings, each setting ranging over a list of alternatives.  All pairs (k = 2) or triples (k = 3) of
//! setting values meet in some case, which hand-written products of a few settings cannot give.

use crate::case::*;
use crate::par::Space;

type Set = Box<dyn Fn(&mut Case) + Sync + Send>;
pub struct Dim {
    pub name: &'static str,
    pub alts: Vec<Set>,
}

fn dim<T: Clone + Sync + Send + 'static>(name: &'static str, vals: Vec<T>, f: fn(&mut Case, &T)) -> Dim {
    Dim {
        name,
        alts: vals
            .into_iter()
            .map(|v| -> Set { Box::new(move |c: &mut Case| f(c, &v)) })
            .collect(),
    }
}

/// The alternatives of every setting.  `refused` adds calls that must be refused.
pub fn dims(refused: bool) -> Vec<Dim> {
    let mut apps = vec![
        vec![App::Seg(1, 40, 250)],
        // looks like the encoder's own markers
        vec![App::Seg(14, 12, 252)],
        vec![App::Seg(14, 12, 252), App::Seg(14, 12, 252)],
        vec![App::Seg(14, 0, 0)],
        vec![App::Seg(1, 14, 251)],
        vec![App::Seg(2, 30, 253)],
        vec![App::Seg(2, 30, 253), App::Icc(50, 7)],
        vec![App::Seg(1, 60, 249), App::Seg(1, 60, 250), App::Seg(13, 40, 248)],
        vec![App::Icc(0, 1)],
        vec![App::Icc(300, 244)],
        vec![App::Icc(100, 2)],
        vec![App::Icc(100, 2), App::Icc(90, 3)],
        vec![App::Icc(crate::oracle::ICC_CHUNK + 1, 4)],
        vec![App::Seg(15, 65533, 255)],
        vec![App::Seg(3, 9, 5), App::Icc(64, 6), App::Seg(3, 9, 5), App::Seg(1, 2, 254)],
    ];
    if refused {
        apps.push(vec![App::Seg(16, 3, 1), App::Seg(4, 3, 1)]);
        apps.push(vec![App::Seg(5, 6, 1), App::Seg(0, 3, 1)]);
        apps.push(vec![App::Seg(5, 65534, 1)]);
        apps.push(vec![App::Icc(100, 2), App::Icc(crate::oracle::ICC_CHUNK * 255 + 1, 4)]);
    }
    let qts = || {
        let mut v: Vec<Qt> = (0..9).map(Qt::Preset).collect();
        v.extend([
            Qt::Uniform(0),
            Qt::Uniform(1),
            Qt::Uniform(255),
            Qt::Uniform(300),
            Qt::Lin(3),
            Qt::One(9, 65535, 63),
            Qt::One(255, 1, 1),
            Qt::Like(0),
            Qt::Like(1),
            Qt::Like(2),
            Qt::Like(7),
            Qt::Like(8),
            Qt::Like(12),
        ]);
        v
    };
    let syn = |z: u8, v: i16| Content::Syn { unit: 1, blocks: vec![(3, vec![(z, v)]), (2, vec![]), (1, vec![(0, 200), (z, -v)])] };
    let mut contents: Vec<Content> = (0..PATTERNS).map(|p| Content::Pat(p, 21)).collect();
    contents.extend([
        Content::Pat(2, 0),
        Content::Pat(2, 0xFFFF_FFFF),
        Content::Pat(2, 0x8080_8080),
        Content::Blk { cw: 8, ch: 8, ids: vec![1, 2, 0, 4, 3] },
        Content::Blk { cw: 16, ch: 16, ids: vec![0, 1, 2, 10] },
        Content::Blk { cw: 32, ch: 32, ids: vec![0, 0, 7, 0] },
        // long zero runs: one high coefficient, alone or with a last one
        syn(63, 300),
        syn(34, 300),
        syn(49, 300),
        Content::Syn { unit: 1, blocks: vec![(1, vec![(1, 300), (18, 300), (51, -300)]), (1, vec![(63, 400)]), (2, vec![(33, 300), (63, 300)])] },
        Content::Sign { pos: 63, neg: false },
        Content::Sign { pos: 0, neg: true },
        Content::Colors { base: 0x10, stride: 70001 },
    ]);
    vec![
        dim("colour", (0..9u8).collect(), |c, v| c.color = *v),
        dim("sampling", (0..16u8).chain([SAMP_UNSET]).collect(), |c, v| c.samp = *v),
        dim("width", vec![1u16, 7, 8, 9, 15, 16, 17, 31, 32, 64, 65, 131], |c, v| c.w = *v),
        dim("height", vec![1u16, 7, 8, 9, 15, 16, 17, 32, 64, 65, 131], |c, v| c.h = *v),
        dim("quality", vec![0u8, 1, 2, 10, 49, 50, 51, 89, 90, 95, 99, 100, 101, 255], |c, v| c.q = *v),
        dim("first table", qts(), |c, v| c.ql = v.clone()),
        dim("second table", qts(), |c, v| c.qc = v.clone()),
        dim("scans", vec![0u8, 1, 2, 3, 5, 6, 10, 17, 32, 33, 63, 64], |c, v| c.prog = *v),
        dim("optimised", vec![false, true], |c, v| c.opt = *v),
        dim("restart", vec![0u16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 20, 64, 255, 256, 65535], |c, v| c.rst = *v),
        dim("density", vec![(0u8, 0u16, 0u16), (1, 72, 72), (2, 1, 65535), (1, 300, 1), (2, 0, 0)], |c, v| c.dens = *v),
        dim("segments", apps, |c, v| c.apps = v.clone()),
        dim("content", contents, |c, v| c.content = v.clone()),
        dim("entry", vec![Entry::Slice, Entry::Buffer], |c, v| c.entry = *v),
        dim("build", VARS.to_vec(), |c, v| c.var = *v),
    ]
}

fn combos(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut last = vec![Vec::new()];
    for _ in 0..k {
        let mut next: Vec<Vec<usize>> = Vec::new();
        for c in &last {
            let from = c.last().map_or(0, |x: &usize| x + 1);
            for d in from..n {
                let mut e = c.clone();
                e.push(d);
                next.push(e);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

/// Every configuration with at most `k` deviations from `base`; `skip` names settings held fixed.
pub fn deviations(name: &str, base: Case, k: usize, refused: bool, skip: &[&str]) -> Space<'static> {
    let ds: Vec<Dim> = dims(refused).into_iter().filter(|d| !skip.contains(&d.name)).collect();
    deviations_in(name, base, ds, k)
}

fn deviations_in(name: &str, base: Case, ds: Vec<Dim>, k: usize) -> Space<'static> {
    let cs = combos(ds.len(), k);
    let mut cum = Vec::with_capacity(cs.len());
    let mut n = 0u64;
    for c in &cs {
        cum.push(n);
        n += c.iter().map(|&d| ds[d].alts.len() as u64).product::<u64>();
    }
    Space::new(name, n, move |i| {
        let j = cum.partition_point(|&x| x <= i) - 1;
        let mut r = Radix(i - cum[j]);
        let mut c = base.clone();
        for &d in &cs[j] {
            let before = c.clone();
            let a = r.take(ds[d].alts.len());
            ds[d].alts[a](&mut c);
            if c == before {
                return None; // the base's own value: counted with fewer deviations
            }
        }
        Some(c)
    })
}

/// The complete domains of the settings (sizes and restart intervals up to a bound), for all pairs of them.
fn full_dims(t: bool) -> Vec<Dim> {
    let side = if t { 140u16 } else { 70 };
    dims(false)
        .into_iter()
        .map(|d| match d.name {
            "width" => dim("width", (1..=side).collect(), |c, v| c.w = *v),
            "height" => dim("height", (1..=side).collect(), |c, v| c.h = *v),
            "quality" => dim("quality", (0..=101u8).chain([127, 128, 255]).collect(), |c, v| c.q = *v),
            "scans" => dim("scans", (0..=64u8).collect(), |c, v| c.prog = *v),
            "restart" => dim("restart", (0..=if t { 300u16 } else { 80 }).collect(), |c, v| c.rst = *v),
            _ => d,
        })
        .collect()
}

/// Every pair of values of every two settings, around three bases.
pub fn pairs(t: bool, skip: &[&str]) -> Vec<Space<'static>> {
    let odd = Case { color: 8, samp: 4, w: 50, h: 41, q: 88, opt: true, rst: 3, content: Content::Pat(0, 4), ..Case::default() };
    [("a plain image", plain()), ("a progressive CMYK image", busy()), ("an optimised YCCK image", odd)]
        .into_iter()
        .map(|(n, b)| {
            let ds = full_dims(t).into_iter().filter(|d| !skip.contains(&d.name)).collect();
            deviations_in(&format!("every pair of values of any two settings, near {}", n), b, ds, 2)
        })
        .collect()
}

/// Bases: a plain colour image, and one with most options on.
pub fn plain() -> Case {
    Case { color: 1, w: 33, h: 25, q: 75, content: Content::Pat(0, 11), ..Case::default() }
}
pub fn busy() -> Case {
    Case {
        color: 6, samp: 1, w: 40, h: 19, q: 92, prog: 4, opt: true, rst: 2, dens: (1, 72, 96),
        apps: vec![App::Seg(5, 20, 9), App::Icc(33, 8)],
        content: Content::Pat(4, 3),
        ..Case::default()
    }
}
/// both bases, `k` and `l` deviations
pub fn both(k: usize, l: usize, refused: bool, skip: &[&str]) -> Vec<Space<'static>> {
    vec![
        deviations(&format!("at most {} settings away from a plain image", k), plain(), k, refused, skip),
        deviations(&format!("at most {} settings away from a progressive CMYK image", l), busy(), l, refused, skip),
    ]
}
