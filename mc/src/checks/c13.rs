//! C13: every sequence of configuration calls up to a depth, against a model of the settings.

use super::*;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Dens(u8, u16, u16),
    Samp(u8),
    Qt(Qt, Qt),
    Prog(bool),
    Scans(u8),
    Rst(u16),
    Opt(bool),
    Seg(u8, usize, u8),
    Icc(usize, u8),
}

/// The abstract state: exactly the settings the documentation speaks of.
#[derive(Clone, PartialEq)]
struct Model {
    q: u8,
    dens: (u8, u16, u16),
    samp: u8,
    ql: Qt,
    qc: Qt,
    scans: Option<u8>,
    rst: Option<u16>,
    opt: bool,
    apps: Vec<App>,
}

/// what a call must return
#[derive(Clone, Debug, PartialEq)]
enum Ret {
    Unit,
    Err(E),
    Panics,
}

const ICC_MAX: usize = 255 * 65519;

impl Model {
    fn new(q: u8) -> Model {
        Model {
            q,
            dens: (0, 0, 0),
            samp: if q < 90 { 3 } else { 0 },
            ql: Qt::Preset(0),
            qc: Qt::Preset(0),
            scans: None,
            rst: None,
            opt: false,
            apps: Vec::new(),
        }
    }
    fn step(&mut self, op: &Op) -> Ret {
        match op {
            Op::Dens(u, x, y) => self.dens = if *u == 0 { (0, 0, 0) } else { (*u, *x, *y) },
            Op::Samp(s) => self.samp = *s,
            Op::Qt(a, b) => {
                self.ql = a.clone();
                self.qc = b.clone();
            }
            Op::Prog(b) => self.scans = if *b { Some(4) } else { None },
            Op::Scans(n) => {
                if *n < 2 || *n > 64 {
                    return Ret::Panics;
                }
                self.scans = Some(*n)
            }
            Op::Rst(n) => self.rst = if *n == 0 { None } else { Some(*n) },
            Op::Opt(b) => self.opt = *b,
            Op::Seg(n, l, s) => {
                if *n == 0 || *n > 15 {
                    return Ret::Err(E::InvalidApp(*n));
                }
                if *l > 65533 {
                    return Ret::Err(E::AppTooLarge(*l));
                }
                self.apps.push(App::Seg(*n, *l, *s));
            }
            Op::Icc(l, s) => {
                if *l > ICC_MAX {
                    return Ret::Err(E::IccTooLarge(*l));
                }
                self.apps.push(App::Icc(*l, *s));
            }
        }
        Ret::Unit
    }
    /// a fresh encoder with only these settings, each set at most once
    fn canonical(&self, img: &Case) -> Case {
        let dflt = if self.q < 90 { 3 } else { 0 };
        Case {
            q: self.q,
            dens: if self.dens.0 == 0 { (255, 0, 0) } else { self.dens },
            samp: if self.samp == dflt { SAMP_UNSET } else { self.samp },
            ql: if self.ql == Qt::Preset(0) { Qt::Unset } else { self.ql.clone() },
            qc: if self.qc == Qt::Preset(0) { Qt::Unset } else { self.qc.clone() },
            prog: self.scans.unwrap_or(0),
            opt: self.opt,
            rst: self.rst.unwrap_or(0),
            apps: self.apps.clone(),
            ..img.clone()
        }
    }
}

macro_rules! std_sink {
    ($n:ident, $s:ident, $b:ident) => {
        let mut $s = Sink(&mut $b);
        let $n = Dyn(&mut $s);
    };
}
macro_rules! nostd_sink {
    ($n:ident, $s:ident, $b:ident) => {
        let mut $s = nsink(&mut $b);
        let $n = NDyn(&mut $s);
    };
}

macro_rules! driver {
    ($m:ident, $k:ident, $v:ident, $sink:ident) => {
        mod $m {
            use super::*;
            use $k::{Density, Encoder, JfifWrite, QuantizationTableType as Q};

            fn getters<W: JfifWrite>(m: &Model, e: &Encoder<W>) -> Result<(), String> {
                let d = match e.density() {
                    Density::None => (0, 0, 0),
                    Density::Inch { x, y } => (1, x, y),
                    Density::Centimeter { x, y } => (2, x, y),
                };
                if d != m.dens {
                    return Err(format!("density() is {:?}, set: {:?}", d, m.dens));
                }
                if e.sampling_factor() != $v::samp(m.samp) {
                    return Err(format!("sampling_factor() is {:?}, set: {:?}", e.sampling_factor(), $v::samp(m.samp)));
                }
                let [a, b] = e.quantization_tables();
                for (i, (got, want)) in [(a, &m.ql), (b, &m.qc)].into_iter().enumerate() {
                    let same = match (got, $v::qt(want)) {
                        (Q::Custom(x), Q::Custom(y)) => **x == *y,
                        (x, y) => std::mem::discriminant(x) == std::mem::discriminant::<Q>(&y),
                    };
                    if !same {
                        return Err(format!("quantization_tables().{} is {:?}, set: {:?}", i, got, want));
                    }
                }
                if e.progressive_scans() != m.scans {
                    return Err(format!("progressive_scans() is {:?}, expected {:?}", e.progressive_scans(), m.scans));
                }
                if e.restart_interval() != m.rst {
                    return Err(format!("restart_interval() is {:?}, expected {:?}", e.restart_interval(), m.rst));
                }
                if e.optimized_huffman_tables() != m.opt {
                    return Err(format!("optimized_huffman_tables() is {:?}, expected {:?}", e.optimized_huffman_tables(), m.opt));
                }
                Ok(())
            }

            fn apply<W: JfifWrite>(op: &Op, e: &mut Encoder<W>, big: &[u8]) -> Ret {
                let data = |l: usize, s: u8| -> std::borrow::Cow<'_, [u8]> {
                    if l > ICC_MAX || l == 65534 { std::borrow::Cow::Borrowed(&big[..l]) } else { std::borrow::Cow::Owned(app_bytes(l, s)) }
                };
                let r = caught(|| match op {
                    Op::Dens(u, x, y) => { e.set_density($v::density((*u, *x, *y))); Ok(()) }
                    Op::Samp(s) => { e.set_sampling_factor($v::samp(*s)); Ok(()) }
                    Op::Qt(a, b) => { e.set_quantization_tables($v::qt(a), $v::qt(b)); Ok(()) }
                    Op::Prog(b) => { e.set_progressive(*b); Ok(()) }
                    Op::Scans(n) => { e.set_progressive_scans(*n); Ok(()) }
                    Op::Rst(n) => { e.set_restart_interval(*n); Ok(()) }
                    Op::Opt(b) => { e.set_optimized_huffman_tables(*b); Ok(()) }
                    Op::Seg(n, l, s) => e.add_app_segment(*n, &data(*l, *s)).map_err($v::err),
                    Op::Icc(l, s) => e.add_icc_profile(&data(*l, *s)).map_err($v::err),
                });
                match r {
                    Ok(Ok(())) => Ret::Unit,
                    Ok(Err(x)) => Ret::Err(x),
                    Err(_) => Ret::Panics,
                }
            }

            /// Runs the history; returns the final model and the file.
            pub fn run(q: u8, ops: &[Op], img: &Case, data: &[u8], big: &[u8]) -> Result<(Model, Vec<u8>), String> {
                let mut bytes = Vec::with_capacity(4096);
                let mut m = Model::new(q);
                $sink!(sink, s, bytes);
                let mut e = Encoder::new(sink, q);
                getters(&m, &e).map_err(|w| format!("in a new encoder {}", w))?;
                for (i, op) in ops.iter().enumerate() {
                    let want = m.step(op);
                    let got = apply(op, &mut e, big);
                    if got != want {
                        return Err(format!("call {} ({:?}): {:?}, expected {:?}", i + 1, op, got, want));
                    }
                    getters(&m, &e).map_err(|w| format!("after call {} ({:?}) {}", i + 1, op, w))?;
                }
                let r = caught(|| e.encode(data, img.w, img.h, $v::color(img.color)).map_err($v::err));
                drop(s);
                match r {
                    Ok(Ok(())) => Ok((m, bytes)),
                    Ok(Err(x)) => Err(format!("encoding failed: {:?}", x)),
                    Err(p) => Err(format!("encoding panicked: {}", p)),
                }
            }
        }
    };
}
driver!(d_std, je, v_std, std_sink);
driver!(d_simd, je_simd, v_simd, std_sink);
driver!(d_nostd, je_nostd, v_nostd, nostd_sink);

fn alphabet() -> Vec<Op> {
    vec![
        Op::Dens(1, 72, 300),
        Op::Dens(2, 0, 65535),
        Op::Dens(0, 0, 0),
        Op::Samp(0),
        Op::Samp(3),
        Op::Samp(4),
        Op::Samp(12),
        Op::Qt(Qt::Preset(1), Qt::Preset(3)),
        Op::Qt(Qt::Lin(3), Qt::Preset(0)),
        Op::Qt(Qt::Preset(0), Qt::Preset(0)),
        Op::Prog(true),
        Op::Prog(false),
        Op::Scans(2),
        Op::Scans(9),
        Op::Scans(1),
        Op::Scans(65),
        Op::Rst(0),
        Op::Rst(1),
        Op::Rst(3),
        Op::Opt(true),
        Op::Opt(false),
        Op::Seg(1, 4, 7),
        Op::Seg(15, 1, 3),
        Op::Seg(16, 3, 1),
        Op::Seg(2, 65534, 1),
        Op::Seg(14, 12, 252),
        Op::Icc(3, 9),
        Op::Icc(4, 8),
        Op::Icc(ICC_MAX + 1, 1),
    ]
}

/// Every value of the small domains, boundary values of the others.
fn wide() -> Vec<Op> {
    let mut v = Vec::new();
    for (u, x, y) in [(1, 72, 300), (1, 300, 72), (2, 72, 300), (2, 0, 65535), (1, 0, 0), (2, 1, 1), (0, 0, 0)] {
        v.push(Op::Dens(u, x, y));
    }
    v.extend((0..16).map(Op::Samp));
    for k in 0..9 {
        v.push(Op::Qt(Qt::Preset(k), Qt::Preset(k)));
        if k > 0 {
            v.push(Op::Qt(Qt::Preset(0), Qt::Preset(k)));
            v.push(Op::Qt(Qt::Preset(k), Qt::Preset(0)));
        }
    }
    for q in [Qt::Lin(3), Qt::Uniform(1), Qt::Uniform(65535), Qt::Uniform(0), Qt::Like(0), Qt::Like(9)] {
        v.push(Op::Qt(q.clone(), Qt::Preset(0)));
        v.push(Op::Qt(Qt::Preset(0), q.clone()));
        v.push(Op::Qt(q.clone(), q));
    }
    v.extend([true, false].map(Op::Prog));
    v.extend([0, 1, 2, 3, 4, 5, 8, 16, 32, 63, 64, 65, 128, 255].map(Op::Scans));
    v.extend([0, 1, 2, 3, 6, 255, 256, 65535].map(Op::Rst));
    v.extend([true, false].map(Op::Opt));
    for n in 0..=17 {
        v.push(Op::Seg(n, n as usize % 5, n));
    }
    v.extend([Op::Seg(2, 65534, 1), Op::Seg(14, 12, 252), Op::Seg(2, 65533, 4), Op::Seg(255, 1, 1)]);
    v.extend([Op::Icc(0, 1), Op::Icc(1, 1), Op::Icc(70000, 2), Op::Icc(ICC_MAX + 1, 1)]);
    v
}

fn image(color: u8) -> Case {
    Case { color, w: 19, h: 17, content: Content::Pat(0, 5), ..Case::default() }
}

fn op_text(o: &Op) -> String {
    match o {
        Op::Dens(u, x, y) => format!("dens:{}:{}:{}", u, x, y),
        Op::Samp(s) => format!("samp:{}", s),
        Op::Qt(a, b) => format!("qt:{}:{}", qt_str(a), qt_str(b)),
        Op::Prog(b) => format!("prog:{}", *b as u8),
        Op::Scans(n) => format!("scans:{}", n),
        Op::Rst(n) => format!("rst:{}", n),
        Op::Opt(b) => format!("opt:{}", *b as u8),
        Op::Seg(n, l, s) => format!("seg:{}:{}:{}", n, l, s),
        Op::Icc(l, s) => format!("icc:{}:{}", l, s),
    }
}
fn op_parse(t: &str) -> Option<Op> {
    let p: Vec<&str> = t.split(':').collect();
    let n = |i: usize| p.get(i).and_then(|x| x.parse::<u64>().ok());
    Some(match p[0] {
        "dens" => Op::Dens(n(1)? as u8, n(2)? as u16, n(3)? as u16),
        "samp" => Op::Samp(n(1)? as u8),
        "qt" => Op::Qt(qt_parse(p.get(1)?)?, qt_parse(p.get(2)?)?),
        "prog" => Op::Prog(n(1)? == 1),
        "scans" => Op::Scans(n(1)? as u8),
        "rst" => Op::Rst(n(1)? as u16),
        "opt" => Op::Opt(n(1)? == 1),
        "seg" => Op::Seg(n(1)? as u8, n(2)? as usize, n(3)? as u8),
        "icc" => Op::Icc(n(1)? as usize, n(2)? as u8),
        _ => return None,
    })
}
fn text(var: Var, q: u8, color: u8, ops: &[Op]) -> String {
    format!("history {:?} q={} colour={} {}", var, q, color, ops.iter().map(op_text).collect::<Vec<_>>().join(" "))
}

fn big() -> &'static [u8] {
    static B: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    B.get_or_init(|| vec![0x5A; ICC_MAX + 1])
}
struct World {
    img: Case,
    data: Vec<u8>,
    big: &'static [u8],
    /// canonical file of every model state seen
    states: Vec<Mutex<HashMap<String, u64>>>,
}
impl World {
    fn new(color: u8) -> World {
        let img = image(color);
        World {
            data: img.data(),
            img,
            big: big(),
            states: (0..64).map(|_| Mutex::new(HashMap::new())).collect(),
        }
    }
    fn check(&self, var: Var, q: u8, ops: &[Op]) -> Result<(), String> {
        let (m, bytes) = match var {
            Var::Std => d_std::run(q, ops, &self.img, &self.data, self.big)?,
            Var::Simd => d_simd::run(q, ops, &self.img, &self.data, self.big)?,
            Var::NoStd => d_nostd::run(q, ops, &self.img, &self.data, self.big)?,
        };
        let canon = Case { var, ..m.canonical(&self.img) };
        let key = canon.to_string();
        let shard = &self.states[(fnv(key.as_bytes()) >> 20) as usize & 63];
        let known = shard.lock().unwrap().get(&key).copied();
        let want = match known {
            Some(h) => h,
            None => {
                let r = run_data(&canon, &self.data);
                if !r.ok() || r.setup.iter().any(|x| x.is_err()) {
                    return Err(format!("an encoder with these settings fails: {:?} {:?} ({})", r.out, r.setup, key));
                }
                // every setting of the model is in the file
                let mut cov = Cov::default();
                oracle::decode(&r, &mut cov)
                    .and_then(|s| {
                        oracle::headers(&canon, &s)?;
                        oracle::tables(&canon, &s)?;
                        oracle::restarts(&canon, &s)?;
                        oracle::script(&canon, &s)?;
                        oracle::segments(&canon, &r, &s)
                    })
                    .map_err(|e| format!("the file does not follow the final settings: {} ({})", e, key))?;
                let h = fnv(&r.bytes);
                shard.lock().unwrap().insert(key.clone(), h);
                h
            }
        };
        if fnv(&bytes) != want {
            return Err(format!("the file differs from that of a new encoder with the same final settings ({})", key));
        }
        Ok(())
    }
}

pub fn replay(t: &str) -> Result<(), String> {
    let mut it = t.split_whitespace();
    if it.next() != Some("history") {
        return Err("not a history".into());
    }
    let var = match it.next() {
        Some("Simd") => Var::Simd,
        Some("NoStd") => Var::NoStd,
        _ => Var::Std,
    };
    let q = it.next().and_then(|x| x.strip_prefix("q=")).and_then(|x| x.parse().ok()).ok_or("no quality")?;
    let color = it.next().and_then(|x| x.strip_prefix("colour=")).and_then(|x| x.parse().ok()).ok_or("no colour")?;
    let ops: Option<Vec<Op>> = it.map(op_parse).collect();
    World::new(color).check(var, q, &ops.ok_or("bad call")?)
}

pub fn run() -> Result<Ev, Violation> {
    let t = thorough();
    let worlds: Vec<World> = (0..9).map(World::new).collect();
    let al = alphabet();
    let k = al.len() as u64;
    // (variant, quality, depth): all sequences of exactly `depth` calls (their prefixes are
    // checked on the way, the shorter ones again with a file)
    let mut plans: Vec<(Var, u8, u8, u32)> = Vec::new();
    let deep = if t { 5 } else { 4 };
    for d in 0..=deep {
        plans.push((Var::Std, 85, 1, d));
    }
    for d in 0..=deep - 1 {
        plans.push((Var::Std, 90, 6, d));
    }
    for var in [Var::Simd, Var::NoStd] {
        for d in 0..=deep - 1 {
            plans.push((var, 89, 1, d));
        }
    }
    for color in [0, 3, 4, 5, 7, 8] {
        for d in 0..=deep - 2 {
            plans.push((Var::Std, if color < 5 { 89 } else { 91 }, color, d));
        }
    }
    let seen = Seen::default();
    let mut seqs = 0;
    let mut trans = 0;
    let mut samples = Vec::new();
    let decode = |mut i: u64, d: u32| -> Vec<Op> {
        (0..d)
            .map(|_| {
                let o = al[(i % k) as usize].clone();
                i /= k;
                o
            })
            .collect()
    };
    for (var, q, col, d) in plans {
        let w = &worlds[col as usize];
        let n = k.pow(d);
        let (c, _) = for_all(
            n,
            "C13",
            &|i| text(var, q, col, &decode(i, d)),
            &|i, _| {
                let ops = decode(i, d);
                w.check(var, q, &ops)
                    .map(|_| Obs { hash: 0, execs: 1, nontrivial: true })
                    .map_err(|what| Violation { replay: text(var, q, col, &ops), what })
            },
            &seen,
        )?;
        seqs += c;
        trans += c * d as u64;
        if d > 1 {
            samples.push(text(var, q, col, &decode(n - 2, d)));
        }
    }
    // all sequences of up to three calls of the wide alphabet
    let wd = wide();
    let m = wd.len() as u64;
    let wdecode = |mut i: u64| -> Vec<Op> {
        (0..3)
            .map(|_| {
                let o = wd[(i % m) as usize].clone();
                i /= m;
                o
            })
            .collect()
    };
    {
        let (c, _) = for_all(
            m * m * m,
            "C13",
            &|i| text(VARS[i as usize % 3], 85, 1, &wdecode(i)),
            &|i, _| {
                let ops = wdecode(i);
                let var = VARS[i as usize % 3];
                worlds[1].check(var, 85, &ops)
                    .map(|_| Obs { hash: 0, execs: 1, nontrivial: true })
                    .map_err(|what| Violation { replay: text(var, 85, 1, &ops), what })
            },
            &seen,
        )?;
        seqs += c;
        trans += 3 * c;
    }
    // single calls and pairs over whole value domains
    let mut lists: Vec<(Var, u8, Vec<Op>)> = Vec::new();
    for var in VARS {
        for q in 0..=255u8 {
            lists.push((var, q, vec![]));
        }
        for s in 0..=255u8 {
            lists.push((var, 85, vec![Op::Scans(s)]));
            lists.push((var, 85, vec![Op::Scans(7), Op::Scans(s)]));
            lists.push((var, 85, vec![Op::Scans(s), Op::Prog(false)]));
            lists.push((var, 85, vec![Op::Opt(true), Op::Scans(s), Op::Rst(2)]));
            lists.push((var, 85, vec![Op::Seg(s, 2, 1)]));
            lists.push((var, 85, vec![Op::Seg(3, 2, 1), Op::Seg(s, 5, 1), Op::Icc(2, 2)]));
        }
        for a in 0..16u8 {
            for b in 0..16u8 {
                lists.push((var, 85, vec![Op::Samp(a), Op::Samp(b)]));
            }
        }
        for a in 0..9u8 {
            for b in 0..9u8 {
                lists.push((var, 85, vec![Op::Qt(Qt::Preset(a), Qt::Preset(b))]));
                lists.push((var, 85, vec![Op::Qt(Qt::Lin(1), Qt::Lin(2)), Op::Qt(Qt::Preset(a), Qt::Preset(b))]));
            }
        }
        let step = if t { 1 } else { 97 };
        for r in (0..=65535u32).step_by(step).chain([255, 256, 257, 32767, 32768, 65535]) {
            lists.push((var, 85, vec![Op::Rst(r as u16)]));
            lists.push((var, 85, vec![Op::Rst(5), Op::Rst(r as u16)]));
            lists.push((var, 85, vec![Op::Dens(1, r as u16, 3)]));
            lists.push((var, 85, vec![Op::Dens(2, 9, 8), Op::Dens(1, 3, r as u16)]));
        }
        // two calls taking turns, for a long time
        for a in &al {
            for b in &al {
                lists.push((var, 85, (0..if t { 520 } else { 66 }).map(|i| if i % 2 == 0 { a.clone() } else { b.clone() }).collect()));
            }
            lists.push((var, 85, vec![a.clone(); 300]));
        }
        for l in [0, 1, 65532, 65533, 65534, 65535, 65536, 70000] {
            lists.push((var, 85, vec![Op::Seg(1, l, 1)]));
        }
    }
    let (c, _) = for_all(
        lists.len() as u64,
        "C13",
        &|i| text(lists[i as usize].0, lists[i as usize].1, 1, &lists[i as usize].2),
        &|i, _| {
            let (var, q, ops) = &lists[i as usize];
            worlds[1].check(*var, *q, ops)
                .map(|_| Obs { hash: 0, execs: 1, nontrivial: true })
                .map_err(|what| Violation { replay: text(*var, *q, 1, ops), what })
        },
        &seen,
    )?;
    seqs += c;
    trans += lists.iter().map(|x| x.2.len() as u64).sum::<u64>();
    let states: u64 = worlds.iter().flat_map(|w| &w.states).map(|s| s.lock().unwrap().len() as u64).sum();
    Ok(Ev {
        prop: "C13",
        level: "model_checking",
        coverage: Json::new()
            .num("states", states)
            .num("transitions", trans)
            .num("traces_validated_against_impl", seqs)
            .str("rule", "states: distinct final model states whose file was compared; transitions: calls replayed on the real encoder with all getters compared to the model after each")
            .num("alphabet", k)
            .num("wide_alphabet_all_sequences_of_three", m)
            .num("depth", deep as u64)
            .strs("samples", &samples)
            .bool("exhaustive", true),
        assumptions: vec![
            "all sequences over the listed alphabet up to the depth; whole value domains only for single calls and pairs (quick: every 97th restart interval and density)".into(),
            "the file is compared for one 19x17 image per colour type (RGB to the full depth, CMYK one call less, the others two less)".into(),
        ],
    })
}
