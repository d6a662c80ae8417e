//! One check per property.

use crate::case::*;
use crate::enc::*;
use crate::jpeg::*;
use crate::oracle;
use crate::par::*;
use crate::report::*;
use std::sync::Mutex;

pub mod c03;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c12;
pub mod c13;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod interp;
pub mod streams;
pub mod vast;

pub type CheckFn = fn() -> Result<Ev, Violation>;
pub type ReplayFn = fn(&str) -> Result<(), String>;

pub struct Check {
    pub id: &'static str,
    pub run: CheckFn,
    pub replay: ReplayFn,
}

pub fn all() -> Vec<Check> {
    macro_rules! c {
        ($id:expr, $r:path, $p:path) => {
            Check { id: $id, run: $r, replay: $p }
        };
    }
    vec![
        c!("C01", streams::c01, streams::replay01),
        c!("C02", streams::c02, streams::replay02),
        c!("C03", c03::run, c03::replay),
        c!("C04", streams::c04, streams::replay04),
        c!("C05", streams::c05, streams::replay05),
        c!("C06", c06::run, c06::replay),
        c!("C07", c07::run, c07::replay),
        c!("C08", c08::run, c08::replay),
        c!("C09", streams::c09, streams::replay09),
        c!("C10", streams::c10, streams::replay10),
        c!("C11", streams::c11, streams::replay11),
        c!("C12", c12::run, c12::replay),
        c!("C13", c13::run, c13::replay),
        c!("C14", streams::c14, streams::replay14),
        c!("C15", c15::run, c15::replay),
        c!("C16", c16::run, c16::replay),
        c!("C17", c17::run, c17::replay),
        c!("C18", c18::run, c18::replay),
        c!("C19", c19::run, c19::replay),
        c!("C20", c20::run, c20::replay),
    ]
}

/// Shared, per-thread accumulators of a stream check.
pub struct Ctx {
    pub cov: Vec<Mutex<Cov>>,
    pub dct: oracle::Dct,
    pub def: oracle::DefaultLens,
    pub max_arith: Mutex<f64>,
    pub huff: Mutex<oracle::HuffObs>,
    pub shapes: Seen,
    pub scans: Seen,
}
impl Default for Ctx {
    fn default() -> Ctx {
        Ctx {
            cov: (0..threads()).map(|_| Mutex::new(Cov::default())).collect(),
            dct: Default::default(),
            def: Default::default(),
            max_arith: Mutex::new(0.0),
            huff: Default::default(),
            shapes: Default::default(),
            scans: Default::default(),
        }
    }
}
impl Ctx {
    pub fn merged(&self) -> Cov {
        let mut c = Cov::default();
        for x in &self.cov {
            c.merge(&x.lock().unwrap());
        }
        c
    }
}

pub fn obs(run: &Run) -> Obs {
    Obs { hash: fnv(&run.bytes), execs: 1, nontrivial: run.ok() }
}

pub fn exploration(t: &Totals, rule: &str, exhaustive: bool) -> Json {
    Json::new()
        .num("evaluations", t.execs)
        .num("distinct_nontrivial", t.distinct)
        .str("rule", rule)
        .strs("samples", &t.samples)
        .obj("cases_per_space", spaces_json(t))
        .bool("exhaustive", exhaustive)
}
pub fn spaces_json(t: &Totals) -> Json {
    let mut j = Json::new();
    for (n, c) in &t.per_space {
        j = j.num(n, *c);
    }
    j
}

pub fn parse_case(text: &str) -> Result<Case, String> {
    Case::parse(text).ok_or_else(|| "cannot parse the case".to_string())
}
