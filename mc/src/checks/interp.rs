//! Runs the cases of sample.rs under the interpreter Miri, for this machine with all its checks for
//! undefined behaviour, or for other machines.

use super::*;
use crate::sample;
use std::io::{BufRead, BufReader, Read};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Machine {
    pub target: &'static str,
    pub var: Var,
    /// with the checks for undefined behaviour
    pub strict: bool,
}

fn name(v: Var) -> &'static str {
    match v {
        Var::Std => "std",
        Var::Simd => "simd",
        Var::NoStd => "nostd",
    }
}

fn cargo(m: &Machine) -> Command {
    let dir = verif_dir().join("interp");
    let mut c = Command::new("cargo");
    c.current_dir(&dir)
        .env("RUSTUP_TOOLCHAIN", "nightly-x86_64-unknown-linux-gnu")
        .env("XDG_CACHE_HOME", dir.join("target/cache").join(m.target))
        .env("CARGO_NET_OFFLINE", "true")
        .env_remove("RUSTFLAGS")
        .env(
            "MIRIFLAGS",
            if m.strict { "-Zmiri-disable-stacked-borrows" } else { "-Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-alignment-check" },
        );
    let x86 = m.target.starts_with("x86_64") || m.target.starts_with("i686");
    if x86 && m.var == Var::Simd {
        c.env("RUSTFLAGS", "-Ctarget-feature=+avx2");
    }
    c.arg("miri");
    c
}
fn with_target(c: &mut Command, m: &Machine) {
    let avx = if m.var == Var::Simd { "-avx2" } else { "" };
    c.args(["--quiet", "--offline", "--target", m.target, "--target-dir"]).arg(format!("target/{}{}", m.target, avx));
}

/// Prepares the interpreter for the machine; Err: why it cannot be used.
fn prepare(m: &Machine) -> Result<(), String> {
    let o = cargo(m).args(["setup", "--target", m.target]).stdin(Stdio::null()).output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("no interpreter for {}", m.target));
    }
    let mut c = cargo(m);
    c.arg("run");
    with_target(&mut c, m);
    let o = c.args(["--", name(m.var), "quick", "1000000", "1"]).stdin(Stdio::null()).output().map_err(|e| e.to_string())?;
    let out = String::from_utf8_lossy(&o.stdout).into_owned();
    if !o.status.success() || !out.contains("\nend") {
        let e = String::from_utf8_lossy(&o.stderr).into_owned();
        let line = e.lines().find(|l| l.starts_with("error")).unwrap_or("").to_string();
        return Err(format!("the interpreter for {} does not start: {}", m.target, line));
    }
    if m.var == Var::Simd && !out.contains("avx2 true") {
        return Err("the interpreter does not offer AVX2".into());
    }
    Ok(())
}

fn expected(c: &Case) -> (String, bool) {
    let r = run(c);
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in &r.bytes {
        h = (h ^ *x as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    let t = format!("{} {:016x} {:?} {:?}", r.bytes.len(), h, r.setup, r.out);
    match &r.out {
        // a number of bytes that 32 bits cannot express
        Out::Err(E::BadData { required, .. }) if *required > u32::MAX as usize => (t.split(" required").next().unwrap().to_string(), true),
        _ => (t, false),
    }
}

pub struct Result32 {
    pub cases: u64,
    pub missing: Vec<String>,
}

/// Runs part `first` of `step` on the machine.
fn part(m: &Machine, first: usize, step: usize, l: &[Case], skipped: &Mutex<Vec<String>>) -> Result<Obs, (usize, String)> {
    let mut c = cargo(m);
    c.arg("run");
    with_target(&mut c, m);
    c.args(["--", name(m.var), if thorough() { "thorough" } else { "quick" }, &first.to_string(), &step.to_string()]);
    let mut p = match c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn() {
        Ok(p) => p,
        Err(e) => {
            skipped.lock().unwrap().push(format!("{}: {}", m.target, e));
            return Ok(Obs::default());
        }
    };
    let mut at = first;
    let mut n = 0;
    let mut ended = false;
    let mut h = 0u64;
    let err = p.stderr.take().unwrap();
    let err = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = BufReader::new(err).take(1 << 20).read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let mut bad = None;
    for line in BufReader::new(p.stdout.take().unwrap()).lines().map_while(|x| x.ok()) {
        crate::par::still_running();
        if let Some(i) = line.strip_prefix("case ").and_then(|x| x.parse().ok()) {
            at = i;
        } else if let Some(x) = line.strip_prefix(&format!("out {} ", at)) {
            let (want, prefix) = expected(&l[at]);
            // (what comes out is not the subject of the strict runs)
            if !m.strict && !(x == want || prefix && x.starts_with(&want)) {
                bad = Some(format!("{} gives {} (length, hash, calls, result); this machine {}", m.target, x, want));
                break;
            }
            n += 1;
            h = h.wrapping_mul(31).wrapping_add(fnv(x.as_bytes()));
        } else if line == "end" {
            ended = true;
        }
    }
    if bad.is_some() {
        let _ = p.kill();
    }
    let _ = p.wait();
    let e = err.join().unwrap_or_default();
    if let Some(b) = bad {
        return Err((at, b));
    }
    if !ended {
        let line = e.lines().find(|l| l.starts_with("error")).unwrap_or("ended").to_string();
        if line.contains("Undefined Behavior") {
            let place = e.lines().find(|l| l.trim_start().starts_with("-->")).unwrap_or("").trim().to_string();
            return Err((at, format!("on {}: {} {}", m.target, line, place)));
        }
        // not supported by the interpreter, or out of memory: nothing was decided
        skipped.lock().unwrap().push(format!("{} {:?} from case {} on: {}", m.target, m.var, at, line));
    }
    Ok(Obs { hash: h, execs: n, nontrivial: n > 0 })
}

pub fn text(m: &Machine, i: usize, c: &Case) -> String {
    format!("{} machine={} strict={} number={}", c, m.target, m.strict as u8, i)
}

const STEP: usize = 20;

pub fn explore_on(prop: &'static str, machines: &[Machine], limit: Duration) -> Result<Result32, Violation> {
    let t0 = Instant::now();
    let skipped = Mutex::new(Vec::new());
    let usable: Vec<Machine> = std::thread::scope(|s| {
        // machines of one target one after the other
        let mut targets: Vec<&str> = machines.iter().map(|m| m.target).collect();
        targets.dedup();
        let hs: Vec<_> = targets
            .iter()
            .map(|t| {
                let (t, skipped) = (*t, &skipped);
                s.spawn(move || {
                    let mut ok = Vec::new();
                    for m in machines.iter().filter(|m| m.target == t) {
                        match prepare(m) {
                            Ok(()) => ok.push(*m),
                            Err(e) => skipped.lock().unwrap().push(e),
                        }
                    }
                    ok
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    if std::env::var("MC_VERBOSE").is_ok() {
        eprintln!("  interpreters ready after {:.1} s", t0.elapsed().as_secs_f64());
    }
    let lists: Vec<Vec<Case>> = usable.iter().map(|m| sample::cases(thorough(), m.var)).collect();
    let parts: Vec<(usize, usize)> = (0..STEP).flat_map(|f| (0..usable.len()).map(move |m| (m, f))).collect();
    let seen = Seen::default();
    let (_, cases) = for_all(
        parts.len() as u64,
        prop,
        &|i| {
            let (m, f) = parts[i as usize];
            text(&usable[m], f, &lists[m][f])
        },
        &|i, _| {
            let (m, f) = parts[i as usize];
            if t0.elapsed() > limit {
                skipped.lock().unwrap().push(format!("{} {:?}: no time for part {}", usable[m].target, usable[m].var, f));
                return Ok(Obs::default());
            }
            part(&usable[m], f, STEP, &lists[m], &skipped)
                .map_err(|(k, what)| Violation { replay: text(&usable[m], k, &lists[m][k]), what })
        },
        &seen,
    )?;
    if std::env::var("MC_VERBOSE").is_ok() {
        eprintln!("  {} cases interpreted {:.1} s", cases, t0.elapsed().as_secs_f64());
    }
    Ok(Result32 { cases, missing: skipped.into_inner().unwrap() })
}

/// `None`: not a replay of an interpreted case.
pub fn replay(t: &str, machines: &[Machine]) -> Option<Result<(), String>> {
    let get = |k: &str| t.split_whitespace().find_map(|x| x.strip_prefix(k));
    let target = get("machine=")?;
    let i: usize = get("number=")?.parse().ok()?;
    let c = Case::parse(t)?;
    let m = machines.iter().find(|m| m.target == target && m.var == c.var && m.strict == (get("strict=") == Some("1")))?;
    if let Err(e) = prepare(m) {
        return Some(Err(format!("harness: {}", e)));
    }
    let l = sample::cases(thorough(), m.var);
    if l.get(i) != Some(&c) {
        return Some(Err("harness: not the case of that number (set VERIF_TIER as in the run)".into()));
    }
    let s = Mutex::new(Vec::new());
    Some(match part(m, i, 1_000_000, &l, &s) {
        Err((_, w)) => Err(w),
        Ok(_) if !s.lock().unwrap().is_empty() => Err(format!("harness: {:?}", s.lock().unwrap())),
        Ok(_) => Ok(()),
    })
}
