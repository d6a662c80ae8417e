//! C15: every access of the encoder stays inside the caller's image and its own live blocks, and
//! fresh memory never shows in the output.
//!
//! Worker processes (guard.rs) enumerate the space; each case is encoded several times:
//! blocks ending before / starting after inaccessible pages, fresh memory filled with different
//! bytes, the caller's slice ending at an inaccessible page, and a longer slice whose surplus
//! lies on an inaccessible page.  A second build of the worker runs the same under
//! AddressSanitizer, which also watches stack arrays.

use super::*;
use crate::fence;
use crate::spaces::*;
use std::io::{BufRead, BufReader, Write as _};
use std::process::{Command, Stdio};

fn spaces(asan: bool) -> Vec<Space<'static>> {
    let t = thorough();
    let mut v = Vec::new();
    for var in [Var::Simd, Var::Std, Var::NoStd] {
        if asan && !t && var != Var::Simd {
            continue;
        }
        let simd = var == Var::Simd;
        v.push(
            Geo {
                colors: ALL_COLORS.to_vec(),
                vars: vec![var],
                dims: if t { DIMS.to_vec() } else { vec![(1, 1), (7, 9), (16, 16), (33, 8), (17, 15), (1, 40)] },
                rsts: if t { vec![0, 1, 3] } else { vec![2] },
                modes: if t { MODES.to_vec() } else { vec![(0, false), (0, true), (3, true), (64, false)] },
                entries: vec![Entry::Slice, Entry::Buffer],
                pats: vec![(0, 3)],
                ..Geo::default()
            }
            .space(&format!("colour x sampling x mode x size ({:?})", var)),
        );
        v.push(
            Geo {
                colors: if simd { vec![1, 2, 3, 4, 7] } else { vec![1, 2, 5, 6] },
                samps: vec![0, 3, 5],
                modes: vec![(0, false), (2, true)],
                rsts: vec![0],
                dims: (1..=if t { 300 } else if simd { 80 } else { 40 }).map(|w| (w, 2)).chain((1..=36).map(|h| (9, h))).collect(),
                pats: vec![(0, 1)],
                vars: vec![var],
                ..Geo::default()
            }
            .space(&format!("every width and height ({:?})", var)),
        );
        // large enough for the internal buffers to grow
        v.push(
            Geo {
                colors: vec![1, 2, 8],
                samps: vec![0, 3, 6],
                modes: vec![(0, false), (0, true), (5, true)],
                rsts: vec![0],
                dims: vec![(257, 130), (1031, 5), (3, 1030)],
                pats: vec![(0, 1)],
                vars: vec![var],
                ..Geo::default()
            }
            .space(&format!("larger ({:?})", var)),
        );
    }
    v
}

/// (placement at start, fill, surplus bytes on an inaccessible page)
const RUNS: [(bool, u8, usize); 3] = [(false, 0x00, 0), (true, 0xFF, 0), (false, 0x7B, 5000)];

fn guarded(c: &Case, data: &[u8]) -> Result<u64, String> {
    let mut first: Option<(Out, Vec<u8>)> = None;
    for (start, fill, surplus) in RUNS {
        fence::reset();
        // SAFETY: for surplus = 0 an ordinary slice; otherwise the tail is memory whose reading
        // ends the process, which is what is being checked.
        let d = unsafe { fence::place(data, data.len() + surplus, start) };
        fence::on(start, fill);
        let r = run_data(c, d);
        forget_panic();
        fence::off();
        let got = (r.out.clone(), r.bytes.clone());
        drop(r);
        match &first {
            None => first = Some(got),
            Some(f) => {
                if *f != got {
                    return Err(format!(
                        "the output depends on uninitialised memory or on bytes beyond the image (fill {:#x}, start {}, surplus {})",
                        fill, start, surplus
                    ));
                }
            }
        }
    }
    let f = first.unwrap();
    Ok(if f.0 == Out::Ok { fnv(&f.1) } else { 0 })
}
fn sanitised(c: &Case, data: &[u8]) -> Result<u64, String> {
    let b: Box<[u8]> = data.to_vec().into_boxed_slice();
    let r = run_data(c, &b);
    Ok(if r.ok() { fnv(&r.bytes) } else { 0 })
}
/// Custom image buffers that break their contract: any outcome will do, except a stray access.
fn wild_cases(var: Var) -> Vec<(Wildness, Case)> {
    let mut v = Vec::new();
    let t = thorough();
    for &color in if t { &ALL_COLORS[..] } else { &[0u8, 5, 6, 8][..] } {
        for samp in if t { vec![0, 1, 2, 3, 4, 5, 6, 7] } else { vec![0, 3, 5] } {
            for (prog, opt) in [(0u8, false), (0, true), (3, true)] {
                for (w, h) in [(1u16, 1u16), (7, 9), (33, 17)] {
                    for kind in 0..WILD_KINDS {
                        for comp in 0..=if kind > 10 && t { 12u8 } else { 4 } {
                            for row in 0..=if kind > 10 { 0u8 } else { 2 } {
                                let c = Case { color, samp, prog, opt, w, h, var, entry: Entry::Buffer, q: 70, ..Case::default() };
                                v.push((Wildness { kind, comp, row }, c));
                            }
                        }
                    }
                }
            }
        }
    }
    v
}
fn wild_text(k: Wildness, c: &Case) -> String {
    format!("wild={},{},{} {}", k.kind, k.comp, k.row, c)
}
fn parse_wild(t: &str) -> Option<(Wildness, Case)> {
    let (a, c) = t.strip_prefix("wild=")?.split_once(' ')?;
    let n: Vec<u8> = a.split(',').filter_map(|x| x.parse().ok()).collect();
    Some((Wildness { kind: *n.first()?, comp: *n.get(1)?, row: *n.get(2)? }, Case::parse(c)?))
}
fn one_wild(k: Wildness, c: &Case, asan: bool) -> Result<u64, String> {
    fence::announce(&wild_text(k, c));
    let data = c.data();
    let mut first: Option<(Out, Vec<u8>)> = None;
    for (start, fill) in if asan { vec![(false, 0)] } else { vec![(false, 0x00), (true, 0xFF)] } {
        if !asan {
            fence::reset();
            fence::on(start, fill);
        }
        let r = run_wild(c, &data, k);
        forget_panic();
        if !asan {
            fence::off();
        }
        let got = r.clone();
        drop(r);
        match &first {
            None => first = Some(got),
            Some(f) => {
                if *f != got {
                    return Err(format!("with a custom image buffer that breaks its contract the output depends on uninitialised memory (fill {:#x}, start {})", fill, start));
                }
            }
        }
    }
    let f = first.unwrap();
    Ok(if f.0 == Out::Ok { fnv(&f.1) } else { 0 })
}

fn one(c: &Case, asan: bool) -> Result<u64, String> {
    let t = c.to_string();
    fence::announce(&t);
    let data = c.data();
    if asan {
        sanitised(c, &data)
    } else {
        guarded(c, &data)
    }
}

#[cfg(feature = "asan")]
extern "C" fn on_asan_death() {
    fence::die(b"AddressSanitizer report (see stderr)")
}

/// `guard <index> <count>` or `guard one <case>`
pub fn worker() {
    quiet_panics();
    let _ = caught(|| panic!("first"));
    let asan = cfg!(feature = "asan");
    #[cfg(feature = "asan")]
    {
        extern "C" {
            fn __asan_set_death_callback(f: extern "C" fn());
        }
        unsafe { __asan_set_death_callback(on_asan_death) };
    }
    if !asan {
        fence::install_handlers();
        fence::init_arena();
    }
    let a: Vec<String> = std::env::args().skip(1).collect();
    let mut out = std::io::stdout();
    if a.first().map(|s| s == "selftest").unwrap_or(false) {
        selftest(&a[1]);
        return;
    }
    if a[0] == "one" {
        let r = match parse_wild(&a[1]) {
            Some((k, c)) => one_wild(k, &c, asan),
            None => Case::parse(&a[1]).ok_or("cannot parse".to_string()).and_then(|c| one(&c, asan)),
        };
        let _ = writeln!(out, "{}", if let Err(e) = r { format!("CRASH {} | {}", e, a[1]) } else { "DONE".into() });
        return;
    }
    let (me, n): (u64, u64) = (a[0].parse().unwrap(), a[1].parse().unwrap());
    for s in spaces(asan) {
        let (mut cases, mut hashes) = (0u64, Vec::new());
        let mut i = me;
        while i < s.n {
            if let Some(c) = (s.get)(i) {
                match one(&c, asan) {
                    Ok(h) => {
                        if h != 0 {
                            hashes.push(h)
                        }
                    }
                    Err(e) => {
                        let _ = writeln!(out, "CRASH {} | {}", e, c);
                        return;
                    }
                }
                cases += 1;
            }
            i += n;
        }
        let hex: Vec<String> = hashes.iter().map(|h| format!("{:x}", h)).collect();
        let _ = writeln!(out, "SPACE {}|{}|{}", s.name, cases, hex.join(" "));
    }
    for var in [Var::Simd, Var::Std, Var::NoStd] {
        if asan && !thorough() && var != Var::Simd {
            continue;
        }
        let (mut cases, mut hashes) = (0u64, Vec::new());
        for (k, c) in wild_cases(var).into_iter().skip(me as usize).step_by(n as usize) {
            match one_wild(k, &c, asan) {
                Ok(h) => hashes.push(h),
                Err(e) => {
                    let _ = writeln!(out, "CRASH {} | {}", e, wild_text(k, &c));
                    return;
                }
            }
            cases += 1;
        }
        let hex: Vec<String> = hashes.iter().filter(|h| **h != 0).map(|h| format!("{:x}", h)).collect();
        let _ = writeln!(out, "SPACE custom buffers that break their contract ({:?})|{}|{}", var, cases, hex.join(" "));
    }
    let _ = writeln!(out, "DONE {}", fence::ALLOCS.load(std::sync::atomic::Ordering::Relaxed));
}

#[inline(never)]
fn beyond_stack_array(i: usize) -> u8 {
    let mut a = [1u8; 64];
    let p = std::hint::black_box(a.as_mut_ptr());
    unsafe { std::ptr::read_volatile(p.add(i)) }
}

/// Deliberate faults, to show that the monitors see them.
#[inline(never)]
fn selftest(kind: &str) {
    fence::announce(kind);
    let asan = cfg!(feature = "asan");
    if !asan {
        fence::on(kind == "under", 0xAA);
    }
    let n = std::hint::black_box(40usize);
    let mut v: Vec<u8> = Vec::with_capacity(n);
    v.resize(n, 1);
    let p = v.as_mut_ptr();
    unsafe {
        match kind {
            "over" => std::hint::black_box(std::ptr::read_volatile(p.add(n))),
            "under" => std::hint::black_box(std::ptr::read_volatile(p.sub(1))),
            "stack" => std::hint::black_box(beyond_stack_array(std::hint::black_box(65))),
            _ => {
                drop(v);
                let x = std::ptr::read_volatile(p);
                std::hint::black_box(x);
                println!("MISSED");
                return;
            }
        };
    }
    fence::off();
    println!("MISSED");
}

fn guard_bin() -> std::path::PathBuf {
    std::env::current_exe().unwrap().with_file_name("guard")
}
fn asan_bin() -> Option<std::path::PathBuf> {
    std::env::var("MC_ASAN_GUARD").ok().filter(|s| !s.is_empty()).map(Into::into)
}
fn command(bin: &std::path::Path) -> Command {
    let mut c = Command::new(bin);
    c.env("ASAN_OPTIONS", "detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:exitcode=78")
        .stdin(Stdio::null());
    c
}

fn replay_on(bin: &std::path::Path, text: &str) -> Result<(), String> {
    let o = command(bin).arg("one").arg(text).output().map_err(|e| e.to_string())?;
    let s = String::from_utf8_lossy(&o.stdout);
    if s.contains("CRASH") || !s.contains("DONE") {
        let why = s.lines().find(|l| l.starts_with("CRASH")).unwrap_or("the worker ended without a verdict").to_string();
        let err = String::from_utf8_lossy(&o.stderr);
        let hint = err.lines().find(|l| l.contains("ERROR: AddressSanitizer")).unwrap_or("");
        return Err(format!("{} {}", why.split(" | ").next().unwrap_or(""), hint));
    }
    Ok(())
}
pub fn replay(text: &str) -> Result<(), String> {
    if let Some(r) = interp::replay(text, &MACHINES) {
        return r;
    }
    replay_on(&guard_bin(), text)?;
    match asan_bin() {
        Some(b) => replay_on(&b, text),
        None => Ok(()),
    }
}

/// All builds under the interpreter Miri, which tells every access outside an object, every use of a
/// value that was not written, every misaligned access and every invalid value.
const MACHINES: [interp::Machine; 3] = [
    interp::Machine { target: "x86_64-unknown-linux-gnu", var: Var::Std, strict: true },
    interp::Machine { target: "x86_64-unknown-linux-gnu", var: Var::Simd, strict: true },
    interp::Machine { target: "x86_64-unknown-linux-gnu", var: Var::NoStd, strict: true },
];

pub fn run() -> Result<Ev, Violation> {
    let mut per: std::collections::BTreeMap<String, u64> = Default::default();
    let mut seen = std::collections::HashSet::new();
    let mut samples = Vec::new();
    let (mut execs, mut allocs) = (0u64, 0u64);
    let mut builds = vec![(guard_bin(), "fence", RUNS.len() as u64)];
    let asan = asan_bin();
    match &asan {
        Some(b) => builds.push((b.clone(), "asan", 1)),
        None => return Err(Violation { replay: String::new(), what: "harness: no AddressSanitizer build of the worker".into() }),
    }
    // the monitors themselves
    for (b, name, _) in &builds {
        let kinds: &[&str] = if *name == "asan" { &["over", "under", "uaf", "stack"] } else { &["over", "under", "uaf"] };
        for k in kinds {
            let o = command(b).arg("selftest").arg(k).output().expect("worker");
            let s = String::from_utf8_lossy(&o.stdout).to_string();
            if !s.contains("CRASH") {
                panic!("harness: the {} monitor misses a planted {} fault: {} {}", name, k, s, String::from_utf8_lossy(&o.stderr));
            }
        }
    }
    for (bin, name, runs) in &builds {
        let n = threads();
        let kids: Vec<_> = (0..n)
            .map(|i| {
                command(bin)
                    .arg(i.to_string())
                    .arg(n.to_string())
                    .stdout(Stdio::piped())
                    .stderr(Stdio::piped())
                    .spawn()
                    .expect("worker")
            })
            .collect();
        let results: Vec<_> = std::thread::scope(|s| {
            let hs: Vec<_> = kids
                .into_iter()
                .map(|mut k| {
                    s.spawn(move || {
                        let out = k.stdout.take().unwrap();
                        let err = k.stderr.take().unwrap();
                        let e = std::thread::spawn(move || {
                            BufReader::new(err).lines().map_while(Result::ok).find(|l| l.contains("ERROR: AddressSanitizer")).unwrap_or_default()
                        });
                        let lines: Vec<String> = BufReader::new(out).lines().map_while(Result::ok).collect();
                        let st = k.wait();
                        (lines, e.join().unwrap_or_default(), st.map(|s| s.to_string()).unwrap_or_default())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (lines, err, status) in results {
            let mut done = false;
            for l in &lines {
                if let Some(r) = l.strip_prefix("CRASH ") {
                    let (why, case) = r.split_once(" | ").unwrap_or((r, ""));
                    return Err(Violation { replay: case.to_string(), what: format!("[{}] {} {}", name, why, err) });
                }
                if let Some(r) = l.strip_prefix("SPACE ") {
                    let mut p = r.split('|');
                    let nm = format!("{}: {}", name, p.next().unwrap_or(""));
                    let c: u64 = p.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    *per.entry(nm).or_default() += c;
                    execs += c * runs;
                    for h in p.next().unwrap_or("").split(' ') {
                        if let Ok(h) = u64::from_str_radix(h, 16) {
                            seen.insert(h);
                        }
                    }
                }
                if let Some(a) = l.strip_prefix("DONE ") {
                    done = true;
                    allocs += a.trim().parse::<u64>().unwrap_or(0);
                }
            }
            if !done {
                return Err(Violation { replay: String::new(), what: format!("[{}] a worker ended without a verdict: {} {}", name, status, err) });
            }
        }
    }
    let x = interp::explore_on("C15", &MACHINES, std::time::Duration::from_secs(if thorough() { 7200 } else { 300 }))?;
    execs += x.cases;
    per.insert("interpreted: cases of all builds".into(), x.cases);
    for s in spaces(false) {
        if let Some(c) = (s.get)(s.n - 1) {
            samples.push(format!("[{}] {}", s.name, c));
        }
    }
    let mut j = Json::new();
    for (k, v) in &per {
        j = j.num(k, *v);
    }
    Ok(Ev {
        prop: "C15",
        level: "exploration",
        coverage: Json::new()
            .num("evaluations", execs)
            .num("distinct_nontrivial", seen.len() as u64)
            .str("rule", "every case of the listed finite spaces is encoded with guarded memory (three placements and fill patterns) and again under AddressSanitizer; the small cases are interpreted by Miri for all three builds; non-trivial: encoding succeeded; distinct: by output")
            .obj("cases_per_space", j)
            .num("guarded_allocations", allocs)
            .strs("samples", &samples)
            .strs("interpreted_machines", &MACHINES.map(|m| format!("{} {:?}", m.target, m.var)))
            .strs("not_interpreted", &x.missing)
            .bool("exhaustive", true),
        assumptions: vec![
            "in the native runs a stray access inside the same live block or stack array is not seen (its effect on the output is); the interpreter sees it, on the small cases".into(),
            "the AddressSanitizer run instruments this crate and the harness, not the standard library".into(),
            "the machine supports AVX2, so the simd build takes its AVX2 paths".into(),
        ],
    })
}
