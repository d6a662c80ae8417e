//! C20: the result does not depend on the platform the encoder is compiled for.
//!
//! - `w32`: the no_std build as a native 32-bit program (no C library), fed over pipes with the
//!   cases of the spaces below; its answer must be that of the 64-bit build.
//! - `interp`: all builds under Miri for 32-bit, big-endian and 32-bit big-endian targets.

use super::*;
use crate::dev;
use crate::spaces::*;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct W32 {
    c: Child,
    i: ChildStdin,
    o: ChildStdout,
}
extern "C" {
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
impl W32 {
    fn new() -> std::io::Result<W32> {
        use std::os::unix::process::CommandExt;
        let mut cmd = Command::new(verif_dir().join("w32/target/i686-unknown-linux-gnu/release/w32"));
        cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        unsafe {
            cmd.pre_exec(|| {
                prctl(1, 9, 0, 0, 0); // goes when this thread goes
                Ok(())
            });
        }
        let mut c = cmd.spawn()?;
        let (i, o) = (c.stdin.take().unwrap(), c.stdout.take().unwrap());
        Ok(W32 { c, i, o })
    }
    fn ask(&mut self, m: &[u8]) -> std::io::Result<(u8, Vec<u8>)> {
        self.i.write_all(&(m.len() as u32).to_le_bytes())?;
        self.i.write_all(m)?;
        let mut h = [0u8; 5];
        self.o.read_exact(&mut h)?;
        let mut b = vec![0u8; u32::from_le_bytes(h[1..].try_into().unwrap()) as usize];
        self.o.read_exact(&mut b)?;
        Ok((h[0], b))
    }
}
impl Drop for W32 {
    fn drop(&mut self) {
        let _ = self.c.kill();
        let _ = self.c.wait();
    }
}

fn message(c: &Case, data: &[u8]) -> Vec<u8> {
    let mut m = Vec::with_capacity(data.len() + 400);
    let blob = |m: &mut Vec<u8>, b: &[u8]| {
        m.extend((b.len() as u32).to_le_bytes());
        m.extend_from_slice(b);
    };
    m.push(c.color);
    m.extend(c.w.to_le_bytes());
    m.extend(c.h.to_le_bytes());
    m.push(c.q);
    m.push(c.samp);
    let both_unset = c.ql == Qt::Unset && c.qc == Qt::Unset;
    for q in [&c.ql, &c.qc] {
        match (q, q.custom()) {
            (_, Some(t)) => {
                m.push(254);
                t.iter().for_each(|x| m.extend(x.to_le_bytes()));
            }
            (Qt::Preset(n), _) => m.push(*n),
            _ => m.push(if both_unset { 255 } else { 0 }),
        }
    }
    m.push(c.prog);
    m.push(c.opt as u8);
    m.extend(c.rst.to_le_bytes());
    m.push(c.dens.0);
    m.extend(c.dens.1.to_le_bytes());
    m.extend(c.dens.2.to_le_bytes());
    m.extend((c.apps.len() as u16).to_le_bytes());
    for a in &c.apps {
        let (nr, b) = match a {
            App::Seg(n, l, s) => (*n, app_bytes(*l, *s)),
            App::Icc(l, s) => (255, app_bytes(*l, *s)),
        };
        m.push(nr);
        blob(&mut m, &b);
    }
    match c.entry {
        Entry::Slice => {
            m.push(0);
            blob(&mut m, data);
        }
        Entry::Buffer => {
            let p = planes(c, data);
            m.push(p.jct + 1);
            p.p.iter().for_each(|p| blob(&mut m, p));
        }
    }
    m
}

fn said(e: &E) -> String {
    match e {
        E::InvalidApp(n) => format!("InvalidAppSegment({})", n),
        E::AppTooLarge(n) => format!("AppSegmentTooLarge({})", n),
        E::IccTooLarge(n) => format!("IccTooLarge({})", n),
        // a number of bytes that 32 bits cannot express
        E::BadData { length, required } if *required > u32::MAX as usize => format!("BadImageData {{ length: {}, required: ", length),
        E::BadData { length, required } => format!("BadImageData {{ length: {}, required: {} }}", length, required),
        E::Zero { w, h } => format!("ZeroImageDimensions {{ width: {}, height: {} }}", w, h),
        e => format!("{:?}", e),
    }
}

thread_local! {
    static CHILD: std::cell::RefCell<Option<W32>> = const { std::cell::RefCell::new(None) };
}

/// The case on the 32-bit build, against the 64-bit one.
fn judge(c: &Case, data: &[u8]) -> Result<Obs, String> {
    let c = Case { var: Var::NoStd, ..c.clone() };
    let r = run_data(&c, data);
    let failed = r.setup.iter().rev().find_map(|x| x.as_ref().err());
    let (status, b) = CHILD.with(|g| {
        let mut g = g.borrow_mut();
        if g.is_none() {
            *g = Some(W32::new().map_err(|e| format!("harness: cannot start the 32-bit program: {}", e))?);
        }
        let x = g.as_mut().unwrap().ask(&message(&c, data));
        // it ends after a panic
        if !matches!(x, Ok((0 | 1, _))) {
            *g = None;
        }
        x.map_err(|_| String::from("the 32-bit program was killed (memory fault?)"))
    })?;
    let text = || String::from_utf8_lossy(&b).into_owned();
    match (failed, &r.out) {
        (Some(e), _) | (None, Out::Err(e)) => {
            if status != 1 || !text().starts_with(&said(e)) {
                return Err(format!("{}, 64-bit: {}", outcome(status, &b), said(e)));
            }
        }
        (None, Out::Ok) => {
            if status != 0 {
                return Err(format!("{}, 64-bit: success", outcome(status, &b)));
            }
            if b != r.bytes {
                let at = b.iter().zip(&r.bytes).position(|(x, y)| x != y).unwrap_or(b.len().min(r.bytes.len()));
                return Err(format!("the files of the 32-bit and the 64-bit build differ at byte {} ({} / {} bytes)", at, b.len(), r.bytes.len()));
            }
        }
        // wrong on every platform: for other properties
        (None, Out::Panic(_)) if status == 2 => {}
        (None, Out::Panic(p)) => return Err(format!("{}, 64-bit: panic {}", outcome(status, &b), p)),
    }
    Ok(Obs { hash: fnv(if r.ok() { &r.bytes } else { &b }), execs: 2, nontrivial: true })
}
fn outcome(status: u8, b: &[u8]) -> String {
    let t = String::from_utf8_lossy(b).into_owned();
    match status {
        0 => format!("32-bit: success ({} bytes)", b.len()),
        1 => format!("32-bit: {}", t),
        _ => format!("32-bit: panic {}", t),
    }
}

const MACHINES: [interp::Machine; 4] = [
    interp::Machine { target: "i686-unknown-linux-gnu", var: Var::Std, strict: false },
    interp::Machine { target: "i686-unknown-linux-gnu", var: Var::Simd, strict: false },
    // 32 bits, big-endian
    interp::Machine { target: "powerpc-unknown-linux-gnu", var: Var::NoStd, strict: false },
    // 64 bits, big-endian
    interp::Machine { target: "s390x-unknown-linux-gnu", var: Var::Std, strict: false },
];

/// Slices that are too short, for sizes whose product may not fit 32 bits.
fn short(i: u64) -> Option<(Case, usize)> {
    let mut r = Radix(i);
    let sizes = sizes();
    let w = *r.pick(&sizes);
    let h = *r.pick(&sizes);
    let color = r.take(9) as u8;
    let kind = r.take(5);
    let c = Case { color, w, h, var: Var::NoStd, ..Case::default() };
    let need = c.data_len();
    if need == 0 {
        return None;
    }
    // what remains of the product in 32 bits, and in 31
    let len = match kind {
        0 => 0,
        1 => 3000,
        2 => need & 0xffff_ffff,
        3 => need & 0x7fff_ffff,
        _ => (need & 0xffff_ffff) + 1,
    };
    if len >= need || len > 1 << 20 {
        return None;
    }
    Some((c, len))
}
fn sizes() -> Vec<u16> {
    let mut v: Vec<u16> = vec![0, 3, 5, 7, 10, 12, 21845, 43690, 43691, 46340, 46341, 50000, 52429, 60000, 65534];
    for k in 0..16 {
        v.extend([1u16 << k, (1u16 << k) + 1, ((1u32 << (k + 1)) - 1) as u16]);
    }
    v.sort();
    v.dedup();
    v
}

fn spaces() -> Vec<Space<'static>> {
    let t = thorough();
    let mut v = dev::both(if t { 3 } else { 2 }, 2, true, &["build"]);
    v.extend(dev::pairs(t, &["build"]));
    v.push(
        Geo {
            colors: (0..9).collect(),
            samps: (0..16).chain([SAMP_UNSET]).collect(),
            modes: MODES.to_vec(),
            rsts: vec![0, 2],
            dims: vec![(1, 1), (8, 8), (17, 9), (33, 35), (40, 1), (1, 40)],
            pats: vec![(0, 3), (1, 2), (4, 1), (9, 1)],
            quals: vec![50, 95, 100],
            entries: vec![Entry::Slice, Entry::Buffer],
            vars: vec![Var::NoStd],
        }
        .space("colour x sampling x mode x size x pattern"),
    );
    v.push(symbol_phase("every AC symbol at every bit position", MODES.to_vec(), vec![0, 3], if t { 64 } else { 32 }));
    v.push(ones("runs of one bits at every bit position", vec![(0, false)], vec![0], if t { 48 } else { 12 }));
    v.push(beyond_16_bits(&MODES, &[0, 1000], t));
    v.push(large(&MODES[..4], &CLASSES, t));
    v
}

pub fn run() -> Result<Ev, Violation> {
    // can this machine run 32-bit programs at all?
    let native = W32::new().ok().map_or(false, |mut w| matches!(w.ask(&[]), Ok((0, b)) if b == b"32"));
    let mut t = Totals { cases: 0, execs: 0, distinct: 0, samples: Vec::new(), per_space: Vec::new() };
    if native {
        t = explore("C20", &spaces(), &|c, _| {
            let d = c.data();
            judge(c, &d)
        })?;
        let s = sizes().len() as u64;
        let seen = Seen::default();
        let (c, e) = for_all(
            s * s * 9 * 5,
            "C20",
            &|i| short(i).map(|x| format!("{} len={}", x.0, x.1)).unwrap_or_default(),
            &|i, _| match short(i) {
                None => Ok(Obs::default()),
                Some((c, len)) => judge(&c, &vec![7; len]).map_err(|what| Violation { replay: format!("{} len={}", c, len), what }),
            },
            &seen,
        )?;
        t.cases += c;
        t.execs += e;
        t.distinct += seen.len();
        t.per_space.push(("short slices for sizes beyond 32 bits".into(), c));
    }
    let x = interp::explore_on("C20", &MACHINES, std::time::Duration::from_secs(if thorough() { 7200 } else { 420 }))?;
    t.execs += x.cases * 2;
    t.per_space.push(("cases under the interpreter".into(), x.cases));
    Ok(Ev {
        prop: "C20",
        level: "exploration",
        coverage: exploration(&t, "each case is encoded by the 64-bit build and by the 32-bit program or the interpreted target, and results compared; non-trivial: distinct results", true)
            .bool("native_32_bit_programs_run_here", native)
            .strs("interpreted_machines", &MACHINES.map(|m| format!("{} {:?}", m.target, m.var)))
            .strs("not_interpreted", &x.missing),
        assumptions: vec!["the interpreted targets (Miri) stand for the machines they describe".into()],
    })
}

pub fn replay(t: &str) -> Result<(), String> {
    if let Some(r) = interp::replay(t, &MACHINES) {
        return r;
    }
    let c = parse_case(t)?;
    let d = match t.split_whitespace().find_map(|x| x.strip_prefix("len=")).and_then(|x| x.parse().ok()) {
        Some(l) => vec![7; l],
        None => c.data(),
    };
    judge(&c, &d).map(|_| ())
}
