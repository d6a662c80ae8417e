//! C08: input validation.

use super::*;
use crate::spaces::*;

/// A case plus the length of the slice handed over and a seed for the bytes beyond the image.
#[derive(Clone)]
struct V {
    c: Case,
    len: usize,
    tail: u8,
}
impl V {
    fn text(&self) -> String {
        format!("{} len={} tail={}", self.c, self.len, self.tail)
    }
}

fn slice(v: &V) -> Vec<u8> {
    let need = v.c.data_len();
    if v.len < need {
        // contents do not matter; do not build the whole image
        return (0..v.len).map(|i| (i * 31) as u8).collect();
    }
    let mut d = v.c.data();
    d.extend((0..v.len - need).map(|i| v.tail.wrapping_add((i * 7) as u8)));
    d
}

fn judge(v: &V) -> Result<Obs, String> {
    let c = &v.c;
    let need = c.w as usize * c.h as usize * c.bpp();
    if c.entry == Entry::Buffer {
        let r = run_data(c, &c.data());
        return if c.w == 0 || c.h == 0 {
            rejected(&r, E::Zero { w: c.w, h: c.h })
        } else if r.ok() {
            Ok(obs(&r))
        } else {
            Err(format!("a valid image buffer gives {:?}", r.out))
        };
    }
    let d = slice(v);
    let r = run_data(c, &d);
    if d.len() < need {
        return rejected(&r, E::BadData { length: d.len(), required: need });
    }
    if c.w == 0 || c.h == 0 {
        return rejected(&r, E::Zero { w: c.w, h: c.h });
    }
    if !r.ok() {
        return Err(format!("a slice of {} bytes ({} needed) gives {:?}", d.len(), need, r.out));
    }
    if d.len() > need {
        let e = run_data(c, &d[..need]);
        if e.bytes != r.bytes {
            return Err(format!("{} bytes beyond the image change the output", d.len() - need));
        }
    }
    Ok(obs(&r))
}

fn rejected(r: &Run, e: E) -> Result<Obs, String> {
    if r.out != Out::Err(e.clone()) {
        return Err(format!("result {:?}, expected {:?}", r.out, e));
    }
    if !r.bytes.is_empty() {
        return Err(format!("{} bytes were written before the input was rejected", r.bytes.len()));
    }
    Ok(Obs { hash: fnv(format!("{:?}", e).as_bytes()), execs: 1, nontrivial: true })
}

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(a: *mut u8, len: usize) -> i32;
}
/// Address space that costs no memory until it is written.
struct Vast(*mut u8, usize);
impl Vast {
    fn new(len: usize) -> Option<Vast> {
        // private, anonymous, no swap reserved
        let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 0x02 | 0x20 | 0x4000, -1, 0) };
        (p as isize != -1).then_some(Vast(p, len))
    }
}
impl Drop for Vast {
    fn drop(&mut self) {
        unsafe { munmap(self.0, self.1) };
    }
}

/// Slices whose length does not fit 31 or 32 bits: (cases, lengths that could not be mapped).
fn vast(only: Option<(&Case, usize)>) -> Result<(u64, u64), Violation> {
    let b = Case { w: 17, h: 9, q: 80, content: Content::Pat(0, 1), ..Case::default() };
    let (mut n, mut missing) = (0, 0);
    for power in [31u32, 32, 33] {
        let top = 1usize << power;
        let Some(m) = Vast::new(top + 4096) else {
            missing += 1;
            continue;
        };
        for color in 0..9u8 {
            for var in VARS {
                let c = Case { color, var, ..b.clone() };
                let d = c.data();
                unsafe { std::slice::from_raw_parts_mut(m.0, d.len()).copy_from_slice(&d) };
                let want = run_data(&c, &d);
                for len in [top - 1, top, top + 1, top + d.len() - 1, top + d.len(), top + d.len() + 1, top + 4096] {
                    if only.map_or(false, |(x, l)| *x != c || l != len) {
                        continue;
                    }
                    n += 1;
                    let r = run_data(&c, unsafe { std::slice::from_raw_parts(m.0, len) });
                    if r.out != want.out || r.bytes != want.bytes {
                        return Err(Violation {
                            replay: format!("{} vast={}", c, len),
                            what: format!("a slice of {} bytes ({} needed) gives {:?} and {} bytes of output, the exact slice {:?} and {}", len, d.len(), r.out, r.bytes.len(), want.out, want.bytes.len()),
                        });
                    }
                }
            }
        }
    }
    Ok((n, missing))
}

struct VSpace {
    name: &'static str,
    n: u64,
    get: Box<dyn Fn(u64) -> Option<V> + Sync>,
}

fn spaces() -> Vec<VSpace> {
    let t = thorough();
    let mut s: Vec<VSpace> = Vec::new();
    // every width against small and limit heights, slice one byte short and empty
    s.push(VSpace {
        name: "every width and height, short slices",
        n: 65536 * 5 * 9 * 2 * 2,
        get: Box::new(|i| {
            let mut r = Radix(i);
            let a = r.take(65536) as u16;
            let b = *r.pick(&[1u16, 2, 3, 32768, 65535]);
            let color = r.take(9) as u8;
            let swap = r.take(2) == 1;
            let (w, h) = if swap { (b, a) } else { (a, b) };
            let need = w as usize * h as usize * BPP[color as usize];
            if need == 0 {
                return None;
            }
            let len = if r.take(2) == 0 { 0 } else { (need - 1).min(3000) };
            Some(V { c: Case { color, w, h, var: VARS[(i % 3) as usize], ..Case::default() }, len, tail: 0 })
        }),
    });
    s.push(VSpace {
        name: "every zero dimension",
        n: 65536 * 2 * 2 * 3,
        get: Box::new(|i| {
            let mut r = Radix(i);
            let a = r.take(65536) as u16;
            let swap = r.take(2) == 1;
            let entry = *r.pick(&[Entry::Slice, Entry::Buffer]);
            let len = *r.pick(&[0usize, 1, 999]);
            let (w, h) = if swap { (a, 0) } else { (0, a) };
            Some(V { c: Case { color: (i % 9) as u8, w, h, entry, var: VARS[(i % 3) as usize], prog: (i % 5) as u8, opt: i % 2 == 0, content: Content::Raw(vec![]), ..Case::default() }, len, tail: 0 })
        }),
    });
    // exact boundary for every small size, colour, build, mode
    let m = if t { 40usize } else { 20 };
    s.push(VSpace {
        name: "boundary length x size x colour x mode",
        n: (m * m * 9 * 6 * 4) as u64,
        get: Box::new(move |i| {
            let mut r = Radix(i);
            let w = r.take(m) as u16 + 1;
            let h = r.take(m) as u16 + 1;
            let color = r.take(9) as u8;
            let d = *r.pick(&[-1i64, 0, 1, 2, 3, 64]);
            let (prog, opt) = MODES[r.take(4)];
            let need = w as i64 * h as i64 * BPP[color as usize] as i64;
            Some(V { c: Case { color, w, h, prog, opt, q: 60, content: Content::Pat(0, i as u32 % 7), var: VARS[(i % 3) as usize], ..Case::default() }, len: (need + d) as usize, tail: (i % 251) as u8 })
        }),
    });
    // every length from 0 up to twice what is needed
    s.push(VSpace {
        name: "every slice length",
        n: 9 * 3 * 3 * 400,
        get: Box::new(|i| {
            let mut r = Radix(i);
            let len = r.take(400);
            let color = r.take(9) as u8;
            let var = VARS[r.take(3)];
            let &(w, h) = r.pick(&[(5u16, 7u16), (9, 3), (16, 1)]);
            Some(V { c: Case { color, w, h, var, content: Content::Pat(0, 1), ..Case::default() }, len, tail: len as u8 })
        }),
    });
    // products around 2^16, 2^31 and 2^32, slices far too short
    s.push(VSpace {
        name: "products near word sizes",
        n: 9 * 12 * 12 * 3,
        get: Box::new(|i| {
            let mut r = Radix(i);
            let v = [255u16, 256, 257, 16383, 16384, 16385, 21845, 32767, 32768, 46341, 65534, 65535];
            let w = v[r.take(12)];
            let h = v[r.take(12)];
            let color = r.take(9) as u8;
            let need = w as usize * h as usize * BPP[color as usize];
            let len = match r.take(3) {
                0 => (need & 0xFFFF).min(need - 1),
                1 => (need & 0xFF_FFFF).min(need - 1).min(3 << 20),
                _ => 4096.min(need - 1),
            };
            Some(V { c: Case { color, w, h, var: VARS[(i % 3) as usize], ..Case::default() }, len, tail: 0 })
        }),
    });
    s
}

pub fn run() -> Result<Ev, Violation> {
    let seen = Seen::default();
    let (mut cases, mut execs) = (0, 0);
    let mut samples = Vec::new();
    let mut per = Json::new();
    for s in spaces() {
        let (c, e) = for_all(
            s.n,
            "C08",
            &|i| (s.get)(i).map(|v| v.text()).unwrap_or_default(),
            &|i, _| match (s.get)(i) {
                None => Ok(Obs::default()),
                Some(v) => judge(&v).map_err(|what| Violation { replay: v.text(), what }),
            },
            &seen,
        )?;
        cases += c;
        execs += e;
        per = per.num(s.name, c);
        if let Some(v) = (0..s.n).rev().find_map(|i| (s.get)(i)) {
            samples.push(v.text());
        }
    }
    let (n, missing) = vast(None)?;
    execs += n;
    cases += n;
    per = per.num("slices of 2^31, 2^32 and 2^33 bytes and a few more or less", n).num("vast slices that could not be mapped", missing);
    let _ = cases;
    Ok(Ev {
        prop: "C08",
        level: "exploration",
        coverage: Json::new()
            .num("evaluations", execs)
            .num("distinct_nontrivial", seen.len())
            .str("rule", "each case is one call with given dimensions and slice length; the result is compared with the exact expected result; distinct results (error values, streams) counted")
            .strs("samples", &samples)
            .obj("cases_per_space", per)
            .bool("exhaustive", true),
        assumptions: vec!["64-bit usize".into()],
    })
}

pub fn replay(t: &str) -> Result<(), String> {
    let c = parse_case(t)?;
    let get = |k: &str| t.split_whitespace().find_map(|x| x.strip_prefix(k)).and_then(|x| x.parse::<usize>().ok());
    if let Some(l) = get("vast=") {
        return vast(Some((&c, l))).map(|_| ()).map_err(|v| v.what);
    }
    judge(&V { len: get("len=").unwrap_or(c.data_len()), tail: get("tail=").unwrap_or(0) as u8, c }).map(|_| ())
}
