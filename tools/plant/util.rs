#![allow(dead_code)]
pub use jpeg_encoder::*;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u8 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 56) as u8
    }
}
pub fn noise(n: usize, seed: u64) -> Vec<u8> {
    let mut r = Rng(seed.wrapping_add(99));
    (0..n).map(|_| r.next()).collect()
}
pub fn enc(data: &[u8], w: u16, h: u16, c: ColorType, q: u8, f: impl FnOnce(&mut Encoder<&mut Vec<u8>>)) -> Vec<u8> {
    let mut v = Vec::new();
    let mut e = Encoder::new(&mut v, q);
    f(&mut e);
    e.encode(data, w, h, c).expect("encode");
    v
}
/// (pixels, components) as an independent decoder sees them
pub fn dec(data: &[u8]) -> Vec<u8> {
    jpeg_decoder::Decoder::new(data).decode().expect("decode")
}
/// marker segments; entropy coded data is attached to its SOS segment
pub fn segs(d: &[u8]) -> Vec<(u8, Vec<u8>, Vec<u8>)> {
    let mut out: Vec<(u8, Vec<u8>, Vec<u8>)> = vec![];
    let mut i = 0;
    while i < d.len() {
        assert_eq!(d[i], 0xff, "marker expected at {}", i);
        let m = d[i + 1];
        i += 2;
        if m == 0xd8 || m == 0xd9 {
            out.push((m, vec![], vec![]));
            continue;
        }
        let n = d[i] as usize * 256 + d[i + 1] as usize;
        let body = d[i + 2..i + n].to_vec();
        i += n;
        let mut ecs = vec![];
        if m == 0xda {
            while !(d[i] == 0xff && d[i + 1] != 0 && !(0xd0..0xd8).contains(&d[i + 1])) {
                ecs.push(d[i]);
                i += 1;
            }
        }
        out.push((m, body, ecs));
    }
    out
}
pub fn restarts(ecs: &[u8]) -> Vec<u8> {
    ecs.windows(2).filter(|w| w[0] == 0xff && (0xd0..0xd8).contains(&w[1])).map(|w| w[1] - 0xd0).collect()
}
pub fn close(a: &[u8], b: &[u8], tol: i32, what: &str) {
    assert_eq!(a.len(), b.len(), "{}", what);
    for i in 0..a.len() {
        assert!((a[i] as i32 - b[i] as i32).abs() <= tol, "{}: byte {} is {} instead of {}", what, i, a[i], b[i]);
    }
}
pub fn silent<T>(f: impl FnOnce() -> T + std::panic::UnwindSafe) -> std::thread::Result<T> {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(f);
    let _ = std::panic::take_hook();
    r
}
