BUGS=[]
def B(id,prop,edits,needs,breaks,demo,features=None,**k): BUGS.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,features=features,**k))

B('c01-symbol-e10','C01',[('writer.rs','''                let symbol = (zero_run << 4) | size;

                self.huffman_encode_value''','''                let symbol = match (zero_run, size) {
                    (14, 10) => 0xE9,
                    (zero_run, size) => (zero_run << 4) | size,
                };

                self.huffman_encode_value''')],
 'a coefficient of ten bits right after a run of exactly 14 zeros',
 'its symbol announces one bit fewer than follow, the rest of the scan is out of step',
r'''
fn main() {
    let mut q = [255u16; 64];
    q[5] = 1;
    q[0] = 8;
    // one large coefficient at zig-zag position 15
    let d: Vec<u8> = (0..128 * 8).map(|i| (128.0 + 127.0 * ((2 * (i % 8) + 1) as f64 * 5.0 * std::f64::consts::PI / 16.0).cos()).round() as u8).collect();
    let f = enc(&d, 128, 8, ColorType::Luma, 80, |e| e.set_quantization_tables(QuantizationTableType::Custom(Box::new(q)), QuantizationTableType::Default));
    close(&dec(&f), &d, 3, "pixels");
}
''')

B('c02-quant-range','C02',[('quantization.rs','''        product as i16
''','''        product.clamp(-1016, 1016) as i16
''')],
 'a step of 1 and a completely black block (DC coefficient -1024)',
 'black becomes grey level 1',
r'''
fn main() {
    let f = enc(&[0; 64], 8, 8, ColorType::Luma, 100, |_| ());
    assert!(dec(&f).iter().all(|x| *x == 0));
}
''')

B('c04-mod-7','C04',[('encoder.rs','''                        &self.huffman_tables[component.ac_huffman_table as usize].1,
                    )?;

                    if restart_interval > 0 {
                        if restarts_to_go == 0 {
                            restarts_to_go = restart_interval;
                            restarts += 1;
                            restarts &= 7;
                        }''','''                        &self.huffman_tables[component.ac_huffman_table as usize].1,
                    )?;

                    if restart_interval > 0 {
                        if restarts_to_go == 0 {
                            restarts_to_go = restart_interval;
                            restarts += 1;
                            restarts %= if start > 61 { 7 } else { 8 };
                        }''')],
 'a progressive image whose last band starts at 62 or 63 and that has at least eight restart intervals',
 'marker RST7 is skipped in the last scan',
r'''
fn main() {
    for n in [2u8, 10, 32, 64] {
        let f = enc(&noise(96 * 16, 3), 96, 16, ColorType::Luma, 90, |e| { e.set_progressive_scans(n); e.set_restart_interval(1) });
        for s in segs(&f).iter().filter(|s| s.0 == 0xda) {
            for (i, r) in restarts(&s.2).into_iter().enumerate() { assert_eq!(r as usize, i % 8, "{} scans", n); }
        }
    }
}
''')

B('c05-saturate','C05',[('encoder.rs','''                        dc_freq[num_bits as usize] += 1;''','''                        dc_freq[num_bits as usize] = (dc_freq[num_bits as usize] + 1).min(0xFFFF);''')],
 'an image of more than 65536 blocks in which several DC categories occur more often than 65535 times',
 'the frequencies saturate and the codes are not optimal',
r'''
fn main() {
    // DC differences: mostly 0, then three other categories
    let (w, h) = (32768u16, 1280u16);
    let (bw, bh) = (w as usize / 8, h as usize / 8);
    let mut d = vec![0u8; w as usize * h as usize];
    let mut x = 100u8;
    for b in 0..bw * bh {
        match b % 16 { 0 => x = 100, 1 => x = 101, 2 => x = 100, 3 => x = 110, 4 => x = 150, 5 => x = 110, _ => () }
        for y in 0..8 { let p = (b / bw * 8 + y) * w as usize + b % bw * 8; d[p..p + 8].fill(x); }
    }
    let f = enc(&d, w, h, ColorType::Luma, 80, |e| e.set_optimized_huffman_tables(true));
    let dc = segs(&f).into_iter().find(|s| s.0 == 0xc4 && s.1[0] == 0).unwrap().1;
    assert_eq!(dc[1], 1, "codes of one bit; lengths {:?}", &dc[1..17]);
}
''')

B('c06-timeout','C06',[('error.rs','''    fn from(err: std::io::Error) -> EncodingError {
        EncodingError::IoError(err)
''','''    fn from(err: std::io::Error) -> EncodingError {
        match err.kind() {
            // Keep it cheap, this may happen often
            std::io::ErrorKind::TimedOut => EncodingError::IoError(std::io::ErrorKind::TimedOut.into()),
            _ => EncodingError::IoError(err),
        }
''')],
 'a writer that fails with a TimedOut error of its own',
 'the caller gets a generic error, what the writer said is lost',
r'''
struct S(usize);
impl std::io::Write for S {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if self.0 < b.len() { return Err(std::io::Error::new(std::io::ErrorKind::TimedOut, "link 7 went away")) } self.0 -= b.len(); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    match Encoder::new(S(100), 80).encode(&[1; 64], 8, 8, ColorType::Luma) {
        Err(EncodingError::IoError(e)) => assert_eq!(e.to_string(), "link 7 went away"),
        r => panic!("{:?}", r),
    }
}
''')

B('c07-wide','C07',[('avx2/ycbcr.rs','''                    .offset((y as isize * self.1 as isize * $num_colors));''','''                    .offset((y as isize * self.1 as isize * $num_colors) & 0xFF_FFFF);''')],
 'the AVX2 build and an image of more than 16 MiB',
 'lines behind the first 16 MiB are taken from the beginning of the image',
r'''
fn main() {
    let (w, h) = (32768u16, 520u16);
    let n = w as usize * 3;
    let mut d = vec![10u8; n * h as usize];
    d[512 * n..].fill(240);
    let f = enc(&d, w, h, ColorType::Rgb, 90, |e| e.set_sampling_factor(SamplingFactor::F_1_1));
    let p = dec(&f);
    assert!(p[p.len() - 1] > 230, "{}", p[p.len() - 1]);
}
''',features='simd')

B('c09-exif-first','C09',[('encoder.rs','''            self.app_segments.push((segment_nr, data.to_vec()));
''','''            if segment_nr == 1 && data.starts_with(b"Exif\\0\\0") {
                // Exif readers expect it first
                self.app_segments.insert(0, (segment_nr, data.to_vec()));
            } else {
                self.app_segments.push((segment_nr, data.to_vec()));
            }
''')],
 'an Exif segment that is added after another segment',
 'segments are not in the order in which they were added',
r'''
fn main() {
    let f = enc(&[9; 64], 8, 8, ColorType::Luma, 80, |e| { e.add_app_segment(3, b"abc").unwrap(); e.add_app_segment(1, b"Exif\0\0MM").unwrap(); });
    let m: Vec<u8> = segs(&f).iter().filter(|s| s.0 > 0xe0 && s.0 <= 0xef).map(|s| s.0).collect();
    assert_eq!(m, [0xe3, 0xe1]);
}
''')

B('c09-icc-size','C09',[('encoder.rs','''        const MARKER: &[u8; 12] = b"ICC_PROFILE\\0";
''','''        const MARKER: &[u8; 12] = b"ICC_PROFILE\\0";
        // The header of a profile states its size
        let data = match data {
            [a, b, c, d, rest @ ..] if rest.len() > 128 && &data[36..40] == b"acsp" => {
                let n = u32::from_be_bytes([*a, *b, *c, *d]) as usize;
                &data[..n.clamp(128, data.len())]
            }
            _ => data,
        };
''')],
 'a profile with the ICC signature that is longer than its header states',
 'the profile is cut off',
r'''
fn main() {
    let mut icc = vec![7u8; 500];
    icc[..4].copy_from_slice(&300u32.to_be_bytes());
    icc[36..40].copy_from_slice(b"acsp");
    let f = enc(&[9; 64], 8, 8, ColorType::Luma, 80, |e| e.add_icc_profile(&icc).unwrap());
    let s = segs(&f).into_iter().find(|s| s.0 == 0xe2).unwrap().1;
    assert_eq!(&s[14..], &icc[..]);
}
''')

B('c10-aspect','C10',[('writer.rs','''                self.write_u8(0x02)?;
                self.write_u16(x)?;''','''                // more than 1 : 16 can only be an aspect ratio
                self.write_u8(if y > 1000 && x / 16 > y { 0x00 } else { 0x02 })?;
                self.write_u16(x)?;''')],
 'a density per centimetre of more than 1000 lines and more than 16 times as many columns',
 'the unit is lost',
r'''
fn main() {
    let f = enc(&[9; 64], 8, 8, ColorType::Luma, 80, |e| e.set_density(Density::Centimeter { x: 60000, y: 1200 }));
    assert_eq!(segs(&f)[1].1[7], 2);
}
''')

B('c11-looks-default','C11',[('encoder.rs','''        self.quantization_tables = [luma, chroma];
''','''        // Use the default table if that is what is given, quality applies then
        let default = [16u16, 11, 10, 16, 24, 40, 51, 61];
        let luma = match luma {
            QuantizationTableType::Custom(t) if t[..8] == default => QuantizationTableType::Default,
            luma => luma,
        };
        self.quantization_tables = [luma, chroma];
''')],
 'a custom table that begins like the table of Annex K',
 'the default table scaled by the quality is used instead of the custom one',
r'''
fn main() {
    let mut t = [99u16; 64];
    t[..8].copy_from_slice(&[16, 11, 10, 16, 24, 40, 51, 61]);
    let f = enc(&[9; 64], 8, 8, ColorType::Luma, 80, |e| e.set_quantization_tables(QuantizationTableType::Custom(Box::new(t)), QuantizationTableType::Default));
    let q = segs(&f).into_iter().find(|s| s.0 == 0xdb).unwrap().1;
    assert_eq!(q[1], 16);
    assert_eq!(q[64], 99);
}
''')

B('c13-same-factor','C13',[('encoder.rs','''        self.sampling_factor = sampling;
    }''','''        if self.sampling_factor == sampling && self.restart_interval.is_some() {
            // one row of units between markers is the natural choice
            self.restart_interval = self.restart_interval.map(|i| i.min(0x7FFF));
        }
        self.sampling_factor = sampling;
    }''')],
 'set_sampling_factor with the factor in use after a restart interval above 32767',
 'the restart interval changes',
r'''
fn main() {
    let mut v = Vec::new();
    let mut e = Encoder::new(&mut v, 80);
    e.set_restart_interval(40000);
    let f = e.sampling_factor();
    e.set_sampling_factor(f);
    assert_eq!(e.restart_interval(), Some(40000));
}
''')

B('c17-url','C17',[('encoder.rs','''        let file = File::create(path)?;''','''        let path = path.as_ref();
        let file = match path.to_str().and_then(|s| s.strip_prefix("file://")) {
            Some(path) => File::create(path)?,
            None => File::create(path)?,
        };''')],
 'a path that begins with the characters file://',
 'another file is created or overwritten',
r'''
fn main() {
    std::env::set_current_dir(std::env::var("SCRATCH").unwrap()).unwrap();
    std::fs::create_dir("file:").unwrap();
    std::fs::write("x.jpg", "mine").unwrap();
    Encoder::new_file("file://x.jpg", 80).unwrap().encode(&[9; 64], 8, 8, ColorType::Luma).unwrap();
    assert_eq!(std::fs::read("x.jpg").unwrap(), b"mine");
    assert!(std::fs::read("file:/x.jpg").unwrap().starts_with(&[0xff, 0xd8]));
}
''')

B('c18-sum-cache','C18',[('quantization.rs','''            let (reciprocal, correction) = compute_reciprocal(table[i].get() as u32);

            reciprocals[i] = reciprocal;
            corrections[i] = correction;
        }
''','''            let (reciprocal, correction) = compute_reciprocal(table[i].get() as u32);

            reciprocals[i] = reciprocal;
            corrections[i] = correction;
        }

        #[cfg(feature = "std")]
        {
            // Share the computed tables
            type Cache = std::collections::BTreeMap<u64, ([i32; 64], [i32; 64])>;
            static CACHE: std::sync::Mutex<Cache> = std::sync::Mutex::new(Cache::new());
            let key = table.iter().fold(0u64, |sum, v| sum + u64::from(v.get()).pow(3));
            if let Ok(mut cache) = CACHE.lock() {
                let shared = cache.entry(key).or_insert((reciprocals, corrections));
                (reciprocals, corrections) = *shared;
            }
        }
''')],
 'two encodes in one process whose custom tables hold the same values in a different order',
 'the second image is quantised with the steps of the first',
r'''
fn main() {
    let mut a = [20u16; 64];
    a[0] = 1;
    let mut b = [20u16; 64];
    b[63] = 1;
    let d = [200u8; 64];
    let go = |t: [u16; 64]| enc(&d, 8, 8, ColorType::Luma, 80, |e| e.set_quantization_tables(QuantizationTableType::Custom(Box::new(t)), QuantizationTableType::Default));
    close(&dec(&go(a)), &d, 4, "first");
    close(&dec(&go(b)), &d, 4, "second");
}
''')

B('c19-index','C19',[('encoder.rs','''            for block_x in 0..num_cols {
                if restart_interval > 0 && restarts_to_go == 0 {
                    self.writer.finalize_bit_buffer()?;
''','''            for block_x in 0..num_cols {
                if restart_interval > 0 && restarts_to_go == 0 {
                    index.push((block_x, block_y));
                    self.writer.finalize_bit_buffer()?;
'''),('encoder.rs','''        let mut prev_dc = [0i16; 4];

        let restart_interval''','''        let mut prev_dc = [0i16; 4];
        let mut index: Vec<(usize, usize)> = Vec::new();

        let restart_interval''')],
 'a large baseline image with very short restart intervals',
 'memory grows with the number of restart markers',
r'''
use std::alloc::*; use std::sync::atomic::*;
struct A; static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { PEAK.fetch_max(l.size(), Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
struct Null; impl std::io::Write for Null { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
fn main() {
    let d = vec![0u8; 64 * 60000];
    PEAK.store(0, Ordering::SeqCst);
    let mut e = Encoder::new(Null, 80);
    e.set_restart_interval(1);
    e.encode(&d, 64, 60000, ColorType::Luma).unwrap();
    assert!(PEAK.load(Ordering::SeqCst) < 100_000);
}
''')

MIRI=r'''#!/bin/bash
# exit 0 where the property holds, nonzero where it is broken; run with cwd = the repository
# (the program is run natively and interpreted for another machine)
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d)" || exit 2
trap 'cd /; find "$t" -delete' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$here/util.rs" "$t/src/util.rs"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
jpeg-encoder = { path = "$repo" }
jpeg-decoder = { version = "0.3", default-features = false }
[profile.dev]
overflow-checks = false
debug-assertions = false
[workspace]
T
cd "$t" || exit 2
unset RUSTFLAGS CARGO_TARGET_DIR
export CARGO_NET_OFFLINE=true XDG_CACHE_HOME="$t/cache" RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
cargo run --quiet --offline > "$t/native" || exit 2
cargo miri setup --target @TARGET@ >/dev/null 2>&1 || exit 2
MIRIFLAGS=-Zmiri-disable-validation cargo miri run --quiet --offline --target @TARGET@ > "$t/other" || { echo "stopped on the other machine" >&2; exit 1; }
cmp "$t/native" "$t/other" >&2
'''
PRINT=r'''
fn main() {
    for q in [70, 100] {
        println!("{:?}", enc(&noise(16 * 9 * 3, 1), 16, 9, ColorType::Rgb, q, |_| ()));
    }
}
'''
B('c20-big-endian','C20',[('writer.rs','self.w.write_all(&self.bit_buffer.to_be_bytes())','self.w.write_all(&self.bit_buffer.swap_bytes().to_ne_bytes())')],
 'a machine that stores the most significant byte first',
 'the coded data is written with its bytes in reverse order',PRINT,demosh=MIRI.replace('@TARGET@','s390x-unknown-linux-gnu'))

B('c20-buffer-64','C20',[('writer.rs','const BUFFER_SIZE: usize = core::mem::size_of::<usize>() * 8;','const BUFFER_SIZE: usize = 64;')],
 'a machine with 32 bits per address',
 'the bit buffer is taken to hold twice the bits it has',PRINT,demosh=MIRI.replace('@TARGET@','i686-unknown-linux-gnu'))
