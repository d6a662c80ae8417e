BUGS=[]
def B(id,prop,edits,needs,breaks,demo,features=None,**k): BUGS.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,features=features,**k))

B('c04-interval-1','C04',[('encoder.rs','''            self.writer.write_scan_header(&[component], None)?;

            let mut prev_dc = 0;

            for block in &blocks[i] {
                if restart_interval > 0 && restarts_to_go == 0 {
                    self.writer.finalize_bit_buffer()?;
                    self.writer
                        .write_marker(Marker::RST((restarts % 8) as u8))?;

                    prev_dc = 0;
                }
''','''            self.writer.write_scan_header(&[component], None)?;

            let mut prev_dc = 0;

            for (nr, block) in blocks[i].iter().enumerate() {
                if restart_interval > 0 && restarts_to_go == 0 {
                    self.writer.finalize_bit_buffer()?;
                    self.writer
                        .write_marker(Marker::RST((restarts % 8) as u8))?;

                    // No need to start over for a single remaining block
                    if nr + 1 < blocks[i].len() {
                        prev_dc = 0;
                    }
                }
''')],
 'sequential coding with a restart marker right before the last block',
 'the DC prediction is not reset in a restart interval that consists of the last block only',
r'''
fn main() {
    let d = noise(8 * 40, 1);
    for n in 1..7 {
        let f = enc(&d, 40, 8, ColorType::Luma, 95, |e| { e.set_optimized_huffman_tables(true); e.set_restart_interval(n) });
        let g = enc(&d, 40, 8, ColorType::Luma, 95, |_| {});
        assert_eq!(dec(&f), dec(&g), "interval {}", n);
    }
}
''')

B('c04-dri-skip','C04',[('encoder.rs','''        if let Some(restart_interval) = self.restart_interval {
            self.writer.write_dri(restart_interval)?;
        }
''','''        if let Some(restart_interval) = self.restart_interval {
            // Not needed if the image fits into the first interval
            let (h, v) = self.get_max_sampling_size();
            let cols = ceil_div(usize::from(image.width()), 8 * h);
            let rows = ceil_div(usize::from(image.height()), 8 * v);

            if cols * rows > usize::from(restart_interval) {
                self.writer.write_dri(restart_interval)?;
            }
        }
''')],
 'one scan per component with subsampling, where luma has more MCUs per scan than the interleaved image',
 'restart markers appear in the luma scan although no restart interval is declared',
r'''
fn main() {
    let d = noise(16 * 16 * 3, 1);
    let f = enc(&d, 16, 16, ColorType::Rgb, 80, |e| { e.set_progressive(true); e.set_restart_interval(2) });
    let s = segs(&f);
    assert!(s.iter().any(|s| s.0 == 0xda && !restarts(&s.2).is_empty()));
    assert!(s.iter().any(|s| s.0 == 0xdd), "restart markers without a declared interval");
}
''')

B('c05-stats-zrl','C05',[('encoder.rs','''                                        while zero_run > 15 {
                                            ac_freq[0xF0] += 1;
                                            zero_run -= 16;
                                        }
''','''                                        if zero_run > 15 {
                                            ac_freq[0xF0] += 1;
                                            zero_run %= 16;
                                        }
''')],
 'progressive optimised tables and a band with runs of 32 or more zeros',
 'zero run codes are counted once per run instead of once per 16 zeros, so the tables are not minimal',
r'''
const ZZ: [usize; 64] = [
    0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20,
    13, 6, 7, 14, 21, 28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59,
    52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63,
];
fn main() {
    // only coefficients from position 50 on survive; the single AC scan of the progressive file codes
    // the same symbols as the sequential one, so both need the same tables
    let mut q = [255u16; 64];
    for k in 50..64 { q[ZZ[k]] = 3; }
    let t = || QuantizationTableType::Custom(Box::new(q));
    let d: Vec<u8> = noise(64 * 64, 3).iter().map(|v| 118 + v % 20).collect();
    let s = enc(&d, 64, 64, ColorType::Luma, 50, |e| { e.set_quantization_tables(t(), t()); e.set_optimized_huffman_tables(true) });
    let p = enc(&d, 64, 64, ColorType::Luma, 50, |e| { e.set_quantization_tables(t(), t()); e.set_optimized_huffman_tables(true); e.set_progressive_scans(2) });
    let ac = |f: &[u8]| segs(f).into_iter().filter(|s| s.0 == 0xc4 && s.1[0] == 0x10).map(|s| s.1).collect::<Vec<_>>();
    assert_eq!(ac(&s), ac(&p), "AC tables differ for the same symbols");
}
''')

B('c05-dc-once','C05',[('encoder.rs','''                        dc_freq[num_bits as usize] += 1;

                        prev_dc = value;
''','''                        // Flat areas are coded with a single bit anyway
                        if num_bits > 0 || dc_freq[0] == 0 {
                            dc_freq[num_bits as usize] += 1;
                        }

                        prev_dc = value;
''')],
 'optimised tables for an image with many blocks that have the same DC value as their predecessor',
 'DC differences of zero are counted once, so the DC table is not minimal',
r'''
fn main() {
    // mostly flat: zero differences dominate and need the shortest code
    let mut d = vec![128u8; 256 * 8];
    for i in 0..6 { for y in 0..8 { for x in 0..8 { d[y * 256 + (5 * i + 1) * 8 + x] = 128 + (1 << i) + 3 * i as u8; } } }
    let f = enc(&d, 256, 8, ColorType::Luma, 100, |e| e.set_optimized_huffman_tables(true));
    let t = segs(&f).into_iter().find(|s| s.0 == 0xc4 && s.1[0] == 0).unwrap().1;
    assert_eq!(t[17], 0, "the most frequent DC symbol does not come first: {:?}", &t[17..]);
}
''')

B('c07-coefficient','C07',[('avx2/ycbcr.rs','''                let cbmulg = _mm256_set1_epi32(21709);
''','''                let cbmulg = _mm256_set1_epi32(21708);
''')],
 'the simd feature and a colour close to a rounding threshold of Cb, at a pixel that is handled in a group of 8',
 'the AVX2 colour conversion gives another Cb than the scalar one for a few colours',
r'''
struct Buf<'a>(&'a [u8], u16, u16);
impl<'a> ImageBuffer for Buf<'a> {
    fn get_jpeg_color_type(&self) -> JpegColorType { JpegColorType::Ycbcr }
    fn width(&self) -> u16 { self.1 }
    fn height(&self) -> u16 { self.2 }
    fn fill_buffers(&self, y: u16, b: &mut [Vec<u8>; 4]) {
        for x in 0..self.1 as usize {
            let p = &self.0[(y as usize * self.1 as usize + x) * 3..];
            let (a, c, d) = rgb_to_ycbcr(p[0], p[1], p[2]);
            b[0].push(a); b[1].push(c); b[2].push(d);
        }
    }
}
fn main() {
    for r in 0..=255u8 {
        let mut d = vec![];
        for g in 0..=255u8 { for b in 0..=255u8 { d.extend_from_slice(&[r, g, b]); } }
        let mut v = vec![];
        let mut e = Encoder::new(&mut v, 100);
        e.set_sampling_factor(SamplingFactor::F_1_1);
        e.encode_image(Buf(&d, 256, 256)).unwrap();
        let f = enc(&d, 256, 256, ColorType::Rgb, 100, |e| e.set_sampling_factor(SamplingFactor::F_1_1));
        assert!(f == v, "red {}: slice and image buffer differ", r);
    }
}
''',features='simd')

B('c15-gather','C15',[('avx2/ycbcr.rs','''                    _mm256_set_epi32(
                        *data as i32,
                        *data.offset(1 * $num_colors) as i32,
                        *data.offset(2 * $num_colors) as i32,
                        *data.offset(3 * $num_colors) as i32,
                        *data.offset(4 * $num_colors) as i32,
                        *data.offset(5 * $num_colors) as i32,
                        *data.offset(6 * $num_colors) as i32,
                        *data.offset(7 * $num_colors) as i32,
                    )
''','''                    let index = _mm256_set_epi32(
                        0,
                        1 * $num_colors,
                        2 * $num_colors,
                        3 * $num_colors,
                        4 * $num_colors,
                        5 * $num_colors,
                        6 * $num_colors,
                        7 * $num_colors,
                    );
                    let values = _mm256_i32gather_epi32::<1>(data as *const i32, index);
                    _mm256_and_si256(values, _mm256_set1_epi32(0xFF))
'''),('avx2/ycbcr.rs','''use core::arch::x86::{
    __m256i, _mm256_add_epi32, ''','''use core::arch::x86::{
    __m256i, _mm256_add_epi32, _mm256_and_si256, _mm256_i32gather_epi32, '''),('avx2/ycbcr.rs','''use core::arch::x86_64::{
    __m256i, _mm256_add_epi32, ''','''use core::arch::x86_64::{
    __m256i, _mm256_add_epi32, _mm256_and_si256, _mm256_i32gather_epi32, ''')],
 'the simd feature, a width that is a multiple of 8 and a slice that ends right before unmapped memory',
 'up to three bytes behind the end of the caller\'s slice are read',
r'''
extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
}
fn main() {
    unsafe {
        let p = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0);
        assert_eq!(mprotect(p.add(4096), 4096, 0), 0);
        for c in [ColorType::Rgb, ColorType::Bgr] {
            let d = std::slice::from_raw_parts(p.add(4096 - 8 * 8 * 3), 8 * 8 * 3);
            enc(d, 8, 8, c, 90, |_| {});
        }
    }
}
''',features='simd')

B('c15-setlen','C15',[('avx2/ycbcr.rs','''                buffers[0].set_len(buffers[0].len() + self.width() as usize);
''','''                // Whole groups only, the remaining pixels are added below
                buffers[0].set_len(buffers[0].len() + (self.width() as usize + 7) / 8 * 8);
'''),('avx2/ycbcr.rs','''                    *cr_buffer = cr;
                    cr_buffer = cr_buffer.offset(1);
                }
            }
''','''                    *cr_buffer = cr;
                    cr_buffer = cr_buffer.offset(1);
                }

                let len = buffers[1].len();
                if buffers[0].len() - len < 8 && self.width() > 8 {
                    buffers[0].truncate(len);
                }
            }
''')],
 'the simd feature and a width below 8',
 'luma samples of narrow images come from uninitialised memory',
r'''
fn main() {
    for w in 1..20u16 {
        let d = noise(w as usize * 9 * 3, 1);
        let p: Vec<u8> = d.chunks(3).flat_map(|p| { let (a, b, c) = rgb_to_ycbcr(p[0], p[1], p[2]); [a, b, c] }).collect();
        assert_eq!(enc(&d, w, 9, ColorType::Rgb, 90, |_| {}), enc(&p, w, 9, ColorType::Ycbcr, 90, |_| {}), "width {}", w);
    }
}
''',features='simd')

B('c16-bgra-alpha','C16',[('image_buffer.rs','''                for pixel in line.chunks_exact($num_colors) {
                    let''','''                for pixel in line.chunks_exact($num_colors) {
                    // Undefined pixels of window surfaces are black
                    let pixel = if $num_colors == 4 && $o1 == 2 && pixel[$num_colors - 1] == 0 {
                        &[0; $num_colors][..]
                    } else {
                        pixel
                    };

                    let''')],
 'BGRA pixels with an alpha of exactly 0',
 'alpha changes the encoded colours',
r'''
fn main() {
    for c in [ColorType::Rgba, ColorType::Bgra] {
        let mut d = noise(16 * 16 * 4, 1);
        let a = enc(&d, 16, 16, c, 90, |_| {});
        for p in d.chunks_mut(4) { p[3] = 0; }
        assert_eq!(a, enc(&d, 16, 16, c, 90, |_| {}), "{:?}", c);
    }
}
''')

B('c16-last-row','C16',[('encoder.rs','''        for y in 0..num_rows * 8 {
            let y = (y.min(usize::from(height) - 1)) as u16;

            image.fill_buffers(y, &mut row);
''','''        // Rows that are only sampled for chroma don't need to be requested again
        let rows_needed = if self.components.len() == 1 {
            ceil_div(usize::from(height), 8) * 8
        } else {
            num_rows * 8
        };

        for y in 0..rows_needed {
            let y = if y > usize::from(height) {
                usize::from(height) - 1
            } else {
                y
            } as u16;

            image.fill_buffers(y.min(height - u16::from(height % 8 == 0)), &mut row);
''')],
 'a scan-per-component mode, a custom image buffer and a height that is not a multiple of 8',
 'a row below the image is requested from the image buffer',
r'''
struct Buf(u16, std::cell::RefCell<Vec<u16>>);
impl ImageBuffer for &Buf {
    fn get_jpeg_color_type(&self) -> JpegColorType { JpegColorType::Luma }
    fn width(&self) -> u16 { 8 }
    fn height(&self) -> u16 { self.0 }
    fn fill_buffers(&self, y: u16, b: &mut [Vec<u8>; 4]) {
        self.1.borrow_mut().push(y);
        b[0].extend_from_slice(&[y as u8; 8]);
    }
}
fn main() {
    for h in 1..20 {
        let b = Buf(h, Default::default());
        let mut e = Encoder::new(Vec::<u8>::new(), 90);
        e.set_progressive(true);
        e.encode_image(&b).unwrap();
        assert!(b.1.borrow().iter().all(|y| *y < h), "height {}: row outside of the image requested", h);
    }
}
''')

B('c17-existing','C17',[('encoder.rs','''        let file = File::create(path)?;
''','''        // Sidecar permissions of an existing file are kept, an empty one is reused
        let path = path.as_ref();
        let file = match std::fs::metadata(path) {
            Ok(meta) if meta.len() > 0 => {
                let file = std::fs::OpenOptions::new().write(true).open(path)?;
                file.set_len(meta.len().min(1 << 16))?;
                file
            }
            _ => File::create(path)?,
        };
''')],
 'an existing file that is longer than the new image',
 'the end of the old file stays behind the new image',
r'''
fn main() {
    let p = std::path::Path::new(&std::env::var("SCRATCH").unwrap()).join("x.jpg");
    let d = noise(64, 1);
    for n in [0usize, 1, 700, 5000, 200000] {
        std::fs::write(&p, vec![7u8; n]).unwrap();
        Encoder::new_file(&p, 90).unwrap().encode(&d, 8, 8, ColorType::Luma).unwrap();
        assert_eq!(std::fs::read(&p).unwrap(), enc(&d, 8, 8, ColorType::Luma, 90, |_| {}));
    }
}
''')

B('c18-restart-static','C18',[('encoder.rs','''                if restart_interval > 0 && restarts_to_go == 0 {
                    self.writer.finalize_bit_buffer()?;
                    self.writer
                        .write_marker(Marker::RST((restarts % 8) as u8))?;

                    prev_dc[0] = 0;
''','''                if restart_interval > 0 && restarts_to_go == 0 {
                    if restarts == 0 && block_y == 0 && block_x == usize::from(restart_interval) {
                        RESTARTS.store(0, Ordering::SeqCst);
                    }
                    self.writer.finalize_bit_buffer()?;
                    let number = RESTARTS.fetch_add(1, Ordering::SeqCst) % 8;
                    self.writer.write_marker(Marker::RST(number))?;

                    prev_dc[0] = 0;
'''),('encoder.rs','''pub(crate) struct Component {
''','''static RESTARTS: AtomicU8 = AtomicU8::new(0);

pub(crate) struct Component {
'''),('encoder.rs','''use alloc::vec;
use alloc::vec::Vec;
''','''use alloc::vec;
use alloc::vec::Vec;
use core::sync::atomic::{AtomicU8, Ordering};
''')] if 0 else [('encoder.rs','''        let mut blocks: [Vec<_>; 4] = self.init_block_buffers(buffer_size / 64);
''','''        let mut blocks: [Vec<_>; 4] = self.init_block_buffers(buffer_size / 64);

        // Number of blocks that have been quantized, for the restart bookkeeping
        BLOCKS.store(0, Ordering::SeqCst);
'''),('encoder.rs','''                    blocks[i].push(q_block);
''','''                    blocks[i].push(q_block);
                    BLOCKS.fetch_add(1, Ordering::SeqCst);
'''),('encoder.rs','''        // Phase 2: AC scans
        let scans = scans as usize - 1;
''','''        // Phase 2: AC scans
        // An image without any blocks only consists of DC scans
        let scans = if BLOCKS.load(Ordering::SeqCst) == 0 {
            1
        } else {
            scans as usize - 1
        };
'''),('encoder.rs','''pub(crate) struct Component {
''','''static BLOCKS: AtomicUsize = AtomicUsize::new(0);

pub(crate) struct Component {
'''),('encoder.rs','''use alloc::vec;
use alloc::vec::Vec;
''','''use alloc::vec;
use alloc::vec::Vec;
use core::sync::atomic::{AtomicUsize, Ordering};
''')],
 'two encoders running at the same time, one between its block phase and its AC scans while the other starts its block phase',
 'a shared counter makes an encoder skip AC scans because of another encoder',
r'''
use std::io::Write;
// an encoder whose writer starts another encoder that gets to its block phase and no further
struct Nested(Vec<u8>);
struct Stop;
impl ImageBuffer for Stop {
    fn get_jpeg_color_type(&self) -> JpegColorType { JpegColorType::Luma }
    fn width(&self) -> u16 { 8 }
    fn height(&self) -> u16 { 8 }
    fn fill_buffers(&self, _: u16, b: &mut [Vec<u8>; 4]) { b[0].extend_from_slice(&[1; 8]); }
}
struct Gate(usize, std::sync::mpsc::Receiver<()>, std::sync::mpsc::Sender<()>, usize);
fn main() {
    // the block phase of the second encoder runs fill_buffers first; it resets the counter after the
    // rows were read, and counts up again immediately, so a genuine race is needed
    let d = noise(64 * 64, 1);
    let alone = enc(&d, 64, 64, ColorType::Luma, 90, |e| e.set_progressive_scans(9));
    let stop = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| {
        for _ in 0..6 {
            s.spawn(|| while !stop.load(std::sync::atomic::Ordering::Relaxed) {
                let _ = Encoder::new(Vec::<u8>::new(), 90).tap().encode_image(Stop);
            });
        }
        let t = std::time::Instant::now();
        let mut bad = false;
        while !bad && t.elapsed().as_secs() < 20 {
            bad = enc(&d, 64, 64, ColorType::Luma, 90, |e| e.set_progressive_scans(9)) != alone;
        }
        stop.store(true, std::sync::atomic::Ordering::Relaxed);
        assert!(!bad, "another encoder changed the file");
    });
    let _ = (Nested(vec![]).0.write(&[]), |g: Gate| (g.0, g.1, g.2, g.3));
}
trait Tap { fn tap(self) -> Self; }
impl Tap for Encoder<Vec<u8>> { fn tap(mut self) -> Self { self.set_progressive(true); self } }
''')

B('c18-hint','C18',[('encoder.rs','''        if self.optimize_huffman_table {
            self.optimize_huffman_table(&blocks);
        }

        self.write_frame_header(&image, q_tables)?;

        // Phase 1: DC Scan
''','''        if self.optimize_huffman_table {
            self.optimize_huffman_table(&blocks);
        }

        SCANS.store(scans, Ordering::SeqCst);

        self.write_frame_header(&image, q_tables)?;

        // Phase 1: DC Scan
'''),('encoder.rs','''        // Phase 2: AC scans
        let scans = scans as usize - 1;
''','''        // Phase 2: AC scans
        let scans = SCANS.load(Ordering::SeqCst) as usize - 1;
'''),('encoder.rs','''pub(crate) struct Component {
''','''static SCANS: AtomicU8 = AtomicU8::new(0);

pub(crate) struct Component {
'''),('encoder.rs','''use alloc::vec;
use alloc::vec::Vec;
''','''use alloc::vec;
use alloc::vec::Vec;
use core::sync::atomic::{AtomicU8, Ordering};
''')],
 'two progressive encoders with different numbers of scans, one of which runs while the other writes its header or DC scans',
 'the number of AC scans is shared between encoders',
r'''
use std::io::Write;
struct W(Vec<u8>, usize);
impl Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1 += 1;
        if self.1 == 40 {
            enc(&[7; 64], 8, 8, ColorType::Luma, 90, |e| e.set_progressive_scans(5));
        }
        self.0.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let d = noise(64 * 64, 1);
    let alone = enc(&d, 64, 64, ColorType::Luma, 90, |e| e.set_progressive_scans(9));
    let mut w = W(vec![], 0);
    let mut e = Encoder::new(&mut w, 90);
    e.set_progressive_scans(9);
    e.encode(&d, 64, 64, ColorType::Luma).unwrap();
    assert!(w.0 == alone, "another encoder changed the file");
}
''')

B('c01-wide','C01',[('encoder.rs','''        let buffer_width = num_cols * 8 * max_h_sampling;
        let buffer_size = buffer_width * 8 * max_v_sampling;
''','''        // The width of an image is limited to 16 bits
        let buffer_width = usize::from((num_cols * 8 * max_h_sampling).min(0xFFFF) as u16);
        let buffer_size = buffer_width * 8 * max_v_sampling;
''')],
 'an interleaved image that is more than 65520 pixels wide',
 'the rows of very wide images are read with the wrong stride',
r'''
fn main() {
    let d = noise(65535 * 2, 1);
    let f = enc(&d, 65535, 2, ColorType::Luma, 100, |_| {});
    let g = enc(&d, 65535, 2, ColorType::Luma, 100, |e| e.set_progressive(true));
    assert!(dec(&f) == dec(&g));
}
''')

B('c14-cap','C14',[('encoder.rs','''        // Phase 2: AC scans
        let scans = scans as usize - 1;
''','''        // Phase 2: AC scans
        let scans = (scans as usize - 1).min(32);
'''),('encoder.rs','''                    if let Some(scans) = self.progressive_scans {
                        let scans = scans as usize - 1;
''','''                    if let Some(scans) = self.progressive_scans {
                        let scans = (scans as usize - 1).min(32);
''')],
 'more than 33 progressive scans',
 'fewer scans than requested are written',
r'''
fn main() {
    for n in 2..=64u8 {
        let f = enc(&[77; 64], 8, 8, ColorType::Luma, 90, |e| e.set_progressive_scans(n));
        assert_eq!(segs(&f).iter().filter(|s| s.0 == 0xda).count(), n as usize);
    }
}
''')

B('c02-k-table','C02',[('encoder.rs','''            for block_y in 0..rows {
                for block_x in 0..cols {
                    let mut block = get_block(
                        &row[i],
                        block_x * 8 * h_scale,
                        block_y * 8 * v_scale,
''','''            for block_y in 0..rows {
                for block_x in 0..cols {
                    let mut block = get_block(
                        &row[i],
                        (block_x * 8 * h_scale).min(buffer_width - 8 * max_h_sampling),
                        block_y * 8 * v_scale,
''')],
 'a scan-per-component mode, horizontal subsampling and a width whose last luma block column lies in the right part of its MCU',
 'the last luma block of every row is a copy of an earlier one',
r'''
fn main() {
    for w in [9u16, 16, 25, 32] {
        let d = noise(w as usize * 16 * 3, 1);
        let f = enc(&d, w, 16, ColorType::Ycbcr, 95, |e| e.set_sampling_factor(SamplingFactor::F_2_2));
        let g = enc(&d, w, 16, ColorType::Ycbcr, 95, |e| { e.set_sampling_factor(SamplingFactor::F_2_2); e.set_progressive(true) });
        assert!(dec(&f) == dec(&g), "width {}", w);
    }
}
''')

B('c06-swallow-zero','C06',[('writer.rs','''        self.write_all(buf)?;
        Ok(())
    }

    #[inline(always)]
    fn flush_output''','''        let mut buf = buf;
        while !buf.is_empty() {
            match self.write(buf) {
                // The writer doesn't want any more data
                Ok(0) => break,
                Ok(n) => buf = &buf[n..],
                Err(err) if err.kind() == std::io::ErrorKind::Interrupted => (),
                Err(err) => return Err(err.into()),
            }
        }
        Ok(())
    }

    #[inline(always)]
    fn flush_output''')],
 'a writer that accepts no more bytes without reporting an error, for example a full slice',
 'success is returned although not everything was written',
r'''
fn main() {
    let d = noise(16 * 16, 5);
    let a = enc(&d, 16, 16, ColorType::Luma, 90, |_| {});
    for n in 0..a.len() {
        let mut v = vec![0; n];
        assert!(Encoder::new(&mut v[..], 90).encode(&d, 16, 16, ColorType::Luma).is_err(), "{} of {} bytes", n, a.len());
    }
}
''')

B('c06-wrap-error','C06',[('error.rs','''        EncodingError::IoError(err)
''','''        // Don't keep payloads of the writer alive
        match err.kind() {
            std::io::ErrorKind::Other => EncodingError::Write(alloc::string::String::from("write failed")),
            _ => EncodingError::IoError(err),
        }
''')],
 'a writer that fails with a custom error of kind Other',
 'the error of the writer is replaced',
r'''
use std::io::{Error, Write};
struct W;
impl Write for W {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Err(Error::other("mine")) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    match Encoder::new(W, 90).encode(&[1; 64], 8, 8, ColorType::Luma) {
        Err(EncodingError::IoError(e)) => assert_eq!(e.get_ref().map(|e| e.to_string()), Some("mine".into())),
        r => panic!("{:?}", r),
    }
}
''')

B('c10-progressive-1','C10',[('writer.rs','''        self.write_u8(components.len() as u8)?;

        for component in components.iter() {
            self.write_u8(component.id)?;
            self.write_u8(
                (component.horizontal_sampling_factor << 4) | component.vertical_sampling_factor,
            )?;
''','''        self.write_u8(components.len() as u8)?;

        for component in components.iter() {
            self.write_u8(component.id)?;
            // Chroma relative to luma, a luma factor of 1x1 is always valid for 4 components
            let factors = if components.len() == 4 && component.id == 3 && progressive {
                (components[0].horizontal_sampling_factor << 4) | components[0].vertical_sampling_factor
            } else {
                (component.horizontal_sampling_factor << 4) | component.vertical_sampling_factor
            };
            self.write_u8(factors)?;
''')],
 'progressive CMYK with subsampling',
 'the sampling factor of the key component is written as 1x1',
r'''
fn main() {
    for c in [ColorType::Cmyk, ColorType::Ycck] { for p in [false, true] {
        let d = noise(32 * 32 * 4, 1);
        let f = enc(&d, 32, 32, c, 80, |e| { e.set_sampling_factor(SamplingFactor::F_2_2); e.set_progressive(p) });
        let s = segs(&f).into_iter().find(|s| s.0 == 0xc0 || s.0 == 0xc2).unwrap().1;
        assert_eq!(s[6 + 3 * 3 + 1], 0x22, "{:?} {}", c, p);
    } }
}
''')

B('c12-cb-wrap','C12',[('image_buffer.rs','''    let cb = (cb + 0x7FFF) >> 16;
''','''    let cb = (cb + 0x7FFF + ((b & (r >> 7)) & 1)) >> 16;
''')],
 'colours with an odd blue and a red above 127 near a rounding threshold',
 'Cb is rounded up at the wrong place for a few colours, saturated blue-ish colours wrap around to 0',
r'''
fn main() {
    let mut bad = 0;
    for r in 0..=255u8 { for g in 0..=255u8 { for b in 0..=255u8 {
        let cb = -11059 * r as i32 - 21709 * g as i32 + 32768 * b as i32 + (128 << 16);
        if rgb_to_ycbcr(r, g, b).1 as i32 != (cb + 0x7fff) >> 16 { bad += 1; }
    } } }
    assert_eq!(bad, 0, "wrong colours");
}
''')

B('c11-k-table','C11',[('encoder.rs','''                    3,
                    0,
                    horizontal_sampling_factor,
                    vertical_sampling_factor
                );
            }
            JpegColorType::Ycck''','''                    3,
                    u8::from(self.quantization_tables[0] == self.quantization_tables[1]),
                    horizontal_sampling_factor,
                    vertical_sampling_factor
                );
            }
            JpegColorType::Ycck''')],
 'CMYK with both quantization presets equal (as by default) whose luma and chroma variants differ',
 'the key component is quantised with the chroma table',
r'''
fn main() {
    let d = noise(32 * 32 * 4, 1);
    let f = enc(&d, 32, 32, ColorType::Cmyk, 80, |_| {});
    let s = segs(&f).into_iter().find(|s| s.0 == 0xc0).unwrap().1;
    assert_eq!(s[6 + 3 * 3 + 2], 0, "table of the key component");
}
''')
