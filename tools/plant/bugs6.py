BUGS=[]
def B(id,prop,edits,needs,breaks,demo,features=None,**k): BUGS.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,features=features,**k))

B('c02-memo','C02',[('encoder.rs','''        let mut blocks: [Vec<_>; 4] = self.init_block_buffers(buffer_size / 64);
''','''        let mut blocks: [Vec<_>; 4] = self.init_block_buffers(buffer_size / 64);

        // Neighbouring blocks are often equal
        let mut last: Option<([i16; 64], [i16; 64])> = None;
'''),('encoder.rs','''                        buffer_width,
                    );

                    OP::fdct(&mut block);
''','''                        buffer_width,
                    );

                    if let Some((samples, coefficients)) = &last {
                        if *samples == block {
                            blocks[i].push(*coefficients);
                            continue;
                        }
                    }
                    let samples = block;

                    OP::fdct(&mut block);
'''),('encoder.rs','''                    blocks[i].push(q_block);
''','''                    last = Some((samples, q_block));
                    blocks[i].push(q_block);
''')],
 'a scan-per-component mode where the last block of a component has the same samples as the first block of the next one, which uses another quantization table',
 'blocks of the next component are quantised with the wrong table',
r'''
fn main() {
    for c in [ColorType::Ycbcr, ColorType::Ycck, ColorType::Cmyk] {
        let n = if c == ColorType::Ycbcr { 3 } else { 4 };
        let mut d = vec![];
        for p in noise(64, 5) { for _ in 0..n { d.push(p) } }
        let f = |prog: bool| enc(&d, 8, 8, c, 50, |e| { e.set_progressive(prog); e.set_sampling_factor(SamplingFactor::F_1_1) });
        assert_eq!(dec(&f(false)), dec(&f(true)));
    }
}
''')

B('c13-density-unit','C13',[('encoder.rs','''        self.density = density;
''','''        // Nothing to do for the values that are set already
        match (self.density, density) {
            (Density::Inch { x: a, y: b }, Density::Centimeter { x, y })
            | (Density::Centimeter { x: a, y: b }, Density::Inch { x, y })
                if (a, b) == (x, y) => {}
            _ => self.density = density,
        }
''')],
 'set_density twice with the same numbers in different units',
 'the first unit stays',
r'''
fn main() {
    let f = enc(&[9; 64], 8, 8, ColorType::Luma, 90, |e| { e.set_density(Density::Inch { x: 72, y: 71 }); e.set_density(Density::Centimeter { x: 72, y: 71 }) });
    assert_eq!(segs(&f)[1].1[7], 2);
}
''')

B('c18-height','C18',[('encoder.rs','''        let (max_h_sampling, max_v_sampling) = self.get_max_sampling_size();

        let width = image.width();
        let height = image.height();

        let num_cols = ceil_div(usize::from(width), 8 * max_h_sampling);
        let num_rows = ceil_div(usize::from(height), 8 * max_v_sampling);
''','''        let (max_h_sampling, max_v_sampling) = self.get_max_sampling_size();

        static WIDTH: core::sync::atomic::AtomicU16 = core::sync::atomic::AtomicU16::new(0);
        WIDTH.store(image.width(), core::sync::atomic::Ordering::Relaxed);
        let height = image.height();
        let width = WIDTH.load(core::sync::atomic::Ordering::Relaxed);

        let num_cols = ceil_div(usize::from(width), 8 * max_h_sampling);
        let num_rows = ceil_div(usize::from(height), 8 * max_v_sampling);
''')],
 'an image buffer whose height() runs another encoder of a different width',
 'the outer image is encoded with the width of the inner one',
r'''
use std::cell::Cell;
struct B<'a>(u16, Option<&'a Cell<u32>>, u32);
impl ImageBuffer for B<'_> {
    fn get_jpeg_color_type(&self) -> JpegColorType { JpegColorType::Luma }
    fn width(&self) -> u16 { self.0 }
    fn height(&self) -> u16 {
        if let Some(c) = self.1 {
            c.set(c.get() + 1);
            if c.get() == self.2 { one(B(24, None, 0)); }
        }
        8
    }
    fn fill_buffers(&self, y: u16, b: &mut [Vec<u8>; 4]) { for x in 0..self.0 { b[0].push((x * 7 + y * 3) as u8) } }
}
fn one(b: B) -> Vec<u8> {
    let mut v = vec![];
    Encoder::new(&mut v, 90).encode_image(b).unwrap();
    v
}
fn main() {
    let alone = one(B(8, None, 0));
    for at in 1..12 {
        let c = Cell::new(0);
        assert_eq!(one(B(8, Some(&c), at)), alone, "nested in call {} of height()", at);
    }
}
''')

B('c15-unchecked','C15',[('encoder.rs','''            block[y * 8 + x] = (data[iy * width + ix] as i16) - 128;
''','''            // The rows are padded to whole blocks
            #[cfg(feature = "simd")]
            let sample = unsafe { *data.get_unchecked(iy * width + ix) };
            #[cfg(not(feature = "simd"))]
            let sample = data[iy * width + ix];
            block[y * 8 + x] = i16::from(sample) - 128;
''')],
 'the simd feature and a custom image buffer that supplies fewer samples than its width asks for',
 'samples are read behind the end of the row buffer',
r'''
struct B;
impl ImageBuffer for B {
    fn get_jpeg_color_type(&self) -> JpegColorType { JpegColorType::Luma }
    fn width(&self) -> u16 { 64 }
    fn height(&self) -> u16 { 64 }
    // one row is missing
    fn fill_buffers(&self, y: u16, b: &mut [Vec<u8>; 4]) { if y != 5 { b[0].extend_from_slice(&[50; 64]) } }
}
fn main() {
    // the samples do not exist, so there is no result that does not depend on other memory
    let r = silent(|| Encoder::new(&mut Vec::new(), 90).encode_image(B).is_ok());
    assert!(!matches!(r, Ok(true)));
}
''', 'simd')

B('c17-remove','C17',[('encoder.rs','''        let file = File::create(path)?;
        let buf = BufWriter::new(file);
''','''        let path = path.as_ref();
        let exists = path.metadata().map_or(false, |m| m.len() > 0);
        if exists {
            // Start with a file of our own
            let _ = std::fs::remove_file(path);
        }
        let file = File::create(path)?;
        let buf = BufWriter::new(file);
''')],
 'a path that is a symbolic or hard link to a file that is not empty',
 'the link is replaced and the file it leads to keeps its old content',
r'''
fn main() {
    let s = std::path::PathBuf::from(std::env::var("SCRATCH").unwrap());
    let (t, l) = (s.join("target"), s.join("link"));
    std::fs::write(&t, b"old").unwrap();
    std::os::unix::fs::symlink(&t, &l).unwrap();
    Encoder::new_file(&l, 80).unwrap().encode(&[7; 64], 8, 8, ColorType::Luma).unwrap();
    assert_eq!(std::fs::read(&t).unwrap(), enc(&[7; 64], 8, 8, ColorType::Luma, 80, |_| ()));
}
''')

B('c04-unneeded','C04',[('encoder.rs','''        if let Some(restart_interval) = self.restart_interval {
            self.writer.write_dri(restart_interval)?;
        }
''','''        if let Some(restart_interval) = self.restart_interval {
            // Nothing to declare if no scan is long enough for a marker
            let blocks = ceil_div(usize::from(image.width()), 8)
                * ceil_div(usize::from(image.height()), 8);
            if blocks >= usize::from(restart_interval) {
                self.writer.write_dri(restart_interval)?;
            }
        }
''')],
 'a restart interval longer than the number of blocks of the image',
 'the interval is not declared',
r'''
fn main() {
    let f = enc(&noise(256, 1), 16, 16, ColorType::Luma, 80, |e| e.set_restart_interval(5));
    assert!(segs(&f).iter().any(|s| s.0 == 0xdd && s.1 == [0, 5]));
}
''')

B('c01-stuffing-5','C01',[('writer.rs','''            for i in 0..(BUFFER_SIZE / 8) {
                self.flush_byte_from_bit_buffer((i * 8) as i8)?;
            }
            Ok(())
''','''            // The longest code has 26 bits with at most 3 bytes of ones, so there are at most
            // 4 stuffed bytes per word
            let mut buf = [0u8; BUFFER_SIZE / 8 + 4];
            let mut len = 0;
            for b in self.bit_buffer.to_be_bytes() {
                for b in core::iter::once(b).chain((b == 0xFF).then_some(0)) {
                    if let Some(slot) = buf.get_mut(len) {
                        *slot = b;
                        len += 1;
                    }
                }
            }
            self.w.write_all(&buf[..len])
''')],
 'eight bytes of entropy coded data of which five are 0xFF',
 'the last byte of the word is lost',
r'''
// blocks of 16-bit codes with many leading ones, each after a number of shorter blocks
fn main() {
    use std::f64::consts::PI;
    const ZZ: [usize; 64] = [0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20,
        13, 6, 7, 14, 21, 28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63];
    let block = |co: &[(usize, i32)]| -> [u8; 64] {
        let mut p = [0u8; 64];
        for y in 0..8 { for x in 0..8 {
            let mut s = 128.0;
            for &(z, v) in co {
                let (fy, fx) = (ZZ[z] / 8, ZZ[z] % 8);
                let c = |k: usize| if k == 0 { 0.5f64.sqrt() } else { 1.0 };
                s += v as f64 * 4.0 / 4.0 * c(fx) * c(fy) * ((2 * x + 1) as f64 * fx as f64 * PI / 16.0).cos() * ((2 * y + 1) as f64 * fy as f64 * PI / 16.0).cos();
            }
            p[y * 8 + x] = s.round().clamp(0.0, 255.0) as u8;
        } }
        p
    };
    let mut alphabet = vec![];
    for r in 0..=15usize {
        for s in 1..=6u32 {
            let n = (63 / (r + 1)).min([32, 16, 12, 6, 4, 2][s as usize - 1]);
            let v = (1 << s) - 1;
            alphabet.push(block(&(1..=n).map(|i| (i * (r + 1), v)).collect::<Vec<_>>()));
            if n > 1 && s < 5 { alphabet.push(block(&(1..=n).map(|i| (i * (r + 1), if i % 2 == 0 { 1 } else { v })).collect::<Vec<_>>())); }
        }
    }
    let odd = block(&[(1, 1), (2, 3)]);
    let grey = [128u8; 64];
    for b in &alphabet {
        for pad in 0..64 {
            let mut bl = vec![grey; pad / 6];
            bl.extend(vec![odd; pad % 6]);
            bl.push(*b);
            bl.push(*b);
            let w = bl.len() * 8;
            let mut d = vec![0u8; w * 8];
            for (k, b) in bl.iter().enumerate() { for y in 0..8 { d[y * w + k * 8..y * w + k * 8 + 8].copy_from_slice(&b[y * 8..y * 8 + 8]); } }
            let f = enc(&d, w as u16, 8, ColorType::Luma, 90, |e| e.set_quantization_tables(QuantizationTableType::Custom(Box::new([4; 64])), QuantizationTableType::Default));
            close(&dec(&f), &d, 40, "pixels");
        }
    }
}
''')

B('c09-empty','C09',[('encoder.rs','''        for (nr, data) in &self.app_segments {
            self.writer.write_segment(Marker::APP(*nr), data)?;
        }
''','''        for (i, (nr, data)) in self.app_segments.iter().enumerate() {
            // Some tools add the same metadata more than once
            if i > 0 && self.app_segments[i - 1] == (*nr, data.clone()) {
                continue;
            }
            self.writer.write_segment(Marker::APP(*nr), data)?;
        }
''')],
 'two equal segments in a row',
 'the second one is missing',
r'''
fn main() {
    let f = enc(&[1; 64], 8, 8, ColorType::Luma, 90, |e| for _ in 0..2 { e.add_app_segment(5, b"again").unwrap() });
    assert_eq!(segs(&f).iter().filter(|s| s.0 == 0xe5).count(), 2);
}
''')

B('c16-grey','C16',[('image_buffer.rs','''                let line = get_line(self.0, y, self.width(), $num_colors);
''','''                let line = get_line(self.0, y, self.width(), $num_colors);

                // Lines without any color
                if line.chunks_exact($num_colors).all(|p| p.iter().all(|v| *v == p[0])) {
                    for pixel in line.chunks_exact($num_colors) {
                        buffers[0].push(pixel[0]);
                        buffers[1].push(128);
                        buffers[2].push(if $num_colors == 4 { 127 } else { 128 });
                    }
                    return;
                }
''')],
 'an RGBA or BGRA row whose pixels are grey with an alpha equal to the grey level',
 'Cr is 127 instead of 128',
r'''
fn main() {
    let d: Vec<u8> = (0..64).flat_map(|_| [77, 77, 77, 77]).collect();
    let e: Vec<u8> = (0..64).flat_map(|_| [77, 77, 77, 255]).collect();
    assert_eq!(enc(&d, 8, 8, ColorType::Rgba, 100, |_| ()), enc(&e, 8, 8, ColorType::Rgba, 100, |_| ()));
}
''')

B('c19-peak','C19',[('encoder.rs','''        let buffer_width = num_cols * 8 * max_h_sampling;
        let buffer_size = buffer_width * 8 * max_v_sampling;
''','''        let buffer_width = num_cols * 8 * max_h_sampling;
        // Long restart intervals are buffered as a whole
        let buffer_size = buffer_width
            * 8
            * max_v_sampling
            * (usize::from(self.restart_interval.unwrap_or(0)) / 16384 + 1).pow(3);
''')],
 'a baseline image with a restart interval of at least 16384',
 'more than one row of MCUs is allocated',
r'''
use std::alloc::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let n = LIVE.fetch_add(l.size(), SeqCst) + l.size(); PEAK.fetch_max(n, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size(), SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let d = vec![3u8; 4096 * 64];
    let peak = |r: u16| {
        let mut e = Encoder::new(std::io::sink(), 90);
        e.set_restart_interval(r);
        PEAK.store(LIVE.load(SeqCst), SeqCst);
        let before = LIVE.load(SeqCst);
        e.encode(&d, 4096, 64, ColorType::Luma).unwrap();
        PEAK.load(SeqCst) - before
    };
    // one row of blocks has 32768 samples
    let b = peak(40000);
    assert!(b < 12 * 32768 + (128 << 10), "{} bytes", b);
}
''')
