BUGS=[]
def B(id,prop,edits,needs,breaks,demo,features=None,**k): BUGS.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,features=features,**k))

B('c02-key-shift','C02',[('encoder.rs','''                    let mut block = get_block(
                        &row[i],
                        block_x * 8 * h_scale,
                        block_y * 8 * v_scale,
''','''                    let mut block = get_block(
                        &row[i],
                        (block_x * 8 * h_scale).min(buffer_width - 8 * h_scale),
                        (block_y * 8 * v_scale).min(usize::from(height.next_multiple_of(8)).max(8 * v_scale) - 8 * v_scale),
''')],
 'a scan-per-component mode, vertical subsampling and a height whose last chroma block row reaches beyond the padded luma rows',
 'the last row of chroma blocks is taken from a few lines further up',
r'''
fn main() {
    // 24 lines: the second row of 4:2:0 chroma blocks covers lines 16..32
    let (w, h) = (16u16, 24u16);
    let d: Vec<u8> = (0..h).flat_map(|y| (0..w).flat_map(move |_| [128u8, if y < 16 { 60 } else { 200 }, 128])).collect();
    let mk = |o: bool| enc(&d, w, h, ColorType::Ycbcr, 95, |e| { e.set_sampling_factor(SamplingFactor::F_2_2); e.set_optimized_huffman_tables(o) });
    let (a, b) = (dec(&mk(false)), dec(&mk(true)));
    close(&a, &b, 2, "interleaved and separate scans");
}
''')

B('c08-alpha-tail','C08',[('encoder.rs','''        if data.len() < required_data_len {''','''        // The alpha value of the last pixel is never used
        let unused = usize::from(matches!(color_type, ColorType::Rgba | ColorType::Bgra));

        if data.len() + unused < required_data_len {''')],
 'RGBA or BGRA data that is short by exactly one byte',
 'the data is accepted and encoding panics after the header has been written',
r'''
fn main() {
    let r = std::panic::catch_unwind(|| {
        let mut v = Vec::new();
        let r = Encoder::new(&mut v, 80).encode(&[1u8; 4 * 6 - 1], 3, 2, ColorType::Rgba);
        assert!(matches!(r, Err(EncodingError::BadImageData { length: 23, required: 24 })));
        assert!(v.is_empty());
    });
    assert!(r.is_ok());
}
''')

B('c09-icc-order','C09',[('encoder.rs','''            self.add_app_segment(2, &chunk_data)?;
        }
''','''            // Keep the profile in front of other segments, decoders expect it early
            let at = self.app_segments.iter().position(|(nr, _)| *nr > 2).unwrap_or(self.app_segments.len());
            self.app_segments.insert(at, (2, chunk_data.clone()));
        }
''')],
 'an ICC profile added after a custom segment with a number above 2',
 'the profile is stored in front of segments that were added earlier',
r'''
fn main() {
    let f = enc(&[9; 64], 8, 8, ColorType::Luma, 80, |e| { e.add_app_segment(5, b"five").unwrap(); e.add_icc_profile(b"profile").unwrap(); });
    let order: Vec<u8> = segs(&f).iter().map(|s| s.0).filter(|m| (0xe1..=0xef).contains(m)).collect();
    assert_eq!(order, [0xe5, 0xe2]);
}
''')

B('c10-density-zero','C10',[('writer.rs','''            Density::Inch { x, y } => {
                self.write_u8(0x01)?;''','''            Density::Inch { x, y } if x == 0 || y == 0 => {
                // A density of zero is invalid, store the aspect ratio instead
                self.write_u8(0x00)?;
                self.write_u16(x.max(1))?;
                self.write_u16(y.max(1))?;
            }
            Density::Inch { x, y } => {
                self.write_u8(0x01)?;''')],
 'a density in dots per inch with a zero value',
 'the unit and the value in the header are not the configured ones',
r'''
fn main() {
    let f = enc(&[9; 64], 8, 8, ColorType::Luma, 80, |e| e.set_density(Density::Inch { x: 0, y: 300 }));
    assert_eq!(&f[13..18], &[1, 0, 0, 1, 44]);
}
''')

B('c13-density-none','C13',[('encoder.rs','''        self.density = density;
    }''','''        if density != Density::None {
            self.density = density;
        }
    }''')],
 'set_density(None) after another density has been set',
 'the earlier density stays',
r'''
fn main() {
    let mut v = Vec::new();
    let mut e = Encoder::new(&mut v, 80);
    e.set_density(Density::Inch { x: 3, y: 4 });
    e.set_density(Density::None);
    assert_eq!(e.density(), Density::None);
}
''')

B('c13-opt-progressive','C13',[('encoder.rs','''        self.progressive_scans = if progressive { Some(4) } else { None };
''','''        self.progressive_scans = if progressive { Some(4) } else { None };
        // The default tables don't fit progressive images
        self.optimize_huffman_table |= progressive && self.restart_interval.is_some();
''')],
 'set_progressive(true) after a restart interval has been set',
 'another setting changes along',
r'''
fn main() {
    let mut v = Vec::new();
    let mut e = Encoder::new(&mut v, 80);
    e.set_restart_interval(4);
    e.set_progressive(true);
    assert!(!e.optimized_huffman_tables());
}
''')

B('c14-even','C14',[('encoder.rs','''                    .write_scan_header(&[component], Some((start as u8, end as u8 - 1)))?;
''','''                    .write_scan_header(
                        &[component],
                        Some((start as u8, (end as u8 - 1).max(start as u8 + 1).min(63))),
                    )?;
''')],
 'more than 32 scans, so that bands have a single coefficient',
 'bands of a single coefficient are declared as two, so that bands overlap',
r'''
fn main() {
    for n in 2..=64u8 {
        let f = enc(&noise(64, 1), 8, 8, ColorType::Luma, 80, |e| e.set_progressive_scans(n));
        let mut next = 1;
        for s in segs(&f).iter().filter(|s| s.0 == 0xda).skip(1) { assert_eq!(s.1[3], next, "{} scans", n); next = s.1[4] + 1; }
        assert_eq!(next, 64);
    }
}
''')

B('c16-extra-row','C16',[('encoder.rs','''            let y = (y.min(usize::from(height) - 1)) as u16;

            image.fill_buffers(y, &mut row);

            for _ in usize::from(width)..num_cols * 8 {''','''            let y = (y.min(usize::from(height) - usize::from(height % 8 != 7))) as u16;

            image.fill_buffers(y, &mut row);

            for _ in usize::from(width)..num_cols * 8 {''')],
 'a custom image buffer in a scan-per-component mode with a height of 8k+7',
 'the row below the image is asked for',
r'''
use std::cell::Cell;
struct Rows<'a>(u16, &'a Cell<u16>);
impl ImageBuffer for Rows<'_> {
    fn get_jpeg_color_type(&self) -> JpegColorType { JpegColorType::Luma }
    fn width(&self) -> u16 { 4 }
    fn height(&self) -> u16 { self.0 }
    fn fill_buffers(&self, y: u16, b: &mut [Vec<u8>; 4]) { self.1.set(self.1.get().max(y)); b[0].extend([1, 2, 3, 4]) }
}
fn main() {
    for h in 1..40 { for p in [false, true] {
        let m = Cell::new(0);
        let mut v = Vec::new();
        let mut e = Encoder::new(&mut v, 80);
        e.set_progressive(p);
        e.encode_image(Rows(h, &m)).unwrap();
        assert_eq!(m.get(), h - 1, "height {}", h);
    } }
}
''')

B('c16-skip-rows','C16',[('encoder.rs','''                image.fill_buffers(y, &mut row);

                for _ in usize::from(width)..buffer_width {''','''                if usize::from(y) + 1 == usize::from(height) && block_y > 0 && row[0].len() >= buffer_width && width == 1 {
                    // Single column: the last line repeats the one above
                    for channel in &mut row {
                        if let Some(&last) = channel.last() {
                            channel.push(last);
                        }
                    }
                } else {
                    image.fill_buffers(y, &mut row);
                }

                for _ in usize::from(width)..buffer_width {''')],
 'an image one pixel wide with more than one MCU row',
 'the last row is never asked for',
r'''
fn main() {
    let mut d = vec![10u8; 17]; d[16] = 10; d[16 - 1] = 10;
    let mut d2 = d.clone(); d2.push(250);
    let f = enc(&d2, 1, 18, ColorType::Luma, 100, |e| e.set_sampling_factor(SamplingFactor::F_1_1));
    close(&dec(&f), &d2, 3, "last row");
}
''')

B('c17-append','C17',[('encoder.rs','''        let file = File::create(path)?;
''','''        let file = std::fs::OpenOptions::new().append(true).create(true).open(path)?;
        if file.metadata()?.len() > 65536 {
            file.set_len(0)?;
        }
''')],
 'a path at which a file of at most 64 KiB exists already',
 'the image is appended to the old contents',
r'''
fn main() {
    let p = std::env::temp_dir().join(format!("seed-append-{}", std::process::id()));
    std::fs::write(&p, b"old").unwrap();
    Encoder::new_file(&p, 80).unwrap().encode(&[7; 64], 8, 8, ColorType::Luma).unwrap();
    let f = std::fs::read(&p).unwrap();
    std::fs::remove_file(&p).unwrap();
    assert_eq!(f[0], 0xff);
}
''')

B('c19-leak-table','C19',[('quantization.rs','''            QuantizationTableType::Custom(table) => Self::get_user_table(table),
''','''            QuantizationTableType::Custom(table) => {
                let table: &'static [u16; 64] = Box::leak(table.clone());
                Self::get_user_table(table)
            }
''')],
 'custom quantization tables',
 'a copy of the table is leaked with every image',
r'''
use std::alloc::*; use std::sync::atomic::*;
struct A; static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn once() { drop(enc(&[9; 64], 8, 8, ColorType::Luma, 80, |e| e.set_quantization_tables(QuantizationTableType::Custom(Box::new([3; 64])), QuantizationTableType::Default))); }
fn main() {
    once();
    let a = LIVE.load(Ordering::SeqCst);
    for _ in 0..10 { once(); }
    assert_eq!(LIVE.load(Ordering::SeqCst), a);
}
''')

B('c19-whole-image','C19',[('encoder.rs','''        let mut row: [Vec<_>; 4] = self.init_rows(buffer_size);

        let mut prev_dc = [0i16; 4];
''','''        let mut row: [Vec<_>; 4] = self.init_rows(if restart_interval_used(self.restart_interval) { buffer_size * num_rows } else { buffer_size });

        let mut prev_dc = [0i16; 4];
'''),('encoder.rs','''fn ceil_div(value: usize''','''fn restart_interval_used(interval: Option<u16>) -> bool {
    interval.is_some()
}

fn ceil_div(value: usize''')],
 'a tall baseline image with restart markers',
 'memory for the whole image is reserved',
r'''
use std::alloc::*; use std::sync::atomic::*;
struct A; static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { PEAK.fetch_max(l.size(), Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
struct Null; impl std::io::Write for Null { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
fn main() {
    let d = vec![0u8; 64 * 20000];
    PEAK.store(0, Ordering::SeqCst);
    let mut e = Encoder::new(Null, 80);
    e.set_restart_interval(4);
    e.encode(&d, 64, 20000, ColorType::Luma).unwrap();
    assert!(PEAK.load(Ordering::SeqCst) < 100_000);
}
''')

B('c19-forget','C19',[('encoder.rs','''        let blocks = self.encode_blocks::<_, OP>(&image, q_tables);

        if self.optimize_huffman_table {
            self.optimize_huffman_table(&blocks);
        }

        self.write_frame_header(&image, q_tables)?;

        // Phase 1''','''        let blocks = core::mem::ManuallyDrop::new(self.encode_blocks::<_, OP>(&image, q_tables));

        if self.optimize_huffman_table {
            self.optimize_huffman_table(&blocks);
        }

        self.write_frame_header(&image, q_tables)?;

        // Phase 1'''),('encoder.rs','''                self.writer.finalize_bit_buffer()?;
            }
        }

        Ok(())
    }

    fn encode_blocks''','''                self.writer.finalize_bit_buffer()?;
            }
        }

        drop(core::mem::ManuallyDrop::into_inner(blocks));

        Ok(())
    }

    fn encode_blocks''')],
 'a progressive image whose writer fails',
 'the coefficients are never released when an error ends the encode',
r'''
use std::alloc::*; use std::sync::atomic::*;
struct A; static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
struct Lim(usize); impl std::io::Write for Lim { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if self.0 < b.len() { return Err(std::io::ErrorKind::Other.into()) } self.0 -= b.len(); Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
fn once() { let mut e = Encoder::new(Lim(700), 80); e.set_progressive(true); assert!(e.encode(&noise(4096, 1), 64, 64, ColorType::Luma).is_err()); }
fn main() {
    once();
    let a = LIVE.load(Ordering::SeqCst);
    for _ in 0..10 { once(); }
    assert_eq!(LIVE.load(Ordering::SeqCst), a);
}
''')

B('c12-ycck-k','C12',[('image_buffer.rs','''    let (y, cb, cr) = rgb_to_ycbcr(c, m, y);
''','''    let (y, cb, cr) = if k == 255 && c == m && m == y {
        // No key and no colour
        (c, 128, 128)
    } else {
        rgb_to_ycbcr(c, m, y.saturating_add(u8::from(k == 254)))
    };
''')],
 'CMYK as YCCK pixels with a key of exactly 254',
 'the third value is changed by one before the conversion',
r'''
fn main() {
    for y in 0..255u8 { for k in [0u8, 1, 253, 254, 255] {
        let (a, b, c) = rgb_to_ycbcr(40, 90, y);
        assert_eq!(cmyk_to_ycck(40, 90, y, k), (a, b, c, 255 - k), "{} {}", y, k);
    } }
}
''')

B('c06-eoi-retry','C06',[('encoder.rs','''        self.writer.write_marker(Marker::EOI)?;
''','''        if self.writer.write_marker(Marker::EOI).is_err() {
            // The image is complete, give a slow writer another chance to take the end marker
            self.writer.write_marker(Marker::EOI)?;
        }
''')],
 'a writer that fails once at the last byte after it has taken the byte before',
 'the end marker is written twice in part and success is reported',
r'''
struct Once { n: usize, at: usize, done: bool, v: Vec<u8> }
impl std::io::Write for &mut Once {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let room = if self.done { b.len() } else { (self.at - self.n).min(b.len()) };
        if room == 0 && !b.is_empty() { self.done = true; return Err(std::io::ErrorKind::TimedOut.into()) }
        self.n += room; self.v.extend_from_slice(&b[..room]); Ok(room)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let full = enc(&[9; 64], 8, 8, ColorType::Luma, 80, |_| {});
    for at in 0..full.len() {
        let mut o = Once { n: 0, at, done: false, v: vec![] };
        assert!(Encoder::new(&mut o, 80).encode(&[9; 64], 8, 8, ColorType::Luma).is_err(), "{}", at);
        assert!(full.starts_with(&o.v));
    }
}
''')

B('c03-clip-dc','C03',[('writer.rs','''        let diff = value - prev_dc;
        let (size, value) = get_code(diff);
''','''        // At most 11 bits can be stored
        let diff = (value - prev_dc).clamp(-2032, 2032);
        let (size, value) = get_code(diff);
''')],
 'quality 100 and neighbouring blocks that are completely white and completely black',
 'the difference of the DC values is cut off',
r'''
fn main() {
    let d: Vec<u8> = (0..8 * 64).map(|i| if (i / 8) % 2 == 0 { 0 } else { 255 }).collect();
    let mk = |r: u16| enc(&d, 64, 8, ColorType::Luma, 100, |e| e.set_restart_interval(r));
    close(&dec(&mk(0)), &dec(&mk(1)), 0, "restart interval");
}
''')

