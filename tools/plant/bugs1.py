BUGS=[]
def B(id,prop,edits,needs,breaks,demo,features=None,**k): BUGS.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,features=features,**k))

B('c01-last-byte','C01',[('encoder.rs','''writer.rs''','')] if 0 else [('writer.rs','while self.free_bits <= (BUFFER_SIZE as i8 - 8) {','while self.free_bits < (BUFFER_SIZE as i8 - 8) {')],
 'an entropy coded segment whose bits plus padding end exactly on a byte boundary',
 'the last byte of the entropy coded segment is dropped',
r'''
fn main() {
    // every restart interval ends with a flush: decode and compare with the file without restarts
    for s in 0..40u64 {
        let d = noise(64 * 8, s);
        let a = enc(&d, 64, 8, ColorType::Luma, 90, |_| {});
        let b = enc(&d, 64, 8, ColorType::Luma, 90, |e| e.set_restart_interval(1));
        // without restarts the stream ends with one flush, with them every block does; count the bits
        // that are there by decoding both
        assert_eq!(dec(&a), dec(&b), "seed {}", s);
        // the number of entropy coded bytes of a one block image is at least one per block
        for i in 0..8 {
            let blk: Vec<u8> = (0..64).map(|k| d[(k / 8) * 64 + i * 8 + k % 8]).collect();
            let one = enc(&blk, 8, 8, ColorType::Luma, 90, |_| {});
            let all: Vec<Vec<u8>> = split(&segs(&b).last_sos());
            assert_eq!(all[i], segs(&one).last_sos(), "block {} on its own", i);
        }
        let flat = enc(&[128u8; 64], 8, 8, ColorType::Luma, 90, |_| {});
        assert!(!segs(&flat).last_sos().is_empty(), "a block without any entropy coded data");
        for v in 0..=255u8 {
            let f = enc(&[v; 64], 8, 8, ColorType::Luma, 50, |_| {});
            let want = bits_of_flat(v);
            assert_eq!(unstuff(&segs(&f).last_sos()).len(), (want + 7) / 8, "flat block {}", v);
        }
    }
}
// bits of a flat block of value v at quality 50 (luma DC step 16) with the default tables
fn bits_of_flat(v: u8) -> usize {
    let dc = (v as i32 - 128) * 8;
    let q = (dc.abs() + 8) / 16;
    let mut n = 0;
    let mut t = q;
    while t > 0 { n += 1; t >>= 1; }
    [2, 3, 3, 3, 3, 3, 4, 5, 6, 7, 8, 9][n] + n + 4
}
fn unstuff(d: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < d.len() { o.push(d[i]); if d[i] == 0xff { i += 1; } i += 1; }
    o
}
trait Last { fn last_sos(&self) -> Vec<u8>; }
impl Last for Vec<(u8, Vec<u8>, Vec<u8>)> {
    fn last_sos(&self) -> Vec<u8> { self.iter().filter(|s| s.0 == 0xda).last().unwrap().2.clone() }
}
fn split(d: &[u8]) -> Vec<Vec<u8>> {
    let mut o = vec![vec![]];
    let mut i = 0;
    while i < d.len() {
        if d[i] == 0xff && i + 1 < d.len() && d[i + 1] >= 0xd0 { o.push(vec![]); i += 2; continue; }
        o.last_mut().unwrap().push(d[i]);
        i += 1;
    }
    o
}
''')

B('c01-zrl-once','C01',[('writer.rs','''                while zero_run > 15 {
                    self.huffman_encode(0xF0, ac_table)?;
                    zero_run -= 16;
                }
''','''                if zero_run > 15 {
                    for _ in 0..zero_run / 16 % 3 {
                        self.huffman_encode(0xF0, ac_table)?;
                    }
                    zero_run %= 16;
                }
''')],
 'a block with a run of 48 or more zero coefficients before a non-zero one',
 'the three zero run codes that a run of 48 or more zeros needs are not written, so the coefficient is decoded at the wrong place',
r'''
fn main() {
    // only the highest frequency: coefficient 63 after 62 zeros
    let mut q = [255u16; 64];
    q[63] = 1;
    q[0] = 8;
    let mut d = vec![0u8; 64];
    for y in 0..8 { for x in 0..8 {
        let c = |k: usize| (((2 * k + 1) as f64) * 7.0 * std::f64::consts::PI / 16.0).cos();
        d[y * 8 + x] = (128.0 + 100.0 * c(x) * c(y)).round() as u8;
    } }
    let f = enc(&d, 8, 8, ColorType::Luma, 100, |e| e.set_quantization_tables(
        QuantizationTableType::Custom(Box::new(q)), QuantizationTableType::Default));
    close(&dec(&f), &d, 6, "decoded pixels");
}
''')

B('c02-mirror-bottom','C02',[('encoder.rs','''                let y = y + block_y * 8 * max_v_sampling;
                let y = (y.min(height as usize - 1)) as u16;
''','''                let y = y + block_y * 8 * max_v_sampling;
                let last = usize::from(height) - 1;
                let y = if y > last { last - (y - last).min(last) } else { y } as u16;
''')],
 'interleaved mode and a height that is not a multiple of the MCU height',
 'rows below the image are a mirror image instead of copies of the last row, so the coded block is not the DCT of the replicated block',
r'''
fn main() {
    // 8x1: nothing to mirror. 8x9: rows 10.. must be copies of row 9
    let mut d = noise(8 * 9, 3);
    for v in &mut d[64..72] { *v = 250; }
    for v in &mut d[..64] { *v = 10; }
    let a = enc(&d, 8, 9, ColorType::Luma, 100, |_| {});
    let mut full = d.clone();
    for _ in 9..16 { full.extend_from_slice(&d[64..72]); }
    let b = enc(&full, 8, 16, ColorType::Luma, 100, |_| {});
    let ecs = |v: &[u8]| segs(v).into_iter().find(|s| s.0 == 0xda).unwrap().2;
    assert_eq!(ecs(&a), ecs(&b), "padding is not the replicated last row");
}
''')

B('c02-centre-4','C02',[('encoder.rs','''            let ix = start_x + (x * col_stride);
''','''            let ix = start_x + (x * col_stride) + (col_stride - 1) / 3;
''')],
 'a horizontal sampling factor of 4',
 'chroma is sampled from the second pixel of each 4 pixel cell instead of the first',
r'''
fn main() {
    // chroma lives in the first pixel of every cell of 4 only
    let (w, h) = (32u16, 8u16);
    let mut d = vec![];
    for i in 0..(w as usize * h as usize) {
        d.extend_from_slice(&[128, if i % 4 == 0 { 200 } else { 128 }, 128]);
    }
    let f = enc(&d, w, h, ColorType::Ycbcr, 100, |e| e.set_sampling_factor(SamplingFactor::F_4_1));
    // the same image with cb = 200 everywhere gives the same chroma samples
    let mut g = vec![];
    for _ in 0..(w as usize * h as usize) { g.extend_from_slice(&[128, 200, 128]); }
    let g = enc(&g, w, h, ColorType::Ycbcr, 100, |e| e.set_sampling_factor(SamplingFactor::F_4_1));
    assert_eq!(f, g, "chroma is not taken from the top left pixel of its cell");
}
''')

B('c03-right-pad','C03',[('encoder.rs','''            for _ in usize::from(width)..num_cols * 8 {
                for channel in &mut row {
                    if !channel.is_empty() {
                        channel.push(channel[channel.len() - 1]);
                    }
                }
            }
''','''            for channel in &mut row {
                if let Some(&last) = channel.get(usize::from(width) - 1) {
                    channel.resize((usize::from(y) + 1).max(1) * buffer_width, last);
                }
            }
''')] if 0 else [('encoder.rs','''            for _ in usize::from(width)..num_cols * 8 {
                for channel in &mut row {
                    if !channel.is_empty() {
                        channel.push(channel[channel.len() - 1]);
                    }
                }
            }
''','''            for channel in &mut row {
                if let Some(&last) = channel.get(usize::from(width) - 1) {
                    channel.extend((usize::from(width)..num_cols * 8).map(|_| last));
                }
            }
''')],
 'a scan-per-component mode and a width that is not a multiple of the MCU width, with rows that end in different colours',
 'the right edge of every row is padded with the last pixel of the first row, so progressive/optimised files carry other coefficients than baseline ones',
r'''
fn main() {
    let d = noise(13 * 24 * 3, 1);
    let a = enc(&d, 13, 24, ColorType::Rgb, 90, |e| e.set_sampling_factor(SamplingFactor::F_1_1));
    let b = enc(&d, 13, 24, ColorType::Rgb, 90, |e| { e.set_sampling_factor(SamplingFactor::F_1_1); e.set_progressive(true) });
    let c = enc(&d, 13, 24, ColorType::Rgb, 90, |e| { e.set_sampling_factor(SamplingFactor::F_1_1); e.set_optimized_huffman_tables(true) });
    assert_eq!(dec(&a), dec(&b), "progressive differs");
    assert_eq!(dec(&a), dec(&c), "optimised differs");
}
''')

B('c03-drop-63','C03',[('encoder.rs','''                        &q_tables[component.quantization_table as usize],
                    );

                    blocks[i].push(q_block);
''','''                        &q_tables[component.quantization_table as usize],
                    );

                    // Isolated highest frequency coefficients are not visible
                    if q_block[63].abs() == 1 && q_block[1..63].iter().all(|&v| v == 0) {
                        q_block[63] = 0;
                    }

                    blocks[i].push(q_block);
''')],
 'a scan-per-component mode and a block whose only AC coefficient is a 1 at position 63',
 'progressive and optimised files lose a coefficient that the baseline file carries',
r'''
fn main() {
    let mut q = [255u16; 64];
    q[63] = 200;
    q[0] = 8;
    let mut d = vec![0u8; 64];
    for y in 0..8 { for x in 0..8 {
        let c = |k: usize| (((2 * k + 1) as f64) * 7.0 * std::f64::consts::PI / 16.0).cos();
        d[y * 8 + x] = (128.0 + 50.0 * c(x) * c(y)).round() as u8;
    } }
    let t = || QuantizationTableType::Custom(Box::new(q));
    let a = enc(&d, 8, 8, ColorType::Luma, 100, |e| e.set_quantization_tables(t(), t()));
    let b = enc(&d, 8, 8, ColorType::Luma, 100, |e| { e.set_quantization_tables(t(), t()); e.set_progressive(true) });
    let c = enc(&d, 8, 8, ColorType::Luma, 100, |e| { e.set_quantization_tables(t(), t()); e.set_optimized_huffman_tables(true) });
    assert_eq!(dec(&a), dec(&b), "progressive differs");
    assert_eq!(dec(&a), dec(&c), "optimised differs");
}
''')


B('c04-k-dc','C04',[('encoder.rs','''                    prev_dc[1] = 0;
                    prev_dc[2] = 0;
                    prev_dc[3] = 0;
''','''                    prev_dc[1] = 0;
                    prev_dc[2] = 0;
''')],
 'interleaved CMYK or YCCK with a restart interval',
 'the DC prediction of the fourth component is not reset at a restart marker',
r'''
fn main() {
    let d = noise(32 * 32 * 4, 5);
    for c in [ColorType::Cmyk, ColorType::Ycck] {
        let a = enc(&d, 32, 32, c, 95, |_| {});
        let b = enc(&d, 32, 32, c, 95, |e| e.set_restart_interval(3));
        assert_eq!(dec(&a), dec(&b), "{:?}", c);
    }
}
''')


B('c05-skip-k','C05',[('encoder.rs','''                if component.ac_huffman_table == table {
                    had_ac = true;

                    if let''','''                // Every table is filled by the first components using it
                if component.ac_huffman_table == table && (i < 3 || !had_ac) {
                    had_ac = true;

                    if let''')],
 'YCCK images with optimised tables whose K channel has other AC symbols than Y',
 'the optimised table has no code for symbols that only occur in the fourth component',
r'''
fn main() {
    let mut d = noise(32 * 32 * 4, 5);
    for p in d.chunks_mut(4) { p[0] = 100; }
    let a = enc(&d, 32, 32, ColorType::Ycck, 90, |_| {});
    let b = enc(&d, 32, 32, ColorType::Ycck, 90, |e| e.set_optimized_huffman_tables(true));
    assert_eq!(dec(&a), dec(&b));
}
''')

B('c06-interrupted','C06',[('writer.rs','''        self.write_all(buf)?;
        Ok(())
    }

    #[inline(always)]
    fn flush_output''','''        // The encoder writes small pieces, most of the time a single call is enough
        let mut buf = buf;
        while !buf.is_empty() {
            let n = self.write(buf)?;
            if n == 0 {
                return Err(std::io::Error::from(std::io::ErrorKind::WriteZero).into());
            }
            buf = &buf[n..];
        }
        Ok(())
    }

    #[inline(always)]
    fn flush_output''')],
 'a writer whose write call is interrupted by a signal (ErrorKind::Interrupted)',
 'an interrupted write call aborts the encoding instead of being retried',
r'''
use std::io::{Error, ErrorKind, Write};
struct W(Vec<u8>, usize);
impl Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1 += 1;
        if self.1 % 7 == 0 { return Err(Error::from(ErrorKind::Interrupted)); }
        self.0.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let d = noise(16 * 16, 5);
    let a = enc(&d, 16, 16, ColorType::Luma, 90, |_| {});
    let mut w = W(vec![], 0);
    Encoder::new(&mut w, 90).encode(&d, 16, 16, ColorType::Luma).expect("interrupted writes must be retried");
    assert_eq!(a, w.0);
}
''')

B('c06-eoi','C06',[('encoder.rs','''        self.writer.write_marker(Marker::EOI)?;
''','''        // Decoders don't need the marker to show the image
        let _ = self.writer.write_marker(Marker::EOI);
''')],
 'a writer that fails exactly at the last two bytes',
 'success is returned although the end of image marker has not been written',
r'''
use std::io::{Error, ErrorKind, Write};
struct W(Vec<u8>, usize);
impl Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1 - self.0.len());
        if n == 0 { return Err(Error::from(ErrorKind::StorageFull)); }
        self.0.write(&b[..n])
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let d = noise(16 * 16, 5);
    let a = enc(&d, 16, 16, ColorType::Luma, 90, |_| {});
    for cap in 0..a.len() {
        let mut w = W(vec![], cap);
        let r = Encoder::new(&mut w, 90).encode(&d, 16, 16, ColorType::Luma);
        assert!(r.is_err(), "success with {} of {} bytes", cap, a.len());
    }
}
''')

B('c06-retry','C06',[('writer.rs','''            for i in 0..(BUFFER_SIZE / 8) {
                self.flush_byte_from_bit_buffer((i * 8) as i8)?;
            }
            Ok(())
''','''            let mut result = Ok(());
            for i in 0..(BUFFER_SIZE / 8) {
                let res = self.flush_byte_from_bit_buffer((i * 8) as i8);
                if result.is_ok() {
                    result = res;
                }
            }
            result
''')],
 'a writer that fails once in the middle of a run of bytes that needs stuffing and accepts data again afterwards',
 'bytes are written after the failed one, which leaves a gap in the output',
r'''
use std::io::{Error, ErrorKind, Write};
struct W(Vec<u8>, usize, bool);
impl Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0.len() >= self.1 && !self.2 { self.2 = true; return Err(Error::from(ErrorKind::Other)); }
        self.0.push(b[0]);
        Ok(1)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let d = noise(64 * 64, 5);
    let a = enc(&d, 64, 64, ColorType::Luma, 97, |_| {});
    for at in 0..a.len() {
        let mut w = W(vec![], at, false);
        let r = Encoder::new(&mut w, 97).encode(&d, 64, 64, ColorType::Luma);
        assert!(r.is_err());
        assert_eq!(&a[..w.0.len()], &w.0[..], "failure at byte {}", at);
    }
}
''')


B('c07-quantize','C07',[('avx2.rs','''    fn fdct(data: &mut [i16; 64]) {
        fdct_avx2(data);
    }
''','''    fn fdct(data: &mut [i16; 64]) {
        fdct_avx2(data);
    }

    #[inline(always)]
    fn quantize_block(
        block: &[i16; 64],
        q_block: &mut [i16; 64],
        table: &crate::quantization::QuantizationTable,
    ) {
        // A plain division vectorizes well
        for i in 0..64 {
            let z = crate::writer::ZIGZAG[i] as usize & 0x3f;
            let q = i32::from(table.get(z)) << 3;
            let v = i32::from(block[z]);
            let r = (v.abs() + (q >> 1)) / q;
            q_block[i] = if v < 0 { -r } else { r } as i16;
        }
    }
''')],
 'the simd feature and a coefficient for which the fixed point division differs from the exact one',
 'simd builds quantise some coefficients differently from other builds',
r'''
use std::process::Command;
// the same image through both builds: this program is built with simd, its child without
fn main() {
    let mut files = Vec::new();
    for q in [1u8, 5, 10, 20, 30, 40, 50, 60, 70, 80, 90] {
        for s in 0..4 {
            let mut d = noise(128 * 128, s);
            if s % 2 == 0 { for (i, v) in d.iter_mut().enumerate() { *v = (*v / 4).wrapping_add((i % 200) as u8); } }
            files.extend(enc(&d, 128, 128, ColorType::Luma, q, |_| {}));
        }
    }
    let hash = files.iter().fold(14695981039346656037u64, |h, b| (h ^ *b as u64).wrapping_mul(1099511628211));
    if std::env::args().nth(1).is_some() { println!("{}", hash); return; }
    let dir = std::env::current_dir().unwrap();
    let toml = std::fs::read_to_string(dir.join("Cargo.toml")).unwrap().replace(", features = [\"simd\"]", "");
    let plain = dir.join("plain");
    std::fs::create_dir_all(plain.join("src")).unwrap();
    std::fs::write(plain.join("Cargo.toml"), toml).unwrap();
    std::fs::copy(dir.join("src/main.rs"), plain.join("src/main.rs")).unwrap();
    std::fs::copy(dir.join("src/util.rs"), plain.join("src/util.rs")).unwrap();
    let o = Command::new("cargo").args(["run", "--quiet", "--release", "--offline", "--", "x"]).current_dir(&plain).output().unwrap();
    assert!(o.status.success(), "{}", String::from_utf8_lossy(&o.stderr));
    assert_eq!(String::from_utf8_lossy(&o.stdout).trim(), hash.to_string(), "the builds differ");
}
''',features='simd')
