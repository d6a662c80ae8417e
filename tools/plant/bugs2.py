BUGS=[]
def B(id,prop,edits,needs,breaks,demo,features=None,**k): BUGS.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,features=features,**k))

B('c08-u32','C08',[('encoder.rs','''        if data.len() < required_data_len {
''','''        if (data.len() as u32) < (required_data_len as u32) {
''')],
 'dimensions whose byte count exceeds 32 bits',
 'a slice that is far too short is accepted for huge images (and then panics) instead of BadImageData',
r'''
fn main() {
    let d = [0u8; 1000];
    for (w, h, c, bpp) in [(65535u16, 65535u16, ColorType::Rgba, 4usize), (32768, 32768, ColorType::Cmyk, 4), (65535, 21846, ColorType::Rgb, 3), (40000, 40000, ColorType::Bgr, 3)] {
        let r = silent(move || Encoder::new(Vec::<u8>::new(), 90).encode(&d, w, h, c));
        let need = w as usize * h as usize * bpp;
        match r.expect("panic") {
            Err(EncodingError::BadImageData { length: 1000, required }) if required == need => (),
            r => panic!("{}x{}: {:?}", w, h, r),
        }
    }
}
''')

B('c08-zero-late','C08',[('encoder.rs','''        if image.width() == 0 || image.height() == 0 {
            return Err(EncodingError::ZeroImageDimensions {
                width: image.width(),
                height: image.height(),
            });
        }

        let q_tables''','''        let q_tables'''),('encoder.rs','''        self.writer.write_header(&self.density)?;

        if jpeg''','''        if image.width() == 0 || image.height() == 0 {
            return Err(EncodingError::ZeroImageDimensions {
                width: image.width(),
                height: image.height(),
            });
        }

        self.writer.write_header(&self.density)?;

        if jpeg''')],
 'an image with a zero dimension',
 'the start of image marker is written before the dimensions are rejected',
r'''
fn main() {
    for (w, h) in [(0u16, 0u16), (0, 5), (5, 0)] {
        let mut v = vec![];
        let r = Encoder::new(&mut v, 90).encode(&[0; 100], w, h, ColorType::Luma);
        assert!(matches!(r, Err(EncodingError::ZeroImageDimensions { .. })));
        assert!(v.is_empty(), "{} bytes were written for a rejected image", v.len());
    }
}
''')

B('c09-icc-multiple','C09',[('encoder.rs','''        let num_chunks = ceil_div(data.len(), MAX_CHUNK_LENGTH);
''','''        let num_chunks = data.len() / MAX_CHUNK_LENGTH + usize::from(!data.is_empty());
''')],
 'an ICC profile whose length is an exact multiple of the chunk length 65519',
 'the chunk total stored in every ICC segment is one too high',
r'''
fn main() {
    for n in [1usize, 2, 3] {
        for extra in [-1isize, 0, 1] {
            let p = noise((65519 * n as isize + extra) as usize, 1);
            let f = enc(&[1; 64], 8, 8, ColorType::Luma, 90, |e| e.add_icc_profile(&p).unwrap());
            let icc: Vec<_> = segs(&f).into_iter().filter(|s| s.0 == 0xe2).collect();
            for (i, s) in icc.iter().enumerate() {
                assert_eq!(s.1[12] as usize, i + 1);
                assert_eq!(s.1[13] as usize, icc.len(), "{} bytes: total of chunk {}", p.len(), i + 1);
            }
            assert_eq!(icc.iter().flat_map(|s| s.1[14..].to_vec()).collect::<Vec<u8>>(), p);
        }
    }
}
''')

B('c09-sort','C09',[('encoder.rs','''            self.app_segments.push((segment_nr, data.to_vec()));
            Ok(())
''','''            // Keep APP1 (Exif, XMP) in front, many readers expect it there
            let pos = if segment_nr == 1 {
                self.app_segments
                    .iter()
                    .position(|(nr, _)| *nr != 1)
                    .unwrap_or(self.app_segments.len())
            } else {
                self.app_segments.len()
            };
            self.app_segments.insert(pos, (segment_nr, data.to_vec()));
            Ok(())
''')],
 'an APP1 segment added after a segment with another number',
 'application segments are not written in call order',
r'''
fn main() {
    let f = enc(&[1; 64], 8, 8, ColorType::Luma, 90, |e| {
        e.add_app_segment(2, b"a").unwrap();
        e.add_app_segment(1, b"b").unwrap();
        e.add_app_segment(9, b"c").unwrap();
    });
    let o: Vec<Vec<u8>> = segs(&f).into_iter().filter(|s| (0xe1..0xf0).contains(&s.0)).map(|s| s.1).collect();
    assert_eq!(o, vec![b"a".to_vec(), b"b".to_vec(), b"c".to_vec()]);
}
''')

B('c09-65534','C09',[('encoder.rs','''        } else if data.len() > 65533 {
''','''        } else if data.len() > usize::from(u16::MAX) - 1 {
''')],
 'a segment of exactly 65534 bytes',
 'a segment that does not fit is accepted and its length field wraps around to 0',
r'''
fn main() {
    let mut e = Encoder::new(Vec::<u8>::new(), 90);
    assert!(e.add_app_segment(5, &vec![0; 65533]).is_ok());
    assert!(matches!(e.add_app_segment(5, &vec![0; 65534]), Err(EncodingError::AppSegmentTooLarge(65534))), "65534 bytes were accepted");
}
''')

B('c10-adobe-user','C10',[('encoder.rs','''        if jpeg_color_type == JpegColorType::Cmyk {
            //Set''','''        // Don't write a second Adobe segment
        let user_adobe = self.app_segments.iter().any(|(nr, _)| *nr == 14);

        if user_adobe {
        } else if jpeg_color_type == JpegColorType::Cmyk {
            //Set''')],
 'CMYK or YCCK with a custom APP14 segment',
 'the encoder\'s own Adobe marker is missing if the user adds any APP14 segment',
r'''
fn main() {
    for (c, t) in [(ColorType::Cmyk, 0u8), (ColorType::Ycck, 2), (ColorType::CmykAsYcck, 2)] {
        let f = enc(&[1; 256], 8, 8, c, 90, |e| e.add_app_segment(14, b"mine").unwrap());
        let a: Vec<Vec<u8>> = segs(&f).into_iter().filter(|s| s.0 == 0xee).map(|s| s.1).collect();
        assert_eq!(a.len(), 2, "{:?}: {} APP14 segments", c, a.len());
        assert_eq!(a[0], [b"Adobe\0\0\0\0\0\0".to_vec(), vec![t]].concat());
    }
}
''')

B('c10-cm','C10',[('writer.rs','''            Density::Centimeter { x, y } => {
                self.write_u8(0x02)?;
                self.write_u16(x)?;
                self.write_u16(y)?;
''','''            Density::Centimeter { x, y } => {
                self.write_u8(0x02)?;
                self.write_u16(y)?;
                self.write_u16(x)?;
''')],
 'a density per centimetre with different horizontal and vertical values',
 'horizontal and vertical density are swapped',
r'''
fn main() {
    for (d, want) in [(Density::Inch { x: 72, y: 300 }, [1u8, 0, 72, 1, 44]), (Density::Centimeter { x: 72, y: 300 }, [2, 0, 72, 1, 44])] {
        let f = enc(&[1; 64], 8, 8, ColorType::Luma, 90, |e| e.set_density(d));
        assert_eq!(segs(&f)[1].1[7..12], want);
    }
}
''')

B('c11-custom-both','C11',[('encoder.rs','''            QuantizationTable::new_with_quality(&self.quantization_tables[1], self.quality, false),
        ];
''','''            match &self.quantization_tables {
                // A chroma preset without a matching luma preset has no useful scale
                [QuantizationTableType::Custom(_), QuantizationTableType::Flat] => {
                    QuantizationTable::new_with_quality(&self.quantization_tables[0], self.quality, false)
                }
                [_, chroma] => QuantizationTable::new_with_quality(chroma, self.quality, false),
            },
        ];
''')],
 'a custom luma table combined with the Flat preset for chroma',
 'the chroma table that was asked for is ignored',
r'''
fn main() {
    let f = enc(&[1; 192], 8, 8, ColorType::Rgb, 50, |e| e.set_quantization_tables(
        QuantizationTableType::Custom(Box::new([3; 64])), QuantizationTableType::Flat));
    let q: Vec<Vec<u8>> = segs(&f).into_iter().filter(|s| s.0 == 0xdb).map(|s| s.1).collect();
    assert_eq!(q[0][1..], [3u8; 64]);
    assert_eq!(q[1][1..], [16u8; 64], "chroma table");
}
''')

B('c11-quality-round','C11',[('quantization.rs','''        let scale = if quality < 50 {
            5000 / quality
        } else {
''','''        let scale = if quality < 50 {
            (5000 + quality / 2) / quality
        } else {
''')],
 'a quality below 50 that does not divide 5000',
 'the scale factor is rounded instead of truncated, so tables differ from the IJG formula by one for some entries',
r'''
fn main() {
    for q in 1..=100u32 {
        let f = enc(&[1; 64], 8, 8, ColorType::Luma, q as u8, |e| e.set_quantization_tables(QuantizationTableType::Flat, QuantizationTableType::Flat));
        let s = if q < 50 { 5000 / q } else { 200 - 2 * q };
        let want = ((16 * s + 50) / 100).clamp(1, 255) as u8;
        let t = segs(&f).into_iter().find(|s| s.0 == 0xdb).unwrap().1;
        assert_eq!(t[1..], [want; 64], "quality {}", q);
    }
}
''')

B('c12-near-grey','C12',[('image_buffer.rs','''pub fn rgb_to_ycbcr(r: u8, g: u8, b: u8) -> (u8, u8, u8) {
''','''pub fn rgb_to_ycbcr(r: u8, g: u8, b: u8) -> (u8, u8, u8) {
    // Scanned documents consist of almost neutral colors
    if r.max(g).max(b) - r.min(g).min(b) <= 2 {
        return (g, 128, 128);
    }

''')],
 'colours whose components differ by 1 or 2',
 'nearly neutral colours lose their chroma and part of their luma',
r'''
fn main() {
    for r in 0..=255u8 { for g in 0..=255u8 { for b in 0..=255u8 {
        let (y, cb, cr) = rgb_to_ycbcr(r, g, b);
        let (r, g, b) = (r as f64, g as f64, b as f64);
        let e = [0.299 * r + 0.587 * g + 0.114 * b, 128.0 - 0.168736 * r - 0.331264 * g + 0.5 * b, 128.0 + 0.5 * r - 0.418688 * g - 0.081312 * b];
        for (a, e) in [y, cb, cr].iter().zip(e) {
            assert!((*a as f64 - e.min(255.0)).abs() < 0.55, "{:?} -> {:?}", (r, g, b), (y, cb, cr));
        }
    } } }
}
''')

B('c12-k','C12',[('image_buffer.rs','''    (y, cb, cr, 255 - k)
''','''    (y, cb, cr, if k < 255 { 255 - k } else { 1 })
''')] if 0 else [('image_buffer.rs','''    let (y, cb, cr) = rgb_to_ycbcr(c, m, y);
''','''    // The chroma of full black is not visible
    let (y, cb, cr) = if k == 255 {
        rgb_to_ycbcr(y, y, y)
    } else {
        rgb_to_ycbcr(c, m, y)
    };
''')],
 'CMYK as YCCK input with full key',
 'the colours of pixels with full key are lost',
r'''
fn main() {
    for k in 0..=255u8 {
        let (y, cb, cr) = rgb_to_ycbcr(200, 30, 90);
        assert_eq!(cmyk_to_ycck(200, 30, 90, k), (y, cb, cr, 255 - k));
    }
}
''')

B('c13-keep-scans','C13',[('encoder.rs','''        self.progressive_scans = if progressive { Some(4) } else { None };
''','''        self.progressive_scans = if progressive {
            self.progressive_scans.or(Some(4))
        } else {
            None
        };
''')],
 'set_progressive(true) after set_progressive_scans with another number',
 'enabling progressive mode does not select the documented 4 scans',
r'''
fn main() {
    let mut e = Encoder::new(Vec::<u8>::new(), 90);
    e.set_progressive_scans(10);
    e.set_progressive(true);
    assert_eq!(e.progressive_scans(), Some(4));
}
''')

B('c13-assert-late','C13',[('encoder.rs','''        assert!(
            (2..=64).contains(&scans),
            "Invalid number of scans: {}",
            scans
        );
        self.progressive_scans = Some(scans);
''','''        self.progressive_scans = Some(scans);
        assert!(
            (2..=64).contains(&scans),
            "Invalid number of scans: {}",
            scans
        );
''')],
 'a caught panic of set_progressive_scans followed by further use of the encoder',
 'the invalid number of scans is kept',
r'''
fn main() {
    let mut e = Encoder::new(Vec::<u8>::new(), 90);
    e.set_progressive_scans(10);
    let r = silent(std::panic::AssertUnwindSafe(|| e.set_progressive_scans(1)));
    assert!(r.is_err());
    assert_eq!(e.progressive_scans(), Some(10));
}
''')

B('c13-icc-replace','C13',[('encoder.rs','''        let mut chunk_data = Vec::with_capacity(MAX_CHUNK_LENGTH);
''','''        // An image has a single profile
        self.app_segments
            .retain(|(nr, data)| *nr != 2 || !data.starts_with(MARKER) || data.len() > 65000);

        let mut chunk_data = Vec::with_capacity(MAX_CHUNK_LENGTH);
''')],
 'an ICC profile added after another one or after a custom APP2 segment with the ICC signature',
 'accepted segments disappear again through a later call',
r'''
fn main() {
    let f = enc(&[1; 64], 8, 8, ColorType::Luma, 90, |e| {
        e.add_icc_profile(b"one").unwrap();
        e.add_icc_profile(b"two").unwrap();
    });
    assert_eq!(segs(&f).iter().filter(|s| s.0 == 0xe2).count(), 2);
}
''')

B('c14-skip-empty','C14',[('encoder.rs','''                let mut restarts_to_go = restart_interval;

                self.writer
                    .write_scan_header(&[component], Some((start as u8, end as u8 - 1)))?;
''','''                let mut restarts_to_go = restart_interval;

                // Coefficients are zero if they are not sent
                if scan > 0 && blocks[i].iter().all(|b| b[start..end].iter().all(|&v| v == 0)) {
                    continue;
                }

                self.writer
                    .write_scan_header(&[component], Some((start as u8, end as u8 - 1)))?;
''')],
 'a component without any energy in one of the bands',
 'the scan of an all-zero band is missing from the file',
r'''
fn main() {
    let f = enc(&[77; 192], 8, 8, ColorType::Rgb, 90, |e| e.set_progressive_scans(9));
    assert_eq!(segs(&f).iter().filter(|s| s.0 == 0xda).count(), 27);
}
''')

B('c14-order','C14',[('encoder.rs','''        // Phase 2: AC scans
        let scans = scans as usize - 1;

        for scan in 0..scans {
''','''        // Phase 2: AC scans
        let scans = scans as usize - 1;

        // Send the low frequencies of small images last
        for scan in (0..scans).map(|s| if blocks[0].len() == 1 { scans - 1 - s } else { s }) {
''')],
 'an image of a single luma block',
 'the AC bands are not in ascending order',
r'''
fn main() {
    for (w, h) in [(8u16, 8u16), (16, 8)] {
        let d = noise(w as usize * h as usize, 1);
        let f = enc(&d, w, h, ColorType::Luma, 90, |e| e.set_progressive_scans(9));
        let s: Vec<u8> = segs(&f).iter().filter(|s| s.0 == 0xda).map(|s| s.1[3]).collect();
        assert!(s.windows(2).all(|w| w[0] < w[1]), "{}x{}: bands start at {:?}", w, h, s);
    }
}
''')


B('c15-groups','C15',[('avx2/ycbcr.rs','''                    let r = load3(data.offset($o1));
''','''                    // Bring the next group into the cache
                    let _ = core::ptr::read_volatile(data.offset(8 * $num_colors));

                    let r = load3(data.offset($o1));
''')],
 'the simd feature, a width that is a multiple of 8 and a slice that ends right before unmapped memory',
 'one byte behind the end of the caller\'s slice is read',
r'''
extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
}
fn main() {
    unsafe {
        let p = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0);
        assert_eq!(mprotect(p.add(4096), 4096, 0), 0);
        for (c, n) in [(ColorType::Rgb, 3), (ColorType::Bgra, 4)] {
            let d = std::slice::from_raw_parts(p.add(4096 - 16 * 8 * n), 16 * 8 * n);
            enc(d, 16, 8, c, 90, |_| {});
        }
    }
}
''',features='simd')


B('c16-bgra-tail','C16',[('avx2/ycbcr.rs','''                    let (y, cb, cr) =
                        rgb_to_ycbcr(*data.offset($o1), *data.offset($o2), *data.offset($o3));
''','''                    let (y, cb, cr) = rgb_to_ycbcr(
                        *data.offset($o1 & $num_colors - 2),
                        *data.offset($o2),
                        *data.offset($o3 & $num_colors - 2),
                    );
''')] if 0 else [('avx2/ycbcr.rs','''                    let (y, cb, cr) =
                        rgb_to_ycbcr(*data.offset($o1), *data.offset($o2), *data.offset($o3));
''','''                    // The order of the colors in memory depends on the format
                    let (y, cb, cr) = if $num_colors == 4 {
                        rgb_to_ycbcr(*data, *data.offset(1), *data.offset(2))
                    } else {
                        rgb_to_ycbcr(*data.offset($o1), *data.offset($o2), *data.offset($o3))
                    };
''')],
 'the simd feature, BGRA input and a width that is not a multiple of 8',
 'red and blue are swapped in the last columns of BGRA images',
r'''
fn main() {
    for w in 1..20u16 {
        let d = noise(w as usize * 3 * 4, 1);
        let mut r = d.clone();
        for p in r.chunks_mut(4) { p.swap(0, 2); }
        assert_eq!(enc(&d, w, 3, ColorType::Bgra, 90, |_| {}), enc(&r, w, 3, ColorType::Rgba, 90, |_| {}), "width {}", w);
    }
}
''',features='simd')

B('c17-no-truncate','C17',[('encoder.rs','''        let file = File::create(path)?;
''','''        let file = std::fs::OpenOptions::new()
            .write(true)
            .create(true)
            .open(path)?;
''')],
 'a path at which a longer file exists already',
 'the end of the old file stays behind the new image',
r'''
fn main() {
    let p = std::path::Path::new(&std::env::var("SCRATCH").unwrap()).join("x.jpg");
    std::fs::write(&p, vec![7u8; 100000]).unwrap();
    let d = noise(64, 1);
    Encoder::new_file(&p, 90).unwrap().encode(&d, 8, 8, ColorType::Luma).unwrap();
    assert_eq!(std::fs::read(&p).unwrap(), enc(&d, 8, 8, ColorType::Luma, 90, |_| {}));
}
''')

B('c17-create-new','C17',[('encoder.rs','''        let file = File::create(path)?;
''','''        // Replace the file instead of writing through links
        let path = path.as_ref();
        if path.exists() {
            let _ = std::fs::remove_file(path);
        }
        let file = File::create(path)?;
''')],
 'a path that is a link to an existing file',
 'the file the link points to keeps its old contents',
r'''
fn main() {
    let s = std::env::var("SCRATCH").unwrap();
    let p = std::path::Path::new(&s).join("x.jpg");
    let l = std::path::Path::new(&s).join("l.jpg");
    std::fs::write(&p, vec![7u8; 1000]).unwrap();
    std::os::unix::fs::symlink(&p, &l).unwrap();
    let d = noise(64, 1);
    Encoder::new_file(&l, 90).unwrap().encode(&d, 8, 8, ColorType::Luma).unwrap();
    assert_eq!(std::fs::read(&p).unwrap(), enc(&d, 8, 8, ColorType::Luma, 90, |_| {}));
}
''')

B('c18-static-table','C18',[('quantization.rs','''impl QuantizationTable {
    pub fn new_with_quality(
''','''#[cfg(feature = "std")]
std::thread_local! {
    // Encoding many images with the same settings is the common case
    static LAST: core::cell::RefCell<Option<(u8, usize, [NonZeroU16; 64])>> = const { core::cell::RefCell::new(None) };
}

impl QuantizationTable {
    #[cfg(feature = "std")]
    fn cached(index: usize, quality: u8, table: &[u16; 64]) -> [NonZeroU16; 64] {
        LAST.with(|last| {
            let mut last = last.borrow_mut();
            match *last {
                Some((q, i, table)) if q == quality && i == index => table,
                _ => {
                    let table = Self::get_with_quality(table, quality);
                    *last = Some((quality, index, table));
                    table
                }
            }
        })
    }

    #[cfg(not(feature = "std"))]
    fn cached(_index: usize, quality: u8, table: &[u16; 64]) -> [NonZeroU16; 64] {
        Self::get_with_quality(table, quality)
    }

    pub fn new_with_quality(
'''),('quantization.rs','''                Self::get_with_quality(table, quality)
            }
        };
''','''                if luma {
                    Self::cached(index, quality, table)
                } else {
                    Self::get_with_quality(table, quality)
                }
            }
        };
'''),('quantization.rs','''            table => {
                let table = if luma {
                    &DEFAULT_LUMA_TABLES[table.index()]
''','''            table => {
                // Related presets share their entry
                let index = table.index() & !1;
                let table = if luma {
                    &DEFAULT_LUMA_TABLES[table.index()]
''')],
 'two encoders on the same thread with the same quality and two different presets that share a cache entry',
 'an encoder uses the luma table of the encoder that ran before it',
r'''
fn main() {
    let d = noise(64, 1);
    let go = || enc(&d, 8, 8, ColorType::Luma, 60, |e| e.set_quantization_tables(QuantizationTableType::Flat, QuantizationTableType::Flat));
    let alone = std::thread::scope(|s| s.spawn(go).join().unwrap());
    enc(&d, 8, 8, ColorType::Luma, 60, |_| {});
    assert_eq!(alone, go(), "the bytes depend on the encoder used before");
}
''')

B('c18-scratch','C18',[('encoder.rs','''        let mut row: [Vec<_>; 4] = self.init_rows(buffer_size);

        let mut prev_dc = [0i16; 4];
''','''        #[cfg(feature = "std")]
        let mut row: [Vec<u8>; 4] = SCRATCH.with(|s| s.take());
        #[cfg(not(feature = "std"))]
        let mut row: [Vec<u8>; 4] = self.init_rows(buffer_size);

        for r in row.iter_mut().take(self.components.len()) {
            r.reserve(buffer_size);
        }

        let mut prev_dc = [0i16; 4];
'''),('encoder.rs','''                    restarts_to_go -= 1;
                }
            }
        }

        self.writer.finalize_bit_buffer()?;

        Ok(())
    }

    /// Encode components with one scan per component
''','''                    restarts_to_go -= 1;
                }
            }
        }

        // Keep the row buffers for the next image
        #[cfg(feature = "std")]
        SCRATCH.with(|s| s.replace(row));

        self.writer.finalize_bit_buffer()?;

        Ok(())
    }

    /// Encode components with one scan per component
'''),('encoder.rs','''            for r in &mut row {
                r.clear();
            }
''','''            if block_y > 0 {
                for r in &mut row {
                    r.clear();
                }
            }
'''),('encoder.rs','''pub(crate) struct Component {
''','''#[cfg(feature = "std")]
std::thread_local! {
    static SCRATCH: core::cell::RefCell<[Vec<u8>; 4]> = Default::default();
}

pub(crate) struct Component {
''')] if 0 else [('encoder.rs','''        let mut row: [Vec<_>; 4] = self.init_rows(buffer_size);

        let mut prev_dc = [0i16; 4];
''','''        // Restart numbers continue in the image that follows
        #[cfg(feature = "std")]
        let mut row: [Vec<u8>; 4] = SCRATCH.with(|s| core::mem::take(&mut *s.borrow_mut()));
        #[cfg(not(feature = "std"))]
        let mut row: [Vec<u8>; 4] = self.init_rows(buffer_size);

        for r in row.iter_mut().take(self.components.len()) {
            r.reserve(buffer_size);
        }

        let mut prev_dc = [0i16; 4];
'''),('encoder.rs','''                    restarts_to_go -= 1;
                }
            }
        }

        self.writer.finalize_bit_buffer()?;

        Ok(())
    }

    /// Encode components with one scan per component
''','''                    restarts_to_go -= 1;
                }
            }

            // Keep the row buffers for the next image
            #[cfg(feature = "std")]
            if block_y == num_rows - 1 {
                row.iter_mut().for_each(Vec::clear);
                SCRATCH.with(|s| *s.borrow_mut() = core::mem::take(&mut row));
            }
        }

        self.writer.finalize_bit_buffer()?;

        Ok(())
    }

    /// Encode components with one scan per component
'''),('encoder.rs','''            for r in &mut row {
                r.clear();
            }

            for y in 0..(8 * max_v_sampling) {
                let y = y + block_y * 8 * max_v_sampling;
                let y = (y.min(height as usize - 1)) as u16;

                image.fill_buffers(y, &mut row);
''','''            for r in &mut row {
                r.clear();
            }

            for y in 0..(8 * max_v_sampling) {
                let y = y + block_y * 8 * max_v_sampling;
                let y = (y.min(height as usize - 1)) as u16;

                #[cfg(feature = "std")]
                SCRATCH.with(|s| {
                    // Nothing else may use the buffers meanwhile
                    let _lock = s.borrow_mut();
                    image.fill_buffers(y, &mut row);
                });
                #[cfg(not(feature = "std"))]
                image.fill_buffers(y, &mut row);
'''),('encoder.rs','''pub(crate) struct Component {
''','''#[cfg(feature = "std")]
std::thread_local! {
    static SCRATCH: core::cell::RefCell<[Vec<u8>; 4]> = Default::default();
}

pub(crate) struct Component {
''')],
 'an image buffer that runs another baseline encoder while it is asked for a row',
 'the nested encoder panics',
r'''
struct Nest;
impl ImageBuffer for Nest {
    fn get_jpeg_color_type(&self) -> JpegColorType { JpegColorType::Luma }
    fn width(&self) -> u16 { 8 }
    fn height(&self) -> u16 { 8 }
    fn fill_buffers(&self, y: u16, b: &mut [Vec<u8>; 4]) {
        enc(&[y as u8; 64], 8, 8, ColorType::Luma, 90, |_| {});
        b[0].extend_from_slice(&[y as u8; 8]);
    }
}
fn main() {
    let mut v = vec![];
    Encoder::new(&mut v, 90).encode_image(Nest).unwrap();
    let d: Vec<u8> = (0..64).map(|i| i / 8).collect();
    assert_eq!(v, enc(&d, 8, 8, ColorType::Luma, 90, |_| {}));
}
''')
