#![no_std]
#![no_main]
extern crate alloc;
use alloc::boxed::Box;
use alloc::format;
use alloc::vec::Vec;
use core::alloc::{GlobalAlloc, Layout};
use core::arch::asm;
use je_nostd::*;

unsafe fn syscall(n: u32, a: u32, b: u32, c: u32) -> i32 {
    let r: i32;
    asm!("int 0x80", inlateout("eax") n as i32 => r, in("ebx") a, in("ecx") b, in("edx") c);
    r
}
fn exit(code: u32) -> ! {
    unsafe {
        syscall(252, code, 0, 0);
    }
    loop {}
}
fn read(mut p: *mut u8, mut n: usize) -> bool {
    while n > 0 {
        let k = unsafe { syscall(3, 0, p as u32, n as u32) };
        if k <= 0 {
            return false;
        }
        n -= k as usize;
        p = unsafe { p.add(k as usize) };
    }
    true
}
fn send(mut b: &[u8]) {
    while !b.is_empty() {
        let k = unsafe { syscall(4, 1, b.as_ptr() as u32, b.len() as u32) };
        if k <= 0 {
            exit(3);
        }
        b = &b[k as usize..];
    }
}
fn answer(status: u8, b: &[u8]) {
    let mut h = [status; 5];
    h[1..].copy_from_slice(&(b.len() as u32).to_le_bytes());
    send(&h);
    send(b);
}

/// Everything is given back between two cases.
struct Arena;
const SIZE: usize = 1 << 30;
static mut BASE: usize = 0;
static mut NEXT: usize = 0;
static mut LAST: usize = 0;
unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = (NEXT + l.align() - 1) & !(l.align() - 1);
        if l.size() > BASE + SIZE - p {
            return core::ptr::null_mut();
        }
        LAST = p;
        NEXT = p + l.size();
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, _: Layout) {
        if p as usize == LAST {
            NEXT = LAST;
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if p as usize == LAST && n <= BASE + SIZE - LAST {
            NEXT = LAST + n;
            return p;
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            core::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
        }
        q
    }
}
#[global_allocator]
static A: Arena = Arena;

struct Text([u8; 400], usize);
impl core::fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for b in s.bytes() {
            if self.1 < self.0.len() {
                self.0[self.1] = b;
                self.1 += 1;
            }
        }
        Ok(())
    }
}
#[panic_handler]
fn panic(i: &core::panic::PanicInfo) -> ! {
    use core::fmt::Write;
    let mut t = Text([0; 400], 0);
    let _ = write!(t, "{}", i);
    answer(2, &t.0[..t.1]);
    exit(0)
}

struct In<'a>(&'a [u8]);
impl<'a> In<'a> {
    fn u8(&mut self) -> u8 {
        let x = self.0[0];
        self.0 = &self.0[1..];
        x
    }
    fn u16(&mut self) -> u16 {
        u16::from_le_bytes([self.u8(), self.u8()])
    }
    fn u32(&mut self) -> u32 {
        self.u16() as u32 | (self.u16() as u32) << 16
    }
    fn bytes(&mut self) -> &'a [u8] {
        let n = self.u32() as usize;
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    /// 255: not set
    fn qt(&mut self) -> Option<QuantizationTableType> {
        use QuantizationTableType::*;
        Some(match self.u8() {
            255 => return None,
            254 => {
                let mut t = [0u16; 64];
                for x in &mut t {
                    *x = self.u16();
                }
                Custom(Box::new(t))
            }
            n => [Default, Flat, CustomMsSsim, CustomPsnrHvs, ImageMagick, KleinSilversteinCarney,
                  DentalXRays, VisualDetectionModel, ImprovedDetectionModel][n as usize].clone(),
        })
    }
}

struct Buf<'a> {
    jct: u8,
    w: u16,
    h: u16,
    p: [&'a [u8]; 4],
}
impl ImageBuffer for Buf<'_> {
    fn get_jpeg_color_type(&self) -> JpegColorType {
        use JpegColorType::*;
        [Luma, Ycbcr, Cmyk, Ycck][self.jct as usize]
    }
    fn width(&self) -> u16 {
        self.w
    }
    fn height(&self) -> u16 {
        self.h
    }
    fn fill_buffers(&self, y: u16, b: &mut [Vec<u8>; 4]) {
        let w = self.w as usize;
        for k in 0..4 {
            if !self.p[k].is_empty() {
                b[k].extend_from_slice(&self.p[k][y as usize * w..(y as usize + 1) * w]);
            }
        }
    }
}

fn sampling(n: u8) -> SamplingFactor {
    use SamplingFactor::*;
    [F_1_1, F_2_1, F_1_2, F_2_2, F_4_1, F_4_2, F_1_4, F_2_4, R_4_4_4, R_4_4_0, R_4_4_1, R_4_2_2,
     R_4_2_0, R_4_2_1, R_4_1_1, R_4_1_0][n as usize]
}

fn case(mut i: In) {
    let color = i.u8();
    let (w, h, q) = (i.u16(), i.u16(), i.u8());
    let mut out = Vec::new();
    let mut e = Encoder::new(&mut out, q);
    let s = i.u8();
    if s != 255 {
        e.set_sampling_factor(sampling(s));
    }
    let (a, b) = (i.qt(), i.qt());
    if a.is_some() || b.is_some() {
        e.set_quantization_tables(a.unwrap_or(QuantizationTableType::Default), b.unwrap_or(QuantizationTableType::Default));
    }
    match i.u8() {
        0 => {}
        1 => e.set_progressive(true),
        n => e.set_progressive_scans(n),
    }
    if i.u8() == 1 {
        e.set_optimized_huffman_tables(true);
    }
    let r = i.u16();
    if r != 0 {
        e.set_restart_interval(r);
    }
    let (u, x, y) = (i.u8(), i.u16(), i.u16());
    match u {
        255 => {}
        1 => e.set_density(Density::Inch { x, y }),
        2 => e.set_density(Density::Centimeter { x, y }),
        _ => e.set_density(Density::None),
    }
    let mut failed = None;
    for _ in 0..i.u16() {
        let nr = i.u8();
        let b = i.bytes();
        let r = if nr == 255 { e.add_icc_profile(b) } else { e.add_app_segment(nr, b) };
        if let Err(x) = r {
            failed = Some(x);
        }
    }
    use ColorType::*;
    let r = match i.u8() {
        0 => {
            let ct = [Luma, Rgb, Rgba, Bgr, Bgra, Ycbcr, Cmyk, CmykAsYcck, Ycck][color as usize];
            e.encode(i.bytes(), w, h, ct)
        }
        n => {
            let p = [i.bytes(), i.bytes(), i.bytes(), i.bytes()];
            e.encode_image(Buf { jct: n - 1, w, h, p })
        }
    };
    match (failed, r) {
        (None, Ok(())) => answer(0, &out),
        (Some(x), _) => answer(1, format!("{:?}", x).as_bytes()),
        (_, Err(x)) => answer(1, format!("{:?}", x).as_bytes()),
    }
}

fn run() -> ! {
    unsafe {
        // old_mmap's argument block: address, length, protection, private | anonymous | noreserve
        let args: [u32; 6] = [0, SIZE as u32, 3, 0x4022, !0, 0];
        let p = syscall(90, args.as_ptr() as u32, 0, 0);
        if p as u32 > 0xffff_f000 {
            exit(4);
        }
        BASE = p as u32 as usize;
        loop {
            NEXT = BASE;
            LAST = 0;
            let mut n = [0u8; 4];
            if !read(n.as_mut_ptr(), 4) {
                exit(0);
            }
            let mut b = Vec::<u8>::with_capacity(u32::from_le_bytes(n) as usize);
            if !read(b.as_mut_ptr(), u32::from_le_bytes(n) as usize) {
                exit(5);
            }
            b.set_len(u32::from_le_bytes(n) as usize);
            if b.is_empty() {
                answer(0, b"32");
                continue;
            }
            case(In(&b));
        }
    }
}

core::arch::global_asm!(".globl _start", "_start:", "xor %ebp, %ebp", "and $-16, %esp", "call main32", options(att_syntax));
#[no_mangle]
extern "C" fn main32() -> ! {
    run()
}
