//! `interp <std|simd|nostd> <quick|thorough> <first> <step>`: runs the cases first, first + step, ...
//! and prints what came out.
#![allow(dead_code)]

#[path = "../../mc/src/case.rs"]
mod case;
#[path = "../../mc/src/enc.rs"]
mod enc;
#[path = "../../mc/src/jpeg.rs"]
mod jpeg;
#[path = "../../mc/src/presets.rs"]
mod presets;
#[path = "../../mc/src/sample.rs"]
mod sample;

use case::*;
use enc::*;

fn main() {
    quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let var = match a[1].as_str() {
        "std" => Var::Std,
        "simd" => Var::Simd,
        _ => Var::NoStd,
    };
    let l = sample::cases(a[2] == "thorough", var);
    let (mut i, step): (usize, usize) = (a[3].parse().unwrap(), a[4].parse().unwrap());
    #[cfg(target_arch = "x86_64")]
    println!("avx2 {}", std::is_x86_feature_detected!("avx2"));
    #[cfg(target_arch = "x86")]
    println!("avx2 {}", std::is_x86_feature_detected!("avx2"));
    println!("target {} {}", std::mem::size_of::<usize>(), cfg!(target_endian = "big"));
    while i < l.len() {
        println!("case {}", i);
        let r = run(&l[i]);
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for x in &r.bytes {
            h = (h ^ *x as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
        println!("out {} {} {:016x} {:?} {:?}", i, r.bytes.len(), h, r.setup, r.out);
        i += step;
    }
    println!("end");
}
