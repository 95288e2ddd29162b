//! C02: values of every size, alignment and validity class crossing every kind of switch.

#![allow(static_mut_refs, unused_macros, dead_code)]

use grids::{drive, Case};
use std::alloc::{GlobalAlloc, Layout, System};

struct Counting;
pub static mut ALLOCS: i64 = 0;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ALLOCS += 1;
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        ALLOCS -= 1;
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;


#[cfg(not(feature = "deep"))]
macro_rules! classes {
    ($m:ident $($p:tt)*) => { $m!([$($p)*] (A64 0 0) (A1 0 1) (A4 0 4) (A8 0 8) (A1 0 9) (A64 2 0)); };
}
#[cfg(feature = "deep")]
macro_rules! classes {
    ($m:ident $($p:tt)*) => { $m!([$($p)*] (A64 0 0) (A1 0 1) (A4 0 4) (A1 0 5) (A8 0 8) (A1 0 9) (A16 0 16) (A64 2 0) (A1 8 1)); };
}

macro_rules! list {
    () => { lone!(A1 [(0 0) (0 1) (0 2) (0 3) (0 4) (0 5) (0 6) (0 7) (0 8) (0 9) (0 10) (0 11) (0 12)]); };
}
#[path = "c02/imp.rs"]
mod p0;

macro_rules! list {
    () => { lone!(A1 [(0 13) (0 15) (0 16) (0 17) (0 24) (0 31) (1 0) (1 1) (2 1) (3 7) (32 0) (32 1) (200 3)]); };
}
#[path = "c02/imp.rs"]
mod p1;

macro_rules! list {
    () => { lone!(A2 [(0 0) (0 2) (0 4) (0 6) (0 8) (0 10) (0 16) (0 18)] A4 [(0 0) (0 4) (0 8) (0 12) (0 16) (0 20)]); };
}
#[path = "c02/imp.rs"]
mod p2;

macro_rules! list {
    () => { lone!(A8 [(0 0) (0 8) (0 16) (0 24) (3 0)] A16 [(0 0) (0 16) (1 0) (3 16)] A32 [(0 0) (1 0) (2 0)]); };
}
#[path = "c02/imp.rs"]
mod p3;

macro_rules! list {
    () => { lone!(A64 [(0 0) (0 1) (2 0) (4 0)] A128 [(0 0) (4 0)] A4096 [(0 0) (0 1)]); };
}
#[path = "c02/imp.rs"]
mod p4;

macro_rules! list {
    () => { specials!((), bool, u8, i8, u16, u32, u64, i64, usize, u128, i128, char); };
}
#[path = "c02/imp.rs"]
mod p5;

macro_rules! list {
    () => { specials!(f32, f64, Option<bool>, Option<Option<bool>>, Option<u8>, Option<u32>, Option<u64>, Option<std::num::NonZeroU32>, std::num::NonZeroUsize, std::cmp::Ordering, &'static str, Option<&'static u64>); };
}
#[path = "c02/imp.rs"]
mod p6;

macro_rules! list {
    () => { specials!(&'static [u64], (u8, u32), (u8, u64, u8), (u32, u32), [u8; 3], [u16; 5], String, Option<String>, Vec<u8>, Box<u64>, Option<Box<u64>>, Box<[u8]>); };
}
#[path = "c02/imp.rs"]
mod p7;

macro_rules! list {
    () => { specials!(Result<u8, Box<u32>>, Result<(), ()>, Result<Box<u32>, String>, std::rc::Rc<u32>, fn(u32) -> u32, Box<dyn Fn(u32) -> u32>, Box<dyn std::any::Any + Send>, Packed, __m128i, Mixed, std::mem::MaybeUninit<u64>); };
}
#[path = "c02/imp.rs"]
mod p8;

macro_rules! list {
    () => { cross!(A64 0 0); };
}
#[path = "c02/imp.rs"]
mod p9;

macro_rules! list {
    () => { cross!(A1 0 1); };
}
#[path = "c02/imp.rs"]
mod p10;

macro_rules! list {
    () => { cross!(A4 0 4); };
}
#[path = "c02/imp.rs"]
mod p11;

macro_rules! list {
    () => { cross!(A8 0 8); };
}
#[path = "c02/imp.rs"]
mod p12;

macro_rules! list {
    () => { cross!(A1 0 9); };
}
#[path = "c02/imp.rs"]
mod p13;

macro_rules! list {
    () => { cross!(A64 2 0); };
}
#[path = "c02/imp.rs"]
mod p14;

macro_rules! list {
    () => { huge!(A1 2100 1); };
}
#[path = "c02/imp.rs"]
mod huge;

#[cfg(feature = "deep")]
macro_rules! list {
    () => { lone!(A1 [(0 14) (0 18) (0 19) (0 20) (0 21) (0 22) (0 23) (0 25) (0 26) (0 27)]); };
}
#[cfg(feature = "deep")]
#[path = "c02/imp.rs"]
mod p15;

#[cfg(feature = "deep")]
macro_rules! list {
    () => { lone!(A1 [(0 28) (0 29) (0 30) (1 2) (1 3) (1 4) (1 5) (1 6) (1 7) (1 8)]); };
}
#[cfg(feature = "deep")]
#[path = "c02/imp.rs"]
mod p16;

#[cfg(feature = "deep")]
macro_rules! list {
    () => { lone!(A1 [(1 9) (1 16) (2 0) (4 0) (8 0) (8 1) (16 0) (64 0) (1000 0)]); };
}
#[cfg(feature = "deep")]
#[path = "c02/imp.rs"]
mod p17;

#[cfg(feature = "deep")]
macro_rules! list {
    () => { lone!(A2 [(0 12) (0 14) (0 20) (1 0) (1 2) (32 2)] A4 [(0 24) (0 28) (1 0) (1 4) (32 4)] A8 [(1 0) (1 8) (1 16) (32 8) (300 8)]); };
}
#[cfg(feature = "deep")]
#[path = "c02/imp.rs"]
mod p18;

#[cfg(feature = "deep")]
macro_rules! list {
    () => { lone!(A16 [(2 0) (2 16) (4 0) (32 16)] A32 [(3 0) (4 0) (33 0)] A64 [(6 0) (8 0) (34 0)]); };
}
#[cfg(feature = "deep")]
#[path = "c02/imp.rs"]
mod p19;

#[cfg(feature = "deep")]
macro_rules! list {
    () => { lone!(A128 [(8 0) (12 0) (36 0)] A4096 [(128 1)]); };
}
#[cfg(feature = "deep")]
#[path = "c02/imp.rs"]
mod p20;

#[cfg(feature = "deep")]
macro_rules! list {
    () => { cross!(A1 0 5); };
}
#[cfg(feature = "deep")]
#[path = "c02/imp.rs"]
mod p21;

#[cfg(feature = "deep")]
macro_rules! list {
    () => { cross!(A16 0 16); };
}
#[cfg(feature = "deep")]
#[path = "c02/imp.rs"]
mod p22;

#[cfg(feature = "deep")]
macro_rules! list {
    () => { cross!(A1 8 1); };
}
#[cfg(feature = "deep")]
#[path = "c02/imp.rs"]
mod p23;

fn main() {
    let mut v: Vec<Case> = vec![];
    huge::cases(&mut v);
    p0::cases(&mut v);
    p1::cases(&mut v);
    p2::cases(&mut v);
    p3::cases(&mut v);
    p4::cases(&mut v);
    p5::cases(&mut v);
    p6::cases(&mut v);
    p7::cases(&mut v);
    p8::cases(&mut v);
    p9::cases(&mut v);
    p10::cases(&mut v);
    p11::cases(&mut v);
    p12::cases(&mut v);
    p13::cases(&mut v);
    p14::cases(&mut v);
    #[cfg(feature = "deep")]
    p15::cases(&mut v);
    #[cfg(feature = "deep")]
    p16::cases(&mut v);
    #[cfg(feature = "deep")]
    p17::cases(&mut v);
    #[cfg(feature = "deep")]
    p18::cases(&mut v);
    #[cfg(feature = "deep")]
    p19::cases(&mut v);
    #[cfg(feature = "deep")]
    p20::cases(&mut v);
    #[cfg(feature = "deep")]
    p21::cases(&mut v);
    #[cfg(feature = "deep")]
    p22::cases(&mut v);
    #[cfg(feature = "deep")]
    p23::cases(&mut v);
    drive(
        "C02",
        "every combination of types x every sequence of up to the stated number of choices of driver (drop, resume, force) and body (return, suspend, panic, catch, other stacks, trap) operations; non-trivial: at least one value crossed a switch",
        v,
    );
}
