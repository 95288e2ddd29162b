//! Stack walks, as seen by the platform's unwinder and through frame pointers.

use crate::real::{sp, w};

extern "C" {
    fn _Unwind_Backtrace(f: extern "C" fn(*mut u8, *mut Walk) -> i32, arg: *mut Walk) -> i32;
    fn _Unwind_GetIP(ctx: *mut u8) -> usize;
    fn _Unwind_GetCFA(ctx: *mut u8) -> usize;
    fn _Unwind_FindEnclosingFunction(pc: *const u8) -> *const u8;
}

pub const BROKEN: u32 = 0xFFFF_0000;
const END_OF_STACK: i32 = 5;

pub struct Walk {
    target: usize,
    root: usize,
    out: Vec<u32>,
    saw_root: bool,
    n: usize,
}

/// The frame whose registered local is nearest above `a`.
fn frame_above(a: usize) -> u32 {
    let mut best = (usize::MAX, BROKEN + 1);
    for (uid, f) in w().frames.iter().enumerate() {
        if *f >= a && *f - a < best.0 {
            best = (*f - a, uid as u32);
        }
    }
    best.1
}

fn frame_below(a: usize) -> u32 {
    let mut best = (usize::MAX, BROKEN + 1);
    for (uid, f) in w().frames.iter().enumerate() {
        if *f <= a && a - *f < best.0 {
            best = (a - *f, uid as u32);
        }
    }
    best.1
}

extern "C" fn visit(ctx: *mut u8, wk: *mut Walk) -> i32 {
    unsafe {
        let wk = &mut *wk;
        wk.n += 1;
        if wk.n > 3000 {
            return 1;
        }
        let ip = _Unwind_GetIP(ctx);
        if ip == 0 {
            return 0;
        }
        let f = _Unwind_FindEnclosingFunction(ip as *const u8) as usize;
        if f == wk.target {
            wk.out.push(frame_above(_Unwind_GetCFA(ctx)));
        } else if f == wk.root {
            if wk.saw_root {
                wk.out.push(BROKEN + 2);
            }
            wk.saw_root = true;
        }
        0
    }
}

#[inline(never)]
pub fn walk(target: usize, root: usize) -> Vec<u32> {
    let mut wk = Walk { target, root, out: vec![], saw_root: false, n: 0 };
    let r = unsafe { _Unwind_Backtrace(visit, &mut wk) };
    if !wk.saw_root {
        wk.out.push(BROKEN + 3);
    }
    if r != END_OF_STACK {
        wk.out.push(BROKEN + 4);
    }
    wk.out
}

#[inline(never)]
pub fn fp_walk(target: usize, root: usize) -> Vec<u32> {
    let mut out = vec![];
    let mut fp: usize;
    unsafe {
        #[cfg(target_arch = "x86_64")]
        core::arch::asm!("mov {}, rbp", out(reg) fp);
        #[cfg(target_arch = "x86")]
        core::arch::asm!("mov {}, ebp", out(reg) fp);
        let word = std::mem::size_of::<usize>();
        let _ = sp();
        for _ in 0..3000 {
            if !w().known_memory(fp) {
                out.push(BROKEN + 5);
                return out;
            }
            let pc = *((fp + word) as *const usize);
            fp = *(fp as *const usize);
            let f = _Unwind_FindEnclosingFunction(pc as *const u8) as usize;
            let g = _Unwind_FindEnclosingFunction((pc + 1) as *const u8) as usize;
            if g == pc {
                // The start of a function, not a return address: the parent link record.
                continue;
            }
            if f == target {
                out.push(frame_below(fp));
            } else if f == root {
                return out;
            }
        }
    }
    out.push(BROKEN + 6);
    out
}
