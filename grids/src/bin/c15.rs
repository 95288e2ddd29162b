//! C15: the callee-saved registers an unwinder recovers, for every active frame that has known
//! values in them, through coroutines and stack calls.

#![allow(static_mut_refs)]

use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use grids::choice::{all_from, choose, Path};
use grids::probe::{self, call, Regs, DWARF, NAMES, NREG};
use grids::stacks::{Mem, TStack};
use grids::{at, case, drive, eval, require, Case};
use std::hint::black_box;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

extern "C" {
    fn _Unwind_Backtrace(f: extern "C" fn(*mut u8, *mut Walk) -> i32, arg: *mut Walk) -> i32;
    fn _Unwind_GetIP(ctx: *mut u8) -> usize;
    fn _Unwind_GetGR(ctx: *mut u8, reg: i32) -> usize;
    fn _Unwind_GetCFA(ctx: *mut u8) -> usize;
    fn _Unwind_FindEnclosingFunction(pc: *const u8) -> *const u8;
}

/// A call with known registers that is active: the registers, and the address of something in its caller's frame.
#[derive(Clone, Copy)]
struct Active {
    regs: Regs,
    above: usize,
}
/// Those from the thread's first frame to the current one.
static mut ACTIVE: Vec<Active> = Vec::new();
static mut ROOT: usize = 0;

struct Walk {
    seen: usize,
    root: bool,
    n: usize,
}

extern "C" fn visit(ctx: *mut u8, w: *mut Walk) -> i32 {
    unsafe {
        let w = &mut *w;
        w.n += 1;
        if w.n > 2000 {
            return 1;
        }
        let ip = _Unwind_GetIP(ctx);
        if ip == 0 {
            return 0;
        }
        let f = _Unwind_FindEnclosingFunction(ip as *const u8) as usize;
        if f == ROOT {
            w.root = true;
        }
        if f != probe::grids_probe_call as *const () as usize {
            return 0;
        }
        let k = w.seen;
        w.seen += 1;
        require!(k < ACTIVE.len(), "the walk finds a frame that is not active");
        let a = &ACTIVE[ACTIVE.len() - 1 - k];
        for i in 0..NREG {
            let x = _Unwind_GetGR(ctx, DWARF[i]);
            require!(x == a.regs[i], "{} of active frame {} is recovered as {:#x} instead of {:#x}", NAMES[i], k, x, a.regs[i]);
        }
        // The frame lies below its caller's.
        let cfa = _Unwind_GetCFA(ctx);
        require!(cfa <= a.above && a.above - cfa < 4096, "active frame {} is found elsewhere", k);
        0
    }
}

#[inline(never)]
fn walk() {
    let mut w = Walk { seen: 0, root: false, n: 0 };
    let r = unsafe { _Unwind_Backtrace(visit, &mut w) };
    unsafe {
        require!(w.seen == ACTIVE.len(), "the walk finds {} of {} active frames", w.seen, ACTIVE.len());
        require!(w.root, "the walk does not reach the first frame");
    }
    require!(r == 5, "the walk ends with {}", r);
    eval(w.seen > 0);
}

/// Calls `f` with known registers.
#[inline(never)]
fn known<R, F: FnOnce() -> R>(f: F) -> R {
    unsafe {
        let regs = probe::fresh();
        ACTIVE.push(Active { regs, above: &regs as *const _ as usize + 512 });
        struct G;
        impl Drop for G {
            fn drop(&mut self) {
                unsafe { ACTIVE.pop() };
            }
        }
        let _g = G;
        let (r, out) = call(&regs, f);
        require!(out == regs, "registers changed");
        black_box(&regs);
        r
    }
}

struct Mems {
    c: Mem,
    d: Mem,
    e: Mem,
    aux: Mem,
    aux2: Mem,
}
static mut MEMS: Option<Mems> = None;
fn mems() -> &'static Mems {
    unsafe {
        MEMS.get_or_insert_with(|| Mems {
            c: Mem::new(128 << 10),
            d: Mem::new(128 << 10),
            e: Mem::new(128 << 10),
            aux: Mem::new(128 << 10),
            aux2: Mem::new(128 << 10),
        })
    }
}

type Co = Coroutine<usize, usize, usize, TStack>;

/// Suspends: the coroutine's part of the chain of frames is set aside.
fn suspend(y: &Yielder<usize, usize>, start: &mut usize) {
    unsafe {
        let part: Vec<Active> = ACTIVE.split_off(*start);
        struct Back<'a>(Vec<Active>, &'a mut usize);
        impl Drop for Back<'_> {
            fn drop(&mut self) {
                unsafe {
                    *self.1 = ACTIVE.len();
                    ACTIVE.extend(self.0.iter());
                }
            }
        }
        // When unwinding, the frames are those of the coroutine, too.
        let _b = Back(part, start);
        y.suspend(1);
    }
}

fn operations(y: &Yielder<usize, usize>, start: &mut usize) -> bool {
    match choose(8) {
        0 => return false,
        1 => known(|| suspend(y, start)),
        2 => suspend(y, start),
        3 => known(|| {
            y.on_parent_stack(|| {
                walk();
                known(walk)
            })
        }),
        4 => known(|| {
            on_stack(mems().aux2.stack(), || {
                walk();
                known(walk)
            })
        }),
        // A coroutine within, suspended from within a stack call.
        5 => {
            let mut d: Co = Coroutine::with_stack(mems().d.stack(), |y, _| {
                let mut start = unsafe { ACTIVE.len() };
                walk();
                known(walk);
                known(|| suspend(y, &mut start));
                walk();
                y.on_parent_stack(walk);
                known(|| y.on_parent_stack(|| known(walk)));
                9
            });
            require!(d.resume(1) == CoroutineResult::Yield(1), "wrong yield");
            walk();
            require!(known(|| d.resume(1)) == CoroutineResult::Return(9), "wrong return");
        }
        // The same coroutine's recovery from a trap.
        7 => unsafe {
            let at = *start;
            probe::jump((*CO).trap_handler().setup_trap_handler(move || {
                ACTIVE.truncate(at);
                walk();
                known(walk);
                8
            }))
        },
        // Unwinding, and what runs meanwhile.
        _ => {
            struct W;
            impl Drop for W {
                fn drop(&mut self) {
                    walk();
                    known(walk);
                }
            }
            let n = unsafe { ACTIVE.len() };
            let r = catch_unwind(AssertUnwindSafe(|| {
                let _w = W;
                known(|| {
                    let _w = W;
                    resume_unwind(Box::new(1u8))
                })
            }));
            require!(r.is_err(), "no panic");
            require!(unsafe { ACTIVE.len() } == n, "frames are left");
        }
    }
    true
}

#[inline(never)]
fn body(y: &Yielder<usize, usize>, _: usize) -> usize {
    let mut start = unsafe { ACTIVE.len() };
    walk();
    loop {
        known(walk);
        if !operations(y, &mut start) {
            break;
        }
        walk();
    }
    walk();
    8
}

static mut CO: *const Co = std::ptr::null();

#[inline(never)]
fn host() {
    let mut c: Co = Coroutine::with_stack(mems().c.stack(), body);
    unsafe { CO = &c };
    loop {
        if c.done() {
            break;
        }
        let n = unsafe { ACTIVE.len() };
        match choose(4) {
            0 => {
                known(|| c.resume(1));
            }
            1 => {
                let mut e: Co = Coroutine::with_stack(mems().e.stack(), {
                    let c: &'static mut Co = unsafe { &mut *(&mut c as *mut Co) };
                    move |_, _| {
                        walk();
                        known(|| c.resume(1));
                        walk();
                        3
                    }
                });
                require!(known(|| e.resume(1)) == CoroutineResult::Return(3), "wrong return");
            }
            2 => {
                known(|| {
                    on_stack(mems().aux.stack(), || {
                        walk();
                        known(|| c.resume(1));
                    })
                });
            }
            _ => {
                #[cfg(feature = "unwind")]
                known(|| c.force_unwind());
            }
        }
        require!(unsafe { ACTIVE.len() } == n, "frames are left");
        walk();
    }
}

#[inline(never)]
fn root(f: &mut dyn FnMut()) {
    unsafe { ACTIVE.clear() };
    f();
    black_box(());
}

fn main() {
    unsafe { ROOT = 0 };
    let d = if grids::thorough() { 8 } else { 6 };
    let mut v: Vec<Case> = vec![];
    for h in 0..4u8 {
        for b in 0..8u8 {
            v.push(case(format!("{}{}", h, b), move || {
                let _ = catch_unwind(|| std::panic::panic_any(1));
                unsafe {
                    ROOT = _Unwind_FindEnclosingFunction((root as *const () as usize + 1) as *const u8) as usize;
                }
                all_from(&[h, b], d, || {
                    at!("choices {}", Path);
                    root(&mut || host());
                });
            }));
        }
    }
    drive(
        "C15",
        "a stack walk at every step of every sequence of up to the stated number of operations, comparing the registers recovered for each active frame; non-trivial: at least one such frame",
        v,
    );
}
