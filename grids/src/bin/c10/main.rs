//! C10: registers and locals across every kind of switch.

#![allow(static_mut_refs)]

use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use grids::choice::{all, choose, Path};
use grids::probe::{preserved, trash};
use grids::stacks::{Mem, TStack};
use grids::{at, case, drive, eval, fail, require, Case};
use std::hint::black_box;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

mod loops;

/// Sets up the recovery of the coroutine that is about to trap.
trait SetupTrap {
    fn setup(&self, x: usize) -> corosensei::trap::TrapHandlerRegs;
}
struct NoTrap;
impl SetupTrap for NoTrap {
    fn setup(&self, _: usize) -> corosensei::trap::TrapHandlerRegs {
        fail!("nothing to recover")
    }
}
static mut TRAPS: &'static dyn SetupTrap = &NoTrap;

/// Something live around an operation.
trait Around: 'static {
    fn around<R, F: FnOnce() -> R>(what: &'static str, f: F) -> R;
}

struct Probe;
impl Around for Probe {
    #[inline(always)]
    fn around<R, F: FnOnce() -> R>(what: &'static str, f: F) -> R {
        preserved(what, f)
    }
}

static mut SEED: usize = 1;

macro_rules! kernel {
    ($n:ident [$($i:ident)*] [$($f:ident)*]) => {
        struct $n;
        impl Around for $n {
            #[inline(always)]
            fn around<R, F: FnOnce() -> R>(what: &'static str, f: F) -> R {
                let seed = unsafe { SEED += 1; black_box(SEED) };
                let mut k = seed;
                $( k = k.wrapping_mul(0x9E37_79B1).wrapping_add(7); let $i = black_box(k); )*
                $( k = k.wrapping_mul(0x9E37_79B1).wrapping_add(9); let $f = black_box(k as f64 + 0.5); )*
                let r = f();
                let mut c = black_box(seed);
                let mut bad = 0usize;
                $( c = c.wrapping_mul(0x9E37_79B1).wrapping_add(7); bad |= $i ^ c; )*
                $( c = c.wrapping_mul(0x9E37_79B1).wrapping_add(9); bad |= ($f != c as f64 + 0.5) as usize; )*
                let _ = (k, c);
                require!(bad == 0, "a local changed across {}", what);
                r
            }
        }
    };
}
kernel!(K2 [a b] []);
kernel!(K4 [a b c d] [p]);
kernel!(K6 [a b c d e f] []);
kernel!(K9 [a b c d e f g h i] [p q]);
kernel!(K14 [a b c d e f g h i j k l m n] []);
kernel!(K20 [a b c d e f g h i j k l m n o p q r s t] [u v w]);
kernel!(F3 [] [p q r]);
kernel!(F9 [a] [p q r s t u v w x]);
kernel!(F18 [] [a b c d e f g h i j k l m n o p q r]);
kernel!(M8 [a b c d e f g h] [p q r s t u v w]);

type Co = Coroutine<usize, usize, usize, TStack>;

struct Mems {
    co: Mem,
    inner: Mem,
    aux: Mem,
}
static mut MEMS: Option<Mems> = None;
fn mems() -> &'static Mems {
    unsafe {
        MEMS.get_or_insert_with(|| Mems { co: Mem::new(256 << 10), inner: Mem::new(256 << 10), aux: Mem::new(256 << 10) })
    }
}
static mut CO: *const Co = std::ptr::null();
static mut DROPPING: bool = false;

#[inline(never)]
fn do_trap<B: Around, const T: bool>() -> ! {
    unsafe {
        let r = (*CO).trap_handler().setup_trap_handler(|| {
            // The closure's own calls.
            let x = B::around("a call in a recovery closure", || {
                disturb::<T>();
                black_box(5)
            });
            disturb::<T>();
            x
        });
        grids::probe::jump(r)
    }
}

/// One side overwrites registers before it switches; the other must not, or the compiler would keep
/// nothing in them there.
#[inline(always)]
fn disturb<const T: bool>() {
    if T {
        trash();
    }
}

#[inline(always)]
fn foreign() -> usize {
    trash();
    match choose(2) {
        0 => 21,
        _ => std::panic::panic_any(22u8),
    }
}

#[inline(never)]
fn body<B: Around, const T: bool>(y: &Yielder<usize, usize>, first: usize) -> usize {
    let mut last = first;
    loop {
        require!(black_box(last) == 40, "wrong input {}", last);
        last = 40;
        match choose(8) {
            0 => {
                disturb::<T>();
                return 50;
            }
            1 => {
                last = B::around("suspend", || {
                    disturb::<T>();
                    y.suspend(60)
                });
            }
            2 => {
                disturb::<T>();
                std::panic::panic_any(3u8)
            }
            3 => {
                // Forced unwinding (or nothing) passes while something is live further out.
                let r = B::around("suspend with unwinding", || {
                    catch_unwind(AssertUnwindSafe(|| {
                        B::around("suspend", || {
                            disturb::<T>();
                            y.suspend(60)
                        })
                    }))
                });
                match r {
                    Ok(v) => last = v,
                    Err(p) => {
                        if unsafe { DROPPING } || choose(2) == 1 {
                            resume_unwind(p);
                        }
                    }
                }
            }
            4 => {
                let r = B::around("on_parent_stack", || {
                    catch_unwind(AssertUnwindSafe(|| B::around("on_parent_stack inside", || y.on_parent_stack(foreign))))
                });
                check_foreign(r);
            }
            5 => {
                let r = B::around("on_stack in a coroutine", || {
                    catch_unwind(AssertUnwindSafe(|| B::around("on_stack inside", || on_stack(mems().aux.stack(), foreign))))
                });
                check_foreign(r);
            }
            6 => {
                // Another coroutine within this one.
                let how = choose(3);
                let mut c: Co = Coroutine::with_stack(mems().inner.stack(), move |y, i| {
                    if how == 1 {
                        let v = B::around("suspend of a nested coroutine", || {
                            disturb::<T>();
                            y.suspend(i + 1)
                        });
                        disturb::<T>();
                        return v;
                    }
                    if how == 2 {
                        disturb::<T>();
                        std::panic::panic_any(8u8);
                    }
                    i + 2
                });
                let r = B::around("nested resume", || catch_unwind(AssertUnwindSafe(|| B::around("nested resume inside", || c.resume(1)))));
                match (how, r) {
                    (0, Ok(CoroutineResult::Return(3))) => {}
                    (1, Ok(CoroutineResult::Yield(2))) => {
                        B::around("nested drop", || drop(c));
                    }
                    (2, Err(p)) if p.downcast_ref() == Some(&8u8) => {}
                    _ => fail!("wrong outcome of a nested coroutine"),
                }
            }
            _ => {
                disturb::<T>();
                do_trap::<B, T>()
            }
        }
    }
}

fn check_foreign(r: std::thread::Result<usize>) {
    match r {
        Ok(x) => require!(x == 21, "wrong result from another stack"),
        Err(p) => require!(p.downcast_ref() == Some(&22u8), "wrong panic from another stack"),
    }
}

#[inline(never)]
fn host<A: Around, B: Around, const T: bool>() {
    unsafe { DROPPING = false };
    let mut co: Co = if T {
        Coroutine::with_stack(mems().co.stack(), body::<B, false>)
    } else {
        Coroutine::with_stack(mems().co.stack(), body::<B, true>)
    };
    unsafe { CO = &co };
    let mut n = 0;
    loop {
        match choose(4) {
            0 => {
                unsafe { DROPPING = true };
                A::around("drop", || drop(co));
                break;
            }
            1 if co.done() => {
                let r = A::around("resume when done", || catch_unwind(AssertUnwindSafe(|| co.resume(40))));
                require!(r.is_err(), "a completed coroutine was resumed");
            }
            1 => {
                let r = A::around("resume with unwinding", || {
                    catch_unwind(AssertUnwindSafe(|| {
                        A::around("resume", || {
                            disturb::<T>();
                            co.resume(40)
                        })
                    }))
                });
                match r {
                    Ok(CoroutineResult::Yield(v)) => require!(v == 60, "wrong yield {}", v),
                    Ok(CoroutineResult::Return(v)) => require!(v == 50 || v == 5, "wrong return {}", v),
                    Err(p) => require!(p.downcast_ref() == Some(&3u8), "wrong panic"),
                }
            }
            2 => {
                let _ = A::around("force_unwind", || catch_unwind(AssertUnwindSafe(|| A::around("force_unwind inside", || co.force_unwind()))));
            }
            _ => {
                let r = A::around("on_stack", || {
                    catch_unwind(AssertUnwindSafe(|| A::around("on_stack inside", || on_stack(mems().aux.stack(), foreign))))
                });
                check_foreign(r);
            }
        }
        n += 1;
    }
    eval(n > 0);
}

fn run<A: Around + 'static, B: Around + 'static>(v: &mut Vec<Case>, name: &str, d: usize) {
    let name = name.to_string();
    v.push(case(name.clone(), move || {
        let _ = catch_unwind(|| std::panic::panic_any(1));
        all(d, || {
            at!("{} choices {}", name, Path);
            if choose(2) == 0 {
                host::<A, B, false>();
            } else {
                host::<A, B, true>();
            }
        });
        require!(mems().co.check(0) && mems().inner.check(0) && mems().aux.check(0), "memory above a stack written");
    }));
}

fn main() {
    let d = if grids::thorough() { 11 } else { 9 };
    let mut v = vec![];
    macro_rules! pairs {
        ($($a:ident $b:ident),*) => { $( run::<$a, $b>(&mut v, concat!("host ", stringify!($a), " coroutine ", stringify!($b)), d); )* };
    }
    pairs!(
        Probe Probe, K2 K2, K4 K4, K6 K6, K9 K9, K14 K14, K20 K20, F3 F3, F9 F9, F18 F18, M8 M8,
        Probe K2, Probe K4, Probe K6, Probe K9, Probe K14, Probe K20, K2 Probe, K4 Probe, K6 Probe, K9 Probe, K14 Probe, K20 Probe,
        Probe F18, F18 Probe, K9 F9, F9 K9
    );
    loops::cases(&mut v);
    drive(
        "C10",
        "loops with up to 17 live variables around each of ten kinds of switch, against the same loop without; and register probes or kernels with many live locals on both sides x every sequence of up to the stated number of choices of resume, force, drop, on_stack / suspend, return, panic, catch, on_parent_stack, on_stack, nested coroutine, trap; non-trivial: at least one operation",
        v,
    );
}
