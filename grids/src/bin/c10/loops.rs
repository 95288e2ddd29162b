//! Loops with many live variables around one kind of switch each, compared with the same loop
//! without a switch. The other side overwrites every register it may before switching back.

use super::mems;
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use grids::probe::trash;
use grids::stacks::TStack;
use grids::{at, case, eval, fail, require, Case};
use std::hint::black_box;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

/// Makes every instantiation's types its own, so that what the crate does with them is inlined.
#[derive(Clone, Copy)]
struct W<const K: usize>(usize);

pub const KINDS: [&str; 10] = [
    "resume",
    "suspend",
    "on_stack",
    "on_parent_stack",
    "a whole coroutine",
    "a panicking coroutine",
    "dropping a suspended coroutine",
    "a suspend that is unwound",
    "a trapping coroutine",
    "a panic on another stack",
];

fn noise<const K: usize>(y: &Yielder<W<K>, W<K>>, mut x: W<K>) -> W<K> {
    loop {
        trash();
        x = y.suspend(x);
    }
}

/// Runs `f` in a coroutine and answers each of its suspends with the value yielded.
#[inline(never)]
fn inside<const K: usize>(f: impl FnOnce(&Yielder<W<K>, W<K>>) -> usize + 'static) -> usize {
    let mut co = Coroutine::<W<K>, W<K>, W<K>, TStack>::with_stack(mems().co.stack(), move |y, _| W(f(y)));
    let mut x = W(0);
    loop {
        trash();
        match co.resume(x) {
            CoroutineResult::Yield(v) => x = v,
            CoroutineResult::Return(v) => return v.0,
        }
    }
}

macro_rules! kernels {
    ($($n:ident $k:literal [$($i:ident)*] [$($f:ident)*];)*) => {
        $(mod $n {
            use super::*;
            const K: usize = $k;

            #[inline(always)]
            fn kernel(seed: usize, mut sw: impl FnMut(usize) -> usize) -> usize {
                let mut s = seed;
                $( s = s.wrapping_mul(0x9E37_79B1).wrapping_add(7); let mut $i = s; )*
                $( s = s.wrapping_mul(0x9E37_79B1).wrapping_add(9); let mut $f = (s & 0xffff) as f64; )*
                let mut n = 0;
                while n < 12 {
                    let mut c = n;
                    $( $i = $i.wrapping_mul(3).wrapping_add(c); c ^= $i >> 1; )*
                    $( $f = $f * 0.5 + n as f64; )*
                    let r = sw(c);
                    $( $i ^= r; )*
                    s ^= r;
                    n += 1;
                }
                $( s = s.wrapping_mul(31).wrapping_add($i); )*
                $( s = s.wrapping_mul(31).wrapping_add($f.to_bits() as usize ^ ($f.to_bits() >> 32) as usize); )*
                s
            }

            #[inline(never)]
            pub fn plain(seed: usize) -> usize {
                kernel(seed, |x| black_box(x))
            }

            #[inline(never)]
            fn resume(seed: usize) -> usize {
                let mut co = Coroutine::<W<K>, W<K>, W<K>, TStack>::with_stack(mems().co.stack(), noise::<K>);
                let v = kernel(seed, |x| match co.resume(W(x)) {
                    CoroutineResult::Yield(v) => v.0,
                    CoroutineResult::Return(_) => 0,
                });
                v
            }
            #[inline(never)]
            fn suspend(seed: usize) -> usize {
                inside::<K>(move |y| kernel(seed, |x| y.suspend(W(x)).0))
            }
            #[inline(never)]
            fn stack(seed: usize) -> usize {
                kernel(seed, |x| on_stack(mems().aux.stack(), || { trash(); x }))
            }
            #[inline(never)]
            fn parent(seed: usize) -> usize {
                inside::<K>(move |y| kernel(seed, |x| y.on_parent_stack(|| { trash(); x })))
            }
            #[inline(never)]
            fn whole(seed: usize) -> usize {
                kernel(seed, |x| {
                    let mut co = Coroutine::<W<K>, (), usize, TStack>::with_stack(mems().co.stack(), |_, v| { trash(); v.0 });
                    match co.resume(W(x)) {
                        CoroutineResult::Return(v) => v,
                        CoroutineResult::Yield(()) => 0,
                    }
                })
            }
            #[inline(never)]
            fn panicking(seed: usize) -> usize {
                kernel(seed, |x| {
                    let mut co = Coroutine::<W<K>, u8, (), TStack>::with_stack(mems().co.stack(), |_, v| { trash(); panic_any(v.0) });
                    match catch_unwind(AssertUnwindSafe(|| co.resume(W(x)))) {
                        Err(e) => *e.downcast::<usize>().unwrap(),
                        Ok(_) => 0,
                    }
                })
            }
            #[inline(never)]
            fn dropped(seed: usize) -> usize {
                kernel(seed, |x| {
                    let mut co = Coroutine::<W<K>, u16, (), TStack>::with_stack(mems().co.stack(), |y, _| { trash(); y.suspend(1); });
                    co.resume(W(0));
                    drop(co);
                    x
                })
            }
            #[inline(never)]
            fn unwound(seed: usize) -> usize {
                let mut co = Coroutine::<W<K>, W<K>, usize, TStack>::with_stack(mems().co.stack(), move |y, _| {
                    kernel(seed, |x| {
                        let r = catch_unwind(AssertUnwindSafe(|| y.suspend(W(x)).0));
                        match r {
                            Ok(v) => v,
                            Err(e) => { drop(e); y.suspend(W(!x)).0 }
                        }
                    })
                });
                let mut x = W(0);
                loop {
                    trash();
                    match co.resume(x) {
                        CoroutineResult::Return(v) => return v,
                        CoroutineResult::Yield(v) => {
                            trash();
                            require!(catch_unwind(AssertUnwindSafe(|| co.force_unwind())).is_err(), "swallowed unwinding not reported");
                            // It suspended again, with a value that is discarded.
                            x = v;
                        }
                    }
                }
            }
            #[inline(never)]
            fn trapping(seed: usize) -> usize {
                kernel(seed, |x| {
                    let mut co = Coroutine::<W<K>, u32, usize, TStack>::with_stack(mems().co.stack(), |_, v| {
                        trash();
                        let r = v.0;
                        unsafe {
                            let h = (*super::super::TRAPS).setup(r);
                            trash();
                            grids::probe::jump(h)
                        }
                    });
                    let t = Setup(co.trap_handler());
                    unsafe { super::super::TRAPS = std::mem::transmute::<&dyn super::super::SetupTrap, &'static dyn super::super::SetupTrap>(&t) };
                    match co.resume(W(x)) {
                        CoroutineResult::Return(v) => v,
                        CoroutineResult::Yield(_) => 0,
                    }
                })
            }
            #[inline(never)]
            fn stack_panic(seed: usize) -> usize {
                kernel(seed, |x| {
                    let r = catch_unwind(|| on_stack(mems().aux.stack(), || -> u8 { trash(); panic_any(x) }));
                    match r {
                        Err(e) => *e.downcast::<usize>().unwrap(),
                        Ok(_) => 0,
                    }
                })
            }
            pub const ALL: [fn(usize) -> usize; 10] = [resume, suspend, stack, parent, whole, panicking, dropped, unwound, trapping, stack_panic];
        })*
        pub fn cases(v: &mut Vec<Case>) {
            $(
                for (j, what) in KINDS.iter().enumerate() {
                    v.push(case(format!("loop {} around {}", stringify!($n), what), move || {
                        let _ = catch_unwind(|| panic_any(1));
                        for seed in [1usize, 0, !0, 12345, 0x8000_0000] {
                            let seed = black_box(seed);
                            at!("seed {}", seed);
                            let want = $n::plain(seed);
                            let got = $n::ALL[j](seed);
                            if want != got {
                                fail!("a variable changed across {}", what);
                            }
                            eval(true);
                        }
                    }));
                }
            )*
        }
    };
}

struct Setup(corosensei::trap::CoroutineTrapHandler<usize>);
impl super::SetupTrap for Setup {
    fn setup(&self, x: usize) -> corosensei::trap::TrapHandlerRegs {
        unsafe {
            self.0.setup_trap_handler(move || {
                trash();
                x
            })
        }
    }
}

kernels! {
    i1 1 [a] [];
    i2 2 [a b] [];
    i3 3 [a b c] [];
    i4 4 [a b c d] [];
    i5 5 [a b c d e] [];
    i6 6 [a b c d e f] [];
    i7 7 [a b c d e f g] [];
    i9 9 [a b c d e f g h i] [];
    i14 14 [a b c d e f g h i j k l m n] [];
    f1 21 [] [p];
    f4 24 [] [p q r s];
    f9 29 [] [p q r s t u v w x];
    f17 37 [] [a b c d e f g h i j k l m n o p q];
    m3 43 [a b c] [p q r];
    m8 48 [a b c d e f g h] [p q r s t u v w];
}
