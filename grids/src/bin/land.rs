//! C05, C06, C10: the frames in which a panic or a forced unwinding lands after a switch.
//!
//! A frame with locals of every size near its end calls a function with every number of arguments,
//! performs an operation that does not return, and its destructors find the locals as they were.

#![allow(static_mut_refs)]

use corosensei::stack::{Stack, StackPointer};
use corosensei::{on_stack, Coroutine, Yielder};
use grids::stacks::{Mem, TStack};
use grids::{at, case, drive, eval, require, Case};
use std::hint::black_box;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

type Co = Coroutine<usize, usize, usize, TStack>;

struct Mems {
    co: Mem,
    inner: Mem,
    aux: Mem,
}
static mut MEMS: Option<Mems> = None;
fn mems() -> &'static Mems {
    unsafe { MEMS.get_or_insert_with(|| Mems { co: Mem::new(256 << 10), inner: Mem::new(256 << 10), aux: Mem::new(256 << 10) }) }
}

static mut LANDED: usize = 0;

/// A local that is verified when it is dropped.
struct Guard<const L: usize>([usize; L], usize);
impl<const L: usize> Guard<L> {
    #[inline(always)]
    fn new(n: usize) -> Self {
        let n = black_box(n);
        let mut a = [0; L];
        let mut i = 0;
        while i < L {
            a[i] = n.wrapping_mul(i + 3);
            i += 1;
        }
        black_box(Guard(a, n))
    }
    fn intact(&self) -> bool {
        (0..L).all(|i| self.0[i] == self.1.wrapping_mul(i + 3))
    }
}
impl<const L: usize> Drop for Guard<L> {
    #[inline(never)]
    fn drop(&mut self) {
        // All that this function's frame covers is overwritten.
        let mut a = [0usize; 16];
        for (i, x) in a.iter_mut().enumerate() {
            unsafe { std::ptr::write_volatile(x, !i) };
        }
        black_box(&mut a);
        require!(self.intact(), "a local is {:x?} in the landing pad", &self.0[..]);
        unsafe { LANDED += 1 };
    }
}

static mut SINK: usize = 0;
macro_rules! callees {
    ($($n:ident [$($a:ident)*])*) => {
        $( #[inline(never)]
        extern "C-unwind" fn $n($($a: usize),*) -> usize {
            let x = 0usize $( .wrapping_add($a) )*;
            unsafe { SINK += x };
            if black_box(x) == 77 { resume_unwind(Box::new(())) }
            x
        } )*
    };
}
callees! {
    f0 [] f1 [a] f2 [a b] f3 [a b c] f4 [a b c d] f5 [a b c d e] f6 [a b c d e f] f7 [a b c d e f g] f8 [a b c d e f g h]
    f9 [a b c d e f g h i] f11 [a b c d e f g h i j k] f14 [a b c d e f g h i j k l m n] f17 [a b c d e f g h i j k l m n o p q]
}
macro_rules! apply {
    ($f:ident [$($t:ident)*] [$($v:expr)*]) => {{
        let p: extern "C-unwind" fn($($t),*) -> usize = black_box($f);
        p($($v),*)
    }};
}

#[inline(always)]
fn call<const A: usize>(z: usize) -> usize {
    type U = usize;
    match A {
        0 => apply!(f0 [] []),
        1 => apply!(f1 [U] [z]),
        2 => apply!(f2 [U U] [1 z]),
        3 => apply!(f3 [U U U] [1 2 z]),
        4 => apply!(f4 [U U U U] [1 2 3 z]),
        5 => apply!(f5 [U U U U U] [1 2 3 4 z]),
        6 => apply!(f6 [U U U U U U] [1 2 3 4 5 z]),
        7 => apply!(f7 [U U U U U U U] [1 2 3 4 5 6 z]),
        8 => apply!(f8 [U U U U U U U U] [1 2 3 4 5 6 7 z]),
        9 => apply!(f9 [U U U U U U U U U] [1 2 3 4 5 6 7 8 z]),
        11 => apply!(f11 [U U U U U U U U U U U] [1 2 3 4 5 6 7 8 9 10 z]),
        14 => apply!(f14 [U U U U U U U U U U U U U U] [1 2 3 4 5 6 7 8 9 10 11 12 13 z]),
        _ => apply!(f17 [U U U U U U U U U U U U U U U U U] [1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 z]),
    }
}

/// The frame: two locals, one of them used after the call, and `op`, which does not return.
#[inline(always)]
fn frame<const A: usize, const L: usize>(n: usize, op: impl FnOnce()) {
    let g = Guard::<L>::new(n);
    let h = Guard::<2>::new(n + 1);
    black_box(call::<A>(1000 + n));
    op();
    drop(h);
    drop(g);
    grids::fail!("the operation returned");
}

#[derive(PartialEq, Debug)]
struct P(usize);

#[inline(always)]
fn landed(n: usize) {
    unsafe {
        require!(LANDED == n, "{} locals dropped instead of {}", LANDED, n);
        LANDED = 0;
    }
}

fn expect(r: std::thread::Result<()>, x: usize) {
    match r {
        Ok(()) => grids::fail!("no panic"),
        Err(p) => require!(p.downcast_ref() == Some(&P(x)), "another payload"),
    }
}

const OPS: usize = 13;
const NAMES: [&str; OPS] = [
    "panic out of a coroutine",
    "panic out of a nested coroutine",
    "forced unwinding of a suspended coroutine",
    "drop of a suspended coroutine",
    "panic out of a forced unwinding",
    "panic out of on_stack",
    "panic out of on_parent_stack",
    "panic out of on_stack in a coroutine",
    "panic out of a recovery",
    "several in separate functions",
    "panic out of the only resume of its type",
    "panic out of the only forced unwinding of its type",
    "the only suspend of its type",
];

/// Frames with nothing else in them.
#[inline(never)]
fn in_resume<const A: usize, const L: usize>(c: &mut Co) {
    frame::<A, L>(5, || drop(black_box(c.resume(6))))
}
#[inline(never)]
fn in_suspend<const A: usize, const L: usize>(y: &Yielder<usize, usize>) {
    frame::<A, L>(5, || drop(black_box(y.suspend(6))))
}
#[inline(never)]
fn in_force<const A: usize, const L: usize>(c: &mut Co) {
    frame::<A, L>(5, || c.force_unwind())
}
#[inline(never)]
fn in_parent<const A: usize, const L: usize>(y: &Yielder<usize, usize>) {
    frame::<A, L>(5, || y.on_parent_stack(|| resume_unwind(Box::new(P(12)))))
}
#[inline(never)]
fn in_stack<const A: usize, const L: usize>(s: TStack) {
    frame::<A, L>(5, || on_stack(s, || resume_unwind(Box::new(P(11)))))
}

#[inline(never)]
fn separate<const A: usize, const L: usize>() {
    let m = mems();
    let mut c: Co = Coroutine::with_stack(m.co.stack(), |_, i| resume_unwind(Box::new(P(i))));
    expect(catch_unwind(AssertUnwindSafe(|| in_resume::<A, L>(&mut c))), 6);
    landed(2);
    drop(c);
    let mut c: Co = Coroutine::with_stack(m.co.stack(), |y, _| {
        let r = catch_unwind(AssertUnwindSafe(|| in_suspend::<A, L>(y)));
        std::mem::forget(r);
        resume_unwind(Box::new(P(9)))
    });
    black_box(c.resume(1));
    expect(catch_unwind(AssertUnwindSafe(|| in_force::<A, L>(&mut c))), 9);
    landed(4);
    drop(c);
    let mut c: Co = Coroutine::with_stack(m.co.stack(), |y, _| {
        let r = catch_unwind(AssertUnwindSafe(|| in_parent::<A, L>(y)));
        expect(r, 12);
        let r = catch_unwind(AssertUnwindSafe(|| in_stack::<A, L>(mems().aux.stack())));
        expect(r, 11);
        in_suspend::<A, L>(y);
        3
    });
    black_box(c.resume(1));
    landed(4);
    c.force_unwind();
    landed(2);
}

#[inline(never)]
fn resume_panic<const A: usize, const L: usize>() {
    let mut c: Co = Coroutine::with_stack(mems().co.stack(), |_, i| resume_unwind(Box::new(P(i))));
    let r = catch_unwind(AssertUnwindSafe(|| frame::<A, L>(5, || drop(black_box(c.resume(6))))));
    expect(r, 6);
    landed(2);
}

#[inline(never)]
fn nested_panic<const A: usize, const L: usize>() {
    let mut c: Co = Coroutine::with_stack(mems().co.stack(), |_, _| {
        let mut c: Co = Coroutine::with_stack(mems().inner.stack(), |_, i| resume_unwind(Box::new(P(i))));
        frame::<A, L>(5, || drop(black_box(c.resume(6))));
        0
    });
    let r = catch_unwind(AssertUnwindSafe(|| frame::<A, L>(7, || drop(black_box(c.resume(8))))));
    expect(r, 6);
    landed(4);
}

#[inline(always)]
fn suspended<const A: usize, const L: usize>(force: bool) {
    let mut c: Co = Coroutine::with_stack(mems().co.stack(), |y: &Yielder<usize, usize>, _| {
        frame::<A, L>(5, || drop(black_box(y.suspend(6))));
        0
    });
    black_box(c.resume(1));
    if force {
        c.force_unwind();
    }
    drop(c);
    landed(2);
}

#[inline(never)]
fn forced<const A: usize, const L: usize>() {
    suspended::<A, L>(true)
}

#[inline(never)]
fn dropped<const A: usize, const L: usize>() {
    suspended::<A, L>(false)
}

#[inline(never)]
fn replaced<const A: usize, const L: usize>() {
    let mut c: Co = Coroutine::with_stack(mems().co.stack(), |y: &Yielder<usize, usize>, _| {
        let r = catch_unwind(AssertUnwindSafe(|| frame::<A, L>(5, || drop(black_box(y.suspend(6))))));
        std::mem::forget(r);
        resume_unwind(Box::new(P(9)))
    });
    black_box(c.resume(1));
    let r = catch_unwind(AssertUnwindSafe(|| frame::<A, L>(5, || c.force_unwind())));
    expect(r, 9);
    landed(4);
}

#[inline(never)]
fn on_stack_panic<const A: usize, const L: usize>() {
    let r = catch_unwind(AssertUnwindSafe(|| {
        frame::<A, L>(5, || {
            on_stack(mems().aux.stack(), || resume_unwind(Box::new(P(11))))
        })
    }));
    expect(r, 11);
    landed(2);
}

#[inline(never)]
fn on_parent_panic<const A: usize, const L: usize>() {
    let mut c: Co = Coroutine::with_stack(mems().co.stack(), |y: &Yielder<usize, usize>, _| {
        frame::<A, L>(5, || y.on_parent_stack(|| resume_unwind(Box::new(P(12)))));
        0
    });
    let r = catch_unwind(AssertUnwindSafe(|| frame::<A, L>(7, || drop(black_box(c.resume(8))))));
    expect(r, 12);
    landed(4);
}

#[inline(never)]
fn on_stack_inside<const A: usize, const L: usize>() {
    let mut c: Co = Coroutine::with_stack(mems().co.stack(), |_, _| {
        frame::<A, L>(5, || on_stack(mems().aux.stack(), || resume_unwind(Box::new(P(13)))));
        0
    });
    let r = catch_unwind(AssertUnwindSafe(|| frame::<A, L>(7, || drop(black_box(c.resume(8))))));
    expect(r, 13);
    landed(4);
}

static mut CO: *const Co = std::ptr::null();

#[inline(never)]
fn recovery_panic<const A: usize, const L: usize>() {
    let mut c: Co = Coroutine::with_stack(mems().co.stack(), |_, _| unsafe {
        let r = (*CO).trap_handler().setup_trap_handler(|| {
            frame::<A, L>(7, || resume_unwind(Box::new(P(14))));
            0
        });
        grids::probe::jump(r)
    });
    unsafe { CO = &c };
    let r = catch_unwind(AssertUnwindSafe(|| frame::<A, L>(5, || drop(black_box(c.resume(8))))));
    expect(r, 14);
    landed(4);
}

/// Coroutines of a type of their own, so that what they call has a single caller to be inlined into.
struct Own<const A: usize, const L: usize, const N: usize>(usize);
type OwnCo<const A: usize, const L: usize, const N: usize> = Coroutine<Own<A, L, N>, usize, usize, Inlined>;

/// Not a call away, so that nothing comes between the call before and the switch.
struct Inlined(StackPointer, StackPointer);
unsafe impl Stack for Inlined {
    #[inline(always)]
    fn base(&self) -> StackPointer {
        self.0
    }
    #[inline(always)]
    fn limit(&self) -> StackPointer {
        self.1
    }
}
fn inlined() -> Inlined {
    let s = mems().co.stack();
    Inlined(s.base(), s.limit())
}

/// Never drops what it makes: dropping has call sites of its own.
#[inline(always)]
fn own<T>(c: T) -> &'static mut T {
    Box::leak(Box::new(c))
}

#[inline(never)]
fn only_resume<const A: usize, const L: usize>() {
    let c: &mut OwnCo<A, L, 0> = own(Coroutine::with_stack(inlined(), |_, i: Own<A, L, 0>| {
        resume_unwind(Box::new(P(i.0)))
    }));
    let r = catch_unwind(AssertUnwindSafe(|| frame::<A, L>(5, || drop(black_box(c.resume(Own(6)))))));
    expect(r, 6);
    landed(2);
}

#[inline(never)]
fn only_force<const A: usize, const L: usize>() {
    let c: &mut OwnCo<A, L, 1> = own(Coroutine::with_stack(inlined(), |y: &Yielder<Own<A, L, 1>, usize>, _| {
        let r = catch_unwind(AssertUnwindSafe(|| drop(black_box(y.suspend(6)))));
        std::mem::forget(r);
        resume_unwind(Box::new(P(9)))
    }));
    black_box(c.resume(Own(1)));
    let r = catch_unwind(AssertUnwindSafe(|| frame::<A, L>(5, || c.force_unwind())));
    expect(r, 9);
    landed(2);
}

#[inline(never)]
fn only_suspend<const A: usize, const L: usize>() {
    let c: &mut OwnCo<A, L, 2> = own(Coroutine::with_stack(inlined(), |y: &Yielder<Own<A, L, 2>, usize>, _| {
        frame::<A, L>(5, || drop(black_box(y.suspend(6))));
        0
    }));
    black_box(c.resume(Own(1)));
    c.force_unwind();
    landed(2);
}

fn ops<const A: usize, const L: usize>() -> [fn(); OPS] {
    [
        resume_panic::<A, L>,
        nested_panic::<A, L>,
        forced::<A, L>,
        dropped::<A, L>,
        replaced::<A, L>,
        on_stack_panic::<A, L>,
        on_parent_panic::<A, L>,
        on_stack_inside::<A, L>,
        recovery_panic::<A, L>,
        separate::<A, L>,
        only_resume::<A, L>,
        only_force::<A, L>,
        only_suspend::<A, L>,
    ]
}

fn add<const A: usize, const L: usize>(v: &mut Vec<Case>) {
    for (i, f) in ops::<A, L>().into_iter().enumerate() {
        let id = format!("{} after a call with {} arguments, {} words", NAMES[i], A, L);
        v.push(case(id.clone(), move || {
            at!("{}", id);
            // A second time with everything cached.
            for _ in 0..2 {
                f();
            }
            let m = mems();
            require!(m.co.check(0) && m.inner.check(0) && m.aux.check(0), "memory above a stack written");
            eval(true);
        }));
    }
}

fn main() {
    let mut v = vec![];
    macro_rules! all {
        ($($a:literal)*) => { $( add::<$a, 1>(&mut v); add::<$a, 6>(&mut v); add::<$a, 24>(&mut v); )* };
    }
    all!(0 1 2 3 4 5 6 7 8 9 11 14 17);
    drive(
        "C10",
        "frames with 3 sizes of locals x 13 numbers of arguments of the call before x 13 operations that do not return: the locals in the landing pad",
        v,
    );
}
