//! C14: which addresses a coroutine's trap handler accepts.

#![allow(static_mut_refs)]

use corosensei::stack::{DefaultStack, Stack, StackPointer};
use corosensei::trap::CoroutineTrapHandler;
use corosensei::{Coroutine, Yielder};
use grids::stacks::TStack;
use grids::{at, case, drive, eval, require, Case};
use std::mem::ManuallyDrop;

const ARENA: usize = 64 << 10;

fn arena() -> usize {
    static mut P: usize = 0;
    unsafe {
        if P == 0 {
            P = libc::mmap(std::ptr::null_mut(), 3 * ARENA, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as usize + ARENA;
        }
        P
    }
}

/// Addresses anywhere that are worth trying for every stack.
fn far() -> Vec<usize> {
    let mut v = vec![0, 1, usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1];
    for k in 0..usize::BITS {
        v.push(1usize << k);
        v.push((1usize << k) - 1);
        v.push(!(1usize << k));
    }
    v
}

/// A handler must answer for `[lo, hi)`.
#[inline(never)]
fn probe<R>(what: &str, h: &CoroutineTrapHandler<R>, lo: usize, hi: usize, from: usize, to: usize) {
    let one = |a: usize| {
        if h.stack_ptr_in_bounds(a) != (a >= lo && a < hi) {
            require!(false, "{}: {:#x} is {}accepted for a stack from {:#x} to {:#x}", what, a, if a >= lo && a < hi { "not " } else { "" }, lo, hi);
        }
    };
    for a in from..to {
        one(a);
    }
    for a in [lo, hi] {
        for d in 0..70000usize {
            one(a.wrapping_add(d));
            one(a.wrapping_sub(d));
        }
        for k in 0..usize::BITS {
            one(a ^ (1 << k));
            one(a.wrapping_add(1 << k));
            one(a.wrapping_sub(1 << k));
        }
    }
    for a in far() {
        one(a);
    }
    eval(true);
}

type Co<R, S> = Coroutine<usize, usize, R, S>;

fn body<R: Clone + 'static>(y: &Yielder<usize, usize>, _: usize, r: R) -> R {
    y.suspend(1);
    y.suspend(2);
    r
}

/// One coroutine through all stages; `quick` tests at each.
fn stages<R: Clone + 'static, S: Stack>(what: &str, s: S, r: R, lo: usize, hi: usize, from: usize, to: usize) -> S {
    let r2 = r.clone();
    let mut co: Co<R, S> = Coroutine::with_stack(s, move |y, i| body(y, i, r2));
    let first = co.trap_handler();
    probe(&format!("{} unstarted", what), &first, lo, hi, from, to);
    let _ = co.resume(0);
    probe(&format!("{} suspended", what), &co.trap_handler(), lo, hi, from, to);
    // The coroutine may be moved, and handlers copied.
    let b = Box::new(co);
    let copy = first;
    probe(&format!("{} moved", what), &b.trap_handler(), lo, hi, from, from);
    probe(&format!("{} copy", what), &copy, lo, hi, from, from);
    let mut co = *b;
    let _ = co.resume(0);
    let _ = co.resume(0);
    require!(co.done(), "not done");
    probe(&format!("{} done", what), &co.trap_handler(), lo, hi, from, to);
    let s = co.into_stack();
    // The stack again, for a coroutine of another type, never resumed, reset or unwound.
    let co: Co<[u64; 9], S> = Coroutine::with_stack(s, |_, _| [0; 9]);
    probe(&format!("{} reused", what), &co.trap_handler(), lo, hi, from, from);
    let mut co = co;
    co.force_unwind();
    probe(&format!("{} discarded", what), &co.trap_handler(), lo, hi, from, from);
    let s = co.into_stack();
    let mut co: Co<(), S> = Coroutine::with_stack(s, |y, _| {
        y.suspend(0);
    });
    let _ = co.resume(0);
    unsafe { co.force_reset() };
    probe(&format!("{} reset", what), &co.trap_handler(), lo, hi, from, from);
    let s = co.into_stack();
    #[cfg(feature = "unwind")]
    if hi - lo > 16384 {
        let mut co: Co<(), S> = Coroutine::with_stack(s, |y, _| {
            y.suspend(0);
        });
        let _ = co.resume(0);
        co.force_unwind();
        probe(&format!("{} unwound", what), &co.trap_handler(), lo, hi, from, from);
        return co.into_stack();
    }
    s
}

/// A stack whose lowest address is anything its owner says.
struct Odd {
    base: usize,
    limit: usize,
}
unsafe impl Stack for Odd {
    fn base(&self) -> StackPointer {
        StackPointer::new(self.base).unwrap()
    }
    fn limit(&self) -> StackPointer {
        StackPointer::new(self.limit).unwrap()
    }
}

/// All stages of a coroutine on a stack from `lo`, if there is room.
fn placed(lo: usize, size: usize) {
    let page = 4096;
    let from = lo & !(page - 1);
    if lo < 65536 || lo.checked_add(size + page).is_none() {
        return;
    }
    let n = ((lo + size + page - 1) & !(page - 1)).wrapping_sub(from);
    unsafe {
        let p = libc::mmap(from as *mut _, n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE, -1, 0);
        if p == libc::MAP_FAILED {
            return;
        }
        if p as usize == from {
            at!("limit {:#x}", lo);
            let s = stages("placed", TStack { base: lo + size, limit: lo }, [5u64; 3], lo, lo + size, lo - 64, lo + size + 64);
            require!(s.base == lo + size && s.limit == lo, "another stack came back");
        }
        libc::munmap(p, n);
    }
}

/// The mapping that an address belongs to, with those directly below: from the kernel.
fn region(a: usize) -> Vec<(usize, usize, String)> {
    let t = std::fs::read_to_string("/proc/self/maps").unwrap();
    let mut v = vec![];
    for l in t.lines() {
        let mut f = l.split_whitespace();
        let (x, y) = f.next().unwrap().split_once('-').unwrap();
        let (x, y) = (usize::from_str_radix(x, 16).unwrap(), usize::from_str_radix(y, 16).unwrap());
        let p = f.next().unwrap().to_string();
        if y <= a + 1 || x <= a {
            v.push((x, y, p));
        }
    }
    v
}

fn main() {
    let deep = grids::thorough();
    let mut v: Vec<Case> = vec![];
    // Neighbouring custom stacks: sizes and gaps.
    let sizes: &[usize] = if deep { &[16384, 8192, 20480, 12288] } else { &[16384, 8192] };
    for &s0 in sizes {
        for &s1 in sizes {
            for gap in [0usize, 16, 4096] {
                for extra in [0usize, 16, 48, 4080] {
                    let id = format!("neighbours of {} and {} bytes, {} apart, limit {} higher", s0, s1, gap, extra);
                    v.push(case(id, move || {
                        let a = arena();
                        let b0 = a + s0;
                        let l1 = b0 + gap;
                        let b1 = (l1 + s1) & !15;
                        let mk = |b, l| Odd { base: b, limit: l };
                        let mut c0: Co<usize, Odd> = Coroutine::with_stack(mk(b0, a + extra), |y, i| body(y, i, 1));
                        let mut c1: Co<(), Odd> = Coroutine::with_stack(mk(b1, l1 + extra), |y, i| body(y, i, ()));
                        for stage in 0..4 {
                            at!("stage {}", stage);
                            probe("lower", &c0.trap_handler(), a + extra, b0, a - 100, b1 + 100);
                            probe("upper", &c1.trap_handler(), l1 + extra, b1, a - 100, b1 + 100);
                            let (h0, h1) = (c0.trap_handler(), c1.trap_handler());
                            for x in a - 100..b1 + 100 {
                                require!(!(h0.stack_ptr_in_bounds(x) && h1.stack_ptr_in_bounds(x)), "two coroutines accept {:#x}", x);
                            }
                            if stage < 3 {
                                let _ = c0.resume(0);
                                let _ = c1.resume(0);
                            }
                        }
                    }));
                }
            }
        }
    }
    // Every stage, however the stack is given.
    for s in [8192usize, 24576, 40960] {
        v.push(case(format!("owned stack of {} bytes", s), move || {
            let a = arena();
            let x = stages("owned", TStack { base: a + s, limit: a }, 1usize, a, a + s, a - 64, a + s + 64);
            require!(x.base == a + s && x.limit == a, "another stack came back");
        }));
        v.push(case(format!("borrowed stack of {} bytes", s), move || {
            let a = arena();
            let mut t = TStack { base: a + s, limit: a };
            stages("borrowed", unsafe { &mut *(&mut t as *mut TStack) }, [7u64; 5], a, a + s, a - 64, a + s + 64);
            let r = &mut t;
            let mut rr = unsafe { &mut *(r as *mut TStack) };
            stages("borrowed twice", unsafe { &mut *(&mut rr as *mut &mut TStack) }, (), a, a + s, a - 64, a + s + 64);
        }));
    }
    let page = 4096usize;
    // Stacks at remarkable addresses: the lowest, across powers of two, the highest that can be had.
    let size = 32768usize;
    for (k, d) in (16..47).flat_map(|k| [0, 16, size / 2, size - 16, size].map(|d| (k, d))) {
        v.push(case(format!("stack of {} bytes, 2^{} is {} bytes above its limit", size, k, d), move || {
            let at = ((1u64 << k) as usize).wrapping_sub(d);
            placed(at, size);
        }));
    }
    for below in [1usize, 2, 3, 8, 9, 64] {
        v.push(case(format!("stack {} pages below the highest", below), move || {
            let top = if usize::BITS == 32 { 0xffff_e000u64 as usize } else { 0x7fff_ffff_f000u64 as usize };
            placed(top - below * page - size, size);
        }));
    }
    v.push(case("limits far away", move || {
        let a = arena();
        for limit in far().into_iter().filter(|l| *l > 0 && *l <= a) {
            let b = a + 16384;
            let mut c: Co<usize, Odd> = Coroutine::with_stack(Odd { base: b, limit }, |y, i| body(y, i, 1));
            for _ in 0..3 {
                probe("far limit", &c.trap_handler(), limit, b, a, a);
                let _ = c.resume(0);
            }
        }
    }));
    // Default stacks, against what the kernel says about them.
    for size in [0usize, 1, 4095, 4096, 4097, 16384, 65536, 65537, 1 << 20] {
        for kind in 0..4 {
            v.push(case(format!("default stack of {} bytes, way {}", size, kind), move || {
                let s = if kind == 3 { DefaultStack::default() } else { DefaultStack::new(size).unwrap() };
                let (lo, hi) = (s.limit().get(), s.base().get());
                let m = region(hi - 1);
                let k = m.len();
                require!(k >= 2 && m[k - 1].2.starts_with("rw") && m[k - 1].1 >= hi, "the stack is not mapped");
                require!(m[k - 2].2.starts_with("---") && m[k - 2].1 == m[k - 1].0 && m[k - 2].0 <= lo && lo + page == m[k - 2].1, "the reported limit is not that of the guard page");
                require!(hi % page == 0 && lo % page == 0, "unaligned");
                let mut s = ManuallyDrop::new(s);
                let p: *mut DefaultStack = &mut *s;
                match kind {
                    0 | 3 => drop(stages("default", ManuallyDrop::into_inner(s), 3usize, lo, hi, lo, lo)),
                    1 => {
                        stages("default borrowed", unsafe { &mut *p }, (), lo, hi, lo, lo);
                        drop(ManuallyDrop::into_inner(s));
                    }
                    _ => {
                        let mut r = unsafe { &mut *p };
                        stages("default borrowed twice", unsafe { &mut *(&mut r as *mut &mut DefaultStack) }, 9u8, lo, hi, lo, lo);
                        drop(ManuallyDrop::into_inner(s));
                    }
                }
            }));
        }
    }
    drive(
        "C14",
        "every byte address around neighbouring stacks, 70000 on either side of both bounds, all powers of two and bit flips, for every way of giving a stack, in every stage of the coroutine; every evaluation is one such sweep of one handler",
        v,
    );
}
