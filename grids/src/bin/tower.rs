//! C01, C04, C05, C06, C08, C09, C19: deep, wide and long.
//!
//! Towers: every pattern of up to three kinds of calls, repeated to depths far beyond those of the
//! machine in `mc`, ended in every way. Then many coroutines at once, in every order of a family,
//! and long lives.

#![allow(static_mut_refs)]

use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use grids::stacks::{Mem, TStack, DROPPED, MADE};
use grids::{at, case, drive, eval, require, Case};
use std::hint::black_box;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

const UNWIND: bool = cfg!(feature = "unwind");

type Y = Yielder<u64, u64>;
type Co = Coroutine<u64, u64, u64, TStack>;

// --- towers ------------------------------------------------------------------------------------

/// Resume a new coroutine; the same, catching what comes out of it; run on another stack; on the
/// parent stack; in a destructor; in a destructor while unwinding; catch and rethrow.
const KINDS: &[u8] = b"RKSPDUC";
const ENDS: &[&str] = &["return", "suspend", "panic", "suspend and panic", "suspend and force_unwind", "suspend and drop"];
const ROOT: usize = usize::MAX;

static mut MEMS: Vec<Mem> = vec![];
fn mem(i: usize) -> &'static Mem {
    unsafe { &MEMS[i] }
}

struct State {
    word: Vec<u8>,
    n: usize,
    end: usize,
    dropped: Vec<usize>,
    /// The value and the level at which it appeared.
    value: (u64, usize),
    up: u64,
    down: u64,
    suspends: u64,
}
static mut ST: State = State { word: vec![], n: 0, end: 0, dropped: vec![], value: (0, 0), up: 0, down: 0, suspends: 0 };
fn st() -> &'static mut State {
    unsafe { &mut ST }
}

struct G(usize, [usize; 3]);
impl Drop for G {
    fn drop(&mut self) {
        require!(self.1 == [self.0 ^ 0x5555; 3], "a local of level {} is damaged", self.0);
        st().dropped.push(self.0);
    }
}

#[derive(PartialEq, Debug)]
struct P(usize);

#[inline(never)]
fn here_is(i: usize, here: usize) {
    let x = 0u8;
    let a = black_box(&x as *const u8 as usize);
    if here == ROOT {
        for k in 0..=st().n {
            require!(!(mem(k).lo..mem(k).hi).contains(&a), "level {} runs on stack {} instead of the thread's", i, k);
        }
    } else {
        require!((mem(here).lo..mem(here).hi).contains(&a), "level {} does not run on stack {}", i, here);
    }
}

fn above_dropped(i: usize) {
    let s = st();
    require!(s.dropped.iter().copied().eq((i + 1..=s.n).rev()), "dropped so far: {:?}, should be {} down to {}", s.dropped, s.n, i + 1);
}

/// The rest of the tower. `y` is the innermost coroutine's yielder if that can suspend from here.
#[inline(never)]
fn level(i: usize, y: *const Y, here: usize, parent: usize) -> u64 {
    let mut canary = black_box([i.wrapping_mul(0x9e37_79b9); 5]);
    black_box(&mut canary);
    let _g = G(i, [i ^ 0x5555; 3]);
    here_is(i, here);
    let r = if i == st().n {
        innermost(i, y)
    } else {
        match st().word[i % st().word.len()] {
            b'R' => run(i, y, here),
            b'K' => {
                let r = catch_unwind(AssertUnwindSafe(|| run(i, y, here)));
                r.unwrap_or_else(|p| {
                    if st().end == 2 || st().end == 3 && st().suspends == 2 {
                        above_dropped(i);
                    }
                    resume_unwind(p)
                })
            }
            b'S' => on_stack(mem(i).stack(), || level(i + 1, y, i, parent)) + 1,
            b'P' if !y.is_null() => unsafe { (*y).on_parent_stack(|| level(i + 1, std::ptr::null(), parent, parent)) + 1 },
            b'D' => {
                drop(InDrop(i, y, here, parent));
                unsafe { RESULT + 1 }
            }
            b'U' => {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let _d = InDrop(i, y, here, parent);
                    resume_unwind(Box::new(P(i + 7777)))
                }));
                let r: Result<(), _> = r;
                require!(r.unwrap_err().downcast_ref() == Some(&P(i + 7777)), "another payload");
                unsafe { RESULT + 1 }
            }
            b'C' => match catch_unwind(AssertUnwindSafe(|| level(i + 1, y, here, parent))) {
                Ok(r) => r + 1,
                Err(p) => resume_unwind(p),
            },
            _ => level(i + 1, y, here, parent) + 1,
        }
    };
    here_is(i, here);
    require!(canary == [i.wrapping_mul(0x9e37_79b9); 5], "the locals of level {} are damaged", i);
    let v = st().value;
    require!(v.1 >= i && r == v.0 + (v.1 - i) as u64, "level {}: {} instead of {} from level {}", i, r, v.0, v.1);
    above_dropped(i);
    r
}

static mut RESULT: u64 = 0;
struct InDrop(usize, *const Y, usize, usize);
impl Drop for InDrop {
    fn drop(&mut self) {
        let r = level(self.0 + 1, self.1, self.2, self.3);
        unsafe { RESULT = r };
    }
}

fn innermost(i: usize, y: *const Y) -> u64 {
    let s = st();
    if s.end != 0 && s.end != 2 && !y.is_null() {
        for k in 0..2 {
            s.up = 0;
            let z = unsafe { (*y).suspend(70 + k) };
            require!(z == 700 + k + s.down && s.up == s.down, "resumed with {} through {} levels", z, s.down);
        }
    }
    if s.end == 2 || s.end == 3 {
        resume_unwind(Box::new(P(i)))
    }
    s.value = (5, i);
    5
}

fn run(i: usize, y: *const Y, here: usize) -> u64 {
    let mut co: Co = Coroutine::with_stack(mem(i).stack(), move |y: &Y, x| {
        require!(x == 1000 + i as u64, "level {}: started with {}", i, x);
        level(i + 1, y, i, here)
    });
    require!(!co.started() && !co.done(), "wrong state");
    let mut x = 1000 + i as u64;
    loop {
        match co.resume(x) {
            CoroutineResult::Return(v) => {
                require!(co.done() && co.started(), "level {}: returned but not done", i);
                above_dropped(i);
                let s = co.into_stack();
                require!(s.base == mem(i).hi, "level {}: another stack came back", i);
                return v + 1;
            }
            CoroutineResult::Yield(v) => {
                require!(!co.done() && co.started(), "level {}: yielded but done", i);
                let s = st();
                x = if !y.is_null() {
                    s.up += 1;
                    let z = unsafe { (*y).suspend(v + 1) };
                    s.down += 1;
                    z + 1
                } else {
                    require!(v == 70 + s.suspends + s.up, "level {}: yielded {} through {} levels", i, v, s.up);
                    s.down = 0;
                    if s.suspends == 1 && s.end >= 4 {
                        if s.end == 4 {
                            co.force_unwind();
                            require!(co.done(), "level {}: unwound but not done", i);
                            above_dropped(i);
                        }
                        drop(co);
                        above_dropped(i);
                        s.value = (9, i);
                        return 9;
                    }
                    s.suspends += 1;
                    700 + s.suspends - 1
                };
            }
        }
    }
}

fn tower(word: &[u8], n: usize, end: usize) {
    unsafe {
        while MEMS.len() <= n {
            // Parent-stack calls can put most of a tower on one of the first stacks.
            MEMS.push(Mem::new(if MEMS.len() < 8 { 4 << 20 } else { 64 << 10 }));
        }
        MADE = 0;
        DROPPED = 0;
    }
    *st() = State { word: word.to_vec(), n, end, dropped: std::mem::take(&mut st().dropped), value: (0, 0), up: 0, down: 0, suspends: 0 };
    st().dropped.clear();
    at!("{} repeated to depth {}, {}", String::from_utf8_lossy(word), n, ENDS[end]);
    let r = catch_unwind(AssertUnwindSafe(|| level(0, std::ptr::null(), ROOT, ROOT)));
    match r {
        Ok(_) => require!(end != 2 && end != 3, "no panic came out"),
        Err(p) => {
            require!(end == 2 || end == 3, "a panic came out");
            require!(p.downcast_ref() == Some(&P(n)), "another payload came out");
        }
    }
    require!(st().dropped.iter().copied().eq((0..=n).rev()), "wrong order of drops: {:?}", st().dropped);
    require!(unsafe { MADE == DROPPED }, "{} stacks, {} released", unsafe { MADE }, unsafe { DROPPED });
    require!(!std::thread::panicking(), "still panicking");
    eval(n > 3);
}

fn words(len: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..len {
        v = v.iter().flat_map(|w| KINDS.iter().map(|k| w.iter().copied().chain([*k]).collect())).collect();
    }
    v.retain(|w: &Vec<u8>| w.iter().any(|k| b"RKS".contains(k)) && (len < 2 || w.iter().any(|k| *k != w[0])));
    v
}

fn allowed(w: &[u8], end: usize) -> bool {
    match end {
        // Without a coroutine there is nothing to suspend.
        1 | 3 | 4 | 5 if !w.contains(&b'R') && !w.contains(&b'K') => false,
        // Nothing may leave a destructor that runs while unwinding.
        2.. if w.contains(&b'U') => false,
        2.. => UNWIND,
        _ => true,
    }
}

fn towers(w: &[u8], depths: &[usize]) {
    for end in 0..ENDS.len() {
        if allowed(w, end) {
            for n in depths {
                tower(w, *n, end);
            }
        }
    }
    for m in unsafe { &MEMS } {
        require!(m.check(0), "memory above a stack written");
    }
}

// --- wide --------------------------------------------------------------------------------------

#[cfg(feature = "default-stack")]
mod wide {
    use super::*;
    use corosensei::stack::DefaultStack;

    type Co = Coroutine<u64, u64, u64, DefaultStack>;

    /// The k-th of n in some order.
    fn order(o: usize, k: usize, n: usize) -> usize {
        match o {
            0 => k,
            1 => n - 1 - k,
            _ => {
                // Every second one first.
                let h = n.div_ceil(2);
                if k < h { 2 * k } else { 2 * (k - h) + 1 }
            }
        }
    }

    pub fn wide(n: usize, resume: usize, end: usize, how: usize) {
        at!("{} coroutines, order {} of resumes, order {} of ends, {}", n, resume, end, ["returned", "unwound", "dropped", "panicked"][how]);
        st().dropped.clear();
        st().n = n;
        let mut cos: Vec<Option<Co>> = (0..n)
            .map(|i| {
                Some(Coroutine::with_stack(DefaultStack::new(16 << 10).unwrap(), move |y: &Y, mut x| {
                    let _g = G(i, [i ^ 0x5555; 3]);
                    for k in 0..4 {
                        require!(x == (k * 100_000 + i) as u64, "coroutine {} resumed with {}", i, x);
                        x = y.suspend((i * 10 + k) as u64);
                    }
                    if x == 1 {
                        resume_unwind(Box::new(P(i)))
                    }
                    x + i as u64
                }))
            })
            .collect();
        for k in 0..4 {
            for j in 0..n {
                let i = order((resume + k) % 3, j, n);
                let c = cos[i].as_mut().unwrap();
                require!(c.started() == (k > 0) && !c.done(), "coroutine {}: wrong state", i);
                let r = c.resume((k * 100_000 + i) as u64);
                require!(r == CoroutineResult::Yield((i * 10 + k) as u64), "coroutine {} yields {:?}", i, r);
            }
        }
        for j in 0..n {
            let i = order(end, j, n);
            let mut c = cos[i].take().unwrap();
            match how {
                0 => {
                    let r = c.resume(50);
                    require!(r == CoroutineResult::Return(50 + i as u64), "coroutine {} returns {:?}", i, r);
                }
                1 => c.force_unwind(),
                2 => drop(c),
                _ => {
                    let r = catch_unwind(AssertUnwindSafe(|| drop(c.resume(1))));
                    require!(r.unwrap_err().downcast_ref() == Some(&P(i)), "coroutine {}: another payload", i);
                    require!(c.done(), "coroutine {} not done", i);
                }
            }
            require!(st().dropped.len() == j + 1 && st().dropped[j] == i, "ended coroutine {}, dropped: {:?}", i, st().dropped.last());
        }
        eval(true);
    }

    // --- long ----------------------------------------------------------------------------------

    pub fn long(kind: usize, n: usize) {
        at!("{} times {}", n, LONG[kind]);
        let m = Mem::new(64 << 10);
        let drops = |want: usize| {
            require!(st().dropped.len() == want, "{} locals dropped instead of {}", st().dropped.len(), want);
            st().dropped.clear();
        };
        drops(0);
        let body = |y: &Y, mut x: u64| {
            let _g = G(3, [3 ^ 0x5555; 3]);
            while x != 0 {
                x = y.suspend(x + 1);
            }
            7
        };
        let panics = |_: &Y, x: u64| -> u64 { resume_unwind(Box::new(P(x as usize))) };
        match kind {
            0 => {
                let mut c: super::Co = Coroutine::with_stack(m.stack(), body);
                for k in 1..=n as u64 {
                    require!(c.resume(k) == CoroutineResult::Yield(k + 1), "wrong yield {}", k);
                    if k % 4096 == 0 {
                        grids::beat();
                    }
                }
                require!(c.resume(0) == CoroutineResult::Return(7), "wrong return");
                drops(1);
            }
            1 => {
                let mut s = m.stack();
                for k in 0..n {
                    let mut c: super::Co = Coroutine::with_stack(s, body);
                    require!(c.resume(2) == CoroutineResult::Yield(3) && c.resume(0) == CoroutineResult::Return(7), "round {}", k);
                    s = c.into_stack();
                    drops(1);
                    if k % 4096 == 0 {
                        grids::beat();
                    }
                }
            }
            2 => {
                for k in 0..n {
                    let mut c: Co = Coroutine::with_stack(DefaultStack::new(16 << 10).unwrap(), body);
                    require!(c.resume(2) == CoroutineResult::Yield(3) && c.resume(0) == CoroutineResult::Return(7), "round {}", k);
                    drops(1);
                    grids::beat();
                }
            }
            3 => {
                for k in 0..n {
                    require!(on_stack(m.stack(), || black_box(k) + 1) == k + 1, "round {}", k);
                    grids::beat();
                }
            }
            4 => {
                let mut c: super::Co = Coroutine::with_stack(m.stack(), move |y: &Y, x| {
                    let mut t = x;
                    for k in 0..n as u64 {
                        t += y.on_parent_stack(|| black_box(k));
                    }
                    t
                });
                let n = n as u64;
                require!(c.resume(3) == CoroutineResult::Return(3 + n * (n - 1) / 2), "wrong sum");
            }
            5 | 6 => {
                for _ in 0..n {
                    let mut c: super::Co = Coroutine::with_stack(m.stack(), body);
                    require!(c.resume(2) == CoroutineResult::Yield(3), "wrong yield");
                    if kind == 5 {
                        c.force_unwind();
                        require!(c.done(), "not done");
                    }
                    drop(c);
                    drops(1);
                    grids::beat();
                }
            }
            7 => {
                for k in 0..n {
                    let mut c: super::Co = Coroutine::with_stack(m.stack(), panics);
                    let r = catch_unwind(AssertUnwindSafe(|| drop(c.resume(k as u64))));
                    require!(r.unwrap_err().downcast_ref() == Some(&P(k)) && c.done(), "round {}", k);
                    grids::beat();
                }
            }
            _ => {
                for k in 0..n {
                    let r = catch_unwind(AssertUnwindSafe(|| on_stack(m.stack(), || resume_unwind(Box::new(P(k))))));
                    let r: Result<(), _> = r;
                    require!(r.unwrap_err().downcast_ref() == Some(&P(k)), "round {}", k);
                    grids::beat();
                }
            }
        }
        require!(m.check(0), "memory above the stack written");
        eval(true);
    }
    pub const LONG: [&str; 9] = [
        "resumed", "created on the same stack", "created on a default stack", "run on another stack", "run on the parent stack",
        "unwound", "dropped while suspended", "panicked", "panicked on another stack",
    ];
}

fn main() {
    let deep = grids::thorough();
    let mut v: Vec<Case> = vec![];
    let depths: &'static [usize] = if deep {
        &[1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 18, 24, 31, 32, 33, 34, 48, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 257, 258, 520]
    } else {
        &[1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33, 65, 130, 258]
    };
    #[cfg(feature = "default-stack")]
    {
        for kind in 0..wide::LONG.len() {
            if UNWIND || kind < 5 {
                let n = if kind < 5 { 140_000 } else { 70_000 };
                v.push(case(wide::LONG[kind], move || wide::long(kind, n)));
            }
        }
        for n in [1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 65, 129, 257, 513, 1025, 2049, 4097] {
            v.push(case(format!("{} coroutines", n), move || {
                for how in 0..if UNWIND { 4 } else { 1 } {
                    for resume in 0..3 {
                        for end in 0..3 {
                            wide::wide(n, resume, end, how);
                        }
                    }
                }
            }));
        }
    }
    for len in 1..=if deep { 4 } else { 3 } {
        for w in words(len) {
            v.push(case(String::from_utf8_lossy(&w).into_owned(), move || towers(&w, depths)));
        }
    }
    drive(
        "C01",
        "towers: every pattern of up to 3 (4) of 7 kinds of calls repeated to depths up to 258 (520) and ended in each of 6 ways; up to 4097 coroutines alive at once in 9 combinations of orders, ended in 4 ways; 9 kinds of operations performed 70 000 times and more",
        v,
    );
}
