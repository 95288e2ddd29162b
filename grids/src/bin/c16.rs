//! C16: the chain of frame pointers at every instruction.
//!
//! A program of coroutine operations, compiled with frame pointers, is single-stepped. At each
//! instruction of the program or of the crate the chain is followed from the frame pointer as it is.
//! The frames that announced themselves have to be there, in order, with nothing of what is not active:
//! within an operation, those active before it or those active after it.

#![allow(static_mut_refs)]

use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use grids::choice::{all_from, choose, fresh, Path};
use grids::stacks::{Mem, TStack};
use grids::{case, count, drive, eval, fail, require, Case};
use std::hint::black_box;
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{compiler_fence, AtomicU64, Ordering::SeqCst};

const SIZE: usize = 64 << 10;
type Co = Coroutine<usize, usize, usize, TStack>;
type Y = Yielder<usize, usize>;

// --- which frames are active -------------------------------------------------------------------

#[derive(Clone, Copy)]
struct List {
    n: usize,
    v: [usize; 64],
}
impl List {
    const NEW: List = List { n: 0, v: [0; 64] };
    fn push(&mut self, x: usize) {
        self.v[self.n] = x;
        self.n += 1;
    }
    fn slice(&self) -> &[usize] {
        &self.v[..self.n]
    }
    fn contains(&self, x: usize) -> bool {
        let mut i = 0;
        while i < self.n {
            if self.v[i] == x {
                return true;
            }
            i += 1;
        }
        false
    }
}

/// The frames from the outermost to the innermost.
static mut CUR: List = List::NEW;
/// How many of them may be there: between the two, but if `EITHER` only either number.
static mut FROM: usize = 0;
static mut EITHER: bool = false;
/// Those of suspended coroutines, and where those of active ones begin.
static mut SAVED: [List; 4] = [List::NEW; 4];
static mut BEGIN: [usize; 4] = [0; 4];
/// The model is being updated.
static mut QUIET: bool = true;

#[inline(always)]
fn update(f: impl FnOnce()) {
    unsafe {
        compiler_fence(SeqCst);
        std::ptr::write_volatile(&raw mut QUIET, true);
        compiler_fence(SeqCst);
        f();
        compiler_fence(SeqCst);
        std::ptr::write_volatile(&raw mut QUIET, false);
        compiler_fence(SeqCst);
    }
    step_again();
}

/// Stepping was given up, far away from the program or before what is to be explored.
static mut GIVEN_UP: bool = false;
static mut AWAY: usize = 0;

#[inline(always)]
fn step_again() {
    unsafe {
        if std::ptr::read_volatile(&raw const GIVEN_UP) && STEP && fresh() {
            GIVEN_UP = false;
            AWAY = 0;
            core::arch::asm!("int3");
        }
    }
}

fn pick(n: u8) -> u8 {
    let x = choose(n);
    step_again();
    x
}

fn exactly() {
    unsafe {
        FROM = CUR.n;
        EITHER = false;
    }
}

struct Frame(usize);
impl Drop for Frame {
    #[inline(never)]
    fn drop(&mut self) {
        update(|| unsafe {
            // It is the innermost one, but of those that were given up together with it.
            while CUR.n > 0 && CUR.v[CUR.n - 1] != self.0 {
                CUR.n -= 1;
            }
            require!(CUR.n > 0, "harness: an unknown frame ends");
            CUR.n -= 1;
            if FROM > CUR.n || EITHER || !std::thread::panicking() {
                exactly();
            }
        });
    }
}

/// Announces the frame of the caller.
#[inline(always)]
fn frame() -> Frame {
    let fp: usize;
    unsafe {
        #[cfg(target_arch = "x86_64")]
        core::arch::asm!("mov {}, rbp", out(reg) fp, options(nomem, nostack));
        #[cfg(target_arch = "x86")]
        core::arch::asm!("mov {}, ebp", out(reg) fp, options(nomem, nostack));
    }
    announce(fp)
}
#[inline(never)]
fn announce(fp: usize) -> Frame {
    update(|| unsafe {
        CUR.push(fp);
        exactly();
    });
    Frame(fp)
}

/// Coroutine `i` is about to be entered, and may be left by a panic if `unwinds`.
fn entering(i: usize, unwinds: bool) {
    update(|| unsafe {
        BEGIN[i] = CUR.n;
        FROM = CUR.n;
        EITHER = !unwinds;
        let mut k = 0;
        while k < SAVED[i].n {
            CUR.push(SAVED[i].v[k]);
            k += 1;
        }
        SAVED[i].n = 0;
    });
}
/// Control is in the coroutine entered last.
fn entered() {
    update(exactly);
}
/// Coroutine `i` is about to suspend itself.
fn leaving(i: usize) {
    update(|| unsafe {
        FROM = BEGIN[i];
        EITHER = true;
    });
}
/// Control is back from coroutine `i`.
fn left(i: usize, suspended: bool) {
    update(|| unsafe {
        let b = BEGIN[i];
        SAVED[i].n = 0;
        if suspended {
            let mut k = b;
            while k < CUR.n {
                SAVED[i].push(CUR.v[k]);
                k += 1;
            }
        }
        CUR.n = b;
        exactly();
    });
}
/// A panic begins.
fn raise(p: usize) -> ! {
    update(|| unsafe {
        FROM = 1;
        EITHER = false;
    });
    resume_unwind(Box::new(p))
}

// --- stepping ----------------------------------------------------------------------------------

#[cfg(target_arch = "x86_64")]
mod reg {
    pub const SP: usize = libc::REG_RSP as usize;
    pub const PC: usize = libc::REG_RIP as usize;
    pub const FP: usize = libc::REG_RBP as usize;
}
#[cfg(target_arch = "x86")]
mod reg {
    pub const SP: usize = libc::REG_ESP as usize;
    pub const PC: usize = libc::REG_EIP as usize;
    pub const FP: usize = libc::REG_EBP as usize;
}

static mut STEP: bool = false;
static mut TOP: usize = 0;
static mut CODE: Vec<(usize, usize)> = vec![];
static mut SEEN: *mut AtomicU64 = std::ptr::null_mut();
const SEEN_BITS: u32 = 22;

/// The functions compiled together with this program: those are the ones with frame pointers.
fn functions() -> Vec<(usize, usize)> {
    let f = std::fs::read("/proc/self/exe").unwrap();
    let w = std::mem::size_of::<usize>();
    let num = |o: usize, n: usize| f[o..o + n].iter().rev().fold(0usize, |a, b| a << 8 | *b as usize);
    let (shoff, shentsize, shnum) = if w == 8 { (num(40, 8), num(58, 2), num(60, 2)) } else { (num(32, 4), num(46, 2), num(48, 2)) };
    let sec = |i: usize| {
        let s = shoff + i * shentsize;
        if w == 8 { (num(s + 4, 4), num(s + 24, 8), num(s + 32, 8), num(s + 40, 4)) } else { (num(s + 4, 4), num(s + 16, 4), num(s + 20, 4), num(s + 24, 4)) }
    };
    let mut v = vec![];
    let mut here = 0;
    for i in 0..shnum {
        let (ty, off, size, link) = sec(i);
        if ty != 2 {
            continue;
        }
        let strs = sec(link).1;
        let n = if w == 8 { 24 } else { 16 };
        for k in 0..size / n {
            let s = off + k * n;
            let (name, info, value, len) = if w == 8 { (num(s, 4), f[s + 4], num(s + 8, 8), num(s + 16, 8)) } else { (num(s, 4), f[s + 12], num(s + 4, 4), num(s + 8, 4)) };
            let name = &f[strs + name..];
            let name = std::str::from_utf8(&name[..name.iter().position(|x| *x == 0).unwrap()]).unwrap();
            if info & 15 != 2 || len == 0 {
                continue;
            }
            if name.contains("the_marker_of_c16") {
                here = value;
            }
            if ["corosensei", "c16", "stack_init_trampoline", "stack_call_trampoline"].iter().any(|x| name.contains(x)) {
                v.push((value, value + len));
            }
        }
    }
    assert!(here != 0);
    let base = (the_marker_of_c16 as *const () as usize).wrapping_sub(here);
    for x in &mut v {
        x.0 = x.0.wrapping_add(base);
        x.1 = x.1.wrapping_add(base);
    }
    v.sort();
    v
}

#[inline(never)]
fn the_marker_of_c16() {
    black_box(0);
}

/// The stack that holds a frame record.
unsafe fn region(a: usize) -> Option<usize> {
    let w = std::mem::size_of::<usize>();
    if a % w != 0 {
        return None;
    }
    for (i, m) in mems().iter().enumerate() {
        if a >= m.lo && a + 2 * w <= m.hi {
            return Some(i);
        }
    }
    (a <= TOP && TOP - a < 1 << 20).then_some(100)
}

unsafe fn announced(a: usize) -> bool {
    CUR.contains(a) || SAVED.iter().any(|l| l.contains(a))
}

unsafe extern "C" fn on_step(_: i32, _: *mut libc::siginfo_t, c: *mut libc::c_void) {
    let c = &mut *(c as *mut libc::ucontext_t);
    let g = &mut c.uc_mcontext.gregs;
    if !STEP {
        g[libc::REG_EFL as usize] &= !0x100;
        return;
    }
    g[libc::REG_EFL as usize] |= 0x100;
    if QUIET {
        return;
    }
    let pc = g[reg::PC] as usize;
    let i = CODE.partition_point(|x| x.0 <= pc);
    let own = i > 0 && pc < CODE[i - 1].1;
    AWAY = if own { 0 } else { AWAY + 1 };
    if !fresh() || AWAY > 200 {
        g[libc::REG_EFL as usize] &= !0x100;
        GIVEN_UP = true;
        return;
    }
    if !own {
        return;
    }
    count(0, 1);
    let place = pc - CODE[i - 1].0;
    let mut fp = g[reg::FP] as usize;
    let mut found = List::NEW;
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ (i as u64) << 32 ^ place as u64;
    let mut last = (usize::MAX, 0);
    let mut n = 0;
    loop {
        let r = match region(fp) {
            Some(r) => r,
            None => fail!("{} the chain at +{:#x} of {:#x} leads to {:#x}, outside of all stacks", Path, place, CODE[i - 1].0, fp),
        };
        n += 1;
        if n > 300 || (r == last.0 && fp <= last.1) {
            fail!("{} the chain at +{:#x} of {:#x} goes round", Path, place, CODE[i - 1].0);
        }
        h = (h ^ r as u64 ^ (fp as u64) << 8).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
        last = (r, fp);
        if announced(fp) {
            found.push(fp);
        }
        if fp == CUR.v[0] {
            break;
        }
        fp = *(fp as *const usize);
    }
    let k = found.n;
    let mut same = k <= CUR.n && if EITHER { k == FROM || k == CUR.n } else { k >= FROM };
    let mut j = 0;
    while same && j < k {
        same = found.v[k - 1 - j] == CUR.v[j];
        j += 1;
    }
    if !same {
        found.v[..k].reverse();
        fail!(
            "{} the chain at +{:#x} of {:#x} (stack pointer {:#x}) visits {:x?}, but the active frames are {:x?} (from {}{})",
            Path, place, CODE[i - 1].0, g[reg::SP], found.slice(), CUR.slice(), FROM, if EITHER { ", or all" } else { " on" }
        );
    }
    eval(CUR.n > FROM);
    if !seen(h) {
        count(1, 0);
    }
}

unsafe fn seen(h: u64) -> bool {
    let h = h | 1;
    let mut i = h >> (64 - SEEN_BITS);
    for _ in 0..64 {
        let e = &*SEEN.add(i as usize);
        match e.compare_exchange(0, h, SeqCst, SeqCst) {
            Ok(_) => return false,
            Err(x) if x == h => return true,
            _ => i = (i + 1) & ((1 << SEEN_BITS) - 1),
        }
    }
    true
}

unsafe fn install() {
    static mut ALT: [u8; 65536] = [0; 65536];
    let ss = libc::stack_t { ss_sp: ALT.as_mut_ptr() as *mut _, ss_flags: 0, ss_size: ALT.len() };
    libc::sigaltstack(&ss, std::ptr::null_mut());
    let mut sa: libc::sigaction = std::mem::zeroed();
    sa.sa_sigaction = on_step as *const () as usize;
    sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
    libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
}

// --- the programs ------------------------------------------------------------------------------

const C: usize = 0;
const D: usize = 1;
const E: usize = 2;

static mut MEMS: Vec<Mem> = vec![];
fn mems() -> &'static [Mem] {
    unsafe { &MEMS }
}
static mut SLOT: Option<Co> = None;
static mut SLOT_D: Option<Co> = None;
static mut SINK: usize = 0;

#[inline(never)]
fn work(x: usize) -> usize {
    let _f = frame();
    unsafe {
        SINK = SINK.wrapping_add(black_box(x));
        black_box(SINK);
    }
    x + 1
}

#[inline(never)]
fn suspend(i: usize, y: &Y) -> usize {
    let _f = frame();
    leaving(i);
    let r = y.suspend(black_box(9));
    entered();
    r + 1
}

/// Resumes coroutine `i`; says whether it suspended itself.
#[inline(never)]
fn resume(i: usize, co: &mut Co) -> bool {
    let _f = frame();
    entering(i, false);
    let r = catch_unwind(AssertUnwindSafe(|| co.resume(black_box(5))));
    let r = matches!(r, Ok(CoroutineResult::Yield(_)));
    left(i, r);
    require!(r != co.done(), "harness: outcome of a resume");
    r
}

#[inline(never)]
fn unwind(i: usize, co: &mut Co) {
    let _f = frame();
    entering(i, true);
    let r = catch_unwind(AssertUnwindSafe(|| co.force_unwind()));
    left(i, false);
    require!(r.is_ok() && co.done(), "harness: forced unwinding");
}

#[inline(never)]
fn dispose(i: usize, co: Co) {
    let _f = frame();
    entering(i, true);
    drop(co);
    left(i, false);
}

fn make_d(kind: u8) {
    unsafe {
        SLOT_D = Some(Coroutine::with_stack(mems()[D].stack(), move |y: &Y, _| {
            body_d(kind, y)
        }));
    }
}
#[inline(never)]
fn body_d(kind: u8, y: &Y) -> usize {
    let _f = frame();
    match kind {
        0 => 1,
        1 => suspend(D, y) + y.on_parent_stack(|| work(1)) + suspend(D, y),
        _ => {
            black_box(y.on_parent_stack(|| work(1)));
            raise(1)
        }
    }
}
fn d() -> &'static mut Co {
    unsafe { SLOT_D.as_mut().unwrap() }
}

#[inline(never)]
fn nested(kind: u8, how: u8) -> usize {
    let _f = frame();
    make_d(kind);
    while match how {
        0 => resume(D, d()),
        1 => on_stack(mems()[3].stack(), || resume(D, d())),
        _ => {
            resume(D, d());
            dispose(D, unsafe { SLOT_D.take().unwrap() });
            return 1;
        }
    } {}
    1
}

#[inline(never)]
fn body(y: &Y, first: usize) -> usize {
    let _f = frame();
    let mut x = first;
    loop {
        x = match pick(15) {
            0 => return x,
            1 => suspend(C, y),
            2 => y.on_parent_stack(|| work(x)),
            3 => on_stack(mems()[4].stack(), || work(x)),
            4 => nested(0, 0),
            5 => nested(1, 0),
            6 => nested(1, 1),
            7 => nested(1, 2),
            8 => nested(2, 0),
            9 => y.on_parent_stack(|| nested(1, 0)),
            10 => on_stack(mems()[4].stack(), || suspend(C, y)),
            11 => raise(x),
            12 => y.on_parent_stack(|| raise(x)),
            13 => on_stack(mems()[4].stack(), || y.on_parent_stack(|| work(x))),
            _ => y.on_parent_stack(|| on_stack(mems()[4].stack(), || work(x))),
        }
    }
}

fn c() -> &'static mut Co {
    unsafe { SLOT.as_mut().unwrap() }
}

/// Resumes C from further down.
#[inline(never)]
fn lower(n: usize) -> bool {
    let _f = frame();
    let a = [n; 20];
    black_box(&a);
    if n == 0 {
        resume(C, c())
    } else {
        lower(n - 1)
    }
}

#[inline(never)]
fn through_e() -> bool {
    let _f = frame();
    let mut e: Co = Coroutine::with_stack(mems()[E].stack(), |_, _| body_e());
    let r = &mut e;
    resume(E, r);
    require!(r.done(), "harness: E");
    unsafe { FLAG }
}
static mut FLAG: bool = false;
#[inline(never)]
fn body_e() -> usize {
    let _f = frame();
    let r = resume(C, c());
    unsafe { FLAG = r };
    3
}

#[inline(never)]
fn host() {
    unsafe {
        QUIET = true;
        CUR = List::NEW;
        SAVED = [List::NEW; 4];
        SLOT = Some(Coroutine::with_stack(mems()[C].stack(), body));
        SLOT_D = None;
        let f = frame();
        TOP = CUR.v[0];
        GIVEN_UP = false;
        AWAY = 0;
        STEP = true;
        core::arch::asm!("int3");
        while !c().done() {
            match pick(6) {
                0 => {
                    resume(C, c());
                }
                1 => {
                    lower(2);
                }
                2 => {
                    through_e();
                }
                3 => {
                    on_stack(mems()[5].stack(), || resume(C, c()));
                }
                4 => unwind(C, c()),
                _ => {
                    dispose(C, SLOT.take().unwrap());
                    break;
                }
            }
        }
        STEP = false;
        update(exactly);
        drop(f);
        SLOT = None;
        SLOT_D = None;
        eval(true);
    }
}

fn main() {
    unsafe {
        SEEN = grids::shared(1 << SEEN_BITS);
        CODE = functions();
        the_marker_of_c16();
        for _ in 0..6 {
            MEMS.push(Mem::new(SIZE));
        }
        install()
    };
    let depth = if cfg!(debug_assertions) { 3 } else { 4 } + grids::thorough() as usize;
    let mut v: Vec<Case> = vec![];
    for h in 0..6u8 {
        for b in 0..15u8 {
            if h > 3 && b > 0 {
                continue;
            }
            v.push(case(format!("resume {} then {}", h, b), move || {
                let _ = catch_unwind(|| panic_any(1));
                all_from(&[h, b][..if h > 3 { 1 } else { 2 }], depth, host);
            }));
        }
    }
    drive(
        "C16",
        "every instruction of the program and of the crate executed by every sequence of up to the stated number of operations; non-trivial: within an operation that changes which frames are active",
        v,
    );
}
