//! C13: recovery from a trap at every instruction executed on a coroutine's stack.
//!
//! A program of coroutine operations is single-stepped. Whenever the stack pointer is inside a
//! coroutine's stack, the process is forked and the child applies the recovery registers there.

#![allow(static_mut_refs)]

use corosensei::trap::{CoroutineTrapHandler, TrapHandlerRegs};
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use grids::choice::{all_from, choose, fresh, stop, Path};
use grids::stacks::{Mem, TStack, DROPPED};
use grids::{at, case, count, drive, eval, fail, require, Case};
use std::alloc::{GlobalAlloc, Layout};
use std::any::Any;
use std::hint::black_box;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};

/// Memory is never reused, so that an allocation may be interrupted for good.
struct Bump;
static mut NEXT: usize = 0;
static mut END: usize = 0;
unsafe impl GlobalAlloc for Bump {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let mut p = (NEXT + l.align() - 1) & !(l.align() - 1);
        if NEXT == 0 || p + l.size() > END {
            let n = (16 << 20) + l.size();
            let m = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as usize;
            END = m + n;
            p = (m + l.align() - 1) & !(l.align() - 1);
        }
        NEXT = p + l.size();
        p as *mut u8
    }
    unsafe fn dealloc(&self, _: *mut u8, _: Layout) {}
}
#[global_allocator]
static A: Bump = Bump;

trait Val: PartialEq + Copy + Send + 'static {
    fn make(x: usize) -> Self;
}
impl Val for usize {
    fn make(x: usize) -> usize {
        x
    }
}
impl<const N: usize> Val for [usize; N] {
    fn make(x: usize) -> [usize; N] {
        std::array::from_fn(|i| x * 1000 + i)
    }
}
impl Val for () {
    fn make(_: usize) {}
}
#[derive(PartialEq, Clone, Copy)]
#[repr(align(64))]
struct Wide([u8; 64]);
impl Val for Wide {
    fn make(x: usize) -> Wide {
        Wide([x as u8; 64])
    }
}

const IN: usize = 40;
const OUT: usize = 60;
const RET: usize = 50;
const REC: usize = 7;
const SIZE: usize = 64 << 10;

type Co<V, R> = Coroutine<V, V, R, TStack>;

// --- what can be trapped -----------------------------------------------------------------------

const C: usize = 0;
const D: usize = 1;
const E: usize = 2;
const NAME: [&str; 3] = ["C", "D", "E"];

struct Target {
    lo: usize,
    hi: usize,
    accepts: Box<dyn Fn(usize) -> bool>,
    setup: Box<dyn Fn(usize) -> TrapHandlerRegs>,
}
static mut TARGETS: [Option<Target>; 3] = [None, None, None];
/// Which of them are set: a single store, as the program may be interrupted anywhere.
static SET: [AtomicBool; 3] = [const { AtomicBool::new(false) }; 3];
static mut STEP: bool = false;
/// The points explored so far, by whichever process.
static mut SEEN: *mut AtomicU64 = std::ptr::null_mut();
const SEEN_BITS: u32 = 22;
/// What, besides where the program is, distinguishes points: the kind of case, and who resumes.
static mut KIND: usize = 0;
static mut CONTEXT: usize = 0;
/// Explore only points of the program's own code.
static mut OWN_ONLY: bool = false;
static mut OWN: (usize, usize) = (0, 0);
static mut SHARD: usize = 0;
const SHARDS: usize = 8;
static mut VARIANTS: usize = 4;
static mut FORKED: bool = false;
/// Let recovery closures be trapped, too.
static mut AGAIN: bool = false;
/// Explore the next point (only, when recovery closures are trapped, too).
static mut MARK: bool = false;
/// Which coroutines' points to explore.
static mut ONLY: Option<usize> = None;

/// The trapped coroutine and how it was recovered, in the child.
static mut TRAPPED: Option<(usize, usize)> = None;
static mut EVENTS: [usize; 3] = [0; 3];
static mut AT_TRAP: usize = 0;
static mut RAN: usize = 0;
static mut TOKENS: usize = 0;

struct Tok(usize);
impl Drop for Tok {
    fn drop(&mut self) {
        unsafe {
            TOKENS += self.0;
        }
    }
}

fn event(i: usize) {
    unsafe { EVENTS[i] += 1 };
}

struct Local(usize);
impl Drop for Local {
    fn drop(&mut self) {
        event(self.0);
    }
}

#[inline(never)]
fn on_own(i: usize) {
    let x = black_box(5usize);
    let a = &x as *const _ as usize;
    unsafe {
        RAN += 1;
        let t = TARGETS[i].as_ref().unwrap();
        require!(a >= t.lo && a < t.hi, "the recovery closure does not run on its coroutine's stack");
        require!(t.hi - a < 8192, "the recovery closure does not start at the base of the stack");
    }
}

#[inline(never)]
fn deep(n: usize) -> usize {
    let mut a = [n as u8; 1000];
    black_box(&mut a);
    if n == 0 {
        return 1;
    }
    deep(n - 1) + a[999] as usize - n as u8 as usize
}

/// A panic's payload.
#[derive(PartialEq, Debug)]
struct Payload(usize);

unsafe fn setup<R: Val>(i: usize, h: CoroutineTrapHandler<R>, variant: usize) -> TrapHandlerRegs {
    RAN = 0;
    TOKENS = 0;
    match variant {
        0 => h.setup_trap_handler(move || {
            on_own(i);
            R::make(REC)
        }),
        1 => {
            let t = Tok(1);
            let big = black_box(Wide([9; 64]));
            let more = black_box([3usize; 50]);
            h.setup_trap_handler(move || {
                on_own(i);
                let _t = t;
                require!(&big as *const _ as usize % 64 == 0, "captured state is misaligned");
                require!(big == Wide([9; 64]) && more == [3; 50], "captured state is corrupted");
                // The full stack is available.
                require!(deep(black_box(if cfg!(debug_assertions) { 25 } else { 40 })) == 1, "recursion");
                require!(on_stack(mems().more.stack(), || black_box(12)) == 12, "a nested stack call");
                R::make(REC)
            })
        }
        2 => {
            let t = Tok(1);
            h.setup_trap_handler(move || {
                on_own(i);
                let _t = t;
                resume_unwind(Box::new(Payload(REC)))
            })
        }
        _ => h.setup_trap_handler(move || {
            on_own(i);
            // Code run there may panic and recover.
            let r = catch_unwind(|| resume_unwind(Box::new(Payload(1))));
            require!(r.unwrap_err().downcast_ref() == Some(&Payload(1)), "wrong payload");
            R::make(REC)
        }),
    }
}

unsafe fn target<V: 'static, R: Val>(i: usize, co: &Co<V, R>, s: (usize, usize)) {
    let h = co.trap_handler();
    SET[i].store(false, SeqCst);
    TARGETS[i] = Some(Target {
        lo: s.0,
        hi: s.1,
        accepts: Box::new(move |sp| h.stack_ptr_in_bounds(sp)),
        setup: Box::new(move |variant| setup::<R>(i, h, variant)),
    });
    SET[i].store(true, SeqCst);
}

// --- stepping ----------------------------------------------------------------------------------

#[cfg(target_arch = "x86_64")]
mod reg {
    pub const SP: usize = libc::REG_RSP as usize;
    pub const PC: usize = libc::REG_RIP as usize;
}
#[cfg(target_arch = "x86")]
mod reg {
    pub const SP: usize = libc::REG_ESP as usize;
    pub const PC: usize = libc::REG_EIP as usize;
}

unsafe fn apply(g: &mut [libc::greg_t], r: TrapHandlerRegs) {
    #[cfg(target_arch = "x86_64")]
    {
        let TrapHandlerRegs { rip, rsp, rbp, rdi, rsi } = r;
        for i in 0..16 {
            if i != libc::REG_RSP as usize {
                g[i] = 0x5A5A_0000 + i as i64;
            }
        }
        g[libc::REG_RIP as usize] = rip as i64;
        g[libc::REG_RSP as usize] = rsp as i64;
        g[libc::REG_RBP as usize] = rbp as i64;
        g[libc::REG_RDI as usize] = rdi as i64;
        g[libc::REG_RSI as usize] = rsi as i64;
    }
    #[cfg(target_arch = "x86")]
    {
        let TrapHandlerRegs { eip, esp, ebp, ecx, edx } = r;
        for i in [libc::REG_EAX, libc::REG_EBX, libc::REG_ESI, libc::REG_EDI] {
            g[i as usize] = 0x5A5A_0000 + i;
        }
        g[libc::REG_EIP as usize] = eip as i32;
        g[libc::REG_ESP as usize] = esp as i32;
        g[libc::REG_EBP as usize] = ebp as i32;
        g[libc::REG_ECX as usize] = ecx as i32;
        g[libc::REG_EDX as usize] = edx as i32;
    }
}

static mut START: usize = 0;

/// Was there something like this already?
unsafe fn seen(k: [usize; 5]) -> bool {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in k {
        h = (h ^ x as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
    }
    h |= 1;
    let mut i = h >> (64 - SEEN_BITS);
    loop {
        let e = &*SEEN.add(i as usize);
        match e.compare_exchange(0, h, SeqCst, SeqCst) {
            Ok(_) => return false,
            Err(x) if x == h => return true,
            _ => i = (i + 1) & ((1 << SEEN_BITS) - 1),
        }
    }
}

unsafe extern "C" fn on_step(_: i32, _: *mut libc::siginfo_t, c: *mut libc::c_void) {
    let c = &mut *(c as *mut libc::ucontext_t);
    let g = &mut c.uc_mcontext.gregs;
    let sp = g[reg::SP] as usize;
    let pc = g[reg::PC] as usize;
    if !STEP {
        g[libc::REG_EFL as usize] &= !0x100;
        return;
    }
    g[libc::REG_EFL as usize] |= 0x100;
    if FORKED && !AGAIN {
        return;
    }
    if !FORKED {
        // An instruction executed in the exploration.
        count(0, 1);
    }
    let mut inside = None;
    for i in 0..3 {
        if SET[i].load(SeqCst) {
            let t = TARGETS[i].as_ref().unwrap();
            let x = (t.accepts)(sp);
            require!(x == (sp >= t.lo && sp < t.hi), "{} answers wrongly about a stack pointer", NAME[i]);
            if x {
                require!(inside.is_none(), "two coroutines accept the stack pointer");
                inside = Some(i);
            }
        }
    }
    let i = match inside {
        Some(i) => i,
        None => return,
    };
    if !FORKED && !fresh() || ONLY.is_some_and(|x| x != i) {
        return;
    }
    if AGAIN && !FORKED {
        if !MARK {
            return;
        }
        MARK = false;
    }
    // The state of the C library and of the unwinder does not survive being interrupted for good.
    if OWN_ONLY && (pc < OWN.0 || pc >= OWN.1 || (pc ^ sp / 8) % SHARDS != SHARD) {
        return;
    }
    if !grids::confirming() && seen([i, KIND, CONTEXT, pc.wrapping_sub(START), TARGETS[i].as_ref().unwrap().hi - sp]) {
        return;
    }
    // A distinct point to trap at.
    count(1, 0);
    let n = if AGAIN { 2 } else { VARIANTS };
    for v in 0..n {
        eval(true);
        let pid = libc::syscall(libc::SYS_fork) as i32;
        if pid == 0 {
            libc::alarm(20);
            let t = TARGETS[i].as_ref().unwrap();
            at!("{} trap in {} at {:#x} ({} bytes below the base), recovery {}{}", Path, NAME[i], pc.wrapping_sub(START), t.hi - sp, v, if FORKED { " (again)" } else { "" });
            let twice = AGAIN && !FORKED;
            KIND += 10000 * (v + 1);
            if FORKED {
                AGAIN = false;
            }
            FORKED = true;
            stop();
            TRAPPED = Some((i, v));
            AT_TRAP = EVENTS[i];
            let r = (t.setup)(v);
            apply(g, r);
            if !twice {
                STEP = false;
                g[libc::REG_EFL as usize] &= !0x100;
            }
            g[libc::REG_EFL as usize] &= !0x400;
            return;
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if st != 0 {
            if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 77 {
                libc::_exit(77);
            }
            at!("{} trap in {} at {:#x}, recovery {}", Path, NAME[i], pc.wrapping_sub(START), v);
            fail!("the recovered process ended with status {:#x}", st);
        }
    }
}

unsafe fn install() {
    static mut ALT: [u8; 65536] = [0; 65536];
    let ss = libc::stack_t { ss_sp: ALT.as_mut_ptr() as *mut _, ss_flags: 0, ss_size: ALT.len() };
    libc::sigaltstack(&ss, std::ptr::null_mut());
    let mut sa: libc::sigaction = std::mem::zeroed();
    sa.sa_sigaction = on_step as *const () as usize;
    sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
    libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    let mut sa: libc::sigaction = std::mem::zeroed();
    sa.sa_sigaction = on_crash as *const () as usize;
    sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
    for x in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL] {
        libc::sigaction(x, &sa, std::ptr::null_mut());
    }
    sa.sa_sigaction = on_alarm as *const () as usize;
    libc::sigaction(libc::SIGALRM, &sa, std::ptr::null_mut());
    START = main as *const () as usize;
}

unsafe extern "C" fn on_alarm(_: i32, _: *mut libc::siginfo_t, c: *mut libc::c_void) {
    let g = &(*(c as *mut libc::ucontext_t)).uc_mcontext.gregs;
    fail!("hang at {:#x}", (g[reg::PC] as usize).wrapping_sub(START))
}

unsafe extern "C" fn on_crash(sig: i32, i: *mut libc::siginfo_t, c: *mut libc::c_void) {
    let g = &(*(c as *mut libc::ucontext_t)).uc_mcontext.gregs;
    fail!("signal {} at {:#x} with address {:#x}", sig, (g[reg::PC] as usize).wrapping_sub(START), (*i).si_addr() as usize)
}

unsafe fn begin() {
    STEP = true;
    core::arch::asm!("int3");
}

unsafe fn end() {
    STEP = false;
}

// --- the program -------------------------------------------------------------------------------

struct Mems {
    c: Mem,
    d: Mem,
    e: Mem,
    aux: Mem,
    more: Mem,
    other: Mem,
}
static mut MEMS: Option<Mems> = None;
fn mems() -> &'static Mems {
    unsafe { MEMS.get_or_insert_with(|| Mems { c: Mem::new(SIZE), d: Mem::new(SIZE), e: Mem::new(SIZE), aux: Mem::new(SIZE), more: Mem::new(SIZE), other: Mem::new(SIZE) }) }
}
fn aux() -> TStack {
    mems().aux.stack()
}
fn range(m: &Mem) -> (usize, usize) {
    (m.lo, m.hi)
}

type Outcome<V, R> = Result<CoroutineResult<V, R>, Box<dyn Any + Send>>;

/// The coroutines, where a trap does not discard them.
struct Slots<V: 'static, R: 'static> {
    c: Option<Co<V, R>>,
    d: Option<Co<V, R>>,
    /// Is `d` there for whoever looks from outside?
    d_ready: AtomicBool,
    e: Option<Co<V, R>>,
    out: Option<Outcome<V, R>>,
}
static mut SLOTS: *mut u8 = std::ptr::null_mut();
fn slots<V, R>() -> &'static mut Slots<V, R> {
    unsafe { &mut *(SLOTS as *mut Slots<V, R>) }
}

static mut SINK: usize = 0;

#[inline(never)]
fn work() -> usize {
    unsafe {
        SINK += black_box(3);
        SINK
    }
}

fn trapped(i: usize) -> bool {
    unsafe { TRAPPED.is_some_and(|t| t.0 == i) }
}

/// What a coroutine that was trapped delivers, and what becomes of it.
#[inline(never)]
fn recovered<V: Val, R: Val>(i: usize, r: Outcome<V, R>, co: Co<V, R>, m: &Mem) {
    unsafe {
        let v = TRAPPED.unwrap().1;
        match r {
            Ok(CoroutineResult::Return(x)) => require!(v != 2 && x == R::make(REC), "wrong value recovered from {}", NAME[i]),
            Ok(_) => fail!("{} yielded instead of returning the recovery value", NAME[i]),
            Err(p) => require!(v == 2 && p.downcast_ref() == Some(&Payload(REC)), "wrong panic from the recovery of {}", NAME[i]),
        }
        finished(i, co, m);
    }
}

#[inline(never)]
fn finished<V: Val, R: Val>(i: usize, mut co: Co<V, R>, m: &Mem) {
    unsafe {
        let v = TRAPPED.unwrap().1;
        SET[i].store(false, SeqCst);
        require!(RAN == 1, "the recovery closure ran {} times", RAN);
        require!(TOKENS == (v == 1 || v == 2) as usize, "captured state was dropped {} times", TOKENS);
        require!(EVENTS[i] == AT_TRAP, "something of the discarded contents of {} ran", NAME[i]);
        require!(co.done() && co.started(), "{} is not done after its recovery", NAME[i]);
        co.force_unwind();
        let n = DROPPED;
        let s = co.into_stack();
        require!(s.base == m.hi && s.limit == m.lo && DROPPED == n, "wrong stack recovered from {}", NAME[i]);
        let mut co: Co<usize, usize> = Coroutine::with_stack(s, |y, i| {
            let _l = Local(0);
            require!(deep(black_box(if cfg!(debug_assertions) { 25 } else { 40 })) == 1, "recursion");
            y.suspend(i + 1) + 2
        });
        let k = EVENTS[0];
        require!(!co.started() && co.resume(5) == CoroutineResult::Yield(6), "a reused stack does not work");
        require!(co.resume(7) == CoroutineResult::Return(9) && co.done(), "a reused stack does not work");
        require!(EVENTS[0] == k + 1, "a local on a reused stack was not dropped once");
        EVENTS[0] = k;
        drop(co);
        require!(DROPPED == n + 1, "the stack was not dropped once");
    }
}

/// Runs a coroutine that must be unaffected to its end.
#[inline(never)]
fn run_out<V: Val, R: Val>(co: &mut Co<V, R>) {
    for _ in 0..10 {
        if co.done() {
            return;
        }
        match co.resume(V::make(IN)) {
            CoroutineResult::Yield(x) => require!(x == V::make(OUT), "an unaffected coroutine yields something else"),
            CoroutineResult::Return(x) => require!(x == R::make(RET), "an unaffected coroutine returns something else"),
        }
    }
    fail!("an unaffected coroutine does not end");
}

/// A coroutine created, run and finished within C.
fn nested<V: Val, R: Val>(kind: u8) {
    let s = slots::<V, R>();
    let m = &mems().d;
    s.d = Some(Coroutine::with_stack(m.stack(), move |y: &Yielder<V, V>, i: V| {
        let _l = Local(D);
        require!(i == V::make(IN), "D got a wrong input");
        if kind > 0 {
            black_box(y.on_parent_stack(work));
            let i = y.suspend(V::make(OUT));
            require!(i == V::make(IN), "D got a wrong input");
        }
        R::make(RET)
    }));
    let d = s.d.as_mut().unwrap();
    unsafe { target(D, d, range(m)) };
    s.d_ready.store(true, SeqCst);
    let mut yielded = false;
    loop {
        let r = catch_unwind(AssertUnwindSafe(|| d.resume(V::make(IN))));
        if trapped(D) {
            s.d_ready.store(false, SeqCst);
            return recovered(D, r, s.d.take().unwrap(), m);
        }
        match r {
            Ok(CoroutineResult::Yield(x)) => require!(kind > 0 && !yielded && x == V::make(OUT), "D yields something else"),
            Ok(CoroutineResult::Return(x)) => {
                require!((kind == 0 || yielded) && x == R::make(RET), "D returns something else");
                break;
            }
            Err(_) => fail!("D panics"),
        }
        yielded = true;
    }
    s.d_ready.store(false, SeqCst);
    SET[D].store(false, SeqCst);
    s.d = None;
}

#[inline(never)]
fn body<V: Val, R: Val>(y: &Yielder<V, V>, first: V) -> R {
    let _l = Local(C);
    let mut last = first;
    loop {
        require!(last == V::make(IN), "C got a wrong input");
        let _m = Local(C);
        unsafe { MARK = true };
        match choose(6) {
            0 => return R::make(RET),
            1 => last = y.suspend(V::make(OUT)),
            2 => {
                black_box(y.on_parent_stack(work));
            }
            3 => {
                black_box(on_stack(mems().other.stack(), work));
            }
            4 => nested::<V, R>(0),
            _ => nested::<V, R>(1),
        }
        event(C);
    }
}

#[inline(never)]
fn resume_c<V: Val, R: Val>(how: u8) -> Option<Outcome<V, R>> {
    let s = slots::<V, R>();
    let go = || catch_unwind(AssertUnwindSafe(|| slots::<V, R>().c.as_mut().unwrap().resume(V::make(IN))));
    match how {
        0 => Some(go()),
        1 => {
            let m = &mems().e;
            s.out = None;
            s.e = Some(Coroutine::with_stack(m.stack(), move |_: &Yielder<V, V>, i: V| {
                let _l = Local(E);
                require!(i == V::make(IN), "E got a wrong input");
                let r = go();
                slots::<V, R>().out = Some(r);
                R::make(70)
            }));
            let e = s.e.as_mut().unwrap();
            unsafe { target(E, e, range(m)) };
            let r = catch_unwind(AssertUnwindSafe(|| e.resume(V::make(IN))));
            if trapped(E) {
                recovered(E, r, s.e.take().unwrap(), m);
                // What C delivered is lost with E's stack.
                return None;
            }
            require!(matches!(r, Ok(CoroutineResult::Return(x)) if x == R::make(70)), "E delivers something else");
            SET[E].store(false, SeqCst);
            s.e = None;
            s.out.take()
        }
        _ => Some(on_stack(aux(), go)),
    }
}

#[inline(never)]
fn host<V: Val, R: Val>() {
    unsafe {
        SLOTS = Box::into_raw(Box::new(Slots::<V, R> { c: None, d: None, d_ready: AtomicBool::new(false), e: None, out: None })) as *mut u8;
        SET.iter().for_each(|x| x.store(false, SeqCst));
        let s = slots::<V, R>();
        let m = &mems().c;
        s.c = Some(Coroutine::with_stack(m.stack(), body::<V, R>));
        let c = s.c.as_mut().unwrap();
        target(C, c, range(m));
        CONTEXT = 0;
        begin();
        while !c.done() {
            let how = choose(3);
            CONTEXT = if grids::thorough() { CONTEXT * 4 } else { 0 } + how as usize + 1;
            let r = resume_c::<V, R>(how);
            if trapped(C) {
                match r {
                    Some(r) => recovered(C, r, s.c.take().unwrap(), m),
                    None => fail!("the recovery value of C did not arrive"),
                }
                break;
            }
            match r {
                Some(Ok(CoroutineResult::Yield(x))) => require!(x == V::make(OUT), "C yields something else"),
                Some(Ok(CoroutineResult::Return(x))) => require!(x == R::make(RET), "C returns something else"),
                Some(Err(_)) => fail!("C panics"),
                None => {}
            }
        }
        end();
        if let Some(c) = &mut s.c {
            run_out(c);
        }
        if s.d_ready.load(SeqCst) {
            run_out(s.d.as_mut().unwrap());
        }
        check_mems();
        if FORKED {
            require!(TRAPPED.is_some(), "no trap");
            libc::_exit(0);
        }
        eval(false);
        s.c = None;
        drop(Box::from_raw(s));
    }
}

fn check_mems() {
    let m = mems();
    require!(m.c.check(0) && m.d.check(0) && m.e.check(0) && m.aux.check(0) && m.more.check(0) && m.other.check(0), "memory above a stack written");
}

/// A coroutine that ends by a panic, or is unwound.
#[inline(never)]
fn ending(force: bool, shard: usize) {
    unsafe {
        OWN_ONLY = true;
        KIND = 100 + force as usize;
        ONLY = Some(C);
        EVENTS = [0; 3];
        for l in std::fs::read_to_string("/proc/self/maps").unwrap().lines() {
            let (a, b) = l.split(' ').next().unwrap().split_once('-').unwrap();
            let r = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
            if START >= r.0 && START < r.1 {
                OWN = r;
            }
        }
        SHARD = shard;
        SET.iter().for_each(|x| x.store(false, SeqCst));
        let m = &mems().c;
        let mut c: Co<usize, usize> = Coroutine::with_stack(m.stack(), move |y, _| {
            let _l = Local(C);
            let _m = Local(C);
            if force {
                y.suspend(OUT);
            }
            resume_unwind(Box::new(Payload(1)))
        });
        target(C, &c, range(m));
        let r = if force {
            require!(c.resume(IN) == CoroutineResult::Yield(OUT), "wrong yield");
            begin();
            catch_unwind(AssertUnwindSafe(|| c.force_unwind()))
        } else {
            begin();
            catch_unwind(AssertUnwindSafe(|| {
                let _ = c.resume(IN);
            }))
        };
        end();
        if trapped(C) {
            match (TRAPPED.unwrap().1, r) {
                (2, Err(p)) => require!(p.downcast_ref() == Some(&Payload(REC)), "wrong panic from the recovery"),
                (_, Ok(())) if !force => {}
                (_, Err(p)) if force => {
                    let t = p.downcast_ref::<&str>().map(|s| s.to_string()).or(p.downcast_ref::<String>().cloned());
                    require!(t.is_some_and(|t| t.contains("not rethrown")), "force_unwind does not report the recovery");
                }
                _ => fail!("wrong outcome of the recovery"),
            }
            finished(C, c, m);
            check_mems();
            libc::_exit(0);
        }
        if force {
            require!(r.is_ok(), "forced unwinding failed");
        } else {
            require!(r.unwrap_err().downcast_ref() == Some(&Payload(1)), "wrong panic");
        }
        require!(EVENTS[C] == 2, "locals were not dropped");
        eval(false);
        OWN_ONLY = false;
        ONLY = None;
    }
}

// --- overflows ---------------------------------------------------------------------------------

static mut FAULT: Option<(usize, usize)> = None;
static mut VARIANT: usize = 0;

unsafe extern "C" fn on_fault(_: i32, _: *mut libc::siginfo_t, c: *mut libc::c_void) {
    let c = &mut *(c as *mut libc::ucontext_t);
    let g = &mut c.uc_mcontext.gregs;
    let sp = g[reg::SP] as usize;
    let t = TARGETS[C].as_ref().unwrap();
    require!(TRAPPED.is_none(), "a second fault");
    require!((t.accepts)(sp), "the handler does not accept the stack pointer {} bytes above the limit", sp.wrapping_sub(t.lo));
    FAULT = Some((sp, 0));
    TRAPPED = Some((C, VARIANT));
    AT_TRAP = EVENTS[C];
    let r = (t.setup)(VARIANT);
    apply(g, r);
}

/// Moves the stack pointer to `to` and does what overflows.
unsafe fn overflow(how: u8, to: usize) {
    #[cfg(target_arch = "x86_64")]
    match how {
        0 => core::arch::asm!("mov rsp, {0}", "2: push rax", "jmp 2b", in(reg) to, options(noreturn)),
        1 => core::arch::asm!("mov rsp, {0}", "2: sub rsp, 4096", "mov byte ptr [rsp], 1", "jmp 2b", in(reg) to, options(noreturn)),
        2 => core::arch::asm!("mov rsp, {0}", "2: call 2b", in(reg) to, options(noreturn)),
        _ => core::arch::asm!("mov rsp, {0}", "2: sub rsp, 64", "movaps [rsp + 16], xmm0", "jmp 2b", in(reg) to & !15, options(noreturn)),
    }
    #[cfg(target_arch = "x86")]
    match how {
        0 => core::arch::asm!("mov esp, {0}", "2: push eax", "jmp 2b", in(reg) to, options(noreturn)),
        1 => core::arch::asm!("mov esp, {0}", "2: sub esp, 4096", "mov byte ptr [esp], 1", "jmp 2b", in(reg) to, options(noreturn)),
        2 => core::arch::asm!("mov esp, {0}", "2: call 2b", in(reg) to, options(noreturn)),
        _ => core::arch::asm!("mov esp, {0}", "2: sub esp, 64", "mov [esp + 16], eax", "jmp 2b", in(reg) to & !15, options(noreturn)),
    }
}

#[allow(unconditional_recursion)]
#[inline(never)]
fn recurse<const N: usize>(x: usize) -> usize {
    let mut a = [x as u8; N];
    black_box(&mut a);
    recurse::<N>(x + 1) + a[0] as usize
}

fn overflows(how: u8, variant: usize, step: usize) {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_fault as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
        libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
        libc::sigaction(libc::SIGBUS, &sa, std::ptr::null_mut());
        VARIANT = variant;
        let m = &mems().c;
        let word = std::mem::size_of::<usize>();
        let mut off = 0;
        while off < 4096 {
            // Starts so that the first access outside is at every place of the guard page.
            let to = m.lo + 8192 + off;
            at!("overflow {} with recovery {} from {} bytes above the limit", how, variant, to - m.lo);
            TRAPPED = None;
            let mut c: Co<usize, usize> = Coroutine::with_stack(m.stack(), move |_, _| {
                let _l = Local(C);
                match how {
                    0..=3 => overflow(how, to),
                    4 => {
                        recurse::<8>(0);
                    }
                    5 => {
                        recurse::<1500>(0);
                    }
                    _ => {
                        recurse::<20000>(0);
                    }
                }
                0
            });
            target(C, &c, range(m));
            let r = catch_unwind(AssertUnwindSafe(|| c.resume(IN)));
            require!(trapped(C), "no overflow");
            recovered(C, r, c, m);
            eval(true);
            off += if how > 3 { 4096 } else { step.max(word) };
        }
        check_mems();
    }
}

fn main() {
    unsafe {
        SEEN = grids::shared(1 << SEEN_BITS);
        install()
    };
    let deep = grids::thorough();
    let mut v: Vec<Case> = vec![];
    macro_rules! runs {
        ($($k:literal $n:literal $v:ty, $r:ty, $depth:expr;)*) => { $(
            for h in 0..3u8 {
                for b in 0..6u8 {
                    let d: usize = $depth;
                    v.push(case(format!("{} resume {} then {}", $n, h, b), move || {
                        let _ = catch_unwind(|| panic_any(1));
                        unsafe { KIND = d * 10 + $k };
                        all_from(&[h, b], d, || host::<$v, $r>());
                    }));
                }
            }
        )* };
    }
    runs! {
        0 "words" usize, usize, if deep { 5 } else { 3 };
        1 "memory" [usize; 5], [usize; 7], if deep { 4 } else { 2 };
        2 "nothing" (), (), if deep { 4 } else { 2 };
        3 "aligned" Wide, Wide, if deep { 3 } else { 2 };
    }
    for h in 0..3u8 {
        for b in 0..6u8 {
            v.insert(0, case(format!("again: resume {} then {}", h, b), move || unsafe {
                AGAIN = true;
                KIND = 200;
                all_from(&[h, b], 2, || host::<usize, [usize; 7]>());
                KIND = 201;
                all_from(&[h, b], 2, || host::<usize, usize>());
                AGAIN = false;
            }));
        }
    }
    for i in 0..SHARDS {
        v.insert(0, case(format!("panic {}", i), move || ending(false, i)));
        v.insert(0, case(format!("forced unwinding {}", i), move || ending(true, i)));
    }
    for how in 0..7 {
        for variant in 0..4 {
            let step = if deep { 1 } else { 16 };
            v.push(case(format!("overflow {} recovery {}", how, variant), move || overflows(how, variant, step)));
        }
    }
    drive(
        "C13",
        "every instruction boundary with the stack pointer inside a coroutine's stack, in every sequence of up to the stated number of operations, x recovery closures (returning from a register or memory, large, panicking, catching a panic inside), plus overflows from every offset; non-trivial: a trap was recovered",
        v,
    );
}
