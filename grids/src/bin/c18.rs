//! C18: one thread's operations interrupted at every instruction by another thread's.
//!
//! Two threads use distinct coroutines. One is single-stepped; after each of its instructions the
//! other one continues to its next pause, wherever in an operation that is.

#![allow(static_mut_refs)]

use corosensei::stack::{DefaultStack, Stack};
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use grids::stacks::{Mem, TStack};
use grids::{at, beat, case, count, drive, eval, probe, require, Case};
use std::hint::black_box;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

const SIZE: usize = 128 << 10;

// --- turns -------------------------------------------------------------------------------------

/// Whose turn it is: 0 the stepped thread's, 1 the other's.
static TURN: AtomicUsize = AtomicUsize::new(0);
static STOP: AtomicBool = AtomicBool::new(false);
static STEP: AtomicBool = AtomicBool::new(false);
static PAUSES: AtomicUsize = AtomicUsize::new(0);
/// The other thread.
static OTHER: AtomicI32 = AtomicI32::new(0);

/// Whether the other thread sleeps, which it only does for something that the stepped one holds.
unsafe fn other_sleeps() -> bool {
    let mut path = [0u8; 64];
    let mut n = 0;
    let mut put = |b: u8| {
        path[n] = b;
        n += 1;
    };
    b"/proc/self/task/".iter().for_each(|b| put(*b));
    let (t, mut div) = (OTHER.load(SeqCst), 1_000_000_000);
    let mut seen = false;
    while div > 0 {
        let d = t / div % 10;
        seen |= d != 0;
        if seen {
            put(b'0' + d as u8);
        }
        div /= 10;
    }
    b"/stat\0".iter().for_each(|b| put(*b));
    let f = libc::open(path.as_ptr() as *const _, libc::O_RDONLY);
    if f < 0 {
        return false;
    }
    let mut buf = [0u8; 128];
    let n = libc::read(f, buf.as_mut_ptr() as *mut _, buf.len()).max(0) as usize;
    libc::close(f);
    match buf[..n].iter().rposition(|b| *b == b')') {
        Some(i) => buf.get(i + 2) == Some(&b'S'),
        None => false,
    }
}

fn wait_turn() {
    let mut n = 0u32;
    while TURN.load(SeqCst) != 1 {
        std::hint::spin_loop();
        n += 1;
        if n % 2000 == 0 {
            std::thread::yield_now();
        }
    }
}

/// A point at which the other thread lets the stepped one continue.
fn pause(me: usize) {
    if me == 1 && !STOP.load(SeqCst) {
        PAUSES.fetch_add(1, SeqCst);
        TURN.store(0, SeqCst);
        wait_turn();
    }
}

unsafe extern "C" fn on_step(_: i32, _: *mut libc::siginfo_t, c: *mut libc::c_void) {
    let c = &mut *(c as *mut libc::ucontext_t);
    let g = &mut c.uc_mcontext.gregs;
    if !STEP.load(SeqCst) {
        g[libc::REG_EFL as usize] &= !0x100;
        return;
    }
    g[libc::REG_EFL as usize] |= 0x100;
    if TURN.load(SeqCst) == 1 {
        // It waits for something that the stepped thread holds.
        return;
    }
    count(1, 1);
    TURN.store(1, SeqCst);
    let mut n = 0u32;
    let mut t: Option<Instant> = None;
    let mut sleeps = 0;
    while TURN.load(SeqCst) == 1 {
        std::hint::spin_loop();
        n += 1;
        if n % 4000 == 0 {
            beat();
            let t = *t.get_or_insert_with(Instant::now);
            if t.elapsed() > Duration::from_millis(50) {
                sleeps = if other_sleeps() { sleeps + 1 } else { 0 };
                // The time limit is for a thread that spins until the stepped one goes on.
                if sleeps > 20 || t.elapsed() > Duration::from_secs(20) {
                    return;
                }
            }
            libc::sched_yield();
        }
    }
}

// --- the programs ------------------------------------------------------------------------------

struct Mems {
    c: Mem,
    d: Mem,
    aux: Mem,
}
static mut MEMS: [Option<Mems>; 2] = [None, None];
fn mems(me: usize) -> &'static Mems {
    unsafe { MEMS[me].as_ref().unwrap() }
}

static DROPS: [AtomicUsize; 2] = [const { AtomicUsize::new(0) }; 2];

struct Local(usize, [usize; 4]);
fn local(me: usize) -> Local {
    Local(me, black_box([me + 10; 4]))
}
impl Drop for Local {
    fn drop(&mut self) {
        require!(self.1 == [self.0 + 10; 4], "a local of thread {} is damaged", self.0);
        // In the middle of an unwinding, often.
        pause(self.0);
        require!(self.1 == [self.0 + 10; 4], "a local of thread {} is damaged", self.0);
        DROPS[self.0].fetch_add(1, SeqCst);
    }
}

#[derive(Debug, PartialEq)]
struct Payload(usize);

fn drops(me: usize, n: usize) {
    let x = DROPS[me].swap(0, SeqCst);
    require!(x == n, "thread {}: {} drops instead of {}", me, x, n);
}

fn input(me: usize, k: usize) -> [usize; 3] {
    [me * 100 + k, k, me]
}

fn run_to_end<S: Stack + 'static>(me: usize, s: S) -> S {
    let l = local(me);
    let mut co: Coroutine<[usize; 3], usize, [usize; 6], S> = Coroutine::with_stack(s, move |y, i| {
        let _l = l;
        let _m = local(me);
        require!(i == input(me, 1), "thread {}: wrong first input", me);
        pause(me);
        let i = y.suspend(me + 50);
        pause(me);
        require!(i == input(me, 2), "thread {}: wrong second input", me);
        let i = y.suspend(me + 60);
        require!(i == input(me, 3), "thread {}: wrong third input", me);
        [me + 70; 6]
    });
    pause(me);
    require!(!co.started() && !co.done(), "wrong state");
    require!(co.resume(input(me, 1)) == CoroutineResult::Yield(me + 50), "thread {}: wrong yield", me);
    pause(me);
    require!(co.resume(input(me, 2)) == CoroutineResult::Yield(me + 60), "thread {}: wrong yield", me);
    require!(co.started() && !co.done(), "wrong state");
    pause(me);
    require!(co.resume(input(me, 3)) == CoroutineResult::Return([me + 70; 6]), "thread {}: wrong return", me);
    require!(co.done(), "wrong state");
    pause(me);
    drops(me, 2);
    co.into_stack()
}

fn program(p: usize, me: usize) {
    let m = mems(me);
    match p {
        0 => {
            let s = run_to_end(me, m.c.stack());
            require!(s.base == m.c.hi, "thread {}: another stack came back", me);
            pause(me);
            run_to_end(me, s);
        }
        1 => {
            let s = DefaultStack::new(SIZE).unwrap();
            let (b, l) = (s.base().get(), s.limit().get());
            pause(me);
            let s = run_to_end(me, s);
            require!(s.base().get() == b && s.limit().get() == l, "thread {}: another stack came back", me);
            pause(me);
            drop(s);
            let s = DefaultStack::new(3 * SIZE).unwrap();
            // All of it is this thread's.
            let p = s.limit().get() + 4096;
            for i in 0..s.base().get() / 8192 - p / 8192 {
                unsafe { *((p + i * 8192) as *mut usize) = me + 1 };
            }
            pause(me);
            for i in 0..s.base().get() / 8192 - p / 8192 {
                require!(unsafe { *((p + i * 8192) as *mut usize) } == me + 1, "thread {}: someone else writes to the stack", me);
            }
        }
        // A panic through a nested coroutine.
        2 => {
            let mut co: Coroutine<usize, usize, usize, TStack> = Coroutine::with_stack(m.c.stack(), move |_, _| {
                let _l = local(me);
                let mut d: Coroutine<usize, usize, usize, TStack> = Coroutine::with_stack(mems(me).d.stack(), move |_, _| {
                    let _l = local(me);
                    pause(me);
                    resume_unwind(Box::new(Payload(me)))
                });
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let _ = d.resume(1);
                }));
                pause(me);
                require!(d.done(), "not done");
                resume_unwind(r.unwrap_err())
            });
            let r = catch_unwind(AssertUnwindSafe(|| {
                let _ = co.resume(1);
            }));
            require!(r.unwrap_err().downcast_ref() == Some(&Payload(me)), "thread {}: wrong payload", me);
            pause(me);
            require!(co.done(), "not done");
            drops(me, 2);
        }
        // Stack calls of all kinds.
        3 => {
            let mut co: Coroutine<usize, usize, usize, TStack> = Coroutine::with_stack(m.c.stack(), move |y, i| {
                let _l = local(me);
                let x = y.on_parent_stack(|| {
                    pause(me);
                    black_box(i + me)
                });
                require!(x == i + me, "thread {}: wrong result from the parent stack", me);
                let x = on_stack(mems(me).aux.stack(), || {
                    let _l = local(me);
                    pause(me);
                    y.suspend(black_box(x))
                });
                pause(me);
                x + 1
            });
            require!(co.resume(30) == CoroutineResult::Yield(30 + me), "thread {}: wrong yield", me);
            pause(me);
            require!(co.resume(40 + me) == CoroutineResult::Return(41 + me), "thread {}: wrong return", me);
            drops(me, 2);
            let r = catch_unwind(AssertUnwindSafe(|| {
                on_stack(mems(me).aux.stack(), || {
                    pause(me);
                    resume_unwind(Box::new(Payload(me + 5)))
                })
            }));
            let r: Result<(), _> = r;
            require!(r.unwrap_err().downcast_ref() == Some(&Payload(me + 5)), "thread {}: wrong payload", me);
        }
        // Unwinding a coroutine that holds another one; coroutines that never start.
        4 => {
            let mut co: Coroutine<usize, usize, usize, TStack> = Coroutine::with_stack(m.c.stack(), move |y, _| {
                let _l = local(me);
                let mut d: Coroutine<usize, usize, usize, TStack> = Coroutine::with_stack(mems(me).d.stack(), move |y, _| {
                    let _l = local(me);
                    y.suspend(3)
                });
                require!(d.resume(1) == CoroutineResult::Yield(3), "wrong yield");
                pause(me);
                y.suspend(4)
            });
            require!(co.resume(1) == CoroutineResult::Yield(4), "wrong yield");
            pause(me);
            if black_box(me) == 0 {
                co.force_unwind();
                require!(co.done(), "not done");
            }
            drop(co);
            pause(me);
            drops(me, 2);
            let l = local(me);
            let co: Coroutine<usize, usize, usize, DefaultStack> = Coroutine::with_stack(DefaultStack::new(SIZE).unwrap(), move |_, _| {
                let _l = l;
                3
            });
            pause(me);
            drop(co);
            drops(me, 1);
        }
        // A trap.
        _ => {
            struct At(usize);
            let mut at = Box::new(At(0));
            let p: *const At = &*at;
            let p = p as usize;
            let mut co: Coroutine<usize, usize, [usize; 5], TStack> = Coroutine::with_stack(m.c.stack(), move |y: &Yielder<usize, usize>, _| {
                y.suspend(me);
                pause(me);
                unsafe {
                    let co = &*((*(p as *const At)).0 as *const Coroutine<usize, usize, [usize; 5], TStack>);
                    probe::jump(co.trap_handler().setup_trap_handler(move || {
                        pause(me);
                        [me + 5; 5]
                    }))
                }
            });
            require!(co.resume(1) == CoroutineResult::Yield(me), "wrong yield");
            pause(me);
            at.0 = &co as *const _ as usize;
            require!(co.resume(1) == CoroutineResult::Return([me + 5; 5]), "thread {}: wrong recovery", me);
            require!(co.done() && co.into_stack().base == m.c.hi, "thread {}: not done with its own stack", me);
        }
    }
}

const PROGRAMS: usize = 6;
const TITLES: [&str; PROGRAMS] = ["run to the end twice", "default stacks", "nested panic", "stack calls", "unwinding", "trap"];

fn pair(a: usize, b: usize, lead: usize) {
    unsafe {
        for m in &mut MEMS {
            if m.is_none() {
                *m = Some(Mems { c: Mem::new(SIZE), d: Mem::new(SIZE), aux: Mem::new(SIZE) });
            }
        }
        static mut ALT: [u8; 65536] = [0; 65536];
        let ss = libc::stack_t { ss_sp: ALT.as_mut_ptr() as *mut _, ss_flags: 0, ss_size: ALT.len() };
        libc::sigaltstack(&ss, std::ptr::null_mut());
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_step as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
    at!("{} interrupted by {}", TITLES[a], TITLES[b]);
    DROPS.iter().for_each(|d| d.store(0, SeqCst));
    STOP.store(false, SeqCst);
    TURN.store(0, SeqCst);
    let rounds = std::sync::Arc::new(AtomicUsize::new(0));
    let r = rounds.clone();
    // Everything that is done only once per process.
    program(a, 0);
    OTHER.store(0, SeqCst);
    let t = std::thread::spawn(move || {
        OTHER.store(unsafe { libc::syscall(libc::SYS_gettid) as i32 }, SeqCst);
        wait_turn();
        while !STOP.load(SeqCst) {
            program(b, 1);
            r.fetch_add(1, SeqCst);
            pause(1);
        }
    });
    while OTHER.load(SeqCst) == 0 {
        std::thread::yield_now();
    }
    // The other thread starts from any of its pauses.
    for _ in 0..lead {
        TURN.store(1, SeqCst);
        while TURN.load(SeqCst) == 1 {
            std::hint::spin_loop();
        }
    }
    // Once, unless the program is too short for the other one.
    for _ in 0..100 {
        STEP.store(true, SeqCst);
        unsafe { core::arch::asm!("int3") };
        program(a, 0);
        STEP.store(false, SeqCst);
        if rounds.load(SeqCst) > 0 {
            break;
        }
    }
    STOP.store(true, SeqCst);
    TURN.store(1, SeqCst);
    t.join().unwrap();
    require!(rounds.load(SeqCst) > 0, "the other thread did not get anywhere");
    let (x, y) = (mems(0), mems(1));
    for m in [&x.c, &x.d, &x.aux, &y.c, &y.d, &y.aux] {
        require!(m.check(0), "memory above a stack written");
    }
    eval(true);
}

fn main() {
    let mut v: Vec<Case> = vec![];
    // Panics take most of the time: they go first.
    for a in [2, 4, 3, 1, 0, 5] {
        for b in 0..PROGRAMS {
            for lead in 0..if grids::thorough() { 6 } else { 2 } {
                v.push(case(format!("{} x {} +{}", TITLES[a], TITLES[b], lead), move || pair(a, b, lead)));
            }
        }
    }
    drive(
        "C18",
        "pairs of programs on distinct coroutines in two threads: after every instruction of the first, the second continues to its next pause; states are the interrupted instructions",
        v,
    );
}
