// Included several times so that the instantiations are spread over codegen units.

use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use grids::stacks::{Mem, TStack, DROPPED, MADE};
use grids::{at, case, eval, require, Case};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// The captured state: `N` bytes at the alignment of `AL`.
#[repr(C)]
struct Cap<AL: 'static, const N: usize> {
    al: [AL; 0],
    b: [u8; N],
}

static mut LIVE: i32 = 0;
static mut RAN: bool = false;

fn byte(n: usize, i: usize) -> u8 {
    ((n * 131 + i * 7 + i / 251) & 0xFF) as u8
}

impl<AL: 'static, const N: usize> Cap<AL, N> {
    fn new() -> Self {
        unsafe { LIVE += 1 };
        let mut c = Cap { al: [], b: [0; N] };
        for i in 0..N {
            c.b[i] = byte(N, i);
        }
        c
    }
    #[inline(never)]
    fn check(&self, what: &str) {
        let a = std::hint::black_box(self as *const _ as usize);
        require!(a % std::mem::align_of::<Self>() == 0, "captured state seen at {:#x} {}", a, what);
        for i in 0..N {
            require!(self.b[i] == byte(N, i), "byte {} of the captured state differs {}", i, what);
        }
    }
}
impl<AL: 'static, const N: usize> Drop for Cap<AL, N> {
    fn drop(&mut self) {
        self.check("when dropped");
        unsafe { LIVE -= 1 };
        require!(unsafe { LIVE } >= 0, "captured state dropped twice");
    }
}

#[repr(align(16))]
struct Al16([u8; 16]);

/// The compiler relies on the stack being aligned when placing this.
#[inline(always)]
fn entry(what: &str) {
    let mut a = Al16([1; 16]);
    let p = std::hint::black_box(&mut a as *mut Al16 as usize);
    require!(p % 16 == 0, "the stack is misaligned on entry to {}", what);
    inner(what);
    std::hint::black_box(&mut a);
}
#[inline(never)]
fn inner(what: &str) {
    let mut a = Al16([2; 16]);
    let p = std::hint::black_box(&mut a as *mut Al16 as usize);
    require!(p % 16 == 0, "the stack is misaligned in {}", what);
}

struct Mems {
    /// The smallest stack there may be.
    min: Mem,
    big: Mem,
    aux: Mem,
}
static mut MEMS: Option<Mems> = None;
fn mems() -> &'static Mems {
    unsafe {
        MEMS.get_or_insert_with(|| Mems { min: Mem::new(4096), big: Mem::new(256 << 10), aux: Mem::new(256 << 10) })
    }
}

fn settled(what: &str) {
    unsafe {
        require!(LIVE == 0, "captured state not dropped exactly once: {} left {}", LIVE, what);
        require!(DROPPED == MADE, "{} stacks made, {} dropped {}", MADE, DROPPED, what);
    }
}

struct AssertSend<T>(T);
unsafe impl<T> Send for AssertSend<T> {}

type Co<S> = Coroutine<u32, u32, u32, S>;

#[inline(never)]
unsafe fn do_trap<AL: 'static, const N: usize, S: corosensei::stack::Stack>(co: *const Co<S>, cap: Cap<AL, N>) -> ! {
    let r = (*co).trap_handler().setup_trap_handler(move || {
        entry("a recovery closure");
        RAN = true;
        cap.check("in a recovery closure");
        77
    });
    #[cfg(target_arch = "x86_64")]
    core::arch::asm!("mov rsp, rax", "mov rbp, rcx", "jmp rdx",
        in("rax") r.rsp, in("rcx") r.rbp, in("rdx") r.rip, in("rdi") r.rdi, in("rsi") r.rsi, options(noreturn));
    #[cfg(target_arch = "x86")]
    core::arch::asm!("mov ebp, [eax + 4]", "mov esp, [eax]", "jmp [eax + 8]",
        in("eax") &[r.esp, r.ebp, r.eip], in("ecx") r.ecx, in("edx") r.edx, options(noreturn));
}

const ACCEPTED: usize = 1024;

/// Creates a coroutine; None if refused, which must have dropped everything.
fn create<AL: 'static, const N: usize, S: corosensei::stack::Stack>(
    st: S,
    f: impl FnOnce(&Cap<AL, N>, &Yielder<u32, u32>, u32) -> u32 + 'static,
) -> Option<Co<S>> {
    let cap = Cap::<AL, N>::new();
    unsafe { RAN = false };
    let r = catch_unwind(AssertUnwindSafe(|| {
        Coroutine::with_stack(st, move |y: &Yielder<u32, u32>, i| {
            entry("a coroutine body");
            unsafe { RAN = true };
            cap.check("in a coroutine body");
            f(&cap, y, i)
        })
    }));
    match r {
        Ok(c) => {
            require!(unsafe { LIVE } == 1, "captured state dropped by creating the coroutine");
            Some(c)
        }
        Err(_) => {
            require!(std::mem::size_of::<Cap<AL, N>>() > ACCEPTED || std::mem::align_of::<AL>() > ACCEPTED, "captured state of an acceptable size refused");
            None
        }
    }
}

fn one<AL: 'static, const N: usize>(off: usize) {
    let m = mems();
    // Never started: dropped where it was placed, even on the smallest stack.
    at!("unstarted, base offset {}", off);
    let c = create::<AL, N, _>(m.min.stack_at(off), |_, _, _| 0);
    let placed = c.is_some();
    drop(c);
    settled("(unstarted)");
    require!(m.min.check(off), "memory above the base of the stack written");
    eval(N > 0);

    // Run to the end, across a suspension.
    at!("run, base offset {}", off);
    if let Some(mut c) = create::<AL, N, _>(m.big.stack_at(off), |cap, y, i| {
        entry("a coroutine body");
        let j = y.suspend(i + 1);
        cap.check("after a suspension");
        j + 1
    }) {
        require!(!unsafe { RAN }, "something ran before the first resume");
        require!(matches!(c.resume(5), CoroutineResult::Yield(6)), "wrong yield");
        require!(unsafe { RAN && LIVE == 1 }, "captured state dropped while in use");
        require!(matches!(c.resume(7), CoroutineResult::Return(8)), "wrong return");
        require!(unsafe { LIVE == 0 }, "captured state not dropped with the body");
    }
    settled("(run)");
    require!(m.big.check(off), "memory above the base of the stack written");
    eval(N > 0);

    // A recovery closure; if it is refused the coroutine goes on.
    at!("trap, base offset {}", off);
    {
        static mut CO: *const () = std::ptr::null();
        static mut REFUSED: bool = false;
        unsafe { (RAN, REFUSED) = (false, false) };
        let mut c: Co<TStack> = Coroutine::with_stack(m.big.stack_at(off), |y, i| unsafe {
            y.suspend(i);
            let r = catch_unwind(AssertUnwindSafe(|| do_trap::<AL, N, TStack>(CO as *const _, Cap::new())));
            require!(r.is_err(), "impossible");
            REFUSED = true;
            require!(LIVE == 0, "refused state not dropped");
            require!(y.suspend(1) == 2, "wrong input after a refusal");
            3
        });
        unsafe { CO = &c as *const _ as *const () };
        c.resume(1);
        let r = c.resume(1);
        unsafe {
            if REFUSED {
                require!(!placed, "a trap closure of an acceptable size refused");
                require!(!RAN, "a refused closure ran");
                require!(matches!(r, CoroutineResult::Yield(1)), "wrong result after a refusal");
                require!(matches!(c.resume(2), CoroutineResult::Return(3)), "wrong result after a refusal");
            } else {
                require!(RAN, "the recovery closure did not run");
                require!(matches!(r, CoroutineResult::Return(77)), "wrong result of the recovery closure");
            }
            require!(c.done(), "not done after recovery");
        }
    }
    settled("(trap)");
    require!(m.big.check(off), "memory above the base of the stack written");
    eval(N > 0);

    // Another stack.
    at!("on_stack, base offset {}", off);
    {
        let cap = Cap::<AL, N>::new();
        let r = on_stack(m.aux.stack_at(off), move || {
            entry("a closure on another stack");
            cap.check("on another stack");
            9
        });
        require!(r == 9 && unsafe { LIVE } == 0, "wrong result of on_stack");
    }
    settled("(on_stack)");
    require!(m.aux.check(off), "memory above the base of the stack written");
    eval(N > 0);

    // The parent's stack: the host, another stack, another coroutine.
    for ctx in 0..3 {
        at!("on_parent_stack context {}, base offset {}", ctx, off);
        let child = move || {
            let mut c: Co<TStack> = Coroutine::with_stack(mems().big.stack_at(off), |y, i| {
                y.suspend(i);
                let cap = AssertSend(Cap::<AL, N>::new());
                y.on_parent_stack(move || {
                    entry("a closure on the parent's stack");
                    let cap = cap;
                    cap.0.check("on the parent's stack");
                    i + 10
                })
            });
            c.resume(1);
            require!(matches!(c.resume(1), CoroutineResult::Return(11)), "wrong result");
        };
        match ctx {
            0 => child(),
            1 => on_stack(m.aux.stack_at(off), child),
            _ => {
                let mut p: Co<TStack> = Coroutine::with_stack(m.aux.stack_at(off), move |_, _| {
                    child();
                    4
                });
                require!(matches!(p.resume(0), CoroutineResult::Return(4)), "wrong result");
            }
        }
        settled("(on_parent_stack)");
        require!(m.big.check(off) && m.aux.check(off), "memory above the base of a stack written");
        eval(N > 0);
    }
}

fn default<AL: 'static, const N: usize>() {
    at!("default stack");
    let st = corosensei::stack::DefaultStack::new(64 << 10).unwrap();
    drop(create::<AL, N, _>(st, |_, _, _| 0));
    settled("(default, unstarted)");
    let st = corosensei::stack::DefaultStack::new(64 << 10).unwrap();
    if let Some(mut c) = create::<AL, N, _>(st, |_, _, i| i + 1) {
        require!(matches!(c.resume(5), CoroutineResult::Return(6)), "wrong return");
    }
    settled("(default)");
    eval(N > 0);
}

fn size<AL: 'static, const N: usize>(v: &mut Vec<Case>) {
    v.push(case(
        format!("size {} align {}", std::mem::size_of::<Cap<AL, N>>(), std::mem::align_of::<AL>()),
        || {
            let _ = catch_unwind(|| std::panic::panic_any(1));
            let al = std::mem::align_of::<AL>().max(if grids::thorough() { 256 } else { 64 });
            for off in (0..al).step_by(16) {
                one::<AL, N>(off);
            }
            default::<AL, N>();
        },
    ));
}

pub fn cases(v: &mut Vec<Case>) {
    macro_rules! sizes {
        ($($al:ident [$($n:literal)*])*) => { $($( size::<super::$al, $n>(v); )*)* };
    }
    list!();
}
