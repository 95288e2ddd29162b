// Included several times so that the instantiations are spread over codegen units.
// `cases!` names the types this copy instantiates.

use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use grids::choice::{all, choose, Path};
use grids::stacks::{Mem, TStack, DROPPED, MADE};
use grids::{at, case, eval, fail, require, Case};
use super::ALLOCS;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

const I: usize = 0;
const Y: usize = 1;
const R: usize = 2;

struct World {
    /// Seeds of the live values of each role.
    live: [Vec<u32>; 3],
    seed: u32,
    /// The seed of the value last sent in each direction.
    sent: [u32; 3],
    dropping: bool,
    trap: Option<fn(usize)>,
    co: usize,
}
static mut W: World =
    World { live: [const { Vec::new() }; 3], seed: 0, sent: [0; 3], dropping: false, trap: None, co: 0 };
fn w() -> &'static mut World {
    unsafe { &mut W }
}

/// The bytes of the value with this seed.
fn byte(seed: u32, i: usize) -> u8 {
    match seed % 7 {
        0 => 0xFF,
        1 => 0,
        2 => 1 << (i % 8),
        3 => !(1 << (i % 8)),
        _ => {
            let x = (seed as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(i as u64 * 0x1000_0000_01B3);
            (x ^ (x >> 29) ^ (x >> 51)) as u8
        }
    }
}

pub trait Val: Sized + 'static {
    fn make(seed: u32) -> Self;
    fn is(&self, seed: u32) -> bool;
}

fn send<T: Val>(role: usize) -> T {
    let w = w();
    w.seed += 1;
    w.sent[role] = w.seed;
    T::make(w.seed)
}
#[inline(never)]
fn got<T: Val>(role: usize, v: &T) {
    let a = std::hint::black_box(v as *const T as usize);
    require!(a % std::mem::align_of::<T>() == 0, "value at {:#x}, alignment {}", a, std::mem::align_of::<T>());
    require!(v.is(w().sent[role]), "a value of role {} arrived with different bits", role);
}

/// A value with a destructor, `32 * A + B` bytes and the alignment of `AL`.
#[repr(C)]
pub struct Tok<const ROLE: usize, AL: 'static, const A: usize, const B: usize> {
    al: [AL; 0],
    a: [[u8; 32]; A],
    b: [u8; B],
}
impl<const ROLE: usize, AL: 'static, const A: usize, const B: usize> Tok<ROLE, AL, A, B> {
    fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(&self.a as *const _ as *const u8, 32 * A + B) }
    }
}
impl<const ROLE: usize, AL: 'static, const A: usize, const B: usize> Val for Tok<ROLE, AL, A, B> {
    fn make(seed: u32) -> Self {
        let mut t = Tok { al: [], a: [[0; 32]; A], b: [0; B] };
        for i in 0..32 * A {
            t.a[i / 32][i % 32] = byte(seed, i);
        }
        for i in 0..B {
            t.b[i] = byte(seed, 32 * A + i);
        }
        w().live[ROLE].push(seed);
        t
    }
    fn is(&self, seed: u32) -> bool {
        self.bytes().iter().enumerate().all(|(i, b)| *b == byte(seed, i)) && w().live[ROLE].contains(&seed)
    }
}
impl<const ROLE: usize, AL: 'static, const A: usize, const B: usize> Drop for Tok<ROLE, AL, A, B> {
    fn drop(&mut self) {
        let a = std::hint::black_box(self as *const Self as usize);
        require!(a % std::mem::align_of::<Self>() == 0, "value dropped at {:#x}", a);
        let l = &mut w().live[ROLE];
        // The most recent live value with these bits.
        match l.iter().rposition(|s| self.bytes().iter().enumerate().all(|(i, b)| *b == byte(*s, i))) {
            Some(i) => {
                l.remove(i);
            }
            None => fail!("a value of role {} that does not exist (any more) was dropped", ROLE),
        }
    }
}

macro_rules! aligns {
    ($($n:ident $a:literal)*) => { $(#[repr(align($a))] #[derive(Clone, Copy)] pub struct $n;)* };
}
aligns!(A1 1 A2 2 A4 4 A8 8 A16 16 A32 32 A64 64 A128 128 A4096 4096);

/// Types with validity invariants; the destructors of those on the heap show in the allocation count.
pub struct Sp<const ROLE: usize, T: Special>(T);
pub trait Special: Sized + 'static {
    fn make(seed: u32) -> Self;
    fn is(&self, seed: u32) -> bool;
}
impl<const ROLE: usize, T: Special> Val for Sp<ROLE, T> {
    fn make(seed: u32) -> Self {
        w().live[ROLE].push(seed);
        Sp(T::make(seed))
    }
    fn is(&self, seed: u32) -> bool {
        self.0.is(seed)
    }
}
impl<const ROLE: usize, T: Special> Drop for Sp<ROLE, T> {
    fn drop(&mut self) {
        let l = &mut w().live[ROLE];
        match l.iter().rposition(|s| self.0.is(*s)) {
            Some(i) => {
                l.remove(i);
            }
            None => fail!("a value of role {} that does not exist (any more) was dropped", ROLE),
        }
    }
}
macro_rules! special {
    ($($t:ty : $s:ident => $e:expr;)*) => { $(impl Special for $t {
        fn make($s: u32) -> Self { $e }
        fn is(&self, $s: u32) -> bool { let v: $t = $e; *self == v }
    })* };
}
static TABLE: [u64; 16] = [7; 16];
fn f0(x: u32) -> u32 {
    x
}
fn f1(x: u32) -> u32 {
    x + 1
}
fn wide(s: u32) -> u128 {
    let mut b = [0u8; 16];
    for (i, x) in b.iter_mut().enumerate() {
        *x = byte(s, i);
    }
    u128::from_ne_bytes(b)
}
special! {
    (): _s => ();
    bool: s => s % 3 == 0;
    u8: s => byte(s, 0);
    i8: s => byte(s, 1) as i8;
    u16: s => wide(s) as u16;
    u32: s => wide(s) as u32;
    u64: s => wide(s) as u64;
    i64: s => wide(s) as i64;
    usize: s => wide(s) as usize;
    u128: s => wide(s);
    i128: s => wide(s) as i128;
    char: s => char::from_u32([0, 0x41, 0xD7FF, 0xE000, 0x10FFFF][s as usize % 5]).unwrap();
    Option<bool>: s => [None, Some(true), Some(false)][s as usize % 3];
    Option<Option<bool>>: s => [None, Some(None), Some(Some(false))][s as usize % 3];
    Option<u8>: s => if s % 3 == 0 { None } else { Some(byte(s, 0)) };
    Option<u32>: s => if s % 3 == 0 { None } else { Some(wide(s) as u32) };
    Option<u64>: s => if s % 3 == 0 { None } else { Some(wide(s) as u64) };
    Option<std::num::NonZeroU32>: s => std::num::NonZeroU32::new(if s % 2 == 0 { 0 } else { wide(s) as u32 });
    std::num::NonZeroUsize: s => std::num::NonZeroUsize::new(wide(s) as usize | 1).unwrap();
    std::cmp::Ordering: s => [std::cmp::Ordering::Less, std::cmp::Ordering::Equal, std::cmp::Ordering::Greater][s as usize % 3];
    &'static str: s => ["", "a", "corosensei"][s as usize % 3];
    Option<&'static u64>: s => if s % 3 == 0 { None } else { Some(&TABLE[s as usize % 16]) };
    &'static [u64]: s => &TABLE[..s as usize % 16];
    (u8, u32): s => (byte(s, 0), wide(s) as u32);
    (u8, u64, u8): s => (byte(s, 0), wide(s) as u64, byte(s, 9));
    (u32, u32): s => (wide(s) as u32, byte(s, 7) as u32);
    [u8; 3]: s => [byte(s, 0), byte(s, 1), byte(s, 2)];
    [u16; 5]: s => [byte(s, 0) as u16; 5];
    String: s => "x".repeat(s as usize % 40);
    Option<String>: s => if s % 3 == 0 { None } else { Some(s.to_string()) };
    Vec<u8>: s => vec![byte(s, 0); s as usize % 50];
    Box<u64>: s => Box::new(wide(s) as u64);
    Option<Box<u64>>: s => if s % 3 == 0 { None } else { Some(Box::new(s as u64)) };
    Box<[u8]>: s => vec![byte(s, 3); 5].into_boxed_slice();
    Result<u8, Box<u32>>: s => if s % 2 == 0 { Ok(byte(s, 0)) } else { Err(Box::new(s)) };
    Result<(), ()>: s => if s % 2 == 0 { Ok(()) } else { Err(()) };
    Result<Box<u32>, String>: s => if s % 2 == 0 { Ok(Box::new(s)) } else { Err(s.to_string()) };
    std::rc::Rc<u32>: s => std::rc::Rc::new(s);
}
impl Special for fn(u32) -> u32 {
    fn make(s: u32) -> Self {
        if s % 2 == 0 { f0 } else { f1 }
    }
    fn is(&self, s: u32) -> bool {
        self(3) == 3 + s % 2
    }
}
impl Special for Box<dyn Fn(u32) -> u32> {
    fn make(s: u32) -> Self {
        Box::new(move |x| x.wrapping_add(s))
    }
    fn is(&self, s: u32) -> bool {
        self(5) == s.wrapping_add(5)
    }
}
impl Special for Box<dyn std::any::Any + Send> {
    fn make(s: u32) -> Self {
        Box::new(s)
    }
    fn is(&self, s: u32) -> bool {
        self.downcast_ref::<u32>() == Some(&s)
    }
}
impl Special for f64 {
    fn make(s: u32) -> Self {
        [0.0, -0.0, 1.5, f64::INFINITY, f64::NAN, f64::MIN_POSITIVE / 2.0][s as usize % 6]
    }
    fn is(&self, s: u32) -> bool {
        self.to_bits() == <f64 as Special>::make(s).to_bits()
    }
}
impl Special for f32 {
    fn make(s: u32) -> Self {
        [0.0, -0.0, 1.5, f32::INFINITY, f32::NAN, f32::MIN_POSITIVE / 2.0][s as usize % 6]
    }
    fn is(&self, s: u32) -> bool {
        self.to_bits() == <f32 as Special>::make(s).to_bits()
    }
}
#[repr(C, packed)]
#[derive(Clone, Copy, PartialEq)]
pub struct Packed(u8, u64, u16);
impl Special for Packed {
    fn make(s: u32) -> Self {
        Packed(byte(s, 0), wide(s) as u64, byte(s, 2) as u16)
    }
    fn is(&self, s: u32) -> bool {
        *self == <Packed as Special>::make(s)
    }
}
#[cfg(target_arch = "x86_64")]
use std::arch::x86_64::__m128i;
#[cfg(target_arch = "x86")]
use std::arch::x86::__m128i;
impl Special for __m128i {
    fn make(s: u32) -> Self {
        unsafe { std::mem::transmute(wide(s)) }
    }
    fn is(&self, s: u32) -> bool {
        unsafe { std::mem::transmute::<__m128i, u128>(*self) == wide(s) }
    }
}
#[derive(PartialEq)]
pub enum Mixed {
    None,
    Byte(u8),
    Word(usize),
    Text(String),
    Pair(u64, u64),
}
impl Special for Mixed {
    fn make(s: u32) -> Self {
        match s % 5 {
            0 => Mixed::None,
            1 => Mixed::Byte(byte(s, 0)),
            2 => Mixed::Word(wide(s) as usize),
            3 => Mixed::Text(s.to_string()),
            _ => Mixed::Pair(wide(s) as u64, s as u64),
        }
    }
    fn is(&self, s: u32) -> bool {
        *self == <Mixed as Special>::make(s)
    }
}
impl Special for std::mem::MaybeUninit<u64> {
    fn make(s: u32) -> Self {
        std::mem::MaybeUninit::new(wide(s) as u64)
    }
    fn is(&self, s: u32) -> bool {
        unsafe { self.assume_init() == wide(s) as u64 }
    }
}

type Co<A, B, C> = Coroutine<A, B, C, TStack>;

struct Mems {
    co: Mem,
    aux: Mem,
}
static mut MEMS: Option<Mems> = None;
fn mems() -> &'static Mems {
    unsafe { MEMS.get_or_insert_with(|| Mems { co: Mem::new(16 << 20), aux: Mem::new(16 << 20) }) }
}

/// Continues at the recovery closure as a trap handler would.
#[inline(never)]
fn do_trap<A: Val, B: Val, C: Val>() -> ! {
    unsafe {
        let co = &*(w().co as *const Co<A, B, C>);
        let r = co.trap_handler().setup_trap_handler(move || send::<C>(R));
        #[cfg(target_arch = "x86_64")]
        core::arch::asm!("mov rsp, rax", "mov rbp, rcx", "jmp rdx",
            in("rax") r.rsp, in("rcx") r.rbp, in("rdx") r.rip, in("rdi") r.rdi, in("rsi") r.rsi, options(noreturn));
        #[cfg(target_arch = "x86")]
        core::arch::asm!("mov ebp, [eax + 4]", "mov esp, [eax]", "jmp [eax + 8]",
            in("eax") &[r.esp, r.ebp, r.eip], in("ecx") r.ecx, in("edx") r.edx, options(noreturn));
    }
}

struct AssertSend<T>(T);
unsafe impl<T> Send for AssertSend<T> {}

/// Code on another stack: captures one value and returns another.
#[inline(always)]
fn foreign<B: Val, C: Val>(c: AssertSend<B>) -> C {
    let c = c;
    got(Y, &c.0);
    match choose(3) {
        0 => {
            drop(c);
            send::<C>(R)
        }
        1 => {
            let r = send::<C>(R);
            drop(c);
            r
        }
        _ => std::panic::panic_any(17u8),
    }
}

#[inline(never)]
fn body<A: Val, B: Val, C: Val>(y: &Yielder<A, B>, input: A) -> C {
    got(I, &input);
    let mut held = if choose(2) == 1 { Some(input) } else { drop(input); None };
    let mut parents = 0;
    loop {
        match choose(7) {
            0 => return send::<C>(R),
            1 => {
                let i = y.suspend(send::<B>(Y));
                got(I, &i);
                held = if choose(2) == 1 { Some(i) } else { None };
            }
            2 => std::panic::panic_any(3u8),
            3 => {
                let v = send::<B>(Y);
                match catch_unwind(AssertUnwindSafe(|| y.suspend(v))) {
                    Ok(i) => {
                        got(I, &i);
                        held = Some(i);
                    }
                    Err(p) => {
                        if w().dropping || choose(2) == 1 {
                            resume_unwind(p);
                        }
                    }
                }
            }
            4 | 5 if parents > 1 => return send::<C>(R),
            4 => {
                parents += 1;
                let c = AssertSend(send::<B>(Y));
                let st = mems().aux.stack();
                match catch_unwind(AssertUnwindSafe(|| on_stack(st, move || foreign::<B, C>(c)))) {
                    Ok(r) => got(R, &r),
                    Err(p) => require!(p.downcast_ref() == Some(&17u8), "wrong panic from on_stack"),
                }
            }
            5 => {
                parents += 1;
                let c = AssertSend(send::<B>(Y));
                match catch_unwind(AssertUnwindSafe(|| y.on_parent_stack(move || foreign::<B, C>(c)))) {
                    Ok(r) => got(R, &r),
                    Err(p) => require!(p.downcast_ref() == Some(&17u8), "wrong panic from on_parent_stack"),
                }
            }
            _ => {
                drop(held.take());
                do_trap::<A, B, C>();
            }
        }
        std::hint::black_box(&held);
    }
}

/// In turn: taken apart, or converted one way or the other.
#[inline(never)]
fn received<B: Val, C: Val>(r: CoroutineResult<B, C>) {
    let yields = matches!(r, CoroutineResult::Yield(_));
    match w().seed % 3 {
        0 => match r {
            CoroutineResult::Yield(v) => got(Y, &v),
            CoroutineResult::Return(v) => got(R, &v),
        },
        1 => {
            let v = r.as_yield();
            require!(v.is_some() == yields, "as_yield");
            v.iter().for_each(|v| got(Y, v));
        }
        _ => {
            let v = r.as_return();
            require!(v.is_some() != yields, "as_return");
            v.iter().for_each(|v| got(R, v));
        }
    }
}

fn one<A: Val, B: Val, C: Val>() {
    let allocs = unsafe { ALLOCS };
    w().dropping = false;
    w().seed = 0;
    unsafe { (DROPPED, MADE) = (0, 0) };
    let mut co: Co<A, B, C> = Coroutine::with_stack(mems().co.stack(), |y, i| body::<A, B, C>(y, i));
    w().co = &co as *const _ as usize;
    let mut ops = 0;
    loop {
        let op = choose(3);
        ops += 1;
        match op {
            0 => {
                w().dropping = true;
                drop(co);
                break;
            }
            1 => {
                let done = co.done();
                let v = send::<A>(I);
                match catch_unwind(AssertUnwindSafe(|| co.resume(v))) {
                    Ok(r) => received(r),
                    Err(p) => {
                        if p.downcast_ref() != Some(&3u8) {
                            require!(done, "unexpected panic out of resume");
                        }
                    }
                }
            }
            _ => {
                let _ = catch_unwind(AssertUnwindSafe(|| co.force_unwind()));
            }
        }
        let l = &w().live;
        require!(l[Y].is_empty() && l[R].is_empty(), "a yielded or returned value was not dropped: {:?}", l);
        require!(!co.done() || l[I].is_empty(), "an input was not dropped: {:?}", l);
    }
    let l = &w().live;
    require!(l.iter().all(|x| x.is_empty()), "values not dropped: {:?}", l);
    unsafe {
        require!(DROPPED == MADE, "{} stacks made, {} dropped", MADE, DROPPED);
        require!(ALLOCS == allocs, "{} allocations leaked or freed twice", ALLOCS - allocs);
    }
    eval(ops > 1);
}

fn run<A: Val, B: Val, C: Val>(name: &str, depth: usize) {
    for l in &mut w().live {
        l.reserve(64);
    }
    // Warm up lazily initialised state of the runtime.
    let _ = catch_unwind(|| std::panic::panic_any(1));
    mems();
    all(depth, || {
        at!("{} choices {}", name, Path);
        one::<A, B, C>();
    });
    require!(mems().co.check(0) && mems().aux.check(0), "memory above a stack was written");
}


pub fn cases(v: &mut Vec<Case>) {
    let deep = grids::thorough();
    let d = if deep { 8 } else { 6 };
    let dx = if deep { 7 } else { 5 };
    macro_rules! lone {
        ($($al:ident [$(($a:literal $b:literal))*])*) => { $($(
            v.push(case(format!("size {} align {}", 32 * $a + $b, std::mem::align_of::<$al>()), move || {
                run::<Tok<I, $al, $a, $b>, Sp<Y, ()>, Sp<R, ()>>("as input", d);
                run::<Sp<I, ()>, Tok<Y, $al, $a, $b>, Sp<R, ()>>("as yield", d);
                run::<Sp<I, ()>, Sp<Y, ()>, Tok<R, $al, $a, $b>>("as return", d);
                run::<Tok<I, $al, $a, $b>, Tok<Y, $al, $a, $b>, Tok<R, $al, $a, $b>>("as all", d);
            }));
        )*)* };
    }
    /// Fewer choices.
    macro_rules! huge {
        ($($al:ident $a:literal $b:literal)*) => { $(
            let d = d - 1;
            v.push(case(format!("size {} align {}, as input", 32 * $a + $b, std::mem::align_of::<$al>()), move || {
                run::<Tok<I, $al, $a, $b>, Sp<Y, ()>, Sp<R, ()>>("", d);
            }));
            v.push(case(format!("size {} align {}, as yield", 32 * $a + $b, std::mem::align_of::<$al>()), move || {
                run::<Sp<I, ()>, Tok<Y, $al, $a, $b>, Sp<R, ()>>("", d);
            }));
            v.push(case(format!("size {} align {}, as return", 32 * $a + $b, std::mem::align_of::<$al>()), move || {
                run::<Sp<I, ()>, Sp<Y, ()>, Tok<R, $al, $a, $b>>("", d);
            }));
            v.push(case(format!("size {} align {}, as all", 32 * $a + $b, std::mem::align_of::<$al>()), move || {
                run::<Tok<I, $al, $a, $b>, Tok<Y, $al, $a, $b>, Tok<R, $al, $a, $b>>("", d - 1);
            }));
        )* };
    }
    macro_rules! specials {
        ($($t:ty),* $(,)?) => { $(
            v.push(case(format!("type {}", stringify!($t)), move || {
                run::<Sp<I, $t>, Sp<Y, ()>, Sp<R, ()>>("as input", d);
                run::<Sp<I, ()>, Sp<Y, $t>, Sp<R, ()>>("as yield", d);
                run::<Sp<I, ()>, Sp<Y, ()>, Sp<R, $t>>("as return", d);
                run::<Sp<I, $t>, Sp<Y, $t>, Sp<R, $t>>("as all", d);
            }));
        )* };
    }
    macro_rules! cross {
        ($al:ident $a:literal $b:literal) => { classes!(cross3 $al $a $b) };
    }
    macro_rules! cross3 {
        ([$al:ident $a:literal $b:literal] $(($al2:ident $a2:literal $b2:literal))*) => { $(
            cross4!($al $a $b $al2 $a2 $b2);
        )* };
    }
    macro_rules! cross4 {
        ($($p:tt)*) => { classes!(cross5 $($p)*) };
    }
    macro_rules! cross5 {
        ([$al:ident $a:literal $b:literal $al2:ident $a2:literal $b2:literal] $(($al3:ident $a3:literal $b3:literal))*) => { $(
            v.push(case(format!("input {}{} yield {}{} return {}{}",
                32 * $a + $b, stringify!($al), 32 * $a2 + $b2, stringify!($al2), 32 * $a3 + $b3, stringify!($al3)), move || {
                run::<Tok<I, $al, $a, $b>, Tok<Y, $al2, $a2, $b2>, Tok<R, $al3, $a3, $b3>>("", dx);
            }));
        )* };
    }
    list!();
}
