//! C04, C06, C08, C13: what a panic carries.
//!
//! Every kind of payload and of panic, through every sequence of boundaries: out of coroutines, of
//! code on other stacks and on the parent stack, of forced unwindings, recoveries and threads.

#![allow(static_mut_refs)]

use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use grids::stacks::{Mem, TStack, DROPPED, MADE};
use grids::{at, case, drive, eval, require, Case};
use std::any::Any;
use std::cell::RefCell;
use std::hint::black_box;
use std::num::NonZeroUsize;
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};
use std::sync::Arc;

type Y = Yielder<u64, u64>;
type Co = Coroutine<u64, u64, u64, TStack>;
type Payload = Box<dyn Any + Send>;

static mut MEMS: Vec<Mem> = vec![];

struct State {
    word: Vec<u8>,
    kind: usize,
    /// Distinguishes this evaluation from the others.
    seq: usize,
    hooks: usize,
    line: u32,
    message: Option<String>,
    dropped: Vec<usize>,
    payload_drops: usize,
    arc: Option<Arc<usize>>,
    co: *const Co,
}
static mut ST: State =
    State { word: vec![], kind: 0, seq: 0, hooks: 0, line: 0, message: None, dropped: vec![], payload_drops: 0, arc: None, co: std::ptr::null() };
fn st() -> &'static mut State {
    unsafe { &mut ST }
}

/// Counts its drops.
#[derive(Debug, PartialEq)]
struct Counted(usize);
impl Drop for Counted {
    fn drop(&mut self) {
        st().payload_drops += 1;
    }
}
#[repr(align(128))]
struct Aligned(usize, [u8; 100]);
struct Big([usize; 3000]);
#[derive(Debug, PartialEq)]
struct Zst;
/// As the crate's own, but another.
struct ForcedUnwind(NonZeroUsize);
impl Drop for ForcedUnwind {
    fn drop(&mut self) {
        st().payload_drops += 1;
    }
}
#[derive(Debug)]
struct Error(usize);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "error {}", self.0)
    }
}
impl std::error::Error for Error {}

/// Does it have a message? Is the panic hook run?
const KINDS: &[(&str, bool, bool)] = &[
    ("panic!(literal)", true, true),
    ("panic!(formatted)", true, true),
    ("panic_any(&str)", true, true),
    ("panic_any(String)", true, true),
    ("panic_any(Counted)", false, true),
    ("resume_unwind(Counted)", false, false),
    ("resume_unwind(&str)", false, false),
    ("resume_unwind(String)", false, false),
    ("resume_unwind(empty String)", false, false),
    ("panic_any(())", false, true),
    ("resume_unwind(())", false, false),
    ("resume_unwind(Zst)", false, false),
    ("resume_unwind(u8)", false, false),
    ("resume_unwind(usize)", false, false),
    ("resume_unwind(NonZeroUsize of the stack)", false, false),
    ("resume_unwind(Aligned)", false, false),
    ("resume_unwind(Big)", false, false),
    ("panic_any(Box<dyn Any + Send>)", false, true),
    ("resume_unwind(Box<Box<dyn Any + Send>>)", false, false),
    ("resume_unwind(Box<dyn Error>)", false, false),
    ("resume_unwind(Option<String>)", false, false),
    ("resume_unwind(Result<u64, Box<dyn Any + Send>>)", false, false),
    ("resume_unwind(ForcedUnwind)", false, false),
    ("resume_unwind(Arc)", false, false),
    ("resume_unwind(io::Error)", false, false),
    ("resume_unwind(fn)", false, false),
    ("index out of bounds", true, true),
    ("unwrap of None", true, true),
    ("unwrap of Err", true, true),
    ("division by zero", true, true),
    ("already borrowed", true, true),
    ("assert_eq", true, true),
    ("unreachable", true, true),
    ("slice range", true, true),
    ("caught, then resumed", true, true),
];

#[inline(never)]
fn raise() -> ! {
    let s = st();
    let q = black_box(s.seq);
    let any = |p: Payload| -> ! { resume_unwind(p) };
    match s.kind {
        0 => panic!("a literal"),
        1 => panic!("formatted {}", q),
        2 => panic_any("a constant"),
        3 => panic_any(format!("string {}", q)),
        4 => panic_any(Counted(q)),
        5 => any(Box::new(Counted(q))),
        6 => any(Box::new("resumed constant")),
        7 => any(Box::new(format!("resumed {}", q))),
        8 => any(Box::new(String::new())),
        9 => panic_any(()),
        10 => any(Box::new(())),
        11 => any(Box::new(Zst)),
        12 => any(Box::new(q as u8)),
        13 => any(Box::new(q)),
        14 => any(Box::new(NonZeroUsize::new(&q as *const _ as usize & !15).unwrap())),
        15 => any(Box::new(Aligned(q, [q as u8; 100]))),
        16 => any(Box::new(Big([q; 3000]))),
        17 => panic_any(Box::new(Counted(q)) as Payload),
        18 => any(Box::new(Box::new(Box::new(q) as Payload) as Payload)),
        19 => any(Box::new(Box::new(Error(q)) as Box<dyn std::error::Error + Send + Sync>)),
        20 => any(Box::new(Some(format!("option {}", q)))),
        21 => any(Box::new(Err(Box::new(Counted(q)) as Payload) as Result<u64, Payload>)),
        22 => any(Box::new(ForcedUnwind(NonZeroUsize::new(q + 1).unwrap()))),
        23 => {
            let a = Arc::new(q);
            s.arc = Some(a.clone());
            any(Box::new(a))
        }
        24 => any(Box::new(std::io::Error::other(Error(q)))),
        25 => any(Box::new(main as fn())),
        26 => {
            let v: Vec<u8> = vec![1; black_box(3)];
            let x = v[q + 3];
            unreachable!("{}", x)
        }
        27 => {
            black_box(None::<u64>).unwrap();
        }
        28 => {
            black_box(Err::<u64, Error>(Error(q))).unwrap();
        }
        29 => {
            black_box(q / black_box(0));
        }
        30 => {
            let c = RefCell::new(q);
            let _a = c.borrow_mut();
            let _b = c.borrow_mut();
        }
        31 => assert_eq!(q, black_box(q + 1), "not equal"),
        32 => unreachable!("never {}", q),
        33 => {
            let v: Vec<u8> = vec![1; black_box(3)];
            black_box(&v[q + 4..]);
        }
        _ => any(catch_unwind(|| panic!("first {}", st().seq)).err().unwrap()),
    }
    grids::fail!("harness: no panic")
}

fn message(p: &Payload) -> Option<String> {
    if let Some(x) = p.downcast_ref::<&'static str>() {
        return Some(x.to_string());
    }
    p.downcast_ref::<String>().cloned()
}

/// Is it the payload that was raised?
fn check(p: &Payload) {
    let s = st();
    let q = s.seq;
    fn eq<T: PartialEq + 'static>(p: &Payload, x: T) -> bool {
        p.downcast_ref::<T>() == Some(&x)
    }
    let ok = match s.kind {
        0 => eq(p, "a literal"),
        1 => eq(p, format!("formatted {}", q)),
        2 => eq(p, "a constant"),
        3 => eq(p, format!("string {}", q)),
        4 | 5 => p.downcast_ref::<Counted>().map(|x| x.0) == Some(q),
        6 => eq(p, "resumed constant"),
        7 => eq(p, format!("resumed {}", q)),
        8 => eq(p, String::new()),
        9 | 10 => eq(p, ()),
        11 => eq(p, Zst),
        12 => eq(p, q as u8),
        13 => eq(p, q),
        14 => p.is::<NonZeroUsize>(),
        15 => p.downcast_ref::<Aligned>().is_some_and(|a| a as *const _ as usize % 128 == 0 && a.0 == q && a.1 == [q as u8; 100]),
        16 => p.downcast_ref::<Big>().is_some_and(|b| b.0 == [q; 3000]),
        17 => p.downcast_ref::<Payload>().is_some_and(|p| p.downcast_ref::<Counted>().map(|x| x.0) == Some(q)),
        18 => p.downcast_ref::<Payload>().is_some_and(|p| p.downcast_ref::<Payload>().is_some_and(|p| eq(p, q))),
        19 => p
            .downcast_ref::<Box<dyn std::error::Error + Send + Sync>>()
            .is_some_and(|e| e.downcast_ref::<Error>().map(|e| e.0) == Some(q)),
        20 => eq(p, Some(format!("option {}", q))),
        21 => p
            .downcast_ref::<Result<u64, Payload>>()
            .is_some_and(|r| r.as_ref().is_err_and(|p| p.downcast_ref::<Counted>().map(|x| x.0) == Some(q))),
        22 => p.downcast_ref::<ForcedUnwind>().map(|x| x.0.get()) == Some(q + 1),
        23 => p.downcast_ref::<Arc<usize>>().is_some_and(|a| Arc::ptr_eq(a, s.arc.as_ref().unwrap()) && Arc::strong_count(a) == 2),
        24 => p.downcast_ref::<std::io::Error>().is_some_and(|e| e.to_string() == format!("error {}", q)),
        25 => p.downcast_ref::<fn()>().is_some_and(|f| *f as usize == main as *const () as usize),
        34 => eq(p, format!("first {}", q)),
        _ => message(p).is_some(),
    };
    require!(ok, "another payload than the one raised");
    if KINDS[s.kind].1 {
        require!(message(p) == s.message && s.message.is_some(), "another message than the panic hook was given");
    }
    require!(s.payload_drops == 0, "the payload was dropped");
    let hooks = KINDS[s.kind].2 as usize;
    require!(s.hooks == hooks, "the panic hook was run {} times instead of {}", s.hooks, hooks);
}

struct G(usize);
impl Drop for G {
    fn drop(&mut self) {
        require!(std::thread::panicking(), "level {} is left, but not by a panic", self.0);
        st().dropped.push(self.0);
    }
}

const WAYS: &[u8] = b"RQSPFTCV";

/// The rest of the word, each letter a boundary.
#[inline(never)]
fn level(i: usize, y: *const Y) -> u64 {
    let s = st();
    let _g = G(i);
    if i == s.word.len() {
        raise();
    }
    let stack = || unsafe { MEMS[i].stack() };
    match s.word[i] {
        b'R' => {
            let mut c: Co = Coroutine::with_stack(stack(), move |y: &Y, x| level(i + 1, y) + x);
            let r = catch_unwind(AssertUnwindSafe(|| c.resume(1)));
            require!(c.done(), "not done after a panic");
            finish(i, c, r)
        }
        b'Q' => {
            let mut c: Co = Coroutine::with_stack(stack(), move |y: &Y, x| {
                let x = y.suspend(x);
                level(i + 1, y) + x
            });
            require!(c.resume(7) == CoroutineResult::Yield(7), "yields another value");
            match c.resume(1) {
                CoroutineResult::Yield(x) => x,
                CoroutineResult::Return(x) => x,
            }
        }
        b'S' => on_stack(stack(), move || level(i + 1, std::ptr::null())),
        b'P' => unsafe { (*y).on_parent_stack(move || level(i + 1, std::ptr::null())) },
        b'F' => {
            let mut c: Co = Coroutine::with_stack(stack(), move |y: &Y, x| {
                let r = catch_unwind(AssertUnwindSafe(|| y.suspend(x)));
                require!(r.is_err() && !std::thread::panicking(), "no unwinding");
                drop(r);
                level(i + 1, y)
            });
            require!(c.resume(7) == CoroutineResult::Yield(7), "yields another value");
            let r = catch_unwind(AssertUnwindSafe(|| c.force_unwind()));
            require!(c.done(), "not done after a panic");
            finish(i, c, r)
        }
        b'T' => {
            let r = std::thread::scope(|s| s.spawn(move || level(i + 1, std::ptr::null())).join());
            match r {
                Ok(x) => x,
                Err(p) => {
                    require!(!std::thread::panicking(), "panicking");
                    check(&p);
                    resume_unwind(p)
                }
            }
        }
        b'C' => match catch_unwind(AssertUnwindSafe(|| level(i + 1, y))) {
            Ok(x) => x,
            Err(p) => {
                require!(!std::thread::panicking(), "panicking");
                check(&p);
                resume_unwind(p)
            }
        },
        _ => {
            let mut c: Co = Coroutine::with_stack(stack(), move |_: &Y, _| unsafe {
                let r = (*st().co).trap_handler().setup_trap_handler(move || level(i + 1, std::ptr::null()));
                grids::probe::jump(r)
            });
            s.co = &c;
            match c.resume(1) {
                CoroutineResult::Yield(x) => x,
                CoroutineResult::Return(x) => x,
            }
        }
    }
}

fn finish<T>(i: usize, c: Co, r: Result<T, Payload>) -> u64 {
    match r {
        Ok(_) => grids::fail!("level {}: no panic", i),
        Err(p) => {
            require!(!std::thread::panicking(), "panicking");
            check(&p);
            drop(c);
            check(&p);
            resume_unwind(p)
        }
    }
}

fn run(word: &[u8], kind: usize) {
    at!("{}", KINDS[kind].0);
    let s = st();
    s.word = word.to_vec();
    s.kind = kind;
    s.seq += 1;
    s.hooks = 0;
    s.message = None;
    s.dropped.clear();
    s.payload_drops = 0;
    s.arc = None;
    unsafe {
        DROPPED = 0;
        MADE = 0;
    }
    let r = catch_unwind(|| level(0, std::ptr::null()));
    let Err(p) = r else { grids::fail!("no panic") };
    require!(!std::thread::panicking(), "panicking after the panic was caught");
    check(&p);
    require!(s.dropped.iter().copied().eq((0..=word.len()).rev()), "left in the order {:?}", s.dropped);
    require!(unsafe { DROPPED == MADE }, "{} of {} stacks released", unsafe { DROPPED }, unsafe { MADE });
    drop(p);
    let drops = matches!(kind, 4 | 5 | 17 | 21 | 22) as usize;
    require!(s.payload_drops == drops, "the payload was dropped {} times", s.payload_drops);
    require!(s.arc.as_ref().is_none_or(|a| Arc::strong_count(a) == 1), "the payload was not dropped");
    for i in 0..word.len() {
        require!(unsafe { MEMS[i].check(0) }, "memory above stack {} written", i);
    }
    eval(true);
}

fn setup() {
    unsafe {
        if MEMS.is_empty() {
            for _ in 0..6 {
                MEMS.push(Mem::new(512 << 10));
            }
            std::panic::set_hook(Box::new(|i| {
                let s = st();
                s.hooks += 1;
                s.message = i.payload_as_str().map(|s| s.to_string());
                s.line = i.location().map_or(0, |l| l.line());
            }));
        }
    }
}

/// Is the parent stack only left from where a coroutine runs?
fn possible(w: &[u8]) -> bool {
    (0..w.len()).all(|i| {
        w[i] != b'P' || w[..i].iter().rev().find(|c| **c != b'C').is_some_and(|c| b"RQF".contains(c))
    })
}

fn main() {
    let deep = grids::thorough();
    let mut words: Vec<Vec<u8>> = vec![vec![]];
    let mut v: Vec<Case> = vec![];
    for _ in 0..if deep { 5 } else { 4 } {
        words = words.iter().flat_map(|w| WAYS.iter().map(move |c| [&w[..], &[*c]].concat())).filter(|w| possible(w)).collect();
        for w in words.clone() {
            v.push(case(String::from_utf8_lossy(&w).into_owned(), move || {
                setup();
                for k in 0..KINDS.len() {
                    run(&w, k);
                }
            }));
        }
    }
    drive(
        "C04",
        "35 kinds of panics and payloads through every sequence of up to 4 (5) of 8 kinds of boundaries",
        v,
    );
}
