//! C20: what Valgrind is told about default stacks.
//!
//! Every short history of creations, failures and releases is executed under Valgrind, whose log
//! of (de)registered stacks is compared with the stacks that are alive.

#![allow(static_mut_refs)]

use corosensei::stack::valgrind::ValgrindStackRegistration;
use corosensei::stack::{DefaultStack, Stack};
use corosensei::{on_stack, Coroutine};
use grids::choice::{all_from, choose, Path};
use grids::stacks;
use grids::{at, beat, case, count, drive, eval, fail, require, Case};
use libc::{c_int, c_void, size_t};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};

// --- the program under Valgrind ----------------------------------------------------------------

struct Env {
    active: bool,
    calls: usize,
    fail: usize,
}
static mut ENV: Env = Env { active: false, calls: 0, fail: usize::MAX };

struct Line([u8; 200], usize);
impl std::fmt::Write for Line {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let n = s.len().min(200 - self.1);
        self.0[self.1..self.1 + n].copy_from_slice(&s.as_bytes()[..n]);
        self.1 += n;
        Ok(())
    }
}
fn say(a: std::fmt::Arguments) {
    let mut l = Line([0; 200], 0);
    let _ = std::fmt::write(&mut l, a);
    let _ = std::fmt::write(&mut l, format_args!("\n"));
    unsafe { libc::write(2, l.0.as_ptr() as *const _, l.1) };
}
macro_rules! say { ($($t:tt)*) => { say(format_args!($($t)*)) }; }

fn fails() -> bool {
    unsafe {
        if !ENV.active {
            return false;
        }
        ENV.calls += 1;
        if ENV.calls - 1 == ENV.fail {
            *libc::__errno_location() = libc::ENOMEM;
            return true;
        }
        false
    }
}

unsafe fn my_mmap(a: *mut c_void, n: size_t, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void {
    if fails() {
        return libc::MAP_FAILED;
    }
    #[cfg(target_arch = "x86_64")]
    return libc::syscall(libc::SYS_mmap, a, n, p, f, fd, o) as *mut c_void;
    #[cfg(target_arch = "x86")]
    return libc::syscall(libc::SYS_mmap2, a, n, p, f, fd, (o >> 12) as i32) as *mut c_void;
}
#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut c_void, n: size_t, p: c_int, f: c_int, fd: c_int, o: libc::off_t) -> *mut c_void {
    my_mmap(a, n, p, f, fd, o as i64)
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, n: size_t, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void {
    my_mmap(a, n, p, f, fd, o)
}
#[no_mangle]
pub unsafe extern "C" fn mprotect(a: *mut c_void, n: size_t, p: c_int) -> c_int {
    if fails() {
        return -1;
    }
    libc::syscall(libc::SYS_mprotect, a, n, p) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn munmap(a: *mut c_void, n: size_t) -> c_int {
    if ENV.active {
        say!("@munmap {:x} {:x}", a as usize, a as usize + n);
    }
    libc::syscall(libc::SYS_munmap, a, n) as c_int
}

enum Held {
    Stack(DefaultStack),
    Boxed(Box<DefaultStack>),
    Suspended(Coroutine<(), (), (), DefaultStack>),
    Custom(ValgrindStackRegistration, (usize, usize)),
}

fn bounds(s: &DefaultStack) -> (usize, usize) {
    (s.limit().get(), s.base().get())
}

/// Runs `f` with the given system call failing.
fn creating<R>(fail: usize, f: impl FnOnce() -> R) -> R {
    unsafe { ENV = Env { active: true, calls: 0, fail } };
    let r = f();
    unsafe { ENV.fail = usize::MAX };
    r
}

fn new(size: usize, fail: usize) -> Option<DefaultStack> {
    let r = within(unsafe { CONTEXT.0 }, || creating(fail, || catch_unwind(AssertUnwindSafe(|| DefaultStack::new(size)))));
    match r {
        Ok(Ok(s)) => {
            let b = bounds(&s);
            say!("@new {:x} {:x}", b.0, b.1);
            Some(s)
        }
        _ => None,
    }
}

/// Where stacks are created and released.
static mut CONTEXT: (u8, u8) = (0, 0);

type Job = Box<dyn FnOnce() + Send>;
static mut HELPER: Option<(std::sync::mpsc::Sender<Job>, std::sync::mpsc::Receiver<()>)> = None;
/// Valgrind registers the stacks of threads, too: there is but one, there from the beginning.
fn start_helper() {
    let (a, b) = std::sync::mpsc::channel::<Job>();
    let (c, d) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        for j in b {
            j();
            c.send(()).unwrap();
        }
    });
    unsafe { HELPER = Some((a, d)) };
    within(2, || ());
}

fn within<R>(context: u8, f: impl FnOnce() -> R) -> R {
    if context != 2 {
        return stacks::within(context, f);
    }
    struct Any<T>(T);
    unsafe impl<T> Send for Any<T> {}
    impl<T> Any<T> {
        fn get(self) -> T {
            self.0
        }
    }
    let mut out = None;
    {
        let x = Any((f, &mut out));
        let j: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
            let (f, out) = x.get();
            *out = Some(f());
        });
        let j: Job = unsafe { std::mem::transmute(j) };
        let h = unsafe { HELPER.as_ref().unwrap() };
        h.0.send(j).unwrap();
        h.1.recv().unwrap();
    }
    out.unwrap()
}

fn release(h: Held) {
    within(unsafe { CONTEXT.1 }, || release_here(h))
}
fn release_here(h: Held) {
    let b = match &h {
        Held::Stack(s) => bounds(s),
        Held::Boxed(s) => bounds(s),
        Held::Suspended(_) => (0, 0),
        Held::Custom(_, b) => *b,
    };
    match h {
        Held::Suspended(mut c) => {
            let _ = c.resume(());
            let s = c.into_stack();
            let b = bounds(&s);
            say!("@idle");
            drop(s);
            say!("@gone {:x} {:x}", b.0, b.1);
        }
        h => {
            drop(h);
            say!("@gone {:x} {:x}", b.0, b.1);
        }
    }
}

fn history() {
    let mut held: Vec<Held> = Vec::with_capacity(8);
    say!("@seq");
    let mut k = 0usize;
    loop {
        let can = held.len() < 3;
        let n = held.len() as u8;
        // Releases first, then creations; nothing at all ends the history.
        let c = choose(1 + n + if can { 9 } else { 0 });
        if c == 0 {
            break;
        }
        k += 1;
        if c <= n {
            let h = held.remove(c as usize - 1);
            release(h);
        } else {
            match c - n - 1 {
                0 => held.extend(new(1, usize::MAX).map(Held::Stack)),
                1 => held.extend(new(12289, usize::MAX).map(|s| Held::Boxed(Box::new(s)))),
                // Each of the system calls fails.
                2 => held.extend(new(8192, 0).map(Held::Stack)),
                3 => held.extend(new(8192, 1).map(Held::Stack)),
                4 => held.extend(new(8192, 2).map(Held::Stack)),
                5 => held.extend(new(usize::MAX - 100, usize::MAX).map(Held::Stack)),
                // A stack that a coroutine has.
                6 => {
                    if let Some(s) = new(40000, usize::MAX) {
                        let mut c: Coroutine<(), (), (), DefaultStack> = Coroutine::with_stack(s, |y, _| y.suspend(()));
                        let _ = c.resume(());
                        held.push(Held::Suspended(c));
                    }
                }
                // One that is borrowed for a call and then lent to a coroutine.
                7 => {
                    if let Some(mut s) = new(20000, usize::MAX) {
                        let b = bounds(&s);
                        on_stack(&mut s, || say!("@idle"));
                        on_stack(s, || say!("@idle"));
                        say!("@gone {:x} {:x}", b.0, b.1);
                    }
                }
                // Something registered by the user.
                _ => {
                    let lo = 0x7000_0000 + k * 0x10000;
                    let r = ValgrindStackRegistration::new(lo as *mut u8, 0x3000);
                    say!("@new {:x} {:x}", lo, lo + 0x3000);
                    held.push(Held::Custom(r, (lo, lo + 0x3000)));
                }
            }
        }
        say!("@idle");
    }
    // All that is left, in either order.
    if choose(2) == 1 {
        held.reverse();
    }
    for h in held {
        release(h);
        say!("@idle");
    }
}

/// Sizes of every magnitude; the memory is never touched.
fn sizes() -> Vec<usize> {
    let mut v = vec![0, 1, 4095, 4096, 4097, 8191, 8192, 8193];
    for p in 14..if cfg!(target_pointer_width = "64") { 37 } else { 30 } {
        for d in [-4097isize, -1, 0, 1, 4096] {
            v.push((1usize << p).wrapping_add(d as usize));
        }
        v.push(3 << (p - 1));
    }
    v
}

/// Stacks of each size: alone, and while smaller ones are alive.
fn sweep() {
    let mut all = vec![];
    for n in sizes() {
        say!("@path size {}", n);
        say!("@seq");
        if let Some(s) = new(n, usize::MAX) {
            say!("@idle");
            release(Held::Stack(s));
            say!("@idle");
        }
        if let Some(s) = new(n, usize::MAX) {
            let b = bounds(&s);
            let mut c: Coroutine<(), (), (), DefaultStack> = Coroutine::with_stack(s, |y, _| y.suspend(()));
            let _ = c.resume(());
            say!("@idle");
            drop(c);
            say!("@gone {:x} {:x}", b.0, b.1);
            say!("@idle");
        }
    }
    say!("@path many sizes at a time");
    say!("@seq");
    let mut total = 0usize;
    for n in sizes() {
        total = total.saturating_add(n);
        if cfg!(target_pointer_width = "32") && total > 1 << 29 {
            break;
        }
        all.extend(new(n, usize::MAX));
        say!("@idle");
    }
    // Every other one first.
    let mut i = 0;
    while !all.is_empty() {
        if i >= all.len() {
            i = 0;
        }
        release(Held::Stack(all.remove(i)));
        say!("@idle");
        i += 1;
    }
    say!("@finished");
    std::process::exit(0)
}

fn child(prefix: &str, depth: usize) -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    if prefix == "sizes" {
        sweep()
    }
    let prefix = match prefix.split_once('/') {
        Some((c, p)) => {
            let c: u8 = c.parse().unwrap();
            unsafe { CONTEXT = (c / 10, c % 10) };
            start_helper();
            p
        }
        None => prefix,
    };
    let p: Vec<u8> = prefix.bytes().map(|b| b - b'0').collect();
    all_from(&p, depth, || {
        say!("@path {}", Path);
        history()
    });
    say!("@finished");
    std::process::exit(0)
}

// --- what is checked ---------------------------------------------------------------------------

fn run(prefix: String, depth: usize) {
    let me = std::env::current_exe().unwrap();
    let mut c = match Command::new("valgrind")
        .args(["--tool=none", "-d", "-d"])
        .arg(&me)
        .args(["--child", &prefix, "--depth", &depth.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn()
    {
        Ok(c) => c,
        // The tool is missing: nothing can be said.
        Err(_) => unsafe { libc::_exit(3) },
    };
    // What Valgrind knows; what is alive.
    let mut known: BTreeMap<u64, (usize, usize)> = BTreeMap::new();
    let mut alive: Vec<(usize, usize)> = vec![];
    let mut path = String::new();
    let (mut began, mut finished) = (false, false);
    let mut others = vec![];
    let mut n = 0;
    let hex = |s: &str| usize::from_str_radix(s.trim_start_matches("0x").trim_start_matches("0X"), 16).unwrap_or(0);
    for l in BufReader::new(c.stderr.take().unwrap()).lines() {
        let l = match l {
            Ok(l) => l,
            Err(_) => continue,
        };
        n += 1;
        if n % 64 == 0 {
            beat();
        }
        if let Some(t) = l.find("stacks ").map(|i| l[i + 7..].trim().to_string()) {
            let w: Vec<&str> = t.split_whitespace().collect();
            match w[0] {
                "register" => {
                    let id: u64 = w.last().unwrap().parse().unwrap();
                    let r = w.iter().find(|x| x.starts_with("[0x")).unwrap().trim_matches(|c| c == '[' || c == ']').to_string();
                    let (a, b) = r.split_once('-').unwrap();
                    if !began {
                        // The main stack, and that of a thread.
                        others.push(id);
                        continue;
                    }
                    let r = (hex(a), hex(b));
                    require!(!known.values().any(|k| k.0 < r.1 && r.0 < k.1), "a stack is registered from {:#x} to {:#x} where another one is", r.0, r.1);
                    known.insert(id, r);
                    count(0, 1);
                }
                "deregister" => {
                    let id: u64 = w.last().unwrap().parse().unwrap();
                    if others.contains(&id) {
                        continue;
                    }
                    require!(known.remove(&id).is_some(), "stack {} is deregistered, which is not registered", id);
                    count(0, 1);
                }
                _ => {}
            }
            continue;
        }
        if !l.starts_with('@') {
            continue;
        }
        let w: Vec<&str> = l.split_whitespace().collect();
        match w[0] {
            "@path" => {
                path = w[1..].join(" ");
                at!("history {}", path);
            }
            "@seq" => {
                began = true;
                require!(known.is_empty() && alive.is_empty(), "something is left from the history before");
            }
            "@munmap" => {
                let r = (hex(w[1]), hex(w[2]));
                require!(!known.values().any(|k| k.0 < r.1 && r.0 < k.1), "memory is released while a stack is registered there");
            }
            "@new" => {
                alive.push((hex(w[1]), hex(w[2])));
                count(0, 1);
            }
            "@gone" => {
                let r = (hex(w[1]), hex(w[2]));
                match alive.iter().position(|x| *x == r) {
                    Some(i) => drop(alive.remove(i)),
                    None => fail!("{:?} was not alive", r),
                }
            }
            "@idle" => {
                let mut k: Vec<_> = known.values().cloned().collect();
                let mut a = alive.clone();
                k.sort();
                a.sort();
                require!(k == a, "registered are {:x?}, alive {:x?}", k, a);
                count(1, 0);
                eval(!a.is_empty());
            }
            "@finished" => finished = true,
            _ => {}
        }
    }
    let st = c.wait().unwrap();
    if others.is_empty() {
        // This Valgrind does not say what is needed.
        unsafe { libc::_exit(3) }
    }
    require!(finished && began && st.success(), "the program under Valgrind failed after {}", path);
    require!(known.is_empty(), "something stays registered");
}

fn main() {
    let thorough = grids::thorough();
    if let Some(p) = grids::arg("--child") {
        child(&p, grids::arg("--depth").unwrap().parse().unwrap());
    }
    let depth = if thorough { 6 } else { 5 };
    let mut v: Vec<Case> = vec![];
    for (c, d) in (0..10u8).flat_map(|c| (0..11).map(move |d| (c, d))) {
        let p = if c == 0 { "0".to_string() } else { format!("{}{}", c, (b'0' + d) as char) };
        if c == 0 && d > 0 {
            continue;
        }
        v.push(case(format!("histories beginning with {}", p), move || run(p.clone(), depth)));
    }
    for i in [1, 2, 3, 4, 5, 10, 20, 11, 21, 12, 22, 33, 44, 35, 55] {
        for p in 1..10u8 {
            v.push(case(format!("in contexts {:02}, histories beginning with {}", i, p), move || run(format!("{}/{}", i, p), depth - 2)));
        }
    }
    v.push(case("sizes".to_string(), move || run("sizes".to_string(), 0)));
    drive(
        "C20",
        "every history of up to the stated number of creations of several kinds (also failing at each system call), releases in any order, and uses in coroutines and stack calls, executed under Valgrind, and stacks of every magnitude of size; non-trivial: some stack is alive",
        v,
    );
}
