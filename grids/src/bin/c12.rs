//! C12: default stacks over every size near a boundary, every failing system call and every short
//! history, judged by the kernel's view of the address space.

#![allow(static_mut_refs)]

use corosensei::stack::{DefaultStack, Stack, MIN_STACK_SIZE};
use corosensei::{Coroutine, CoroutineResult};
use grids::choice::{all, choose, Path};
use grids::stacks::{within, CONTEXTS};
use grids::{at, case, drive, eval, fail, require, Case};
use libc::{c_int, c_long, c_void, off64_t, size_t};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What the system answers.
struct Env {
    active: bool,
    /// Calls made since `begin`.
    calls: usize,
    maps: usize,
    /// The last mapping made.
    mapped: (usize, usize),
    /// The call that fails, and how.
    fail: usize,
    errno: c_int,
    failed: bool,
    failed_unmap: bool,
    /// Where the next mapping goes; 0: wherever the kernel likes.
    place: usize,
    down: bool,
    page: usize,
    page_asked: bool,
}
static mut E: Env = Env {
    active: false,
    calls: 0,
    maps: 0,
    mapped: (0, 0),
    fail: usize::MAX,
    errno: 0,
    failed: false,
    failed_unmap: false,
    place: 0,
    down: false,
    page: 4096,
    page_asked: false,
};
fn env() -> &'static mut Env {
    unsafe { &mut E }
}
/// Lengths are rounded up to the page size the system pretends to have.
fn round(n: usize) -> usize {
    let e = env();
    if !e.active || e.page <= 4096 {
        return n;
    }
    n.checked_add(e.page - 1).map_or(n, |x| x & !(e.page - 1))
}
fn step(unmap: bool) -> bool {
    let e = env();
    if !e.active {
        return false;
    }
    e.calls += 1;
    if e.calls - 1 == e.fail {
        e.failed = true;
        e.failed_unmap = unmap;
        unsafe { *libc::__errno_location() = e.errno };
        return true;
    }
    false
}

unsafe fn real_mmap(a: *mut c_void, n: size_t, p: c_int, f: c_int, fd: c_int, o: off64_t) -> *mut c_void {
    #[cfg(target_arch = "x86_64")]
    return libc::syscall(libc::SYS_mmap, a, n, p, f, fd, o) as *mut c_void;
    #[cfg(target_arch = "x86")]
    return libc::syscall(libc::SYS_mmap2, a, n, p, f, fd, (o >> 12) as i32) as *mut c_void;
}

unsafe fn my_mmap(a: *mut c_void, n: size_t, p: c_int, f: c_int, fd: c_int, o: off64_t) -> *mut c_void {
    let r = my_mmap2(a, round(n), p, f, fd, o);
    if env().active && r != libc::MAP_FAILED {
        env().mapped = (r as usize, r as usize + ((round(n) + 4095) & !4095));
    }
    r
}
unsafe fn my_mmap2(a: *mut c_void, n: size_t, p: c_int, f: c_int, fd: c_int, o: off64_t) -> *mut c_void {
    if step(false) {
        return libc::MAP_FAILED;
    }
    let e = env();
    if !e.active {
        return real_mmap(a, n, p, f, fd, o);
    }
    e.maps += 1;
    if e.place != 0 && a.is_null() {
        let pg = e.page.max(4096);
        if let Some(len) = n.checked_add(pg - 1).map(|x| x & !(pg - 1)) {
            if len != 0 && len < 1 << 30 {
                let at = if e.down { e.place - len } else { e.place };
                let r = real_mmap(at as *mut c_void, n, p, f | libc::MAP_FIXED_NOREPLACE, fd, o);
                if r != libc::MAP_FAILED {
                    e.place = if e.down { at } else { at + len };
                    return r;
                }
            }
        }
    }
    real_mmap(a, n, p, f, fd, o)
}
#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut c_void, n: size_t, p: c_int, f: c_int, fd: c_int, o: libc::off_t) -> *mut c_void {
    my_mmap(a, n, p, f, fd, o as off64_t)
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, n: size_t, p: c_int, f: c_int, fd: c_int, o: off64_t) -> *mut c_void {
    my_mmap(a, n, p, f, fd, o)
}
#[no_mangle]
pub unsafe extern "C" fn mprotect(a: *mut c_void, n: size_t, p: c_int) -> c_int {
    if step(false) {
        return -1;
    }
    libc::syscall(libc::SYS_mprotect, a, round(n), p) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn munmap(a: *mut c_void, n: size_t) -> c_int {
    if step(true) {
        return -1;
    }
    libc::syscall(libc::SYS_munmap, a, round(n)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sysconf(name: c_int) -> c_long {
    if name == libc::_SC_PAGESIZE {
        if env().active {
            env().page_asked = true;
            return env().page as c_long;
        }
        return 4096;
    }
    static mut REAL: usize = 0;
    if REAL == 0 {
        REAL = libc::dlsym(libc::RTLD_NEXT, b"sysconf\0".as_ptr() as *const _) as usize;
    }
    let f: extern "C" fn(c_int) -> c_long = std::mem::transmute(REAL);
    f(name)
}

/// The address space: (start, end, permissions).
type Maps = Vec<(usize, usize, u8)>;
fn snapshot(out: &mut Maps) {
    static mut BUF: [u8; 1 << 17] = [0; 1 << 17];
    out.clear();
    let buf = unsafe { &mut BUF };
    let mut n = 0;
    unsafe {
        let fd = libc::open(b"/proc/self/maps\0".as_ptr() as *const _, libc::O_RDONLY);
        assert!(fd >= 0);
        loop {
            let r = libc::read(fd, buf[n..].as_mut_ptr() as *mut c_void, buf.len() - n);
            if r <= 0 {
                break;
            }
            n += r as usize;
        }
        libc::close(fd);
    }
    assert!(n < buf.len());
    for l in buf[..n].split(|b| *b == b'\n') {
        let mut i = 0;
        let mut hex = || {
            let mut v = 0u64;
            while i < l.len() && l[i].is_ascii_hexdigit() {
                v = v * 16 + (l[i] as char).to_digit(16).unwrap() as u64;
                i += 1;
            }
            i += 1;
            v as usize
        };
        if l.len() < 10 {
            continue;
        }
        // The kernel's own mappings do not fit in a 32-bit word here.
        let (a, b) = (hex(), hex());
        let p = &l[i..i + 4];
        // These grow and shrink by themselves.
        if l.ends_with(b"[stack]") || l.ends_with(b"[heap]") {
            continue;
        }
        let perm = (p[0] == b'r') as u8 | ((p[1] == b'w') as u8) << 1 | ((p[2] == b'x') as u8) << 2 | ((p[3] == b'p') as u8) << 3 | 0x80;
        assert!(out.len() < out.capacity());
        out.push((a, b, perm));
    }
}
const RW: u8 = 0x80 | 8 | 3;
const NONE: u8 = 0x80 | 8;

fn perm(m: &Maps, a: usize) -> u8 {
    m.iter().find(|x| a >= x.0 && a < x.1).map_or(0, |x| x.2)
}

/// The first address from `a` up whose permissions are not `p`.
fn run_end(m: &Maps, mut a: usize, p: u8) -> usize {
    while let Some(x) = m.iter().find(|x| a >= x.0 && a < x.1 && x.2 == p) {
        a = x.1;
    }
    a
}
fn run_start(m: &Maps, mut a: usize, p: u8) -> usize {
    while let Some(x) = m.iter().find(|x| a > x.0 && a <= x.1 && x.2 == p) {
        a = x.0;
    }
    a
}

/// Segments that differ, merged.
fn diff(x: &Maps, y: &Maps, out: &mut Vec<(usize, usize)>) {
    static mut CUTS: Vec<usize> = Vec::new();
    let cuts = unsafe { &mut CUTS };
    cuts.clear();
    cuts.reserve(4096);
    for (a, b, _) in x.iter().chain(y.iter()) {
        cuts.push(*a);
        cuts.push(*b);
    }
    cuts.sort_unstable();
    cuts.dedup();
    out.clear();
    for w in cuts.windows(2) {
        if perm(x, w[0]) != perm(y, w[0]) {
            match out.last_mut() {
                Some(l) if l.1 == w[0] => l.1 = w[1],
                _ => out.push((w[0], w[1])),
            }
        }
    }
}

struct Space {
    before: Maps,
    after: Maps,
    d: Vec<(usize, usize)>,
    d2: Vec<(usize, usize)>,
    pipe: [c_int; 2],
}
static mut SPACE: Option<Space> = None;
fn space() -> &'static mut Space {
    unsafe {
        SPACE.get_or_insert_with(|| {
            let mut pipe = [0; 2];
            assert!(libc::pipe(pipe.as_mut_ptr()) == 0);
            Space {
                before: Vec::with_capacity(2048),
                after: Vec::with_capacity(2048),
                d: Vec::with_capacity(2048),
                d2: Vec::with_capacity(2048),
                pipe,
            }
        })
    }
}

/// (readable, writable), found out without touching the page ourselves.
fn probe(a: usize) -> (bool, bool) {
    let s = space();
    unsafe {
        let r = libc::write(s.pipe[1], a as *const c_void, 1) == 1;
        let mut c = 0u8;
        if r {
            assert!(libc::read(s.pipe[0], &mut c as *mut u8 as *mut c_void, 1) == 1);
        }
        assert!(libc::write(s.pipe[1], &c as *const u8 as *const c_void, 1) == 1);
        let w = libc::read(s.pipe[0], a as *mut c_void, 1) == 1;
        if !w {
            assert!(libc::read(s.pipe[0], &mut c as *mut u8 as *mut c_void, 1) == 1);
        }
        (r, w)
    }
}

fn begin(fail: usize, errno: c_int) {
    let e = env();
    e.calls = 0;
    e.maps = 0;
    e.fail = fail;
    e.errno = errno;
    e.failed = false;
    e.failed_unmap = false;
    e.mapped = (0, 0);
    e.page_asked = false;
    e.active = true;
}

#[derive(PartialEq)]
enum Made {
    Ok(usize, usize),
    Err,
    Panic,
}

/// Creates a stack and judges the outcome. `before` is the state to compare with.
fn make(size: usize, fail: usize, errno: c_int) -> (Option<DefaultStack>, Made) {
    within(unsafe { CONTEXT.0 }, || make_here(size, fail, errno))
}
/// Where stacks are created and released.
static mut CONTEXT: (u8, u8) = (0, 0);

fn make_here(size: usize, fail: usize, errno: c_int) -> (Option<DefaultStack>, Made) {
    let s = space();
    snapshot(&mut s.before);
    begin(fail, errno);
    let r = catch_unwind(AssertUnwindSafe(|| DefaultStack::new(size)));
    env().active = false;
    snapshot(&mut s.after);
    let (before, after) = (&s.before, &s.after);
    diff(before, after, &mut s.d);
    if env().failed_unmap {
        // What cannot be given back stays; nothing else may have changed.
        let m = env().mapped;
        for x in &s.d {
            require!(x.0 >= m.0 && x.1 <= m.1, "something else changed when a mapping could not be released: {:x?}", x);
        }
        unsafe { libc::syscall(libc::SYS_munmap, m.0, m.1 - m.0) };
        std::mem::forget(r);
        return (None, Made::Err);
    }
    match r {
        Err(p) => {
            drop(p);
            // Only arithmetic overflow may panic.
            require!(size > usize::MAX / 2, "creating a stack of {} bytes panics", size);
            require!(s.d.is_empty(), "a panic while creating a stack of {} bytes leaves {:x?} behind", size, s.d);
            (None, Made::Panic)
        }
        Ok(Err(_)) => {
            require!(
                env().failed || size > 1 << 24,
                "creating a stack of {} bytes fails although nothing failed", size
            );
            require!(s.d.is_empty(), "a failure to create a stack of {} bytes leaves {:x?} behind", size, s.d);
            (None, Made::Err)
        }
        Ok(Ok(st)) => {
            let (base, limit) = (st.base().get(), st.limit().get());
            let page = if env().page_asked { env().page } else { 4096 };
            let want = size.max(MIN_STACK_SIZE);
            require!(base % 4096 == 0 && limit % 4096 == 0, "bounds {:#x}..{:#x} are not page-aligned", limit, base);
            require!(base > limit, "base {:#x} below limit {:#x}", base, limit);
            require!(s.d.len() == 1 && s.d[0] == (limit, base), "the stack claims {:#x}..{:#x} but the address space changed at {:x?}", limit, base, s.d);
            require!(perm(before, limit) == 0, "the stack overlaps something else");
            let g = run_start(after, base, RW);
            require!(g < base && base - g >= want, "only {} accessible bytes at the top of a stack of {}", base - g.min(base), want);
            require!(g >= limit && g - limit >= page, "no room for a guard page inside the limits: accessible from {:#x}, limit {:#x}", g, limit);
            let lo = run_start(after, g, NONE);
            require!(lo <= g - page, "no guard page below {:#x}", g);
            require!(run_end(after, lo, NONE) == g, "guard not directly below the accessible part");
            unsafe {
                for a in [base - 1, base - want, g] {
                    (a as *mut u8).write_volatile(0x5A);
                    require!((a as *const u8).read_volatile() == 0x5A, "cannot use {:#x}", a);
                }
            }
            require!(probe(g - 1) == (false, false), "guard page accessible at {:#x}", g - 1);
            require!(probe(g - page) == (false, false), "guard page accessible at {:#x}", g - page);
            require!(probe(g) == (true, true) && probe(base - 1) == (true, true), "stack not accessible");
            (Some(st), Made::Ok(limit, base))
        }
    }
}

/// Drops a stack and judges the outcome.
fn unmake(st: DefaultStack, fail: usize) {
    within(unsafe { CONTEXT.1 }, || unmake_here(st, fail))
}
fn unmake_here(st: DefaultStack, fail: usize) {
    let s = space();
    let (base, limit) = (st.base().get(), st.limit().get());
    snapshot(&mut s.before);
    begin(fail, libc::EINVAL);
    let r = catch_unwind(AssertUnwindSafe(|| drop(st)));
    env().active = false;
    snapshot(&mut s.after);
    diff(&s.before, &s.after, &mut s.d);
    if env().failed {
        for x in &s.d {
            require!(x.0 >= limit && x.1 <= base, "something else changed when a stack was released: {:x?}", x);
        }
        // Give it back ourselves.
        unsafe { libc::syscall(libc::SYS_munmap, limit, base - limit) };
        return;
    }
    require!(r.is_ok(), "releasing a stack panics");
    require!(perm(&s.after, limit) == 0 && s.d == [(limit, base)], "releasing {:#x}..{:#x} changed {:x?}", limit, base, s.d);
    for x in &s.d {
        // Nothing may be left of it.
        require!(!s.after.iter().any(|m| m.0 < x.1 && m.1 > x.0), "part of a released stack is still mapped");
    }
}

fn sizes(deep: bool) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    let mut around = |x: u128, r: i128| {
        for d in -r..=r {
            let y = x as i128 + d;
            if y >= 0 && y <= usize::MAX as i128 {
                v.push(y as usize);
            }
        }
    };
    for k in 0..usize::BITS + 1 {
        around(1u128 << k, 2);
    }
    for k in 0..if deep { 300 } else { 40u128 } {
        around(k * 4096, 2);
        around(usize::MAX as u128 + 1 - k * 4096, 2);
        around((1u128 << (usize::BITS - 1)) + k * 4096, 1);
    }
    for k in 0..12 {
        around(k * 65536, 1);
        around(k * 16384, 1);
        around((1 << 20) + k * 12345, 0);
    }
    if deep {
        for x in (0..8192 * 3).step_by(7) {
            around(x, 0);
        }
    }
    v.sort();
    v.dedup();
    v
}

fn with_size(size: usize) {
    at!("size {:#x}", size);
    let (st, m) = make(size, usize::MAX, 0);
    let calls = env().calls;
    eval(m != Made::Panic);
    if let Some(st) = st {
        unmake(st, usize::MAX);
    }
    for k in 0..calls {
        for errno in [libc::ENOMEM, libc::EAGAIN, libc::EPERM] {
            at!("size {:#x}, call {} fails with {}", size, k, errno);
            let (st, _) = make(size, k, errno);
            eval(true);
            if let Some(st) = st {
                unmake(st, usize::MAX);
            }
        }
    }
    // The release fails.
    let (st, _) = make(size, usize::MAX, 0);
    if let Some(st) = st {
        at!("size {:#x}, release fails", size);
        unmake(st, 0);
        eval(true);
    }
}

#[cfg(target_arch = "x86_64")]
const AREA: usize = 0x5000_0000_0000;
#[cfg(target_arch = "x86")]
const AREA: usize = 0x6000_0000;

fn fill(limit: usize, base: usize, tag: u8) {
    let s = space();
    let g = run_start(&s.after, base, RW).max(limit);
    unsafe {
        for a in (g..base).step_by(4096) {
            *(a as *mut u8) = tag;
            *((a + 4095) as *mut u8) = tag;
        }
    }
}
fn filled(limit: usize, base: usize, tag: u8) -> bool {
    let s = space();
    snapshot(&mut s.after);
    let g = run_start(&s.after, base, RW).max(limit);
    unsafe { (g..base).step_by(4096).all(|a| *(a as *const u8) == tag && *((a + 4095) as *const u8) == tag) && g < base }
}

/// All short histories of several stacks next to each other.
fn history(down: bool, place: bool, depth: usize) {
    const SIZES: [usize; 3] = [1, 4097, 3 * 4096];
    all(depth, || {
        at!("history {} (down: {}, placed: {})", Path, down, place);
        let e = env();
        e.down = down;
        e.place = if place { AREA } else { 0 };
        let mut live: Vec<(DefaultStack, usize, usize, u8)> = Vec::with_capacity(8);
        let mut tag = 1;
        let mut n = 0;
        loop {
            // 0 ends; creations; failing creations; releases.
            let c = choose(6 + live.len() as u8);
            if c == 0 {
                break;
            }
            n += 1;
            match c {
                1..=3 if live.len() < 4 => {
                    if let (Some(st), Made::Ok(l, b)) = make(SIZES[c as usize - 1], usize::MAX, 0) {
                        fill(l, b, tag);
                        live.push((st, l, b, tag));
                        tag += 1;
                    }
                }
                1..=3 => {}
                4 | 5 => {
                    let (st, _) = make(8000, c as usize - 4, libc::ENOMEM);
                    if let Some(st) = st {
                        unmake(st, usize::MAX);
                    }
                }
                _ => {
                    let (st, ..) = live.remove(c as usize - 6);
                    unmake(st, usize::MAX);
                }
            }
            for (st, l, b, t) in &live {
                require!((st.limit().get(), st.base().get()) == (*l, *b), "bounds of a stack changed");
                require!(filled(*l, *b, *t), "contents of a stack changed when another one was created or released");
            }
        }
        for (st, ..) in live {
            unmake(st, usize::MAX);
        }
        env().place = 0;
        eval(n > 1);
    });
}

/// Stacks inside coroutines, and the default.
fn coroutines(depth: usize) {
    // Whatever is initialised lazily must be by now.
    let mut c: Coroutine<u8, u8, u8> = Coroutine::new(|y, i| y.suspend(i));
    c.resume(1);
    drop(c);
    let mut first = Vec::with_capacity(2048);
    snapshot(&mut first);
    all(depth, || {
        at!("coroutines {}", Path);
        let mut v: Vec<Coroutine<u8, u8, u8>> = Vec::with_capacity(4);
        let mut n = 0;
        loop {
            let c = choose(3 + 3 * v.len() as u8);
            n += 1;
            match c {
                0 => break,
                1 | 2 if v.len() < 3 => {
                    let st = if c == 1 { Default::default() } else { DefaultStack::new(20000).unwrap() };
                    if c == 1 {
                        require!(st.base().get() - st.limit().get() >= 1 << 20, "the default stack is smaller than 1 MiB");
                    }
                    v.push(Coroutine::with_stack(st, |y, i| y.suspend(i) + 1));
                }
                1 | 2 => {}
                _ => {
                    let i = (c as usize - 3) / 3;
                    match c % 3 {
                        0 => drop(v.remove(i)),
                        1 => {
                            if !v[i].done() {
                                match v[i].resume(3) {
                                    CoroutineResult::Yield(x) => require!(x == 3, "wrong yield"),
                                    CoroutineResult::Return(x) => require!(x == 4, "wrong return"),
                                }
                            }
                        }
                        _ => {
                            if v[i].done() {
                                let st = v.remove(i).into_stack();
                                v.push(Coroutine::with_stack(st, |y, i| y.suspend(i) + 1));
                            }
                        }
                    }
                }
            }
        }
        drop(v);
        let s = space();
        snapshot(&mut s.after);
        diff(&first, &s.after, &mut s.d2);
        require!(s.d2.is_empty(), "left behind: {:x?}", s.d2);
        eval(n > 1);
    });
}

/// Whatever is initialised or cached by what `within` does.
fn warm_up() {
    for i in 0..3 * CONTEXTS {
        within(i % CONTEXTS, || {
            let _ = catch_unwind(|| std::panic::panic_any(1));
            let _ = std::hint::black_box(vec![0u8; 5000]);
        });
    }
}

fn main() {
    let deep = grids::thorough();
    let mut v: Vec<Case> = vec![];
    for (i, c) in sizes(deep).chunks(24).enumerate() {
        let c = c.to_vec();
        v.push(case(format!("sizes {} from {:#x}", i, c[0]), move || {
            let _ = catch_unwind(|| std::panic::panic_any(1));
            for s in &c {
                with_size(*s);
            }
        }));
    }
    for page in [16384usize, 65536] {
        v.push(case(format!("page size {}", page), move || {
            for s in sizes(false) {
                if s < 1 << 21 {
                    let e = env();
                    e.page = page;
                    e.place = AREA;
                    e.down = false;
                    with_size(s);
                }
            }
        }).fresh());
    }
    for down in [false, true] {
        for place in [false, true] {
            v.push(case(format!("history down {} place {}", down, place), move || {
                history(down, place, if deep { 6 } else { 4 });
            }));
        }
    }
    for a in 0..CONTEXTS {
        for b in 0..CONTEXTS {
            if (a, b) == (0, 0) {
                continue;
            }
            v.push(case(format!("created in context {}, released in context {}", a, b), move || {
                warm_up();
                unsafe { CONTEXT = (a, b) };
                for s in [0, 4096, 4097, 12288, 1 << 20, usize::MAX - 5000] {
                    with_size(s);
                }
                history(false, true, if deep { 4 } else { 3 });
                unsafe { CONTEXT = (0, 0) };
            }));
        }
    }
    v.push(case("coroutines", move || coroutines(if deep { 6 } else { 4 })));
    v.push(case("threads", || {
        for s in [0, 4096, 100_000] {
            at!("thread, size {}", s);
            let (st, m) = make(s, usize::MAX, 0);
            let Made::Ok(l, b) = m else { fail!("cannot create") };
            let st = st.unwrap();
            std::thread::spawn(move || drop(st)).join().unwrap();
            let sp = space();
            snapshot(&mut sp.after);
            require!(perm(&sp.after, l) == 0 && perm(&sp.after, b - 1) == 0, "a stack dropped by another thread stays mapped");
            eval(true);
        }
    }));
    drive(
        "C12",
        "requested sizes around every power of two and page multiple x every failing system call x errno; all histories of up to the stated number of creations, failing creations and releases with up to four live stacks, placed adjacently; non-trivial: at least one system call answered or two operations",
        v,
    );
}
