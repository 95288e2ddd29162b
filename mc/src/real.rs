//! Executes scripts (model paths) on the real crate and compares what happens with what the model
//! predicted, observation by observation.

use crate::bt;
use crate::model::{Obs, Op, PDesc, M_ACC, M_BT, M_EXC, M_FP, M_FRC, M_LIFE, M_MEM, M_WHERE, THREAD_STACK};
use crate::shm::WorkerShm;
use crate::stacks::{AnyStack, Arena};
use corosensei::stack::Stack;
use corosensei::trap::CoroutineTrapHandler;
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use std::any::Any;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const EXIT_VIOLATION: i32 = 77;
pub const EXIT_CRASH: i32 = 78;

type Co<const N: usize> = Coroutine<Val<N>, Val<N>, Val<N>, AnyStack>;

struct Slot<const N: usize> {
    c: u32,
    co: Co<N>,
}

struct CoRec<const N: usize> {
    th: CoroutineTrapHandler<Val<N>>,
}

/// The yielder a frame may use, and whose it is.
pub struct Y<'a, const N: usize>(&'a Yielder<Val<N>, Val<N>>, u32);
impl<'a, const N: usize> Clone for Y<'a, N> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<'a, const N: usize> Copy for Y<'a, N> {}

/// State common to all value sizes.
pub struct World {
    script: *const Op,
    script_len: usize,
    pos: usize,
    exp: *const Obs,
    exp_len: usize,
    epos: usize,
    mask: u32,
    mix: u32,
    /// Observation index from which the process is doomed (usize::MAX if it is not).
    doom: usize,
    next_tok: u32,
    next_uid: u32,
    next_stack: u32,
    live: Vec<bool>,
    pub frames: Vec<usize>,
    arena: Arena,
    pool: Vec<AnyStack>,
    kept: Option<Box<dyn Any + Send>>,
    slots: *mut (),
    cos: *mut (),
    /// (stack id, gone) of each coroutine.
    recs: Vec<(u32, bool)>,
    cur: u32,
    ended: bool,
    trapping: bool,
    runs: u64,
    shm: *const WorkerShm,
    trap: Option<unsafe fn(usize) -> Option<corosensei::trap::TrapHandlerRegs>>,
    pub bt_range: Vec<(usize, usize)>,
}

impl World {
    pub fn known_memory(&self, a: usize) -> bool {
        // The records of a parent-stack frame may lie right at a base.
        self.arena.find(a).is_some() || thread_of(a).is_some()
    }
}

static mut WORLD: *mut World = std::ptr::null_mut();
static BATON: AtomicU32 = AtomicU32::new(0);
static IDLE: AtomicU32 = AtomicU32::new(0);
static GEN: AtomicU32 = AtomicU32::new(0);

#[inline(always)]
pub fn w() -> &'static mut World {
    unsafe { &mut *WORLD }
}
fn slots<const N: usize>() -> &'static mut Vec<Option<Slot<N>>> {
    unsafe { &mut *(w().slots as *mut Vec<Option<Slot<N>>>) }
}
fn cos<const N: usize>() -> &'static mut Vec<CoRec<N>> {
    unsafe { &mut *(w().cos as *mut Vec<CoRec<N>>) }
}

#[cold]
#[inline(never)]
pub fn violation(msg: &str) -> ! {
    unsafe {
        let s = &*w().shm;
        s.set_msg(&format!("{} [at script position {}]", msg, w().pos));
        s.pos.store(w().pos as u32, SeqCst);
        libc::_exit(EXIT_VIOLATION)
    }
}

#[inline(never)]
fn log(o: Obs) {
    let w = w();
    if o.mask() & w.mask == 0 {
        return;
    }
    if w.epos >= w.doom {
        // The process must terminate during this step. What the model lists up to there may still
        // happen, destructors optionally; nothing else may, except further destructors.
        let mut i = w.epos;
        while i < w.exp_len {
            let e = unsafe { &*w.exp.add(i) };
            if *e == o {
                w.epos = i + 1;
                return;
            }
            if !matches!(e, Obs::Drop(_)) {
                break;
            }
            i += 1;
        }
        if matches!(o, Obs::Drop(_)) {
            return;
        }
        violation(&format!("execution continued past a fatal step: observed {:?}", o));
    }
    if w.epos >= w.exp_len {
        violation(&format!("unexpected extra observation {:?}", o));
    }
    let e = unsafe { &*w.exp.add(w.epos) };
    if *e != o {
        violation(&format!("observed {:?} where the model requires {:?}", o, e));
    }
    w.epos += 1;
}

fn new_tok() -> u32 {
    let w = w();
    let t = w.next_tok;
    w.next_tok += 1;
    w.live.push(true);
    t
}
fn drop_tok(t: u32) {
    let w = w();
    match w.live.get_mut(t as usize) {
        Some(l) if *l => *l = false,
        Some(_) => {
            if w.mask & Obs::Drop(0).mask() != 0 {
                violation(&format!("token {} dropped twice", t));
            }
        }
        None => violation(&format!("a value with impossible identity {:#x} was dropped", t)),
    }
    log(Obs::Drop(t));
}
fn new_uid() -> u32 {
    let w = w();
    w.next_uid += 1;
    w.frames.push(0);
    w.next_uid - 1
}
fn new_stack(kind_id: u32) -> AnyStack {
    let w = w();
    let k = Arena::stack_kind(w.mix, kind_id);
    w.arena.alloc(kind_id, k)
}
fn fresh_stack() -> AnyStack {
    let w = w();
    w.next_stack += 1;
    new_stack(w.next_stack - 1)
}

impl Drop for AnyStack {
    fn drop(&mut self) {
        let w = w();
        let id = w.arena.release(self);
        for r in w.recs.iter_mut() {
            if r.0 == id {
                r.1 = true;
            }
        }
        if let Some(e) = w.arena.error.take() {
            if w.mask & M_MEM != 0 {
                violation(&e);
            }
        }
        unsafe { std::mem::ManuallyDrop::drop(&mut self.0) };
        log(Obs::StackDrop(id));
    }
}

/// A tracked value, padded to travel by register or by memory.
pub struct Val<const N: usize> {
    id: u32,
    pad: [u8; N],
}
impl<const N: usize> Val<N> {
    fn new() -> Self {
        let id = new_tok();
        let mut pad = [0; N];
        for (i, b) in pad.iter_mut().enumerate() {
            *b = (id as u8).wrapping_mul(31).wrapping_add(i as u8);
        }
        Val { id, pad }
    }
    fn check(&self) {
        for (i, b) in self.pad.iter().enumerate() {
            if *b != (self.id as u8).wrapping_mul(31).wrapping_add(i as u8) {
                violation(&format!("value {} arrived corrupted at byte {}", self.id, i));
            }
        }
    }
}
impl<const N: usize> Drop for Val<N> {
    fn drop(&mut self) {
        self.check();
        drop_tok(self.id);
    }
}

struct Cap {
    id: u32,
    bomb: bool,
}
impl Cap {
    fn new(bomb: bool) -> Cap {
        Cap { id: new_tok(), bomb }
    }
}
impl Drop for Cap {
    fn drop(&mut self) {
        drop_tok(self.id);
        if self.bomb && !std::thread::panicking() {
            panic_any(PanicTok(new_tok()));
        }
    }
}

struct PanicTok(u32);
impl Drop for PanicTok {
    fn drop(&mut self) {
        drop_tok(self.0);
    }
}

fn desc(p: &Box<dyn Any + Send>) -> PDesc {
    if let Some(t) = p.downcast_ref::<PanicTok>() {
        PDesc::Tok(t.0)
    } else if p.is::<&'static str>() || p.is::<String>() {
        PDesc::Msg
    } else {
        PDesc::Opaque
    }
}

/// A coroutine taken out of its slot while it is operated upon; goes back whatever happens.
struct Held<const N: usize> {
    k: usize,
    s: Option<Slot<N>>,
}
impl<const N: usize> Held<N> {
    fn take(k: usize) -> Self {
        Held { k, s: slots::<N>()[k].take() }
    }
}
impl<const N: usize> Drop for Held<N> {
    fn drop(&mut self) {
        slots::<N>()[self.k] = self.s.take();
    }
}

struct OpsGuard<const N: usize>;
impl<const N: usize> Drop for OpsGuard<N> {
    fn drop(&mut self) {
        let uid = new_uid();
        match catch_unwind(AssertUnwindSafe(|| run_frame::<N>(uid, None))) {
            Ok(v) => log(Obs::FrameRet(v.id)),
            Err(p) => log(Obs::Caught(desc(&p))),
        }
    }
}

struct AssertSend<T>(T);
unsafe impl<T> Send for AssertSend<T> {}
impl<T> AssertSend<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

#[inline(always)]
pub fn sp() -> usize {
    let r: usize;
    unsafe {
        #[cfg(target_arch = "x86_64")]
        core::arch::asm!("mov {}, rsp", out(reg) r);
        #[cfg(target_arch = "x86")]
        core::arch::asm!("mov {}, esp", out(reg) r);
    }
    r
}

fn thread_of(sp: usize) -> Option<u32> {
    w().bt_range.iter().position(|(a, b)| sp >= *a && sp < *b).map(|x| x as u32 + THREAD_STACK)
}

#[inline(never)]
fn next_op<const N: usize>(uid: u32) -> Op {
    let w = w();
    if w.pos >= w.script_len {
        violation("execution continued past the end of the script");
    }
    let i = w.pos;
    log(Obs::Op(i as u32, uid));
    if w.mask & M_LIFE != 0 {
        let l = slots::<N>()
            .iter()
            .map(|s| match s {
                None => 0,
                Some(s) => 1 + 2 * s.co.started() as u8 + 4 * s.co.done() as u8,
            })
            .collect();
        log(Obs::Life(l));
    }
    if w.mask & M_WHERE != 0 {
        let sp = sp();
        match w.arena.find(sp).or_else(|| thread_of(sp)) {
            Some(x) => log(Obs::Where(x)),
            None => violation(&format!("running on an unknown stack, sp={:#x}", sp)),
        }
    }
    if w.mask & M_ACC != 0 {
        let sp = sp();
        let v = cos::<N>()
            .iter()
            .enumerate()
            .filter(|(i, c)| !w.recs[*i].1 && c.th.stack_ptr_in_bounds(sp))
            .map(|x| x.0 as u32)
            .collect();
        log(Obs::Accept(v));
    }
    if w.mask & M_BT != 0 {
        log(Obs::Walk(bt::walk(run_frame::<N> as usize, root_loop::<N> as usize)));
    }
    if w.mask & M_FP != 0 {
        log(Obs::FpWalk(bt::fp_walk(run_frame::<N> as usize, root_loop::<N> as usize)));
    }
    if w.mask & M_MEM != 0 {
        if let Err(e) = w.arena.check_canaries() {
            violation(&e);
        }
    }
    w.pos += 1;
    unsafe { *w.script.add(i) }
}

#[inline(never)]
fn body<const N: usize>(c: u32, cap: Cap, y: &Yielder<Val<N>, Val<N>>, input: Val<N>) -> Val<N> {
    log(Obs::Body(c, input.id));
    drop(input);
    let uid = new_uid();
    let r = run_frame::<N>(uid, Some(Y(y, c)));
    drop(cap);
    r
}

fn frame_ret<const N: usize>(v: Val<N>) {
    v.check();
    log(Obs::FrameRet(v.id));
}

#[inline(never)]
fn overflow(n: usize) -> usize {
    let a = std::hint::black_box([n as u8; 512]);
    if n == usize::MAX {
        return 0;
    }
    overflow(n + 1) + a[n & 511] as usize
}

#[inline(never)]
fn refused<const N: usize>() {
    let cap = Cap::new(false);
    let huge = std::hint::black_box([1u8; 1200]);
    let stack = if w().pool.is_empty() { fresh_stack() } else { w().pool.remove(0) };
    let co: Co<N> = Coroutine::with_stack(stack, move |_, i| {
        drop(i);
        drop(cap);
        violation(&format!("code with too much state runs ({})", huge[9]))
    });
    drop(co);
    violation("a coroutine with too much state was created")
}

#[inline(never)]
fn do_trap(kind: u8) {
    w().trapping = true;
    unsafe {
        if kind == 0 {
            #[cfg(target_arch = "x86_64")]
            core::arch::asm!("mov byte ptr [{}], 0", in(reg) 0usize);
            #[cfg(target_arch = "x86")]
            core::arch::asm!("mov byte ptr [{}], 0", in(reg) 0usize);
        } else {
            std::hint::black_box(overflow(std::hint::black_box(0)));
        }
    }
    violation("execution continued after a trap that was redirected to the recovery closure");
}

unsafe fn trap_regs<const N: usize>(sp: usize) -> Option<corosensei::trap::TrapHandlerRegs> {
    let (c, rec) = cos::<N>()
        .iter()
        .enumerate()
        .find(|(i, c)| !w().recs[*i].1 && c.th.stack_ptr_in_bounds(sp))?;
    let cap = Cap::new(false);
    // Every frame on this stack is gone.
    let stack = w().arena.find(sp);
    for i in 0..w().frames.len() {
        if stack.is_some() && w().arena.find(w().frames[i]) == stack {
            w().frames[i] = 0;
        }
    }
    Some(rec.th.setup_trap_handler(move || {
        log(Obs::Trapped(c as u32));
        let uid = new_uid();
        let r = run_frame::<N>(uid, None);
        drop(cap);
        r
    }))
}

struct Canary([usize; 6], u32);
impl Canary {
    #[inline(always)]
    fn new(uid: u32) -> Canary {
        let mut c = Canary([0; 6], uid);
        for i in 0..6 {
            c.0[i] = (uid as usize + 1).wrapping_mul(0x9E37_79B1) ^ (i << 20);
        }
        std::hint::black_box(&mut c);
        c
    }
    #[inline(always)]
    fn check(&self, uid: u32) {
        std::hint::black_box(self);
        for i in 0..6 {
            if self.0[i] != (uid as usize + 1).wrapping_mul(0x9E37_79B1) ^ (i << 20) {
                violation("a local variable of a live frame was overwritten");
            }
        }
    }
}

impl Drop for Canary {
    #[inline(always)]
    fn drop(&mut self) {
        w().frames[self.1 as usize] = 0;
    }
}

#[inline(never)]
pub fn run_frame<const N: usize>(uid: u32, y: Option<Y<'_, N>>) -> Val<N> {
    let canary = Canary::new(uid);
    w().frames[uid as usize] = &canary as *const _ as usize;
    let mut holding: Option<Box<dyn Any + Send>> = None;
    loop {
        let op = next_op::<N>(uid);
        canary.check(uid);
        match op {
            Op::New(k) | Op::NewBomb(k) => {
                let cap = Cap::new(matches!(op, Op::NewBomb(_)));
                let stack =
                    if w().pool.is_empty() { fresh_stack() } else { w().pool.remove(0) };
                let c = cos::<N>().len() as u32;
                let sid = stack.id();
                let (base, limit) = (stack.base().get(), stack.limit().get());
                let co: Co<N> =
                    Coroutine::with_stack(stack, move |y, i| body::<N>(c, cap, y, i));
                let th = co.trap_handler();
                if w().mask & M_ACC != 0 {
                    for (a, want) in
                        [(limit - 1, false), (limit, true), (base - 1, true), (base, false)]
                    {
                        if th.stack_ptr_in_bounds(a) != want {
                            violation(&format!(
                                "bounds test of {:#x} is {} for stack {:#x}..{:#x}",
                                a, !want, limit, base
                            ));
                        }
                    }
                }
                cos::<N>().push(CoRec { th });
                w().recs.push((sid, false));
                slots::<N>()[k as usize] = Some(Slot { c, co });
            }
            Op::NewHuge => refused::<N>(),
            Op::Resume(k) => {
                let v = Val::<N>::new();
                let mut h = Held::<N>::take(k as usize);
                let s = h.s.as_mut().unwrap();
                let c = s.c;
                let r = s.co.resume(v);
                drop(h);
                match r {
                    CoroutineResult::Yield(v) => {
                        v.check();
                        log(Obs::Yielded(c, v.id));
                    }
                    CoroutineResult::Return(v) => {
                        v.check();
                        log(Obs::Returned(c, v.id));
                    }
                }
            }
            Op::Force(k) => {
                let mut h = Held::<N>::take(k as usize);
                let s = h.s.as_mut().unwrap();
                let c = s.c;
                s.co.force_unwind();
                drop(h);
                log(Obs::ForceOk(c));
            }
            Op::DropCo(k) => {
                let s = slots::<N>()[k as usize].take().unwrap();
                drop(s);
            }
            Op::TakeStack(k) => {
                let s = slots::<N>()[k as usize].take().unwrap();
                let c = s.c as usize;
                let st = s.co.into_stack();
                w().recs[c].1 = true;
                let id = st.id();
                w().pool.push(st);
                log(Obs::StackTaken(id));
            }
            Op::Reset(k) => unsafe {
                slots::<N>()[k as usize].as_mut().unwrap().co.force_reset();
            },
            Op::Move(a, b) => {
                let s = slots::<N>()[a as usize].take();
                slots::<N>()[b as usize] = s;
            }
            Op::Guard | Op::Bomb => {
                let uid = {
                    let g = Cap::new(op == Op::Bomb);
                    let uid = new_uid();
                    let v = run_frame::<N>(uid, y);
                    frame_ret(v);
                    drop(g);
                    uid
                };
                std::hint::black_box(uid);
            }
            Op::GuardOps => {
                let g = OpsGuard::<N>;
                let uid = new_uid();
                let v = run_frame::<N>(uid, y);
                frame_ret(v);
                drop(g);
            }
            Op::Catch => {
                let uid = new_uid();
                match catch_unwind(AssertUnwindSafe(|| run_frame::<N>(uid, y))) {
                    Ok(v) => frame_ret(v),
                    Err(p) => {
                        log(Obs::Caught(desc(&p)));
                        holding = Some(p);
                    }
                }
            }
            Op::Own(k) => {
                let s = slots::<N>()[k as usize].take().unwrap();
                let uid = new_uid();
                let v = run_frame::<N>(uid, y);
                frame_ret(v);
                drop(s);
            }
            Op::OnStack => {
                let st = fresh_stack();
                let uid = new_uid();
                let v = on_stack(st, move || run_frame::<N>(uid, y));
                frame_ret(v);
            }
            Op::OnParent => {
                let uid = AssertSend(new_uid());
                let v = y.unwrap().0.on_parent_stack(move || run_frame::<N>(*uid.get(), None));
                frame_ret(v);
            }
            Op::Suspend => {
                let v = Val::<N>::new();
                let y = y.unwrap();
                let r = y.0.suspend(v);
                r.check();
                log(Obs::SuspendRet(y.1, r.id));
            }
            Op::Return => return Val::<N>::new(),
            Op::Panic => panic_any(PanicTok(new_tok())),
            Op::Rethrow => {
                let p = holding.take().unwrap();
                std::panic::resume_unwind(p);
            }
            Op::Swallow => drop(holding.take()),
            Op::Stash => w().kept = holding.take(),
            Op::Raise => {
                drop(holding.take());
                let p = w().kept.take().unwrap();
                std::panic::resume_unwind(p);
            }
            Op::Trap(k) => do_trap(k),
            Op::Switch(t) => {
                let me = w().cur;
                hand_over(t as u32);
                if wait_baton(me) {
                    return Val { id: u32::MAX, pad: [0; N] };
                }
            }
            Op::End => {
                w().pool.clear();
                drop(w().kept.take());
                w().ended = true;
                return Val { id: u32::MAX, pad: [0; N] };
            }
        }
    }
}

unsafe fn futex_wait(a: &AtomicU32, v: u32) {
    let ts = libc::timespec { tv_sec: 0, tv_nsec: 100_000_000 };
    libc::syscall(libc::SYS_futex, a as *const _, libc::FUTEX_WAIT, v, &ts as *const _);
}
unsafe fn futex_wake(a: &AtomicU32) {
    libc::syscall(libc::SYS_futex, a as *const _, libc::FUTEX_WAKE, i32::MAX);
}

#[inline(never)]
fn hand_over(t: u32) {
    w().cur = t;
    BATON.store(t, SeqCst);
    unsafe { futex_wake(&BATON) };
}

/// Waits for the baton; returns true if the script has ended.
#[inline(never)]
fn wait_baton(me: u32) -> bool {
    let mut spins = 0;
    loop {
        let b = BATON.load(SeqCst);
        if b == me {
            return false;
        }
        if b == u32::MAX {
            return true;
        }
        spins += 1;
        if spins > 300 {
            unsafe { futex_wait(&BATON, b) };
        } else {
            std::hint::spin_loop();
        }
    }
}

/// The outermost frame of the current thread: catches everything and goes on until the end.
#[inline(never)]
pub fn root_loop<const N: usize>(uid: u32) {
    loop {
        match catch_unwind(AssertUnwindSafe(|| run_frame::<N>(uid, None))) {
            Ok(v) => {
                std::mem::forget(v);
                return;
            }
            Err(p) => {
                log(Obs::Caught(desc(&p)));
                drop(p);
            }
        }
    }
}

fn thread_bounds() -> (usize, usize) {
    unsafe {
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        assert!(libc::pthread_getattr_np(libc::pthread_self(), &mut attr) == 0);
        let mut a = std::ptr::null_mut();
        let mut n = 0;
        assert!(libc::pthread_attr_getstack(&attr, &mut a, &mut n) == 0);
        libc::pthread_attr_destroy(&mut attr);
        (a as usize, a as usize + n)
    }
}

fn alt_stack() {
    unsafe {
        let n = 64 * 1024;
        let p = libc::mmap(
            std::ptr::null_mut(),
            n,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        let ss = libc::stack_t { ss_sp: p, ss_flags: 0, ss_size: n };
        assert!(libc::sigaltstack(&ss, std::ptr::null_mut()) == 0);
    }
}

unsafe extern "C" fn on_segv(sig: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let uc = &mut *(ctx as *mut libc::ucontext_t);
    let g = &mut uc.uc_mcontext.gregs;
    #[cfg(target_arch = "x86_64")]
    let (rsp, rip) = (libc::REG_RSP as usize, libc::REG_RIP as usize);
    #[cfg(target_arch = "x86")]
    let (rsp, rip) = (libc::REG_ESP as usize, libc::REG_EIP as usize);
    let sp = g[rsp] as usize;
    let w = w();
    if w.trapping {
        w.trapping = false;
        match w.trap.unwrap()(sp) {
            None => violation(&format!("no trap handler accepts the trapping stack pointer {:#x}", sp)),
            Some(r) => {
                #[cfg(target_arch = "x86_64")]
                {
                    g[libc::REG_RIP as usize] = r.rip as i64;
                    g[libc::REG_RSP as usize] = r.rsp as i64;
                    g[libc::REG_RBP as usize] = r.rbp as i64;
                    g[libc::REG_RDI as usize] = r.rdi as i64;
                    g[libc::REG_RSI as usize] = r.rsi as i64;
                }
                #[cfg(target_arch = "x86")]
                {
                    g[libc::REG_EIP as usize] = r.eip as i32;
                    g[libc::REG_ESP as usize] = r.esp as i32;
                    g[libc::REG_EBP as usize] = r.ebp as i32;
                    g[libc::REG_ECX as usize] = r.ecx as i32;
                    g[libc::REG_EDX as usize] = r.edx as i32;
                }
                return;
            }
        }
    }
    let s = &*w.shm;
    s.set_msg(&format!(
        "crash: signal {} at ip={:#x} sp={:#x} address={:#x} [at script position {}]",
        sig,
        g[rip],
        sp,
        (*info).si_addr() as usize,
        w.pos
    ));
    libc::_exit(EXIT_CRASH)
}

/// Prepares this process for running scripts.
pub fn init<const N: usize>(shm: *const WorkerShm, threads: usize, k: usize) {
    // Only what the program (or the crate, with a message) raises passes the hook: propagation
    // across stacks and forced unwinding do not.
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        let w = w();
        if w.mask & (M_EXC | M_FRC) != 0 && !(p.is::<PanicTok>() || p.is::<&str>() || p.is::<String>()) {
            violation("the panic hook is invoked although nobody panicked");
        }
    }));
    let s: Vec<Option<Slot<N>>> = (0..k).map(|_| None).collect();
    let c: Vec<CoRec<N>> = Vec::with_capacity(64);
    let world = World {
        script: std::ptr::null(),
        script_len: 0,
        pos: 0,
        exp: std::ptr::null(),
        exp_len: 0,
        epos: 0,
        mask: 0,
        mix: 0,
        doom: usize::MAX,
        next_tok: 0,
        next_uid: 0,
        next_stack: 0,
        live: Vec::with_capacity(8192),
        frames: Vec::with_capacity(8192),
        arena: Arena::new(),
        pool: vec![],
        kept: None,
        slots: Box::into_raw(Box::new(s)) as *mut (),
        cos: Box::into_raw(Box::new(c)) as *mut (),
        recs: vec![],
        cur: 0,
        ended: false,
        trapping: false,
        runs: 0,
        shm,
        trap: Some(trap_regs::<N>),
        bt_range: vec![thread_bounds(); 1],
    };
    unsafe {
        WORLD = Box::into_raw(Box::new(world));
        alt_stack();
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_segv as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        for s in [libc::SIGSEGV, libc::SIGBUS] {
            assert!(libc::sigaction(s, &sa, std::ptr::null_mut()) == 0);
        }
    }
    IDLE.store(0, SeqCst);
    BATON.store(0, SeqCst);
    for t in 1..threads {
        w().bt_range.push((0, 0));
        std::thread::Builder::new()
            .stack_size(512 * 1024)
            .spawn(move || {
                alt_stack();
                w().bt_range[t] = thread_bounds();
                IDLE.fetch_add(1, SeqCst);
                thread_main::<N>(t as u32)
            })
            .unwrap();
        while IDLE.load(SeqCst) != t as u32 {
            std::thread::yield_now();
        }
    }
}

#[inline(never)]
fn thread_main<const N: usize>(t: u32) {
    let mut gen = 0;
    loop {
        // Wait for the first switch to this thread, or for the end of the script.
        if !wait_baton(t) {
            let uid = new_uid();
            root_loop::<N>(uid);
        }
        // Wait until thread 0 has seen everybody finish.
        IDLE.fetch_add(1, SeqCst);
        let mut n = 0;
        while GEN.load(SeqCst) == gen {
            n += 1;
            if n > 300 {
                unsafe { futex_wait(&GEN, gen) };
            }
        }
        gen = GEN.load(SeqCst);
    }
}

/// Runs one script to its end. `doom`: number of observations after which the process has to die.
pub fn run<const N: usize>(
    script: &[Op],
    exp: &[Obs],
    mask: u32,
    mix: u32,
    threads: usize,
    doom: Option<usize>,
) {
    let w = w();
    w.script = script.as_ptr();
    w.script_len = script.len();
    w.pos = 0;
    w.exp = exp.as_ptr();
    w.exp_len = exp.len();
    w.epos = 0;
    w.mask = mask;
    w.mix = mix;
    w.doom = doom.unwrap_or(usize::MAX);
    w.next_tok = 0;
    w.next_uid = 0;
    w.next_stack = 0;
    w.live.clear();
    w.frames.clear();
    w.arena.reset(mask & M_MEM != 0);
    w.recs.clear();
    w.cur = 0;
    w.ended = false;
    w.trapping = false;
    cos::<N>().clear();
    for s in slots::<N>() {
        if let Some(s) = s.take() {
            std::mem::forget(s);
        }
    }
    std::mem::forget(std::mem::take(&mut w.pool));
    std::mem::forget(w.kept.take());
    if threads > 1 {
        BATON.store(0, SeqCst);
        if w.runs > 0 {
            GEN.fetch_add(1, SeqCst);
            unsafe { futex_wake(&GEN) };
        }
        w.runs += 1;
    }
    let uid = new_uid();
    root_loop::<N>(uid);
    if threads > 1 {
        IDLE.store(0, SeqCst);
        BATON.store(u32::MAX, SeqCst);
        unsafe { futex_wake(&BATON) };
        while IDLE.load(SeqCst) != threads as u32 - 1 {
            std::thread::yield_now();
        }
    }
    if w.doom != usize::MAX {
        violation("execution continued past a fatal step");
    }
    if w.pos != w.script_len {
        violation("the script was not executed to its end");
    }
    if w.epos != w.exp_len {
        violation(&format!("missing observation {:?}", exp[w.epos]));
    }
    if let Some(e) = w.arena.error.take() {
        if mask & M_MEM != 0 {
            violation(&e);
        }
    }
}
