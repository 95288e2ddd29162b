//! Plain stacks with a guard page below, bytes that must stay untouched above, and counted drops.

use corosensei::stack::{Stack, StackPointer};

pub const PAGE: usize = 4096;
pub static mut DROPPED: usize = 0;
pub static mut MADE: usize = 0;

pub struct TStack {
    pub base: usize,
    pub limit: usize,
}

unsafe impl Stack for TStack {
    fn base(&self) -> StackPointer {
        StackPointer::new(self.base).unwrap()
    }
    fn limit(&self) -> StackPointer {
        StackPointer::new(self.limit).unwrap()
    }
}

impl Drop for TStack {
    fn drop(&mut self) {
        unsafe { DROPPED += 1 };
    }
}

/// Memory that stacks are placed in, over and over again.
pub struct Mem {
    pub lo: usize,
    pub hi: usize,
}

const CANARY: u8 = 0xC7;
pub const ABOVE: usize = 3 * PAGE;

impl Mem {
    /// `size` usable bytes below a page boundary, a guard page below, checked bytes above.
    pub fn new(size: usize) -> Mem {
        let size = (size + PAGE - 1) & !(PAGE - 1);
        unsafe {
            let n = PAGE + size + ABOVE;
            let p = libc::mmap(
                std::ptr::null_mut(),
                n,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            let p = p as usize;
            assert!(libc::mprotect(p as *mut _, PAGE, libc::PROT_NONE) == 0);
            let m = Mem { lo: p, hi: p + PAGE + size };
            std::ptr::write_bytes(m.hi as *mut u8, CANARY, ABOVE);
            m
        }
    }

    pub fn stack(&self) -> TStack {
        self.stack_at(0)
    }

    /// A stack whose base is `off` bytes above the usual place.
    pub fn stack_at(&self, off: usize) -> TStack {
        assert!(off < ABOVE);
        unsafe {
            MADE += 1;
            std::ptr::write_bytes((self.hi + off - 2048) as *mut u8, 0xA5, 2048);
        }
        TStack { base: self.hi + off, limit: self.lo }
    }

    /// Are the bytes above the base intact? Restores those below.
    pub fn check(&self, off: usize) -> bool {
        static INTACT: [u8; ABOVE] = [CANARY; ABOVE];
        unsafe {
            let n = ABOVE - off;
            let ok = libc::memcmp((self.hi + off) as *const _, INTACT.as_ptr() as *const _, n) == 0;
            if !ok {
                std::ptr::write_bytes((self.hi + off) as *mut u8, CANARY, n);
            }
            std::ptr::write_bytes(self.hi as *mut u8, CANARY, off);
            ok
        }
    }
}

/// Where code may be running: see `within`.
pub const CONTEXTS: u8 = 7;

/// Runs `f` plainly; in a destructor while a panic unwinds; on another thread; in a coroutine; on another
/// stack; in a destructor while a coroutine is unwound; or while the thread-local data is destroyed.
#[cfg(feature = "unwind")]
pub fn within<R>(context: u8, f: impl FnOnce() -> R) -> R {
    use corosensei::{on_stack, Coroutine};
    use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
    struct OnDrop<F: FnMut()>(F);
    impl<F: FnMut()> Drop for OnDrop<F> {
        fn drop(&mut self) {
            (self.0)()
        }
    }
    /// For what the borrow checker cannot see to be used in time, and by one thread at a time.
    struct Raw(*mut (dyn FnMut() + 'static));
    unsafe impl Send for Raw {}
    impl Raw {
        fn call(&self) {
            unsafe { (*self.0)() }
        }
    }
    static mut MEM: Option<Mem> = None;
    let mem = || unsafe { MEM.get_or_insert_with(|| Mem::new(512 << 10)).stack() };
    let mut f = Some(f);
    let mut out = None;
    {
        let mut go = || {
            if let Some(f) = f.take() {
                out = Some(f());
            }
        };
        let raw = Raw(unsafe { std::mem::transmute::<*mut (dyn FnMut() + '_), *mut (dyn FnMut() + 'static)>(&mut go) });
        match context {
            0 => go(),
            1 => {
                let _ = catch_unwind(AssertUnwindSafe(|| {
                    let _d = OnDrop(go);
                    resume_unwind(Box::new(1))
                }));
            }
            2 => std::thread::scope(|s| s.spawn(move || raw.call()).join().unwrap()),
            3 => {
                let mut c: Coroutine<(), (), (), TStack> = Coroutine::with_stack(mem(), move |_, _| raw.call());
                c.resume(());
            }
            4 => on_stack(mem(), go),
            5 => {
                let mut c: Coroutine<(), (), (), TStack> = Coroutine::with_stack(mem(), move |y, _| {
                    let _d = OnDrop(|| raw.call());
                    y.suspend(());
                });
                c.resume(());
                c.force_unwind();
            }
            _ => {
                struct Late(Raw);
                impl Drop for Late {
                    fn drop(&mut self) {
                        self.0.call()
                    }
                }
                std::thread_local!(static T: std::cell::RefCell<Option<Late>> = const { std::cell::RefCell::new(None) });
                std::thread::scope(|s| {
                    s.spawn(move || {
                        // Their own thread-local data is older, so goes later.
                        let _ = catch_unwind(|| resume_unwind(Box::new(1)));
                        T.with(|t| *t.borrow_mut() = Some(Late(raw)));
                    })
                    .join()
                    .unwrap();
                });
            }
        }
    }
    out.expect("harness: nothing ran")
}
