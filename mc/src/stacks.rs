//! Instrumented stacks handed to the crate under test.

use corosensei::stack::{Stack, StackPointer, STACK_ALIGNMENT};

pub const NARENA: usize = 40;
pub const STACK_SIZE: usize = 128 * 1024;
const PAGE: usize = 4096;
const SLOT: usize = PAGE + STACK_SIZE + PAGE;
const CANARY: u8 = 0xC7;
const JUNK: u8 = 0xA5;
const JUNK_LEN: usize = 2048;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SKind {
    Own,
    Borrow,
    Default,
}

pub struct TStack {
    pub id: u32,
    slot: usize,
    base: usize,
    limit: usize,
}

unsafe impl Stack for TStack {
    fn base(&self) -> StackPointer {
        StackPointer::new(self.base).unwrap()
    }
    fn limit(&self) -> StackPointer {
        StackPointer::new(self.limit).unwrap()
    }
}

pub enum Inner {
    Own(TStack),
    Borrow(&'static mut TStack),
    #[cfg(feature = "default-stack")]
    Default(corosensei::stack::DefaultStack, u32),
}

pub struct AnyStack(pub std::mem::ManuallyDrop<Inner>);

unsafe impl Stack for AnyStack {
    fn base(&self) -> StackPointer {
        match &*self.0 {
            Inner::Own(s) => s.base(),
            Inner::Borrow(s) => <&mut TStack as Stack>::base(s),
            #[cfg(feature = "default-stack")]
            Inner::Default(s, _) => s.base(),
        }
    }
    fn limit(&self) -> StackPointer {
        match &*self.0 {
            Inner::Own(s) => s.limit(),
            Inner::Borrow(s) => <&mut TStack as Stack>::limit(s),
            #[cfg(feature = "default-stack")]
            Inner::Default(s, _) => s.limit(),
        }
    }
}

impl AnyStack {
    pub fn id(&self) -> u32 {
        match &*self.0 {
            Inner::Own(t) => t.id,
            Inner::Borrow(t) => t.id,
            #[cfg(feature = "default-stack")]
            Inner::Default(_, id) => *id,
        }
    }
}

/// Live stacks and the arena they come from.
pub struct Arena {
    mem: usize,
    free: [bool; NARENA],
    borrowed: [Option<TStack>; NARENA],
    /// (id, limit, base, arena slot or NONE)
    pub live: Vec<(u32, usize, usize, usize)>,
    /// Make released stacks inaccessible.
    pub strict: bool,
    pub error: Option<String>,
}

const NONE: usize = usize::MAX;

impl Arena {
    pub fn new() -> Arena {
        unsafe {
            let mem = libc::mmap(
                std::ptr::null_mut(),
                NARENA * SLOT,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(mem != libc::MAP_FAILED);
            let mem = mem as usize;
            for i in 0..NARENA {
                assert!(libc::mprotect((mem + i * SLOT) as *mut _, PAGE, libc::PROT_NONE) == 0);
                std::ptr::write_bytes((mem + i * SLOT + PAGE + STACK_SIZE) as *mut u8, CANARY, PAGE);
            }
            Arena {
                mem,
                free: [true; NARENA],
                borrowed: [const { None }; NARENA],
                live: Vec::with_capacity(NARENA * 2),
                strict: false,
                error: None,
            }
        }
    }

    /// Forgets leaked stacks (after paths that discard stacks on purpose).
    pub fn reset(&mut self, strict: bool) {
        if self.strict {
            for i in 0..NARENA {
                self.protect(i, true);
            }
        }
        self.free = [true; NARENA];
        self.live.clear();
        self.strict = strict;
        self.error = None;
    }

    fn protect(&self, i: usize, rw: bool) {
        unsafe {
            let p = (self.mem + i * SLOT + PAGE) as *mut _;
            let prot = if rw { libc::PROT_READ | libc::PROT_WRITE } else { libc::PROT_NONE };
            assert!(libc::mprotect(p, STACK_SIZE, prot) == 0);
        }
    }

    pub fn alloc(&mut self, id: u32, kind: SKind) -> AnyStack {
        #[cfg(feature = "default-stack")]
        if kind == SKind::Default {
            let s = corosensei::stack::DefaultStack::new(64 * 1024).unwrap();
            self.live.push((id, s.limit().get(), s.base().get(), NONE));
            return AnyStack(std::mem::ManuallyDrop::new(Inner::Default(s, id)));
        }
        let i = self.free.iter().position(|x| *x).expect("arena exhausted");
        self.free[i] = false;
        if self.strict {
            self.protect(i, true);
        }
        let top = self.mem + i * SLOT + PAGE + STACK_SIZE;
        let base = top - (id as usize % 4) * STACK_ALIGNMENT;
        unsafe {
            std::ptr::write_bytes((base - JUNK_LEN) as *mut u8, JUNK, JUNK_LEN);
            std::ptr::write_bytes(base as *mut u8, CANARY, top - base);
        }
        let limit = self.mem + i * SLOT;
        self.live.push((id, limit, base, i));
        let t = TStack { id, slot: i, base, limit };
        let inner = if kind == SKind::Borrow {
            self.borrowed[i] = Some(t);
            let p: *mut TStack = self.borrowed[i].as_mut().unwrap();
            Inner::Borrow(unsafe { &mut *p })
        } else {
            Inner::Own(t)
        };
        AnyStack(std::mem::ManuallyDrop::new(inner))
    }

    /// Is the memory above the base of every live stack intact?
    pub fn check_canaries(&self) -> Result<(), String> {
        for (id, _, base, i) in &self.live {
            if *i == NONE {
                continue;
            }
            let end = self.mem + i * SLOT + PAGE + STACK_SIZE + 512;
            let words = (end - *base) / 8;
            for w in 0..words {
                let a = *base + w * 8;
                let x = unsafe { std::ptr::read_volatile(a as *const u64) };
                if x != u64::from_ne_bytes([CANARY; 8]) {
                    return Err(format!("memory above the base of stack {} written (base+{})", id, w * 8));
                }
            }
        }
        Ok(())
    }

    /// Called when the crate drops a stack. Returns its id.
    pub fn release(&mut self, s: &mut AnyStack) -> u32 {
        let (id, slot) = match &*s.0 {
            Inner::Own(t) => (t.id, t.slot),
            Inner::Borrow(t) => (t.id, t.slot),
            #[cfg(feature = "default-stack")]
            Inner::Default(_, id) => (*id, NONE),
        };
        if self.strict {
            if let Err(e) = self.check_canaries() {
                self.error.get_or_insert(e);
            }
        }
        let n = self.live.len();
        self.live.retain(|x| x.0 != id);
        if self.live.len() + 1 != n {
            self.error.get_or_insert(format!("stack {} released but not live", id));
        }
        if slot != NONE {
            self.free[slot] = true;
            if self.strict {
                self.protect(slot, false);
            }
        }
        id
    }

    pub fn find(&self, sp: usize) -> Option<u32> {
        self.live.iter().find(|(_, l, b, _)| sp >= *l && sp < *b).map(|x| x.0)
    }

    pub fn stack_kind(mix: u32, id: u32) -> SKind {
        match mix {
            0 => SKind::Own,
            1 => [SKind::Own, SKind::Borrow][id as usize % 2],
            _ => match (id + mix) % 3 {
                0 => SKind::Own,
                1 => SKind::Borrow,
                _ => SKind::Default,
            },
        }
    }
}
