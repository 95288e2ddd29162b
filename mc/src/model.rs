//! The reference model: an abstract machine for stackful coroutines.
//!
//! A state is, per thread, a stack of items (user frames, resume markers, pending continuations),
//! plus the coroutines in their slots. `enabled` lists the operations the running context can
//! perform next, `step` performs one and appends the observations the real crate must produce.
//! It contains no stack switching of any kind: a suspended coroutine is a saved vector of items.

use std::fmt;

pub type Tok = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    New(u8),
    NewBomb(u8),
    /// A coroutine whose captured state is too large to be placed.
    NewHuge,
    Resume(u8),
    Force(u8),
    DropCo(u8),
    TakeStack(u8),
    Reset(u8),
    Move(u8, u8),
    Guard,
    Bomb,
    GuardOps,
    Catch,
    Own(u8),
    OnStack,
    OnParent,
    Suspend,
    Return,
    Panic,
    Rethrow,
    Swallow,
    /// The held panic goes to a place outside of every frame.
    Stash,
    /// The panic kept there is raised (instead of the held one, if any).
    Raise,
    Trap(u8),
    Switch(u8),
    End,
}

impl Op {
    pub fn enc(self) -> [u8; 2] {
        use Op::*;
        match self {
            New(k) => [1, k],
            NewBomb(k) => [2, k],
            Resume(k) => [3, k],
            Force(k) => [4, k],
            DropCo(k) => [5, k],
            TakeStack(k) => [6, k],
            Reset(k) => [7, k],
            Move(a, b) => [8, a * 16 + b],
            Guard => [9, 0],
            Bomb => [10, 0],
            GuardOps => [11, 0],
            Catch => [12, 0],
            Own(k) => [13, k],
            OnStack => [14, 0],
            OnParent => [15, 0],
            Suspend => [16, 0],
            Return => [17, 0],
            Panic => [18, 0],
            Rethrow => [19, 0],
            Swallow => [20, 0],
            Trap(k) => [21, k],
            Switch(k) => [22, k],
            End => [23, 0],
            Stash => [24, 0],
            Raise => [25, 0],
            NewHuge => [26, 0],
        }
    }
    pub fn dec(b: [u8; 2]) -> Op {
        use Op::*;
        let k = b[1];
        match b[0] {
            1 => New(k),
            2 => NewBomb(k),
            3 => Resume(k),
            4 => Force(k),
            5 => DropCo(k),
            6 => TakeStack(k),
            7 => Reset(k),
            8 => Move(k / 16, k % 16),
            9 => Guard,
            10 => Bomb,
            11 => GuardOps,
            12 => Catch,
            13 => Own(k),
            14 => OnStack,
            15 => OnParent,
            16 => Suspend,
            17 => Return,
            18 => Panic,
            19 => Rethrow,
            20 => Swallow,
            21 => Trap(k),
            22 => Switch(k),
            23 => End,
            24 => Stash,
            25 => Raise,
            26 => NewHuge,
            x => panic!("bad op code {}", x),
        }
    }
    pub fn parse(s: &str) -> Option<Op> {
        let (name, arg) = match s.find('(') {
            Some(i) => (&s[..i], s[i + 1..].trim_end_matches(')')),
            None => (s, ""),
        };
        let a: Vec<u8> = arg.split(',').filter_map(|x| x.trim().parse().ok()).collect();
        let k = a.first().copied().unwrap_or(0);
        use Op::*;
        Some(match name {
            "New" => New(k),
            "NewBomb" => NewBomb(k),
            "NewHuge" => NewHuge,
            "Resume" => Resume(k),
            "Force" => Force(k),
            "DropCo" => DropCo(k),
            "TakeStack" => TakeStack(k),
            "Reset" => Reset(k),
            "Move" => Move(k, *a.get(1)?),
            "Guard" => Guard,
            "Bomb" => Bomb,
            "GuardOps" => GuardOps,
            "Catch" => Catch,
            "Own" => Own(k),
            "OnStack" => OnStack,
            "OnParent" => OnParent,
            "Suspend" => Suspend,
            "Return" => Return,
            "Panic" => Panic,
            "Rethrow" => Rethrow,
            "Swallow" => Swallow,
            "Stash" => Stash,
            "Raise" => Raise,
            "Trap" => Trap(k),
            "Switch" => Switch(k),
            "End" => End,
            _ => return None,
        })
    }
}

/// What a caught panic looks like from outside.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum PDesc {
    Tok(Tok),
    /// A message raised by the library.
    Msg,
    /// The library's forced unwinding token.
    Opaque,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Obs {
    /// Operation number `i` is about to be executed by frame `uid`.
    Op(u32, u32),
    Body(u32, Tok),
    Yielded(u32, Tok),
    Returned(u32, Tok),
    SuspendRet(u32, Tok),
    FrameRet(Tok),
    Caught(PDesc),
    ForceOk(u32),
    Drop(Tok),
    /// (started, done) bits of each slot: 0 absent, 1 + 2*started + 4*done.
    Life(Vec<u8>),
    StackTaken(u32),
    StackDrop(u32),
    Where(u32),
    /// Coroutines (by id) whose trap handler accepts the current stack pointer.
    Accept(Vec<u32>),
    /// Frame uids on the walked stack, innermost first.
    Walk(Vec<u32>),
    /// Frame pointers visited: uids.
    FpWalk(Vec<u32>),
    Trapped(u32),
}

pub const M_CTL: u32 = 1;
pub const M_EXC: u32 = 2;
pub const M_FRC: u32 = 4;
pub const M_DROP: u32 = 8;
pub const M_LIFE: u32 = 16;
pub const M_STK: u32 = 32;
pub const M_WHERE: u32 = 64;
pub const M_ACC: u32 = 128;
pub const M_BT: u32 = 256;
pub const M_FP: u32 = 512;
pub const M_TRAP: u32 = 1024;
pub const M_MEM: u32 = 2048; // memory integrity checks, no observation

impl Obs {
    pub fn mask(&self) -> u32 {
        match self {
            Obs::Op(..) => !0,
            Obs::Body(..) | Obs::Yielded(..) | Obs::Returned(..) | Obs::SuspendRet(..) | Obs::FrameRet(..) => M_CTL,
            Obs::Caught(..) => M_EXC,
            Obs::ForceOk(..) => M_FRC,
            Obs::Drop(..) => M_DROP,
            Obs::Life(..) => M_LIFE,
            Obs::StackTaken(..) | Obs::StackDrop(..) => M_STK,
            Obs::Where(..) => M_WHERE,
            Obs::Accept(..) => M_ACC,
            Obs::Walk(..) => M_BT,
            Obs::FpWalk(..) => M_FP,
            Obs::Trapped(..) => M_TRAP,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Payload {
    Tok(Tok),
    Msg,
    Forced(u32),
}

impl Payload {
    fn desc(self) -> PDesc {
        match self {
            Payload::Tok(t) => PDesc::Tok(t),
            Payload::Msg => PDesc::Msg,
            Payload::Forced(_) => PDesc::Opaque,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Root,
    Body(u32),
    Guard(Tok, bool),
    GuardOps,
    Dtor,
    Catch,
    Own(u32),
    OnStack(u32),
    OnParent,
    TrapBody(u32, Tok),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Frame {
    pub uid: u32,
    pub kind: Kind,
    pub holding: Option<Payload>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Normal,
    Force,
    Drop,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum After {
    Normal,
    Exc(Payload),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Frame(Frame),
    Rm { c: u32, mode: Mode, slot: Option<u8> },
    AfterDrop { c: u32, after: After },
    AfterDtor(After),
}

#[derive(Clone, Debug, PartialEq)]
pub enum St {
    Fresh,
    Susp(Vec<Item>),
    Active,
    Done,
    /// Consumed or discarded by a trap.
    Gone,
}

#[derive(Clone, Debug)]
pub struct Co {
    pub st: St,
    pub cap: Tok,
    pub bomb: bool,
    pub stack: u32,
    pub started: bool,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub k: usize,
    pub threads: usize,
    pub max_frames: usize,
    pub max_switches: u32,
    pub unwind: bool,
    pub ops: &'static [&'static str],
    /// Also explore operations that must terminate the process.
    pub aborts: bool,
    pub mask: u32,
}

#[derive(Clone)]
pub struct M {
    pub cfg: std::rc::Rc<Cfg>,
    pub threads: Vec<Vec<Item>>,
    pub started_threads: Vec<bool>,
    pub cur: usize,
    pub slots: Vec<Option<u32>>,
    pub cos: Vec<Co>,
    pub pool: Vec<u32>,
    /// The panic put aside, and whether its coroutine was forced to unwind again since.
    pub kept: Option<(Payload, bool)>,
    pub next_tok: Tok,
    pub next_uid: u32,
    pub next_stack: u32,
    pub nops: u32,
    pub switches: u32,
    pub live: Vec<bool>,
    pub obs: Vec<Obs>,
    pub ended: bool,
    /// Set when the process must terminate abnormally during the last operation; the value is the
    /// number of observations guaranteed to precede termination.
    pub aborted: Option<usize>,
}

impl fmt::Debug for M {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.canon())
    }
}

pub const THREAD_STACK: u32 = 1000;

impl M {
    pub fn new(cfg: std::rc::Rc<Cfg>) -> M {
        let mut m = M {
            threads: vec![vec![]; cfg.threads],
            started_threads: vec![false; cfg.threads],
            cur: 0,
            slots: vec![None; cfg.k],
            cos: vec![],
            pool: vec![],
            kept: None,
            next_tok: 0,
            next_uid: 0,
            next_stack: 0,
            nops: 0,
            switches: 0,
            live: vec![],
            obs: vec![],
            ended: false,
            aborted: None,
            cfg,
        };
        m.start_thread(0);
        m
    }

    fn start_thread(&mut self, t: usize) {
        self.started_threads[t] = true;
        let uid = self.uid();
        self.threads[t].push(Item::Frame(Frame { uid, kind: Kind::Root, holding: None }));
    }

    fn uid(&mut self) -> u32 {
        self.next_uid += 1;
        self.next_uid - 1
    }
    fn tok(&mut self) -> Tok {
        self.next_tok += 1;
        self.live.push(true);
        self.next_tok - 1
    }
    fn emit(&mut self, o: Obs) {
        if o.mask() & self.cfg.mask != 0 {
            self.obs.push(o);
        }
    }
    fn drop_tok(&mut self, t: Tok) {
        assert!(self.live[t as usize], "model drops token twice");
        self.live[t as usize] = false;
        self.emit(Obs::Drop(t));
    }
    fn stk(&mut self) -> &mut Vec<Item> {
        let c = self.cur;
        &mut self.threads[c]
    }
    pub fn top(&self) -> &Frame {
        match self.threads[self.cur].last() {
            Some(Item::Frame(f)) => f,
            x => panic!("model: top is not a frame: {:?}", x),
        }
    }
    fn top_mut(&mut self) -> &mut Frame {
        match self.stk().last_mut() {
            Some(Item::Frame(f)) => f,
            x => panic!("model: top is not a frame: {:?}", x),
        }
    }
    fn push_frame(&mut self, kind: Kind) {
        let uid = self.uid();
        self.stk().push(Item::Frame(Frame { uid, kind, holding: None }));
    }
    fn depth(&self) -> usize {
        self.threads[self.cur].iter().filter(|i| matches!(i, Item::Frame(_))).count()
    }

    /// Is an unwinding in progress underneath the running code of this thread?
    fn unwinding(&self) -> bool {
        self.threads[self.cur].iter().any(|i| {
            matches!(i, Item::AfterDtor(After::Exc(_)) | Item::AfterDrop { after: After::Exc(_), .. })
        })
    }

    /// The innermost coroutine whose yielder the running frame can use.
    pub fn yielder(&self) -> Option<u32> {
        for i in self.threads[self.cur].iter().rev() {
            match i {
                Item::Frame(f) => match f.kind {
                    Kind::Root | Kind::OnParent | Kind::Dtor | Kind::TrapBody(..) => return None,
                    Kind::Body(c) => return Some(c),
                    _ => {}
                },
                Item::Rm { .. } => return None,
                _ => {}
            }
        }
        None
    }

    fn where_at(&self, mut i: usize) -> u32 {
        let s = &self.threads[self.cur];
        loop {
            match &s[i] {
                Item::Frame(f) => match f.kind {
                    Kind::Root => return THREAD_STACK + self.cur as u32,
                    Kind::Body(c) | Kind::TrapBody(c, _) => return self.cos[c as usize].stack,
                    Kind::OnStack(x) => return x,
                    Kind::OnParent => {
                        while !matches!(s[i], Item::Rm { .. }) {
                            i -= 1;
                        }
                    }
                    _ => {}
                },
                _ => {}
            }
            i -= 1;
        }
    }
    /// The stack the running frame executes on.
    pub fn where_now(&self) -> u32 {
        self.where_at(self.threads[self.cur].len() - 1)
    }

    fn coroutine_on(&self, stack: u32) -> Option<u32> {
        self.cos.iter().position(|c| c.stack == stack && matches!(c.st, St::Active)).map(|x| x as u32)
    }

    fn has(&self, op: &str) -> bool {
        self.cfg.ops.contains(&op)
    }

    /// The slot of a coroutine being operated upon is empty but not available.
    fn slot_free(&self, k: usize) -> bool {
        self.slots[k].is_none()
            && !self.threads.iter().flatten().any(|i| matches!(i, Item::Rm { slot: Some(s), .. } if *s as usize == k))
    }

    /// Whether the kept panic can be raised. The token of a forced unwinding is only told apart
    /// from those of other unwindings still possible: not once its coroutine was unwound again,
    /// nor once its stack may have been used anew.
    fn can_raise(&self) -> bool {
        match self.kept {
            None => false,
            Some((Payload::Forced(c), stale)) => !stale && !matches!(self.cos[c as usize].st, St::Gone),
            Some(_) => true,
        }
    }

    /// Operations the running frame can perform; some may terminate the process (see `aborts`).
    pub fn enabled(&self) -> Vec<Op> {
        let mut v = vec![];
        if self.ended || self.aborted.is_some() {
            return v;
        }
        let f = self.top();
        if let Some(_p) = f.holding {
            v.push(Op::Rethrow);
            v.push(Op::Swallow);
            if self.has("Keep") {
                v.push(if self.kept.is_none() { Op::Stash } else { Op::Raise });
                if !self.can_raise() && self.kept.is_some() {
                    v.pop();
                }
            }
        } else {
            if self.can_raise() {
                v.push(Op::Raise);
            }
            let deeper = self.depth() < self.cfg.max_frames;
            let y = self.yielder();
            if y.is_some() && self.has("Suspend") {
                v.push(Op::Suspend);
            }
            if f.kind != Kind::Root {
                v.push(Op::Return);
            }
            if deeper {
                for k in 0..self.cfg.k {
                    if self.slots[k].is_some() {
                        v.push(Op::Resume(k as u8));
                    }
                }
            }
            if let Some(k) = (0..self.cfg.k).find(|k| self.slot_free(*k)) {
                // A slot whose coroutine is currently active is also empty; limit the number of
                // coroutines in existence to the number of slots.
                let alive = self.cos.iter().filter(|c| !matches!(c.st, St::Gone)).count();
                if alive < self.cfg.k {
                    v.push(Op::New(k as u8));
                    if self.has("NewBomb") {
                        v.push(Op::NewBomb(k as u8));
                    }
                }
            }
            if self.has("NewHuge") {
                v.push(Op::NewHuge);
            }
            for k in 0..self.cfg.k {
                if self.slots[k].is_some() {
                    if self.has("Force") {
                        v.push(Op::Force(k as u8));
                    }
                    if self.has("DropCo") {
                        v.push(Op::DropCo(k as u8));
                    }
                    if self.has("TakeStack") {
                        v.push(Op::TakeStack(k as u8));
                    }
                    if self.has("Reset") {
                        v.push(Op::Reset(k as u8));
                    }
                    if deeper && self.has("Own") {
                        v.push(Op::Own(k as u8));
                    }
                    if self.has("Move") {
                        for j in 0..self.cfg.k {
                            if self.slot_free(j) && j != k {
                                v.push(Op::Move(k as u8, j as u8));
                            }
                        }
                    }
                }
            }
            if deeper {
                for (n, o) in [
                    ("Guard", Op::Guard),
                    ("Bomb", Op::Bomb),
                    ("GuardOps", Op::GuardOps),
                    ("Catch", Op::Catch),
                    ("OnStack", Op::OnStack),
                ] {
                    if self.has(n) {
                        v.push(o);
                    }
                }
                if y.is_some() && self.has("OnParent") {
                    v.push(Op::OnParent);
                }
            }
            if self.has("Panic") {
                v.push(Op::Panic);
            }
            if self.has("Trap") {
                if let Some(c) = self.coroutine_on(self.where_now()) {
                    // A trap discards frames without unwinding them; panics in flight there could
                    // never complete (the runtime would count them for ever).
                    let s = &self.threads[self.cur];
                    let i = s
                        .iter()
                        .rposition(|i| matches!(i, Item::Rm { c: x, .. } if *x == c))
                        .unwrap();
                    let in_flight = s[i + 1..].iter().any(|i| {
                        matches!(
                            i,
                            Item::AfterDtor(After::Exc(_))
                                | Item::AfterDrop { after: After::Exc(_), .. }
                        )
                    });
                    if !in_flight {
                        v.push(Op::Trap(0));
                        v.push(Op::Trap(1));
                    }
                }
            }
            if self.switches < self.cfg.max_switches {
                for t in 0..self.cfg.threads {
                    // Threads are symmetric until started: only the first unstarted one.
                    if t != self.cur
                        && (self.started_threads[t] || self.started_threads[..t].iter().all(|x| *x))
                    {
                        v.push(Op::Switch(t as u8));
                    }
                }
            }
        }
        v
    }

    /// Is `op` possible now, as an enabled or as a wind-down operation?
    pub fn could(&self, op: Op) -> bool {
        self.enabled().contains(&op) || self.default_op() == op
    }

    /// The operation that winds the program down.
    pub fn default_op(&self) -> Op {
        let f = self.top();
        if f.holding.is_some() {
            return Op::Rethrow;
        }
        if f.kind != Kind::Root {
            return Op::Return;
        }
        for t in 0..self.cfg.threads {
            let s = &self.threads[t];
            if let Some(Item::Frame(f)) = s.last() {
                if s.len() > 1 || f.holding.is_some() {
                    return Op::Switch(t as u8);
                }
            }
        }
        if self.cur != 0 {
            return Op::Switch(0);
        }
        for k in 0..self.cfg.k {
            if let Some(c) = self.slots[k] {
                let co = &self.cos[c as usize];
                if matches!(co.st, St::Fresh) && co.bomb {
                    return Op::Force(k as u8);
                }
                if !self.cfg.unwind && matches!(co.st, St::Susp(_)) {
                    // Cannot be dropped: let it run to completion.
                    return Op::Resume(k as u8);
                }
                return Op::DropCo(k as u8);
            }
        }
        Op::End
    }

    fn begin(&mut self) {
        let n = self.nops;
        self.nops += 1;
        let uid = self.top().uid;
        self.emit(Obs::Op(n, uid));
        if self.cfg.mask & M_LIFE != 0 {
            let l = self
                .slots
                .iter()
                .map(|s| match s {
                    None => 0,
                    Some(c) => {
                        let co = &self.cos[*c as usize];
                        1 + 2 * co.started as u8 + 4 * matches!(co.st, St::Done) as u8
                    }
                })
                .collect();
            self.emit(Obs::Life(l));
        }
        if self.cfg.mask & M_WHERE != 0 {
            self.emit(Obs::Where(self.where_now()));
        }
        if self.cfg.mask & M_ACC != 0 {
            let w = self.where_now();
            let a = self
                .cos
                .iter()
                .enumerate()
                .filter(|(_, c)| c.stack == w && !matches!(c.st, St::Gone))
                .map(|(i, _)| i as u32)
                .collect();
            self.emit(Obs::Accept(a));
        }
        if self.cfg.mask & (M_BT | M_FP) != 0 {
            let w: Vec<u32> = self.threads[self.cur]
                .iter()
                .rev()
                .filter_map(|i| match i {
                    Item::Frame(f) => Some(f.uid),
                    _ => None,
                })
                .collect();
            self.emit(Obs::Walk(w.clone()));
            self.emit(Obs::FpWalk(w));
        }
    }

    fn abort(&mut self, at: usize) {
        self.aborted = Some(at);
    }

    pub fn step(&mut self, op: Op) {
        debug_assert!(!self.ended && self.aborted.is_none());
        self.begin();
        let fatal_from = self.obs.len();
        match op {
            Op::New(k) | Op::NewBomb(k) => {
                let cap = self.tok();
                let stack = if self.pool.is_empty() {
                    self.next_stack += 1;
                    self.next_stack - 1
                } else {
                    self.pool.remove(0)
                };
                let bomb = matches!(op, Op::NewBomb(_));
                self.cos.push(Co { st: St::Fresh, cap, bomb, stack, started: false });
                self.slots[k as usize] = Some(self.cos.len() as u32 - 1);
            }
            Op::NewHuge => {
                let cap = self.tok();
                let stack = if self.pool.is_empty() {
                    self.next_stack += 1;
                    self.next_stack - 1
                } else {
                    self.pool.remove(0)
                };
                self.drop_tok(cap);
                self.emit(Obs::StackDrop(stack));
                self.throw(Payload::Msg, fatal_from);
            }
            Op::Resume(k) => {
                let c = self.slots[k as usize].unwrap();
                let v = self.tok();
                let st = self.cos[c as usize].st.clone();
                match st {
                    St::Done => {
                        self.drop_tok(v);
                        self.throw(Payload::Msg, fatal_from);
                    }
                    St::Fresh => {
                        self.slots[k as usize] = None;
                        self.cos[c as usize].st = St::Active;
                        self.cos[c as usize].started = true;
                        self.stk().push(Item::Rm { c, mode: Mode::Normal, slot: Some(k) });
                        self.emit(Obs::Body(c, v));
                        self.drop_tok(v);
                        self.push_frame(Kind::Body(c));
                    }
                    St::Susp(items) => {
                        self.slots[k as usize] = None;
                        self.cos[c as usize].st = St::Active;
                        self.stk().push(Item::Rm { c, mode: Mode::Normal, slot: Some(k) });
                        self.stk().extend(items);
                        self.emit(Obs::SuspendRet(c, v));
                        self.drop_tok(v);
                    }
                    _ => unreachable!(),
                }
            }
            Op::Force(k) => {
                let c = self.slots[k as usize].unwrap();
                let st = self.cos[c as usize].st.clone();
                match st {
                    St::Done => self.emit(Obs::ForceOk(c)),
                    St::Fresh => {
                        let cap = self.cos[c as usize].cap;
                        self.cos[c as usize].st = St::Done;
                        self.cos[c as usize].started = true;
                        self.drop_tok(cap);
                        if self.cos[c as usize].bomb && !self.unwinding() {
                            let p = self.tok();
                            self.throw(Payload::Tok(p), fatal_from);
                        } else {
                            self.emit(Obs::ForceOk(c));
                        }
                    }
                    St::Susp(items) => {
                        if !self.cfg.unwind {
                            self.throw(Payload::Msg, fatal_from);
                        } else {
                            self.slots[k as usize] = None;
                            self.cos[c as usize].st = St::Active;
                            self.stk().push(Item::Rm { c, mode: Mode::Force, slot: Some(k) });
                            self.stk().extend(items);
                            self.forced(c);
                            self.throw(Payload::Forced(c), fatal_from);
                        }
                    }
                    _ => unreachable!(),
                }
            }
            Op::DropCo(k) => {
                let c = self.slots[k as usize].take().unwrap();
                self.drop_co(c, After::Normal, fatal_from);
            }
            Op::TakeStack(k) => {
                let c = self.slots[k as usize].take().unwrap();
                if matches!(self.cos[c as usize].st, St::Done) {
                    self.cos[c as usize].st = St::Gone;
                    let s = self.cos[c as usize].stack;
                    self.pool.push(s);
                    self.emit(Obs::StackTaken(s));
                } else {
                    self.drop_co(c, After::Exc(Payload::Msg), fatal_from);
                }
            }
            Op::Reset(k) => {
                let c = self.slots[k as usize].unwrap();
                self.cos[c as usize].st = St::Done;
                self.cos[c as usize].started = true;
            }
            Op::Move(a, b) => {
                let c = self.slots[a as usize].take();
                self.slots[b as usize] = c;
            }
            Op::Guard | Op::Bomb => {
                let t = self.tok();
                self.push_frame(Kind::Guard(t, op == Op::Bomb));
            }
            Op::GuardOps => self.push_frame(Kind::GuardOps),
            Op::Catch => self.push_frame(Kind::Catch),
            Op::Own(k) => {
                let c = self.slots[k as usize].take().unwrap();
                self.push_frame(Kind::Own(c));
            }
            Op::OnStack => {
                let s = self.next_stack;
                self.next_stack += 1;
                self.push_frame(Kind::OnStack(s));
            }
            Op::OnParent => self.push_frame(Kind::OnParent),
            Op::Suspend => {
                let v = self.tok();
                let c = self.yielder().unwrap();
                let i = self
                    .stk()
                    .iter()
                    .rposition(|i| matches!(i, Item::Rm { c: x, .. } if *x == c))
                    .unwrap();
                let saved = self.stk().split_off(i + 1);
                let rm = self.stk().pop().unwrap();
                self.cos[c as usize].st = St::Susp(saved);
                if let Item::Rm { mode, slot, .. } = rm {
                    if let Some(k) = slot {
                        self.slots[k as usize] = Some(c);
                    }
                    match mode {
                        Mode::Normal => {
                            self.emit(Obs::Yielded(c, v));
                            self.drop_tok(v);
                        }
                        Mode::Force => {
                            self.drop_tok(v);
                            self.throw(Payload::Msg, fatal_from);
                        }
                        Mode::Drop => self.abort(fatal_from),
                    }
                }
            }
            Op::Return => {
                let v = self.tok();
                self.ret(v, fatal_from);
            }
            Op::Panic => {
                let p = self.tok();
                self.throw(Payload::Tok(p), fatal_from);
            }
            Op::Rethrow => {
                let p = self.top_mut().holding.take().unwrap();
                self.throw(p, fatal_from);
            }
            Op::Swallow => {
                let p = self.top_mut().holding.take().unwrap();
                self.drop_payload(p);
            }
            Op::Stash => {
                let p = self.top_mut().holding.take().unwrap();
                self.kept = Some((p, false));
            }
            Op::Raise => {
                if let Some(p) = self.top_mut().holding.take() {
                    self.drop_payload(p);
                }
                let (p, _) = self.kept.take().unwrap();
                self.throw(p, fatal_from);
            }
            Op::Trap(_) => {
                let c = self.coroutine_on(self.where_now()).unwrap();
                let i = self
                    .stk()
                    .iter()
                    .rposition(|i| matches!(i, Item::Rm { c: x, .. } if *x == c))
                    .unwrap();
                let lost = self.stk().split_off(i + 1);
                for it in lost {
                    match it {
                        Item::Rm { c, .. } => self.cos[c as usize].st = St::Gone,
                        Item::Frame(Frame { kind: Kind::Own(c), .. }) => self.cos[c as usize].st = St::Gone,
                        Item::AfterDrop { c, .. } => self.cos[c as usize].st = St::Gone,
                        _ => {}
                    }
                }
                let t = self.tok();
                self.emit(Obs::Trapped(c));
                self.push_frame(Kind::TrapBody(c, t));
            }
            Op::Switch(t) => {
                self.switches += 1;
                self.cur = t as usize;
                if !self.started_threads[t as usize] {
                    self.start_thread(t as usize);
                }
            }
            Op::End => {
                for s in std::mem::take(&mut self.pool) {
                    self.emit(Obs::StackDrop(s));
                }
                if let Some((p, _)) = self.kept.take() {
                    self.drop_payload(p);
                }
                self.ended = true;
            }
        }
    }

    fn forced(&mut self, c: u32) {
        if let Some((Payload::Forced(x), stale)) = &mut self.kept {
            *stale |= *x == c;
        }
    }

    fn drop_payload(&mut self, p: Payload) {
        if let Payload::Tok(t) = p {
            self.drop_tok(t);
        }
    }

    /// Destroys coroutine object `c`, then continues with `after` in the frame below.
    fn drop_co(&mut self, c: u32, after: After, fatal: usize) {
        let st = self.cos[c as usize].st.clone();
        // `into_stack` refusing drops the coroutine while its panic unwinds; same for Own frames.
        self.stk().push(Item::AfterDrop { c, after });
        match st {
            St::Done => self.after_drop(fatal),
            St::Fresh => {
                let cap = self.cos[c as usize].cap;
                self.drop_tok(cap);
                if self.cos[c as usize].bomb && !self.unwinding() {
                    self.abort(fatal);
                } else {
                    self.after_drop(fatal);
                }
            }
            St::Susp(items) => {
                if !self.cfg.unwind {
                    self.abort(fatal);
                    return;
                }
                self.cos[c as usize].st = St::Active;
                self.stk().push(Item::Rm { c, mode: Mode::Drop, slot: None });
                self.stk().extend(items);
                self.forced(c);
                self.throw(Payload::Forced(c), fatal);
            }
            _ => unreachable!(),
        }
    }

    fn after_drop(&mut self, fatal: usize) {
        match self.stk().pop() {
            Some(Item::AfterDrop { c, after }) => {
                self.cos[c as usize].st = St::Gone;
                let s = self.cos[c as usize].stack;
                self.emit(Obs::StackDrop(s));
                match after {
                    After::Normal => {}
                    After::Exc(p) => self.throw(p, fatal),
                }
            }
            x => panic!("model: expected AfterDrop, got {:?}", x),
        }
    }

    /// The running frame returns value `v`.
    fn ret(&mut self, v: Tok, fatal: usize) {
        let f = match self.stk().pop() {
            Some(Item::Frame(f)) => f,
            _ => unreachable!(),
        };
        match f.kind {
            Kind::Root => unreachable!(),
            Kind::Body(c) => {
                let cap = self.cos[c as usize].cap;
                self.drop_tok(cap);
                if self.cos[c as usize].bomb && !self.unwinding() {
                    if !self.cfg.unwind {
                        return self.abort(fatal);
                    }
                    let p = self.tok();
                    self.drop_tok(v);
                    self.leave(c, Err(Payload::Tok(p)), fatal);
                } else {
                    self.leave(c, Ok(v), fatal);
                }
            }
            Kind::TrapBody(c, t) => {
                self.drop_tok(t);
                self.leave(c, Ok(v), fatal);
            }
            Kind::Guard(t, bomb) => {
                self.frame_ret(v);
                self.drop_tok(t);
                if bomb && !self.unwinding() {
                    let p = self.tok();
                    self.throw(Payload::Tok(p), fatal);
                }
            }
            Kind::GuardOps => {
                self.frame_ret(v);
                self.stk().push(Item::AfterDtor(After::Normal));
                self.push_frame(Kind::Dtor);
            }
            Kind::Dtor => {
                self.frame_ret(v);
                self.after_dtor(fatal);
            }
            Kind::Catch | Kind::OnParent => self.frame_ret(v),
            Kind::Own(c) => {
                self.frame_ret(v);
                self.drop_co(c, After::Normal, fatal);
            }
            Kind::OnStack(s) => {
                self.emit(Obs::StackDrop(s));
                self.frame_ret(v);
            }
        }
    }

    fn frame_ret(&mut self, v: Tok) {
        self.emit(Obs::FrameRet(v));
        self.drop_tok(v);
    }

    fn after_dtor(&mut self, fatal: usize) {
        match self.stk().pop() {
            Some(Item::AfterDtor(After::Normal)) => {}
            Some(Item::AfterDtor(After::Exc(p))) => self.throw(p, fatal),
            x => panic!("model: expected AfterDtor, got {:?}", x),
        }
    }

    /// Coroutine `c`'s initial function finishes; control goes back to the top resume marker.
    fn leave(&mut self, c: u32, out: Result<Tok, Payload>, fatal: usize) {
        let (mode, slot) = match self.stk().pop() {
            Some(Item::Rm { c: x, mode, slot }) if x == c => (mode, slot),
            x => panic!("model: expected marker of {}, got {:?}", c, x),
        };
        self.cos[c as usize].st = St::Done;
        if let Some(k) = slot {
            self.slots[k as usize] = Some(c);
        }
        match (mode, out) {
            (Mode::Normal, Ok(v)) => {
                self.emit(Obs::Returned(c, v));
                self.drop_tok(v);
            }
            (Mode::Normal, Err(p)) => self.throw(p, fatal),
            (Mode::Force, Ok(v)) => {
                self.drop_tok(v);
                self.throw(Payload::Msg, fatal);
            }
            (Mode::Force, Err(p)) if p == Payload::Forced(c) => self.emit(Obs::ForceOk(c)),
            (Mode::Force, Err(p)) => self.throw(p, fatal),
            (Mode::Drop, Err(p)) if p == Payload::Forced(c) => self.after_drop(fatal),
            (Mode::Drop, _) => self.abort(fatal),
        }
    }

    /// A panic with payload `p` starts (or continues) at the top of the running stack.
    fn throw(&mut self, p: Payload, fatal: usize) {
        loop {
            match self.stk().pop() {
                Some(Item::Frame(f)) => match f.kind {
                    Kind::Root => {
                        // The harness' outermost frame catches everything and goes on.
                        self.stk().push(Item::Frame(f));
                        self.emit(Obs::Caught(p.desc()));
                        self.drop_payload(p);
                        return;
                    }
                    Kind::Body(c) | Kind::TrapBody(c, _) => {
                        let t = match f.kind {
                            Kind::TrapBody(_, t) => t,
                            _ => self.cos[c as usize].cap,
                        };
                        self.drop_tok(t);
                        if !self.cfg.unwind {
                            return self.abort(fatal);
                        }
                        return self.leave(c, Err(p), fatal);
                    }
                    Kind::Guard(t, _) => self.drop_tok(t),
                    Kind::GuardOps => {
                        self.stk().push(Item::AfterDtor(After::Exc(p)));
                        self.push_frame(Kind::Dtor);
                        return;
                    }
                    Kind::Dtor => {
                        self.emit(Obs::Caught(p.desc()));
                        self.drop_payload(p);
                        return self.after_dtor(fatal);
                    }
                    Kind::Catch => {
                        self.emit(Obs::Caught(p.desc()));
                        self.top_mut().holding = Some(p);
                        return;
                    }
                    Kind::Own(c) => return self.drop_co(c, After::Exc(p), fatal),
                    Kind::OnStack(s) => {
                        if !self.cfg.unwind {
                            return self.abort(fatal);
                        }
                        self.emit(Obs::StackDrop(s));
                    }
                    Kind::OnParent => {
                        if !self.cfg.unwind {
                            return self.abort(fatal);
                        }
                    }
                },
                x => panic!("model: exception meets {:?}", x),
            }
        }
    }

    /// Canonical form: equal strings have equal futures (identities of tokens, frames and stacks
    /// only occur up to renaming; they influence no enabled set and no control flow).
    pub fn canon(&self) -> String {
        use std::fmt::Write;
        let mut s = String::new();
        let mut names: Vec<u32> = vec![];
        fn items(m: &M, s: &mut String, names: &mut Vec<u32>, v: &[Item]) {
            for i in v {
                match i {
                    Item::Frame(f) => {
                        let h = match f.holding {
                            None => String::new(),
                            Some(Payload::Tok(_)) => "!t".into(),
                            Some(Payload::Msg) => "!m".into(),
                            Some(Payload::Forced(c)) => format!("!f{}", name(names, c)),
                        };
                        match f.kind {
                            Kind::Root => s.push('R'),
                            Kind::Body(c) => write!(s, "B{}", name(names, c)).unwrap(),
                            Kind::TrapBody(c, _) => write!(s, "T{}", name(names, c)).unwrap(),
                            Kind::Guard(_, b) => s.push(if b { 'X' } else { 'G' }),
                            Kind::GuardOps => s.push('D'),
                            Kind::Dtor => s.push('d'),
                            Kind::Catch => s.push('C'),
                            Kind::Own(c) => {
                                write!(s, "O{}[", name(names, c)).unwrap();
                                co(m, s, names, c);
                                s.push(']');
                            }
                            Kind::OnStack(_) => s.push('S'),
                            Kind::OnParent => s.push('P'),
                        }
                        s.push_str(&h);
                    }
                    Item::Rm { c, mode, slot } => {
                        write!(s, ">{}{:?}{:?}:", name(names, *c), mode, slot).unwrap();
                        co(m, s, names, *c);
                    }
                    Item::AfterDrop { c, after } => {
                        write!(s, "K{}", name(names, *c)).unwrap();
                        after_s(s, names, after);
                    }
                    Item::AfterDtor(a) => {
                        s.push('k');
                        after_s(s, names, a);
                    }
                }
            }
        }
        fn after_s(s: &mut String, names: &mut Vec<u32>, a: &After) {
            match a {
                After::Normal => s.push('.'),
                After::Exc(Payload::Tok(_)) => s.push('t'),
                After::Exc(Payload::Msg) => s.push('m'),
                After::Exc(Payload::Forced(c)) => {
                    write!(s, "f{}", name(names, *c)).unwrap();
                }
            }
        }
        fn name(names: &mut Vec<u32>, c: u32) -> usize {
            match names.iter().position(|x| *x == c) {
                Some(i) => i,
                None => {
                    names.push(c);
                    names.len() - 1
                }
            }
        }
        fn co(m: &M, s: &mut String, names: &mut Vec<u32>, c: u32) {
            let o = &m.cos[c as usize];
            if o.bomb {
                s.push('b');
            }
            match &o.st {
                St::Fresh => s.push('f'),
                St::Susp(v) => {
                    s.push('(');
                    items(m, s, names, v);
                    s.push(')');
                }
                St::Active => s.push('a'),
                St::Done => s.push('x'),
                St::Gone => s.push('g'),
            }
        }
        for t in 0..self.threads.len() {
            items(self, &mut s, &mut names, &self.threads[t]);
            s.push('|');
        }
        for k in &self.slots {
            match k {
                None => s.push('-'),
                Some(c) => {
                    write!(s, "{}", name(&mut names, *c)).unwrap();
                    co(self, &mut s, &mut names, *c);
                }
            }
            s.push(';');
        }
        write!(s, "p{}t{}", self.pool.len(), self.cur).unwrap();
        match self.kept {
            None => {}
            Some((Payload::Tok(_), _)) => s.push_str("kt"),
            Some((Payload::Msg, _)) => s.push_str("km"),
            Some((Payload::Forced(c), stale)) => {
                write!(s, "k{}{}", if stale { "s" } else { "f" }, name(&mut names, c)).unwrap();
                co(self, &mut s, &mut names, c);
            }
        }
        if self.cfg.threads > 1 && self.cfg.max_switches < 1000 {
            write!(s, "s{}", self.switches).unwrap();
        }
        if self.ended {
            s.push('E');
        }
        if self.aborted.is_some() {
            s.push('A');
        }
        s
    }

    /// Appends the wind-down operations; returns false if it does not terminate.
    pub fn wind_down(&mut self, script: &mut Vec<Op>) -> bool {
        let mut n = 0;
        while !self.ended && self.aborted.is_none() {
            let op = self.default_op();
            self.step(op);
            script.push(op);
            n += 1;
            if n > 500 {
                return false;
            }
        }
        true
    }
}
