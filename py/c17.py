"""C17: programs the compiler has to accept or reject, enumerated and compared with the verdict required."""
import glob, itertools, json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

PRELUDE = '''#![allow(unused, dead_code, static_mut_refs)]
#![feature_line]
extern crate corosensei;
use corosensei::stack::{DefaultStack, Stack, StackPointer};
use corosensei::trap::CoroutineTrapHandler;
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::{Arc, Mutex, RwLock};
fn need_send<T: Send>() {}
fn need_sync<T: Sync>() {}
fn sendable<T: Send>(_: T) {}
pub struct Plain(usize);
pub struct NotSync(usize, Cell<u8>);
pub struct NotSend(usize, *const u8);
unsafe impl Stack for Plain { fn base(&self) -> StackPointer { loop {} } fn limit(&self) -> StackPointer { loop {} } }
unsafe impl Stack for NotSync { fn base(&self) -> StackPointer { loop {} } fn limit(&self) -> StackPointer { loop {} } }
unsafe impl Stack for NotSend { fn base(&self) -> StackPointer { loop {} } fn limit(&self) -> StackPointer { loop {} } }
fn stack() -> DefaultStack { loop {} }
fn local() -> u32 { 1 }
'''.replace("#![feature_line]\n", "")


class Program:
    """One function; `ok` is the verdict required, `why` says of what kind it is."""

    def __init__(self, name, text, ok, why, finding=None):
        self.name, self.text, self.ok, self.why, self.finding = name, text, ok, why, finding


# --- A: which types may be sent and shared ------------------------------------------------------

def send_sync():
    # name: (Send, Sync); None: not required either way
    vals = {"()": 1, "Rc<u8>": 1, "Cell<u8>": 1, "*mut u8": 1}
    stacks = {"DefaultStack": True, "Plain": True, "NotSync": False, "NotSend": False, "&'static mut DefaultStack": True, "&'static mut NotSync": False, "Box<u8>": None}
    del stacks["Box<u8>"]
    base = {}
    for i, y, r in itertools.product(vals, vals, vals):
        for s, sync in stacks.items():
            base["Coroutine<%s, %s, %s, %s>" % (i, y, r, s)] = (False, sync)
    for i, y in itertools.product(vals, vals):
        base["Yielder<%s, %s>" % (i, y)] = (None, False)
    wraps = {
        "%s": lambda a, b: (a, b),
        "&'static %s": lambda a, b: (b, b),
        "&'static mut %s": lambda a, b: (a, b),
        "Box<%s>": lambda a, b: (a, b),
        "Option<%s>": lambda a, b: (a, b),
        "Rc<%s>": lambda a, b: (False, False),
        "Arc<%s>": lambda a, b: (None if a is None and b else (bool(a) and b if a is not None else (False if not b else None)),) * 2,
        "RefCell<%s>": lambda a, b: (a, False),
        "Mutex<%s>": lambda a, b: (a, a),
        "RwLock<%s>": lambda a, b: (a, None if a is None else a and b),
    }
    out = []
    n = 0
    for t, (send, sync) in base.items():
        few = t.count("()") >= 2 or t.startswith("Yielder")
        for w, f in wraps.items():
            if w != "%s" and not few:
                continue
            if "&'static mut" in w and t.startswith("Yielder"):
                continue
            for what, ok in zip(("send", "sync"), f(send, sync)):
                if ok is None:
                    continue
                out.append(Program("a%d" % n, "need_%s::<%s>();" % (what, w % t), ok, "%s is %s%s" % (w % t, "" if ok else "not ", what.capitalize())))
                n += 1
    return out


# --- B: variance --------------------------------------------------------------------------------

def variance():
    forms = {"&%s u8": 1, "Option<&%s u8>": 1, "fn(&%s u8)": -1, "Cell<&%s u8>": 0, "fn(fn(&%s u8))": 1, "[&%s u8; 2]": 1}
    # container: list of (text with %s for the parameter, variance)
    places = [
        ("Coroutine<%s, (), (), DefaultStack>", -1, "input of a coroutine"),
        ("Coroutine<(), %s, (), DefaultStack>", 1, "yielded type of a coroutine"),
        ("Coroutine<(), (), %s, DefaultStack>", 1, "returned type of a coroutine"),
        ("Coroutine<%s, (), (), Plain>", -1, "input of a coroutine"),
        ("Coroutine<(), %s, (), Plain>", 1, "yielded type of a coroutine"),
        ("Coroutine<(), (), %s, Plain>", 1, "returned type of a coroutine"),
        ("&'static Coroutine<%s, (), (), DefaultStack>", -1, "input of a shared coroutine"),
        ("&'static Coroutine<(), %s, (), DefaultStack>", 1, "yielded type of a shared coroutine"),
        ("&'static Coroutine<(), (), %s, DefaultStack>", 1, "returned type of a shared coroutine"),
        ("&'b mut Coroutine<%s, (), (), DefaultStack>", 0, "input of an exclusively borrowed coroutine"),
        ("&'b mut Coroutine<(), %s, (), DefaultStack>", 0, "yielded type of an exclusively borrowed coroutine"),
        ("&'b mut Coroutine<(), (), %s, DefaultStack>", 0, "returned type of an exclusively borrowed coroutine"),
        ("&'b Yielder<%s, ()>", 1, "input at a yielder"),
        ("&'b Yielder<(), %s>", -1, "yielded type at a yielder"),
        ("CoroutineResult<%s, ()>", 1, "yielded type in a result"),
        ("CoroutineResult<(), %s>", 1, "returned type in a result"),
        ("CoroutineTrapHandler<%s>", -1, "returned type at a trap handler"),
    ]
    out = []
    n = 0
    for place, v, what in places:
        for form, fv in forms.items():
            for to, d in (("shortened", 1), ("lengthened", -1)):
                x, y = ("'static", "'a") if d == 1 else ("'a", "'static")
                if "&'static" in place and d == -1 and False:
                    continue
                if "&'static Coroutine" in place:
                    # The reference's own lifetime must not outlive what it names.
                    p = place.replace("'static", "'b")
                else:
                    p = place
                ok = v * fv == d
                if "'b" in p:
                    # 'static: 'a: 'b
                    sig = "fn b%d<'b, 'a: 'b>(x: %s) -> %s { x }" % (n, p % (form % x), p % (form % y))
                else:
                    sig = "fn b%d<'a>(x: %s) -> %s { x }" % (n, p % (form % x), p % (form % y))
                out.append(Program("b%d" % n, sig, ok, "%s, as %s, may %sbe %s" % (what, form % "'a", "" if ok else "not ", to)))
                n += 1
    return out


# --- C: borrowing, parent-stack calls, unsafe operations ----------------------------------------

def handwritten():
    out = []
    n = [0]

    def add(ok, why, text, finding=None):
        out.append(Program("c%d" % n[0], text, ok, why, finding))
        n[0] += 1

    ctors = {
        "new": ("Coroutine::<u32, u32, u32>::new(%s)", ""),
        "with_stack": ("Coroutine::<u32, u32, u32, _>::with_stack(stack(), %s)", ""),
        "with_stack borrowed": ("Coroutine::<u32, u32, u32, _>::with_stack(&mut s, %s)", "let mut s = stack(); "),
    }
    bodies = [
        (True, "captures an owned value", "let v = vec![1u32];", "move |_, i| { v[0] + i }"),
        (True, "captures an Rc", "let v = Rc::new(1u32);", "move |_, i| { *v + i }"),
        (True, "captures a Cell", "let v = Cell::new(1u32);", "move |_, i| { v.get() + i }"),
        (True, "captures static data", "static V: u32 = 3; let v = &V;", "move |_, i| { *v + i }"),
        (False, "borrows a local", "let v = local();", "|_, i| { let r = &v; *r + i }"),
        (False, "captures a reference to a local", "let v = local(); let r = &v;", "move |_, i| { *r + i }"),
        (False, "captures an exclusive reference to a local", "let mut v = local(); let r = &mut v;", "move |_, i| { *r += 1; i }"),
        (False, "captures a struct holding a reference", "let v = local(); let r = Some((1, &v));", "move |_, i| { *r.unwrap().1 + i }"),
        (False, "captures a boxed closure that borrows", "let v = local(); let f: Box<dyn Fn() -> u32 + '_> = Box::new(|| v);", "move |_, i| { f() + i }"),
        (False, "captures a slice of a local", "let v = [local(); 3]; let r = &v[..2];", "move |_, i| { r[0] + i }"),
    ]
    for cn, (c, pre) in ctors.items():
        for ok, why, setup, body in bodies:
            add(ok, "%s: the body %s" % (cn, why), "%s %s let mut co = %s; co.resume(1);" % (setup, pre, c % body))
        # What crosses, rather than what is captured.
        c2 = c.replace("<u32, u32, u32", "<&'static u32, &'static u32, &'static u32")
        add(True, cn + ": passes static references", "static V: u32 = 3; %s let mut co = %s; let x: &'static u32 = match co.resume(&V) { CoroutineResult::Yield(x) => x, CoroutineResult::Return(x) => x };" % (pre, c2 % "|y, i| { y.suspend(i) }"))
        add(False, cn + ": passes a reference to a local in", "let v = local(); %s let mut co = %s; co.resume(&v);" % (pre, c2 % "|y, i| { y.suspend(i) }"))
        add(False, cn + ": yields a reference to its own local", "%s let mut co = %s;" % (pre, c2 % "|y, i| { let v = local(); y.suspend(&v) }"))
        add(False, cn + ": returns a reference to its own local", "%s let mut co = %s;" % (pre, c2 % "|y, i| { let v = local(); &v }"))
    for form, kind in (("&'a u32", "input"), ("&'a u32", "yield"), ("&'a u32", "return")):
        t = {"input": "&'a u32, (), ()", "yield": "(), &'a u32, ()", "return": "(), (), &'a u32"}[kind]
        add(False, "creates a coroutine whose %s type holds a short lifetime" % kind,
            "fn f<'a>(x: &'a u32) -> Coroutine<%s> { Coroutine::<%s>::new(|_, _| loop {}) }" % (t, t))
        add(False, "creates a coroutine on a stack whose %s type holds a short lifetime" % kind,
            "fn f<'a>(x: &'a u32) -> Coroutine<%s, DefaultStack> { Coroutine::<%s, _>::with_stack(stack(), |_, _| loop {}) }" % (t, t))
        add(True, "creates a coroutine whose %s type is static" % kind,
            "let co = Coroutine::<%s>::new(|_, _| loop {});" % t.replace("'a", "'static"))

    def co(body, t="u32, u32, u32"):
        return "let mut co = Coroutine::<%s>::new(move |y, i| { %s });" % (t, body)

    # The yielder stays with the coroutine.
    add(True, "uses a yielder", co("let r = &y; r.suspend(1); i"))
    add(False, "stores the yielder outside", "thread_local! { static Y: Cell<Option<&'static Yielder<u32, u32>>> = const { Cell::new(None) }; } " + co("Y.with(|c| c.set(Some(y))); i"))
    add(False, "returns the yielder", co("y", "u32, u32, &'static Yielder<u32, u32>"))
    add(False, "yields the yielder", "let mut co = Coroutine::<u32, Box<dyn Fn()>, u32>::new(|y, i| { y.suspend(Box::new(move || { y; })); i });")
    add(False, "shares the yielder with a thread", co("std::thread::scope(|t| { t.spawn(|| { y.suspend(1); }); }); i"))
    add(False, "moves the yielder into a thread", co("std::thread::spawn(move || { y.suspend(1); }); i"))
    add(False, "clones the yielder", co("let z: Yielder<u32, u32> = (*y).clone(); i"))
    add(False, "moves the yielder", co("let z: Yielder<u32, u32> = *y; i"))
    add(False, "needs the yielder to be sent", co("sendable(y); i"))
    add(False, "makes a yielder", "let y: Yielder<u32, u32> = Default::default();")
    add(False, "passes the yielder to another coroutine's body", co("let mut d = Coroutine::<u32, u32, u32>::new(move |_, i| y.suspend(i)); d.resume(1); i"))

    # Parent-stack calls.
    add(True, "parent-stack call without captures", co("y.on_parent_stack(|| 3) + i"))
    add(True, "parent-stack call borrowing data", co("let mut v = local(); y.on_parent_stack(|| { v += 1; }); v + i"))
    add(True, "parent-stack call sharing data", co("let v = local(); y.on_parent_stack(|| v + 1) + i"))
    add(True, "parent-stack call returning something that cannot be sent", co("let r: Rc<u32> = y.on_parent_stack(|| Rc::new(3)); *r + i"))
    add(True, "parent-stack call taking an owned value", co("let v = vec![1u32]; y.on_parent_stack(move || v[0]) + i"))
    add(False, "parent-stack call suspends", co("y.on_parent_stack(|| y.suspend(1)) + i"))
    add(False, "parent-stack call captures the yielder", co("y.on_parent_stack(move || { let z = y; 1 }) + i"))
    add(False, "parent-stack call captures the yielder in a struct", co("struct W<'a>(&'a Yielder<u32, u32>); let w = W(y); y.on_parent_stack(|| w.0.suspend(1)) + i"))
    add(False, "parent-stack call captures the yielder in a closure", co("let f = || y.suspend(1); y.on_parent_stack(f) + i"))
    add(False, "parent-stack call captures the yielder in a boxed closure", co("let f: Box<dyn Fn() -> u32 + '_> = Box::new(|| y.suspend(1)); y.on_parent_stack(f) + i"))
    add(False, "parent-stack call captures the yielder in an Rc", co("let f = Rc::new(y); y.on_parent_stack(|| f.suspend(1)) + i"))
    add(False, "parent-stack call within one captures the yielder", co("y.on_parent_stack(|| y.on_parent_stack(|| 1)) + i"))
    add(False, "parent-stack call captures an Rc", co("let r = Rc::new(1u32); y.on_parent_stack(|| *r) + i"))
    add(False, "parent-stack call captures a Cell by reference", co("let r = Cell::new(1u32); y.on_parent_stack(|| r.get()) + i"))
    add(False, "parent-stack call captures a coroutine", co("let mut d = Coroutine::<u32, u32, u32>::new(|_, i| i); y.on_parent_stack(|| { d.resume(1); }); i"))
    add(True, "parent-stack call creates a coroutine", co("y.on_parent_stack(|| { let mut d = Coroutine::<u32, u32, u32>::new(|_, i| i); d.resume(1); }); i"))
    add(True, "other-stack call suspends", co("on_stack(stack(), || y.suspend(1)) + i"))

    # Calls on other stacks may borrow.
    add(True, "other-stack call borrows a local", "let mut v = local(); on_stack(stack(), || v += 1); let w = v;")
    add(True, "other-stack call captures an Rc", "let v = Rc::new(1u32); let r = on_stack(stack(), || v.clone());")
    add(True, "other-stack call returns a reference to a local outside", "let v = local(); let r: &u32 = on_stack(stack(), || &v);")
    add(False, "other-stack call returns a reference to its own local", "let r: &u32 = on_stack(stack(), || { let v = local(); &v });")
    add(False, "other-stack call runs on a stack it captures", "let mut s = stack(); on_stack(&mut s, || drop(s));")
    add(False, "other-stack call runs on a stack it uses", "let mut s = stack(); on_stack(&mut s, || { on_stack(&mut s, || ()); });")

    # Coroutines cannot move to other threads; references may.
    mk = "let mut co = Coroutine::<u32, u32, u32>::new(|_, i| i);"
    add(False, "moves a coroutine to a thread", mk + " std::thread::spawn(move || { co.resume(1); });")
    add(False, "resumes from a scoped thread", mk + " std::thread::scope(|t| { t.spawn(|| { co.resume(1); }); });")
    add(False, "drops in a scoped thread", mk + " std::thread::scope(|t| { t.spawn(move || drop(co)); });")
    add(True, "asks a coroutine from a scoped thread", mk + " std::thread::scope(|t| { t.spawn(|| { co.done(); co.started(); }); co.done(); });")
    add(False, "asks a coroutine with an unshareable stack from a thread", "let co = Coroutine::<u32, u32, u32, _>::with_stack(NotSync(1, Cell::new(1)), |_, i| i); std::thread::scope(|t| { t.spawn(|| { co.done(); }); });")
    add(False, "sends a coroutine through a channel", mk + " let (a, b) = std::sync::mpsc::channel(); a.send(co); std::thread::spawn(move || { let c: Coroutine<u32, u32, u32> = b.recv().unwrap(); });")
    add(False, "puts a coroutine in a static", "static C: Mutex<Option<Coroutine<u32, u32, u32>>> = Mutex::new(None);")

    # One user at a time.
    add(False, "resumes through a shared reference", mk + " let r = &co; r.resume(1);")
    add(False, "unwinds through a shared reference", mk + " let r = &co; r.force_unwind();")
    add(False, "resets through a shared reference", mk + " let r = &co; unsafe { r.force_reset() };")
    add(False, "resumes through an Rc", "let co = Rc::new(Coroutine::<u32, u32, u32>::new(|_, i| i)); co.resume(1);")
    add(True, "resumes through a RefCell", "let co = RefCell::new(Coroutine::<u32, u32, u32>::new(|_, i| i)); co.borrow_mut().resume(1);")
    add(True, "asks through a shared reference", mk + " let r = &co; r.done(); r.started(); r.trap_handler();")
    add(False, "two exclusive references", mk + " let a = &mut co; let b = &mut co; a.resume(1); b.resume(1);")
    add(False, "resumes while asked about", mk + " let a = &co; co.resume(1); a.done();")
    add(False, "copies a coroutine", mk + " let a = co; co.resume(1);")
    add(False, "clones a coroutine", mk + " let a = co.clone();")
    add(False, "takes the stack through a reference", mk + " let r = &mut co; r.into_stack();")
    add(False, "resumes after taking the stack", mk + " co.into_stack(); co.resume(1);")
    add(False, "a body captures its own coroutine", "let mut co: Option<Coroutine<u32, u32, u32>> = None; co = Some(Coroutine::new(|_, i| { co.as_mut().unwrap().resume(1); i }));")
    add(False, "resumes while a parent-stack call may", mk + " let r = &mut co; let mut d = Coroutine::<u32, u32, u32>::new(move |_, i| { r.resume(1); i }); d.resume(1);")

    # Only in unsafe code.
    add(False, "resets without unsafe", mk + " co.force_reset();")
    add(True, "resets with unsafe", mk + " unsafe { co.force_reset() };")
    add(False, "sets up a recovery without unsafe", mk + " let h = co.trap_handler(); let r = h.setup_trap_handler(|| 1u32);")
    add(True, "sets up a recovery with unsafe", mk + " let h = co.trap_handler(); let r = unsafe { h.setup_trap_handler(|| 1u32) };")
    add(False, "a recovery closure borrows a local", mk + " let v = local(); let h = co.trap_handler(); let r = unsafe { h.setup_trap_handler(|| { let r = &v; *r }) };")
    add(False, "a recovery closure of another type", mk + " let h = co.trap_handler(); let r = unsafe { h.setup_trap_handler(|| 1u64) };")
    add(False, "implements Stack without unsafe", "struct S; impl Stack for S { fn base(&self) -> StackPointer { loop {} } fn limit(&self) -> StackPointer { loop {} } }")
    add(True, "implements Stack with unsafe", "struct S; unsafe impl Stack for S { fn base(&self) -> StackPointer { loop {} } fn limit(&self) -> StackPointer { loop {} } }")
    # Stacks.
    add(False, "returns a coroutine on a local stack", "fn f() -> Coroutine<u32, u32, u32, &'static mut DefaultStack> { let mut s = stack(); Coroutine::with_stack(&mut s, |_, i| i) }")
    add(True, "returns a coroutine on a given stack", "fn f<'a>(s: &'a mut DefaultStack) -> Coroutine<u32, u32, u32, &'a mut DefaultStack> { Coroutine::with_stack(s, |_, i| i) }")
    add(False, "a coroutine outlives the stack it borrows", "let co; { let mut s = stack(); co = Coroutine::<u32, u32, u32, _>::with_stack(&mut s, |_, i| i); } co.done();")
    add(False, "the stack is dropped before its coroutine", "let mut co = None; let mut s = stack(); co = Some(Coroutine::<u32, u32, u32, _>::with_stack(&mut s, |_, i| i));")
    add(True, "the coroutine is dropped before its stack", "let mut s = stack(); let mut co = None; co = Some(Coroutine::<u32, u32, u32, _>::with_stack(&mut s, |_, i| i));")
    add(False, "a coroutine on a shared stack", "let s = stack(); let co = Coroutine::<u32, u32, u32, _>::with_stack(&s, |_, i| i);")
    add(False, "a stack call on a shared stack", "let s = stack(); on_stack(&s, || ());")
    add(False, "a stack is cloned", "let s = stack(); let t: DefaultStack = s.clone();")
    add(False, "a coroutine on a counted stack", "let s = Rc::new(stack()); let co = Coroutine::<u32, u32, u32, _>::with_stack(s.clone(), |_, i| i);")
    return out


# --- D: histories of a stack and its coroutine --------------------------------------------------

def histories(depth):
    """All sequences of operations on one stack and the coroutines using it, with the verdict of the
    ownership rules: a stack is with its owner, given away, or borrowed until the coroutine that
    borrows it is gone."""
    T = "Coroutine::<(), (), (), _>"
    ops = {
        "give": "let mut co = %s::with_stack(s, |y, _| y.suspend(()));" % T,
        "lend": "let mut co = %s::with_stack(&mut s, |y, _| y.suspend(()));" % T,
        "lend2": "let mut co = %s::with_stack(unsafe_free(&mut s), |y, _| y.suspend(()));" % T,
        "resume": "co.resume(());",
        "ask": "co.done();",
        "unwind": "co.force_unwind();",
        "drop co": "drop(co);",
        "forget": "std::mem::forget(co);",
        "take": "let t = co.into_stack();",
        "retake": "s = co.into_stack();",
        "drop s": "drop(s);",
        "use s": "on_stack(&mut s, || ());",
        "move s": "let s2 = s;",
    }
    del ops["lend2"]
    out = []
    n = 0
    for d in range(1, depth + 1):
        for seq in itertools.product(ops, repeat=d):
            s, co = "here", None  # co: None (never), "own", "borrow", "gone"
            ok, valid, leak = True, True, False
            for i, o in enumerate(seq):
                if o in ("give", "lend"):
                    if co in ("own", "borrow") or (co == "gone" and not ok):
                        valid = False
                        break
                    if s != "here":
                        ok = False
                    if leak:
                        ok = False
                    co = "own" if o == "give" else "borrow"
                    if o == "give":
                        s = "gone"
                elif o in ("resume", "ask", "unwind", "drop co", "forget", "take", "retake"):
                    if co is None:
                        valid = False  # no such name
                        break
                    if co == "gone":
                        ok = False
                    if o == "retake":
                        # Only meaningful for a stack that was given away.
                        if "lend" in seq[:i]:
                            valid = False
                            break
                        if co != "gone":
                            s = "here"
                    if o == "forget" and co == "borrow":
                        # It still is on the stack that it borrowed.
                        leak = True
                    if o in ("drop co", "forget", "take", "retake"):
                        co = "gone"
                else:
                    if s != "here" or co == "borrow" or leak:
                        ok = False
                    if o in ("drop s", "move s"):
                        s = "gone"
                if not ok and i + 1 < len(seq):
                    # Rejected by a shorter sequence already.
                    valid = False
                    break
            if not valid:
                continue
            finding = None
            if leak and not ok:
                finding = "forget-borrowed-stack"
            out.append(Program("d%d" % n, "let mut s = stack(); " + " ".join(ops[o] for o in seq), ok, "history " + ", ".join(seq), finding))
            n += 1
    return out


def compile_file(rustc, env, libdir, programs, tmp, idx):
    """Returns the names of the functions the compiler complains about, or raises."""
    src = os.path.join(tmp, "p%d.rs" % idx)
    lines = PRELUDE.splitlines()
    where = {}
    for p in programs:
        t = p.text if p.text.startswith("fn b") else "fn %s() { %s }" % (p.name, p.text)
        lines.append(t)
        where[len(lines)] = p.name
    with open(src, "w") as f:
        f.write("\n".join(lines) + "\n")
    rlib = libdir[0]
    cmd = [rustc, "--edition=2021", "--crate-type=lib", "--emit=metadata", "--error-format=json", "-A", "warnings",
           "--extern", "corosensei=" + rlib, "-L", "dependency=" + libdir[1], "-o", os.path.join(tmp, "p%d.rmeta" % idx), src]
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    bad, stray = set(), []
    for l in r.stderr.splitlines():
        if not l.startswith("{"):
            continue
        d = json.loads(l)
        if d.get("level") != "error":
            continue
        spans = [s for s in d.get("spans", []) if s.get("file_name", "").endswith("p%d.rs" % idx)]
        prim = [s["line_start"] for s in spans if s["is_primary"]] or [s["line_start"] for s in spans]
        hit = [where[x] for x in prim if x in where]
        if hit:
            bad.update(hit)
        elif spans or "aborting due to" not in d["message"]:
            stray.append(d["message"])
    if r.returncode == 0 and bad:
        stray.append("succeeded with errors")
    return bad, stray, r.returncode


def check(rustc, env, libdir, programs, workers=8):
    """Compiles everything; returns the programs whose verdict is not the one required."""
    tmp = tempfile.mkdtemp(prefix="c17-")
    try:
        # Name and type errors keep the compiler from looking at borrows: programs of one kind
        # together, and those to be rejected for different reasons apart.
        batches = []
        groups = {}
        for p in programs:
            groups.setdefault(p.name[0] if p.name[0] != "c" else "c", []).append(p)
        for k, ps in groups.items():
            if k == "c":
                batches += [[p] for p in ps]
            else:
                for i in range(0, len(ps), 250):
                    batches.append(ps[i:i + 250])

        def one(a):
            i, ps = a
            return ps, compile_file(rustc, env, libdir, ps, tmp, i)

        wrong, errors = [], []
        with ThreadPoolExecutor(workers) as ex:
            for ps, (bad, stray, rc) in ex.map(one, list(enumerate(batches))):
                if stray and len(ps) > 1:
                    errors.append("; ".join(stray[:3]))
                for p in ps:
                    rejected = p.name in bad or (len(ps) == 1 and rc != 0)
                    if rejected == p.ok:
                        wrong.append((p, rejected))
        # Whatever is not as required is looked at alone.
        again = []
        for k, (p, rejected) in enumerate(wrong):
            bad, stray, rc = compile_file(rustc, env, libdir, [p], tmp, 100000 + k)
            if (rc != 0) == p.ok:
                again.append((p, rc != 0))
        return again, errors
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def programs(tier):
    return send_sync() + variance() + handwritten() + histories(5 if tier == "thorough" else 4)


if __name__ == "__main__":
    import sys, time
    ps = programs("quick")
    print(len(ps), {k: sum(p.name[0] == k for p in ps) for k in "abcd"}, sum(p.ok for p in ps))
    e = dict(os.environ, RUSTUP_TOOLCHAIN="1.99.1")
    t = time.time()
    lib = (glob.glob(sys.argv[1] + "/libcorosensei-*.rlib")[0], sys.argv[1])
    w, err = check("rustc", e, lib, ps)
    print(time.time() - t, err)
    f = {}
    for p, r in w:
        if p.finding:
            f.setdefault(p.finding, []).append(p)
            continue
        print("rejected" if r else "accepted", p.why, "::", p.text)
    print({k: len(v) for k, v in f.items()})
