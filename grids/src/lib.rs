//! Common parts of the exhaustive grids: cases are enumerated, distributed over worker processes
//! and run on the real crate; a failing or crashing case is confirmed in a process of its own.

#![allow(static_mut_refs)]

use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub mod choice;
pub mod probe;
pub mod stacks;

const MSG: usize = 2000;

#[repr(C)]
pub struct Shm {
    evals: AtomicU64,
    distinct: AtomicU64,
    states: AtomicU64,
    transitions: AtomicU64,
    beat: AtomicU64,
    case: AtomicU32,
    viol: AtomicU32,
    msg_len: AtomicU32,
    sub_len: AtomicU32,
    msg: [u8; MSG],
    sub: [u8; 400],
}

#[repr(C)]
struct Shared {
    next: AtomicU64,
    stop: AtomicU32,
}

static mut CONFIRMING: bool = false;

/// Is this the repetition of a case that failed, or a replay?
pub fn confirming() -> bool {
    unsafe { CONFIRMING }
}

static mut CUR: *mut Shm = std::ptr::null_mut();

pub fn shared<T>(n: usize) -> *mut T {
    let len = (std::mem::size_of::<T>() * n + 4095) & !4095;
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut T
    }
}

fn cur() -> &'static mut Shm {
    unsafe { &mut *CUR }
}

struct Fixed<'a>(&'a mut [u8], usize);
impl std::fmt::Write for Fixed<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let n = s.len().min(self.0.len() - self.1);
        self.0[self.1..self.1 + n].copy_from_slice(&s.as_bytes()[..n]);
        self.1 += n;
        Ok(())
    }
}

/// Names the point of the case's inner loops being evaluated.
pub fn at(a: std::fmt::Arguments) {
    let c = cur();
    let mut f = Fixed(&mut c.sub, 0);
    let _ = std::fmt::write(&mut f, a);
    let n = f.1;
    c.sub_len.store(n as u32, SeqCst);
}

/// Counts one evaluation.
pub fn eval(nontrivial: bool) {
    let c = cur();
    c.evals.fetch_add(1, SeqCst);
    c.beat.fetch_add(1, SeqCst);
    if nontrivial {
        c.distinct.fetch_add(1, SeqCst);
    }
}

/// Counts states and transitions of an enumerated model.
pub fn count(states: u64, transitions: u64) {
    cur().states.fetch_add(states, SeqCst);
    cur().transitions.fetch_add(transitions, SeqCst);
}

pub fn beat() {
    cur().beat.fetch_add(1, SeqCst);
}

#[cold]
#[inline(never)]
pub fn fail(a: std::fmt::Arguments) -> ! {
    let c = cur();
    let mut f = Fixed(&mut c.msg, 0);
    let _ = std::fmt::write(&mut f, a);
    let n = f.1;
    c.msg_len.store(n as u32, SeqCst);
    c.viol.store(1, SeqCst);
    unsafe { libc::_exit(77) }
}

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { $crate::fail(format_args!($($t)*)) };
}
#[macro_export]
macro_rules! require {
    ($c:expr, $($t:tt)*) => { if !$c { $crate::fail(format_args!($($t)*)) } };
}
#[macro_export]
macro_rules! at {
    ($($t:tt)*) => { $crate::at(format_args!($($t)*)) };
}

pub struct Case {
    pub id: String,
    pub f: Box<dyn Fn()>,
    fresh: bool,
}

impl Case {
    /// To be run in a process in which nothing else has been run.
    pub fn fresh(mut self) -> Case {
        self.fresh = true;
        self
    }
}

pub fn case(id: impl Into<String>, f: impl Fn() + 'static) -> Case {
    Case { id: id.into(), f: Box::new(f), fresh: false }
}

pub fn arg(n: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned()
}

pub fn thorough() -> bool {
    arg("--tier").as_deref() == Some("thorough")
}

pub fn quiet() {
    unsafe {
        let fd = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(fd, 2);
        libc::close(fd);
        let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &rl);
    }
}

/// What became of a process: None if it went well.
fn verdict(st: i32, s: &Shm) -> Option<String> {
    let sub = String::from_utf8_lossy(&s.sub[..s.sub_len.load(SeqCst) as usize]).into_owned();
    let m = if libc::WIFSIGNALED(st) {
        format!("the process was terminated by signal {}", libc::WTERMSIG(st))
    } else if libc::WEXITSTATUS(st) == 0 {
        return None;
    } else if s.viol.load(SeqCst) != 0 {
        String::from_utf8_lossy(&s.msg[..s.msg_len.load(SeqCst) as usize]).into_owned()
    } else {
        match libc::WEXITSTATUS(st) {
            3 => return Some("NO ANSWER: something needed is missing".into()),
            c => format!("unexpected exit code {}", c),
        }
    };
    Some(format!("{} [{}]", m, sub))
}

fn run_one(c: &Case, s: *mut Shm) -> Option<String> {
    run_all(&[c], s)
}

/// Runs the cases in one new process.
fn run_all(cs: &[&Case], s: *mut Shm) -> Option<String> {
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            quiet();
            CONFIRMING = true;
            CUR = s;
            (*s).viol.store(0, SeqCst);
            (*s).sub_len.store(0, SeqCst);
            for c in cs {
                (c.f)();
            }
            libc::_exit(0);
        }
        let s = &*s;
        let mut t = (s.beat.load(SeqCst), Instant::now());
        loop {
            let mut st = 0;
            if libc::waitpid(pid, &mut st, libc::WNOHANG) == pid {
                return verdict(st, s);
            }
            let b = s.beat.load(SeqCst);
            if b != t.0 {
                t = (b, Instant::now());
            } else if t.1.elapsed() > Duration::from_secs(60) {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
                let sub = String::from_utf8_lossy(&s.sub[..s.sub_len.load(SeqCst) as usize]).into_owned();
                return Some(format!("hang [{}]", sub));
            }
            std::thread::sleep(Duration::from_micros(500));
        }
    }
}

/// Forks, runs `f` in the child and returns the wait status, or None if it hangs. A failure
/// recorded by the child is recorded for the caller.
pub fn in_child(f: impl FnOnce()) -> Option<i32> {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            f();
            libc::_exit(0);
        }
        beat();
        let t = Instant::now();
        let mut nap = 10;
        loop {
            let mut st = 0;
            if libc::waitpid(pid, &mut st, libc::WNOHANG) == pid {
                beat();
                if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 77 {
                    libc::_exit(77);
                }
                return Some(st);
            }
            if t.elapsed() > Duration::from_secs(40) {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
                return None;
            }
            std::thread::sleep(Duration::from_micros(nap));
            nap = (nap * 2).min(500);
        }
    }
}

fn q(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " "))
}
fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| q(s)).collect::<Vec<_>>().join(","))
}

pub fn drive(prop: &str, rule: &str, cases: Vec<Case>) -> ! {
    let prop = arg("--prop").unwrap_or(prop.into());
    std::process::exit(drive_inner(&prop, rule, cases))
}

fn drive_inner(prop: &str, rule: &str, cases: Vec<Case>) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = Instant::now();
    let workers: usize = arg("--workers").and_then(|x| x.parse().ok()).unwrap_or(8);
    let config = arg("--config").unwrap_or("default".into());
    let tier = arg("--tier").unwrap_or("quick".into());
    let viol = arg("--violation").unwrap_or("/tmp/grid-violation.txt".into());
    let bin = std::env::args().next().unwrap();
    let bin = bin.rsplit('/').next().unwrap().to_string();
    let regular = workers;
    let workers = regular + cases.iter().filter(|c| c.fresh).count();
    let ws = shared::<Shm>(workers + 1);
    let w = |i: usize| unsafe { &*ws.add(i) };
    if let Some(f) = arg("--replay") {
        let t = std::fs::read_to_string(f).unwrap();
        let id = t.lines().find_map(|l| l.strip_prefix("case ")).unwrap_or("").to_string();
        let find = |id: &str| cases.iter().find(|c| c.id == id);
        let mut all: Vec<&Case> = t.lines().filter_map(|l| l.strip_prefix("before ")).filter_map(find).collect();
        for c in &cases {
            if c.id == id {
                all.push(c);
                return match run_all(&all, ws) {
                    Some(m) => {
                        println!("reproduced: {}", m);
                        1
                    }
                    None => {
                        println!("not reproduced");
                        0
                    }
                };
            }
        }
        println!("no case {}", id);
        return 2;
    }
    let cases: Vec<Case> = match arg("--case") {
        Some(x) => cases.into_iter().filter(|c| c.id.contains(&x)).collect(),
        None => cases,
    };
    let sh = unsafe { &*shared::<Shared>(1) };
    // 1 + the worker that ran each case.
    let who: &[AtomicU32] = unsafe { std::slice::from_raw_parts(shared::<AtomicU32>(cases.len() + 1), cases.len()) };
    let fresh: Vec<usize> = (0..cases.len()).filter(|j| cases[*j].fresh).collect();
    let workers = regular + fresh.len();
    let mut pids = vec![];
    for i in 0..workers {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                CUR = ws.add(i);
            }
            quiet();
            if i >= regular {
                let j = fresh[i - regular];
                w(i).case.store(j as u32, SeqCst);
                who[j].store(i as u32 + 1, SeqCst);
                (cases[j].f)();
                unsafe { libc::_exit(0) };
            }
            loop {
                let j = sh.next.fetch_add(1, SeqCst) as usize;
                if j >= cases.len() || sh.stop.load(SeqCst) != 0 {
                    break;
                }
                if cases[j].fresh {
                    continue;
                }
                who[j].store(i as u32 + 1, SeqCst);
                w(i).case.store(j as u32, SeqCst);
                w(i).sub_len.store(0, SeqCst);
                beat();
                (cases[j].f)();
            }
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    let mut done = vec![false; workers];
    let mut beats = vec![(0u64, Instant::now()); workers];
    let mut bad: Option<(usize, String)> = None;
    while done.iter().any(|d| !d) {
        for i in 0..workers {
            if done[i] {
                continue;
            }
            let mut st = 0;
            let r = unsafe { libc::waitpid(pids[i], &mut st, libc::WNOHANG) };
            let mut stopped = None;
            if r == pids[i] {
                done[i] = true;
                stopped = verdict(st, w(i));
            } else {
                let b = w(i).beat.load(SeqCst);
                if b != beats[i].0 {
                    beats[i] = (b, Instant::now());
                } else if beats[i].1.elapsed() > Duration::from_secs(90) {
                    stopped = Some("hang".into());
                }
            }
            if let Some(m) = stopped {
                if bad.is_none() {
                    bad = Some((i, m));
                }
                sh.stop.store(1, SeqCst);
                for k in 0..workers {
                    if !done[k] {
                        unsafe {
                            libc::kill(pids[k], libc::SIGKILL);
                            libc::waitpid(pids[k], &mut st, 0);
                        }
                        done[k] = true;
                    }
                }
            }
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    let mut code = 0;
    let mut message = String::new();
    if let Some((i, m)) = bad {
        let j = w(i).case.load(SeqCst) as usize;
        let c = &cases[j];
        let all: Vec<&Case> = (0..=j).filter(|k| who[*k].load(SeqCst) == i as u32 + 1).map(|k| &cases[k]).collect();
        let s = unsafe { ws.add(workers) };
        let mut before = 0;
        let mut again = run_one(c, s).or_else(|| run_one(c, s));
        if again.is_none() && all.len() > 1 {
            // It may need what this worker did before.
            before = all.len() - 1;
            again = run_all(&all, s).or_else(|| run_all(&all, s));
        }
        if again.is_none() && !["hang", "NO ANSWER", "unexpected", "the process was terminated by signal 9 "].iter().any(|x| m.starts_with(x)) {
            // Neither load nor lack of memory makes the code do something else.
            again = Some(format!("{} (once; not when repeated)", m));
        }
        match again {
            Some(m2) if m2.starts_with("NO ANSWER") => {
                code = 2;
                message = m2;
                eprintln!("ERROR {}", message);
            }
            Some(m2) => {
                code = 1;
                message = format!("{}: {}", c.id, m2);
                eprintln!("VIOLATION {}", message);
                let mut t = format!(
                    "property {}\nconfig {}\ntier {}\nbin {}\ncase {}\nmessage {}\n",
                    prop, config, tier, bin, c.id, m2.replace('\n', " ")
                );
                for c in all.iter().take(before) {
                    t += &format!("before {}\n", c.id);
                }
                std::fs::write(&viol, t).unwrap();
            }
            None => {
                code = 2;
                message = format!("{} failed once ({}) but not when repeated", c.id, m);
                eprintln!("ERROR {}", message);
            }
        }
    }
    let sum = |f: &dyn Fn(&Shm) -> u64| (0..workers).map(|i| f(w(i))).sum::<u64>();
    let evals = sum(&|s| s.evals.load(SeqCst));
    let distinct = sum(&|s| s.distinct.load(SeqCst));
    let states = sum(&|s| s.states.load(SeqCst));
    let transitions = sum(&|s| s.transitions.load(SeqCst));
    let n = cases.len();
    let samples: Vec<String> = cases.iter().step_by((n / 6).max(1)).map(|c| c.id.clone()).collect();
    let run = format!("{}: {} cases, {} evaluations, {:.1}s", bin, n, evals, t0.elapsed().as_secs_f64());
    eprintln!("[{} {}] {}", prop, config, run);
    if let Some(o) = arg("--out") {
        let sm = if states > 0 { format!("\"states\":{},\"transitions\":{},", states, transitions) } else { String::new() };
        let j = format!(
            "{{\"config\":{},\"code\":{},\"evaluations\":{},\"distinct_nontrivial\":{},{}\"rule\":{},\"samples\":{},\"runs\":{},\"message\":{},\"wall_s\":{:.2}}}\n",
            q(&config), code, evals, distinct, sm, q(rule), list(&samples), list(&[run]), q(&message), t0.elapsed().as_secs_f64()
        );
        std::fs::write(o, j).unwrap();
    }
    code
}
