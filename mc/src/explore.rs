//! Enumeration of model paths and distribution over worker processes.

use crate::model::*;
use crate::plans::{self, Run};
use crate::real;
use crate::shm::{self, Shared, WorkerShm};
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::time::{Duration, Instant};

/// A unit of work; its paths are enumerated by whichever worker takes it.
#[derive(Clone)]
enum Job {
    /// All paths extending this prefix to the full depth.
    Prefix(Vec<Op>),
    /// One path per transition leaving these states.
    States(usize, usize),
    /// All short cycles at these states, repeated.
    Pump(usize, usize),
}

struct Graph {
    /// (parent, op, depth)
    nodes: Vec<(u32, Op, u16)>,
    transitions: u64,
    truncated: bool,
}

fn key(m: &M) -> u128 {
    let c = m.canon();
    let mut h1 = std::collections::hash_map::DefaultHasher::new();
    1u8.hash(&mut h1);
    c.hash(&mut h1);
    let mut h2 = std::collections::hash_map::DefaultHasher::new();
    2u8.hash(&mut h2);
    c.hash(&mut h2);
    ((h1.finish() as u128) << 64) | h2.finish() as u128
}

impl Graph {
    fn path(&self, mut i: usize) -> Vec<Op> {
        let mut v = vec![];
        while i != 0 {
            v.push(self.nodes[i].1);
            i = self.nodes[i].0 as usize;
        }
        v.reverse();
        v
    }

    fn build(cfg: &Rc<Cfg>, depth: usize, cap: usize) -> Graph {
        // Observations are irrelevant for the state graph.
        let mut quiet = (**cfg).clone();
        quiet.mask = 0;
        let quiet = Rc::new(quiet);
        let mut g = Graph { nodes: vec![(0, Op::End, 0)], transitions: 0, truncated: false };
        let mut seen: HashMap<u128, u32> = HashMap::new();
        let m0 = M::new(quiet.clone());
        seen.insert(key(&m0), 0);
        let mut layer = vec![(0u32, m0)];
        for d in 1..=depth {
            let mut next = vec![];
            for (i, m) in &layer {
                for op in m.enabled() {
                    let mut n = m.clone();
                    n.obs.clear();
                    n.step(op);
                    n.obs.clear();
                    g.transitions += 1;
                    if n.aborted.is_some() {
                        continue;
                    }
                    let k = key(&n);
                    if seen.contains_key(&k) {
                        continue;
                    }
                    if g.nodes.len() >= cap {
                        g.truncated = true;
                        continue;
                    }
                    let id = g.nodes.len() as u32;
                    seen.insert(k, id);
                    g.nodes.push((*i, op, d as u16));
                    next.push((id, n));
                }
            }
            layer = next;
        }
        g
    }
}

fn at(cfg: &Rc<Cfg>, path: &[Op]) -> M {
    let mut m = M::new(cfg.clone());
    for o in path {
        m.step(*o);
    }
    m
}

struct Exec<'a> {
    run: &'a Run,
    shm: &'a WorkerShm,
    initialised: bool,
    quota: u64,
}

impl<'a> Exec<'a> {
    /// Completes a path deterministically and runs it on the crate.
    fn leaf(&mut self, mut m: M, mut script: Vec<Op>) {
        if m.aborted.is_none() && !m.wind_down(&mut script) {
            panic!("wind-down does not terminate after {:?}", script);
        }
        if m.aborted.is_some() && !m.cfg.aborts {
            return;
        }
        self.execute(&script, &m);
    }

    fn execute(&mut self, script: &[Op], m: &M) {
        let r = self.run;
        if script.len() > shm::MAX_SCRIPT {
            return;
        }
        self.shm.set_script(script);
        self.shm.beat.fetch_add(1, SeqCst);
        if let Some(n) = m.aborted {
            self.shm.aborts.fetch_add(1, SeqCst);
            if let Err(e) = run_doomed(r, self.shm, script, &m.obs, n) {
                self.shm.set_msg(&e);
                unsafe { libc::_exit(real::EXIT_VIOLATION) };
            }
        } else {
            if !self.initialised {
                self.initialised = true;
                init(r, self.shm);
            }
            run_real(r, script, &m.obs, None);
        }
        self.shm.paths.fetch_add(1, SeqCst);
        self.shm.steps.fetch_add(script.len() as u64, SeqCst);
        self.shm.obs.fetch_add(m.obs.len() as u64, SeqCst);
    }

    fn dfs(&mut self, m: M, script: &mut Vec<Op>, depth: usize) {
        if self.quota == 0 {
            return;
        }
        if depth == 0 || m.ended || m.aborted.is_some() {
            self.leaf(m, script.clone());
            return;
        }
        for op in m.enabled() {
            let mut n = m.clone();
            n.step(op);
            if n.aborted.is_some() && !n.cfg.aborts {
                continue;
            }
            script.push(op);
            self.dfs(n, script, depth - 1);
            script.pop();
        }
    }

    fn pump(&mut self, base: &M, prefix: &[Op]) {
        let k0 = key(base);
        let mut todo: Vec<(M, Vec<Op>)> = vec![(base.clone(), vec![])];
        while let Some((m, ops)) = todo.pop() {
            for op in m.enabled() {
                let mut n = m.clone();
                n.obs.clear();
                n.step(op);
                if n.aborted.is_some() || n.ended {
                    continue;
                }
                let mut o = ops.clone();
                o.push(op);
                if key(&n) == k0 {
                    let mut script = prefix.to_vec();
                    let mut p = base.clone();
                    for _ in 0..self.run.pump_reps {
                        for x in &o {
                            p.step(*x);
                            script.push(*x);
                        }
                    }
                    self.leaf(p, script);
                } else if o.len() < self.run.pump_len {
                    todo.push((n, o));
                }
            }
        }
    }

    fn job(&mut self, cfg: &Rc<Cfg>, g: &Option<Graph>, j: &Job) {
        match j {
            Job::Prefix(p) => {
                let m = at(cfg, p);
                let mut s = p.clone();
                let d = self.run.depth - p.len();
                self.dfs(m, &mut s, d);
            }
            Job::States(a, b) => {
                let g = g.as_ref().unwrap();
                for i in *a..*b {
                    let p = g.path(i);
                    let m = at(cfg, &p);
                    for op in m.enabled() {
                        let mut n = m.clone();
                        n.step(op);
                        let mut s = p.clone();
                        s.push(op);
                        self.leaf(n, s);
                    }
                }
            }
            Job::Pump(a, b) => {
                let g = g.as_ref().unwrap();
                for i in *a..*b {
                    if g.nodes[i].2 as usize <= self.run.pump_depth {
                        let p = g.path(i);
                        let m = at(cfg, &p);
                        self.pump(&m, &p);
                    }
                }
            }
        }
    }
}

fn init(r: &Run, s: *const WorkerShm) {
    match r.n {
        0 => real::init::<0>(s, r.cfg.threads, r.cfg.k),
        _ => real::init::<60>(s, r.cfg.threads, r.cfg.k),
    }
}
fn run_real(r: &Run, script: &[Op], exp: &[Obs], doom: Option<usize>) {
    match r.n {
        0 => real::run::<0>(script, exp, r.cfg.mask, r.mix, r.cfg.threads, doom),
        _ => real::run::<60>(script, exp, r.cfg.mask, r.mix, r.cfg.threads, doom),
    }
}

/// Runs a script whose last operation has to terminate the process.
fn run_doomed(r: &Run, s: &WorkerShm, script: &[Op], exp: &[Obs], n: usize) -> Result<(), String> {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            silence();
            let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &rl);
            init(r, s);
            run_real(r, script, exp, Some(n));
            libc::_exit(0);
        }
        match wait_for(pid, Duration::from_secs(60)) {
            None => Err("a step that must terminate the process hangs".into()),
            Some(st) if libc::WIFSIGNALED(st) => {
                let sig = libc::WTERMSIG(st);
                if [libc::SIGABRT, libc::SIGILL, libc::SIGTRAP].contains(&sig) {
                    Ok(())
                } else if sig == libc::SIGKILL {
                    libc::_exit(99)
                } else {
                    Err(format!("a fatal step ended the process by signal {}", sig))
                }
            }
            Some(st) => {
                let code = libc::WEXITSTATUS(st);
                Err(if s.viol.load(SeqCst) != 0 { s.get_msg() } else { format!("exit code {}", code) })
            }
        }
    }
}

fn silence() {
    unsafe {
        let fd = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(fd, 2);
        libc::close(fd);
    }
}

fn wait_for(pid: i32, limit: Duration) -> Option<i32> {
    let t = Instant::now();
    let mut st = 0;
    let mut nap = 20;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
        if r == pid {
            return Some(st);
        }
        if t.elapsed() > limit {
            unsafe {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
            }
            return None;
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 2).min(2000);
    }
}

/// Runs one script in a fresh process; Some(message) if it goes wrong.
fn replay_once(r: &Run, script: &[Op], s: &WorkerShm) -> Option<String> {
    let cfg = Rc::new(r.cfg.clone());
    let mut m = M::new(cfg);
    let mut used = vec![];
    for o in script {
        if m.ended || m.aborted.is_some() || !m.could(*o) {
            return None;
        }
        m.step(*o);
        used.push(*o);
    }
    s.viol.store(0, SeqCst);
    s.set_script(&used);
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            silence();
            if let Some(n) = m.aborted {
                if let Err(e) = run_doomed(r, s, &used, &m.obs, n) {
                    s.set_msg(&e);
                    libc::_exit(real::EXIT_VIOLATION);
                }
            } else {
                init(r, s);
                run_real(r, &used, &m.obs, None);
            }
            libc::_exit(0);
        }
        verdict(wait_for(pid, Duration::from_secs(60)), s)
    }
}

fn verdict(st: Option<i32>, s: &WorkerShm) -> Option<String> {
    match st {
        None => Some("hang".into()),
        Some(st) if libc::WIFSIGNALED(st) => {
            Some(format!("the process was terminated by signal {}", libc::WTERMSIG(st)))
        }
        Some(st) if libc::WEXITSTATUS(st) == 0 => None,
        Some(_) if s.viol.load(SeqCst) != 0 => Some(s.get_msg()),
        Some(st) => Some(format!("unexpected exit code {}", libc::WEXITSTATUS(st))),
    }
}

#[derive(Default)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub paths: u64,
    pub steps: u64,
    pub obs: u64,
    pub aborts: u64,
    pub pumped: u64,
    pub truncated: bool,
    pub samples: Vec<String>,
    pub runs: Vec<String>,
}

pub enum Outcome {
    Ok,
    Violation(Vec<Op>, String),
    Error(String),
}

fn jobs(r: &Run, cfg: &Rc<Cfg>, g: &Option<Graph>) -> Vec<Job> {
    let mut v = vec![];
    if r.depth > 0 {
        let mut layer: Vec<(M, Vec<Op>)> = vec![(M::new(cfg.clone()), vec![])];
        let mut d = 0;
        while d < r.depth && layer.len() < 400 {
            let mut next = vec![];
            for (m, p) in layer {
                if m.ended || m.aborted.is_some() {
                    next.push((m, p));
                    continue;
                }
                for op in m.enabled() {
                    let mut n = m.clone();
                    n.step(op);
                    if n.aborted.is_some() && !cfg.aborts {
                        continue;
                    }
                    let mut q = p.clone();
                    q.push(op);
                    next.push((n, q));
                }
            }
            layer = next;
            d += 1;
        }
        v.extend(layer.into_iter().map(|x| Job::Prefix(x.1)));
    }
    if let Some(g) = g {
        let n = g.nodes.len();
        if r.pump_len > 0 {
            let lim = g.nodes.iter().filter(|x| x.2 as usize <= r.pump_depth).count();
            for a in (0..lim).step_by(4) {
                v.push(Job::Pump(a, (a + 4).min(lim)));
            }
        }
        for a in (0..n).step_by(50) {
            v.push(Job::States(a, (a + 50).min(n)));
        }
    }
    v
}

pub fn explore(r: &Run, workers: usize, stats: &mut Stats) -> Outcome {
    let t0 = Instant::now();
    let cfg = Rc::new(r.cfg.clone());
    let g = if r.graph_depth > 0 { Some(Graph::build(&cfg, r.graph_depth, r.graph_cap)) } else { None };
    let tg = t0.elapsed().as_secs_f64();
    let js = jobs(r, &cfg, &g);
    let shared = unsafe { &*shm::map::<Shared>(1) };
    let ws: &[WorkerShm] = unsafe { std::slice::from_raw_parts(shm::map::<WorkerShm>(workers + 1), workers + 1) };
    // Who did which job when: 1 + worker for each job, in the order of the jobs.
    let who: &[AtomicU32] = unsafe { std::slice::from_raw_parts(shm::map::<AtomicU32>(js.len() + 1), js.len()) };
    let mut pids = vec![];
    for i in 0..workers {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            silence();
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            let mut e = Exec { run: r, shm: &ws[i], initialised: false, quota: u64::MAX };
            loop {
                let j = shared.next_job.fetch_add(1, SeqCst) as usize;
                if j >= js.len() || shared.stop.load(SeqCst) != 0 {
                    break;
                }
                e.shm.run.store(j as u32, SeqCst);
                who[j].store(i as u32 + 1, SeqCst);
                e.job(&cfg, &g, &js[j]);
            }
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    let mut alive = workers;
    let mut done = vec![false; workers];
    let mut beats = vec![(0u64, Instant::now()); workers];
    let mut failed: Option<(usize, String)> = None;
    while alive > 0 {
        for i in 0..workers {
            if done[i] {
                continue;
            }
            let mut st = 0;
            let rc = unsafe { libc::waitpid(pids[i], &mut st, libc::WNOHANG) };
            if rc == pids[i] {
                done[i] = true;
                alive -= 1;
                if let Some(m) = verdict(Some(st), &ws[i]) {
                    if failed.is_none() {
                        failed = Some((i, m));
                    }
                    shared.stop.store(1, SeqCst);
                    for k in 0..workers {
                        if !done[k] {
                            unsafe { libc::kill(pids[k], libc::SIGKILL) };
                        }
                    }
                }
                continue;
            }
            let b = ws[i].beat.load(SeqCst);
            if b != beats[i].0 {
                beats[i] = (b, Instant::now());
            } else if beats[i].1.elapsed() > Duration::from_secs(90) {
                unsafe { libc::kill(pids[i], libc::SIGKILL) };
                if failed.is_none() {
                    failed = Some((i, "hang".into()));
                }
            }
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    for w in ws.iter().take(workers) {
        stats.paths += w.paths.load(SeqCst);
        stats.steps += w.steps.load(SeqCst);
        stats.obs += w.obs.load(SeqCst);
        stats.aborts += w.aborts.load(SeqCst);
    }
    if let Some(g) = &g {
        stats.states += g.nodes.len() as u64;
        stats.transitions += g.transitions;
        stats.truncated |= g.truncated;
    }
    for w in ws.iter().take(workers.min(2)) {
        if w.script_len.load(SeqCst) > 0 && stats.samples.len() < 12 {
            stats.samples.push(format!("{}: {}", r.name, show(&w.get_script(), 60)));
        }
    }
    let paths: u64 = ws.iter().take(workers).map(|w| w.paths.load(SeqCst)).sum();
    stats.runs.push(format!(
        "{}: all paths to depth {}; state graph to depth {} ({} states, {} transitions{}){}; {} executions, {:.1}s (graph {:.1}s)",
        r.name,
        r.depth,
        r.graph_depth,
        g.as_ref().map_or(0, |g| g.nodes.len()),
        g.as_ref().map_or(0, |g| g.transitions),
        if g.as_ref().is_some_and(|g| g.truncated) { ", capped" } else { "" },
        if r.pump_len > 0 {
            format!("; cycles of up to {} steps at depth <= {} repeated {} times", r.pump_len, r.pump_depth, r.pump_reps)
        } else {
            String::new()
        },
        paths,
        t0.elapsed().as_secs_f64(),
        tg,
    ));
    match failed {
        None => Outcome::Ok,
        Some((i, msg)) => {
            let script = ws[i].get_script();
            let a = replay_once(r, &script, &ws[workers]);
            let b = replay_once(r, &script, &ws[workers]);
            match (a, b) {
                (Some(m), Some(_)) => Outcome::Violation(script, m),
                _ => {
                    // Not visible in isolation: repeat the whole job in a fresh process, then
                    // everything that the worker did.
                    let j = ws[i].run.load(SeqCst) as usize;
                    let all: Vec<usize> = (0..=j).filter(|k| who[*k].load(SeqCst) == i as u32 + 1).collect();
                    for part in [&all[all.len() - 1..], &all[all.len() - 1..], &all[..], &all[..]] {
                        let s = &ws[workers];
                        s.viol.store(0, SeqCst);
                        let pid = unsafe { libc::fork() };
                        if pid == 0 {
                            silence();
                            let mut e = Exec { run: r, shm: s, initialised: false, quota: u64::MAX };
                            for k in part {
                                e.job(&cfg, &g, &js[*k]);
                            }
                            unsafe { libc::_exit(0) };
                        }
                        if let Some(m) = verdict(wait_for(pid, Duration::from_secs(200)), s) {
                            return Outcome::Violation(
                                s.get_script(),
                                format!("{} (only after the preceding histories of {} jobs)", m, part.len()),
                            );
                        }
                    }
                    if msg == "hang" || msg.ends_with("signal 9") || msg.starts_with("unexpected") {
                        return Outcome::Error(format!(
                            "a worker failed ({}) and the failure could not be reproduced; script: {}",
                            msg,
                            show(&script, 200)
                        ));
                    }
                    // Neither load nor lack of memory makes the code do something else.
                    Outcome::Violation(script, format!("{} (once; not when repeated)", msg))
                }
            }
        }
    }
}

pub fn show(s: &[Op], max: usize) -> String {
    let mut v: Vec<String> = s.iter().take(max).map(|o| format!("{:?}", o).replace(' ', "")).collect();
    if s.len() > max {
        v.push(format!("... ({} operations)", s.len()));
    }
    v.join(" ")
}

/// Shortens a failing script while it keeps failing.
fn minimise(r: &Run, script: Vec<Op>, msg: String) -> (Vec<Op>, String) {
    let ws: &[WorkerShm] = unsafe { std::slice::from_raw_parts(shm::map::<WorkerShm>(1), 1) };
    let mut best = (script, msg);
    let t = Instant::now();
    let mut progress = true;
    while progress && t.elapsed() < Duration::from_secs(20) {
        progress = false;
        let n = best.0.len();
        for i in 0..n.min(60) {
            let mut s: Vec<Op> = best.0.clone();
            s.remove(i);
            // Re-complete: keep the longest valid part, then wind down.
            let cfg = Rc::new(r.cfg.clone());
            let mut m = M::new(cfg);
            let mut q = vec![];
            let mut ok = true;
            for o in &s {
                if m.ended || m.aborted.is_some() {
                    break;
                }
                if !m.could(*o) {
                    ok = false;
                    break;
                }
                m.step(*o);
                q.push(*o);
            }
            if !ok || (m.aborted.is_none() && !m.wind_down(&mut q)) {
                continue;
            }
            if q.len() >= best.0.len() || (m.aborted.is_some() && !r.cfg.aborts) {
                continue;
            }
            if let Some(msg) = replay_once(r, &q, &ws[0]) {
                best = (q, msg);
                progress = true;
                break;
            }
        }
    }
    best
}

pub fn main(
    prop: &str,
    tier: &str,
    workers: usize,
    out: Option<&str>,
    only: Option<&str>,
    config: &str,
    replay: Option<&str>,
    viol: &str,
) -> i32 {
    let t0 = Instant::now();
    let runs = plans::plan(prop, tier, config);
    if let Some(f) = replay {
        return do_replay(&runs, f);
    }
    let mut stats = Stats::default();
    let mut code = 0;
    let mut message = String::new();
    for r in &runs {
        if only.is_some_and(|o| o != r.name) {
            continue;
        }
        let o = explore(r, workers, &mut stats);
        eprintln!("[{} {}] {}", prop, config, stats.runs.last().unwrap());
        match o {
            Outcome::Ok => {}
            Outcome::Error(e) => {
                eprintln!("ERROR {}", e);
                code = 2;
                message = e;
                break;
            }
            Outcome::Violation(s, m) => {
                let (s, m) = minimise(r, s, m);
                let cfg = Rc::new(r.cfg.clone());
                let mut t = String::new();
                t.push_str(&format!("property {}\nconfig {}\ntier {}\nrun {}\n", prop, config, tier, r.name));
                t.push_str(&format!("script {}\n", s.iter().map(|o| format!("{:?}", o).replace(' ', "")).collect::<Vec<_>>().join(" ")));
                t.push_str(&format!("message {}\n", m));
                t.push_str("expected observations:\n");
                for o in at(&cfg, &s).obs.iter().take(400) {
                    t.push_str(&format!("  {:?}\n", o));
                }
                std::fs::write(viol, t).unwrap();
                eprintln!("VIOLATION in run {}: {}\n  script: {}", r.name, m, show(&s, 100));
                code = 1;
                message = m;
                break;
            }
        }
    }
    if let Some(o) = out {
        let q = |s: &str| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " "));
        let list = |v: &[String]| format!("[{}]", v.iter().map(|s| q(s)).collect::<Vec<_>>().join(","));
        let j = format!(
            "{{\"config\":{},\"code\":{},\"states\":{},\"transitions\":{},\"paths\":{},\"steps\":{},\"observations\":{},\"aborting_paths\":{},\"capped\":{},\"samples\":{},\"runs\":{},\"message\":{},\"wall_s\":{:.2}}}\n",
            q(config), code, stats.states, stats.transitions, stats.paths, stats.steps, stats.obs, stats.aborts,
            stats.truncated, list(&stats.samples), list(&stats.runs), q(&message), t0.elapsed().as_secs_f64()
        );
        std::fs::write(o, j).unwrap();
    }
    code
}

fn do_replay(runs: &[Run], f: &str) -> i32 {
    let t = std::fs::read_to_string(f).unwrap();
    let field = |n: &str| {
        t.lines().find_map(|l| l.strip_prefix(n).and_then(|l| l.strip_prefix(' '))).unwrap_or("").to_string()
    };
    let name = field("run");
    let script: Vec<Op> = field("script").split_whitespace().map(|s| Op::parse(s).expect("bad op")).collect();
    let ws: &[WorkerShm] = unsafe { std::slice::from_raw_parts(shm::map::<WorkerShm>(1), 1) };
    for r in runs.iter().filter(|r| r.name == name) {
        return match replay_once(r, &script, &ws[0]) {
            Some(m) => {
                println!("reproduced: {}", m);
                1
            }
            None => {
                println!("not reproduced on its own; repeating the run");
                match explore(r, 8, &mut Stats::default()) {
                    Outcome::Violation(_, m) => {
                        println!("reproduced: {}", m);
                        1
                    }
                    _ => {
                        println!("not reproduced");
                        0
                    }
                }
            }
        };
    }
    println!("no run named {}", name);
    2
}
