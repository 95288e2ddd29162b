//! Exhaustive exploration of all sequences of choices by re-execution.

pub struct Chooser {
    path: Vec<(u8, u8)>,
    pos: usize,
    start: usize,
    fixed: usize,
    stopped: bool,
    pub max: usize,
}

static mut C: Chooser = Chooser { path: Vec::new(), pos: 0, start: 0, fixed: 0, stopped: false, max: 0 };

fn c() -> &'static mut Chooser {
    unsafe { &mut C }
}

/// One of `n` alternatives; the first one beyond the depth bound.
pub fn choose(n: u8) -> u8 {
    let c = c();
    if c.stopped {
        return 0;
    }
    if c.pos < c.path.len() {
        let (v, m) = c.path[c.pos];
        if m == 0 && v >= n {
            // There is no such beginning.
            c.stopped = true;
            return 0;
        } else if m == 0 {
            c.path[c.pos].1 = n;
        } else if m != n {
            crate::fail!("the execution is not deterministic: {} instead of {} alternatives", n, m);
        }
        c.pos += 1;
        v
    } else if c.path.len() < c.max {
        c.path.push((0, n));
        c.pos += 1;
        0
    } else {
        0
    }
}

/// Makes every further choice the first alternative.
pub fn stop() {
    c().stopped = true;
}

/// Is what is executed now executed for the first time in this exploration?
pub fn fresh() -> bool {
    let c = c();
    c.pos >= c.start || (c.pos < c.fixed && c.start == c.fixed && c.path[c.pos..c.fixed].iter().all(|x| x.0 == 0))
}

pub fn path() -> Vec<u8> {
    c().path.iter().map(|x| x.0).collect()
}

pub struct Path;
impl std::fmt::Display for Path {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        for x in &c().path {
            write!(f, "{}", x.0)?;
        }
        Ok(())
    }
}

/// Runs `f` once for every sequence of choices up to `depth`.
pub fn all(depth: usize, f: impl FnMut()) {
    all_from(&[], depth, f)
}

/// The same for the sequences with the given beginning.
pub fn all_from(prefix: &[u8], depth: usize, mut f: impl FnMut()) {
    let ch = c();
    ch.path.clear();
    ch.path.reserve(64);
    ch.path.extend(prefix.iter().map(|x| (*x, 0)));
    ch.fixed = prefix.len();
    ch.stopped = false;
    ch.max = depth;
    loop {
        let ch = c();
        ch.pos = 0;
        ch.start = ch.path.len();
        f();
        let ch = c();
        // Choices not reached any more would mean nondeterminism.
        loop {
            if ch.path.len() <= ch.fixed {
                return;
            }
            match ch.path.pop() {
                None => return,
                Some((v, n)) if v + 1 < n => {
                    ch.path.push((v + 1, n));
                    break;
                }
                _ => {}
            }
        }
    }
}
