//! Which alphabets, bounds and observations decide which property.

use crate::model::*;

pub struct Run {
    pub name: &'static str,
    pub cfg: Cfg,
    /// Padding of values: 0 travels in a register, 60 through memory.
    pub n: usize,
    /// Stack kinds.
    pub mix: u32,
    pub depth: usize,
    pub graph_depth: usize,
    pub graph_cap: usize,
    pub pump_len: usize,
    pub pump_depth: usize,
    pub pump_reps: usize,
}

const UNWIND: bool = cfg!(feature = "unwind");

pub fn base(name: &'static str, mask: u32, ops: &'static [&'static str]) -> Run {
    Run {
        name,
        cfg: Cfg {
            k: 2,
            threads: 1,
            max_frames: 10,
            max_switches: 0,
            unwind: UNWIND,
            ops,
            aborts: false,
            mask,
        },
        n: 0,
        mix: if cfg!(feature = "default-stack") { 2 } else { 1 },
        depth: 0,
        graph_depth: 0,
        graph_cap: 400_000,
        pump_len: 0,
        pump_depth: 0,
        pump_reps: 0,
    }
}


impl Run {
    fn paths(mut self, quick: bool, dq: usize, dt: usize) -> Run {
        self.depth = if quick { dq } else { dt };
        self
    }
    fn graph(mut self, quick: bool, dq: usize, dt: usize) -> Run {
        self.graph_depth = if quick { dq } else { dt };
        self.graph_cap = if quick { 200_000 } else { 1_500_000 };
        self
    }
    fn pump(mut self, len: usize, depth: usize, reps: usize) -> Run {
        self.pump_len = len;
        self.pump_depth = depth;
        self.pump_reps = reps;
        self
    }
    fn k(mut self, k: usize) -> Run {
        self.cfg.k = k;
        self
    }
    fn n(mut self, n: usize) -> Run {
        self.n = n;
        self
    }
    fn mix(mut self, mix: u32) -> Run {
        self.mix = mix;
        self
    }
    fn frames(mut self, f: usize) -> Run {
        self.cfg.max_frames = f;
        self
    }
    fn threads(mut self, t: usize, switches: u32) -> Run {
        self.cfg.threads = t;
        self.cfg.max_switches = switches;
        self
    }
    fn aborts(mut self) -> Run {
        self.cfg.aborts = true;
        self
    }
    fn named(mut self, n: &'static str) -> Run {
        self.name = n;
        self
    }
}

pub fn plan(prop: &str, tier: &str, config: &str) -> Vec<Run> {
    let q = tier != "thorough";
    let debug = cfg!(debug_assertions);
    // Debug builds execute more slowly and differ little: one step less.
    let d = if debug { 1 } else { 0 };
    let _ = config;
    let v = match prop {
        "C01" => vec![
            base("values", M_CTL, &["Suspend", "DropCo"]).k(2).paths(q, 11 - d, 14 - d).graph(q, 14, 20).pump(4, 6, 300),
            base("three", M_CTL, &["Suspend", "Move"]).k(3).n(60).paths(q, 9 - d, 11 - d).graph(q, 14, 20).pump(3, 8, 300),
            base("stacks", M_CTL, &["Suspend", "OnStack", "OnParent", "Own", "DropCo"]).k(2).n(60).paths(q, 8 - d, 10 - d).graph(q, 10, 14).pump(3, 6, 70),
            base("panics", M_CTL, &["Suspend", "Panic", "Catch", "Force", "TakeStack"]).k(2).paths(q, 7 - d, 9 - d).graph(q, 9, 12).pump(4, 5, 300),
                base("unwinding", M_CTL, &["Suspend", "GuardOps", "Panic", "Force", "OnParent"]).k(2).n(60).paths(q, 6 - d, 8 - d).graph(q, 9, 11),
        ],
        "C03" => {
            let m = M_LIFE | M_EXC | M_FRC | M_STK;
            vec![
                base("life", m | M_DROP, &["Suspend", "Panic", "Force", "DropCo", "TakeStack"]).k(2).paths(q, 7 - d, 9 - d).graph(q, 10, 14).pump(4, 5, 300),
                base("reset", m, &["Suspend", "Panic", "Force", "Reset", "TakeStack", "Catch"]).k(1).n(60).mix(1).paths(q, 9 - d, 11 - d).graph(q, 12, 18).pump(4, 6, 300),
                base("bombs", m | M_DROP, &["Suspend", "NewBomb", "Force", "Catch", "Guard", "Bomb"]).k(1).paths(q, 8 - d, 10 - d).graph(q, 9, 11),
                base("unwinding", m | M_DROP, &["Suspend", "GuardOps", "Panic", "Force", "TakeStack", "Reset"]).k(2).mix(1).paths(q, 6 - d, 7 - d).graph(q, 9, 11),
            ]
        }
        "C04" => {
            let m = M_EXC | M_CTL | M_LIFE;
            vec![
                base("propagate", m, &["Suspend", "Panic", "Catch"]).k(2).paths(q, 8 - d, 10 - d).graph(q, 12, 16).pump(4, 6, 300),
                base("stacks", m, &["Suspend", "Panic", "Catch", "OnStack", "OnParent"]).k(2).n(60).paths(q, 7 - d, 9 - d).graph(q, 9, 11).pump(4, 6, 300),
                base("dtors", m, &["Suspend", "Panic", "Catch", "GuardOps", "Own", "OnStack", "Force"]).k(2).paths(q, 6 - d, 8 - d).graph(q, 8, 10),
                base("three", m, &["Suspend", "Panic", "OnParent"]).k(3).paths(q, 8 - d, 10 - d).graph(q, 12, 16),
            ]
        }
        "C05" => {
            let m = M_DROP | M_STK;
            vec![
                base("locals", m, &["Suspend", "Guard", "Bomb", "Panic", "Force", "DropCo"]).k(1).n(60).paths(q, 8 - d, 10 - d).graph(q, 12, 16).pump(4, 6, 300),
                base("nested", m, &["Suspend", "Own", "Guard", "Panic", "Force", "DropCo", "NewBomb", "TakeStack"]).k(2).paths(q, 6 - d, 8 - d).graph(q, 8, 11).pump(3, 4, 300),
                base("refused", M_DROP, &["NewHuge", "Suspend", "Own", "Guard", "Catch", "DropCo"]).k(1).n(60).paths(q, 6 - d, 8 - d).graph(q, 8, 10),
                base("dtors", m, &["Suspend", "GuardOps", "Bomb", "Catch", "Force", "DropCo", "OnStack", "OnParent"]).k(2).paths(q, 6 - d, 7 - d).graph(q, 7, 9),
            ]
        }
        "C06" => {
            let m = M_FRC | M_EXC | M_LIFE | M_CTL;
            vec![
                base("force", m | M_DROP, &["Suspend", "Force", "Catch", "Panic", "Bomb"]).k(1).paths(q, 9 - d, 11 - d).graph(q, 13, 17).pump(4, if q { 7 } else { 8 }, 300),
                base("two", m, &["Suspend", "Force", "Catch", "Panic", "Own", "NewBomb"]).k(2).n(60).paths(q, 7 - d, 8 - d).graph(q, 9, 12).pump(4, 6, 300),
                base("deep", m, &["Suspend", "Force", "Catch", "GuardOps", "OnStack", "OnParent", "Panic"]).k(2).paths(q, 6 - d, 8 - d).graph(q, 8, 10),
                base("kept", m | M_DROP, &["Suspend", "Force", "Catch", "Keep", "Panic"]).k(2).paths(q, 6 - d, 8 - d).graph(q, 16, 19),
                base("swallow-on-drop", m, &["Suspend", "DropCo", "Catch", "NewBomb"]).k(1).frames(6).paths(q, 7, 8).graph(q, 10, 13).aborts(),
            ]
        }
        "C07" => {
            let m = M_STK | M_WHERE | M_MEM;
            vec![
                base("release", m | M_DROP, &["Suspend", "DropCo", "TakeStack", "Force", "Panic", "Guard"]).k(2).mix(1).paths(q, 6 - d, 8 - d).graph(q, 9, 12).pump(4, 5, 70),
                base("refused", m, &["NewHuge", "Suspend", "TakeStack", "Catch", "OnStack", "OnParent", "DropCo"]).k(1).paths(q, 6 - d, 8 - d).graph(q, 8, 10).pump(3, 5, 70),
                base("others", m, &["Suspend", "DropCo", "TakeStack", "Own", "OnStack", "OnParent", "Panic"]).k(2).n(60).paths(q, 6 - d, 8 - d).graph(q, 8, 10).pump(3, 4, 70),
                base("reset", m, &["Suspend", "Reset", "TakeStack", "Force", "Bomb", "NewBomb", "Catch"]).k(1).mix(1).paths(q, 7 - d, 9 - d).graph(q, 10, 13).pump(4, 5, 70),
                base("unwinding", m, &["Suspend", "GuardOps", "Panic", "TakeStack", "DropCo", "OnStack"]).k(2).paths(q, 6 - d, 7 - d).graph(q, 8, 10),
            ]
        }
        "C08" => {
            let m = M_CTL | M_EXC | M_WHERE | M_STK | M_FRC;
            vec![
                base("nest", m, &["OnStack", "Suspend", "Panic", "Catch"]).k(1).paths(q, 9 - d, 11 - d).graph(q, 12, 15).pump(4, 6, 70),
                base("mixed", m, &["OnStack", "OnParent", "Suspend", "Panic", "Force", "DropCo"]).k(2).n(60).paths(q, 7 - d, 8 - d).graph(q, 9, 11).pump(4, 5, 70),
                base("mem", m | M_MEM, &["OnStack", "OnParent", "Suspend", "Panic", "DropCo"]).k(1).paths(q, 7 - d, 9 - d).graph(q, 9, 12),
                base("deep", m | M_DROP, &["OnStack", "Suspend", "GuardOps", "Bomb", "Own", "Panic"]).k(1).paths(q, 7 - d, 8 - d).graph(q, 8, 10),
            ]
        }
        "C09" => {
            let m = M_CTL | M_EXC | M_WHERE | M_MEM;
            vec![
                base("parents", m, &["OnParent", "Suspend", "Panic", "Catch", "DropCo"]).k(2).paths(q, 7 - d, 8 - d).graph(q, 10, 13).pump(4, 6, 70),
                base("three", m, &["OnParent", "Suspend"]).k(3).n(60).paths(q, 9 - d, 11 - d).graph(q, 14, 18).pump(4, 7, 70),
                base("mixed", m, &["OnParent", "OnStack", "Suspend", "Panic", "Force", "Own", "TakeStack"]).k(2).paths(q, 6 - d, 8 - d).graph(q, 8, 10),
                base("unwinding", m, &["OnParent", "Suspend", "GuardOps", "Panic", "Force", "OnStack"]).k(2).n(60).paths(q, 6 - d, 7 - d).graph(q, 8, 10),
            ]
        }
        "C10" => {
            let m = M_MEM | M_CTL;
            vec![
                base("locals", m, &["Suspend", "Panic", "Catch", "OnStack", "OnParent", "Force"]).k(2).paths(q, 6 - d, 8 - d).graph(q, 8, 10),
            ]
        }
        "C13" => {
            let m = M_TRAP | M_CTL | M_EXC | M_LIFE | M_WHERE | M_STK;
            vec![
                base("trap", m, &["Trap", "Suspend", "Panic", "TakeStack"]).k(2).mix(1).paths(q, 7 - d, 9 - d).graph(q, 9, 12).pump(4, 6, 70),
                base("unwind", m, &["Trap", "Suspend", "Force", "DropCo", "Catch", "Own", "Bomb"]).k(2).n(60).mix(1).paths(q, 6 - d, 7 - d).graph(q, 8, 10),
                base("stacks", m, &["Trap", "Suspend", "OnStack", "OnParent", "GuardOps", "Panic"]).k(2).mix(1).paths(q, 6 - d, 8 - d).graph(q, 8, 10),
            ]
        }
        "C14" => {
            let m = M_ACC;
            vec![
                base("who", m, &["Suspend", "Panic", "TakeStack", "DropCo", "OnStack", "OnParent"]).k(3).paths(q, 7 - d, 9 - d).graph(q, 9, 11).pump(3, 5, 70),
                base("overflow", m | M_TRAP, &["Trap", "Suspend", "TakeStack", "OnStack", "OnParent"]).k(2).mix(1).paths(q, 7 - d, 9 - d).graph(q, 9, 11),
                base("owned", m, &["Suspend", "Own", "TakeStack", "Force", "Panic", "DropCo", "OnStack", "OnParent", "Catch"]).k(2).mix(1).n(60).paths(q, 6 - d, 8 - d).graph(q, 9, 11),
                base("reset", m, &["Suspend", "Reset", "TakeStack", "Force", "Panic", "OnStack", "OnParent", "Catch"]).k(2).mix(1).n(60).paths(q, 6 - d, 8 - d).graph(q, 9, 11),
                base("unwinding", m, &["Suspend", "GuardOps", "Panic", "OnParent", "OnStack", "Force"]).k(2).paths(q, 6 - d, 7 - d).graph(q, 8, 10),
            ]
        }
        "C15" => {
            let m = M_BT;
            vec![
                base("chain", m, &["Suspend", "OnStack", "OnParent", "Panic", "Catch"]).k(2).paths(q, 6 - d, 8 - d).graph(q, 8, 10).pump(3, 5, 20),
                base("three", m, &["Suspend", "OnParent"]).k(3).n(60).paths(q, 8 - d, 9 - d).graph(q, 12, 16),
                base("unwinding", m, &["Suspend", "GuardOps", "Force", "Panic", "Own", "DropCo"]).k(2).paths(q, 6 - d, 7 - d).graph(q, 8, 10),
                base("recovery", m, &["Trap", "Suspend", "OnStack", "OnParent", "TakeStack", "Catch", "Panic", "Force"]).k(2).n(60).mix(1).paths(q, 6 - d, 7 - d).graph(q, 8, 10),
            ]
        }
        "C16" => {
            let m = M_FP;
            vec![
                base("chain", m, &["Suspend", "OnStack", "OnParent", "Panic", "Catch"]).k(2).paths(q, 7 - d, 9 - d).graph(q, 9, 11).pump(3, 5, 20),
                base("three", m, &["Suspend", "OnParent"]).k(3).n(60).paths(q, 9 - d, 11 - d).graph(q, 12, 16),
                base("unwinding", m, &["Suspend", "GuardOps", "Force", "Panic", "Own", "DropCo"]).k(2).paths(q, 7 - d, 8 - d).graph(q, 8, 10),
                base("recovery", m, &["Trap", "Suspend", "OnStack", "OnParent", "TakeStack", "Catch", "Panic", "Force"]).k(2).n(60).mix(1).paths(q, 6 - d, 7 - d).graph(q, 8, 10),
            ]
        }
        "C18" => {
            let m = M_CTL | M_EXC | M_FRC | M_DROP | M_STK | M_WHERE | M_LIFE;
            vec![
                base("two", m, &["Suspend", "Force", "Panic", "DropCo"]).k(2).threads(2, 3).paths(q, 6 - d, 8 - d).graph(q, 8, 10),
                base("parent", m | M_MEM, &["Suspend", "OnParent", "OnStack", "Guard", "DropCo"]).k(2).n(60).threads(2, 3).paths(q, 6 - d, 7 - d).graph(q, 8, 10),
                base("three", m | M_BT | M_ACC, &["Suspend", "Panic", "OnParent"]).k(2).threads(3, 4).paths(q, 6 - d, 7 - d).graph(q, 9, 11),
                base("unwinding", m, &["Suspend", "GuardOps", "Panic", "Force"]).k(2).threads(2, 3).paths(q, 6 - d, 7 - d).graph(q, 9, 10),
                base("pump", m, &["Suspend"]).k(1).threads(2, 1_000_000).graph(q, 8, 10).pump(6, 5, 70),
            ]
        }
        "C19" => {
            let m = M_CTL | M_EXC | M_FRC | M_DROP | M_STK | M_LIFE;
            vec![
                base("same", m | M_WHERE, &["Suspend", "Force", "DropCo", "TakeStack", "OnStack", "OnParent", "Guard"]).k(2).paths(q, 7 - d, 8 - d).graph(q, 9, 11).pump(3, 4, 300),
                base("catch", m, &["Suspend", "Force", "Panic", "Catch", "Reset", "OnStack", "OnParent"]).k(1).n(60).mix(1).paths(q, 7 - d, 9 - d).graph(q, 9, 12),
                base("fatal", m, &["Suspend", "Panic", "DropCo", "Force", "OnStack", "OnParent", "Catch", "NewBomb"]).k(1).graph(q, 7, 9).aborts(),
                base("fatal-own", m, &["Suspend", "Panic", "Own", "TakeStack", "Guard", "GuardOps"]).k(1).n(60).graph(q, 6, 8).aborts(),
                base("fatal-two", m, &["Suspend", "Panic", "DropCo", "Own"]).k(2).graph(q, 6, 8).aborts(),
            ]
        }
        _ => panic!("no plan for {}", prop),
    };
    v
}
