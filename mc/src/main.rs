//! mc: explicit-state model checking of the coroutine machine with every path replayed on the
//! real crate.

#![allow(static_mut_refs)]

mod bt;
mod explore;
mod model;
mod plans;
mod real;
mod shm;
mod stacks;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let prop = args.get(1).cloned().unwrap_or_default();
    let tier = get("--tier").unwrap_or("quick".into());
    let workers: usize = get("--workers").and_then(|x| x.parse().ok()).unwrap_or(8);
    let out = get("--out");
    let only = get("--run");
    let config = get("--config").unwrap_or_else(|| "default".into());
    let replay = get("--replay");
    let viol = get("--violation").unwrap_or_else(|| "/tmp/mc-violation.txt".into());
    let code = explore::main(&prop, &tier, workers, out.as_deref(), only.as_deref(), &config, replay.as_deref(), &viol);
    std::process::exit(code);
}
