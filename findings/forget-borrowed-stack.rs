//! Safe code, yet it crashes: a leaked coroutine does not keep its borrow of the stack alive.
//! Build as a program that depends on corosensei, with `#![forbid(unsafe_code)]` satisfied.
#![forbid(unsafe_code)]
use corosensei::{stack::DefaultStack, Coroutine};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
static SEEN: AtomicU64 = AtomicU64::new(0);
fn main() {
    let mut stack = DefaultStack::new(1 << 20).unwrap();
    let mut co = Coroutine::<(), (), (), _>::with_stack(&mut stack, |y, ()| {
        let local = AtomicU64::new(42);
        // The scope guarantees that the thread ends before `local` does.
        std::thread::scope(|s| {
            s.spawn(|| loop {
                SEEN.store(local.load(SeqCst), SeqCst);
            });
            y.suspend(());
        });
    });
    co.resume(());
    while SEEN.load(SeqCst) != 42 {}
    std::mem::forget(co);
    // The borrow of `stack` has ended: it can be dropped, with `local` on it.
    drop(stack);
    std::thread::sleep(std::time::Duration::from_millis(200));
    println!("survived, SEEN = {}", SEEN.load(SeqCst));
}
