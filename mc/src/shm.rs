//! Memory shared between the coordinating process and its workers.

use crate::model::Op;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};

pub const MAX_SCRIPT: usize = 8192;
pub const MAX_MSG: usize = 4000;

#[repr(C)]
pub struct WorkerShm {
    /// Bumped on every path; used to detect hangs.
    pub beat: AtomicU64,
    pub paths: AtomicU64,
    pub steps: AtomicU64,
    pub obs: AtomicU64,
    pub aborts: AtomicU64,
    pub pid: AtomicU32,
    pub run: AtomicU32,
    /// 0 none, 1 violation recorded
    pub viol: AtomicU32,
    pub script_len: AtomicU32,
    pub pos: AtomicU32,
    pub msg_len: AtomicU32,
    pub script: [[u8; 2]; MAX_SCRIPT],
    pub msg: [u8; MAX_MSG],
}

#[repr(C)]
pub struct Shared {
    pub next_job: AtomicU64,
    pub stop: AtomicU32,
}

pub fn map<T>(n: usize) -> *mut T {
    let len = (std::mem::size_of::<T>() * n + 4095) & !4095;
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut T
    }
}

impl WorkerShm {
    pub fn set_script(&self, s: &[Op]) {
        assert!(s.len() <= MAX_SCRIPT);
        let p = self.script.as_ptr() as *mut [u8; 2];
        for (i, o) in s.iter().enumerate() {
            unsafe { *p.add(i) = o.enc() };
        }
        self.script_len.store(s.len() as u32, SeqCst);
        self.pos.store(0, SeqCst);
    }
    pub fn get_script(&self) -> Vec<Op> {
        let n = self.script_len.load(SeqCst) as usize;
        self.script[..n].iter().map(|b| Op::dec(*b)).collect()
    }
    pub fn set_msg(&self, m: &str) {
        let b = m.as_bytes();
        let n = b.len().min(MAX_MSG);
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.msg.as_ptr() as *mut u8, n) };
        self.msg_len.store(n as u32, SeqCst);
        self.viol.store(1, SeqCst);
    }
    pub fn get_msg(&self) -> String {
        let n = self.msg_len.load(SeqCst) as usize;
        String::from_utf8_lossy(&self.msg[..n]).into_owned()
    }
}
