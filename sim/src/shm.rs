//! File shared by a worker process and its parent. Whatever happens to the worker, the parent sees
//! which run it was in and what it had found.

use crate::stats;
use std::fs::OpenOptions;
use std::os::fd::AsRawFd;

pub const MAX_DEC: usize = 1 << 17;
pub const BITMAP_BITS: usize = 1 << 26;

#[repr(C)]
pub struct Shm {
    /// Index of the run in progress plus one.
    pub current: u64,
    pub finished: u64,
    pub state: u64,
    pub class: u64,
    pub msg_len: u64,
    pub msg: [u8; 2048],
    /// Bits: refusal, panic, iterator.
    pub ctx: u64,
    pub log_hash: u64,
    pub stats: [u64; stats::N],
    pub ndec: u64,
    pub dec: [u16; MAX_DEC],
    pub bitmap: [u8; BITMAP_BITS / 8],
}

pub const RUNNING: u64 = 0;
pub const DONE: u64 = 1;
pub const VIOLATION: u64 = 2;
pub const FOREIGN: u64 = 3;
pub const HARNESS: u64 = 4;

pub fn map(path: &str, create: bool) -> *mut Shm {
    let file = OpenOptions::new()
        .read(true)
        .write(true)
        .create(create)
        .truncate(false)
        .open(path)
        .unwrap_or_else(|e| panic!("open {path}: {e}"));
    let size = std::mem::size_of::<Shm>();
    if create {
        file.set_len(size as u64).unwrap();
    }
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            size,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            file.as_raw_fd(),
            0,
        )
    };
    assert!(p != libc::MAP_FAILED, "mmap");
    p as *mut Shm
}

pub fn unmap(p: *mut Shm) {
    unsafe { libc::munmap(p as _, std::mem::size_of::<Shm>()) };
}

impl Shm {
    pub fn message(&self) -> String {
        String::from_utf8_lossy(&self.msg[..(self.msg_len as usize).min(2048)]).into_owned()
    }

    pub fn set_message(&mut self, s: &str) {
        let n = s.len().min(2048);
        self.msg[..n].copy_from_slice(&s.as_bytes()[..n]);
        self.msg_len = n as u64;
    }
}
