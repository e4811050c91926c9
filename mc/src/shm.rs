//! Memory shared with the supervising process: the choices of the execution each worker is in.
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};

pub const MAX_CHOICES: usize = 4000;
pub const SLOTS: usize = 64;

#[repr(C)]
pub struct Slot {
    /// odd while an execution is running
    pub seq: AtomicU64,
    pub scenario: AtomicU32,
    pub len: AtomicU32,
    /// advanced by executions which honestly take long
    pub beats: AtomicU64,
    pub choices: [AtomicU32; MAX_CHOICES],
}

impl Slot {
    pub fn begin(&self) {
        self.len.store(0, Relaxed);
        let s = self.seq.load(Relaxed);
        self.seq.store(s | 1, Release);
    }
    pub fn end(&self) {
        let s = self.seq.load(Relaxed);
        self.seq.store((s | 1) + 1, Release);
    }
    pub fn push(&self, c: u16) {
        let l = self.len.load(Relaxed) as usize;
        if l < MAX_CHOICES {
            self.choices[l].store(c as u32, Relaxed);
        }
        self.len.store(l as u32 + 1, Relaxed);
    }
    pub fn read(&self) -> Vec<u16> {
        let l = (self.len.load(Relaxed) as usize).min(MAX_CHOICES);
        self.choices[..l].iter().map(|c| c.load(Relaxed) as u16).collect()
    }
}

pub fn map(path: &str, create: bool) -> &'static [Slot] {
    use std::os::unix::io::AsRawFd;
    let len = std::mem::size_of::<Slot>() * SLOTS;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(create)
        .truncate(false)
        .open(path)
        .expect("shared file");
    f.set_len(len as u64).expect("size of shared file");
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        );
        assert!(p != libc::MAP_FAILED);
        std::slice::from_raw_parts(p as *const Slot, SLOTS)
    }
}
