//! Where a worker process is, in memory shared with the process that watches
//! it: survives the worker.

use std::fs::File;
use std::os::fd::AsRawFd;
use std::time::Instant;
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::Relaxed};

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// Words of the shared page.
pub const STOP: usize = 0;
pub const RUN: usize = 1;
pub const STEP: usize = 2;
pub const CLASS: usize = 3;
pub const DONE: usize = 4;
/// Progress within a step.
pub const TICK: usize = 5;
const WORDS: usize = 8;

pub struct Page(*mut AtomicU64);

impl Page {
    /// Maps the file.
    pub fn open(path: &str) -> std::io::Result<Self> {
        let f = File::options().read(true).write(true).create(true).truncate(false).open(path)?;
        f.set_len(4096)?;
        // PROT_READ | PROT_WRITE, MAP_SHARED
        let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
        if p as isize == -1 {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Self(p.cast()))
    }

    pub fn get(&self, w: usize) -> u64 {
        assert!(w < WORDS);
        unsafe { (*self.0.add(w)).load(Relaxed) }
    }

    pub fn set(&self, w: usize, v: u64) {
        assert!(w < WORDS);
        unsafe { (*self.0.add(w)).store(v, Relaxed) }
    }
}

static PAGE: AtomicPtr<AtomicU64> = AtomicPtr::new(std::ptr::null_mut());

/// Makes the page the one that this process reports to.
pub fn install(p: &Page) {
    PAGE.store(p.0, Relaxed);
}

fn put(w: usize, v: u64) {
    let p = PAGE.load(Relaxed);
    if !p.is_null() {
        unsafe { (*p.add(w)).store(v, Relaxed) }
    }
}

pub fn step(no: usize) {
    put(STEP, no as u64);
}

/// Progress within a long step that ends for certain.
pub fn tick() {
    let p = PAGE.load(Relaxed);
    if !p.is_null() {
        unsafe { (*p.add(TICK)).fetch_add(1, Relaxed) };
    }
}

pub fn run(no: u64) {
    put(RUN, no);
}

pub fn class(kind: u8, cls: u8) {
    put(CLASS, u64::from(kind) | u64::from(cls) << 8);
}

/// Watches for a process that makes no progress.
pub struct Watch {
    last: [u64; 4],
    since: Instant,
    /// Processor time when the process had not moved for a moment.
    cpu: Option<f64>,
    /// Longest time without progress so far, in seconds.
    pub longest: f64,
}

impl Watch {
    pub fn new() -> Self {
        Self {
            last: [0; 4],
            since: Instant::now(),
            cpu: None,
            longest: 0.0,
        }
    }

    /// Whether the process has been at the same step for `limit` seconds of
    /// processor time, or waits for something that does not come.
    pub fn stalled(&mut self, page: &Page, pid: u32, limit: f64) -> bool {
        let now = [RUN, STEP, DONE, TICK].map(|w| page.get(w));
        self.longest = self.longest.max(self.since.elapsed().as_secs_f64());
        if now != self.last {
            self.last = now;
            self.since = Instant::now();
            self.cpu = None;
            return false;
        }
        let wall = self.since.elapsed().as_secs_f64();
        if wall < 0.5 {
            return false;
        }
        let start = *self.cpu.get_or_insert_with(|| cpu(pid));
        wall > limit && (wall > limit * 4.0 || cpu(pid) - start > limit * 0.9)
    }
}

/// Processor time of a process in seconds.
fn cpu(pid: u32) -> f64 {
    let stat = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let rest = stat.rsplit(')').next().unwrap_or_default();
    let ticks: f64 = rest
        .split_whitespace()
        .skip(11)
        .take(2)
        .filter_map(|v| v.parse::<f64>().ok())
        .sum();
    ticks / 100.0
}
