//! Work of the calls into the crate, as a simulated clock: in the `metered`
//! build every basic block that is executed counts one (the compiler inserts
//! the calls, `tools/build.sh`), so that the work of a call is an exactly
//! repeatable number. The other builds count nothing. Each block is also a
//! point at which the scheduler of `share.rs` may stop a thread.

use std::cell::{Cell, RefCell};

pub const ON: bool = cfg!(feature = "metered");

/// The build that only measures the stack. A call that is the last thing a
/// function does uses stack in it, as in builds without optimisation.
pub const DEEP: bool = cfg!(feature = "deep");

/// Blocks that a unit of work may take. The most that is seen is about a tenth
/// of it (the evidence says how much); a call that walks over a large forest
/// takes tens of thousands.
pub const BLOCKS: u64 = 1000;

/// Bytes of stack that a call may use, whatever it works on. The most that is
/// seen is about a sixth of it.
pub const STACK: u64 = 32 << 10;

/// Bytes that may be allocated per unit of work, by calls that create nothing.
pub const BYTES: u64 = 4096;

#[cfg(feature = "metered")]
mod counter {
    #[thread_local]
    #[no_mangle]
    pub static mut SIM_BLOCKS: u64 = 0;
    /// Blocks until `stop`.
    #[thread_local]
    #[no_mangle]
    pub static mut SIM_SLICE: u64 = 0;
    /// Where the stack has reached down to.
    #[thread_local]
    #[no_mangle]
    pub static mut SIM_LOW: u64 = 0;

    core::arch::global_asm!(
        ".globl __sanitizer_cov_trace_pc",
        ".hidden __sanitizer_cov_trace_pc",
        "__sanitizer_cov_trace_pc:",
        "incq %fs:SIM_BLOCKS@tpoff",
        "cmpq %fs:SIM_LOW@tpoff, %rsp",
        "jae 1f",
        "movq %rsp, %fs:SIM_LOW@tpoff",
        "1:",
        "decq %fs:SIM_SLICE@tpoff",
        "je {stop}",
        "ret",
        stop = sym stop,
        options(att_syntax)
    );

    extern "C" fn stop() {
        crate::share::preempt();
    }

    pub fn get() -> u64 {
        unsafe { std::ptr::read_volatile(std::ptr::addr_of!(SIM_BLOCKS)) }
    }

    pub fn low(set: u64) -> u64 {
        unsafe {
            let low = std::ptr::read_volatile(std::ptr::addr_of!(SIM_LOW));
            std::ptr::write_volatile(std::ptr::addr_of_mut!(SIM_LOW), set);
            low
        }
    }

    pub fn slice(blocks: u64) {
        unsafe { std::ptr::write_volatile(std::ptr::addr_of_mut!(SIM_SLICE), blocks) }
    }

    /// What has been counted, and what is left until `stop`: never, from here
    /// on until it is put back.
    pub fn hold() -> (u64, u64) {
        unsafe {
            let left = std::ptr::read_volatile(std::ptr::addr_of!(SIM_SLICE));
            slice(0);
            (get(), left)
        }
    }

    pub fn put((blocks, left): (u64, u64)) {
        unsafe {
            std::ptr::write_volatile(std::ptr::addr_of_mut!(SIM_BLOCKS), blocks);
            slice(left);
        }
    }
}

#[cfg(not(feature = "metered"))]
mod counter {
    pub fn get() -> u64 {
        0
    }

    pub fn low(_: u64) -> u64 {
        0
    }

    pub fn slice(_: u64) {}

    pub fn hold() -> (u64, u64) {
        (0, 0)
    }

    pub fn put(_: (u64, u64)) {}
}

/// Nothing counts while this lives: what the simulator does the first time
/// only would be seen otherwise.
pub struct Hold((u64, u64));

impl Hold {
    pub fn new() -> Self {
        Self(counter::hold())
    }
}

impl Drop for Hold {
    fn drop(&mut self) {
        counter::put(self.0);
    }
}

/// Has this thread asked whether it may go on (`share::preempt`) after the
/// number of blocks. 0: never.
pub fn slice(blocks: u64) {
    counter::slice(blocks);
}

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static UNITS: Cell<u64> = const { Cell::new(0) };
    static MEMORY: Cell<bool> = const { Cell::new(false) };
    static NESTED: Cell<u64> = const { Cell::new(0) };
    static OVER: RefCell<Option<String>> = const { RefCell::new(None) };
    static MOST: Cell<u64> = const { Cell::new(0) };
    static FREE: Cell<bool> = const { Cell::new(false) };
    static TOO_DEEP: RefCell<Option<String>> = const { RefCell::new(None) };
    static DEEPEST: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

/// Units of work that the next call may take, besides the one that every call
/// may.
pub fn allow(units: u64) {
    if ON {
        UNITS.with(|u| u.set(units));
    }
}

/// Whether the work of this thread is left alone. Returns what held before.
pub fn quiet(yes: bool) -> bool {
    QUIET.with(|q| q.replace(yes))
}

/// The next call may take what it wants.
pub fn any() {
    allow(u64::MAX);
}

/// The next call creates nodes: the tables may have to grow.
pub fn creates(units: u64) {
    if ON {
        allow(units);
        MEMORY.with(|m| m.set(true));
    }
}

/// The next call runs programs of the simulator that nest as deep as they are
/// long.
pub fn nests() {
    FREE.with(|f| f.set(true));
}

pub struct Started {
    /// Where the stack was, how far the call around this one had come, and
    /// whether this one may use what it wants.
    mark: u64,
    low: u64,
    free: bool,
    blocks: u64,
    bytes: u64,
    nested: u64,
    units: u64,
    memory: bool,
}

#[inline(never)]
pub fn start() -> Started {
    let here = 0u8;
    Started {
        mark: std::hint::black_box(std::ptr::addr_of!(here)) as u64,
        low: counter::low(u64::MAX),
        free: FREE.with(|f| f.replace(false)),
        units: UNITS.with(|u| u.replace(0)),
        memory: MEMORY.with(|m| m.replace(false)),
        nested: NESTED.with(|n| n.replace(0)),
        bytes: crate::alloc::bytes(),
        blocks: counter::get(),
    }
}

pub fn stop(s: Started) {
    if !ON {
        return;
    }
    let all = counter::get() - s.blocks;
    let low = counter::low(0);
    counter::low(s.low.min(low));
    let deep = s.mark.saturating_sub(low);
    let mine = all - NESTED.with(Cell::get);
    NESTED.with(|n| n.set(s.nested + all));
    if !s.free && !QUIET.with(Cell::get) {
        DEEPEST.with(|d| d.set(d.get().max(deep)));
        if deep > STACK {
            let _own = crate::alloc::Own::new();
            TOO_DEEP.with(|d| {
                // How much exactly depends on where the stack began.
                *d.borrow_mut() = Some(format!("a call uses more than {} KiB of stack", STACK >> 10));
            });
        }
    }
    if s.units == u64::MAX || QUIET.with(Cell::get) {
        return;
    }
    let own = crate::alloc::Own::new();
    let bytes = crate::alloc::bytes() - s.bytes;
    let units = s.units + 1;
    CALLS.with(|c| c.set(c.get() + 1));
    MOST.with(|m| m.set(m.get().max(mine / units)));
    let over = if mine / units > BLOCKS {
        format!("executes {mine} basic blocks")
    } else if !s.memory && bytes / units > BYTES {
        format!("allocates {bytes} bytes")
    } else {
        return;
    };
    OVER.with(|o| {
        let mut o = o.borrow_mut();
        if o.is_none() {
            *o = Some(format!("{over} for {units} units of work"));
        }
    });
    drop(own);
}

/// What went beyond its bound since the last time.
pub fn over() -> Option<String> {
    OVER.with(|o| o.borrow_mut().take())
}

/// Whether a call used too much of the stack since the last time.
pub fn deep() -> Option<String> {
    TOO_DEEP.with(|d| d.borrow_mut().take())
}

/// Forgets what a step left behind.
pub fn reset() {
    UNITS.with(|u| u.set(0));
    MEMORY.with(|m| m.set(false));
    NESTED.with(|n| n.set(0));
    FREE.with(|f| f.set(false));
    let _ = over();
    let _ = deep();
    let _ = take();
}

/// Most stack that a call used since the last time.
pub fn deepest() -> u64 {
    DEEPEST.with(|d| d.replace(0))
}

/// Calls measured, and most blocks per unit, since the last time.
pub fn take() -> (u64, u64) {
    (CALLS.with(|c| c.replace(0)), MOST.with(|m| m.replace(0)))
}
