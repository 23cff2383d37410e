//! The allocator seam: a global allocator that the simulator can make fail.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    /// 0: pass through. 1: fail the allocation when `LEFT` reaches zero, once.
    /// 2: fail every allocation.
    static MODE: Cell<u8> = const { Cell::new(0) };
    static LEFT: Cell<u32> = const { Cell::new(0) };
    static SEEN: Cell<u32> = const { Cell::new(0) };
    static FIRED: Cell<u32> = const { Cell::new(0) };
    static SUSPEND: Cell<u32> = const { Cell::new(0) };
    /// Depth of calls into the crate: only there allocations fail.
    static INSIDE: Cell<u32> = const { Cell::new(0) };
    /// Bytes that calls into the crate have asked for.
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    /// No allocation fails.
    static CALM: Cell<bool> = const { Cell::new(false) };
}

/// Bytes a simulated run may hold before it is ended as a runaway.
const RUNAWAY: i64 = 1 << 30;

pub struct SimAlloc;

#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

/// Payload of the panic that an injected allocation failure turns into.
pub struct InjectedOom;

/// Decides whether this allocation fails.
fn refuse(size: usize) -> bool {
    let live = LIVE.with(|l| {
        l.set(l.get() + size as i64);
        l.get()
    });
    if live > RUNAWAY {
        LIVE.with(|l| l.set(i64::MIN / 2));
        eprintln!("sim: runaway memory use");
        std::process::abort();
    }
    if crate::meter::ON && INSIDE.with(Cell::get) != 0 && SUSPEND.with(Cell::get) == 0 && !std::thread::panicking() {
        BYTES.with(|b| b.set(b.get() + size as u64));
    }
    let mode = MODE.with(Cell::get);
    // The panic machinery needs memory: a panic cannot run out of it.
    if mode == 0 || INSIDE.with(Cell::get) == 0 || SUSPEND.with(Cell::get) != 0 || std::thread::panicking() {
        return false;
    }
    SEEN.with(|s| s.set(s.get() + 1));
    if mode == 2 {
        FIRED.with(|f| f.set(f.get() + 1));
        return true;
    }
    let left = LEFT.with(Cell::get);
    if left == 0 {
        MODE.with(|m| m.set(0));
        FIRED.with(|f| f.set(f.get() + 1));
        return true;
    }
    LEFT.with(|l| l.set(left - 1));
    false
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if refuse(layout.size()) {
            LIVE.with(|l| l.set(l.get() - layout.size() as i64));
            return std::ptr::null_mut();
        }
        System.alloc(layout)
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        LIVE.with(|l| l.set(l.get() - layout.size() as i64));
        System.dealloc(ptr, layout)
    }

    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        let delta = new_size as i64 - layout.size() as i64;
        if new_size > layout.size() && refuse(delta as usize) {
            LIVE.with(|l| l.set(l.get() - delta));
            return std::ptr::null_mut();
        }
        if new_size < layout.size() {
            LIVE.with(|l| l.set(l.get() + delta));
        }
        System.realloc(ptr, layout, new_size)
    }
}

/// Installs the hook that turns a failed allocation into an unwinding panic.
pub fn install() {
    std::alloc::set_alloc_error_hook(|_| {
        MODE.with(|m| m.set(0));
        std::panic::panic_any(InjectedOom);
    });
}

/// Whether injections are left out.
pub fn calm(on: bool) {
    CALM.with(|c| c.set(on));
}

pub fn is_calm() -> bool {
    CALM.with(Cell::get)
}

/// Lets the `k`-th (from zero) allocation from here fail.
pub fn arm_at(k: u32) {
    if is_calm() {
        return;
    }
    LEFT.with(|l| l.set(k));
    SEEN.with(|s| s.set(0));
    FIRED.with(|f| f.set(0));
    MODE.with(|m| m.set(1));
}

/// Lets all allocations from here fail.
pub fn arm_all() {
    if is_calm() {
        return;
    }
    SEEN.with(|s| s.set(0));
    FIRED.with(|f| f.set(0));
    MODE.with(|m| m.set(2));
}

/// Ends the injection, leaving the counters as they are. The panic machinery
/// needs memory.
pub fn stop() {
    MODE.with(|m| m.set(0));
}

/// Ends the injection. Returns `(allocations seen, failures injected)`.
pub fn disarm() -> (u32, u32) {
    MODE.with(|m| m.set(0));
    (SEEN.with(|s| s.replace(0)), FIRED.with(|f| f.replace(0)))
}

/// Bytes that this thread has asked for and not given back.
pub fn live() -> i64 {
    LIVE.with(Cell::get)
}

pub fn bytes() -> u64 {
    BYTES.with(Cell::get)
}

/// Adjusts the depth of calls into the crate.
pub fn inside(d: i32) -> u32 {
    INSIDE.with(|s| {
        s.set(s.get().wrapping_add_signed(d));
        s.get()
    })
}

/// Adjusts the depth of `Own`.
pub fn own_add(d: i32) {
    SUSPEND.with(|s| s.set(s.get().wrapping_add_signed(d)));
}

/// Whether the code that runs is the simulator's own.
pub fn own() -> bool {
    SUSPEND.with(Cell::get) != 0
}

/// While alive, allocations are the simulator's own and never fail.
pub struct Own;

impl Own {
    pub fn new() -> Self {
        SUSPEND.with(|s| s.set(s.get() + 1));
        Self
    }
}

impl Drop for Own {
    fn drop(&mut self) {
        SUSPEND.with(|s| s.set(s.get() - 1));
    }
}
