//! The payload seam: every payload in the simulated forests is a `Pay`. A
//! ledger knows where each one came from and whether it has been dropped, and
//! the simulator can make cloning, dropping and formatting fail.

use crate::rng::comb;
use std::cell::RefCell;
use std::fmt;
use std::panic::panic_any;

use crate::alloc::Own;

/// Payload of every panic the simulator injects.
pub struct Injected(pub &'static str);

pub const NONE: u32 = u32::MAX;

/// A payload. Not `Clone` in the trivial sense: see the ledger.
pub struct Pay {
    pub serial: u32,
    pub val: u32,
}

#[derive(Clone, Copy)]
pub struct Rec {
    pub dropped: bool,
    /// Serial of the payload this one was cloned from.
    pub from: u32,
    pub val: u32,
}

/// What the formatter of the payloads does.
#[derive(Clone, Copy, Default)]
pub struct PrintPlan {
    /// Shape of the texts, see `text`.
    pub style: u32,
    /// Seed of the splitting into writes (0: one piece).
    pub chunk: u32,
    /// Formatter call at which to fail (`NONE`: never).
    pub fail_call: u32,
    /// Piece within this call before which to fail.
    pub fail_piece: u32,
    /// Fail by panic (else by `Err`).
    pub fail_panic: bool,
    /// Whether the `Debug` formatter is the one to be used.
    pub debug: bool,
}

#[derive(Default)]
pub struct Ledger {
    recs: Vec<Rec>,
    /// A hash of the order of all clones and drops.
    trail: u64,
    clone_fault: Option<u32>,
    clone_fired: u32,
    drop_fault: Option<u32>,
    drop_fired: u32,
    plan: PrintPlan,
    print_calls: Vec<u32>,
    print_fired: u32,
    print_wrong: u32,
}

thread_local! {
    static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
}

fn with<R>(f: impl FnOnce(&mut Ledger) -> R) -> R {
    let _own = Own::new();
    LEDGER.with(|l| f(&mut l.borrow_mut()))
}

/// Starts an empty ledger.
pub fn reset() {
    with(|l| *l = Ledger::default());
}

/// Runs the function with a ledger of its own.
pub fn detached<R>(f: impl FnOnce() -> R) -> R {
    let old = with(|l| std::mem::take(l));
    let r = f();
    with(|l| *l = old);
    r
}

/// Takes the ledger away from this thread.
pub fn take() -> Ledger {
    with(std::mem::take)
}

/// Gives this thread a ledger.
pub fn put(ledger: Ledger) {
    with(|l| *l = ledger);
}

/// Creates a payload.
pub fn make(val: u32) -> Pay {
    with(|l| {
        l.recs.push(Rec {
            dropped: false,
            from: NONE,
            val,
        });
        Pay {
            serial: l.recs.len() as u32 - 1,
            val,
        }
    })
}

pub fn trail() -> u64 {
    with(|l| l.trail)
}

pub fn count() -> u32 {
    with(|l| l.recs.len() as u32)
}

pub fn rec(serial: u32) -> Rec {
    with(|l| l.recs[serial as usize])
}

/// Copies the ledger's records out.
pub fn all(buf: &mut Vec<Rec>) {
    with(|l| {
        buf.clear();
        buf.extend_from_slice(&l.recs);
    })
}

/// Lets the `k`-th clone from here panic.
pub fn arm_clone(k: u32) {
    with(|l| {
        l.clone_fault = Some(k);
        l.clone_fired = 0;
    });
}

/// Lets the `k`-th drop from here panic.
pub fn arm_drop(k: u32) {
    with(|l| {
        l.drop_fault = Some(k);
        l.drop_fired = 0;
    });
}

/// Ends injections. Returns the numbers of injected `(clone, drop)` panics.
pub fn disarm() -> (u32, u32) {
    with(|l| {
        l.clone_fault = None;
        l.drop_fault = None;
        let fired = (l.clone_fired, l.drop_fired);
        l.clone_fired = 0;
        l.drop_fired = 0;
        fired
    })
}

/// Starts a print with the plan.
pub fn plan_print(plan: PrintPlan) {
    with(|l| {
        l.plan = plan;
        l.print_calls.clear();
        l.print_fired = 0;
        l.print_wrong = 0;
    });
}

/// Ends a print. Returns the serials of the payloads printed, how many of them
/// by the wrong formatting trait, and the number of faults injected.
pub fn end_print() -> (Vec<u32>, u32, u32) {
    with(|l| {
        l.plan = PrintPlan {
            fail_call: NONE,
            ..PrintPlan::default()
        };
        (std::mem::take(&mut l.print_calls), l.print_wrong, l.print_fired)
    })
}

impl Clone for Pay {
    fn clone(&self) -> Self {
        let new = with(|l| {
            l.trail = comb(l.trail, 2 * u64::from(self.serial) + 1);
            match l.clone_fault {
                Some(0) => {
                    l.clone_fault = None;
                    l.clone_fired += 1;
                    return None;
                }
                Some(k) => l.clone_fault = Some(k - 1),
                None => {}
            }
            l.recs.push(Rec {
                dropped: false,
                from: self.serial,
                val: self.val,
            });
            Some(l.recs.len() as u32 - 1)
        });
        match new {
            Some(serial) => Pay {
                serial,
                val: self.val,
            },
            None => panic_any(Injected("clone")),
        }
    }
}

impl Drop for Pay {
    fn drop(&mut self) {
        let fire = with(|l| {
            l.trail = comb(l.trail, 2 * u64::from(self.serial));
            let r = &mut l.recs[self.serial as usize];
            if r.dropped {
                eprintln!("sim: payload dropped twice");
                std::process::abort();
            }
            r.dropped = true;
            match l.drop_fault {
                _ if std::thread::panicking() => false,
                Some(0) => {
                    l.drop_fault = None;
                    l.drop_fired += 1;
                    true
                }
                Some(k) => {
                    l.drop_fault = Some(k - 1);
                    false
                }
                None => false,
            }
        });
        if fire {
            panic_any(Injected("drop"));
        }
    }
}

/// The text of a payload.
pub fn text(val: u32, style: u32) -> String {
    use std::fmt::Write as _;
    // Styles 0..=3 for all nodes of a print, 4 and above mix them per node.
    let kind = if style < 4 {
        style
    } else {
        (crate::rng::mix(u64::from(val) << 8 | u64::from(style)) % 12) as u32
    };
    let mut s = String::new();
    match kind {
        0 | 4 => {
            let _ = write!(s, "n{val}");
        }
        1 | 5 => {
            let _ = write!(s, "n{val}\nsecond {val}\nthird");
        }
        2 => {
            // No text at all.
        }
        3 => {
            let _ = write!(s, "n{val}\n\n  indented {val}\n");
        }
        6 => s.push('\n'),
        7 => {
            let _ = write!(s, "\nlate {val}");
        }
        // Other characters that are taken for the end of a line, or for blanks.
        9 => {
            let _ = write!(s, "n{val}\r\nsecond\r\n\t\n\r{val}\u{85}x\u{2028}y\u{b}z\u{a0}\t");
        }
        10 => {
            let _ = write!(s, "  \n {val}  \n\t \n{val:>280}\0");
        }
        // Looks like a drawing.
        11 => {
            let _ = write!(s, "|-- {val}\n|   `-- n\n    \n`-- ");
        }
        _ => {
            let _ = write!(s, "\u{e9}n{val} \u{3042}\n\n\nlast");
        }
    }
    s
}

fn print(this: &Pay, f: &mut fmt::Formatter<'_>, debug: bool) -> fmt::Result {
    let (plan, call) = with(|l| {
        if l.plan.debug != debug {
            l.print_wrong += 1;
        }
        l.print_calls.push(this.serial);
        (l.plan, l.print_calls.len() as u32 - 1)
    });
    let text = {
        let _own = Own::new();
        text(this.val, plan.style)
    };
    let fail = |piece: u32| -> fmt::Result {
        if plan.fail_call == call && plan.fail_piece == piece {
            with(|l| l.print_fired += 1);
            if plan.fail_panic {
                panic_any(Injected("payload format"));
            }
            return Err(fmt::Error);
        }
        Ok(())
    };
    let mut piece = 0;
    let mut rest = &text[..];
    let mut rng = crate::rng::mix(u64::from(plan.chunk) << 32 | u64::from(call));
    loop {
        fail(piece)?;
        if rest.is_empty() {
            break;
        }
        let mut len = rest.len();
        if plan.chunk != 0 {
            rng = crate::rng::mix(rng);
            match rng % 8 {
                0 => f.write_str("")?,
                1 => f.write_fmt(format_args!(""))?,
                _ => {}
            }
            len = match (rng >> 8) % 4 {
                0 => 1,
                1 => 2,
                2 => rest.find('\n').map_or(len, |p| p.max(1)),
                _ => (rng >> 16) as usize % len + 1,
            };
            len = len.min(rest.len());
            while !rest.is_char_boundary(len) {
                len += 1;
            }
        }
        let (head, tail) = rest.split_at(len);
        let mut chars = head.chars();
        match (chars.next(), chars.next()) {
            (Some(c), None) if plan.chunk % 2 == 1 => fmt::Write::write_char(f, c)?,
            _ => f.write_str(head)?,
        }
        rest = tail;
        piece += 1;
    }
    // A formatter that fails after its text.
    if piece > 0 {
        fail(NONE - 1)?;
    }
    Ok(())
}

impl fmt::Display for Pay {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        print(self, f, false)
    }
}

impl fmt::Debug for Pay {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        print(self, f, true)
    }
}
