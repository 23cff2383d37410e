//! Several threads that read one forest, under a scheduler: exactly one thread
//! runs at a time, and a seeded generator decides who is next and for how long.
//! In the `metered` build every basic block of the crate is a point at which a
//! thread may be stopped (`meter.rs`); in the other builds only calls are.

use std::cell::{Cell, UnsafeCell};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::thread::Thread;
use std::time::Duration;

use treena::dynamic::{Forest, InsertAs};

use crate::alloc::{self, Own};
use crate::ids::SimId;
use crate::meter;
use crate::model::Model;
use crate::pay::{self, Pay, PrintPlan, NONE};
use crate::reads;
use crate::rng::{comb, mix, Rng};
use crate::step::*;
use crate::world::*;

/// Whose turn it is when no reader has one.
const MAIN: u32 = u32::MAX;

/// As seed of the schedule: one task after the other, in one thread.
pub const ALONE: u32 = u32::MAX;

/// Most readers at a time.
pub const READERS: usize = 4;

struct Inner {
    rng: Rng,
    threads: Vec<Thread>,
    /// Readers that are not done, as a bit set.
    left: u32,
    /// How often a reader may still be stopped within a call.
    stops: u32,
    style: u32,
    /// Reader that only runs when no other can.
    starved: u32,
    done: [u32; READERS],
    /// Where readers were stopped.
    hash: u64,
    inside: u64,
    between: u64,
}

pub struct Sched {
    turn: AtomicU32,
    /// The readers run on their own: one of them waits for something that
    /// another one holds. Never seen.
    free: AtomicBool,
    ticks: AtomicU32,
    main: Thread,
    inner: UnsafeCell<Inner>,
}

// `inner` belongs to the thread whose turn it is.
unsafe impl Sync for Sched {}

thread_local! {
    static CUR: Cell<*const Sched> = const { Cell::new(std::ptr::null()) };
    static ME: Cell<u32> = const { Cell::new(0) };
}

impl Sched {
    #[allow(clippy::mut_from_ref)]
    fn inner(&self) -> &mut Inner {
        unsafe { &mut *self.inner.get() }
    }

    fn give(&self, to: u32) {
        let thread = match to {
            MAIN => self.main.clone(),
            _ => self.inner().threads[to as usize].clone(),
        };
        self.turn.store(to, Ordering::Release);
        thread.unpark();
    }

    fn wait(&self, me: u32) {
        while self.turn.load(Ordering::Acquire) != me && !self.free.load(Ordering::Acquire) {
            std::thread::park();
        }
    }

    /// Who is next, other than the one who asks.
    fn next(&self, me: u32) -> u32 {
        let i = self.inner();
        let mut set = i.left & !(1 << me);
        if set & !(1 << i.starved) != 0 {
            set &= !(1 << i.starved);
        }
        if set == 0 {
            return MAIN;
        }
        let mut k = i.rng.below(set.count_ones());
        loop {
            let b = set.trailing_zeros();
            if k == 0 {
                return b;
            }
            set &= set - 1;
            k -= 1;
        }
    }

    /// Blocks until the next stop.
    fn slice(&self) -> u64 {
        let i = self.inner();
        if i.stops == 0 {
            return 0;
        }
        let max = match i.style % 5 {
            0 => 12,
            1 => 60,
            2 => 300,
            3 => 2000,
            _ => [4, 30, 200, 3000][i.rng.below(4) as usize],
        };
        u64::from(i.rng.range(1, max))
    }
}

/// A reader reaches a point at which it may be stopped.
fn stop(inside: bool) {
    let cur = CUR.with(Cell::get);
    if cur.is_null() {
        return;
    }
    let s = unsafe { &*cur };
    if s.free.load(Ordering::Relaxed) {
        return;
    }
    let _own = Own::new();
    s.ticks.fetch_add(1, Ordering::Relaxed);
    let me = ME.with(Cell::get);
    let i = s.inner();
    if inside {
        if i.stops == 0 {
            return;
        }
        i.stops -= 1;
    } else if i.rng.pct(50) {
        return;
    }
    let next = s.next(me);
    if next == MAIN {
        meter::slice(s.slice());
        return;
    }
    if inside {
        i.inside += 1;
    } else {
        i.between += 1;
    }
    for d in i.done {
        i.hash = comb(i.hash, u64::from(d));
    }
    i.hash = comb(i.hash, u64::from(next));
    meter::slice(0);
    s.give(next);
    s.wait(me);
    meter::slice(s.slice());
}

/// Called by the metered build when the slice is used up.
pub fn preempt() {
    if CUR.with(Cell::get).is_null() {
        return;
    }
    if alloc::inside(0) == 0 || alloc::own() {
        // The simulator's own code: a little later.
        meter::slice(5);
        return;
    }
    stop(true);
}

/// Continues in another thread, as if the whole world had been sent there.
pub fn elsewhere<Id: SimId>(w: &mut World<Id>, f: impl FnOnce(&mut World<Id>)) {
    let job = Cross((w, f, pay::take()));
    let (back, _) = std::thread::scope(|scope| {
        let h = scope.spawn(move || {
            let (w, f, ledger) = job.get();
            pay::put(ledger);
            f(w);
            (Cross(pay::take()), ())
        });
        h.join().expect("src: thread")
    });
    pay::put(back.get());
}

/// What a reader reports.
#[derive(Default)]
struct Report {
    bad: Vec<(bool, String)>,
    digest: u64,
    faults: Vec<Fault>,
    notes: Vec<String>,
}

impl Report {
    fn v(&mut self, label: bool, m: String) {
        if self.bad.len() < 4 {
            self.bad.push((label, m));
        }
    }

    /// The result of a call, if it ended as expected.
    fn ok<R>(&mut self, what: &str, out: Out<R>, exp: u32) -> Option<R> {
        self.digest = comb(self.digest, u64::from(out.code()));
        if out.code() & exp == 0 {
            let label = matches!(out, Out::Pre(_) | Out::Bad(_));
            self.v(label, format!("{what}: expected {}, got {}", exp_name(exp), out.describe()));
        }
        match out {
            Out::Ok(v) => Some(v),
            _ => None,
        }
    }
}

/// Lets a reference cross threads whatever the type says: whether the type
/// allows it is reported separately.
struct Cross<T>(T);
unsafe impl<T> Send for Cross<T> {}
unsafe impl<T> Sync for Cross<T> {}

impl<T> Cross<T> {
    fn get(self) -> T {
        self.0
    }
}

/// IDs around a node: parent, next, previous, first child, last child.
fn around<Id: SimId>(f: &Forest<Id, Pay>, id: Id) -> Option<[Option<Id>; 5]> {
    f.node(id).map(|n| {
        [
            n.parent_id(),
            n.next_sibling_id(),
            n.prev_sibling_id(),
            n.first_child_id(),
            n.last_child_id(),
        ]
    })
}

fn around_model<Id: SimId>(m: &Model, ids: &[Id], i: u32) -> Option<[Option<Id>; 5]> {
    m.alive(i).then(|| {
        let c = m.children(i);
        [
            m.parent(i),
            m.next(i),
            m.prev(i),
            c.first().copied(),
            c.last().copied(),
        ]
        .map(|o| o.map(|o| ids[o as usize]))
    })
}

/// One task of a reader.
fn task<Id: SimId>(slot: &Slot<Id>, word: u32, r: &mut Report) {
    let m = &slot.model;
    let f = &slot.f;
    let n = m.n.len() as u32;
    let kind = word % 16;
    let k = word / 16;
    // Some node, rather a live one.
    let mut idx = if n == 0 { NONE } else { k % n };
    if idx != NONE && k / 64 % 8 != 0 {
        for _ in 0..n.min(300) {
            if m.alive(idx) {
                break;
            }
            idx = (idx + 1) % n;
        }
    }
    let alive = idx != NONE && m.alive(idx);
    match kind {
        0..=4 if idx != NONE => {
            let id = slot.ids[idx as usize];
            let (want, serial) = {
                let _own = Own::new();
                (around_model(m, &slot.ids, idx), m.n[idx as usize].serial)
            };
            let out = guard(|| (around(f, id), f.data(id).map(|d| d.serial)));
            let what = format!("navigation from node {idx}");
            if let Some((got, data)) = r.ok(&what, out, OK) {
                if got != want {
                    r.v(false, format!("{what} is wrong"));
                } else if data != alive.then_some(serial) {
                    r.v(false, format!("payload of node {idx} is {data:?}"));
                }
                r.digest = comb(r.digest, u64::from(data.unwrap_or(7)));
            }
        }
        5..=10 if alive => {
            let reader = k / 7 % reads::READERS;
            if m.n.len() > 3000 || reader == 2 && m.n.len() > 400 {
                return;
            }
            if let Err((label, msg)) = reads::consume_shared(slot, idx, reader, k) {
                r.v(label, msg);
            }
        }
        11 | 12 if alive => {
            if m.n.len() > 400 {
                return;
            }
            let style = k / 5 % 40;
            let want = reads::reference(m, idx, style);
            let fail = kind == 12 && k % 3 == 0;
            pay::plan_print(PrintPlan {
                style,
                chunk: k % 11,
                fail_call: if fail { k / 3 % 4 } else { NONE },
                fail_piece: 0,
                fail_panic: true,
                debug: false,
            });
            let mut got = String::new();
            let id = slot.ids[idx as usize];
            let out = guard(|| write!(got, "{}", f.debug_print(id)));
            let (_, _, fired) = pay::end_print();
            if fired > 0 {
                r.faults.push(Fault::ReaderPanic);
            }
            let what = format!("print of node {idx}");
            let done = r.ok(&what, out, if fired > 0 { INJ } else { OK });
            if matches!(done, Some(Ok(()))) && reads::trimmed(&got) != reads::trimmed(&want) {
                r.v(false, format!("{what}: wrote {got:?}, expected {want:?}"));
            } else if matches!(done, Some(Err(_))) {
                r.v(false, format!("{what}: reports an error"));
            }
            r.digest = comb(r.digest, got.len() as u64);
        }
        13 => {
            if m.n.len() > 3000 {
                return;
            }
            // The whole forest, into one of its own.
            let oom = k % 4 == 0;
            if oom {
                alloc::arm_at(k / 4 % 4);
            }
            let out = guard(|| f.clone());
            let (_, fired) = alloc::disarm();
            if fired > 0 {
                r.faults.push(Fault::ReaderOom);
            }
            if let Some(g) = r.ok("clone of the forest", out, if fired > 0 { OOM | OK } else { OK }) {
                for i in 0..n {
                    let id = slot.ids[i as usize];
                    let out = guard(|| (around(&g, id), g.data(id).map(|d| d.val)));
                    let want = {
                        let _own = Own::new();
                        (around_model(m, &slot.ids, i), m.alive(i).then_some(m.n[i as usize].val))
                    };
                    if r.ok("navigation in the clone", out, OK).map_or(false, |got| got != want) {
                        r.v(false, format!("node {i} of a clone of the forest is wrong"));
                        break;
                    }
                }
                let out = guard(|| drop(g));
                r.ok("drop of the clone", out, OK);
            }
        }
        14 if alive && m.n.len() <= 3000 => {
            // A tree, into a forest of its own.
            let id = slot.ids[idx as usize];
            let out = guard(|| {
                let mut g = Forest::<Id, Pay>::new();
                let mut vals = Vec::new();
                if let Some(node) = f.node(id) {
                    let root = g.clone_foreign_tree(node);
                    vals.extend(
                        g.breadth_first_traverse(root)
                            .map(|(n, d)| (n.data().val, d as u32)),
                    );
                }
                vals
            });
            let want: Vec<(u32, u32)> = {
                let _own = Own::new();
                let mut d = m.preorder_depths(idx);
                d.sort_by_key(|&(_, d)| d);
                d.iter().map(|&(i, d)| (m.n[i as usize].val, d)).collect()
            };
            let what = format!("clone of the tree of node {idx}");
            if let Some(got) = r.ok(&what, out, OK) {
                if got != want {
                    r.v(false, format!("{what} is wrong"));
                }
                r.digest = comb(r.digest, got.len() as u64);
            }
        }
        _ => private::<Id>(k, r),
    }
}

/// Work on a forest of the reader's own.
fn private<Id: SimId>(k: u32, r: &mut Report) {
    let count = 2 + k % 6;
    let gone = k / 6 % count;
    let out = guard(|| {
        let mut g = Forest::<Id, Pay>::new();
        let root = g.create_root(pay::make(100));
        let mut ids = vec![root];
        for i in 1..count {
            let under = ids[(k as usize >> i) % ids.len()];
            ids.push(g.create_insert(pay::make(100 + i), InsertAs::LastChildOf(under)));
        }
        let before: Vec<Option<u32>> = ids
            .iter()
            .map(|&id| g.node(id).and_then(|n| n.parent()).map(|p| p.data().val - 100))
            .collect();
        g.remove(ids[gone as usize]);
        let alive: Vec<Option<u32>> = ids.iter().map(|&id| g.data(id).map(|d| d.val - 100)).collect();
        (before, alive)
    });
    let mut parents: Vec<Option<u32>> = vec![None];
    for i in 1..count {
        parents.push(Some((k >> i) % i));
    }
    let mut alive = Vec::new();
    for i in 0..count {
        let mut at = Some(i);
        while at.is_some() && at != Some(gone) {
            at = parents[at.unwrap() as usize];
        }
        alive.push(at.is_none().then_some(i));
    }
    if let Some(got) = r.ok("work on another forest", out, OK) {
        if got != (parents, alive) {
            r.v(false, "work on another forest has a wrong result".to_string());
        }
    }
}

impl<Id: SimId> World<Id> {
    /// Several threads read a forest at the same time.
    pub fn op_share(&mut self, s: &Step) {
        let si = self.pick_slot(s.p(0));
        if let Some(what) = Id::confined() {
            self.set_cls(Cls::Legal);
            self.v(Orc::Confined, what);
            return;
        }
        let slot = self.slots[si].take().unwrap();
        self.set_cls(Cls::Legal);
        self.fp = comb(self.fp, mark(&slot, NONE, NONE));
        let words = if s.a.len() > 3 { &s.a[3..] } else { &[] };
        let mut tasks: Vec<Vec<u32>> = vec![Vec::new(); READERS];
        for &w in words {
            tasks[w as usize % READERS].push(w / READERS as u32);
        }
        let mut rng = Rng::new(mix(u64::from(s.p(2)) ^ 0x7368_6172_65));
        let starved = if rng.pct(20) { rng.below(READERS as u32) } else { 31 };
        let style = rng.below(5);
        if s.p(2) == ALONE {
            // The same without threads, to compare with.
            let mut r = Report::default();
            for &w in words {
                task(&slot, w / READERS as u32, &mut r);
            }
            for (label, m) in r.bad {
                self.v(if label { Orc::Label } else { Orc::Share }, m);
            }
            self.slots[si] = Some(slot);
            return;
        }
        let sched = Sched {
            turn: AtomicU32::new(MAIN),
            free: AtomicBool::new(false),
            ticks: AtomicU32::new(0),
            main: std::thread::current(),
            inner: UnsafeCell::new(Inner {
                rng,
                threads: Vec::new(),
                left: (1 << READERS) - 1,
                stops: s.p(1),
                style,
                starved,
                done: [0; READERS],
                hash: 0,
                inside: 0,
                between: 0,
            }),
        };
        let shared = Cross((&*slot, &sched));
        let reports: Vec<Report> = std::thread::scope(|scope| {
            let mut handles = Vec::new();
            for (me, tasks) in tasks.iter().enumerate() {
                let shared = Cross((shared.0 .0, shared.0 .1));
                let h = scope.spawn(move || {
                    let (slot, sched) = shared.get();
                    let me = me as u32;
                    let mut r = Report::default();
                    sched.wait(me);
                    ME.with(|m| m.set(me));
                    CUR.with(|c| c.set(sched));
                    let _ = meter::quiet(true);
                    meter::slice(sched.slice());
                    for (no, &w) in tasks.iter().enumerate() {
                        if sched.free.load(Ordering::Relaxed) {
                            break;
                        }
                        sched.inner().done[me as usize] = no as u32 + 1;
                        task(slot, w, &mut r);
                        stop(false);
                    }
                    meter::slice(0);
                    CUR.with(|c| c.set(std::ptr::null()));
                    if !sched.free.load(Ordering::Relaxed) {
                        let i = sched.inner();
                        i.left &= !(1 << me);
                        let next = sched.next(me);
                        sched.give(next);
                    }
                    r
                });
                sched.inner().threads.push(h.thread().clone());
                handles.push(h);
            }
            let first = sched.next(31);
            sched.give(first);
            let (mut ticks, mut idle) = (0, 0);
            while sched.turn.load(Ordering::Acquire) != MAIN {
                std::thread::park_timeout(Duration::from_secs(1));
                let t = sched.ticks.load(Ordering::Relaxed);
                idle = if t == ticks { idle + 1 } else { 0 };
                ticks = t;
                if idle > 8 && sched.turn.load(Ordering::Acquire) != MAIN {
                    sched.free.store(true, Ordering::Release);
                    for h in &handles {
                        h.thread().unpark();
                    }
                    break;
                }
            }
            handles.into_iter().map(|h| h.join().unwrap_or_else(|e| {
                panic!("src: reader: {:?} {:?}", e.downcast_ref::<crate::pay::Injected>().map(|i| i.0), e.is::<alloc::InjectedOom>())
            })).collect()
        });
        if sched.free.load(Ordering::Relaxed) {
            // What the readers saw depends on more than the seed.
            self.unsure = true;
            self.set_cls(Cls::Skip);
            self.slots[si] = Some(slot);
            return;
        }
        let i = sched.inner.into_inner();
        self.fp = comb(self.fp, i.hash);
        self.dig(i.hash);
        self.stats.stops += i.inside;
        self.stats.yields += i.between;
        if starved < READERS as u32 && !tasks[starved as usize].is_empty() {
            self.fault(Fault::ReaderStall);
        }
        let mut readers = 0;
        for (no, r) in reports.into_iter().enumerate() {
            readers += u64::from(!tasks[no].is_empty());
            self.dig(r.digest);
            self.stats.reads += tasks[no].len() as u64;
            for f in r.faults {
                self.fault(f);
                self.set_cls(Cls::Faulted);
            }
            for (label, m) in r.bad {
                let m = format!("reader {no}: {m}");
                if label {
                    self.v(Orc::Label, m.clone());
                }
                self.v(Orc::Share, m);
            }
        }
        self.log(|| {
            format!(
                "{readers} readers, stopped {} times within and {} times between calls, {:016x}",
                i.inside, i.between, i.hash
            )
        });
        self.slots[si] = Some(slot);
    }
}
