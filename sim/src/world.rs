//! The simulated world: some forests of the real crate, the reference model of
//! each, and everything that is checked after every step.

use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, DefaultHasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

use treena::dynamic::{Forest, Node, StructureError};

use crate::alloc::{InjectedOom, Own};
use crate::ids::SimId;
use crate::model::{MNode, Model};
use crate::pay::{self, Injected, Pay, NONE};
use crate::rng::{comb, mix};
use crate::step::{Fault, Kind, Step};

pub type Map<Id> = HashMap<Id, u32, BuildHasherDefault<DefaultHasher>>;

/// What a violation contradicts.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
#[repr(u8)]
pub enum Orc {
    /// Navigation answers disagree with each other.
    Inv,
    /// An ID resolves although it must not, or the other way round, or is not
    /// new.
    Id,
    /// The arrangement differs from the reference model's.
    Model,
    /// A node has the wrong payload.
    Data,
    /// Something changed in a forest the step does not touch.
    Cross,
    /// A call was answered differently from what its operands call for.
    Outcome,
    /// A panic with the wrong label.
    Label,
    /// A payload was dropped too early, or not at all.
    Payload,
    /// The removal callback was called with the wrong payloads.
    Hook,
    /// A wrong ID mapping or a wrong copy.
    Copy,
    /// Iterators.
    Iter,
    /// Breadth-first iterators.
    Bft,
    /// Printing.
    Print,
    /// Builder position.
    Build,
    /// The step did not come to an end, or ended the process.
    Hang,
    /// Work out of proportion.
    Work,
    /// More stack than a call may use.
    Stack,
    /// Memory held out of proportion, or not given back.
    Memory,
    /// Threads that read together.
    Share,
    /// A type that must not cross threads although it should.
    Confined,
    /// The same calls went another way.
    Same,
}

impl Orc {
    pub const ALL: &'static [Orc] = &[
        Orc::Inv,
        Orc::Id,
        Orc::Model,
        Orc::Data,
        Orc::Cross,
        Orc::Outcome,
        Orc::Label,
        Orc::Payload,
        Orc::Hook,
        Orc::Copy,
        Orc::Iter,
        Orc::Bft,
        Orc::Print,
        Orc::Build,
        Orc::Hang,
        Orc::Work,
        Orc::Stack,
        Orc::Memory,
        Orc::Share,
        Orc::Confined,
        Orc::Same,
    ];

    pub fn name(self) -> &'static str {
        match self {
            Orc::Inv => "links",
            Orc::Id => "id",
            Orc::Model => "structure",
            Orc::Data => "data",
            Orc::Cross => "other-forest",
            Orc::Outcome => "outcome",
            Orc::Label => "panic-label",
            Orc::Payload => "payload-count",
            Orc::Hook => "callback",
            Orc::Copy => "copy",
            Orc::Iter => "iterator",
            Orc::Bft => "breadth-first",
            Orc::Print => "print",
            Orc::Build => "builder",
            Orc::Hang => "no-end",
            Orc::Work => "work",
            Orc::Stack => "stack",
            Orc::Memory => "memory",
            Orc::Share => "shared-reads",
            Orc::Confined => "confined",
            Orc::Same => "same-again",
        }
    }

    pub fn of(name: &str) -> Option<Orc> {
        Orc::ALL.iter().copied().find(|o| o.name() == name)
    }
}

/// Bytes that a forest may hold, and per ID it has issued. The most that is
/// seen is about 100 per ID.
pub const HELD: u64 = 1024;
pub const HELD_PER_ID: u64 = 480;

/// What kind of step it was, once executed.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
#[repr(u8)]
pub enum Cls {
    /// Nothing could be done in this state.
    Skip,
    /// A legal request without a fault.
    Legal,
    /// An illegal request.
    Refused,
    /// A request that was hit by a fault.
    Faulted,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub orc: Orc,
    pub kind: Kind,
    pub cls: Cls,
    /// Earlier faults of the forest (H_*).
    pub hist: u32,
    /// Faults in this very step, as a bit set.
    pub faults: u64,
    pub msg: String,
}

/// One forest of the world.
pub struct Slot<Id: SimId> {
    pub f: Forest<Id, Pay>,
    pub ids: Vec<Id>,
    pub map: Map<Id>,
    pub model: Model,
    /// Whether nodes exist whose IDs nobody has been told.
    pub leaked: bool,
    /// Payloads of such nodes.
    pub leaky: Vec<u32>,
    /// IDs that may have been used up without anybody being told.
    pub burned: u32,
    /// IDs of a forest whose tables this one may have taken over.
    pub heir: u32,
    pub hist: u32,
}

impl<Id: SimId> Slot<Id> {
    pub fn new(f: Forest<Id, Pay>) -> Self {
        Self {
            f,
            ids: Vec::new(),
            map: Map::default(),
            model: Model::default(),
            leaked: false,
            leaky: Vec::new(),
            burned: 0,
            heir: 0,
            hist: 0,
        }
    }

    pub fn idx(&self, id: Id) -> u32 {
        self.map.get(&id).copied().unwrap_or(NONE)
    }

    pub fn oidx(&self, id: Option<Id>) -> u32 {
        id.map_or(NONE, |id| self.map.get(&id).copied().unwrap_or(NONE - 1))
    }

    /// Whether the next creation may be refused.
    pub fn may_be_full(&self) -> bool {
        self.room() == 0
    }

    pub fn room(&self) -> u32 {
        Id::CAP.saturating_sub(self.ids.len() as u32 + self.burned)
    }
}

/// How a call into the crate ended.
pub enum Out<R> {
    Ok(R),
    Err(StructureError),
    /// Panic with the [precondition] label.
    Pre(String),
    /// Any other panic raised by the crate.
    Bad(String),
    /// Injected panic.
    Inj(&'static str),
    /// Injected allocation failure.
    Oom,
}

pub const OK: u32 = 1;
pub const PRE: u32 = 2;
pub const E_LOOP: u32 = 4;
pub const E_UNORD: u32 = 8;
pub const E_SWP: u32 = 16;
pub const INJ: u32 = 32;
pub const OOM: u32 = 64;
const BAD: u32 = 128;

pub fn exp_name(e: u32) -> String {
    let names = [
        "success",
        "[precondition] panic",
        "Err(AncestorDescendantLoop)",
        "Err(UnorderableSiblings)",
        "Err(SiblingsWithoutParent)",
        "the injected panic",
        "the injected allocation failure",
        "other panic",
    ];
    let v: Vec<_> = (0..8)
        .filter(|b| e >> b & 1 != 0)
        .map(|b| names[b as usize])
        .collect();
    v.join(" or ")
}

impl<R> Out<R> {
    pub fn code(&self) -> u32 {
        match self {
            Out::Ok(_) => OK,
            Out::Err(StructureError::AncestorDescendantLoop) => E_LOOP,
            Out::Err(StructureError::UnorderableSiblings) => E_UNORD,
            Out::Err(StructureError::SiblingsWithoutParent) => E_SWP,
            Out::Pre(_) => PRE,
            Out::Bad(_) => BAD,
            Out::Inj(_) => INJ,
            Out::Oom => OOM,
        }
    }

    pub fn describe(&self) -> String {
        match self {
            Out::Pre(m) | Out::Bad(m) => format!("panic {m:?}"),
            _ => exp_name(self.code()),
        }
    }

    pub fn map<U>(self, f: impl FnOnce(R) -> U) -> Out<U> {
        match self {
            Out::Ok(v) => Out::Ok(f(v)),
            Out::Err(e) => Out::Err(e),
            Out::Pre(m) => Out::Pre(m),
            Out::Bad(m) => Out::Bad(m),
            Out::Inj(m) => Out::Inj(m),
            Out::Oom => Out::Oom,
        }
    }
}

impl Out<Result<(), StructureError>> {
    pub fn flat(self) -> Out<()> {
        match self {
            Out::Ok(Ok(())) => Out::Ok(()),
            Out::Ok(Err(e)) => Out::Err(e),
            o => o.map(|_| ()),
        }
    }
}

thread_local! {
    static LAST_LOC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Makes panics silent and remembers where they come from. A panic raised by
/// the simulator's own code ends the process: it is no verdict.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _hold = crate::meter::Hold::new();
        crate::alloc::stop();
        let _own = Own::new();
        let injected = info.payload().is::<Injected>() || info.payload().is::<InjectedOom>();
        let loc = info
            .location()
            .map_or_else(String::new, |l| format!("{}:{}", l.file(), l.line()));
        if !injected && (loc.starts_with("src/") || crate::alloc::inside(0) == 0) {
            eprintln!("sim: harness error: {info}");
            std::process::exit(3);
        }
        LAST_LOC.with(|l| *l.borrow_mut() = loc);
    }));
}

/// Calls into the crate.
pub fn guard<R>(f: impl FnOnce() -> R) -> Out<R> {
    crate::alloc::inside(1);
    let started = crate::meter::start();
    let r = catch_unwind(AssertUnwindSafe(f));
    crate::meter::stop(started);
    crate::alloc::inside(-1);
    let payload = match r {
        Ok(v) => return Out::Ok(v),
        Err(p) => p,
    };
    let _own = Own::new();
    if let Some(i) = payload.downcast_ref::<Injected>() {
        return Out::Inj(i.0);
    }
    if payload.is::<InjectedOom>() {
        return Out::Oom;
    }
    let msg = if let Some(s) = payload.downcast_ref::<&'static str>() {
        (*s).to_string()
    } else if let Some(s) = payload.downcast_ref::<String>() {
        s.clone()
    } else {
        "(no text)".to_string()
    };
    if msg.starts_with("[precondition]") {
        Out::Pre(msg)
    } else {
        Out::Bad(format!("{msg} at {}", LAST_LOC.with(|l| l.borrow().clone())))
    }
}

/// Numbers about one or many runs.
#[derive(Default, Clone)]
pub struct Stats {
    pub runs: u64,
    pub steps: u64,
    pub kinds: Vec<u64>,
    pub faults: Vec<u64>,
    pub refused: u64,
    pub skipped: u64,
    pub reads: u64,
    pub foreign: u64,
    pub max_nodes: u64,
    pub evals: u64,
    /// Calls whose work was measured, and the most work per unit by kind.
    pub metered: u64,
    /// Most bytes of stack that a call used.
    pub stack: u64,
    /// Most bytes that a forest held per ID.
    pub held: u64,
    /// Readers stopped within and between calls.
    pub stops: u64,
    pub yields: u64,
    pub most: Vec<u64>,
}

impl Stats {
    pub fn new() -> Self {
        Self {
            kinds: vec![0; Kind::ALL.len()],
            faults: vec![0; Fault::ALL.len()],
            most: vec![0; Kind::ALL.len()],
            ..Self::default()
        }
    }
}

/// Number of forests that exist at a time.
pub const SLOTS: usize = 3;

pub struct World<Id: SimId> {
    pub slots: Vec<Option<Box<Slot<Id>>>>,
    /// Payloads that came out of a forest and are kept.
    pub kept: Vec<Pay>,
    /// IDs of a forest that is no part of the world.
    pub donor: Vec<Id>,
    pub viols: Vec<Viol>,
    pub kind: Kind,
    pub cls: Cls,
    /// Slots the step may change.
    pub touched: [bool; SLOTS],
    /// Slot whose history the violations of this step belong to.
    pub main: usize,
    pub hist_add: u32,
    /// Registers of the clients: slot, node.
    pub regs: [(usize, u32); 4],
    pub client: usize,
    pub step_faults: Vec<Fault>,
    pub stats: Stats,
    /// Digest of everything observed.
    pub digest: u64,
    /// Threads ran on their own: the digest means nothing.
    pub unsure: bool,
    /// Fingerprint of the step: state before, operands, fault.
    pub fp: u64,
    /// Event log, when recording.
    pub log: Option<Vec<String>>,
    pub note: String,
    pub ledger: Vec<pay::Rec>,
    pub step_serial0: u32,
}

/// Leaves out the middle of a long message.
fn shorten(msg: String) -> String {
    let n = msg.chars().count();
    if n <= 900 {
        return msg;
    }
    let head: String = msg.chars().take(600).collect();
    let tail: String = msg.chars().skip(n - 200).collect();
    format!("{head} [.. {} characters ..] {tail}", n - 800)
}

impl<Id: SimId> World<Id> {
    pub fn new(record: bool) -> Self {
        pay::reset();
        let donor = {
            let mut f = Forest::<Id, ()>::new();
            let n = Id::CAP.min(254);
            (0..n)
                .map(|_| match guard(|| f.create_root(())) {
                    Out::Ok(id) => Some(id),
                    _ => None,
                })
                .take_while(Option::is_some)
                .flatten()
                .collect()
        };
        let mut slots: Vec<_> = (0..SLOTS).map(|_| None).collect();
        slots[0] = Some(Box::new(Slot::new(Forest::new())));
        Self {
            slots,
            kept: Vec::new(),
            donor,
            viols: Vec::new(),
            kind: Kind::New,
            cls: Cls::Skip,
            touched: [false; SLOTS],
            main: 0,
            hist_add: 0,
            regs: [(0, NONE); 4],
            client: 0,
            step_faults: Vec::new(),
            stats: Stats::new(),
            digest: 0,
            unsure: false,
            fp: 0,
            log: record.then(Vec::new),
            note: String::new(),
            ledger: Vec::new(),
            step_serial0: 0,
        }
    }

    /// Reports a violation.
    pub fn v(&mut self, orc: Orc, msg: String) {
        if self.viols.len() < 8 {
            let msg = shorten(msg);
            self.viols.push(Viol {
                orc,
                kind: self.kind,
                cls: self.cls,
                hist: 0,
                faults: 0,
                msg,
            });
        }
    }

    pub fn set_cls(&mut self, c: Cls) {
        self.cls = c;
        crate::progress::class(self.kind as u8, c as u8);
    }

    pub fn fault(&mut self, f: Fault) {
        if crate::alloc::is_calm() && matches!(f, Fault::OpOom | Fault::BftBlackout) {
            return;
        }
        self.stats.faults[f as usize] += 1;
        self.step_faults.push(f);
        self.fp = comb(self.fp, 1000 + f as u64);
    }

    /// Writes to the event log.
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.log.is_some() {
            if !self.note.is_empty() {
                self.note.push_str("; ");
            }
            self.note.push_str(&f());
        }
    }

    pub fn dig(&mut self, v: u64) {
        self.digest = comb(self.digest, v);
    }

    /// Checks how a call ended. Returns its result if it succeeded.
    pub fn judge<R>(&mut self, what: &str, out: Out<R>, exp: u32) -> Option<R> {
        let code = out.code();
        self.dig(u64::from(code));
        self.log(|| format!("{what} -> {}", out.describe()));
        if code & exp == 0 {
            let bad = match &out {
                Out::Bad(_) => true,
                Out::Pre(_) => true,
                _ => false,
            };
            let msg = format!("{what}: expected {}, got {}", exp_name(exp), out.describe());
            if bad {
                self.v(Orc::Label, msg.clone());
            }
            self.v(Orc::Outcome, msg);
        }
        match out {
            Out::Ok(v) => Some(v),
            _ => None,
        }
    }

    /// Executes a step and checks the world afterwards.
    pub fn step(&mut self, s: &Step) {
        self.viols.clear();
        self.kind = s.kind;
        self.set_cls(Cls::Skip);
        self.touched = [false; SLOTS];
        self.main = 0;
        self.hist_add = 0;
        self.client = s.client as usize % self.regs.len();
        self.step_faults.clear();
        self.note.clear();
        self.fp = comb(0, s.kind as u64);
        self.step_serial0 = pay::count();
        if self.slots.iter().all(Option::is_none) {
            self.slots[0] = Some(Box::new(Slot::new(Forest::new())));
        }
        self.dig(s.kind as u64);
        crate::meter::reset();

        self.execute(s);

        // Leftovers of an injection must not hit the checks.
        crate::alloc::disarm();
        pay::disarm();

        if let (Some(m), false) = (crate::meter::over(), crate::meter::DEEP) {
            self.v(Orc::Work, m);
        }
        if let Some(m) = crate::meter::deep() {
            self.v(Orc::Stack, m);
        }
        if crate::meter::ON {
            self.stats.stack = self.stats.stack.max(crate::meter::deepest());
            let (calls, most) = crate::meter::take();
            self.stats.metered += calls;
            let m = &mut self.stats.most[s.kind as usize];
            *m = (*m).max(most);
            if !crate::meter::DEEP {
                self.dig(most);
                self.log(|| format!("at most {most} blocks per unit"));
            }
        }

        self.stats.steps += 1;
        self.stats.kinds[s.kind as usize] += 1;
        match self.cls {
            Cls::Refused => self.stats.refused += 1,
            Cls::Skip => self.stats.skipped += 1,
            _ => {}
        }
        self.audit();
        let hist = self.slots[self.main].as_ref().map_or(0, |s| s.hist);
        let cls = self.cls;
        let faults = self.step_faults.iter().fold(0, |a, f| a | 1u64 << *f as u64);
        for v in &mut self.viols {
            v.hist = hist;
            v.cls = cls;
            v.faults = faults;
        }
        if self.hist_add != 0 {
            let (touched, add) = (self.touched, self.hist_add);
            for (i, s) in self.slots.iter_mut().enumerate() {
                if let (true, Some(s)) = (touched[i], s) {
                    s.hist |= add;
                }
            }
        }
        let shape = self.slots[self.main]
            .as_ref()
            .map_or(0, |s| s.model.shape([NONE; 2]));
        self.dig(shape);
        self.dig(u64::from(pay::count()));
        self.dig(pay::trail());
        if let Some(log) = &mut self.log {
            let mut line = s.to_line();
            line.push_str(" | ");
            line.push_str(&self.note);
            line.push_str(&format!(" | {:?} state {:016x}", self.cls, self.digest));
            for v in &self.viols {
                line.push_str(&format!(" | VIOLATION {}: {}", v.orc.name(), v.msg));
            }
            log.push(line);
        }
    }

    /// Checks all forests and payloads.
    fn audit(&mut self) {
        for i in 0..SLOTS {
            let Some(slot) = self.slots[i].take() else {
                continue;
            };
            let touched = self.touched[i];
            let mut found = Vec::new();
            crate::meter::any();
            let out = guard(|| audit_slot(&slot, &mut found));
            if let Out::Pre(m) | Out::Bad(m) = out {
                found.push((Orc::Inv, format!("navigation panics: {m}")));
                found.push((Orc::Label, format!("navigation panics: {m}")));
            }
            self.stats.max_nodes = self.stats.max_nodes.max(u64::from(slot.model.live));
            self.slots[i] = Some(slot);
            for (orc, msg) in found {
                let msg = format!("forest {i}: {msg}");
                if touched || orc == Orc::Label {
                    self.v(orc, msg);
                } else {
                    self.v(Orc::Cross, msg.clone());
                    self.v(orc, msg);
                }
            }
        }
        self.audit_payloads();
    }

    /// Checks that exactly the payloads that should exist do.
    fn audit_payloads(&mut self) {
        let mut ledger = std::mem::take(&mut self.ledger);
        pay::all(&mut ledger);
        let mut expected = 0;
        let mut early = None;
        let mut see = |serial: u32| {
            expected += 1;
            if ledger.get(serial as usize).map_or(true, |r| r.dropped) {
                early = Some(serial);
            }
        };
        for slot in self.slots.iter().flatten() {
            for n in &slot.model.n {
                if n.alive {
                    see(n.serial);
                }
            }
            for &s in &slot.leaky {
                see(s);
            }
        }
        for p in &self.kept {
            see(p.serial);
        }
        let existing = ledger.iter().filter(|r| !r.dropped).count();
        if let Some(serial) = early {
            self.v(
                Orc::Payload,
                format!("payload {serial} was dropped although its node is alive"),
            );
        } else if existing != expected {
            let mut known = vec![false; ledger.len()];
            for slot in self.slots.iter().flatten() {
                for n in slot.model.n.iter().filter(|n| n.alive) {
                    known[n.serial as usize] = true;
                }
                for &s in &slot.leaky {
                    known[s as usize] = true;
                }
            }
            for p in &self.kept {
                known[p.serial as usize] = true;
            }
            let lost: Vec<_> = (0..ledger.len())
                .filter(|&i| !ledger[i].dropped && !known[i])
                .take(5)
                .collect();
            self.v(
                Orc::Payload,
                format!("payloads {lost:?} are retained although nothing holds them ({existing} exist, {expected} expected)"),
            );
        }
        self.ledger = ledger;
    }

    /// Drops a slot's forest. The payloads must go with it.
    pub fn drop_slot(&mut self, i: usize) {
        if let Some(slot) = self.slots[i].take() {
            self.touched[i] = true;
            crate::meter::allow(2 * slot.ids.len() as u64 + u64::from(slot.burned));
            let issued = (slot.ids.len() as u64 + u64::from(slot.burned)).max(u64::from(slot.heir));
            let Slot { f, .. } = *slot;
            let held = crate::alloc::live();
            let out = guard(|| drop(f));
            if matches!(out, Out::Ok(())) {
                let held = (held - crate::alloc::live()).max(0) as u64;
                if let Some(per) = held.saturating_sub(HELD).checked_div(issued.max(1)) {
                    self.stats.held = self.stats.held.max(per);
                    if per > HELD_PER_ID {
                        self.v(Orc::Memory, format!("forest {i} held {held} bytes for {issued} IDs"));
                    }
                }
            }
            self.judge("drop of the forest", out, OK);
        }
    }

    /// Ends the run: drops everything and checks that nothing is left.
    pub fn finish(&mut self) {
        self.viols.clear();
        self.kind = Kind::DropForest;
        self.set_cls(Cls::Legal);
        self.note.clear();
        for i in 0..SLOTS {
            self.drop_slot(i);
        }
        self.kept.clear();
        self.audit_payloads();
        self.dig(pay::trail());
        if let Some(log) = &mut self.log {
            let mut line = format!("end | state {:016x}", self.digest);
            for v in &self.viols {
                line.push_str(&format!(" | VIOLATION {}: {}", v.orc.name(), v.msg));
            }
            log.push(line);
        }
    }

    /// Past faults of all forests.
    pub fn hists(&self) -> u32 {
        self.slots.iter().flatten().fold(0, |h, s| h | s.hist)
    }

    /// State of the world: all forests, by shape.
    pub fn state(&self) -> u64 {
        self.slots.iter().fold(0, |h, s| {
            comb(h, s.as_ref().map_or(1, |s| s.model.shape([NONE; 2])))
        })
    }

    /// Takes over the state of the real forests into the models, provided that
    /// their links are in order. Used to go on after a violation that is not
    /// the business of the property being checked.
    pub fn resync(&mut self) -> bool {
        for i in 0..SLOTS {
            let Some(mut slot) = self.slots[i].take() else {
                continue;
            };
            let mut found = Vec::new();
            let ok = match guard(|| observe(&mut slot)) {
                Out::Ok(ok) => ok,
                _ => false,
            };
            let ok = ok
                && matches!(guard(|| audit_slot(&slot, &mut found)), Out::Ok(()))
                && found.is_empty();
            self.slots[i] = Some(slot);
            if !ok {
                return false;
            }
        }
        self.viols.clear();
        self.audit_payloads();
        self.viols.is_empty()
    }

    /// A new world with the same forests, made from scratch: nothing of the
    /// past of the real forests is in it. `None` if that fails.
    pub fn rebuilt(&self) -> Option<World<Id>> {
        let mut w = World::<Id>::new(self.log.is_some());
        w.slots[0] = None;
        for (i, slot) in self.slots.iter().enumerate() {
            let Some(slot) = slot else { continue };
            let mut new = Slot::new(Forest::new());
            let m = &slot.model;
            let out = guard(|| {
                for n in &m.n {
                    let p = pay::make(n.val);
                    let serial = p.serial;
                    let id = new.f.create_root(p);
                    new.map.insert(id, new.ids.len() as u32);
                    new.ids.push(id);
                    new.model.push_root(serial, n.val);
                }
                for r in m.roots() {
                    for c in m.preorder(r) {
                        if let Some(p) = m.parent(c) {
                            let dest = treena::dynamic::InsertAs::LastChildOf(new.ids[p as usize]);
                            if new.f.insert(new.ids[c as usize], dest).is_err() {
                                return false;
                            }
                            new.model.attach(c, p, crate::model::Dest::Last);
                        }
                    }
                }
                for c in 0..m.n.len() as u32 {
                    if !m.alive(c) {
                        new.f.remove(new.ids[c as usize]);
                        new.model.kill(c);
                    }
                }
                let mut found = Vec::new();
                audit_slot(&new, &mut found);
                found.is_empty()
            });
            if !matches!(out, Out::Ok(true)) {
                return None;
            }
            w.slots[i] = Some(Box::new(new));
        }
        for _ in &self.kept {
            w.kept.push(pay::make(0));
        }
        w.regs = self.regs;
        Some(w)
    }
}

/// Reads the forest through its public interface into the model. IDs that
/// nobody has seen yet are taken in if navigation leads to them.
pub fn observe<Id: SimId>(slot: &mut Slot<Id>) -> bool {
    let mut m = Model::default();
    let mut i = 0;
    while i < slot.ids.len() {
        if i > 200_000 {
            return false;
        }
        let id = slot.ids[i];
        i += 1;
        let Some(node) = slot.f.node(id) else {
            m.n.push(MNode {
                alive: false,
                parent: NONE,
                children: Vec::new(),
                serial: NONE,
                val: 0,
            });
            continue;
        };
        let mut learn = |id: Id| -> u32 {
            let next = slot.ids.len() as u32;
            *slot.map.entry(id).or_insert_with(|| {
                slot.ids.push(id);
                next
            })
        };
        let parent = node.parent_id().map_or(NONE, &mut learn);
        let mut children = Vec::new();
        let mut c = node.first_child();
        while let Some(ch) = c {
            children.push(learn(ch.id()));
            if children.len() > 200_000 {
                return false;
            }
            c = ch.next_sibling();
        }
        m.n.push(MNode {
            alive: true,
            parent,
            children,
            serial: node.data().serial,
            val: node.data().val,
        });
        m.live += 1;
    }
    slot.model = m;
    true
}

/// Checks one forest: agreement of the navigation answers with each other
/// (`Inv`), resolution of the IDs (`Id`), and agreement with the model.
pub fn audit_slot<Id: SimId>(slot: &Slot<Id>, found: &mut Vec<(Orc, String)>) {
    let _own = Own::new();
    let n = slot.ids.len();
    let m = &slot.model;
    let f = &slot.f;
    let max = 6;
    // Nodes that following parents is known to end for.
    let mut rooted = vec![false; n];
    for i in 0..n {
        if found.len() >= max {
            break;
        }
        let id = slot.ids[i];
        let mn = &m.n[i];
        let node = f.node(id);
        if let Some(node) = &node {
            links(slot, i as u32, node, &mut rooted, found);
        }
        if node.is_some() != mn.alive {
            found.push((
                Orc::Id,
                format!(
                    "node {i} is {} but should be {}",
                    if node.is_some() { "alive" } else { "gone" },
                    if mn.alive { "alive" } else { "gone" }
                ),
            ));
            continue;
        }
        let data = f.data(id);
        if data.is_some() != mn.alive {
            found.push((
                Orc::Id,
                format!("node {i}: alive {} but data() is some: {}", mn.alive, data.is_some()),
            ));
            continue;
        }
        let (Some(node), Some(data)) = (node, data) else {
            continue;
        };
        if data.serial != mn.serial || data.val != mn.val {
            found.push((
                Orc::Data,
                format!("node {i} has payload {}, expected {}", data.serial, mn.serial),
            ));
        }
        // Compare with the model.
        let parent = slot.oidx(node.parent_id());
        if parent != mn.parent {
            found.push((
                Orc::Model,
                format!("parent of node {i} is {}, expected {}", nn(parent), nn(mn.parent)),
            ));
        }
        let mut c = node.first_child_id();
        let mut k = 0;
        let mut same = true;
        while let (Some(id), true) = (c, same) {
            same = mn.children.get(k) == Some(&slot.idx(id));
            k += 1;
            c = f.node(id).and_then(|n| n.next_sibling_id());
        }
        if !same || k != mn.children.len() {
            let mut got = Vec::new();
            let mut c = node.first_child_id();
            while let Some(id) = c {
                got.push(slot.idx(id));
                if got.len() > mn.children.len() + 4 {
                    break;
                }
                c = f.node(id).and_then(|n| n.next_sibling_id());
            }
            found.push((
                Orc::Model,
                format!("children of node {i} are {got:?}, expected {:?}", mn.children),
            ));
        }
    }
}

/// For messages.
pub fn nn(i: u32) -> String {
    match i {
        NONE => "none".to_string(),
        i if i == NONE - 1 => "a node with an unknown ID".to_string(),
        i => i.to_string(),
    }
}

/// Checks that the answers around one live node agree.
fn links<Id: SimId>(
    slot: &Slot<Id>,
    i: u32,
    node: &Node<'_, Id, Pay>,
    rooted: &mut [bool],
    found: &mut Vec<(Orc, String)>,
) {
    let f = &slot.f;
    let id = slot.ids[i as usize];
    let mut bad = |msg: String| found.push((Orc::Inv, format!("node {i}: {msg}")));
    if node.id() != id {
        bad("node(id).id() is another ID".to_string());
        return;
    }
    let (p, nx, pv) = (node.parent_id(), node.next_sibling_id(), node.prev_sibling_id());
    let (fc, lc) = (node.first_child_id(), node.last_child_id());
    // The handle-returning variants.
    let same = node.parent().map(|n| n.id()) == p
        && node.next_sibling().map(|n| n.id()) == nx
        && node.prev_sibling().map(|n| n.id()) == pv
        && node.first_child().map(|n| n.id()) == fc
        && node.last_child().map(|n| n.id()) == lc
        && node.first_last_child_id() == fc.zip(lc)
        && node.first_last_child().map(|(a, b)| (a.id(), b.id())) == fc.zip(lc);
    if !same {
        bad("variants of the same navigation disagree".to_string());
    }
    if fc.is_some() != lc.is_some() {
        bad("has a first child but no last child, or the other way round".to_string());
    }
    for (what, other) in [
        ("parent", p),
        ("next sibling", nx),
        ("previous sibling", pv),
        ("first child", fc),
        ("last child", lc),
    ] {
        if let Some(o) = other {
            if f.node(o).is_none() {
                bad(format!("its {what} is a removed or unknown node"));
                return;
            }
            if o == id {
                bad(format!("is its own {what}"));
                return;
            }
            if slot.idx(o) == NONE {
                bad(format!("its {what} has an ID that was never handed out"));
                return;
            }
        }
    }
    let at = |id: Id| f.node(id).expect("src");
    if p.is_none() && (nx.is_some() || pv.is_some()) {
        bad("is a root but has siblings".to_string());
    }
    if let Some(o) = nx {
        if at(o).prev_sibling_id() != Some(id) {
            bad("its next sibling does not name it as previous sibling".to_string());
        }
        if at(o).parent_id() != p {
            bad("its next sibling has another parent".to_string());
        }
    }
    if let Some(o) = pv {
        if at(o).next_sibling_id() != Some(id) {
            bad("its previous sibling does not name it as next sibling".to_string());
        }
        if at(o).parent_id() != p {
            bad("its previous sibling has another parent".to_string());
        }
    }
    if let Some(p) = p {
        let parent = at(p);
        if pv.is_none() != (parent.first_child_id() == Some(id)) {
            bad("first child of the parent and lack of a previous sibling disagree".to_string());
        }
        if nx.is_none() != (parent.last_child_id() == Some(id)) {
            bad("last child of the parent and lack of a next sibling disagree".to_string());
        }
        // No cycle upwards.
        let mut path = vec![i];
        let mut cur = Some(p);
        while let Some(c) = cur {
            let at = slot.idx(c);
            if at == NONE || rooted[at as usize] {
                break;
            }
            if c == id || path.len() > slot.ids.len() {
                bad("is its own ancestor".to_string());
                return;
            }
            path.push(at);
            cur = match f.node(c) {
                Some(n) => n.parent_id(),
                None => break,
            };
        }
        for at in path {
            rooted[at as usize] = true;
        }
    }
    // Children forwards and backwards.
    let mut c = fc;
    let mut k = 0;
    let mut last = None;
    while let Some(o) = c {
        k += 1;
        if k > slot.ids.len() {
            bad("walking its children does not end".to_string());
            return;
        }
        let Some(child) = f.node(o) else {
            bad("one of its children is a removed or unknown node".to_string());
            return;
        };
        if child.parent_id() != Some(id) {
            bad("one of its children names another parent".to_string());
            return;
        }
        last = c;
        c = child.next_sibling_id();
    }
    if last != lc {
        bad("walking its children does not end at the last child".to_string());
    }
    let mut back = 0;
    let mut c = lc;
    while let Some(o) = c {
        back += 1;
        if back > slot.ids.len() {
            bad("walking its children backwards does not end".to_string());
            return;
        }
        c = f.node(o).and_then(|n| n.prev_sibling_id());
    }
    if back != k {
        bad("has different numbers of children forwards and backwards".to_string());
    }
}

/// Hash of the shape of a slot's forest with operands marked.
pub fn mark<Id: SimId>(slot: &Slot<Id>, a: u32, b: u32) -> u64 {
    mix(slot.model.shape([a, b]))
}

/// A hash of what `Debug` shows.
pub fn text_hash(v: &dyn std::fmt::Debug) -> u64 {
    struct H(u64);
    impl std::fmt::Write for H {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for b in s.bytes() {
                self.0 = (self.0 ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3);
            }
            Ok(())
        }
    }
    let mut h = H(0xcbf2_9ce4_8422_2325);
    let _ = std::fmt::Write::write_fmt(&mut h, format_args!("{v:?}"));
    h.0
}
