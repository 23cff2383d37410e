//! Execution of the steps that change forests.

use std::mem;
use std::panic::panic_any;

use treena::dynamic::{AdoptAs, ChainTreeBuilder, Forest, InsertAs, NestTreeBuilder};

use crate::alloc;
use crate::ids::SimId;
use crate::meter;
use crate::model::{Dest, Model};
use crate::pay::{self, Injected, Pay, NONE};
use crate::progress;
use crate::rng::{comb, mix, Rng};
use crate::step::*;
use crate::world::*;

impl Dest {
    pub fn insert<Id>(self, anchor: Id) -> InsertAs<Id> {
        match self {
            Dest::First => InsertAs::FirstChildOf(anchor),
            Dest::Last => InsertAs::LastChildOf(anchor),
            Dest::Prev => InsertAs::PreviousSiblingOf(anchor),
            Dest::Next => InsertAs::NextSiblingOf(anchor),
        }
    }

    pub fn adopt(self) -> AdoptAs {
        match self {
            Dest::First => AdoptAs::FirstChild,
            Dest::Last => AdoptAs::LastChild,
            Dest::Prev => AdoptAs::PreviousSibling,
            Dest::Next => AdoptAs::NextSibling,
        }
    }
}

/// An operand: a node of the slot (alive or removed), or an ID the forest
/// never issued.
#[derive(Clone, Copy)]
pub struct Op<Id> {
    pub id: Id,
    /// Index of the node, `NONE` for an ID that was never issued.
    pub idx: u32,
    pub alive: bool,
}

fn nth(n: usize, k: u32, mut f: impl FnMut(u32) -> bool) -> Option<u32> {
    let hits = (0..n as u32).filter(|&i| f(i)).count();
    if hits == 0 {
        return None;
    }
    (0..n as u32).filter(|&i| f(i)).nth(k as usize % hits)
}

/// Forests with more nodes are spared everything that takes quadratic time.
pub const GIANT: usize = 8000;

/// Number of selector modes.
pub const SEL_MODES: u32 = 15;

impl<Id: SimId> World<Id> {
    pub fn pick_slot(&mut self, p: u32) -> usize {
        let have: Vec<_> = (0..SLOTS).filter(|&i| self.slots[i].is_some()).collect();
        let i = have[p as usize % have.len()];
        self.main = i;
        self.touched[i] = true;
        i
    }

    fn other_slot(&self, i: usize, p: u32) -> Option<usize> {
        let have: Vec<_> = (0..SLOTS)
            .filter(|&j| j != i && self.slots[j].is_some())
            .collect();
        (!have.is_empty()).then(|| have[p as usize % have.len()])
    }

    /// Finds the node a selector means. `base` is the node it may be relative
    /// to.
    pub fn select(&self, slot: &Slot<Id>, si: usize, mode: u32, k: u32, base: u32) -> Option<Op<Id>> {
        let m = &slot.model;
        let n = m.n.len();
        let live = |i: u32| m.alive(i);
        let mode = match mode % SEL_MODES {
            // These take too long in a giant forest.
            6 | 7 | 11 | 12 if n > GIANT => 0,
            mode => mode,
        };
        let found = match mode {
            1 => nth(n, k, |i| live(i) && m.n[i as usize].parent == NONE),
            2 => {
                let last: Vec<_> = (0..n as u32).rev().filter(|&i| live(i)).take(4).collect();
                (!last.is_empty()).then(|| last[k as usize % last.len()])
            }
            3 => nth(n, k, |i| !live(i)),
            4 => {
                if !slot.leaked {
                    let free: Vec<_> = self
                        .donor
                        .iter()
                        .filter(|id| !slot.map.contains_key(id))
                        .collect();
                    if !free.is_empty() {
                        // Mostly the very next ID, the one right after it, or
                        // the last possible one.
                        let pos = match k % 4 {
                            0 => 0,
                            1 => 1.min(free.len() - 1),
                            2 => free.len() - 1,
                            _ => k as usize / 4 % free.len(),
                        };
                        return Some(Op {
                            id: *free[pos],
                            idx: NONE,
                            alive: false,
                        });
                    }
                }
                None
            }
            5 => nth(n, k, |i| live(i) && m.children(i).is_empty()),
            6 => nth(n, k, |i| live(i) && m.pos(i).map_or(false, |(p, c)| p == 0 && c > 1)),
            7 => nth(n, k, |i| live(i) && m.pos(i).map_or(false, |(p, c)| p + 1 == c && c > 1)),
            8 => nth(n, k, |i| live(i) && m.children(i).len() == 1),
            9 => {
                let (s, r) = self.regs[self.client];
                (s == si && live(r)).then_some(r)
            }
            10 => (live(base)).then(|| self.relative(m, base, k)).flatten(),
            11 => (0..n as u32).filter(|&i| live(i)).max_by_key(|&i| (m.depth(i), i)),
            12 => nth(n, k, |i| {
                live(i) && m.pos(i).map_or(false, |(p, c)| p > 0 && p + 1 < c)
            }),
            13 => nth(n, k, |i| live(i) && m.children(i).len() > 1),
            // The one with most children, perhaps of those that have siblings.
            14 => (0..n as u32)
                .filter(|&i| live(i) && (k % 4 == 0 || m.parent(i).is_some_and(|p| k % 4 == 1 || m.children(p).len() > 1)))
                .max_by_key(|&i| (m.children(i).len(), i)),
            _ => None,
        };
        let i = found.or_else(|| {
            // All nodes that are alive.
            (m.live > 0)
                .then(|| nth(n, k, live))
                .flatten()
        })?;
        Some(Op {
            id: slot.ids[i as usize],
            idx: i,
            alive: m.alive(i),
        })
    }

    fn relative(&self, m: &Model, base: u32, k: u32) -> Option<u32> {
        let kk = (k / 12) as usize;
        match k % 12 {
            0 => Some(base),
            1 => m.parent(base),
            2 => m.prev(base),
            3 => m.next(base),
            4 => m.children(base).first().copied(),
            5 => m.children(base).last().copied(),
            6 => {
                let mut cur = base;
                for _ in 0..=kk % 3 {
                    cur = m.parent(cur)?;
                }
                Some(cur)
            }
            7 => {
                let d = m.preorder(base);
                (d.len() > 1).then(|| d[1 + kk % (d.len() - 1)])
            }
            8 => {
                let c = m.children(m.parent(base)?);
                Some(c[kk % c.len()])
            }
            9 => Some(m.root_of(base)),
            10 => m.parent(base).and_then(|p| m.next(p).or_else(|| m.prev(p))),
            _ => m.next(base).and_then(|n| m.children(n).first().copied()),
        }
    }

    pub fn execute(&mut self, s: &Step) {
        match s.kind {
            Kind::New => self.op_new(s),
            Kind::DropForest => self.op_drop(s),
            Kind::Grow => self.op_grow(s),
            Kind::Root => self.op_create(s, true),
            Kind::Create => self.op_create(s, false),
            Kind::Move => self.op_move(s),
            Kind::Detach => self.op_detach(s),
            Kind::DetachSingle => self.op_detach_single(s),
            Kind::Remove => self.op_remove(s),
            Kind::Clone => self.op_clone(s),
            Kind::Snap => self.op_snap(s),
            Kind::Data => self.op_data(s),
            Kind::Chain => self.op_chain(s),
            Kind::Nest => self.op_nest(s),
            Kind::Read => self.op_read(s),
            Kind::Bft => self.op_bft(s),
            Kind::Print => self.op_print(s),
            Kind::AllocCreate => self.op_alloc_create(s),
            Kind::Fill => self.op_fill(s),
            Kind::Lookup => self.op_lookup(s),
            Kind::Share => self.op_share(s),
            Kind::Away => self.set_cls(Cls::Legal),
            Kind::Other => self.op_other(s),
        }
    }

    fn op_new(&mut self, s: &Step) {
        let i = s.p(0) as usize % SLOTS;
        self.main = i;
        self.set_cls(Cls::Legal);
        self.drop_slot(i);
        self.touched[i] = true;
        let out = guard(|| if s.p(1) % 2 == 0 { Forest::new() } else { Forest::default() });
        if let Some(f) = self.judge("new forest", out, OK) {
            self.slots[i] = Some(Box::new(Slot::new(f)));
        }
    }

    fn op_drop(&mut self, s: &Step) {
        let i = self.pick_slot(s.p(0));
        self.set_cls(Cls::Legal);
        self.drop_slot(i);
    }

    /// Takes a new ID into the books.
    fn learn(&mut self, slot: &mut Slot<Id>, id: Id, serial: u32, val: u32) -> u32 {
        let i = slot.model.push_root(serial, val);
        debug_assert_eq!(slot.ids.len() as u32, i);
        if let Some(&old) = slot.map.get(&id) {
            let state = if slot.model.alive(old) { "alive" } else { "removed" };
            self.v(
                Orc::Id,
                format!("the new node got the ID of node {old}, which is {state}"),
            );
        }
        slot.map.insert(id, i);
        slot.ids.push(id);
        if i < 2000 {
            self.dig(text_hash(&id));
        }
        i
    }

    /// Refusals that the anchor of a creation calls for. 0: none.
    fn create_refusal(&mut self, slot: &Slot<Id>, anchor: &Op<Id>, dest: Dest) -> u32 {
        let mut exp = 0;
        if !anchor.alive {
            self.fault(if anchor.idx == NONE {
                Fault::UnissuedId
            } else {
                Fault::StaleId
            });
            exp |= PRE;
        } else if dest.sibling() && slot.model.parent(anchor.idx).is_none() {
            self.fault(Fault::Refused);
            exp |= PRE;
        }
        exp
    }

    /// Creates one node. `anchor`: `None` for a root.
    fn create_one(
        &mut self,
        slot: &mut Slot<Id>,
        anchor: Option<(Op<Id>, Dest)>,
        api: u32,
        val: u32,
        what: &str,
    ) -> Option<u32> {
        let mut exp = 0;
        if let Some((a, d)) = &anchor {
            exp = self.create_refusal(slot, a, *d);
        }
        let full = slot.may_be_full();
        if exp != 0 {
            self.set_cls(Cls::Refused);
            self.hist_add |= H_REFUSED;
        } else {
            exp = OK;
            if full {
                exp |= PRE;
            }
        }
        let p = pay::make(val);
        let serial = p.serial;
        let f = &mut slot.f;
        // Insertion includes a test for loops, which goes up from the anchor.
        let up = match &anchor {
            Some((a, _)) if meter::ON && a.alive => slot.model.depth(a.idx),
            _ => 0,
        };
        meter::creates(u64::from(up));
        let out = match &anchor {
            None => guard(|| Some(f.create_root(p))),
            Some((a, d)) => {
                let (id, d) = (a.id, *d);
                if api % 2 == 0 {
                    guard(|| Some(f.create_insert(p, d.insert(id))))
                } else {
                    match guard(|| f.node_mut(id).map(|mut n| n.create(p, d.adopt()))) {
                        Out::Ok(None) => {
                            // The node cannot even be addressed.
                            if a.alive {
                                self.v(Orc::Id, format!("node_mut of live node {} is None", a.idx));
                            }
                            return None;
                        }
                        o => o,
                    }
                }
            }
        };
        if full && out.code() == PRE {
            self.set_cls(Cls::Refused);
            self.hist_add |= H_REFUSED;
            self.fault(Fault::Exhausted);
        }
        let id = self.judge(what, out, exp).flatten()?;
        if exp & OK == 0 {
            return None;
        }
        let i = self.learn(slot, id, serial, val);
        if let Some((a, d)) = anchor {
            slot.model.attach(i, a.idx, d);
        }
        Some(i)
    }

    fn op_create(&mut self, s: &Step, root: bool) {
        let si = self.pick_slot(s.p(0));
        let mut slot = self.slots[si].take().unwrap();
        self.set_cls(Cls::Legal);
        if root {
            self.fp = comb(self.fp, mark(&slot, NONE, NONE));
            if let Some(i) = self.create_one(&mut slot, None, 0, s.p(5), "create_root") {
                self.regs[self.client] = (si, i);
            }
        } else if let Some(a) = self.select(&slot, si, s.p(1), s.p(2), NONE) {
            let dest = Dest::of(s.p(3));
            self.fp = comb(comb(self.fp, mark(&slot, a.idx, NONE)), u64::from(s.p(3) % 4));
            let what = format!("create {dest:?} of {}", nn(a.idx));
            if let Some(i) = self.create_one(&mut slot, Some((a, dest)), s.p(4), s.p(5), &what) {
                self.regs[self.client] = (si, i);
            }
        } else {
            self.set_cls(Cls::Skip);
        }
        self.slots[si] = Some(slot);
    }

    /// Creates many nodes, in some shape.
    fn op_grow(&mut self, s: &Step) {
        let si = self.pick_slot(s.p(0));
        let mut slot = self.slots[si].take().unwrap();
        self.set_cls(Cls::Legal);
        let count = s.p(1).min(70_000);
        let style = s.p(2) % 7;
        let mut rng = Rng::new(u64::from(s.p(3)));
        let mut mine: Vec<u32> = Vec::new();
        if s.p(4) % 2 == 1 {
            // Below an existing node.
            if let Some(a) = self.select(&slot, si, 9, s.p(5), NONE) {
                if a.alive {
                    mine.push(a.idx);
                }
            }
        }
        let mut hub = 0;
        for k in 0..count {
            if !self.viols.is_empty() || (slot.may_be_full() && k > 0) {
                break;
            }
            if k % 256 == 0 {
                progress::tick();
            }
            let val = rng.below(1 << 20);
            let api = rng.below(2);
            if mine.is_empty() {
                match self.create_one(&mut slot, None, 0, val, "create_root") {
                    Some(i) => mine.push(i),
                    None => break,
                }
                continue;
            }
            let n = mine.len();
            let (a, d) = match style {
                // Random recursive tree.
                0 | 1 => (mine[rng.below(n as u32) as usize], rng.below(4)),
                // Chain: every creation walks up to the root.
                2 if n < 16_000 => (mine[n - 1], rng.below(2)),
                2 => (mine[n % 100], rng.below(2)),
                // Star.
                3 => (mine[0], rng.below(2)),
                // Wide levels.
                4 => (mine[n / 3], rng.below(2)),
                // Caterpillar.
                5 => {
                    if rng.pct(30) && n < 20_000 {
                        hub = n - 1;
                    }
                    (mine[hub], rng.below(2))
                }
                // Several roots.
                _ => {
                    if rng.pct(25) {
                        if let Some(i) = self.create_one(&mut slot, None, 0, val, "create_root") {
                            mine.push(i);
                        }
                        continue;
                    }
                    (mine[rng.below(n as u32) as usize], rng.below(4))
                }
            };
            let mut dest = Dest::of(d);
            if dest.sibling() && slot.model.parent(a).is_none() {
                dest = Dest::Last;
            }
            let op = Op {
                id: slot.ids[a as usize],
                idx: a,
                alive: true,
            };
            match self.create_one(&mut slot, Some((op, dest)), api, val, "create") {
                Some(i) => mine.push(i),
                None => break,
            }
        }
        if let Some(&i) = mine.last() {
            self.regs[self.client] = (si, i);
        }
        self.slots[si] = Some(slot);
    }

    fn note_dead(&mut self, op: &Op<Id>) {
        if !op.alive {
            self.fault(if op.idx == NONE {
                Fault::UnissuedId
            } else {
                Fault::StaleId
            });
        }
    }

    fn refused(&mut self) {
        self.set_cls(Cls::Refused);
        self.hist_add |= H_REFUSED;
    }

    /// Lets a change run without memory, if the operand says so.
    fn arm_op(&mut self, p: u32) {
        if p != 0 {
            self.fault(Fault::OpOom);
            alloc::arm_at((p - 1) % 4);
        }
    }

    /// Ends what `arm_op` began. If an allocation failed, the call may end with
    /// that, and may have done part of its work, provided that the links agree.
    fn disarm_op(&mut self, slot: &mut Slot<Id>, code: u32) -> u32 {
        let (_, fired) = alloc::disarm();
        if fired == 0 {
            return 0;
        }
        if code == OOM {
            self.set_cls(Cls::Faulted);
            meter::any();
            if !matches!(guard(|| observe(slot)), Out::Ok(true)) {
                self.v(Orc::Inv, "navigation does not end well after an allocation failed".to_string());
            }
        }
        OOM
    }

    fn op_move(&mut self, s: &Step) {
        let si = self.pick_slot(s.p(0));
        let mut slot = self.slots[si].take().unwrap();
        let node = self.select(&slot, si, s.p(1), s.p(2), NONE);
        let anchor = node.and_then(|n| self.select(&slot, si, s.p(3), s.p(4), n.idx));
        let (Some(node), Some(anchor)) = (node, anchor) else {
            self.slots[si] = Some(slot);
            return;
        };
        self.set_cls(Cls::Legal);
        let dest = Dest::of(s.p(5));
        let api = s.p(6) % 3;
        self.fp = comb(
            comb(self.fp, mark(&slot, node.idx, anchor.idx)),
            u64::from(s.p(5) % 4 + 4 * api),
        );
        let m = &slot.model;
        // Everything that is wrong with the request. Which of several reasons
        // is reported is not specified.
        let mut refuse = 0;
        if !node.alive || !anchor.alive {
            refuse |= PRE;
        }
        if dest.sibling() && node.id == anchor.id {
            refuse |= E_UNORD;
        }
        if anchor.alive {
            if dest.sibling() && m.parent(anchor.idx).is_none() {
                refuse |= E_SWP;
            }
            if node.alive {
                let parent = if dest.sibling() {
                    m.parent(anchor.idx)
                } else {
                    Some(anchor.idx)
                };
                if parent.map_or(false, |p| m.above_or_self(node.idx, p)) {
                    refuse |= E_LOOP;
                }
            }
        }
        self.note_dead(&node);
        self.note_dead(&anchor);
        if refuse & !PRE != 0 {
            self.fault(Fault::Refused);
        }
        let mut exp = refuse;
        if refuse == 0 {
            exp = OK;
        } else {
            self.refused();
        }
        let what = format!("move {} to {dest:?} of {}", nn(node.idx), nn(anchor.idx));
        self.arm_op(s.p(7));
        if meter::ON && anchor.alive {
            // The test for loops goes up from the anchor.
            meter::allow(u64::from(m.depth(anchor.idx)));
        }
        let f = &mut slot.f;
        let out = match api {
            0 => guard(|| f.insert(node.id, dest.insert(anchor.id))).flat(),
            1 => match guard(|| f.node_mut(anchor.id).map(|mut n| n.try_adopt(node.id, dest.adopt()))) {
                Out::Ok(None) => Out::Pre("node_mut is None".into()),
                o => o.map(|r| r.unwrap()).flat(),
            },
            _ => {
                if refuse & (E_LOOP | E_UNORD | E_SWP) != 0 {
                    exp |= PRE;
                    exp &= !(E_LOOP | E_UNORD | E_SWP);
                }
                match guard(|| f.node_mut(anchor.id).map(|mut n| n.adopt(node.id, dest.adopt()))) {
                    Out::Ok(None) => Out::Pre("node_mut is None".into()),
                    o => o.map(|_| ()),
                }
            }
        };
        exp |= self.disarm_op(&mut slot, out.code());
        if self.judge(&what, out, exp).is_some() && exp & OK != 0 {
            slot.model.attach(node.idx, anchor.idx, dest);
            self.regs[self.client] = (si, node.idx);
        }
        self.slots[si] = Some(slot);
    }

    fn op_detach(&mut self, s: &Step) {
        let si = self.pick_slot(s.p(0));
        let mut slot = self.slots[si].take().unwrap();
        if let Some(node) = self.select(&slot, si, s.p(1), s.p(2), NONE) {
            self.set_cls(Cls::Legal);
            self.fp = comb(self.fp, mark(&slot, node.idx, NONE));
            self.note_dead(&node);
            let mut exp = if node.alive { OK } else { PRE };
            if exp != OK {
                self.refused();
            }
            self.arm_op(s.p(4));
            let f = &mut slot.f;
            let out = if s.p(3) % 2 == 0 {
                guard(|| f.detach(node.id))
            } else {
                match guard(|| f.node_mut(node.id).map(|mut n| n.detach())) {
                    Out::Ok(None) => Out::Pre("node_mut is None".into()),
                    o => o.map(|_| ()),
                }
            };
            let what = format!("detach {}", nn(node.idx));
            exp |= self.disarm_op(&mut slot, out.code());
            if self.judge(&what, out, exp).is_some() && exp & OK != 0 {
                slot.model.detach(node.idx);
                self.regs[self.client] = (si, node.idx);
            }
        }
        self.slots[si] = Some(slot);
    }

    fn op_detach_single(&mut self, s: &Step) {
        let si = self.pick_slot(s.p(0));
        let mut slot = self.slots[si].take().unwrap();
        if let Some(node) = self.select(&slot, si, s.p(1), s.p(2), NONE) {
            self.set_cls(Cls::Legal);
            self.fp = comb(self.fp, mark(&slot, node.idx, NONE));
            self.note_dead(&node);
            let mut exp = if !node.alive {
                PRE
            } else if slot.model.parent(node.idx).is_none()
                && slot.model.children(node.idx).len() > 1
            {
                self.fault(Fault::Refused);
                E_SWP
            } else {
                OK
            };
            if exp != OK {
                self.refused();
            }
            self.arm_op(s.p(4));
            if node.alive {
                // The children are moved, with a test for loops.
                let up = slot.model.depth(node.idx);
                meter::allow(slot.model.children(node.idx).len() as u64 + u64::from(up));
            }
            let f = &mut slot.f;
            let out = if s.p(3) % 2 == 0 {
                guard(|| f.detach_single(node.id)).flat()
            } else {
                match guard(|| f.node_mut(node.id).map(|mut n| n.detach_single())) {
                    Out::Ok(None) => Out::Pre("node_mut is None".into()),
                    o => o.map(|r| r.unwrap()).flat(),
                }
            };
            let what = format!("detach_single {}", nn(node.idx));
            exp |= self.disarm_op(&mut slot, out.code());
            if self.judge(&what, out, exp).is_some() && exp & OK != 0 {
                slot.model.detach_single(node.idx);
                self.regs[self.client] = (si, node.idx);
            }
        }
        self.slots[si] = Some(slot);
    }

    /// Removal, with and without an interruption.
    fn op_remove(&mut self, s: &Step) {
        let si = self.pick_slot(s.p(0));
        let mut slot = self.slots[si].take().unwrap();
        let Some(node) = self.select(&slot, si, s.p(1), s.p(2), NONE) else {
            self.slots[si] = Some(slot);
            return;
        };
        self.set_cls(Cls::Legal);
        let variant = s.p(3) % 3;
        let api = s.p(4) % 2;
        let late = s.p(7) % 2 == 1;
        let order = if node.alive {
            slot.model.postorder(node.idx)
        } else {
            Vec::new()
        };
        let crash = match s.p(5) {
            0 => None,
            k if !order.is_empty() => Some((k - 1) as usize % order.len()),
            _ => None,
        };
        let mut disp = s.p(6) % 6;
        let oi = self.other_slot(si, s.p(8));
        let mut other = None;
        if matches!(disp, 2 | 4 | 5) && variant != 0 {
            other = oi.and_then(|i| self.slots[i].take());
            let fits = other.as_ref().map_or(false, |o| match disp {
                2 => o.room() > order.len() as u32,
                4 => o.model.n.iter().any(|n| !n.alive),
                _ => o.model.live > 0,
            });
            if !fits || (disp != 2 && crash.is_none()) {
                if let Some(o) = other.take() {
                    self.slots[oi.unwrap()] = Some(o);
                }
                disp = 0;
            }
        } else if disp == 3 {
            if crash.is_none() {
                disp = 0;
            }
        } else if variant == 0 && disp != 0 {
            disp = 0;
        }
        // Plain removal has no callback that could be interrupted.
        let crash = if variant == 0 && disp != 3 { None } else { crash };
        self.fp = comb(
            comb(self.fp, mark(&slot, node.idx, NONE)),
            u64::from(variant) + 4 * crash.map_or(0, |c| c as u64 + 1),
        );
        self.fp = comb(self.fp, u64::from(disp * 2 + u32::from(late)));

        let stale = other
            .as_ref()
            .and_then(|o| (0..o.ids.len()).find(|&i| !o.model.n[i].alive).map(|i| o.ids[i]));
        let inner_node = other.as_ref().and_then(|o| {
            let live: Vec<_> = (0..o.ids.len() as u32).filter(|&i| o.model.alive(i)).collect();
            (!live.is_empty()).then(|| live[s.p(9) as usize % live.len()])
        });
        let inner_order = match (&other, inner_node) {
            (Some(o), Some(i)) => o.model.postorder(i),
            _ => Vec::new(),
        };
        let inner_crash = if inner_order.is_empty() {
            0
        } else {
            s.p(10) as usize % inner_order.len()
        };
        let inner_id = other
            .as_ref()
            .zip(inner_node)
            .map(|(o, i)| o.ids[i as usize]);

        let mut delivered: Vec<u32> = Vec::with_capacity(order.len() + 1);
        let mut inner_delivered: Vec<u32> = Vec::new();
        let mut moved: Vec<(Id, u32, u32)> = Vec::new();
        let mut kept: Vec<Pay> = Vec::new();
        let mut calls = 0usize;
        let limit = order.len() + 4;
        let mut exp = if !node.alive {
            self.note_dead(&node);
            self.refused();
            PRE
        } else if crash.is_some() {
            self.set_cls(Cls::Faulted);
            match disp {
                4 => PRE,
                _ => INJ,
            }
        } else {
            OK
        };
        if disp == 3 {
            pay::arm_drop(crash.unwrap() as u32);
        }
        if disp == 0 && variant == 2 && crash.is_none() {
            self.arm_op(s.p(11));
        }
        let out = {
            let mut other_f = other.as_mut().map(|o| &mut o.f);
            let hook = |p: Pay| {
                delivered.push(p.serial);
                let now = crash == Some(calls);
                calls += 1;
                if calls > limit {
                    panic_any(Injected("endless removal"));
                }
                if now && !late && disp < 2 {
                    panic_any(Injected("hook"));
                }
                match disp {
                    1 => kept.push(p),
                    2 => {
                        if now && !late {
                            panic_any(Injected("hook"));
                        }
                        let f = other_f.as_mut().unwrap();
                        let (serial, val) = (p.serial, p.val);
                        moved.push((f.create_root(p), serial, val));
                    }
                    4 if now => {
                        let f = other_f.as_mut().unwrap();
                        let _ = f.create_insert(p, InsertAs::LastChildOf(stale.unwrap()));
                    }
                    5 if now => {
                        let f = other_f.as_mut().unwrap();
                        f.remove_hooked_panic_safe(inner_id.unwrap(), |q| {
                            inner_delivered.push(q.serial);
                            if inner_delivered.len() > inner_crash {
                                panic_any(Injected("inner hook"));
                            }
                        });
                    }
                    _ => drop(p),
                }
                if now && disp != 3 {
                    panic_any(Injected("hook"));
                }
            };
            let f = &mut slot.f;
            let id = node.id;
            // Payloads may go into tables that have to grow.
            meter::creates((order.len() + inner_order.len()) as u64);
            let r = guard(|| {
                if api == 0 {
                    match variant {
                        0 => f.remove(id),
                        1 => f.remove_hooked(id, hook),
                        _ => f.remove_hooked_panic_safe(id, hook),
                    }
                    true
                } else {
                    match f.node_mut(id) {
                        None => false,
                        Some(n) => {
                            match variant {
                                0 => n.remove(),
                                1 => n.remove_hooked(hook),
                                _ => n.remove_hooked_panic_safe(hook),
                            }
                            true
                        }
                    }
                }
            });
            pay::disarm();
            match r {
                Out::Ok(false) if node.alive => Out::Bad("node_mut is None for a live node".into()),
                Out::Ok(false) => Out::Pre("node_mut is None".into()),
                r => r.map(|_| ()),
            }
        };
        let what = format!(
            "remove {} variant {variant} crash {crash:?} payloads {disp}",
            nn(node.idx)
        );
        let code = out.code();
        let oom = self.disarm_op(&mut slot, code);
        exp |= oom;
        self.judge(&what, out, exp);
        self.kept.append(&mut kept);
        if oom != 0 && code == OOM {
            self.slots[si] = Some(slot);
            return;
        }

        // What the callback was given.
        let serials: Vec<u32> = order
            .iter()
            .map(|&i| slot.model.n[i as usize].serial)
            .collect();
        let until = match crash {
            Some(c) => c + 1,
            None => serials.len(),
        };
        if variant != 0 && delivered != serials[..until] {
            self.v(
                Orc::Hook,
                format!("the callback got payloads {delivered:?}, expected {:?}", &serials[..until]),
            );
        }
        // The other forest, if the callback used it.
        if let Some(mut o) = other {
            let oi = oi.unwrap();
            self.touched[oi] = true;
            for (id, serial, val) in moved {
                self.learn(&mut o, id, serial, val);
            }
            if disp == 2 {
                self.fault(Fault::Transfer);
            }
            if disp == 5 && code == INJ {
                let want: Vec<u32> = inner_order[..=inner_crash]
                    .iter()
                    .map(|&i| o.model.n[i as usize].serial)
                    .collect();
                if inner_delivered != want {
                    self.v(
                        Orc::Hook,
                        format!("the inner callback got {inner_delivered:?}, expected {want:?}"),
                    );
                }
                self.interrupted(&mut o, &inner_order, inner_crash);
            }
            self.slots[oi] = Some(o);
        }
        if code == OK && node.alive {
            slot.model.kill_all(&order);
        } else if code & (INJ | PRE) != 0 && node.alive && exp != OK {
            let c = crash.unwrap();
            let fault = match (variant, disp, late) {
                (0 | 1, _, _) => Fault::UnsafeHookPanic,
                (_, 3, _) => Fault::HookDropPanic,
                (_, 4, _) => Fault::HookNatural,
                (_, 5, _) => Fault::HookNested,
                (_, _, true) => Fault::HookPanicLate,
                _ => Fault::HookPanicEarly,
            };
            self.fault(fault);
            if variant == 2 {
                self.interrupted(&mut slot, &order, c);
                self.hist_add |= H_SAFE;
            } else {
                // Documented to leave the forest in an unusable state. Its
                // payloads must still go when it is dropped.
                self.slots[si] = Some(slot);
                self.drop_slot(si);
                self.slots[si] = Some(Box::new(Slot::new(Forest::new())));
                return;
            }
        }
        if node.alive && slot.model.alive(node.idx) {
            self.regs[self.client] = (si, node.idx);
        }
        self.slots[si] = Some(slot);
    }

    /// Brings the model into the state after a panic-safe removal that was
    /// interrupted in call `c`.
    fn interrupted(&mut self, slot: &mut Slot<Id>, order: &[u32], c: usize) {
        let root = *order.last().unwrap();
        slot.model.kill_all(&order[..=c]);
        if c + 1 < order.len() {
            // The rest may be in place or separate.
            let at = guard(|| slot.f.node(slot.ids[root as usize]).map(|n| n.parent_id()));
            if matches!(at, Out::Ok(Some(None))) {
                slot.model.detach(root);
            }
        }
    }

    fn op_data(&mut self, s: &Step) {
        let si = self.pick_slot(s.p(0));
        let mut slot = self.slots[si].take().unwrap();
        if let Some(node) = self.select(&slot, si, s.p(1), s.p(2), NONE) {
            self.set_cls(Cls::Legal);
            self.fp = comb(self.fp, mark(&slot, node.idx, NONE));
            self.note_dead(&node);
            if !node.alive {
                self.refused();
            }
            let p = pay::make(s.p(5));
            let serial = p.serial;
            let f = &mut slot.f;
            let keep = s.p(4) % 2 == 1;
            let mut old = None;
            let put = |d: &mut Pay| {
                let o = mem::replace(d, p);
                if keep {
                    old = Some(o);
                }
            };
            let out = guard(|| match s.p(3) % 3 {
                0 => f.data_mut(node.id).map(put).is_some(),
                1 => f
                    .node_mut(node.id)
                    .map(|mut n| put(n.data_mut()))
                    .is_some(),
                _ => f
                    .node_mut(node.id)
                    .map(|n| put(n.into_data_ref_mut()))
                    .is_some(),
            });
            self.kept.extend(old);
            let what = format!("set data of {}", nn(node.idx));
            if let Some(done) = self.judge(&what, out, OK) {
                if done != node.alive {
                    self.v(Orc::Id, format!("{what}: resolves: {done}, alive: {}", node.alive));
                } else if done {
                    slot.model.n[node.idx as usize].serial = serial;
                    slot.model.n[node.idx as usize].val = s.p(5);
                }
            }
        }
        self.slots[si] = Some(slot);
    }

    /// Takes in the nodes of a tree that the crate has built and compares it
    /// with a plan (in creation order, parents first). Returns false if it
    /// differs.
    fn adopt_tree(
        &mut self,
        slot: &mut Slot<Id>,
        root: Id,
        plan: &Model,
        base_shape: &str,
        orc: Orc,
        mut provenance: impl FnMut(u32, u32, u32) -> bool,
    ) -> Option<Vec<u32>> {
        let total = plan.n.len();
        // Read the tree.
        let mut ids: Vec<Option<(Id, u32, u32)>> = vec![None; total];
        meter::any();
        let read = guard(|| {
            let mut stack = vec![(0u32, root)];
            let mut ok = true;
            while let Some((p, id)) = stack.pop() {
                let Some(n) = slot.f.node(id) else {
                    return Err(format!("planned node {p} is not alive"));
                };
                ids[p as usize] = Some((id, n.data().serial, n.data().val));
                let mut c = n.first_child();
                let mut k = 0;
                while let Some(ch) = c {
                    match plan.children(p).get(k) {
                        Some(&pc) => stack.push((pc, ch.id())),
                        None => return Err(format!("planned node {p} has too many children")),
                    }
                    k += 1;
                    c = ch.next_sibling();
                }
                ok &= k == plan.children(p).len();
                if !ok {
                    return Err(format!("planned node {p} has {k} children, not {}", plan.children(p).len()));
                }
            }
            Ok(())
        });
        match read {
            Out::Ok(Ok(())) => {}
            Out::Ok(Err(msg)) => {
                self.v(orc, format!("{base_shape}: {msg}"));
                return None;
            }
            o => {
                self.v(Orc::Inv, format!("{base_shape}: navigation ends with {}", o.describe()));
                return None;
            }
        }
        let mut out = Vec::with_capacity(total);
        for (p, e) in ids.iter().enumerate() {
            let Some((id, serial, val)) = *e else {
                self.v(orc, format!("{base_shape}: planned node {p} is missing"));
                return None;
            };
            let pn = &plan.n[p];
            if !provenance(p as u32, serial, val) {
                self.v(
                    orc,
                    format!("{base_shape}: planned node {p} has payload {serial} (value {val}), which is not right (value {})", pn.val),
                );
            }
            out.push(self.learn(slot, id, serial, val));
        }
        for p in 0..total as u32 {
            let children: Vec<u32> = plan.children(p).iter().map(|&c| out[c as usize]).collect();
            for &c in &children {
                slot.model.n[c as usize].parent = out[p as usize];
            }
            slot.model.n[out[p as usize] as usize].children = children;
        }
        Some(out)
    }

    fn op_clone(&mut self, s: &Step) {
        let si = self.pick_slot(s.p(0));
        let mut src = self.slots[si].take().unwrap();
        let Some(node) = self.select(&src, si, s.p(1), s.p(2), NONE) else {
            self.slots[si] = Some(src);
            return;
        };
        self.set_cls(Cls::Legal);
        let di = match s.p(3) % 3 {
            0 => None,
            k => self.other_slot(si, k),
        };
        let mapped = s.p(4) % 2 == 1;
        let mut dst = di.and_then(|i| self.slots[i].take());
        if let Some(i) = di {
            self.touched[i] = true;
        }
        let order = if node.alive {
            src.model.preorder(node.idx)
        } else {
            Vec::new()
        };
        let size = order.len() as u32;
        let fault = match s.p(5) % 4 {
            2 if !mapped => 1,
            f => f,
        };
        let k = s.p(6);
        self.fp = comb(
            comb(self.fp, mark(&src, node.idx, NONE)),
            u64::from(fault * 8 + u32::from(mapped) * 2 + u32::from(dst.is_some())),
        );
        if node.alive && fault != 0 {
            self.fp = comb(self.fp, u64::from(if fault == 3 { k % 8 } else { k % size }));
        }
        let full = {
            let d = dst.as_deref().unwrap_or(&src);
            d.room() < size
        };
        // The allocation that fails: mostly one of a table that grows.
        let oom_at = {
            let d = dst.as_deref().unwrap_or(&src);
            let from = d.ids.len() as u32 + d.burned;
            let grow = (0..20).filter(|&e| (from..from + size).contains(&(1 << e))).count() as u32;
            k % if grow > 0 && k % 8 < 7 { 2 * grow } else { 8 }
        };
        let mut exp = if node.alive { OK } else { PRE };
        if !node.alive {
            self.note_dead(&node);
            self.refused();
        } else if full {
            exp |= PRE;
        }
        let mut pairs: Vec<(Id, Id)> = Vec::with_capacity(size as usize + 1);
        let map_at = (fault == 2 && size > 0).then(|| k % size);
        let mut map_fired = false;
        let limit = size as usize + 4;
        let mut add = |a: Id, b: Id| {
            let _own = alloc::Own::new();
            let now = map_at == Some(pairs.len() as u32);
            pairs.push((a, b));
            if pairs.len() > limit {
                panic_any(Injected("endless mapping"));
            }
            if now {
                map_fired = true;
                panic_any(Injected("mapping"));
            }
        };
        if fault == 1 && size > 0 {
            pay::arm_clone(k % size);
        }
        let foreign = dst.is_some();
        // Every copy is an insertion.
        let tall = match node.alive && meter::ON {
            true => src.model.preorder_depths(node.idx).iter().map(|d| d.1).max().unwrap_or(0),
            false => 0,
        };
        meter::creates(u64::from(size) * (1 + u64::from(tall)));
        let out = if let Some(d) = &mut dst {
            match src.f.node(node.id) {
                None => {
                    Out::Pre("node is None".into())
                }
                Some(n) => {
                    if fault == 3 {
                        alloc::arm_at(oom_at);
                    }
                    let d = &mut d.f;
                    if mapped {
                        guard(|| d.clone_foreign_tree_with_id_mapping(n, &mut add))
                    } else {
                        guard(|| d.clone_foreign_tree(n))
                    }
                }
            }
        } else {
            if fault == 3 {
                alloc::arm_at(oom_at);
            }
            let f = &mut src.f;
            if mapped {
                guard(|| f.clone_local_tree_with_id_mapping(node.id, &mut add))
            } else {
                guard(|| f.clone_local_tree(node.id))
            }
        };
        let (_, oom_fired) = alloc::disarm();
        let (clone_fired, _) = pay::disarm();
        if clone_fired > 0 {
            exp = INJ;
            self.fault(Fault::ClonePanic);
        }
        if map_fired {
            exp = INJ;
            self.fault(Fault::MapPanic);
        }
        if oom_fired > 0 {
            exp |= OOM;
            self.fault(Fault::CloneOom);
        }
        if out.code() == PRE && full && node.alive {
            self.fault(Fault::CloneFull);
        }
        for (a, b) in &pairs {
            self.dig(text_hash(a));
            self.dig(text_hash(b));
        }
        let what = format!(
            "clone tree {} {} mapped {mapped} fault {fault}",
            nn(node.idx),
            if foreign { "to another forest" } else { "locally" }
        );
        if node.alive && exp != OK && out.code() != OK {
            self.set_cls(Cls::Faulted);
            self.hist_add |= H_CLONE;
        }
        let root = self.judge(&what, out, exp);
        let serials: Vec<u32> = order.iter().map(|&i| src.model.n[i as usize].serial).collect();
        // The plan: the source subtree, numbered in preorder.
        let mut plan = Model::default();
        let mut at = std::collections::BTreeMap::new();
        for (p, &i) in order.iter().enumerate() {
            at.insert(i, p as u32);
            plan.push_root(src.model.n[i as usize].serial, src.model.n[i as usize].val);
            if p > 0 {
                let parent = at[&src.model.n[i as usize].parent];
                plan.n[p].parent = parent;
                plan.n[parent as usize].children.push(p as u32);
            }
        }
        let src_ids: Vec<Id> = order.iter().map(|&i| src.ids[i as usize]).collect();
        let mut d = match dst {
            Some(d) => d,
            None => {
                // Local: destination and source are one.
                mem::replace(&mut src, Box::new(Slot::new(Forest::new())))
            }
        };
        let local = !foreign;
        match root {
            Some(root) if node.alive && exp & OK != 0 => {
                let fresh0 = self.step_serial0;
                let provenance = |p: u32, serial: u32, val: u32| {
                    serial >= fresh0
                        && pay::rec(serial).from == serials[p as usize]
                        && val == plan.n[p as usize].val
                };
                let plan2 = plan.clone();
                if let Some(new) = self.adopt_tree(&mut d, root, &plan2, &what, Orc::Copy, provenance) {
                    if mapped {
                        let mut want: Vec<(u32, Id)> = (0..new.len())
                            .map(|p| (p as u32, d.ids[new[p] as usize]))
                            .collect();
                        let mut ok = pairs.len() == want.len();
                        for (a, b) in &pairs {
                            let p = src_ids.iter().position(|x| x == a);
                            match want.iter().position(|(q, id)| Some(*q as usize) == p && id == b) {
                                Some(w) => {
                                    want.swap_remove(w);
                                }
                                None => ok = false,
                            }
                        }
                        if !ok {
                            self.v(Orc::Copy, format!("{what}: the ID mapping does not pair every source node with its copy once"));
                        }
                    }
                    self.hist_add |= H_COPY;
                    self.regs[self.client] = (if local { si } else { di.unwrap() }, new[0]);
                }
            }
            _ => {
                // Interrupted (or refused): part of the copy may exist.
                if node.alive {
                    self.partial_copy(&mut d, &pairs, &src_ids, &serials, &what);
                }
            }
        }
        if local {
            self.slots[si] = Some(d);
        } else {
            self.slots[si] = Some(src);
            self.slots[di.unwrap()] = Some(d);
        }
    }

    /// Takes in what an interrupted clone has left in the destination.
    fn partial_copy(
        &mut self,
        d: &mut Slot<Id>,
        pairs: &[(Id, Id)],
        src_ids: &[Id],
        serials: &[u32],
        what: &str,
    ) {
        let first_new = d.model.n.len();
        d.burned += src_ids.len() as u32;
        for (a, b) in pairs {
            if let Some(&old) = d.map.get(b) {
                self.v(Orc::Id, format!("{what}: the copy got the ID of node {old}"));
                continue;
            }
            let seen = guard(|| d.f.node(*b).map(|n| (n.data().serial, n.data().val)));
            let Out::Ok(seen) = seen else { continue };
            let Some((serial, val)) = seen else {
                // Reported to the caller, but taken back.
                continue;
            };
            let right = src_ids.iter().position(|x| x == a).map_or(false, |p| {
                pay::rec(serial).from == serials[p]
            });
            if !right {
                self.v(Orc::Copy, format!("{what}: a reported copy has a payload that was not cloned from its source"));
            }
            self.learn(d, *b, serial, val);
        }
        // Whatever hangs together with them. The nodes that existed before
        // keep their places in the model; a link to or from them is an error.
        let old_model = d.model.clone();
        meter::any();
        let ok = matches!(guard(|| observe(d)), Out::Ok(true));
        if ok {
            for i in 0..first_new {
                d.model.n[i] = old_model.n[i].clone();
            }
            d.model.live = d.model.n.iter().filter(|n| n.alive).count() as u32;
        } else {
            d.model = old_model;
        }
        // Nodes nobody was told about.
        let mut ledger = Vec::new();
        pay::all(&mut ledger);
        let mut held: Vec<u32> = d.model.n.iter().filter(|n| n.alive).map(|n| n.serial).collect();
        held.sort_unstable();
        for serial in self.step_serial0..ledger.len() as u32 {
            let r = ledger[serial as usize];
            if !r.dropped && r.from != NONE && held.binary_search(&serial).is_err() {
                d.leaky.push(serial);
                d.leaked = true;
            }
        }
    }

    fn op_snap(&mut self, s: &Step) {
        let si = self.pick_slot(s.p(0));
        let di = (0..SLOTS)
            .map(|k| (s.p(1) as usize + k) % SLOTS)
            .find(|&k| k != si)
            .unwrap();
        self.set_cls(Cls::Legal);
        self.touched[di] = true;
        // Into the forest that is there, or into a new place.
        let into = if s.p(4) % 2 == 1 { self.slots[di].take() } else { None };
        if into.is_none() {
            self.drop_slot(di);
        }
        self.step_serial0 = pay::count();
        let src = self.slots[si].take().unwrap();
        let fault = s.p(2) % 3;
        let k = s.p(3);
        // How many times the copy makes place for a copy of itself.
        let again = s.p(5).min(4000 / (src.model.live + 1));
        self.fp = comb(
            comb(self.fp, mark(&src, NONE, NONE)),
            u64::from(again * 64 + fault * 16 + if fault == 2 { k % 4 } else { 0 }),
        );
        if fault == 1 {
            pay::arm_clone(k % ((src.model.live + 1) * (again + 1)));
        }
        if fault == 2 {
            alloc::arm_at(k % (4 * (again + 1)));
        }
        let mut into = into;
        let heir = into.as_ref().map_or(0, |s| s.heir.max(s.ids.len() as u32 + s.burned));
        let gone = into.as_ref().map_or(0, |s| 2 * s.ids.len() as u64 + u64::from(s.burned));
        let each = src.model.n.len() as u64 + u64::from(src.burned);
        meter::creates((1 + 3 * u64::from(again)) * each + gone);
        let out = match &mut into {
            Some(slot) => guard(|| slot.f.clone_from(&src.f)).map(|()| None),
            None => guard(|| {
                let mut f = src.f.clone();
                for _ in 0..again {
                    f = f.clone();
                }
                Some(f)
            }),
        };
        let again = if into.is_some() { 0 } else { again };
        let (_, oom) = alloc::disarm();
        let (cl, _) = pay::disarm();
        let mut exp = OK;
        if cl > 0 {
            exp = INJ;
            self.fault(Fault::SnapPanic);
        }
        if oom > 0 {
            exp |= OOM;
            self.fault(Fault::SnapOom);
        }
        if exp != OK {
            self.set_cls(Cls::Faulted);
            self.hist_add |= H_CLONE;
        }
        let done = self.judge("clone forest", out, exp);
        if let (None, true) = (&done, into.is_some()) {
            // Nothing has changed there.
            self.slots[di] = into.take();
        }
        if let Some(f) = done.map(|f| f.unwrap_or_else(|| into.take().expect("harness: a target").f)) {
            let mut new = Slot::new(f);
            new.ids = src.ids.clone();
            new.map = src.map.clone();
            new.model = src.model.clone();
            new.leaked = src.leaked;
            new.burned = src.burned;
            new.heir = heir;
            new.hist = src.hist;
            for i in 0..new.ids.len() {
                if !src.model.n[i].alive {
                    continue;
                }
                let want = src.model.n[i].serial;
                let got = match guard(|| new.f.data(new.ids[i]).map(|d| (d.serial, d.val))) {
                    Out::Ok(v) => v,
                    _ => None,
                };
                match got {
                    Some((serial, val)) => {
                        let mut from = pay::rec(serial).from;
                        for _ in 0..again {
                            from = if from == NONE { from } else { pay::rec(from).from };
                        }
                        if from != want
                            || serial < self.step_serial0
                            || val != src.model.n[i].val
                        {
                            self.v(Orc::Copy, format!("clone forest: the copy of node {i} has payload {serial}, which was not cloned from payload {want}"));
                        }
                        new.model.n[i].serial = serial;
                    }
                    None => {
                        self.v(Orc::Copy, format!("clone forest: node {i} is missing in the copy"));
                    }
                }
            }
            if src.leaked {
                let mut ledger = Vec::new();
                pay::all(&mut ledger);
                let mut held: Vec<u32> = new.model.n.iter().map(|n| n.serial).collect();
                held.sort_unstable();
                for serial in self.step_serial0..ledger.len() as u32 {
                    if !ledger[serial as usize].dropped && held.binary_search(&serial).is_err() {
                        new.leaky.push(serial);
                    }
                }
            }
            self.hist_add |= H_COPY;
            self.slots[di] = Some(Box::new(new));
        }
        self.slots[si] = Some(src);
    }

    fn op_chain(&mut self, s: &Step) {
        let si = self.pick_slot(s.p(0));
        let mut slot = self.slots[si].take().unwrap();
        self.set_cls(Cls::Legal);
        self.fp = comb(self.fp, mark(&slot, NONE, NONE));
        // a[1]: word from which on an allocation fails, once (0: none), a[2]:
        // which one in a call.
        let oom_at = s.p(1);
        let oom_k = s.p(2);
        let words = if s.a.len() > 3 { &s.a[3..] } else { &[] };
        let full = slot.may_be_full();
        let p = pay::make(s.p(2) / 8);
        let serial = p.serial;
        let val = p.val;
        if oom_at == 1 {
            alloc::arm_at(oom_k % 3);
        }
        let out = {
            let f = &mut slot.f;
            meter::creates(0);
            guard(|| ChainTreeBuilder::new(f, p).root_id())
        };
        let (_, fired) = alloc::disarm();
        let mut exp = OK | if full { PRE } else { 0 };
        if fired > 0 {
            exp |= OOM;
            self.fault(Fault::ChainOom);
            self.set_cls(Cls::Faulted);
            self.hist_add |= H_BUILD | H_OOM;
        }
        let Some(root) = self.judge("chain builder", out, exp) else {
            self.slots[si] = Some(slot);
            return;
        };
        let root_i = self.learn(&mut slot, root, serial, val);
        // Go on with a builder of a second root, driven word by word.
        let p = pay::make(val);
        let serial = p.serial;
        let full = slot.may_be_full();
        // The slot's forest is borrowed by the builder while the words run.
        let mut forest = mem::take(&mut slot.f);
        meter::creates(0);
        let out = guard(|| ChainTreeBuilder::new(&mut forest, p));
        let exp = OK | if full { PRE } else { 0 };
        if let Some(mut b) = self.judge("chain builder", out, exp) {
            let root = b.root_id();
            let ri = self.learn(&mut slot, root, serial, val);
            let mut cur = ri;
            let mut oom_done = false;
            for (w, &word) in words.iter().enumerate() {
                if !self.viols.is_empty() {
                    break;
                }
                let k = word / 16;
                let alive = slot.model.alive(cur);
                self.fp = comb(self.fp, u64::from(word % 16));
                let arm = oom_at > 1 && oom_at <= w as u32 + 2 && !oom_done;
                match word % 16 {
                    op @ 0..=6 => {
                        // child / sibling
                        let sibling = op >= 4;
                        let full = slot.may_be_full();
                        let bad = !alive || (sibling && slot.model.parent(cur).is_none());
                        let mut exp = if bad { PRE } else { OK };
                        if bad {
                            self.fault(if alive { Fault::Refused } else { Fault::StaleId });
                            self.refused();
                        } else if full {
                            exp |= PRE;
                        }
                        let p = pay::make(k);
                        let serial = p.serial;
                        if arm {
                            alloc::arm_at(oom_k % 3);
                        }
                        meter::creates(if alive { u64::from(slot.model.depth(cur)) } else { 0 });
                        let out = guard(|| {
                            if sibling {
                                b.sibling(p);
                            } else {
                                b.child(p);
                            }
                        });
                        let (_, fired) = alloc::disarm();
                        if fired > 0 {
                            oom_done = true;
                            exp |= OOM;
                            self.fault(Fault::ChainOom);
                            self.set_cls(Cls::Faulted);
                            self.hist_add |= H_BUILD | H_OOM;
                        }
                        let what = format!("builder {} at {}", if sibling { "sibling" } else { "child" }, nn(cur));
                        let done = self.judge(&what, out, exp).is_some();
                        if done && !bad {
                            let id = b.current_id();
                            let i = self.learn(&mut slot, id, serial, k);
                            let dest = if sibling { Dest::Next } else { Dest::Last };
                            slot.model.attach(i, cur, dest);
                            cur = i;
                        }
                    }
                    op @ (7 | 8) => {
                        let up = if alive { slot.model.parent(cur) } else { None };
                        let out = guard(|| {
                            if op == 7 {
                                b.parent();
                                true
                            } else {
                                b.try_parent().is_some()
                            }
                        });
                        let exp = if !alive || (op == 7 && up.is_none()) { PRE } else { OK };
                        if exp == PRE {
                            self.fault(if alive { Fault::Refused } else { Fault::StaleId });
                            self.refused();
                        }
                        let what = format!("builder {} at {}", if op == 7 { "parent" } else { "try_parent" }, nn(cur));
                        if let Some(moved) = self.judge(&what, out, exp) {
                            if moved != up.is_some() {
                                self.v(Orc::Build, format!("{what}: says {moved}, parent is {}", nn(up.unwrap_or(NONE))));
                            }
                            if let Some(up) = up {
                                cur = up;
                            }
                        }
                    }
                    9 if alive => {
                        let out = guard(|| b.forest_mut().detach(slot.ids[cur as usize]));
                        if self.judge("detach current through the builder", out, OK).is_some() {
                            slot.model.detach(cur);
                        }
                    }
                    10 if alive => {
                        // Elsewhere in the forest.
                        let to = root_i;
                        if slot.model.alive(to) && !slot.model.above_or_self(cur, to) {
                            let id = slot.ids[cur as usize];
                            let dest = Dest::of(k % 2);
                            let at = slot.ids[to as usize];
                            meter::allow(u64::from(slot.model.depth(to)));
                            let out = guard(|| b.forest_mut().insert(id, dest.insert(at))).flat();
                            if self.judge("move current through the builder", out, OK).is_some() {
                                slot.model.attach(cur, to, dest);
                            }
                        }
                    }
                    11 if alive => {
                        // Under the builder's root.
                        if slot.model.alive(ri) && !slot.model.above_or_self(cur, ri) {
                            let id = slot.ids[cur as usize];
                            let dest = Dest::of(k % 2);
                            meter::allow(u64::from(slot.model.depth(ri)));
                            let out = guard(|| b.forest_mut().insert(id, dest.insert(root))).flat();
                            if self.judge("move current through the builder", out, OK).is_some() {
                                slot.model.attach(cur, ri, dest);
                            }
                        }
                    }
                    12 if alive => {
                        // Remove a node: mostly not the current one.
                        let victim = if k % 4 == 0 {
                            cur
                        } else {
                            let v = nth(slot.model.n.len(), k / 4, |i| slot.model.alive(i)).unwrap();
                            v
                        };
                        let id = slot.ids[victim as usize];
                        let gone = slot.model.postorder(victim);
                        meter::allow(gone.len() as u64);
                        let out = guard(|| b.forest_mut().remove(id));
                        if self.judge("remove through the builder", out, OK).is_some() {
                            slot.model.kill_all(&gone);
                        }
                    }
                    13 if alive => {
                        let legal = slot.model.parent(cur).is_some()
                            || slot.model.children(cur).len() < 2;
                        let id = slot.ids[cur as usize];
                        meter::allow(slot.model.children(cur).len() as u64 + u64::from(slot.model.depth(cur)));
                        let out = guard(|| b.forest_mut().detach_single(id)).flat();
                        let exp = if legal { OK } else { E_SWP };
                        if !legal {
                            self.refused();
                        }
                        if self.judge("detach current alone through the builder", out, exp).is_some() {
                            slot.model.detach_single(cur);
                        }
                    }
                    14 => {
                        let full = slot.may_be_full();
                        if !full {
                            let p = pay::make(k);
                            let serial = p.serial;
                            meter::creates(0);
                            let out = guard(|| b.forest_mut().create_root(p));
                            if let Some(id) = self.judge("create through the builder", out, OK) {
                                self.learn(&mut slot, id, serial, k);
                            }
                        }
                    }
                    _ => {}
                }
                // The builder's position.
                let got = guard(|| {
                    (
                        b.root_id(),
                        b.current_id(),
                        b.forest().node(b.current_id()).map(|n| n.id()),
                    )
                });
                if let Out::Ok((r, c, n)) = got {
                    let want = slot.ids[cur as usize];
                    if r != root {
                        self.v(Orc::Build, format!("root_id of the builder is {} instead of {}", nn(slot.idx(r)), nn(ri)));
                    }
                    if c != want {
                        self.v(Orc::Build, format!("current_id of the builder is {} instead of {}", nn(slot.idx(c)), nn(cur)));
                    }
                    if n != slot.model.alive(cur).then_some(want) {
                        self.v(Orc::Build, "the builder's view of the current node is wrong".to_string());
                    }
                }
            }
            self.regs[self.client] = (si, cur);
        }
        slot.f = forest;
        self.slots[si] = Some(slot);
    }

    fn op_nest(&mut self, s: &Step) {
        let si = self.pick_slot(s.p(0));
        let mut slot = self.slots[si].take().unwrap();
        self.set_cls(Cls::Legal);
        self.fp = comb(self.fp, mark(&slot, NONE, NONE));
        let panics = s.p(1) % 2 == 1;
        let oom_at = s.p(2);
        let oom_k = s.p(3);
        let words = if s.a.len() > 4 { &s.a[4..] } else { &[] };
        for &w in words {
            self.fp = comb(self.fp, u64::from(w % 8));
        }
        let mut st = NestRun::<Id> {
            words,
            pos: 0,
            plan: Model::default(),
            roots: Vec::new(),
            adds: 0,
            oom_at,
            oom_k,
            panics,
            root_id: None,
        };
        let p = pay::make(s.p(3) / 8);
        st.plan.push_root(p.serial, p.val);
        let full = slot.may_be_full();
        let out = {
            let f = &mut slot.f;
            let st = &mut st;
            meter::creates((words.len() as u64).pow(2) + 2);
            meter::nests();
            guard(|| {
                if oom_at == 1 {
                    alloc::arm_at(oom_k % 3);
                }
                let mut b = NestTreeBuilder::new(f, p);
                alloc::disarm();
                let _own = alloc::Own::new();
                st.root_id = Some(b.root());
                while st.pos < st.words.len() {
                    st.run(&mut b, 0, 0);
                }
            })
        };
        alloc::disarm();
        let mut exp = OK;
        if full || slot.room() <= st.plan.n.len() as u32 {
            exp |= PRE;
        }
        if oom_at != 0 && out.code() == OOM {
            exp = OOM;
            self.fault(Fault::NestOom);
        }
        if panics && matches!(out, Out::Inj("nest closure")) {
            exp = INJ;
            self.fault(Fault::NestPanic);
        }
        if exp & (OOM | INJ) != 0 {
            self.set_cls(Cls::Faulted);
            self.hist_add |= H_BUILD | if exp & OOM != 0 { H_OOM } else { 0 };
        }
        if out.code() == PRE {
            self.refused();
            self.fault(Fault::Exhausted);
        }
        let what = format!("nest builder with {} nodes", st.plan.n.len());
        self.judge(&what, out, exp);
        if let Some(root) = st.root_id {
            let plan = st.plan.clone();
            let right = |p: u32, serial: u32, _: u32| plan.n[p as usize].serial == serial;
            if let Some(new) = self.adopt_tree(&mut slot, root, &plan, &what, Orc::Build, right) {
                for (p, id) in &st.roots {
                    if slot.ids[new[*p as usize] as usize] != *id {
                        self.v(
                            Orc::Build,
                            format!("{what}: root() was {} inside the closure of {}", nn(slot.idx(*id)), new[*p as usize]),
                        );
                        break;
                    }
                }
                self.regs[self.client] = (si, new[0]);
            }
        }
        self.slots[si] = Some(slot);
    }

    /// Creations of which one runs out of memory.
    fn op_alloc_create(&mut self, s: &Step) {
        let si = self.pick_slot(s.p(0));
        let mut slot = self.slots[si].take().unwrap();
        self.set_cls(Cls::Legal);
        let k = s.p(5) % 3;
        let tries = 1 + s.p(6) % 40;
        let api = s.p(4) % 3;
        let mut hit = false;
        for _ in 0..tries {
            let Some(a) = self.select(&slot, si, s.p(1), s.p(2), NONE) else {
                if self.create_one(&mut slot, None, 0, s.p(7), "create_root").is_none() {
                    break;
                }
                continue;
            };
            let mut dest = Dest::of(s.p(3));
            if !a.alive || slot.may_be_full() || !self.viols.is_empty() {
                break;
            }
            if dest.sibling() && slot.model.parent(a.idx).is_none() {
                dest = Dest::Last;
            }
            self.fp = comb(
                comb(0, mark(&slot, a.idx, NONE)),
                u64::from(k * 16 + api * 4 + s.p(3) % 4),
            );
            let p = pay::make(s.p(7));
            let serial = p.serial;
            let f = &mut slot.f;
            alloc::arm_at(k);
            meter::creates(u64::from(slot.model.depth(a.idx)));
            let out = match api {
                0 => guard(|| Some(f.create_root(p))),
                1 => guard(|| Some(f.create_insert(p, dest.insert(a.id)))),
                _ => guard(|| f.node_mut(a.id).map(|mut n| n.create(p, dest.adopt()))),
            };
            let (_, fired) = alloc::disarm();
            let exp = if fired > 0 {
                self.fault(Fault::CreateOom);
                self.set_cls(Cls::Faulted);
                self.hist_add |= H_OOM;
                hit = true;
                OK | OOM
            } else {
                OK
            };
            if let Some(Some(id)) = self.judge("create", out, exp) {
                let i = self.learn(&mut slot, id, serial, s.p(7));
                if api != 0 {
                    slot.model.attach(i, a.idx, dest);
                }
            }
            if hit {
                break;
            }
        }
        if hit && self.viols.is_empty() {
            // The next creation must work, and the new ID must be right. Twice,
            // since a half-done first attempt may be completed by a second one.
            let mut found = Vec::new();
            meter::any();
            let out = guard(|| audit_slot(&slot, &mut found));
            if let Out::Pre(m) | Out::Bad(m) = out {
                found.push((Orc::Inv, format!("navigation panics: {m}")));
            }
            for (orc, msg) in found {
                self.v(orc, format!("after the failed allocation: {msg}"));
            }
            for r in 0..2 {
                if !self.viols.is_empty() || slot.may_be_full() {
                    break;
                }
                let a = self.select(&slot, si, s.p(1), s.p(2) + r, NONE);
                let anchor = a.filter(|a| a.alive).map(|a| {
                    let mut d = Dest::of(s.p(3) + r);
                    if d.sibling() && slot.model.parent(a.idx).is_none() {
                        d = Dest::First;
                    }
                    (a, d)
                });
                let anchor = if (s.p(8) + r) % 2 == 0 { None } else { anchor };
                self.create_one(&mut slot, anchor, s.p(8) / 2, s.p(7) + 1, "create after the failure");
                self.set_cls(Cls::Faulted);
            }
        }
        self.slots[si] = Some(slot);
    }

    /// Creations up to the end of the ID space (of the small ID types).
    fn op_fill(&mut self, s: &Step) {
        let si = self.pick_slot(s.p(0));
        let mut slot = self.slots[si].take().unwrap();
        self.set_cls(Cls::Legal);
        let goal = if Id::CAP > 70_000 || (Id::CAP > 1000 && s.p(4) % 8 != 0) {
            slot.ids.len() as u32 + s.p(3) % 64
        } else {
            Id::CAP + 4
        };
        let mut refused = 0;
        let mut last = None;
        while (slot.ids.len() as u32) < goal && refused < 6 && self.viols.is_empty() {
            let k = slot.ids.len() as u32;
            let anchor = match (s.p(1) + k) % 3 {
                0 => None,
                r => {
                    let a = match r {
                        1 => last,
                        _ => None,
                    };
                    let a = a.filter(|&a| slot.model.alive(a)).or_else(|| {
                        let n = slot.ids.len().min(40);
                        nth(n, s.p(2) + k, |i| slot.model.alive(i))
                    });
                    a.map(|i| {
                        let mut d = Dest::of(s.p(2) / 4 + k);
                        if d.sibling() && slot.model.parent(i).is_none() {
                            d = Dest::First;
                        }
                        (
                            Op {
                                id: slot.ids[i as usize],
                                idx: i,
                                alive: true,
                            },
                            d,
                        )
                    })
                }
            };
            let before = slot.ids.len();
            let i = self.create_one(&mut slot, anchor, s.p(4) + k, k, "create while filling");
            // No long chains: they would only cost time.
            if k % 16 == 0 {
                last = i;
            }
            if slot.ids.len() == before {
                refused += 1;
            }
        }
        self.fp = comb(self.fp, slot.ids.len() as u64);
        self.slots[si] = Some(slot);
    }

    /// IDs, of removed nodes too, as keys of containers.
    fn keys(&mut self, slot: &Slot<Id>, seed: u32) {
        let n = slot.ids.len() as u32;
        if n == 0 {
            return;
        }
        let mut rng = Rng::new(u64::from(seed) << 32 | u64::from(n));
        for k in 0..12 {
            let mut at = [rng.below(n), rng.below(n), rng.below(n)];
            match k % 4 {
                0 => at[1] = (at[0] + 1) % n,
                1 => at[2] = n - 1,
                2 => at[0] = 0,
                _ => {}
            }
            let ids = at.map(|i| slot.ids[i as usize]);
            let out = guard(|| {
                let same = [(0, 1), (1, 2), (0, 2)].iter().all(|&(i, j)| (ids[i] == ids[j]) == (at[i] == at[j]));
                (same, Id::keys(ids))
            });
            match self.judge("compare IDs", out, OK) {
                Some((false, _)) => self.v(Orc::Id, format!("equality of the IDs of nodes {at:?}")),
                Some((_, Some(what))) => self.v(Orc::Id, format!("IDs of nodes {at:?}: {what}")),
                _ => {}
            }
        }
    }

    /// Looks up IDs that should not resolve.
    fn op_lookup(&mut self, s: &Step) {
        let si = self.pick_slot(s.p(0));
        let mut slot = self.slots[si].take().unwrap();
        if let Some(op) = self.select(&slot, si, s.p(1), s.p(2), NONE) {
            self.set_cls(Cls::Legal);
            self.note_dead(&op);
            self.keys(&slot, s.p(2) ^ s.p(1) << 7);
            self.fp = comb(
                comb(self.fp, mark(&slot, op.idx, NONE)),
                u64::from(slot.ids.len() as u32) << 2 | u64::from(op.alive) << 1 | u64::from(op.idx == NONE),
            );
            let f = &mut slot.f;
            let out = guard(|| {
                [
                    f.node(op.id).is_some(),
                    f.data(op.id).is_some(),
                    f.node_mut(op.id).is_some(),
                    f.data_mut(op.id).is_some(),
                    f.node(op.id).map_or(op.alive, |n| n.id() == op.id),
                    f.node_mut(op.id).map_or(op.alive, |n| n.id() == op.id && n.node().id() == op.id && n.into_node().id() == op.id),
                ]
            });
            if let Some(got) = self.judge(&format!("look up {}", nn(op.idx)), out, OK) {
                let want = [op.alive; 4];
                if got[..4] != want {
                    self.v(Orc::Id, format!("node/data/node_mut/data_mut of {} resolve: {:?}, alive: {}", nn(op.idx), &got[..4], op.alive));
                } else if op.alive && !(got[4] && got[5]) {
                    self.v(Orc::Id, format!("handles of node {} report another ID", op.idx));
                }
                if meter::ON && op.alive {
                    let f = &slot.f;
                    macro_rules! each {
                        ($($name:ident)*) => {$(
                            let _ = guard(|| f.node(op.id).map(|n| n.$name().is_some()));
                        )*};
                    }
                    each!(parent next_sibling prev_sibling first_child last_child first_last_child);
                    each!(parent_id next_sibling_id prev_sibling_id first_child_id last_child_id first_last_child_id);
                }
                if op.alive {
                    let serial = slot.model.n[op.idx as usize].serial;
                    let f = &mut slot.f;
                    let out = guard(|| {
                        let a = f.node(op.id).map(|n| (n.data().serial, std::ptr::eq(n.forest(), &*f)));
                        let b = f.node_mut(op.id).map(|mut n| {
                            (n.data().serial, n.data_mut().serial, n.forest().data(op.id).map(|d| d.serial))
                        });
                        (a, b)
                    });
                    if let Out::Ok((a, b)) = out {
                        if a != Some((serial, true)) || b != Some((serial, serial, Some(serial))) {
                            self.v(Orc::Data, format!("handles of node {} give another payload or forest", op.idx));
                        }
                    }
                }
            }
        }
        self.slots[si] = Some(slot);
    }
}

/// State of a nest builder program.
struct NestRun<'p, Id> {
    words: &'p [u32],
    pos: usize,
    plan: Model,
    roots: Vec<(u32, Id)>,
    adds: u32,
    oom_at: u32,
    oom_k: u32,
    panics: bool,
    root_id: Option<Id>,
}

impl<Id: SimId> NestRun<'_, Id> {
    fn push(&mut self, under: u32, p: &Pay) -> u32 {
        let i = self.plan.push_root(p.serial, p.val);
        self.plan.n[i as usize].parent = under;
        self.plan.n[under as usize].children.push(i);
        i
    }

    fn unpush(&mut self, under: u32) {
        self.plan.n.pop();
        self.plan.n[under as usize].children.pop();
        self.plan.live -= 1;
    }

    fn run(&mut self, b: &mut NestTreeBuilder<'_, Id, Pay>, under: u32, depth: u32) {
        while self.pos < self.words.len() {
            let w = self.words[self.pos];
            self.pos += 1;
            match w % 8 {
                op @ 0..=4 => {
                    let p = pay::make(w / 8);
                    let i = self.push(under, &p);
                    self.adds += 1;
                    let arm = self.oom_at > 1 && self.oom_at <= self.adds + 1;
                    let k = self.oom_k % 3;
                    meter::creates(2 * self.words.len() as u64 + 2);
                    if op <= 2 {
                        // The plan must not name the node if the call fails.
                        let r = guard(|| {
                            let _on = Off::new();
                            if arm {
                                alloc::arm_at(k);
                            }
                            b.add_child(p);
                            alloc::disarm();
                        });
                        alloc::disarm();
                        if !matches!(r, Out::Ok(())) {
                            self.unpush(under);
                            resume(r);
                        }
                    } else {
                        let mut entered = false;
                        let this = &mut *self;
                        let r = guard(|| {
                            let _on = Off::new();
                            if arm {
                                alloc::arm_at(k);
                            }
                            b.create_tree(p, |b| {
                                alloc::disarm();
                                let _own = alloc::Own::new();
                                entered = true;
                                if this.roots.len() < 10_000 {
                                    this.roots.push((i, b.root()));
                                }
                                this.run(b, i, depth + 1);
                            });
                        });
                        alloc::disarm();
                        if !matches!(r, Out::Ok(())) {
                            if !entered {
                                self.unpush(under);
                            }
                            resume(r);
                        }
                        if !entered {
                            panic_any(Injected("closure not called"));
                        }
                    }
                    self.roots.push((under, b.root()));
                }
                7 if self.panics => panic_any(Injected("nest closure")),
                5 | 6 if depth > 0 => return,
                _ => self.roots.push((under, b.root())),
            }
        }
    }
}

/// Lifts the simulator's own allocation exemption for a call into the crate.
struct Off;

impl Off {
    fn new() -> Self {
        alloc::own_add(-1);
        Off
    }
}

impl Drop for Off {
    fn drop(&mut self) {
        alloc::own_add(1);
    }
}

/// Passes a panic on.
fn resume(r: Out<()>) {
    match r {
        Out::Ok(()) | Out::Err(_) => {}
        Out::Inj(m) => panic_any(Injected(m)),
        Out::Oom => panic_any(alloc::InjectedOom),
        Out::Pre(m) | Out::Bad(m) => std::panic::resume_unwind(Box::new(m)),
    }
}

/// Used by the generator to vary texts.
pub fn val_of(seed: u64) -> u32 {
    (mix(seed) % (1 << 20)) as u32
}
