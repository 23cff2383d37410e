//! Execution of the steps that only read: iterators consumed under a schedule,
//! traversals without memory, and printing to unreliable sinks.

use std::fmt::{self, Write as _};
use std::panic::panic_any;

use treena::dynamic::{
    AllocatingBreadthFirstTraverse, Ancestors, BreadthFirstTraverse, DepthFirstTraverse, DftEvent,
    Node, ShallowDepthFirstTraverse, Siblings,
};

use crate::alloc;
use crate::ids::SimId;
use crate::meter;
use crate::model::Model;
use crate::ops::GIANT;
use crate::pay::{self, Injected, Pay, PrintPlan, NONE};
use crate::rng::{comb, mix};
use crate::step::*;
use crate::world::*;

/// Traversals by number.
pub const READERS: u32 = 11;
const READER_NAMES: [&str; 11] = [
    "depth_first_traverse",
    "shallow_depth_first_traverse",
    "breadth_first_traverse",
    "allocating_breadth_first_traverse",
    "ancestors",
    "ancestors_or_self",
    "children",
    "following_siblings",
    "following_siblings_or_self",
    "preceding_siblings",
    "preceding_siblings_or_self",
];

/// An item: node index, event (1 open, 2 close), depth.
type Item = u64;

/// How far `nth()` skips.
const FAR: [usize; 8] = [0, 1, 2, 3, 5, 9, 40, usize::MAX];

fn item(idx: u32, ev: u64, depth: usize) -> Item {
    u64::from(idx) | ev << 32 | (depth as u64) << 34
}

fn show(i: Option<Item>) -> String {
    match i {
        None => "None".into(),
        Some(i) => {
            let ev = ["", "open ", "close ", "?"][(i >> 32 & 3) as usize];
            format!("{ev}{}@{}", nn(i as u32), i >> 34)
        }
    }
}

#[derive(Clone)]
enum It<'a, Id: SimId> {
    Dft(DepthFirstTraverse<'a, Id, Pay>),
    Shallow(ShallowDepthFirstTraverse<'a, Id, Pay>),
    Bft(BreadthFirstTraverse<'a, Id, Pay>),
    ABft(AllocatingBreadthFirstTraverse<'a, Id, Pay>),
    Anc(Ancestors<'a, Id, Pay>),
    Sib(Siblings<'a, Id, Pay>),
}

/// Maps nodes of iterators to node numbers.
struct Names<'s, Id: SimId>(&'s Slot<Id>);

impl<'a, Id: SimId> Names<'_, Id> {
    fn node(&self, n: Node<'a, Id, Pay>) -> u32 {
        let i = self.0.idx(n.id());
        if i == NONE {
            return NONE - 1;
        }
        // The handle must be good for more than its ID.
        if n.data().serial != self.0.model.n[i as usize].serial {
            return NONE - 2;
        }
        i
    }

    fn ev(&self, e: DftEvent<Node<'a, Id, Pay>>) -> Item {
        let (e, open) = match e {
            DftEvent::Open(n) => (DftEvent::Open(n), 1),
            DftEvent::Close(n) => (DftEvent::Close(n), 2),
        };
        match e.map(|n| self.node(n)) {
            DftEvent::Open(i) | DftEvent::Close(i) => item(i, open, 0),
        }
    }

    fn evd(&self, e: (DftEvent<Node<'a, Id, Pay>>, usize)) -> Item {
        self.ev(e.0) | (e.1 as u64) << 34
    }

    fn nd(&self, e: (Node<'a, Id, Pay>, usize)) -> Item {
        item(self.node(e.0), 0, e.1)
    }

    fn n(&self, n: Node<'a, Id, Pay>) -> Item {
        item(self.node(n), 0, 0)
    }
}

impl<'a, Id: SimId> It<'a, Id> {
    fn next(&mut self, m: &Names<'_, Id>) -> Option<Item> {
        match self {
            It::Dft(i) => i.next().map(|e| m.ev(e)),
            It::Shallow(i) => i.next().map(|e| m.evd(e)),
            It::Bft(i) => i.next().map(|e| m.nd(e)),
            It::ABft(i) => i.next().map(|e| m.nd(e)),
            It::Anc(i) => i.next().map(|e| m.n(e)),
            It::Sib(i) => i.next().map(|e| m.n(e)),
        }
    }

    fn nth(&mut self, m: &Names<'_, Id>, k: usize) -> Option<Item> {
        match self {
            It::Dft(i) => i.nth(k).map(|e| m.ev(e)),
            It::Shallow(i) => i.nth(k).map(|e| m.evd(e)),
            It::Bft(i) => i.nth(k).map(|e| m.nd(e)),
            It::ABft(i) => i.nth(k).map(|e| m.nd(e)),
            It::Anc(i) => i.nth(k).map(|e| m.n(e)),
            It::Sib(i) => i.nth(k).map(|e| m.n(e)),
        }
    }

    fn two_ended(&self) -> bool {
        matches!(self, It::Dft(_) | It::Shallow(_) | It::Sib(_))
    }

    fn next_back(&mut self, m: &Names<'_, Id>) -> Option<Item> {
        match self {
            It::Dft(i) => i.next_back().map(|e| m.ev(e)),
            It::Shallow(i) => i.next_back().map(|e| m.evd(e)),
            It::Sib(i) => i.next_back().map(|e| m.n(e)),
            _ => None,
        }
    }

    fn nth_back(&mut self, m: &Names<'_, Id>, k: usize) -> Option<Item> {
        match self {
            It::Dft(i) => i.nth_back(k).map(|e| m.ev(e)),
            It::Shallow(i) => i.nth_back(k).map(|e| m.evd(e)),
            It::Sib(i) => i.nth_back(k).map(|e| m.n(e)),
            _ => None,
        }
    }

    fn peek(&self, m: &Names<'_, Id>) -> Option<Option<Item>> {
        match self {
            It::Dft(i) => Some(i.peek().map(|e| m.ev(e))),
            It::Shallow(i) => Some(i.peek().map(|e| m.evd(e))),
            It::Bft(_) => None,
            It::ABft(i) => Some(i.peek().map(|e| m.nd(e))),
            It::Anc(i) => Some(i.peek().map(|e| m.n(e))),
            It::Sib(i) => Some(i.peek().map(|e| m.n(e))),
        }
    }

    fn peek_back(&self, m: &Names<'_, Id>) -> Option<Option<Item>> {
        match self {
            It::Dft(i) => Some(i.peek_back().map(|e| m.ev(e))),
            It::Shallow(i) => Some(i.peek_back().map(|e| m.evd(e))),
            It::Sib(i) => Some(i.peek_back().map(|e| m.n(e))),
            _ => None,
        }
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        match self {
            It::Dft(i) => i.size_hint(),
            It::Shallow(i) => i.size_hint(),
            It::Bft(i) => i.size_hint(),
            It::ABft(i) => i.size_hint(),
            It::Anc(i) => i.size_hint(),
            It::Sib(i) => i.size_hint(),
        }
    }

    /// Consumes the iterator in one of the ways there are, and returns what
    /// has to be compared with `Way::expect`.
    fn consume(self, m: &Names<'_, Id>, way: Way, limit: usize, out: &mut Vec<Item>) {
        let mut put = |i: Item| {
            if out.len() > limit {
                panic_any(Injected("endless iteration"));
            }
            out.push(i);
        };
        // The method is always called on the iterator of the crate itself,
        // since adaptors do not forward all of them.
        macro_rules! each {
            ($i:ident, $conv:ident, $body:expr) => {
                match self {
                    #[allow(unused_mut)]
                    It::Dft(mut $i) => {
                        let $conv = |e| m.ev(e);
                        $body
                    }
                    #[allow(unused_mut)]
                    It::Shallow(mut $i) => {
                        let $conv = |e| m.evd(e);
                        $body
                    }
                    #[allow(unused_mut)]
                    It::Bft(mut $i) => {
                        let $conv = |e| m.nd(e);
                        $body
                    }
                    #[allow(unused_mut)]
                    It::ABft(mut $i) => {
                        let $conv = |e| m.nd(e);
                        $body
                    }
                    #[allow(unused_mut)]
                    It::Anc(mut $i) => {
                        let $conv = |e| m.n(e);
                        $body
                    }
                    #[allow(unused_mut)]
                    It::Sib(mut $i) => {
                        let $conv = |e| m.n(e);
                        $body
                    }
                }
            };
        }
        macro_rules! each_back {
            ($i:ident, $conv:ident, $body:expr) => {
                match self {
                    #[allow(unused_mut)]
                    It::Dft(mut $i) => {
                        let $conv = |e| m.ev(e);
                        $body
                    }
                    #[allow(unused_mut)]
                    It::Shallow(mut $i) => {
                        let $conv = |e| m.evd(e);
                        $body
                    }
                    #[allow(unused_mut)]
                    It::Sib(mut $i) => {
                        let $conv = |e| m.n(e);
                        $body
                    }
                    _ => {}
                }
            };
        }
        match way {
            Way::ForEach => each!(i, conv, i.for_each(|e| put(conv(e)))),
            Way::Loop => each!(i, conv, {
                for e in i {
                    put(conv(e));
                }
            }),
            Way::Fold => each!(i, conv, {
                let n = i.fold(0usize, |n, e| {
                    put(conv(e));
                    n + 1
                });
                put(n as u64)
            }),
            Way::Count => each!(i, _conv, {
                let _ = if false { i.next().map(_conv) } else { None };
                put(i.count() as u64)
            }),
            Way::Last => each!(i, conv, put(i.last().map_or(NO_ITEM, conv))),
            Way::Find(k) => each!(i, conv, {
                let mut n = 0;
                let hit = i.find(|_| {
                    n += 1;
                    n > k
                });
                put(hit.map_or(NO_ITEM, conv));
                i.for_each(|e| put(conv(e)))
            }),
            Way::Position(k) => each!(i, conv, {
                let mut n = 0;
                let hit = i.position(|e| {
                    put(conv(e));
                    n += 1;
                    n > k
                });
                put(hit.map_or(NO_ITEM, |v| v as u64));
                i.for_each(|e| put(conv(e)))
            }),
            Way::All(k) => each!(i, conv, {
                let mut n = 0;
                let all = i.all(|e| {
                    put(conv(e));
                    n += 1;
                    n <= k
                });
                put(u64::from(all));
                i.for_each(|e| put(conv(e)))
            }),
            Way::Skip(k) => each!(i, conv, i.skip(k).for_each(|e| put(conv(e)))),
            Way::StepBy(k) => each!(i, conv, i.step_by(k + 1).for_each(|e| put(conv(e)))),
            Way::Take(k) => each!(i, conv, {
                i.by_ref().take(k).for_each(|e| put(conv(e)));
                i.for_each(|e| put(conv(e)))
            }),
            Way::Collect => each!(i, conv, {
                let v: Vec<_> = i.take(limit + 2).collect();
                v.into_iter().for_each(|e| put(conv(e)))
            }),
            Way::Reduce => each!(i, conv, {
                let last = i.reduce(|a, e| {
                    put(conv(a));
                    e
                });
                if let Some(e) = last {
                    put(conv(e));
                }
            }),
            Way::RevForEach => each_back!(i, conv, i.rev().for_each(|e| put(conv(e)))),
            Way::RevLoop => each_back!(i, conv, {
                while let Some(e) = i.next_back() {
                    put(conv(e));
                }
            }),
            Way::RFold => each_back!(i, conv, {
                let n = i.rfold(0usize, |n, e| {
                    put(conv(e));
                    n + 1
                });
                put(n as u64)
            }),
            Way::RFind(k) => each_back!(i, conv, {
                let mut n = 0;
                let hit = i.rfind(|_| {
                    n += 1;
                    n > k
                });
                put(hit.map_or(NO_ITEM, conv));
                i.for_each(|e| put(conv(e)))
            }),
        }
    }
}

/// Stands for no item.
const NO_ITEM: Item = Item::MAX;

/// A way to consume an iterator at once.
#[derive(Clone, Copy, Debug)]
enum Way {
    ForEach,
    Loop,
    Fold,
    Count,
    Last,
    Find(usize),
    Position(usize),
    All(usize),
    Skip(usize),
    StepBy(usize),
    Take(usize),
    Collect,
    Reduce,
    RevForEach,
    RevLoop,
    RFold,
    RFind(usize),
}

impl Way {
    fn of(back: bool, v: u32) -> Way {
        let k = (v / 16 % 5) as usize;
        if back {
            return match v % 4 {
                0 => Way::RevForEach,
                1 => Way::RevLoop,
                2 => Way::RFold,
                _ => Way::RFind(k),
            };
        }
        match v % 16 {
            1 => Way::Loop,
            2 => Way::Fold,
            3 | 4 => Way::Count,
            5 | 6 => Way::Last,
            7 => Way::Find(k),
            8 => Way::Position(k),
            9 => Way::All(k),
            10 => Way::Skip(k),
            11 => Way::StepBy(k),
            12 => Way::Take(k),
            13 => Way::Collect,
            14 => Way::Reduce,
            _ => Way::ForEach,
        }
    }

    /// What consuming the given items has to produce.
    fn expect(self, rest: &[Item]) -> Vec<Item> {
        let back = || rest.iter().rev().copied();
        match self {
            Way::ForEach | Way::Loop | Way::Take(_) | Way::Collect | Way::Reduce => rest.to_vec(),
            Way::Fold => rest.iter().copied().chain([rest.len() as u64]).collect(),
            Way::Count => vec![rest.len() as u64],
            Way::Last => vec![rest.last().copied().unwrap_or(NO_ITEM)],
            Way::Find(k) | Way::Skip(k) if k >= rest.len() => {
                if matches!(self, Way::Find(_)) {
                    vec![NO_ITEM]
                } else {
                    Vec::new()
                }
            }
            Way::Find(k) | Way::Skip(k) => rest[k..].to_vec(),
            Way::Position(k) | Way::All(k) => {
                let seen = (k + 1).min(rest.len());
                let hit = k < rest.len();
                let result = match self {
                    Way::Position(_) if hit => k as u64,
                    Way::Position(_) => NO_ITEM,
                    _ => u64::from(!hit),
                };
                let mut v = rest[..seen].to_vec();
                v.push(result);
                v.extend_from_slice(&rest[seen..]);
                v
            }
            Way::StepBy(k) => rest.iter().copied().step_by(k + 1).collect(),
            Way::RevForEach | Way::RevLoop => back().collect(),
            Way::RFold => back().chain([rest.len() as u64]).collect(),
            Way::RFind(k) => {
                let mut v = Vec::new();
                match rest.len().checked_sub(k + 1) {
                    Some(at) => {
                        v.push(rest[at]);
                        v.extend_from_slice(&rest[..at]);
                    }
                    None => v.push(NO_ITEM),
                }
                v
            }
        }
    }
}

/// Whether the non-allocating breadth-first traversal, which goes through the
/// upper levels again for every level, would take too long.
fn slow(m: &Model, node: u32) -> bool {
    if m.n.len() <= GIANT {
        return false;
    }
    let d = m.preorder_depths(node);
    let height = d.iter().map(|&(_, d)| u64::from(d)).max().unwrap_or(0);
    d.len() as u64 * height > 10_000_000
}

/// The sequence that the traversal has to yield, by definition.
fn sequence(m: &Model, reader: u32, node: u32, max_depth: Option<usize>) -> Vec<Item> {
    let mut out = Vec::new();
    match reader {
        0 | 1 => {
            let max = if reader == 0 { None } else { max_depth };
            // (node, depth, closing)
            let mut stack = vec![(node, 0usize, false)];
            while let Some((n, d, closing)) = stack.pop() {
                let shown = if reader == 0 { 0 } else { d };
                if closing {
                    out.push(item(n, 2, shown));
                    continue;
                }
                out.push(item(n, 1, shown));
                stack.push((n, d, true));
                if max.map_or(true, |m| d < m) {
                    stack.extend(m.children(n).iter().rev().map(|&c| (c, d + 1, false)));
                }
            }
        }
        2 | 3 => {
            let mut level = vec![node];
            let mut d = 0;
            while !level.is_empty() {
                out.extend(level.iter().map(|&n| item(n, 0, d)));
                level = level
                    .iter()
                    .flat_map(|&n| m.children(n).iter().copied())
                    .collect();
                d += 1;
            }
        }
        4 | 5 => {
            let mut cur = Some(node);
            while let Some(c) = cur {
                out.push(item(c, 0, 0));
                cur = m.parent(c);
            }
            if reader == 4 {
                out.remove(0);
            }
        }
        6 => out.extend(m.children(node).iter().map(|&c| item(c, 0, 0))),
        _ => {
            let alone = [node];
            let sibs: &[u32] = m.parent(node).map_or(&alone, |p| m.children(p));
            let pos = sibs.iter().position(|&c| c == node).unwrap();
            let part = match reader {
                7 => &sibs[pos + 1..],
                8 => &sibs[pos..],
                9 => &sibs[..pos],
                _ => &sibs[..=pos],
            };
            out.extend(part.iter().map(|&c| item(c, 0, 0)));
        }
    }
    out
}

fn open<'a, Id: SimId>(
    slot: &'a Slot<Id>,
    id: Id,
    reader: u32,
    max_depth: Option<usize>,
    by_node: bool,
) -> It<'a, Id> {
    let f = &slot.f;
    if by_node {
        let n = f.node(id).unwrap_or_else(|| panic_any(Injected("node() is None")));
        return match reader {
            0 => It::Dft(n.depth_first_traverse()),
            1 => It::Shallow(n.shallow_depth_first_traverse(max_depth)),
            2 => It::Bft(n.breadth_first_traverse()),
            3 => It::ABft(n.allocating_breadth_first_traverse()),
            4 => It::Anc(n.ancestors()),
            5 => It::Anc(n.ancestors_or_self()),
            6 => It::Sib(n.children()),
            7 => It::Sib(n.following_siblings()),
            8 => It::Sib(n.following_siblings_or_self()),
            9 => It::Sib(n.preceding_siblings()),
            _ => It::Sib(n.preceding_siblings_or_self()),
        };
    }
    match reader {
        0 => It::Dft(f.depth_first_traverse(id)),
        1 => It::Shallow(f.shallow_depth_first_traverse(id, max_depth)),
        2 => It::Bft(f.breadth_first_traverse(id)),
        3 => It::ABft(f.allocating_breadth_first_traverse(id)),
        4 => It::Anc(f.ancestors(id)),
        5 => It::Anc(f.ancestors_or_self(id)),
        6 => It::Sib(f.children(id)),
        7 => It::Sib(f.following_siblings(id)),
        8 => It::Sib(f.following_siblings_or_self(id)),
        9 => It::Sib(f.preceding_siblings(id)),
        _ => It::Sib(f.preceding_siblings_or_self(id)),
    }
}

/// An iterator and what is left of its sequence.
#[derive(Clone)]
struct Live<'a, Id: SimId> {
    it: It<'a, Id>,
    seq: usize,
    lo: usize,
    hi: usize,
    no: u32,
}

pub fn depth_limit(v: u32) -> Option<usize> {
    match v % 9 {
        0 => None,
        1 => Some(usize::MAX),
        2 => Some(usize::MAX - 1),
        v => Some(v as usize - 3),
    }
}

/// One of several threads takes all items of an iterator, from both ends and
/// with a fork. What is wrong, and whether it is a panic.
pub fn consume_shared<Id: SimId>(slot: &Slot<Id>, idx: u32, reader: u32, k: u32) -> Result<(), (bool, String)> {
    let limit = depth_limit(k / 3);
    let seq = {
        let _own = alloc::Own::new();
        sequence(&slot.model, reader, idx, limit)
    };
    let names = Names(slot);
    let what = format!("{} from node {idx}", READER_NAMES[reader as usize]);
    let by_node = k % 2 == 0;
    let bad = |o: String, label: bool| Err((label, format!("{what}: {o}")));
    let mut it = match guard(|| open(slot, slot.ids[idx as usize], reader, limit, by_node)) {
        Out::Ok(it) => it,
        o => return bad(o.describe(), matches!(o, Out::Pre(_) | Out::Bad(_))),
    };
    let (mut lo, mut hi) = (0, seq.len());
    let fork_at = (k / 5) as usize % (seq.len() + 1);
    for n in 0..=seq.len() {
        if n == fork_at {
            // A fork, and the end of it.
            let mut got = Vec::new();
            let way = Way::of(false, k / 11);
            let out = guard(|| it.clone().consume(&names, way, seq.len() + 3, &mut got));
            if !matches!(out, Out::Ok(())) {
                return bad(out.describe(), matches!(out, Out::Pre(_) | Out::Bad(_)));
            }
            if got != way.expect(&seq[lo..hi]) {
                return bad(format!("fork consumed by {way:?} after {n} items is wrong"), false);
            }
        }
        let back = it.two_ended() && mix(u64::from(k) ^ n as u64) % 3 == 0;
        let want = match (lo == hi, back) {
            (true, _) => None,
            (_, true) => {
                hi -= 1;
                Some(seq[hi])
            }
            _ => {
                lo += 1;
                Some(seq[lo - 1])
            }
        };
        let out = guard(|| {
            if back {
                it.next_back(&names)
            } else {
                it.next(&names)
            }
        });
        match out {
            Out::Ok(got) if got == want => {}
            Out::Ok(got) => return bad(format!("item {n} is {}, expected {}", show(got), show(want)), false),
            o => return bad(o.describe(), matches!(o, Out::Pre(_) | Out::Bad(_))),
        }
    }
    Ok(())
}

impl<Id: SimId> World<Id> {
    /// Several iterators over one forest, consumed under a schedule.
    pub fn op_read(&mut self, s: &Step) {
        let si = self.pick_slot(s.p(0));
        let slot = self.slots[si].take().unwrap();
        let count = 1 + s.p(3) % 3;
        let mut kinds = s.p(3) / 3;
        let words = if s.a.len() > 6 { &s.a[6..] } else { &[] };
        let mut specs = Vec::new();
        for k in 0..count {
            let mut reader = kinds % READERS;
            kinds /= READERS;
            let base = specs.first().map_or(NONE, |s: &(u32, Id, u32, bool, Option<usize>)| s.0);
            let op = if k == 0 {
                self.select(&slot, si, s.p(1), s.p(2), NONE)
            } else if s.p(5) % 2 == 0 {
                self.select(&slot, si, 10, 0, base)
            } else {
                self.select(&slot, si, 10, s.p(5) / 2 + k, base)
            };
            let Some(op) = op else { break };
            if reader == 2 && op.alive && slow(&slot.model, op.idx) {
                reader = 3;
            }
            let limit = depth_limit(s.p(4) / 2 + k);
            specs.push((op.idx, op.id, reader, op.alive, limit));
        }
        if specs.is_empty() {
            self.slots[si] = Some(slot);
            return;
        }
        self.set_cls(Cls::Legal);
        self.fp = comb(self.fp, mark(&slot, specs[0].0, specs.get(1).map_or(NONE, |s| s.0)));
        let by_node = s.p(4) % 2 == 1;
        let names = Names(&slot);
        let mut seqs: Vec<Vec<Item>> = Vec::new();
        let mut live: Vec<Live<'_, Id>> = Vec::new();
        for (no, &(idx, id, reader, alive, limit)) in specs.iter().enumerate() {
            let what = format!("{} from {}", READER_NAMES[reader as usize], nn(idx));
            self.fp = comb(self.fp, u64::from(reader) + limit.map_or(0, |l| 16 * (l as u64 % 64 + 1)));
            if !alive {
                self.fault(if idx == NONE { Fault::UnissuedId } else { Fault::StaleId });
                self.set_cls(Cls::Refused);
                if by_node {
                    continue;
                }
                let out = guard(|| drop(open(&slot, id, reader, limit, false)));
                self.judge(&what, out, PRE);
                continue;
            }
            // The queue of the allocating breadth-first traversal, if any.
            meter::allow(u64::from(reader == 3));
            let out = guard(|| open(&slot, id, reader, limit, by_node));
            if let Some(it) = self.judge(&what, out, OK) {
                let seq = sequence(&slot.model, reader, idx, limit);
                if let It::Shallow(i) = &it {
                    let got = i.max_depth();
                    let same = got == limit || (limit == Some(usize::MAX) && got.is_none());
                    if !same {
                        self.v(Orc::Iter, format!("{what}: max_depth() is {got:?}, not {limit:?}"));
                    }
                }
                live.push(Live {
                    it,
                    seq: seqs.len(),
                    lo: 0,
                    hi: seq.len(),
                    no: no as u32,
                });
                seqs.push(seq);
            }
        }
        let mut sched = 0u64;
        let mut taken = 0u64;
        for &word in words {
            if live.is_empty() || !self.viols.is_empty() {
                break;
            }
            let at = (word / 32) as usize % live.len();
            let action = word % 32;
            sched = comb(sched, (at as u64) << 8 | u64::from(action));
            if action == 31 && live.len() > 1 {
                live.swap_remove(at);
                continue;
            }
            let l = &mut live[at];
            let seq = &seqs[l.seq];
            let reader = specs[l.no as usize].2;
            let rest = &seq[l.lo..l.hi];
            taken += 1;
            let what = |a: &str| {
                format!(
                    "{} from {} after {} from the front and {} from the back: {a}",
                    READER_NAMES[reader as usize],
                    nn(specs[l.no as usize].0),
                    l.lo,
                    seq.len() - l.hi
                )
            };
            let mut fork = None;
            // A call goes one item on. Only breadth-first traversals may have
            // to do the work of many at once.
            let step = match reader {
                2 => (seq.len() as u64).pow(2),
                3 => 4 * seq.len() as u64,
                _ => 0,
            };
            let units = match action {
                25..=27 => FAR[(word / 512) as usize % FAR.len()].min(rest.len()) as u64,
                28..=30 => rest.len() as u64,
                _ => 0,
            };
            meter::allow(step + units);
            let (out, want, msg): (Out<Option<Item>>, Option<Item>, String) = match action {
                0..=7 => {
                    let w = (what("next()"), rest.first().copied());
                    let it = &mut l.it;
                    let o = guard(|| it.next(&names));
                    if l.lo < l.hi {
                        l.lo += 1;
                    }
                    (o, w.1, w.0)
                }
                8..=15 if l.it.two_ended() => {
                    let w = (what("next_back()"), rest.last().copied());
                    let it = &mut l.it;
                    let o = guard(|| it.next_back(&names));
                    if l.lo < l.hi {
                        l.hi -= 1;
                    }
                    (o, w.1, w.0)
                }
                16..=18 => match guard(|| l.it.peek(&names)) {
                    Out::Ok(None) => continue,
                    o => (o.map(|v| v.unwrap()), rest.first().copied(), what("peek()")),
                },
                19..=21 => match guard(|| l.it.peek_back(&names)) {
                    Out::Ok(None) => continue,
                    o => (o.map(|v| v.unwrap()), rest.last().copied(), what("peek_back()")),
                },
                22 | 23 => {
                    let it = &l.it;
                    let o = guard(|| it.clone());
                    let m = what("clone()");
                    match o {
                        Out::Ok(it) => {
                            fork = Some(Live {
                                it,
                                seq: l.seq,
                                lo: l.lo,
                                hi: l.hi,
                                no: l.no,
                            });
                            (Out::Ok(None), None, m)
                        }
                        o => (o.map(|_| None), None, m),
                    }
                }
                24 => {
                    let m = what("size_hint()");
                    let left = rest.len();
                    match guard(|| l.it.size_hint()) {
                        Out::Ok((low, high)) => {
                            let ok = low <= left && high.map_or(true, |h| h >= left);
                            if !ok {
                                let msg = format!("{m} is ({low}, {high:?}) with {left} items left");
                                self.v(Orc::Iter, msg);
                            }
                            continue;
                        }
                        o => (o.map(|_| None), None, m),
                    }
                }
                25 | 26 => {
                    // Skip ahead.
                    let k = FAR[(word / 512) as usize % FAR.len()];
                    let w = (what("nth()"), rest.get(k).copied());
                    let it = &mut l.it;
                    let o = guard(|| it.nth(&names, k));
                    l.lo = l.lo.saturating_add(k).saturating_add(1).min(l.hi);
                    (o, w.1, w.0)
                }
                27 if l.it.two_ended() => {
                    let k = FAR[(word / 512) as usize % FAR.len()];
                    let w = (
                        what("nth_back()"),
                        rest.len().checked_sub(k.saturating_add(1)).map(|i| rest[i]),
                    );
                    let it = &mut l.it;
                    let o = guard(|| it.nth_back(&names, k));
                    l.hi = l.hi.saturating_sub(k.saturating_add(1)).max(l.lo);
                    (o, w.1, w.0)
                }
                28..=30 => {
                    // A fork consumed at once.
                    let back = action == 30 && l.it.two_ended();
                    let way = Way::of(back, word / 512);
                    sched = comb(sched, u64::from(word / 512));
                    let m = what(&format!("fork consumed by {way:?}"));
                    let mut got = Vec::new();
                    let want = way.expect(rest);
                    let o = guard(|| {
                        let it = l.it.clone();
                        it.consume(&names, way, rest.len() + 2, &mut got);
                    });
                    if o.code() == OK && got != want {
                        let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
                        let msg = format!(
                            "{m}: item {k} is {}, expected {} ({} items, expected {})",
                            show(got.get(k).copied()),
                            show(want.get(k).copied()),
                            got.len(),
                            want.len()
                        );
                        self.v(Orc::Iter, msg);
                    }
                    (o.map(|_| None), None, m)
                }
                _ => continue,
            };
            self.check_item(&msg, out, want, reader);
            if let Some(f) = fork {
                if live.len() < 6 {
                    live.push(f);
                }
            }
        }
        // Take the rest of all, turn by turn.
        let mut spins = 0usize;
        let total: usize = live.iter().map(|l| l.hi - l.lo + 2).sum();
        while !live.is_empty() && self.viols.is_empty() {
            spins += 1;
            if spins > total * 2 + 16 {
                break;
            }
            let at = spins % live.len();
            let l = &mut live[at];
            let reader = specs[l.no as usize].2;
            let seq = &seqs[l.seq];
            let back = l.it.two_ended() && mix(sched ^ spins as u64) % 3 == 0;
            let left = l.hi - l.lo;
            let want = if left == 0 {
                None
            } else if back {
                Some(seq[l.hi - 1])
            } else {
                Some(seq[l.lo])
            };
            meter::allow(match reader {
                2 => (seq.len() as u64).pow(2),
                3 => 4 * seq.len() as u64,
                _ => 0,
            });
            let it = &mut l.it;
            let out = guard(|| {
                if back {
                    it.next_back(&names)
                } else {
                    it.next(&names)
                }
            });
            let msg = format!(
                "{} from {}: {} with {} of {} items left",
                READER_NAMES[reader as usize],
                nn(specs[l.no as usize].0),
                if back { "next_back()" } else { "next()" },
                left,
                seq.len()
            );
            if left == 0 {
                // Exhausted: stays so, on both ends and for peeking.
                self.check_item(&msg, out, None, reader);
                let l = &mut live[at];
                let it = &mut l.it;
                meter::allow(match reader {
                    2 => (seq.len() as u64).pow(2),
                    3 => 4 * seq.len() as u64,
                    _ => 4,
                });
                let out = guard(|| {
                    let a = it.next(&names);
                    let b = it.next_back(&names);
                    let c = it.peek(&names).flatten();
                    let d = it.peek_back(&names).flatten();
                    let e = it.next(&names);
                    a.or(b).or(c).or(d).or(e)
                });
                self.check_item(&format!("{msg} (already exhausted)"), out, None, reader);
                live.swap_remove(at);
            } else {
                if back {
                    l.hi -= 1;
                } else {
                    l.lo += 1;
                }
                self.check_item(&msg, out, want, reader);
            }
        }
        drop(live);
        self.fp = comb(self.fp, sched);
        self.stats.reads += taken;
        self.slots[si] = Some(slot);
    }

    fn check_item(&mut self, what: &str, out: Out<Option<Item>>, want: Option<Item>, reader: u32) {
        let orc = if reader == 2 || reader == 3 { Orc::Bft } else { Orc::Iter };
        self.dig(u64::from(out.code()) << 60 ^ want.unwrap_or(7));
        match out {
            Out::Ok(got) if got == want => {}
            Out::Ok(got) => {
                self.v(Orc::Iter, format!("{what} is {}, expected {}", show(got), show(want)));
                if orc == Orc::Bft {
                    self.v(orc, format!("{what} is {}, expected {}", show(got), show(want)));
                }
            }
            o => {
                let msg = format!("{what}: {}", o.describe());
                if matches!(o, Out::Pre(_) | Out::Bad(_)) {
                    self.v(Orc::Label, msg.clone());
                }
                self.v(Orc::Iter, msg.clone());
                if orc == Orc::Bft {
                    self.v(orc, msg);
                }
            }
        }
    }

    /// Breadth-first traversal with failing allocations.
    pub fn op_bft(&mut self, s: &Step) {
        let si = self.pick_slot(s.p(0));
        let slot = self.slots[si].take().unwrap();
        let Some(op) = self.select(&slot, si, s.p(1), s.p(2), NONE) else {
            self.slots[si] = Some(slot);
            return;
        };
        self.set_cls(Cls::Legal);
        self.fp = comb(self.fp, mark(&slot, op.idx, NONE));
        let by_node = s.p(3) % 2 == 1;
        let blackout = s.p(4) % 4 != 0;
        let fork_at = s.p(5) as usize;
        let what = format!("breadth_first_traverse from {} blackout {blackout}", nn(op.idx));
        if !op.alive {
            self.note_stale(op.idx);
            self.set_cls(Cls::Refused);
            if !by_node {
                let out = guard(|| drop(slot.f.breadth_first_traverse(op.id)));
                self.judge(&what, out, PRE);
                let out = guard(|| drop(slot.f.allocating_breadth_first_traverse(op.id)));
                self.judge(&what, out, PRE);
            }
            self.slots[si] = Some(slot);
            return;
        }
        if slow(&slot.model, op.idx) {
            self.set_cls(Cls::Skip);
            self.slots[si] = Some(slot);
            return;
        }
        let seq = sequence(&slot.model, 2, op.idx, None);
        let names = Names(&slot);
        let limit = seq.len() + 3;
        let mut got: Vec<Item> = Vec::with_capacity(limit + 1);
        let mut forked: Vec<Item> = Vec::with_capacity(limit + 1);
        let fork_at = fork_at % (seq.len() + 1);
        let way = match Way::of(false, s.p(8)) {
            // This one needs memory.
            Way::Collect => Way::ForEach,
            way => way,
        };
        let rest = way.expect(&seq[fork_at..]);
        let mut after = 0;
        if blackout {
            alloc::arm_all();
        }
        meter::allow(4 * (seq.len() as u64).pow(2));
        let out = guard(|| {
            let mut it = if by_node {
                slot.f.node(op.id).map(|n| n.breadth_first_traverse())
            } else {
                Some(slot.f.breadth_first_traverse(op.id))
            };
            let it = it.as_mut().unwrap_or_else(|| panic_any(Injected("node() is None")));
            let mut fork = None;
            loop {
                if got.len() == fork_at && fork.is_none() {
                    fork = Some(it.clone());
                }
                match it.next() {
                    Some(e) if got.len() < limit => got.push(names.nd(e)),
                    Some(_) => break,
                    None => break,
                }
            }
            for _ in 0..3 {
                after += usize::from(it.next().is_some());
            }
            if let Some(fork) = fork {
                It::Bft(fork).consume(&names, way, limit, &mut forked);
            }
        });
        let (seen, fired) = alloc::disarm();
        if blackout {
            self.fault(Fault::BftBlackout);
            self.set_cls(Cls::Faulted);
            if seen > 0 {
                self.v(Orc::Bft, format!("{what}: {seen} allocations requested, {fired} of them failed"));
            }
        }
        self.fp = comb(self.fp, fork_at as u64 * 2 + u64::from(blackout));
        self.check_seq(&what, out, &got, &seq);
        if self.viols.is_empty() {
            if forked != rest {
                self.v(Orc::Bft, format!("{what}: a fork after {fork_at} items consumed by {way:?} yields {} items, expected {}", forked.len(), rest.len()));
            }
            if after > 0 {
                self.v(Orc::Bft, format!("{what}: items after the end"));
            }
        }
        // The allocating one: same sequence, and a failed allocation is no
        // more than that.
        got.clear();
        forked.clear();
        let oom = s.p(6) % 4;
        if oom != 0 {
            alloc::arm_at(s.p(7) % 6);
        }
        meter::allow(4 * seq.len() as u64);
        let out = guard(|| {
            let mut it = slot.f.allocating_breadth_first_traverse(op.id);
            let mut fork = None;
            loop {
                if got.len() == fork_at && fork.is_none() {
                    fork = Some(it.clone());
                }
                let peeked = it.peek().map(|e| names.nd(e));
                let left = seq.len().saturating_sub(got.len());
                let (low, high) = it.size_hint();
                let hint_ok = low <= left && high.map_or(true, |h| h >= left);
                match it.next() {
                    Some(e) if got.len() < limit => {
                        let e = names.nd(e);
                        got.push(if peeked == Some(e) && hint_ok { e } else { !0 });
                    }
                    Some(_) => break,
                    None => {
                        if peeked.is_some() {
                            got.push(!0);
                        }
                        break;
                    }
                }
            }
            if let Some(fork) = fork {
                It::ABft(fork).consume(&names, way, limit, &mut forked);
            }
        });
        let (_, fired) = alloc::disarm();
        if fired > 0 && out.code() == OOM {
            self.fault(Fault::ReadOom);
            self.set_cls(Cls::Faulted);
            if !seq.starts_with(&got) {
                self.v(Orc::Bft, "allocating breadth-first traversal: wrong items before an allocation failed".to_string());
            }
        } else {
            let what = format!("allocating_breadth_first_traverse from {}", nn(op.idx));
            self.check_seq(&what, out, &got, &seq);
            if self.viols.is_empty() && forked != rest {
                self.v(Orc::Bft, format!("{what}: a fork after {fork_at} items consumed by {way:?} yields {} items, expected {}", forked.len(), rest.len()));
            }
        }
        self.stats.reads += 2 * seq.len() as u64;
        self.slots[si] = Some(slot);
    }

    fn note_stale(&mut self, idx: u32) {
        self.fault(if idx == NONE { Fault::UnissuedId } else { Fault::StaleId });
    }

    fn check_seq(&mut self, what: &str, out: Out<()>, got: &[Item], seq: &[Item]) {
        self.dig(u64::from(out.code()));
        match out {
            Out::Ok(()) => {
                if got != seq {
                    let k = got.iter().zip(seq).take_while(|(a, b)| a == b).count();
                    self.v(
                        Orc::Bft,
                        format!(
                            "{what}: item {k} is {}, expected {} ({} items, expected {})",
                            show(got.get(k).copied()),
                            show(seq.get(k).copied()),
                            got.len(),
                            seq.len()
                        ),
                    );
                }
            }
            o => {
                let msg = format!("{what}: ends with {} after {} items", o.describe(), got.len());
                if matches!(o, Out::Pre(_) | Out::Bad(_)) {
                    self.v(Orc::Label, msg.clone());
                }
                self.v(Orc::Bft, msg);
            }
        }
    }

    /// Printing of a subtree.
    pub fn op_print(&mut self, s: &Step) {
        let si = self.pick_slot(s.p(0));
        let mut slot = self.slots[si].take().unwrap();
        let Some(op) = self.select(&slot, si, s.p(1), s.p(2), NONE) else {
            self.slots[si] = Some(slot);
            return;
        };
        self.set_cls(Cls::Legal);
        let mode = s.p(3) % 4;
        let handle = s.p(4) % 3;
        let style = s.p(5);
        let chunk = s.p(6);
        let fault = s.p(7) % 8;
        let k = s.p(8);
        self.fp = comb(
            comb(self.fp, mark(&slot, op.idx, NONE)),
            u64::from(style) << 16 | u64::from(fault * 16 + mode * 4 + handle),
        );
        if !op.alive {
            self.note_stale(op.idx);
            self.set_cls(Cls::Refused);
            let out = guard(|| drop(slot.f.debug_print(op.id)));
            self.judge("debug_print of a dead node", out, PRE);
            self.slots[si] = Some(slot);
            return;
        }
        // Very long indents would only cost time.
        let weight: u64 = slot
            .model
            .preorder_depths(op.idx)
            .iter()
            .map(|&(_, d)| u64::from(d) + 8)
            .sum();
        if weight > 400_000 {
            self.set_cls(Cls::Skip);
            self.slots[si] = Some(slot);
            return;
        }
        let want = reference(&slot.model, op.idx, style);
        // First without a fault.
        let quiet = PrintPlan {
            style,
            chunk,
            fail_call: NONE,
            fail_piece: 0,
            fail_panic: false,
            debug: mode % 2 == 1,
        };
        let what = format!("print of {} style {style} chunk {chunk}", nn(op.idx));
        let limit = 2 * want.len() + 4096;
        let mut sink = Sink::new(limit);
        pay::plan_print(quiet);
        meter::allow(want.len() as u64);
        let out = guard(|| render(&mut slot, op.id, mode, handle, &mut sink));
        let (calls, wrong, _) = pay::end_print();
        let full = sink.buf.clone();
        let writes = sink.writes;
        if wrong > 0 {
            self.v(Orc::Print, format!("{what}: {wrong} payloads formatted by the other trait"));
        }
        let ok = match self.judge(&what, out.map(|r| r.is_ok()), OK) {
            Some(true) => true,
            Some(false) => {
                self.v(Orc::Print, format!("{what}: reports an error although nothing failed"));
                false
            }
            None => {
                self.v(Orc::Print, format!("{what}: did not finish"));
                false
            }
        };
        if ok {
            if trimmed(&full) != trimmed(&want) {
                let line = trimmed(&full)
                    .iter()
                    .zip(trimmed(&want).iter())
                    .take_while(|(a, b)| a == b)
                    .count();
                if line > 9 {
                    let a: Vec<_> = full.split('\n').skip(line).take(2).collect();
                    let b: Vec<_> = want.split('\n').skip(line).take(2).collect();
                    self.v(Orc::Print, format!("{what}: wrote from line {line} on {a:?}, expected {b:?}"));
                } else {
                    self.v(Orc::Print, format!("{what}: wrote {full:?}, expected {want:?}"));
                }
            }
            let order: Vec<u32> = slot
                .model
                .preorder(op.idx)
                .iter()
                .map(|&i| slot.model.n[i as usize].serial)
                .collect();
            if calls != order {
                self.v(Orc::Print, format!("{what}: formatted payloads {calls:?}, expected {order:?}"));
            }
            self.dig(crate::world::text_hash(&full));
        }
        if ok && self.viols.is_empty() && fault != 0 {
            let mut plan = quiet;
            let mut sink = Sink::new(limit);
            match fault {
                1..=3 => {
                    // Early writes are as likely as any.
                    let at = if k % 2 == 0 { k / 2 % 8 } else { k / 2 };
                    sink.fail_at = Some(at as usize % writes.max(1));
                    sink.how = fault;
                    sink.short = (k / 16) as usize;
                }
                4 | 5 => {
                    plan.fail_call = k % calls.len() as u32;
                    plan.fail_piece = match k / 64 % 4 {
                        0 => 0,
                        1 => NONE - 1,
                        v => v - 1,
                    };
                    plan.fail_panic = fault == 5;
                }
                _ => {}
            }
            pay::plan_print(plan);
            if fault == 6 {
                alloc::arm_at(k % 4);
            }
            meter::allow(want.len() as u64);
            let out = guard(|| render(&mut slot, op.id, mode, handle, &mut sink));
            let (_, oom) = alloc::disarm();
            let (_, _, pay_fired) = pay::end_print();
            let fired = match fault {
                1..=3 => sink.failed,
                4 | 5 => pay_fired > 0,
                6 => oom > 0,
                _ => false,
            };
            let f = match fault {
                1 => Fault::SinkErr,
                2 => Fault::SinkShort,
                3 => Fault::SinkPanic,
                4 => Fault::FmtErr,
                5 => Fault::FmtPanic,
                _ => Fault::PrintOom,
            };
            if fired {
                self.fault(f);
                self.set_cls(Cls::Faulted);
                self.hist_add |= H_PRINT;
                self.fp = comb(self.fp, sink.buf.len() as u64);
                self.log(|| format!("{} after {} bytes", f.name(), sink.buf.len()));
                let want = match fault {
                    3 | 5 => INJ,
                    6 => OOM | OK,
                    _ => OK,
                };
                let r = self.judge(&format!("{what}, {}", f.name()), out.map(|r| r.is_ok()), want);
                match r {
                    Some(true) if fault != 6 => {
                        self.v(Orc::Print, format!("{what}: reports success although: {}", f.name()));
                    }
                    None if want & OK != 0 && fault != 6 => {
                        self.v(Orc::Print, format!("{what}: panics although: {}", f.name()));
                    }
                    Some(_) if want == INJ => {
                        self.v(Orc::Print, format!("{what}: swallows the panic: {}", f.name()));
                    }
                    _ => {}
                }
                if !full.starts_with(&sink.buf) {
                    self.v(Orc::Print, format!("{what}, {}: wrote {:?}, which does not begin {full:?}", f.name(), sink.buf));
                }
                if sink.after > 0 {
                    self.v(Orc::Print, format!("{what}, {}: went on writing after the failure", f.name()));
                }
            } else {
                self.judge(&what, out.map(|_| ()), OK);
                if sink.buf != full {
                    self.v(Orc::Print, format!("{what}: printing twice gives different results"));
                }
            }
        }
        self.slots[si] = Some(slot);
    }
}

struct Sink {
    buf: String,
    writes: usize,
    fail_at: Option<usize>,
    how: u32,
    short: usize,
    failed: bool,
    after: usize,
    limit: usize,
}

impl Sink {
    fn new(limit: usize) -> Self {
        Self {
            buf: String::new(),
            writes: 0,
            fail_at: None,
            how: 0,
            short: 0,
            failed: false,
            after: 0,
            limit,
        }
    }
}

impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let _own = alloc::Own::new();
        if self.failed {
            self.after += 1;
            return Err(fmt::Error);
        }
        if self.fail_at == Some(self.writes) {
            self.failed = true;
            match self.how {
                2 => {
                    let mut k = self.short % (s.len() + 1);
                    while !s.is_char_boundary(k) {
                        k -= 1;
                    }
                    self.buf.push_str(&s[..k]);
                }
                3 => panic_any(Injected("sink")),
                _ => {}
            }
            return Err(fmt::Error);
        }
        self.writes += 1;
        self.buf.push_str(s);
        if self.buf.len() > self.limit {
            panic_any(Injected("endless print"));
        }
        Ok(())
    }
}

fn render<Id: SimId>(
    slot: &mut Slot<Id>,
    id: Id,
    mode: u32,
    handle: u32,
    sink: &mut Sink,
) -> fmt::Result {
    macro_rules! go {
        ($p:expr) => {
            match mode {
                0 => write!(sink, "{}", $p),
                1 => write!(sink, "{:?}", $p),
                2 => write!(sink, "{:#}", $p),
                _ => write!(sink, "{:#?}", $p),
            }
        };
    }
    match handle {
        0 => go!(slot.f.debug_print(id)),
        1 => match slot.f.node(id) {
            Some(n) => go!(n.debug_print()),
            None => Err(fmt::Error),
        },
        _ => match slot.f.node_mut(id) {
            Some(n) => go!(n.debug_print()),
            None => Err(fmt::Error),
        },
    }
}

/// The drawing of a subtree, by definition.
pub fn reference(m: &Model, root: u32, style: u32) -> String {
    let mut out = String::new();
    // (node, prefix of the first line, prefix of what is below)
    let mut stack = vec![(root, String::new(), String::new())];
    while let Some((n, first, rest)) = stack.pop() {
        let text = pay::text(m.n[n as usize].val, style);
        let mut lines: Vec<&str> = text.split('\n').collect();
        if lines.len() > 1 && lines.last() == Some(&"") {
            lines.pop();
        }
        for (k, l) in lines.iter().enumerate() {
            out.push_str(if k == 0 { &first } else { &rest });
            out.push_str(l);
            out.push('\n');
        }
        let children = m.children(n);
        for (k, &c) in children.iter().enumerate().rev() {
            let last = k + 1 == children.len();
            stack.push((
                c,
                format!("{rest}{}", if last { "`-- " } else { "|-- " }),
                format!("{rest}{}", if last { "    " } else { "|   " }),
            ));
        }
    }
    out
}

pub fn trimmed(s: &str) -> Vec<&str> {
    let mut v: Vec<&str> = s.split('\n').map(|l| l.trim_end_matches(' ')).collect();
    while v.last() == Some(&"") {
        v.pop();
    }
    v
}
