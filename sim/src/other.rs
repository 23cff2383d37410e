//! Forests of other payloads: nothing the crate does may depend on how large a
//! payload is, whether it owns memory, needs dropping, can be cloned, or has
//! values that look like "nothing".

use std::cell::Cell;
use std::fmt::Debug;

use treena::dynamic::{
    ChainTreeBuilder, DftEvent, Forest, NestTreeBuilder, NodeId, NodeIdU16, NodeIdU32, NodeIdU64, NodeIdU8,
    NodeIdUsize,
};

use crate::alloc::{self, Own};
use crate::ids::{FieldId, SimId};
use crate::meter;
use crate::model::{Dest, Model};
use crate::pay::NONE;
use crate::rng::{comb, Rng};
use crate::step::*;
use crate::world::*;

/// A payload type.
pub trait Load: Sized + Debug + 'static {
    const NAME: &'static str;
    fn make(v: u32) -> Self;
    /// What can be told of the value.
    fn val(&self) -> u32;
    fn norm(v: u32) -> u32;
    /// Clones a tree, if the type can be cloned.
    fn tree<Id: SimId>(_: &mut Forest<Id, Self>, _: Id, _: u32, _: &mut Vec<(Id, Id)>) -> Option<Id> {
        None
    }
    /// Clones a forest, if the type can be cloned.
    fn forest<Id: SimId>(_: &Forest<Id, Self>, _: bool) -> Option<Forest<Id, Self>> {
        None
    }
}

macro_rules! cloneable {
    () => {
        fn tree<Id: SimId>(f: &mut Forest<Id, Self>, src: Id, how: u32, pairs: &mut Vec<(Id, Id)>) -> Option<Id> {
            Some(match how % 4 {
                0 => f.clone_local_tree(src),
                1 => f.clone_local_tree_with_id_mapping(src, |a, b| pairs.push((a, b))),
                n => {
                    let other = f.clone();
                    let node = other.node(src)?;
                    match n {
                        2 => f.clone_foreign_tree(node),
                        _ => f.clone_foreign_tree_with_id_mapping(node, |a, b| pairs.push((a, b))),
                    }
                }
            })
        }

        fn forest<Id: SimId>(f: &Forest<Id, Self>, from: bool) -> Option<Forest<Id, Self>> {
            if from {
                let mut new = Forest::new();
                for v in 0..3 {
                    let _ = new.create_root(Self::make(v));
                }
                new.clone_from(f);
                return Some(new);
            }
            Some(f.clone())
        }
    };
}

macro_rules! load {
    ($name:literal, $ty:ty, $v:ident, $make:expr, $norm:expr, $this:ident, $val:expr, $($clone:tt)*) => {
        impl Load for $ty {
            const NAME: &'static str = $name;
            fn make($v: u32) -> Self {
                $make
            }
            fn norm($v: u32) -> u32 {
                $norm
            }
            fn val(&self) -> u32 {
                let $this = self;
                $val
            }
            $($clone)*
        }
    };
}

/// A payload that cannot be cloned and has to be dropped.
#[derive(Debug)]
pub struct Sole(Box<u32>);

/// No value at all, but a destructor.
#[derive(Debug)]
pub struct Guard;

thread_local! {
    static GUARDS: Cell<i64> = const { Cell::new(0) };
}

impl Drop for Guard {
    fn drop(&mut self) {
        GUARDS.with(|g| g.set(g.get() - 1));
    }
}

#[derive(Debug, Clone, Copy)]
#[repr(align(64))]
pub struct Aligned(u32);

#[derive(Debug, Clone)]
pub struct Wide([u32; 300]);

type Inner = Forest<NodeIdU8, u16>;

load!("()", (), _v, (), 0, t, { let () = *t; 0 }, cloneable!(););
load!("u8", u8, v, v as u8, v & 255, t, u32::from(*t), cloneable!(););
load!("u64", u64, v, u64::from(v), v, t, *t as u32, cloneable!(););
load!("Option<bool>", Option<bool>, v, [None, Some(false), Some(true)][v as usize % 3], v % 3, t,
    t.map_or(0, |b| 1 + u32::from(b)), cloneable!(););
load!("Option<Box<u32>>", Option<Box<u32>>, v, (v % 2 == 1).then(|| Box::new(v)), if v % 2 == 1 { v } else { 0 }, t,
    t.as_deref().copied().unwrap_or(0), cloneable!(););
load!("Wide", Wide, v, { let mut w = [0; 300]; w[0] = v; w[299] = v; Wide(w) }, v, t,
    if t.0[0] == t.0[299] { t.0[0] } else { NONE }, cloneable!(););
load!("Aligned", Aligned, v, Aligned(v), v, t, t.0, cloneable!(););
load!("String", String, v, if v % 4 == 0 { String::new() } else { v.to_string() }, if v % 4 == 0 { 0 } else { v }, t,
    if t.is_empty() { 0 } else { t.parse().unwrap_or(NONE) }, cloneable!(););
load!("Sole", Sole, v, Sole(Box::new(v)), v, t, *t.0,);
load!("Guard", Guard, _v, { GUARDS.with(|g| g.set(g.get() + 1)); Guard }, 0, _t, 0,);
load!("Forest", Inner, v, { let mut f = Inner::new(); let _ = f.create_root(v as u16); f }, v & 0xffff, t,
    first_id().and_then(|id| t.data(id)).map_or(NONE, |d| u32::from(*d)), cloneable!(););

fn first_id() -> Option<NodeIdU8> {
    thread_local! {
        static FIRST: Option<NodeIdU8> = {
            let mut f = Inner::new();
            Some(f.create_root(0))
        };
    }
    FIRST.with(|f| *f)
}

struct Small<Id: NodeId, T> {
    f: Forest<Id, T>,
    ids: Vec<Id>,
    m: Model,
}

/// What a program finds out. (Not part of the world, so that it is compiled
/// once per payload and not for every type of ID as well.)
struct Ctx {
    kind: Kind,
    cls: Cls,
    viols: Vec<(Orc, Kind, String)>,
    faults: Vec<Fault>,
    fp: u64,
    digest: u64,
    note: String,
}

/// Number of programs' worlds.
pub const OTHERS: u32 = 14;

impl<Id: SimId> World<Id> {
    /// A program on a small forest of its own, of some other payload.
    pub fn op_other(&mut self, s: &Step) {
        first_id();
        // Small forests say nothing about work.
        let quiet = meter::quiet(true);
        let mut c = Ctx {
            kind: s.kind,
            cls: Cls::Legal,
            viols: Vec::new(),
            faults: Vec::new(),
            fp: self.fp,
            digest: self.digest,
            note: String::new(),
        };
        GUARDS.with(|g| g.set(0));
        match s.p(0) % OTHERS {
            0 => c.other::<NodeIdUsize, ()>(s),
            1 => c.other::<NodeIdU8, ()>(s),
            2 => c.other::<NodeIdUsize, u8>(s),
            3 => c.other::<NodeIdU8, u64>(s),
            4 => c.other::<NodeIdU16, Option<bool>>(s),
            5 => c.other::<NodeIdU32, Option<Box<u32>>>(s),
            6 => c.other::<NodeIdUsize, Wide>(s),
            7 => c.other::<NodeIdU8, Wide>(s),
            8 => c.other::<NodeIdU64, Aligned>(s),
            9 => c.other::<NodeIdUsize, String>(s),
            10 => c.other::<NodeIdU8, Sole>(s),
            11 => c.other::<NodeIdUsize, Guard>(s),
            12 => c.other::<FieldId, Inner>(s),
            _ => c.other::<NodeIdUsize, u64>(s),
        }
        meter::quiet(quiet);
        let left = GUARDS.with(Cell::get);
        if left != 0 && c.viols.is_empty() {
            c.v(Orc::Payload, format!("{left} payloads without a size are left after their forest is gone"));
        }
        for f in c.faults {
            self.fault(f);
        }
        self.fp = c.fp;
        self.digest = c.digest;
        self.log(|| c.note);
        self.cls = c.cls;
        for (orc, kind, msg) in c.viols {
            self.kind = kind;
            self.v(orc, msg);
        }
    }
}

impl Ctx {
    fn v(&mut self, orc: Orc, msg: String) {
        self.viols.push((orc, self.kind, msg));
    }

    fn set_cls(&mut self, cls: Cls) {
        self.cls = cls;
        crate::progress::class(self.kind as u8, cls as u8);
    }

    fn fault(&mut self, f: Fault) {
        self.faults.push(f);
    }

    fn dig(&mut self, v: u64) {
        self.digest = comb(self.digest, v);
    }

    fn judge<R>(&mut self, what: &str, out: Out<R>, exp: u32) -> Option<R> {
        let code = out.code();
        self.dig(u64::from(code));
        if code & exp == 0 {
            let msg = format!("{what}: expected {}, got {}", exp_name(exp), out.describe());
            if matches!(out, Out::Bad(_) | Out::Pre(_)) {
                self.v(Orc::Label, msg.clone());
            }
            self.v(Orc::Outcome, msg);
        }
        match out {
            Out::Ok(v) => Some(v),
            _ => None,
        }
    }

    fn other<Id: SimId, T: Load>(&mut self, s: &Step) {
        self.set_cls(Cls::Legal);
        self.fp = comb(comb(self.fp, u64::from(s.p(0) % OTHERS)), s.a.iter().fold(0, |h, &w| comb(h, u64::from(w))));
        let Out::Ok(f) = guard(Forest::<Id, T>::new) else {
            return self.v(Orc::Outcome, "new() panics".to_string());
        };
        let mut o = Small {
            f,
            ids: Vec::new(),
            m: Model::default(),
        };
        self.note = format!("payload {}", T::NAME);
        for (no, &w) in s.a.iter().skip(1).enumerate() {
            let mut r = Rng::new(u64::from(w) / 32 + 1);
            self.set_cls(Cls::Legal);
            self.one(&mut o, w % 32, &mut r);
            let mut found = Vec::new();
            let out = guard(|| check(&o, &mut found));
            if let Out::Pre(m) | Out::Bad(m) = out {
                found.push((Orc::Inv, format!("navigation panics: {m}")));
                found.push((Orc::Label, format!("navigation panics: {m}")));
            }
            for (orc, msg) in found {
                self.v(orc, format!("forest of {}, call {no}: {msg}", T::NAME));
            }
            if !self.viols.is_empty() {
                // There is no telling what dropping it would do.
                std::mem::forget(o.f);
                return;
            }
            let shape = o.m.shape([NONE; 2]);
            self.dig(shape);
        }
        self.sub(Kind::DropForest);
        let f = o.f;
        let out = guard(|| drop(f));
        self.judge("drop of the forest", out, OK);
    }

    /// What the calls to come are to be judged as.
    fn sub(&mut self, kind: Kind) {
        self.kind = kind;
        let cls = self.cls;
        self.set_cls(cls);
    }

    fn take_in<Id: SimId, T: Load>(&mut self, o: &mut Small<Id, T>, id: Id, val: u32) -> u32 {
        if let Some(old) = o.ids.iter().position(|&i| i == id) {
            self.v(Orc::Id, format!("the new node got the ID of node {old}"));
        }
        self.dig(text_hash(&id));
        o.ids.push(id);
        o.m.push_root(0, T::norm(val))
    }

    fn one<Id: SimId, T: Load>(&mut self, o: &mut Small<Id, T>, op: u32, r: &mut Rng) {
        let n = o.ids.len() as u32;
        if n > 60 && matches!(op, 0..=9 | 18 | 20 | 21) {
            return;
        }
        // Operands: mostly alive.
        let pick = |r: &mut Rng| {
            let k = r.below(n.max(1));
            let live = (0..n).map(|i| (k + i) % n).find(|&i| o.m.alive(i));
            match live {
                Some(i) if !r.pct(7) => Some(i),
                _ if n > 0 => Some(k),
                _ => None,
            }
        };
        let dest = Dest::of(r.below(4));
        let val = r.below(1 << 20);
        match op {
            0..=9 => {
                self.sub(Kind::Create);
                let anchor = pick(r).filter(|_| op > 1);
                let mut exp = OK;
                if let Some(a) = anchor {
                    if !o.m.alive(a) || (dest.sibling() && o.m.parent(a).is_none()) {
                        exp = PRE;
                        self.set_cls(Cls::Refused);
                    }
                }
                let p = T::make(val);
                let oom = r.pct(40);
                let f = &mut o.f;
                if oom {
                    alloc::arm_at(r.below(5) / 3);
                }
                let out = match anchor {
                    None => guard(|| Some(f.create_root(p))),
                    Some(a) => {
                        let id = o.ids[a as usize];
                        if r.pct(50) {
                            guard(|| Some(f.create_insert(p, dest.insert(id))))
                        } else {
                            guard(|| f.node_mut(id).map(|mut n| n.create(p, dest.adopt())))
                        }
                    }
                };
                let out = match out {
                    Out::Ok(None) => Out::Pre("node_mut is None".to_string()),
                    out => out,
                };
                let (_, fired) = alloc::disarm();
                if fired > 0 {
                    self.kind = Kind::AllocCreate;
                    self.set_cls(Cls::Faulted);
                    self.fault(Fault::CreateOom);
                    exp |= OOM;
                }
                let failed = out.code() == OOM;
                let what = format!("create {dest:?} of {anchor:?}, payload {}", T::NAME);
                if failed && self.viols.is_empty() {
                    self.judge(&what, out, exp);
                    // The next one finds everything as it was.
                    let p = T::make(val);
                    let f = &mut o.f;
                    let out = guard(|| f.create_root(p));
                    let what = format!("creation after one without memory, payload {}", T::NAME);
                    if let Some(id) = self.judge(&what, out, OK) {
                        self.take_in(o, id, val);
                    }
                } else if let Some(Some(id)) = self.judge(&what, out, exp) {
                    let i = self.take_in(o, id, val);
                    if let Some(a) = anchor {
                        o.m.attach(i, a, dest);
                    }
                }
            }
            10..=12 => {
                self.sub(Kind::Move);
                let (Some(a), Some(b)) = (pick(r), pick(r)) else { return };
                let m = &o.m;
                let mut exp = 0;
                if !m.alive(a) || !m.alive(b) {
                    exp |= PRE;
                }
                if dest.sibling() && a == b {
                    exp |= E_UNORD;
                }
                if m.alive(b) {
                    let p = m.parent(b);
                    if dest.sibling() && p.is_none() {
                        exp |= E_SWP;
                    }
                    let p = if dest.sibling() { p } else { Some(b) };
                    if m.alive(a) && p.map_or(false, |p| m.above_or_self(a, p)) {
                        exp |= E_LOOP;
                    }
                }
                if exp == 0 {
                    exp = OK;
                } else {
                    self.set_cls(Cls::Refused);
                    self.fault(Fault::Refused);
                }
                let (x, y) = (o.ids[a as usize], o.ids[b as usize]);
                let f = &mut o.f;
                let out = if op == 10 {
                    match guard(|| f.node_mut(y).map(|mut n| n.try_adopt(x, dest.adopt()))) {
                        Out::Ok(None) => Out::Pre("node_mut is None".into()),
                        o => o.map(|r| r.unwrap()).flat(),
                    }
                } else {
                    guard(|| f.insert(x, dest.insert(y))).flat()
                };
                let what = format!("move {a} to {dest:?} of {b}, payload {}", T::NAME);
                if self.judge(&what, out, exp).is_some() && exp & OK != 0 {
                    o.m.attach(a, b, dest);
                }
            }
            13 => {
                self.sub(Kind::Detach);
                let Some(a) = pick(r).filter(|&a| o.m.alive(a)) else { return };
                let id = o.ids[a as usize];
                let f = &mut o.f;
                let out = guard(|| f.detach(id));
                if self.judge("detach", out, OK).is_some() {
                    o.m.detach(a);
                }
            }
            14 => {
                self.sub(Kind::DetachSingle);
                let Some(a) = pick(r).filter(|&a| o.m.alive(a)) else { return };
                let id = o.ids[a as usize];
                let mut exp = OK;
                if o.m.parent(a).is_none() && o.m.children(a).len() > 1 {
                    exp = E_SWP;
                    self.set_cls(Cls::Refused);
                    self.fault(Fault::Refused);
                }
                let f = &mut o.f;
                let out = guard(|| f.detach_single(id)).flat();
                if self.judge("detach_single", out, exp).is_some() && exp == OK {
                    o.m.detach_single(a);
                }
            }
            15..=17 => {
                self.sub(Kind::Remove);
                let Some(a) = pick(r).filter(|&a| o.m.alive(a)) else { return };
                let id = o.ids[a as usize];
                let order = o.m.postorder(a);
                let mut got = Vec::new();
                let how = r.below(6);
                let f = &mut o.f;
                let out = guard(|| {
                    let mut hook = |t: T| {
                        let _own = Own::new();
                        got.push(t.val());
                    };
                    match how {
                        0 => f.remove(id),
                        1 => f.remove_hooked(id, &mut hook),
                        2 => f.remove_hooked_panic_safe(id, &mut hook),
                        3 => f.node_mut(id)?.remove(),
                        4 => f.node_mut(id)?.remove_hooked(&mut hook),
                        _ => f.node_mut(id)?.remove_hooked_panic_safe(&mut hook),
                    }
                    Some(())
                });
                if self.judge("remove", found(out), OK).is_some() {
                    let want: Vec<u32> = order.iter().map(|&i| o.m.n[i as usize].val).collect();
                    if how % 3 != 0 && got != want {
                        self.v(Orc::Hook, format!("the callback got {got:?}, expected {want:?} (payload {})", T::NAME));
                    }
                    o.m.kill_all(&order);
                }
            }
            18 => {
                self.sub(Kind::Clone);
                let Some(a) = pick(r).filter(|&a| o.m.alive(a)) else { return };
                let src = o.m.preorder(a);
                if n as usize + src.len() > 90 {
                    return;
                }
                let how = r.below(4);
                let id = o.ids[a as usize];
                let mut pairs = Vec::new();
                let f = &mut o.f;
                let out = guard(|| T::tree(f, id, how, &mut pairs));
                let Some(Some(root)) = self.judge("clone of a tree", out, OK) else { return };
                // The copy, in the same order.
                let f = &o.f;
                let out = guard(|| {
                    let mut ids = Vec::new();
                    let node = f.node(root)?;
                    for e in node.depth_first_traverse() {
                        if let DftEvent::Open(n) = e {
                            let _own = Own::new();
                            ids.push(n.id());
                            if ids.len() > src.len() {
                                return None;
                            }
                        }
                    }
                    Some(ids)
                });
                let copy = match out {
                    Out::Ok(Some(ids)) if ids.len() == src.len() => ids,
                    _ => return self.v(Orc::Copy, format!("clone of a tree of {} nodes has another number of nodes", src.len())),
                };
                if how % 2 == 1 {
                    let mut want: Vec<(Id, Id)> = src.iter().map(|&i| o.ids[i as usize]).zip(copy.iter().copied()).collect();
                    for p in &pairs {
                        match want.iter().position(|w| w == p) {
                            Some(at) => {
                                want.swap_remove(at);
                            }
                            None => return self.v(Orc::Copy, "clone of a tree: wrong pair of IDs".to_string()),
                        }
                    }
                    if !want.is_empty() {
                        self.v(Orc::Copy, "clone of a tree: pairs of IDs are missing".to_string());
                    }
                }
                for (&i, &id) in src.iter().zip(&copy) {
                    let (v, p) = (o.m.n[i as usize].val, o.m.parent(i));
                    let new = self.take_in(o, id, 0);
                    o.m.n[new as usize].val = v;
                    if let (true, Some(p)) = (i != a, p) {
                        let at = src.iter().position(|&x| x == p).expect("harness: parent before child");
                        o.m.attach(new, n + at as u32, Dest::Last);
                    }
                }
            }
            19 => {
                self.sub(Kind::Snap);
                let from = r.pct(50);
                let f = &o.f;
                let out = guard(|| T::forest(f, from));
                if let Some(Some(f)) = self.judge("clone of the forest", out, OK) {
                    let old = std::mem::replace(&mut o.f, f);
                    let out = guard(|| drop(old));
                    self.judge("drop of the forest", out, OK);
                }
            }
            20 => {
                // A chain of children and siblings.
                self.sub(Kind::Chain);
                let prog: Vec<u32> = (0..r.below(5)).map(|_| r.below(3)).collect();
                let vals: Vec<u32> = (0..=prog.len()).map(|_| r.below(1 << 20)).collect();
                let mut loads: Vec<T> = vals.iter().rev().map(|&v| T::make(v)).collect();
                let mut made = Vec::new();
                let f = &mut o.f;
                let first = loads.pop().expect("harness: a load");
                let out = guard(|| {
                    let mut b = ChainTreeBuilder::new(f, first);
                    let mut note = |id: Id, op: u32| {
                        let _own = Own::new();
                        made.push((id, op));
                    };
                    note(b.root_id(), 9);
                    for &op in &prog {
                        let op = if b.current_id() == b.root_id() && op != 0 { 0 } else { op };
                        match op {
                            0 => b.child(loads.pop().expect("harness: a load")),
                            1 => b.sibling(loads.pop().expect("harness: a load")),
                            _ => b.parent(),
                        };
                        note(b.current_id(), op);
                    }
                });
                if self.judge("chain builder", out, OK).is_none() {
                    return;
                }
                let mut vals = vals.into_iter();
                let mut cur = NONE;
                for (id, op) in made {
                    if op == 2 {
                        cur = o.m.parent(cur).unwrap_or(NONE);
                        if o.ids.get(cur as usize) != Some(&id) {
                            self.v(Orc::Build, "chain builder: wrong current node".to_string());
                            return;
                        }
                        continue;
                    }
                    let new = self.take_in(o, id, vals.next().expect("harness: a load"));
                    if op == 1 && o.m.parent(cur).is_none() {
                        return self.v(Orc::Build, "chain builder: wrong current node".to_string());
                    }
                    match op {
                        0 => o.m.attach(new, cur, Dest::Last),
                        1 => o.m.attach(new, cur, Dest::Next),
                        _ => {}
                    }
                    cur = new;
                }
            }
            21 => {
                self.sub(Kind::Nest);
                let vals: Vec<u32> = (0..4).map(|_| r.below(1 << 20)).collect();
                let mut loads: Vec<T> = vals.iter().rev().map(|&v| T::make(v)).collect();
                let f = &mut o.f;
                let mut next = || loads.pop().expect("harness: a load");
                let out = guard(|| {
                    let mut b = NestTreeBuilder::new(f, next());
                    let (x, y) = (next(), next());
                    b.create_tree(x, |b| {
                        b.add_child(y);
                    });
                    b.add_child(next());
                    let root = b.root();
                    root
                });
                let Some(root) = self.judge("nest builder", out, OK) else { return };
                let f = &o.f;
                let out = guard(|| {
                    let r = f.node(root)?;
                    let a = r.first_child_id()?;
                    Some([root, a, f.node(a)?.first_child_id()?, r.last_child_id()?])
                });
                let Out::Ok(Some(ids)) = out else {
                    return self.v(Orc::Build, "nest builder: nodes are missing".to_string());
                };
                for (k, id) in ids.into_iter().enumerate() {
                    let new = self.take_in(o, id, vals[k]);
                    if k > 0 {
                        o.m.attach(new, n + [0, 0, 1, 0][k], Dest::Last);
                    }
                }
            }
            22 | 23 => {
                self.sub(Kind::Data);
                let Some(a) = pick(r).filter(|&a| o.m.alive(a)) else { return };
                let id = o.ids[a as usize];
                let new = T::make(val);
                let how = r.below(3);
                let f = &mut o.f;
                let out = guard(|| {
                    let place = match how {
                        0 => f.data_mut(id)?,
                        1 => f.node_mut(id)?.into_data_ref_mut(),
                        _ => {
                            let mut n = f.node_mut(id)?;
                            return Some(std::mem::replace(n.data_mut(), new).val());
                        }
                    };
                    Some(std::mem::replace(place, new).val())
                });
                if let Some(old) = self.judge("set data", found(out), OK) {
                    if old != o.m.n[a as usize].val {
                        self.v(Orc::Data, format!("node {a} held {old}, expected {}", o.m.n[a as usize].val));
                    }
                    o.m.n[a as usize].val = T::norm(val);
                }
            }
            24 | 25 => {
                self.sub(Kind::Lookup);
                let mut donor = Forest::<Id, ()>::new();
                let ids = guard(|| (0..=n).map(|_| donor.create_root(())).collect::<Vec<Id>>());
                let free = match ids {
                    Out::Ok(ids) => ids.into_iter().find(|id| !o.ids.contains(id)),
                    _ => None,
                };
                let dead = (0..n).filter(|&i| !o.m.alive(i)).map(|i| o.ids[i as usize]);
                for id in dead.chain(free) {
                    let f = &mut o.f;
                    let out = guard(|| {
                        f.node(id).is_some() || f.data(id).is_some() || f.node_mut(id).is_some() || f.data_mut(id).is_some()
                    });
                    if self.judge("lookup of a dead ID", out, OK) == Some(true) {
                        return self.v(Orc::Id, format!("a dead ID resolves to something (payload {})", T::NAME));
                    }
                }
            }
            26..=28 => {
                self.sub(Kind::Read);
                let Some(a) = pick(r).filter(|&a| o.m.alive(a)) else { return };
                let id = o.ids[a as usize];
                let f = &o.f;
                let want = o.m.preorder(a);
                let depth = r.below(4);
                let out = guard(|| {
                    let open = |e: DftEvent<treena::dynamic::Node<'_, Id, T>>| match e {
                        DftEvent::Open(n) => Some((n.id(), n.data().val())),
                        DftEvent::Close(_) => None,
                    };
                    let fwd: Vec<_> = f.depth_first_traverse(id).filter_map(open).collect();
                    let mut back: Vec<_> = f.depth_first_traverse(id).rev().filter_map(open).collect();
                    back.reverse();
                    let low: Vec<_> = f
                        .shallow_depth_first_traverse(id, Some(depth as usize))
                        .filter_map(|(e, d)| open(e).map(|x| (x.0, d)))
                        .collect();
                    (fwd, back, low)
                });
                let Some((fwd, back, low)) = self.judge("depth-first", out, OK) else { return };
                let want: Vec<(Id, u32)> = want.iter().map(|&i| (o.ids[i as usize], o.m.n[i as usize].val)).collect();
                let low_want: Vec<(Id, usize)> = o
                    .m
                    .preorder_depths(a)
                    .into_iter()
                    .filter(|&(_, d)| d <= depth)
                    .map(|(i, d)| (o.ids[i as usize], d as usize))
                    .collect();
                if fwd != want || back != want || low != low_want {
                    self.v(Orc::Iter, format!("depth-first traversal differs (payload {})", T::NAME));
                }
                self.sub(Kind::Bft);
                let f = &o.f;
                let out = guard(|| {
                    let x: Vec<_> = f.breadth_first_traverse(id).map(|(n, d)| (n.id(), d)).collect();
                    let y: Vec<_> = f.allocating_breadth_first_traverse(id).map(|(n, d)| (n.id(), d)).collect();
                    (x, y)
                });
                let Some((x, y)) = self.judge("breadth-first", out, OK) else { return };
                let mut want = o.m.preorder_depths(a);
                want.sort_by_key(|x| x.1);
                let want: Vec<(Id, usize)> = want.into_iter().map(|(i, d)| (o.ids[i as usize], d as usize)).collect();
                if x != want || y != want {
                    self.v(Orc::Bft, format!("breadth-first traversal differs (payload {})", T::NAME));
                }
            }
            _ => {
                // Everything can be formatted, in every state.
                self.sub(Kind::Other);
                let a = pick(r).filter(|&a| o.m.alive(a)).map(|a| o.ids[a as usize]);
                let pretty = r.pct(50);
                let f = &mut o.f;
                let out = guard(|| {
                    let _own = Own::new();
                    let mut len = 0;
                    let mut show = |d: &dyn Debug| {
                        len += if pretty { format!("{d:#?}") } else { format!("{d:?}") }.len();
                    };
                    show(f);
                    if let Some(id) = a {
                        show(&id);
                        show(&f.node(id)?);
                        show(&f.depth_first_traverse(id));
                        show(&f.shallow_depth_first_traverse(id, Some(1)));
                        show(&f.breadth_first_traverse(id));
                        show(&f.allocating_breadth_first_traverse(id));
                        show(&f.ancestors(id));
                        show(&f.children(id));
                        show(&f.debug_print(id));
                        show(&f.node_mut(id)?);
                        show(&Dest::Last.insert(id));
                        show(&Dest::Last.adopt());
                    }
                    Some(len)
                });
                self.judge("Debug formatting", found(out), OK);
            }
        }
    }
}

/// A call on a live node that cannot be addressed counts as a panic.
fn found<R>(out: Out<Option<R>>) -> Out<R> {
    match out {
        Out::Ok(None) => Out::Bad("a live node cannot be addressed".to_string()),
        out => out.map(|r| r.expect("harness: checked")),
    }
}

/// Compares a forest with its model.
fn check<Id: SimId, T: Load>(o: &Small<Id, T>, found: &mut Vec<(Orc, String)>) {
    let _own = Own::new();
    let at = |i: Option<u32>| i.map(|i| o.ids[i as usize]);
    for (i, mn) in o.m.n.iter().enumerate() {
        let id = o.ids[i];
        let (node, data) = (o.f.node(id), o.f.data(id));
        if node.is_some() != mn.alive || data.is_some() != mn.alive {
            found.push((
                Orc::Id,
                format!("node {i}: alive {}, node() {}, data() {}", mn.alive, node.is_some(), data.is_some()),
            ));
            return;
        }
        let (Some(node), Some(data)) = (node, data) else { continue };
        if data.val() != mn.val || node.data().val() != mn.val {
            found.push((Orc::Data, format!("node {i} has payload {}, expected {}", data.val(), mn.val)));
        }
        let me = i as u32;
        let kids = o.m.children(me);
        let pairs = [
            (node.parent_id(), o.m.parent(me), "parent"),
            (node.next_sibling_id(), o.m.next(me), "next sibling"),
            (node.prev_sibling_id(), o.m.prev(me), "previous sibling"),
            (node.first_child_id(), kids.first().copied(), "first child"),
            (node.last_child_id(), kids.last().copied(), "last child"),
        ];
        for (got, want, what) in pairs {
            if got != at(want) {
                found.push((Orc::Model, format!("{what} of node {i} is not {}", nn(want.unwrap_or(NONE)))));
                return;
            }
        }
    }
}
