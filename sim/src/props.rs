//! Which observations contradict which property, and which steps exercise it.

use crate::step::*;
use crate::world::{Cls, Orc, Viol};

pub struct Prop {
    pub id: &'static str,
    pub title: &'static str,
    /// What makes a step count as a non-trivial case of the property.
    pub rule: &'static str,
}

pub const PROPS: &[Prop] = &[
    Prop { id: "C01", title: "links", rule: "step that changed or tried to change a forest, after which the links of all live nodes of all forests were checked" },
    Prop { id: "C02", title: "exact effect", rule: "accepted creation, insertion, detachment, removal or payload update, compared with the reference model" },
    Prop { id: "C03", title: "refusals", rule: "request that had to be refused (structural error, stale or unissued ID, full ID space), compared with the unchanged model" },
    Prop { id: "C04", title: "interrupted removal", rule: "panic-safe removal whose callback or payload destructor panicked, with the interrupted call, the way of panicking and the use of the payload" },
    Prop { id: "C05", title: "payloads", rule: "step that stored, handed out, moved, replaced or dropped payloads, after which the whole ledger of payloads was checked" },
    Prop { id: "C06", title: "clones", rule: "tree or forest clone, complete or interrupted, with the fault and its position" },
    Prop { id: "C07", title: "iterators", rule: "one or several iterators consumed under a schedule of next/next_back/peek/peek_back/nth/clone/size_hint calls" },
    Prop { id: "C08", title: "breadth-first", rule: "breadth-first traversal of a subtree with more than one node, with or without allocations failing, and a fork at some position" },
    Prop { id: "C09", title: "node IDs", rule: "step that issued, used or looked up an ID: with the numbers of issued and removed IDs" },
    Prop { id: "C10", title: "printing", rule: "print of a subtree with a payload style, a splitting into writes, and a sink or formatter fault" },
    Prop { id: "C11", title: "builders", rule: "builder program with at least one call, with its refused calls, failed allocations and panicking closures" },
    Prop { id: "C12", title: "panic labels", rule: "step that had to be refused or was hit by a fault, and every step on a forest with such a past" },
    Prop { id: "C13", title: "failed allocations", rule: "creating call during which an allocation failed" },
    Prop { id: "C15", title: "proportionate work", rule: "step with calls whose executed basic blocks were counted, on a forest of more than 200 nodes" },
    Prop { id: "C14", title: "threads", rule: "forest read by several threads under a schedule, or changed by a thread that it was sent to" },
    Prop { id: "C16", title: "stack", rule: "step with calls whose use of the stack was measured, on a forest of more than 200 nodes" },
    Prop { id: "C17", title: "memory", rule: "step that took memory or gave it back, or was interrupted on the way; what each forest held is measured when it is dropped, and what is left when all of them are gone" },
    Prop { id: "C18", title: "same again", rule: "step of a run that was executed in several processes, after other runs, by other threads and in other builds, of which IDs, results, orders and texts were compared" },
];

/// The property for which runs are executed in several processes.
pub const SAME: u32 = 18;

/// The property for which runs are executed several times.
pub const MEMORY: u32 = 17;

pub fn prop_no(id: &str) -> Option<u32> {
    PROPS.iter().position(|p| p.id == id).map(|p| p as u32 + 1)
}

/// How a violation relates to a property.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rel {
    No,
    Yes,
    /// Only if the same step is right on an equal forest without a past.
    Residual,
    /// Only if the same run is right with the ID type that is wrapped.
    Wrapper,
    /// Only if the same run is right in one thread.
    Together,
}

fn mutation(k: Kind) -> bool {
    matches!(
        k,
        Kind::Grow
            | Kind::Root
            | Kind::Create
            | Kind::Move
            | Kind::Detach
            | Kind::DetachSingle
            | Kind::Remove
            | Kind::Data
            | Kind::Fill
    )
}

fn has(v: &Viol, f: Fault) -> bool {
    v.faults >> (f as u64) & 1 != 0
}

fn changes(o: Orc) -> bool {
    matches!(
        o,
        Orc::Inv | Orc::Model | Orc::Outcome | Orc::Cross | Orc::Data | Orc::Id | Orc::Hang
    )
}

fn builder(k: Kind) -> bool {
    matches!(k, Kind::Chain | Kind::Nest)
}

/// Whether the violation contradicts the property.
pub fn relation(p: u32, v: &Viol, id_kind: u32) -> Rel {
    let unsafe_removal = has(v, Fault::UnsafeHookPanic);
    let dead_id = has(v, Fault::StaleId) || has(v, Fault::UnissuedId);
    let out_of_memory = has(v, Fault::CreateOom) || has(v, Fault::ChainOom) || has(v, Fault::NestOom);
    let yes = match p {
        1 => v.orc == Orc::Inv,
        2 => mutation(v.kind) && v.cls == Cls::Legal && changes(v.orc),
        3 => {
            v.cls == Cls::Refused
                && (changes(v.orc) || matches!(v.orc, Orc::Payload | Orc::Hook | Orc::Label | Orc::Build))
        }
        4 => v.kind == Kind::Remove && v.cls == Cls::Faulted && !unsafe_removal,
        5 => {
            matches!(v.orc, Orc::Payload | Orc::Hook | Orc::Data)
                || (v.orc == Orc::Hang && v.kind == Kind::Remove)
        }
        6 => {
            matches!(v.kind, Kind::Clone | Kind::Snap)
                || v.orc == Orc::Copy
                || (v.orc == Orc::Cross && v.hist & (H_COPY | H_CLONE) != 0)
        }
        7 => {
            v.kind == Kind::Read
                && v.cls != Cls::Refused
                && matches!(v.orc, Orc::Iter | Orc::Outcome | Orc::Label | Orc::Hang)
        }
        8 => {
            v.orc == Orc::Bft
                || (v.kind == Kind::Bft
                    && v.cls != Cls::Refused
                    && matches!(v.orc, Orc::Outcome | Orc::Label | Orc::Hang))
        }
        9 => {
            v.orc == Orc::Id
                || v.kind == Kind::Lookup
                || (v.kind == Kind::Fill && matches!(v.orc, Orc::Outcome | Orc::Label | Orc::Hang))
                || (v.orc == Orc::Data && v.kind != Kind::Data)
                || (dead_id && v.orc == Orc::Outcome && v.msg.ends_with("got success"))
        }
        10 => v.kind == Kind::Print,
        11 => builder(v.kind),
        12 => v.orc == Orc::Label,
        14 => v.orc == Orc::Work || v.orc == Orc::Hang,
        17 => v.orc == Orc::Memory,
        16 => v.orc == Orc::Stack || (v.orc == Orc::Hang && !v.msg.contains("come to an end")),
        SAME => v.orc == Orc::Same,
        15 => v.orc == Orc::Confined || (v.orc == Orc::Hang && v.kind == Kind::Share),
        13 => {
            v.cls == Cls::Faulted
                && (v.kind == Kind::AllocCreate || (builder(v.kind) && out_of_memory))
        }
        _ => false,
    };
    if yes {
        return Rel::Yes;
    }
    let residual = match p {
        3 => H_REFUSED,
        4 => H_SAFE,
        6 => H_CLONE | H_COPY,
        10 => H_PRINT,
        11 => H_BUILD,
        13 => H_OOM,
        _ => 0,
    };
    if v.hist & residual != 0 {
        return Rel::Residual;
    }
    if p == 15 {
        return Rel::Together;
    }
    if p == 9 && id_kind >= 5 {
        return Rel::Wrapper;
    }
    Rel::No
}

/// Whether a step counts as a case of the property.
pub fn counts(p: u32, kind: Kind, cls: Cls, faults: &[Fault], hist: u32, live: u32, evals: u64) -> bool {
    if cls == Cls::Skip {
        return false;
    }
    let f = |x: &[Fault]| faults.iter().any(|f| x.contains(f));
    match p {
        1 => !matches!(kind, Kind::Read | Kind::Bft | Kind::Print | Kind::Lookup | Kind::New | Kind::DropForest),
        2 => mutation(kind) && cls == Cls::Legal,
        3 => cls == Cls::Refused,
        4 => {
            kind == Kind::Remove
                && f(&[Fault::HookPanicEarly, Fault::HookPanicLate, Fault::HookDropPanic, Fault::HookNatural, Fault::HookNested])
        }
        5 => !matches!(kind, Kind::Read | Kind::Bft | Kind::Print | Kind::Lookup | Kind::Move | Kind::Detach | Kind::DetachSingle | Kind::New),
        6 => matches!(kind, Kind::Clone | Kind::Snap) && live > 0,
        7 => kind == Kind::Read && cls == Cls::Legal && evals > 0,
        8 => kind == Kind::Bft && cls != Cls::Refused && live > 1,
        9 => {
            matches!(kind, Kind::Lookup | Kind::Fill | Kind::Create | Kind::Root | Kind::Grow | Kind::Clone | Kind::Nest | Kind::Chain | Kind::Snap | Kind::AllocCreate)
                || f(&[Fault::StaleId, Fault::UnissuedId])
        }
        10 => kind == Kind::Print && cls != Cls::Refused,
        11 => builder(kind),
        12 => cls != Cls::Legal || hist != 0,
        17 => !matches!(kind, Kind::Read | Kind::Lookup | Kind::New | Kind::Detach | Kind::Data),
        14 | 16 => cls != Cls::Skip && live > 200,
        15 => kind == Kind::Share && evals > 0,
        SAME => true,
        13 => f(&[Fault::CreateOom, Fault::ChainOom, Fault::NestOom]),
        _ => false,
    }
}
