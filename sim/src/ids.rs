//! The ID types under simulation.

use treena::dynamic::{
    AllocatingBreadthFirstTraverse, Ancestors, BreadthFirstTraverse, ChainTreeBuilder, DebugPrint,
    DepthFirstTraverse, Forest, NestTreeBuilder, Node, NodeMut, ShallowDepthFirstTraverse,
    Siblings, StructureError,
};
use treena::dynamic::{
    NodeId, NodeIdU16, NodeIdU32, NodeIdU64, NodeIdU8, NodeIdUsize,
};
use treena::impl_dynamic_node_id;

use std::hash::{Hash, Hasher};

use crate::pay::Pay;

/// Whether a type may be sent to, and shared with, other threads: the inherent
/// constants exist only if it may, and go before those of the trait.
struct Probe<T: ?Sized>(std::marker::PhantomData<T>);

trait Fallback {
    const SEND: bool = false;
    const SYNC: bool = false;
}

impl<T: ?Sized> Fallback for Probe<T> {}

impl<T: ?Sized + Send> Probe<T> {
    const SEND: bool = true;
}

impl<T: ?Sized + Sync> Probe<T> {
    const SYNC: bool = true;
}

/// May be sent but not shared.
type Sent = std::cell::Cell<u32>;
/// May be shared but not sent.
type Shared = std::sync::MutexGuard<'static, u32>;

pub trait SimId: NodeId + 'static {
    /// A type that may not cross threads although all its parts may.
    fn confined() -> Option<String>;

    /// What is wrong about these IDs as keys of ordered and hashed containers.
    fn keys(ids: [Self; 3]) -> Option<&'static str>;

    /// Nodes that the forest must be able to number.
    const CAP: u32;
    const NAME: &'static str;
}

/// Custom ID type, tuple form.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct TupleId(NodeIdU8);
impl_dynamic_node_id!(TupleId, NodeIdU8, 0);

/// Custom ID type, named field.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct FieldId {
    inner: NodeIdU32,
}
impl_dynamic_node_id!(FieldId, NodeIdU32, inner);

fn hash<T: Hash>(v: &T) -> u64 {
    // (Without random keys.)
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn keys<T: Copy + Ord + Hash>(ids: [T; 3]) -> Option<&'static str> {
    use std::cmp::Ordering::{Equal, Greater, Less};
    for (i, a) in ids.iter().enumerate() {
        for b in &ids[i..] {
            let (ab, ba) = (a.cmp(b), b.cmp(a));
            #[allow(clippy::nonminimal_bool)]
            let eq = !(a != b);
            let bad = [
                ((a == b) != eq || (b == a) != eq, "== and != contradict each other"),
                (eq && hash(a) != hash(b), "equal ones have different hashes"),
                ((ab == Equal) != eq, "order and equality contradict each other"),
                (ab != ba.reverse(), "the order depends on which one is asked"),
                (a.partial_cmp(b) != Some(ab), "cmp and partial_cmp contradict each other"),
                ((a < b) != (ab == Less) || (a > b) != (ab == Greater), "cmp and < contradict each other"),
                ((a <= b) != (ab != Greater) || (a >= b) != (ab != Less), "cmp and <= contradict each other"),
                (*a.max(b) < *a || *a.max(b) < *b, "max is not the greatest"),
                (*a.min(b) > *a || *a.min(b) > *b, "min is not the smallest"),
            ];
            if let Some(b) = bad.iter().find(|b| b.0) {
                return Some(b.1);
            }
        }
    }
    for [i, j, k] in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
        if ids[i] <= ids[j] && ids[j] <= ids[k] && ids[i] > ids[k] {
            return Some("the order is a circle");
        }
    }
    None
}

macro_rules! sim_id {
    ($($ty:ty, $cap:expr, $name:literal;)*) => {
        $(impl SimId for $ty {
            const CAP: u32 = $cap;
            const NAME: &'static str = $name;

            fn keys(ids: [Self; 3]) -> Option<&'static str> {
                keys(ids)
            }

            fn confined() -> Option<String> {
                macro_rules! probe {
                    ($$($$which:ident $$t:ty;)*) => {[$$(
                        (Probe::<$$t>::$$which, stringify!($$which), stringify!($$t))
                    ),*]};
                }
                #[allow(clippy::type_complexity)]
                let all: &[(bool, &str, &str)] = &probe! {
                    SEND $ty;
                    SYNC $ty;
                    SEND Forest<$ty, Pay>;
                    SYNC Forest<$ty, Pay>;
                    SEND Forest<$ty, Sent>;
                    SYNC Forest<$ty, Shared>;
                    SEND Node<'static, $ty, Shared>;
                    SYNC Node<'static, $ty, Shared>;
                    SEND NodeMut<'static, $ty, Sent>;
                    SYNC NodeMut<'static, $ty, Shared>;
                    SEND DepthFirstTraverse<'static, $ty, Shared>;
                    SYNC DepthFirstTraverse<'static, $ty, Shared>;
                    SEND ShallowDepthFirstTraverse<'static, $ty, Shared>;
                    SYNC ShallowDepthFirstTraverse<'static, $ty, Shared>;
                    SEND BreadthFirstTraverse<'static, $ty, Shared>;
                    SYNC BreadthFirstTraverse<'static, $ty, Shared>;
                    SEND AllocatingBreadthFirstTraverse<'static, $ty, Shared>;
                    SYNC AllocatingBreadthFirstTraverse<'static, $ty, Shared>;
                    SEND Ancestors<'static, $ty, Shared>;
                    SYNC Ancestors<'static, $ty, Shared>;
                    SEND Siblings<'static, $ty, Shared>;
                    SYNC Siblings<'static, $ty, Shared>;
                    SEND DebugPrint<'static, $ty, Shared>;
                    SYNC DebugPrint<'static, $ty, Shared>;
                    SEND ChainTreeBuilder<'static, $ty, Sent>;
                    SEND NestTreeBuilder<'static, $ty, Sent>;
                    SEND StructureError;
                    SYNC StructureError;
                };
                all.iter().find(|p| !p.0).map(|p| {
                    let how = if p.1 == "SEND" { "sent to" } else { "shared with" };
                    format!("{} may not be {how} another thread", p.2.replace('\n', " "))
                })
            }
        })*
    };
}

sim_id! {
    NodeIdU8, 254, "NodeIdU8";
    NodeIdU16, 65534, "NodeIdU16";
    NodeIdU32, u32::MAX - 1, "NodeIdU32";
    NodeIdU64, u32::MAX - 1, "NodeIdU64";
    NodeIdUsize, u32::MAX - 1, "NodeIdUsize";
    TupleId, 254, "TupleId(NodeIdU8)";
    FieldId, u32::MAX - 1, "FieldId{NodeIdU32}";
}

pub const ID_KINDS: u32 = 7;

/// Calls a generic function with the ID type of the index.
#[macro_export]
macro_rules! with_id_kind {
    ($kind:expr, $f:ident :: <_> ( $($arg:expr),* )) => {
        match $kind % $crate::ids::ID_KINDS {
            0 => $f::<treena::dynamic::NodeIdUsize>($($arg),*),
            1 => $f::<treena::dynamic::NodeIdU8>($($arg),*),
            2 => $f::<treena::dynamic::NodeIdU16>($($arg),*),
            3 => $f::<treena::dynamic::NodeIdU32>($($arg),*),
            4 => $f::<treena::dynamic::NodeIdU64>($($arg),*),
            5 => $f::<$crate::ids::TupleId>($($arg),*),
            _ => $f::<$crate::ids::FieldId>($($arg),*),
        }
    };
}
