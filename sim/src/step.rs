//! Steps: the events of a simulated run, as plain data. All operands are
//! selectors that mean something in every state, so that any subsequence of a
//! run is a run (which is what minimisation needs).

use std::fmt::Write as _;

macro_rules! kinds {
    ($($id:ident $name:literal),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
        #[repr(u8)]
        pub enum Kind { $($id),* }
        impl Kind {
            pub const ALL: &'static [Kind] = &[$(Kind::$id),*];
            pub fn name(self) -> &'static str {
                match self { $(Kind::$id => $name),* }
            }
        }
    };
}

kinds! {
    New "new-forest",
    DropForest "drop-forest",
    Grow "grow",
    Root "create-root",
    Create "create",
    Move "insert",
    Detach "detach",
    DetachSingle "detach-single",
    Remove "remove",
    Clone "clone-tree",
    Snap "clone-forest",
    Data "set-data",
    Chain "chain-builder",
    Nest "nest-builder",
    Read "read",
    Bft "breadth-first",
    Print "print",
    AllocCreate "create-without-memory",
    Fill "fill",
    Lookup "lookup",
    Share "shared-reads",
    Away "to-other-thread",
    Other "other-payload",
}

impl Kind {
    pub fn of(name: &str) -> Option<Kind> {
        Kind::ALL.iter().copied().find(|k| k.name() == name)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Step {
    pub kind: Kind,
    /// Simulated client that issues the step.
    pub client: u32,
    pub a: Vec<u32>,
}

impl Step {
    pub fn p(&self, i: usize) -> u32 {
        self.a.get(i).copied().unwrap_or(0)
    }

    pub fn to_line(&self) -> String {
        let mut s = format!("{} c{}", self.kind.name(), self.client);
        for v in &self.a {
            let _ = write!(s, " {v}");
        }
        s
    }

    pub fn parse(line: &str) -> Option<Step> {
        let mut it = line.split_whitespace();
        let kind = Kind::of(it.next()?)?;
        let client = it.next()?.strip_prefix('c')?.parse().ok()?;
        let a = it.map(|v| v.parse().ok()).collect::<Option<Vec<u32>>>()?;
        Some(Step { kind, client, a })
    }
}

/// What is fixed for a whole run.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Run {
    /// Index into the ID types.
    pub id_kind: u32,
    pub steps: Vec<Step>,
}

macro_rules! faults {
    ($($id:ident $name:literal),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        #[repr(u8)]
        pub enum Fault { $($id),* }
        impl Fault {
            pub const ALL: &'static [Fault] = &[$(Fault::$id),*];
            pub fn name(self) -> &'static str {
                match self { $(Fault::$id => $name),* }
            }
        }
    };
}

faults! {
    HookPanicEarly "removal callback panics before consuming the payload",
    HookPanicLate "removal callback panics after consuming the payload",
    HookDropPanic "payload destructor panics inside the removal callback",
    HookNatural "removal callback panics through a refused request to another forest",
    HookNested "removal callback panics through an interrupted removal in another forest",
    UnsafeHookPanic "callback or destructor panics inside a removal that is not panic safe",
    Transfer "removal callback re-inserts payloads into another forest",
    ClonePanic "payload clone panics during a tree clone",
    MapPanic "mapping callback panics during a tree clone",
    CloneOom "allocation fails during a tree clone",
    CloneFull "ID space ends during a tree clone",
    SnapPanic "payload clone panics during a forest clone",
    SnapOom "allocation fails during a forest clone",
    CreateOom "allocation fails during a creation",
    ChainOom "allocation fails in a chain builder call",
    NestOom "allocation fails in a nest builder call",
    NestPanic "nest builder closure panics",
    OpOom "no memory during a move, detachment or removal (which need none)",
    BftBlackout "all allocations fail during a breadth-first traversal",
    SinkErr "print sink reports an error",
    SinkShort "print sink takes part of a write, then reports an error",
    SinkPanic "print sink panics",
    FmtErr "payload formatter reports an error",
    FmtPanic "payload formatter panics",
    PrintOom "allocation fails during a print",
    ReadOom "allocation fails during an allocating traversal",
    StaleId "ID of a removed node is used",
    UnissuedId "ID that the forest never issued is used",
    Refused "illegal structural request",
    Exhausted "ID space is exhausted",
    ReaderPanic "payload formatter panics in one of several reading threads",
    ReaderOom "allocation fails in one of several reading threads",
    ReaderStall "one of several reading threads is stopped until no other can run",
}

/// The fault kinds whose after-effects a property has to answer for.
pub const H_SAFE: u32 = 1;
pub const H_REFUSED: u32 = 2;
pub const H_CLONE: u32 = 4;
pub const H_OOM: u32 = 8;
pub const H_BUILD: u32 = 16;
pub const H_PRINT: u32 = 32;
/// A successful clone.
pub const H_COPY: u32 = 64;
