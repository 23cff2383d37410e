//! Execution of whole runs, and minimisation of failing ones.

use std::collections::HashSet;

use crate::ids::SimId;
use crate::progress;
use crate::props::{self, Rel};
use crate::step::*;
use crate::world::*;

/// A violation of the property, at a step of a run.
#[derive(Clone, Debug)]
pub struct Found {
    pub step: usize,
    pub viol: Viol,
    pub digest: u64,
    /// Why it counts although the step is not the property's own.
    pub why: &'static str,
}

impl Found {
    /// What has to stay the same when a run is made smaller.
    pub fn same(&self, o: &Found) -> bool {
        self.viol.orc == o.viol.orc
            && self.viol.kind == o.viol.kind
            && self.viol.cls == o.viol.cls
            && self.why == o.why
    }
}

/// What the runs of a worker have covered.
pub struct Cover {
    pub stats: Stats,
    pub cases: HashSet<u64>,
    pub states: HashSet<u64>,
    pub max_set: usize,
    pub cut: bool,
}

impl Cover {
    pub fn new(max_set: usize) -> Self {
        Self {
            stats: Stats::new(),
            cases: HashSet::new(),
            states: HashSet::new(),
            max_set,
            cut: false,
        }
    }
}

#[derive(Default)]
pub struct Exec {
    pub found: Option<Found>,
    pub digest: u64,
    pub log: Vec<String>,
    /// Steps that were cases of the property.
    pub cases: u64,
    /// Whether it went wrong in a way that is not the property's business.
    pub foreign: bool,
    pub nodes: u64,
}

/// Executes a run and looks for violations of the property.
pub fn exec(run: &Run, prop: u32, record: bool, cover: Option<&mut Cover>) -> Exec {
    crate::alloc::calm(prop == props::SAME);
    let mut e = crate::with_id_kind!(run.id_kind, exec_typed::<_>(run, prop, record, cover));
    if prop == props::MEMORY && e.found.is_none() && !e.foreign && leaks(run, prop) {
        e.found = Some(Found {
            step: run.steps.len(),
            viol: Viol {
                orc: Orc::Memory,
                kind: Kind::DropForest,
                cls: Cls::Legal,
                hist: 0,
                faults: 0,
                msg: "memory is left behind when all forests have been dropped".into(),
            },
            digest: e.digest,
            why: "",
        });
    }
    e
}

/// Executes a run in a thread of its own.
pub fn exec_apart(run: &Run, prop: u32, record: bool, cover: Option<&mut Cover>) -> Exec {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, || exec(run, prop, record, cover))
            .expect("src: thread")
            .join()
            .expect("src: run")
    })
}

/// Whether every further execution of a run leaves more memory behind. (The
/// simulator itself keeps some buffers, but not more each time.)
fn leaks(run: &Run, prop: u32) -> bool {
    let mut left = i64::MAX;
    for _ in 0..2 {
        let before = crate::alloc::live();
        drop(crate::with_id_kind!(run.id_kind, exec_typed::<_>(run, prop, false, None)));
        left = left.min(crate::alloc::live() - before);
    }
    left > 0
}

fn exec_typed<Id: SimId>(
    run: &Run,
    prop: u32,
    record: bool,
    mut cover: Option<&mut Cover>,
) -> Exec {
    let mut w = World::<Id>::new(record);
    let mut e = Exec::default();
    let mut steps_done = 0;
    let mut broken = false;
    let mut away = false;
    for (no, s) in run.steps.iter().enumerate() {
        progress::step(no);
        let reads = w.stats.reads;
        let hist = w.hists();
        if away {
            crate::share::elsewhere(&mut w, |w| w.step(s));
        } else {
            w.step(s);
        }
        away ^= s.kind == Kind::Away;
        steps_done = no + 1;
        let live = w.slots[w.main].as_ref().map_or(0, |s| s.model.live);
        if props::counts(prop, w.kind, w.cls, &w.step_faults, hist, live, w.stats.reads - reads) {
            e.cases += 1;
            if let Some(c) = &mut cover {
                if c.cases.len() < c.max_set {
                    c.cases.insert(w.fp);
                } else {
                    c.cut = true;
                }
            }
        }
        if let Some(c) = &mut cover {
            if c.states.len() < c.max_set {
                c.states.insert(w.state());
            } else {
                c.cut = true;
            }
        }
        if w.viols.is_empty() {
            continue;
        }
        if let Some(f) = attribute::<Id>(run, prop, no, &w) {
            e.found = Some(f);
            break;
        }
        w.stats.foreign += 1;
        for i in 0..w.viols.len() {
            w.dig(w.viols[i].orc as u64);
        }
        if !w.resync() {
            broken = true;
            break;
        }
    }
    if e.found.is_none() && !broken {
        progress::step(run.steps.len());
        if away {
            crate::share::elsewhere(&mut w, World::finish);
        } else {
            w.finish();
        }
        if !w.viols.is_empty() {
            e.found = attribute::<Id>(run, prop, run.steps.len(), &w);
            if e.found.is_none() {
                w.stats.foreign += 1;
            }
        }
    }
    e.digest = if w.unsure { 0 } else { w.digest };
    e.log = w.log.take().unwrap_or_default();
    e.nodes = w.stats.max_nodes;
    e.foreign = broken || w.stats.foreign > 0;
    if let Some(c) = cover {
        let t = &mut c.stats;
        t.runs += 1;
        t.steps += steps_done as u64;
        t.evals += e.cases;
        for (a, b) in t.kinds.iter_mut().zip(&w.stats.kinds) {
            *a += b;
        }
        for (a, b) in t.faults.iter_mut().zip(&w.stats.faults) {
            *a += b;
        }
        t.refused += w.stats.refused;
        t.skipped += w.stats.skipped;
        t.reads += w.stats.reads;
        t.foreign += w.stats.foreign;
        t.metered += w.stats.metered;
        t.held = t.held.max(w.stats.held);
        t.stack = t.stack.max(w.stats.stack);
        t.stops += w.stats.stops;
        t.yields += w.stats.yields;
        for (a, b) in t.most.iter_mut().zip(&w.stats.most) {
            *a = (*a).max(*b);
        }
        t.max_nodes = t.max_nodes.max(w.stats.max_nodes);
    }
    if broken {
        // Nothing is known about the state of these forests.
        std::mem::forget(w);
    }
    e
}

/// Picks the violation that contradicts the property, if there is one.
fn attribute<Id: SimId>(run: &Run, prop: u32, no: usize, w: &World<Id>) -> Option<Found> {
    let found = |v: &Viol, why| {
        Some(Found {
            step: no,
            viol: v.clone(),
            digest: w.digest,
            why,
        })
    };
    let rels: Vec<(Rel, &Viol)> = w
        .viols
        .iter()
        .map(|v| (props::relation(prop, v, run.id_kind), v))
        .collect();
    if let Some((_, v)) = rels.iter().find(|r| r.0 == Rel::Yes) {
        return found(v, "");
    }
    if let Some((_, v)) = rels.iter().find(|r| r.0 == Rel::Residual) {
        let prior: Vec<Orc> = w.viols.iter().map(|v| v.orc).collect();
        if no < run.steps.len() && fresh_is_right::<Id>(run, no, &prior) {
            return found(v, "after-effect");
        }
    }
    if let Some((_, v)) = rels.iter().find(|r| r.0 == Rel::Wrapper) {
        let inner = Run {
            id_kind: if run.id_kind % crate::ids::ID_KINDS == 5 { 1 } else { 3 },
            steps: run.steps.clone(),
        };
        if crate::with_id_kind!(inner.id_kind, is_right::<_>(&inner, no)) {
            return found(v, "wrapped-id");
        }
    }
    if let Some((_, v)) = rels.iter().find(|r| r.0 == Rel::Together) {
        let mut alone = run.clone();
        for s in &mut alone.steps {
            match s.kind {
                Kind::Share => {
                    s.a.resize(s.a.len().max(3), 0);
                    s.a[2] = crate::share::ALONE;
                }
                Kind::Away => s.kind = Kind::Lookup,
                _ => {}
            }
        }
        if is_right::<Id>(&alone, no) {
            return found(v, "threads");
        }
    }
    None
}

/// Whether the step is right on forests that equal the ones it failed on, but
/// were made from scratch.
fn fresh_is_right<Id: SimId>(run: &Run, no: usize, bad: &[Orc]) -> bool {
    crate::pay::detached(|| {
        let mut w = World::<Id>::new(false);
        for s in &run.steps[..no] {
            w.step(s);
            if !w.viols.is_empty() && !w.resync() {
                std::mem::forget(w);
                return false;
            }
        }
        // Both worlds share the ledger, so the old one must not be dropped.
        let fresh = w.rebuilt();
        std::mem::forget(w);
        let Some(mut f) = fresh else { return false };
        f.step(&run.steps[no]);
        let right = !f.viols.iter().any(|v| bad.contains(&v.orc));
        if !f.viols.is_empty() {
            std::mem::forget(f);
        }
        right
    })
}

/// Whether the run is right up to and with the step.
fn is_right<Id: SimId>(run: &Run, no: usize) -> bool {
    crate::pay::detached(|| {
        let mut w = World::<Id>::new(false);
        for s in run.steps.iter().take(no + 1) {
            w.step(s);
            if !w.viols.is_empty() {
                std::mem::forget(w);
                return false;
            }
        }
        w.finish();
        w.viols.is_empty()
    })
}

/// Makes a failing run as small as it gets. `test` says how a run fails.
pub fn minimise(
    run: &Run,
    first: &Found,
    budget: usize,
    seconds: f64,
    mut test: impl FnMut(&Run) -> Option<Found>,
) -> (Run, Found, usize) {
    let start = std::time::Instant::now();
    let mut best = run.clone();
    let mut found = first.clone();
    let mut tries = 0;
    let mut attempt = |cand: Run, best: &mut Run, found: &mut Found, tries: &mut usize| -> bool {
        if *tries >= budget || start.elapsed().as_secs_f64() > seconds {
            return false;
        }
        *tries += 1;
        match test(&cand) {
            Some(f) if f.same(first) => {
                *best = cand;
                if f.step + 1 < best.steps.len() {
                    best.steps.truncate(f.step + 1);
                }
                *found = f;
                true
            }
            _ => false,
        }
    };
    if found.step + 1 < best.steps.len() {
        let mut cand = best.clone();
        cand.steps.truncate(found.step + 1);
        attempt(cand, &mut best, &mut found, &mut tries);
    }
    loop {
        let size = |r: &Run| {
            r.steps
                .iter()
                .map(|s| {
                    let a = s.a.iter().map(|&v| 33 - u64::from(v.leading_zeros())).sum::<u64>();
                    s.a.len() as u64 + a + u64::from(s.client)
                })
                .sum::<u64>()
                + r.steps.len() as u64
                + u64::from(r.id_kind)
        };
        let before = size(&best);
        // Steps.
        let mut chunk = (best.steps.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at < best.steps.len() {
                let end = (at + chunk).min(best.steps.len());
                let mut cand = best.clone();
                cand.steps.drain(at..end);
                if cand.steps.is_empty() || !attempt(cand, &mut best, &mut found, &mut tries) {
                    at = end;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        // Words of programs.
        for i in 0..best.steps.len() {
            let mut at = 3;
            while i < best.steps.len() && at < best.steps[i].a.len() {
                let mut cand = best.clone();
                cand.steps[i].a.remove(at);
                if !attempt(cand, &mut best, &mut found, &mut tries) {
                    at += 1;
                }
            }
        }
        // Operands.
        for i in 0..best.steps.len() {
            if i >= best.steps.len() {
                break;
            }
            let mut cand = best.clone();
            cand.steps[i].client = 0;
            if cand != best {
                attempt(cand, &mut best, &mut found, &mut tries);
            }
            let mut k = 0;
            while i < best.steps.len() && k < best.steps[i].a.len() {
                let v = best.steps[i].a[k];
                for to in [0, 1, 2, v % 8, v % 32, v / 2, v.saturating_sub(1)] {
                    if i >= best.steps.len() || to >= best.steps[i].a[k] {
                        continue;
                    }
                    let mut cand = best.clone();
                    cand.steps[i].a[k] = to;
                    if attempt(cand, &mut best, &mut found, &mut tries) {
                        break;
                    }
                }
                k += 1;
            }
        }
        let mut cand = best.clone();
        cand.id_kind = 0;
        if cand != best {
            attempt(cand, &mut best, &mut found, &mut tries);
        }
        if size(&best) >= before {
            break;
        }
    }
    (best, found, tries)
}
