//! From a seed to a run: which clients there are, what they do, in which order
//! they get their turns, and which faults hit them. The result is plain data.

use crate::rng::{mix, Rng};
use crate::step::*;

/// What the runs of a property look like.
struct Prof {
    /// Relative frequencies of the steps. The first ones are never left out.
    core: &'static [(Kind, u32)],
    side: &'static [(Kind, u32)],
    /// Percentage of possible faults that are injected.
    fault: u32,
    /// Percentage of operands that are dead.
    dead: u32,
    /// Percentage of runs with an 8 bit ID type.
    tiny: u32,
    /// Percentage of copies of forests that are copied again.
    again: u32,
    /// Percentage of injected faults of copies that are failing allocations at any rate.
    oom: u32,
}

use Kind::*;

const SIDE: &[(Kind, u32)] = &[
    (New, 1),
    (DropForest, 1),
    (Grow, 5),
    (Root, 5),
    (Create, 12),
    (Move, 16),
    (Detach, 5),
    (DetachSingle, 6),
    (Remove, 8),
    (Clone, 3),
    (Snap, 1),
    (Data, 3),
    (Chain, 2),
    (Nest, 2),
    (Read, 2),
    (Bft, 1),
    (Print, 1),
    (AllocCreate, 2),
    (Fill, 1),
    (Lookup, 2),
    (Other, 2),
];

fn profile(p: u32) -> Prof {
    let mut prof = Prof {
        core: &[],
        side: SIDE,
        fault: 30,
        dead: 4,
        again: 0,
        oom: 0,
        tiny: 25,
    };
    match p {
        1 => prof.core = &[(Create, 14), (Move, 40), (Detach, 8), (DetachSingle, 12), (Remove, 14), (Clone, 4), (Chain, 4), (AllocCreate, 4)],
        2 => {
            prof.core = &[(Create, 20), (Move, 40), (Detach, 8), (DetachSingle, 14), (Remove, 14), (Data, 6), (Root, 4), (Other, 3)];
            prof.fault = 8;
            prof.dead = 1;
        }
        3 => {
            prof.core = &[(Create, 24), (Move, 40), (Detach, 8), (DetachSingle, 12), (Remove, 12), (Root, 6), (Fill, 3), (Chain, 6), (Clone, 4)];
            prof.dead = 25;
            prof.fault = 15;
            prof.tiny = 40;
        }
        4 => {
            prof.core = &[(Remove, 60), (Create, 14), (Move, 24), (Detach, 6), (DetachSingle, 6), (Grow, 14)];
            prof.fault = 75;
        }
        5 => {
            prof.oom = 20;
            prof.core = &[(Create, 20), (Remove, 40), (Data, 16), (Clone, 6), (DropForest, 3), (AllocCreate, 6), (Snap, 3), (Other, 5)];
            prof.fault = 40;
            prof.dead = 8;
        }
        6 => {
            prof.again = 10;
            prof.oom = 20;
            prof.core = &[(Clone, 50), (Snap, 16), (Create, 10), (Move, 20), (Remove, 14), (Data, 6), (Other, 2)];
            prof.fault = 45;
        }
        7 => {
            prof.core = &[(Read, 80), (Grow, 8), (Move, 16), (Create, 8), (Remove, 6)];
            prof.fault = 10;
            prof.dead = 2;
        }
        8 => {
            prof.core = &[(Bft, 80), (Grow, 14), (Move, 16), (Remove, 8), (Read, 10)];
            prof.dead = 2;
        }
        9 => {
            prof.core = &[(Lookup, 40), (Create, 20), (Root, 14), (Remove, 30), (Fill, 6), (Clone, 6), (AllocCreate, 6), (Grow, 8), (Nest, 4), (Other, 6)];
            prof.dead = 25;
            prof.tiny = 60;
        }
        10 => {
            prof.core = &[(Print, 80), (Grow, 14), (Move, 14), (Remove, 6), (Create, 6)];
            prof.fault = 60;
            prof.dead = 1;
        }
        11 => {
            prof.core = &[(Chain, 50), (Nest, 40), (Create, 8), (Move, 8), (Remove, 6)];
            prof.fault = 30;
        }
        12 => {
            prof.core = &[(Create, 10), (Move, 24), (Remove, 16), (Clone, 8), (Chain, 8), (Lookup, 4), (Read, 8), (DetachSingle, 8), (Print, 4), (AllocCreate, 6), (Snap, 2), (Nest, 4), (Bft, 3), (Other, 4)];
            prof.dead = 20;
            prof.fault = 50;
            prof.tiny = 35;
        }
        14 => {
            prof.core = &[(Create, 10), (Move, 24), (Detach, 10), (DetachSingle, 10), (Remove, 10), (Lookup, 16), (Read, 30), (Clone, 3), (Chain, 3), (Print, 2), (Bft, 3), (Snap, 1), (Data, 1)];
            prof.tiny = 3;
            prof.dead = 2;
            prof.fault = 15;
        }
        16 => {
            prof.core = &[(Create, 8), (Move, 14), (Detach, 6), (DetachSingle, 6), (Remove, 30), (Read, 24), (Clone, 16), (Snap, 5), (Print, 12), (Bft, 8), (Chain, 6), (DropForest, 4), (Data, 1)];
            prof.tiny = 3;
            prof.dead = 2;
            prof.fault = 25;
        }
        17 => {
            prof.again = 25;
            prof.core = &[(Create, 14), (Move, 12), (DetachSingle, 4), (Remove, 20), (Clone, 20), (Snap, 20), (Print, 8), (Bft, 8), (Read, 4), (Chain, 8), (Nest, 8), (DropForest, 8), (AllocCreate, 10), (Other, 14)];
            prof.fault = 55;
            prof.dead = 10;
        }
        crate::props::SAME => {
            prof.core = &[(Create, 14), (Move, 24), (DetachSingle, 6), (Remove, 14), (Clone, 10), (Snap, 4), (Chain, 8), (Nest, 6), (Read, 8), (Bft, 6), (Print, 10), (Lookup, 6), (Root, 6), (Data, 4), (Fill, 2), (Other, 8)];
            prof.dead = 8;
            prof.fault = 25;
        }
        15 => {
            prof.core = &[(Share, 50), (Grow, 10), (Create, 8), (Move, 16), (Detach, 3), (DetachSingle, 4), (Remove, 10), (Away, 5)];
            prof.dead = 3;
        }
        _ => {
            prof.core = &[(AllocCreate, 50), (Chain, 16), (Nest, 16), (Create, 10), (Remove, 8), (Clone, 14), (Snap, 5), (Lookup, 4), (Other, 8)];
            prof.oom = 80;
            prof.fault = 70;
        }
    }
    prof
}

struct Gen {
    rng: Rng,
    prof: Prof,
    /// Usual number of nodes of a new tree.
    size: u32,
    /// The first tree is far larger.
    big: bool,
}

/// Runs of a property: `no` within the configuration.
pub fn seed_of(seed: u64, prop: u32, config: u32, no: u64) -> u64 {
    let config = if prop == crate::props::SAME { 0 } else { config };
    mix(mix(mix(seed ^ 0x7265_656e_61) ^ u64::from(prop) << 32 ^ u64::from(config)) ^ no)
}

pub fn generate(prop: u32, seed: u64) -> Run {
    let mut rng = Rng::new(seed);
    let prof = profile(prop);
    let id_kind = if rng.pct(prof.tiny) {
        if rng.pct(60) {
            1
        } else {
            5
        }
    } else {
        *pick(&mut rng, &[0, 0, 0, 2, 3, 4, 6])
    };
    let len = match rng.below(20) {
        0..=3 => rng.range(1, 5),
        4..=14 => rng.range(5, 25),
        15..=18 => rng.range(25, 70),
        _ => rng.range(70, 160),
    };
    let size = match rng.below(100) {
        0..=69 => rng.range(2, 9),
        70..=91 => rng.range(9, 22),
        92..=98 => rng.range(22, 70),
        _ => rng.range(70, 250),
    };
    let (huge, giant) = match prop {
        14 => (rng.below(3) != 0, 40),
        16 => (rng.below(3) != 0, 120),
        17 => (rng.below(8) == 0, 8000),
        _ => (rng.below(80) == 0, 5000),
    };
    // More nodes than 16 bits can tell apart.
    let giant = rng.below(giant) == 0;
    let id_kind = if giant { *pick(&mut rng, &[0, 3, 4, 6]) } else { id_kind };
    let clients = *pick(&mut rng, &[1, 1, 2, 2, 3, 4]);
    let mut g = Gen {
        rng: Rng::new(seed ^ 0x5555),
        prof,
        size,
        big: huge || giant,
    };
    let mut steps = Vec::new();
    // Something to start with.
    if giant {
        let count = match prop {
            14 => g.rng.range(8_000, 66_500),
            16 => g.rng.range(8_000, 25_000),
            _ => g.rng.range(65_500, 66_500),
        };
        steps.push(g.grow(0, count));
    } else if huge {
        let count = match prop {
            16 => g.rng.range(300, 2000),
            17 => g.rng.range(60, 400),
            14 => g.rng.range(300, 3000),
            _ => {
                let most = *pick(&mut g.rng, &[400, 600, 600, 1000, 1000, 3000]);
                g.rng.range(260, most)
            }
        };
        steps.push(g.grow(0, count));
    } else {
        for c in 0..g.rng.below(3) {
            let mut s = g.step(Grow, c);
            if c == 0 {
                s.a[4] = 0;
            }
            steps.push(s);
        }
    }
    if prop == 16 && (huge || giant) {
        // Mostly deep ones.
        let style = *pick(&mut g.rng, &[2, 2, 2, 2, 5, 5, 3, 4, 0]);
        steps[0].a[2] = style;
    }
    if g.rng.pct(if prop == 17 && huge { 85 } else { 35 }) {
        // A second forest.
        steps.push(Step {
            kind: New,
            client: 0,
            a: vec![1, g.rng.below(2)],
        });
        let mut s = g.step(Grow, 0);
        s.a[0] = 1;
        if !(prop == 17 && huge) {
            steps.push(s);
        }
    }
    // The clients, each with its own habits.
    let habits: Vec<Vec<(Kind, u32)>> = (0..clients).map(|_| g.habits()).collect();
    let len = match (giant, huge) {
        (true, _) => len.min(6),
        (_, true) => len.min(12),
        _ => len,
    };
    let mut turn = 0;
    for _ in 0..len {
        // The scheduler: who is next.
        if clients > 1 && !g.rng.pct(40) {
            turn = g.rng.below(clients);
        }
        let total: u32 = habits[turn as usize].iter().map(|h| h.1).sum();
        let mut at = g.rng.below(total.max(1));
        let mut kind = Create;
        for &(k, w) in &habits[turn as usize] {
            if at < w {
                kind = k;
                break;
            }
            at -= w;
        }
        let s = g.step(kind, turn);
        steps.push(s);
    }
    Run { id_kind, steps }
}

fn pick<'a, T>(rng: &mut Rng, v: &'a [T]) -> &'a T {
    &v[rng.below(v.len() as u32) as usize]
}

impl Gen {
    fn habits(&mut self) -> Vec<(Kind, u32)> {
        let mut h = Vec::new();
        for &(k, w) in self.prof.core {
            h.push((k, w * self.rng.range(1, 4)));
        }
        let quiet = self.rng.pct(25);
        for &(k, w) in self.prof.side {
            if self.rng.pct(50) && !(quiet && w < 4) {
                h.push((k, w));
            }
        }
        h
    }

    fn faulty(&mut self) -> bool {
        let p = self.prof.fault;
        self.rng.pct(p)
    }

    fn blackout(&mut self) -> u32 {
        if self.rng.pct(self.prof.fault / 3) {
            self.rng.range(1, 4)
        } else {
            0
        }
    }

    fn sel(&mut self) -> (u32, u32) {
        let k = self.rng.sel();
        let dead = self.prof.dead;
        let mode = if self.rng.pct(dead) {
            if self.rng.pct(65) {
                3
            } else {
                4
            }
        } else if self.big && self.rng.pct(30) {
            *pick(&mut self.rng, &[14, 14, 14, 11])
        } else {
            *pick(&mut self.rng, &[9, 9, 9, 0, 0, 0, 1, 2, 5, 6, 7, 8, 11, 12, 13, 14])
        };
        (mode, k)
    }

    fn near(&mut self) -> (u32, u32) {
        if self.rng.pct(55) {
            (10, self.rng.below(12) + 12 * self.rng.below(8))
        } else {
            self.sel()
        }
    }

    fn val(&mut self) -> u32 {
        self.rng.below(1 << 20)
    }

    fn slot(&mut self) -> u32 {
        if self.rng.pct(60) {
            0
        } else {
            self.rng.below(3)
        }
    }

    fn grow(&mut self, client: u32, count: u32) -> Step {
        let a = vec![
            self.slot(),
            count,
            self.rng.below(7),
            self.rng.below(1 << 16),
            self.rng.below(2),
            self.rng.sel(),
        ];
        Step { kind: Grow, client, a }
    }

    fn step(&mut self, kind: Kind, client: u32) -> Step {
        let slot = self.slot();
        let (mode, k) = self.sel();
        let mut a = vec![slot, mode, k];
        match kind {
            New => a = vec![self.rng.below(3), self.rng.below(2)],
            DropForest => a.truncate(1),
            Grow => {
                let count = self.rng.range(1, self.size);
                return self.grow(client, count);
            }
            Root => a.extend([0, 0, self.val()]),
            Create => a.extend([self.rng.below(4), self.rng.below(2), self.val()]),
            Move => {
                let (m, k) = self.near();
                let api = *pick(&mut self.rng, &[0, 0, 1, 2]);
                a.extend([m, k, self.rng.below(4), api]);
                a.push(self.blackout());
            }
            Detach | DetachSingle => {
                a.push(self.rng.below(2));
                a.push(self.blackout());
            }
            Remove => {
                let variant = *pick(&mut self.rng, &[0, 1, 2, 2, 2, 2]);
                let crash = if self.faulty() && (variant == 2 || self.rng.pct(25)) {
                    1 + self.rng.sel()
                } else {
                    0
                };
                let disp = *pick(&mut self.rng, &[0, 0, 0, 1, 1, 2, 2, 3, 4, 5]);
                a.extend([
                    variant,
                    self.rng.below(2),
                    crash,
                    disp,
                    self.rng.below(2),
                    self.rng.below(4),
                    self.rng.sel(),
                    self.rng.sel(),
                ]);
                a.push(self.blackout());
            }
            Clone => {
                let fault = if self.faulty() {
                    if self.rng.pct(self.prof.oom) { 3 } else { self.rng.range(1, 3) }
                } else {
                    0
                };
                a.extend([self.rng.below(3), self.rng.below(2), fault, self.rng.sel()]);
            }
            Snap => {
                let fault = if self.faulty() {
                    if self.rng.pct(self.prof.oom) { 2 } else { self.rng.range(1, 2) }
                } else {
                    0
                };
                a = vec![slot, self.rng.below(3), fault, self.rng.sel(), self.rng.below(2)];
                if self.rng.pct(self.prof.again) {
                    a[4] = 0;
                    let most = if self.rng.pct(50) { 4 } else { 60 };
                    a.push(self.rng.range(1, most));
                }
            }
            Data => a.extend([self.rng.below(3), self.rng.below(2), self.val()]),
            Chain => {
                let n = self.words();
                let oom = if self.rng.pct(self.prof.fault / 2) {
                    if self.rng.pct(20) {
                        1
                    } else {
                        2 + self.rng.below(n.max(1))
                    }
                } else {
                    0
                };
                a = vec![slot, oom, self.rng.below(64)];
                // Some programs only build, some also edit.
                let edit = self.rng.pct(60);
                for _ in 0..n {
                    let op = if edit { self.rng.below(16) } else { self.rng.below(9) };
                    let k = self.rng.below(1 << 16);
                    a.push(op + 16 * k);
                }
            }
            Nest => {
                let n = self.words();
                let oom = if self.rng.pct(self.prof.fault / 2) {
                    1 + self.rng.below(n / 2 + 1)
                } else {
                    0
                };
                let panics = u32::from(self.rng.pct(self.prof.fault / 2));
                a = vec![slot, panics, oom, self.rng.below(64)];
                for _ in 0..n {
                    let mut w = self.rng.below(8);
                    if w == 7 && !self.rng.pct(25) {
                        w = 5;
                    }
                    a.push(w + 8 * self.rng.below(1 << 16));
                }
            }
            Read => {
                let count = *pick(&mut self.rng, &[0, 0, 0, 1, 2]);
                let kinds = self.rng.below(11 * 11 * 11);
                let (by_node, depth) = (self.rng.below(2), self.rng.below(9));
                a.extend([count + 3 * kinds, by_node + 2 * depth, self.rng.below(256)]);
                let n = match self.rng.below(10) {
                    0..=2 => self.rng.range(0, 5),
                    3..=8 => self.rng.range(5, 25),
                    _ => self.rng.range(25, 80),
                };
                // From one end only, or from both, or anything.
                let style = self.rng.below(4);
                for _ in 0..n {
                    let action = match style {
                        0 => *pick(&mut self.rng, &[0, 0, 0, 16, 19, 22, 28, 24, 30]),
                        1 => *pick(&mut self.rng, &[8, 8, 8, 16, 19, 22, 28, 24, 30]),
                        2 => *pick(&mut self.rng, &[0, 8]),
                        _ => self.rng.below(32),
                    };
                    a.push(action + 32 * (self.rng.below(16) + 16 * self.rng.below(240)));
                }
            }
            Bft => {
                let oom = if self.faulty() { 1 } else { 0 };
                a.extend([
                    self.rng.below(2),
                    self.rng.below(4),
                    self.rng.sel(),
                    oom,
                    self.rng.below(6),
                    if self.rng.pct(50) { 0 } else { self.rng.below(240) },
                ]);
            }
            Print => {
                let fault = if self.faulty() { self.rng.range(1, 6) } else { 0 };
                let style = match self.rng.below(8) {
                    s @ 0..=3 => s,
                    _ => self.rng.range(4, 4000),
                };
                let chunk = if self.rng.pct(25) { 0 } else { self.rng.below(4000) };
                a.extend([
                    self.rng.below(4),
                    self.rng.below(3),
                    style,
                    chunk,
                    fault,
                    self.rng.below(1 << 12),
                ]);
            }
            AllocCreate => {
                if self.rng.pct(90) {
                    a[1] = *pick(&mut self.rng, &[0, 9, 1, 2, 5, 13]);
                }
                a.extend([
                    self.rng.below(4),
                    self.rng.below(3),
                    self.rng.below(3),
                    self.rng.below(40),
                    self.val(),
                    self.rng.below(8),
                ]);
            }
            Fill => {
                // The 16 bit ID space only now and then.
                let big = self.rng.below(60) == 0;
                let p4 = if big { 8 * self.rng.below(8) } else { self.rng.below(64) | 1 };
                a = vec![
                    slot,
                    self.rng.below(3),
                    self.rng.below(64),
                    self.rng.below(64),
                    p4,
                ];
            }
            Away => a.clear(),
            Other => {
                a = vec![self.rng.below(crate::other::OTHERS)];
                for _ in 0..self.rng.range(4, 30) {
                    let op = self.rng.below(32);
                    a.push(op + 32 * self.rng.below(1 << 20));
                }
            }
            Share => {
                let stops = match self.rng.below(8) {
                    0 => 0,
                    1..=3 => self.rng.range(1, 6),
                    4..=6 => self.rng.range(6, 60),
                    _ => self.rng.range(60, 400),
                };
                a = vec![slot, stops, self.rng.below(1 << 20)];
                let readers = self.rng.range(2, 4);
                // All alike, or each its own way.
                let alike = self.rng.pct(40).then(|| self.rng.below(1 << 20));
                for _ in 0..self.rng.range(2, 14) {
                    let who = self.rng.below(readers);
                    let task = match alike {
                        Some(t) if self.rng.pct(70) => t,
                        _ => self.rng.below(1 << 20),
                    };
                    a.push(who + 4 * task);
                }
            }
            Lookup => {
                if self.rng.pct(60) {
                    a[1] = if self.rng.pct(50) { 3 } else { 4 };
                }
            }
        }
        Step { kind, client, a }
    }

    fn words(&mut self) -> u32 {
        match self.rng.below(10) {
            0..=1 => self.rng.range(0, 3),
            2..=7 => self.rng.range(3, 14),
            _ => self.rng.range(14, 45),
        }
    }
}
