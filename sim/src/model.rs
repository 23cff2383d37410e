//! The reference model: an ordered forest in the most obvious representation.

use crate::pay::NONE;
use crate::rng::{comb, mix};

#[derive(Clone, Debug)]
pub struct MNode {
    pub alive: bool,
    pub parent: u32,
    pub children: Vec<u32>,
    pub serial: u32,
    pub val: u32,
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub n: Vec<MNode>,
    pub live: u32,
}

/// Where to put a node relative to the anchor.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Dest {
    First,
    Last,
    Prev,
    Next,
}

impl Dest {
    pub fn of(v: u32) -> Self {
        match v % 4 {
            0 => Dest::Last,
            1 => Dest::First,
            2 => Dest::Next,
            _ => Dest::Prev,
        }
    }

    pub fn sibling(self) -> bool {
        matches!(self, Dest::Prev | Dest::Next)
    }
}

impl Model {
    pub fn alive(&self, i: u32) -> bool {
        self.n.get(i as usize).map_or(false, |n| n.alive)
    }

    pub fn parent(&self, i: u32) -> Option<u32> {
        let p = self.n[i as usize].parent;
        (p != NONE).then_some(p)
    }

    pub fn children(&self, i: u32) -> &[u32] {
        &self.n[i as usize].children
    }

    /// Position among the siblings, and their number.
    pub fn pos(&self, i: u32) -> Option<(usize, usize)> {
        let p = self.parent(i)?;
        let c = self.children(p);
        c.iter().position(|&x| x == i).map(|pos| (pos, c.len()))
    }

    pub fn next(&self, i: u32) -> Option<u32> {
        let (pos, _) = self.pos(i)?;
        self.children(self.parent(i)?).get(pos + 1).copied()
    }

    pub fn prev(&self, i: u32) -> Option<u32> {
        let (pos, _) = self.pos(i)?;
        pos.checked_sub(1)
            .map(|p| self.children(self.parent(i).unwrap())[p])
    }

    pub fn push_root(&mut self, serial: u32, val: u32) -> u32 {
        self.n.push(MNode {
            alive: true,
            parent: NONE,
            children: Vec::new(),
            serial,
            val,
        });
        self.live += 1;
        self.n.len() as u32 - 1
    }

    /// Whether `a` is `b` or one of its ancestors.
    pub fn above_or_self(&self, a: u32, b: u32) -> bool {
        let mut cur = Some(b);
        while let Some(c) = cur {
            if c == a {
                return true;
            }
            cur = self.parent(c);
        }
        false
    }

    pub fn root_of(&self, i: u32) -> u32 {
        let mut cur = i;
        while let Some(p) = self.parent(cur) {
            cur = p;
        }
        cur
    }

    pub fn depth(&self, i: u32) -> u32 {
        let mut d = 0;
        let mut cur = i;
        while let Some(p) = self.parent(cur) {
            cur = p;
            d += 1;
        }
        d
    }

    pub fn detach(&mut self, i: u32) {
        if let Some(p) = self.parent(i) {
            let c = &mut self.n[p as usize].children;
            if c.last() == Some(&i) {
                c.pop();
            } else {
                c.retain(|&c| c != i);
            }
            self.n[i as usize].parent = NONE;
        }
    }

    /// Moves `i` to the place. The caller has checked that it is legal.
    pub fn attach(&mut self, i: u32, anchor: u32, dest: Dest) {
        self.detach(i);
        let (parent, pos) = match dest {
            Dest::First => (anchor, 0),
            Dest::Last => (anchor, self.children(anchor).len()),
            Dest::Prev => (self.parent(anchor).unwrap(), self.pos(anchor).unwrap().0),
            Dest::Next => (
                self.parent(anchor).unwrap(),
                self.pos(anchor).unwrap().0 + 1,
            ),
        };
        self.n[parent as usize].children.insert(pos, i);
        self.n[i as usize].parent = parent;
    }

    /// Detaches the node alone. `false` if that is not possible.
    pub fn detach_single(&mut self, i: u32) -> bool {
        let children = self.children(i).to_vec();
        match self.parent(i) {
            Some(p) => {
                let (pos, _) = self.pos(i).unwrap();
                self.n[p as usize]
                    .children
                    .splice(pos..pos + 1, children.iter().copied());
                for &c in &children {
                    self.n[c as usize].parent = p;
                }
                self.n[i as usize].parent = NONE;
                self.n[i as usize].children.clear();
            }
            None => {
                if children.len() > 1 {
                    return false;
                }
                for &c in &children {
                    self.n[c as usize].parent = NONE;
                }
                self.n[i as usize].children.clear();
            }
        }
        true
    }

    pub fn preorder(&self, i: u32) -> Vec<u32> {
        let mut out = Vec::new();
        let mut stack = vec![i];
        while let Some(c) = stack.pop() {
            out.push(c);
            stack.extend(self.children(c).iter().rev());
        }
        out
    }

    pub fn postorder(&self, i: u32) -> Vec<u32> {
        // Reverse of the mirrored preorder.
        let mut out = Vec::new();
        let mut stack = vec![i];
        while let Some(c) = stack.pop() {
            out.push(c);
            stack.extend(self.children(c).iter());
        }
        out.reverse();
        out
    }

    /// Marks a node without children dead, taking it out of its tree.
    pub fn kill(&mut self, i: u32) {
        self.detach(i);
        let n = &mut self.n[i as usize];
        debug_assert!(n.children.is_empty());
        n.alive = false;
        n.serial = NONE;
        self.live -= 1;
    }

    /// Marks nodes dead. Children of a node come before the node, and are
    /// all of them.
    pub fn kill_all(&mut self, nodes: &[u32]) {
        let mut parents: Vec<u32> = Vec::new();
        for &i in nodes {
            let n = &mut self.n[i as usize];
            n.alive = false;
            n.serial = NONE;
            n.children = Vec::new();
            if n.parent != NONE && parents.last() != Some(&n.parent) {
                parents.push(n.parent);
            }
            n.parent = NONE;
            self.live -= 1;
        }
        parents.sort_unstable();
        parents.dedup();
        for p in parents {
            if self.alive(p) {
                let mut c = std::mem::take(&mut self.n[p as usize].children);
                c.retain(|&c| self.alive(c));
                self.n[p as usize].children = c;
            }
        }
    }

    /// Preorder with depths below the node.
    pub fn preorder_depths(&self, i: u32) -> Vec<(u32, u32)> {
        let mut out = Vec::new();
        let mut stack = vec![(i, 0)];
        while let Some((c, d)) = stack.pop() {
            out.push((c, d));
            stack.extend(self.children(c).iter().rev().map(|&x| (x, d + 1)));
        }
        out
    }

    pub fn roots(&self) -> impl Iterator<Item = u32> + '_ {
        (0..self.n.len() as u32).filter(|&i| self.alive(i) && self.n[i as usize].parent == NONE)
    }

    /// Hash of the ordered shape of a tree, with up to two nodes marked.
    pub fn tree_hash(&self, i: u32, marks: [u32; 2]) -> u64 {
        // Preorder with depths decides an ordered tree.
        let mut h = 1;
        let mut stack = vec![(i, 1u64)];
        while let Some((c, d)) = stack.pop() {
            h = comb(
                h,
                d << 2 | u64::from(c == marks[0]) | u64::from(c == marks[1]) << 1,
            );
            stack.extend(self.children(c).iter().rev().map(|&x| (x, d + 1)));
        }
        h
    }

    /// Hash of the shape of the forest, independent of the order of its trees,
    /// the identity of the nodes and the removed ones.
    pub fn shape(&self, marks: [u32; 2]) -> u64 {
        let mut h = 0u64;
        for r in self.roots() {
            h = h.wrapping_add(mix(self.tree_hash(r, marks)));
        }
        mix(h)
    }
}
