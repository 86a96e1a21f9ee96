//! Candidate grids and human strategies, straight from their definitions.
use super::grid::*;

pub const ALL: u16 = 0b11_1111_1110;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Model {
    pub grid: G,
    /// bits 1..=9; 0 for filled cells
    pub cand: [u16; 81],
}

pub fn bits(m: u16) -> impl Iterator<Item = u8> + Clone {
    (1..=9u8).filter(move |&d| m >> d & 1 == 1)
}

fn combinations(n: usize, k: usize) -> Vec<Vec<usize>> {
    fn go(from: usize, n: usize, k: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == k {
            out.push(cur.clone());
            return;
        }
        for i in from..n {
            cur.push(i);
            go(i + 1, n, k, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(0, n, k, &mut vec![], &mut out);
    out
}

impl Model {
    /// Entries `g`, all other cells with the candidates `allowed` that no entry excludes.
    pub fn new(g: &G, allowed: &[u16; 81]) -> Model {
        let mut m = Model { grid: [0; 81], cand: *allowed };
        for c in 0..81 {
            if g[c] != 0 {
                m.enter(c, g[c]);
            }
        }
        m
    }
    pub fn enter(&mut self, c: usize, d: u8) {
        self.grid[c] = d;
        self.cand[c] = 0;
        for &p in &peers()[c] {
            self.cand[p] &= !(1 << d);
        }
    }
    pub fn eliminate(&mut self, c: usize, d: u8) {
        self.cand[c] &= !(1 << d);
    }
    pub fn has(&self, c: usize, d: u8) -> bool {
        self.cand[c] >> d & 1 == 1
    }
    /// No digit twice in a house and a candidate for every empty cell.
    pub fn consistent(&self) -> bool {
        no_conflict(&self.grid) && (0..81).all(|c| self.grid[c] != 0 || self.cand[c] != 0)
    }
    pub fn naked_single(&self) -> Option<(usize, u8)> {
        (0..81).find(|&c| self.cand[c].count_ones() == 1).map(|c| (c, self.cand[c].trailing_zeros() as u8))
    }
    pub fn hidden_single(&self) -> Option<(usize, u8, usize)> {
        for (h, cells) in houses().iter().enumerate() {
            for d in 1..=9 {
                let mut at = cells.iter().filter(|&&c| self.has(c, d));
                if let (Some(&c), None) = (at.next(), at.next()) {
                    return Some((c, d, h));
                }
            }
        }
        None
    }
    /// Enters singles of the given kinds until there are none or a contradiction shows.
    pub fn close(&mut self, naked: bool, hidden: bool) {
        while self.consistent() {
            if let Some((c, d)) = self.naked_single().filter(|_| naked) {
                self.enter(c, d);
            } else if let Some((c, d, _)) = self.hidden_single().filter(|_| hidden) {
                self.enter(c, d);
            } else {
                break;
            }
        }
    }

    /// Cells of the house that can hold `d`.
    pub fn places(&self, house: usize, d: u8) -> Vec<usize> {
        houses()[house].iter().copied().filter(|&c| self.has(c, d)).collect()
    }
    /// Positions 0..9 in the house that can hold `d`, as bits.
    fn positions(&self, house: usize, d: u8) -> u16 {
        let h = &houses()[house];
        (0..9).filter(|&i| self.has(h[i], d)).fold(0, |m, i| m | 1 << i)
    }

    // what a strategy would exclude, if anything: (why, cell, digit)

    pub fn locked(&self) -> Option<(String, usize, u8)> {
        for d in 1..=9 {
            for h in 0..27 {
                let at = self.places(h, d);
                let Some(&first) = at.first() else { continue };
                // all places of a house in one further house
                for other in [row(first), 9 + col(first), 18 + bx(first)] {
                    // line and block
                    if (h < 18) == (other < 18) || !at.iter().all(|c| houses()[other].contains(c)) {
                        continue;
                    }
                    if let Some(&c) = houses()[other].iter().find(|&&c| self.has(c, d) && !houses()[h].contains(&c)) {
                        return Some((format!("house {} has digit {} only in house {}", h, d, other), c, d));
                    }
                }
            }
        }
        None
    }
    pub fn naked_subset(&self, k: usize) -> Option<(String, usize, u8)> {
        for (h, cells) in houses().iter().enumerate() {
            let open: Vec<usize> = cells.iter().copied().filter(|&c| (1..=k as u32).contains(&self.cand[c].count_ones())).collect();
            for comb in combinations(open.len(), k) {
                let union = comb.iter().fold(0, |m, &i| m | self.cand[open[i]]);
                if union.count_ones() as usize != k {
                    continue;
                }
                for &c in cells {
                    if !comb.iter().any(|&i| open[i] == c) && self.cand[c] & union != 0 {
                        let d = (self.cand[c] & union).trailing_zeros() as u8;
                        let at: Vec<usize> = comb.iter().map(|&i| open[i]).collect();
                        return Some((format!("house {}: cells {:?} share the digits {:?}", h, at, bits(union).collect::<Vec<_>>()), c, d));
                    }
                }
            }
        }
        None
    }
    pub fn hidden_subset(&self, k: usize) -> Option<(String, usize, u8)> {
        for (h, cells) in houses().iter().enumerate() {
            let pos: Vec<(u8, u16)> =
                (1..=9).map(|d| (d, self.positions(h, d))).filter(|x| (1..=k as u32).contains(&x.1.count_ones())).collect();
            for comb in combinations(pos.len(), k) {
                let union = comb.iter().fold(0, |m, &i| m | pos[i].1);
                if union.count_ones() as usize != k {
                    continue;
                }
                let digits = comb.iter().fold(0u16, |m, &i| m | 1 << pos[i].0);
                for i in 0..9 {
                    let c = cells[i];
                    if union >> i & 1 == 1 && self.cand[c] & !digits != 0 {
                        let d = (self.cand[c] & !digits).trailing_zeros() as u8;
                        return Some((format!("house {}: digits {:?} only at positions {:#b}", h, bits(digits).collect::<Vec<_>>(), union), c, d));
                    }
                }
            }
        }
        None
    }
    /// Basic fish; lines with a single place for the digit are hidden singles and do not count.
    pub fn fish(&self, k: usize) -> Option<(String, usize, u8)> {
        for d in 1..=9 {
            for cols in [false, true] {
                let off = if cols { 9 } else { 0 };
                let lines: Vec<(usize, u16)> =
                    (0..9).map(|l| (l, self.positions(off + l, d))).filter(|x| (2..=k as u32).contains(&x.1.count_ones())).collect();
                for comb in combinations(lines.len(), k) {
                    let union = comb.iter().fold(0, |m, &i| m | lines[i].1);
                    if union.count_ones() as usize != k {
                        continue;
                    }
                    for l in 0..9 {
                        if comb.iter().any(|&i| lines[i].0 == l) {
                            continue;
                        }
                        let hit = self.positions(off + l, d) & union;
                        if hit != 0 {
                            let c = houses()[off + l][hit.trailing_zeros() as usize];
                            let at: Vec<usize> = comb.iter().map(|&i| lines[i].0).collect();
                            return Some((format!("digit {} in {} {:?} only at positions {:#b}", d, if cols { "columns" } else { "rows" }, at, union), c, d));
                        }
                    }
                }
            }
        }
        None
    }
    /// Hinge ab, pincers ac and bc that see the hinge but are not in one house with it and each other.
    pub fn xy_wing(&self) -> Option<(String, usize, u8)> {
        for h in 0..81 {
            if self.cand[h].count_ones() != 2 {
                continue;
            }
            let near: Vec<usize> =
                peers()[h].iter().copied().filter(|&p| self.cand[p].count_ones() == 2 && (self.cand[p] & self.cand[h]).count_ones() == 1).collect();
            for (i, &p) in near.iter().enumerate() {
                for &q in &near[i + 1..] {
                    let z = self.cand[p] & self.cand[q];
                    if z.count_ones() != 1 || (self.cand[h] | self.cand[p] | self.cand[q]).count_ones() != 3 || z & self.cand[h] != 0 {
                        continue;
                    }
                    if houses().iter().any(|x| [h, p, q].iter().all(|c| x.contains(c))) {
                        continue;
                    }
                    let d = z.trailing_zeros() as u8;
                    if let Some(c) = (0..81).find(|&c| sees(c, p) && sees(c, q) && self.has(c, d)) {
                        return Some((format!("hinge {} with pincers {} and {}", h, p, q), c, d));
                    }
                }
            }
        }
        None
    }
    /// Hinge abc, pincers ac and bc: one in the block of the hinge, one in a line of it outside the block.
    pub fn xyz_wing(&self) -> Option<(String, usize, u8)> {
        for h in 0..81 {
            if self.cand[h].count_ones() != 3 {
                continue;
            }
            let near: Vec<usize> =
                peers()[h].iter().copied().filter(|&p| self.cand[p].count_ones() == 2 && self.cand[p] & !self.cand[h] == 0).collect();
            for &p in near.iter().filter(|&&p| bx(p) == bx(h)) {
                for &q in near.iter().filter(|&&q| bx(q) != bx(h)) {
                    let z = self.cand[p] & self.cand[q];
                    if z.count_ones() != 1 || houses().iter().any(|x| [h, p, q].iter().all(|c| x.contains(c))) {
                        continue;
                    }
                    let d = z.trailing_zeros() as u8;
                    if let Some(c) = (0..81).find(|&c| sees(c, h) && sees(c, p) && sees(c, q) && self.has(c, d)) {
                        return Some((format!("hinge {} with pincers {} and {}", h, p, q), c, d));
                    }
                }
            }
        }
        None
    }
}

#[cfg(test)]
mod test {
    use super::*;
    #[test]
    fn counts() {
        assert_eq!(combinations(5, 2).len(), 10);
        let m = Model::new(&[0; 81], &[ALL; 81]);
        assert!(m.locked().is_none() && m.fish(4).is_none() && m.hidden_subset(4).is_none());
    }
}
