//! Reference solver: plain backtracking over the most constrained cell or house position.
use super::grid::*;
use crate::rng::Rng;

pub const ALL: u16 = 0b11_1111_1110;

pub struct Search<'a> {
    g: G,
    rows: [u16; 9],
    cols: [u16; 9],
    boxes: [u16; 9],
    allowed: [u16; 81],
    limit: usize,
    nodes: u64,
    found: usize,
    rng: Option<&'a mut Rng>,
    on: &'a mut dyn FnMut(&G),
}

/// More nodes than allowed were visited: the case is discarded.
#[derive(Debug)]
pub struct TooHard;

impl<'a> Search<'a> {
    fn step(&mut self) -> Result<(), TooHard> {
        if self.found >= self.limit {
            return Ok(());
        }
        if self.nodes == 0 {
            return Err(TooHard);
        }
        self.nodes -= 1;
        // candidates of all empty cells
        let mut cand = [0u16; 81];
        let mut best = 10;
        let mut best_cell = 99;
        for c in 0..81 {
            if self.g[c] == 0 {
                let m = self.allowed[c] & !(self.rows[row(c)] | self.cols[col(c)] | self.boxes[bx(c)]);
                cand[c] = m;
                let n = m.count_ones();
                if n < best {
                    best = n;
                    best_cell = c;
                    if n == 0 {
                        return Ok(());
                    }
                }
            }
        }
        if best_cell == 99 {
            self.found += 1;
            let g = self.g;
            (self.on)(&g);
            return Ok(());
        }
        let mut choices: [(usize, u8); 9] = [(0, 0); 9];
        let mut n_choices = 0;
        if best >= 2 {
            // fewer positions for a digit in a house?
            'houses: for (h, cells) in houses().iter().enumerate() {
                let placed = match h / 9 {
                    0 => self.rows[h],
                    1 => self.cols[h - 9],
                    _ => self.boxes[h - 18],
                };
                let (mut one, mut two, mut three) = (0u16, 0u16, 0u16);
                for &c in cells {
                    let m = cand[c];
                    three |= two & m;
                    two |= one & m;
                    one |= m;
                }
                if one | placed != ALL {
                    return Ok(()); // a digit has no place left
                }
                let singles = one & !two;
                if singles != 0 {
                    let d = singles.trailing_zeros() as u8;
                    let c = *cells.iter().find(|&&c| cand[c] >> d & 1 == 1).unwrap();
                    choices[0] = (c, d);
                    n_choices = 1;
                    break 'houses;
                }
                let pairs = two & !three;
                if best > 2 && pairs != 0 && n_choices == 0 {
                    let d = pairs.trailing_zeros() as u8;
                    for &c in cells.iter().filter(|&&c| cand[c] >> d & 1 == 1) {
                        choices[n_choices] = (c, d);
                        n_choices += 1;
                    }
                }
            }
        }
        if n_choices == 0 {
            let mut m = cand[best_cell];
            while m != 0 {
                choices[n_choices] = (best_cell, m.trailing_zeros() as u8);
                n_choices += 1;
                m &= m - 1;
            }
        }
        if let Some(r) = self.rng.as_deref_mut() {
            r.shuffle(&mut choices[..n_choices]);
        }
        for &(c, d) in &choices[..n_choices] {
            let b = 1u16 << d;
            self.g[c] = d;
            self.rows[row(c)] |= b;
            self.cols[col(c)] |= b;
            self.boxes[bx(c)] |= b;
            let r = self.step();
            self.g[c] = 0;
            self.rows[row(c)] &= !b;
            self.cols[col(c)] &= !b;
            self.boxes[bx(c)] &= !b;
            r?;
            if self.found >= self.limit {
                break;
            }
        }
        Ok(())
    }
}

fn search(
    g: &G,
    allowed: Option<&[u16; 81]>,
    limit: usize,
    nodes: u64,
    rng: Option<&mut Rng>,
    on: &mut dyn FnMut(&G),
) -> Result<usize, TooHard> {
    if !no_conflict(g) || limit == 0 {
        return Ok(0);
    }
    if let Some(a) = allowed {
        if (0..81).any(|c| g[c] != 0 && a[c] >> g[c] & 1 == 0) {
            return Ok(0);
        }
    }
    let mut s = Search {
        g: *g,
        rows: [0; 9],
        cols: [0; 9],
        boxes: [0; 9],
        allowed: allowed.copied().unwrap_or([ALL; 81]),
        limit,
        nodes,
        found: 0,
        rng,
        on,
    };
    for c in 0..81 {
        if g[c] != 0 {
            s.rows[row(c)] |= 1 << g[c];
            s.cols[col(c)] |= 1 << g[c];
            s.boxes[bx(c)] |= 1 << g[c];
        }
    }
    s.step()?;
    Ok(s.found)
}

pub const NODES: u64 = 60_000;

/// min(limit, number of completions)
pub fn count(g: &G, limit: usize) -> Result<usize, TooHard> {
    search(g, None, limit, NODES + 100 * limit as u64, None, &mut |_| ())
}

pub fn solutions(g: &G, limit: usize) -> Result<Vec<G>, TooHard> {
    let mut v = vec![];
    search(g, None, limit, NODES + 100 * limit as u64, None, &mut |s| v.push(*s))?;
    Ok(v)
}

/// Completions in which every cell holds one of its allowed digits (bits 1..=9).
pub fn solutions_with(g: &G, allowed: &[u16; 81], limit: usize) -> Result<Vec<G>, TooHard> {
    let mut v = vec![];
    search(g, Some(allowed), limit, NODES + 100 * limit as u64, None, &mut |s| v.push(*s))?;
    Ok(v)
}

/// A completion found with random choices.
pub fn random_solution(g: &G, rng: &mut Rng) -> Option<G> {
    let mut out = None;
    let _ = search(g, None, 1, 5_000, Some(rng), &mut |s| out = Some(*s));
    out
}

/// As `random_solution`, with one of the allowed digits in every cell.
pub fn random_solution_with(g: &G, allowed: &[u16; 81], rng: &mut Rng) -> Option<G> {
    let mut out = None;
    let _ = search(g, Some(allowed), 1, 5_000, Some(rng), &mut |s| out = Some(*s));
    out
}

pub fn unique(g: &G) -> Option<G> {
    match solutions(g, 2) {
        Ok(v) if v.len() == 1 => Some(v[0]),
        _ => None,
    }
}

/// Nodes visited to prove uniqueness.
pub fn cost(g: &G) -> u64 {
    let mut n = 0;
    let budget = 1_000_000;
    // the budget is found by doubling; only used to make the data files
    let mut lo = 1;
    while lo < budget {
        if search(g, None, 2, lo, None, &mut |_| ()).is_ok() {
            n = lo;
            break;
        }
        lo += lo / 4 + 1;
    }
    n
}
