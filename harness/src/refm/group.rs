//! The validity-preserving transformations and what follows from them.
use super::grid::*;
use crate::rng::Rng;

pub const PERM3: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];

/// The image has digit `digits[x]` at (r, c), where x is at (rows[r], cols[c]) of the (possibly
/// transposed) source.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Tr {
    pub transposed: bool,
    pub rows: [u8; 9],
    pub cols: [u8; 9],
    pub digits: [u8; 10],
}

/// All 1296 permutations of lines that respect the chutes.
pub fn line_perms() -> &'static Vec<[u8; 9]> {
    static L: std::sync::OnceLock<Vec<[u8; 9]>> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        let mut v = vec![];
        for b in PERM3 {
            for x in PERM3 {
                for y in PERM3 {
                    for z in PERM3 {
                        let mut p = [0; 9];
                        for (i, inner) in [x, y, z].iter().enumerate() {
                            for j in 0..3 {
                                p[i * 3 + j] = (b[i] * 3 + inner[j]) as u8;
                            }
                        }
                        v.push(p);
                    }
                }
            }
        }
        v
    })
}

impl Tr {
    pub fn random(r: &mut Rng) -> Tr {
        let mut digits = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
        r.shuffle(&mut digits[1..]);
        Tr { transposed: r.chance(1, 2), rows: *r.pick(line_perms()), cols: *r.pick(line_perms()), digits }
    }
    pub fn apply(&self, g: &G) -> G {
        let mut out = [0; 81];
        for r in 0..9 {
            for c in 0..9 {
                let (sr, sc) = (self.rows[r] as usize, self.cols[c] as usize);
                let x = if self.transposed { g[sc * 9 + sr] } else { g[sr * 9 + sc] };
                out[r * 9 + c] = self.digits[x as usize];
            }
        }
        out
    }
}

pub fn transpose(g: &G) -> G {
    let mut t = [0; 81];
    for c in 0..81 {
        t[(c % 9) * 9 + c / 9] = g[c];
    }
    t
}

pub struct Canon {
    pub least: G,
    /// all transformations that lead to the least form
    pub trs: Vec<Tr>,
}

/// Least form of a solved grid by enumeration of all 2*3*6*6*216 ways to choose the orientation,
/// the top band, the order of its rows and the order of the columns. Everything else is then
/// forced: the digits by the first row, the order of the other rows by their first cells.
pub fn canonical(sol: &G) -> Canon {
    let mut best: G = [10; 81];
    let mut trs: Vec<Tr> = vec![];
    for transposed in [false, true] {
        let g = if transposed { transpose(sol) } else { *sol };
        for band in 0..3 {
            for order in PERM3 {
                let r0 = band * 3 + order[0];
                let r1 = band * 3 + order[1];
                let r2 = band * 3 + order[2];
                'cols: for cols in line_perms() {
                    let mut digits = [0u8; 10];
                    for (j, &c) in cols.iter().enumerate() {
                        digits[g[r0 * 9 + c as usize] as usize] = j as u8 + 1;
                    }
                    let mut cand: G = [0; 81];
                    let mut less = false;
                    for j in 0..9 {
                        cand[j] = j as u8 + 1;
                    }
                    for (k, r) in [(1, r1), (2, r2)] {
                        for j in 0..9 {
                            let x = digits[g[r * 9 + cols[j] as usize] as usize];
                            let i = k * 9 + j;
                            cand[i] = x;
                            if !less {
                                if x > best[i] {
                                    continue 'cols;
                                }
                                less = x < best[i];
                            }
                        }
                    }
                    // the other rows, ordered by first cell within the band, bands by first cell
                    let mut bands: Vec<[(u8, usize); 3]> = vec![];
                    for b in (0..3).filter(|&b| b != band) {
                        let mut rows = [0, 1, 2].map(|k| {
                            let r = b * 3 + k;
                            (digits[g[r * 9 + cols[0] as usize] as usize], r)
                        });
                        rows.sort();
                        bands.push(rows);
                    }
                    bands.sort();
                    let mut rows = [r0 as u8, r1 as u8, r2 as u8, 0, 0, 0, 0, 0, 0];
                    for (k, &(_, r)) in bands.iter().flatten().enumerate() {
                        rows[3 + k] = r as u8;
                        for j in 0..9 {
                            let x = digits[g[r * 9 + cols[j] as usize] as usize];
                            let i = (3 + k) * 9 + j;
                            cand[i] = x;
                            if !less {
                                if x > best[i] {
                                    continue 'cols;
                                }
                                less = x < best[i];
                            }
                        }
                    }
                    if less {
                        best = cand;
                        trs.clear();
                    }
                    trs.push(Tr { transposed, rows, cols: *cols, digits });
                }
            }
        }
    }
    Canon { least: best, trs }
}

/// Is `to` the image of `from` under a transformation? Returns one.
pub fn find_isomorphism(from: &G, to: &G) -> Option<Tr> {
    isomorphisms(from, to, 1).pop()
}

/// Up to `limit` transformations that map `from` to `to`. Digits that do not occur are mapped
/// in one arbitrary way only.
pub fn isomorphisms(from: &G, to: &G, limit: usize) -> Vec<Tr> {
    let mut out = vec![];
    // the number of clues per row is an invariant that prunes the row orders
    let weight = |x: &G, r: usize| (0..9).filter(|&c| x[r * 9 + c] != 0).count();
    let wt: Vec<_> = (0..9).map(|r| weight(to, r)).collect();
    for transposed in [false, true] {
        let g = if transposed { transpose(from) } else { *from };
        let wf: Vec<_> = (0..9).map(|r| weight(&g, r)).collect();
        for rows in line_perms() {
            if (0..9).any(|r| wf[rows[r] as usize] != wt[r]) {
                continue;
            }
            let mut st = Cols { g: &g, to, rows, cols: [0; 9], fwd: [0; 10], bwd: [0; 10], limit: limit - out.len(), found: vec![] };
            st.place(0, [false; 9]);
            for (cols, fwd, bwd) in st.found {
                let mut digits = fwd;
                let mut free: Vec<u8> = (1..=9).filter(|&d| bwd[d as usize] == 0).collect();
                for d in 1..=9 {
                    if digits[d] == 0 {
                        digits[d] = free.pop().unwrap();
                    }
                }
                out.push(Tr { transposed, rows: *rows, cols, digits });
            }
            if out.len() >= limit {
                return out;
            }
        }
    }
    out
}

struct Cols<'a> {
    g: &'a G,
    to: &'a G,
    rows: &'a [u8; 9],
    cols: [u8; 9],
    fwd: [u8; 10],
    bwd: [u8; 10],
    limit: usize,
    found: Vec<([u8; 9], [u8; 10], [u8; 10])>,
}
impl Cols<'_> {
    /// false: enough found
    fn place(&mut self, k: usize, used: [bool; 9]) -> bool {
        if k == 9 {
            self.found.push((self.cols, self.fwd, self.bwd));
            return self.found.len() < self.limit;
        }
        for c in 0..9usize {
            if used[c] {
                continue;
            }
            // stacks stay together
            if k % 3 != 0 && c / 3 != self.cols[k - 1] as usize / 3 {
                continue;
            }
            if k % 3 == 0 && (0..9).any(|x| used[x] && x / 3 == c / 3) {
                continue;
            }
            let (fwd, bwd) = (self.fwd, self.bwd);
            let ok = (0..9).all(|r| {
                let a = self.g[self.rows[r] as usize * 9 + c] as usize;
                let b = self.to[r * 9 + k] as usize;
                if a == 0 || b == 0 {
                    return a == b;
                }
                if self.fwd[a] == 0 && self.bwd[b] == 0 {
                    self.fwd[a] = b as u8;
                    self.bwd[b] = a as u8;
                }
                self.fwd[a] == b as u8 && self.bwd[b] == a as u8
            });
            if ok {
                self.cols[k] = c as u8;
                let mut u = used;
                u[c] = true;
                if !self.place(k + 1, u) {
                    return false;
                }
            }
            self.fwd = fwd;
            self.bwd = bwd;
        }
        true
    }
}
