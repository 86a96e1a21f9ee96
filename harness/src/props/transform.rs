//! T01, T02: shuffling; T03, T04: canonical form and automorphism count.
use super::solver::{mk, to_safe, GridCase};
use crate::engine::*;
use crate::ensure;
use crate::refm::{gen, grid::*, group::*, solve};
use crate::rng::Rng;
use sudoku::Sudoku;

// ---------------------------------------------------------------------------------------------
// T01

pub struct Shuffle;

#[derive(Clone)]
pub struct ShuffleCase {
    g: G,
    seed: u64,
    kind: &'static str,
}

impl Prop for Shuffle {
    type Case = ShuffleCase;
    fn id(&self) -> &'static str {
        "T01"
    }
    fn rule(&self) -> &'static str {
        "One case = one grid of any kind (puzzles, solved, contradictory, arbitrary entries) and one seed of the thread's random generator; the grid is shuffled \
         8 times in a row by `shuffle` and `shuffled`, and every step must be an isomorphism. Non-trivial: at least 9 cells are filled."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["thread_rng is the only source of randomness of shuffle; it is seeded by the harness"]
    }
    fn quota(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 120_000,
            Tier::Thorough => 4_000_000,
        }
    }
    fn chunk(&self) -> u64 {
        gen::GROUP
    }
    fn required_classes(&self) -> Vec<&'static str> {
        vec!["minimal", "full", "direct-conflict", "arbitrary", "sparse", "transposed", "not-transposed"]
    }
    fn gen(&self, seed: u64, index: u64) -> Option<ShuffleCase> {
        let b = gen::base(seed, "T01", index / gen::GROUP);
        let mut r = Rng::for_case(seed, "T01", index);
        let (g, kind) = match r.below(5) {
            0 => (gen::arbitrary_grid(&mut r), "arbitrary"),
            1 => (b.sol, "full"),
            _ => gen::puzzle(&b, &mut r, None)?,
        };
        Some(ShuffleCase { g, seed: r.next(), kind })
    }
    fn check(&self, c: &ShuffleCase, cx: &mut Ctx) -> Result<(), Fail> {
        cx.label(c.kind);
        cx.nontrivial_if(n_clues(&c.g) >= 9);
        let s = mk(&c.g)?;
        let seed = c.seed;
        let outs: Vec<G> = in_seeded_thread(seed, move || {
            sut("shuffle", move || {
                let mut v = vec![];
                let mut t = s;
                for i in 0..8 {
                    if i % 2 == 0 {
                        t.shuffle();
                    } else {
                        t = t.shuffled();
                    }
                    v.push(t.to_bytes());
                }
                v
            })
        })?;
        let mut prev = c.g;
        for (i, g) in outs.iter().enumerate() {
            ensure!(g.iter().all(|&d| d <= 9), "shuffle produced an entry above 9: {}", to_safe(g));
            match find_isomorphism(&prev, g) {
                None => {
                    return fail(format!(
                        "shuffle turned {} into {}, which is not an image under relabelling, permuting lines and chutes and transposing (step {})",
                        to_safe(&prev), to_safe(g), i
                    ))
                }
                Some(t) => cx.label(if t.transposed { "transposed" } else { "not-transposed" }),
            }
            prev = *g;
        }
        cx.labels.sort();
        cx.labels.dedup();
        Ok(())
    }
    fn shrink(&self, c: &ShuffleCase) -> Vec<ShuffleCase> {
        let mut v: Vec<_> = shrink_clues(&c.g).into_iter().map(|g| ShuffleCase { g, seed: c.seed, kind: "shrunk" }).collect();
        for s in 0..3 {
            if c.seed > 10 {
                v.push(ShuffleCase { seed: s, ..c.clone() });
            }
        }
        v
    }
    fn enc(&self, c: &ShuffleCase) -> String {
        format!("{} seed={}", to_line(&c.g), c.seed)
    }
    fn dec(&self, s: &str) -> Option<ShuffleCase> {
        let (g, seed) = s.split_once(" seed=")?;
        Some(ShuffleCase { g: from_line(g)?, seed: seed.parse().ok()?, kind: "replay" })
    }
}

// ---------------------------------------------------------------------------------------------
// T02

pub struct ShuffleReach;

#[derive(Clone, Debug, PartialEq)]
pub enum ReachCase {
    /// all single, paired and tripled choices over `draws` shuffles of the grid
    Choices { g: G, seed: u64, draws: usize, method: bool },
    /// every permutation of the digits occurs
    AllDigits { seed: u64, draws: usize },
    /// every combination of the position choices occurs
    AllPositions { seed: u64, draws: usize },
}

fn perm3_index(p: [usize; 3]) -> usize {
    PERM3.iter().position(|&x| x == p).unwrap()
}

/// orientation, bands, stacks, rows of the 3 bands (as they end up), columns of the 3 stacks
fn slots(transposed: bool, rows: &[u8; 9], cols: &[u8; 9]) -> [usize; 9] {
    let mut s = [0; 9];
    s[0] = transposed as usize;
    for (k, p) in [rows, cols].into_iter().enumerate() {
        s[1 + k] = perm3_index([0, 1, 2].map(|i| p[i * 3] as usize / 3));
        for i in 0..3 {
            s[3 + 3 * k + i] = perm3_index([0, 1, 2].map(|j| p[i * 3 + j] as usize % 3));
        }
    }
    s
}
const SLOT_NAMES: [&str; 9] = [
    "orientation", "bands", "stacks", "rows of band 1", "rows of band 2", "rows of band 3", "columns of stack 1",
    "columns of stack 2", "columns of stack 3",
];
fn slot_size(i: usize) -> usize {
    if i == 0 { 2 } else { 6 }
}

fn parity(digits: &[u8; 10]) -> usize {
    let mut n = 0;
    for a in 1..10 {
        for b in a + 1..10 {
            n += (digits[a] > digits[b]) as usize;
        }
    }
    n % 2
}

/// A solved grid, or a part of one, that only the identity maps to itself.
fn asymmetric(r: &mut Rng, full: bool) -> G {
    loop {
        let mut g = gen::solved(r);
        if !full {
            // rows with different numbers of clues are recognised quickly
            let mut counts = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
            r.shuffle(&mut counts);
            for y in 0..9 {
                let mut xs = [0, 1, 2, 3, 4, 5, 6, 7, 8];
                r.shuffle(&mut xs);
                for &x in &xs[..9 - counts[y]] {
                    g[y * 9 + x] = 0;
                }
            }
        }
        if (1..=9).all(|d| g.contains(&d)) && isomorphisms(&g, &g, 2).len() == 1 {
            return g;
        }
    }
}

/// rows of 9 different weights; all columns differ; column weights are not all different
const POSITION_MARKER: [[u8; 9]; 9] = [
    [1, 2, 3, 4, 5, 6, 7, 8, 9],
    [1, 2, 3, 4, 5, 6, 7, 8, 0],
    [1, 2, 3, 4, 5, 6, 7, 0, 0],
    [1, 0, 3, 4, 5, 6, 7, 0, 0],
    [0, 2, 3, 4, 0, 6, 7, 0, 0],
    [1, 2, 0, 4, 0, 6, 0, 0, 0],
    [0, 0, 3, 4, 5, 0, 0, 0, 0],
    [0, 0, 0, 4, 5, 0, 0, 0, 0],
    [0, 0, 0, 4, 0, 0, 0, 0, 0],
];

struct Marker {
    row_of_weight: [u8; 10],
    col_of_mask: [u8; 512],
    row_weights_mask: u16,
}
impl Marker {
    fn new() -> Marker {
        let m = POSITION_MARKER;
        let mut k = Marker { row_of_weight: [99; 10], col_of_mask: [99; 512], row_weights_mask: 0 };
        for y in 0..9 {
            let w = (0..9).filter(|&x| m[y][x] != 0).count();
            assert!(k.row_of_weight[w] == 99);
            k.row_of_weight[w] = y as u8;
            k.row_weights_mask |= 1 << w;
        }
        let mut cw = 0u16;
        for x in 0..9 {
            let mask = (0..9).filter(|&y| m[y][x] != 0).fold(0usize, |a, y| a | 1 << y);
            assert!(k.col_of_mask[mask] == 99);
            k.col_of_mask[mask] = x as u8;
            cw |= 1 << mask.count_ones();
        }
        assert!(cw != k.row_weights_mask);
        k
    }
    /// the position choices and the rank of the digit permutation
    fn decode(&self, g: &G) -> Option<([usize; 9], usize)> {
        'o: for transposed in [false, true] {
            let at = |y: usize, x: usize| if transposed { g[x * 9 + y] } else { g[y * 9 + x] };
            // in the image (transposed back) line y is a row of the marker
            let mut rows = [0u8; 9];
            let mut seen = 0u16;
            for y in 0..9 {
                let mut w = 0;
                for x in 0..9 {
                    w += (at(y, x) != 0) as usize;
                }
                if self.row_of_weight[w] == 99 || seen >> w & 1 == 1 {
                    continue 'o;
                }
                seen |= 1 << w;
                rows[y] = self.row_of_weight[w];
            }
            let mut cols = [0u8; 9];
            for x in 0..9 {
                let mut mask = 0usize;
                for y in 0..9 {
                    mask |= ((at(y, x) != 0) as usize) << rows[y];
                }
                let c = self.col_of_mask[mask];
                if c == 99 {
                    return None;
                }
                cols[x] = c;
            }
            for p in [&rows, &cols] {
                for i in 0..3 {
                    if p[3 * i] / 3 != p[3 * i + 1] / 3 || p[3 * i] / 3 != p[3 * i + 2] / 3 {
                        return None;
                    }
                }
            }
            // image = transpose of (rows, cols) applied: as a transformation that transposes
            // first, the roles of rows and columns change
            // row 0 of the marker has the digits 1 to 9
            let full = (0..9).find(|&y| rows[y] == 0)?;
            let mut img = [0usize; 10];
            for x in 0..9 {
                img[cols[x] as usize + 1] = at(full, x) as usize;
            }
            let s = if transposed { slots(true, &cols, &rows) } else { slots(false, &rows, &cols) };
            return Some((s, rank(&img)?));
        }
        None
    }
}

/// Rank of the permutation img[1..=9] of 1..=9.
fn rank(img: &[usize; 10]) -> Option<usize> {
    let mut rank = 0;
    let mut used = 0u16;
    for k in 1..=9 {
        if img[k] < 1 || img[k] > 9 || used >> img[k] & 1 == 1 {
            return None;
        }
        let smaller = (img[k] - 1) - (used & ((1 << img[k]) - 1)).count_ones() as usize;
        rank = rank * (10 - k) + smaller;
        used |= 1 << img[k];
    }
    Some(rank)
}

impl ShuffleReach {
    fn choices(&self, g: &G, seed: u64, draws: usize, method: bool, cx: &mut Ctx) -> Result<(), Fail> {
        let s = mk(g)?;
        let outs: Vec<G> = in_seeded_thread(seed, move || {
            sut("shuffle", move || {
                (0..draws)
                    .map(|_| {
                        if method {
                            s.shuffled().to_bytes()
                        } else {
                            let mut t = s;
                            t.shuffle();
                            t.to_bytes()
                        }
                    })
                    .collect()
            })
        })?;
        cx.evals = draws as u64;
        // slots 0..9 as above, slot 9: parity of the digit permutation
        let mut pair = vec![[[0u32; 36]; 10]; 10];
        let mut triple = vec![0u32; 10 * 10 * 10 * 216];
        let mut digit = [[0u32; 10]; 10];
        let mut digit_pair = vec![0u32; 10_000];
        let mut digit_slot = vec![[[[0u32; 6]; 10]; 10]; 10];
        for out in &outs {
            let Some(t) = find_isomorphism(g, out) else {
                return fail(format!("shuffle gave {}, not an image of the grid", to_safe(out)));
            };
            cx.distinct.push(crate::rng::mix_str(&to_line(out)));
            let s9 = slots(t.transposed, &t.rows, &t.cols);
            let mut s = [0; 10];
            s[..9].copy_from_slice(&s9);
            s[9] = parity(&t.digits);
            for i in 0..10 {
                for j in 0..10 {
                    pair[i][j][s[i] * 6 + s[j]] += 1;
                    for k in 0..10 {
                        triple[((i * 10 + j) * 10 + k) * 216 + (s[i] * 6 + s[j]) * 6 + s[k]] += 1;
                    }
                }
            }
            for a in 1..10 {
                let x = t.digits[a] as usize;
                digit[a][x] += 1;
                for b in 1..10 {
                    digit_pair[((a * 10 + b) * 10 + x) * 10 + t.digits[b] as usize] += 1;
                }
                for i in 0..10 {
                    digit_slot[a][x][i][s[i]] += 1;
                }
            }
        }
        let size = |i: usize| if i == 9 { 2 } else { slot_size(i) };
        let name = |i: usize| if i == 9 { "parity of the digit permutation" } else { SLOT_NAMES[i] };
        let perm = |i: usize, v: usize| if i == 0 || i == 9 { format!("{}", v) } else { format!("{:?}", PERM3[v]) };
        for i in 0..10 {
            for v in 0..size(i) {
                ensure!(pair[i][i][v * 7] > 0, "{} draws: choice {} of the {} never occurs", draws, perm(i, v), name(i));
            }
        }
        for a in 1..10 {
            for x in 1..10 {
                ensure!(digit[a][x] > 0, "{} draws: digit {} never becomes {}", draws, a, x);
            }
        }
        for i in 0..10 {
            for j in 0..i {
                for v in 0..size(i) {
                    for w in 0..size(j) {
                        ensure!(
                            pair[i][j][v * 6 + w] > 0,
                            "{} draws: choice {} of the {} never occurs together with choice {} of the {}",
                            draws, perm(i, v), name(i), perm(j, w), name(j)
                        );
                        for k in 0..j {
                            for u in 0..size(k) {
                                ensure!(
                                    triple[((i * 10 + j) * 10 + k) * 216 + (v * 6 + w) * 6 + u] > 0,
                                    "{} draws: choices {} of the {}, {} of the {} and {} of the {} never occur together",
                                    draws, perm(i, v), name(i), perm(j, w), name(j), perm(k, u), name(k)
                                );
                            }
                        }
                    }
                }
            }
        }
        for a in 1..10 {
            for x in 1..10 {
                for b in 1..10 {
                    for y in 1..10 {
                        if a != b && x != y {
                            ensure!(
                                digit_pair[((a * 10 + b) * 10 + x) * 10 + y] > 0,
                                "{} draws: {} -> {} and {} -> {} never occur together", draws, a, x, b, y
                            );
                        }
                    }
                }
                for i in 0..10 {
                    for v in 0..size(i) {
                        ensure!(
                            digit_slot[a][x][i][v] > 0,
                            "{} draws: {} -> {} never occurs with choice {} of the {}", draws, a, x, perm(i, v), name(i)
                        );
                    }
                }
            }
        }
        Ok(())
    }

    /// Draws in 8 threads; every draw marks a combination.
    fn cover(
        &self, g: &G, seed: u64, draws: usize, total: usize, what: &str, decode: &(dyn Fn(&G) -> Option<(usize, Option<(usize, u64)>)> + Sync), cx: &mut Ctx,
    ) -> Result<(), Fail> {
        use std::sync::atomic::{AtomicU64, AtomicU8, Ordering};
        let seen: Vec<AtomicU8> = (0..total).map(|_| AtomicU8::new(0)).collect();
        // for each digit permutation, the position choices it occurred with
        let joint: Vec<AtomicU64> = (0..362_880).map(|_| AtomicU64::new(0)).collect();
        let s = mk(g)?;
        let res: Vec<Result<(), Fail>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..8u64)
                .map(|t| {
                    let (seen, joint) = (&seen, &joint);
                    sc.spawn(move || {
                        getrandom::set_thread_seed(crate::rng::mix(seed.wrapping_add(t)));
                        sut("shuffle", move || {
                            for _ in 0..draws / 8 {
                                let out = s.shuffled().to_bytes();
                                match decode(&out) {
                                    Some((k, with)) => {
                                        seen[k].store(1, Ordering::Relaxed);
                                        if let Some((rank, mask)) = with {
                                            joint[rank].fetch_or(mask, Ordering::Relaxed);
                                        }
                                    }
                                    None => return Err(out),
                                }
                            }
                            Ok(())
                        })
                        .and_then(|r| match r {
                            Ok(()) => Ok(()),
                            Err(out) => fail(format!("shuffle turned {} into {}, not an image of it", to_safe(g), to_safe(&out))),
                        })
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for r in res {
            r?;
        }
        let n = seen.iter().filter(|x| x.load(Ordering::Relaxed) != 0).count();
        cx.evals = draws as u64;
        cx.label(if total == 362_880 { "all-digit-permutations" } else { "all-position-choices" });
        cx.distinct.extend((0..n as u64).map(|i| crate::rng::mix(i ^ (total as u64) << 40)));
        if total != 362_880 {
            for i in 0..9 {
                for v in 0..slot_size(i) {
                    let n = joint.iter().filter(|m| m.load(Ordering::Relaxed) >> (i * 6 + v) & 1 == 1).count();
                    ensure!(
                        n == 362_880,
                        "{} draws: only {} of the 362880 digit permutations occurred together with choice {} of the {}",
                        draws, n, if i == 0 { v.to_string() } else { format!("{:?}", PERM3[v]) }, SLOT_NAMES[i]
                    );
                }
            }
        }
        ensure!(n == total, "only {} of the {} {} occurred in {} draws", n, total, what, draws);
        Ok(())
    }
}

impl Prop for ShuffleReach {
    type Case = ReachCase;
    fn id(&self) -> &'static str {
        "T02"
    }
    fn rule(&self) -> &'static str {
        "One case = many shuffles of one asymmetric grid, each decoded to the transformation drawn: (a) every single, paired and tripled choice of orientation, band, stack, row \
         and column permutations, digit images and digit parity must occur; (b) all 9! digit permutations must occur; (c) all 2*6^8 position choices must occur, and all 9! digit permutations with each single position choice. \
         Evaluations are draws; distinct non-trivial are distinct images (a) and combinations covered (b, c)."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "thread_rng is the only source of randomness of shuffle; it is seeded by the harness",
            "draw numbers are chosen so that a uniform choice misses a combination with probability below 1e-7 in all",
        ]
    }
    fn quota(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 12,
            Tier::Thorough => 200,
        }
    }
    fn chunk(&self) -> u64 {
        1
    }
    fn required_classes(&self) -> Vec<&'static str> {
        vec!["all-digit-permutations", "all-position-choices", "choices"]
    }
    fn gen(&self, seed: u64, index: u64) -> Option<ReachCase> {
        let mut r = Rng::for_case(seed, "T02", index);
        Some(match index {
            0 => ReachCase::AllPositions { seed: r.next(), draws: 128_000_000 },
            1 => ReachCase::AllDigits { seed: r.next(), draws: 13_000_000 },
            _ => ReachCase::Choices { g: asymmetric(&mut r, index % 4 == 2), seed: r.next(), draws: 20_000, method: index % 2 == 0 },
        })
    }
    fn check(&self, c: &ReachCase, cx: &mut Ctx) -> Result<(), Fail> {
        match c {
            ReachCase::Choices { g, seed, draws, method } => {
                cx.label("choices");
                self.choices(g, *seed, *draws, *method, cx)
            }
            ReachCase::AllDigits { seed, draws } => {
                // digit d occurs d times
                let mut g = [0; 81];
                let mut n = 0;
                for d in 1..=9u8 {
                    for _ in 0..d {
                        g[n] = d;
                        n += 1;
                    }
                }
                let decode = |out: &G| {
                    let mut count = [0u8; 10];
                    for &d in out {
                        if d > 9 {
                            return None;
                        }
                        count[d as usize] += 1;
                    }
                    let mut img = [0usize; 10];
                    for d in 1..=9 {
                        let k = count[d] as usize;
                        if k == 0 || k > 9 || img[k] != 0 {
                            return None;
                        }
                        img[k] = d;
                    }
                    Some((rank(&img)?, None))
                };
                self.cover(&g, *seed, *draws, 362_880, "digit permutations", &decode, cx)
            }
            ReachCase::AllPositions { seed, draws } => {
                let mut g = [0; 81];
                for c in 0..81 {
                    g[c] = POSITION_MARKER[c / 9][c % 9];
                }
                let m = Marker::new();
                let decode = move |out: &G| {
                    let (s, rank) = m.decode(out)?;
                    let mask = (0..9).fold(0u64, |a, i| a | 1 << (i * 6 + s[i]));
                    Some(((1..9).fold(s[0], |a, i| a * 6 + s[i]), Some((rank, mask))))
                };
                self.cover(&g, *seed, *draws, 2 * 6usize.pow(8), "combinations of orientation, bands, stacks, rows and columns", &decode, cx)
            }
        }
    }
    fn shrink(&self, _: &ReachCase) -> Vec<ReachCase> {
        vec![]
    }
    fn enc(&self, c: &ReachCase) -> String {
        match c {
            ReachCase::Choices { g, seed, draws, method } => format!("choices {} {} {} {}", to_line(g), seed, draws, *method as u8),
            ReachCase::AllDigits { seed, draws } => format!("all-digits {} {}", seed, draws),
            ReachCase::AllPositions { seed, draws } => format!("all-positions {} {}", seed, draws),
        }
    }
    fn dec(&self, s: &str) -> Option<ReachCase> {
        let p: Vec<&str> = s.split_whitespace().collect();
        Some(match *p.first()? {
            "choices" if p.len() == 5 => {
                ReachCase::Choices { g: from_line(p[1])?, seed: p[2].parse().ok()?, draws: p[3].parse().ok()?, method: p[4] == "1" }
            }
            "all-digits" if p.len() == 3 => ReachCase::AllDigits { seed: p[1].parse().ok()?, draws: p[2].parse().ok()? },
            "all-positions" if p.len() == 3 => ReachCase::AllPositions { seed: p[1].parse().ok()?, draws: p[2].parse().ok()? },
            _ => return None,
        })
    }
}

// ---------------------------------------------------------------------------------------------
// T03, T04

pub struct Canonical {
    pub count: bool, // T04
}

impl Canonical {
    fn canon(&self, s: Sudoku) -> Result<Option<(G, usize)>, Fail> {
        Ok(sut("canonicalized", move || s.canonicalized())?.map(|(s, n)| (s.to_bytes(), n)))
    }
}

impl Prop for Canonical {
    type Case = GridCase;
    fn id(&self) -> &'static str {
        if self.count { "T04" } else { "T03" }
    }
    fn rule(&self) -> &'static str {
        if self.count {
            "One case = one solved grid or uniquely solvable puzzle (half of them with known non-trivial automorphisms, 2 to 648, randomly transformed), compared with the \
             brute-force number of transformations to the least form. Non-trivial: more than one automorphism."
        } else {
            "One case = one grid: solved grids (with and without automorphisms), uniquely solvable puzzles, and grids without a unique solution; for solved grids the image under a random \
             transformation as well. Non-trivial: uniquely solvable or solved."
        }
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the brute-force search over 2*3*6*1296 partial choices (the rest is forced) finds the least form"]
    }
    fn quota(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 300_000,
            Tier::Thorough => 1_500_000,
        }
    }
    fn required_classes(&self) -> Vec<&'static str> {
        if self.count {
            vec!["automorphic", "full", "puzzle", "count-1", "count-2", "count-3", "count-4", "count-6", "count-8", "count-9", "count-12", "count-18", "count-27", "count-36", "count-54", "count-72", "count-108", "count-162", "count-648"]
        } else {
            vec!["automorphic", "full", "puzzle", "ambiguous", "unsolvable", "conflicting", "count-1", "count-2"]
        }
    }
    fn gen(&self, seed: u64, index: u64) -> Option<GridCase> {
        let mut r = Rng::for_case(seed, self.id(), index);
        let symmetric = r.chance(1, 2);
        let sol = if symmetric {
            // all entries of the list in turn
            let list = gen::automorphic();
            Tr::random(&mut r).apply(&list[index as usize % list.len()])
        } else {
            gen::solved(&mut r)
        };
        if !self.count && r.chance(1, 6) {
            let b = gen::Base { sol, minimal: gen::minimise(&sol, &mut r) };
            let (g, _) = gen::puzzle(&b, &mut r, Some(&["minimal-few", "wrong-entry", "direct-conflict", "full-wrong", "wrong-clue", "sparse", "random-clues", "hard-fewer"]))?;
            return Some(GridCase { g, kind: "odd" });
        }
        Some(match r.below(3) {
            0 => {
                let p = gen::minimise(&sol, &mut r);
                let k = r.below(20);
                GridCase { g: gen::add_clues(&p, &sol, k, &mut r), kind: "puzzle" }
            }
            1 if r.chance(1, 4) => GridCase { g: Tr::random(&mut r).apply(r.pick(gen::hard())), kind: "puzzle" },
            _ => GridCase { g: sol, kind: if symmetric { "automorphic" } else { "full" } },
        })
    }
    fn check(&self, c: &GridCase, cx: &mut Ctx) -> Result<(), Fail> {
        let s = mk(&c.g)?;
        let solved = is_solved(&c.g);
        let sols = match solve::solutions(&c.g, 2) {
            Ok(v) => v,
            Err(_) => return Ok(()),
        };
        let got = self.canon(s)?;
        if sols.len() != 1 {
            cx.label(if !no_conflict(&c.g) {
                "conflicting"
            } else if sols.is_empty() {
                "unsolvable"
            } else {
                "ambiguous"
            });
            if !self.count {
                ensure!(got.is_none(), "canonicalized returned {:?} for a grid without a unique solution", got.map(|x| to_safe(&x.0)));
            }
            return Ok(());
        }
        cx.label(c.kind);
        let sol = sols[0];
        let canon = canonical(&sol);
        // all sizes that automorphism groups of sudokus have
        cx.label(match canon.trs.len() {
            1 => "count-1",
            2 => "count-2",
            3 => "count-3",
            4 => "count-4",
            6 => "count-6",
            8 => "count-8",
            9 => "count-9",
            12 => "count-12",
            18 => "count-18",
            27 => "count-27",
            36 => "count-36",
            54 => "count-54",
            72 => "count-72",
            108 => "count-108",
            162 => "count-162",
            648 => "count-648",
            _ => "count-other",
        });
        let Some((out, n)) = got else {
            return if self.count { Ok(()) } else { fail("canonicalized returned nothing for a uniquely solvable grid") };
        };
        if self.count {
            cx.nontrivial_if(canon.trs.len() > 1);
            ensure!(n == canon.trs.len(), "automorphism count {} returned, {} counted", n, canon.trs.len());
            return Ok(());
        }
        cx.nontrivial = true;
        if solved {
            ensure!(out == canon.least, "canonical form {} returned, least form is {}", to_safe(&out), to_line(&canon.least));
            let again = self.canon(mk(&out)?)?;
            ensure!(again.map(|x| x.0) == Some(out), "canonicalising {} again changes it", to_line(&out));
            // an image, derived from the grid so that the case is self-contained
            let mut r = Rng::new(crate::rng::mix_str(&to_line(&c.g)));
            let img = Tr::random(&mut r).apply(&c.g);
            let o = self.canon(mk(&img)?)?;
            ensure!(o.map(|x| x.0) == Some(out), "the image {} has another canonical form", to_line(&img));
        } else {
            let ok = canon.trs.iter().any(|t| t.apply(&c.g) == out);
            ensure!(
                ok,
                "{} was returned for the puzzle; it is not an image of it under a transformation that takes its solution to the canonical form {}",
                to_safe(&out), to_line(&canon.least)
            );
        }
        Ok(())
    }
    fn shrink(&self, c: &GridCase) -> Vec<GridCase> {
        let mut v = vec![];
        if let Some(sol) = solve::unique(&c.g) {
            if sol != c.g {
                v.push(GridCase { g: sol, kind: "shrunk" });
            }
        }
        v.extend(shrink_clues(&c.g).into_iter().map(|g| GridCase { g, kind: "shrunk" }));
        v
    }
    fn enc(&self, c: &GridCase) -> String {
        to_line(&c.g)
    }
    fn dec(&self, s: &str) -> Option<GridCase> {
        Some(GridCase { g: from_line(s)?, kind: "replay" })
    }
}
