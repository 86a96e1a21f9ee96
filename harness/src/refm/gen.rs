//! Generators of grids and puzzles. They use only the reference models.
use super::grid::*;
use super::group::*;
use super::solve;
use crate::engine::base_rng;
use crate::rng::Rng;
use std::cell::RefCell;
use std::sync::OnceLock;

/// A random solved grid.
pub fn solved(r: &mut Rng) -> G {
    loop {
        // three independent diagonal boxes, completed with random choices
        let mut g = [0; 81];
        for b in [0, 4, 8] {
            let mut d = [1, 2, 3, 4, 5, 6, 7, 8, 9];
            r.shuffle(&mut d);
            for (k, &c) in houses()[18 + b].iter().enumerate() {
                g[c] = d[k];
            }
        }
        if let Some(s) = solve::random_solution(&g, r) {
            return Tr::random(r).apply(&s);
        }
    }
}

/// Removes clues in random order as long as the solution stays unique.
pub fn minimise(puzzle: &G, r: &mut Rng) -> G {
    let mut g = *puzzle;
    let mut order: Vec<usize> = (0..81).filter(|&c| g[c] != 0).collect();
    r.shuffle(&mut order);
    for c in order {
        let d = g[c];
        // unique without c  <=>  no completion has another digit at c
        g[c] = 0;
        let mut allowed = [solve::ALL; 81];
        allowed[c] = solve::ALL & !(1 << d);
        match solve::solutions_with(&g, &allowed, 1) {
            Ok(v) if v.is_empty() => (),
            _ => g[c] = d,
        }
    }
    g
}

fn lines(text: &'static str) -> Vec<G> {
    text.lines().filter_map(from_line).collect()
}

/// Uniquely solvable puzzles that need a lot of search, and 17-clue puzzles.
pub fn hard() -> &'static Vec<G> {
    static H: OnceLock<Vec<G>> = OnceLock::new();
    H.get_or_init(|| lines(include_str!("../../data/hard.txt")))
}

/// Solved grids with non-trivial automorphisms.
pub fn automorphic() -> &'static Vec<G> {
    static H: OnceLock<Vec<G>> = OnceLock::new();
    H.get_or_init(|| lines(include_str!("../../data/automorphic.txt")))
}

#[derive(Clone)]
pub struct Base {
    pub sol: G,
    pub minimal: G,
}

pub const GROUP: u64 = 32;

/// The base shared by the cases of a group, computed once per thread.
pub fn base(seed: u64, id: &'static str, group: u64) -> Base {
    thread_local! {
        static CACHE: RefCell<Option<(u64, &'static str, u64, Base)>> = const { RefCell::new(None) };
    }
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if let Some((s, i, g, b)) = &*c {
            if *s == seed && *i == id && *g == group {
                return b.clone();
            }
        }
        let mut r = base_rng(seed, id, group);
        let sol = if r.chance(1, 8) && !automorphic().is_empty() {
            let g = *r.pick(automorphic());
            Tr::random(&mut r).apply(&g)
        } else {
            solved(&mut r)
        };
        let minimal = minimise(&sol, &mut r);
        let b = Base { sol, minimal };
        *c = Some((seed, id, group, b.clone()));
        b
    })
}

pub fn drop_clues(g: &G, k: usize, r: &mut Rng) -> G {
    let mut g = *g;
    let mut cells: Vec<usize> = (0..81).filter(|&c| g[c] != 0).collect();
    r.shuffle(&mut cells);
    for &c in cells.iter().take(k) {
        g[c] = 0;
    }
    g
}

pub fn add_clues(g: &G, sol: &G, k: usize, r: &mut Rng) -> G {
    let mut g = *g;
    let mut cells: Vec<usize> = (0..81).filter(|&c| g[c] == 0).collect();
    r.shuffle(&mut cells);
    for &c in cells.iter().take(k) {
        g[c] = sol[c];
    }
    g
}

fn legal(g: &G, c: usize, d: u8) -> bool {
    peers()[c].iter().all(|&p| g[p] != d)
}

/// Enters a digit that does not clash directly but differs from `sol`.
pub fn wrong_entry(g: &G, sol: &G, r: &mut Rng) -> Option<G> {
    let mut cells: Vec<usize> = (0..81).filter(|&c| g[c] == 0).collect();
    r.shuffle(&mut cells);
    for c in cells {
        let ds: Vec<u8> = (1..=9).filter(|&d| d != sol[c] && legal(g, c, d)).collect();
        if !ds.is_empty() {
            let mut t = *g;
            t[c] = *r.pick(&ds);
            return Some(t);
        }
    }
    None
}

pub fn random_clues(n: usize, r: &mut Rng) -> G {
    let mut g = [0; 81];
    for _ in 0..n {
        let c = r.below(81);
        let ds: Vec<u8> = (1..=9).filter(|&d| legal(&g, c, d)).collect();
        if g[c] == 0 && !ds.is_empty() {
            g[c] = *r.pick(&ds);
        }
    }
    g
}

pub const KINDS: &[(&str, usize)] = &[
    ("minimal", 10),
    ("minimal+clues", 8),
    ("minimal-few", 12),
    ("minimal-many", 5),
    ("solved-emptied", 6),
    ("digits-emptied", 6),
    ("houses-emptied", 6),
    ("wrong-entry", 10),
    ("wrong-clue", 6),
    ("direct-conflict", 4),
    ("sparse", 5),
    ("random-clues", 4),
    ("hard", 9),
    ("full", 2),
    ("full-wrong", 4),
    ("hard-fewer", 5),
    ("hard-wrong", 6),
    ("mixed-solutions", 6),
    ("one-region", 3),
    ("two-digits-left", 3),
];

/// A puzzle of a random kind. `kind` may restrict the choice.
pub fn puzzle(b: &Base, r: &mut Rng, kinds: Option<&[&str]>) -> Option<(G, &'static str)> {
    let w: Vec<usize> = KINDS
        .iter()
        .map(|(k, w)| if kinds.map_or(true, |ks| ks.contains(k)) { *w } else { 0 })
        .collect();
    let kind = KINDS[r.weighted(&w)].0;
    let g = match kind {
        "minimal" => b.minimal,
        "minimal+clues" => {
            let k = r.range(1, 25);
            add_clues(&b.minimal, &b.sol, k, r)
        }
        "minimal-few" => {
            let k = r.range(1, 4);
            drop_clues(&b.minimal, k, r)
        }
        "minimal-many" => {
            let k = r.range(5, 12);
            drop_clues(&b.minimal, k, r)
        }
        "solved-emptied" => {
            let k = r.range(1, 62);
            drop_clues(&b.sol, k, r)
        }
        "digits-emptied" => {
            let mut ds = [1, 2, 3, 4, 5, 6, 7, 8, 9];
            r.shuffle(&mut ds);
            let n = r.range(2, 4);
            let mut g = b.sol;
            for c in 0..81 {
                if ds[..n].contains(&g[c]) {
                    g[c] = 0;
                }
            }
            let k = r.below(12);
            let g = drop_clues(&g, k, r);
            let k = r.below(6);
            add_clues(&g, &b.sol, k, r)
        }
        "houses-emptied" => {
            let mut g = b.sol;
            for _ in 0..r.range(2, 5) {
                for &c in r.pick(houses()) {
                    g[c] = 0;
                }
            }
            let k = r.below(12);
            drop_clues(&g, k, r)
        }
        "wrong-entry" => {
            let k = r.below(10);
            let g = add_clues(&b.minimal, &b.sol, k, r);
            wrong_entry(&g, &b.sol, r)?
        }
        "wrong-clue" => {
            let mut g = b.minimal;
            let cells: Vec<usize> = (0..81).filter(|&c| g[c] != 0).collect();
            let c = *r.pick(&cells);
            g[c] = 0;
            let ds: Vec<u8> = (1..=9).filter(|&d| d != b.sol[c] && legal(&g, c, d)).collect();
            if ds.is_empty() {
                return None;
            }
            g[c] = *r.pick(&ds);
            g
        }
        "direct-conflict" => {
            let k = r.below(40);
            let mut g = add_clues(&b.minimal, &b.sol, k, r);
            if r.chance(1, 3) {
                let k = r.below(20);
                g = drop_clues(&b.minimal, k, r);
            }
            let filled: Vec<usize> = (0..81).filter(|&c| g[c] != 0).collect();
            if filled.is_empty() {
                return None;
            }
            let a = *r.pick(&filled);
            let p = *r.pick(&peers()[a]);
            g[p] = g[a];
            g
        }
        "sparse" => {
            let n = r.below(17);
            random_clues(n, r)
        }
        "random-clues" => {
            let n = r.range(17, 40);
            random_clues(n, r)
        }
        "hard" | "hard-fewer" | "hard-wrong" => {
            let h = *r.pick(hard());
            let h = Tr::random(r).apply(&h);
            match kind {
                "hard" => h,
                "hard-fewer" => {
                    let k = r.range(1, 3);
                    drop_clues(&h, k, r)
                }
                _ => {
                    let s = solve::unique(&h)?;
                    let k = r.below(6);
                    let g = add_clues(&h, &s, k, r);
                    wrong_entry(&g, &s, r)?
                }
            }
        }
        "full" => b.sol,
        "full-wrong" => {
            let mut g = b.sol;
            let (a, c) = (r.below(81), r.below(81));
            match r.below(5) {
                0 => g.swap(a, c),
                1 => g[a] = r.range(1, 9) as u8,
                // damaged so that only some kinds of houses show it
                k => {
                    g = near_solved(b, r).0;
                    if k == 4 {
                        let k = r.range(1, 12);
                        g = drop_clues(&g, k, r);
                    }
                }
            }
            g
        }
        "mixed-solutions" => {
            let k = r.range(2, 8);
            let g = drop_clues(&b.minimal, k, r);
            let other = solve::random_solution(&g, r)?;
            let mut diff: Vec<usize> = (0..81).filter(|&c| other[c] != b.sol[c]).collect();
            r.shuffle(&mut diff);
            let mut t = g;
            for (i, &c) in diff.iter().take(r.range(2, 10)).enumerate() {
                let d = if i % 2 == 0 { other[c] } else { b.sol[c] };
                if t[c] == 0 && legal(&t, c, d) {
                    t[c] = d;
                }
            }
            t
        }
        "one-region" => {
            let mut g = [0; 81];
            for _ in 0..r.range(1, 3) {
                for &c in r.pick(houses()) {
                    g[c] = b.sol[c];
                }
            }
            if r.chance(1, 2) {
                let band = r.below(3);
                for c in 0..81 {
                    if row(c) / 3 == band {
                        g[c] = b.sol[c];
                    }
                }
            }
            g
        }
        "two-digits-left" => {
            let mut ds = [1, 2, 3, 4, 5, 6, 7, 8, 9];
            r.shuffle(&mut ds);
            let n = r.range(1, 6);
            let mut g = [0; 81];
            for c in 0..81 {
                if ds[..n].contains(&b.sol[c]) {
                    g[c] = b.sol[c];
                }
            }
            let k = r.below(10);
            add_clues(&g, &b.sol, k, r)
        }
        _ => unreachable!(),
    };
    Some((g, kind))
}

/// Full grids that satisfy some kinds of houses only.
pub fn near_solved(b: &Base, r: &mut Rng) -> (G, &'static str) {
    let mut g = b.sol;
    match r.below(16) {
        0 => (g, "solved"),
        1 => {
            // two cells of a row swapped: rows stay complete
            let y = r.below(9);
            let (a, c) = (r.below(9), r.below(9));
            g.swap(y * 9 + a, y * 9 + c);
            (g, "swap-in-row")
        }
        2 => {
            let x = r.below(9);
            let (a, c) = (r.below(9), r.below(9));
            g.swap(a * 9 + x, c * 9 + x);
            (g, "swap-in-column")
        }
        3 => {
            let h = houses()[18 + r.below(9)];
            g.swap(h[r.below(9)], h[r.below(9)]);
            (g, "swap-in-block")
        }
        4 => {
            // whole rows permuted: rows and columns stay complete, blocks mostly not
            let mut p = [0, 1, 2, 3, 4, 5, 6, 7, 8];
            if r.chance(1, 2) {
                p.swap(r.below(9), r.below(9));
            } else {
                r.shuffle(&mut p);
            }
            let mut t = [0; 81];
            for c in 0..81 {
                t[c] = g[p[c / 9] * 9 + c % 9];
            }
            (t, "latin-square")
        }
        5 => {
            let mut p = [0, 1, 2, 3, 4, 5, 6, 7, 8];
            if r.chance(1, 2) {
                p.swap(r.below(9), r.below(9));
            } else {
                r.shuffle(&mut p);
            }
            let mut t = [0; 81];
            for c in 0..81 {
                t[c] = g[(c / 9) * 9 + p[c % 9]];
            }
            (t, "latin-square")
        }
        6 => {
            // rows and blocks complete, two columns not: swap two cells of the same minirow
            let y = r.below(9);
            let s = r.below(3) * 3;
            let (a, c) = (r.below(3), r.below(3));
            g.swap(y * 9 + s + a, y * 9 + s + c);
            (g, "columns-only-broken")
        }
        7 => {
            let x = r.below(9);
            let s = r.below(3) * 3;
            let (a, c) = (r.below(3), r.below(3));
            g.swap((s + a) * 9 + x, (s + c) * 9 + x);
            (g, "rows-only-broken")
        }
        8 => {
            let c = r.below(81);
            g[c] = r.range(1, 9) as u8;
            (g, "one-cell-changed")
        }
        9 => {
            for _ in 0..r.range(1, 3) {
                g[r.below(81)] = 0;
            }
            (g, "cells-emptied")
        }
        10 => {
            // one digit replaced by another everywhere, or two digits exchanged in one house
            let (a, c) = (r.range(1, 9) as u8, r.range(1, 9) as u8);
            if r.chance(1, 2) {
                for x in &mut g {
                    if *x == a {
                        *x = c;
                    }
                }
            } else {
                for &k in r.pick(houses()) {
                    if g[k] == a {
                        g[k] = c;
                    } else if g[k] == c {
                        g[k] = a;
                    }
                }
            }
            (g, "digit-replaced")
        }
        11 => {
            // empty cell compensated by duplicate
            let h = *r.pick(houses());
            g[h[r.below(9)]] = 0;
            (g, "cells-emptied")
        }
        12 => {
            // digits renamed, several of them to the same one
            let map: [u8; 9] = match r.below(3) {
                // some agree with 1..=9 in the sum, the product, the sum of squares or the xor
                0 => {
                    let mut m = *r.pick(digit_collisions());
                    if r.chance(1, 2) {
                        r.shuffle(&mut m);
                    }
                    m
                }
                1 => {
                    let mut m = [1, 2, 3, 4, 5, 6, 7, 8, 9];
                    let i = r.below(9);
                    m[i] = r.range(1, 9) as u8;
                    m
                }
                _ => std::array::from_fn(|_| r.range(1, 9) as u8),
            };
            for x in &mut g {
                *x = map[*x as usize - 1];
            }
            (g, "digits-merged")
        }
        13 => {
            // two digits of one house moved by one in opposite directions: all sums may stay the same
            let h = *r.pick(houses());
            for _ in 0..r.range(1, 3) {
                let (a, c) = (h[r.below(9)], h[r.below(9)]);
                if a != c && g[a] < 9 && g[c] > 1 {
                    g[a] += 1;
                    g[c] -= 1;
                }
            }
            (g, "sum-kept-in-house")
        }
        14 => {
            // a rectangle changed by +k -k -k +k: sums of its rows and columns stay the same
            let (y1, y2, x1, x2) = (r.below(9), r.below(9), r.below(9), r.below(9));
            let k = r.range(1, 8) as u8;
            if y1 != y2 && x1 != x2 {
                let up = [y1 * 9 + x1, y2 * 9 + x2];
                let down = [y1 * 9 + x2, y2 * 9 + x1];
                if up.iter().all(|&c| g[c] + k <= 9) && down.iter().all(|&c| g[c] > k) {
                    up.iter().for_each(|&c| g[c] += k);
                    down.iter().for_each(|&c| g[c] -= k);
                }
            }
            (g, "sum-kept-in-rectangle")
        }
        _ => (arbitrary_grid(r), "arbitrary"),
    }
}

/// Nine digits, not all different, that agree with 1..=9 in some common checksum.
fn digit_collisions() -> &'static [[u8; 9]] {
    static C: OnceLock<Vec<[u8; 9]>> = OnceLock::new();
    C.get_or_init(|| {
        fn rec(m: &mut Vec<u8>, from: u8, out: &mut Vec<[u8; 9]>) {
            if m.len() == 9 {
                let m: [u8; 9] = m[..].try_into().unwrap();
                let sum = |f: fn(u64) -> u64| m.iter().map(|&d| f(d as u64)).sum::<u64>();
                let squares = sum(|d| d * d) == 285;
                let product = m.iter().map(|&d| d as u64).product::<u64>() == 362_880;
                let xor = m.iter().fold(0, |a, &d| a ^ d) == 1;
                let add = sum(|d| d) == 45;
                if [squares, product, xor, add].iter().filter(|b| **b).count() >= 2 && m != [1, 2, 3, 4, 5, 6, 7, 8, 9] {
                    out.push(m);
                }
                return;
            }
            for d in from..=9 {
                m.push(d);
                rec(m, d, out);
                m.pop();
            }
        }
        let mut out = vec![];
        rec(&mut vec![], 1, &mut out);
        out
    })
}

/// A grid of arbitrary entries, mostly not a valid sudoku.
pub fn arbitrary_grid(r: &mut Rng) -> G {
    let mut g = [0; 81];
    match r.below(5) {
        0 => {
            for c in &mut g {
                *c = r.below(10) as u8;
            }
        }
        1 => {
            let fill = r.below(82);
            for c in &mut g {
                if r.below(81) < fill {
                    *c = r.range(1, 9) as u8;
                }
            }
        }
        2 => {
            let d = r.below(10) as u8;
            g = [d; 81];
            for _ in 0..r.below(4) {
                g[r.below(81)] = r.below(10) as u8;
            }
        }
        3 => {
            for _ in 0..r.below(4) {
                g[r.below(81)] = r.range(1, 9) as u8;
            }
        }
        _ => {
            for (i, c) in g.iter_mut().enumerate() {
                *c = (i % 10) as u8;
            }
            let k = r.below(10);
            g.rotate_left(k);
        }
    }
    g
}
