//! G01: solved grids; G02, G03, G04: puzzles made from a source.
use super::solver::{mk, to_safe};
use crate::engine::*;
use crate::ensure;
use crate::refm::{gen, grid::*, solve};
use crate::rng::Rng;
use rand::{RngCore, SeedableRng};
use sudoku::{Sudoku, Symmetry};

// ---------------------------------------------------------------------------------------------
// random number generators handed to the crate

/// Repeats a few values, one of which is 0 (so that rejection sampling ends).
#[derive(Clone)]
struct Cycle(Vec<u64>, usize);
impl RngCore for Cycle {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.1 = (self.1 + 1) % self.0.len();
        self.0[self.1]
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        rand_core::impls::fill_bytes_via_next(self, dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

/// Every other number is at the edge of some range.
#[derive(Clone)]
struct Extreme(Rng);
impl RngCore for Extreme {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        let x = self.0.next();
        match self.0.below(10) {
            0 => 0,
            1 => !0,
            2 => x | 0xffff_ffff << 32,
            3 => x | 0xffff_ffff,
            4 => x >> self.0.below(64),
            5 => !(x >> self.0.below(64)),
            _ => x,
        }
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        rand_core::impls::fill_bytes_via_next(self, dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

const RNGS: &[&str] = &["own", "std", "chacha8", "chacha20", "step", "cycle", "zero", "extreme"];

fn make_rng(kind: &str, seed: u64) -> Box<dyn RngCore> {
    match kind {
        "std" => Box::new(rand::rngs::StdRng::seed_from_u64(seed)),
        "chacha8" => Box::new(rand_chacha::ChaCha8Rng::seed_from_u64(seed)),
        "chacha20" => Box::new(rand_chacha::ChaCha20Rng::seed_from_u64(seed)),
        // odd increment of full size: all residues occur
        "step" => Box::new(rand::rngs::mock::StepRng::new(seed, crate::rng::mix(seed) | 1 | 1 << 63)),
        "cycle" => {
            let mut r = Rng::new(seed);
            let n = r.range(1, 6);
            let mut v: Vec<u64> = (0..n).map(|_| r.next()).collect();
            v.push(0);
            Box::new(Cycle(v, 0))
        }
        "extreme" => Box::new(Extreme(Rng::new(seed))),
        "zero" => Box::new(Cycle(vec![0], 0)),
        _ => Box::new(Rng::new(seed)),
    }
}

fn rng_name(s: &str) -> Option<&'static str> {
    RNGS.iter().find(|k| **k == s).copied()
}

// ---------------------------------------------------------------------------------------------
// G01

pub struct Solved;

#[derive(Clone)]
pub enum SolvedCase {
    One { rng: &'static str, seed: u64 },
    Thread { seed: u64 },
    Variety { rng: &'static str, seed: u64, n: usize },
}

impl Prop for Solved {
    type Case = SolvedCase;
    fn id(&self) -> &'static str {
        "G01"
    }
    fn rule(&self) -> &'static str {
        "One case = one generator (eight kinds, among them low-entropy ones) and seed: the grid is generated several times under different thread-local randomness and after other \
         calls; or the thread's own generator; or a batch of 2000 seeds for the variety of digits per cell. Non-trivial: every case; distinct by kind and seed."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["generators on which rand's own sampling does not end (constant non-zero ones) are not used"]
    }
    fn quota(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 1_200_000,
            Tier::Thorough => 6_000_000,
        }
    }
    fn chunk(&self) -> u64 {
        64
    }
    fn required_classes(&self) -> Vec<&'static str> {
        let mut v = RNGS.to_vec();
        v.extend(["thread", "variety"]);
        v
    }
    fn gen(&self, seed: u64, index: u64) -> Option<SolvedCase> {
        let mut r = Rng::for_case(seed, "G01", index);
        let strong = ["own", "std", "chacha8", "chacha20"];
        Some(match index {
            _ if index % 5000 == 7 => SolvedCase::Variety { rng: r.pick(&strong), seed: r.next(), n: 2000 },
            _ if index % 8 == 3 => SolvedCase::Thread { seed: r.next() },
            _ => SolvedCase::One { rng: r.pick(RNGS), seed: if r.chance(1, 8) { r.below(50) as u64 } else { r.next() } },
        })
    }
    fn check(&self, c: &SolvedCase, cx: &mut Ctx) -> Result<(), Fail> {
        cx.nontrivial = true;
        match *c {
            SolvedCase::One { rng, seed } => {
                cx.label(rng);
                let run = |thread_seed: u64, before: bool| {
                    getrandom::set_thread_seed(thread_seed);
                    let mut g = make_rng(rng, seed);
                    if before {
                        let mut other = Rng::new(thread_seed);
                        sut("generate_solved_with_rng", || Sudoku::generate_solved_with_rng(&mut other))?;
                    }
                    let s = sut("generate_solved_with_rng", || Sudoku::generate_solved_with_rng(&mut *g))?;
                    Ok::<_, Fail>((s.to_bytes(), g.next_u64()))
                };
                let (a, next_a) = run(1, false)?;
                ensure!(is_solved(&a), "generate_solved_with_rng gave {}, which is not a solved sudoku", to_safe(&a));
                let (b, next_b) = run(2, true)?;
                ensure!(a == b, "equal generators gave {} and {}", to_safe(&a), to_safe(&b));
                ensure!(next_a == next_b, "equal generators were left in different states");
                if seed % 16 == 0 {
                    let (b, _) = in_seeded_thread(3, || run(3, seed % 32 == 0))?;
                    ensure!(a == b, "equal generators gave {} and {} in another thread", to_safe(&a), to_safe(&b));
                }
            }
            SolvedCase::Thread { seed } => {
                cx.label("thread");
                let (a, b) = in_seeded_thread(seed, || {
                    let a = sut("generate_solved", Sudoku::generate_solved)?;
                    let b = sut("generate_solved", Sudoku::generate_solved)?;
                    Ok::<_, Fail>((a.to_bytes(), b.to_bytes()))
                })?;
                for g in [&a, &b] {
                    ensure!(is_solved(g), "generate_solved gave {}, which is not a solved sudoku", to_safe(g));
                }
                ensure!(a != b, "generate_solved gave {} twice in a row", to_safe(&a));
            }
            SolvedCase::Variety { rng, seed, n } => {
                cx.label("variety");
                cx.evals = n as u64;
                let mut seen = [[false; 10]; 81];
                for i in 0..n as u64 {
                    let mut g = make_rng(rng, seed.wrapping_add(i));
                    let s = sut("generate_solved_with_rng", || Sudoku::generate_solved_with_rng(&mut *g))?.to_bytes();
                    ensure!(is_solved(&s), "generate_solved_with_rng gave {}, which is not a solved sudoku", to_safe(&s));
                    for c in 0..81 {
                        seen[c][s[c] as usize] = true;
                    }
                    cx.distinct.push(crate::rng::mix_str(&to_line(&s)));
                }
                for c in 0..81 {
                    for d in 1..=9 {
                        ensure!(seen[c][d] || n < 2000, "digit {} never occurs in cell {} of {} grids from different seeds", d, c, n);
                    }
                }
            }
        }
        Ok(())
    }
    fn shrink(&self, c: &SolvedCase) -> Vec<SolvedCase> {
        match *c {
            SolvedCase::One { rng, seed } if seed > 20 => (0..20).map(|seed| SolvedCase::One { rng, seed }).collect(),
            SolvedCase::Thread { seed } if seed > 20 => (0..20).map(|seed| SolvedCase::Thread { seed }).collect(),
            _ => vec![],
        }
    }
    fn enc(&self, c: &SolvedCase) -> String {
        match c {
            SolvedCase::One { rng, seed } => format!("one {} {}", rng, seed),
            SolvedCase::Thread { seed } => format!("thread own {}", seed),
            SolvedCase::Variety { rng, seed, n } => format!("variety {} {} {}", rng, seed, n),
        }
    }
    fn dec(&self, s: &str) -> Option<SolvedCase> {
        let p: Vec<&str> = s.split_whitespace().collect();
        let rng = rng_name(p.get(1)?)?;
        let seed = p.get(2)?.parse().ok()?;
        Some(match p[0] {
            "one" => SolvedCase::One { rng, seed },
            "thread" => SolvedCase::Thread { seed },
            "variety" => SolvedCase::Variety { rng, seed, n: p.get(3)?.parse().ok()? },
            _ => return None,
        })
    }
}

// ---------------------------------------------------------------------------------------------
// G02, G03, G04

/// The maps a symmetry stands for, besides the identity: (row, column) -> (row, column).
type Map = fn(usize, usize) -> (usize, usize);
const MIRROR_V: Map = |r, c| (r, 8 - c);
const MIRROR_H: Map = |r, c| (8 - r, c);
const DIAG: Map = |r, c| (c, r);
const ANTI: Map = |r, c| (8 - c, 8 - r);
const HALF: Map = |r, c| (8 - r, 8 - c);
const QUARTER: Map = |r, c| (c, 8 - r);
const THREE_QUARTER: Map = |r, c| (8 - c, r);

pub const SYMMETRIES: [(&str, Symmetry, &[Map]); 10] = [
    ("VerticalMirror", Symmetry::VerticalMirror, &[MIRROR_V]),
    ("HorizontalMirror", Symmetry::HorizontalMirror, &[MIRROR_H]),
    ("VerticalAndHorizontalMirror", Symmetry::VerticalAndHorizontalMirror, &[MIRROR_V, MIRROR_H, HALF]),
    ("DiagonalMirror", Symmetry::DiagonalMirror, &[DIAG]),
    ("AntidiagonalMirror", Symmetry::AntidiagonalMirror, &[ANTI]),
    ("BidiagonalMirror", Symmetry::BidiagonalMirror, &[DIAG, ANTI, HALF]),
    ("QuarterRotation", Symmetry::QuarterRotation, &[QUARTER, HALF, THREE_QUARTER]),
    ("HalfRotation", Symmetry::HalfRotation, &[HALF]),
    ("Dihedral", Symmetry::Dihedral, &[MIRROR_V, MIRROR_H, DIAG, ANTI, HALF, QUARTER, THREE_QUARTER]),
    ("None", Symmetry::None, &[]),
];

fn apply(m: Map, c: usize) -> usize {
    let (r, k) = m(row(c), col(c));
    r * 9 + k
}

fn orbit(sym: usize, c: usize) -> Vec<usize> {
    let mut v = vec![c];
    v.extend(SYMMETRIES[sym].2.iter().map(|&m| apply(m, c)));
    v.sort();
    v.dedup();
    v
}

fn symmetric_pattern(g: &G, sym: usize) -> Option<usize> {
    (0..81).find(|&c| SYMMETRIES[sym].2.iter().any(|&m| (g[c] != 0) != (g[apply(m, c)] != 0)))
}

/// Through which function the puzzle is made.
const ENTRIES: [&str; 6] = ["rng", "thread-from", "thread-none-from", "thread-symmetry", "thread-plain", "variety"];

#[derive(Clone)]
pub struct PuzzleCase {
    g: G,
    sym: usize,
    rng: &'static str,
    seed: u64,
    entry: usize,
    kind: &'static str,
}

/// Puzzles in a case about variety.
const VARIETY: u64 = 400;

pub struct Puzzles {
    pub id: &'static str,
}

fn generate(c: &PuzzleCase, thread_seed: u64) -> Result<(G, u64), Fail> {
    let source = mk(&c.g)?;
    let sym = SYMMETRIES[c.sym].1;
    if c.entry == 0 {
        getrandom::set_thread_seed(thread_seed);
        let mut r = make_rng(c.rng, c.seed);
        let s = sut("generate_with_symmetry_and_rng_from", || Sudoku::generate_with_symmetry_and_rng_from(source, sym, &mut *r))?;
        return Ok((s.to_bytes(), r.next_u64()));
    }
    let entry = c.entry;
    let s = in_seeded_thread(c.seed, || {
        sut(ENTRIES[entry], || match entry {
            1 => Sudoku::generate_with_symmetry_from(source, sym),
            2 => Sudoku::generate_from(source),
            3 => Sudoku::generate_with_symmetry(sym),
            _ => Sudoku::generate(),
        })
    })?;
    Ok((s.to_bytes(), 0))
}

impl Puzzles {
    /// Over many generator states each clue of a full source is kept at times and removed at times.
    fn check_variety(&self, c: &PuzzleCase, cx: &mut Ctx) -> Result<(), Fail> {
        if !is_solved(&c.g) {
            return Ok(()); // not in the domain
        }
        cx.label(ENTRIES[c.entry]);
        cx.nontrivial = true;
        cx.evals = VARIETY;
        let mut kept = [0; 81];
        for i in 0..VARIETY {
            let (p, _) = generate(&PuzzleCase { entry: 0, sym: 9, seed: c.seed.wrapping_add(i), ..c.clone() }, 1)?;
            ensure!(extends(&c.g, &p), "the puzzle {} has a clue that is not one of the source", to_safe(&p));
            for k in 0..81 {
                kept[k] += (p[k] != 0) as u64;
            }
        }
        for k in 0..81 {
            ensure!(kept[k] > 0, "the clue in cell {} is in none of {} puzzles made with different generator states", k, VARIETY);
            ensure!(kept[k] < VARIETY, "the clue in cell {} is in all of {} puzzles made with different generator states", k, VARIETY);
        }
        Ok(())
    }
    fn check_made(&self, c: &PuzzleCase, cx: &mut Ctx) -> Result<(), Fail> {
        if c.entry == 5 {
            return self.check_variety(c, cx);
        }
        // the documented symmetry of the entry point
        let sym = match c.entry {
            2 => 9,
            4 => 7,
            _ => c.sym,
        };
        let own_source = c.entry < 3;
        let sol = if own_source {
            match solve::solutions(&c.g, 2) {
                Ok(v) if v.len() == 1 => v[0],
                _ => return Ok(()), // not in the domain
            }
        } else {
            [0; 81]
        };
        cx.label(c.kind);
        cx.label(SYMMETRIES[sym].0);
        cx.label(ENTRIES[c.entry]);
        let (p, next) = generate(c, 1)?;
        ensure!(p.iter().all(|&d| d <= 9), "the puzzle {} has an entry above 9", to_safe(&p));
        if own_source {
            cx.nontrivial_if(p != c.g);
            cx.label(if p != c.g { "clues-removed" } else { "unchanged" });
        } else {
            cx.nontrivial = true;
        }
        if self.id == "G02" {
            if own_source {
                ensure!(extends(&c.g, &p), "the puzzle {} has a clue that is not one of the source", to_line(&p));
            }
            match solve::solutions(&p, 2) {
                Err(_) => cx.label("too-hard-for-the-reference"),
                Ok(v) => {
                    ensure!(v.len() == 1, "the puzzle {} has {} solutions", to_line(&p), if v.is_empty() { "no" } else { "several" });
                    ensure!(!own_source || v[0] == sol, "the puzzle {} has another solution than the source", to_line(&p));
                }
            }
            if c.entry == 0 {
                let (q, next2) = generate(c, 2)?;
                ensure!(p == q, "equal sources, symmetries and generators gave {} and {}", to_line(&p), to_safe(&q));
                ensure!(next == next2, "equal generators were left in different states");
            }
        } else {
            if !own_source || symmetric_pattern(&c.g, sym).is_none() {
                cx.label(if n_clues(&c.g) == 81 { "full-source" } else { "symmetric-source" });
                if let Some(k) = symmetric_pattern(&p, sym) {
                    return fail(format!("the clues of {} do not have the symmetry {} (cell {})", to_line(&p), SYMMETRIES[sym].0, k));
                }
            }
            // each orbit once
            for k in 0..81 {
                let o = orbit(sym, k);
                if o[0] != k || o.iter().all(|&x| p[x] == 0) {
                    continue;
                }
                let mut q = p;
                for &x in &o {
                    q[x] = 0;
                }
                if let Ok(n) = solve::count(&q, 2) {
                    ensure!(n != 1, "the puzzle {} is not minimal: without the cells {:?} it still has one solution", to_line(&p), o);
                }
            }
        }
        Ok(())
    }
    fn check_returned(&self, c: &PuzzleCase, cx: &mut Ctx) -> Result<(), Fail> {
        let n = match solve::count(&c.g, 2) {
            Ok(1) | Err(_) => return Ok(()), // not in the domain
            Ok(n) => n,
        };
        cx.label(c.kind);
        cx.label(SYMMETRIES[if c.entry == 2 { 9 } else { c.sym }].0);
        cx.label(ENTRIES[c.entry]);
        cx.label(if n > 1 {
            "ambiguous"
        } else if no_conflict(&c.g) {
            "unsolvable"
        } else {
            "contradictory"
        });
        cx.nontrivial_if(n_clues(&c.g) > 0);
        let (p, _) = generate(c, 1)?;
        ensure!(p == c.g, "the source {} has {} solutions, but {} was returned instead of it", to_line(&c.g), if n == 0 { "no" } else { "several" }, to_safe(&p));
        Ok(())
    }
}

impl Prop for Puzzles {
    type Case = PuzzleCase;
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> &'static str {
        match self.id {
            "G04" => "One case = one source that is contradictory, unsolvable or ambiguous (also nearly uniquely solvable ones), a symmetry, a function and a generator. Non-trivial: the source is not empty.",
            _ => "One case = one uniquely solvable source (full, partial with and without the symmetry, minimal, hard), a symmetry, a function and a generator. Non-trivial: clues were removed.",
        }
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the reference backtracking solver counts completions correctly"]
    }
    fn quota(&self, tier: Tier) -> u64 {
        let q = match self.id {
            "G02" => 700_000,
            "G03" => 400_000,
            _ => 2_000_000,
        };
        match tier {
            Tier::Quick => q,
            Tier::Thorough => q * 10,
        }
    }
    fn chunk(&self) -> u64 {
        gen::GROUP
    }
    fn required_classes(&self) -> Vec<&'static str> {
        let mut v: Vec<&'static str> = SYMMETRIES.iter().map(|s| s.0).collect();
        v.extend(&ENTRIES[..match self.id {
            "G04" => 3,
            "G02" => 6,
            _ => 5,
        }]);
        v.extend(match self.id {
            "G04" => &["ambiguous", "unsolvable", "contradictory"][..],
            "G03" => &["full-source", "symmetric-source", "partial", "clues-removed"],
            _ => &["full", "partial", "hard", "minimal", "clues-removed", "unchanged"],
        });
        v
    }
    fn gen(&self, seed: u64, index: u64) -> Option<PuzzleCase> {
        let b = gen::base(seed, self.id, index / gen::GROUP);
        let mut r = Rng::for_case(seed, self.id, index);
        let sym = r.below(10);
        let rng = if r.chance(1, 2) { "own" } else { *r.pick(RNGS) };
        let rseed = r.next();
        if self.id == "G04" {
            let entry = if r.chance(2, 3) { 0 } else { r.range(1, 2) };
            let (g, kind) = match r.below(8) {
                0 | 1 => {
                    // a conflict that goes away when one orbit is emptied
                    let mut g = b.sol;
                    if r.chance(1, 2) {
                        let k = r.below(30);
                        g = gen::add_clues(&b.minimal, &b.sol, k, &mut r);
                    }
                    let filled: Vec<usize> = (0..81).filter(|&c| g[c] != 0).collect();
                    let c = *r.pick(&filled);
                    let d = (1..=9).filter(|&d| d != g[c]).nth(r.below(8)).unwrap();
                    g[c] = d;
                    if r.chance(1, 3) {
                        let o = orbit(sym, c);
                        let x = *r.pick(&o);
                        g[x] = r.range(1, 9) as u8;
                    }
                    (g, "one-clue-changed")
                }
                2 => (gen::drop_clues(&b.minimal, 1, &mut r), "minimal-less-one"),
                3 => {
                    let (g, _) = gen::puzzle(&b, &mut r, Some(&["mixed-solutions", "digits-emptied", "houses-emptied"]))?;
                    (g, "ambiguous-many-clues")
                }
                _ => gen::puzzle(&b, &mut r, None)?,
            };
            return Some(PuzzleCase { g, sym, rng, seed: rseed, entry, kind });
        }
        if self.id == "G02" && index % 2048 == 5 {
            let rng = *r.pick(&["own", "std", "chacha8", "chacha20"]);
            return Some(PuzzleCase { g: b.sol, sym: 9, rng, seed: rseed, entry: 5, kind: "full" });
        }
        let entry = match r.below(10) {
            0 | 1 => 1,
            2 => 2,
            3 => 3,
            4 => 4,
            _ => 0,
        };
        let k = r.range(1, 40);
        let (mut g, kind) = match r.below(8) {
            0..=2 => (b.sol, "full"),
            3 | 4 => (gen::add_clues(&b.minimal, &b.sol, k, &mut r), "partial"),
            5 => (b.minimal, "minimal"),
            6 => (crate::refm::group::Tr::random(&mut r).apply(r.pick(gen::hard())), "hard"),
            _ => {
                // closed under the symmetry
                let k = r.below(10);
                let t = gen::add_clues(&b.minimal, &b.sol, k, &mut r);
                let mut g = t;
                for c in 0..81 {
                    if t[c] != 0 {
                        for x in orbit(sym, c) {
                            g[x] = b.sol[x];
                        }
                    }
                }
                (g, "symmetric")
            }
        };
        if entry >= 3 {
            g = [0; 81];
        }
        Some(PuzzleCase { g, sym, rng, seed: rseed, entry, kind: if entry >= 3 { "no-source" } else { kind } })
    }
    fn check(&self, c: &PuzzleCase, cx: &mut Ctx) -> Result<(), Fail> {
        if self.id == "G04" {
            self.check_returned(c, cx)
        } else {
            self.check_made(c, cx)
        }
    }
    fn shrink(&self, c: &PuzzleCase) -> Vec<PuzzleCase> {
        let mut v = vec![];
        if c.entry == 5 {
            return v;
        }
        if c.rng != "zero" {
            v.push(PuzzleCase { rng: "zero", seed: 0, ..c.clone() });
        }
        for s in 0..4 {
            if c.seed > 4 {
                v.push(PuzzleCase { seed: s, ..c.clone() });
            }
        }
        if c.entry == 1 {
            v.push(PuzzleCase { entry: 0, ..c.clone() });
        }
        if c.entry < 3 {
            if let Some(sol) = solve::unique(&c.g) {
                // towards the full grid
                if sol != c.g {
                    v.push(PuzzleCase { g: sol, kind: "shrunk", ..c.clone() });
                }
            }
            v.extend(shrink_clues(&c.g).into_iter().map(|g| PuzzleCase { g, kind: "shrunk", ..c.clone() }));
        }
        v
    }
    fn enc(&self, c: &PuzzleCase) -> String {
        format!("{} {} {} {} {}", to_line(&c.g), SYMMETRIES[c.sym].0, ENTRIES[c.entry], c.rng, c.seed)
    }
    fn dec(&self, s: &str) -> Option<PuzzleCase> {
        let p: Vec<&str> = s.split_whitespace().collect();
        if p.len() != 5 {
            return None;
        }
        Some(PuzzleCase {
            g: from_line(p[0])?,
            sym: SYMMETRIES.iter().position(|x| x.0 == p[1])?,
            entry: ENTRIES.iter().position(|x| *x == p[2])?,
            rng: rng_name(p[3])?,
            seed: p[4].parse().ok()?,
            kind: "replay",
        })
    }
}
