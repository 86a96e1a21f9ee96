//! S01, S02, S03, S05: answers about solutions against the reference solver.
use crate::engine::*;
use crate::refm::{gen, grid::*, solve};
use crate::rng::Rng;
use crate::ensure;
use sudoku::Sudoku;

#[derive(Clone)]
pub struct Case {
    pub g: G,
    pub limit: usize,
    pub buf: usize,
    pub kind: &'static str,
    pub count: Option<usize>, // min(CAP, number of completions), if already known
}

pub struct Solver {
    pub id: &'static str,
}

/// Completions are counted up to here by the reference solver.
const CAP: usize = 400;
/// Larger limits are only used where there are fewer completions than this.
const MAX_ENUM: usize = 140_000;
/// Or where all clues lie in one band or stack and can be completed: every filled band has more
/// than 6 * 10^9 completions (B. Felgenhauer, F. Jarvis: Mathematics of Sudoku I).
const BAND_COMPLETIONS: usize = 1 << 30;

/// Slots before and after the buffer.
const MARGIN: usize = 8;

/// Clues removed until there are more completions than 16 bits can count. Returns min(MAX_ENUM, number of completions).
fn huge(sol: &G, r: &mut Rng) -> Option<(G, usize)> {
    let mut g = *sol;
    let mut order: Vec<usize> = (0..81).collect();
    r.shuffle(&mut order);
    let (first, then) = order.split_at(50);
    first.iter().for_each(|&c| g[c] = 0);
    for &c in then {
        g[c] = 0;
        let n = solve::count(&g, MAX_ENUM).ok()?;
        if n > 65_000 {
            return Some((g, n));
        }
    }
    None
}

fn huge_case(b: &gen::Base, r: &mut Rng) -> Option<Case> {
    let (g, total) = huge(&b.sol, r)?;
    let limit = match r.below(6) {
        0 => 65_535,
        1 => 65_536,
        2 => 65_537,
        3 if total < MAX_ENUM => usize::MAX,
        4 if total < MAX_ENUM => total,
        _ => r.range(65_537, 80_000).min(total),
    };
    let want = total.min(limit);
    let buf = match r.below(4) {
        0 => r.below(10),
        1 => 65_536.min(want),
        2 => want,
        _ => want + r.below(20),
    };
    Some(Case { g, limit, buf, kind: "more-than-16-bits", count: Some(total) })
}

/// All clues in one band or stack, and without contradiction?
fn one_chute(g: &G) -> bool {
    let within = |f: &dyn Fn(usize) -> usize| (0..3).any(|k| (0..81).all(|c| g[c] == 0 || f(c) == k));
    (within(&|c| c / 27) || within(&|c| c % 9 / 3)) && matches!(solve::count(g, 1), Ok(1))
}

/// Limits in the millions.
fn chute_case(b: &gen::Base, r: &mut Rng, id: &str) -> Case {
    let mut g = b.sol;
    let (chute, transposed, keep) = (r.below(3), r.below(2) == 1, r.range(0, 10));
    for c in 0..81 {
        let k = if transposed { c % 9 / 3 } else { c / 27 };
        if k != chute || r.below(10) >= keep {
            g[c] = 0;
        }
    }
    // lists of solutions take memory
    let bits: &[usize] = match id {
        "S02" | "S03" => &[18, 20, 22, 24],
        _ => &[17, 18, 19, 20],
    };
    let top = 1 << r.pick(bits);
    let limit = match r.below(3) {
        0 => r.range(top / 2, top),
        _ => top + r.below(4) - 1,
    };
    let buf = match r.below(3) {
        0 => r.below(10),
        1 => limit.min(1 << 17) - r.below(10),
        _ => limit.min(1 << 18) + r.below(10),
    };
    Case { g, limit, buf, kind: "more-than-17-bits", count: None }
}

pub fn mk(g: &G) -> Result<Sudoku, Fail> {
    let g = *g;
    match sut("from_bytes", move || Sudoku::from_bytes(g))? {
        Ok(s) => Ok(s),
        Err(_) => fail("a grid of digits 0..=9 was rejected by from_bytes"),
    }
}

/// Distinct completions of `g`?
fn check_solutions(what: &str, g: &G, sols: &[G]) -> Result<(), Fail> {
    for s in sols {
        ensure!(is_solved(s), "{}: result {:?} is not a valid completed sudoku", what, to_safe(s));
        ensure!(extends(s, g), "{}: result {} changes a clue", what, to_safe(s));
    }
    let set: std::collections::HashSet<&G> = sols.iter().collect();
    ensure!(set.len() == sols.len(), "{}: {} solutions, only {} distinct", what, sols.len(), set.len());
    Ok(())
}

pub fn to_safe(g: &G) -> String {
    if g.iter().all(|&d| d <= 9) {
        to_line(g)
    } else {
        format!("{:?}", &g[..])
    }
}

/// Limits around the capacities of the integer types.
fn large_limit(r: &mut Rng, total: usize) -> usize {
    let bits = *r.pick(&[8, 12, 15, 16, 24, 31, 32, 33, 48, 62, 63, 64]);
    let base = if bits == 64 { 0 } else { 1usize << bits };
    let off = match r.below(4) {
        0 => 0,
        1 => r.below(total + 1),
        2 => r.below(4),
        _ => 0usize.wrapping_sub(r.range(1, 3)),
    };
    base.wrapping_add(off)
}

impl Solver {
    fn enumerate(&self, c: &Case, total: usize) -> Result<(), Fail> {
        let want = total.min(c.limit);
        let s = mk(&c.g)?;
        let limit = c.limit;
        let sols = sut("solutions_up_to", move || s.solutions_up_to(limit))?;
        let sols: Vec<G> = sols.iter().map(|s| s.to_bytes()).collect();
        check_solutions("solutions_up_to", &c.g, &sols)?;
        ensure!(
            sols.len() == want,
            "solutions_up_to({}) returned {} solutions, {} expected",
            c.limit, sols.len(), want
        );
        let some = sut("some_solution", move || s.some_solution())?;
        match some {
            None => ensure!(total == 0, "some_solution found nothing although a solution exists"),
            Some(x) => {
                ensure!(total > 0, "some_solution returned {} although no solution exists", to_safe(&x.to_bytes()));
                check_solutions("some_solution", &c.g, &[x.to_bytes()])?;
            }
        }
        Ok(())
    }
    fn counts(&self, c: &Case, total: usize) -> Result<(), Fail> {
        let s = mk(&c.g)?;
        let limit = c.limit;
        let n = sut("solutions_count_up_to", move || s.solutions_count_up_to(limit))?;
        ensure!(n == total.min(limit), "solutions_count_up_to({}) = {}, {} expected", limit, n, total.min(limit));
        let u = sut("is_uniquely_solvable", move || s.is_uniquely_solvable())?;
        ensure!(u == (total == 1), "is_uniquely_solvable = {} with {} solution(s)", u, total);
        match sut("solution", move || s.solution())? {
            Some(x) => {
                ensure!(total == 1, "solution() returned a grid although there are {} (or more) solutions", total);
                check_solutions("solution", &c.g, &[x.to_bytes()])?;
            }
            None => ensure!(total != 1, "solution() returned nothing although there is exactly one solution"),
        }
        Ok(())
    }
    fn buffer(&self, c: &Case, total: usize) -> Result<(), Fail> {
        let s = mk(&c.g)?;
        let limit = c.limit;
        // untouched slots must keep what they held
        // the buffer is a part of a larger array, so that writes beyond its ends show as well
        let before: Vec<G> = (0..c.buf + 2 * MARGIN).map(|i| [100 + (i % 100) as u8; 81]).collect();
        let mut all = before.clone();
        let n = sut("solutions_up_to_buffer", || s.solutions_up_to_buffer(&mut all[MARGIN..MARGIN + c.buf], limit))?;
        let outside = |v: &[G]| (v[..MARGIN].to_vec(), v[MARGIN + c.buf..].to_vec());
        ensure!(outside(&all) == outside(&before), "solutions_up_to_buffer(len {}, limit {}) wrote beyond its buffer", c.buf, limit);
        let (buf, before) = (&all[MARGIN..MARGIN + c.buf], &before[MARGIN..MARGIN + c.buf]);
        ensure!(n == total.min(limit), "solutions_up_to_buffer(len {}, limit {}) = {}, {} expected", c.buf, limit, n, total.min(limit));
        let stored = n.min(c.buf);
        check_solutions("solutions_up_to_buffer", &c.g, &buf[..stored])?;
        ensure!(buf[stored..] == before[stored..], "a slot after the {} stored solutions was changed", stored);
        Ok(())
    }
}

impl Prop for Solver {
    type Case = Case;
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> &'static str {
        "One case = one grid and one limit (and buffer length): minimal puzzles, fewer or more clues, solved grids with cells, digits or houses emptied, \
         wrong or conflicting clues, sparse grids, hard puzzles. Non-trivial: the clues do not clash directly, the grid is not full and the limit is at least 1."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the reference backtracking solver counts completions correctly",
            "grids on which the reference needs more than 60000 nodes are not used",
            "for limits in the millions: every valid filled band has more than 10^9 completions (published enumeration)",
        ]
    }
    fn quota(&self, tier: Tier) -> u64 {
        let q = match self.id {
            "S05" => 600_000,
            _ => 640_000,
        };
        match tier {
            Tier::Quick => q,
            Tier::Thorough => q * 30,
        }
    }
    fn chunk(&self) -> u64 {
        gen::GROUP
    }
    fn required_classes(&self) -> Vec<&'static str> {
        gen::KINDS.iter().map(|k| k.0).chain(["no-solution", "unique", "several", "many", "more-than-16-bits", "more-than-17-bits"]).collect()
    }
    fn gen(&self, seed: u64, index: u64) -> Option<Case> {
        let b = gen::base(seed, self.id, index / gen::GROUP);
        let mut r = Rng::for_case(seed, self.id, index);
        if index % 4096 == 77 {
            return huge_case(&b, &mut r);
        }
        if index % 32768 == 1003 {
            return Some(chute_case(&b, &mut r, self.id));
        }
        let (g, kind) = gen::puzzle(&b, &mut r, None)?;
        let total = solve::count(&g, CAP).ok()?;
        let limit = if total < CAP {
            match r.below(13) {
                0 => 0,
                1 => 1,
                2 | 3 => 2,
                4 => total.saturating_sub(1),
                5 => total,
                6 => total + 1,
                7 => 3,
                8 | 9 => usize::MAX,
                10 => r.range(0, total + 3),
                11 => large_limit(&mut r, total),
                _ => r.range(total, total * 2 + 5),
            }
        } else {
            match r.below(4) {
                0 => r.range(0, 3),
                1 => CAP,
                2 => CAP - 1,
                _ => r.range(1, CAP),
            }
        };
        let want = total.min(limit);
        let buf = match r.below(7) {
            0 => 0,
            1 => 1,
            2 => want,
            3 => want + 1,
            4 => want.saturating_sub(1),
            5 => r.below(want + 1),
            _ => want + r.below(20),
        };
        Some(Case { g, limit, buf, kind, count: Some(total) })
    }
    fn check(&self, c: &Case, cx: &mut Ctx) -> Result<(), Fail> {
        let cap = if c.limit <= MAX_ENUM { c.limit.max(2) } else { MAX_ENUM };
        let total = match c.count {
            // counted up to MAX_ENUM
            Some(n) if c.kind == "more-than-16-bits" => n,
            Some(n) if n < CAP || c.limit <= CAP => n,
            _ if c.limit > MAX_ENUM && c.limit <= BAND_COMPLETIONS && one_chute(&c.g) => BAND_COMPLETIONS,
            _ => match solve::count(&c.g, cap) {
                Ok(n) => n,
                Err(_) => return Ok(()), // outside of the domain
            },
        };
        if c.limit > MAX_ENUM && total >= MAX_ENUM && total < BAND_COMPLETIONS {
            return Ok(()); // too many to enumerate; such cases are not generated
        }
        cx.label(c.kind);
        cx.label(match total {
            0 => "no-solution",
            1 => "unique",
            2..=99 => "several",
            _ => "many",
        });
        cx.label_if(c.limit > total, "limit-above-count");
        cx.label_if(c.limit > 0 && c.limit < total, "limit-below-count");
        cx.label_if(c.limit == total, "limit-is-count");
        cx.label_if(c.limit > MAX_ENUM, "limit-very-large");
        cx.nontrivial_if(no_conflict(&c.g) && n_clues(&c.g) < 81 && c.limit > 0);
        match self.id {
            "S01" => self.enumerate(c, total),
            "S02" => self.counts(c, total),
            "S03" => {
                cx.label_if(c.buf < total.min(c.limit), "buffer-too-small");
                cx.label_if(c.buf > total.min(c.limit), "buffer-larger");
                self.buffer(c, total)
            }
            _ => {
                self.enumerate(c, total)?;
                self.counts(c, total)?;
                self.buffer(c, total)
            }
        }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let with = |g: G, limit: usize, buf: usize| Case { g, limit, buf, kind: "shrunk", count: None };
        let mut v = vec![];
        for l in [0, 1, 2, 3, c.limit / 2, c.limit.saturating_sub(1)] {
            if l < c.limit {
                v.push(with(c.g, l, c.buf));
            }
        }
        if self.id == "S03" || self.id == "S05" {
            for b in [0, 1, c.buf / 2] {
                if b < c.buf {
                    v.push(with(c.g, c.limit, b));
                }
            }
        }
        v.extend(shrink_clues(&c.g).into_iter().map(|g| with(g, c.limit, c.buf)));
        v
    }
    fn enc(&self, c: &Case) -> String {
        if self.id == "S03" || self.id == "S05" {
            format!("{} limit={} buffer={}", to_line(&c.g), c.limit, c.buf)
        } else {
            format!("{} limit={}", to_line(&c.g), c.limit)
        }
    }
    fn dec(&self, s: &str) -> Option<Case> {
        let mut parts = s.split_whitespace();
        let g = from_line(parts.next()?)?;
        let (mut limit, mut buf) = (2, 0);
        for p in parts {
            let (k, v) = p.split_once('=')?;
            match k {
                "limit" => limit = v.parse().ok()?,
                "buffer" => buf = v.parse().ok()?,
                _ => return None,
            }
        }
        Some(Case { g, limit, buf, kind: "replay", count: None })
    }
}

/// S04: the solved-grid verdict.
pub struct IsSolved;

#[derive(Clone)]
pub struct GridCase {
    pub g: G,
    pub kind: &'static str,
}

impl Prop for IsSolved {
    type Case = GridCase;
    fn id(&self) -> &'static str {
        "S04"
    }
    fn rule(&self) -> &'static str {
        "One case = one grid: solved grids, solved grids damaged so that only rows, only columns or only blocks are violated, Latin squares, emptied and arbitrary grids. \
         Non-trivial: all cells filled."
    }
    fn quota(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 24_000_000,
            Tier::Thorough => 100_000_000,
        }
    }
    fn chunk(&self) -> u64 {
        512
    }
    fn required_classes(&self) -> Vec<&'static str> {
        vec!["digits-merged", "sum-kept-in-house", "sum-kept-in-rectangle", "solved", "swap-in-row", "swap-in-column", "swap-in-block", "latin-square", "columns-only-broken", "rows-only-broken", "verdict-true", "verdict-false"]
    }
    fn gen(&self, seed: u64, index: u64) -> Option<GridCase> {
        let b = gen::base(seed, "S04", index / 512);
        let mut r = Rng::for_case(seed, "S04", index);
        let (g, kind) = gen::near_solved(&b, &mut r);
        Some(GridCase { g, kind })
    }
    fn check(&self, c: &GridCase, cx: &mut Ctx) -> Result<(), Fail> {
        cx.label(c.kind);
        cx.nontrivial_if(n_clues(&c.g) == 81);
        let want = is_solved(&c.g);
        cx.label(if want { "verdict-true" } else { "verdict-false" });
        let s = mk(&c.g)?;
        let got = sut("is_solved", move || s.is_solved())?;
        ensure!(got == want, "is_solved() = {}, {} expected", got, want);
        Ok(())
    }
    fn shrink(&self, c: &GridCase) -> Vec<GridCase> {
        let mut v: Vec<GridCase> = shrink_clues(&c.g).into_iter().map(|g| GridCase { g, kind: "shrunk" }).collect();
        if let Some(s) = solve::random_solution(&[0; 81], &mut Rng::new(1)) {
            // towards a fixed solved grid
            for i in 0..81 {
                if c.g[i] != s[i] && (0..i).all(|k| c.g[k] == s[k]) {
                    let mut g = c.g;
                    g[i] = s[i];
                    v.push(GridCase { g, kind: "shrunk" });
                }
            }
        }
        v
    }
    fn enc(&self, c: &GridCase) -> String {
        to_line(&c.g)
    }
    fn dec(&self, s: &str) -> Option<GridCase> {
        Some(GridCase { g: from_line(s)?, kind: "replay" })
    }
}
