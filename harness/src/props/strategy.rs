//! R01 to R05: solving by human strategies.
use super::solver::mk;
use crate::engine::*;
use crate::ensure;
use crate::refm::model::{bits, Model, ALL};
use crate::refm::group::{line_perms, Tr};
use crate::refm::{gen, grid::*, solve};
use crate::rng::{mix_str, Rng};
use sudoku::bitset::Set;
use sudoku::board::positions::{Cell, HouseType};
use sudoku::board::{Candidate, CellState, Digit};
use sudoku::strategy::deduction::Deductions;
use sudoku::strategy::{Deduction, Strategy, StrategySolver};

pub const STRATS: [(&str, Strategy); 17] = [
    ("NakedSingles", Strategy::NakedSingles),
    ("HiddenSingles", Strategy::HiddenSingles),
    ("LockedCandidates", Strategy::LockedCandidates),
    ("NakedPairs", Strategy::NakedPairs),
    ("XWing", Strategy::XWing),
    ("HiddenPairs", Strategy::HiddenPairs),
    ("NakedTriples", Strategy::NakedTriples),
    ("Swordfish", Strategy::Swordfish),
    ("HiddenTriples", Strategy::HiddenTriples),
    ("XyWing", Strategy::XyWing),
    ("XyzWing", Strategy::XyzWing),
    ("NakedQuads", Strategy::NakedQuads),
    ("Jellyfish", Strategy::Jellyfish),
    ("HiddenQuads", Strategy::HiddenQuads),
    ("MutantSwordfish", Strategy::MutantSwordfish),
    ("MutantJellyfish", Strategy::MutantJellyfish),
    ("AvoidableRectangles", Strategy::AvoidableRectangles),
];
const NS: usize = 0;
const HS: usize = 1;
const AR: usize = 16;
/// the ones that find something (mutant fish are implemented, but see DESIGN.md)
const N_PLAIN: usize = 14;

fn strat(name: &str) -> usize {
    STRATS.iter().position(|s| s.0 == name).expect("strategy name")
}

// ---------------------------------------------------------------------------------------------
// starts

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Via {
    Sudoku,
    Clues,
    /// with "clues" that have nothing to do with the grid
    OtherClues,
    State,
}

/// Where the solver starts from.
#[derive(Clone)]
pub struct Start {
    pub via: Via,
    pub g: G,
    /// candidates that are not excluded from the outset; all of them unless `via` is `State`
    pub allowed: [u16; 81],
    pub kind: &'static str,
}

impl Start {
    fn build(&self) -> Result<StrategySolver, Fail> {
        let s = mk(&self.g)?;
        Ok(match self.via {
            Via::Sudoku => sut("from_sudoku", || StrategySolver::from_sudoku(s))?,
            Via::Clues | Via::OtherClues => {
                let mut clues = match self.via {
                    Via::Clues => self.g,
                    _ => std::array::from_fn(|c| (c % 9 + c / 9 % 3 * 3 + c / 27) as u8 % 9 + 1),
                };
                for c in (0..81).step_by(2) {
                    clues[c] = 0;
                }
                let clues = mk(&clues)?;
                sut("from_sudoku_and_clues", || StrategySolver::from_sudoku_and_clues(s, clues))?
            }
            Via::State => {
                let mut st = [CellState::Candidates(Set::NONE); 81];
                for c in 0..81 {
                    st[c] = match self.g[c] {
                        0 => CellState::Candidates(Set::from_bits(self.allowed[c] >> 1)),
                        d => CellState::Digit(Digit::new(d)),
                    };
                }
                sut("from_grid_state", || StrategySolver::from_grid_state(st))?
            }
        })
    }
    fn model(&self) -> Model {
        Model::new(&self.g, &self.allowed)
    }
    fn enc(&self) -> String {
        let state = if self.via == Via::State {
            let cell = |c: usize| match (self.g[c], self.allowed[c]) {
                (0, 0) => "_".to_string(),
                (0, ALL) => "*".to_string(),
                (0, m) => bits(m).map(|d| d.to_string()).collect(),
                _ => "-".to_string(),
            };
            (0..81).map(cell).collect::<Vec<_>>().join(",")
        } else {
            "-".to_string()
        };
        let via = match self.via {
            Via::Sudoku => "sudoku",
            Via::Clues => "clues",
            Via::OtherClues => "other-clues",
            Via::State => "state",
        };
        format!("{} {} {}", via, to_line(&self.g), state)
    }
    fn dec(p: &mut std::str::Split<char>) -> Option<Start> {
        let via = match p.next()? {
            "sudoku" => Via::Sudoku,
            "clues" => Via::Clues,
            "other-clues" => Via::OtherClues,
            "state" => Via::State,
            _ => return None,
        };
        let g = from_line(p.next()?)?;
        let mut allowed = [ALL; 81];
        let st = p.next()?;
        if via == Via::State {
            let t: Vec<&str> = st.split(',').collect();
            if t.len() != 81 {
                return None;
            }
            for c in 0..81 {
                allowed[c] = match t[c] {
                    "*" | "-" => ALL,
                    "_" => 0,
                    s => s.bytes().fold(0, |m, b| m | 1 << (b - b'0')),
                };
            }
        }
        Some(Start { via, g, allowed, kind: "replay" })
    }
    fn shrink(&self) -> Vec<Start> {
        let mut v = vec![];
        if self.via == Via::Clues || self.via == Via::OtherClues {
            v.push(Start { via: Via::Sudoku, ..self.clone() });
        }
        if self.via == Via::State {
            if self.allowed.iter().all(|&a| a == ALL) {
                v.push(Start { via: Via::Sudoku, ..self.clone() });
            }
            // allow candidates again
            for h in houses() {
                let mut s = self.clone();
                for &c in h {
                    s.allowed[c] = ALL;
                }
                if s.allowed != self.allowed {
                    v.push(s);
                }
            }
            for d in 1..=9 {
                let mut s = self.clone();
                for c in 0..81 {
                    s.allowed[c] |= 1 << d;
                }
                if s.allowed != self.allowed {
                    v.push(s);
                }
            }
            for c in 0..81 {
                if self.allowed[c] != ALL {
                    let mut s = self.clone();
                    s.allowed[c] = ALL;
                    v.push(s);
                }
            }
        }
        for g in shrink_clues(&self.g) {
            v.push(Start { g, ..self.clone() });
        }
        v
    }
}

/// Excludes candidates such that a pattern of the given strategy is likely to appear; `sol` stays possible.
fn plant(what: usize, g: &G, allowed: &mut [u16; 81], sol: &G, r: &mut Rng) {
    let m = Model::new(g, allowed);
    let open: Vec<usize> = (0..81).filter(|&c| g[c] == 0).collect();
    if open.len() < 8 {
        return;
    }
    let only = |allowed: &mut [u16; 81], c: usize, keep: u16| allowed[c] &= keep | 1 << sol[c];
    match STRATS[what].0 {
        "XWing" | "Swordfish" | "Jellyfish" | "MutantSwordfish" | "MutantJellyfish" => {
            let k = match STRATS[what].0 {
                "XWing" => 2,
                "Swordfish" | "MutantSwordfish" => 3,
                _ => 4,
            };
            let d = r.range(1, 9) as u8;
            let off = *r.pick(&[0, 9]);
            let mut lines: Vec<usize> = (0..9).filter(|&l| houses()[off + l].iter().any(|&c| sol[c] == d && g[c] == 0)).collect();
            if lines.len() <= k {
                return;
            }
            r.shuffle(&mut lines);
            let at = |l: usize| (0..9).find(|&i| sol[houses()[off + l][i]] == d).unwrap();
            let pos: Vec<usize> = lines[..k].iter().map(|&l| at(l)).collect();
            for &l in &lines[..k] {
                for i in 0..9 {
                    if !pos.contains(&i) {
                        allowed[houses()[off + l][i]] &= !(1 << d);
                    }
                }
                // no more places than needed, often
                if r.chance(1, 3) {
                    let i = *r.pick(&pos);
                    if sol[houses()[off + l][i]] != d {
                        allowed[houses()[off + l][i]] &= !(1 << d);
                    }
                }
            }
        }
        "NakedPairs" | "NakedTriples" | "NakedQuads" | "HiddenPairs" | "HiddenTriples" | "HiddenQuads" => {
            let name = STRATS[what].0;
            let k = if name.ends_with("Pairs") { 2 } else if name.ends_with("Triples") { 3 } else { 4 };
            let h = r.pick(houses());
            let mut cells: Vec<usize> = h.iter().copied().filter(|&c| g[c] == 0).collect();
            if cells.len() <= k {
                return;
            }
            r.shuffle(&mut cells);
            let digits = cells[..k].iter().fold(0u16, |m, &c| m | 1 << sol[c]);
            if name.starts_with("Naked") {
                for &c in &cells[..k] {
                    only(allowed, c, digits);
                    if r.chance(1, 4) {
                        let ds: Vec<u8> = bits(digits).collect();
                        let d = *r.pick(&ds);
                        if d != sol[c] {
                            allowed[c] &= !(1 << d);
                        }
                    }
                }
            } else {
                for &c in &cells[k..] {
                    only(allowed, c, ALL & !digits);
                }
            }
        }
        "LockedCandidates" => {
            let c = *r.pick(&open);
            let line = *r.pick(&[row(c), 9 + col(c)]);
            let block = 18 + bx(c);
            let (from, other) = if r.chance(1, 2) { (line, block) } else { (block, line) };
            for &x in &houses()[from] {
                if !houses()[other].contains(&x) {
                    allowed[x] &= !(1 << sol[c]);
                }
            }
        }
        "XyWing" | "XyzWing" => {
            let three = STRATS[what].0 == "XyzWing";
            for _ in 0..30 {
                let h = *r.pick(&open);
                let p = *r.pick(&peers()[h]);
                let q = *r.pick(&peers()[h]);
                if p == q || g[p] != 0 || g[q] != 0 || sees(p, q) && r.chance(4, 5) {
                    continue;
                }
                if three && (bx(p) != bx(h) || bx(q) == bx(h)) {
                    continue;
                }
                // hinge ab(c), pincers ac and bc
                let (a, c) = (sol[h], sol[p]);
                let b = if sol[q] == c { r.range(1, 9) as u8 } else { sol[q] };
                let (a, b, c) = if three && r.chance(1, 2) {
                    // the hinge holds the common digit
                    (sol[p], sol[q], sol[h])
                } else {
                    (a, b, c)
                };
                if a == b || b == c || a == c {
                    continue;
                }
                let mask = |x: u8, y: u8| 1u16 << x | 1 << y;
                let (mh, mp, mq) = (mask(a, b) | if three { 1 << c } else { 0 }, mask(a, c), mask(b, c));
                let ok = |cell: usize, mk: u16| mk & !m.cand[cell] == 0 && mk >> sol[cell] & 1 == 1;
                if !ok(h, mh) || !ok(p, mp) || !ok(q, mq) {
                    continue;
                }
                allowed[h] &= mh;
                allowed[p] &= mp;
                allowed[q] &= mq;
                return;
            }
        }
        _ => (),
    }
}

/// A start of a random kind and, if patterns were planted, the strategies they belong to.
fn some_start(id: &'static str, seed: u64, i: u64, r: &mut Rng, consistent: bool) -> Option<(Start, Vec<usize>)> {
    let base = gen::base(seed, id, i / gen::GROUP);
    let sound = ["minimal", "minimal+clues", "minimal-few", "minimal-many", "solved-emptied", "digits-emptied", "houses-emptied", "hard", "hard-fewer", "full", "mixed-solutions", "one-region", "two-digits-left"];
    let (g, kind) = if r.chance(1, 12) {
        ([0; 81], "empty")
    } else if consistent {
        gen::puzzle(&base, r, Some(&sound))?
    } else {
        gen::puzzle(&base, r, None)?
    };
    let mut via = [Via::Sudoku, Via::Clues, Via::OtherClues, Via::State][r.weighted(&[8, 2, 1, 12])];
    let mut allowed = [ALL; 81];
    let mut planted = vec![];
    if via == Via::State {
        // some completion stays possible
        let sol = if extends(&base.sol, &g) { Some(base.sol) } else { solve::random_solution(&g, r) };
        match (sol, r.weighted(&[1, 5, 8, 2])) {
            (_, 0) => (),
            (Some(sol), m @ (1 | 2)) => {
                let p = if m == 1 { *r.pick(&[5, 15, 30, 50, 70, 85]) } else { *r.pick(&[0, 0, 3, 10, 25]) };
                for c in 0..81 {
                    for d in 1..=9 {
                        if d != sol[c] && r.chance(p, 100) {
                            allowed[c] &= !(1 << d);
                        }
                    }
                }
                if m == 2 {
                    for _ in 0..r.range(1, 4) {
                        let w = r.range(2, N_PLAIN - 1);
                        plant(w, &g, &mut allowed, &sol, r);
                        planted.push(w);
                    }
                }
            }
            _ if consistent => via = Via::Sudoku,
            _ => {
                let p = *r.pick(&[1, 3, 10, 40]);
                for a in &mut allowed {
                    for d in 1..=9 {
                        if r.chance(p, 100) {
                            *a &= !(1 << d);
                        }
                    }
                }
            }
        }
        if via == Via::State && r.chance(1, 3) {
            // as a user would write it: without the candidates that entries exclude
            let m = Model::new(&g, &allowed);
            for c in 0..81 {
                if g[c] == 0 {
                    allowed[c] = m.cand[c];
                }
            }
        }
        for c in 0..81 {
            if g[c] != 0 {
                allowed[c] = ALL;
            }
        }
    }
    Some((Start { via, g, allowed, kind }, planted))
}

pub fn arbitrary_list(r: &mut Rng) -> Vec<Strategy> {
    list(&some_list(r, &[], false))
}

fn some_list(r: &mut Rng, planted: &[usize], singles_first: bool) -> Vec<usize> {
    let mut plain: Vec<usize> = (0..N_PLAIN).collect();
    let mut l: Vec<usize> = match r.weighted(&[4, 3, 4, 4, 1]) {
        0 => plain,
        1 => {
            r.shuffle(&mut plain);
            plain
        }
        2 => {
            // one strategy, perhaps after singles
            let one = if !planted.is_empty() && r.chance(3, 4) { *r.pick(planted) } else { r.below(N_PLAIN) };
            match r.below(4) {
                0 => vec![one],
                1 => vec![NS, one],
                2 => vec![HS, one],
                _ => vec![NS, HS, one],
            }
        }
        3 => {
            r.shuffle(&mut plain);
            plain.truncate(r.range(1, 7));
            if !planted.is_empty() && r.chance(1, 2) {
                plain.push(*r.pick(planted));
            }
            plain
        }
        _ => vec![],
    };
    if r.chance(1, 10) {
        let at = r.below(l.len() + 1);
        l.insert(at, N_PLAIN + r.below(2));
    }
    if r.chance(1, 15) && !l.is_empty() {
        let x = *r.pick(&l);
        l.push(x);
    }
    if singles_first && !matches!(l.first(), Some(&NS | &HS)) {
        match r.below(4) {
            0 => {
                l.insert(0, HS);
            }
            1 => {
                l.insert(0, HS);
                l.insert(0, NS);
            }
            _ => l.insert(0, NS),
        }
    }
    l
}

fn enc_list(l: &[usize]) -> String {
    if l.is_empty() {
        return "none".into();
    }
    l.iter().map(|&i| STRATS[i].0).collect::<Vec<_>>().join("+")
}
fn dec_list(s: &str) -> Option<Vec<usize>> {
    if s == "none" {
        return Some(vec![]);
    }
    s.split('+').map(|n| STRATS.iter().position(|x| x.0 == n)).collect()
}
fn list(l: &[usize]) -> Vec<Strategy> {
    l.iter().map(|&i| STRATS[i].1.clone()).collect()
}

// ---------------------------------------------------------------------------------------------
// what happens to a solver before it solves

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Insert(usize, u8),
    ToSudoku,
    GridState,
    CellState(usize),
    IsSolved,
    Print,
    /// sets a clone aside
    Fork,
}

fn enc_ops(ops: &[Op]) -> String {
    if ops.is_empty() {
        return "-".into();
    }
    let one = |o: &Op| match *o {
        Op::Insert(c, d) => format!("i{}={}", c, d),
        Op::ToSudoku => "s".into(),
        Op::GridState => "g".into(),
        Op::CellState(c) => format!("c{}", c),
        Op::IsSolved => "q".into(),
        Op::Print => "p".into(),
        Op::Fork => "k".into(),
    };
    ops.iter().map(one).collect::<Vec<_>>().join(",")
}

fn dec_ops(s: &str) -> Option<Vec<Op>> {
    if s == "-" {
        return Some(vec![]);
    }
    let one = |t: &str| {
        Some(match t {
            "s" => Op::ToSudoku,
            "g" => Op::GridState,
            "q" => Op::IsSolved,
            "p" => Op::Print,
            "k" => Op::Fork,
            _ if t.starts_with('c') => Op::CellState(t[1..].parse().ok().filter(|&c| c < 81)?),
            _ if t.starts_with('i') => {
                let (c, d) = t[1..].split_once('=')?;
                Op::Insert(c.parse().ok().filter(|&c| c < 81)?, d.parse().ok().filter(|d| (1..=9).contains(d))?)
            }
            _ => return None,
        })
    };
    s.split(',').map(one).collect()
}

fn a_query(r: &mut Rng) -> Op {
    match r.weighted(&[3, 3, 4, 2, 2, 1]) {
        0 => Op::ToSudoku,
        1 => Op::GridState,
        2 => Op::CellState(r.below(81)),
        3 => Op::IsSolved,
        4 => Op::Print,
        _ => Op::Fork,
    }
}

/// An insertion; towards `sol` if there is one, unless a mistake is wanted.
fn an_insert(m: &Model, sol: Option<&G>, mistakes: bool, r: &mut Rng) -> Option<Op> {
    let open: Vec<usize> = (0..81).filter(|&c| m.grid[c] == 0).collect();
    let filled: Vec<usize> = (0..81).filter(|&c| m.grid[c] != 0).collect();
    let kind = if mistakes { r.weighted(&[80, 4, 2, 8, 8]) } else { 0 };
    Some(match kind {
        0 | 1 if !open.is_empty() => {
            let c = *r.pick(&open);
            match sol {
                Some(s) if kind == 0 => Op::Insert(c, s[c]),
                _ => {
                    let ds: Vec<u8> = bits(m.cand[c]).collect();
                    if ds.is_empty() {
                        return None;
                    }
                    Op::Insert(c, *r.pick(&ds))
                }
            }
        }
        2 if !open.is_empty() => Op::Insert(*r.pick(&open), r.range(1, 9) as u8),
        3 if !filled.is_empty() => {
            let c = *r.pick(&filled);
            Op::Insert(c, m.grid[c])
        }
        4 if !filled.is_empty() => Op::Insert(*r.pick(&filled), r.range(1, 9) as u8),
        _ => return None,
    })
}

// ---------------------------------------------------------------------------------------------
// logs

/// A deduction in plain terms. Cells are 0..81, positions and digits bit masks, digits 1..=9.
#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    Naked { c: usize, d: u8 },
    Hidden { c: usize, d: u8, house: usize },
    Locked { cells: Vec<usize>, d: u8, pointing: bool },
    Subset { house: usize, positions: u16, digits: u16 },
    BasicFish { d: u8, lines: Vec<usize>, positions: u16 },
    Fish { d: u8, base: Vec<usize>, cover: Vec<usize> },
    Wing { hinge: usize, digits: u16, pincers: Vec<usize> },
    Other,
}

type Conflicts = Vec<(usize, u8)>;

fn cells_of(s: Set<Cell>) -> Vec<usize> {
    (0..81).filter(|&c| s.bits() >> c & 1 == 1).collect()
}
fn mask_of(s: Set<Digit>) -> u16 {
    s.bits() << 1
}
fn ones(b: u32) -> Vec<usize> {
    (0..32).filter(|&i| b >> i & 1 == 1).collect()
}

fn read(d: &Deduction<&[Candidate]>) -> (Step, Conflicts) {
    let conf = |c: &[Candidate]| c.iter().map(|c| (c.cell.as_index(), c.digit.get())).collect();
    match *d {
        Deduction::NakedSingles(c) => (Step::Naked { c: c.cell.as_index(), d: c.digit.get() }, vec![]),
        Deduction::HiddenSingles(c, h) => {
            let house = match h {
                HouseType::Row(r) => r.as_index(),
                HouseType::Col(c) => 9 + c.as_index(),
                HouseType::Block(b) => 18 + b.as_index(),
            };
            (Step::Hidden { c: c.cell.as_index(), d: c.digit.get(), house }, vec![])
        }
        Deduction::LockedCandidates { digit, miniline, is_pointing, conflicts } => {
            (Step::Locked { cells: cells_of(miniline.cells()), d: digit.get(), pointing: is_pointing }, conf(conflicts))
        }
        Deduction::Subsets { house, positions, digits, conflicts } => {
            (Step::Subset { house: house.as_index(), positions: positions.bits(), digits: mask_of(digits) }, conf(conflicts))
        }
        Deduction::BasicFish { digit, lines, positions, conflicts } => {
            (Step::BasicFish { d: digit.get(), lines: ones(lines.bits()), positions: positions.bits() }, conf(conflicts))
        }
        Deduction::Fish { digit, base, cover, conflicts } => {
            (Step::Fish { d: digit.get(), base: ones(base.bits()), cover: ones(cover.bits()) }, conf(conflicts))
        }
        Deduction::Wing { hinge, hinge_digits, pincers, conflicts } => {
            (Step::Wing { hinge: hinge.as_index(), digits: mask_of(hinge_digits), pincers: cells_of(pincers) }, conf(conflicts))
        }
        _ => (Step::Other, vec![]),
    }
}

/// Is the pattern there, and does it imply the exclusions?
fn justify(s: &Step, conf: &Conflicts, m: &Model) -> Result<(), String> {
    macro_rules! need {
        ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
    }
    match s {
        Step::Naked { c, d } => {
            need!(m.grid[*c] == 0, "cell {} is already filled", c);
            need!(m.cand[*c] == 1 << d, "cell {} has the candidates {:?}", c, bits(m.cand[*c]).collect::<Vec<_>>());
        }
        Step::Hidden { c, d, house } => {
            need!(m.grid[*c] == 0, "cell {} is already filled", c);
            need!(m.places(*house, *d) == [*c], "digit {} has the places {:?} in house {}", d, m.places(*house, *d), house);
        }
        Step::Locked { cells, d, pointing } => {
            let block = 18 + bx(cells[0]);
            let line = if row(cells[0]) == row(cells[1]) { row(cells[0]) } else { 9 + col(cells[0]) };
            let (from, to) = if *pointing { (block, line) } else { (line, block) };
            let at = m.places(from, *d);
            need!(!at.is_empty(), "digit {} has no place in house {}", d, from);
            need!(at.iter().all(|c| cells.contains(c)), "digit {} has the places {:?} in house {}", d, at, from);
            for (c, e) in conf {
                need!(e == d && houses()[to].contains(c) && !houses()[from].contains(c), "{} in cell {} does not follow", e, c);
            }
        }
        Step::Subset { house, positions, digits } => {
            let k = positions.count_ones();
            need!((2..=4).contains(&k) && digits.count_ones() == k, "{} positions for {} digits", k, digits.count_ones());
            let h = &houses()[*house];
            let cells: Vec<usize> = (0..9).filter(|i| positions >> i & 1 == 1).map(|i| h[i]).collect();
            for (c, _) in conf {
                need!(h.contains(c), "cell {} is not in house {}", c, house);
            }
            let naked = !cells.contains(&conf[0].0);
            if naked {
                need!(cells.iter().all(|&c| m.cand[c] != 0), "a cell of the subset is filled");
                let union = cells.iter().fold(0, |u, &c| u | m.cand[c]);
                need!(union == *digits, "the cells {:?} have the candidates {:?}", cells, bits(union).collect::<Vec<_>>());
                for (c, d) in conf {
                    need!(!cells.contains(c) && digits >> d & 1 == 1, "{} in cell {} does not follow", d, c);
                }
            } else {
                let mut union = vec![];
                for d in bits(*digits) {
                    let at = m.places(*house, d);
                    need!(!at.is_empty(), "digit {} has no place in house {}", d, house);
                    union.extend(at);
                }
                union.sort();
                union.dedup();
                need!(union == cells, "the digits have the places {:?} in house {}", union, house);
                for (c, d) in conf {
                    need!(cells.contains(c) && digits >> d & 1 == 0, "{} in cell {} does not follow", d, c);
                }
            }
        }
        Step::BasicFish { d, lines, positions } => {
            let k = lines.len();
            need!((2..=4).contains(&k) && positions.count_ones() as usize == k, "{} positions for {} lines", positions.count_ones(), k);
            need!(lines.iter().all(|&l| l < 9) || lines.iter().all(|&l| (9..18).contains(&l)), "rows and columns together");
            let mut union = 0u16;
            for &l in lines {
                let at = (0..9).filter(|&i| m.has(houses()[l][i], *d)).fold(0u16, |u, i| u | 1 << i);
                need!(at != 0, "digit {} has no place in line {}", d, l);
                union |= at;
            }
            need!(union == *positions, "the lines have the digit at {:#b}", union);
            let first = if lines[0] < 9 { 0 } else { 9 };
            for (c, e) in conf {
                let (l, p) = if first == 0 { (row(*c), col(*c)) } else { (9 + col(*c), row(*c)) };
                need!(e == d && !lines.contains(&l) && positions >> p & 1 == 1, "{} in cell {} does not follow", e, c);
            }
        }
        Step::Fish { d, base, cover } => {
            need!(base.len() == cover.len() && (2..=4).contains(&base.len()), "{} base, {} cover houses", base.len(), cover.len());
            let covered = |c: usize| cover.iter().any(|&h| houses()[h].contains(&c));
            let mut all = vec![];
            for &h in base {
                let at = m.places(h, *d);
                need!(!at.is_empty(), "digit {} has no place in house {}", d, h);
                need!(at.iter().all(|c| !all.contains(c)), "base houses share a candidate");
                need!(at.iter().all(|&c| covered(c)), "a candidate of house {} is not covered", h);
                all.extend(at);
            }
            for (c, e) in conf {
                need!(e == d && covered(*c) && !all.contains(c), "{} in cell {} does not follow", e, c);
            }
        }
        Step::Wing { hinge, digits, pincers } => {
            need!(m.cand[*hinge] == *digits, "hinge {} has the candidates {:?}", hinge, bits(m.cand[*hinge]).collect::<Vec<_>>());
            need!(pincers.len() == 2, "{} pincers", pincers.len());
            let (p, q) = (pincers[0], pincers[1]);
            let (mp, mq) = (m.cand[p], m.cand[q]);
            need!(sees(*hinge, p) && sees(*hinge, q), "a pincer does not see the hinge");
            need!(mp.count_ones() == 2 && mq.count_ones() == 2, "a pincer has not two candidates");
            need!((mp & mq).count_ones() == 1, "the pincers have not one digit in common");
            let z = (mp & mq).trailing_zeros() as u8;
            let rest = (mp | mq) & !(1 << z);
            match digits.count_ones() {
                2 => need!(*digits == rest, "hinge {:?} and pincers {:?} {:?}", bits(*digits).collect::<Vec<_>>(), bits(mp).collect::<Vec<_>>(), bits(mq).collect::<Vec<_>>()),
                3 => need!(*digits == mp | mq, "hinge {:?} and pincers {:?} {:?}", bits(*digits).collect::<Vec<_>>(), bits(mp).collect::<Vec<_>>(), bits(mq).collect::<Vec<_>>()),
                n => return Err(format!("{} hinge digits", n)),
            }
            for (c, d) in conf {
                let near = sees(*c, p) && sees(*c, q) && (digits.count_ones() == 2 || sees(*c, *hinge));
                need!(*d == z && near, "{} in cell {} does not follow", d, c);
            }
        }
        Step::Other => return Err("unknown kind of deduction".into()),
    }
    Ok(())
}

/// Names the strategies a step may be attributed to.
fn strategy_of(s: &Step, conf: &Conflicts) -> &'static str {
    match s {
        Step::Naked { .. } => "NakedSingles",
        Step::Hidden { .. } => "HiddenSingles",
        Step::Locked { .. } => "LockedCandidates",
        Step::Subset { house, positions, .. } => {
            let h = &houses()[*house];
            let inside = (0..9).any(|i| positions >> i & 1 == 1 && h[i] == conf[0].0);
            match (inside, positions.count_ones()) {
                (false, 2) => "NakedPairs",
                (false, 3) => "NakedTriples",
                (false, _) => "NakedQuads",
                (true, 2) => "HiddenPairs",
                (true, 3) => "HiddenTriples",
                (true, _) => "HiddenQuads",
            }
        }
        Step::BasicFish { lines, .. } => ["XWing", "Swordfish", "Jellyfish"][lines.len().clamp(2, 4) - 2],
        Step::Fish { base, .. } => ["MutantSwordfish", "MutantJellyfish"][base.len().clamp(3, 4) - 3],
        Step::Wing { digits, .. } => if digits.count_ones() == 2 { "XyWing" } else { "XyzWing" },
        Step::Other => "?",
    }
}

struct Outcome {
    ok: bool,
    grid: G,
    log: Deductions,
}

fn run_solver(s: StrategySolver, l: &[usize]) -> Result<Outcome, Fail> {
    let strategies = list(l);
    let res = try_sut(|| s.solve(&strategies));
    let (ok, (grid, log)) = match res {
        Ok(Ok(x)) => (true, x),
        Ok(Err(x)) => (false, x),
        Err(p) if l.contains(&AR) && p.contains("not implemented") => {
            return Err(Fail { sig: "avoidable-rectangles-unimplemented".into(), msg: format!("solve with AvoidableRectangles panicked: {}", p.replace('\n', " ")) })
        }
        Err(p) => return fail(format!("solve panicked: {}", p.replace('\n', " "))),
    };
    let grid = grid.to_bytes();
    ensure!(grid.iter().all(|&d| d <= 9), "solve returned an entry above 9: {:?}", &grid[..]);
    Ok(Outcome { ok, grid, log })
}

/// The log in plain terms, with the name each step gives for its strategy.
fn read_log(log: &Deductions) -> Result<Vec<(Step, Conflicts, String)>, Fail> {
    sut("reading the deductions", || {
        log.iter()
            .map(|d| {
                let (s, c) = read(&d);
                (s, c, format!("{:?}", d.strategy()))
            })
            .collect()
    })
}

// ---------------------------------------------------------------------------------------------
// R01, R02, R03

#[derive(Clone)]
pub struct StratCase {
    pub start: Start,
    /// what was done with the solver before it solves
    pub ops: Vec<Op>,
    pub list: Vec<usize>,
}

impl StratCase {
    /// The solver as it sets out, and the position it is in.
    fn set_out(&self) -> Result<(StrategySolver, Model), Fail> {
        let mut s = self.start.build()?;
        let mut m = self.start.model();
        for &op in &self.ops {
            sut("a query or insertion", || match op {
                Op::Insert(c, d) => drop(s.insert_candidate(Candidate::new(c as u8, d))),
                Op::ToSudoku => drop(s.to_sudoku()),
                Op::GridState => drop(s.grid_state()),
                Op::CellState(c) => drop(s.cell_state(Cell::new(c as u8))),
                Op::IsSolved => drop(s.is_solved()),
                Op::Print => drop(s.to_string()),
                Op::Fork => s = s.clone(),
            })?;
            if let Op::Insert(c, d) = op {
                if m.grid[c] == 0 {
                    m.enter(c, d);
                }
            }
        }
        Ok((s, m))
    }
}

pub struct Strategies {
    pub id: &'static str,
}

const LIMIT: usize = 200;

impl Strategies {
    fn sound(&self, c: &StratCase, cx: &mut Ctx) -> Result<(), Fail> {
        let (solver, from) = c.set_out()?;
        let sols = match solve::solutions_with(&from.grid, &c.start.allowed, LIMIT) {
            Ok(v) => v,
            Err(_) => {
                cx.label("too-hard");
                return Ok(());
            }
        };
        cx.label(match sols.len() {
            0 => "no-solution",
            1 => "one-solution",
            LIMIT => "many-solutions",
            _ => "few-solutions",
        });
        let out = run_solver(solver, &c.list)?;
        cx.label(if out.ok { "solved" } else { "unsolved" });
        let solved = is_solved(&out.grid);
        ensure!(out.ok == solved, "solve returned {} with the grid {}", if out.ok { "Ok" } else { "Err" }, to_line(&out.grid));
        ensure!(!out.ok || !sols.is_empty(), "solve returned Ok with {}, but no solution is compatible with the start", to_line(&out.grid));
        let log = read_log(&out.log)?;
        cx.nontrivial_if(!log.is_empty());
        if sols.is_empty() {
            return Ok(());
        }
        let mut rng = Rng::new(mix_str(&to_line(&from.grid)));
        let mut all = sols.clone();
        if sols.len() == LIMIT {
            all.extend((0..10).filter_map(|_| solve::random_solution_with(&from.grid, &c.start.allowed, &mut rng)));
        }
        for s in &all {
            ensure!(extends(s, &out.grid), "the returned grid {} contradicts the compatible solution {}", to_line(&out.grid), to_line(s));
        }
        ensure!(extends(&out.grid, &from.grid), "the returned grid {} lacks an entry made before", to_line(&out.grid));
        let mut open = vec![];
        for (step, conf, _) in &log {
            match *step {
                Step::Naked { c: x, d } | Step::Hidden { c: x, d, .. } => {
                    if let Some(s) = all.iter().find(|s| s[x] != d) {
                        return fail(format!("{:?} contradicts the compatible solution {}", step, to_line(s)));
                    }
                    open.push((x, ALL & !(1 << d)));
                }
                _ => {
                    for &(x, d) in conf {
                        if let Some(s) = all.iter().find(|s| s[x] == d) {
                            return fail(format!("{:?} excludes {} from cell {}, but {} is a compatible solution", step, d, x, to_line(s)));
                        }
                        open.push((x, 1 << d));
                    }
                }
            }
        }
        if sols.len() == LIMIT {
            // not all solutions are known: is there one with an excluded candidate?
            rng.shuffle(&mut open);
            for &(x, m) in open.iter().take(12) {
                let mut allowed = c.start.allowed;
                allowed[x] &= m;
                if let Ok(v) = solve::solutions_with(&from.grid, &allowed, 1) {
                    ensure!(v.is_empty(), "cell {} was restricted by the solver, but {} is a compatible solution", x, to_line(&v[0]));
                }
            }
        }
        Ok(())
    }

    fn has_solution(&self, c: &StratCase, from: &Model, cx: &mut Ctx) -> bool {
        match solve::solutions_with(&from.grid, &c.start.allowed, 1) {
            Ok(v) if !v.is_empty() => true,
            Ok(_) => {
                cx.label("inconsistent");
                false
            }
            Err(_) => {
                cx.label("too-hard");
                false
            }
        }
    }

    fn explained(&self, c: &StratCase, cx: &mut Ctx) -> Result<(), Fail> {
        let (solver, from) = c.set_out()?;
        if !self.has_solution(c, &from, cx) {
            return Ok(());
        }
        let out = run_solver(solver, &c.list)?;
        let log = read_log(&out.log)?;
        cx.nontrivial_if(log.len() >= 2);
        let d = &out.log;
        ensure!(d.len() == log.len(), "len() = {}, iterating gives {} deductions", d.len(), log.len());
        ensure!(d.is_empty() == log.is_empty(), "is_empty() = {} with {} deductions", d.is_empty(), log.len());
        sut("indexing the deductions", || {
            for (i, x) in d.iter().enumerate() {
                ensure!(d.get(i) == Some(x), "get({}) differs from the iteration", i);
            }
            for i in [log.len(), log.len() + 1, usize::MAX] {
                ensure!(d.get(i).is_none(), "get({}) gives something, with {} deductions", i, log.len());
            }
            Ok(())
        })??;
        let mut m = from;
        let first = c.list.first().map(|&i| STRATS[i].0);
        // The first strategy applies everything it sees in one go, so a pattern it names is one of the position in
        // which that pass began; passes may follow each other directly.
        let mut run: Vec<Model> = vec![];
        let mut began = 0;
        for (i, (step, conf, name)) in log.iter().enumerate() {
            let ctx = |e: String| format!("deduction {}, {:?} excluding {:?}: {}", i, step, conf, e);
            ensure!(c.list.iter().any(|&l| STRATS[l].0 == name), "{}", ctx(format!("attributed to {}, which is not in the list", name)));
            let entry = matches!(step, Step::Naked { .. } | Step::Hidden { .. });
            ensure!(entry || !conf.is_empty(), "{}", ctx("excludes nothing".into()));
            ensure!(strategy_of(step, conf) == name, "{}", ctx(format!("attributed to {}", name)));
            let holds = |m: &Model| {
                justify(step, conf, m)?;
                match conf.iter().find(|&&(x, e)| !m.has(x, e)) {
                    Some((x, e)) => Err(format!("{} was no candidate of cell {}", e, x)),
                    None => Ok(()),
                }
            };
            if Some(name.as_str()) == first && !entry {
                run.push(m.clone());
                match (began..run.len()).find(|&k| holds(&run[k]).is_ok()) {
                    Some(k) => began = k,
                    None => return fail(ctx(holds(&m).unwrap_err())),
                }
            } else {
                run.clear();
                began = 0;
                if let Err(e) = holds(&m) {
                    return fail(ctx(e));
                }
            }
            match *step {
                Step::Naked { c, d } | Step::Hidden { c, d, .. } => m.enter(c, d),
                _ => {
                    for &(x, e) in conf {
                        m.eliminate(x, e);
                    }
                }
            }
            cx.label(STRATS[strat(name)].0);
        }
        ensure!(m.grid == out.grid, "the returned grid is {}, start and logged entries give {}", to_line(&out.grid), to_line(&m.grid));
        Ok(())
    }

    fn complete(&self, c: &StratCase, cx: &mut Ctx) -> Result<(), Fail> {
        let (solver, from) = c.set_out()?;
        if !self.has_solution(c, &from, cx) {
            return Ok(());
        }
        let out = run_solver(solver, &c.list)?;
        if out.ok {
            cx.label("solved");
            return Ok(());
        }
        cx.label("stuck");
        cx.nontrivial = true;
        let mut m = from;
        for (step, conf, name) in &read_log(&out.log)? {
            cx.label(STRATS[strat(name)].0);
            match *step {
                Step::Naked { c, d } | Step::Hidden { c, d, .. } => m.enter(c, d),
                _ => conf.iter().for_each(|&(x, e)| m.eliminate(x, e)),
            }
        }
        for x in 0..81 {
            if out.grid[x] != 0 && m.grid[x] == 0 {
                m.enter(x, out.grid[x]);
            }
        }
        for &l in &c.list {
            let name = STRATS[l].0;
            let left = match name {
                "NakedSingles" => m.naked_single().map(|(c, d)| ("naked single".to_string(), c, d)),
                "HiddenSingles" => m.hidden_single().map(|(c, d, h)| (format!("hidden single in house {}", h), c, d)),
                "LockedCandidates" => m.locked(),
                "NakedPairs" => m.naked_subset(2),
                "NakedTriples" => m.naked_subset(3),
                "NakedQuads" => m.naked_subset(4),
                "HiddenPairs" => m.hidden_subset(2),
                "HiddenTriples" => m.hidden_subset(3),
                "HiddenQuads" => m.hidden_subset(4),
                "XWing" => m.fish(2),
                "Swordfish" => m.fish(3),
                "Jellyfish" => m.fish(4),
                "XyWing" => m.xy_wing(),
                "XyzWing" => m.xyz_wing(),
                _ => None,
            };
            if let Some((why, x, d)) = left {
                return fail(format!("stopped although {} still applies: {} (cell {}, digit {}); grid {}", name, why, x, d, to_line(&out.grid)));
            }
        }
        Ok(())
    }
}

impl Prop for Strategies {
    type Case = StratCase;
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> &'static str {
        match self.id {
            "R01" => "at least one deduction was made",
            "R02" => "the start has a solution and the log has at least two deductions",
            _ => "the start has a solution and the solver stopped without a complete grid",
        }
    }
    fn assumptions(&self) -> Vec<&'static str> {
        let mut v = vec!["the reference backtracking solver is right", "starts on which the reference needs too many nodes are not judged"];
        match self.id {
            "R01" => v.push("with 200 or more compatible solutions, 200 of them, 10 random ones and up to 12 deductions by search are compared"),
            "R02" => v.push("deductions of the first strategy of the list may refer to the position in which its pass began"),
            _ => v.push("mutant fish are not judged: the search for them never finds any"),
        }
        v
    }
    fn required_classes(&self) -> Vec<&'static str> {
        match self.id {
            "R01" => vec!["no-solution", "one-solution", "few-solutions", "many-solutions", "sudoku", "clues", "state"],
            _ => vec!["sudoku", "clues", "state"],
        }
    }
    fn quota(&self, t: Tier) -> u64 {
        match (self.id, t) {
            ("R01", Tier::Quick) => 600_000,
            ("R02", Tier::Quick) => 700_000,
            (_, Tier::Quick) => 700_000,
            (_, Tier::Thorough) => 5_000_000,
        }
    }
    fn chunk(&self) -> u64 {
        gen::GROUP
    }
    fn gen(&self, seed: u64, i: u64) -> Option<StratCase> {
        let mut r = Rng::for_case(seed, self.id, i);
        let (start, planted) = some_start(self.id, seed, i, &mut r, self.id != "R01")?;
        let mut list = some_list(&mut r, &planted, self.id == "R03" && i % 3 == 0);
        if self.id == "R01" && i % 500 == 7 {
            list.push(AR);
        }
        let mut ops = vec![];
        if r.chance(1, 3) {
            let sol = solve::random_solution_with(&start.g, &start.allowed, &mut r);
            let mut m = start.model();
            let bad = self.id == "R01" && r.chance(1, 5);
            let p = *r.pick(&[0, 30, 60, 90]);
            for _ in 0..r.range(1, 8) {
                ops.push(a_query(&mut r));
                if (sol.is_some() || bad) && r.chance(p, 100) {
                    if let Some(Op::Insert(c, d)) = an_insert(&m, sol.as_ref(), bad, &mut r) {
                        ops.push(Op::Insert(c, d));
                        if m.grid[c] == 0 {
                            m.enter(c, d);
                        }
                    }
                }
            }
        }
        Some(StratCase { start, ops, list })
    }
    fn check(&self, c: &StratCase, cx: &mut Ctx) -> Result<(), Fail> {
        cx.label(match c.start.via {
            Via::Sudoku => "sudoku",
            Via::Clues => "clues",
            Via::OtherClues => "other-clues",
            Via::State => "state",
        });
        cx.label(c.start.kind);
        cx.label_if(c.ops.iter().any(|o| matches!(o, Op::Insert(..))), "entries inserted before");
        cx.label_if(c.ops.iter().any(|o| !matches!(o, Op::Insert(..))), "queried before");
        match self.id {
            "R01" => self.sound(c, cx),
            "R02" => self.explained(c, cx),
            _ => self.complete(c, cx),
        }
    }
    fn shrink(&self, c: &StratCase) -> Vec<StratCase> {
        let mut v = vec![];
        for i in 0..c.list.len() {
            let mut list = c.list.clone();
            list.remove(i);
            v.push(StratCase { list, ..c.clone() });
        }
        v.extend(shrink_ops(&c.ops).into_iter().map(|ops| StratCase { ops, ..c.clone() }));
        v.extend(c.start.shrink().into_iter().map(|start| StratCase { start, ..c.clone() }));
        v
    }
    fn enc(&self, c: &StratCase) -> String {
        format!("{} {} {}", c.start.enc(), enc_ops(&c.ops), enc_list(&c.list))
    }
    fn dec(&self, s: &str) -> Option<StratCase> {
        let mut p = s.split(' ');
        let start = Start::dec(&mut p)?;
        let ops = dec_ops(p.next()?)?;
        Some(StratCase { start, ops, list: dec_list(p.next()?)? })
    }
}

fn shrink_ops(ops: &[Op]) -> Vec<Vec<Op>> {
    let mut v = vec![];
    let mut n = ops.len() / 2;
    while n > 0 {
        for at in (0..ops.len()).step_by(n) {
            let mut o = ops.to_vec();
            o.drain(at..(at + n).min(ops.len()));
            v.push(o);
        }
        n /= 2;
    }
    if ops.len() == 1 {
        v.push(vec![]);
    }
    v
}

// ---------------------------------------------------------------------------------------------
// R04

pub struct Steps;

fn as_state(m: &Model, c: usize) -> CellState {
    match m.grid[c] {
        0 => CellState::Candidates(Set::from_bits(m.cand[c] >> 1)),
        d => CellState::Digit(Digit::new(d)),
    }
}

fn show(s: &CellState) -> String {
    match s {
        CellState::Digit(d) => format!("digit {}", d.get()),
        CellState::Candidates(m) => format!("candidates {:?}", bits(m.bits() << 1).collect::<Vec<_>>()),
    }
}

fn compare_state(what: &str, got: &CellState, c: usize, m: &Model, consistent: bool) -> Result<(), Fail> {
    let want = as_state(m, c);
    let ok = match got {
        CellState::Digit(_) => *got == want,
        // after a contradiction only the entries are certain
        CellState::Candidates(_) => m.grid[c] == 0 && (!consistent || *got == want),
    };
    ensure!(ok, "{} reports cell {} as {}, not {}", what, c, show(got), show(&want));
    Ok(())
}

/// The cell's text in a printout.
fn cell_text(m: &Model, c: usize) -> String {
    match m.grid[c] {
        0 if m.cand[c] == 0 => "_".into(),
        0 => bits(m.cand[c]).map(|d| d.to_string()).collect(),
        d => d.to_string(),
    }
}

impl Steps {
    fn query(&self, s: &mut StrategySolver, m: &Model, ok: bool, op: Op, at: &str) -> Result<(), Fail> {
        match op {
            Op::ToSudoku => {
                let g = sut("to_sudoku", || s.to_sudoku())?.to_bytes();
                ensure!(g == m.grid, "{}: to_sudoku gives {} instead of {}", at, to_line(&g), to_line(&m.grid));
            }
            Op::GridState => {
                let st = sut("grid_state", || s.grid_state())?;
                for c in 0..81 {
                    compare_state(&format!("{}: grid_state", at), &st[c], c, m, ok)?;
                }
            }
            Op::CellState(c) => {
                let st = sut("cell_state", || s.cell_state(Cell::new(c as u8)))?;
                compare_state(&format!("{}: cell_state", at), &st, c, m, ok)?;
                let text = cell_text(m, c);
                for w in [0, 1, 2, 5, 9, 12] {
                    let got = sut("printing a cell state", || format!("{:w$}", as_state(m, c), w = w))?;
                    let want = format!("{:<w$}", text, w = w);
                    ensure!(got == want, "{}: {} with width {} prints {:?} instead of {:?}", at, show(&st), w, got, want);
                }
            }
            Op::IsSolved => {
                let got = sut("is_solved", || s.is_solved())?;
                ensure!(got == is_solved(&m.grid), "{}: is_solved() is {} with the grid {}", at, got, to_line(&m.grid));
            }
            Op::Print => {
                let text = sut("printing the solver", || s.to_string())?;
                if ok {
                    self.printed(&text, m).map_err(|f| Fail { msg: format!("{}: {}; printed\n{}", at, f.msg, text), ..f })?;
                }
            }
            Op::Insert(..) | Op::Fork => unreachable!(),
        }
        Ok(())
    }

    /// The printout shows the position with naked singles entered, as they look like entries anyway.
    fn printed(&self, text: &str, m: &Model) -> Result<(), Fail> {
        let mut m = m.clone();
        m.close(true, false);
        if !m.consistent() {
            return Ok(());
        }
        let lines: Vec<&str> = text.lines().collect();
        let is_cell = |t: &&str| *t == "_" || t.bytes().all(|b| b.is_ascii_digit());
        let rows: Vec<Vec<&str>> = lines.iter().map(|l| l.split_whitespace().filter(is_cell).collect::<Vec<_>>()).filter(|r| !r.is_empty()).collect();
        ensure!(rows.len() == 9, "{} lines with cells", rows.len());
        for (r, row) in rows.iter().enumerate() {
            ensure!(row.len() == 9, "{} cells in row {}", row.len(), r);
            for (c, t) in row.iter().enumerate() {
                let want = cell_text(&m, 9 * r + c);
                ensure!(*t == want, "cell {} shows {:?}, not {:?}", 9 * r + c, t, want);
            }
        }
        let w = lines[0].chars().count();
        ensure!(lines.iter().all(|l| l.chars().count() == w), "lines of different width");
        // columns are aligned
        let starts = |l: &str| -> Vec<usize> {
            let ch: Vec<char> = l.chars().collect();
            (1..ch.len()).filter(|&i| (ch[i] == '_' || ch[i].is_ascii_digit()) && ch[i - 1] == ' ').collect()
        };
        let at: Vec<Vec<usize>> = lines.iter().map(|l| starts(l)).filter(|v| !v.is_empty()).collect();
        ensure!(at.iter().all(|v| *v == at[0]), "cells are not aligned");
        Ok(())
    }
}

impl Prop for Steps {
    type Case = StratCase;
    fn id(&self) -> &'static str {
        "R04"
    }
    fn rule(&self) -> &'static str {
        "at least one digit was inserted and at least two queries were answered"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the reference backtracking solver is right",
            "after a contradiction between start, entries and rules only the grid, is_solved and the absence of panics are judged",
            "the printout of a solver is expected to show naked singles as entered",
        ]
    }
    fn required_classes(&self) -> Vec<&'static str> {
        vec!["sudoku", "clues", "state", "consistent to the end", "contradiction", "grid completed", "insertion into a filled cell", "fork", "inconsistent start"]
    }
    fn quota(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 600_000,
            Tier::Thorough => 10_000_000,
        }
    }
    fn chunk(&self) -> u64 {
        gen::GROUP
    }
    fn gen(&self, seed: u64, i: u64) -> Option<StratCase> {
        let mut r = Rng::for_case(seed, "R04", i);
        let consistent = r.chance(5, 6);
        let (start, _) = some_start("R04", seed, i, &mut r, consistent)?;
        let sol = solve::random_solution_with(&start.g, &start.allowed, &mut r);
        let mut m = start.model();
        let mut ops = vec![];
        let n = if r.chance(1, 4) { 200 } else { r.range(1, 40) };
        let p_query = *r.pick(&[5, 20, 50, 80]);
        let p_mistake = *r.pick(&[0, 0, 20, 100]);
        for _ in 0..n {
            if r.chance(p_query, 100) {
                ops.push(a_query(&mut r));
            } else {
                let mistake = r.chance(p_mistake, 100);
                if let Some(Op::Insert(c, d)) = an_insert(&m, sol.as_ref(), mistake, &mut r) {
                    ops.push(Op::Insert(c, d));
                    if m.grid[c] == 0 {
                        m.enter(c, d);
                    }
                }
            }
            if m.grid.iter().all(|&d| d != 0) && r.chance(1, 6) {
                break;
            }
        }
        let list = match r.below(6) {
            0 => vec![NS],
            1 => vec![HS],
            2 => vec![NS, HS],
            3 => vec![HS, NS],
            4 => vec![],
            _ => some_list(&mut r, &[], false),
        };
        Some(StratCase { start, ops, list })
    }
    fn check(&self, c: &StratCase, cx: &mut Ctx) -> Result<(), Fail> {
        cx.label(match c.start.via {
            Via::Sudoku => "sudoku",
            Via::Clues => "clues",
            Via::OtherClues => "other-clues",
            Via::State => "state",
        });
        let mut s = c.start.build()?;
        let mut m = c.start.model();
        let mut ok = m.consistent() && (0..81).all(|x| m.grid[x] == 0 || !peers()[x].iter().any(|&p| m.grid[p] == m.grid[x]));
        cx.label_if(!ok, "inconsistent start");
        let was_ok = ok;
        let (mut inserted, mut queries) = (0, 0);
        let mut aside: Vec<(usize, StrategySolver, Model, bool)> = vec![];
        for (i, &op) in c.ops.iter().enumerate() {
            let at = format!("step {} ({})", i, enc_ops(&[op]));
            match op {
                Op::Insert(x, d) => {
                    let res = sut("insert_candidate", || s.insert_candidate(Candidate::new(x as u8, d)))?;
                    if m.grid[x] == 0 {
                        ensure!(res.is_ok(), "{}: inserting {} into the empty cell {} fails", at, d, x);
                        ok = ok && m.has(x, d);
                        m.enter(x, d);
                        ok = ok && m.consistent();
                        inserted += 1;
                    } else {
                        ensure!(res.is_err(), "{}: inserting {} into cell {}, which contains {}, succeeds", at, d, x, m.grid[x]);
                        cx.label("insertion into a filled cell");
                    }
                }
                Op::Fork => {
                    aside.push((i, sut("clone", || s.clone())?, m.clone(), ok));
                    cx.label("fork");
                }
                _ => {
                    self.query(&mut s, &m, ok, op, &at)?;
                    queries += 1;
                }
            }
        }
        // every cell, once
        let fin = [Op::IsSolved, Op::GridState, Op::ToSudoku];
        for op in fin.into_iter().chain((0..81).map(Op::CellState)).chain(fin) {
            self.query(&mut s, &m, ok, op, "at the end")?;
        }
        for (i, s, m, ok) in &mut aside {
            for op in [Op::GridState, Op::ToSudoku, Op::IsSolved, Op::Print, Op::GridState] {
                self.query(s, m, *ok, op, &format!("clone set aside at step {}", i))?;
            }
        }
        cx.nontrivial_if(inserted >= 1 && queries >= 2);
        cx.label_if(ok, "consistent to the end");
        cx.label_if(was_ok && !ok, "contradiction");
        cx.label_if(inserted > 0 && is_solved(&m.grid), "grid completed");

        let before = m.grid;
        let out = run_solver(s, &c.list)?;
        ensure!(out.ok == is_solved(&out.grid), "solve returned {} with the grid {}", if out.ok { "Ok" } else { "Err" }, to_line(&out.grid));
        if !ok {
            return Ok(());
        }
        let sols = match solve::solutions_with(&m.grid, &c.start.allowed, 2) {
            Ok(v) if !v.is_empty() => v,
            _ => return Ok(()),
        };
        cx.label("has a solution at the end");
        ensure!(extends(&out.grid, &before), "solve gives {}, which lacks an entry of {}", to_line(&out.grid), to_line(&before));
        if sols.len() == 1 {
            ensure!(extends(&sols[0], &out.grid), "solve gives {}, but the only solution is {}", to_line(&out.grid), to_line(&sols[0]));
        }
        if c.list.iter().all(|&l| l == NS || l == HS) {
            let (naked, hidden) = (c.list.contains(&NS), c.list.contains(&HS));
            m.close(naked, hidden);
            ensure!(m.grid == out.grid, "solve with singles gives {} instead of {}", to_line(&out.grid), to_line(&m.grid));
        }
        Ok(())
    }
    fn shrink(&self, c: &StratCase) -> Vec<StratCase> {
        let mut v: Vec<StratCase> = shrink_ops(&c.ops).into_iter().map(|ops| StratCase { ops, ..c.clone() }).collect();
        for i in 0..c.list.len() {
            let mut list = c.list.clone();
            list.remove(i);
            v.push(StratCase { list, ..c.clone() });
        }
        v.extend(c.start.shrink().into_iter().map(|start| StratCase { start, ..c.clone() }));
        v
    }
    fn enc(&self, c: &StratCase) -> String {
        format!("{} {} {}", c.start.enc(), enc_ops(&c.ops), enc_list(&c.list))
    }
    fn dec(&self, s: &str) -> Option<StratCase> {
        let mut p = s.split(' ');
        let start = Start::dec(&mut p)?;
        let ops = dec_ops(p.next()?)?;
        Some(StratCase { start, ops, list: dec_list(p.next()?)? })
    }
}

// ---------------------------------------------------------------------------------------------
// R05

/// How the second start is derived from the first.
#[derive(Clone)]
pub enum Image {
    Same,
    By(Tr),
    /// by `shuffled`, whose generator is seeded with this
    Shuffled(u64),
}

#[derive(Clone)]
pub struct PairCase {
    pub start: Start,
    pub image: Image,
    pub list: Vec<usize>,
    pub other: Vec<usize>,
}

pub struct Invariance;

/// The strategies whose patterns one of `what`'s can shrink to.
fn smaller(what: usize) -> &'static [&'static str] {
    match STRATS[what].0 {
        "NakedTriples" => &["NakedPairs"],
        "NakedQuads" => &["NakedPairs", "NakedTriples"],
        "HiddenTriples" => &["HiddenPairs"],
        "HiddenQuads" => &["HiddenPairs", "HiddenTriples"],
        "Swordfish" => &["XWing"],
        "Jellyfish" => &["XWing", "Swordfish"],
        "XyzWing" => &["XyWing", "NakedPairs"],
        _ => &[],
    }
}

/// Does the list hold both kinds of singles and, with every strategy, those its patterns can shrink to?
fn closed(l: &[usize]) -> bool {
    l.contains(&NS) && l.contains(&HS) && l.iter().all(|&x| x < N_PLAIN && smaller(x).iter().all(|n| l.contains(&strat(n))))
}
/// Is that so for every beginning of the list that has more than one strategy?
fn graded(l: &[usize]) -> bool {
    (2..=l.len()).all(|n| closed(&l[..n]))
}

/// A random order of the strategies that keeps the list closed.
fn closed_order(of: &[usize], r: &mut Rng) -> Vec<usize> {
    let mut l = if r.chance(1, 2) { vec![NS, HS] } else { vec![HS, NS] };
    let mut rest: Vec<usize> = of.iter().copied().filter(|&x| x != NS && x != HS).collect();
    while !rest.is_empty() {
        let free: Vec<usize> = rest.iter().copied().filter(|&x| smaller(x).iter().all(|n| l.contains(&strat(n)))).collect();
        let x = *r.pick(&free);
        rest.retain(|&y| y != x);
        l.push(x);
    }
    l
}

impl Image {
    fn enc(&self) -> String {
        match self {
            Image::Same => "same".into(),
            Image::By(t) => {
                let s = |v: &[u8]| v.iter().map(|x| x.to_string()).collect::<String>();
                format!("{}/{}/{}/{}", t.transposed as u8, s(&t.rows), s(&t.cols), s(&t.digits))
            }
            Image::Shuffled(x) => format!("shuffled{}", x),
        }
    }
    fn dec(s: &str) -> Option<Image> {
        if s == "same" {
            return Some(Image::Same);
        }
        if let Some(x) = s.strip_prefix("shuffled") {
            return Some(Image::Shuffled(x.parse().ok()?));
        }
        let p: Vec<&str> = s.split('/').collect();
        let nums = |s: &str| s.bytes().map(|b| b.wrapping_sub(b'0')).collect::<Vec<u8>>();
        if p.len() != 4 {
            return None;
        }
        let t = Tr { transposed: p[0] == "1", rows: nums(p[1]).try_into().ok()?, cols: nums(p[2]).try_into().ok()?, digits: nums(p[3]).try_into().ok()? };
        let mut d = t.digits;
        d.sort();
        (line_perms().contains(&t.rows) && line_perms().contains(&t.cols) && d == [0, 1, 2, 3, 4, 5, 6, 7, 8, 9] && t.digits[0] == 0).then_some(Image::By(t))
    }
}

fn image_of_mask(t: &Tr, m: u16) -> u16 {
    bits(m).fold(0, |x, d| x | 1 << t.digits[d as usize])
}
/// The masks at their new places, with relabelled digits.
fn image_of_masks(t: &Tr, m: &[u16; 81]) -> [u16; 81] {
    std::array::from_fn(|c| {
        let (r, k) = (t.rows[c / 9] as usize, t.cols[c % 9] as usize);
        image_of_mask(t, if t.transposed { m[k * 9 + r] } else { m[r * 9 + k] })
    })
}

struct Reached {
    ok: bool,
    m: Model,
    /// the place in the list of the latest strategy used
    hardest: Option<usize>,
}

fn reach(start: &Start, l: &[usize]) -> Result<Reached, Fail> {
    let out = run_solver(start.build()?, l)?;
    let mut m = start.model();
    let mut hardest = None;
    for (step, conf, name) in &read_log(&out.log)? {
        match *step {
            Step::Naked { c, d } | Step::Hidden { c, d, .. } => m.enter(c, d),
            _ => conf.iter().for_each(|&(x, e)| m.eliminate(x, e)),
        }
        hardest = hardest.max(l.iter().position(|&i| STRATS[i].0 == name));
    }
    ensure!(m.grid == out.grid, "the returned grid is {}, start and logged entries give {}", to_line(&out.grid), to_line(&m.grid));
    Ok(Reached { ok: out.ok, m, hardest })
}

impl Prop for Invariance {
    type Case = PairCase;
    fn id(&self) -> &'static str {
        "R05"
    }
    fn rule(&self) -> &'static str {
        "the start has a solution and a strategy other than singles was used"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the reference backtracking solver is right",
            "lists hold both kinds of singles and, with every strategy, those its patterns can shrink to, because only then what a list reaches does not depend on the order of the steps",
            "the hardest strategy is compared for lists in which easier ones come first",
            "mutant fish and avoidable rectangles are left out",
        ]
    }
    fn required_classes(&self) -> Vec<&'static str> {
        vec!["sudoku", "clues", "state", "another order", "transformed", "shuffled", "stuck", "solved"]
    }
    fn quota(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 700_000,
            Tier::Thorough => 6_000_000,
        }
    }
    fn chunk(&self) -> u64 {
        gen::GROUP
    }
    fn gen(&self, seed: u64, i: u64) -> Option<PairCase> {
        let mut r = Rng::for_case(seed, "R05", i);
        let (start, planted) = some_start("R05", seed, i, &mut r, true)?;
        let mut of: Vec<usize> = match r.below(4) {
            0 => (0..N_PLAIN).collect(),
            1 => vec![*r.pick(if planted.is_empty() { &[2, 3, 4, 5, 9, 10, 13] } else { &planted[..] })],
            _ => (2..N_PLAIN).filter(|x| planted.contains(x) && r.chance(1, 2) || r.chance(1, 4)).collect(),
        };
        // with the smaller patterns
        for x in of.clone() {
            of.extend(smaller(x).iter().map(|n| strat(n)));
        }
        of.sort();
        of.dedup();
        let list = if r.chance(1, 2) {
            let mut l = of.clone();
            l.retain(|&x| x > HS);
            [vec![NS, HS], l].concat()
        } else {
            closed_order(&of, &mut r)
        };
        let image = match r.weighted(&[2, 6, if start.via == Via::Sudoku { 4 } else { 0 }]) {
            0 => Image::Same,
            1 => {
                let mut t = Tr::random(&mut r);
                // often only a part of a transformation
                if r.chance(1, 2) {
                    let id = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
                    match r.below(4) {
                        0 => t = Tr { transposed: true, rows: id[..9].try_into().unwrap(), cols: id[..9].try_into().unwrap(), digits: id },
                        1 => t = Tr { transposed: false, rows: id[..9].try_into().unwrap(), cols: id[..9].try_into().unwrap(), ..t },
                        2 => t = Tr { transposed: false, digits: id, ..t },
                        _ => t = Tr { digits: id, ..t },
                    }
                }
                Image::By(t)
            }
            _ => Image::Shuffled(r.next()),
        };
        let mut other = if matches!(image, Image::Same) || r.chance(1, 3) { closed_order(&of, &mut r) } else { list.clone() };
        if other != list && r.chance(1, 2) {
            // what is reached, though not what it takes, is independent of the order altogether
            r.shuffle(&mut other);
        }
        Some(PairCase { start, image, list, other })
    }
    fn check(&self, c: &PairCase, cx: &mut Ctx) -> Result<(), Fail> {
        cx.label(match c.start.via {
            Via::Sudoku => "sudoku",
            Via::Clues => "clues",
            Via::OtherClues => "other-clues",
            Via::State => "state",
        });
        cx.label(c.start.kind);
        let sorted = |l: &[usize]| {
            let mut l = l.to_vec();
            l.sort();
            l
        };
        if !closed(&c.list) || !closed(&c.other) || sorted(&c.list) != sorted(&c.other) {
            return Ok(());
        }
        match solve::solutions_with(&c.start.g, &c.start.allowed, 1) {
            Ok(v) if !v.is_empty() => (),
            Ok(_) => {
                cx.label("inconsistent");
                return Ok(());
            }
            Err(_) => {
                cx.label("too-hard");
                return Ok(());
            }
        }
        let (image, t) = match &c.image {
            Image::Same => (c.start.clone(), None),
            Image::By(t) => {
                cx.label("transformed");
                (Start { g: t.apply(&c.start.g), allowed: image_of_masks(t, &c.start.allowed), ..c.start.clone() }, Some(t))
            }
            Image::Shuffled(x) if c.start.via == Via::Sudoku => {
                cx.label("shuffled");
                let s = mk(&c.start.g)?;
                let g = in_seeded_thread(*x, || sut("shuffled", || s.shuffled().to_bytes()))?;
                (Start { g, ..c.start.clone() }, None)
            }
            _ => return Ok(()),
        };
        cx.label_if(c.list != c.other, "another order");
        let a = reach(&c.start, &c.list)?;
        let b = reach(&image, &c.other)?;
        cx.label(if a.ok { "solved" } else { "stuck" });
        if let Some(h) = a.hardest {
            cx.nontrivial_if(h >= 2);
            cx.label(STRATS[c.list[h]].0);
        }
        let what = || match (&c.image, c.list == c.other) {
            (Image::Same, _) => "in another order the strategies".to_string(),
            (Image::By(_), true) => format!("on the image {} the strategies", to_line(&image.g)),
            (Image::By(_), false) => format!("on the image {} and in another order the strategies", to_line(&image.g)),
            (Image::Shuffled(_), _) => format!("on the shuffled grid {} the strategies", to_line(&image.g)),
        };
        ensure!(a.ok == b.ok, "the strategies {} {}, but {} {}", if a.ok { "solve" } else { "do not solve" }, to_line(&c.start.g), what(), if b.ok { "do" } else { "do not" });
        let candidates = |m: &Model| m.cand.iter().map(|x| x.count_ones()).sum::<u32>();
        if let Image::Shuffled(_) = c.image {
            let (x, y) = ((n_clues(&a.m.grid), candidates(&a.m)), (n_clues(&b.m.grid), candidates(&b.m)));
            ensure!(x == y, "from {} the strategies reach {} entries and {} candidates, but {} reach {} and {}", to_line(&c.start.g), x.0, x.1, what(), y.0, y.1);
        } else {
            let (g, cand) = match t {
                None => (a.m.grid, a.m.cand),
                Some(t) => (t.apply(&a.m.grid), image_of_masks(t, &a.m.cand)),
            };
            ensure!(g == b.m.grid, "from {} the strategies reach {}, but {} reach {}", to_line(&c.start.g), to_line(&a.m.grid), what(), to_line(&b.m.grid));
            if let Some(x) = (0..81).find(|&x| cand[x] != b.m.cand[x]) {
                let show = |m: u16| bits(m).collect::<Vec<_>>();
                return fail(format!("{} reach the candidates {:?} in cell {}, expected {:?}", what(), show(b.m.cand[x]), x, show(cand[x])));
            }
        }
        if c.list == c.other && graded(&c.list) {
            let name = |h: Option<usize>| h.map_or("none", |h| STRATS[c.list[h]].0);
            ensure!(a.hardest == b.hardest, "the hardest strategy used on {} is {}, but {} go as far as {}", to_line(&c.start.g), name(a.hardest), what(), name(b.hardest));
        }
        Ok(())
    }
    fn shrink(&self, c: &PairCase) -> Vec<PairCase> {
        let mut v = vec![];
        for &x in &c.list {
            let without = |l: &[usize]| l.iter().copied().filter(|&y| y != x).collect::<Vec<_>>();
            let (list, other) = (without(&c.list), without(&c.other));
            if closed(&list) && closed(&other) {
                v.push(PairCase { list, other, ..c.clone() });
            }
        }
        if c.list != c.other {
            v.push(PairCase { other: c.list.clone(), ..c.clone() });
        }
        if let Image::By(t) = &c.image {
            let id = [0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9];
            let lines: [u8; 9] = id[..9].try_into().unwrap();
            v.push(PairCase { image: Image::Same, ..c.clone() });
            let parts = [Tr { digits: id, ..t.clone() }, Tr { rows: lines, ..t.clone() }, Tr { cols: lines, ..t.clone() }, Tr { transposed: false, ..t.clone() }];
            v.extend(parts.into_iter().filter(|x| x != t).map(|x| PairCase { image: Image::By(x), ..c.clone() }));
        }
        v.extend(c.start.shrink().into_iter().map(|start| PairCase { start, ..c.clone() }));
        v
    }
    fn enc(&self, c: &PairCase) -> String {
        format!("{} {} {} {}", c.start.enc(), c.image.enc(), enc_list(&c.list), enc_list(&c.other))
    }
    fn dec(&self, s: &str) -> Option<PairCase> {
        let mut p = s.split(' ');
        let start = Start::dec(&mut p)?;
        let image = Image::dec(p.next()?)?;
        Some(PairCase { start, image, list: dec_list(p.next()?)?, other: dec_list(p.next()?)? })
    }
}
