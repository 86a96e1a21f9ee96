//! B01 bitsets, B02 positions.
use crate::engine::*;
use crate::ensure;
use crate::rng::Rng;
use std::collections::BTreeSet;
use sudoku::bitset::Set;
use sudoku::board::positions::*;
use sudoku::board::{Candidate, Digit};

// ---------------------------------------------------------------------------------------------
// B01

#[derive(Clone)]
pub enum SetCase {
    /// element type, a set, other sets, as raw bits
    Pairs { ty: usize, a: u128, bs: Vec<u128> },
    /// element type, raw integers for `from_bits`
    Raw { ty: usize, raws: Vec<u128> },
}

/// Element types: name, number of elements, width of the raw integer.
const TYPES: [(&str, u32, u32); 6] =
    [("Digit", 9, 16), ("Position<Line>", 9, 16), ("Position<House>", 9, 16), ("Line", 18, 32), ("House", 27, 32), ("Cell", 81, 128)];

type M = BTreeSet<u8>;
fn model(bits: u128) -> M {
    (0..128).filter(|&i| bits >> i & 1 == 1).map(|i| i as u8).collect()
}
fn raw(m: &M) -> u128 {
    m.iter().fold(0, |b, &i| b | 1 << i)
}

macro_rules! set_checks {
    ($mod:ident, $t:ty, $storage:ty, $n:expr, $make:expr) => {
        mod $mod {
            use super::*;
            type S = Set<$t>;
            const ALL: u128 = (1 << $n) - 1;
            fn elem(i: u8) -> $t {
                let f: fn(u8) -> $t = $make;
                f(i)
            }
            fn set(bits: u128) -> S {
                S::from_bits(bits as $storage)
            }
            fn bits(s: S) -> u128 {
                s.bits() as u128
            }

            /// Everything about one set.
            pub fn unary(a: u128) -> Result<(), Fail> {
                let m = model(a);
                let s = set(a);
                ensure!(bits(s) == a, "from_bits({:#x}).bits() = {:#x}", a, bits(s));
                ensure!(s.len() as usize == m.len(), "len of {:#x} = {}", a, s.len());
                ensure!(s.is_empty() == m.is_empty(), "is_empty of {:#x} = {}", a, s.is_empty());
                ensure!(s.is_full() == (a == ALL), "is_full of {:#x} = {}", a, s.is_full());
                ensure!(bits(!s) == ALL & !a, "complement of {:#x} = {:#x}", a, bits(!s));
                let it: Vec<$t> = s.into_iter().take(200).collect();
                let ix: Vec<u8> = it.iter().map(|e| e.as_index() as u8).collect();
                ensure!(ix == m.iter().copied().collect::<Vec<_>>(), "elements of {:#x} = {:?}", a, ix);
                for e in &it {
                    ensure!(*e == elem(e.as_index() as u8), "element {:?} of {:#x} is not {:?}", e, a, elem(e.as_index() as u8));
                }
                let mut it = s.into_iter();
                for _ in 0..m.len() {
                    let _ = it.next();
                }
                ensure!(it.next().is_none() && it.next().is_none(), "iterator of {:#x} goes on", a);
                // the same iterator, consumed in other ways
                for k in [0, 1, m.len() / 2, m.len().saturating_sub(1), m.len()] {
                    let rest: Vec<u8> = m.iter().copied().skip(k).collect();
                    let mut it = s.into_iter();
                    for _ in 0..k {
                        let _ = it.next();
                    }
                    let copy = it.clone();
                    let (low, high) = it.size_hint();
                    ensure!(low <= rest.len() && high.map_or(true, |h| h >= rest.len()), "size_hint of {:#x} after {} elements = {:?}", a, k, (low, high));
                    ensure!(it.clone().take(200).count() == rest.len(), "count of {:#x} after {} elements", a, k);
                    let index = |o: Option<$t>| o.map(|e| e.as_index() as u8);
                    ensure!(index(it.clone().take(200).last()) == rest.last().copied(), "last of {:#x} after {} elements", a, k);
                    let j = rest.len() / 2;
                    ensure!(index(it.clone().nth(j)) == rest.get(j).copied(), "nth({}) of {:#x} after {} elements", j, a, k);
                    ensure!(it.take(200).map(|e| e.as_index() as u8).collect::<Vec<_>>() == rest, "elements of {:#x} after {}", a, k);
                    ensure!(copy.take(200).map(|e| e.as_index() as u8).collect::<Vec<_>>() == rest, "elements of a copy of the iterator of {:#x} after {}", a, k);
                }
                ensure!(format!("{:b}", s) == format!("{:b}", a), "binary text of {:#x} = {:b}", a, s);
                let u = s.unique().map(|o| o.map(|e| e.as_index() as u8));
                match m.len() {
                    0 => ensure!(u.is_err(), "unique of the empty set = {:?}", u),
                    1 => ensure!(u == Ok(m.iter().next().copied()), "unique of {:#x} = {:?}", a, u),
                    _ => ensure!(u == Ok(None), "unique of {:#x} = {:?}", a, u),
                }
                // with elements
                for i in 0..$n as u8 {
                    let e = elem(i);
                    let b = 1u128 << i;
                    ensure!(bits(e.as_set()) == b, "as_set of element {} = {:#x}", i, bits(e.as_set()));
                    ensure!(bits(S::from(e)) == b, "set from element {} = {:#x}", i, bits(S::from(e)));
                    ensure!(s.contains(e) == m.contains(&i), "{:#x} contains element {}: {}", a, i, s.contains(e));
                    ensure!(bits(s & e) == a & b, "{:#x} & element {} = {:#x}", a, i, bits(s & e));
                    ensure!(bits(s | e) == a | b, "{:#x} | element {} = {:#x}", a, i, bits(s | e));
                    ensure!(bits(s ^ e) == a ^ b, "{:#x} ^ element {} = {:#x}", a, i, bits(s ^ e));
                    let (mut x, mut y, mut z) = (s, s, s);
                    x &= e;
                    y |= e;
                    z ^= e;
                    ensure!(x == s & e && y == s | e && z == s ^ e, "assigning operators with element {} on {:#x}", i, a);
                }
                Ok(())
            }

            /// Everything about two sets.
            pub fn binary(a: u128, b: u128) -> Result<(), Fail> {
                let (m, k) = (model(a), model(b));
                let (s, t) = (set(a), set(b));
                let both = |what: &str, got: S, want: &M| -> Result<(), Fail> {
                    ensure!(bits(got) == raw(want), "{:#x} {} {:#x} = {:#x}", a, what, b, bits(got));
                    Ok(())
                };
                let and: M = m.intersection(&k).copied().collect();
                let or: M = m.union(&k).copied().collect();
                let xor: M = m.symmetric_difference(&k).copied().collect();
                let diff: M = m.difference(&k).copied().collect();
                both("&", s & t, &and)?;
                both("|", s | t, &or)?;
                both("^", s ^ t, &xor)?;
                both("without", s.without(t), &diff)?;
                let mut x = s;
                x &= t;
                both("&=", x, &and)?;
                let mut x = s;
                x |= t;
                both("|=", x, &or)?;
                let mut x = s;
                x ^= t;
                both("^=", x, &xor)?;
                let mut x = s;
                x.remove(t);
                both("remove", x, &diff)?;
                ensure!(s.overlaps(t) == !m.is_disjoint(&k), "{:#x} overlaps {:#x}: {}", a, b, s.overlaps(t));
                ensure!(s.contains(t) == k.is_subset(&m), "{:#x} contains {:#x}: {}", a, b, s.contains(t));
                ensure!((s == t) == (a == b), "{:#x} == {:#x}: {}", a, b, s == t);
                ensure!(set(a) == s && set(b) == t, "an operation changed its operand");
                Ok(())
            }

            pub fn consts() -> Result<(), Fail> {
                ensure!(bits(S::ALL) == ALL, "ALL = {:#x}", bits(S::ALL));
                ensure!(bits(S::NONE) == 0, "NONE = {:#x}", bits(S::NONE));
                Ok(())
            }

            pub fn from_bits(r: u128) -> Result<(), Fail> {
                let r = r as $storage;
                let got = try_sut(|| S::from_bits(r).bits());
                match got {
                    Ok(b) => ensure!(r as u128 <= ALL && b == r, "from_bits({:#x}) gave {:#x}", r, b),
                    Err(p) => ensure!(r as u128 > ALL, "from_bits({:#x}) panicked: {}", r, p),
                }
                Ok(())
            }
        }
    };
}

set_checks!(digit, Digit, u16, 9, |i| Digit::new(i + 1));
set_checks!(pos_line, Position<Line>, u16, 9, Position::new);
set_checks!(pos_house, Position<House>, u16, 9, Position::new);
set_checks!(line, Line, u32, 18, Line::new);
set_checks!(house, House, u32, 27, House::new);
set_checks!(cell, Cell, u128, 81, Cell::new);

pub struct Sets;
impl Sets {
    fn one(&self, ty: usize, a: u128) -> Result<(), Fail> {
        sut("set operation", || match ty {
            0 => digit::unary(a),
            1 => pos_line::unary(a),
            2 => {
                let s = Set::<Position<House>>::from_bits(a as u16).as_line_set();
                ensure!(s.bits() as u128 == a, "as_line_set of {:#x} = {:#x}", a, s.bits());
                pos_house::unary(a)
            }
            3 => line::unary(a),
            4 => house::unary(a),
            _ => cell::unary(a),
        })?
    }
    fn two(&self, ty: usize, a: u128, b: u128) -> Result<(), Fail> {
        sut("set operation", || match ty {
            0 => digit::binary(a, b),
            1 => pos_line::binary(a, b),
            2 => pos_house::binary(a, b),
            3 => line::binary(a, b),
            4 => house::binary(a, b),
            _ => cell::binary(a, b),
        })?
    }
    fn consts(&self) -> Result<(), Fail> {
        digit::consts()?;
        pos_line::consts()?;
        pos_house::consts()?;
        line::consts()?;
        house::consts()?;
        cell::consts()
    }
    fn raw(&self, ty: usize, r: u128) -> Result<(), Fail> {
        match ty {
            0 => digit::from_bits(r),
            1 => pos_line::from_bits(r),
            2 => pos_house::from_bits(r),
            3 => line::from_bits(r),
            4 => house::from_bits(r),
            _ => cell::from_bits(r),
        }
    }
}

fn wide(r: &mut Rng) -> u128 {
    (r.next() as u128) << 64 | r.next() as u128
}

/// A set over `n` elements: sparse, dense, a run, a single element, or uniform.
fn some_set(r: &mut Rng, n: u32) -> u128 {
    let all = (1u128 << n) - 1;
    let sparse = |r: &mut Rng, k: usize| (0..k).fold(0u128, |b, _| b | 1 << r.below(n as usize));
    match r.below(8) {
        0 => 0,
        1 => all,
        2 => 1 << r.below(n as usize),
        3 => {
            let k = r.range(2, 4);
            sparse(r, k)
        }
        4 => {
            let k = r.range(1, 4);
            all & !sparse(r, k)
        }
        5 => {
            let (i, j) = (r.below(n as usize), r.below(n as usize));
            ((1u128 << i.max(j) << 1) - 1) & !((1u128 << i.min(j)) - 1)
        }
        _ => wide(r) & all,
    }
}

/// The number of cases that enumerate all pairs of sets over nine elements.
const PAIRS: u64 = 3 * 512;
/// ... and all raw integers of 16 bits
const RAW16: u64 = 3 * 64;

impl Prop for Sets {
    type Case = SetCase;
    fn id(&self) -> &'static str {
        "B01"
    }
    fn rule(&self) -> &'static str {
        "a batch of set operations with at least two sets that are neither empty nor full, or a batch of raw integers of which one is above the full set"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["complete for the types with nine elements (all pairs of sets, all raw integers), sampled for lines, houses and cells"]
    }
    fn required_classes(&self) -> Vec<&'static str> {
        vec!["Digit", "Position<Line>", "Position<House>", "Line", "House", "Cell", "pairs", "raw"]
    }
    fn quota(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => PAIRS + RAW16 + 1_000_000,
            Tier::Thorough => PAIRS + RAW16 + 4_000_000,
        }
    }
    fn chunk(&self) -> u64 {
        64
    }
    fn gen(&self, seed: u64, i: u64) -> Option<SetCase> {
        if i < PAIRS {
            return Some(SetCase::Pairs { ty: (i / 512) as usize, a: (i % 512) as u128, bs: (0..512).collect() });
        }
        if i < PAIRS + RAW16 {
            let i = i - PAIRS;
            let lo = (i % 64) as u128 * 1024;
            return Some(SetCase::Raw { ty: (i / 64) as usize, raws: (lo..lo + 1024).collect() });
        }
        let mut r = Rng::for_case(seed, "B01", i);
        let ty = 3 + r.below(3);
        let (_, n, w) = TYPES[ty];
        let all = (1u128 << n) - 1;
        let top = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
        if r.chance(1, 8) {
            let mut raws = vec![0, all, all + 1, all + 2, top, top - 1, 1 << (w - 1), 1 << n, 1 << (n - 1)];
            for _ in 0..20 {
                let x = wide(&mut r) & top;
                raws.push(match r.below(3) {
                    0 => x,
                    1 => x & all,
                    _ => x & all | 1 << r.range(n as usize, w as usize - 1),
                });
            }
            return Some(SetCase::Raw { ty, raws });
        }
        let a = some_set(&mut r, n);
        let bs = (0..8)
            .map(|_| {
                let x = some_set(&mut r, n);
                match r.below(6) {
                    0 => a & x,
                    1 => a | x,
                    2 => all & !a & x,
                    3 => a ^ 1 << r.below(n as usize),
                    _ => x,
                }
            })
            .collect();
        Some(SetCase::Pairs { ty, a, bs })
    }
    fn check(&self, c: &SetCase, cx: &mut Ctx) -> Result<(), Fail> {
        match c {
            SetCase::Pairs { ty, a, bs } => {
                cx.label(TYPES[*ty].0);
                cx.label("pairs");
                let all = (1u128 << TYPES[*ty].1) - 1;
                let proper = |x: u128| x != 0 && x != all;
                cx.nontrivial_if(proper(*a) && bs.iter().any(|&b| proper(b)));
                self.consts()?;
                self.one(*ty, *a)?;
                for &b in bs {
                    self.two(*ty, *a, b)?;
                    cx.evals += 1;
                }
            }
            SetCase::Raw { ty, raws } => {
                cx.label(TYPES[*ty].0);
                cx.label("raw");
                let all = (1u128 << TYPES[*ty].1) - 1;
                cx.nontrivial_if(raws.iter().any(|&x| x > all));
                for &x in raws {
                    self.raw(*ty, x)?;
                    cx.evals += 1;
                }
            }
        }
        Ok(())
    }
    fn shrink(&self, c: &SetCase) -> Vec<SetCase> {
        let drop_bits = |x: u128| (0..128).filter(move |&i| x >> i & 1 == 1).map(move |i| x & !(1u128 << i));
        match c {
            SetCase::Pairs { ty, a, bs } => {
                let mut v = vec![];
                if bs.len() > 1 {
                    v.push(SetCase::Pairs { ty: *ty, a: *a, bs: vec![] });
                    v.extend(bs.iter().map(|&b| SetCase::Pairs { ty: *ty, a: *a, bs: vec![b] }));
                    return v;
                }
                v.extend(drop_bits(*a).map(|a| SetCase::Pairs { ty: *ty, a, bs: bs.clone() }));
                for &b in bs {
                    v.push(SetCase::Pairs { ty: *ty, a: *a, bs: vec![] });
                    v.extend(drop_bits(b).map(|b| SetCase::Pairs { ty: *ty, a: *a, bs: vec![b] }));
                }
                v
            }
            SetCase::Raw { ty, raws } if raws.len() > 1 => raws.iter().map(|&x| SetCase::Raw { ty: *ty, raws: vec![x] }).collect(),
            SetCase::Raw { ty, raws } => raws.iter().flat_map(|&x| drop_bits(x)).map(|x| SetCase::Raw { ty: *ty, raws: vec![x] }).collect(),
        }
    }
    fn enc(&self, c: &SetCase) -> String {
        let list = |v: &[u128]| v.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(",");
        match c {
            SetCase::Pairs { ty, a, bs } => format!("pairs {} {:x} {}", TYPES[*ty].0, a, list(bs)),
            SetCase::Raw { ty, raws } => format!("raw {} {}", TYPES[*ty].0, list(raws)),
        }
    }
    fn dec(&self, s: &str) -> Option<SetCase> {
        let mut p = s.split(' ');
        let kind = p.next()?;
        let name = p.next()?;
        let ty = TYPES.iter().position(|t| t.0 == name)?;
        let hex = |s: &str| u128::from_str_radix(s, 16).ok();
        let list = |s: &str| s.split(',').filter(|x| !x.is_empty()).map(hex).collect::<Option<Vec<u128>>>();
        Some(match kind {
            "pairs" => {
                let a = hex(p.next()?)?;
                SetCase::Pairs { ty, a, bs: list(p.next().unwrap_or(""))? }
            }
            _ => SetCase::Raw { ty, raws: list(p.next()?)? },
        })
    }
}

// ---------------------------------------------------------------------------------------------
// B02

/// One number for one type of position, or a set of positions within one house.
#[derive(Clone)]
pub enum PosCase {
    Number { ty: usize, n: u8 },
    Positions { ty: usize, n: u8, sets: Vec<u16> },
    /// a candidate: cell, digit
    Candidate { cell: u8, digit: u8 },
}

const POS: [(&str, u8); 12] = [
    ("Cell", 81),
    ("Row", 9),
    ("Col", 9),
    ("Block", 9),
    ("Line", 18),
    ("House", 27),
    ("MiniRow", 27),
    ("MiniCol", 27),
    ("MiniLine", 54),
    ("Band", 3),
    ("Stack", 3),
    ("Chute", 6),
];

/// The cells of grouping `n`, ascending, from the definition of the grid.
fn geometry(ty: usize, n: u8) -> Vec<u8> {
    let (row, col) = (|c: u8| c / 9, |c: u8| c % 9);
    let block = |c: u8| row(c) / 3 * 3 + col(c) / 3;
    (0..81u8)
        .filter(|&c| match POS[ty].0 {
            "Cell" => c == n,
            "Row" => row(c) == n,
            "Col" => col(c) == n,
            "Block" => block(c) == n,
            "Line" if n < 9 => row(c) == n,
            "Line" => col(c) == n - 9,
            "House" if n < 9 => row(c) == n,
            "House" if n < 18 => col(c) == n - 9,
            "House" => block(c) == n - 18,
            // small rows are counted from left to right, then top to bottom
            "MiniRow" => row(c) == n / 3 && col(c) / 3 == n % 3,
            // small columns from top to bottom, then left to right
            "MiniCol" => col(c) == n / 3 && row(c) / 3 == n % 3,
            "MiniLine" if n < 27 => row(c) == n / 3 && col(c) / 3 == n % 3,
            "MiniLine" => col(c) == (n - 27) / 3 && row(c) / 3 == (n - 27) % 3,
            "Band" => row(c) / 3 == n,
            "Stack" => col(c) / 3 == n,
            "Chute" if n < 3 => row(c) / 3 == n,
            "Chute" => col(c) / 3 == n - 3,
            _ => unreachable!(),
        })
        .collect()
}

fn ids(s: Set<Cell>) -> Vec<u8> {
    (0..81).filter(|&i| s.bits() >> i & 1 == 1).collect()
}

pub struct Positions;
impl Positions {
    fn constructors(&self, ty: usize, n: u8) -> Result<(), Fail> {
        let (name, limit) = POS[ty];
        macro_rules! go {
            ($t:ident) => {{
                let checked = sut("new_checked", || $t::new_checked(n).map(|x| (x.get(), x.as_index(), ids(x.cells()))))?;
                let plain = try_sut(|| {
                    let x = $t::new(n);
                    (x.get(), x.as_index())
                });
                if n < limit {
                    let want = (n, n as usize, geometry(ty, n));
                    ensure!(checked.as_ref() == Some(&want), "{}::new_checked({}) gave number, index, cells {:?}, not {:?}", name, n, checked, want);
                    match plain {
                        Ok(p) => ensure!(p == (n, n as usize), "{}::new({}) holds {:?}", name, n, p),
                        Err(p) => return fail(format!("{}::new({}) panicked: {}", name, n, p)),
                    }
                    let all: Vec<u8> = sut("all", || $t::all().take(300).map(|x| x.get()).collect())?;
                    ensure!(all == (0..limit).collect::<Vec<_>>(), "{}::all() = {:?}", name, all);
                } else {
                    ensure!(checked.is_none(), "{}::new_checked({}) is not None", name, n);
                    if let Ok(p) = plain {
                        return Err(Fail { sig: format!("{}::new accepts {}", name, n), msg: format!("{}::new({}) does not panic, it holds {:?}", name, n, p) });
                    }
                }
            }};
        }
        match name {
            "Cell" => go!(Cell),
            "Row" => go!(Row),
            "Col" => go!(Col),
            "Block" => go!(Block),
            "Line" => go!(Line),
            "House" => go!(House),
            "MiniRow" => go!(MiniRow),
            "MiniCol" => go!(MiniCol),
            "MiniLine" => go!(MiniLine),
            "Band" => go!(Band),
            "Stack" => go!(Stack),
            "Chute" => go!(Chute),
            _ => unreachable!(),
        }
        Ok(())
    }

    /// Conversions of one valid position.
    fn conversions(&self, ty: usize, n: u8) -> Result<(), Fail> {
        let name = POS[ty].0;
        let cells = geometry(ty, n);
        macro_rules! same {
            ($what:expr, $x:expr) => {{
                let x = $x;
                ensure!(ids(x.cells()) == cells, "{} of {} {} has the cells {:?}, not {:?}", $what, name, n, ids(x.cells()), cells);
                x
            }};
        }
        macro_rules! has {
            ($what:expr, $x:expr) => {{
                let x = $x;
                let got = ids(x.cells());
                ensure!(got.contains(&n), "{} of cell {} has the cells {:?}", $what, n, got);
                x
            }};
        }
        match name {
            "Cell" => {
                let c = Cell::new(n);
                let (row, col) = (n / 9, n % 9);
                let r = has!("row()", c.row());
                let q = has!("col()", c.col());
                let b = has!("block()", c.block());
                ensure!((r.get(), q.get(), b.get()) == (row, col, row / 3 * 3 + col / 3), "cell {} in row, column, block {:?} {:?} {:?}", n, r, q, b);
                ensure!(has!("Row::from", Row::from(c)) == r && has!("Col::from", Col::from(c)) == q && has!("Block::from", Block::from(c)) == b, "conversions of cell {} differ from its methods", n);
                let band = has!("Band::from", Band::from(c));
                let stack = has!("Stack::from", Stack::from(c));
                ensure!(band.get() == row / 3 && stack.get() == col / 3, "cell {} in band {:?}, stack {:?}", n, band, stack);
                // where it is within each grouping, and back
                let pr = Position::<Row>::from(c);
                let pc = Position::<Col>::from(c);
                let pb = Position::<Block>::from(c);
                ensure!(r.cell_at(pr) == c && q.cell_at(pc) == c && b.cell_at(pb) == c, "cell {}: positions {:?} {:?} {:?} lead elsewhere", n, pr, pc, pb);
                ensure!(Line::from(r).cell_at(Position::<Line>::from(pr)) == c, "cell {}: position in its row as a line", n);
                ensure!(Line::from(q).cell_at(Position::<Line>::from(pc)) == c, "cell {}: position in its column as a line", n);
                ensure!(House::from(r).cell_at(Position::<House>::from(pr)) == c, "cell {}: position in its row as a house", n);
                ensure!(House::from(q).cell_at(Position::<House>::from(pc)) == c, "cell {}: position in its column as a house", n);
                ensure!(House::from(b).cell_at(Position::<House>::from(pb)) == c, "cell {}: position in its block as a house", n);
                ensure!(House::from(Line::from(r)).cell_at(Position::<House>::from(Position::<Line>::from(pr))) == c, "cell {}: position in its line as a house", n);
                // positions in a band are its cells in ascending order
                let p = Position::<Band>::from(c).get();
                ensure!(ids(band.cells()).get(p as usize) == Some(&n), "cell {}: position {} in band {:?}", n, p, band);
                for p in 0..27 {
                    ensure!(Position::<Band>::from(Position::<Chute>::new(p)).get() == p, "position {} in a chute as one in a band", p);
                }
            }
            "Row" => {
                let r = Row::new(n);
                ensure!(same!("Line", Line::from(r)).categorize() == LineType::Row(r), "line of {:?} is another", r);
                ensure!(same!("House", House::from(r)).categorize() == HouseType::Row(r), "house of {:?} is another", r);
            }
            "Col" => {
                let c = Col::new(n);
                ensure!(same!("Line", Line::from(c)).categorize() == LineType::Col(c), "line of {:?} is another", c);
                ensure!(same!("House", House::from(c)).categorize() == HouseType::Col(c), "house of {:?} is another", c);
            }
            "Block" => {
                let b = Block::new(n);
                ensure!(same!("House", House::from(b)).categorize() == HouseType::Block(b), "house of {:?} is another", b);
            }
            "Line" => {
                let l = Line::new(n);
                same!("House", House::from(l));
                match l.categorize() {
                    LineType::Row(r) => ensure!(Line::from(same!("Row", r)) == l && n < 9, "{:?} is {:?}", l, r),
                    LineType::Col(c) => ensure!(Line::from(same!("Col", c)) == l && n >= 9, "{:?} is {:?}", l, c),
                }
            }
            "House" => {
                let h = House::new(n);
                match h.categorize() {
                    HouseType::Row(r) => ensure!(House::from(same!("Row", r)) == h && n < 9, "{:?} is {:?}", h, r),
                    HouseType::Col(c) => ensure!(House::from(same!("Col", c)) == h && (9..18).contains(&n), "{:?} is {:?}", h, c),
                    HouseType::Block(b) => ensure!(House::from(same!("Block", b)) == h && n >= 18, "{:?} is {:?}", h, b),
                }
            }
            "MiniLine" => {
                let m = MiniLine::new(n);
                match m.categorize() {
                    MiniLineType::MiniRow(r) => ensure!(same!("MiniRow", r).get() == n, "{:?} is {:?}", m, r),
                    MiniLineType::MiniCol(c) => ensure!(same!("MiniCol", c).get() + 27 == n, "{:?} is {:?}", m, c),
                }
            }
            "Band" => {
                let b = Band::new(n);
                ensure!(same!("Chute", Chute::from(b)).categorize() == ChuteType::Band(b), "chute of {:?} is another", b);
            }
            "Stack" => {
                let s = Stack::new(n);
                ensure!(same!("Chute", Chute::from(s)).categorize() == ChuteType::Stack(s), "chute of {:?} is another", s);
            }
            "Chute" => {
                let c = Chute::new(n);
                match c.categorize() {
                    ChuteType::Band(b) => ensure!(Chute::from(same!("Band", b)) == c, "{:?} is {:?}", c, b),
                    ChuteType::Stack(s) => ensure!(Chute::from(same!("Stack", s)) == c, "{:?} is {:?}", c, s),
                }
            }
            _ => (),
        }
        Ok(())
    }

    /// Enumerating a grouping by positions: position k is its k-th cell.
    fn enumerated(&self, ty: usize, n: u8) -> Result<(), Fail> {
        let name = POS[ty].0;
        let at: Vec<u8> = match name {
            "Row" => (0..9).map(|p| Row::new(n).cell_at(Position::new(p)).get()).collect(),
            "Col" => (0..9).map(|p| Col::new(n).cell_at(Position::new(p)).get()).collect(),
            "Block" => (0..9).map(|p| Block::new(n).cell_at(Position::new(p)).get()).collect(),
            "Line" => (0..9).map(|p| Line::new(n).cell_at(Position::new(p)).get()).collect(),
            "House" => (0..9).map(|p| House::new(n).cell_at(Position::new(p)).get()).collect(),
            _ => return Ok(()),
        };
        ensure!(at == geometry(ty, n), "{} {} by positions: {:?}, its cells: {:?}", name, n, at, geometry(ty, n));
        Ok(())
    }

    fn positions(&self, ty: usize, n: u8, set: u16) -> Result<(), Fail> {
        let got = match POS[ty].0 {
            "Line" => Line::new(n).cells_at(Set::from_bits(set)),
            "House" => House::new(n).cells_at(Set::from_bits(set)),
            _ => unreachable!(),
        };
        let g = geometry(ty, n);
        let want: Vec<u8> = (0..9).filter(|&p| set >> p & 1 == 1).map(|p| g[p]).collect();
        ensure!(ids(got) == want, "{} {} at positions {:#011b}: {:?}, not {:?}", POS[ty].0, n, set, ids(got), want);
        Ok(())
    }

    fn candidate(&self, cell: u8, digit: u8) -> Result<(), Fail> {
        let got = try_sut(|| {
            let c = Candidate::new(cell, digit);
            (c.cell.get(), c.digit.get(), c.row().get(), c.col().get(), c.block().get())
        });
        let valid = cell < 81 && (1..=9).contains(&digit);
        match got {
            Ok(x) => {
                ensure!(valid, "Candidate::new({}, {}) does not panic", cell, digit);
                let (r, c) = (cell / 9, cell % 9);
                ensure!(x == (cell, digit, r, c, r / 3 * 3 + c / 3), "Candidate::new({}, {}) has cell, digit, row, column, block {:?}", cell, digit, x);
            }
            Err(p) => ensure!(!valid, "Candidate::new({}, {}) panicked: {}", cell, digit, p),
        }
        // the digit alone
        let checked = sut("Digit::new_checked", || Digit::new_checked(digit).map(|d| (d.get(), d.as_index() + 1)))?;
        let want = (1..=9).contains(&digit).then_some((digit, digit as usize));
        ensure!(checked == want, "Digit::new_checked({}) = {:?}", digit, checked);
        match try_sut(|| Digit::new(digit).get()) {
            Ok(d) => ensure!(want.is_some() && d == digit, "Digit::new({}) = {}", digit, d),
            Err(p) => ensure!(want.is_none(), "Digit::new({}) panicked: {}", digit, p),
        }
        let all: Vec<u8> = sut("Digit::all", || Digit::all().take(300).map(|d| d.get()).collect())?;
        ensure!(all == (1..=9).collect::<Vec<_>>(), "Digit::all() = {:?}", all);
        Ok(())
    }
}

const NUMBERS: u64 = 12 * 256;
const HOUSES: u64 = 18 + 27;

impl Prop for Positions {
    type Case = PosCase;
    fn id(&self) -> &'static str {
        "B02"
    }
    fn rule(&self) -> &'static str {
        "a number that is valid for the type, or the first above the valid ones, or 255; a set of at least two positions"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["complete: all twelve types with all numbers 0..=255, all sets of positions of all lines and houses, all pairs of numbers for candidates"]
    }
    fn exhaustive(&self) -> bool {
        true
    }
    fn required_classes(&self) -> Vec<&'static str> {
        vec!["valid", "invalid", "positions", "candidate"]
    }
    fn quota(&self, _: Tier) -> u64 {
        NUMBERS + HOUSES + 65536
    }
    fn chunk(&self) -> u64 {
        64
    }
    fn gen(&self, _seed: u64, i: u64) -> Option<PosCase> {
        if i < NUMBERS {
            return Some(PosCase::Number { ty: (i / 256) as usize, n: (i % 256) as u8 });
        }
        let i = i - NUMBERS;
        if i < HOUSES {
            let (ty, n) = if i < 18 { (4, i) } else { (5, i - 18) };
            return Some(PosCase::Positions { ty, n: n as u8, sets: (0..512).collect() });
        }
        let i = i - HOUSES;
        Some(PosCase::Candidate { cell: (i / 256) as u8, digit: (i % 256) as u8 })
    }
    fn check(&self, c: &PosCase, cx: &mut Ctx) -> Result<(), Fail> {
        match *c {
            PosCase::Number { ty, n } => {
                let valid = n < POS[ty].1;
                cx.label(if valid { "valid" } else { "invalid" });
                cx.nontrivial_if(valid || n == POS[ty].1 || n == 255);
                self.constructors(ty, n)?;
                if valid {
                    sut("position conversion", || {
                        self.conversions(ty, n)?;
                        self.enumerated(ty, n)
                    })??;
                }
                Ok(())
            }
            PosCase::Positions { ty, n, ref sets } => {
                cx.label("positions");
                cx.nontrivial_if(sets.iter().any(|s| s.count_ones() > 1));
                for &s in sets {
                    cx.evals += 1;
                    sut("cells_at", || self.positions(ty, n, s))??;
                }
                Ok(())
            }
            PosCase::Candidate { cell, digit } => {
                cx.label("candidate");
                cx.nontrivial_if([0, 80, 81, 255].contains(&cell) || [0, 1, 9, 10, 255].contains(&digit));
                self.candidate(cell, digit)
            }
        }
    }
    fn shrink(&self, c: &PosCase) -> Vec<PosCase> {
        match c {
            PosCase::Number { ty, n } => (0..*n).map(|n| PosCase::Number { ty: *ty, n }).collect(),
            PosCase::Positions { ty, n, sets } if sets.len() > 1 => {
                sets.iter().map(|&s| PosCase::Positions { ty: *ty, n: *n, sets: vec![s] }).collect()
            }
            PosCase::Positions { ty, n, sets } => {
                let s = sets[0];
                (0..9).filter(|i| s >> i & 1 == 1).map(|i| PosCase::Positions { ty: *ty, n: *n, sets: vec![s & !(1 << i)] }).collect()
            }
            PosCase::Candidate { cell, digit } => {
                let a = (0..*cell).map(|cell| PosCase::Candidate { cell, digit: *digit });
                let b = (0..*digit).map(|digit| PosCase::Candidate { cell: *cell, digit });
                a.chain(b).collect()
            }
        }
    }
    fn enc(&self, c: &PosCase) -> String {
        match c {
            PosCase::Number { ty, n } => format!("number {} {}", POS[*ty].0, n),
            PosCase::Positions { ty, n, sets } => {
                format!("positions {} {} {}", POS[*ty].0, n, sets.iter().map(|s| s.to_string()).collect::<Vec<_>>().join(","))
            }
            PosCase::Candidate { cell, digit } => format!("candidate {} {}", cell, digit),
        }
    }
    fn dec(&self, s: &str) -> Option<PosCase> {
        let p: Vec<&str> = s.split(' ').collect();
        let ty = |name: &str| POS.iter().position(|t| t.0 == name);
        Some(match (*p.first()?, p.len()) {
            ("number", 3) => PosCase::Number { ty: ty(p[1])?, n: p[2].parse().ok()? },
            ("positions", 4) => PosCase::Positions {
                ty: ty(p[1])?,
                n: p[2].parse().ok()?,
                sets: p[3].split(',').map(|x| x.parse().ok()).collect::<Option<_>>()?,
            },
            ("candidate", 3) => PosCase::Candidate { cell: p[1].parse().ok()?, digit: p[2].parse().ok()? },
            _ => return None,
        })
    }
}
