//! C01: answers are functions of the arguments, in any order of calls and in concurrent threads.
use super::solver::mk;
use super::strategy::arbitrary_list;
use crate::engine::*;
use crate::ensure;
use crate::refm::{gen, grid::*, solve};
use crate::rng::Rng;
use rand::SeedableRng;
use sudoku::board::{Candidate, Cell};
use sudoku::strategy::StrategySolver;
use sudoku::{Sudoku, Symmetry};
use std::sync::atomic::{AtomicUsize, Ordering};

const OPS: &[&str] = &[
    "solutions", "count", "unique", "solution", "some", "buffer", "solved", "canonical", "clues", "line", "block", "permissive",
    "render", "json", "generate", "generate-solved", "strategies", "steps", "shuffle",
];

/// One call: operation, grid and a number (limit, seed, ...).
#[derive(Clone, PartialEq)]
pub struct Job {
    op: usize,
    g: G,
    n: u64,
}

#[derive(Clone)]
pub struct PureCase {
    jobs: Vec<Job>,
    rounds: usize,
    /// so many rounds, in order and on one thread only
    marathon: usize,
}

pub struct Purity;

const SYMMETRIES: [Symmetry; 10] = [
    Symmetry::VerticalMirror, Symmetry::HorizontalMirror, Symmetry::VerticalAndHorizontalMirror, Symmetry::DiagonalMirror,
    Symmetry::AntidiagonalMirror, Symmetry::BidiagonalMirror, Symmetry::HalfRotation, Symmetry::QuarterRotation,
    Symmetry::Dihedral, Symmetry::None,
];

/// One case in so many repeats its calls thousands of times.
const MARATHONS: u64 = 500;

fn lines(v: &[Sudoku]) -> String {
    v.iter().map(|s| super::solver::to_safe(&s.to_bytes())).collect::<Vec<_>>().join(" ")
}

/// Everything the call returns, as text.
fn answer(j: &Job) -> String {
    let Job { op, g, n } = j.clone();
    let text = || -> String {
        let s = match Sudoku::from_bytes(g) {
            Ok(s) => s,
            Err(e) => return format!("{:?}", e),
        };
        let limit = n as usize;
        match OPS[op] {
            "solutions" => lines(&s.solutions_up_to(limit)),
            "count" => s.solutions_count_up_to(limit).to_string(),
            "unique" => s.is_uniquely_solvable().to_string(),
            "solution" => format!("{:?}", s.solution()),
            "some" => format!("{:?}", s.some_solution()),
            "buffer" => {
                let mut buf = vec![[99; 81]; limit / 2];
                let k = s.solutions_up_to_buffer(&mut buf, limit);
                format!("{} {:?}", k, buf)
            }
            "solved" => s.is_solved().to_string(),
            "canonical" => format!("{:?}", s.canonicalized()),
            "clues" => format!("{} {:?}", s.n_clues(), s.iter().collect::<Vec<_>>()),
            "line" => format!("{:?}", Sudoku::from_str_line(&mangle(to_line(&g), n))),
            "block" => format!("{:?}", Sudoku::from_str_block(&mangle(s.display_block().to_string(), n))),
            "permissive" => format!("{:?}", Sudoku::from_str_block_permissive(&mangle(s.display_block().to_string(), n))),
            "render" => format!("{} {} {}", s, s.to_str_line(), s.display_block()),
            "json" => {
                let t = serde_json::to_string(&s).unwrap();
                format!("{} {:?}", t, serde_json::from_str::<Sudoku>(&t).ok())
            }
            "generate" => {
                let mut rng = rand::rngs::StdRng::seed_from_u64(n);
                let p = Sudoku::generate_with_symmetry_and_rng_from(s, SYMMETRIES[n as usize % 10], &mut rng);
                format!("{:?}", p)
            }
            "generate-solved" => {
                let mut rng = rand::rngs::StdRng::seed_from_u64(n);
                format!("{:?}", Sudoku::generate_solved_with_rng(&mut rng))
            }
            "strategies" => {
                let list = arbitrary_list(&mut Rng::new(n));
                let (ok, s, d) = match StrategySolver::from_sudoku(s).solve(&list) {
                    Ok((s, d)) => (true, s, d),
                    Err((s, d)) => (false, s, d),
                };
                format!("{} {:?} {:?}", ok, s, d)
            }
            "steps" => {
                let mut r = Rng::new(n);
                let mut st = StrategySolver::from_sudoku(s);
                let mut out = String::new();
                for _ in 0..r.range(1, 12) {
                    out += &match r.below(4) {
                        0 => format!("{:?} ", st.cell_state(Cell::new(r.below(81) as u8))),
                        1 => st.to_string(),
                        _ => format!("{:?} ", st.insert_candidate(Candidate::new(r.below(81) as u8, r.range(1, 9) as u8))),
                    };
                }
                format!("{} {:?} {:?} {}", out, st.to_sudoku(), st.grid_state(), st.is_solved())
            }
            "shuffle" => in_seeded_thread(n, move || format!("{:?}", s.shuffled())),
            _ => unreachable!(),
        }
    };
    try_sut(text).unwrap_or_else(|p| format!("panic: {}", p))
}

/// A small change to a text, or none.
fn mangle(mut t: String, n: u64) -> String {
    let mut r = Rng::new(n);
    let chars: Vec<usize> = t.char_indices().map(|c| c.0).collect();
    match r.below(4) {
        0 => t.truncate(*r.pick(&chars)),
        1 => t.insert(*r.pick(&chars), *r.pick(&['x', ' ', '3', '\n', '.', 'é'])),
        _ => (),
    }
    t
}

impl Prop for Purity {
    type Case = PureCase;
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "One case = a list of 2 to 20 calls (19 operations of the crate on related and unrelated grids). Each is answered in order, in reverse order, in the \
         order twice each, and by three threads that go through the list at the same time from different places; all answers to a call must be equal. One list in 500 is \
         short and is answered thousands of times on one thread instead. \
         Non-trivial: at least two different operations and two different grids."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "thread schedules are those the operating system happens to produce; a failure that depends on one may need several replays",
            "thread_rng is seeded alike for repeated calls of shuffle",
        ]
    }
    fn quota(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 30_000,
            Tier::Thorough => 2_000_000,
        }
    }
    fn required_classes(&self) -> Vec<&'static str> {
        OPS.iter().copied().chain(["thousands-of-calls"]).collect()
    }
    fn gen(&self, seed: u64, index: u64) -> Option<PureCase> {
        let mut r = Rng::for_case(seed, "C01", index);
        let mut bases = vec![];
        for k in 0..2 {
            bases.push(gen::base(seed, "C01", (index / gen::GROUP) * 2 + k));
        }
        // a pool of grids, some of them close to each other
        let mut pool: Vec<G> = vec![];
        for _ in 0..r.range(2, 6) {
            let b = r.pick(&bases).clone();
            let g = match r.below(10) {
                // solved grids (or puzzles of them) that agree in some rows, columns or digits
                7 if !pool.is_empty() => {
                    let mut g = *r.pick(&pool);
                    let (y, k) = (3 * r.below(3), r.below(3));
                    let (a, b) = (y + k, y + (k + r.range(1, 2)) % 3);
                    for i in 0..9 {
                        if k == 0 {
                            g.swap(a * 9 + i, b * 9 + i);
                        } else {
                            g.swap(i * 9 + a, i * 9 + b);
                        }
                    }
                    g
                }
                8 if !pool.is_empty() => {
                    let mut g = *r.pick(&pool);
                    let (a, b) = (r.range(1, 9) as u8, r.range(1, 9) as u8);
                    for x in g.iter_mut() {
                        *x = if *x == a { b } else if *x == b { a } else { *x };
                    }
                    g
                }
                9 => {
                    let mut g = b.sol;
                    let keep = [r.below(27), r.below(27), r.below(27), r.below(27)];
                    let (keep, p) = (&keep[..r.range(1, 4)], r.range(20, 60));
                    for c in 0..81 {
                        if !keep.iter().any(|&h| houses()[h].contains(&c)) && !r.chance(p, 100) {
                            g[c] = 0;
                        }
                    }
                    solve::random_solution(&g, &mut r).unwrap_or(b.sol)
                }
                0 => b.sol,
                1 => b.minimal,
                2 => gen::arbitrary_grid(&mut r),
                3 if !pool.is_empty() => {
                    let mut g = *r.pick(&pool);
                    let c = r.below(81);
                    g[c] = if g[c] == 0 { b.sol[c] } else { 0 };
                    g
                }
                4 => {
                    let k = r.range(1, 6);
                    gen::drop_clues(&b.minimal, k, &mut r)
                }
                _ => gen::puzzle(&b, &mut r, None)?.0,
            };
            if solve::count(&g, 300).is_err() {
                return None;
            }
            pool.push(g);
        }
        let mut jobs = vec![];
        let marathon = index % MARATHONS == 5;
        let own = (index / MARATHONS) as usize % OPS.len();
        for k in 0..if marathon { 3 } else { r.range(2, 20) } {
            let op = if marathon && k < 2 { own } else { r.below(OPS.len()) };
            let n = match OPS[op] {
                "solutions" | "count" | "buffer" if marathon => *r.pick(&[1u64, 2, 3, 10]),
                "solutions" | "count" | "buffer" => *r.pick(&[0u64, 1, 2, 3, 10, 100, 300]),
                _ => r.next() >> 40,
            };
            jobs.push(Job { op, g: *r.pick(&pool), n });
        }
        let slow = |j: &Job| ["canonical", "generate", "strategies", "steps", "shuffle", "solutions", "count", "buffer", "generate-solved"].contains(&OPS[j.op]);
        let marathon = match marathon {
            true if jobs.iter().any(slow) => 2_500,
            true => 33_000,
            false => 0,
        };
        Some(PureCase { jobs, rounds: 1, marathon })
    }
    fn check(&self, c: &PureCase, cx: &mut Ctx) -> Result<(), Fail> {
        for j in &c.jobs {
            cx.label(OPS[j.op]);
            mk(&j.g)?;
        }
        if c.marathon > 0 {
            cx.label("thousands-of-calls");
        }
        cx.nontrivial_if(c.jobs.iter().any(|j| j.op != c.jobs[0].op) && c.jobs.iter().any(|j| j.g != c.jobs[0].g));
        let n = c.jobs.len();
        let rounds = || -> Result<(), Fail> {
          if c.marathon > 0 {
            let first: Vec<String> = c.jobs.iter().map(answer).collect();
            for k in 1..c.marathon {
                for (j, first) in c.jobs.iter().zip(&first) {
                    let got = answer(j);
                    ensure!(got == *first, "call {} of {}: the answer {} differs from the first one, {}", k, enc_job(j), cut(&got), cut(first));
                }
            }
            return Ok(());
          }
          for _ in 0..c.rounds {
            let first: Vec<String> = c.jobs.iter().map(answer).collect();
            let same = |i: usize, got: &String, how: &str| {
                ensure!(*got == first[i], "{} {}: the answer {} differs from the first one, {}", how, enc_job(&c.jobs[i]), cut(got), cut(&first[i]));
                Ok(())
            };
            for i in (0..n).rev() {
                same(i, &answer(&c.jobs[i]), "in reverse order")?;
            }
            for i in 0..n {
                for _ in 0..2 {
                    same(i, &answer(&c.jobs[i]), "twice in a row")?;
                }
            }
            // concurrently
            let ready = AtomicUsize::new(0);
            let outs: Vec<Vec<(usize, String)>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..3)
                    .map(|t| {
                        let ready = &ready;
                        s.spawn(move || {
                            ready.fetch_add(1, Ordering::SeqCst);
                            while ready.load(Ordering::SeqCst) < 3 {
                                std::thread::yield_now();
                            }
                            (0..n).map(|i| (i + t * n / 3) % n).map(|i| (i, answer(&c.jobs[i]))).collect()
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for (i, got) in outs.iter().flatten() {
                same(*i, got, "in concurrent threads")?;
            }
          }
          Ok(())
        };
        // a thread without a past
        std::thread::scope(|s| s.spawn(rounds).join().unwrap())
    }
    fn shrink(&self, c: &PureCase) -> Vec<PureCase> {
        let with = |jobs: Vec<Job>| PureCase { jobs, rounds: 5, marathon: c.marathon };
        let mut v = vec![];
        if c.marathon > 1 {
            v.push(PureCase { marathon: c.marathon / 2, ..c.clone() });
            v.push(PureCase { marathon: c.marathon - 1, ..c.clone() });
        }
        let n = c.jobs.len();
        for k in [n / 2, n / 4, 1] {
            if k == 0 || k >= n {
                continue;
            }
            for from in (0..n).step_by(k) {
                let mut jobs = c.jobs.clone();
                jobs.drain(from..(from + k).min(n));
                if !jobs.is_empty() {
                    v.push(with(jobs));
                }
            }
        }
        for i in 0..n {
            for m in [0, 1, 2, c.jobs[i].n / 2] {
                if m < c.jobs[i].n {
                    let mut jobs = c.jobs.clone();
                    jobs[i].n = m;
                    v.push(with(jobs));
                }
            }
            // the same grid for all
            if c.jobs[i].g != c.jobs[0].g {
                let mut jobs = c.jobs.clone();
                jobs[i].g = jobs[0].g;
                v.push(with(jobs));
            }
        }
        v
    }
    fn enc(&self, c: &PureCase) -> String {
        format!("{}/{}", c.marathon, c.jobs.iter().map(enc_job).collect::<Vec<_>>().join(";"))
    }
    fn dec(&self, s: &str) -> Option<PureCase> {
        let mut jobs = vec![];
        let (marathon, s) = s.split_once('/')?;
        for t in s.split(';') {
            let p: Vec<&str> = t.split(':').collect();
            let [op, g, n] = p[..] else { return None };
            jobs.push(Job { op: OPS.iter().position(|o| *o == op)?, g: from_line(g)?, n: n.parse().ok()? });
        }
        Some(PureCase { jobs, rounds: 40, marathon: marathon.parse().ok()? })
    }
}

fn enc_job(j: &Job) -> String {
    format!("{}:{}:{}", OPS[j.op], to_line(&j.g), j.n)
}

fn cut(s: &str) -> String {
    s.chars().take(300).collect()
}
