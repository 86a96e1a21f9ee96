//! Runs a property over generated cases, shrinks failures, writes replay and evidence files.
use crate::rng::Rng;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A violation of the property.
#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

pub fn fail<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: String::new(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond { return $crate::engine::fail(format!($($arg)*)); }
    };
}

/// What a case turned out to be.
#[derive(Default)]
pub struct Ctx {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub evals: u64,
    pub distinct: Vec<u64>, // hashes of distinct non-trivial sub-cases, if the case is a batch
}
impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        self.label_if(true, l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c && !self.labels.contains(&l) {
            self.labels.push(l)
        }
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
}

pub trait Prop: Sync {
    type Case: Clone + Send + Sync;
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
    /// number of cases
    fn quota(&self, tier: Tier) -> u64;
    /// number of consecutive cases handled by one thread
    fn chunk(&self) -> u64 {
        16
    }
    /// `None`: nothing could be made from this part of the stream (counted as discarded)
    fn gen(&self, seed: u64, index: u64) -> Option<Self::Case>;
    fn check(&self, case: &Self::Case, cx: &mut Ctx) -> Result<(), Fail>;
    fn shrink(&self, case: &Self::Case) -> Vec<Self::Case>;
    fn enc(&self, case: &Self::Case) -> String;
    fn dec(&self, s: &str) -> Option<Self::Case>;
    /// classes that must not be empty; an empty one is an error of the harness
    fn required_classes(&self) -> Vec<&'static str> {
        vec![]
    }
    fn exhaustive(&self) -> bool {
        false
    }
}

// ---------------------------------------------------------------------------------------------
// calls into the crate under test

thread_local! {
    static IN_SUT: RefCell<u32> = const { RefCell::new(0) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_SUT.with(|f| *f.borrow() > 0) {
            LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string());
        } else {
            default(info);
        }
    }));
}

/// Result of a call that may panic.
pub fn try_sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_SUT.with(|x| *x.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.with(|x| *x.borrow_mut() -= 1);
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// Runs a call into the crate; a panic is a violation.
pub fn sut<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    try_sut(f).map_err(|p| Fail {
        sig: format!("panic:{}", what),
        msg: format!("{} panicked: {}", what, p.replace('\n', " ")),
    })
}

/// Runs `f` in a fresh thread whose thread-local random generator is seeded with `seed`.
pub fn in_seeded_thread<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        s.spawn(move || {
            getrandom::set_thread_seed(seed);
            f()
        })
        .join()
        .unwrap_or_else(|e| std::panic::resume_unwind(e))
    })
}

// ---------------------------------------------------------------------------------------------

pub struct Opts {
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
    pub verif: PathBuf,
    pub inflight: Option<PathBuf>,
    /// which build of the crate this is
    pub build: String,
    /// where the evidence goes, if not to its usual place
    pub evidence: Option<PathBuf>,
    /// evidence of a run with another build
    pub aside: Option<PathBuf>,
    pub scale: f64, // multiplies the quota (for calibration)
    pub only: Option<u64>,
}

#[derive(Clone)]
pub struct Known {
    pub property: String,
    pub signature: String,
    pub what: String,
}

pub fn load_known(verif: &std::path::Path) -> Vec<Known> {
    let path = verif.join("KNOWN_FINDINGS.txt");
    let text = std::fs::read_to_string(&path).unwrap_or_default();
    let mut out = vec![];
    for line in text.lines() {
        // known: property=<id> signature=<signature> <what fails>
        let Some(rest) = line.strip_prefix("known: property=") else { continue };
        let mut p = rest.splitn(3, ' ');
        let (id, sig, what) = (p.next().unwrap(), p.next().expect("no signature"), p.next().unwrap_or(""));
        out.push(Known {
            property: id.into(),
            signature: sig.strip_prefix("signature=").expect("no signature").into(),
            what: what.into(),
        });
    }
    out
}

fn hash_str(s: &str) -> u64 {
    // FNV-1a, finalised
    crate::rng::mix(crate::rng::mix_str(s))
}

fn one_line(s: &str, max: usize) -> String {
    let mut t: String = s.chars().take(max).collect();
    if t.len() < s.len() {
        t.push_str(" ...");
    }
    t
}

pub fn write_replay<P: Prop>(p: &P, opts: &Opts, enc: &str, msg: &str, orig: &str, index: u64) -> PathBuf {
    let dir = opts.verif.join("replays");
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join(format!("{}-{:016x}.json", p.id(), hash_str(enc)));
    let v = json!({"property": p.id(), "case": enc, "message": msg, "found_as": orig,
                   "index": index, "seed": opts.seed, "build": opts.build});
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n").unwrap();
    path
}

/// Seconds spent on shrinking.
const SHRINK_S: u64 = 60;

/// The violation as shrunk so far, for the supervisor in case shrinking brings the process down.
pub fn best_file(inflight: &std::path::Path) -> PathBuf {
    inflight.with_extension("best")
}

pub fn shrink_case<P: Prop>(
    p: &P, opts: &Opts, index: u64, case: P::Case, fail: Fail, known: &[Known], budget: usize, out: &Mutex<(P::Case, Fail)>,
) {
    let orig = p.enc(&case);
    let note = |c: &P::Case, f: &Fail| {
        if let Some(file) = &opts.inflight {
            let path = write_replay(p, opts, &p.enc(c), &f.msg, &orig, index);
            let tmp = file.with_extension("tmp");
            std::fs::write(&tmp, format!("case {}: {}\nVIOLATION property={} replay={}\n", index, one_line(&f.msg, 1500), p.id(), path.display())).unwrap();
            std::fs::rename(&tmp, best_file(file)).unwrap();
        }
    };
    note(&case, &fail);
    let mut best = case;
    let mut left = budget;
    let end = std::time::Instant::now() + std::time::Duration::from_secs(SHRINK_S);
    'outer: loop {
        for cand in p.shrink(&best) {
            if left == 0 || std::time::Instant::now() > end {
                break 'outer;
            }
            left -= 1;
            let mut cx = Ctx::default();
            // an error of the harness on an odd shrunk case must not hide the violation
            let res = catch_unwind(AssertUnwindSafe(|| p.check(&cand, &mut cx)));
            if let Ok(Err(f)) = res {
                if known.iter().any(|k| k.property == p.id() && k.signature == f.sig) {
                    continue;
                }
                if let Some(file) = &opts.inflight {
                    if best_file(file).exists() {
                        let old = opts.verif.join("replays").join(format!("{}-{:016x}.json", p.id(), hash_str(&p.enc(&best))));
                        note(&cand, &f);
                        let _ = std::fs::remove_file(old);
                    }
                }
                *out.lock().unwrap() = (cand.clone(), f);
                best = cand;
                continue 'outer;
            }
        }
        break;
    }
}

struct Shared {
    classes: BTreeMap<&'static str, u64>,
    evals: u64,
    nontrivial: u64,
    discarded: u64,
    distinct: HashSet<u64>,
    samples: BTreeMap<u64, String>,
    known: BTreeMap<String, (String, u64)>,
    fails: Vec<(u64, Fail)>,
}

pub fn run<P: Prop>(p: &P, opts: &Opts) -> i32 {
    let start = std::time::Instant::now();
    let known = load_known(&opts.verif);
    let quota = ((p.quota(opts.tier) as f64 * opts.scale).ceil() as u64).max(1);
    let chunk = p.chunk().max(1);
    let next = AtomicU64::new(0);
    let min_fail = AtomicU64::new(u64::MAX);
    let shared = Mutex::new(Shared {
        classes: BTreeMap::new(),
        evals: 0,
        nontrivial: 0,
        discarded: 0,
        distinct: HashSet::new(),
        samples: BTreeMap::new(),
        known: BTreeMap::new(),
        fails: vec![],
    });
    let inflight = opts.inflight.as_ref().map(|f| {
        let file = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(f).unwrap();
        for t in 0..opts.threads {
            file.write_all_at(&u64::MAX.to_le_bytes(), t as u64 * 8).unwrap();
        }
        file
    });
    let (from, to) = match opts.only {
        Some(i) => (i, i + 1),
        None => (0, quota),
    };
    next.store(from, Ordering::SeqCst);

    let broken = std::thread::scope(|s| {
        let handles: Vec<_> = (0..opts.threads)
            .map(|t| {
                let (next, min_fail, shared, known, inflight) = (&next, &min_fail, &shared, &known, &inflight);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut classes: BTreeMap<&'static str, u64> = BTreeMap::new();
                        let mut distinct = HashSet::new();
                        let (mut evals, mut nontrivial, mut discarded) = (0u64, 0u64, 0u64);
                        loop {
                            let lo = next.fetch_add(chunk, Ordering::SeqCst);
                            if lo >= to || lo > min_fail.load(Ordering::SeqCst) {
                                break;
                            }
                            for i in lo..(lo + chunk).min(to) {
                                if let Some(f) = inflight {
                                    f.write_all_at(&i.to_le_bytes(), t as u64 * 8).unwrap();
                                }
                                let case = match p.gen(opts.seed, i) {
                                    Some(c) => c,
                                    None => {
                                        discarded += 1;
                                        continue;
                                    }
                                };
                                let mut cx = Ctx { evals: 1, ..Ctx::default() };
                                let res = p.check(&case, &mut cx);
                                evals += cx.evals;
                                for l in &cx.labels {
                                    *classes.entry(l).or_insert(0) += 1;
                                }
                                if !cx.distinct.is_empty() {
                                    nontrivial += cx.distinct.len() as u64;
                                    distinct.extend(cx.distinct.drain(..));
                                    cx.nontrivial = true;
                                } else if cx.nontrivial {
                                    nontrivial += 1;
                                    distinct.insert(hash_str(&p.enc(&case)));
                                }
                                if cx.nontrivial && (i < 4 * chunk && i % chunk == 0 || i % (quota / 4 + 1) == 1) {
                                    let mut sh = shared.lock().unwrap();
                                    let text = format!("[{}] {}", cx.labels.join(" "), one_line(&p.enc(&case), 400));
                                    sh.samples.insert(i, text);
                                }
                                if let Err(f) = res {
                                    let mut sh = shared.lock().unwrap();
                                    if let Some(k) =
                                        known.iter().find(|k| k.property == p.id() && k.signature == f.sig)
                                    {
                                        sh.known.entry(k.signature.clone()).or_insert((k.what.clone(), 0)).1 += 1;
                                    } else {
                                        sh.fails.push((i, f));
                                        min_fail.fetch_min(i, Ordering::SeqCst);
                                        break;
                                    }
                                }
                            }
                        }
                        if let Some(f) = inflight {
                            f.write_all_at(&u64::MAX.to_le_bytes(), t as u64 * 8).unwrap();
                        }
                        let mut sh = shared.lock().unwrap();
                        for (k, v) in classes {
                            *sh.classes.entry(k).or_insert(0) += v;
                        }
                        sh.evals += evals;
                        sh.nontrivial += nontrivial;
                        sh.discarded += discarded;
                        sh.distinct.extend(distinct);
                    })
                    .unwrap()
            })
            .collect();
        let mut broken = false;
        for h in handles {
            broken |= h.join().is_err();
        }
        broken
    });
    let sh = match shared.into_inner() {
        Ok(s) => s,
        Err(e) => e.into_inner(),
    };
    if broken && sh.fails.is_empty() {
        eprintln!("error: the harness itself failed");
        return 2;
    }
    if opts.only.is_some() {
        return if sh.fails.is_empty() { 0 } else { 1 };
    }

    let mut exit = 0;
    let mut violations = 0;
    if let Some((i, f)) = sh.fails.iter().min_by_key(|x| x.0) {
        let case = p.gen(opts.seed, *i).unwrap();
        let orig = p.enc(&case);
        // shrinking may run into a smaller case on which the crate does not end: bounded in time
        let best = Mutex::new((case.clone(), f.clone()));
        let done = std::sync::atomic::AtomicBool::new(false);
        let report = |small: &P::Case, sf: &Fail| {
            let path = write_replay(p, opts, &p.enc(small), &sf.msg, &orig, *i);
            println!("case {}: {}", i, one_line(&f.msg, 1500));
            println!("shrunk: {} -- {}", one_line(&p.enc(small), 1500), one_line(&sf.msg, 1500));
            println!("VIOLATION property={} replay={}", p.id(), path.display());
        };
        std::thread::scope(|s| {
            s.spawn(|| {
                let end = std::time::Instant::now() + std::time::Duration::from_secs(SHRINK_S + 60);
                while !done.load(Ordering::SeqCst) {
                    std::thread::sleep(std::time::Duration::from_millis(20));
                    if std::time::Instant::now() > end {
                        let b = best.lock().unwrap().clone();
                        report(&b.0, &b.1);
                        std::process::exit(1);
                    }
                }
            });
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || {
                    shrink_case(p, opts, *i, case, f.clone(), &known, 3000, &best);
                    done.store(true, Ordering::SeqCst);
                })
                .unwrap();
        });
        let mut b = best.into_inner().unwrap();
        // what was found may depend on what the process did before: prefer a case that fails on its own
        let holds = |c: &P::Case| {
            let st = std::process::Command::new(std::env::current_exe().unwrap())
                .args(["replay-case", p.id(), &p.enc(c)])
                .stdin(std::process::Stdio::null())
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .status();
            matches!(st, Ok(st) if st.code() == Some(0))
        };
        if opts.inflight.is_some() && p.enc(&b.0).len() < 60_000 && holds(&b.0) {
            let case = p.gen(opts.seed, *i).unwrap();
            if !holds(&case) {
                b = (case, f.clone());
            }
        }
        report(&b.0, &b.1);
        exit = 1;
        violations = 1;
    } else if opts.scale >= 1.0 {
        let missing: Vec<_> = p.required_classes().into_iter().filter(|c| !sh.classes.contains_key(c)).collect();
        if !missing.is_empty() {
            eprintln!("error: no case of class {:?} was generated", missing);
            exit = 2;
        }
    }
    for (sig, (what, n)) in &sh.known {
        println!("KNOWN-FINDING: property={} {} [{}; {} cases]", p.id(), what, sig, n);
    }
    let wall = start.elapsed().as_secs_f64();
    let samples: Vec<_> = sh.samples.values().take(8).cloned().collect();
    let mut evidence = json!({
        "property": p.id(),
        "tier": if opts.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": opts.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sh.evals,
            "distinct_nontrivial": sh.distinct.len(),
            "nontrivial": sh.nontrivial,
            "discarded": sh.discarded,
            "rule": p.rule(),
            "classes": sh.classes,
            "samples": samples,
            "exhaustive": p.exhaustive(),
        },
        "assumptions": p.assumptions(),
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations,
    });
    evidence["coverage"]["build"] = json!(opts.build);
    if let Some(v) = opts.aside.as_ref().and_then(|f| std::fs::read_to_string(f).ok()).and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok()) {
        let c = &v["coverage"];
        evidence["coverage"]["other_build"] = json!({
            "build": c["build"], "evaluations": c["evaluations"], "distinct_nontrivial": c["distinct_nontrivial"],
            "violations": v["violations"],
        });
    }
    let file = opts.evidence.clone().unwrap_or_else(|| opts.verif.join("evidence").join(format!("{}.json", p.id())));
    std::fs::create_dir_all(file.parent().unwrap()).unwrap();
    std::fs::write(&file, serde_json::to_string_pretty(&evidence).unwrap() + "\n").unwrap();
    println!(
        "{}: {} cases, {} distinct non-trivial, {} discarded, {:.1} s",
        p.id(), sh.evals, sh.distinct.len(), sh.discarded, wall
    );
    exit
}

pub fn replay<P: Prop>(p: &P, opts: &Opts, enc: &str) -> i32 {
    let case = match p.dec(enc) {
        Some(c) => c,
        None => {
            eprintln!("error: cannot decode the case");
            return 2;
        }
    };
    let known = load_known(&opts.verif);
    let mut cx = Ctx::default();
    match p.check(&case, &mut cx) {
        Ok(()) => {
            println!("{}: the property holds on this case [{}]", p.id(), cx.labels.join(" "));
            0
        }
        Err(f) if known.iter().any(|k| k.property == p.id() && k.signature == f.sig) => {
            println!("KNOWN-FINDING: property={} {}", p.id(), f.msg);
            0
        }
        Err(f) => {
            println!("{}", f.msg);
            1
        }
    }
}

/// Stream for a base object shared by a group of consecutive cases.
pub fn base_rng(seed: u64, id: &str, group: u64) -> Rng {
    Rng::for_case(seed, &format!("{}/base", id), group)
}
