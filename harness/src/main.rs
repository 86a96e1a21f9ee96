//! `pbt check ID`   supervises `pbt run ID` in a child process (crashes become violations)
//! `pbt run ID`     runs the property
//! `pbt replay F`   runs the case of a replay file
mod engine;
mod mkdata;
mod props;
mod refm;
mod rng;

use engine::*;
use std::io::Read;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};

enum What<'a> {
    Run,
    Replay(&'a str),
    Encode(u64),
    Shrinks(&'a str),
}

fn go<P: Prop>(p: P, opts: &Opts, what: What) -> i32 {
    match what {
        What::Run => run(&p, opts),
        What::Replay(s) => replay(&p, opts, s),
        What::Encode(i) => match p.gen(opts.seed, i) {
            Some(c) => {
                println!("{}", p.enc(&c));
                0
            }
            None => 2,
        },
        // candidates for a smaller case, one JSON string per line
        What::Shrinks(s) => match p.dec(s) {
            Some(c) => {
                for x in p.shrink(&c) {
                    println!("{}", serde_json::to_string(&p.enc(&x)).unwrap());
                }
                0
            }
            None => 2,
        },
    }
}

fn dispatch(id: &str, opts: &Opts, what: What) -> i32 {
    use props::*;
    match id {
        "S01" => go(solver::Solver { id: "S01" }, opts, what),
        "S02" => go(solver::Solver { id: "S02" }, opts, what),
        "S03" => go(solver::Solver { id: "S03" }, opts, what),
        "S05" => go(solver::Solver { id: "S05" }, opts, what),
        "S04" => go(solver::IsSolved, opts, what),
        "T01" => go(transform::Shuffle, opts, what),
        "T02" => go(transform::ShuffleReach, opts, what),
        "T03" => go(transform::Canonical { count: false }, opts, what),
        "T04" => go(transform::Canonical { count: true }, opts, what),
        "G01" => go(generate::Solved, opts, what),
        "G02" => go(generate::Puzzles { id: "G02" }, opts, what),
        "G03" => go(generate::Puzzles { id: "G03" }, opts, what),
        "G04" => go(generate::Puzzles { id: "G04" }, opts, what),
        "F01" => go(formats::Text { id: "F01" }, opts, what),
        "F02" => go(formats::Text { id: "F02" }, opts, what),
        "F03" => go(formats::Text { id: "F03" }, opts, what),
        "F04" => go(formats::Bytes, opts, what),
        "F05" => go(formats::Render, opts, what),
        "F06" => go(formats::Serde, opts, what),
        "B01" => go(sets::Sets, opts, what),
        "B02" => go(sets::Positions, opts, what),
        "R01" => go(strategy::Strategies { id: "R01" }, opts, what),
        "R02" => go(strategy::Strategies { id: "R02" }, opts, what),
        "R03" => go(strategy::Strategies { id: "R03" }, opts, what),
        "C01" => go(purity::Purity, opts, what),
        "R04" => go(strategy::Steps, opts, what),
        "R05" => go(strategy::Invariance, opts, what),
        _ => {
            eprintln!("error: unknown property {}", id);
            2
        }
    }
}

/// Runs a child of this program; `None` if it did not end in time.
fn child(args: &[String], quiet: bool, timeout_s: u64) -> Option<(std::process::ExitStatus, String)> {
    child_watched(args, quiet, timeout_s, &mut || false)
}

/// As `child`, but also stops when `stuck` says so (asked once per second).
fn child_watched(args: &[String], quiet: bool, timeout_s: u64, stuck: &mut dyn FnMut() -> bool) -> Option<(std::process::ExitStatus, String)> {
    let exe = std::env::current_exe().unwrap();
    let mut cmd = Command::new(exe);
    cmd.args(args).stdin(Stdio::null()).stdout(Stdio::piped());
    if quiet {
        cmd.stderr(Stdio::null());
    }
    let mut ch = cmd.spawn().expect("cannot start the child");
    let mut out = ch.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = out.read_to_string(&mut s);
        s
    });
    let end = std::time::Instant::now() + std::time::Duration::from_secs(timeout_s);
    let mut ticks = 0u64;
    loop {
        ticks += 1;
        if let Some(st) = ch.try_wait().unwrap() {
            return Some((st, reader.join().unwrap()));
        }
        if std::time::Instant::now() > end || ticks % 50 == 0 && stuck() {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
}

fn crash_signal(st: &std::process::ExitStatus) -> Option<i32> {
    // SIGILL, SIGTRAP, SIGABRT, SIGBUS, SIGFPE, SIGSEGV; not SIGKILL or SIGTERM (memory, time)
    st.signal().filter(|s| [4, 5, 6, 7, 8, 11].contains(s))
}

/// Seconds after which a case counts as stuck; the slowest cases take a few seconds.
const STUCK: u64 = 60;

/// Runs the stuck case alone; if that does not end either, the crate does not terminate on it.
fn confirm_hang(id: &str, opts: &Opts, pass: &[String], i: u64) -> i32 {
    let mut a: Vec<String> = vec!["encode".into(), id.into(), i.to_string()];
    a.extend_from_slice(pass);
    let enc = match child(&a, true, 100) {
        Some((st, out)) if st.success() => out.trim_end_matches('\n').to_string(),
        _ => {
            eprintln!("error: {} is stuck while making case {}", id, i);
            return 2;
        }
    };
    let hangs = |enc: &str, s: u64| child(&["replay-case".into(), id.into(), enc.into()], true, s).is_none();
    if !hangs(&enc, STUCK) {
        eprintln!("error: {} was stuck in case {}, but the case alone ends", id, i);
        return 2;
    }
    // a few shrinking steps with a shorter limit, confirmed at the end
    let end = std::time::Instant::now() + std::time::Duration::from_secs(60);
    let mut best = enc.clone();
    'outer: loop {
        let Some((_, out)) = child(&["shrinks".into(), id.into(), best.clone()], true, 60) else { break };
        for l in out.lines() {
            if std::time::Instant::now() > end {
                break 'outer;
            }
            let cand: String = serde_json::from_str(l).unwrap();
            if hangs(&cand, 10) {
                best = cand;
                continue 'outer;
            }
        }
        break;
    }
    if best != enc && !hangs(&best, STUCK) {
        best = enc.clone();
    }
    let path = opts.verif.join("replays").join(format!("{}-hang-{}.json", id, i));
    let v = serde_json::json!({"property": id, "case": best, "message": format!("does not end within {} s", STUCK),
        "found_as": enc, "index": i, "seed": opts.seed, "build": opts.build});
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n").unwrap();
    println!("case {}: no end within {} s: {}", i, STUCK, best);
    println!("VIOLATION property={} replay={}", id, path.display());
    1
}

fn supervise(id: &str, opts: &Opts, pass: &[String]) -> i32 {
    let dir = opts.verif.join("replays");
    std::fs::create_dir_all(&dir).unwrap();
    let inflight = dir.join(format!("inflight-{}-{}", id, std::process::id()));
    let mut args: Vec<String> = vec!["run".into(), id.into(), "--inflight".into(), inflight.display().to_string()];
    args.extend_from_slice(pass);
    let limit = if opts.tier == Tier::Quick { 840 } else { 6 * 3600 };
    // a case that is still running after STUCK seconds, where cases take well below a second
    let mut since: std::collections::HashMap<u64, std::time::Instant> = Default::default();
    let mut hung: Option<u64> = None;
    let res = child_watched(&args, false, limit, &mut || {
        let bytes = std::fs::read(&inflight).unwrap_or_default();
        let now: Vec<u64> = bytes.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|&i| i != u64::MAX).collect();
        since.retain(|i, _| now.contains(i));
        for &i in &now {
            let t = since.entry(i).or_insert_with(std::time::Instant::now);
            // a case of T02 is a batch of many million draws
            let limit = match id {
                "T02" => u64::MAX,
                // thousands of calls
                "C01" => 4 * STUCK,
                _ => STUCK,
            };
            if t.elapsed().as_secs() >= limit {
                hung = Some(i);
            }
        }
        hung.is_some()
    });
    let bytes = std::fs::read(&inflight).unwrap_or_default();
    let _ = std::fs::remove_file(&inflight);
    let best = std::fs::read_to_string(best_file(&inflight));
    let _ = std::fs::remove_file(best_file(&inflight));
    if let (Ok(text), true) = (&best, res.as_ref().map_or(true, |(st, _)| st.code().is_none())) {
        // the process did not survive shrinking the violation it had found
        print!("{}", text);
        return 1;
    }
    let (st, out) = match res {
        None => {
            if let Some(i) = hung {
                return confirm_hang(id, opts, pass, i);
            }
            eprintln!("error: {} did not finish within {} s", id, limit);
            return 2;
        }
        Some(x) => x,
    };
    print!("{}", out);
    if let Some(code) = st.code() {
        return if code == 0 || code == 1 { code } else { 2 };
    }
    let Some(sig) = crash_signal(&st) else {
        eprintln!("error: {} ended by {:?}", id, st);
        return 2;
    };
    // which of the cases in flight brings the process down?
    for ch in bytes.chunks_exact(8) {
        let i = u64::from_le_bytes(ch.try_into().unwrap());
        if i == u64::MAX {
            continue;
        }
        let mut a: Vec<String> = vec!["encode".into(), id.into(), i.to_string()];
        a.extend_from_slice(pass);
        let enc = match child(&a, true, 300) {
            Some((st, out)) if st.success() => out.trim_end_matches('\n').to_string(),
            _ => continue,
        };
        let crashes = |enc: &str| {
            let a: Vec<String> = vec!["replay-case".into(), id.into(), enc.into()];
            matches!(child(&a, true, 120), Some((st, _)) if crash_signal(&st).is_some())
        };
        if !crashes(&enc) {
            continue;
        }
        let orig = enc.clone();
        let mut best = enc;
        let mut left = 200;
        'outer: loop {
            let Some((_, out)) = child(&["shrinks".into(), id.into(), best.clone()], true, 60) else { break };
            for l in out.lines() {
                if left == 0 {
                    break 'outer;
                }
                left -= 1;
                let cand: String = serde_json::from_str(l).unwrap();
                if crashes(&cand) {
                    best = cand;
                    continue 'outer;
                }
            }
            break;
        }
        let path = dir.join(format!("{}-crash-{}.json", id, i));
        let v = serde_json::json!({"property": id, "case": best, "message": format!("the process died with signal {}", sig),
            "found_as": orig, "index": i, "seed": opts.seed, "build": opts.build});
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n").unwrap();
        println!("case {}: the process died with signal {} on {}", i, sig, best);
        println!("VIOLATION property={} replay={}", id, path.display());
        return 1;
    }
    // memory corruption that builds up over several cases: the whole run, once more
    let again = child(&args, true, limit / 4).map(|(st, _)| crash_signal(&st));
    let _ = std::fs::remove_file(&inflight);
    let _ = std::fs::remove_file(best_file(&inflight));
    if matches!(again, Some(Some(_))) {
        let path = dir.join(format!("{}-crash-run.json", id));
        let at: Vec<u64> = bytes.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|&i| i != u64::MAX).collect();
        let v = serde_json::json!({"property": id, "case": "", "message": format!("the run dies with signal {}, twice; no single case does", sig),
            "in_flight": at, "seed": opts.seed, "build": opts.build});
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n").unwrap();
        println!("the run died with signal {}, twice; cases {:?} were in progress", sig, at);
        println!("VIOLATION property={} replay={}", id, path.display());
        return 1;
    }
    eprintln!("error: {} died with signal {}, not reproduced", id, sig);
    2
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let env = |k: &str| std::env::var(k).ok();
    let mut opts = Opts {
        tier: if env("VERIF_TIER").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick },
        seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        threads: env("PBT_THREADS").and_then(|s| s.parse().ok()).unwrap_or(8),
        verif: PathBuf::from(env("PBT_VERIF").unwrap_or_else(|| "/verif".into())),
        inflight: None,
        build: env("PBT_BUILD").unwrap_or_default(),
        evidence: env("PBT_EVIDENCE").map(PathBuf::from),
        aside: env("PBT_ASIDE").map(PathBuf::from),
        scale: env("PBT_SCALE").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        only: None,
    };
    let mut pos = vec![];
    let mut pass = vec![];
    let mut it = args.iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--inflight" => opts.inflight = Some(PathBuf::from(it.next().unwrap())),
            "--tier" => {
                let t = it.next().unwrap();
                opts.tier = if t == "thorough" { Tier::Thorough } else { Tier::Quick };
                pass.extend(["--tier".to_string(), t.clone()]);
            }
            _ => pos.push(a.clone()),
        }
    }
    install_panic_hook();
    let pos: Vec<&str> = pos.iter().map(|s| s.as_str()).collect();
    let code = match pos[..] {
        ["mkdata", "automorphic"] => { mkdata::automorphic(); 0 }
        ["mkdata", "hard"] => { mkdata::hard(); 0 }
        ["check", id] => supervise(id, &opts, &pass),
        ["run", id] => dispatch(id, &opts, What::Run),
        ["encode", id, i] => dispatch(id, &opts, What::Encode(i.parse().unwrap())),
        ["shrinks", id, s] => dispatch(id, &opts, What::Shrinks(s)),
        ["replay-case", id, s] => dispatch(id, &opts, What::Replay(s)),
        ["replay", f] => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).expect("cannot read the replay file")).unwrap();
            dispatch(v["property"].as_str().unwrap(), &opts, What::Replay(v["case"].as_str().unwrap()))
        }
        _ => {
            eprintln!("usage: pbt check|run|encode|replay ...");
            2
        }
    };
    std::process::exit(code);
}
