//! `pbt mkdata automorphic|hard`: makes the lists in `data/` (kept in git; not part of a check).
use crate::refm::{gen, grid::*, group::*, solve};
use crate::rng::Rng;

fn compose(a: &[usize], b: &[usize]) -> Vec<usize> {
    b.iter().map(|&x| a[x]).collect()
}

fn order(p: &[usize]) -> usize {
    let mut q = p.to_vec();
    let mut n = 1;
    while q.iter().enumerate().any(|(i, &x)| i != x) {
        q = compose(p, &q);
        n += 1;
    }
    n
}

fn power(p: &[usize], k: usize) -> Vec<usize> {
    let mut q: Vec<usize> = (0..p.len()).collect();
    for _ in 0..k {
        q = compose(p, &q);
    }
    q
}

/// A solved grid with g[pos[c]] == dig[g[c]] for all c.
fn invariant(pos: &[usize], dig: &[usize], r: &mut Rng) -> Option<G> {
    fn put(g: &mut G, c: usize, d: u8, pos: &[usize], dig: &[usize]) -> bool {
        let (mut c, mut d) = (c, d);
        loop {
            if g[c] == d {
                return true;
            }
            if g[c] != 0 || peers()[c].iter().any(|&p| g[p] == d) {
                return false;
            }
            g[c] = d;
            c = pos[c];
            d = dig[d as usize] as u8;
        }
    }
    fn go(g: &G, pos: &[usize], dig: &[usize], r: &mut Rng, nodes: &mut u32) -> Option<G> {
        if *nodes == 0 {
            return None;
        }
        *nodes -= 1;
        let mut best: Option<(usize, Vec<u8>)> = None;
        for c in 0..81 {
            if g[c] == 0 {
                let ds: Vec<u8> = (1..=9).filter(|&d| peers()[c].iter().all(|&p| g[p] != d)).collect();
                if best.as_ref().map_or(true, |b| ds.len() < b.1.len()) {
                    best = Some((c, ds));
                }
            }
        }
        let Some((c, mut ds)) = best else { return Some(*g) };
        r.shuffle(&mut ds);
        for d in ds {
            let mut t = *g;
            if put(&mut t, c, d, pos, dig) {
                if let Some(s) = go(&t, pos, dig, r, nodes) {
                    return Some(s);
                }
            }
        }
        None
    }
    go(&[0; 81], pos, dig, r, &mut 400)
}

pub fn automorphic() {
    let mut r = Rng::new(20240607);
    let mut found: std::collections::BTreeMap<usize, Vec<G>> = Default::default();
    let mut id: G = [0; 81];
    for c in 0..81 {
        id[c] = c as u8;
    }
    let mut seen = std::collections::HashSet::new();
    for _ in 0..400_000 {
        let mut t = Tr::random(&mut r);
        let mut src = [0; 81];
        t.digits = [0; 10];
        // position permutation by applying to the identity labelling
        for rr in 0..9 {
            for cc in 0..9 {
                let (sr, sc) = (t.rows[rr] as usize, t.cols[cc] as usize);
                src[rr * 9 + cc] = if t.transposed { sc * 9 + sr } else { sr * 9 + sc };
            }
        }
        let n = order(&src);
        let divs: Vec<usize> = (2..=n).filter(|k| n % k == 0).collect();
        if divs.is_empty() {
            continue;
        }
        let o = *r.pick(&divs);
        let pos = power(&src, n / o);
        let mut ds: Vec<usize> = (1..10).collect();
        r.shuffle(&mut ds);
        let mut dig = vec![0];
        dig.extend(ds);
        let m = order(&dig);
        let g = (1..=m).find(|k| (m / gcd(m, *k)) == gcd(m, o)).unwrap_or(m);
        let dig = power(&dig, g);
        let Some(sol) = invariant(&pos, &dig, &mut r) else { continue };
        if !is_solved(&sol) {
            continue;
        }
        let c = canonical(&sol);
        if c.trs.len() > 1 && seen.insert(c.least) {
            found.entry(c.trs.len()).or_default().push(Tr::random(&mut r).apply(&sol));
        }
        if seen.len() >= 3000 {
            break;
        }
    }
    eprintln!("{:?}", found.iter().map(|(k, v)| (*k, v.len())).collect::<Vec<_>>());
    for (k, v) in &found {
        for g in v.iter().take(if *k == 2 { 60 } else { 25 }) {
            println!("{} {}", to_line(g), k);
        }
    }
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}

pub fn hard() {
    let mut r = Rng::new(77);
    let mut out: Vec<(u64, G)> = vec![];
    let seeds17 = [
        "000000010400000000020000000000050407008000300001090000300400200050100000000806000",
        "000000010400000000020000000000050604008000300001090000300400200050100000000807000",
        "000000012000035000000600070700000300000400800100000000000120000080000040050000600",
        "000000012003600000000007000410020000000500300700000600280000040000300500000000000",
        "000000012008030000000000040120500000000004700060000000507000300000620000000100000",
        "000000012040050000000009000070600400000100000000000050000087500601000300200000000",
    ];
    for s in seeds17 {
        let g = from_line(s).unwrap();
        eprintln!("17: {} {}", solve::unique(&g).is_some(), solve::cost(&g));
        if solve::unique(&g).is_some() {
            println!("{}", to_line(&g));
        }
    }
    for start in 0..260 {
        let sol = gen::solved(&mut r);
        let mut cur = gen::minimise(&sol, &mut r);
        let mut cost = solve::cost(&cur);
        for _ in 0..if start % 2 == 0 { 300 } else { 60 } {
            let k = r.range(1, 3);
            let t = gen::drop_clues(&cur, k, &mut r);
            // another solution of the reduced puzzle may become the target
            let Some(s) = solve::random_solution(&t, &mut r) else { continue };
            let mut p = t;
            loop {
                match solve::solutions(&p, 2) {
                    Ok(v) if v.len() == 2 => {
                        let diff: Vec<usize> = (0..81).filter(|&c| v[0][c] != v[1][c]).collect();
                        let c = *r.pick(&diff);
                        p[c] = s[c];
                    }
                    _ => break,
                }
            }
            if solve::unique(&p).is_none() {
                continue;
            }
            let p = gen::minimise(&p, &mut r);
            let c = solve::cost(&p);
            if c >= cost {
                cur = p;
                cost = c;
            }
        }
        out.push((cost, cur));
    }
    out.sort();
    eprintln!("{:?}", out.iter().map(|x| x.0).collect::<Vec<_>>());
    for (_, g) in out {
        println!("{}", to_line(&g));
    }
}
