//! Grids as plain arrays and direct definitions on them.
pub type G = [u8; 81];

pub const fn row(c: usize) -> usize {
    c / 9
}
pub const fn col(c: usize) -> usize {
    c % 9
}
pub const fn bx(c: usize) -> usize {
    (c / 27) * 3 + (c % 9) / 3
}

/// Cells of the 27 houses: rows, columns, boxes.
pub fn houses() -> &'static [[usize; 9]; 27] {
    static H: std::sync::OnceLock<[[usize; 9]; 27]> = std::sync::OnceLock::new();
    H.get_or_init(|| {
        let mut h = [[0; 9]; 27];
        let mut n = [0; 27];
        for c in 0..81 {
            for house in [row(c), 9 + col(c), 18 + bx(c)] {
                h[house][n[house]] = c;
                n[house] += 1;
            }
        }
        h
    })
}

pub fn sees(a: usize, b: usize) -> bool {
    a != b && (row(a) == row(b) || col(a) == col(b) || bx(a) == bx(b))
}

/// Peers of every cell.
pub fn peers() -> &'static Vec<Vec<usize>> {
    static P: std::sync::OnceLock<Vec<Vec<usize>>> = std::sync::OnceLock::new();
    P.get_or_init(|| (0..81).map(|a| (0..81).filter(|&b| sees(a, b)).collect()).collect())
}

/// Completely filled and every house contains every digit.
pub fn is_solved(g: &G) -> bool {
    houses().iter().all(|h| {
        let mut m = 0u16;
        for &c in h {
            m |= 1 << g[c];
        }
        m == 0b11_1111_1110
    })
}

/// No digit occurs twice in a house.
pub fn no_conflict(g: &G) -> bool {
    houses().iter().all(|h| {
        let mut m = 0u16;
        for &c in h {
            if g[c] != 0 {
                if m >> g[c] & 1 == 1 {
                    return false;
                }
                m |= 1 << g[c];
            }
        }
        true
    })
}

pub fn extends(sol: &G, clues: &G) -> bool {
    (0..81).all(|c| clues[c] == 0 || clues[c] == sol[c])
}

pub fn n_clues(g: &G) -> usize {
    g.iter().filter(|&&d| d != 0).count()
}

pub fn to_line(g: &G) -> String {
    g.iter().map(|&d| if d == 0 { '.' } else { (b'0' + d) as char }).collect()
}

/// Reads what `to_line` writes.
pub fn from_line(s: &str) -> Option<G> {
    let b = s.as_bytes();
    if b.len() < 81 {
        return None;
    }
    let mut g = [0; 81];
    for i in 0..81 {
        g[i] = match b[i] {
            b'.' | b'0' | b'_' => 0,
            d @ b'1'..=b'9' => d - b'0',
            _ => return None,
        };
    }
    Some(g)
}

/// Canonical steps for shrinking a grid of clues: drop blocks of clues, then single clues.
pub fn shrink_clues(g: &G) -> Vec<G> {
    let mut out = vec![];
    for h in houses().iter() {
        let mut t = *g;
        for &c in h {
            t[c] = 0;
        }
        if t != *g {
            out.push(t);
        }
    }
    for d in 1..=9 {
        let mut t = *g;
        for c in 0..81 {
            if t[c] == d {
                t[c] = 0;
            }
        }
        if t != *g {
            out.push(t);
        }
    }
    for c in 0..81 {
        if g[c] != 0 {
            let mut t = *g;
            t[c] = 0;
            out.push(t);
        }
    }
    out
}
