//! F01, F02, F03: readers of text; F04: bytes; F05: renderings; F06: serialisation.
use super::solver::{mk, to_safe, GridCase};
use crate::engine::*;
use crate::ensure;
use crate::refm::{gen, grid::*, parse};
use crate::rng::Rng;
use std::convert::TryFrom;
use sudoku::errors::*;
use sudoku::Sudoku;

// ---------------------------------------------------------------------------------------------
// texts

fn any_grid(r: &mut Rng) -> G {
    match r.below(4) {
        0 => gen::arbitrary_grid(r),
        1 => {
            let n = r.range(17, 40);
            gen::random_clues(n, r)
        }
        2 => *r.pick(gen::automorphic()),
        _ => *r.pick(gen::hard()),
    }
}

fn odd_char(r: &mut Rng) -> char {
    match r.below(8) {
        0 => r.below(128) as u8 as char,
        1 => *r.pick(&['/', ':', '`', '^', '-', '|', '+', '*', ',', ';', 'x', 'O', 'l', '\u{0}', '\u{7f}', '\u{b}', '\u{c}']),
        2 => *r.pick(&[' ', '\t', '\n', '\r']),
        3 => *r.pick(&['é', '½', '٣', '１', '９', '．', '＿', '·', '\u{a0}', '\u{85}', '\u{2028}', '\u{feff}', '\u{ff10}']),
        4 => *r.pick(&['😀', '𝟗', '\u{10ffff}', '🀙']),
        5 => *r.pick(&['0', '9', '.', '_', '5']),
        // characters whose low bytes look like cells
        6 => char::from_u32(0x100 * r.range(1, 0xd0) as u32 + *r.pick(&[b'0', b'5', b'9', b'.', b'_']) as u32).unwrap_or('x'),
        _ => char::from_u32(r.below(0x3000) as u32).unwrap_or('x'),
    }
}

fn cell_char(d: u8, style: usize, r: &mut Rng) -> char {
    if d != 0 {
        return (b'0' + d) as char;
    }
    match style {
        0 => '.',
        1 => '_',
        2 => '0',
        _ => *r.pick(&['.', '_', '0']),
    }
}

/// A length at which a counter of 6, 7, 8 or 16 bits comes round, or close to it.
fn round_length(r: &mut Rng) -> usize {
    let n = *r.pick(&[32, 64, 64, 128, 128, 256, 256, 256, 512, 1024, 4096, 65536]);
    let n = if n == 65536 && r.chance(7, 8) { 256 } else { n };
    match r.below(3) {
        0 => n,
        1 => n - 3 + r.below(7),
        _ => n - 20 + r.below(41),
    }
}

fn comment(r: &mut Rng) -> String {
    if r.chance(1, 60) {
        let n = round_length(r);
        let c = odd_char(r);
        return (0..n).map(|_| if r.chance(1, 20) { odd_char(r) } else { c }).filter(|c| *c != '\n').collect();
    }
    if r.chance(1, 6) {
        // what looks like part of a grid
        return match r.below(4) {
            0 => r.pick(&["---+---+---", "-----------", "|", "123456789", ".........", "_", "0", "___|___|___", "--", "#", "//", ";", ","]).to_string(),
            1 => (0..r.range(7, 11)).map(|_| cell_char(r.below(10) as u8, 3, r)).collect(),
            2 => (0..r.range(79, 83)).map(|_| cell_char(r.below(10) as u8, 3, r)).collect(),
            _ => (0..r.range(1, 60)).map(|_| *r.pick(&['1', '9', '.', '_', '0', '|', '-', '+', ' ', '\t', ',', ';', 'a', '\r'])).collect(),
        };
    }
    let n = r.below(12);
    (0..n).map(|_| odd_char(r)).filter(|c| *c != '\n').collect()
}

fn edit_text(s: &str, r: &mut Rng) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let n = v.len();
    match r.below(7) {
        0 | 1 if n > 0 => v[r.below(n)] = odd_char(r),
        2 => v.insert(r.below(n + 1), odd_char(r)),
        3 if n > 0 => {
            v.remove(r.below(n));
        }
        4 if n > 0 => v.truncate(r.below(n)),
        5 if n > 1 => {
            let (a, b) = (r.below(n), r.below(n));
            v.swap(a, b);
        }
        _ => {
            let c = *r.pick(&['.', '7', ' ', '\n', '_', '|', '-', '\r', '\t', ';', ',']);
            v.insert(r.below(n + 1), c);
        }
    }
    v.into_iter().collect()
}

fn edit_lines(s: &str, r: &mut Rng) -> String {
    let mut v: Vec<String> = s.split_inclusive('\n').map(|l| l.to_string()).collect();
    let n = v.len();
    if n == 0 {
        return s.into();
    }
    let i = r.below(n);
    match r.below(8) {
        0 => {
            v.remove(i);
        }
        1 => {
            let l = v[i].clone();
            v.insert(i, l);
        }
        2 => {
            let j = r.below(n);
            v.swap(i, j);
        }
        3 => v.insert(i, "\n".into()),
        4 => v.insert(i, "---+---+---\n".into()),
        5 => v.insert(i, "-----------\n".into()),
        6 => v.truncate(i),
        _ => {
            v[i] = r.pick(&["---+---+---\n", "-----------\n", "---+---+--- x\n", "-----------\tx\n", "---------+-\n", "\n", "  \t\n", "...|...|...\n", ".........\n", "........\n", "..........\n", "...|...|..\n", "...|...\n"]).to_string();
        }
    }
    v.concat()
}

fn line_text(r: &mut Rng) -> String {
    let g = any_grid(r);
    let style = r.below(4);
    let mut s: String = g.iter().map(|&d| cell_char(d, style, r)).collect();
    if r.chance(1, 40) {
        // a long text, with or without a delimiter
        if r.chance(1, 3) {
            s.push(*r.pick(&[' ', '\t', '\n', '\r', ',', ';']));
        }
        let n = round_length(r);
        let c = *r.pick(&['.', '_', '0', '5', 'x', ' ', 'é']);
        s.extend(std::iter::repeat(c).take(n / c.len_utf8()));
        return s;
    }
    match r.below(9) {
        0..=2 => (),
        3 | 4 => {
            s.push(*r.pick(&[' ', '\t', '\n', '\r', ',', ';']));
            s.push_str(&comment(r));
        }
        5 => s.push(*r.pick(&['.', '_', '0', '1', '9'])),
        6 => {
            s.push(odd_char(r));
            s.push_str(&comment(r));
        }
        7 => {
            s.push_str("\r\n");
            let g = any_grid(r);
            s.extend(g.iter().map(|&d| cell_char(d, style, r)));
        }
        _ => {
            let k = r.below(82);
            s.truncate(k);
            if r.chance(1, 2) {
                s.push(odd_char(r));
                s.push_str(&comment(r));
            }
        }
    }
    s
}

fn block_text(r: &mut Rng) -> String {
    let g = any_grid(r);
    let style = r.below(4);
    let format = r.below(3);
    let eol = *r.pick(&["\n", "\n", "\r\n", "mixed"]);
    let comments = r.below(4);
    let mut s = String::new();
    let mut n_eol = 0;
    let rows = if r.chance(1, 8) { r.below(12) } else { 9 };
    for row in 0..rows {
        if format > 0 && row % 3 == 0 && row > 0 && row < 9 {
            s.push_str(if format == 1 { "-----------" } else { "---+---+---" });
            if comments == 3 || comments > 0 && r.chance(1, 4) {
                s.push(*r.pick(&[' ', '\t']));
                s.push_str(&comment(r).replace('\r', ""));
            }
            s.push_str(if eol == "mixed" { *r.pick(&["\n", "\r\n"]) } else { eol });
        }
        for c in 0..9 {
            if format > 0 && c % 3 == 0 && c > 0 {
                s.push('|');
            }
            let d = if row < 9 { g[row * 9 + c] } else { 1 };
            s.push(cell_char(d, style, r));
        }
        if comments == 3 || comments > 0 && r.chance(1, 4) {
            s.push(*r.pick(&[' ', '\t']));
            s.push_str(&comment(r));
        }
        n_eol += 1;
        if n_eol < rows || r.chance(1, 2) {
            s.push_str(if eol == "mixed" { *r.pick(&["\n", "\r\n"]) } else { eol });
        }
    }
    match r.below(9) {
        8 => {
            // a blank line of unusual spaces, then anything
            s.push('\n');
            for _ in 0..r.range(1, 4) {
                s.push(*r.pick(&[' ', '\t', '\u{b}', '\u{c}', '\r', '\u{85}', '\u{a0}', '\u{1680}', '\u{2003}', '\u{2028}', '\u{202f}', '\u{205f}', '\u{3000}', '\u{200b}', '\u{feff}']));
            }
            s.push_str(*r.pick(&["\n", "\nanything\n", "\r\nx", "\n........."]));
        }
        0 => s.push_str("\n"),
        1 => s.push_str("\n\nanything\n"),
        2 => s.push_str("\n  \t \nanything"),
        3 => {
            s.push('\n');
            let k = r.below(3);
            for _ in 0..k {
                s.push(*r.pick(&[' ', '\t', '\u{a0}', '\u{3000}', '.', 'x', '\r']));
            }
        }
        _ => (),
    }
    s
}

/// Lines with around nine cells among other characters.
fn loose_text(r: &mut Rng) -> String {
    if r.chance(1, 40_000) {
        // more lines without cells than 16 bits can count
        let mut s = "x\n".repeat(65_530 + r.below(16));
        for _ in 0..r.range(8, 10) {
            s.extend((0..9).map(|_| cell_char(r.below(10) as u8, 3, r)));
            s.push('\n');
        }
        return s;
    }
    let lines = if r.chance(1, 60) { r.range(100, 300) } else { r.below(16) };
    let noise = r.below(4);
    let wide = r.chance(1, 12);
    let mut s = String::new();
    for _ in 0..lines {
        let cells = match r.below(6) {
            0 => r.below(9),
            1 => 8,
            2 => r.range(10, 30),
            _ => 9,
        };
        // a long stretch of other characters before one of the cells
        let gap = if wide && r.chance(1, 3) { r.below(10) } else { 99 };
        for i in 0..cells {
            if i == gap {
                let n = round_length(r).min(600);
                s.extend(std::iter::repeat(*r.pick(&[' ', '|', 'x', '\t', 'é'])).take(n));
            }
            while noise > 0 && r.chance(noise, 5) {
                let c = odd_char(r);
                if c != '\n' {
                    s.push(c);
                }
            }
            let d = r.below(10) as u8;
            s.push(cell_char(d, 3, r));
        }
        if r.chance(1, 3) {
            s.push_str(&comment(r));
        }
        s.push_str(*r.pick(&["\n", "\n", "\n", "\r\n", "\r", "\n\n"]));
    }
    s
}

fn wild_text(r: &mut Rng) -> String {
    let n = r.below(200);
    (0..n).map(|_| if r.chance(1, 3) { odd_char(r) } else { *r.pick(&['.', '1', '2', '\n', '|', '-', '_', '0', '9', ' ']) }).collect()
}

fn shrink_text(s: &str) -> Vec<String> {
    let v: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut k = v.len() / 2;
    // not every character of a long text on its own
    while k > v.len() / 1000 {
        for i in (0..v.len()).step_by(k) {
            let mut t = v.clone();
            t.drain(i..(i + k).min(v.len()));
            out.push(t.into_iter().collect());
        }
        k /= 2;
    }
    for i in 0..v.len().min(1000) {
        for to in ['.', 'x'] {
            if v[i] != to && v[i] != '.' && !(v[i] == 'x') {
                let mut t = v.clone();
                t[i] = to;
                out.push(t.into_iter().collect());
            }
        }
    }
    out
}

pub struct Text {
    pub id: &'static str,
}

#[derive(Clone)]
pub struct TextCase {
    s: String,
    kind: &'static str,
}

impl Text {
    fn line(&self, s: &str, cx: &mut Ctx) -> Result<(), Fail> {
        let want = parse::line(s);
        let got = sut("from_str_line", || Sudoku::from_str_line(s))?;
        match (&want, &got) {
            (Ok(g), Ok(x)) => {
                cx.label("accepted");
                ensure!(x.to_bytes() == *g, "parsed to {}, {} expected", to_safe(&x.to_bytes()), to_line(g));
            }
            (Ok(g), Err(e)) => return fail(format!("rejected with {:?}, {} expected", e, to_line(g))),
            (Err(w), Ok(x)) => return fail(format!("accepted as {}, rejection with {:?} expected", to_safe(&x.to_bytes()), w)),
            (Err(w), Err(e)) => {
                let e2 = match e {
                    LineParseError::InvalidEntry(e) => {
                        check_entry(e)?;
                        parse::LineErr::InvalidEntry(e.cell as usize, e.ch)
                    }
                    LineParseError::NotEnoughCells(n) => parse::LineErr::NotEnoughCells(*n as usize),
                    LineParseError::TooManyCells => parse::LineErr::TooManyCells,
                    LineParseError::MissingCommentDelimiter => parse::LineErr::MissingCommentDelimiter,
                };
                cx.label(match e2 {
                    parse::LineErr::InvalidEntry(..) => "invalid-entry",
                    parse::LineErr::NotEnoughCells(_) => "not-enough-cells",
                    parse::LineErr::TooManyCells => "too-many-cells",
                    parse::LineErr::MissingCommentDelimiter => "missing-comment-delimiter",
                });
                ensure!(w.contains(&e2), "rejected with {:?}, {:?} expected", e, w);
                let msg = sut("formatting the error", || e.to_string())?;
                match e2 {
                    parse::LineErr::InvalidEntry(c, ch) => check_message(&msg, &[c], None, Some(ch))?,
                    parse::LineErr::NotEnoughCells(n) => check_message(&msg, &[n], Some(n), None)?,
                    _ => (),
                }
            }
        }
        Ok(())
    }
    fn block(&self, s: &str, cx: &mut Ctx) -> Result<(), Fail> {
        let want = parse::block(s);
        let got = sut("from_str_block", || Sudoku::from_str_block(s))?;
        let e2 = got.as_ref().err().map(|e| match e {
            BlockParseError::InvalidEntry(e) => parse::BlockErr::InvalidEntry(e.cell as usize, e.ch),
            BlockParseError::InvalidLineLength(n) => parse::BlockErr::InvalidLineLength(*n as usize),
            BlockParseError::NotEnoughRows(n) => parse::BlockErr::NotEnoughRows(*n as usize),
            BlockParseError::IncorrectFieldDelimiter => parse::BlockErr::IncorrectFieldDelimiter,
            BlockParseError::TooManyRows => parse::BlockErr::TooManyRows,
            BlockParseError::MissingCommentDelimiter(n) => parse::BlockErr::MissingCommentDelimiter(*n as usize),
        });
        if want.lax && got.is_err() {
            // a delimiter line that goes on without a space: rejecting it would be fine too
            cx.label("delimiter-line-unspecified");
            if matches!(e2, Some(parse::BlockErr::IncorrectFieldDelimiter | parse::BlockErr::MissingCommentDelimiter(_))) {
                return Ok(());
            }
        }
        if let Err(BlockParseError::InvalidEntry(e)) = &got {
            check_entry(e)?;
        }
        match (&want.result, &got) {
            (Ok(g), Ok(x)) => {
                cx.label("accepted");
                ensure!(x.to_bytes() == *g, "parsed to {}, {} expected", to_safe(&x.to_bytes()), to_line(g));
            }
            (Ok(g), Err(e)) => return fail(format!("rejected with {:?}, {} expected", e, to_line(g))),
            (Err(w), Ok(x)) => return fail(format!("accepted as {}, rejection with {:?} expected", to_safe(&x.to_bytes()), w)),
            (Err(w), Err(e)) => {
                let e2 = e2.unwrap();
                cx.label(match e2 {
                    parse::BlockErr::InvalidEntry(..) => "invalid-entry",
                    parse::BlockErr::InvalidLineLength(_) => "invalid-line-length",
                    parse::BlockErr::NotEnoughRows(_) => "not-enough-rows",
                    parse::BlockErr::IncorrectFieldDelimiter => "incorrect-field-delimiter",
                    parse::BlockErr::TooManyRows => "too-many-rows",
                    parse::BlockErr::MissingCommentDelimiter(_) => "missing-comment-delimiter",
                });
                ensure!(w.contains(&e2), "rejected with {:?}, {:?} expected", e, w);
                let msg = sut("formatting the error", || e.to_string())?;
                match e2 {
                    parse::BlockErr::InvalidEntry(c, ch) => check_message(&msg, &[c], None, Some(ch))?,
                    parse::BlockErr::InvalidLineLength(row) => check_message(&msg, &[row], Some(parse::entries_in_row(s, row)), None)?,
                    parse::BlockErr::NotEnoughRows(n) => check_message(&msg, &[n], Some(n), None)?,
                    parse::BlockErr::MissingCommentDelimiter(row) => check_message(&msg, &[row], None, None)?,
                    _ => (),
                }
            }
        }
        Ok(())
    }
    fn permissive(&self, s: &str, cx: &mut Ctx) -> Result<(), Fail> {
        let want = parse::permissive(s);
        let got = sut("from_str_block_permissive", || Sudoku::from_str_block_permissive(s))?;
        match (want, got) {
            (Ok(g), Ok(x)) => {
                cx.label("accepted");
                ensure!(x.to_bytes() == g, "parsed to {}, {} expected", to_safe(&x.to_bytes()), to_line(&g));
            }
            (Ok(g), Err(e)) => return fail(format!("rejected with {:?}, {} expected", e, to_line(&g))),
            (Err(n), Ok(x)) => return fail(format!("accepted as {}, but there are only {} rows", to_safe(&x.to_bytes()), n)),
            (Err(n), Err(e)) => {
                let NotEnoughRows(m) = e;
                cx.label("not-enough-rows");
                ensure!(m as usize == n, "{} rows reported, there are {}", m, n);
                let msg = sut("formatting the error", || e.to_string())?;
                check_message(&msg, &[n], Some(n), None)?;
            }
        }
        Ok(())
    }
}

/// The message contains the numbers and the character; what it says to have "found" is what there is.
fn check_message(msg: &str, numbers: &[usize], found: Option<usize>, ch: Option<char>) -> Result<(), Fail> {
    let has: Vec<usize> = msg.split(|c: char| !c.is_ascii_digit()).filter_map(|t| t.parse().ok()).collect();
    for n in numbers {
        ensure!(has.contains(n), "the error's message {:?} does not mention {}", msg, n);
    }
    if let Some(ch) = ch {
        ensure!(msg.contains(ch), "the error's message {:?} does not mention {:?}", msg, ch);
    }
    let after = msg.split("found ").nth(1).map(|t| t.strip_prefix("only ").unwrap_or(t));
    let said: Option<usize> = after.and_then(|t| t.split(|c: char| !c.is_ascii_digit()).next()).and_then(|t| t.parse().ok());
    if let (Some(said), Some(found)) = (said, found) {
        ensure!(said == found, "the error's message is {:?}, but there are {}", msg, found);
    }
    Ok(())
}

fn check_entry(e: &InvalidEntry) -> Result<(), Fail> {
    let e = *e;
    ensure!(e.cell < 81, "the invalid entry is reported in cell {}", e.cell);
    let c = e.cell as usize;
    let got = sut("InvalidEntry", move || (e.row(), e.col(), e.block()))?;
    ensure!(
        got == (row(c) as u8, col(c) as u8, bx(c) as u8),
        "row, column and block of cell {} are reported as {:?}", c, got
    );
    Ok(())
}

/// Single characters tried at every position of a line text and after it.
fn systematic(index: u64) -> Option<TextCase> {
    const ODD: [char; 12] = ['\u{80}', 'é', 'İ', '٣', '\u{ff11}', '\u{2e2e}', '\u{3000}', '😀', '\u{fffd}', '\u{10ffff}', 'ı', '\u{feff}'];
    let n_chars = 128 + ODD.len() as u64;
    let per = n_chars * 82;
    if index >= per * 3 {
        return None;
    }
    let (variant, k) = (index / per, index % per);
    let ch = if k % n_chars < 128 { (k % n_chars) as u8 as char } else { ODD[(k % n_chars - 128) as usize] };
    let pos = (k / n_chars) as usize;
    // (0) replaces the character, (1) the text ends there, (2) replaced with a comment behind
    let mut v: Vec<char> = (0..81).map(|i| if variant == 2 { '_' } else { (b'0' + (i % 10) as u8) as char }).collect();
    if pos == 81 {
        v.push(ch);
    } else {
        v[pos] = ch;
    }
    match variant {
        1 => v.truncate(pos + 1),
        2 => v.extend(";c".chars()),
        _ => (),
    }
    Some(TextCase { s: v.into_iter().collect(), kind: "systematic" })
}

impl Prop for Text {
    type Case = TextCase;
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> &'static str {
        "One case = one text: well-formed texts in all variants, up to three edits of them on characters and lines, texts of the other formats, and wild ones (any Unicode); for the line \
         format every ASCII character at every position as well. Non-trivial: distinct texts that contain at least one cell character."
    }
    fn quota(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 20_000_000,
            Tier::Thorough => 150_000_000,
        }
    }
    fn chunk(&self) -> u64 {
        512
    }
    fn required_classes(&self) -> Vec<&'static str> {
        let mut v = vec!["accepted", "as-is", "edited", "wild", "other-format"];
        v.extend(match self.id {
            "F01" => &["invalid-entry", "not-enough-cells", "too-many-cells", "missing-comment-delimiter", "systematic"][..],
            "F02" => &["invalid-entry", "invalid-line-length", "not-enough-rows", "incorrect-field-delimiter", "too-many-rows", "missing-comment-delimiter"],
            _ => &["not-enough-rows"],
        });
        v
    }
    fn gen(&self, seed: u64, index: u64) -> Option<TextCase> {
        if self.id == "F01" {
            if let Some(c) = systematic(index) {
                return Some(c);
            }
        }
        let mut r = Rng::for_case(seed, self.id, index);
        let own = match self.id {
            "F01" => 0,
            "F02" => 1,
            _ => 2,
        };
        let (which, mut kind) = match r.below(16) {
            0 => (3, "wild"),
            1 => (r.below(3), "other-format"),
            _ => (own, "as-is"),
        };
        let mut s = match which {
            0 => line_text(&mut r),
            1 => block_text(&mut r),
            2 => loose_text(&mut r),
            _ => wild_text(&mut r),
        };
        if kind == "as-is" && r.chance(1, 2) {
            kind = "edited";
            for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
                s = if own > 0 && r.chance(1, 3) { edit_lines(&s, &mut r) } else { edit_text(&s, &mut r) };
            }
        }
        Some(TextCase { s, kind })
    }
    fn check(&self, c: &TextCase, cx: &mut Ctx) -> Result<(), Fail> {
        cx.label(c.kind);
        cx.nontrivial_if(c.s.contains(['.', '_', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9']));
        match self.id {
            "F01" => self.line(&c.s, cx),
            "F02" => self.block(&c.s, cx),
            _ => self.permissive(&c.s, cx),
        }
    }
    fn shrink(&self, c: &TextCase) -> Vec<TextCase> {
        shrink_text(&c.s).into_iter().map(|s| TextCase { s, kind: "shrunk" }).collect()
    }
    fn enc(&self, c: &TextCase) -> String {
        serde_json::to_string(&c.s).unwrap()
    }
    fn dec(&self, s: &str) -> Option<TextCase> {
        Some(TextCase { s: serde_json::from_str(s).ok()?, kind: "replay" })
    }
}

// ---------------------------------------------------------------------------------------------
// F04

pub struct Bytes;

#[derive(Clone)]
pub struct BytesCase {
    b: Vec<u8>,
    kind: &'static str,
}

impl Prop for Bytes {
    type Case = BytesCase;
    fn id(&self) -> &'static str {
        "F04"
    }
    fn rule(&self) -> &'static str {
        "One case = one byte string: every byte value at every position of a grid (enumerated), every length up to 300, random strings and grids with a few wrong bytes. \
         Non-trivial: the length is 81."
    }
    fn quota(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 25_000_000,
            Tier::Thorough => 100_000_000,
        }
    }
    fn chunk(&self) -> u64 {
        512
    }
    fn required_classes(&self) -> Vec<&'static str> {
        vec!["position-x-byte", "lengths", "grid", "wrong-bytes", "random", "accepted", "rejected", "wrong-length"]
    }
    fn gen(&self, seed: u64, index: u64) -> Option<BytesCase> {
        let mut r = Rng::for_case(seed, "F04", index);
        if index < 81 * 256 {
            let mut b: Vec<u8> = (0..81).map(|i| (i * 7 % 10) as u8).collect();
            b[index as usize / 256] = (index % 256) as u8;
            return Some(BytesCase { b, kind: "position-x-byte" });
        }
        let i = index - 81 * 256;
        if i < 301 {
            return Some(BytesCase { b: vec![(i % 10) as u8; i as usize], kind: "lengths" });
        }
        Some(match r.below(5) {
            0 => BytesCase { b: any_grid(&mut r).to_vec(), kind: "grid" },
            1 | 2 => {
                let mut b = any_grid(&mut r).to_vec();
                for _ in 0..r.range(1, 4) {
                    let k = r.below(81);
                    b[k] = match r.below(4) {
                        0 => 10,
                        1 => r.range(10, 16) as u8,
                        2 => *r.pick(&[0x10, 0x20, 0x40, 0x80, 0x90, 0xff, 0x11, 0x89, 0x0a, b'0', b'9', b'.']),
                        _ => r.below(256) as u8,
                    };
                }
                BytesCase { b, kind: "wrong-bytes" }
            }
            3 => {
                let mut b = any_grid(&mut r).to_vec();
                let n = match r.below(60) {
                    0 => 81 + 256 * r.range(1, 4),
                    1 => 81 + 65536 * r.range(1, 2),
                    2 => 81 * r.range(2, 20),
                    _ => *r.pick(&[0, 1, 79, 80, 82, 83, 90, 162, 256 + 81, 80, 82]),
                };
                b.resize(n, r.below(10) as u8);
                BytesCase { b, kind: "lengths" }
            }
            _ => {
                let n = if r.chance(1, 2) { 81 } else { r.below(200) };
                BytesCase { b: (0..n).map(|_| r.below(256) as u8).collect(), kind: "random" }
            }
        })
    }
    fn check(&self, c: &BytesCase, cx: &mut Ctx) -> Result<(), Fail> {
        cx.label(c.kind);
        cx.nontrivial_if(c.b.len() == 81);
        let valid = c.b.iter().all(|&b| b <= 9);
        let slice = sut("from_bytes_slice", || Sudoku::from_bytes_slice(&c.b))?;
        let conv = sut("TryFrom<&[u8]>", || Sudoku::try_from(&c.b[..]))?;
        for (what, res) in [("from_bytes_slice", &slice), ("TryFrom<&[u8]>", &conv)] {
            match res {
                Ok(s) => {
                    ensure!(c.b.len() == 81 && valid, "{} accepted an invalid grid", what);
                    ensure!(s.to_bytes()[..] == c.b[..], "{} changed the bytes to {:?}", what, &s.to_bytes()[..]);
                }
                Err(FromBytesSliceError::WrongLength(n)) => {
                    ensure!(c.b.len() != 81, "{} rejected a slice of length 81 for its length", what);
                    ensure!(*n == c.b.len(), "{} reported length {} for {}", what, n, c.b.len());
                    let msg = sut("formatting the error", || res.as_ref().unwrap_err().to_string())?;
                    check_message(&msg, &[*n], Some(*n), None)?;
                }
                Err(FromBytesSliceError::FromBytesError(_)) => {
                    ensure!(c.b.len() == 81, "{} rejected a slice of length {} for its entries", what, c.b.len());
                    ensure!(!valid, "{} rejected a valid grid", what);
                }
            }
        }
        let Ok(arr) = <[u8; 81]>::try_from(&c.b[..]) else {
            cx.label("wrong-length");
            return Ok(());
        };
        cx.label(if valid { "accepted" } else { "rejected" });
        for (what, res) in [
            ("from_bytes", sut("from_bytes", || Sudoku::from_bytes(arr).ok())?),
            ("TryFrom<[u8; 81]>", sut("TryFrom<[u8; 81]>", || Sudoku::try_from(arr).ok())?),
        ] {
            ensure!(res.is_some() == valid, "{} {} the bytes", what, if valid { "rejected" } else { "accepted" });
            if let Some(s) = res {
                ensure!(s.to_bytes() == arr, "{} changed the bytes to {:?}", what, &s.to_bytes()[..]);
                ensure!(<[u8; 81]>::from(s) == arr, "conversion into an array gives {:?}", &s.to_bytes()[..]);
            }
        }
        Ok(())
    }
    fn shrink(&self, c: &BytesCase) -> Vec<BytesCase> {
        let mut v = vec![];
        for n in [0, 1, c.b.len() / 2, c.b.len().saturating_sub(1)] {
            if n < c.b.len() {
                v.push(c.b[..n].to_vec());
            }
        }
        for i in 0..c.b.len() {
            for to in [0, 10, c.b[i] / 2] {
                if to < c.b[i] {
                    let mut t = c.b.clone();
                    t[i] = to;
                    v.push(t);
                }
            }
        }
        v.into_iter().map(|b| BytesCase { b, kind: "shrunk" }).collect()
    }
    fn enc(&self, c: &BytesCase) -> String {
        serde_json::to_string(&c.b).unwrap()
    }
    fn dec(&self, s: &str) -> Option<BytesCase> {
        Some(BytesCase { b: serde_json::from_str(s).ok()?, kind: "replay" })
    }
}

// ---------------------------------------------------------------------------------------------
// F05

pub struct Render;

#[derive(Clone)]
pub struct PairCase {
    a: G,
    b: G,
    kind: &'static str,
}

fn hash_of<T: std::hash::Hash + ?Sized>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

impl Prop for Render {
    type Case = PairCase;
    fn id(&self) -> &'static str {
        "F05"
    }
    fn rule(&self) -> &'static str {
        "One case = two grids of any kind (equal, differing in one cell, or unrelated): all renderings of the first are read back, and the line texts of both compared. \
         Non-trivial: the first grid is not empty."
    }
    fn quota(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 4_000_000,
            Tier::Thorough => 25_000_000,
        }
    }
    fn chunk(&self) -> u64 {
        256
    }
    fn required_classes(&self) -> Vec<&'static str> {
        vec!["equal", "one-cell-differs", "unrelated", "first-less", "first-greater"]
    }
    fn gen(&self, seed: u64, index: u64) -> Option<PairCase> {
        let mut r = Rng::for_case(seed, "F05", index);
        let a = any_grid(&mut r);
        let (b, kind) = match r.below(4) {
            0 => (a, "equal"),
            1 | 2 => {
                let mut b = a;
                let c = r.below(81);
                b[c] = (b[c] + r.range(1, 9) as u8) % 10;
                // what follows the first difference must not matter
                if c < 80 && r.chance(1, 2) {
                    for x in &mut b[c + 1..] {
                        *x = r.below(10) as u8;
                    }
                }
                (b, "one-cell-differs")
            }
            _ => (any_grid(&mut r), "unrelated"),
        };
        Some(PairCase { a, b, kind })
    }
    fn check(&self, c: &PairCase, cx: &mut Ctx) -> Result<(), Fail> {
        cx.label(c.kind);
        cx.nontrivial_if(n_clues(&c.a) > 0);
        let s = mk(&c.a)?;
        let t = mk(&c.b)?;
        let line = to_line(&c.a);
        let l = sut("to_str_line", || s.to_str_line())?;
        let text: String = sut("SudokuLine deref", || l.to_string())?;
        ensure!(text == line, "line text {:?}, {:?} expected", text, line);
        let deref: &str = &l;
        ensure!(deref == line, "the line dereferences to {:?}", deref);
        ensure!(format!("{}", s) == line, "display text {:?}, {:?} expected", format!("{}", s), line);
        ensure!(format!("{:?}", l) == format!("{:?}", line), "debug text {:?} of the line", l);
        ensure!(s.to_bytes() == c.a, "to_bytes gives {:?}", &s.to_bytes()[..]);
        ensure!(<[u8; 81]>::from(s) == c.a, "the array conversion gives {:?}", &<[u8; 81]>::from(s)[..]);
        let back = sut("from_str_line", || Sudoku::from_str_line(&line).ok())?;
        ensure!(back == Some(s), "the line text is read back as {:?}", back.map(|x| to_safe(&x.to_bytes())));
        let back = sut("from_bytes", || Sudoku::from_bytes(s.to_bytes()).ok())?;
        ensure!(back == Some(s), "the bytes are read back as {:?}", back.map(|x| to_safe(&x.to_bytes())));
        let block = sut("display_block", || s.display_block().to_string())?;
        ensure!(block == parse::block_text(&c.a), "block text {:?}, {:?} expected", block, parse::block_text(&c.a));
        let back = sut("from_str_block_permissive", || Sudoku::from_str_block_permissive(&block).ok())?;
        ensure!(back == Some(s), "the block text is read back as {:?}", back.map(|x| to_safe(&x.to_bytes())));
        let cells: Vec<Option<u8>> = c.a.iter().map(|&d| if d == 0 { None } else { Some(d) }).collect();
        ensure!(s.iter().collect::<Vec<_>>() == cells, "iteration yields {:?}", s.iter().collect::<Vec<_>>());
        ensure!(s.n_clues() as usize == n_clues(&c.a), "n_clues() = {}, {} cells are filled", s.n_clues(), n_clues(&c.a));
        // comparisons
        let line2 = to_line(&c.b);
        let l2 = sut("to_str_line", || t.to_str_line())?;
        cx.label(match line.cmp(&line2) {
            std::cmp::Ordering::Less => "first-less",
            std::cmp::Ordering::Greater => "first-greater",
            _ => "same",
        });
        ensure!(l.cmp(&l2) == line.cmp(&line2), "lines compare {:?}, their texts {:?}", l.cmp(&l2), line.cmp(&line2));
        ensure!(l.partial_cmp(&l2) == line.partial_cmp(&line2), "lines compare {:?} partially", l.partial_cmp(&l2));
        ensure!((l == l2) == (line == line2), "lines are {} although their texts are not", if l == l2 { "equal" } else { "unequal" });
        ensure!(s.cmp(&t) == l.cmp(&l2), "grids compare {:?}, their lines {:?}", s.cmp(&t), l.cmp(&l2));
        ensure!(s.cmp(&t) == c.a.cmp(&c.b), "grids compare {:?}, their cells {:?}", s.cmp(&t), c.a.cmp(&c.b));
        ensure!((s == t) == (c.a == c.b), "equality of grids is wrong");
        ensure!(hash_of(&l) == hash_of(line.as_str()), "the line hashes differently from its text");
        ensure!(c.a != c.b || hash_of(&s) == hash_of(&t), "equal grids hash differently");
        Ok(())
    }
    fn shrink(&self, c: &PairCase) -> Vec<PairCase> {
        let mut v = vec![];
        if c.a != c.b {
            v.push(PairCase { a: c.a, b: c.a, kind: "shrunk" });
            v.push(PairCase { a: c.b, b: c.b, kind: "shrunk" });
            v.extend(shrink_clues(&c.b).into_iter().map(|b| PairCase { a: c.a, b, kind: "shrunk" }));
            v.extend(shrink_clues(&c.a).into_iter().map(|a| PairCase { a, b: c.b, kind: "shrunk" }));
        } else {
            v.extend(shrink_clues(&c.a).into_iter().map(|a| PairCase { a, b: a, kind: "shrunk" }));
        }
        v
    }
    fn enc(&self, c: &PairCase) -> String {
        format!("{} {}", to_line(&c.a), to_line(&c.b))
    }
    fn dec(&self, s: &str) -> Option<PairCase> {
        let (a, b) = s.split_once(' ')?;
        Some(PairCase { a: from_line(a)?, b: from_line(b)?, kind: "replay" })
    }
}

// ---------------------------------------------------------------------------------------------
// F06

pub struct Serde;

#[derive(Clone)]
pub enum SerdeCase {
    Grid(GridCase),
    /// a string where a grid is expected
    Str(String),
    /// a byte string where a grid is expected
    Bytes(Vec<u8>),
    /// a text that is some other JSON
    Json(String),
    /// arbitrary encoded bytes
    Raw(Vec<u8>),
}

#[derive(serde::Serialize, serde::Deserialize, PartialEq, Debug)]
struct Container {
    first: Sudoku,
    list: Vec<Sudoku>,
    maybe: Option<Sudoku>,
    pair: (u8, Sudoku),
}

fn bin<T: serde::Serialize>(x: &T) -> Vec<u8> {
    bincode::serialize(x).expect("bincode")
}
fn cbor<T: serde::Serialize>(x: &T) -> Vec<u8> {
    let mut v = vec![];
    ciborium::into_writer(x, &mut v).expect("cbor");
    v
}
fn same<T>(what: &str, got: Result<T, impl std::fmt::Display>, want: &T) -> Result<(), Fail>
where
    T: PartialEq,
{
    match got {
        Err(e) => fail(format!("{}: what was serialised is rejected: {}", what, e)),
        Ok(x) => {
            ensure!(x == *want, "{}: another value is read back", what);
            Ok(())
        }
    }
}

impl Serde {
    fn round_trip(&self, g: &G) -> Result<(), Fail> {
        let s = mk(g)?;
        let line = to_line(g);
        let json = sut("serialising to JSON", || serde_json::to_string(&s).map_err(|e| e.to_string()))?;
        ensure!(json == Ok(format!("\"{}\"", line)), "serialised to {:?}", json);
        let json = json.unwrap();
        same("JSON", sut("deserialising", || serde_json::from_str::<Sudoku>(&json))?, &s)?;
        same("JSON slice", sut("deserialising", || serde_json::from_slice::<Sudoku>(json.as_bytes()))?, &s)?;
        same("JSON reader", sut("deserialising", || serde_json::from_reader::<_, Sudoku>(json.as_bytes()))?, &s)?;
        let value = sut("serialising to a JSON value", || serde_json::to_value(s).map_err(|e| e.to_string()))?;
        ensure!(value == Ok(serde_json::Value::String(line.clone())), "serialised to the value {:?}", value);
        same("JSON value", sut("deserialising", || serde_json::from_value::<Sudoku>(value.unwrap()))?, &s)?;
        // an escaped character forces the reader to copy the string
        let escaped = format!("\"\\u00{:02x}{}\"", line.as_bytes()[0], &line[1..]);
        same("escaped JSON", sut("deserialising", || serde_json::from_str::<Sudoku>(&escaped))?, &s)?;

        let b = sut("serialising with bincode", || bin(&s))?;
        let mut want = 81u64.to_le_bytes().to_vec();
        want.extend(g);
        ensure!(b == want, "bincode gives {:?}", b);
        same("bincode", sut("deserialising", || bincode::deserialize::<Sudoku>(&b))?, &s)?;
        same("bincode reader", sut("deserialising", || bincode::deserialize_from::<_, Sudoku>(&b[..]))?, &s)?;
        let b = sut("serialising to CBOR", || cbor(&s))?;
        let mut want = vec![0x58, 81];
        want.extend(g);
        ensure!(b == want, "CBOR gives {:?}", b);
        same("CBOR", sut("deserialising", || ciborium::from_reader::<Sudoku, _>(&b[..]))?, &s)?;

        let c = Container { first: s, list: vec![s, s], maybe: Some(s), pair: (7, s) };
        let j = sut("serialising to JSON", || serde_json::to_string(&c).unwrap())?;
        same("JSON container", sut("deserialising", || serde_json::from_str::<Container>(&j))?, &c)?;
        let j = sut("serialising with bincode", || bin(&c))?;
        same("bincode container", sut("deserialising", || bincode::deserialize::<Container>(&j))?, &c)?;
        let j = sut("serialising to CBOR", || cbor(&c))?;
        same("CBOR container", sut("deserialising", || ciborium::from_reader::<Container, _>(&j[..]))?, &c)?;
        Ok(())
    }
    fn expect(&self, what: &str, got: Option<Sudoku>, want: Option<G>) -> Result<(), Fail> {
        match (got, want) {
            (None, None) => Ok(()),
            (Some(s), Some(g)) if s.to_bytes() == g => Ok(()),
            (got, want) => fail(format!(
                "{}: deserialised to {}, {} expected",
                what,
                got.map_or("an error".into(), |s| to_safe(&s.to_bytes())),
                want.map_or("an error".into(), |g| to_line(&g))
            )),
        }
    }
}

impl Prop for Serde {
    type Case = SerdeCase;
    fn id(&self) -> &'static str {
        "F06"
    }
    fn rule(&self) -> &'static str {
        "One case = one grid serialised and read back by serde_json, bincode and ciborium, alone and in containers, or one payload: a string, a byte string, other JSON, raw bytes. \
         Non-trivial: grids, and payloads that carry at least 70 cells or bytes."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["serde_json, bincode and ciborium stand for human-readable and binary formats"]
    }
    fn quota(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 12_000_000,
            Tier::Thorough => 30_000_000,
        }
    }
    fn chunk(&self) -> u64 {
        256
    }
    fn required_classes(&self) -> Vec<&'static str> {
        vec!["grid", "string", "bytes", "json", "raw", "payload-accepted", "payload-rejected"]
    }
    fn gen(&self, seed: u64, index: u64) -> Option<SerdeCase> {
        let mut r = Rng::for_case(seed, "F06", index);
        Some(match r.below(8) {
            0..=2 => SerdeCase::Grid(GridCase { g: any_grid(&mut r), kind: "grid" }),
            3 | 4 => {
                let mut s = line_text(&mut r);
                if r.chance(1, 2) {
                    s = edit_text(&s, &mut r);
                }
                SerdeCase::Str(s)
            }
            5 | 6 => {
                let mut b = any_grid(&mut r).to_vec();
                match r.below(4) {
                    0 if r.chance(1, 20) => b.resize(*r.pick(&[81 + 256, 81 + 512, 81 + 65536, 9 * 81]), 0),
                    0 => b.resize(*r.pick(&[0, 1, 80, 82, 162]), 0),
                    1 => {
                        let k = r.below(81);
                        b[k] = r.below(256) as u8;
                    }
                    2 => {
                        let k = r.below(81);
                        b[k] = *r.pick(&[10, 11, b'.', b'5', 255]);
                    }
                    _ => (),
                }
                SerdeCase::Bytes(b)
            }
            _ => {
                let g = any_grid(&mut r);
                if r.chance(1, 2) {
                    let v = match r.below(6) {
                        0 => serde_json::json!(g.to_vec()),
                        1 => serde_json::json!({ "grid": to_line(&g) }),
                        2 => serde_json::json!([to_line(&g)]),
                        3 => serde_json::json!(null),
                        4 => serde_json::json!(r.next()),
                        _ => serde_json::json!(true),
                    };
                    SerdeCase::Json(v.to_string())
                } else {
                    let mut b = bin(&g.to_vec());
                    for _ in 0..r.below(4) {
                        let k = r.below(b.len());
                        match r.below(3) {
                            0 => b[k] = r.below(256) as u8,
                            1 => b.truncate(k.max(1)),
                            _ => b.insert(k, r.below(12) as u8),
                        }
                    }
                    SerdeCase::Raw(b)
                }
            }
        })
    }
    fn check(&self, c: &SerdeCase, cx: &mut Ctx) -> Result<(), Fail> {
        match c {
            SerdeCase::Grid(c) => {
                cx.label("grid");
                cx.nontrivial = true;
                self.round_trip(&c.g)
            }
            SerdeCase::Str(s) => {
                cx.label("string");
                cx.nontrivial_if(s.len() >= 70);
                let want = parse::line(s).ok();
                cx.label(if want.is_some() { "payload-accepted" } else { "payload-rejected" });
                let j = serde_json::to_string(s).unwrap();
                self.expect("JSON string", sut("deserialising", || serde_json::from_str::<Sudoku>(&j).ok())?, want)?;
                let v = serde_json::Value::String(s.clone());
                self.expect("JSON value", sut("deserialising", || serde_json::from_value::<Sudoku>(v).ok())?, want)?;
                // a text is not a byte string
                let b = cbor(s);
                let got = sut("deserialising", || ciborium::from_reader::<Sudoku, _>(&b[..]).ok())?;
                ensure!(got.is_none() || got.map(|x| x.to_bytes()) == want, "CBOR text deserialised to another grid");
                use serde::de::value::{BytesDeserializer, CowStrDeserializer, Error, StrDeserializer, StringDeserializer};
                let read = |what: &str, f: &dyn Fn() -> Result<Sudoku, Error>| sut(what, || f().ok());
                use serde::Deserialize;
                self.expect("borrowed string", read("deserialising", &|| Sudoku::deserialize(StrDeserializer::new(s)))?, want)?;
                self.expect("owned string", read("deserialising", &|| Sudoku::deserialize(StringDeserializer::new(s.clone())))?, want)?;
                self.expect("shared string", read("deserialising", &|| Sudoku::deserialize(CowStrDeserializer::new(s.as_str().into())))?, want)?;
                // the bytes of a text may be taken for it, but for nothing else
                let got = read("deserialising", &|| Sudoku::deserialize(BytesDeserializer::new(s.as_bytes())))?;
                ensure!(got.is_none() || got.map(|x| x.to_bytes()) == want, "the bytes of a text deserialised to another grid");
                Ok(())
            }
            SerdeCase::Bytes(b) => {
                cx.label("bytes");
                cx.nontrivial_if(b.len() >= 70);
                let want = <G>::try_from(&b[..]).ok().filter(|g| g.iter().all(|&d| d <= 9));
                cx.label(if want.is_some() { "payload-accepted" } else { "payload-rejected" });
                let e = bin(b);
                self.expect("bincode", sut("deserialising", || bincode::deserialize::<Sudoku>(&e).ok())?, want)?;
                let mut e = vec![];
                ciborium::into_writer(&ciborium::Value::Bytes(b.clone()), &mut e).unwrap();
                self.expect("CBOR", sut("deserialising", || ciborium::from_reader::<Sudoku, _>(&e[..]).ok())?, want)?;
                // the same in pieces, and as an array of numbers, which may be refused but not misread
                let mut parts = vec![0x5f];
                for p in b.chunks(1 + b.len() / 3) {
                    ciborium::into_writer(&ciborium::Value::Bytes(p.to_vec()), &mut parts).unwrap();
                }
                parts.push(0xff);
                for (what, e) in [("byte string in pieces", parts), ("array of numbers", cbor(b))] {
                    let got = sut("deserialising", || ciborium::from_reader::<Sudoku, _>(&e[..]).ok())?;
                    if let Some(s) = got {
                        self.expect(&format!("CBOR {}", what), Some(s), want)?;
                    }
                }
                let j = serde_json::to_string(b).unwrap();
                let got = sut("deserialising", || serde_json::from_str::<Sudoku>(&j).ok())?;
                ensure!(got.is_none() || got.map(|x| x.to_bytes()) == want, "a JSON array deserialised to another grid");
                Ok(())
            }
            SerdeCase::Json(s) => {
                cx.label("json");
                cx.nontrivial_if(s.len() >= 70);
                let v: Option<String> = serde_json::from_str(s).ok();
                let want = v.and_then(|x| parse::line(&x).ok());
                self.expect("JSON", sut("deserialising", || serde_json::from_str::<Sudoku>(s).ok())?, want)
            }
            SerdeCase::Raw(b) => {
                cx.label("raw");
                cx.nontrivial_if(b.len() >= 70);
                let got = sut("deserialising", || bincode::deserialize::<Sudoku>(b).ok())?;
                let len = b.get(..8).map(|x| u64::from_le_bytes(x.try_into().unwrap()));
                let want = match len {
                    Some(81) if b.len() >= 89 => {
                        let g: G = b[8..89].try_into().unwrap();
                        Some(g).filter(|g| g.iter().all(|&d| d <= 9))
                    }
                    _ => None,
                };
                self.expect("bincode", got, want)?;
                // whatever these bytes mean in CBOR, there must be no panic and no invalid grid
                let got = sut("deserialising", || ciborium::from_reader::<Sudoku, _>(&b[..]).ok())?;
                if let Some(s) = got {
                    ensure!(s.to_bytes().iter().all(|&d| d <= 9), "CBOR gave a grid with an entry above 9");
                }
                Ok(())
            }
        }
    }
    fn shrink(&self, c: &SerdeCase) -> Vec<SerdeCase> {
        match c {
            SerdeCase::Grid(c) => shrink_clues(&c.g).into_iter().map(|g| SerdeCase::Grid(GridCase { g, kind: "shrunk" })).collect(),
            SerdeCase::Str(s) => shrink_text(s).into_iter().map(SerdeCase::Str).collect(),
            SerdeCase::Json(s) => shrink_text(s).into_iter().map(SerdeCase::Json).collect(),
            SerdeCase::Bytes(b) | SerdeCase::Raw(b) => {
                let mut v = vec![];
                for i in 0..b.len() {
                    if b[i] != 0 {
                        let mut t = b.clone();
                        t[i] = 0;
                        v.push(t);
                    }
                    let mut t = b.clone();
                    t.remove(i);
                    v.push(t);
                }
                let raw = matches!(c, SerdeCase::Raw(_));
                v.into_iter().map(|b| if raw { SerdeCase::Raw(b) } else { SerdeCase::Bytes(b) }).collect()
            }
        }
    }
    fn enc(&self, c: &SerdeCase) -> String {
        match c {
            SerdeCase::Grid(c) => format!("grid {}", to_line(&c.g)),
            SerdeCase::Str(s) => format!("str {}", serde_json::to_string(s).unwrap()),
            SerdeCase::Bytes(b) => format!("bytes {}", serde_json::to_string(b).unwrap()),
            SerdeCase::Json(s) => format!("json {}", serde_json::to_string(s).unwrap()),
            SerdeCase::Raw(b) => format!("raw {}", serde_json::to_string(b).unwrap()),
        }
    }
    fn dec(&self, s: &str) -> Option<SerdeCase> {
        let (k, v) = s.split_once(' ')?;
        Some(match k {
            "grid" => SerdeCase::Grid(GridCase { g: from_line(v)?, kind: "replay" }),
            "str" => SerdeCase::Str(serde_json::from_str(v).ok()?),
            "bytes" => SerdeCase::Bytes(serde_json::from_str(v).ok()?),
            "json" => SerdeCase::Json(serde_json::from_str(v).ok()?),
            "raw" => SerdeCase::Raw(serde_json::from_str(v).ok()?),
            _ => return None,
        })
    }
}
