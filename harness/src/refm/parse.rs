//! Reference readers for the text formats.
use super::grid::G;

fn cell_value(ch: char) -> Option<u8> {
    match ch {
        '.' | '_' => Some(0),
        '0'..='9' => Some(ch as u8 - b'0'),
        _ => None,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum LineErr {
    InvalidEntry(usize, char),
    NotEnoughCells(usize),
    TooManyCells,
    MissingCommentDelimiter,
}

/// The line format. Where the documentation leaves room there is more than one acceptable error.
pub fn line(s: &str) -> Result<G, Vec<LineErr>> {
    let mut g = [0; 81];
    let mut chars = s.chars();
    for (i, cell) in g.iter_mut().enumerate() {
        let Some(ch) = chars.next() else { return Err(vec![LineErr::NotEnoughCells(i)]) };
        match cell_value(ch) {
            Some(v) => *cell = v,
            None => {
                return Err(match ch {
                    ' ' | '\t' => vec![LineErr::NotEnoughCells(i)],
                    // delimiters as well, but only in front of a comment
                    '\n' | '\r' | ',' | ';' => vec![LineErr::InvalidEntry(i, ch), LineErr::NotEnoughCells(i)],
                    _ => vec![LineErr::InvalidEntry(i, ch)],
                })
            }
        }
    }
    match chars.next() {
        None | Some(' ' | '\t' | '\n' | '\r' | ',' | ';') => Ok(g),
        Some(ch) if cell_value(ch).is_some() => Err(vec![LineErr::TooManyCells]),
        Some(_) => Err(vec![LineErr::MissingCommentDelimiter]),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum BlockErr {
    InvalidEntry(usize, char),
    InvalidLineLength(usize),
    NotEnoughRows(usize),
    IncorrectFieldDelimiter,
    TooManyRows,
    MissingCommentDelimiter(usize),
}

/// Lines end with "\n" or "\r\n"; the last line need not end with either.
pub fn text_lines(s: &str) -> Vec<&str> {
    let mut v: Vec<&str> = s.split('\n').collect();
    if v.last() == Some(&"") {
        v.pop();
    }
    let n = v.len();
    let ended = s.ends_with('\n');
    for (i, l) in v.iter_mut().enumerate() {
        if i + 1 < n || ended {
            *l = l.strip_suffix('\r').unwrap_or(l);
        }
    }
    v
}

pub struct Block {
    pub result: Result<G, Vec<BlockErr>>,
    /// the text was accepted although a delimiter line goes on without a space or tab
    pub lax: bool,
}

pub fn block(s: &str) -> Block {
    let lines = text_lines(s);
    let mut g = [0; 81];
    let mut lax = false;
    let result = (|| {
        let delimited = lines.first().is_some_and(|l| l.chars().nth(3) == Some('|'));
        let layout: Vec<bool> = if delimited { "ccc|ccc|ccc" } else { "ccccccccc" }.chars().map(|c| c == 'c').collect();
        let mut style: Option<&str> = None;
        let mut it = lines.iter();
        for row in 0..9 {
            if delimited && (row == 3 || row == 6) {
                let Some(l) = it.next() else { return Err(vec![BlockErr::NotEnoughRows(row)]) };
                let st = match style {
                    Some(st) => st,
                    None if l.starts_with("---+---+---") => "---+---+---",
                    None => "-----------",
                };
                style = Some(st);
                match l.strip_prefix(st) {
                    None => return Err(vec![BlockErr::IncorrectFieldDelimiter]),
                    Some(rest) => lax |= !matches!(rest.chars().next(), None | Some(' ' | '\t')),
                }
            }
            let Some(l) = it.next() else { return Err(vec![BlockErr::NotEnoughRows(row)]) };
            let mut chars = l.chars();
            let mut cell = row * 9;
            for &is_cell in &layout {
                let Some(ch) = chars.next() else { return Err(vec![BlockErr::InvalidLineLength(row)]) };
                if is_cell {
                    match cell_value(ch) {
                        Some(v) => g[cell] = v,
                        None => return Err(vec![BlockErr::InvalidEntry(cell, ch)]),
                    }
                    cell += 1;
                } else if ch != '|' {
                    return Err(vec![BlockErr::IncorrectFieldDelimiter]);
                }
            }
            match chars.next() {
                None | Some(' ' | '\t') => (),
                Some(ch) if cell_value(ch).is_some() => return Err(vec![BlockErr::InvalidLineLength(row)]),
                Some(_) => return Err(vec![BlockErr::MissingCommentDelimiter(row)]),
            }
        }
        match it.next() {
            Some(l) if !l.chars().all(char::is_whitespace) => Err(vec![BlockErr::TooManyRows]),
            _ => Ok(g),
        }
    })();
    Block { result, lax }
}

/// Entries in the line of this row, before a comment.
pub fn entries_in_row(s: &str, row: usize) -> usize {
    let lines = text_lines(s);
    let delimited = lines.first().is_some_and(|l| l.chars().nth(3) == Some('|'));
    let l = lines.get(if delimited { row + row / 3 } else { row }).copied().unwrap_or("");
    l.chars().take_while(|&c| c == '|' || cell_value(c).is_some()).filter(|&c| c != '|').count()
}

/// The first nine cells of the first nine lines with at least nine cells, or the number of lines.
pub fn permissive(s: &str) -> Result<G, usize> {
    let rows: Vec<Vec<u8>> =
        s.split('\n').map(|l| l.chars().filter_map(cell_value).collect::<Vec<u8>>()).filter(|r| r.len() >= 9).take(9).collect();
    if rows.len() < 9 {
        return Err(rows.len());
    }
    let mut g = [0; 81];
    for (i, r) in rows.iter().enumerate() {
        g[i * 9..i * 9 + 9].copy_from_slice(&r[..9]);
    }
    Ok(g)
}

/// The documented block rendering.
pub fn block_text(g: &G) -> String {
    let mut s = String::new();
    for (r, line) in g.chunks(9).enumerate() {
        s.push('\n');
        if r == 3 || r == 6 {
            s.push('\n');
        }
        for (c, &d) in line.iter().enumerate() {
            if c == 3 || c == 6 {
                s.push(' ');
            }
            s.push(if d == 0 { '_' } else { (b'0' + d) as char });
        }
    }
    s
}
