//! Reference reader: source text to tree, by one recursive descent over
//! characters with all positions taken from a precomputed line table.

use super::tree::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ErrKind { UnclosedString, UnclosedTriple, BadEscape, StrayClose, NoValue, UnclosedList }

#[derive(Clone, Debug)]
pub struct ReadErr { pub kind: ErrKind, pub site: Site }

struct Rd<'s> { src: &'s str, pos: usize, lines: Vec<usize>, file: u32 }

pub fn read(src: &str, path: &str) -> Result<Vec<N>, ReadErr> {
    let mut lines = vec![0];
    lines.extend(src.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i + 1));
    let mut r = Rd { src, pos: 0, lines, file: file_id(path) };
    let mut out = vec![];
    loop {
        let ws = r.blank();
        if r.peek().is_none() { return Ok(out); }
        out.push(r.expr(ws)?);
    }
}

pub fn is_blank(c: char) -> bool { matches!(c, ' ' | '\t' | '\r' | '\n') }

#[derive(Clone, Debug, PartialEq)]
pub enum Kind { Open, Close, Sym, Str, Num, Key }
/// One token: its text (without quotes, or the colon of a keyword), and blanks before.
#[derive(Clone, Debug, PartialEq)]
pub struct Tok { pub kind: Kind, pub val: String, pub ws: String, pub site: Site }

/// The tokens of a source, and where a string is not closed.
pub fn tokens(src: &str, path: &str) -> (Vec<Tok>, Option<Site>) {
    let mut lines = vec![0];
    lines.extend(src.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i + 1));
    let mut r = Rd { src, pos: 0, lines, file: file_id(path) };
    let mut out = vec![];
    loop {
        let ws = r.blank().to_owned();
        let start = r.pos;
        let Some(c) = r.peek() else { return (out, None) };
        let (kind, from, to) = match c {
            '(' => { r.pos += 1; (Kind::Open, start, r.pos) },
            ')' => { r.pos += 1; (Kind::Close, start, r.pos) },
            ':' => { r.pos += 1; r.ident(); (Kind::Key, start + 1, r.pos) },
            '"' => {
                let q = if src[start..].starts_with("\"\"\"") { 3 } else { 1 };
                let Some(end) = r.string(q) else { return (out, Some(r.site(start, start + q))) };
                (Kind::Str, start + q, end)
            },
            c => { r.ident(); (if c.is_ascii_digit() || c == '+' || c == '-' { Kind::Num } else { Kind::Sym }, start, r.pos) },
        };
        out.push(Tok { kind, val: src[from..to].to_owned(), ws, site: r.site(start, r.pos) });
    }
}

impl<'s> Rd<'s> {
    /// Skips a string with `q` quotes; the end of what is quoted.
    fn string(&mut self, q: usize) -> Option<usize> {
        self.pos += q;
        loop {
            let c = self.peek()?;
            if c == '\\' {
                self.pos += 1;
                if let Some(e) = self.peek() { self.pos += e.len_utf8(); }
                continue;
            }
            if c == '"' && (q == 1 || self.src[self.pos..].starts_with("\"\"\"")) { break; }
            self.pos += c.len_utf8();
        }
        let end = self.pos;
        self.pos += q;
        Some(end)
    }
    fn peek(&self) -> Option<char> { self.src[self.pos..].chars().next() }
    fn site(&self, start: usize, end: usize) -> Site {
        let line = self.lines.partition_point(|l| *l <= start);
        Site { file: self.file, off: start, line, col: start - self.lines[line - 1], span: end - start }
    }
    /// Skips blanks and comments; returns the blanks since the last comment,
    /// including the newline ending that comment.
    fn blank(&mut self) -> &'s str {
        let mut start = self.pos;
        loop {
            match self.peek() {
                Some(c) if is_blank(c) => self.pos += 1,
                Some(';') => {
                    match self.src[self.pos..].find('\n') {
                        Some(k) => { self.pos += k; start = self.pos; },
                        None => self.pos = self.src.len(),
                    }
                },
                _ => return &self.src[start..self.pos],
            }
        }
    }
    fn ident(&mut self) -> &'s str {
        let start = self.pos;
        while let Some(c) = self.peek() {
            if c == '\\' {
                self.pos += 1;
                if let Some(e) = self.peek() { self.pos += e.len_utf8(); }
            } else if is_blank(c) || matches!(c, '(' | ')' | '"') {
                break;
            } else {
                self.pos += c.len_utf8();
            }
        }
        &self.src[start..self.pos]
    }
    fn expr(&mut self, ws: &str) -> Result<N, ReadErr> {
        let start = self.pos;
        let ws = ws.to_owned();
        match self.peek().expect("expression") {
            '(' => {
                self.pos += 1;
                let site = self.site(start, self.pos);
                let mut kids = vec![];
                loop {
                    let w = self.blank();
                    match self.peek() {
                        None => return Err(ReadErr { kind: ErrKind::UnclosedList, site }),
                        Some(')') => {
                            let end = self.site(self.pos, self.pos + 1);
                            self.pos += 1;
                            return Ok(N::List { ws, kids, end_ws: w.to_owned(), end, site });
                        },
                        Some(_) => kids.push(self.expr(w)?),
                    }
                }
            },
            ')' => Err(ReadErr { kind: ErrKind::StrayClose, site: self.site(start, start + 1) }),
            ':' => {
                self.pos += 1;
                let key = self.ident().to_owned();
                let site = self.site(start, self.pos);
                let w = self.blank();
                match self.peek() {
                    None | Some(')') => Err(ReadErr { kind: ErrKind::NoValue, site }),
                    Some(_) => Ok(N::Attr { ws, key, val: Box::new(self.expr(w)?), site }),
                }
            },
            '"' => {
                let triple = self.src[start..].starts_with("\"\"\"");
                let q = if triple { 3 } else { 1 };
                self.pos += q;
                let body = self.pos;
                loop {
                    let Some(c) = self.peek() else {
                        return Err(ReadErr { kind: if triple { ErrKind::UnclosedTriple } else { ErrKind::UnclosedString }, site: self.site(start, start + q) });
                    };
                    if c == '\\' {
                        self.pos += 1;
                        if let Some(e) = self.peek() { self.pos += e.len_utf8(); }
                        continue;
                    }
                    if c == '"' && (!triple || self.src[self.pos..].starts_with("\"\"\"")) { break; }
                    self.pos += c.len_utf8();
                }
                let text = &self.src[body..self.pos];
                self.pos += q;
                let site = self.site(start, self.pos);
                match unescape(text) {
                    Some(val) => Ok(N::Str(Atom { ws, val, site })),
                    None => Err(ReadErr { kind: ErrKind::BadEscape, site }),
                }
            },
            c => {
                let text = self.ident();
                let mut val = String::new();
                let mut it = text.chars();
                while let Some(c) = it.next() {
                    if c == '\\' { val.extend(it.next()); } else { val.push(c); }
                }
                let a = Atom { ws, val, site: self.site(start, self.pos) };
                Ok(if c.is_ascii_digit() || c == '+' || c == '-' { N::Num(a) } else { N::Sym(a) })
            },
        }
    }
}

/// Escapes of string literals.
pub fn unescape(text: &str) -> Option<String> {
    let cs: Vec<char> = text.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    let hex = |d: &[char]| -> Option<char> {
        // An optional sign is accepted in front of the digits.
        let d = if d.len() > 1 && d[0] == '+' { &d[1..] } else { d };
        if d.is_empty() { return None; }
        let mut v: u64 = 0;
        for c in d {
            v = v * 16 + c.to_digit(16)? as u64;
            if v > 0xFFFF_FFFF { return None; }
        }
        char::from_u32(v as u32)
    };
    while i < cs.len() {
        if cs[i] != '\\' { out.push(cs[i]); i += 1; continue; }
        let e = *cs.get(i + 1)?;
        i += 2;
        match e {
            'a' => out.push('\x07'),
            'b' => out.push('\x08'),
            't' => out.push('\t'),
            'n' => out.push('\n'),
            'v' => out.push('\x0b'),
            'f' => out.push('\x0c'),
            'r' => out.push('\r'),
            'e' => out.push('\x1b'),
            '`' | '\'' | '"' | '\\' => out.push(e),
            'x' => { out.push(hex(cs.get(i..i + 2)?)?); i += 2; },
            'u' => if cs.get(i) == Some(&'{') {
                let close = cs[i + 1..].iter().position(|c| *c == '}')?;
                out.push(hex(&cs[i + 1..i + 1 + close])?);
                i += close + 2;
            } else {
                out.push(hex(cs.get(i..i + 4)?)?);
                i += 4;
            },
            '0'..='7' => {
                let mut v = e.to_digit(8).unwrap();
                for _ in 0..2 {
                    match cs.get(i).and_then(|c| c.to_digit(8)) { Some(d) => { v = v * 8 + d; i += 1; }, None => break }
                }
                out.push(char::from_u32(v)?);
            },
            _ => return None,
        }
    }
    Some(out)
}
