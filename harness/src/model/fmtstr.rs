//! Reference for the documented part of `%format` strings.

#[derive(Clone, Debug, PartialEq)]
pub enum Piece {
    Text(String),
    /// `{name:spec}`; positional when the name is empty.
    Hole { name: String, fill: char, align: Option<char>, width: usize, precision: Option<usize> },
}

/// `None`: outside of what the reference covers.
pub fn parse(t: &str) -> Option<Vec<Piece>> {
    let cs: Vec<char> = t.chars().collect();
    let mut out = vec![];
    let mut text = String::new();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '{' if cs.get(i + 1) == Some(&'{') => { text.push('{'); i += 2; if cs.get(i) == Some(&'{') { return None; } },
            '}' if cs.get(i + 1) == Some(&'}') => { text.push('}'); i += 2; if cs.get(i) == Some(&'}') { return None; } },
            '}' => return None,
            '{' => {
                let end = cs[i..].iter().position(|c| *c == '}')? + i;
                if cs.get(end + 1) == Some(&'}') { return None; }
                let inner: String = cs[i + 1..end].iter().collect();
                i = end + 1;
                if !text.is_empty() { out.push(Piece::Text(std::mem::take(&mut text))); }
                let (name, spec) = match inner.split_once(':') { Some((n, s)) => (n, s), None => (inner.as_str(), "") };
                if !name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') || name.starts_with(|c: char| c.is_ascii_digit()) { return None; }
                let sc: Vec<char> = spec.chars().collect();
                let (mut fill, mut align, mut k) = (' ', None, 0);
                if sc.len() >= 2 && matches!(sc[1], '<' | '>' | '^') {
                    if !matches!(sc[0], '*' | '_' | '.' | '-' | '=' | 'é') { return None; }
                    fill = sc[0]; align = Some(sc[1]); k = 2;
                } else if !sc.is_empty() && matches!(sc[0], '<' | '>' | '^') { align = Some(sc[0]); k = 1; }
                let rest: String = sc[k..].iter().collect();
                let (w, p) = match rest.split_once('.') { Some((w, p)) => (w, Some(p)), None => (rest.as_str(), None) };
                let num = |s: &str| -> Option<usize> { if s.is_empty() || s.starts_with('0') || s.len() > 3 { None } else { s.parse().ok() } };
                let width = if w.is_empty() { 0 } else { num(w)? };
                let precision = match p { Some(p) => Some(num(p)?), None => None };
                out.push(Piece::Hole { name: name.into(), fill, align, width, precision });
            },
            c => { text.push(c); i += 1; },
        }
    }
    if !text.is_empty() { out.push(Piece::Text(text)); }
    Some(out)
}

pub enum Arg { Pos(String), Named(String, String) }

/// `Err(true)`: must be an error; `Err(false)`: not covered.
pub fn format(pieces: &[Piece], args: &[Arg]) -> Result<String, bool> {
    let mut pos = args.iter().filter_map(|a| match a { Arg::Pos(v) => Some(v.clone()), _ => None });
    let mut out = String::new();
    for p in pieces {
        match p {
            Piece::Text(t) => out.push_str(t),
            Piece::Hole { name, fill, align, width, precision } => {
                let v = if name.is_empty() { pos.next().ok_or(true)? } else {
                    args.iter().find_map(|a| match a { Arg::Named(k, v) if k == name => Some(v.clone()), _ => None }).ok_or(true)?
                };
                let v: String = match precision {
                    // Precision of text that is a number is about its decimals: not covered.
                    Some(_) if v.parse::<f64>().is_ok() => return Err(false),
                    Some(n) => v.chars().take(*n).collect(),
                    None => v,
                };
                if *width > 0 && v.parse::<f64>().is_ok() && align.is_none() { return Err(false); }
                let pad = width.saturating_sub(v.chars().count());
                // The formatting library pads filled centred text unevenly: not covered.
                if *align == Some('^') && *fill != ' ' { return Err(false); }
                let (l, r) = match align.unwrap_or('<') { '<' => (0, pad), '>' => (pad, 0), _ => (pad / 2, pad - pad / 2) };
                for _ in 0..l { out.push(*fill); }
                out.push_str(&v);
                for _ in 0..r { out.push(*fill); }
            },
        }
    }
    Ok(out)
}
