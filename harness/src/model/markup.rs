//! Reading generated markup back, independently of how it was generated.

use super::formats::{FOREIGN, VOID};
use super::tree::*;

/// What a parser of the markup sees. Blanks in text are left out.
#[derive(Clone, Debug, PartialEq)]
pub enum Ev { Open(String, Vec<(String, String)>), Close(String), Text(String), Decl(String) }

pub fn squeeze(t: &str) -> String { t.chars().filter(|c| !matches!(c, ' ' | '\t' | '\r' | '\n')).collect() }

fn decode(t: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut rest = t;
    while let Some(i) = rest.find('&') {
        o += &rest[..i];
        rest = &rest[i..];
        let Some((ent, c)) = [("&amp;", '&'), ("&lt;", '<'), ("&gt;", '>'), ("&quot;", '"'), ("&apos;", '\'')].into_iter().find(|(e, _)| rest.starts_with(e)) else {
            return Err(format!("stray ampersand in {t:?}"));
        };
        o.push(c);
        rest = &rest[ent.len()..];
    }
    Ok(o + rest)
}

/// Reads HTML or XML. Every element must be closed in order (void elements of HTML excepted).
pub fn parse(t: &str, html: bool) -> Result<Vec<Ev>, String> {
    let mut ev = vec![];
    let mut open: Vec<String> = vec![];
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    let mut text = String::new();
    let flush = |text: &mut String, ev: &mut Vec<Ev>| -> Result<(), String> {
        let d = squeeze(&decode(text)?);
        if !d.is_empty() { ev.push(Ev::Text(d)); }
        text.clear();
        Ok(())
    };
    while i < cs.len() {
        if cs[i] != '<' {
            if cs[i] == '>' { return Err("stray `>'".into()); }
            text.push(cs[i]); i += 1; continue;
        }
        flush(&mut text, &mut ev)?;
        i += 1;
        let foreign = open.iter().any(|o| o == "svg" || o == "math");
        match cs.get(i) {
            Some('!') | Some('?') => {
                let q = cs[i] == '?';
                let mut d = String::new();
                let mut quoted = false;
                loop {
                    let Some(&c) = cs.get(i) else { return Err("unclosed declaration".into()) };
                    i += 1;
                    if c == '"' { quoted = !quoted; }
                    if c == '>' && !quoted { break; }
                    d.push(c);
                }
                if q { d = d.strip_suffix('?').ok_or("`?' missing")?.to_owned(); }
                ev.push(Ev::Decl(d.split_whitespace().collect::<Vec<_>>().join(" ")));
            },
            Some('/') => {
                i += 1;
                let mut name = String::new();
                while cs.get(i).is_some_and(|c| *c != '>') { name.push(cs[i]); i += 1; }
                if i >= cs.len() { return Err("unclosed closing tag".into()); }
                i += 1;
                match open.pop() { Some(o) if o == name => ev.push(Ev::Close(name)), o => return Err(format!("closing tag {name:?} for {o:?}")) }
            },
            _ => {
                let mut name = String::new();
                while cs.get(i).is_some_and(|c| !c.is_whitespace() && *c != '>') { name.push(cs[i]); i += 1; }
                if name.is_empty() { return Err("no element name".into()); }
                let mut attrs = vec![];
                loop {
                    let mut blank = false;
                    while cs.get(i).is_some_and(|c| c.is_whitespace()) { i += 1; blank = true; }
                    match cs.get(i) {
                        None => return Err("unclosed tag".into()),
                        Some('>') => { i += 1; break; },
                        Some(_) if !blank => return Err("no blank before attribute".into()),
                        Some(_) => {},
                    }
                    let mut k = String::new();
                    while cs.get(i).is_some_and(|c| *c != '=' && *c != '>' && !c.is_whitespace()) { k.push(cs[i]); i += 1; }
                    if cs.get(i) != Some(&'=') || cs.get(i + 1) != Some(&'"') { return Err(format!("attribute {k:?} without quoted value")); }
                    i += 2;
                    let mut v = String::new();
                    while cs.get(i).is_some_and(|c| *c != '"') {
                        if cs[i] == '<' { return Err("`<' in attribute value".into()); }
                        v.push(cs[i]); i += 1;
                    }
                    if i >= cs.len() { return Err("unclosed attribute value".into()); }
                    i += 1;
                    attrs.push((k, decode(&v)?));
                }
                let key = if html && !foreign { name.to_ascii_lowercase() } else { name.clone() };
                ev.push(Ev::Open(key.clone(), attrs));
                if html && !foreign && VOID.contains(&key.as_str()) { ev.push(Ev::Close(key)); } else { open.push(key); }
            },
        }
    }
    flush(&mut text, &mut ev)?;
    if !open.is_empty() { return Err(format!("elements left open: {open:?}")); }
    Ok(ev)
}

fn sane_name(t: &str) -> bool {
    t.starts_with(|c: char| c.is_alphabetic() || c == '_') && t.chars().all(|c| c.is_alphanumeric() || matches!(c, '-' | '_' | '.' | ':'))
}
fn sane_word(t: &str) -> bool { !t.is_empty() && !t.chars().any(|c| matches!(c, '<' | '>' | '"' | '?') || c.is_whitespace()) }

/// What the source says a parser must see; `None` for trees that cannot be read back unambiguously.
pub fn expected(t: &[N], html: bool) -> Option<Vec<Ev>> {
    let mut ev = vec![];
    let mut text = String::new();
    for n in t { expect(n, html, &mut ev, &mut text)?; }
    flush(&mut text, &mut ev);
    Some(ev)
}
fn flush(text: &mut String, ev: &mut Vec<Ev>) {
    let d = squeeze(text);
    if !d.is_empty() { ev.push(Ev::Text(d)); }
    text.clear();
}
fn expect(n: &N, html: bool, ev: &mut Vec<Ev>, text: &mut String) -> Option<()> {
    match n {
        N::Sym(a) | N::Num(a) | N::Str(a) => { text.push_str(&a.val); },
        N::Raw(_) | N::Attr { .. } => return None,
        N::List { kids, .. } => {
            flush(text, ev);
            let name = &kids.first()?.sym()?.val;
            if let Some(rest) = name.strip_prefix(['!', '?']) {
                if !sane_name(rest) || html && name.starts_with('?') { return None; }
                let mut d = name.clone();
                for k in &kids[1..] {
                    match k {
                        N::Sym(a) | N::Num(a) if sane_word(&a.val) => { d.push(' '); d += &a.val; },
                        N::Attr { key, val, .. } if sane_name(key) => { let a = val.atom()?; if !sane_word(&a.val) || a.val.contains(['&', '\'']) { return None; } d += &format!(" {key}=\"{}\"", a.val); },
                        _ => return None,
                    }
                }
                ev.push(Ev::Decl(d));
                return Some(());
            }
            if !sane_name(name) || name.starts_with('?') { return None; }
            let key = if html { name.to_ascii_lowercase() } else { name.clone() };
            if html && FOREIGN.contains(&key.as_str()) && key != "svg" && key != "math" { return None; }
            let inner_html = html && key != "svg" && key != "math";
            let mut attrs = vec![];
            let mut i = 1;
            while let Some(N::Attr { key, val, .. }) = kids.get(i) {
                if !sane_name(key) || matches!(**val, N::Raw(_)) { return None; }
                attrs.push((key.clone(), val.atom()?.val.clone()));
                i += 1;
            }
            ev.push(Ev::Open(key.clone(), attrs));
            let mut t = String::new();
            for k in &kids[i..] { expect(k, inner_html, ev, &mut t)?; }
            flush(&mut t, ev);
            ev.push(Ev::Close(key));
        },
    }
    Some(())
}

// ------------------------------------------------------------------- css

#[derive(Clone, Debug, PartialEq)]
pub enum Css { Statement(String), Block(String, Vec<Css>) }

fn blanks(t: &str) -> String { t.split_whitespace().collect::<Vec<_>>().join(" ") }

/// Splits a style sheet into statements and blocks.
pub fn parse_css(t: &str) -> Result<Vec<Css>, String> {
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    let v = css_items(&cs, &mut i, 0)?;
    if i < cs.len() { return Err("stray `}'".into()); }
    Ok(v)
}
fn css_items(cs: &[char], i: &mut usize, depth: usize) -> Result<Vec<Css>, String> {
    let mut out = vec![];
    let mut cur = String::new();
    let mut parens = 0usize;
    while *i < cs.len() {
        let c = cs[*i];
        match c {
            '"' => {
                cur.push(c);
                *i += 1;
                while *i < cs.len() && cs[*i] != '"' { if cs[*i] == '\\' { cur.push(cs[*i]); *i += 1; } if *i < cs.len() { cur.push(cs[*i]); *i += 1; } }
                if *i >= cs.len() { return Err("unclosed string".into()); }
                cur.push('"');
            },
            '(' => { parens += 1; cur.push(c); },
            ')' => { parens = parens.checked_sub(1).ok_or("stray `)'")?; cur.push(c); },
            ';' if parens == 0 => { out.push(Css::Statement(blanks(&cur))); cur.clear(); },
            '{' => {
                if parens > 0 { return Err("block within brackets".into()); }
                *i += 1;
                let inner = css_items(cs, i, depth + 1)?;
                if cs.get(*i) != Some(&'}') { return Err("unclosed block".into()); }
                out.push(Css::Block(blanks(&cur), inner));
                cur.clear();
            },
            '}' => { if depth == 0 { return Ok(out); } break; },
            c => cur.push(c),
        }
        *i += 1;
    }
    if !cur.trim().is_empty() { return Err(format!("{:?} is not ended", cur.trim())); }
    Ok(out)
}

fn sane_css(t: &str) -> bool { !t.is_empty() && !t.chars().any(|c| matches!(c, '{' | '}' | '(' | ')' | ';' | '"' | '\'' | '\\') || c.is_whitespace()) }

/// What the source says; values as the given function writes them. `None` when out of what can be told apart.
pub fn expected_css(t: &[N]) -> Option<Vec<Css>> { t.iter().map(expect_rule).collect() }

fn value(n: &N) -> Option<String> {
    match n {
        N::Attr { .. } | N::Raw(_) => None,
        N::List { kids, .. } => {
            let head = value(kids.first()?)?;
            let args = kids[1..].iter().map(value).collect::<Option<Vec<_>>>()?;
            if matches!(head.as_str(), "+" | "-" | "*" | "/") { return Some(format!("({})", args.join(&format!(" {head} ")))); }
            if matches!(head.as_str(), "rgba" | "hsla") { return Some(format!("{head}({})", args.join(", "))); }
            if matches!(head.as_str(), "rgb" | "calc" | "url" | "translate" | "scaleX" | "var" | "supports" | "linear-gradient") { return Some(format!("{head}({})", args.join(" "))); }
            if !matches!(head.as_str(), "auto" | "a" | "solid" | "10px") || args.is_empty() { return None; }
            Some(format!("{head} {}", args.join(" ")))
        },
        n => {
            let v = &n.atom()?.val;
            if sane_css(v) { return Some(v.clone()); }
            // Plain words with single blanks are quoted.
            if !v.is_empty() && v.split(' ').all(sane_css) && v.contains(' ') { return Some(format!("\"{v}\"")); }
            None
        },
    }
}
fn expect_rule(n: &N) -> Option<Css> {
    use super::formats::{BLOCKS, STATEMENTS};
    let kids = n.list()?;
    let head = &kids.first()?.atom()?.val;
    let at = BLOCKS.contains(&head.as_str()) || STATEMENTS.contains(&head.as_str());
    let mut prelude = vec![];
    let mut inner = vec![];
    for k in kids {
        match k {
            N::Attr { key, val, .. } if sane_css(key) => {
                let v = value(val)?;
                if at { prelude.push(format!("({key}: {v})")) } else { inner.push(Css::Statement(format!("{key}: {v}"))) }
            },
            N::List { .. } if at && STATEMENTS.contains(&head.as_str()) => prelude.push(value(k)?),
            N::List { .. } if at => inner.push(expect_rule(k)?),
            k => { let v = &k.atom()?.val; if matches!(k, N::Raw(_)) || !(sane_css(v) || at) { return None; } prelude.push(if at { value(k)? } else { v.clone() }); },
        }
    }
    let p = blanks(&prelude.join(" "));
    Some(if at && inner.is_empty() { Css::Statement(p) } else { Css::Block(p, inner) })
}
