//! Reference generators for the output formats, written as functions from the
//! expanded tree to text.

use super::tree::*;
use std::collections::HashMap;

/// Cannot be expressed in that format: why, and at which node.
pub type F<T> = Result<T, (&'static str, Site)>;
fn no<T>(why: &'static str, n: &N) -> F<T> { Err((why, n.site())) }

pub fn escape(t: &str) -> String {
    let mut o = String::new();
    for c in t.chars() {
        match c { '<' => o += "&lt;", '>' => o += "&gt;", '"' => o += "&quot;", '\'' => o += "&apos;", '&' => o += "&amp;", c => o.push(c) }
    }
    o
}

// ------------------------------------------------------------------ text

pub fn text(t: &[N]) -> String { t.iter().map(text1).collect() }
fn text1(n: &N) -> String {
    match n {
        N::List { ws, kids, end_ws, .. } => format!("{ws}({}{end_ws})", text(kids)),
        N::Attr { ws, key, val, .. } => format!("{ws}:{key}{}", text1(val)),
        n => { let a = n.atom().unwrap(); format!("{}{}", a.ws, a.val) },
    }
}

// ------------------------------------------------------------------ sexp

/// Only what must be escaped for the text to be read back; used where no exact text is specified.
pub fn sexp_symbol(v: &str) -> String {
    let mut o = String::new();
    for (i, c) in v.char_indices() {
        if matches!(c, '(' | ')' | '"' | '\\' | ' ' | '\t' | '\r' | '\n') || i == 0 && matches!(c, ':' | ';') { o.push('\\'); }
        o.push(c);
    }
    o
}
fn sexp_string(v: &str) -> String {
    let mut o = String::from("\"");
    for p in v.split_inclusive('\0') {
        let (p, nul) = match p.strip_suffix('\0') { Some(p) => (p, true), None => (p, false) };
        let q = format!("{p:?}");
        o += &q[1..q.len() - 1];
        if nul { o += "\\u{0}"; }
    }
    o.push('"');
    o
}
pub fn sexp(t: &[N]) -> String {
    let mut o = String::new();
    for (i, n) in t.iter().enumerate() {
        o += &sexp1(n);
        // `""` touching another string would open a triple-quoted one.
        if let Some(N::Str(a)) = t.get(i + 1) { if a.ws.is_empty() && ends_empty(n) { o += "\"\"\"\""; } }
    }
    o
}
fn ends_empty(n: &N) -> bool { match n { N::Str(a) => a.val.is_empty(), N::Attr { val, .. } => ends_empty(val), _ => false } }
fn sexp1(n: &N) -> String {
    match n {
        N::Sym(a) | N::Num(a) => format!("{}{}", a.ws, sexp_symbol(&a.val)),
        N::Str(a) => format!("{}{}", a.ws, sexp_string(&a.val)),
        N::Raw(a) => format!("{}(%raw {})", a.ws, sexp_string(&a.val)),
        N::List { ws, kids, end_ws, .. } => format!("{ws}({}{end_ws})", sexp(kids)),
        N::Attr { ws, key, val, .. } => format!("{ws}:{key}{}", sexp1(val)),
    }
}

// ------------------------------------------------------------------- xml

fn attribute(key: &str, val: &N) -> F<String> {
    match val {
        N::Raw(a) => Ok(format!("{key}=\"{}\"", a.val)),
        v => match v.atom() { Some(a) => Ok(format!("{key}=\"{}\"", escape(&a.val))), None => no("list as attribute value", v) },
    }
}

/// Children without the blanks before the first one (unless it is on a new line).
fn children(kids: &[N]) -> (Vec<N>, bool) {
    let mut v = kids.to_vec();
    let mut newline = false;
    if let Some(f) = v.first_mut() {
        newline = f.ws().contains('\n');
        if !newline { f.set_ws(""); }
    }
    (v, newline)
}
fn close(ws: &str, end_ws: &str, newline: bool) -> String {
    if !end_ws.is_empty() { end_ws.to_owned() } else if newline { ws.to_owned() } else { String::new() }
}

pub fn xml(t: &[N]) -> F<String> {
    let mut o = String::new();
    for n in t { o += &xml1(n)?; }
    Ok(o)
}
fn xml1(n: &N) -> F<String> {
    match n {
        N::Sym(a) | N::Num(a) | N::Str(a) => Ok(format!("{}{}", a.ws, escape(&a.val))),
        N::Raw(a) => Ok(format!("{}{}", a.ws, a.val)),
        N::Attr { .. } => no("misplaced attribute", n),
        N::List { ws, kids, end_ws, .. } => {
            let tag = tag_of(n, kids)?;
            let mut o = format!("{ws}<{tag}");
            if tag.starts_with(['!', '?']) {
                for k in &kids[1..] {
                    match k {
                        N::Sym(a) | N::Num(a) => o += &format!(" {}", a.val),
                        N::Attr { key, val, .. } => o += &format!(" {}", attribute(key, val)?),
                        k => return no("not a word in a declaration", k),
                    }
                }
                o += if tag.starts_with('?') { " ?>" } else { ">" };
                return Ok(o);
            }
            let attrs = kids[1..].iter().take_while(|k| k.is_attr()).count();
            for k in &kids[1..1 + attrs] { if let N::Attr { key, val, .. } = k { o += &format!(" {}", attribute(key, val)?); } }
            let (body, newline) = children(&kids[1 + attrs..]);
            o += &format!(">{}{}</{tag}>", xml(&body)?, close(ws, end_ws, newline || tag == "style"));
            Ok(o)
        },
    }
}
fn tag_of<'n>(n: &N, kids: &'n [N]) -> F<&'n str> {
    match kids.first() {
        None => no("empty list", n),
        Some(N::Sym(a)) if a.val.is_empty() => no("empty name", &kids[0]),
        Some(N::Sym(a)) => Ok(&a.val),
        Some(h) => no("name is not a symbol", h),
    }
}
pub const XML_DEFAULT: &str = "<?xml version=\"1.0\" encoding=\"UTF-8\" ?>\n";
pub fn xml_document(t: &[N]) -> F<String> {
    let declared = t.first().and_then(|n| n.list()).and_then(|l| l.first()).and_then(|h| h.sym()).is_some_and(|a| a.val.to_lowercase() == "?xml");
    Ok(format!("{}{}", if declared { "" } else { XML_DEFAULT }, xml(t)?))
}

// ------------------------------------------------------------------ html

pub const VOID: [&str; 14] = ["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"];
pub const FOREIGN: [&str; 7] = ["math", "pre", "script", "style", "svg", "textarea", "title"];

/// Texts of source files by id.
pub type Sources = HashMap<u32, String>;

pub fn html(t: &[N], src: &Sources) -> F<String> {
    let mut o = String::new();
    for n in t { o += &html1(n, src)?; }
    Ok(o)
}
fn html1(n: &N, src: &Sources) -> F<String> {
    match n {
        N::Sym(a) | N::Num(a) | N::Str(a) => Ok(format!("{}{}", a.ws, escape(&a.val))),
        N::Raw(a) => Ok(format!("{}{}", a.ws, a.val)),
        N::Attr { .. } => no("misplaced attribute", n),
        N::List { ws, kids, end_ws, end, site } => {
            let name = tag_of(n, kids)?;
            let tag = name.to_ascii_lowercase();
            let mut o = format!("{ws}<{name}");
            if name.starts_with('!') {
                for k in &kids[1..] {
                    match k { N::Sym(a) | N::Num(a) => o += &format!(" {}", a.val), k => return no("not a word in a declaration", k) }
                }
                return Ok(o + ">");
            }
            let attrs = kids[1..].iter().take_while(|k| k.is_attr()).count();
            for k in &kids[1..1 + attrs] {
                if let N::Attr { ws, key, val, .. } = k { o += &format!("{}{}", if ws.is_empty() { " " } else { ws }, attribute(key, val)?); }
            }
            o.push('>');
            let rest = &kids[1 + attrs..];
            if VOID.contains(&tag.as_str()) {
                return match rest.first() { Some(k) => no("void element with children", k), None => Ok(o) };
            }
            let (body, newline) = children(rest);
            let mut newline = newline;
            match tag.as_str() {
                "pre" => {
                    let raw = match rest.first() {
                        None => end_ws.clone(),
                        Some(f) => {
                            if f.site().file != end.file || f.site().off < site.off { return no("source text of pre is elsewhere", n); }
                            let t = &src[&end.file];
                            let from = f.site().off - f.ws().len() + usize::from(f.ws().starts_with(' '));
                            t[from..end.off].to_owned()
                        },
                    };
                    return Ok(format!("{o}{raw}</{tag}>"));
                },
                "textarea" | "title" => o += &text(&body),
                "style" => match body.first() {
                    Some(N::Str(a)) => { if body.len() != 1 { return no("excess style", &body[0]); } o += &a.val; newline = true; },
                    _ => { o.push('\n'); o += &css(&body)?; newline = true; },
                },
                "script" => o += &sexp(&body),
                "math" | "svg" => o += &xml(&body)?,
                _ => o += &html(&body, src)?,
            }
            Ok(format!("{o}{}</{tag}>", close(ws, end_ws, newline)))
        },
    }
}

pub const HTML_DEFAULT: &str = "<!DOCTYPE html>\n<html>\n<head></head>\n<body>\n<!-- Generated by SEAM (empty file) -->\n</body>\n</html>\n";

fn head_is(n: &N, name: &str) -> bool {
    n.list().and_then(|l| l.first()).and_then(|h| h.atom()).is_some_and(|a| a.val.to_lowercase() == name)
}
/// At top level or (as HTML) one level below it.
fn has(t: &[N], name: &str, below: bool) -> bool {
    t.iter().any(|n| head_is(n, name) || below && !FOREIGN.iter().any(|f| head_is(n, f)) && n.list().is_some_and(|l| l.iter().any(|k| head_is(k, name))))
}
pub fn html_document(t: &[N], src: &Sources) -> F<String> {
    if t.is_empty() { return Ok(HTML_DEFAULT.to_owned()); }
    let content = html(t, src)?;
    if has(t, "!doctype", false) { return Ok(content); }
    if has(t, "html", false) { return Ok(format!("<!DOCTYPE html>\n{content}")); }
    let head = if has(t, "head", true) { "" } else { "<head></head>\n" };
    let (open, shut) = if has(t, "body", true) { ("", "") } else { ("<body>\n", "</body>\n") };
    Ok(format!("<!DOCTYPE html>\n<html>\n{head}{open}{content}\n{shut}</html>"))
}

// ------------------------------------------------------------------- css

pub const FUNCTIONS: [&str; 58] = ["attr", "blur", "brightness", "calc", "circle", "color", "contrast", "counter", "counters", "cubic-bezier",
    "drop-shadow", "ellipse", "format", "grayscale", "hsl", "hsla", "hue-rotate", "hwb", "image", "inset", "invert", "lab", "lch",
    "linear-gradient", "matrix", "matrix3d", "opacity", "perspective", "polygon", "radial-gradient", "repeating-linear-gradient",
    "repeating-radial-gradient", "rgb", "rgba", "rotate", "rotate3d", "rotateX", "rotateY", "rotateZ", "saturate", "sepia", "scale",
    "scale3d", "scaleX", "scaleY", "scaleZ", "skew", "skewX", "skewY", "symbols", "translate", "translate3d", "translateX", "translateY",
    "translateZ", "url", "var", "supports"];
pub const STATEMENTS: [&str; 3] = ["@charset", "@import", "@namespace"];
pub const BLOCKS: [&str; 6] = ["@counter-style", "@document", "@font-feature-values", "@keyframes", "@media", "@supports"];

pub fn css_value(n: &N) -> F<String> {
    match n {
        N::Attr { .. } => no("attribute in a value", n),
        N::Raw(a) => Ok(a.val.clone()),
        N::List { kids, .. } => {
            let Some((h, t)) = kids.split_first() else { return Ok(String::new()) };
            let h = css_value(h)?;
            let t = t.iter().map(css_value).collect::<F<Vec<_>>>()?;
            let args = t.join(if h == "rgba" || h == "hsla" { ", " } else { " " });
            let args = args.trim();
            Ok(if FUNCTIONS.contains(&h.as_str()) { format!("{h}({args})") }
            else if ["+", "-", "*", "/"].contains(&h.as_str()) { format!("({})", t.join(&format!(" {h} "))) }
            else { format!("{h} {args}") })
        },
        n => { let v = &n.atom().unwrap().val; Ok(if v.chars().any(char::is_whitespace) { format!("{v:?}") } else { v.clone() }) },
    }
}

fn css_rule(n: &N, kids: &[N]) -> F<String> {
    let n_sel = kids.iter().take_while(|k| k.atom().is_some()).count();
    if n_sel == 0 { return no("no selector", n); }
    let head = kids[0].atom().unwrap().val.as_str();
    if STATEMENTS.contains(&head) {
        let mut o = format!("{head} ");
        for k in &kids[1..] {
            o += &match k { N::Attr { key, val, .. } => format!("({key}: {}) ", css_value(val)?), k => format!("{} ", css_value(k)?) };
        }
        return Ok(o + ";\n");
    }
    if BLOCKS.contains(&head) {
        let mut o = format!("{head} ");
        let mut open = false;
        for k in &kids[1..] {
            match k {
                N::List { ws, kids, .. } => {
                    if !open { o += "{\n"; open = true; }
                    o += ws;
                    o += &css_rule(k, kids)?;
                },
                k if open => return no("not a rule in a block", k),
                N::Attr { key, val, .. } => o += &format!("({key}: {}) ", css_value(val)?),
                k => o += &format!("{} ", css_value(k)?),
            }
        }
        return Ok(o + if open { "}" } else { ";" });
    }
    let mut o = String::new();
    for k in &kids[..n_sel] { o += &k.atom().unwrap().val; o.push(' '); }
    o += "{\n";
    if n_sel == kids.len() { return no("rule without properties", &kids[n_sel - 1]); }
    for k in &kids[n_sel..] {
        let N::Attr { key, val, .. } = k else { return no("not a property", k) };
        o += &format!("  {key}: {};\n", css_value(val)?);
    }
    Ok(o + "}")
}

pub fn css(t: &[N]) -> F<String> {
    let mut o = String::new();
    for n in t {
        match n {
            N::List { ws, kids, .. } => { o += ws; o += &css_rule(n, kids)?; },
            n => return no("not a rule", n),
        }
    }
    Ok(o)
}
pub fn css_document(t: &[N]) -> F<String> { if t.is_empty() { Ok("\n".into()) } else { css(t) } }
