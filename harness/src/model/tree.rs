//! Owned mirror of seam's parse tree.

use seam::parse::parser::ParseNode;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Hash)]
pub struct Site { pub file: u32, pub off: usize, pub line: usize, pub col: usize, pub span: usize }

#[derive(Clone, Debug, PartialEq)]
pub struct Atom { pub ws: String, pub val: String, pub site: Site }

#[derive(Clone, Debug, PartialEq)]
pub enum N {
    Sym(Atom),
    Num(Atom),
    Str(Atom),
    Raw(Atom),
    List { ws: String, kids: Vec<N>, end_ws: String, end: Site, site: Site },
    Attr { ws: String, key: String, val: Box<N>, site: Site },
}

pub fn file_id(path: &str) -> u32 {
    let mut h = 0x811c9dc5u32;
    for b in path.bytes() { h ^= b as u32; h = h.wrapping_mul(0x01000193); }
    h
}

fn conv_site(s: &seam::parse::tokens::Site) -> Site {
    Site { file: file_id(s.source), off: s.bytes_from_start, line: s.line, col: s.bytes_from_start_of_line, span: s.bytes_span }
}

pub fn convert(n: &ParseNode) -> N {
    let atom = |a: &seam::parse::parser::Node| Atom { ws: a.leading_whitespace.clone(), val: a.value.clone(), site: conv_site(&a.site) };
    match n {
        ParseNode::Symbol(a) => N::Sym(atom(a)),
        ParseNode::Number(a) => N::Num(atom(a)),
        ParseNode::String(a) => N::Str(atom(a)),
        ParseNode::Raw(a) => N::Raw(atom(a)),
        ParseNode::List { nodes, site, end_token, leading_whitespace } => N::List {
            ws: leading_whitespace.clone(), kids: nodes.iter().map(convert).collect(),
            end_ws: end_token.leading_whitespace.to_owned(), end: conv_site(&end_token.site), site: conv_site(site) },
        ParseNode::Attribute { keyword, node, site, leading_whitespace } => N::Attr {
            ws: leading_whitespace.clone(), key: keyword.clone(), val: Box::new(convert(node)), site: conv_site(site) },
    }
}
pub fn convert_all(t: &[ParseNode]) -> Vec<N> { t.iter().map(convert).collect() }

impl N {
    pub fn ws(&self) -> &str {
        match self {
            N::Sym(a) | N::Num(a) | N::Str(a) | N::Raw(a) => &a.ws,
            N::List { ws, .. } | N::Attr { ws, .. } => ws,
        }
    }
    pub fn set_ws(&mut self, w: &str) {
        match self {
            N::Sym(a) | N::Num(a) | N::Str(a) | N::Raw(a) => a.ws = w.to_owned(),
            N::List { ws, .. } | N::Attr { ws, .. } => *ws = w.to_owned(),
        }
    }
    pub fn site(&self) -> Site {
        match self {
            N::Sym(a) | N::Num(a) | N::Str(a) | N::Raw(a) => a.site,
            N::List { site, .. } | N::Attr { site, .. } => *site,
        }
    }
    pub fn atom(&self) -> Option<&Atom> {
        match self { N::Sym(a) | N::Num(a) | N::Str(a) | N::Raw(a) => Some(a), _ => None }
    }
    pub fn sym(&self) -> Option<&Atom> { match self { N::Sym(a) => Some(a), _ => None } }
    pub fn symbolic(&self) -> Option<&Atom> { match self { N::Sym(a) | N::Num(a) => Some(a), _ => None } }
    pub fn list(&self) -> Option<&[N]> { match self { N::List { kids, .. } => Some(kids), _ => None } }
    pub fn is_attr(&self) -> bool { matches!(self, N::Attr { .. }) }
    pub fn kind(&self) -> &'static str {
        match self { N::Sym(_) => "sym", N::Num(_) => "num", N::Str(_) => "str", N::Raw(_) => "raw", N::List { .. } => "list", N::Attr { .. } => "attr" }
    }
    pub fn count(&self) -> usize {
        1 + match self { N::List { kids, .. } => kids.iter().map(N::count).sum(), N::Attr { val, .. } => val.count(), _ => 0 }
    }
    pub fn depth(&self) -> usize {
        1 + match self { N::List { kids, .. } => kids.iter().map(N::depth).max().unwrap_or(0), N::Attr { val, .. } => val.depth(), _ => 0 }
    }
}
pub fn count(t: &[N]) -> usize { t.iter().map(N::count).sum() }

/// `__lambda123-45` → `__lambda@45`: the hash is an implementation detail.
pub fn norm_lambda(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    let mut rest = s;
    while let Some(i) = rest.find("__lambda") {
        out.push_str(&rest[..i + 8]);
        rest = &rest[i + 8..];
        let d = rest.bytes().take_while(|b| b.is_ascii_digit()).count();
        if d > 0 && rest[d..].starts_with('-') { out.push('@'); rest = &rest[d + 1..]; }
    }
    out.push_str(rest);
    out
}

#[derive(Clone, Copy)]
pub struct Cmp { pub ws: bool, pub site: bool }
pub const LAYOUT: Cmp = Cmp { ws: true, site: false };
pub const CONTENT: Cmp = Cmp { ws: false, site: false };
pub const EVERYTHING: Cmp = Cmp { ws: true, site: true };

/// First difference between two nodes, `None` if they agree.
pub fn diff(got: &N, want: &N, c: Cmp, path: &str) -> Option<String> {
    if got.kind() != want.kind() { return Some(format!("at {path}: got a {} {}, expected a {} {}", got.kind(), show(got), want.kind(), show(want))); }
    if c.ws && got.ws() != want.ws() {
        return Some(format!("at {path}: preceding whitespace of {} is {:?}, expected {:?}", show(got), got.ws(), want.ws()));
    }
    if c.site && got.site() != want.site() {
        return Some(format!("at {path}: site of {} is {:?}, expected {:?}", show(got), got.site(), want.site()));
    }
    match (got, want) {
        (N::List { kids: k0, end_ws: e0, end: s0, .. }, N::List { kids: k1, end_ws: e1, end: s1, .. }) => {
            if let Some(d) = diff_all_at(k0, k1, c, path) { return Some(d); }
            if c.ws && e0 != e1 { return Some(format!("at {path}: whitespace before the closing bracket is {e0:?}, expected {e1:?}")); }
            if c.site && s0 != s1 { return Some(format!("at {path}: site of the closing bracket is {s0:?}, expected {s1:?}")); }
            None
        },
        (N::Attr { key: k0, val: v0, .. }, N::Attr { key: k1, val: v1, .. }) => {
            if k0 != k1 { return Some(format!("at {path}: keyword is {k0:?}, expected {k1:?}")); }
            diff(v0, v1, c, &format!("{path}:{k1}"))
        },
        _ => {
            let (a, b) = (got.atom().unwrap(), want.atom().unwrap());
            if a.val != b.val && norm_lambda(&a.val) != norm_lambda(&b.val) {
                return Some(format!("at {path}: value is {:?}, expected {:?}", a.val, b.val));
            }
            None
        },
    }
}
fn diff_all_at(got: &[N], want: &[N], c: Cmp, path: &str) -> Option<String> {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if let Some(d) = diff(g, w, c, &format!("{path}/{i}")) { return Some(d); }
    }
    if got.len() != want.len() {
        return Some(format!("at {path}: {} nodes, expected {}\n   got: {}\n  want: {}", got.len(), want.len(), show_all(got), show_all(want)));
    }
    None
}
pub fn diff_all(got: &[N], want: &[N], c: Cmp) -> Option<String> { diff_all_at(got, want, c, "") }

/// Compact debugging display (not seam syntax).
pub fn show(n: &N) -> String {
    match n {
        N::Sym(a) => format!("{:?}'{}", a.ws, a.val),
        N::Num(a) => format!("{:?}#{}", a.ws, a.val),
        N::Str(a) => format!("{:?}{:?}", a.ws, a.val),
        N::Raw(a) => format!("{:?}raw{:?}", a.ws, a.val),
        N::List { ws, kids, end_ws, .. } => format!("{:?}({} {:?})", ws, show_all(kids), end_ws),
        N::Attr { ws, key, val, .. } => format!("{:?}:{} {}", ws, key, show(val)),
    }
}
pub fn show_all(t: &[N]) -> String { t.iter().map(show).collect::<Vec<_>>().join(" ") }
