//! Generators of source text. Everything is rendered together with what it is
//! meant to be read as, so the text is never trusted to mean what it was for.

use crate::engine::*;
use crate::model::tree::{file_id, Atom, Site, N};

/// Layout-free syntax: what the author wants to say.
#[derive(Clone, Debug, PartialEq)]
pub enum G {
    /// Symbol or number by its value (spelled with escapes where needed).
    Sym(String),
    Str(String),
    List(Vec<G>),
    Attr(String, Box<G>),
    /// A token exactly as it stands in the source (must be one symbolic token).
    Tok(String),
    /// Symbol or string directly attached to the previous token, where possible.
    Glued(Box<G>),
}

pub fn sym(s: impl Into<String>) -> G { G::Sym(s.into()) }
pub fn st(s: impl Into<String>) -> G { G::Str(s.into()) }
pub fn ls(v: Vec<G>) -> G { G::List(v) }
pub fn at(k: impl Into<String>, v: G) -> G { G::Attr(k.into(), Box::new(v)) }
/// `(%name args..)`
pub fn call(name: &str, args: Vec<G>) -> G {
    let mut v = vec![sym(format!("%{name}"))];
    v.extend(args);
    G::List(v)
}

pub fn size(g: &G) -> usize {
    match g { G::List(v) => 1 + v.iter().map(size).sum::<usize>(), G::Attr(_, v) => 1 + size(v), G::Glued(g) => size(g), _ => 1 }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Layout {
    /// Single spaces only where needed.
    Plain,
    /// Spaces, newlines and indentation.
    Lines,
    /// Everything, including comments, tabs, carriage returns and no space at all.
    Wild,
}

/// Source text under construction with the tree it must be read as.
pub struct Out { pub src: String, last_symbolic: bool, last_empty: bool, line: usize, line_start: usize, file: u32, ws_start: usize, spelling: bool }

pub fn is_symbolic_char(c: char) -> bool { !matches!(c, ' ' | '\t' | '\r' | '\n' | '(' | ')' | '"') }

impl Out {
    pub fn new(path: &str) -> Self {
        Out { src: String::new(), last_symbolic: false, last_empty: false, line: 1, line_start: 0, file: file_id(path), ws_start: 0, spelling: true }
    }
    fn push(&mut self, t: &str) {
        for (i, b) in t.bytes().enumerate() {
            if b == b'\n' { self.line += 1; self.line_start = self.src.len() + i + 1; }
        }
        self.src.push_str(t);
    }
    fn here(&self) -> (usize, usize, usize) { (self.src.len(), self.line, self.src.len() - self.line_start) }
    fn site(&self, from: (usize, usize, usize)) -> Site {
        Site { file: self.file, off: from.0, line: from.1, col: from.2, span: self.src.len() - from.0 }
    }
    /// Writes blanks before a token; returns the blanks which count.
    fn gap(&mut self, s: &mut Src, lay: Layout, next_symbolic: bool, first: bool) -> String {
        // An empty string directly before another string would open a triple-quoted one.
        let need = self.last_symbolic && next_symbolic || self.last_empty;
        let after_symbolic = self.last_symbolic;
        self.ws_start = self.src.len();
        let plain: &[&str] = &[" "];
        if lay != Layout::Plain && s.chance(1, 250) {
            // Far to the right, or far down.
            let c = s.pick(&[" ", "\n", " ", "\t", "\n "]);
            let n = s.choose(SIZES);
            self.push(&c.repeat(n));
            return self.src[self.ws_start..].to_owned();
        }
        let choice: &str = match lay {
            Layout::Plain => if first && !need && !self.last_empty { "" } else { s.pick(plain) },
            Layout::Lines => {
                let k = s.weighted(&[10, if need { 0 } else { 3 }, 2, 2, 1]);
                [" ", "", "\n", "\n  ", "\n\n\t"][k]
            },
            Layout::Wild => {
                let k = s.weighted(&[12, if need { 0 } else { 5 }, 2, 2, 1, 1, 1, 1, 1, 1, 1]);
                match k {
                    0 => " ", 1 => "", 2 => "\n", 3 => "\n  ", 4 => "\n\n\t", 5 => "\t", 6 => "\r\n", 7 => "  ", 8 => " \t \r",
                    _ => {
                        // Comments; they need a blank before them after a symbolic token.
                        let n = 1 + s.below(2);
                        for i in 0..n {
                            if i == 0 && (after_symbolic || s.chance(2, 3)) { let b = s.pick(&[" ", "\n", "\t", "\n   "]); self.push(b); }
                            let body = s.pick(&["", " comment", ";", " (unbalanced \"", " ) :x", " é — 字", "\\", " 100% %define", "\t\r"]);
                            self.push(";");
                            self.push(body);
                            self.ws_start = self.src.len();
                            self.push("\n");
                            let more = s.pick(&["", " ", "  ", "\n", "\t"]);
                            self.push(more);
                        }
                        ""
                    },
                }
            },
        };
        self.push(choice);
        self.src[self.ws_start..].to_owned()
    }
    /// Appends one node and returns what it must be read as.
    pub fn put(&mut self, s: &mut Src, lay: Layout, g: &G, first: bool) -> N {
        match g {
            G::Glued(inner) => {
                let glue = !self.last_empty && match **inner { G::Sym(_) | G::Tok(_) | G::Attr(..) => !self.last_symbolic, _ => true };
                if glue && self.spelling {
                    self.ws_start = self.src.len();
                    return self.put_at(s, lay, inner, String::new());
                }
                self.put(s, lay, inner, first)
            },
            _ => {
                let symbolic = matches!(g, G::Sym(_) | G::Tok(_) | G::Attr(..));
                let ws = self.gap(s, lay, symbolic, first);
                self.put_at(s, lay, g, ws)
            },
        }
    }
    fn put_at(&mut self, s: &mut Src, lay: Layout, g: &G, ws: String) -> N {
        let from = self.here();
        self.last_empty = false;
        match g {
            G::Glued(inner) => self.put_at(s, lay, inner, ws),
            G::Tok(t) => {
                self.push(t);
                self.last_symbolic = true;
                let mut val = String::new();
                let mut it = t.chars();
                while let Some(c) = it.next() { if c == '\\' { val.extend(it.next()); } else { val.push(c); } }
                let a = Atom { ws, val, site: self.site(from) };
                if t.starts_with(|c: char| c.is_ascii_digit() || c == '+' || c == '-') { N::Num(a) } else { N::Sym(a) }
            },
            G::Sym(v) => {
                let t = spell_symbol(s, v, lay == Layout::Wild);
                self.push(&t);
                self.last_symbolic = true;
                let a = Atom { ws, val: v.clone(), site: self.site(from) };
                if t.starts_with(|c: char| c.is_ascii_digit() || c == '+' || c == '-') { N::Num(a) } else { N::Sym(a) }
            },
            G::Str(v) => {
                let t = spell_string(s, v, lay != Layout::Plain);
                self.push(&t);
                self.last_symbolic = false;
                self.last_empty = t == "\"\"";
                N::Str(Atom { ws, val: v.clone(), site: self.site(from) })
            },
            G::List(v) => {
                self.push("(");
                self.last_symbolic = false;
                let site = self.site(from);
                let mut kids = vec![];
                for (i, k) in v.iter().enumerate() { kids.push(self.put(s, lay, k, i == 0)); }
                let end_ws = if lay == Layout::Plain { String::new() } else if s.chance(1, 5) { self.gap(s, lay, false, true) } else { String::new() };
                let at = self.here();
                self.push(")");
                self.last_symbolic = false;
                self.last_empty = false;
                N::List { ws, kids, end_ws, end: self.site(at), site }
            },
            G::Attr(k, v) => {
                self.push(":");
                self.push(k);
                self.last_symbolic = true;
                let site = self.site(from);
                let val = self.put(s, lay, v, false);
                N::Attr { ws, key: k.clone(), val: Box::new(val), site }
            },
        }
    }
}

/// Renders nodes with nothing after the last.
pub fn render_tight(s: &mut Src, gs: &[G], lay: Layout) -> String {
    let mut o = Out::new("<stdin>");
    for (i, g) in gs.iter().enumerate() { o.put(s, lay, g, i == 0); }
    o.src
}

/// Renders a whole file; returns its text and the tree it must be read as.
pub fn render(s: &mut Src, gs: &[G], lay: Layout, path: &str) -> (String, Vec<N>) {
    let mut o = Out::new(path);
    let mut t = vec![];
    for (i, g) in gs.iter().enumerate() { t.push(o.put(s, lay, g, i == 0)); }
    match lay {
        Layout::Plain => {},
        _ => { let tail = s.pick(&["", "\n", "  ", " ; end", " ;", " ; end\n"]); if !(lay == Layout::Lines && tail.contains(';')) { o.push(tail) } },
    }
    (o.src, t)
}

pub fn layout(s: &mut Src) -> Layout { s.choose(&[Layout::Plain, Layout::Lines, Layout::Lines, Layout::Wild]) }

/// Spells a symbol (or number) so that it is read back with this value.
pub fn spell_symbol(s: &mut Src, v: &str, wild: bool) -> String {
    let mut out = String::new();
    for (i, c) in v.char_indices() {
        let must = !is_symbolic_char(c) || c == '\\' || (i == 0 && matches!(c, ':' | ';'));
        // Escaping a leading digit or sign turns a number into a symbol.
        if must || (wild && s.chance(1, 24)) { out.push('\\'); }
        out.push(c);
    }
    out
}

/// Spells a string literal with this value.
pub fn spell_string(s: &mut Src, v: &str, fancy: bool) -> String {
    let triple = fancy && s.chance(1, 5);
    let mut out = String::from(if triple { "\"\"\"" } else { "\"" });
    let cs: Vec<char> = v.chars().collect();
    for (i, &c) in cs.iter().enumerate() {
        let next = cs.get(i + 1).copied();
        let next_octal = next.is_some_and(|n| n.is_digit(8));
        let special = matches!(c, '\\' | '\0') || (c == '"' && (!triple || i + 1 == cs.len() || next == Some('"') || i == 0));
        if !special && !(fancy && s.chance(1, 12)) { out.push(c); continue; }
        let mut ways: Vec<String> = vec![];
        match c {
            '"' | '\\' | '\'' | '`' => ways.push(format!("\\{c}")),
            '\x07' => ways.push("\\a".into()), '\x08' => ways.push("\\b".into()), '\t' => ways.push("\\t".into()),
            '\n' => ways.push("\\n".into()), '\x0b' => ways.push("\\v".into()), '\x0c' => ways.push("\\f".into()),
            '\r' => ways.push("\\r".into()), '\x1b' => ways.push("\\e".into()),
            _ => {},
        }
        let n = c as u32;
        ways.push(format!("\\u{{{n:x}}}"));
        if n <= 0xff { ways.push(format!("\\x{n:02X}")); }
        if n <= 0xffff { ways.push(format!("\\u{n:04x}")); }
        if n <= 0o777 { ways.push(format!("\\{n:03o}")); if !next_octal { ways.push(format!("\\{n:o}")); } }
        let k = s.below(ways.len());
        out.push_str(&ways[k]);
    }
    out.push_str(if triple { "\"\"\"" } else { "\"" });
    out
}

// ------------------------------------------------------------ words and text

pub const WORDS: &[&str] = &["a", "b", "p", "x", "foo", "bar", "hello", "div", "Ünïcode", "字", "h1", "don't", "a.b", "x=y", "Upper", "_", "*", "/", "&c", "<t>", "e\u{301}", "@m", "#id", "!x", "?y", "[z]", "{w}", "|", "~", "`", "'", ","];
pub const NUMBERS: &[&str] = &["0", "1", "-1", "+5", "12", "1.5", "-0.25", "2em", "1e3", "+", "-", "007", "10%", "1:2", "3;4"];

pub fn word(s: &mut Src) -> String { s.pick(WORDS).to_owned() }
pub fn plain_word(s: &mut Src) -> String { s.pick(&["a", "b", "c", "foo", "bar", "baz", "hello", "world"]).to_owned() }

/// Any character, biased to the interesting ones.
pub fn any_char(s: &mut Src) -> char {
    match s.weighted(&[20, 14, 5, 3, 2, 1]) {
        0 => (b'a' + s.below(26) as u8) as char,
        1 => s.choose(&[' ', '<', '>', '&', '"', '\'', '\\', '(', ')', ':', ';', '%', '\n', '\t', '{', '}', '/', '=', '-', '.', '#', '0', '1', '7', '9']),
        2 => (0x20 + s.below(0x5f) as u8) as char,
        3 => s.choose(&['é', 'ß', '字', '😀', '\u{301}', '\u{a0}', '\u{200b}', '\u{2028}', '\u{feff}', 'Ω', '\u{85}', '\u{ff}', '٣', '５', '²', '（', '：', '“', '；', '−', '＼', '％', '\u{3000}', '\u{2009}', 'ı', 'ſ', 'K']),
        4 => s.choose(&['\0', '\x07', '\x08', '\x0b', '\x0c', '\r', '\x1b', '\x7f', '\x01', '\x1f']),
        _ => char::from_u32(s.draw(0x110000) as u32).unwrap_or('?'),
    }
}
pub fn any_text(s: &mut Src, max: usize) -> String { s.many(0, max, 4, any_char).into_iter().collect() }

/// Printable text without blanks at odd places, good for readable cases.
pub fn mild_text(s: &mut Src) -> String {
    let n = s.below(4);
    (0..n).map(|_| word(s)).collect::<Vec<_>>().join(" ")
}

/// Symbol value with anything in it; never empty, may need escapes.
pub fn any_symbol(s: &mut Src) -> String {
    if s.chance(2, 3) { return word(s); }
    let mut t: String = s.many(1, 8, 3, any_char).into_iter().collect();
    // Values starting like numbers are numbers.
    while t.starts_with(|c: char| c.is_ascii_digit() || c == '+' || c == '-') { t.remove(0); }
    if t.is_empty() || t.starts_with('%') { t.insert(0, 'z'); }
    t
}

pub fn keyword(s: &mut Src) -> String {
    s.pick(&["k", "id", "class", "key-2", "data-x", "xml:lang", "é", "a.b", "", "5", "k;", "%x", "+", "b\\ c", "\\:x", "a\\(", "\\k", "\\\\"]).to_owned()
}

/// A random tree without macros.
pub fn tree(s: &mut Src, depth: usize, attrs: bool) -> G {
    let w = s.weighted(&[6, 2, 4, if depth > 0 { 6 } else { 0 }, if attrs { 2 } else { 0 }]);
    let g = match w {
        0 => sym(any_symbol(s)),
        1 => sym(s.pick(NUMBERS)),
        2 => { let n = if s.chance(1, 4) { 20 } else { 6 }; st(any_text(s, n)) },
        3 => ls(s.many(0, 6, 3, |s| tree(s, depth - 1, attrs))),
        _ => { let k = keyword(s); at(k, tree(s, depth.saturating_sub(1), attrs)) },
    };
    if s.chance(1, 10) { G::Glued(Box::new(g)) } else { g }
}
pub fn forest(s: &mut Src, depth: usize) -> Vec<G> { let g = s.many(0, 8, 4, |s| tree(s, depth, true)); stretch(s, g, false) }

// ------------------------------------------------------------------- sizes

fn nth<'g>(g: &'g mut G, i: &mut usize) -> Option<&'g mut G> {
    if *i == 0 { return Some(g); }
    *i -= 1;
    match g {
        G::List(v) => { for x in v { if let Some(r) = nth(x, i) { return Some(r); } } None },
        G::Attr(_, v) => nth(v, i),
        G::Glued(x) => nth(x, i),
        _ => None,
    }
}
pub const SIZES: &[usize] = &[5, 9, 11, 17, 20, 33, 40, 65, 100, 129, 257, 300];
/// Now and then makes something much larger than usual: a longer text, a longer list, deeper nesting.
pub fn stretch(s: &mut Src, mut g: Vec<G>, macros: bool) -> Vec<G> {
    if !s.chance(1, 20) { return g; }
    let before = if macros { vec![] } else { g.clone() };
    let total: usize = g.iter().map(size).sum();
    if total == 0 || total > 2000 { return g; }
    let mut whole = G::List(g);
    let n = s.choose(SIZES);
    match s.weighted(&[3, 4, 2]) {
        // Texts get longer, with blanks and other scripts in the strings.
        0 => for _ in 0..8 {
            let mut i = 1 + s.below(total);
            let more = s.pick(&["x", "xy", "é", "字", "-", "a b", "10"]);
            let n = if s.chance(1, 20) { n * 17 } else { n };
            match nth(&mut whole, &mut i) {
                Some(G::Str(t)) => { *t += &more.repeat(n / more.len() + 1); break; },
                Some(G::Sym(t)) if !t.starts_with(['%', '&', ':', '+', '-']) && !t.starts_with(|c: char| c.is_ascii_digit()) && !t.is_empty() => { *t += &more.replace(' ', "_").repeat(n / more.len() + 1); break; },
                _ => {},
            }
        },
        // Something in a list is repeated, exactly or with other names.
        1 => for _ in 0..8 {
            let mut i = s.below(total + 1);
            let Some(G::List(v)) = nth(&mut whole, &mut i) else { continue };
            if v.is_empty() { continue; }
            let j = s.below(v.len());
            let each = size(&v[j]);
            let n = n.min(2000 / each);
            let other = s.chance(1, 3);
            let copies: Vec<G> = (0..n).map(|k| if other { renamed(&v[j], k) } else { v[j].clone() }).collect();
            v.splice(j + 1..j + 1, copies);
            break;
        },
        // Something gets deeper.
        _ => {
            let mut i = 1 + s.below(total);
            let how = s.below(if macros { 4 } else { 3 });
            if let Some(x) = nth(&mut whole, &mut i) {
                for _ in 0..n.min(if how < 2 { 129 } else { 40 }) {
                    let inner = std::mem::replace(x, sym("z"));
                    *x = match how { 0 => ls(vec![sym("p"), inner]), 1 => ls(vec![inner]), 2 => ls(vec![sym("b"), sym("z"), inner, st("w")]), _ => call("do", vec![inner]) };
                }
            }
        },
    }
    g = match whole { G::List(v) => v, _ => unreachable!() };
    if !macros && !no_calls(&g) { return before; }
    g
}
/// Nothing but `(%raw "text")`.
fn no_calls(g: &[G]) -> bool {
    g.iter().all(|x| match x {
        G::List(v) if v.len() == 2 && v[0] == sym("%raw") => matches!(v[1], G::Str(_)),
        G::List(v) => no_calls(v),
        G::Attr(_, v) => no_calls(std::slice::from_ref(v)),
        G::Glued(v) => no_calls(std::slice::from_ref(v)),
        G::Sym(t) => !t.starts_with('%'),
        _ => true,
    })
}
fn renamed(g: &G, k: usize) -> G {
    match g {
        G::Sym(t) if !t.is_empty() && !t.starts_with(['%', '&']) && !t.ends_with('\\') => sym(format!("{t}{k}")),
        G::Str(t) => st(format!("{t}{k}")),
        G::List(v) => ls(v.iter().map(|x| renamed(x, k)).collect()),
        G::Attr(a, v) => at(a.clone(), renamed(v, k)),
        G::Glued(x) => G::Glued(Box::new(renamed(x, k))),
        g => g.clone(),
    }
}

/// Damages a text at random places.
pub fn mutate(s: &mut Src, src: &str) -> String {
    let mut cs: Vec<char> = src.chars().collect();
    let n = 1 + s.below(3);
    for _ in 0..n {
        let i = s.below(cs.len() + 1);
        match s.weighted(&[4, 4, 2, 1, 1]) {
            0 => { let c = s.choose(&['(', ')', '"', ':', '\\', ';', ' ', '\n', '%', '-', '1', 'x', 'u', '{', '}', '\r', 'é']); cs.insert(i, c); },
            1 => if i < cs.len() { cs.remove(i); },
            2 => if i < cs.len() { cs[i] = any_char(s); },
            3 => { let j = (i + s.below(6)).min(cs.len()); let d: Vec<char> = cs[i.min(j)..j].to_vec(); for (k, c) in d.into_iter().enumerate() { cs.insert(i + k, c); } },
            _ => { cs.truncate(i); },
        }
    }
    cs.into_iter().collect()
}

/// Random sequence of tokens.
pub fn soup(s: &mut Src, extra: &[&str], max: usize) -> String {
    let base = ["(", ")", "\"", " ", "\n", "a", ":k", ";", "\\", "\"\"\"", "1", "-", ":", "%", "é", "\"x\"", "\t", "\\n", "\\x41", "\\u{41}", "\\u0041", "\\101", "\\q", "\r", "٣", "（", "\x0c", "\u{a0}"];
    let v = s.many(1, max, 12, |s| {
        if !extra.is_empty() && s.chance(1, 2) { s.pick(extra).to_owned() } else { s.pick(&base).to_owned() }
    });
    v.concat()
}
