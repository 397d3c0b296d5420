//! C23 (YAML and JSON) and C24 (TOML): documents rendered from known data.

use crate::engine::*;
use crate::gen::*;
use crate::model::{expand::*, tree::*};
use crate::prog;
use crate::util::*;

/// The sources reading `text` with one of the data macros: the value, and every definition in turn.
fn programs(s: &mut Src, mac: &str, text: &str, sep: &Sep, names: &[String]) -> (String, String) {
    let mut args = vec![st(text)];
    if let Some(g) = &sep.1 { let i = s.below(2); args.insert(i, at("separator", g.clone())); }
    let c = call(mac, args);
    let lay = if s.chance(1, 4) { layout(s) } else { Layout::Plain };
    let (value, _) = render(s, &[c.clone()], lay, "<stdin>");
    // The value itself is not wanted here.
    let mut g = vec![call("define", vec![sym("the-value"), c])];
    for n in names { g.push(ls(vec![sym("d"), sym(format!("%{n}"))])); }
    let (defs, _) = render(s, &g, Layout::Plain, "<stdin>");
    (value, defs)
}

/// A separator and how it is given.
struct Sep(String, Option<G>);
fn separator(s: &mut Src) -> Sep {
    let t = s.pick(&["/", ".", "::", "-", "", "a", " ", "é", "0", "//"]).to_owned();
    if t == "/" && s.chance(3, 4) { return Sep(t, None); }
    let g = if t.is_empty() || s.chance(1, 2) { st(t.clone()) } else { sym(t.clone()) };
    Sep(t, Some(g))
}

/// Distinct names of what `d` defines; `None` when two paths read the same.
pub fn definitions(d: &Data, sep: &str) -> Option<Vec<(String, N)>> {
    fn walk(d: &Data, n: &N, sep: &str, path: &mut Vec<String>, out: &mut Vec<(String, N)>) {
        if !path.is_empty() { out.push((path.join(sep), n.clone())); }
        let kids = n.list().unwrap_or(&[]);
        match d {
            Data::Scalar(..) => {},
            Data::Seq(v) => for (i, d) in v.iter().enumerate() { path.push(i.to_string()); walk(d, &kids[i], sep, path, out); path.pop(); },
            Data::Map(v) => for (i, (k, d)) in v.iter().enumerate() {
                let N::Attr { val, .. } = &kids[i] else { unreachable!() };
                path.push(k.clone()); walk(d, val, sep, path, out); path.pop();
            },
        }
    }
    let mut out = vec![];
    walk(d, &data_node(d, Site::default(), ""), sep, &mut vec![], &mut out);
    let names: std::collections::HashSet<&String> = out.iter().map(|x| &x.0).collect();
    if names.len() != out.len() { return None; }
    Some(out)
}

fn weight(d: &Data) -> usize {
    match d { Data::Scalar(..) => 1, Data::Seq(v) => 1 + v.iter().map(weight).sum::<usize>(), Data::Map(v) => 1 + v.iter().map(|x| weight(&x.1)).sum::<usize>() }
}

/// Entries of maps in order of their keys, everything else as it is.
fn ordered(n: &N) -> N {
    match n {
        N::List { ws, kids, end_ws, end, site } => {
            let mut kids: Vec<N> = kids.iter().map(ordered).collect();
            if !kids.is_empty() && kids.iter().all(N::is_attr) {
                let blanks: Vec<String> = kids.iter().map(|k| k.ws().to_owned()).collect();
                kids.sort_by(|a, b| { let k = |n: &N| match n { N::Attr { key, .. } => key.clone(), _ => unreachable!() }; k(a).cmp(&k(b)) });
                for (k, b) in kids.iter_mut().zip(blanks) { k.set_ws(&b); }
            }
            N::List { ws: ws.clone(), kids, end_ws: end_ws.clone(), end: *end, site: *site }
        },
        N::Attr { ws, key, val, site } => N::Attr { ws: ws.clone(), key: key.clone(), val: Box::new(ordered(val)), site: *site },
        n => n.clone(),
    }
}
/// Kinds and values agree, numbers by value.
fn same(got: &N, want: &N) -> Option<String> {
    match (got, want) {
        (N::Num(a), N::Num(b)) if a.ws == b.ws => {
            // (There is a negative zero.)
            let minus = |t: &str| t.starts_with('-') && !t.to_lowercase().contains("nan");
            let same = minus(&a.val) == minus(&b.val) && match (a.val.parse::<i128>(), b.val.parse::<i128>()) {
                (Ok(x), Ok(y)) => x == y,
                _ => match (a.val.parse::<f64>(), b.val.parse::<f64>()) { (Ok(x), Ok(y)) => x == y || x.is_nan() && y.is_nan(), _ => false },
            };
            if same { None } else { Some(format!("number {:?}, expected {:?}", a.val, b.val)) }
        },
        (N::List { kids: a, ws: w, .. }, N::List { kids: b, ws: v, .. }) if a.len() == b.len() && w == v => a.iter().zip(b).find_map(|(a, b)| same(a, b)),
        (N::Attr { key: a, val: x, ws: w, .. }, N::Attr { key: b, val: y, ws: v, .. }) if a == b && w == v => same(x, y),
        _ => diff(got, want, LAYOUT, ""),
    }
}

/// Runs both programs and compares with the data.
fn judge(value: &str, defs: &str, d: &Data, want: &[(String, N)], any_order: bool) -> R {
    let order = |n: &N| if any_order { ordered(n) } else { n.clone() };
    match seam_expand(value, &Env::default()) {
        Ok(t) if t.len() == 1 => if let Some(x) = same(&order(&t[0]), &order(&data_node(d, Site::default(), ""))) { return bad(format!("value: {x}\n   got: {}", show_all(&t))); },
        Ok(t) => return bad(format!("{} nodes: {}", t.len(), show_all(&t))),
        Err(e) => return bad(format!("rejected: {}", e.msg)),
    }
    check_definitions(defs, want, any_order)
}
fn check_definitions(defs: &str, want: &[(String, N)], any_order: bool) -> R {
    let order = |n: &N| if any_order { ordered(n) } else { n.clone() };
    match seam_expand(defs, &Env::default()) {
        Ok(t) if t.len() == want.len() => for (got, (name, w)) in t.iter().zip(want) {
            let Some([_, got]) = got.list() else { return bad(format!("%{name} gives {}", show(got))) };
            let mut w = w.clone();
            w.set_ws(" ");
            if let Some(x) = same(&order(got), &order(&w)) { return bad(format!("%{name}: {x}\n   got: {}\n  want: {}", show(got), show(&w))); }
        },
        Ok(t) => return bad(format!("{} definitions, expected {}", t.len(), want.len())),
        Err(e) => return bad(format!("definitions: {}", e.msg)),
    }
    Ok(())
}
fn rejected(src: &str, why: &str) -> R {
    match seam_expand(src, &Env::default()) { Err(_) => Ok(()), Ok(t) => bad(format!("must be rejected ({why}), but gives {}", show_all(&t))) }
}
/// Names that look like definitions of `want` but are not.
fn undefined(s: &mut Src, mac: &str, text: &str, sep: &Sep, want: &[(String, N)]) -> Option<(String, String)> {
    let base = if want.is_empty() || s.chance(1, 3) { s.pick(&["a", "b", "0", "1", "key"]).to_owned() } else { want[s.below(want.len())].0.clone() };
    let name = match s.below(5) {
        0 => base, 1 => format!("{}{base}", sep.0), 2 => format!("{base}{}", sep.0), 3 => format!("{base}{}{}", sep.0, s.pick(&["0", "1", "4", "a", "b"])),
        _ => base.rsplit_once(sep.0.as_str()).map_or("zz".to_owned(), |x| x.1.to_owned()),
    };
    if name.is_empty() || want.iter().any(|w| w.0 == name) || BUILTINS.contains(&name.as_str()) { return None; }
    let mut args = vec![st(text)];
    if let Some(g) = &sep.1 { args.push(at("separator", g.clone())); }
    let c = call("define", vec![sym("the-value"), call(mac, args)]);
    Some((render(s, &[c, call("ifdef", vec![st(name.clone()), sym("defined"), sym("not")])], Layout::Plain, "<stdin>").0, name))
}

// ------------------------------------------------------------------- YAML

struct Yaml { out: String, after_block: bool, poison: Option<(usize, &'static str)>, poisoned: bool, count: usize }

fn printable(c: char) -> bool { !c.is_control() && !matches!(c, '\u{feff}' | '\u{2028}' | '\u{2029}' | '\u{fffe}' | '\u{ffff}') }

fn yaml_double(s: &mut Src, t: &str, fold: Option<usize>) -> String {
    let mut o = String::from("\"");
    let cs: Vec<char> = t.chars().collect();
    for (i, &c) in cs.iter().enumerate() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if printable(c) && !s.chance(1, 14) => {
                // An escaped line break, and a folded space between words.
                if let Some(n) = fold {
                    let word = |k: usize| cs.get(k).is_some_and(|c| c.is_ascii_alphanumeric());
                    if i > 0 && word(i) && word(i - 1) && s.chance(1, 25) { o += "\\\n"; o += &" ".repeat(n); }
                    else if c == ' ' && i > 0 && word(i - 1) && word(i + 1) && s.chance(1, 8) { o += "\n"; o += &" ".repeat(n); continue; }
                }
                o.push(c)
            },
            c => {
                let n = c as u32;
                let mut w = vec![format!("\\U{n:08x}")];
                if n < 0x10000 { w.push(format!("\\u{n:04X}")); }
                if n < 0x100 { w.push(format!("\\x{n:02x}")); }
                match c { '\n' => w.push("\\n".into()), '\t' => w.push("\\t".into()), '\r' => w.push("\\r".into()), '\0' => w.push("\\0".into()), '\x07' => w.push("\\a".into()), '\x08' => w.push("\\b".into()),
                    '\x0b' => w.push("\\v".into()), '\x0c' => w.push("\\f".into()), '\x1b' => w.push("\\e".into()), '/' => w.push("\\/".into()), '\u{85}' => w.push("\\N".into()), '\u{a0}' => w.push("\\_".into()), '\u{2028}' => w.push("\\L".into()), _ => {} }
                o += &s.choose(&w);
            },
        }
    }
    o.push('"');
    o
}
fn plain_ok(t: &str, flow: bool) -> bool {
    let cs: Vec<char> = t.chars().collect();
    !cs.is_empty() && (cs[0].is_alphanumeric() || matches!(cs[0], '_' | '/' | '.' | '(')) && !t.starts_with("...") && *cs.last().unwrap() != ' '
        && cs.iter().enumerate().all(|(i, &c)| c.is_alphanumeric() || c == '-' && i > 0 && cs[i - 1].is_alphanumeric() && cs.get(i + 1).is_some_and(|d| d.is_alphanumeric()) || matches!(c, '_' | '.' | '/' | '+' | ' ' | '(' | ')' | '\'' | '"' | '%' | '&' | '!' | '<' | '=')
            || c == ':' && !flow && cs.get(i + 1).is_some_and(|d| d.is_alphanumeric())
            || c == '#' && i > 0 && cs[i - 1] != ' '
            || !flow && matches!(c, '{' | '}' | '[' | ']' | ','))
}

impl Yaml {
    fn pad(&mut self, n: usize) { self.out += &" ".repeat(n); }
    /// A scalar on one line (or folded over several, with continuation lines indented by `fold`).
    fn scalar(&mut self, s: &mut Src, t: &str, flow: bool, fold: Option<usize>) {
        self.count += 1;
        if let Some((k, what)) = self.poison { if self.count == k { self.poisoned = true; self.out += what; return; } }
        if s.chance(1, 20) { let a = s.pick(&["&anchor ", "!!str ", "! "]); self.out += a; }
        let k = s.below(3);
        if k < 2 && plain_ok(t, flow) && (k == 0 || s.chance(1, 2)) {
            match fold {
                Some(n) if s.chance(1, 6) && t.contains(' ') && !t.contains("  ") && !t.contains(" #") => { let i = t.find(' ').unwrap(); self.out += &t[..i]; self.out += "\n"; self.pad(n); self.out += &t[i + 1..]; },
                _ => self.out += t,
            }
        } else if k == 1 && t.chars().all(printable) {
            self.out += &format!("'{}'", t.replace('\'', "''"));
        } else {
            self.out += &yaml_double(s, t, fold);
        }
    }
    fn flow(&mut self, s: &mut Src, d: &Data, ind: usize) {
        let gap = |s: &mut Src| -> String { match s.below(10) { 0 => String::new(), 1 => format!("\n{}", " ".repeat(ind + 1)), 2 => format!(" # c, ]\n{}", " ".repeat(ind + 1)), 3 => "  ".into(), _ => " ".into() } };
        match d {
            Data::Scalar(_, t) => self.scalar(s, t, true, Some(ind + 1)),
            Data::Seq(v) => {
                self.out += "[";
                for (i, d) in v.iter().enumerate() {
                    if i > 0 { self.out += ","; }
                    if i > 0 || s.chance(1, 3) { let g = gap(s); self.out += &g; }
                    self.flow(s, d, ind);
                }
                if !v.is_empty() && s.chance(1, 6) { self.out += ","; }
                if s.chance(1, 4) { self.out += " "; }
                self.out += "]";
            },
            Data::Map(v) => {
                self.out += "{";
                for (i, (k, d)) in v.iter().enumerate() {
                    if i > 0 { self.out += ","; }
                    if i > 0 || s.chance(1, 3) { let g = gap(s); self.out += &g; }
                    self.scalar(s, k, true, None);
                    self.out += ": ";
                    self.flow(s, d, ind);
                }
                if !v.is_empty() && s.chance(1, 6) { self.out += ","; }
                if s.chance(1, 4) { self.out += " "; }
                self.out += "}";
            },
        }
    }
    fn literal(&mut self, s: &mut Src, t: &str, parent: i64) -> bool {
        let body = t.trim_end_matches('\n');
        let tail = t.len() - body.len();
        if body.is_empty() || !body.chars().all(|c| printable(c) || c == '\n') || body.starts_with([' ', '\n']) || body.lines().any(|l| l.trim().is_empty() && !l.is_empty()) { return false; }
        let folded = !body.contains('\n') && !body.contains("  ") && !body.ends_with(' ') && s.chance(1, 2);
        let n = parent.max(0) as usize + 1 + s.below(3);
        self.out += if folded { ">" } else { "|" };
        if parent >= 0 && s.chance(1, 5) { self.out += &(n - parent as usize).to_string(); }
        self.out += match tail { 0 => "-", 1 => s.pick(&["", "+"]), _ => "+" };
        if s.chance(1, 8) { self.out += " # not text"; }
        let lines: Vec<String> = if folded { body.split(' ').map(str::to_owned).collect() } else { body.split('\n').map(str::to_owned).collect() };
        for l in lines { self.out += "\n"; if !l.is_empty() { self.pad(n); self.out += &l; } }
        for _ in 1..tail { self.out += "\n"; }
        self.after_block = true;
        true
    }
    /// What comes after a key, a dash, or at the top, whose own indentation is `parent`.
    fn value(&mut self, s: &mut Src, d: &Data, parent: i64, place: char) {
        let sep = if place == 't' { "" } else { " " };
        let empty = match d { Data::Seq(v) => v.is_empty(), Data::Map(v) => v.is_empty(), _ => false };
        let below = (parent + 1) as usize;
        if let Data::Scalar(_, t) = d {
            self.out += sep;
            if self.poison.is_none() && s.chance(1, 4) && self.literal(s, t, parent) { return; }
            self.scalar(s, t, false, Some(below + 1));
            return;
        }
        if empty || s.chance(1, 5) { self.out += sep; self.flow(s, d, below); return; }
        let mut ind = below + match place { 't' => 0, _ => s.choose(&[1, 1, 3, 0]) };
        if place == 'k' && matches!(d, Data::Seq(_)) && s.chance(1, 2) { ind = parent as usize; }
        let compact = place == '-' && s.chance(1, 2);
        if compact { let k = s.choose(&[1, 1, 3]); self.pad(k); ind = parent as usize + 1 + k; }
        let n = match d { Data::Seq(v) => v.len(), Data::Map(v) => v.len(), _ => unreachable!() };
        for i in 0..n {
            if !(i == 0 && compact) {
                if !(i == 0 && place == 't') {
                    if !self.after_block && s.chance(1, 12) { self.out += " # comment: [x"; }
                    if !self.after_block && s.chance(1, 15) { self.out += "\n"; let k = s.below(3); self.pad(k); self.out += "# - line\n"; }
                    self.out += "\n";
                }
                self.after_block = false;
                self.pad(ind);
            }
            match d {
                Data::Map(v) => {
                    if s.chance(1, 25) { self.out += "? "; self.scalar(s, &v[i].0, false, None); self.out += "\n"; self.pad(ind); }
                    else { self.scalar(s, &v[i].0, false, None); if s.chance(1, 12) { self.out += " "; } }
                    self.out += ":";
                    self.value(s, &v[i].1, ind as i64, 'k');
                },
                Data::Seq(v) => { self.out += "-"; self.value(s, &v[i], ind as i64, '-'); },
                _ => unreachable!(),
            }
        }
    }
}

/// JSON with any spelling of its strings and blanks.
fn json_any(s: &mut Src, d: &Data, blanks: bool) -> String {
    let gap = |s: &mut Src| if blanks { s.pick(&["", " ", "\n ", "  ", "\n    "]) } else { "" };
    let string = |s: &mut Src, t: &str| {
        let mut o = String::from("\"");
        for c in t.chars() {
            match c {
                '"' => o += "\\\"", '\\' => o += "\\\\",
                '\n' if s.chance(1, 2) => o += "\\n", '\t' if s.chance(1, 2) => o += "\\t", '\r' if s.chance(1, 2) => o += "\\r", '\x08' => o += "\\b", '\x0c' => o += "\\f",
                '/' if s.chance(1, 3) => o += "\\/",
                c if (c as u32) < 0x10000 && (!printable(c) || s.chance(1, 12)) => o += &format!("\\u{:04x}", c as u32),
                c => o.push(c),
            }
        }
        o + "\""
    };
    match d {
        Data::Scalar('#', t) => t.clone(),
        Data::Scalar(_, t) => string(s, t),
        Data::Seq(v) => {
            let mut o = String::from("[");
            for (i, d) in v.iter().enumerate() { if i > 0 { o += ","; } o += gap(s); o += &json_any(s, d, blanks); if blanks && s.chance(1, 6) { o += " "; } }
            o + gap(s) + "]"
        },
        Data::Map(v) => {
            let mut o = String::from("{");
            for (i, (k, d)) in v.iter().enumerate() { if i > 0 { o += ","; } o += gap(s); o += &string(s, k); if blanks && s.chance(1, 6) { o += " "; } o += ":"; o += if s.chance(1, 3) { "" } else { " " }; o += &json_any(s, d, blanks); }
            o + gap(s) + "}"
        },
    }
}

fn key(s: &mut Src) -> String { if s.chance(1, 8) { any_text(s, 6) } else { prog::data_key(s) } }
pub(super) fn yaml_data(s: &mut Src, d: usize, top: bool, json: bool) -> Data {
    if top { let x = yaml_data_of(s, d, top, json); return prog::grow(s, x); }
    yaml_data_of(s, d, top, json)
}
fn yaml_data_of(s: &mut Src, d: usize, top: bool, json: bool) -> Data {
    match s.weighted(&[if top { 1 } else if d >= 3 { 3 } else { 6 }, if d > 0 { 5 } else { 0 }, if d > 0 { 6 } else { 0 }]) {
        0 => {
            if json && s.chance(1, 3) { return Data::Scalar('#', s.pick(&["1", "-2", "1.5", "1e5", "true", "false", "null", "0"]).to_owned()); }
            let t = if s.chance(1, 3) { any_text(s, 10) } else { s.pick(&["1", "two", "a b", "", "é", "null", "true", "1.5", "x: y", "q\"uote", "new\nline", "%z", "- i", "# c", "a: b", "line\n", "two\nlines\n", "x\n\ny\n\n", "it's", "long text of words", "[a]", "{", "~", "*x", "&y", "!t", "|", ">", "---", "yes", "2001-01-01", "0x1F", "a #b", "a:b", "(p)", "\\n"]).to_owned() };
            Data::Scalar('"', t)
        },
        1 => Data::Seq(s.many(0, 5, 2, |s| yaml_data(s, d - 1, false, json))),
        _ => {
            let mut v: Vec<(String, Data)> = vec![];
            while v.len() < 5 && s.chance(2, 3) {
                let k = key(s);
                let x = yaml_data(s, d - 1, false, json);
                if !v.iter().any(|(j, _)| *j == k) { v.push((k, x)); }
            }
            Data::Map(v)
        },
    }
}
/// All scalars are strings for seam.
fn stringly(d: &Data) -> Data {
    match d {
        Data::Scalar(_, t) => Data::Scalar('"', t.clone()),
        Data::Seq(v) => Data::Seq(v.iter().map(stringly).collect()),
        Data::Map(v) => Data::Map(v.iter().map(|(k, d)| (k.clone(), stringly(d))).collect()),
    }
}
pub fn yaml_document(s: &mut Src, d: &Data, poison: Option<(usize, &'static str)>, marks: bool) -> (String, bool) {
    let mut y = Yaml { out: String::new(), after_block: false, poison, poisoned: false, count: 0 };
    y.value(s, d, -1, 't');
    let pre = if !marks { "" } else { s.pick(&["", "", "---\n", "# comment\n", "%YAML 1.2\n---\n", "\n\n", "--- # c\n"]) };
    let end = if !marks { "\n" } else if y.after_block { s.pick(&["\n", "\n...\n"]) } else { s.pick(&["", "\n", "\n...\n", "\n# end", " # end", "\n\n", "\n--- "]) };
    (format!("{pre}{}{end}", y.out), y.poisoned)
}

pub struct C23;
/// Not YAML (or not supported), whatever follows.
pub(super) const BAD_YAML: &[&str] = &["[a", "{a: 1", "\"abc", "'abc", "a: b: c", "a: *x", "- *x", "*x", "? [a]\n: b", "{[a]: b}", "{{a: b}: c}", "]", "}", "[a]]", "{\"a\": 1}}", "{a: 1} b", "[a] b", "[a, b", "a: [1,2", "a: @x", "a: `x", "a: \"x\" y", "a: 'x' y",
    "\"\\q\"", "\"\\ud800\"", "- a\nb", "a: 1\n b: 2", "- [a", "a\nb: 1", "{a b: c, d", "%", "a: %x\n  b: c", "- - *y", "a:\n  - 1\n b: 2", "[a: {b: *c}]", "&x a: *x", "a: &x 1\nb: *x", "[&x a, *x]", "a: 1\n- b", "? {a: b}\n: c", "\"a\": \"\\xZZ\""];

impl Prop for C23 {
    fn id(&self) -> &'static str { "C23" }
    fn rule(&self) -> &'static str {
        "Random data rendered as JSON (any escapes and blanks) or YAML (block, compact and flow collections; plain, quoted, folded and literal scalars; comments, anchors, tags, document markers), with any separator: the value must be the data as lists and strings in order, every path must be defined as its value and no other name; documents with aliases, compound keys or broken syntax at a random place are rejected. Non-trivial: at least three values."
    }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 14_000_000 } else { 500_000 } }
    fn run(&self, s: &mut Src, cx: &mut Cx) -> R {
        let json = s.chance(1, 3);
        let d = yaml_data(s, 4, true, json);
        let sep = separator(s);
        let mac = if json || s.chance(1, 4) { "json" } else { "yaml" };
        if s.chance(1, 8) {
            // ---- broken ones
            let (text, hit) = if s.chance(1, 3) {
                let pre = s.pick(&["", "# c\n", "---\n"]);
                (format!("{pre}{}", s.pick(BAD_YAML)), true)
            } else { let k = 1 + s.below(8); let p = s.pick(&["*x", "@c", "`c", "*x y"]); yaml_document(s, &d, Some((k, p)), false) };
            if !hit { return discard("nothing broken"); }
            let (value, _) = programs(s, mac, &text, &sep, &[]);
            about_to_run(s, cx, format!("{text}\n---\n{value}"));
            cx.label("broken");
            return rejected(&value, "broken document");
        }
        let text = if json { let b = s.chance(2, 3); json_any(s, &d, b) } else { yaml_document(s, &d, None, true).0 };
        let d = stringly(&d);
        let Some(want) = definitions(&d, &sep.0) else { return discard("two paths read the same") };
        if let (true, Some((src, name))) = (s.chance(1, 4), undefined(s, mac, &text, &sep, &want)) {
            about_to_run(s, cx, format!("{text}\n---\n{src}"));
            cx.label("other names");
            return match seam_expand(&src, &Env::default()) {
                Ok(t) if matches!(&t[..], [N::Sym(a)] if a.val == "not") => Ok(()),
                r => bad(format!("{name:?} must not be defined: {r:?}")),
            };
        }
        let names: Vec<String> = want.iter().map(|w| w.0.clone()).collect();
        let (value, defs) = programs(s, mac, &text, &sep, &names);
        about_to_run(s, cx, format!("{text}\n---\n{value}\n---\n{defs}"));
        cx.nontrivial = weight(&d) >= 3;
        cx.label(if json { "JSON" } else { "YAML" });
        judge(&value, &defs, &d, &want, false)
    }
    fn examples(&self) -> usize { BAD_YAML.len() }
    fn example(&self, i: usize, cx: &mut Cx) -> R {
        let mut s = Src::replay(&[]);
        let (v, _) = programs(&mut s, "yaml", BAD_YAML[i], &Sep("/".into(), None), &[]);
        cx.show(&v);
        rejected(&v, "broken document")
    }
}

// ------------------------------------------------------------------- TOML

#[derive(Clone, Debug)]
pub enum T { Str(String), Int(i64), Float(f64), Bool(bool), Date(String, String), Arr(Vec<T>), Tab(Vec<(String, T)>) }

pub fn toml_data(t: &T) -> Data {
    match t {
        T::Str(v) => Data::Scalar('"', v.clone()),
        T::Int(i) => Data::Scalar('#', i.to_string()),
        T::Float(f) => Data::Scalar('#', f.to_string()),
        T::Bool(b) => Data::Scalar('\'', b.to_string()),
        T::Date(v, _) => Data::Scalar('\'', v.clone()),
        T::Arr(v) => Data::Seq(v.iter().map(toml_data).collect()),
        T::Tab(v) => Data::Map(v.iter().map(|(k, t)| (k.clone(), toml_data(t))).collect()),
    }
}
fn toml_value(s: &mut Src, d: usize) -> T {
    match s.weighted(&[4, 3, 2, 2, 2, if d > 0 { 4 } else { 0 }, if d > 0 { 5 } else { 0 }]) {
        0 => T::Str(if s.chance(1, 3) { any_text(s, 10) } else { s.pick(&["", "one", "two words", "é", "q\"uote", "it's", "a\nb", "\nlead", "C:\\dir", "\"\"\"", "'''", "tab\t", "# no comment", "%z", "1", "trail\\", "x\n\n  y\n"]).to_owned() }),
        1 => T::Int(if s.chance(1, 3) { (s.draw(u64::MAX) as i64) >> s.below(64) } else { s.choose(&[0, 1, -1, 42, 255, 1000, -17, i64::MAX, i64::MIN, 1_000_000, 7, 8, i32::MAX as i64 + 1, 9_007_199_254_740_993, -9_007_199_254_740_993, i64::MAX - 1]) }),
        2 => T::Float(s.choose(&[0.0, 1.0, -1.5, 0.25, 3.0e10, 1.0e100, 6.626e-34, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -0.0, 123456.789, 5e-324])),
        3 => T::Bool(s.chance(1, 2)),
        4 => toml_date(s),
        5 => {
            if s.chance(1, 3) { T::Arr(s.many(1, 3, 2, |s| toml_table(s, d - 1))) } else { T::Arr(s.many(0, 4, 2, |s| toml_value(s, d - 1))) }
        },
        _ => toml_table(s, d - 1),
    }
}
fn toml_table(s: &mut Src, d: usize) -> T {
    let mut v: Vec<(String, T)> = vec![];
    if d > 0 && s.chance(1, 100) {
        let n = s.choose(SIZES);
        let x = toml_value(s, d - 1);
        let label = |i: usize| if i % 2 == 0 { T::Int(i as i64) } else { T::Str(format!("v{i}")) };
        v.push(("large".into(), match s.below(5) {
            0 => T::Arr((0..n).map(|i| T::Int(i as i64)).chain([x]).collect()),
            1 => T::Tab((0..n).map(|i| (format!("k{i}"), label(i))).chain([("last".into(), x)]).collect()),
            2 => T::Tab(vec![(format!("key-{}", "y".repeat(n)), x), (format!("key_{}", "y".repeat(n)), label(1))]),
            3 => T::Str(["word", "é", "字"][n % 3].repeat(n)),
            _ => (0..n.min(25)).fold(x, |x, i| if i % 4 == 3 { T::Arr(vec![x]) } else { T::Tab(vec![(["a", "deep", "k"][i % 3].into(), x)]) }),
        }));
    }
    while v.len() < 5 && s.chance(3, 4) {
        let k = key(s);
        let x = toml_value(s, d);
        if !v.iter().any(|(j, _)| *j == k) { v.push((k, x)); }
    }
    T::Tab(v)
}
fn toml_date(s: &mut Src) -> T {
    let date = s.pick(&["1979-05-27", "2024-02-29", "0001-01-01", "9999-12-31"]);
    let hms = s.pick(&["07:32:00", "00:00:00", "23:59:59"]);
    let frac = s.pick(&["", "", "", ".5", ".999999", ".123456789", ".25"]);
    let time = format!("{hms}{frac}");
    match s.below(4) {
        0 => T::Date(date.into(), date.into()),
        1 => T::Date(time.clone(), time),
        k => {
            let zone = if k == 2 { "" } else { s.pick(&["Z", "+01:00", "-07:30", "z"]) };
            let t = s.pick(&["T", "t", " "]);
            T::Date(format!("{date}T{time}{}", zone.to_uppercase()), format!("{date}{t}{time}{zone}"))
        },
    }
}
fn toml_basic(s: &mut Src, t: &str, many_lines: bool) -> String {
    let mut o = String::new();
    let cs: Vec<char> = t.chars().collect();
    for (i, &c) in cs.iter().enumerate() {
        match c {
            '"' if !(many_lines && i > 0 && cs[i - 1] != '"' && cs.get(i + 1).is_some_and(|c| *c != '"')) => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' if many_lines && s.chance(2, 3) => o.push('\n'),
            c if (printable(c) || c == '\t') && !s.chance(1, 14) => {
                o.push(c);
                // A line-ending backslash.
                if many_lines && c != ' ' && c != '\t' && cs.get(i + 1).is_some_and(|c| c.is_alphanumeric()) && s.chance(1, 12) { o += "\\\n   "; }
            },
            '\n' => o += "\\n", '\t' => o += "\\t", '\r' => o += "\\r", '\x08' => o += "\\b", '\x0c' => o += "\\f",
            c if (c as u32) < 0x10000 && s.chance(1, 2) => o += &format!("\\u{:04x}", c as u32),
            c => o += &format!("\\U{:08X}", c as u32),
        }
    }
    o
}
fn toml_string(s: &mut Src, t: &str, lines: bool) -> String {
    let plain = t.chars().all(|c| printable(c) || c == '\t');
    match s.below(if lines { 4 } else { 2 }) {
        1 if plain && !t.contains('\'') => format!("'{t}'"),
        2 => format!("\"\"\"{}{}\"\"\"", if t.starts_with('\n') || s.chance(1, 2) { "\n" } else { "" }, toml_basic(s, t, true)),
        3 if t.chars().all(|c| printable(c) || c == '\t' || c == '\n') && !t.contains("''") && !t.ends_with('\'') => format!("'''{}{t}'''", if t.starts_with('\n') || s.chance(1, 2) { "\n" } else { "" }),
        _ => format!("\"{}\"", toml_basic(s, t, false)),
    }
}
fn toml_key(s: &mut Src, k: &str) -> String {
    let bare = !k.is_empty() && k.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_');
    if bare && !s.chance(1, 6) { return k.to_owned(); }
    toml_string(s, k, false)
}
fn toml_inline(s: &mut Src, t: &T, lines: bool) -> String {
    match t {
        T::Str(v) => toml_string(s, v, lines),
        T::Int(i) => match s.below(6) {
            1 if *i >= 0 => format!("0x{i:X}"), 2 if *i >= 0 => format!("0o{i:o}"), 3 if *i >= 0 => format!("0b{i:b}"), 4 if *i > 0 => format!("+{i}"),
            5 if i.unsigned_abs() > 999 => { let t = i.to_string(); let n = t.len() - 3; format!("{}_{}", &t[..n], &t[n..]) },
            _ => i.to_string(),
        },
        T::Float(f) if f.is_nan() => s.pick(&["nan", "+nan", "-nan"]).to_owned(),
        T::Float(f) if f.is_infinite() => if *f > 0.0 { s.pick(&["inf", "+inf"]).to_owned() } else { "-inf".into() },
        T::Float(f) => match s.below(3) {
            0 => { let t = format!("{f:e}"); t },
            1 => format!("{f:E}"),
            _ => { let t = format!("{f}"); if t.contains('.') { t } else { format!("{t}.0") } },
        },
        T::Bool(b) => b.to_string(),
        T::Date(_, t) => t.clone(),
        T::Arr(v) => {
            let gap = |s: &mut Src| if lines { s.pick(&["", " ", "\n  ", " # c ]\n "]) } else { s.pick(&["", " "]) };
            let mut o = String::from("[");
            for (i, t) in v.iter().enumerate() { if i > 0 { o += ","; } o += gap(s); o += &toml_inline(s, t, lines); }
            if !v.is_empty() && s.chance(1, 4) { o += ","; }
            o + gap(s) + "]"
        },
        T::Tab(v) => {
            let mut parts = vec![];
            for (k, t) in v { let k = toml_key(s, k); toml_pairs(s, &k, t, false, &mut parts); }
            format!("{{{}}}", parts.iter().map(|p| format!(" {p} ")).collect::<Vec<_>>().join(","))
        },
    }
}
/// `key = value`, or several with dotted keys.
fn toml_pairs(s: &mut Src, k: &str, t: &T, lines: bool, out: &mut Vec<String>) {
    match t {
        T::Tab(v) if !v.is_empty() && s.chance(1, 2) => for (j, t) in v { let j = toml_key(s, j); let dot = s.pick(&[".", " . ", "."]); toml_pairs(s, &format!("{k}{dot}{j}"), t, lines, out); },
        t => { let eq = s.pick(&[" = ", "=", "  =\t"]); let v = toml_inline(s, t, lines); out.push(format!("{k}{eq}{v}")) },
    }
}
fn toml_section(s: &mut Src, v: &[(String, T)], path: &str, out: &mut Vec<String>) {
    let mut later: Vec<(String, &T)> = vec![];
    for (k, t) in v {
        let header = match t { T::Tab(_) => s.chance(1, 2), T::Arr(v) => !v.is_empty() && v.iter().all(|t| matches!(t, T::Tab(_))) && s.chance(2, 3), _ => false };
        let key = toml_key(s, k);
        if header { later.push((key, t)); } else { toml_pairs(s, &key, t, true, out); }
    }
    for (k, t) in later {
        let p = if path.is_empty() { k } else { format!("{path}.{k}") };
        match t {
            T::Tab(v) => {
                // A table of tables needs no header of its own, if they all have theirs.
                let sp = s.pick(&["", "", " "]);
                out.push(format!("[{sp}{p}{sp}]"));
                toml_section(s, v, &p, out);
            },
            T::Arr(items) => for i in items { let T::Tab(v) = i else { unreachable!() }; out.push(format!("[[{p}]]")); toml_section(s, v, &p, out); },
            _ => unreachable!(),
        }
    }
}
pub fn toml_document(s: &mut Src, t: &T) -> String {
    let T::Tab(v) = t else { unreachable!() };
    let mut lines = vec![];
    toml_section(s, v, "", &mut lines);
    let mut o = String::new();
    for l in lines {
        if s.chance(1, 10) { o += s.pick(&["\n", "# comment = 1\n", "  # [x]\n", "  "]); }
        o += &l;
        if s.chance(1, 10) { o += s.pick(&[" # c", "  ", "\t#"]); }
        o += if s.chance(1, 30) { "\r\n" } else { "\n" };
    }
    if s.chance(1, 5) && o.ends_with('\n') && !o.ends_with("\r\n") { o.pop(); }
    o
}
pub fn toml_root(s: &mut Src) -> T { let d = 1 + s.below(4); toml_table(s, d) }

pub struct C24;
pub(super) const BAD_TOML: &[&str] = &["zz =", "= 1", "zz = 01", "zz = 1 yy = 2", "[zz", "zz = \"unterminated", "zz = tru", "zz = 1__0", "[]", "zz = 1\nzz = 2", "[zz]\n[zz]", "zz.y = 1\nzz = 2", "zz = 2024-13-01", "zz = [1, 2", "zz = {a = 1, a = 2}", "zz = 'x", "zz", "zz = 1.", "zz = .5",
    "zz = \"\\q\"", "[[zz]]\n[zz]", "zz = 1\n[zz]", "zz = \"\"\"a", "zz = 9223372036854775808", "zz = 0xG", "zz = 1979-05-27T25:00:00", "zz = {a = 1", "[zz]]", "zz = \"a\u{1}b\"", "zz = [1] [2]", "z z = 1", "zz = nul", "zz = {}\n[zz]", "zz = []\n[[zz]]", "zz = \"\\ud800\"", "zz = +0x1"];
impl Prop for C24 {
    fn id(&self) -> &'static str { "C24" }
    fn rule(&self) -> &'static str {
        "Random typed data rendered as TOML (headers, arrays of tables, dotted and quoted keys, inline tables, every spelling of strings, numbers and dates, comments), with any separator: the value must be the data as lists and literals of the matching kind, one entry per key (their order is left open), every path must be defined as its value and no other name; broken documents are rejected. Non-trivial: at least three values."
    }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 12_000_000 } else { 450_000 } }
    fn run(&self, s: &mut Src, cx: &mut Cx) -> R {
        let t = toml_root(s);
        let sep = separator(s);
        let text = toml_document(s, &t);
        if s.chance(1, 10) {
            let b = s.pick(BAD_TOML);
            let text = if s.chance(1, 2) || b.contains("\"\"\"") { b.to_owned() } else if s.chance(1, 2) || b.starts_with('[') || b.contains("\n[") { format!("{b}\n{text}") } else { format!("{}\n[last]\n{b}\n", text.trim_end()) };
            let (value, _) = programs(s, "toml", &text, &sep, &[]);
            about_to_run(s, cx, format!("{text}\n---\n{value}"));
            cx.label("broken");
            return rejected(&value, "broken document");
        }
        let d = toml_data(&t);
        let Some(want) = definitions(&d, &sep.0) else { return discard("two paths read the same") };
        if let (true, Some((src, name))) = (s.chance(1, 4), undefined(s, "toml", &text, &sep, &want)) {
            about_to_run(s, cx, format!("{text}\n---\n{src}"));
            cx.label("other names");
            return match seam_expand(&src, &Env::default()) {
                Ok(t) if matches!(&t[..], [N::Sym(a)] if a.val == "not") => Ok(()),
                r => bad(format!("{name:?} must not be defined: {r:?}")),
            };
        }
        let names: Vec<String> = want.iter().map(|w| w.0.clone()).collect();
        let (value, defs) = programs(s, "toml", &text, &sep, &names);
        about_to_run(s, cx, format!("{text}\n---\n{value}\n---\n{defs}"));
        cx.nontrivial = weight(&d) >= 4;
        cx.label("TOML");
        judge(&value, &defs, &d, &want, true)
    }
    fn examples(&self) -> usize { BAD_TOML.len() }
    fn example(&self, i: usize, cx: &mut Cx) -> R {
        let mut s = Src::replay(&[]);
        let (v, _) = programs(&mut s, "toml", BAD_TOML[i], &Sep("/".into(), None), &[]);
        cx.show(&v);
        rejected(&v, "broken document")
    }
}

// --------------------------------------------------------------- Markdown

pub fn esc(t: &str) -> String { t.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;") }

/// Some inline Markdown, beginning with a plain word, and its HTML.
fn inline(s: &mut Src, lines: bool, cell: bool) -> (String, String) {
    let w = |s: &mut Src| s.pick(&["alpha", "beta", "word", "text", "été", "字", "x2"]).to_owned();
    let first = w(s);
    let (mut m, mut h) = (first.clone(), first);
    let n = s.below(5);
    for _ in 0..n {
        let gap = if lines && s.chance(1, 8) { 1 } else if lines && s.chance(1, 12) { 2 } else { 0 };
        match gap { 0 => { m += " "; h += " "; }, 1 => { m += "\n"; h += "\n"; }, _ => { m += "  \n"; h += "<br />\n"; } }
        if gap > 0 { let x = w(s); m += &x; m += " "; h += &x; h += " "; }
        let (a, b): (String, String) = match s.below(17) {
            0 => { let x = w(s); (format!("*{x}*"), format!("<em>{x}</em>")) },
            1 => { let x = w(s); let y = w(s); (format!("**{x} {y}**"), format!("<strong>{x} {y}</strong>")) },
            2 => { let c = s.pick(&["code", "a<b", "x & y", "*no*", "\"q\"", "<b>", "%y", "(p)", "&amp;"]); (format!("`{c}`"), format!("<code>{}</code>", esc(c))) },
            3 => { let x = w(s); let u = s.pick(&["http://e.org/?a=b&c=d", "javascript:alert(1)", "/rel#f", "mailto:a@b", "data:text/html,x", ""]); (format!("[{x}]({u})"), format!("<a href=\"{}\">{x}</a>", esc(u))) },
            4 => { let x = w(s); let y = w(s); (format!("[{x}](/u \"{y} & z\")"), format!("<a href=\"/u\" title=\"{y} &amp; z\">{x}</a>")) },
            5 => { let x = w(s); (format!("![{x}](i.png)"), format!("<img src=\"i.png\" alt=\"{x}\" />")) },
            6 => { let t = s.pick(&["<b>bold</b>", "<br/>", "<!-- c -->", "<span class=\"k\">s</span>", "<script>f(1)</script>", "<a href='x'>l</a>", "<x-y>z</x-y>"]); (t.into(), t.into()) },
            7 => { let t = s.pick(&["~~gone~~", "~gone~", "$m$", "$$m$$", "a_b_c", "2 * 3", "www.e.org", "http://e.org/", "[^1]", "[ ]", "{x}"]); (t.into(), esc(t)) },
            8 => { let t = s.pick(&["&copy;=©", "&amp;=&amp;", "&#65;=A", "&lt;=&lt;", "&nosuch;=&amp;nosuch;", "&eacute;=é"]); let (a, b) = t.split_once('=').unwrap(); (a.into(), b.into()) },
            9 => { let t = s.pick(&["\\*=*", "\\<=&lt;", "\\&=&amp;", "\\\\=\\", "\\`=`", "\\#=#", "\\q=\\q"]); let (a, b) = t.split_once('=').unwrap(); (a.into(), b.into()) },
            10 => ("<http://a.b/?c>".into(), "<a href=\"http://a.b/?c\">http://a.b/?c</a>".into()),
            11 => { let t = s.pick(&["a < b", "x & y", "\"quoted\"", "a > b", "it's"]); (t.into(), esc(t)) },
            12 => { let x = w(s); let y = w(s); (format!("**{x} *{y}***"), format!("<strong>{x} <em>{y}</em></strong>")) },
            13 if !cell => ("`` a`b ``".into(), "<code>a`b</code>".into()),
            _ => { let x = w(s); (x.clone(), x) },
        };
        m += &a; h += &b;
    }
    (m, h)
}
fn block(s: &mut Src, prev_list: bool) -> (String, String, bool) {
    let k = s.below(if prev_list { 9 } else { 13 });
    let (m, h) = match k {
        0 => { let (a, b) = inline(s, false, false); let n = 1 + s.below(6); (format!("{} {a}", "#".repeat(n)), format!("<h{n}>{b}</h{n}>")) },
        1 => { let (a, b) = inline(s, false, false); if s.chance(1, 2) { (format!("{a}\n==="), format!("<h1>{b}</h1>")) } else { (format!("{a}\n---"), format!("<h2>{b}</h2>")) } },
        2 => (s.pick(&["***", "* * *", "___"]).into(), "<hr />".into()),
        3 => {
            let lang = s.pick(&["", "rs", "html"]);
            let c = s.pick(&["x < y", "a\n\n  b", "\"q\" & *z*", "---", "# no", "<div>", "%x (y)", ""]);
            let fence = s.pick(&["```", "~~~", "````"]);
            let class = if lang.is_empty() { String::new() } else { format!(" class=\"language-{lang}\"") };
            if c.is_empty() { (format!("{fence}{lang}\n{fence}"), format!("<pre><code{class}></code></pre>")) }
            else { (format!("{fence}{lang}\n{c}\n{fence}"), format!("<pre><code{class}>{}\n</code></pre>", esc(c))) }
        },
        4 => { let (a, b) = inline(s, true, false); (format!("> {}", a.replace('\n', "\n> ")), format!("<blockquote>\n<p>{b}</p>\n</blockquote>")) },
        5 => { let t = s.pick(&["<div class=\"x\">\n*x* & y\n</div>", "<p>\n  raw\n</p>", "<!-- c\n---\nd -->", "<script>\nif (a < b) { }\n</script>", "<table><tr><td>1</td></tr></table>"]); (t.into(), t.into()) },
        6 => {
            let cols = 1 + s.below(3);
            let al: Vec<&str> = (0..cols).map(|_| s.pick(&["", "left", "right", "center"])).collect();
            let attr = |i: usize| if al[i].is_empty() { String::new() } else { format!(" align=\"{}\"", al[i]) };
            let mut m = String::new();
            let mut h = String::from("<table>\n<thead>\n<tr>\n");
            m += "|";
            for i in 0..cols { let (a, b) = inline(s, false, true); m += &format!(" {a} |"); h += &format!("<th{}>{b}</th>\n", attr(i)); }
            m += "\n|";
            for i in 0..cols { m += match al[i] { "" => " --- |", "left" => " :-- |", "right" => " --: |", _ => " :-: |" }; }
            h += "</tr>\n</thead>\n";
            let rows = s.below(3);
            if rows > 0 { h += "<tbody>\n"; }
            for _ in 0..rows {
                m += "\n|"; h += "<tr>\n";
                for i in 0..cols { let (a, b) = inline(s, false, true); m += &format!(" {a} |"); h += &format!("<td{}>{b}</td>\n", attr(i)); }
                h += "</tr>\n";
            }
            if rows > 0 { h += "</tbody>\n"; }
            (m, h + "</table>")
        },
        7 | 8 => { let (a, b) = inline(s, true, false); (a, format!("<p>{b}</p>")) },
        _ => {
            let ordered = s.chance(1, 3);
            let loose = s.chance(1, 4);
            let n = 1 + if s.chance(1, 50) { s.below(40) } else { s.below(3) };
            let loose = loose && n > 1;
            let (mut m, mut h) = (String::new(), String::new());
            for i in 0..n {
                if i > 0 { m += if loose { "\n\n" } else { "\n" }; h += "\n"; }
                let (a, b) = inline(s, false, false);
                let task = s.below(6);
                let (ta, tb) = match task { 0 => ("[ ] ", "<input type=\"checkbox\" disabled=\"\" /> "), 1 => ("[x] ", "<input type=\"checkbox\" disabled=\"\" checked=\"\" /> "), _ => ("", "") };
                m += &if ordered { format!("{}. {ta}{a}", i + 1) } else { format!("* {ta}{a}") };
                let nested = !loose && !ordered && s.chance(1, 6);
                if nested { let (c, d) = inline(s, false, false); m += &format!("\n  * {c}"); h += &format!("<li>{tb}{b}\n<ul>\n<li>{d}</li>\n</ul>\n</li>"); }
                else if loose { h += &format!("<li>\n<p>{tb}{b}</p>\n</li>"); }
                else { h += &format!("<li>{tb}{b}</li>"); }
            }
            let t = if ordered { "ol" } else { "ul" };
            return (m, format!("<{t}>\n{h}\n</{t}>"), true);
        },
    };
    (m, h, false)
}
pub(super) fn document(s: &mut Src) -> (String, String) {
    let n = if s.chance(1, 60) { s.below(60) } else { s.below(5) };
    let (mut m, mut h) = (String::new(), String::new());
    let mut list = false;
    for i in 0..n {
        let (a, b, l) = block(s, list);
        if i > 0 { m += "\n\n"; h += "\n"; }
        m += &a; h += &b; list = l;
    }
    if s.chance(1, 2) { m += "\n"; }
    (m, h)
}

/// Arbitrary text which makes the Markdown library panic (see KNOWN_FINDINGS.txt).
fn unsupported(e: &SeamErr) -> bool { e.msg.contains("Failed to render markdown") }

pub struct C25;
impl Prop for C25 {
    fn id(&self) -> &'static str { "C25" }
    fn rule(&self) -> &'static str {
        "Random Markdown written from known blocks and inlines (with the HTML each stands for) or arbitrary text, behind no frontmatter or random YAML or TOML frontmatter (sometimes malformed), with :only and :separator in any position: the one raw string is the expected HTML (for arbitrary text: that of the text alone), and exactly the frontmatter's paths are defined, or an error. Non-trivial: the HTML is not empty or something is defined."
    }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 12_000_000 } else { 450_000 } }
    fn run(&self, s: &mut Src, cx: &mut Cx) -> R {
        // ---- the text
        let (body, html) = match s.weighted(&[5, 2, 2]) {
            0 => { let (m, h) = document(s); (m, Some(h)) },
            1 => (any_text(s, 60), None),
            _ => (soup(s, &["# ", "* ", "- ", "1. ", "> ", "|", "| --- |", "\n\n", "    ", "`", "```\n", "[a]", "(u)", "![", "<b>", "</b>", "&amp;", "**", "_", "---\n", "\n---\n", "\n+++\n", "a: 1\n", "~~", "  \n"], 25), None),
        };
        if body.starts_with('\u{feff}') { return discard("byte order mark"); }
        if ["---", "+++"].iter().any(|f| body.trim_start_matches('\r').starts_with(f)) { return discard("text opens like frontmatter"); }
        // ---- the frontmatter
        let sep = separator(s);
        let mut broken = false;
        let mut want: Vec<(String, N)> = vec![];
        let kind = s.weighted(&[3, 4, 3, 1]);
        let front = match kind {
            0 => None,
            1 => {
                let d = yaml_data(s, 3, false, false);
                let p = if s.chance(1, 8) { Some((1 + s.below(6), s.pick(&["*x", "@c"]))) } else { None };
                let (mut t, hit) = yaml_document(s, &d, p, false);
                // The last line ending belongs to the fence, so it should not matter.
                if t.contains(['|', '>']) { t += "# end\n"; }
                broken = hit;
                let Some(w) = definitions(&stringly(&d), &sep.0) else { return discard("two paths read the same") };
                want = w;
                if t.lines().any(|l| l.starts_with("---")) { return discard("fence in the frontmatter"); }
                Some(format!("---\n{t}---"))
            },
            2 => {
                let t = { let d = 1 + s.below(3); toml_table(s, d) };
                let mut text = toml_document(s, &t);
                if s.chance(1, 8) { broken = true; text = format!("zz zz = 1\n{text}"); }
                if !text.ends_with('\n') && !text.is_empty() { text.push('\n'); }
                let Some(w) = definitions(&toml_data(&t), &sep.0) else { return discard("two paths read the same") };
                want = w;
                if text.lines().any(|l| l.starts_with("+++")) { return discard("fence in the frontmatter"); }
                Some(format!("+++\n{text}+++"))
            },
            _ => Some(s.pick(&["---\n---", "+++\n+++", "---\n# comment\n---"]).to_owned()),
        };
        let blanks = if s.chance(1, 6) { s.pick(&[" ", "\t", " \t ", "\t\t"]) } else { "" };
        let end = if s.chance(1, 6) { "\r\n" } else { "\n" };
        let mark = if s.chance(1, 16) { "\u{feff}" } else { "" };
        let text = match &front {
            None => body.clone(),
            Some(f) => {
                let f = if s.chance(1, 6) { format!("{mark}{}{}{}{}", &f[..3], s.pick(&[" ", "\t", "", "  "]), s.pick(&["\r\n", "\n"]), &f[4..]) } else { format!("{mark}{f}") };
                if body.is_empty() { f + blanks } else { format!("{f}{blanks}{end}{body}") }
            },
        };
        let only = s.pick(&["both", "both", "content", "frontmatter"]);
        let has = front.is_some();
        let fence = |f: &Option<String>| f.as_deref().map_or("no frontmatter", |f| if f.starts_with('-') { "YAML frontmatter" } else { "TOML frontmatter" }).to_owned();
        cx.label(&fence(&front));
        cx.label(&format!("only {only}"));
        // ---- the calls
        let args = |s: &mut Src, text: &str, only: &str, sep: &Sep| {
            let mut a = vec![st(text)];
            if only != "both" { let i = s.below(a.len() + 1); a.insert(i, at("only", if s.chance(1, 2) { sym(only) } else { st(only) })); }
            if let Some(g) = &sep.1 { let i = s.below(a.len() + 1); a.insert(i, at("separator", g.clone())); }
            call("markdown", a)
        };
        let c = args(s, &text, only, &sep);
        let blank = s.pick(&["", " ", "\n  "]);
        let plain = |g: &[G]| { let mut z = Src::replay(&[]); render(&mut z, g, Layout::Plain, "<stdin>").0 };
        let value = format!("{blank}{}", plain(&[c.clone()]));
        let mut names = vec![call("define", vec![sym("the-value"), c.clone()])];
        let shown = only != "content" && !broken;
        for (n, _) in &want { names.push(if shown { ls(vec![sym("d"), sym(format!("%{n}"))]) } else { call("ifdef", vec![st(n.clone()), sym("defined"), sym("not")]) }); }
        let defs = plain(&names);
        about_to_run(s, cx, format!("{text}\n---\n{value}\n---\n{defs}"));
        // ---- what is made
        let fails = only == "frontmatter" && (!has || broken);
        let got = seam_expand(&value, &Env::default());
        if fails { return match got { Err(_) => { cx.label("rejected"); Ok(()) }, Ok(t) => bad(format!("must be rejected, but gives {}", show_all(&t))) }; }
        let t = match got { Ok(t) => t, Err(e) if html.is_none() && unsupported(&e) => return discard("the Markdown library does not handle this text"), Err(e) => return bad(format!("rejected: {}", e.msg)) };
        if s.chance(1, 6) {
            // What was there before stays.
            let (src, clash) = (format!("(%define kept k)(%define (kept-f x) %x){value} (%kept-f %kept)"), want.iter().any(|w| w.0 == "kept" || w.0 == "kept-f"));
            match seam_expand(&src, &Env::default()) {
                _ if clash => {},
                Ok(t) if matches!(t.last(), Some(N::Sym(a)) if a.val == "k") => cx.label("earlier definitions"),
                r => return bad(format!("earlier definitions are gone: {r:?}")),
            }
        }
        if only == "frontmatter" {
            if !t.is_empty() { return bad(format!("must give nothing, but gives {}", show_all(&t))); }
        } else {
            let [N::Raw(a)] = &t[..] else { return bad(format!("must give one raw string, but gives {}", show_all(&t))) };
            if a.ws != blank { return bad(format!("blanks before are {:?}, expected {blank:?}", a.ws)); }
            let want = match html {
                Some(h) => h,
                None => match seam_expand(&plain(&[call("markdown", vec![st(body.clone())])]), &Env::default()).as_deref() {
                    Ok([N::Raw(a)]) => a.val.clone(),
                    Err(e) if unsupported(e) => return discard("the Markdown library does not handle this text"),
                    r => return bad(format!("the text alone gives {r:?}")),
                },
            };
            // The kind of line endings made up by the renderer depends on the first one in the text.
            let lines = |t: &str| t.replace("\r\n", "\n").replace('\r', "\n").trim_end_matches('\n').to_owned();
            if lines(&a.val) != lines(&want) { return bad(format!("HTML is {:?}\nexpected {:?}", a.val, want)); }
            cx.nontrivial = !a.val.is_empty();
            if s.chance(1, 4) {
                let f = s.choose(&[Fmt::Html, Fmt::Xml, Fmt::Text]);
                match seam_out(&value, f, false, &Env::default()) {
                    Ok(o) if o.trim_start() == a.val.trim_start() => {},
                    r => return bad(format!("{} output is {r:?}, expected {:?}", f.name(), a.val)),
                }
            }
        }
        // ---- what is defined
        cx.nontrivial |= shown && !want.is_empty();
        if shown { return check_definitions(&defs, &want, kind == 2); }
        if only == "content" {
            return match seam_expand(&defs, &Env::default()) {
                Ok(t) if t.len() == want.len() && t.iter().zip(&want).all(|(n, w)| BUILTINS.contains(&w.0.as_str()) || n.sym().is_some_and(|a| a.val == "not")) => Ok(()),
                r => bad(format!(":only content must define nothing: {r:?}")),
            };
        }
        Ok(())
    }
}
