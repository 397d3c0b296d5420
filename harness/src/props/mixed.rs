//! Sources of every sort, well-formed or not, for the properties that hold for any source.

use super::{calls, data, errors, formats, sort, time};
use crate::engine::*;
use crate::gen::*;
use crate::mark;
use crate::model::{expand::*, reader, tree::N};
use crate::prog::*;
use crate::util::*;
use std::collections::{HashMap, HashSet};

const EVERYTHING: &[(&str, u64)] = &[("top-define", 4), ("top-deffun", 5), ("var", 10), ("call", 10), ("map", 4), ("filter", 4), ("apply", 4), ("match", 5), ("lambda-call", 4), ("lambda", 3), ("for", 4), ("namespace", 3), ("top-namespace", 3), ("data", 3), ("include", 3), ("embed", 1), ("sort", 3), ("kw-param", 4), ("nest-param", 3), ("ifdef", 4)];

/// What included files hold (the same in every case, so they are written once).
pub const FILES: &[(&str, &str)] = &[
    ("inc.sex", "(p included) (%define from-inc (a :k \"v\") b)\n"),
    ("inc2.sex", "(%define (inc-fun x &r) (%list %x (%splat %r)))\n(%include inc) (%inc-fun 1 2 3)"),
    ("broken.sex", "(a (b \"c"),
    ("fails.sex", "(%define ok 1) text\n (%join (a) %missing)"),
    ("empty.sex", ""),
    ("bin.dat", "\u{0}\r\n\t\"é\u{feff}"),
];
const INCLUDES: &[&str] = &["inc", "inc.sex", "inc2", "broken", "fails.sex", "empty", "bin.dat", "nosuch"];

pub fn files() {
    for (n, t) in FILES {
        if !std::path::Path::new(n).exists() {
            std::fs::write(n, t).unwrap();
        }
    }
}

/// Any node, built-in calls with any arguments included.
fn wild(s: &mut Src, d: usize) -> G {
    match s.weighted(&[6, 3, if d > 0 { 8 } else { 0 }, if d > 0 { 3 } else { 0 }, 2, 1, 1]) {
        0 => sym(s.pick(&["a", "b", "x", "in", "&r", "&&o", "%x", "%f", "&", "%", "0", "-1", "1.5", "99999999999999999999", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "4294967296", "-", "do", "list", "f", "nan", "1e9", "html", "style", "pre", "@media", "!doctype", "?x"])),
        1 => st(s.pick(&["", "a", "{}", "{k}", "{0}", "{:>5}", "{:65535}", "{:65536}", "{} {:*<99999}", "{:.70000}", "{", "}}", "%Y", "%s", "%", "1", "a: b", "[1]", "a = 1", "---\na: 1\n---\n# b", "-", "x/y", "é字", "<", "\u{0}", "\n", "x-y:z", "nosuch*", "["])),
        2 => wild_call(s, d - 1),
        3 => ls(s.many(0, 4, 2, |s| wild(s, d - 1))),
        4 => { let k = s.pick(&["k", "x", "order", "key", "separator", "type", "sort", "trailing", "timezone", "only", "", "a/b"]); at(k, wild(s, d)) },
        5 => st(any_text(s, 12)),
        _ => sym(any_symbol(s)),
    }
}
fn wild_call(s: &mut Src, d: usize) -> G {
    let name = if s.chance(1, 8) { s.pick(&["f", "g", "x", "nosuch", "f/g", ""]) } else { s.pick(BUILTINS) };
    let mut v = match s.below(3) {
        0 => { let (mut v, o) = calls::good(s, if BUILTINS.contains(&name) { name } else { "list" }); for (k, g) in o { let i = s.below(v.len() + 1); v.insert(i, at(k, g)); } v },
        _ => s.many(0, 5, 2, |s| wild(s, d)),
    };
    if s.chance(1, 3) && !v.is_empty() { let i = s.below(v.len()); v[i] = wild(s, d); }
    if s.chance(1, 4) { calls::twist(s, &mut v); }
    if matches!(name, "define" | "lambda") && s.chance(1, 2) {
        let mut head = if name == "define" { vec![sym(s.pick(&["f", "g"]))] } else { vec![] };
        head.extend(s.many(0, 3, 2, |s| s.choose(&[sym("x"), sym("&r"), sym("&&o"), at("k", sym("1")), ls(vec![sym("y"), sym("z")]), sym("y"), st("lit"), sym("&"), sym("5")])));
        if v.is_empty() { v.push(ls(head)); } else { v[0] = ls(head); }
    }
    if matches!(name, "include" | "embed") && s.chance(1, 2) { v = vec![sym(s.pick(INCLUDES))]; }
    call(name, v)
}

fn one(s: &mut Src) -> (String, &'static str) {
    let plain = |s: &mut Src, g: Vec<G>| { let l = layout(s); render(s, &g, l, "<stdin>").0 };
    match s.weighted(&[10, 8, 4, 8, 12, 6, 4, 6, 4, 4, 2, 2, 3]) {
        0 => {
            let w = s.choose(&[0, 40, 12, 5]);
            let mut p = Pg::new(EVERYTHING, w);
            p.files = INCLUDES.iter().map(|n| (n.to_string(), Exports::default())).collect();
            let g = p.program(s);
            (plain(s, g), "program")
        },
        1 => { let w = s.choose(&[0, 20, 6]); let html = s.chance(2, 3); let mut m = mark::Mk::new(html, w, 20); let g = m.nodes(s, 4, 6); (plain(s, g), "markup") },
        2 => { let g = match s.below(4) { 0 => formats::gen_special(s), 1 => formats::gen_document(s), 2 => formats::gen_xml(s), _ => formats::gen_escape(s) }; (plain(s, g), "document") },
        3 => { let g = formats::gen_css(s); (plain(s, g), "style sheet") },
        4 => { let mut g = s.many(1, 4, 2, |s| wild_call(s, 2)); if s.chance(1, 3) { g.insert(0, call("define", vec![ls(vec![sym("f"), sym("x"), sym("&r")]), wild(s, 1)])); } (plain(s, g), "calls") },
        5 => {
            let t = match s.below(6) {
                0 => { let d = data::yaml_data(s, 3, true, false); data::yaml_document(s, &d, None, true).0 },
                1 => { let t = data::toml_root(s); data::toml_document(s, &t) },
                2 => data::document(s).0,
                3 => s.pick(data::BAD_YAML).to_owned(),
                4 => s.pick(data::BAD_TOML).to_owned(),
                _ => any_text(s, 40),
            };
            let t = match s.below(4) { 0 => mutate(s, &t), 1 => format!("---\n{t}\n---\n{}", data::document(s).0), 2 => format!("+++\n{t}\n+++\nx"), _ => t };
            let mac = s.pick(&["yaml", "json", "toml", "markdown"]);
            let c = call(mac, vec![st(t)]);
            (plain(s, vec![c]), "data")
        },
        6 => { let (g, _, _) = sort::gen(s); (plain(s, g), "sort") },
        7 => { let (g, ..) = errors::fault(s); let mut v = vec![g]; if s.chance(1, 2) { v.insert(0, sym("a")); v.push(ls(vec![sym("b")])); } (plain(s, v).replace("FAULT", s.pick(&["a", "é", "", "html"])), "fault") },
        8 => {
            let names: Vec<String> = BUILTINS.iter().map(|b| format!("(%{b} ")).collect();
            let mut extra: Vec<&str> = names.iter().map(|n| n.as_str()).collect();
            extra.extend(["%x", "&r", "in", "(f x)", "html", "(style ", "@media", ")", ")", "\"", ":order", "%f"]);
            (soup(s, &extra, 60), "tokens")
        },
        9 => (any_text(s, 60), "text"),
        12 => { let g = s.many(1, 2, 1, time::any_call); (plain(s, g), "dates") },
        10 => { let d = s.below(4); let g = forest(s, d); (plain(s, g), "tree") },
        _ => {
            let deep = s.chance(1, 3);
            let n = s.below(if deep { 120 } else { 30 });
            let shapes: Vec<&str> = s.many(1, 4, 2, |s| s.pick(&["(", "(p ", "(%do ", "(%list ", ":k ", "(%splat ", "(%ifdef do ", "(%define x ", "(%namespace n ", "(%map do ", "(%for x in (1) ", "(%match 1 (x ", "(%concat ", "(svg ", "(%reverse ", "(%apply do "]));
            // Calls of functions, too.
            let defs = s.chance(1, 2);
            let shapes = if defs { [shapes, s.many(1, 3, 1, |s| s.pick(&["(%f ", "(%g ", "(%f a ", "(%g (%f) ", "(%h :k "]))].concat() } else { shapes };
            let mut t = if defs { "(%define (f &r) %r)(%define (g x) (q %x))(%define (h :k (%f)) (%f %k) (%define k 2) %k)".to_owned() } else { String::new() };
            let mut closing = String::new();
            for i in 0..n { let o = shapes[i % shapes.len()]; t += o; closing.push_str(&")".repeat(o.matches('(').count() - o.matches(')').count())); }
            let inner = wild(s, 1);
            t += &plain(s, vec![inner]);
            t += &closing;
            (t, "nested")
        },
    }
}

/// A source, and what it is.
pub fn source(s: &mut Src) -> (String, &'static str) {
    let (mut t, mut what) = one(s);
    if s.chance(1, 4) { let (u, w) = one(s); what = w; t = format!("{t}{}{u}", s.pick(&["\n", " ", ""])); }
    if s.chance(2, 5) { t = mutate(s, &t); what = "damaged"; }
    (t, what)
}

/// Things which are not allowed to touch what lies outside of the scratch directory, or simply take long.
fn reaches_out(t: &str) -> bool {
    let t = t.replace('\\', "");
    if ["dev", "proc", "/sys", "..", "stdin", "stdout", "/tmp"].iter().any(|x| t.contains(x)) { return true; }
    if t.contains("glob") && t.contains("/") { return true; }
    // Wide formats and far-off indices.
    let mut run = 0;
    if t.contains('{') { for c in t.chars() { run = if c.is_ascii_digit() { run + 1 } else { 0 }; if run >= 4 && t.contains("format") && t.len() > 200 { return true; } } }
    false
}

/// Whether a function may come to call itself, in a program the model cannot follow to the end.
fn may_recur(t: &[N]) -> bool {
    fn atoms(n: &N, out: &mut HashSet<String>) {
        match n {
            N::List { kids, .. } => for k in kids { atoms(k, out) },
            N::Attr { val, .. } => atoms(val, out),
            n => { if let Some(a) = n.atom() { out.insert(a.val.trim_start_matches('%').to_owned()); } },
        }
    }
    fn defs(t: &[N], out: &mut HashMap<String, HashSet<String>>) {
        for n in t {
            match n {
                N::List { kids, .. } => {
                    if kids.first().and_then(N::sym).is_some_and(|a| a.val == "%define") {
                        let name = match kids.get(1) { Some(N::List { kids, .. }) => kids.first(), n => n };
                        if let Some(a) = name.and_then(|n| n.atom()) {
                            let e = out.entry(a.val.clone()).or_default();
                            for k in &kids[1..] { if let N::List { kids: h, .. } = k { for k in h.iter() { atoms(k, e); } } else { atoms(k, e); } }
                            if !matches!(kids.get(1), Some(N::List { .. })) { e.remove(&a.val); } else {
                                let body: HashSet<String> = { let mut b = HashSet::new(); for k in &kids[2..] { atoms(k, &mut b); } b };
                                if !body.contains(&a.val) { e.remove(&a.val); }
                            }
                        }
                    }
                    defs(kids, out);
                },
                N::Attr { val, .. } => defs(std::slice::from_ref(&**val), out),
                _ => {},
            }
        }
    }
    let mut d = HashMap::new();
    defs(t, &mut d);
    d.keys().any(|start| {
        let (mut seen, mut todo) = (HashSet::new(), vec![start.clone()]);
        while let Some(n) = todo.pop() {
            for (k, body) in &d {
                if *k == n || n.ends_with(k.as_str()) {
                    for b in body { if b == start || b.ends_with(start.as_str()) { return true; } if seen.insert(b.clone()) { todo.push(b.clone()); } }
                }
            }
        }
        false
    })
}

/// Is the source within the bounds (nesting, recursion, sizes)? The reason if not.
pub fn bounded(src: &str, includes: &[std::path::PathBuf]) -> Result<(), Fail> {
    if reaches_out(src) { return discard("reaches outside of the scratch directory, or is large on purpose"); }
    let mut depth = 0usize;
    for c in src.chars() { if c == '(' || c == ':' { depth += 1; } if depth > 2000 { return discard("nested too deeply"); } }
    let Ok(tree) = reader::read(src, "<stdin>") else { return Ok(()) };
    for fine in [true, false] {
        let mut m = Model { opaque: Some(fine), ..Model::default() };
        m.includes.extend(includes.iter().cloned());
        if let Err(Stop::Fuel) = m.program(&tree) { return discard("too many steps"); }
        if !m.opaque_used { break; }
        if fine && may_recur(&tree) { return discard("may recur"); }
    }
    Ok(())
}

/// A random source within bounds.
pub fn program(s: &mut Src, cx: &mut Cx) -> Result<String, Fail> {
    let (src, what) = source(s);
    about_to_run(s, cx, &src);
    bounded(&src, &[])?;
    cx.label(what);
    Ok(src)
}

pub fn format(s: &mut Src) -> (Fmt, bool) { (s.choose(&[Fmt::Html, Fmt::Text, Fmt::Sexp, Fmt::Xml, Fmt::Css]), s.chance(1, 2)) }
