//! C28: which calls of built-in macros are accepted.

use super::expand::check_program;
use crate::engine::*;
use crate::gen::*;
use crate::model::expand::BUILTINS;
use crate::util::*;
use std::collections::HashMap;

pub struct C28;

/// A list which is not a call.
fn lst(s: &mut Src) -> G { let n = s.below(4); ls((0..n).map(|i| sym(if i == 0 { "h".to_owned() } else { format!("i{i}") })).collect()) }
fn lit(s: &mut Src) -> G {
    match s.below(5) { 0 => sym(s.pick(&["a", "b", "name"])), 1 => sym(s.pick(&["0", "1", "-2", "1.5"])), 2 => st(s.pick(&["text", "", "x y"])), 3 => call("raw", vec![st("r")]), _ => sym("c") }
}
fn any(s: &mut Src) -> G { match s.below(6) { 0 | 1 => lst(s), 2 => at(s.pick(&["k", "x"]), lit(s)), _ => lit(s) } }
fn anys(s: &mut Src) -> Vec<G> { let n = s.below(4); (0..n).map(|_| any(s)).collect() }
fn lits(s: &mut Src) -> Vec<G> { let n = s.below(4); (0..n).map(|_| lit(s)).collect() }
fn word_of(s: &mut Src, v: &[&str]) -> G { let t = s.pick(v); if s.chance(1, 3) { st(t) } else { sym(t) } }
fn string(s: &mut Src, t: &str) -> G { if s.chance(1, 6) { call("raw", vec![st(t)]) } else { st(t) } }

/// A call that must be accepted: its positional arguments and its options.
pub(super) fn good(s: &mut Src, name: &str) -> (Vec<G>, Vec<(&'static str, G)>) {
    let sep = |s: &mut Src| ("separator", s.choose(&[st("."), sym("-"), st("::"), sym("1"), st("/")]));
    let mut o: Vec<(&'static str, G)> = vec![];
    let v = match name {
        "markdown" => {
            if s.chance(1, 2) { o.push(("only", word_of(s, &["content", "frontmatter"]))); }
            if s.chance(1, 2) { o.push(sep(s)); }
            vec![string(s, "---\na: 1\n---\n# x")]
        },
        "yaml" | "json" => { if s.chance(1, 2) { o.push(sep(s)); } vec![string(s, "{\"a\": [1]}")] },
        "toml" => { if s.chance(1, 2) { o.push(sep(s)); } vec![string(s, "a = [1]")] },
        "get" => {
            if s.chance(1, 2) { o.push(sep(s)); }
            let p = s.choose(&[sym("0"), st("2"), sym("k"), st("k")]);
            vec![p, ls(vec![sym("a"), at("k", sym("v")), sym("b"), sym("c")])]
        },
        "date" => {
            if s.chance(1, 2) { o.push(("timezone", sym(s.pick(&["5", "-1.5", "0"])))); }
            let mut v = vec![s.choose(&[st("%Y"), st("x"), sym("y"), sym("7")])];
            if s.chance(3, 4) { v.push(sym(s.pick(&["0", "-1", "1000"]))); }
            v
        },
        "timestamp" => { if s.chance(1, 2) { o.push(("timezone", sym(s.pick(&["5", "-1.5", "0"])))); } vec![st("%s"), s.choose(&[st("5"), sym("5")])] },
        "for" => {
            let items = match s.below(3) { 0 => lst(s), 1 => ls(vec![]), _ => call("list", vec![]) };
            let p = sym(s.pick(&["x", "y"]));
            let mut v = vec![p, sym("in"), if matches!(&items, G::List(v) if v.first() == Some(&sym("%list"))) { ls(vec![sym("q")]) } else { items }];
            v.extend(anys(s));
            v
        },
        "glob" => {
            if s.chance(1, 2) { o.push(("type", word_of(s, &["file", "directory", "any"]))); }
            if s.chance(1, 2) { o.push(("sort", word_of(s, &["modified", "created", "name", "type", "none"]))); }
            if s.chance(1, 2) { o.push(("order", word_of(s, &["ascending", "descending"]))); }
            vec![s.choose(&[st("nosuch*"), sym("nosuch"), sym("1")])]
        },
        "number" | "symbol" | "concat" | "string" | "raw" => lits(s),
        "log" => if s.chance(1, 20) { lits(s) } else { vec![] },
        "reverse" => vec![lst(s)],
        "sort" => {
            if s.chance(1, 2) { o.push(("order", word_of(s, &["ascending", "descending"]))); }
            if s.chance(1, 2) { o.push(("key", sym(s.pick(&["do", "concat", "symbol"])))); }
            vec![lst(s)]
        },
        "join" => { if s.chance(1, 2) { o.push(("trailing", word_of(s, &["true", "false"]))); } let mut v = vec![lit(s)]; v.extend(lits(s)); v },
        "map" => { let mut v = vec![sym(s.pick(&["do", "list", "splat"]))]; v.extend(anys(s)); v },
        "filter" => { let mut v = vec![sym(s.pick(&["do", "list"]))]; v.extend(anys(s)); v },
        "apply" => { let mut v = vec![sym(s.pick(&["do", "list", "strip"]))]; v.extend(anys(s)); v },
        "lambda" => { let mut v = vec![s.choose(&[sym("x"), ls(vec![]), ls(vec![sym("x"), sym("&r"), at("k", sym("1"))])])]; v.extend(anys(s)); v },
        "define" => { let mut v = vec![s.choose(&[sym("name"), ls(vec![sym("fun"), sym("x")]), ls(vec![sym("fun")])])]; v.extend(anys(s)); v },
        "ifdef" => { let mut v = vec![s.choose(&[sym("x"), st("do"), sym("1")]), any(s)]; if s.chance(1, 2) { v.push(any(s)); } v },
        "match" => {
            let mut v = vec![any(s)];
            let n = s.below(3);
            for _ in 0..n { let mut p = vec![s.choose(&[sym("x"), ls(vec![]), sym("1"), st("text")])]; p.extend(anys(s)); v.push(ls(p)); }
            v
        },
        "do" | "splat" | "list" | "strip" => anys(s),
        "include" => vec![s.choose(&[sym("inc.sex"), st("inc.sex"), sym("inc")])],
        "embed" => vec![s.choose(&[sym("inc.sex"), st("inc.sex")])],
        "namespace" => {
            let mut v = vec![s.choose(&[sym("ns"), st("n s"), sym("5")])];
            if s.chance(1, 2) { let x = sep(s); v.push(at(x.0, x.1)); }
            // The body must not begin with what looks like an option.
            let mut b = anys(s);
            while matches!(b.first(), Some(G::Attr(..))) { b.remove(0); }
            v.extend(b);
            v
        },
        "format" => match s.below(3) { 0 => vec![st("none")], 1 => vec![st("{} {k}"), lit(s), at("k", lit(s))], _ => vec![st("{:>5}"), lit(s)] },
        "os/env" => vec![s.choose(&[sym("HOME"), st("HOME")])],
        _ => unreachable!(),
    };
    (v, o)
}

/// A word which is almost the same.
fn near(s: &mut Src, g: &G) -> G {
    let (t, quoted) = match g { G::Sym(t) => (t, false), G::Str(t) => (t, true), g => return g.clone() };
    let c: Vec<char> = t.chars().collect();
    if c.is_empty() || t.starts_with('%') { return sym("x"); }
    let i = s.below(c.len());
    let t = match s.below(9) {
        0 => t.to_uppercase(), 1 => format!("{}{}", c[0].to_uppercase(), &c[1..].iter().collect::<String>()),
        2 => c[..i.max(1)].iter().collect(), 3 => c[..3.min(c.len())].iter().collect(), 4 => c[..4.min(c.len())].iter().collect(),
        5 => format!("{t}s"), 6 => t.strip_suffix("ending").map_or("of", |_| if t.starts_with('a') { "asc" } else { "desc" }).to_owned(),
        7 => s.pick(&["desc", "asc", "of", "dir", "all", "files", "both", "size", "date", "yes", "no", "front", "body", "ascend", "descend", "reverse", "mtime", "0", "random"]).to_owned(),
        _ => format!("{}{}", c[i], t),
    };
    if quoted { st(t) } else { sym(t) }
}

pub(super) fn twist(s: &mut Src, v: &mut Vec<G>) -> &'static str {
    let i = s.below(v.len() + 1);
    match s.below(10) {
        9 if !v.is_empty() => {
            let i = i.min(v.len() - 1);
            let g = match s.below(3) { 0 => call("do", vec![]), 1 => call("do", vec![v[i].clone(), any(s)]), _ => call("splat", vec![ls(vec![lit(s), lit(s)])]) };
            match &mut v[i] { G::Attr(_, x) => **x = g, G::List(l) if !l.is_empty() && s.chance(2, 3) => { let j = if s.chance(1, 2) { 0 } else { s.below(l.len()) }; l[j] = g }, x => *x = g }
            "several or none"
        },
        0 if !v.is_empty() => { v.remove(i.min(v.len() - 1)); "left out" },
        1 => { let g = any(s); v.insert(i, g); "one more" },
        2 => { let g = lit(s); v.push(g); "one more at the end" },
        3 => { let k = s.pick(&["order", "separator", "only", "trailing", "timezone", "key", "type", "sort", "unknown", "Order", "sep", "in"]); let g = at(k, s.choose(&[sym("ascending"), sym("true"), st("x"), sym("1"), ls(vec![])])); v.insert(i, g); "another option" },
        4 if !v.is_empty() => { let i = i.min(v.len() - 1); v[i] = any(s); "another argument" },
        5 | 6 if !v.is_empty() => {
            // Another kind of the same thing.
            let i = i.min(v.len() - 1);
            let swap = |s: &mut Src, g: &G| match g { G::Sym(t) if s.chance(1, 2) => st(t.clone()), G::Str(t) if s.chance(1, 2) => sym(if t.is_empty() { "e".to_owned() } else { t.replace('%', "p") }), g => ls(vec![sym("h"), g.clone()]) };
            v[i] = match &v[i] {
                // (Of something within.)
                G::List(l) if !l.is_empty() && s.chance(1, 2) => { let mut l = l.clone(); let j = s.below(l.len()); l[j] = swap(s, &l[j]); ls(l) },
                G::Attr(k, g) => at(k.clone(), swap(s, g)), g => swap(s, g) };
            "another kind"
        },
        7 if !v.is_empty() => {
            let i = i.min(v.len() - 1);
            match &mut v[i] { G::Sym(t) if t == "in" => { v[i] = near(s, &sym("in")); "another word" }, G::Attr(k, g) => { if s.chance(1, 2) { **g = s.choose(&[sym("wrong"), st(""), sym("1"), sym("-"), G::clone(g)]); if s.chance(2, 3) { **g = near(s, g); } } else { k.push('s'); } "another option value" }, _ => "same" }
        },
        8 if v.len() > 1 => { let j = s.below(v.len()); { let i = i.min(v.len() - 1); v.swap(i, j) }; "swapped" },
        _ => "same",
    }
}

impl Prop for C28 {
    fn id(&self) -> &'static str { "C28" }
    fn rule(&self) -> &'static str {
        "For every built-in macro, random calls that fit its documented arguments (options in any position, arguments literal or through variables), and the same with one or two things wrong (left out, added, another kind, another option or value, swapped), placed at the top, in a list, an attribute or another macro: accepted exactly when they fit, with the value of the reference expander where it has one. Non-trivial: every case; classes count accepted and rejected calls."
    }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 60_000_000 } else { 2_000_000 } }
    fn run(&self, s: &mut Src, cx: &mut Cx) -> R {
        let name = s.pick(BUILTINS);
        let (mut v, o) = good(s, name);
        for (k, g) in o { let i = s.below(v.len() + 1); v.insert(i, at(k, g)); }
        let mut how = "fits";
        let n = s.choose(&[0, 1, 1, 2]);
        for _ in 0..n { match twist(s, &mut v) { "same" => {}, h => how = h } }
        // The same option twice is not specified.
        let keys: Vec<&String> = v.iter().filter_map(|g| match g { G::Attr(k, _) => Some(k), _ => None }).collect();
        if keys.iter().enumerate().any(|(i, k)| keys[..i].contains(k)) && !matches!(name, "do" | "list" | "splat" | "strip" | "map" | "filter" | "apply" | "match" | "lambda" | "define" | "for") { return discard("option given twice"); }
        let lazy = matches!(name, "define" | "lambda" | "ifdef" | "match" | "for" | "namespace");
        let mut g = vec![];
        // Through variables.
        if !lazy { for i in 0..v.len() { if s.chance(1, 10) { let n = format!("v{i}"); g.push(call("define", vec![sym(n.clone()), v[i].clone()])); v[i] = sym(format!("%{n}")); } } }
        // What is called almost like a built-in is none.
        let strange = if s.chance(1, 50) {
            match near(s, &sym(name)) { G::Sym(t) if !BUILTINS.contains(&t.as_str()) && s.chance(2, 3) => Some(t), _ => Some(s.pick(&["print", "if", "let", "case", "set", "def", "fn", "quote", "eval", "import", "use", "first", "last", "length", "nth", "count", "echo", "env", "os/", "now", "time", "when", "unless", "begin", "progn", "cond", "else", "or", "and", "not", "eq", "rest", "append", "csv", "html", "xml", "text", "css", "shell", "exec", "read", "write", "random", "version", "debug", "error", "assert", "", "%do", "/"]).to_owned()) }
        } else { None };
        if strange.is_some() { how = "another name"; }
        let c = call(strange.as_deref().unwrap_or(name), v);
        g.push(match s.below(8) { 0 => ls(vec![sym("p"), c]), 1 if !matches!(name, "glob" | "markdown") => ls(vec![sym("p"), at("k", c)]), 2 => call("do", vec![sym("a"), c]), 3 => call("define", vec![sym("later"), c]), 4 => call("list", vec![sym("a"), c]), _ => c });
        let (src, _) = render(s, &g, Layout::Plain, "<stdin>");
        if !std::path::Path::new("inc.sex").exists() { std::fs::write("inc.sex", "included (p x)").unwrap(); }
        about_to_run(s, cx, &src);
        cx.nontrivial = true;
        cx.label(&format!("%{name}"));
        cx.label(how);
        match check_program(&src, HashMap::new(), &Env::default(), cx) {
            Ok(_) => Ok(()),
            Err(Fail::Discard("not modelled" | "data")) if how == "fits" => match seam_expand(&src, &Env::default()) {
                Ok(_) => { cx.label("expanded"); Ok(()) },
                Err(e) => bad(format!("must be accepted: {}", e.msg)),
            },
            Err(e) => Err(e),
        }
    }
}
