//! Generator of macro programs which mostly make sense.

use crate::engine::*;
use crate::gen::*;
use crate::model::expand::Data;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K { Atom, List, Items }

#[derive(Clone, Debug)]
pub enum P { Pos(String, K), Lit(G), Nest(Vec<P>), Kw(String, G), Rest(String), KwRest(String) }

#[derive(Clone, Debug)]
pub struct Fun { pub name: String, pub params: Vec<P>, pub ret: K }

/// What including a file makes available.
#[derive(Clone, Default)]
pub struct Exports(Env);

#[derive(Clone, Default)]
struct Env {
    vars: Vec<(String, K)>, funs: Vec<Fun>,
    /// Variables holding lambdas, with the number of items they take.
    lams: Vec<(String, usize)>,
}

pub struct Pg {
    env: Env,
    focus: &'static [(&'static str, u64)],
    /// One in this many choices ignores what fits (0: never).
    pub wild: u64,
    pub data: HashMap<String, Data>,
    /// Files which may be included: how they are written, and what they define.
    pub files: Vec<(String, Exports)>,
    /// Whatever got defined so far, anywhere.
    seen: Vec<String>,
    budget: i64,
}

const VARS: &[&str] = &["a", "b", "x", "y", "n", "v/w", "é", "item"];
const FUNS: &[&str] = &["f", "g", "h", "my/fun", "wrap"];
const BUILT_IN: &[&str] = &["list", "do", "concat", "string", "get", "define", "sort", "map", "reverse", "filter", "for", "splat", "join", "format", "match", "ifdef", "apply", "strip", "raw", "number", "symbol", "namespace", "json", "yaml", "log", "include", "embed", "glob", "date", "markdown", "lambda"];
/// Names which are seldom used, but names all the same.
const ODD: &[&str] = &["_", "X", "A", "N", "it", "name", "x ", "a\\b", "print", "if", "let", "set", "var", "case", "Do", "Splat", "List", "true", "false", "nil", "null", "else", "in", "self", "this", "x*", "a.b", "a:b", "F", "G", "Wrap", "f'", "xx", "\u{c9}", "v/", "/v", "v/w/x", "args", "body", "key"];
fn var_name(s: &mut Src) -> &'static str { if s.chance(1, 25) { s.pick(ODD) } else { s.pick(VARS) } }
fn fun_name(s: &mut Src) -> &'static str { if s.chance(1, 25) { s.pick(ODD) } else { s.pick(FUNS) } }
/// A name which is almost this one.
fn almost(s: &mut Src, name: &str) -> String {
    match s.below(6) {
        0 => name.to_uppercase(), 1 => name.to_lowercase(), 2 => format!("{name} "), 3 => format!("{name}s"),
        4 => { let mut t = name.to_owned(); t.pop(); t },
        _ => { let mut c = name.chars(); match c.next() { Some(f) => f.to_uppercase().chain(c).collect(), None => String::new() } },
    }
}
const KWS: &[&str] = &["k", "id", "opt", "x", "sep"];

impl Pg {
    pub fn new(focus: &'static [(&'static str, u64)], wild: u64) -> Self {
        Pg { env: Env::default(), focus, wild, data: HashMap::new(), files: vec![], seen: vec![], budget: 120 }
    }
    fn w(&self, name: &str, default: u64) -> u64 { self.focus.iter().find(|(n, _)| *n == name).map_or(default, |(_, w)| *w) }
    fn go_wild(&self, s: &mut Src) -> bool { self.wild > 0 && s.chance(1, self.wild) }

    pub fn literal(&mut self, s: &mut Src) -> G {
        match s.weighted(&[5, 3, 4, 1]) {
            0 => sym(s.pick(&["a", "b", "foo", "hello", "p", "字", "x-y", "*"])),
            1 => sym(s.pick(&["0", "1", "2", "10", "-3", "1.5", "+7", "007"])),
            2 => st(s.pick(&["", "one", "two words", " lead", "q\"uote", "<b>&amp;", "\u{2800}", "\u{2801} \u{2802}", "line\nbreak", "%x", "{}", "tab\t", "back\\slash", "(p)"])),
            _ => st(any_text(s, 8)),
        }
    }
    fn var_ref(&mut self, s: &mut Src, k: K) -> Option<G> {
        let c: Vec<String> = self.env.vars.iter().filter(|(_, vk)| *vk == k || (k == K::Items)).map(|(n, _)| n.clone()).collect();
        if c.is_empty() { return None; }
        // Later definitions first: they shrink to the nearest.
        let i = c.len() - 1 - s.below(c.len());
        if self.wild > 0 && s.chance(1, 4 * self.wild) { let n = almost(s, &c[i]); return Some(sym(format!("%{n}"))); }
        Some(sym(format!("%{}", c[i])))
    }
    fn define_var(&mut self, name: &str, k: K) {
        if self.seen.iter().rev().take(3).all(|n| n != name) { self.seen.push(name.to_owned()); }
        self.env.vars.retain(|(n, _)| n != name);
        self.env.funs.retain(|f| f.name != name);
        self.env.lams.retain(|f| f.0 != name);
        self.env.vars.push((name.to_owned(), k));
    }
    fn define_fun(&mut self, f: Fun) {
        self.env.vars.retain(|(n, _)| *n != f.name);
        self.env.funs.retain(|g| g.name != f.name);
        self.env.lams.retain(|g| g.0 != f.name);
        self.env.funs.push(f);
    }

    /// Values for a keyword-less list position: one node.
    pub fn item(&mut self, s: &mut Src, d: usize) -> G { if s.chance(1, 3) { self.list(s, d) } else { self.atom(s, d) } }

    pub fn of(&mut self, s: &mut Src, d: usize, k: K) -> G {
        let k = if self.go_wild(s) { s.choose(&[K::Atom, K::List, K::Items]) } else { k };
        match k { K::Atom => self.atom(s, d), K::List => self.list(s, d), K::Items => self.items(s, d) }
    }

    pub fn many_items(&mut self, s: &mut Src, d: usize, max: usize) -> Vec<G> {
        let mut v = vec![];
        while v.len() < max && s.chance(3, 4) { v.push(self.items(s, d)); }
        v
    }
    fn atoms(&mut self, s: &mut Src, d: usize, max: usize) -> Vec<G> {
        let mut v = vec![];
        while v.len() < max && s.chance(3, 4) { v.push(self.of(s, d, K::Atom)); }
        v
    }
    /// Arguments of which some may be attributes.
    fn with_attrs(&mut self, s: &mut Src, d: usize, mut v: Vec<G>) -> Vec<G> {
        if s.chance(1, 4) { let a = at(s.pick(KWS), self.item(s, d)); let i = s.below(v.len() + 1); v.insert(i, a); }
        v
    }

    pub fn atom(&mut self, s: &mut Src, d: usize) -> G {
        self.budget -= 1;
        if d == 0 || self.budget < 0 { return if s.chance(1, 2) { self.var_ref(s, K::Atom).unwrap_or_else(|| sym("leaf")) } else { self.literal(s) }; }
        let d = d - 1;
        let names = ["lit", "var", "call", "concat", "join", "string", "raw", "symbol", "number", "do", "ifdef", "get", "format", "match", "apply", "strip", "lambda-call", "env", "embed", "outside"];
        let ws: Vec<u64> = names.iter().zip([14, 8, 5, 2, 2, 2, 1, 1, 1, 2, 2, 2, 1, 2, 1, 1, 1, 0, 0, 1]).map(|(n, w)| self.w(n, w)).collect();
        match names[s.weighted(&ws)] {
            "lit" => self.literal(s),
            "var" => self.var_ref(s, K::Atom).unwrap_or_else(|| sym("novar")),
            "call" => self.call_fun(s, d, K::Atom),
            "concat" => { let v = self.atoms(s, d, 4); call("concat", v) },
            "join" => {
                let mut v = vec![self.of(s, d, K::Atom)];
                v.extend(self.atoms(s, d, 4));
                if s.chance(1, 3) { let t = at("trailing", sym(s.pick(&["true", "false"]))); let i = s.below(v.len() + 1); v.insert(i, t); }
                if self.go_wild(s) { v.push(at("trailing", sym("yes"))); }
                call("join", v)
            },
            "string" => { let v = self.atoms(s, d, 4); call("string", v) },
            "raw" => { let v = self.atoms(s, d, 3); call("raw", v) },
            "symbol" => { let mut a = self.of(s, d, K::Atom); if let G::Sym(t) | G::Str(t) = &a { if t.starts_with('%') { a = st("sym bol"); } } call("symbol", vec![a]) },
            "number" => { let a = self.of(s, d, K::Atom); call("number", vec![a]) },
            "do" => { let a = self.of(s, d, K::Atom); call("do", vec![a]) },
            "ifdef" => self.ifdef(s, d, K::Atom),
            "get" if s.chance(1, 60) => {
                let n = 100 + s.below(600);
                let mut v: Vec<G> = (0..n).map(|i| sym(format!("i{i}"))).collect();
                if s.chance(1, 3) { let i = s.below(n); v[i] = self.item(s, 0); v.insert(0, sym("h")); }
                let j = s.below(n);
                let i = s.choose(&[n - 1, j, n, 255, 256]);
                call("get", vec![sym(i.to_string()), ls(v)])
            },
            "get" => {
                let n = s.below(4);
                let mut v: Vec<G> = (0..=n).map(|_| self.atom(s, d.min(1))).collect();
                let i = s.below(n + 1);
                let by_key = s.chance(1, 2);
                if by_key {
                    let k = if s.chance(1, 10) { s.pick(&["0", "1", "in", "h"]) } else { s.pick(KWS) };
                    v[i] = at(k, v[i].clone());
                    // A key may be given twice, and looks the same as another but for its case.
                    while s.chance(1, 3) { let o = at(if s.chance(1, 2) { k } else { s.pick(&["k", "K", "id", "opt"]) }, self.atom(s, 0)); let j = s.below(v.len() + 1); v.insert(j, o); }
                }
                if v[0] == sym("") || matches!(&v[0], G::Sym(t) if t.starts_with('%')) { v.insert(0, sym("h")); }
                let key = match v.iter().position(|g| by_key && matches!(g, G::Attr(..))) {
                    Some(p) => { let G::Attr(k, _) = &v[p] else { unreachable!() }; k.clone() },
                    None => (v.len() - 1).to_string(),
                };
                let key = match s.below(24) {
                    0 | 1 => s.pick(&["7", "nokey", "-1", "0/0", "", "-0", "18446744073709551616"]).to_owned(),
                    // Other ways to write it.
                    2 => format!("+{key}"), 3 => format!("0{key}"), 4 => format!("{}{key}{}", s.pick(&[" ", "", "\t"]), s.pick(&[" ", "", "\n"])), 5 => key.to_uppercase(), 6 => format!("{key}/"), 7 => format!("/{key}"), 8 => format!("{key}.0"),
                    _ => key,
                };
                let (path, l) = if s.chance(1, 3) {
                    let outer = s.pick(&["in", "0", "1"]).to_owned();
                    let l = match outer.as_str() {
                        // Named items are no lists, even if they hold one.
                        "1" if s.chance(1, 12) => ls(vec![sym("h"), at("in", ls(v))]),
                        "0" if s.chance(1, 12) => ls(vec![call("do", vec![at("k", ls(v))]), sym("t")]),
                        "in" => ls(vec![sym("h"), at("in", ls(v))]), "0" => ls(vec![ls(v), sym("t")]), _ => ls(vec![sym("h"), ls(v)]) };
                    (format!("{outer}/{key}"), l)
                } else { (key, ls(v)) };
                let (path, extra) = if s.chance(1, 5) { (path.replace('/', "."), vec![at("separator", st("."))]) } else { (path, vec![]) };
                let mut args = vec![st(path), l];
                args.extend(extra);
                call("get", args)
            },
            "format" => self.format(s, d),
            "match" => self.matching(s, d, K::Atom),
            "apply" => self.apply(s, d, K::Atom),
            "strip" => { let a = self.of(s, d, K::Atom); call("strip", vec![a]) },
            "embed" => { if self.files.is_empty() { return self.literal(s); } let i = s.below(self.files.len()); call("embed", vec![st(self.files[i].0.clone())]) },
            "outside" => {
                // What has a value known beforehand.
                let tz = s.pick(&["0", "5", "-3", "1.5"]);
                let tz = if s.chance(1, 4) { call("number", vec![st(tz)]) } else { sym(tz) };
                let mut v = match s.below(4) {
                    0 => vec![st("%s"), sym(s.pick(&["5", "12345"]))],
                    1 => vec![st(format!("x{}", s.below(100)))],
                    _ => vec![if s.chance(1, 2) { self.literal(s) } else { self.of(s, d, K::Atom) }, sym(s.pick(&["0", "-1", "1000"]))],
                };
                let name = if v.len() == 1 { "markdown" } else if v[0] == st("%s") { "timestamp" } else { "date" };
                if name == "markdown" { if s.chance(1, 2) { v.push(at("only", sym("content"))); } }
                else if name == "date" || s.chance(1, 2) { let i = s.below(v.len() + 1); v.insert(i, at("timezone", tz)); }
                call(name, v)
            },
            "lambda-call" => { let (l, args) = self.lambda(s, d, K::Atom); let mut v = vec![l]; v.extend(args); call("apply", v) },
            _ => call("os/env", vec![{ let v = s.pick(&["TZ", "NO_COLOR", "SEAM_V1", "SEAM_V2", "SEAM_V3", "SEAM_V4", "SEAM_V5", "SEAM_V6"]); if s.chance(1, 3) { sym(v) } else { st(v) } }]),
        }
    }

    pub fn list(&mut self, s: &mut Src, d: usize) -> G {
        self.budget -= 1;
        let names = ["plain", "var", "list", "reverse", "sort", "call", "do", "ifdef", "match", "apply", "get", "data"];
        let base = if d == 0 || self.budget < 0 { [6, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0] } else { [12, 6, 4, 2, 2, 3, 1, 1, 1, 1, 1, 0] };
        let ws: Vec<u64> = names.iter().zip(base).map(|(n, w)| if w == 0 && (d == 0 || self.budget < 0) { 0 } else { self.w(n, w) }).collect();
        let d = d.saturating_sub(1);
        match names[s.weighted(&ws)] {
            "var" => self.var_ref(s, K::List).unwrap_or_else(|| ls(vec![])),
            "list" => { let v = self.many_items(s, d, 4); let v = self.with_attrs(s, d, v); call("list", v) },
            "reverse" => { let l = self.of(s, d, K::List); call("reverse", vec![l]) },
            "sort" => self.sort(s, d),
            "call" => self.call_fun(s, d, K::List),
            "do" => { let l = self.of(s, d, K::List); call("do", vec![l]) },
            "ifdef" => self.ifdef(s, d, K::List),
            "match" => self.matching(s, d, K::List),
            "apply" => self.apply(s, d, K::List),
            "get" => { let l = self.list(s, d); call("get", vec![sym("1"), ls(vec![sym("z"), l])]) },
            "data" => {
                let data = data(s, 2, true);
                let t = json(&data);
                self.data.insert(t.clone(), data);
                call(s.pick(&["json", "yaml"]), vec![st(t)])
            },
            _ => {
                let mut v = self.many_items(s, d, 4);
                if s.chance(1, 4) { v = self.with_attrs(s, d, v); }
                if matches!(v.first(), Some(G::Sym(t)) if t.starts_with('%')) { v.insert(0, sym("p")); }
                ls(v)
            },
        }
    }

    pub fn items(&mut self, s: &mut Src, d: usize) -> G {
        self.budget -= 1;
        if d == 0 || self.budget < 0 { return self.literal(s); }
        let names = ["atom", "list", "var", "splat", "map", "filter", "for", "match", "do", "call", "namespace", "define", "include", "ifdef", "numbers", "apply", "strip", "log", "deffun", "attr", "glob"];
        let base = [14, 8, 3, 2, 2, 1, 2, 2, 2, 3, 1, 1, 0, 1, 1, 1, 1, 0, 1, 0, 1];
        let ws: Vec<u64> = names.iter().zip(base).map(|(n, w)| self.w(n, w)).collect();
        let d = d - 1;
        match names[s.weighted(&ws)] {
            "atom" => self.atom(s, d + 1),
            "list" => self.list(s, d + 1),
            "var" => self.var_ref(s, K::Items).unwrap_or_else(|| sym("none")),
            "splat" => {
                let mut v = vec![];
                while v.len() < 3 && s.chance(2, 3) { v.push(if s.chance(3, 4) { self.list(s, d) } else { self.items(s, d) }); }
                call("splat", v)
            },
            n @ ("map" | "filter") => {
                let f = self.fun_value(s, d, 1);
                let mut v = vec![f];
                while v.len() < 5 && s.chance(3, 4) { let g = self.item(s, d); v.push(if s.chance(1, 10) { at(s.pick(KWS), g) } else { g }); }
                call(n, v)
            },
            "for" => {
                let keep = self.env.clone();
                let (pat, l) = if s.chance(1, 3) {
                    // Destructuring over records.
                    let ps = self.params(s, false);
                    let n = s.below(4);
                    let recs: Vec<G> = (0..n).map(|_| ls(self.args(s, d, &ps))).collect();
                    let mut recs = recs;
                    if matches!(recs.first(), Some(G::List(v)) if v.is_empty()) && s.chance(1, 2) { recs.remove(0); }
                    let g = self.params_g(&ps);
                    self.bind_params(&ps);
                    (ls(g), ls(recs))
                } else {
                    let l = self.of(s, d, K::List);
                    let x = var_name(s).to_owned();
                    self.define_var(&x, K::Items);
                    (sym(x), l)
                };
                let mut v = vec![pat, sym(if self.go_wild(s) { "of" } else { "in" }), l];
                v.extend(self.body(s, d));
                self.env = keep;
                call("for", v)
            },
            "match" => self.matching(s, d, K::Items),
            "do" => { let v = self.many_items(s, d, 4); let v = self.with_attrs(s, d, v); call("do", v) },
            "call" => self.call_fun(s, d, K::Items),
            "namespace" => self.namespace(s, d),
            "define" => self.define(s, d),
            "deffun" => self.deffun(s, d),
            "ifdef" => self.ifdef(s, d, K::Items),
            "numbers" => { let v = self.atoms(s, d, 4); call(s.pick(&["number", "symbol"]), v.into_iter().map(|a| match a { G::Sym(t) | G::Str(t) if t.starts_with('%') => st("pc"), a => a }).collect()) },
            "apply" => self.apply(s, d, K::Items),
            "strip" => { let v = self.many_items(s, d, 3); call("strip", v) },
            "log" => { let v = self.atoms(s, 0, 2); call("log", v) },
            "attr" => at(s.pick(KWS), self.items(s, d)),
            "glob" => {
                let mut v = vec![self.wrapped(s, st("nosuch-file"))];
                if s.chance(1, 3) { v.push(at("sort", sym(s.pick(&["name", "type", "none"])))); }
                if s.chance(1, 3) { let i = s.below(v.len() + 1); v.insert(i, at("order", self.wrapped(s, sym("descending")))); }
                call("glob", v)
            },
            "include" => self.include(s),
            _ => self.literal(s),
        }
    }

    fn wrapped(&mut self, s: &mut Src, g: G) -> G { match s.below(6) { 0 => call("do", vec![g]), 1 => call("apply", vec![sym("do"), g]), _ => g } }

    pub fn body(&mut self, s: &mut Src, d: usize) -> Vec<G> {
        let mut v = vec![];
        let n = 1 + s.below(3);
        for _ in 0..n { v.push(self.items(s, d)); }
        v
    }

    fn ifdef(&mut self, s: &mut Src, d: usize, k: K) -> G {
        let known: Vec<String> = self.env.vars.iter().map(|v| v.0.clone()).chain(self.env.funs.iter().map(|f| f.name.clone())).collect();
        let name = if !self.seen.is_empty() && s.chance(1, 5) { let i = self.seen.len() - 1 - s.below(self.seen.len().min(4)); self.seen[i].clone() }
            else if !known.is_empty() && s.chance(1, 2) { s.choose(&known) } else { s.pick(&["undefd", "a", "f", "do", "nope", "b", "x"]).to_owned() };
        // A percent sign or a namespace make it another name.
        let name = match s.below(24) { 0 => format!("%{name}"), 1 => name.split('/').next().unwrap().to_owned(), 2 => name.rsplit('/').next().unwrap().to_owned(), _ => name };
        let name = if s.chance(1, 6) { st(name) } else { sym(name) };
        // The branch not taken may be nonsense.
        let mut v = vec![name, self.of(s, d, k)];
        if k != K::Items || s.chance(1, 2) { v.push(self.of(s, d, k)); }
        if s.chance(1, 8) { let i = 1 + s.below(v.len() - 1); v[i] = sym("%undefined-variable"); }
        if self.go_wild(s) { v.pop(); }
        call("ifdef", v)
    }

    fn format(&mut self, s: &mut Src, d: usize) -> G {
        let mut t = String::new();
        let mut args: Vec<G> = vec![];
        let n = s.below(5);
        for _ in 0..n {
            match s.weighted(&[3, 3, 2, 1]) {
                0 => t += s.pick(&["text", " ", "[x]", "a: b", "é", "\u{2800}", "100%", ",", "<", "'"]),
                1 => { t += "{}"; args.push(self.of(s, d, K::Atom)); },
                2 => { let k = s.pick(KWS); t += &format!("{{{k}}}"); if !args.iter().any(|a| matches!(a, G::Attr(x, _) if x == k)) || s.chance(1, 4) { args.push(at(k, self.of(s, d, K::Atom))); } },
                _ => t += s.pick(&["{{", "}}", "{{x}}", " {{}} "]),
            }
            if t.ends_with('}') || s.chance(1, 2) { t.push_str(s.pick(&[" ", ".", "-", "x"])); }
        }
        if s.chance(1, 4) { args.push(self.of(s, d, K::Atom)); }
        let mut v = vec![st(t)];
        // Named ones may be anywhere.
        if s.chance(1, 2) { s.shuffle(&mut args); }
        v.extend(args);
        call("format", v)
    }

    /// Something callable with `n` items: a user macro, a built-in or a lambda.
    fn fun_value(&mut self, s: &mut Src, d: usize, n: usize) -> G {
        let c: Vec<String> = self.env.funs.iter().filter(|f| accepts(&f.params, n)).map(|f| f.name.clone()).collect();
        let held: Vec<String> = self.env.lams.iter().filter(|l| l.1 == n).map(|l| l.0.clone()).collect();
        match s.weighted(&[if c.is_empty() { 0 } else { 5 }, 2, self.w("lambda", 3), if held.is_empty() { 0 } else { 8 }]) {
            0 => sym(s.choose(&c)),
            3 => sym(format!("%{}", s.choose(&held))),
            1 => sym(s.pick(&["do", "list", "string", "concat", "symbol", "splat", "strip"])),
            _ if s.chance(1, 10) => { let k = s.pick(KWS); let dflt = self.default_value(s); call("lambda", vec![ls(vec![at(k, dflt)]), sym(format!("%{k}"))]) },
            _ => self.plain_lambda(s, d, n),
        }
    }
    fn plain_lambda(&mut self, s: &mut Src, d: usize, n: usize) -> G {
        let keep = self.env.clone();
        let names: Vec<P> = (0..n).map(|i| P::Pos(VARS[(i + s.below(4)) % VARS.len()].to_owned(), K::Items)).collect();
        let names = if s.chance(1, 8) { vec![if n == 0 && s.chance(1, 2) { P::KwRest("kw".into()) } else { P::Rest(var_name(s).to_owned()) }] } else { names };
        let mut ps = self.params_g(&names);
        // A single one needs no brackets.
        let ps = if ps.len() == 1 && s.chance(1, 3) { ps.remove(0) } else { ls(ps) };
        self.bind_params(&names);
        let mut v = vec![ps];
        v.extend(self.body(s, d));
        self.env = keep;
        call("lambda", v)
    }
    /// A variable holding a lambda.
    fn deflam(&mut self, s: &mut Src, d: usize) -> G {
        let name = s.pick(&["fa", "fb", "fc", "fd"]).to_owned();
        let n = s.choose(&[1, 1, 1, 2, 0]);
        let l = self.plain_lambda(s, d, n);
        self.define_var(&name, K::Atom);
        self.env.vars.pop();
        self.env.lams.push((name.clone(), n));
        call("define", vec![sym(name), l])
    }
    fn lambda(&mut self, s: &mut Src, d: usize, k: K) -> (G, Vec<G>) {
        let ps = self.params(s, true);
        let args = self.args(s, d, &ps);
        let keep = self.env.clone();
        let g = self.params_g(&ps);
        self.bind_params(&ps);
        let b = self.of(s, d, k);
        self.env = keep;
        (call("lambda", vec![ls(g), b]), args)
    }

    fn apply(&mut self, s: &mut Src, d: usize, k: K) -> G {
        if k == K::Items && s.chance(1, 3) {
            let f = sym(s.pick(&["do", "list", "splat", "concat", "strip", "join"]));
            let mut v = vec![f];
            v.extend(self.atoms(s, d, 3));
            return call("apply", v);
        }
        if k == K::Items && !self.env.lams.is_empty() && s.chance(1, 2) {
            let (f, n) = s.choose(&self.env.lams);
            let mut v = vec![sym(format!("%{f}"))];
            for _ in 0..n { v.push(self.item(s, d)); }
            return call("apply", v);
        }
        if s.chance(1, 2) {
            let (l, args) = self.lambda(s, d, k);
            let mut v = vec![l]; v.extend(args);
            return call("apply", v);
        }
        match self.call_fun(s, d, k) {
            G::List(mut v) if matches!(&v[0], G::Sym(n) if n.starts_with('%')) => {
                let G::Sym(n) = &v[0] else { unreachable!() };
                v[0] = sym(n[1..].to_owned());
                v.insert(0, sym("%apply"));
                ls(v)
            },
            g => g,
        }
    }

    fn sort(&mut self, s: &mut Src, d: usize) -> G {
        let n = s.below(7);
        let mut v: Vec<G> = (0..n).map(|_| if s.chance(1, 8) { self.atom(s, d.min(1)) } else { match s.below(4) {
            0 => sym(s.pick(&["3", "1", "2", "10", "-1", "1.5", "2.0", "+2", "1e1", "007"])),
            1 => st(s.pick(&["b", "a", "B", "aa", "10", "2", "", "é", "nan"])),
            _ => sym(s.pick(&["x", "y", "X", "inf", "b", "a"])),
        } }).collect();
        let keyed = s.chance(1, 3);
        let mut args = vec![];
        if keyed {
            v = v.into_iter().map(|k| ls(vec![sym(plain_word(s)), k])).collect();
            let f = call("lambda", vec![sym("r"), call("get", vec![sym("1"), sym("%r")])]);
            args.push(at("key", f));
        } else if s.chance(1, 4) {
            let f = match s.below(4) {
                0 => sym(s.pick(&["string", "do", "concat"])),
                1 => call("lambda", vec![sym("r"), call("concat", vec![sym("%r"), sym(s.pick(&["", "1", "x"]))])]),
                _ => call("lambda", vec![sym("r"), sym("%r")]),
            };
            args.push(at("key", f));
        }
        if matches!(v.first(), Some(G::Sym(t)) if t.starts_with('%')) { v.insert(0, sym("p")); if keyed { v[0] = ls(vec![sym("w"), sym("0")]); } }
        if s.chance(1, 3) { args.push(at("order", sym(s.pick(&["ascending", "descending"])))); }
        let i = s.below(args.len() + 1);
        args.insert(i, ls(v));
        call("sort", args)
    }

    pub fn params(&mut self, s: &mut Src, lits: bool) -> Vec<P> { self.params_at(s, lits, 2) }
    fn params_at(&mut self, s: &mut Src, lits: bool, nest: usize) -> Vec<P> {
        let mut v = vec![];
        let many = nest == 2 && s.chance(1, 50);
        let n = if many { 5 + s.below(36) } else { s.below(4) };
        let (mut rest, mut kwrest) = (false, false);
        for i in 0..n {
            let name = if many && s.chance(4, 5) { format!("p{i}") } else { var_name(s).to_owned() };
            // (Two of a kind are an error.)
            if (rest || kwrest) && self.go_wild(s) { rest = false; kwrest = false; }
            match s.weighted(&[8, if lits { self.w("lit-param", 1) } else { 0 }, if nest > 0 { self.w("nest-param", 2) } else { 0 }, self.w("kw-param", 3), if rest { 0 } else { 2 }, if kwrest { 0 } else { 1 }]) {
                0 => v.push(P::Pos(name, s.choose(&[K::Atom, K::List, K::Atom]))),
                1 => v.push(P::Lit(match s.below(2) { 0 => sym(s.pick(&["1", "-2", "0.5"])), _ => st(s.pick(&["lit", "", "q\"w"])) })),
                2 => v.push(P::Nest(self.params_at(s, lits, nest - 1))),
                3 => { let k = if many { format!("q{i}") } else { s.pick(KWS).to_owned() }; v.push(P::Kw(k, self.default_value(s))) },
                4 => { rest = true; v.push(P::Rest(if s.chance(1, 40) { String::new() } else { name })) },
                _ => { kwrest = true; v.push(P::KwRest(if s.chance(1, 20) { s.pick(&["&opts", "", "&&x"]) } else { s.pick(&["opts", "kw", "more"]) }.to_owned())) },
            }
        }
        v
    }
    fn default_value(&mut self, s: &mut Src) -> G {
        match s.below(5) {
            0 => self.var_ref(s, K::Atom).unwrap_or_else(|| sym("dflt")), 1 => st(""), 2 => ls(vec![]),
            // Names in a default stand for themselves.
            3 => ls((0..1 + s.below(2)).map(|_| sym(s.pick(&["a", "b", "x"]))).collect()),
            _ => self.literal(s),
        }
    }
    pub fn params_g(&self, ps: &[P]) -> Vec<G> {
        ps.iter().map(|p| match p {
            P::Pos(n, _) => sym(n), P::Lit(g) => g.clone(), P::Nest(v) => ls(self.params_g(v)), P::Kw(k, d) => at(k, d.clone()),
            P::Rest(n) => sym(format!("&{n}")), P::KwRest(n) => sym(format!("&&{n}")),
        }).collect()
    }
    pub fn bind_params(&mut self, ps: &[P]) {
        for p in ps { match p { P::Pos(n, k) => self.define_var(n, *k), P::Nest(v) => self.bind_params(v), _ => {} } }
        for p in ps { match p { P::Rest(n) | P::KwRest(n) => self.define_var(n, K::Items), P::Kw(k, _) => self.define_var(k, K::Items), _ => {} } }
    }
    /// Arguments that fit the parameters (mostly).
    pub fn args(&mut self, s: &mut Src, d: usize, ps: &[P]) -> Vec<G> {
        let mut v = vec![];
        let mut rest = false; let mut kwrest = false;
        for p in ps {
            match p {
                P::Pos(_, k) => v.push(self.of(s, d, *k)),
                P::Lit(g) => v.push(if self.go_wild(s) { self.literal(s) } else { g.clone() }),
                P::Nest(q) => { let a = self.args(s, d, q); v.push(if matches!(a.first(), Some(G::Sym(t)) if t.starts_with('%')) { call("list", a) } else { ls(a) }) },
                P::Rest(_) => rest = true,
                P::KwRest(_) => kwrest = true,
                P::Kw(..) => {},
            }
        }
        if rest { let n = if s.chance(1, 60) { s.below(60) } else { s.below(4) }; for _ in 0..n { v.push(self.item(s, d)); } }
        for p in ps { if let P::Kw(k, _) = p { if s.chance(1, 2) {
            // Also what looks like the name, or like the default.
            let x = match p { P::Kw(_, dflt) if s.chance(1, 10) => if s.chance(1, 2) { sym(k) } else { dflt.clone() }, _ => self.item(s, d) };
            let a = at(k, x); let i = s.below(v.len() + 1); v.insert(i, a);
        } } }
        if kwrest { let many = s.chance(1, 40); let n = s.below(if many { 40 } else { 3 }); for j in 0..n { let k = if many { format!("m{j}") } else { s.pick(&["z1", "y2", "k", "x3", "w4"]).to_owned() }; let a = at(k, self.item(s, d)); let i = s.below(v.len() + 1); v.insert(i, a); } }
        if self.go_wild(s) {
            match s.below(4) {
                0 => { v.pop(); },
                1 => { let g = self.item(s, d); v.push(g); },
                2 => { let g = at(s.pick(KWS), self.literal(s)); let i = s.below(v.len() + 1); v.insert(i, g); },
                _ => if !v.is_empty() { let i = s.below(v.len()); v[i] = self.items(s, d); },
            }
        }
        v
    }

    fn call_fun(&mut self, s: &mut Src, d: usize, k: K) -> G {
        let c: Vec<Fun> = self.env.funs.iter().filter(|f| f.ret == k || k == K::Items).cloned().collect();
        if c.is_empty() { return if self.go_wild(s) { call(fun_name(s), vec![]) } else { self.literal_of(s, k) }; }
        let f = c[c.len() - 1 - s.below(c.len())].clone();
        let args = self.args(s, d, &f.params);
        if self.wild > 0 && s.chance(1, 4 * self.wild) { let n = almost(s, &f.name); return call(&n, args); }
        call(&f.name, args)
    }
    fn literal_of(&mut self, s: &mut Src, k: K) -> G { if k == K::List { ls(vec![self.literal(s)]) } else { self.literal(s) } }

    fn matching(&mut self, s: &mut Src, d: usize, k: K) -> G {
        let subject_params = self.params(s, true);
        let n_pats = 1 + if s.chance(1, 50) { s.below(20) } else { s.below(3) };
        let hit = s.below(n_pats);
        let list_like = s.chance(2, 3);
        // What a branch defines is forgotten after it, whatever its pattern.
        let lasting = !list_like && s.chance(1, 3);
        let lit = if s.chance(1, 2) { sym(s.pick(&["1", "-2", "0.5"])) } else { st(s.pick(&["lit", "", "two words"])) };
        // A named value matches a named pattern.
        let named = !lasting && s.chance(1, 12);
        let key = s.pick(KWS);
        let subject = if named { call(s.pick(&["do", "splat"]), vec![at(key, if list_like { let a = self.args(s, d, &subject_params); call("list", a) } else { lit.clone() })]) } else if lasting { if s.chance(1, 8) { call(s.pick(&["raw", "string", "symbol", "number"]), vec![lit.clone()]) } else { lit.clone() } } else if list_like { let a = self.args(s, d, &subject_params); if matches!(a.first(), Some(G::Sym(t)) if t.starts_with('%')) { call("list", a) } else { ls(a) } } else { self.item(s, d) };
        let mut v = vec![subject];
        for i in 0..n_pats {
            let keep = self.env.clone();
            let pat = if i == hit && named {
                let inner = if list_like { let g = self.params_g(&subject_params); self.bind_params(&subject_params); ls(g) }
                    else if s.chance(1, 2) { lit.clone() } else { let x = var_name(s).to_owned(); self.define_var(&x, K::Items); sym(x) };
                let inner = match inner { G::List(p) if matches!(p.first(), Some(G::Sym(t)) if t.starts_with('%')) => ls(vec![]), p => p };
                match s.below(16) { 0 | 1 => at(s.pick(KWS), inner), 2 => at(&key.to_uppercase(), inner), _ => at(key, inner) }
            } else if i == hit && lasting { if s.chance(1, 4) { call(s.pick(&["do", "raw", "string", "number"]), vec![lit.clone()]) } else { lit.clone() } } else if i == hit && list_like { let g = self.params_g(&subject_params); self.bind_params(&subject_params); ls(g) } else {
                match s.below(5) {
                    0 => { let x = var_name(s).to_owned(); self.define_var(&x, K::Items); sym(x) },
                    1 => self.literal(s),
                    2 => { let k = s.pick(KWS); at(k, sym("val")) },
                    3 if s.chance(1, 3) => match s.below(3) {
                        0 => call("do", if self.go_wild(s) { vec![sym("1"), sym("2")] } else { vec![lit.clone()] }),
                        1 => call(s.pick(&["raw", "string"]), vec![lit.clone()]),
                        _ => self.var_ref(s, K::Atom).unwrap_or_else(|| lit.clone()),
                    },
                    _ => { let q = self.params(s, true); let g = self.params_g(&q); self.bind_params(&q); ls(g) },
                }
            };
            // Patterns are expanded, so keep references out of calls.
            let pat = match pat { G::List(p) if matches!(p.first(), Some(G::Sym(t)) if t.starts_with('%')) => ls(vec![]), p => p };
            let mut arm = vec![pat];
            if lasting && i == hit && k == K::Items && s.chance(2, 3) { let g = if s.chance(2, 3) { self.define(s, d) } else { self.deffun(s, d) }; arm.push(g); }
            if k == K::Items { if !s.chance(1, 16) { arm.extend(self.body(s, d)); } } else { arm.push(self.of(s, d, k)); }
            v.push(ls(arm));
            self.env = keep;
        }
        if k != K::Items { let other = self.of(s, d, k); v.push(ls(vec![sym("otherwise"), other])); }
        call("match", v)
    }

    pub fn exports(&self) -> Exports { Exports(self.env.clone()) }
    fn include(&mut self, s: &mut Src) -> G {
        if self.files.is_empty() { return self.literal(s); }
        let i = s.below(self.files.len());
        let (name, e) = self.files[i].clone();
        for (n, k) in e.0.vars { self.define_var(&n, k); }
        for f in e.0.funs { self.define_fun(f); }
        for l in e.0.lams { self.define_var(&l.0, K::Atom); self.env.vars.pop(); self.env.lams.push(l); }
        call("include", vec![st(name)])
    }

    pub fn define(&mut self, s: &mut Src, d: usize) -> G {
        // A built-in of that name stays what is called.
        let name = if s.chance(1, 40) { s.pick(BUILT_IN) } else { var_name(s) }.to_owned();
        let k = s.choose(&[K::Atom, K::List, K::Atom, K::Items]);
        let body = if k == K::Items { self.many_items(s, d, 3) } else { vec![self.of(s, d, k)] };
        // A percent sign in the name is part of it.
        let name = if s.chance(1, 40) { format!("%{name}") } else { name };
        self.define_var(&name, k);
        let mut v = vec![sym(name)];
        v.extend(body);
        call("define", v)
    }
    pub fn deffun(&mut self, s: &mut Src, d: usize) -> G {
        let name = if s.chance(1, 40) { s.pick(BUILT_IN) } else { fun_name(s) }.to_owned();
        let params = self.params(s, true);
        let ret = s.choose(&[K::Atom, K::List, K::Items]);
        let keep = self.env.clone();
        self.bind_params(&params);
        let d2 = d.max(1);
        let mut body = vec![];
        // A macro without a body gives nothing.
        if ret == K::Items && s.chance(1, 12) {
            self.env = keep;
            let mut h = vec![sym(name.clone())];
            h.extend(self.params_g(&params));
            self.define_fun(Fun { name, params, ret });
            return call("define", vec![ls(h)]);
        }
        // Local definitions.
        while s.chance(1, 4) { let g = if s.chance(1, 2) { self.define(s, d2) } else { self.define(s, 1) }; body.push(g); }
        if ret == K::Items { body.extend(self.body(s, d2)); } else { body.push(self.of(s, d2, ret)); }
        self.env = keep;
        if s.chance(1, 40) {
            let mut h = vec![sym(format!("%{name}"))];
            h.extend(self.params_g(&params));
            self.seen.push(name);
            let mut v = vec![ls(h)];
            v.extend(body);
            return call("define", v);
        }
        let mut h = vec![sym(name.clone())];
        h.extend(self.params_g(&params));
        let mut v = vec![ls(h)];
        v.extend(body);
        self.define_fun(Fun { name, params, ret });
        call("define", v)
    }
    pub fn namespace(&mut self, s: &mut Src, d: usize) -> G {
        let ns = s.pick(&["ns", "m", "a", "lib", "ns", "m", "a", "lib", "a/", "/m", "n.", "lib::", "A", "a/b", "0", "é"]).to_owned();
        let sep = s.pick(&["/", "/", ".", "::", ""]).to_owned();
        let keep = self.env.clone();
        let before = (self.env.vars.clone(), self.env.funs.iter().map(|f| f.name.clone()).collect::<Vec<_>>());
        let mut v = vec![sym(ns.clone())];
        if sep != "/" || s.chance(1, 4) { v.push(at("separator", st(sep.clone()))); }
        let n = s.below(4);
        for _ in 0..n {
            let g = match s.weighted(&[4, 3, 2, 1, self.w("data", 0)]) {
                0 => self.define(s, d), 1 => self.deffun(s, d), 2 => self.items(s, d), 3 => self.namespace(s, d.saturating_sub(1)),
                _ => self.list(s, d),
            };
            v.push(g);
        }
        let inner = std::mem::replace(&mut self.env, keep);
        for (n, k) in inner.vars { if !before.0.contains(&(n.clone(), k)) { self.define_var(&format!("{ns}{sep}{n}"), k); } }
        for f in inner.funs { if !before.1.contains(&f.name) { self.define_fun(Fun { name: format!("{ns}{sep}{}", f.name), ..f }); } }
        call("namespace", v)
    }

    /// A whole program.
    pub fn program(&mut self, s: &mut Src) -> Vec<G> {
        let mut v = vec![];
        let n = 1 + s.below(6);
        for _ in 0..n {
            self.budget = 40;
            let d = 1 + s.below(3);
            let g = match s.weighted(&[self.w("top-define", 3), self.w("top-deffun", 3), 8, self.w("top-namespace", 1), self.w("top-lambda", 1)]) {
                0 => self.define(s, d),
                1 => self.deffun(s, d),
                2 => self.items(s, d),
                3 => self.namespace(s, d),
                _ => self.deflam(s, d),
            };
            v.push(g);
        }
        stretch(s, v, true)
    }
}

fn accepts(ps: &[P], n: usize) -> bool {
    let plain = ps.iter().filter(|p| matches!(p, P::Pos(..) | P::Lit(_) | P::Nest(_))).count();
    let rest = ps.iter().any(|p| matches!(p, P::Rest(_)));
    plain == n || rest && plain <= n
}

// ------------------------------------------------------------------- data

pub fn data_key(s: &mut Src) -> String { s.pick(&["a", "b", "key", "x y", "é", "0", "1", "name", "k-2", "q", "", "-1"]).to_owned() }
/// Now and then, data of more, longer or deeper values.
pub fn grow(s: &mut Src, d: Data) -> Data {
    if !s.chance(1, 40) { return d; }
    let n = s.choose(SIZES);
    let label = |i: usize| Data::Scalar('"', format!("v{i}"));
    let with = |i: usize, at: usize, d: &Data| if i == at { d.clone() } else { label(i) };
    let at = s.below(n);
    match s.below(5) {
        0 => Data::Seq((0..n).map(|i| with(i, at, &d)).collect()),
        1 => Data::Map((0..n).map(|i| (format!("k{i}"), with(i, at, &d))).collect()),
        2 => { let k = format!("key-{}", "y".repeat(n)); Data::Map(vec![(k.clone() + "a", d), (k + "b", label(0))]) },
        3 => { let t = ["word", "é", "字"][n % 3].repeat(n); Data::Seq(vec![Data::Scalar('"', t), d]) },
        _ => (0..n.min(25)).fold(d, |d, i| if i % 3 == 2 { Data::Seq(vec![d]) } else { Data::Map(vec![(["a", "deep", "k"][i % 3].into(), d)]) }),
    }
}
/// Random data; keys are unique within a map.
pub fn data(s: &mut Src, d: usize, top: bool) -> Data {
    if top { let x = data_of(s, d, top); return grow(s, x); }
    data_of(s, d, top)
}
fn data_of(s: &mut Src, d: usize, top: bool) -> Data {
    match s.weighted(&[if top { 1 } else { 5 }, if d > 0 { 3 } else { 0 }, if d > 0 { 4 } else { 0 }]) {
        0 => Data::Scalar('"', s.pick(&["1", "two", "a b", "", "é", "null", "true", "1.5", "x: y", "q\"uote", "new\nline", "%z", "- i", "# c"]).to_owned()),
        1 => Data::Seq(s.many(0, 4, 2, |s| data(s, d - 1, false))),
        _ => {
            let mut v: Vec<(String, Data)> = vec![];
            while v.len() < 4 && s.chance(2, 3) {
                let k = data_key(s);
                let x = data(s, d - 1, false);
                if !v.iter().any(|(j, _)| *j == k) { v.push((k, x)); }
            }
            Data::Map(v)
        },
    }
}
pub fn json_string(t: &str) -> String { serde_json::to_string(t).unwrap() }
pub fn json(d: &Data) -> String {
    match d {
        Data::Scalar(_, t) => json_string(t),
        Data::Seq(v) => format!("[{}]", v.iter().map(json).collect::<Vec<_>>().join(", ")),
        Data::Map(v) => format!("{{{}}}", v.iter().map(|(k, x)| format!("{}: {}", json_string(k), json(x))).collect::<Vec<_>>().join(", ")),
    }
}
