//! C36: which parts of a program are expanded, how often and in which order.

use crate::engine::*;
use crate::gen::*;
use crate::model::{expand::*, reader, tree::*};
use crate::prog::*;
use crate::util::*;
use std::collections::HashMap;
use unicode_width::UnicodeWidthStr;

pub struct C36;

const FOCUS: &[(&str, u64)] = &[("top-define", 4), ("top-deffun", 6), ("var", 8), ("call", 12), ("map", 4), ("filter", 3), ("apply", 4), ("match", 5), ("lambda-call", 4), ("lambda", 3), ("top-lambda", 2), ("for", 5), ("namespace", 2), ("top-namespace", 2), ("sort", 3), ("ifdef", 5), ("kw-param", 3), ("include", 1), ("embed", 0), ("lit", 8), ("log", 2)];

struct Probes { next: usize, rate: u64, vars: Vec<String> }
impl Probes {
    fn tag(&mut self, s: &mut Src) -> G {
        self.next += 1;
        let tag = format!("t{}", self.next);
        let mut v = vec![match s.below(8) { 0 => st(format!("{tag} é\n")), 1 => call("concat", vec![sym("c"), sym(tag)]), _ => sym(tag) }];
        if !self.vars.is_empty() && s.chance(1, 5) { v.push(sym(format!("%{}", s.choose(&self.vars)))); }
        call("log", v)
    }
    /// With a probe, maybe.
    fn wrap(&mut self, s: &mut Src, g: G) -> G {
        let g = self.inside(s, g);
        if !s.chance(1, self.rate) { return g; }
        let t = self.tag(s);
        match s.below(6) { 0 => call("do", vec![g, t]), 1 => call("strip", vec![t, g]), _ => call("do", vec![t, g]) }
    }
    fn body(&mut self, s: &mut Src, v: Vec<G>) -> Vec<G> {
        let mut out = vec![];
        for g in v {
            if s.chance(1, 2 * self.rate) { out.push(self.tag(s)); }
            out.push(self.wrap(s, g));
        }
        if s.chance(1, 2 * self.rate) { out.push(self.tag(s)); }
        out
    }
    fn inside(&mut self, s: &mut Src, g: G) -> G {
        match g {
            G::Attr(k, v) => { let v = self.wrap(s, *v); at(k, v) },
            G::List(mut v) => {
                let head = match v.first() { Some(G::Sym(t)) if t.starts_with('%') => t[1..].to_owned(), _ => return ls(self.body(s, v)) };
                let n = v.len();
                let keep = match head.as_str() { "define" | "lambda" | "ifdef" => 2, "match" => 1, "for" => 4, _ => 1 }.min(n);
                let rest = v.split_off(keep);
                match head.as_str() {
                    "define" => { if let Some(G::Sym(t)) = v.get(1) { self.vars.push(t.clone()); } v.extend(self.body(s, rest)); },
                    "ifdef" => for g in rest { let g = self.wrap(s, g); v.push(g); },
                    "match" => for (i, g) in rest.into_iter().enumerate() {
                        let g = match g {
                            G::List(mut arm) if i > 0 && !arm.is_empty() => { let b = arm.split_off(1); if s.chance(1, 3) { let p = arm.remove(0); let p = self.wrap(s, p); arm.push(p); } arm.extend(self.body(s, b)); ls(arm) },
                            g if i == 0 => self.wrap(s, g),
                            g => g,
                        };
                        v.push(g);
                    },
                    "for" => {
                        if let Some(l @ G::List(_)) = v.get(3).cloned() { if !matches!(&l, G::List(x) if matches!(x.first(), Some(G::Sym(t)) if t.starts_with('%'))) { v[3] = self.inside(s, l); } }
                        v.extend(self.body(s, rest));
                    },
                    _ => {
                        v.extend(self.body(s, rest));
                        // What is wrong may show after effects only.
                        if s.chance(1, 80) { let i = 1 + s.below(v.len()); v.insert(i, at("nope", sym("1"))); }
                    },
                }
                ls(v)
            },
            g => g,
        }
    }
}

/// What is written for the entries of the log.
fn written(m: &Model, src: &str) -> Result<String, Fail> {
    let main = file_id("<stdin>");
    let mut out = String::new();
    for (site, words) in &m.log {
        let (path, text) = if site.file == main { ("<stdin>", src) } else { let (p, t) = &m.sources[&site.file]; (p.as_str(), t.as_str()) };
        let col = UnicodeWidthStr::width(&text[site.off - site.col..site.off]) + 1;
        out += &format!("[#] log ({path}:{}:{col}): {words}\n", site.line);
    }
    Ok(out)
}

fn check(src: &str, data: HashMap<String, Data>, cx: &mut Cx) -> R {
    let Ok(tree) = reader::read(src, "<stdin>") else { return bad("generated program is not readable") };
    let mut m = Model { data, ..Model::default() };
    let want = m.program(&tree);
    match &want { Err(Stop::Fuel) => return discard("too many steps"), Err(Stop::Unknown(w)) => return discard(w), _ => {} }
    let trace = written(&m, src)?;
    let (got, said) = with_stderr(|| seam_expand(src, &Env::default()));
    match (&got, &want) {
        (Ok(_), Err(Stop::Err(w, _))) => return bad(format!("must be rejected: {w}")),
        (Err(e), Ok(_)) => return bad(format!("was rejected: {}", e.msg)),
        _ => {},
    }
    let (said, trace) = (norm_lambda(&said), norm_lambda(&trace));
    if said != trace { return bad(format!("logged:\n{said}\nmust log:\n{trace}")); }
    cx.label(if want.is_ok() { "expanded" } else { "rejected" });
    let mut seen = HashMap::new();
    for (_, w) in &m.log { *seen.entry(w.as_str()).or_insert(0) += 1; }
    if seen.values().any(|n| *n > 1) { cx.label("expanded repeatedly"); }
    // Something was not expanded, or more than once, or in an order which matters.
    cx.nontrivial = m.log.len() >= 2;
    Ok(())
}

impl Prop for C36 {
    fn id(&self) -> &'static str { "C36" }
    fn rule(&self) -> &'static str {
        "Random programs with %log calls, showing their own tag and values of variables, placed at random in arguments, bodies, defaults, branches, attribute values, included files and namespaces: what is written to standard error must be, entry by entry and with the position of the call, what the reference expander logs, also when the program is rejected later on. Non-trivial: at least two entries were logged."
    }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 9_000_000 } else { 240_000 } }
    fn run(&self, s: &mut Src, cx: &mut Cx) -> R {
        let wild = s.choose(&[0, 0, 0, 40, 12]);
        let mut p = Pg::new(FOCUS, wild);
        let g = p.program(s);
        let mut pr = Probes { next: 0, rate: s.choose(&[3, 6, 12]), vars: vec![] };
        let mut g = pr.body(s, g);
        let mut shown = String::new();
        if s.chance(1, 20) {
            super::files::clear(super::files::ROOT);
            let k = s.below(g.len() + 1);
            let part: Vec<G> = g.drain(k..).collect();
            let (t, _) = render(s, &part, Layout::Lines, "part");
            shown = format!("\n=== part.sex\n{t}");
            std::fs::write("part.sex", &t).unwrap();
            g.push(call("include", vec![sym("part")]));
            cx.label("in two files");
        }
        let lay = layout(s);
        let (src, _) = render(s, &g, lay, "<stdin>");
        about_to_run(s, cx, format!("{src}{shown}"));
        check(&src, p.data, cx)
    }
    fn examples(&self) -> usize { EX.len() }
    fn example(&self, i: usize, cx: &mut Cx) -> R { cx.show(EX[i]); check(EX[i], HashMap::new(), cx) }
}
const EX: &[&str] = &[
    "(%define x (%log d) 1) %x %x", "(%define (f a) (%log body %a) %a) (%f (%do (%log arg) 1)) (%f 2)", "(%ifdef do (%log yes) (%log no))",
    "(%map (%lambda (x) (%log %x)) 1 2 3)", "(%match (%do (%log s) 1) (2 (%log two)) (1 (%log one)) (x (%log x)))", "(%for x in (a b) (%log %x))",
    "é (%log a \"b\nc\" 1)(%log)", "(%log 1) (%nosuch (%log 2)) (%log 3)", "(%sort (3 1 2) :key (%lambda (x) (%log %x) %x))",
];
