//! C14–C19, C22: programs against the reference expander.

use crate::engine::*;
use crate::gen::*;
use crate::model::{expand::*, reader, tree::*};
use crate::prog::*;
use crate::util::*;
use std::collections::HashMap;

/// Compares seam with the reference on one program.
pub fn check_program(src: &str, data: HashMap<String, Data>, env: &Env, cx: &mut Cx) -> Result<(Model, Option<Vec<N>>), Fail> {
    let tree = match reader::read(src, env.path.as_deref().unwrap_or("<stdin>")) { Ok(t) => t, Err(e) => return bad(format!("generated program is not readable: {e:?}")) };
    let mut m = Model { data, ..Model::default() };
    m.includes.extend(env.includes.iter().cloned());
    let want = m.program(&tree);
    match &want {
        Err(Stop::Fuel) => return discard("too many steps"),
        Err(Stop::Unknown(w)) => return discard(w),
        _ => {},
    }
    let got = seam_expand(src, env);
    match (got, want) {
        (Ok(g), Ok(w)) => {
            if let Some(d) = diff_all(&g, &w, LAYOUT) {
                return bad(format!("{d}\n   got: {}\n  want: {}", show_all(&g), show_all(&w)));
            }
            cx.label("expanded");
            Ok((m, Some(w)))
        },
        (Err(_), Err(Stop::Err(why, _))) => { cx.label(&format!("error: {why}")); Ok((m, None)) },
        (Ok(g), Err(Stop::Err(why, _))) => bad(format!("must be rejected ({why}), but expanded to {}", show_all(&g))),
        (Err(e), Ok(w)) => bad(format!("must expand to {}\nbut was rejected: {}", show_all(&w), e.msg)),
        _ => unreachable!(),
    }
}

pub struct Programs {
    pub id: &'static str,
    pub rule: &'static str,
    pub focus: &'static [(&'static str, u64)],
    /// Built-ins of which one must have been used (empty: user macros or variables).
    pub relevant: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    pub examples: &'static [&'static str],
}

impl Prop for Programs {
    fn id(&self) -> &'static str { self.id }
    fn rule(&self) -> &'static str { self.rule }
    fn cases(&self, thorough: bool) -> u64 { if thorough { self.thorough } else { self.quick } }
    fn run(&self, s: &mut Src, cx: &mut Cx) -> R {
        let wild = s.choose(&[0, 0, 0, 40, 12]);
        let mut p = Pg::new(self.focus, wild);
        let g = p.program(s);
        let split = if self.id == "C17" { 10 } else { 40 };
        if !s.chance(1, split) {
            let lay = layout(s);
            let (src, _) = render(s, &g, lay, "<stdin>");
            about_to_run(s, cx, &src);
            return self.judge(&src, p.data, cx);
        }
        // The same in parts: some of them in files which are included in their place.
        super::files::clear(super::files::ROOT);
        let mut parts: Vec<Vec<G>> = vec![vec![]];
        for x in g { if s.chance(1, 2) { parts.push(vec![]); } parts.last_mut().unwrap().push(x); }
        let mut main = vec![];
        let mut shown = String::new();
        let mut names = vec!["one", "two", "three"];
        for part in parts {
            if part.is_empty() { continue; }
            let Some(name) = names.first().copied().filter(|_| s.chance(2, 3)) else { main.extend(part); continue };
            names.remove(0);
            let (t, _) = render(s, &part, Layout::Plain, name);
            shown += &format!("\n=== {name}.sex\n{t}");
            std::fs::write(format!("{name}.sex"), &t).unwrap();
            main.push(call("include", vec![sym(name)]));
        }
        let (src, _) = render(s, &main, Layout::Plain, "<stdin>");
        about_to_run(s, cx, format!("{src}{shown}"));
        cx.label("in several files");
        self.judge(&src, p.data, cx)
    }
    fn examples(&self) -> usize { self.examples.len() }
    fn example(&self, i: usize, cx: &mut Cx) -> R { cx.show(self.examples[i]); self.judge(self.examples[i], HashMap::new(), cx) }
}

impl Programs {
    fn judge(&self, src: &str, data: HashMap<String, Data>, cx: &mut Cx) -> R {
        let (m, out) = check_program(src, data, &Env::default(), cx)?;
        let used = if self.relevant.is_empty() { m.stats.calls + m.stats.vars >= 2 } else { self.relevant.iter().any(|b| m.stats.builtins.contains_key(*b)) };
        for b in m.stats.builtins.keys() { cx.label(&format!("%{b}")); }
        cx.nontrivial = used && out.is_some_and(|o| !o.is_empty());
        Ok(())
    }
}

pub fn all() -> Vec<Programs> {
    vec![
        Programs { id: "C14", rule: "Random programs of (re)definitions, shadowing, calls, loops, matches, namespaces at any depth, rendered with random layout; the expanded tree (kinds, values, whitespace) must equal the reference expander's, errors included. Non-trivial: expands to something using at least two variables or user macros.",
            focus: &[("top-define", 5), ("top-deffun", 5), ("var", 14), ("call", 10), ("define", 3), ("deffun", 2), ("top-namespace", 2), ("ifdef", 3), ("lambda-call", 2)], relevant: &[], quick: 260_000, thorough: 9_000_000,
            examples: &["(%define x 1) a\n  %x(%define x %x 2) %x", "(%define (f) %y) (%define y 1) (%f) (%define y 2) (%f)", "(%define (f) (%define z 1) %z) (%f) (%ifdef z yes no)", "%nope", "(%define (f a) %a) %f", "(%define x) a %x b"] },
        Programs { id: "C15", rule: "Random parameter lists (positional, literal, nested, keyword with default, &rest, &&rest) and argument lists fitting them or nearly so, in macro calls, lambdas, loops and %match, against the reference expander. Non-trivial: at least one call or match with its result shown.",
            focus: &[("top-deffun", 8), ("call", 20), ("match", 8), ("apply", 4), ("lambda-call", 6), ("lit-param", 3), ("nest-param", 5), ("kw-param", 6), ("for", 4)], relevant: &[], quick: 240_000, thorough: 9_000_000,
            examples: &["(%define (f &&o a :k 1 &r) (o %o) %a %k (r %r)) (%f :z 1 2 :b 3 4 :k 5 :z 6)", "(%match (1 \"x\") ((2 a) no) ((1 \"x\" &r) yes %r))", "(%define (f (a :k 2) b) %a %k %b) (%f (1 :k 3) (2))", "(%define (f &a &b) x)", "(%define (f a) %a) (%f)", "(%define (f a) %a) (%f 1 2)", "(%define (f a) %a) (%f 1 :k 2)"] },
        Programs { id: "C16", rule: "Random nestings of do, ifdef, for, list, splat, strip, reverse and get, against the reference expander. Non-trivial: one of them ran and the output is not empty.",
            focus: &[("do", 5), ("ifdef", 6), ("for", 6), ("list", 10), ("splat", 6), ("strip", 4), ("reverse", 6), ("get", 12), ("top-deffun", 1), ("call", 1)],
            relevant: &["do", "ifdef", "for", "list", "splat", "strip", "reverse", "get"], quick: 260_000, thorough: 9_000_000,
            examples: &["(%reverse (a b  c\nd))", "(%splat (a) () b (c (d)))", "(%for x in (1 2 3) %x \",\")", "(%for (k v) in ((a 1) (b 2)) (%k is %v))", "(%get x/1 (:x (a b)))", "(%get 5 (a b))", "(%ifdef do 1 2) (%ifdef q 1)", "(%get \"0.k\" ((:k 1)) :separator .)", "(%ifdef q 1 2 3)", "(%do :k (%ifdef q 1))"] },
        Programs { id: "C17", rule: "Random uses of map, filter, apply and lambda with user macros, built-ins and lambdas as functions, against the reference expander, which calls the function directly. Non-trivial: one of them ran and the output is not empty.",
            focus: &[("map", 10), ("filter", 8), ("apply", 8), ("lambda-call", 6), ("lambda", 6), ("top-deffun", 6), ("top-lambda", 8)], relevant: &["map", "filter", "apply", "lambda"], quick: 240_000, thorough: 9_000_000,
            examples: &["(%define (f x) (%x)) (%map f 1 2 3)", "(%filter (%lambda (x) (%match %x (1 ()) (y %y))) 1 2 1 3)", "(%apply join , a b c)", "(%map (%lambda x (%x)) a b)", "(%filter splat (a) ())", "(%map \"do\" 1)", "(%apply nosuch 1)"] },
        Programs { id: "C19", rule: "Random nestings of join, concat, string, raw, symbol, number and format over literals of every kind, against the reference expander. Non-trivial: one of them ran and the output is not empty.",
            focus: &[("concat", 8), ("join", 8), ("string", 8), ("raw", 6), ("symbol", 5), ("number", 5), ("numbers", 4), ("format", 12), ("env", 1)],
            relevant: &["join", "concat", "string", "raw", "symbol", "number", "format", "os/env"], quick: 260_000, thorough: 9_000_000,
            examples: &["(%join \", \" a b c :trailing true)", "(%string a  b\n c)", "(%format \"{} {k} {}\" 1 :k v 2)", "(%format \"{}\" \"[{}]\")", "(%format \"[{}]\" a)", "(%format \"{{}} {}\" \"}{\")", "(%raw \"<\" b >)", "(%format \"{\" a)", "(%format \"{:<5}|{:>5}|{:^5}|{:*<5}\" a b c ddd)", "(%format \"{}\")", "(%concat (a))", "(%number a \"b\")"] },
        Programs { id: "C22", rule: "Random sequences of definitions before, inside (directly, nested, via JSON data) and after namespaces, with repeated namespaces and custom separators, and uses of plain and qualified names, against the reference expander. Non-trivial: a namespace was expanded and the output is not empty.",
            focus: &[("top-namespace", 12), ("namespace", 6), ("top-define", 5), ("top-deffun", 4), ("var", 14), ("call", 8), ("data", 3), ("ifdef", 6)], relevant: &["namespace"], quick: 240_000, thorough: 9_000_000,
            examples: &["(%define x 1) (%namespace n (%define y 2) z) %n/y (%ifdef y bad ok) (%ifdef n/x bad ok)", "(%namespace n :separator . (%define x 1) (%define (f a) %a)) %n.x (%n.f 2)", "(%namespace a (%namespace b (%define x 1))) %a/b/x (%ifdef b/x bad ok)", "(%define x 1) (%namespace n (%define x %x 2)) %n/x %x", "(%namespace (a))", "(%namespace n :sep x)"] },
    ]
}
