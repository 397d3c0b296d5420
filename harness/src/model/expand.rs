//! Reference expander: what a program means, from the documentation and the
//! observable conventions about whitespace. Only whether something is an error
//! (and for some errors where) is modelled, not the wording.

use super::{fmtstr, reader, tree::*};
use std::cmp::Ordering;
use std::collections::{HashMap, HashSet};
use std::path::PathBuf;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Stop {
    /// Must be an error; where, if that is specified.
    Err(&'static str, Option<Site>),
    /// Took more steps than the model allows.
    Fuel,
    /// Not something the model covers.
    Unknown(&'static str),
}
type X<T> = Result<T, Stop>;
fn err<T>(why: &'static str) -> X<T> { Err(Stop::Err(why, None)) }
fn err_at<T>(why: &'static str, s: Site) -> X<T> { Err(Stop::Err(why, Some(s))) }

/// Structured data a text was rendered from.
#[derive(Clone, Debug, PartialEq)]
pub enum Data { Scalar(char, String), Seq(Vec<Data>), Map(Vec<(String, Data)>) }

/// Longer texts are not made (recursion can double them at each step).
const TEXT_LIMIT: usize = 50_000;

#[derive(Debug)]
struct Def { params: Vec<N>, body: Vec<N> }

#[derive(Clone, Default)]
struct Scope { vars: HashMap<String, Rc<Def>>, own: HashSet<String> }
impl Scope {
    fn set(&mut self, name: String, d: Def) { self.own.insert(name.clone()); self.vars.insert(name, Rc::new(d)); }
    fn var(&mut self, name: &str, body: Vec<N>) { self.set(name.to_owned(), Def { params: vec![], body }); }
    /// A scope that starts out with everything visible here.
    fn inner(&self) -> Scope { Scope { vars: self.vars.clone(), own: HashSet::new() } }
}

#[derive(Default, Clone)]
pub struct Stats { pub calls: usize, pub vars: usize, pub builtins: HashMap<String, usize>, pub max_depth: usize, pub includes: usize,
    /// Names looked up in vain, and those defined in the end.
    pub missing: HashSet<String>, pub defined: HashSet<String> }

pub struct Model {
    pub includes: Vec<PathBuf>,
    pub data: HashMap<String, Data>,
    pub fuel: u64,
    pub max_depth: usize,
    pub stats: Stats,
    pub depth: usize,
    /// What the model does not cover gives some text (`true`) or is rejected (`false`).
    pub opaque: Option<bool>,
    pub opaque_used: bool,
    /// What was logged, and where.
    pub log: Vec<(Site, String)>,
    /// Included files by their number: path as reported, and text.
    pub sources: HashMap<u32, (String, String)>,
}

impl Default for Model {
    fn default() -> Self {
        Model { includes: vec![PathBuf::from(".")], data: HashMap::new(), fuel: 20_000, max_depth: 150, stats: Stats::default(), depth: 0, opaque: None, opaque_used: false, log: vec![], sources: HashMap::new() }
    }
}

/// Number-like texts as sort keys.
#[derive(Clone, Debug)]
enum Key { Int(i64), Float(f64), Text(String) }
fn key_of(t: &str) -> Key {
    if let Ok(i) = t.parse::<i64>() { return Key::Int(i); }
    match t.parse::<f64>() { Ok(f) if !f.is_nan() => Key::Float(f), _ => Key::Text(t.to_owned()) }
}
/// Exact order: scale both sides so that they become integers where possible.
fn int_vs_float(i: i64, f: f64) -> Ordering {
    if f.is_infinite() || f.abs() >= 1e30 { return if f > 0.0 { Ordering::Less } else { Ordering::Greater }; }
    let whole = f.floor();
    match (i as i128).cmp(&(whole as i128)) {
        Ordering::Equal => if f > whole { Ordering::Less } else { Ordering::Equal },
        o => o,
    }
}
fn key_cmp(a: &Key, b: &Key) -> Ordering {
    match (a, b) {
        (Key::Text(x), Key::Text(y)) => x.chars().cmp(y.chars()),
        (Key::Text(_), _) => Ordering::Greater,
        (_, Key::Text(_)) => Ordering::Less,
        (Key::Int(x), Key::Int(y)) => x.cmp(y),
        (Key::Float(x), Key::Float(y)) => x.partial_cmp(y).unwrap(),
        (Key::Int(x), Key::Float(y)) => int_vs_float(*x, *y),
        (Key::Float(x), Key::Int(y)) => int_vs_float(*y, *x).reverse(),
    }
}
pub fn text_cmp(a: &str, b: &str) -> Ordering { key_cmp(&key_of(a), &key_of(b)) }

#[derive(Clone, Copy, PartialEq)]
pub enum Ty { Literal, Str, Sym, Num, List, Any }
impl Ty {
    pub fn accepts(self, n: &N) -> bool {
        match self {
            Ty::Literal => n.atom().is_some(),
            Ty::Str => matches!(n, N::Str(_) | N::Raw(_)),
            Ty::Sym => matches!(n, N::Sym(_)),
            Ty::Num => matches!(n, N::Num(_)),
            Ty::List => matches!(n, N::List { .. }),
            Ty::Any => true,
        }
    }
}
pub struct Sig {
    pub mandatory: &'static [(Ty, &'static [&'static str])],
    pub optional: &'static [Ty],
    pub named: &'static [(&'static str, Ty, &'static [&'static str])],
    pub rest: Option<Ty>,
}
/// Signatures of the built-in macros that have one.
pub fn signature(name: &str) -> Option<Sig> {
    use Ty::*;
    const N0: &[(&str, Ty, &[&str])] = &[];
    let sig = |mandatory, optional, named, rest| Some(Sig { mandatory, optional, named, rest });
    match name {
        "markdown" => sig(&[(Str, &[])], &[], &[("only", Literal, &["frontmatter", "content"]), ("separator", Literal, &[])], None),
        "yaml" | "json" | "toml" => sig(&[(Str, &[])], &[], &[("separator", Literal, &[])], None),
        "get" => sig(&[(Literal, &[]), (Any, &[])], &[], &[("separator", Literal, &[])], None),
        "date" => sig(&[(Literal, &[])], &[Num], &[("timezone", Num, &[])], None),
        "timestamp" => sig(&[(Literal, &[]), (Literal, &[])], &[], &[("timezone", Num, &[])], None),
        "for" => sig(&[(Any, &[]), (Sym, &["in"]), (List, &[])], &[], N0, Some(Any)),
        "glob" => sig(&[(Literal, &[])], &[], &[("type", Literal, &["file", "directory", "any"]),
            ("sort", Literal, &["modified", "created", "name", "type", "none"]), ("order", Literal, &["ascending", "descending"])], None),
        "number" | "symbol" | "concat" => sig(&[], &[], N0, Some(Literal)),
        "reverse" => sig(&[(List, &[])], &[], N0, None),
        "sort" => sig(&[(Any, &[])], &[], &[("order", Literal, &["ascending", "descending"]), ("key", Sym, &[])], None),
        "join" => sig(&[(Literal, &[])], &[], &[("trailing", Literal, &["true", "false"])], Some(Literal)),
        "map" | "filter" | "apply" => sig(&[(Sym, &[])], &[], N0, Some(Any)),
        "lambda" => sig(&[(Any, &[])], &[], N0, Some(Any)),
        _ => None,
    }
}
pub const BUILTINS: &[&str] = &["define", "match", "ifdef", "do", "get", "raw", "string", "number", "symbol", "include", "embed",
    "namespace", "markdown", "yaml", "json", "toml", "glob", "for", "sort", "reverse", "date", "timestamp", "join", "concat", "map",
    "filter", "splat", "list", "strip", "apply", "lambda", "log", "format", "os/env"];

pub struct Args { pub pos: Vec<N>, pub named: HashMap<String, N>, pub rest: Vec<N> }

/// Checks a call against a signature.
pub fn arguments(sig: &Sig, params: &[N]) -> Result<Args, &'static str> {
    let mut a = Args { pos: vec![], named: HashMap::new(), rest: vec![] };
    let positions = sig.mandatory.len() + sig.optional.len();
    let mut seen = 0;
    for p in params {
        if let N::Attr { key, val, .. } = p {
            if let Some((_, ty, allowed)) = sig.named.iter().find(|(k, ..)| k == key) {
                if !ty.accepts(val) { return Err("option of the wrong type"); }
                if !allowed.is_empty() && !allowed.contains(&val.atom().unwrap().val.as_str()) { return Err("option value not allowed"); }
                a.named.insert(key.clone(), (**val).clone());
                continue;
            }
            match sig.rest { Some(Ty::Any) => a.rest.push(p.clone()), _ => return Err("unknown option") }
            continue;
        }
        let i = seen;
        seen += 1;
        if i < positions {
            let (ty, allowed): (Ty, &[&str]) = if i < sig.mandatory.len() { sig.mandatory[i] } else { (sig.optional[i - sig.mandatory.len()], &[]) };
            if !ty.accepts(p) { return Err("argument of the wrong type"); }
            if !allowed.is_empty() && !allowed.contains(&p.atom().unwrap().val.as_str()) { return Err("argument not allowed"); }
            a.pos.push(p.clone());
        } else {
            match sig.rest { Some(ty) if ty.accepts(p) => a.rest.push(p.clone()), _ => return Err("excess argument") }
        }
    }
    if a.pos.len() < sig.mandatory.len() { return Err("missing argument"); }
    Ok(a)
}

fn first_ws(mut v: Vec<N>, ws: &str) -> Vec<N> {
    if let Some(f) = v.first_mut() { f.set_ws(ws); }
    v
}
fn is_rest(n: &N) -> bool { n.sym().is_some_and(|a| a.val.starts_with('&') && !a.val.starts_with("&&")) }
fn is_kw_rest(n: &N) -> bool { n.sym().is_some_and(|a| a.val.starts_with("&&")) }

impl Model {
    /// Expands a whole program.
    pub fn program(&mut self, tree: &[N]) -> X<Vec<N>> {
        let mut s = Scope::default();
        let r = self.nodes(tree, &mut s);
        self.stats.defined.extend(s.vars.into_keys());
        r
    }

    fn nodes(&mut self, t: &[N], s: &mut Scope) -> X<Vec<N>> {
        let mut out = vec![];
        for n in t {
            out.extend(self.node(n, s)?);
            if out.len() > 20_000 { return Err(Stop::Fuel); }
        }
        Ok(out)
    }

    fn node(&mut self, n: &N, s: &mut Scope) -> X<Vec<N>> {
        if self.fuel == 0 { return Err(Stop::Fuel); }
        self.fuel -= 1;
        self.depth += 1;
        self.stats.max_depth = self.stats.max_depth.max(self.depth);
        if self.depth > self.max_depth { return Err(Stop::Fuel); }
        let r = self.node_(n, s);
        self.depth -= 1;
        r
    }

    fn node_(&mut self, n: &N, s: &mut Scope) -> X<Vec<N>> {
        match n {
            N::Sym(a) => {
                let Some(name) = a.val.strip_prefix('%') else { return Ok(vec![n.clone()]) };
                let Some(d) = s.vars.get(name).cloned() else { self.stats.missing.insert(name.to_owned()); return err_at("unknown variable", a.site) };
                if !d.params.is_empty() { return err_at("macro used as a variable", a.site); }
                self.stats.vars += 1;
                Ok(first_ws(self.nodes(&d.body, s)?, &a.ws))
            },
            N::List { ws, kids, end_ws, end, site } => {
                if let Some(name) = kids.first().and_then(N::sym).and_then(|a| a.val.strip_prefix('%')) {
                    let mut params = kids[1..].to_vec();
                    if let Some(f) = params.first_mut() { if !f.ws().contains('\n') { f.set_ws(""); } }
                    return self.call(name, n, params, s);
                }
                let kids = self.nodes(kids, s)?;
                Ok(vec![N::List { ws: ws.clone(), kids, end_ws: end_ws.clone(), end: *end, site: *site }])
            },
            N::Attr { ws, key, val, site } => {
                let mut v = self.node(val, s)?;
                if v.is_empty() { return err_at("attribute without value", *site); }
                let first = v.remove(0);
                v.insert(0, N::Attr { ws: ws.clone(), key: key.clone(), val: Box::new(first), site: *site });
                Ok(v)
            },
            _ => Ok(vec![n.clone()]),
        }
    }

    fn sig(&self, name: &str, params: &[N]) -> X<Args> {
        arguments(&signature(name).expect("signature"), params).map_err(|e| Stop::Err(e, None))
    }

    fn call(&mut self, name: &str, node: &N, params: Vec<N>, s: &mut Scope) -> X<Vec<N>> {
        match (self.call_modelled(name, node, params, s), self.opaque) {
            (Err(Stop::Unknown(_)), Some(fine)) => {
                self.opaque_used = true;
                if fine { Ok(vec![N::Str(Atom { ws: node.ws().into(), val: "opaque".into(), site: node.site() })]) } else { err("opaque") }
            },
            (r, _) => r,
        }
    }

    fn call_modelled(&mut self, name: &str, node: &N, params: Vec<N>, s: &mut Scope) -> X<Vec<N>> {
        if BUILTINS.contains(&name) { *self.stats.builtins.entry(name.into()).or_insert(0) += 1; }
        let ws = node.ws().to_owned();
        let site = node.site();
        match name {
            // ---- lazy ones
            "define" => {
                let Some((head, body)) = params.split_first() else { return err("define without a name") };
                match head {
                    N::Sym(a) => { let body = self.nodes(body, s)?; s.set(a.val.clone(), Def { params: vec![], body }); },
                    N::List { kids, .. } => {
                        let Some((N::Sym(f), ps)) = kids.split_first() else { return err("function without a name") };
                        self.check_params(ps)?;
                        s.set(f.val.clone(), Def { params: ps.to_vec(), body: body.to_vec() });
                    },
                    _ => return err("define of something else"),
                }
                Ok(vec![])
            },
            "lambda" => {
                let a = self.sig(name, &params)?;
                let ps = match &a.pos[0] {
                    N::List { kids, .. } => kids.clone(),
                    p @ N::Sym(_) => vec![p.clone()],
                    _ => return err("lambda parameters"),
                };
                self.check_params(&ps)?;
                let val = format!("__lambda{}-{}", site.file, site.off);
                s.set(val.clone(), Def { params: ps, body: a.rest });
                Ok(vec![N::Sym(Atom { ws, val, site })])
            },
            "ifdef" => {
                if params.len() < 2 || params.len() > 3 { return err("ifdef arguments"); }
                let Some(a) = params[0].atom() else { return err("ifdef name") };
                if !s.vars.contains_key(&a.val) { self.stats.missing.insert(a.val.clone()); }
                let branch = if s.vars.contains_key(&a.val) { Some(&params[1]) } else { params.get(2) };
                let out = match branch { Some(b) => self.node(b, s)?, None => vec![] };
                Ok(first_ws(out, &ws))
            },
            "match" => {
                let Some((e, pats)) = params.split_first() else { return err("match without a value") };
                let e = self.node(e, s)?;
                let [e] = &e[..] else { return err("match value") };
                for p in pats {
                    let Some((pat, body)) = p.list().and_then(|l| l.split_first()) else { return err("match pattern") };
                    let pat = self.node(pat, s)?;
                    let [pat] = &pat[..] else { return err("match pattern count") };
                    let mut inner = s.inner();
                    match self.bind(pat, e, &mut inner) {
                        Ok(()) => return self.nodes(body, &mut inner),
                        Err(Stop::Err(..)) => {},
                        Err(e) => return Err(e),
                    }
                }
                Ok(vec![])
            },
            "for" => {
                let a = self.sig(name, &params)?;
                let items = self.nodes(a.pos[2].list().unwrap(), s)?;
                let mut inner = s.inner();
                let mut out = vec![];
                for item in &items {
                    self.bind(&a.pos[0], item, &mut inner)?;
                    out.extend(self.nodes(&a.rest, &mut inner)?);
                    if out.len() > 20_000 { return Err(Stop::Fuel); }
                }
                Ok(out)
            },
            "namespace" => {
                let mut inner = s.inner();
                let args = self.nodes(&params, &mut inner)?;
                let mut it = args.into_iter().peekable();
                let Some(ns) = it.next().and_then(|n| n.atom().map(|a| a.val.clone())) else { return err("namespace name") };
                let mut sep = "/".to_owned();
                while let Some(N::Attr { key, val, .. }) = it.peek() {
                    if key != "separator" { return err("namespace option"); }
                    let Some(a) = val.atom() else { return err("namespace separator") };
                    sep = a.val.clone();
                    it.next();
                }
                for k in &inner.own {
                    let d = inner.vars[k].clone();
                    let full = format!("{ns}{sep}{k}");
                    s.own.insert(full.clone());
                    s.vars.insert(full, d);
                }
                Ok(it.collect())
            },
            // ---- eager ones
            _ => {
                let params = self.nodes(&params, s)?;
                self.eager(name, node, params, s)
            },
        }
    }

    fn check_params(&self, ps: &[N]) -> X<()> {
        if ps.iter().filter(|p| is_rest(p)).count() > 1 || ps.iter().filter(|p| is_kw_rest(p)).count() > 1 { return err("two rest parameters"); }
        Ok(())
    }

    /// `name` applied to arguments that are already expanded (or about to be, once more).
    fn invoke(&mut self, name: &str, node: &N, params: Vec<N>, s: &mut Scope) -> X<Vec<N>> { self.call(name, node, params, s) }

    fn eager(&mut self, name: &str, node: &N, params: Vec<N>, s: &mut Scope) -> X<Vec<N>> {
        let ws = node.ws().to_owned();
        let site = node.site();
        let string = |val: String| if val.len() > TEXT_LIMIT { Err(Stop::Fuel) } else { Ok(vec![N::Str(Atom { ws: ws.clone(), val, site })]) };
        let literals = |v: &[N]| -> X<Vec<Atom>> {
            v.iter().map(|n| n.atom().cloned().ok_or(Stop::Err("literal expected", None))).collect()
        };
        match name {
            "do" => Ok(params),
            "list" => {
                let N::List { end_ws, end, .. } = node else { return Err(Stop::Unknown("list call without a list")) };
                Ok(vec![N::List { ws, kids: params, end_ws: end_ws.clone(), end: *end, site }])
            },
            "strip" => Ok(first_ws(params, "")),
            "splat" => {
                let mut out = vec![];
                for p in params {
                    match p { N::List { ws, kids, .. } => out.extend(first_ws(kids, &ws)), p => out.push(p) }
                }
                Ok(out)
            },
            "raw" | "string" => {
                let text: String = literals(&params)?.iter().map(|a| format!("{}{}", a.ws, a.val)).collect();
                if text.len() > TEXT_LIMIT { return Err(Stop::Fuel); }
                let a = Atom { ws, val: text, site };
                Ok(vec![if name == "raw" { N::Raw(a) } else { N::Str(a) }])
            },
            "number" | "symbol" => {
                let a = self.sig(name, &params)?;
                Ok(literals(&a.rest)?.into_iter().map(|a| if name == "number" { N::Num(a) } else { N::Sym(a) }).collect())
            },
            "concat" => { let a = self.sig(name, &params)?; string(literals(&a.rest)?.iter().map(|a| a.val.as_str()).collect()) },
            "join" => {
                let a = self.sig(name, &params)?;
                let sep = &a.pos[0].atom().unwrap().val;
                let mut text = String::new();
                for (i, x) in literals(&a.rest)?.iter().enumerate() {
                    if i > 0 { text += sep; }
                    text += &x.val;
                }
                if a.named.get("trailing").is_some_and(|n| n.atom().unwrap().val == "true") { text += sep; }
                string(text)
            },
            "get" => {
                let a = self.sig(name, &params)?;
                let sep = a.named.get("separator").map_or("/".to_owned(), |n| n.atom().unwrap().val.clone());
                let path = &a.pos[0].atom().unwrap().val;
                if sep.is_empty() { return Err(Stop::Unknown("empty separator")); }
                let mut at = a.pos[1].clone();
                for step in path.split(sep.as_str()) {
                    let Some(l) = at.list() else { return err("get from something else than a list") };
                    // Positions have digits (and at most a plus) only.
                    let by_index = step.parse::<usize>().ok().and_then(|i| l.get(i).cloned());
                    let by_name = || l.iter().find_map(|n| match n { N::Attr { key, val, .. } if key == step => Some((**val).clone()), _ => None });
                    at = match by_index.or_else(by_name) { Some(n) => n, None => return err("get: no such item") };
                }
                Ok(vec![at])
            },
            "reverse" => {
                self.sig(name, &params)?;
                let N::List { ws, kids, end_ws, end, site } = params[0].clone() else { unreachable!() };
                let mut r: Vec<N> = kids.iter().rev().cloned().collect();
                for (n, old) in r.iter_mut().zip(&kids) { n.set_ws(old.ws()); }
                Ok(vec![N::List { ws, kids: r, end_ws, end, site }])
            },
            "sort" => {
                let a = self.sig(name, &params)?;
                let N::List { kids, end_ws, end, site: lsite, .. } = a.pos[0].clone() else { return err("sort of something else than a list") };
                let f = a.named.get("key").map_or("do".to_owned(), |n| n.atom().unwrap().val.clone());
                let descending = a.named.get("order").is_some_and(|n| n.atom().unwrap().val == "descending");
                let mut items = vec![];
                for k in &kids {
                    let v = self.invoke(&f, node, vec![k.clone()], s)?;
                    let [v] = &v[..] else { return err("sort key count") };
                    let Some(v) = v.atom() else { return err("sort key kind") };
                    items.push((key_of(&v.val), k.clone()));
                }
                // Insertion sort: stable by construction.
                let mut sorted: Vec<(Key, N)> = vec![];
                for it in items {
                    let mut i = sorted.len();
                    while i > 0 {
                        let o = key_cmp(&it.0, &sorted[i - 1].0);
                        if o == if descending { Ordering::Greater } else { Ordering::Less } { i -= 1; } else { break; }
                    }
                    sorted.insert(i, it);
                }
                let mut r: Vec<N> = sorted.into_iter().map(|x| x.1).collect();
                for (n, old) in r.iter_mut().zip(&kids) { n.set_ws(old.ws()); }
                Ok(vec![N::List { ws, kids: r, end_ws, end, site: lsite }])
            },
            "map" | "filter" => {
                let a = self.sig(name, &params)?;
                let f = a.pos[0].atom().unwrap().val.clone();
                let mut out = vec![];
                for x in a.rest {
                    let r = self.invoke(&f, node, vec![x], s)?;
                    if name == "filter" { if let [N::List { kids, .. }] = &r[..] { if kids.is_empty() { continue; } } }
                    out.extend(r);
                    if out.len() > 20_000 { return Err(Stop::Fuel); }
                }
                Ok(out)
            },
            "apply" => {
                let a = self.sig(name, &params)?;
                let f = a.pos[0].atom().unwrap().val.clone();
                self.invoke(&f, node, a.rest, s)
            },
            "log" => {
                let words: Vec<String> = literals(&params)?.into_iter().map(|a| a.val).collect();
                self.log.push((site, words.join(" ")));
                Ok(vec![])
            },
            "os/env" => {
                let [p] = &params[..] else { return err("env arguments") };
                let Some(a) = p.atom() else { return err("env name") };
                match std::env::var(&a.val) {
                    Ok(val) => Ok(vec![N::Str(Atom { val, ..a.clone() })]),
                    Err(_) => err("no such variable"),
                }
            },
            "format" => {
                let Some((N::Str(t), args)) = params.split_first() else { return err("format string") };
                let mut av = vec![];
                for a in args {
                    // The formatting library takes numbers for positions.
                    if matches!(a, N::Attr { key, .. } if key.chars().all(|c| c.is_ascii_digit())) { return Err(Stop::Unknown("format argument with a numeric name")); }
                    av.push(match a {
                        N::Attr { key, val, .. } => fmtstr::Arg::Named(key.clone(), val.atom().ok_or(Stop::Err("format value", None))?.val.clone()),
                        n => fmtstr::Arg::Pos(n.atom().ok_or(Stop::Err("format value", None))?.val.clone()),
                    });
                }
                let Some(p) = fmtstr::parse(&t.val) else { return Err(Stop::Unknown("format string")) };
                match fmtstr::format(&p, &av) {
                    Ok(v) => string(v),
                    Err(true) => err("format arguments"),
                    Err(false) => Err(Stop::Unknown("format")),
                }
            },
            "yaml" | "json" | "toml" => {
                let a = self.sig(name, &params)?;
                let sep = a.named.get("separator").map_or("/".to_owned(), |n| n.atom().unwrap().val.clone());
                let text = &a.pos[0].atom().unwrap().val;
                let Some(d) = self.data.get(text).cloned() else { return Err(Stop::Unknown("data")) };
                let n = data_node(&d, site, "");
                define_data(&d, &n, &sep, &mut vec![], s);
                Ok(vec![n])
            },
            "embed" => {
                let [p] = &params[..] else { return err("embed arguments") };
                let Some(a) = p.atom() else { return err("embed path") };
                for d in self.includes.clone() {
                    if let Ok(b) = std::fs::read(d.join(&a.val)) {
                        if let Ok(t) = String::from_utf8(b) { return string(t); }
                    }
                }
                err_at("no such file", a.site)
            },
            "include" => {
                let [p] = &params[..] else { return err("include arguments") };
                let Some(a) = p.atom() else { return err("include path") };
                if a.val.is_empty() { return Err(Stop::Unknown("empty path")); }
                for d in self.includes.clone() {
                    for name in [a.val.clone(), format!("{}.sex", a.val)] {
                        let path = d.join(&name);
                        let Some(text) = std::fs::read(&path).ok().and_then(|b| String::from_utf8(b).ok()) else { continue };
                        let tree = match reader::read(&text, &path.to_string_lossy()) {
                            Ok(t) => t,
                            Err(_) => return err_at("malformed include", site),
                        };
                        self.stats.includes += 1;
                        self.sources.insert(file_id(&path.to_string_lossy()), (path.to_string_lossy().into_owned(), text));
                        return Ok(first_ws(self.nodes(&tree, s)?, &ws));
                    }
                }
                err_at("no such file", a.site)
            },
            // Only their simplest uses have a value here; all are checked.
            "markdown" | "glob" | "date" | "timestamp" => {
                let a = self.sig(name, &params)?;
                let text = |i: usize| a.pos.get(i).and_then(|n| n.atom()).map(|a| a.val.as_str());
                let is = |o: &str, v: &[&str]| a.named.get(o).is_none_or(|n| v.contains(&n.atom().unwrap().val.as_str()));
                let tz = is("timezone", &["0", "5", "-3", "1.5"]);
                let digits = |t: &str| !t.is_empty() && t.len() < 9 && t.bytes().all(|b| b.is_ascii_digit());
                let t = text(0).unwrap();
                let atom = |val: String| Atom { ws: ws.clone(), val, site };
                match name {
                    "date" if !t.contains('%') && tz && text(1).is_some_and(|t| digits(t.strip_prefix('-').unwrap_or(t))) => Ok(vec![N::Str(atom(t.to_owned()))]),
                    "timestamp" if t == "%s" && tz && digits(text(1).unwrap()) => Ok(vec![N::Num(atom(text(1).unwrap().parse::<u64>().unwrap().to_string()))]),
                    "glob" if t.starts_with("nosuch-") && t.bytes().all(|b| b.is_ascii_lowercase() || b == b'-') => Ok(vec![]),
                    "markdown" if digits(t.trim_start_matches('x').trim_start_matches('y')) && t.starts_with('x') && is("only", &["content"]) => Ok(vec![N::Raw(atom(format!("<p>{t}</p>")))]),
                    _ => Err(Stop::Unknown("not modelled")),
                }
            },
            // ---- user macros
            _ => {
                let Some(d) = s.vars.get(name).cloned() else { self.stats.missing.insert(name.to_owned()); return err_at("unknown macro", site) };
                self.stats.calls += 1;
                let mut inner = s.inner();
                self.bind_list(&d.params, &params, &mut inner)?;
                self.nodes(&d.body, &mut inner)
            },
        }
    }

    fn bind(&mut self, pat: &N, val: &N, s: &mut Scope) -> X<()> {
        match (pat, val) {
            (N::Sym(a), _) => { s.var(&a.val, vec![val.clone()]); Ok(()) },
            (N::Attr { key: k0, val: p, .. }, N::Attr { key: k1, val: v, .. }) if k0 == k1 => self.bind(p, v, s),
            (N::List { kids: p, .. }, N::List { kids: v, .. }) => self.bind_list(p, v, s),
            (N::Num(p), N::Num(v)) if p.val == v.val => Ok(()),
            (N::Str(p) | N::Raw(p), N::Str(v) | N::Raw(v)) if p.val == v.val => Ok(()),
            _ => err("does not match"),
        }
    }

    fn bind_list(&mut self, params: &[N], args: &[N], s: &mut Scope) -> X<()> {
        if params.iter().filter(|p| is_rest(p)).count() > 1 || params.iter().filter(|p| is_kw_rest(p)).count() > 1 { return err("two rest patterns"); }
        let plain: Vec<&N> = params.iter().filter(|p| !p.is_attr() && !is_rest(p) && !is_kw_rest(p)).collect();
        let given: Vec<&N> = args.iter().filter(|a| !a.is_attr()).collect();
        if given.len() < plain.len() { return err("too few arguments"); }
        let rest = params.iter().find(|p| is_rest(p));
        if given.len() > plain.len() && rest.is_none() { return err("too many arguments"); }
        for (p, a) in plain.iter().zip(&given) { self.bind(p, a, s)?; }
        if let Some(r) = rest {
            let extra = given[plain.len()..].iter().map(|n| (*n).clone()).collect();
            s.var(&r.sym().unwrap().val[1..], extra);
        }
        // Keywords: the last value given, else the default; unknown ones need &&rest.
        let mut left: Vec<(String, N)> = vec![];
        for a in args {
            let N::Attr { key, .. } = a else { continue };
            match left.iter_mut().find(|(k, _)| k == key) { Some(slot) => slot.1 = a.clone(), None => left.push((key.clone(), a.clone())) }
        }
        for p in params {
            let N::Attr { key, val: default, .. } = p else { continue };
            let given = args.iter().rev().find_map(|a| match a { N::Attr { key: k, val, .. } if k == key => Some((**val).clone()), _ => None });
            s.var(key, vec![given.unwrap_or_else(|| (**default).clone())]);
            left.retain(|(k, _)| k != key);
        }
        if let Some(r) = params.iter().find(|p| is_kw_rest(p)) {
            s.var(&r.sym().unwrap().val[2..], left.into_iter().map(|(_, n)| n).collect());
        } else if !left.is_empty() {
            return err("unknown keyword");
        }
        Ok(())
    }
}

/// The node a data value becomes.
pub fn data_node(d: &Data, site: Site, ws: &str) -> N {
    match d {
        Data::Scalar(kind, v) => {
            let a = Atom { ws: ws.into(), val: v.clone(), site };
            match kind { '#' => N::Num(a), '\'' => N::Sym(a), _ => N::Str(a) }
        },
        Data::Seq(v) => N::List { ws: ws.into(), end_ws: String::new(), end: site, site,
            kids: v.iter().enumerate().map(|(i, d)| data_node(d, site, if i == 0 { "" } else { " " })).collect() },
        Data::Map(v) => N::List { ws: ws.into(), end_ws: String::new(), end: site, site,
            kids: v.iter().enumerate().map(|(i, (k, d))| N::Attr { ws: if i == 0 { "".into() } else { " ".into() }, key: k.clone(), site,
                val: Box::new(data_node(d, site, " ")) }).collect() },
    }
}
fn define_data(d: &Data, n: &N, sep: &str, path: &mut Vec<String>, s: &mut Scope) {
    if !path.is_empty() { s.var(&path.join(sep), vec![n.clone()]); }
    let kids = n.list().unwrap_or(&[]);
    match d {
        Data::Scalar(..) => {},
        Data::Seq(v) => for (i, d) in v.iter().enumerate() { path.push(i.to_string()); define_data(d, &kids[i], sep, path, s); path.pop(); },
        Data::Map(v) => for (i, (k, d)) in v.iter().enumerate() {
            let N::Attr { val, .. } = &kids[i] else { unreachable!() };
            path.push(k.clone()); define_data(d, val, sep, path, s); path.pop();
        },
    }
}
/// Names a data value defines, with the node of each.
pub fn data_definitions(d: &Data, sep: &str) -> Vec<(String, N)> {
    let n = data_node(d, Site::default(), "");
    let mut s = Scope::default();
    define_data(d, &n, sep, &mut vec![], &mut s);
    let mut v: Vec<_> = s.vars.into_iter().map(|(k, d)| (k, d.body[0].clone())).collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}
