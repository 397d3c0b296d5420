//! C30: equality, hashing and searching of nodes.

use crate::engine::*;
use crate::gen::*;
use crate::model::tree::*;
use crate::util::*;
use seam::parse::parser::{ParseNode, SearchTree, SearchType};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};

pub struct C30;

const NAMES: &[&str] = &["a", "b", "A", "É", "é", "1", "-1", "1.0", "ab", "html", "HTML", "Html", "x y", ""];

/// A tree over few names, so that equal ones, and nearly equal ones, are common.
fn node(s: &mut Src, d: usize) -> G {
    let name = |s: &mut Src| s.pick(NAMES);
    match s.weighted(&[5, 2, 4, if d > 0 { 6 } else { 0 }, if d > 0 { 3 } else { 0 }, 2]) {
        0 => { let n = name(s); if n.is_empty() { st("") } else { sym(n) } },
        1 => sym(s.pick(&["1", "-1", "1.0", "+1", "01"])),
        2 => st(name(s)),
        3 => ls(s.many(0, 5, 2, |s| node(s, d - 1))),
        4 => { let k = s.pick(&["a", "b", "A", "1", "html", ""]); at(k, node(s, d - 1)) },
        _ => match s.below(3) { 0 => G::Tok(s.pick(&["\\1", "\\-1", "\\1.0"]).to_owned()), _ => call("raw", vec![st(name(s))]) },
    }
}

/// One small change of content.
fn change(s: &mut Src, v: &mut Vec<G>) {
    let n: usize = v.iter().map(size).sum();
    let mut k = s.below(n.max(1));
    fn go(s: &mut Src, v: &mut Vec<G>, k: &mut usize) -> bool {
        for i in 0..v.len() {
            if *k == 0 {
                match s.below(6) {
                    0 => { v.remove(i); },
                    1 => { let g = node(s, 1); v.insert(i, g); },
                    2 => { let g = v[i].clone(); v[i] = ls(vec![g]); },
                    3 => { let g = v[i].clone(); v[i] = match g { G::Sym(t) => st(t), G::Str(t) if !t.is_empty() => sym(t), G::Attr(_, x) => *x, g => at("a", g) }; },
                    4 => if i + 1 < v.len() { v.swap(i, i + 1); },
                    _ => { let g = v[i].clone(); v[i] = match g { G::Sym(t) => sym(flip(&t)), G::Str(t) => st(flip(&t)), G::Attr(k, x) => G::Attr(flip(&k), x), G::List(mut x) => { x.push(sym("a")); ls(x) }, g => g }; },
                }
                return true;
            }
            *k -= 1;
            match &mut v[i] {
                G::List(x) => { let raw = matches!(x.first(), Some(G::Sym(t)) if t == "%raw"); if raw { *k = k.saturating_sub(2); } else if go(s, x, k) { return true; } },
                G::Attr(_, x) => { let mut one = vec![(**x).clone()]; if go(s, &mut one, k) { **x = if one.len() == 1 { one.pop().unwrap() } else { ls(one) }; return true; } },
                _ => {},
            }
        }
        false
    }
    go(s, v, &mut k);
}
fn flip(t: &str) -> String {
    match t { "a" => "A".into(), "A" => "a".into(), "1" => "1.0".into(), "-1" => "+1".into(), "x y" => "xy".into(), "" => "a".into(), t => format!("{t}a") }
}

/// The same content, whatever the layout and position.
fn same(a: &N, b: &N) -> bool {
    match (a, b) {
        (N::Sym(x), N::Sym(y)) | (N::Num(x), N::Num(y)) | (N::Str(x), N::Str(y)) | (N::Raw(x), N::Raw(y)) => x.val == y.val,
        (N::List { kids: x, .. }, N::List { kids: y, .. }) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(x, y)),
        (N::Attr { key: j, val: x, .. }, N::Attr { key: k, val: y, .. }) => j == k && same(x, y),
        _ => false,
    }
}

fn all<'t, 'a>(t: &'t [ParseNode<'a>], out: &mut Vec<&'t ParseNode<'a>>) {
    for n in t {
        out.push(n);
        match n { ParseNode::List { nodes, .. } => all(nodes, out), ParseNode::Attribute { node, .. } => all(std::slice::from_ref(node), out), _ => {} }
    }
}
fn hash(n: &ParseNode) -> u64 { let mut h = DefaultHasher::new(); n.hash(&mut h); h.finish() }

const KINDS: [SearchType; 6] = [SearchType::ListHead, SearchType::Symbol, SearchType::Number, SearchType::String, SearchType::Attribute, SearchType::Any];
const KIND_NAMES: [&str; 6] = ["list head", "symbol", "number", "string", "attribute", "any"];

/// Path of the first match: the number of the node in reading order.
fn find(t: &[N], kind: usize, eq: &dyn Fn(&str) -> bool, level: usize, count: &mut usize) -> Option<usize> {
    if level == 0 { return None; }
    let is = |k: &str| KIND_NAMES[kind] == k || KIND_NAMES[kind] == "any";
    for n in t {
        let me = *count;
        *count += 1;
        match n {
            N::Sym(a) => if is("symbol") && eq(&a.val) { return Some(me) },
            N::Num(a) => if is("number") && eq(&a.val) { return Some(me) },
            N::Str(a) | N::Raw(a) => if is("string") && eq(&a.val) { return Some(me) },
            N::List { kids, .. } => {
                if is("list head") && kids.first().and_then(|k| k.atom()).is_some_and(|a| eq(&a.val)) { return Some(me) }
                let mut c = *count;
                if let Some(f) = find(kids, kind, eq, level - 1, &mut c) { return Some(f) }
                *count = me + n.count();
            },
            N::Attr { key, val, .. } => {
                // The value is what is found by keyword.
                if is("attribute") && eq(key) { return Some(me + 1) }
                let mut c = *count;
                if let Some(f) = find(std::slice::from_ref(&**val), kind, eq, level - 1, &mut c) { return Some(f) }
                *count = me + n.count();
            },
        }
    }
    None
}

impl Prop for C30 {
    fn id(&self) -> &'static str { "C30" }
    fn rule(&self) -> &'static str {
        "Two sources over few names, the second the same content, one or two small changes of it, or unrelated, with different layouts, comments and spellings: every pair of nodes of both trees compares equal, and hashes equally, exactly when kinds, values, keywords and structure agree; equality is also that of a set of nodes. Searches by kind, value, letter case and depth, from the tree and from a node, return the very node a reference search finds. Non-trivial: at least one equal pair across the sources with differing layout or position, at least one unequal pair, and one successful search."
    }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 30_000_000 } else { 1_000_000 } }
    fn run(&self, s: &mut Src, cx: &mut Cx) -> R {
        let d = 1 + s.below(4);
        let g0 = s.many(1, 6, 3, |s| node(s, d));
        let g0 = stretch(s, g0, false);
        let mut g1 = g0.clone();
        let how = s.weighted(&[2, 4, 2, 1]);
        match how { 0 => {}, 1 => change(s, &mut g1), 2 => { change(s, &mut g1); change(s, &mut g1) }, _ => g1 = s.many(1, 6, 3, |s| node(s, d)) }
        let l0 = layout(s);
        let l1 = layout(s);
        let (t0, _) = render(s, &g0, l0, "<stdin>");
        let (t1, _) = render(s, &g1, l1, "other");
        about_to_run(s, cx, &t0);
        cx.show(&t1);
        let searches: Vec<(usize, String, bool, usize, usize, Option<usize>)> = (0..6).map(|_| (s.below(6), s.pick(&["a", "A", "b", "1", "é", "É", "html", "HTML", "x y", "", "raw", "-1", "B", "X Y", "ab"]).to_owned(), s.chance(1, 2), s.choose(&[1, 2, 3, 0, 5, 9]), s.below(40), if s.chance(2, 3) { Some(s.below(30)) } else { None })).collect();
        let two = Env { path: Some("other".into()), ..Env::default() };
        let r = with_tree(&t0, &Env::default(), |a| with_tree(&t1, &two, |b| {
            let (mut x, mut y) = (vec![], vec![]);
            all(a, &mut x);
            all(b, &mut y);
            let mut nodes = x.clone();
            nodes.extend(&y);
            nodes.truncate(60);
            let ns: Vec<N> = nodes.iter().map(|n| convert(n)).collect();
            let hs: Vec<u64> = nodes.iter().map(|n| hash(n)).collect();
            let mut set: HashSet<&ParseNode> = HashSet::new();
            let (mut eqs, mut diffs) = (0, 0);
            let mut kinds = 0;
            for i in 0..nodes.len() {
                let fresh = !(0..i).any(|j| same(&ns[i], &ns[j]));
                if fresh { kinds += 1; }
                if set.insert(nodes[i]) != fresh { return bad(format!("a set of nodes {} {}", if fresh { "already contains" } else { "does not contain" }, show(&ns[i]))); }
                for j in 0..nodes.len() {
                    let want = same(&ns[i], &ns[j]);
                    if (nodes[i] == nodes[j]) != want || (nodes[i] != nodes[j]) == want { return bad(format!("{} and {} must{} be equal", show(&ns[i]), show(&ns[j]), if want { "" } else { " not" })); }
                    if want && hs[i] != hs[j] { return bad(format!("{} and {} are equal but hash differently", show(&ns[i]), show(&ns[j]))); }
                    if want && i != j && diff(&ns[i], &ns[j], EVERYTHING, "").is_some() { eqs += 1 }
                    if !want && ns[i].kind() == ns[j].kind() { diffs += 1 }
                }
                // A copy is equal, and a part of anything is its own.
                if *nodes[i] != nodes[i].clone() { return bad(format!("{} is not equal to its copy", show(&ns[i]))); }
            }
            if set.len() != kinds { return bad(format!("{} kinds of nodes, {} in a set", kinds, set.len())); }
            if (a == b) != (ns.len() == x.len() + y.len() && a.len() == b.len() && convert_all(a).iter().zip(convert_all(b).iter()).all(|(p, q)| same(p, q))) && nodes.len() < 60 { return bad("the trees compare wrongly"); }

            let tree = convert_all(a);
            let mut hits = 0;
            let mut texts: Vec<String> = ns[..x.len().min(ns.len())].iter().filter_map(|n| match n { N::Attr { key, .. } => Some(key.clone()), n => n.atom().map(|a| a.val.clone()) }).collect();
            texts.dedup();
            for (k, v, insensitive, level, from, own) in &searches {
                // Mostly something that occurs, in another letter case if that does not matter.
                let v = match own { Some(i) if !texts.is_empty() => { let t = &texts[i % texts.len()]; if *insensitive && i % 3 == 0 { &t.to_uppercase() } else { t } }, _ => v };
                let eq = |t: &str| if *insensitive { t.to_lowercase() == v.to_lowercase() } else { t == v };
                let whole = *from % 2 == 0;
                let start = (from / 2) % x.len().max(1);
                let (got, want, base) = if whole {
                    (a.search_node(KINDS[*k], v, *insensitive, *level), find(&tree, *k, &eq, *level, &mut 0), 0)
                } else {
                    let one = [convert(x[start])];
                    (x[start].search_node(KINDS[*k], v, *insensitive, *level), find(&one, *k, &eq, *level, &mut 0), start)
                };
                let want = want.map(|w| x[base + w]);
                let same_node = match (got, want) { (None, None) => true, (Some(g), Some(w)) => std::ptr::eq(g, w), _ => false };
                if !same_node {
                    return bad(format!("search for {} {:?} ({}, depth {level}) from {} found {}, expected {}", KIND_NAMES[*k], v, if *insensitive { "any case" } else { "exact" },
                        if whole { "the tree".to_owned() } else { show(&convert(x[start])) }, got.map_or("nothing".into(), |n| show(&convert(n))), want.map_or("nothing".into(), |n| show(&convert(n)))));
                }
                if got.is_some() { hits += 1; }
            }
            Ok((eqs, diffs, hits))
        }));
        match r {
            Ok(Ok(Ok((eqs, diffs, hits)))) => {
                cx.nontrivial = eqs > 0 && diffs > 0 && hits > 0;
                cx.label(["same content", "one change", "two changes", "unrelated"][how]);
                if hits > 0 { cx.label("search succeeded") }
                Ok(())
            },
            Ok(Ok(Err(f))) => Err(f),
            Ok(Err(e)) | Err(e) => bad(format!("a macro-free source was rejected: {}", e.msg)),
        }
    }
}
