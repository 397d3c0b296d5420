//! C33: the rules for arguments, as made by hand and as declared with `arguments!`.

use crate::engine::*;
use crate::gen::*;
use crate::model::tree::*;
use crate::util::about_to_run;
use seam::parse::expander::ExpansionError;
use seam::parse::lexer::Lexer;
use seam::parse::macros::{self, Arg, ArgMatcher, ArgParser, ArgPos, ArgPredicate, ArgRules, ArgType};
use seam::parse::parser::{Node, ParseNode, ParseTree, Parser};
use seam_argparse_proc_macro::arguments;
use std::collections::HashMap;

pub struct C33;

// ------------------------------------------------------------- model

#[derive(Clone, Debug)]
enum Pred { Is(String), Like(usize), Test(usize) }
#[derive(Clone, Debug)]
enum Ty { Literal(Vec<Pred>), String(Vec<Pred>), Symbol(Vec<Pred>), Number(Vec<Pred>), Symbolic(Vec<Pred>), Any(Vec<Pred>), List(Vec<Ty>) }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Slot { Pos(usize), Key(String) }

/// Regular expressions, with what they mean.
const LIKE: &[(&str, fn(&str) -> bool)] = &[
    ("^a", |v| v.starts_with('a')),
    ("^[0-9]+$", |v| !v.is_empty() && v.bytes().all(|b| b.is_ascii_digit())),
    ("b", |v| v.contains('b')),
    ("^(foo|bar)$", |v| v == "foo" || v == "bar"),
    ("^$", |v| v.is_empty()),
];
type Test = for<'t> fn(&ParseNode<'t>) -> Result<(), ExpansionError<'t>>;
fn refuse<'t>(n: &ParseNode<'t>) -> Result<(), ExpansionError<'t>> { Err(ExpansionError("is not wanted".into(), n.owned_site())) }
fn test0<'t>(n: &ParseNode<'t>) -> Result<(), ExpansionError<'t>> { refuse(n) }
fn test1<'t>(_: &ParseNode<'t>) -> Result<(), ExpansionError<'t>> { Ok(()) }
fn test2<'t>(n: &ParseNode<'t>) -> Result<(), ExpansionError<'t>> { if n.atomic().is_some_and(|a| a.value.len() % 2 == 0) { Ok(()) } else { refuse(n) } }
fn test3<'t>(n: &ParseNode<'t>) -> Result<(), ExpansionError<'t>> { if matches!(n, ParseNode::List { .. }) { Ok(()) } else { refuse(n) } }
const TEST: &[(Test, fn(&N) -> bool)] = &[
    (test0, |_| false), (test1, |_| true),
    (test2, |n| n.atom().is_some_and(|a| a.val.len() % 2 == 0)),
    (test3, |n| n.list().is_some()),
];

impl Pred {
    fn holds(&self, n: &N) -> bool {
        match self {
            Pred::Is(v) => n.atom().is_some_and(|a| a.val == *v),
            Pred::Like(i) => n.atom().is_some_and(|a| LIKE[*i].1(&a.val)),
            Pred::Test(i) => TEST[*i].1(n),
        }
    }
    fn real<'t>(&self) -> ArgPredicate<'t> {
        match self {
            Pred::Is(v) => ArgPredicate::Exactly(v.clone()),
            Pred::Like(i) => ArgPredicate::Matching(regex::Regex::new(LIKE[*i].0).unwrap()),
            Pred::Test(i) => { let f: fn(&ParseNode<'t>) -> Result<(), ExpansionError<'t>> = TEST[*i].0; ArgPredicate::Satisfying(f) },
        }
    }
}
impl Ty {
    fn takes(&self, n: &N) -> bool {
        let one = |p: &[Pred]| p.is_empty() || p.iter().any(|p| p.holds(n));
        let string = matches!(n, N::Str(_) | N::Raw(_));
        match self {
            Ty::Literal(p) => n.atom().is_some() && one(p),
            Ty::String(p) => string && one(p),
            Ty::Symbol(p) => matches!(n, N::Sym(_)) && one(p),
            Ty::Number(p) => matches!(n, N::Num(_)) && one(p),
            Ty::Symbolic(p) => matches!(n, N::Sym(_) | N::Num(_)) && one(p),
            Ty::Any(p) => one(p),
            Ty::List(t) => match n { N::List { kids, .. } => t.is_empty() || t.len() == kids.len() && t.iter().zip(kids).all(|(t, k)| t.takes(k)), _ => false },
        }
    }
    fn real<'t>(&self) -> ArgType<'t> {
        let all = |p: &[Pred]| p.iter().map(Pred::real).collect::<Vec<_>>();
        match self {
            Ty::Literal(p) => ArgType::Literal(all(p)), Ty::String(p) => ArgType::String(all(p)), Ty::Symbol(p) => ArgType::Symbol(all(p)), Ty::Number(p) => ArgType::Number(all(p)),
            Ty::Symbolic(p) => ArgType::Symbolic(all(p)), Ty::Any(p) => ArgType::Any(all(p)), Ty::List(t) => ArgType::List(t.iter().map(Ty::real).collect()),
        }
    }
    fn name(&self) -> &'static str { match self { Ty::Literal(_) => "literal", Ty::String(_) => "string", Ty::Symbol(_) => "symbol", Ty::Number(_) => "number", Ty::Symbolic(_) => "symbolic", Ty::Any(_) => "any", Ty::List(_) => "list" } }
}

#[derive(Clone, Debug)]
struct Rule { must: bool, slots: Vec<Slot>, ty: Ty }

/// What becomes of one argument.
enum Fate { Taken(usize, Slot), Rest, Wrong }
fn fate(rules: &[Rule], rest: &Option<Ty>, slot: &Slot, param: &N) -> Fate {
    let value = match param { N::Attr { val, .. } => &**val, n => n };
    match rules.iter().position(|r| r.slots.contains(slot)) {
        Some(i) => if rules[i].ty.takes(value) { Fate::Taken(i, slot.clone()) } else { Fate::Wrong },
        None => match rest { Some(t) if t.takes(param) => Fate::Rest, _ => Fate::Wrong },
    }
}
fn slots(params: &[N]) -> Vec<Slot> {
    let mut p = 0;
    params.iter().map(|n| match n { N::Attr { key, .. } => Slot::Key(key.clone()), _ => { p += 1; Slot::Pos(p) } }).collect()
}
/// Where a node is in the source.
fn extent(n: &N) -> (usize, usize) {
    let s = n.site();
    let (mut a, mut b) = (s.off, s.off + s.span);
    let mut add = |(x, y)| { a = a.min(x); b = b.max(y) };
    match n { N::List { kids, end, .. } => { kids.iter().for_each(|k| add(extent(k))); add((end.off, end.off + end.span)) }, N::Attr { val, .. } => add(extent(val)), _ => {} }
    (a, b)
}
fn placed(e: &ExpansionError, places: &[&N]) -> R {
    if e.0.is_empty() { return bad("an error without a message"); }
    let (a, b) = (e.1.bytes_from_start, e.1.bytes_from_start + e.1.bytes_span);
    if places.iter().any(|n| { let (x, y) = extent(n); x <= a && b <= y }) { return Ok(()); }
    bad(format!("the error {:?} is placed at {a}..{b}, not within {}", e.0, places.iter().map(|n| show(n)).collect::<Vec<_>>().join(" or ")))
}

/// What is missing would have followed the last argument; or else, the call lacks it.
fn lacks(e: &ExpansionError, args: &[N], call: &N) -> R {
    if e.1.bytes_from_start == call.site().off && e.1.bytes_span == call.site().span { return placed(e, &[call]); }
    placed(e, &[args.last().unwrap_or(call)])
}

// ------------------------------------------------------------- rules made by hand

macro_rules! places { ($($pat:pat => $slots:expr),* $(,)?) => {{
    let mut v: Vec<(for<'x, 'y> fn(&'x Box<dyn ArgMatcher + 'y>) -> bool, fn() -> Vec<Slot>)> = vec![];
    $({
        fn m<'b>(p: &Box<dyn ArgMatcher + 'b>) -> bool { match p.unwrap_it() { $pat => true, _ => false } }
        v.push((m, || $slots));
    })*
    v
}} }
trait It { fn unwrap_it(&self) -> ArgPos<'_>; }
impl<'b> It for Box<dyn ArgMatcher + 'b> { fn unwrap_it(&self) -> ArgPos<'_> { ArgMatcher::unwrap(&**self) } }
const KEYS: &[&str] = &["a", "b", "key", "type", "é", "A", "k"];
const MOST: usize = 8;
fn pos(r: std::ops::RangeInclusive<usize>) -> Vec<Slot> { r.map(Slot::Pos).collect() }
fn key(k: &[&str]) -> Vec<Slot> { k.iter().map(|k| Slot::Key(k.to_string())).collect() }
fn all_places() -> Vec<(for<'x, 'y> fn(&'x Box<dyn ArgMatcher + 'y>) -> bool, fn() -> Vec<Slot>)> {
    places! {
        ArgPos::Int(1) => pos(1..=1), ArgPos::Int(2) => pos(2..=2), ArgPos::Int(3) => pos(3..=3),
        ArgPos::Int(1..=2) => pos(1..=2), ArgPos::Int(2..=3) => pos(2..=3), ArgPos::Int(4..) => pos(4..=MOST + 8), ArgPos::Int(1 | 3) => [pos(1..=1), pos(3..=3)].concat(),
        ArgPos::Str("a") => key(&["a"]), ArgPos::Str("b") => key(&["b"]), ArgPos::Str("key" | "a") => key(&["key", "a"]), ArgPos::Str("é") => key(&["é"]), ArgPos::Str("type") => key(&["type"]),
        ArgPos::Str(_) => key(KEYS), ArgPos::Int(_) => pos(1..=MOST + 8), ArgPos::Int(2) | ArgPos::Str("b") => [pos(2..=2), key(&["b"])].concat(),
    }
}

fn value(s: &mut Src, depth: usize) -> G {
    match s.weighted(&[5, 4, 4, if depth > 0 { 3 } else { 0 }, 1]) {
        0 => sym(s.pick(&["a", "b", "in", "foo", "bar", "ab", "true", "%f", "A", "IN", "Foo"])),
        1 => sym(s.pick(&["1", "12", "0", "-3", "+4.5", "007"])),
        2 => st(s.pick(&["a", "", "foo", "12", "true", "b b", "é", "B", "FOO", "a "])),
        3 => ls(s.many(0, 4, 2, |s| { if s.chance(1, 8) { let v = value(s, depth - 1); at("k", v) } else { value(s, depth - 1) } })),
        _ => at(s.pick(&["a", "k"]), sym("v")),
    }
}
fn param(s: &mut Src, keys: &[&str]) -> G { let v = value(s, 2); if s.chance(1, 3) { at(s.pick(keys), v) } else { v } }
fn pred(s: &mut Src) -> Pred {
    match s.weighted(&[4, 2, 2]) {
        0 => Pred::Is(s.pick(&["a", "b", "12", "foo", "true", "", "v"]).to_owned()),
        1 => Pred::Like(s.below(LIKE.len())),
        _ => Pred::Test(s.below(TEST.len())),
    }
}
fn ty(s: &mut Src, depth: usize) -> Ty {
    let p = s.many(0, 3, 1, pred);
    match s.weighted(&[3, 3, 3, 3, 2, 4, if depth > 0 { 3 } else { 0 }]) {
        0 => Ty::Literal(p), 1 => Ty::String(p), 2 => Ty::Symbol(p), 3 => Ty::Number(p), 4 => Ty::Symbolic(p), 5 => Ty::Any(p),
        _ => Ty::List(s.many(0, 3, 1, |s| ty(s, depth - 1))),
    }
}

/// Some nodes with their call, as read (strings sometimes as raw ones).
fn with_call(src: &str, raw: u64, f: impl for<'a> FnOnce(&ParseNode<'a>, &ParseTree<'a>) -> R) -> R {
    let p = Parser::new(Lexer::new("<stdin>".into(), src.to_owned()));
    let t = match p.parse() { Ok(t) => t, Err(e) => return bad(format!("is not read: {e}")) };
    let [c @ ParseNode::List { nodes, .. }] = &t[..] else { return bad("is not read as one list") };
    let mut i = 0;
    fn make<'a>(n: ParseNode<'a>, raw: u64, i: &mut u32) -> ParseNode<'a> {
        match n {
            ParseNode::String(a) => { *i += 1; if raw >> (*i % 64) & 1 == 1 { ParseNode::Raw(a) } else { ParseNode::String(a) } },
            ParseNode::Attribute { keyword, node, site, leading_whitespace } => ParseNode::Attribute { keyword, node: Box::new(make(*node, raw, i)), site, leading_whitespace },
            n => n,
        }
    }
    let params: Vec<_> = nodes[1..].iter().map(|n| make(n.clone(), raw, &mut i)).collect();
    f(c, &params.into_boxed_slice())
}

/// What it is read as, without positions.
fn meant(g: &G) -> N {
    let atom = |v: &str| Atom { ws: String::new(), val: v.to_owned(), site: Site::default() };
    match g {
        G::Str(v) => N::Str(atom(v)),
        G::List(v) => N::List { ws: String::new(), kids: v.iter().map(meant).collect(), end_ws: String::new(), end: Site::default(), site: Site::default() },
        G::Attr(k, v) => N::Attr { ws: String::new(), key: k.clone(), val: Box::new(meant(v)), site: Site::default() },
        G::Sym(v) | G::Tok(v) => if v.starts_with(|c: char| c.is_ascii_digit() || matches!(c, '+' | '-')) { N::Num(atom(v)) } else { N::Sym(atom(v)) },
        G::Glued(g) => meant(g),
    }
}
/// Something the type allows, if it is found soon.
fn fit(s: &mut Src, t: &Ty) -> G {
    let any = |s: &mut Src, p: &[Pred]| match p.first() { Some(Pred::Is(v)) if !v.is_empty() => Some(v.clone()), _ => { let _ = s; None } };
    for _ in 0..4 {
        let g = match t {
            Ty::List(t) if !t.is_empty() => ls(t.iter().map(|t| fit(s, t)).collect()),
            Ty::Literal(p) | Ty::String(p) if s.chance(1, 3) => any(s, p).map_or_else(|| st("a"), st),
            Ty::Symbol(p) | Ty::Symbolic(p) | Ty::Any(p) | Ty::Number(p) if s.chance(1, 3) => any(s, p).map_or_else(|| sym("a"), sym),
            _ => value(s, 2),
        };
        if t.takes(&meant(&g)) { return g; }
    }
    value(s, 2)
}
/// Arguments which mostly fit the rules.
fn fitting(s: &mut Src, rules: &[Rule], rest: &Option<Ty>) -> Vec<G> {
    let mut out = vec![];
    let mut next = 1;
    let mut todo: Vec<(Slot, Ty)> = vec![];
    for r in rules { for k in &r.slots { if let Slot::Key(_) = k { if (r.must || s.chance(1, 3)) && !todo.iter().any(|t| t.0 == *k) { todo.push((k.clone(), r.ty.clone())); } } } }
    let last = rules.iter().filter(|r| r.must || r.slots.len() < 5).flat_map(|r| &r.slots).filter_map(|k| match k { Slot::Pos(p) if *p <= MOST => Some(*p), _ => None }).max().unwrap_or(0);
    let last = if s.chance(1, 3) { s.below(last + 1) } else { last } + if rest.is_some() { s.below(4) } else { 0 };
    loop {
        if !todo.is_empty() && (next > last || s.chance(1, 3)) {
            let i = s.below(todo.len());
            let (Slot::Key(k), t) = todo.swap_remove(i) else { continue };
            out.push(at(k, fit(s, &t)));
        } else if next <= last {
            let t = rules.iter().find(|r| r.slots.contains(&Slot::Pos(next))).map(|r| &r.ty).or(rest.as_ref());
            out.push(match t { Some(t) => { let g = fit(s, t); if let G::Attr(..) = g { sym("a") } else { g } }, None => value(s, 1) });
            next += 1;
        } else { break }
    }
    if s.chance(1, 6) && !out.is_empty() { let i = s.below(out.len()); match s.below(4) { 0 => { out.remove(i); }, 1 => { let g = out[i].clone(); out.push(g); }, 2 => out[i] = param(s, KEYS), _ => { let j = s.below(out.len()); out.swap(i, j); } } }
    out
}
fn arguments_for(s: &mut Src, cx: &mut Cx, rules: &[Rule], rest: &Option<Ty>) -> Result<(String, u64), Fail> {
    let mut keys = KEYS.to_vec();
    keys.extend(["a", "b", "key", "a"]);
    let lay = layout(s);
    let raw = if s.chance(1, 3) { s.draw(u64::MAX) } else { 0 };
    let mut g = vec![sym("call")];
    if s.chance(3, 4) { g.extend(fitting(s, rules, rest)) } else { g.extend(s.many(0, MOST, 3, |s| param(s, &keys))) }
    let src = render_tight(s, &[ls(g)], lay);
    about_to_run(s, cx, &src);
    if s.chance(1, 8) { with_call(&src, raw, |_, params| extracts(params))?; }
    Ok((src, raw))
}

fn by_hand(s: &mut Src, cx: &mut Cx) -> R {
    let places = all_places();
    let n = 1 + s.below(4);
    let mut picked = vec![];
    let mut rules = vec![];
    for _ in 0..n {
        let i = s.below(places.len());
        let r = Rule { must: s.chance(1, 2), slots: (places[i].1)(), ty: ty(s, 2) };
        picked.push(places[i].0);
        rules.push(r);
    }
    let rest = if s.chance(1, 2) { Some(ty(s, 1)) } else { None };
    let twice = s.chance(1, 3);
    let (src, raw) = arguments_for(s, cx, &rules, &rest)?;
    cx.show(format!("{src}    with {rules:?} rest {rest:?}"));
    with_call(&src, raw, |node, params| {
    let (m, mnode) = (convert_all(params), convert(node));
    // Each argument against each type, on its own.
    for r in &rules {
        let t = r.ty.real();
        if t.name() != r.ty.name() { return bad(format!("{:?} is named {}", r.ty, t.name())); }
        for (p, n) in params.iter().zip(&m) {
            match t.check(p) {
                Ok(()) => if !r.ty.takes(n) { return bad(format!("{} is taken as {:?}", show(n), r.ty)); },
                Err(e) => { if r.ty.takes(n) { return bad(format!("{} is not taken as {:?}: {}", show(n), r.ty, e.0)); } placed(&e, &[n])?; },
            }
            if let Ty::Literal(ps) | Ty::Any(ps) = &r.ty {
                for q in ps { if q.real().check(p).is_ok() != q.holds(n) { return bad(format!("{}: {q:?} is {}", show(n), !q.holds(n))); } }
            }
        }
    }
    let owned: Vec<String> = KEYS.iter().map(|k| k.to_string()).collect();
    let mut real = ArgRules::new();
    for (r, p) in rules.iter().zip(&picked) { real.register(*p, if r.must { Arg::Mandatory(r.ty.real()) } else { Arg::Optional(r.ty.real()) }); }
    // The last type registered for what remains is the one that counts.
    if let Some(t) = &rest { if twice { real.register_remaining(ArgType::Number(vec![])); } real.register_remaining(t.real()); }
    for r in &rules { if [Arg::Mandatory(r.ty.real()), Arg::Optional(r.ty.real())].iter().any(|a| a.argtype().name() != r.ty.name() || params.iter().any(|p| a.argtype().check(p).is_ok() != r.ty.real().check(p).is_ok())) { return bad(format!("an argument of {:?} has another type", r.ty)); } }
    let must = rules.iter().filter(|r| r.must).count();
    if real.count_mandatory() != must { return bad(format!("{} arguments are mandatory, not {must}", real.count_mandatory())); }
    let slots = slots(&m);
    let fates: Vec<Fate> = m.iter().zip(&slots).map(|(n, s)| fate(&rules, &rest, s, n)).collect();
    let wrong: Vec<&N> = m.iter().zip(&fates).filter(|(_, f)| matches!(f, Fate::Wrong)).map(|(n, _)| n).collect();
    let given = |i: usize| fates.iter().filter(|f| matches!(f, Fate::Taken(j, _) if *j == i)).count();
    let lacking = (0..rules.len()).filter(|i| rules[*i].must && given(*i) == 0).count();
    let total: usize = (0..rules.len()).filter(|i| rules[*i].must).map(given).sum();
    let parser = match if s.chance(1, 2) { real.parser(node, params) } else { ArgParser::new(real, node, params) } {
        Err(e) => {
            if !wrong.is_empty() { cx.label("wrong"); return placed(&e, &wrong); }
            if lacking > 0 { cx.label("lacking"); return lacks(&e, &m, &mnode); }
            return bad(format!("refused: {}", e.0));
        },
        Ok(p) => p,
    };
    if !wrong.is_empty() { return bad(format!("accepted in spite of {}", show(wrong[0]))); }
    if lacking > 0 && total < must { return bad(format!("accepted although {lacking} mandatory arguments are missing")); }
    cx.label("accepted");
    cx.nontrivial = !params.is_empty();
    // What was put where. (Of arguments given twice, either is kept.)
    let mut want: HashMap<Slot, Vec<usize>> = HashMap::new();
    for (i, f) in fates.iter().enumerate() { if let Fate::Taken(_, s) = f { want.entry(s.clone()).or_default().push(i); } }
    let inner = |i: usize| match &params[i] { ParseNode::Attribute { node, .. } => &**node, n => n };
    if want.len() != parser.positional.len() + parser.named.len() { return bad(format!("{} are placed, not {}", parser.positional.len() + parser.named.len(), want.len())); }
    for p in 0..MOST + 4 { look(Slot::Pos(p), parser.get_optional(p).copied(), parser.get(p).map(|n| *n), &want, &inner, &mnode)?; }
    places_converted(s)?;
    for k in &owned { look(Slot::Key(k.to_string()), parser.get_optional(ArgPos::Str(k)).copied(), parser.get(k).map(|n| *n), &want, &inner, &mnode)?; }
    for p in 0..MOST { look(Slot::Pos(p), parser.get_optional(ArgPos::Int(p)).copied(), parser.get(ArgPos::Int(p)).map(|n| *n), &want, &inner, &mnode)?; }
    for k in KEYS { look(Slot::Key(k.to_string()), parser.get_optional(*k).copied(), parser.get(*k).map(|n| *n), &want, &inner, &mnode)?; }
    let rest: Vec<usize> = fates.iter().enumerate().filter(|(_, f)| matches!(f, Fate::Rest)).map(|(i, _)| i).collect();
    if parser.trailing.len() != rest.len() || !parser.trailing.iter().zip(&rest).all(|(n, i)| std::ptr::eq(*n, &params[*i])) { return bad(format!("the rest is {:?}", parser.trailing.iter().map(|n| show(&convert(n))).collect::<Vec<_>>())); }
    if !std::ptr::eq(parser.call_node, node) { return bad("the call is another"); }
    Ok(())
    })
}
/// A place made from a number, a name or a place is that one, and no other.
fn places_converted(s: &mut Src) -> R {
    let (i, k) = (s.below(20), s.pick(KEYS).to_string());
    let made: [(Box<dyn ArgMatcher + '_>, bool); 5] = [(i.into(), true), (k.as_str().into(), false), ((&k).into(), false), (ArgPos::Int(i).into(), true), (ArgPos::Str(&k).into(), false)];
    for (b, number) in &made {
        let (n, t, p): (Option<usize>, Option<&str>, ArgPos) = (b.into(), b.into(), b.into());
        let fits = match p { ArgPos::Int(j) => *number && j == i, ArgPos::Str(u) => !number && u == k };
        if !fits || n != number.then_some(i) || t != (!number).then_some(k.as_str()) { return bad(format!("place {i} or {k} becomes {n:?}, {t:?}, {p:?}")); }
    }
    Ok(())
}
fn look<'t>(k: Slot, o: Option<&ParseNode>, g: Result<&ParseNode, ExpansionError>, want: &HashMap<Slot, Vec<usize>>, inner: &impl Fn(usize) -> &'t ParseNode<'t>, call: &N) -> R {
    let is = |n: &ParseNode| want.get(&k).is_some_and(|w| w.iter().any(|i| std::ptr::addr_eq(n, inner(*i))));
    match (o, g, want.contains_key(&k)) {
        (None, Err(e), false) => placed(&e, &[call]),
        (Some(a), Ok(b), true) if std::ptr::addr_eq(a, b) && is(a) => Ok(()),
        (o, g, _) => bad(format!("{k:?} is {:?} or {:?}", o.map(|n| show(&convert(n))), g.map(|n| show(&convert(n))).map_err(|e| e.0))),
    }
}

/// Taking nodes for what they are.
fn extracts(params: &[ParseNode]) -> R {
    use macros::*;
    for p in params {
        let n = convert(p);
        let string = matches!(n, N::Str(_) | N::Raw(_));
        let symbolic = matches!(n, N::Sym(_) | N::Num(_));
        macro_rules! atom { ($($f:ident $g:ident $ok:expr;)*) => { $(
            match ($f(p.clone()), $g(p)) {
                (Ok(a), Ok(b)) => if !$ok || a.value != n.atom().unwrap().val || !p.atomic().is_some_and(|x| std::ptr::eq(x, b)) { return bad(format!("{} of {} gives {}", stringify!($f), show(&n), a.value)); },
                (Err(e), Err(f)) => { if $ok { return bad(format!("{} of {}: {}", stringify!($f), show(&n), e.0)); } placed(&e, &[&n])?; placed(&f, &[&n])?; },
                _ => return bad(format!("{} and {} of {} differ", stringify!($f), stringify!($g), show(&n))),
            }
        )* } }
        atom! { extract_literal extract_literal_ref n.atom().is_some(); extract_string extract_string_ref string; extract_symbol extract_symbol_ref matches!(n, N::Sym(_));
            extract_number extract_number_ref matches!(n, N::Num(_)); extract_symbolic extract_symbolic_ref symbolic; }
        match (extract_list(p.clone()), n.list()) {
            (Ok(a), Some(b)) => if convert_all(&a) != b { return bad(format!("extract_list of {} gives another list", show(&n))); },
            (Err(e), None) => placed(&e, &[&n])?,
            _ => return bad(format!("extract_list of {}", show(&n))),
        }
        match (extract_list_ref(p), p.list()) {
            (Ok(a), Some(b)) => if a.len() != b.len() || !a.iter().zip(b.iter()).all(|(a, b)| std::ptr::eq(*a, b)) { return bad(format!("extract_list_ref of {} gives another list", show(&n))); },
            (Err(e), None) => placed(&e, &[&n])?,
            _ => return bad(format!("extract_list_ref of {}", show(&n))),
        }
        if !extract_any_ref(p).is_ok_and(|a| std::ptr::eq(a, p)) { return bad(format!("extract_any_ref of {} gives something else", show(&n))); }
        if !extract_any(p.clone()).is_ok_and(|a| convert(&a) == n) { return bad(format!("extract_any of {} gives something else", show(&n))); }
    }
    Ok(())
}

// ------------------------------------------------------------- declarations

trait Told { fn told(&self) -> Option<Vec<N>>; }
impl Told for () { fn told(&self) -> Option<Vec<N>> { None } }
impl Told for Node<'_> { fn told(&self) -> Option<Vec<N>> { Some(vec![convert(&ParseNode::Symbol(self.clone()))]) } }
impl Told for ParseNode<'_> { fn told(&self) -> Option<Vec<N>> { Some(vec![convert(self)]) } }
impl Told for Vec<ParseNode<'_>> { fn told(&self) -> Option<Vec<N>> { Some(convert_all(self)) } }
impl Told for Vec<Node<'_>> { fn told(&self) -> Option<Vec<N>> { Some(self.iter().map(|n| n.told().unwrap().remove(0)).collect()) } }
impl Told for Vec<Vec<ParseNode<'_>>> { fn told(&self) -> Option<Vec<N>> { Some(self.iter().flat_map(|n| n.told().unwrap()).collect()) } }
impl<T: Told> Told for Option<T> { fn told(&self) -> Option<Vec<N>> { self.as_ref().and_then(Told::told) } }

type Taken<'a> = Result<Vec<Option<Vec<N>>>, ExpansionError<'a>>;
struct Decl { rules: Vec<Rule>, rest: Option<Ty>, fields: Vec<Slot>, run: for<'a> fn(&ParseNode<'a>, ParseTree<'a>) -> Taken<'a>, text: String }

fn slots_of(pat: &str) -> Vec<Slot> {
    pat.split('|').flat_map(|p| {
        let p = p.trim();
        if let Some(k) = p.strip_prefix('"') { return vec![Slot::Key(k.trim_end_matches('"').to_owned())]; }
        let p = p.replace(' ', "");
        if let Some((a, b)) = p.split_once("..=") { return pos(a.parse().unwrap()..=b.parse().unwrap()); }
        if let Some((a, b)) = p.split_once("..") { return pos(a.parse().unwrap()..=b.parse::<usize>().unwrap() - 1); }
        pos(p.parse().unwrap()..=p.parse().unwrap())
    }).collect()
}
fn ty_of(name: &str, values: &[&str]) -> Ty {
    let p = values.iter().map(|v| Pred::Is(v.to_string())).collect();
    match name { "literal" => Ty::Literal(p), "string" => Ty::String(p), "symbol" => Ty::Symbol(p), "number" => Ty::Number(p), "symbolic" => Ty::Symbolic(p), "any" => Ty::Any(p), _ => Ty::List(vec![]) }
}
fn field_of(f: &str) -> Slot {
    let f = f.replace([' ', '\n'], "");
    if let Some(n) = f.strip_prefix("number.") { return Slot::Pos(n.parse().unwrap()); }
    Slot::Key(f.trim_start_matches("r#").to_owned())
}

/// A declaration by `arguments!` together with what it says.
macro_rules! decl {
    ($v:ident; $([$($f:tt)+])*; $($kind:ident($($pat:tt)+): $ty:ident $([$($val:tt),+])?),* $(; $rty:ident $([$($rval:tt),+])?)?) => {
        decl!(@ $v; $([$($f)+])*; { $($kind($($pat)+): $ty $([$($val),+])?,)* $(rest: $rty $([$($rval),+])?)? };
            vec![$((stringify!($kind), stringify!($($pat)+), stringify!($ty), vec![$($($val),+)?])),*]; { let r: Option<(&str, Vec<&str>)> = None; $(let _ = r; let r = Some((stringify!($rty), vec![$($($rval),+)?]));)? r });
    };
    (@ $v:ident; $([$($f:tt)+])*; { $($decl:tt)* }; $rules:expr; $rest:expr) => {{
        #[allow(unused_variables)]
        fn run<'a>(node: &ParseNode<'a>, params: ParseTree<'a>) -> Taken<'a> {
            let (parser, args) = arguments! { [&params] $($decl)* }?;
            let _ = parser.call_node;
            Ok(vec![$(args.$($f)+.told(),)* args.rest.told()])
        }
        let rules: Vec<(&str, &str, &str, Vec<&str>)> = $rules;
        let rest = $rest;
        $v.push(Decl {
            rules: rules.into_iter().map(|(k, p, t, v)| Rule { must: k == "mandatory", slots: slots_of(p), ty: ty_of(t, &v) }).collect(),
            rest: rest.map(|(t, v)| ty_of(t, &v)),
            fields: vec![$(field_of(stringify!($($f)+))),*],
            run, text: stringify!($($decl)*).to_owned(),
        });
    }};
}

fn declarations() -> Vec<Decl> {
    let mut v = vec![];
    decl!(v; [number.1]; mandatory(1): literal);
    decl!(v; [number.1] [number.2] [number.3]; mandatory(1..=2): symbol, optional(3): number);
    decl!(v; [number.1] [number.2] [number.3] [number.4]; mandatory(1..4): any, optional(4): list);
    decl!(v; [number.1] [a] [b]; mandatory(1): string, optional("a"): literal["true", "foo"], mandatory("b"): number);
    decl!(v; [number.1] [number.2] [number.3]; mandatory(1 | 3): symbolic, mandatory(2): symbol["in"]; any);
    decl!(v; [a] [b] [key]; optional("a" | "b"): any, optional("key"): string["", "a"]; literal);
    decl!(v; [r#type]; mandatory("type"): any; symbol);
    decl!(v; ; ; any);
    decl!(v; ; ; number);
    decl!(v; ; ; list);
    decl!(v; ; ; string["a", "foo", "12"]);
    decl!(v; [number.1] [number.2]; optional(1): any, optional(2): symbol);
    decl!(v; [number.2] [number.1]; mandatory(2): literal, mandatory(1): symbol; any);
    decl!(v; [number.1] [number.3] [number.2]; mandatory(1): any, optional(2 | 3): string; any);
    decl!(v; [é]; optional("é"): number; literal["a", "b", "12"]);
    decl!(v; [number.1] [number.2] [number.3] [a]; mandatory(1): any, mandatory(2): symbol["in"], mandatory(3): list, optional("a"): any; any);
    decl!(v; [A] [a]; mandatory("A"): symbol, optional("a"): list; any);
    decl!(v; [number.1] [number.2] [number.3] [number.4] [number.5]; optional(1..=2 | 4..6): literal, optional(3): number["12", "007"]);
    decl!(v; [number.1] [a] [b] [key] [r#type]; mandatory(1): list, mandatory("a" | "b"): string, optional("key"): symbolic["a", "1", "b"], optional("type"): symbol);
    decl!(v; [number.1]; mandatory(1): symbolic["1", "a", "in"]; symbolic);
    decl!(v; [number.1] [number.2]; mandatory(1): number, mandatory(2): string; string);
    decl!(v; [a]; optional("a"): any);
    decl!(v; [number.1] [number.2] [b]; mandatory(1): any["a", "12"], optional(2): any, optional("b"): any["foo"]; any["a", "b"]);
    decl!(v; [key]; mandatory("key"): list; any);
    v
}

fn declared(s: &mut Src, cx: &mut Cx) -> R {
    thread_local! { static D: &'static [Decl] = Box::leak(declarations().into_boxed_slice()); }
    let ds = D.with(|d| *d);
    let i = s.below(ds.len());
    let d = &ds[i];
    let (src, raw) = arguments_for(s, cx, &d.rules, &d.rest)?;
    cx.show(format!("{src}    as {}", d.text.split_whitespace().collect::<Vec<_>>().join(" ")));
    with_call(&src, raw, |node, params| {
    let (m, mnode) = (convert_all(params), convert(node));
    let slots = slots(&m);
    let fates: Vec<Fate> = m.iter().zip(&slots).map(|(n, s)| fate(&d.rules, &d.rest, s, n)).collect();
    let wrong: Vec<&N> = m.iter().zip(&fates).filter(|(_, f)| matches!(f, Fate::Wrong)).map(|(n, _)| n).collect();
    let twice = (1..slots.len()).any(|i| slots[..i].contains(&slots[i]));
    let missing = d.rules.iter().filter(|r| r.must).flat_map(|r| &r.slots).find(|s| !slots.contains(s));
    let run = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (d.run)(node, params.clone())));
    let Ok(run) = run else { return bad("the code made by the declaration panics") };
    let got = match run {
        Err(e) => {
            if !wrong.is_empty() { cx.label("wrong"); return placed(&e, &wrong); }
            if missing.is_some() { cx.label("lacking"); return lacks(&e, &m, &mnode); }
            return bad(format!("refused: {}", e.0));
        },
        Ok(g) => g,
    };
    if !wrong.is_empty() { return bad(format!("accepted in spite of {}", show(wrong[0]))); }
    if let Some(s) = missing { return bad(format!("accepted without {s:?}")); }
    cx.label("accepted");
    cx.nontrivial = !m.is_empty();
    if twice { cx.label("given twice"); return Ok(()); }
    let inner = |i: usize| match &m[i] { N::Attr { val, .. } => (**val).clone(), n => n.clone() };
    let plain = |ty: &Ty, n: N| -> Vec<N> { match (ty, n) { (Ty::List(_), N::List { kids, .. }) => kids, (Ty::Any(_), n) => vec![n], (_, N::Sym(a) | N::Num(a) | N::Str(a) | N::Raw(a)) => vec![N::Sym(a)], (_, n) => vec![n] } };
    let rest: Option<Vec<N>> = d.rest.as_ref().map(|ty| fates.iter().enumerate().filter(|(_, f)| matches!(f, Fate::Rest)).flat_map(|(i, _)| plain(ty, m[i].clone())).collect());
    let mut want: Vec<Option<Vec<N>>> = d.fields.iter().map(|f| {
        let ty = &d.rules.iter().find(|r| r.slots.contains(f)).expect("the field is declared").ty;
        slots.iter().position(|s| s == f).map(|i| plain(ty, inner(i)))
    }).collect();
    want.push(rest);
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        if g != w { return bad(format!("{} is {:?}, expected {:?}", d.fields.get(i).map_or("the rest".into(), |f| format!("{f:?}")), g.as_ref().map(|g| show_all(g)), w.as_ref().map(|g| show_all(g)))); }
    }
    Ok(())
    })
}

impl Prop for C33 {
    fn id(&self) -> &'static str { "C33" }
    fn rule(&self) -> &'static str {
        "Random argument lists (all kinds of nodes, keywords, repeated ones) against (a) random sets of rules with overlapping places, types, predicates (exact, regular expression, function) and a rest, and (b) 24 declarations by `arguments!`. Each argument goes where the first rule for its place says, if its type and one of the predicates allow; the rest in order; anything else, or a missing mandatory argument, is an error placed at it. Types, predicates and conversions are also tried on every argument alone. Non-trivial: accepted with at least one argument."
    }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 20_000_000 } else { 400_000 } }
    fn run(&self, s: &mut Src, cx: &mut Cx) -> R {
        if s.chance(1, 2) { by_hand(s, cx) } else { declared(s, cx) }
    }
}
