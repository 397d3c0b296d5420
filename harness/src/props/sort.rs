//! C18: sorting.

use super::expand::check_program;
use crate::engine::*;
use crate::gen::*;
use crate::model::{expand::*, tree::*};
use crate::util::*;
use std::cmp::Ordering;
use std::collections::HashMap;

pub struct C18;

const NUMS: &[&str] = &["0", "1", "2", "3", "10", "9", "100", "-1", "-2", "-10", "+2", "007", "1.0", "1.5", "2.0", "-0", "-0.0", "0.5", "1e1", "1e3", "1e400", "-1e400", "1e-400",
    "9007199254740992", "9007199254740993", "9007199254740992.0", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "9223372036854775807.0", "1.", "0x10", "1_000", "5em", "+", "-", "1/2",
    "9223372036854775806", "2.5", "2.25", "10.0", "100000000000000000000000000000000"];
const TEXTS: &[&str] = &["a", "b", "c", "A", "B", "aa", "ab", "a b", "", " ", "é", "e", "z", "Z", "字", "😀", "\u{ffff}", "inf", "-inf", "nan", "NaN", "infinity", "Inf", "10", "9", "2", " 1", "1 ", "true", "x1", "x10", "x2", "_", "~", "1e1", "-5", ".5", "e\u{301}"];

fn item(s: &mut Src) -> G {
    match s.weighted(&[10, 6, 6, 2, 2, 1]) {
        0 => sym(s.pick(NUMS)),
        1 => { let t = s.pick(TEXTS); if t.is_empty() { st("") } else { sym(t) } },
        2 => st(if s.chance(1, 2) { s.pick(TEXTS) } else { s.pick(NUMS) }),
        3 => call("raw", vec![st(s.pick(TEXTS))]),
        4 => { let n = s.range(-30, 30); sym(n.to_string()) },
        _ => { let t = format!("{}{}", s.pick(&["a", "é", "1"]).repeat(s.choose(SIZES)), s.pick(&["a", "b", "", "1", "é", "字"])); if s.chance(1, 2) { st(t) } else { sym(t) } },
    }
}

#[derive(Clone, Copy, PartialEq)]
pub(super) enum Shape { Plain, Record, Keyword, Pre }

/// The generated sort, with the position of the list expression.
pub(super) fn gen(s: &mut Src) -> (Vec<G>, G, Shape) {
    let shape = s.choose(&[Shape::Plain, Shape::Plain, Shape::Record, Shape::Keyword, Shape::Pre]);
    let n = match s.weighted(&[6, 2, 1]) { 0 => s.below(7), 1 => 7 + s.below(10), _ => { let m = s.choose(&[60, 60, 60, 60, 60, 60, 60, 300]); 20 + s.below(m) } };
    // Few distinct keys make ties.
    let pool: Vec<G> = if s.chance(1, 2) { let k = 1 + s.below(4); (0..k).map(|_| item(s)).collect() } else { vec![] };
    let mut v = vec![];
    for i in 0..n {
        let k = if pool.is_empty() { item(s) } else { s.choose(&pool) };
        v.push(match shape {
            Shape::Plain => k,
            Shape::Record | Shape::Pre => ls(vec![sym(format!("i{i}")), k]),
            Shape::Keyword => ls(vec![sym(format!("i{i}")), at("k", k)]),
        });
    }
    if s.chance(1, 25) && !v.is_empty() {
        let i = s.below(v.len());
        v[i] = match s.below(4) { 0 => ls(vec![]), 1 => at("k", sym("1")), 2 => ls(vec![sym("q"), ls(vec![sym("1")])]), _ => sym("odd") };
    }
    let mut prog = vec![];
    let mut args = vec![];
    match shape {
        Shape::Plain => if s.chance(1, 5) {
            let f = match s.below(4) {
                0 => sym("do"), 1 => sym(s.pick(&["concat", "symbol", "number"])),
                2 => call("lambda", vec![sym("x"), call("concat", vec![sym(s.pick(&["1", "k", "\\-"])), sym("%x")])]),
                _ => call("lambda", vec![sym("x"), st("same")]),
            };
            args.push(at("key", f));
        },
        Shape::Record => args.push(at("key", call("lambda", vec![ls(vec![sym("r")]), call("get", vec![sym("1"), sym("%r")])]))),
        Shape::Keyword => args.push(at("key", call("lambda", vec![sym("r"), call("get", vec![sym("k"), sym("%r")])]))),
        Shape::Pre => {
            prog.push(call("define", vec![ls(vec![sym("second"), ls(vec![sym("a"), sym("b")])]), sym("%b")]));
            args.push(at("key", sym(if s.chance(1, 20) { "third" } else { "second" })));
        },
    }
    match s.below(3) { 0 => {}, 1 => args.push(at("order", sym("ascending"))), _ => args.push(at("order", s.choose(&[sym("descending"), st("descending")]))) }
    if s.chance(1, 40) { args.push(at("order", sym("sideways"))); }
    let list = if matches!(v.first(), Some(G::Sym(t)) if t.starts_with('%')) || s.chance(1, 6) { call("list", v) } else { ls(v) };
    let list = if s.chance(1, 5) { prog.push(call("define", vec![sym("items"), list])); sym("%items") } else { list };
    let mut all = args.clone();
    let i = s.below(all.len() + 1);
    all.insert(i, list);
    // Sorting what is sorted.
    let again = { let mut a = args; let i = i.min(a.len()); a.insert(i, call("sort", all.clone())); call("sort", a) };
    prog.push(call("sort", all));
    (prog, again, shape)
}

fn key_of<'t>(n: &'t N, shape: Shape) -> Option<&'t str> {
    match shape {
        Shape::Plain => n.atom().map(|a| a.val.as_str()),
        Shape::Record | Shape::Pre => n.list()?.get(1)?.atom().map(|a| a.val.as_str()),
        Shape::Keyword => match n.list()?.get(1)? { N::Attr { val, .. } => val.atom().map(|a| a.val.as_str()), _ => None },
    }
}

impl Prop for C18 {
    fn id(&self) -> &'static str { "C18" }
    fn rule(&self) -> &'static str {
        "Random lists of integers (extreme, signed, padded), floats, infinities, texts like numbers, any-script texts, and of records sorted by a key macro, lambda or built-in, with few or many ties, either order. Judged against the reference expander (insertion sort), and separately: permutation, ordered, stable, blanks in place, unchanged by a second sort. Non-trivial: at least 3 items, sorted."
    }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 10_000_000 } else { 140_000 } }
    fn run(&self, s: &mut Src, cx: &mut Cx) -> R {
        let (prog, again, shape) = gen(s);
        let plain_key = shape != Shape::Plain || !prog.last().is_some_and(|g| matches!(g, G::List(v) if v.iter().any(|x| matches!(x, G::Attr(k, _) if k == "key"))));
        let lay = layout(s);
        let (src, _) = render(s, &prog, lay, "<stdin>");
        about_to_run(s, cx, &src);
        let Some(want) = check_program(&src, HashMap::new(), &Env::default(), cx)?.1 else { return Ok(()) };
        // The same list before sorting, and sorted twice.
        let mut before = prog.clone();
        let Some(G::List(args)) = before.pop() else { unreachable!() };
        let descending = args.iter().any(|g| matches!(g, G::Attr(k, v) if k == "order" && matches!(&**v, G::Sym(t) | G::Str(t) if t == "descending")));
        before.push(args.iter().skip(1).find(|g| !matches!(g, G::Attr(..))).unwrap().clone());
        let get = |g: &[G]| -> Result<N, Fail> {
            let (src, _) = render(&mut Src::replay(&[]), g, Layout::Plain, "<stdin>");
            match seam_expand(&src, &Env::default()) {
                Ok(mut t) if t.len() == 1 => Ok(t.pop().unwrap()),
                Ok(t) => bad(format!("{src}: gives {}", show_all(&t))),
                Err(e) => bad(format!("{src}: rejected: {}", e.msg)),
            }
        };
        let old = get(&before)?;
        let mut p = before.clone(); p.pop(); p.push(prog.last().unwrap().clone());
        let new = get(&p)?;
        p.pop(); p.push(again);
        let twice = get(&p)?;
        let (N::List { kids: old, .. }, N::List { kids: new, .. }) = (&old, &new) else { return bad("not a list".to_string()) };
        if let Some(d) = diff_all(std::slice::from_ref(&twice), std::slice::from_ref(&N::List { ws: twice.ws().into(), kids: new.clone(), end_ws: String::new(), end: twice.site(), site: twice.site() }), CONTENT) {
            return bad(format!("sorting again changes the list: {d}"));
        }
        if old.len() != new.len() { return bad(format!("{} items became {}", old.len(), new.len())); }
        for (a, b) in old.iter().zip(new) { if a.ws() != b.ws() { return bad(format!("blanks moved: {:?} became {:?}", a.ws(), b.ws())); } }
        // Where each item went; ties keep the order of the source.
        let mut used = vec![false; old.len()];
        let mut from = vec![];
        for n in new {
            let i = (0..old.len()).find(|&i| !used[i] && diff(n, &{ let mut o = old[i].clone(); o.set_ws(n.ws()); o }, LAYOUT, "").is_none());
            match i { Some(i) => { used[i] = true; from.push(i); }, None => return bad(format!("{} is not an item of the list", show(n))) }
        }
        if plain_key {
            for w in 0..new.len().saturating_sub(1) {
                let (Some(a), Some(b)) = (key_of(&new[w], shape), key_of(&new[w + 1], shape)) else { return bad("sorted an item without literal key".to_string()) };
                let o = if descending { text_cmp(b, a) } else { text_cmp(a, b) };
                if o == Ordering::Greater { return bad(format!("{a:?} is before {b:?}")); }
                if o == Ordering::Equal && from[w] > from[w + 1] { return bad(format!("equal keys {a:?} and {b:?} changed places")); }
            }
        }
        cx.label(if descending { "descending" } else { "ascending" });
        cx.nontrivial = new.len() >= 3 && !want.is_empty();
        Ok(())
    }
    fn examples(&self) -> usize { EX.len() }
    fn example(&self, i: usize, cx: &mut Cx) -> R { cx.show(EX[i]); check_program(EX[i], HashMap::new(), &Env::default(), cx).map(|_| ()) }
}
const EX: &[&str] = &["(%sort (3 1 2))", "(%sort (\"10\" 9 a \"B\" 1e1 10))", "(%sort (1 2 3) :order descending)", "(%sort ((a 2) (b 1) (c 2)) :key (%lambda ((x y)) %y))", "(%sort (a (b)))", "(%sort ())", "(%sort a)",
    "(%sort (9007199254740993 9007199254740992 9007199254740992.0))", "(%sort (nan 1 inf -inf))", "(%sort (2  1\n3) :order descending)", "(%sort ((x)) :key (%lambda x 1 2))", "(%sort (a) :key (%lambda x))", "(%sort :key nosuch (a))", "(%sort (a) (b))"];
