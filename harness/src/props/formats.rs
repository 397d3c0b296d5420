//! C06–C13: what the output formats say.

use crate::engine::*;
use crate::gen::*;
use crate::mark::{self, Mk};
use crate::model::{expand::*, formats as m, markup as back, reader, tree::*};
use crate::util::*;

/// The expanded tree according to the reference reader and expander.
pub fn reference_tree(src: &str, path: &str) -> Result<Result<Vec<N>, &'static str>, Fail> {
    let tree = match reader::read(src, path) { Ok(t) => t, Err(_) => return Ok(Err("unreadable")) };
    match (Model::default()).program(&tree) {
        Ok(t) => Ok(Ok(t)),
        Err(Stop::Err(why, _)) => Ok(Err(why)),
        Err(Stop::Fuel) => discard("too many steps"),
        Err(Stop::Unknown(w)) => discard(w),
    }
}

pub fn reference_out(t: &[N], src: &str, f: Fmt, doc: bool) -> m::F<String> {
    let srcs: m::Sources = [(file_id("<stdin>"), src.to_owned())].into_iter().collect();
    match (f, doc) {
        (Fmt::Text, _) => Ok(m::text(t)),
        (Fmt::Sexp, _) => Ok(m::sexp(t)),
        (Fmt::Html, false) => m::html(t, &srcs),
        (Fmt::Html, true) => m::html_document(t, &srcs),
        (Fmt::Xml, false) => m::xml(t),
        (Fmt::Xml, true) => m::xml_document(t),
        (Fmt::Css, false) => m::css(t),
        (Fmt::Css, true) => m::css_document(t),
    }
}

/// Compares the output with the reference. Returns the expanded tree and the output when there is one.
pub fn check_output(src: &str, f: Fmt, doc: bool, cx: &mut Cx) -> Result<Option<(Vec<N>, String)>, Fail> {
    let tree = reference_tree(src, "<stdin>")?;
    let want = match &tree { Ok(t) => reference_out(t, src, f, doc).map_err(|e| e.0), Err(e) => Err(*e) };
    let got = seam_out(src, f, doc, &Env::default());
    match (got, want) {
        (Ok(g), Ok(w)) => {
            if w.contains("__lambda") {
                // Such a name has an identity in it.
                if norm_lambda(&g) != norm_lambda(&w) { return bad(format!("{} output:\n   got: {g:?}\n  want: {w:?}", f.name())); }
                return Ok(None);
            }
            if g != w { return bad(format!("{} output{}:\n   got: {g:?}\n  want: {w:?}", f.name(), if doc { " (document)" } else { "" })); }
            cx.label("generated");
            Ok(Some((tree.unwrap(), g)))
        },
        (Err(_), Err(why)) => { cx.label(&format!("rejected: {why}")); Ok(None) },
        (Ok(g), Err(why)) => bad(format!("must be rejected as {} ({why}) but gave {g:?}", f.name())),
        (Err(e), Ok(w)) => bad(format!("must give {w:?} as {} but was rejected: {}", f.name(), e.msg)),
    }
}

fn parse_back(t: &[N], out: &str, html: bool, cx: &mut Cx) -> R {
    let Some(want) = back::expected(t, html) else { return Ok(()) };
    match back::parse(out, html) {
        Ok(got) => if got != want {
            let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            return bad(format!("the markup reads back differently at item {i}:\n   got: {:?}\n  want: {:?}\n output: {out:?}", got.get(i), want.get(i)));
        },
        Err(e) => return bad(format!("the markup is malformed: {e}\n output: {out:?}")),
    }
    cx.label("parsed back");
    Ok(())
}

pub fn elements(t: &[N]) -> usize { t.iter().map(|n| match n { N::List { kids, .. } => 1 + elements(kids), _ => 0 }).sum() }

/// C06: reading the S-expressions back.
/// Is there a symbol which starts like a number? (Known finding of C06: it is printed without its escape.)
fn symbol_like_number(n: &N) -> bool {
    match n {
        N::Sym(a) => a.val.starts_with(|c: char| c.is_ascii_digit() || matches!(c, '+' | '-')),
        N::List { kids, .. } => kids.iter().any(symbol_like_number),
        N::Attr { val, .. } => symbol_like_number(val),
        _ => false,
    }
}
pub struct C06;
fn readable(t: &[N]) -> Option<&'static str> {
    // Positions where two tokens touch that would be read as one, and atoms that are of no source kind.
    fn go(n: &N) -> Option<&'static str> {
        match n {
            N::List { kids, .. } => many(kids),
            N::Attr { val, .. } => if val.ws().is_empty() && matches!(**val, N::Sym(_) | N::Num(_) | N::Attr { .. }) { Some("glued") } else { go(val) },
            N::Sym(a) => if a.val.is_empty() || a.val.starts_with(|c: char| c.is_ascii_digit() || matches!(c, '+' | '-' | '%')) { Some("symbol like another kind") } else { None },
            N::Num(a) => if a.val.starts_with(|c: char| c.is_ascii_digit() || matches!(c, '+' | '-')) { None } else { Some("number like another kind") },
            N::Str(_) | N::Raw(_) => None,
        }
    }
    fn last_symbolic(n: &N) -> bool { match n { N::Sym(_) | N::Num(_) => true, N::Attr { val, .. } => last_symbolic(val), _ => false } }
    fn many(t: &[N]) -> Option<&'static str> {
        for w in t.windows(2) {
            if w[1].ws().is_empty() && last_symbolic(&w[0]) && matches!(w[1], N::Sym(_) | N::Num(_) | N::Attr { .. }) { return Some("glued"); }
        }
        t.iter().find_map(go)
    }
    many(t)
}
fn round_trip(src: &str, plain: bool, cx: &mut Cx) -> R {
    let env = Env::default();
    let (tree, out) = match seam_tree_out(src, Fmt::Sexp, false, &env) {
        Ok((t, Ok(o))) => (t, o),
        Ok((_, Err(e))) => return bad(format!("no S-expression output: {}", e.msg)),
        Err(e) => return if plain { bad(format!("rejected: {}", e.msg)) } else { discard("not expandable") },
    };
    // The known finding of C06: symbols that start like a number are printed without the escape.
    if plain { if tree.iter().any(symbol_like_number) { return discard("symbol like a number"); } }
    else if let Some(w) = readable(&tree) { return discard(w); }
    let (tree2, out2) = match seam_tree_out(&out, Fmt::Sexp, true, &env) {
        Ok((t, Ok(o))) => (t, o),
        Ok((_, Err(e))) | Err(e) => return bad(format!("the output {out:?} is not readable: {}", e.msg)),
    };
    if let Some(d) = diff_all(&tree2, &tree, LAYOUT) { return bad(format!("read back from {out:?}: {d}")); }
    if out2 != out { return bad(format!("printed again: {out2:?} instead of {out:?}")); }
    cx.nontrivial = count(&tree) >= 4 && elements(&tree) >= 1;
    Ok(())
}
const EX06: &[&str] = &["a\\ b c\\(d", "\"\\u{0}1\"", "\\:k \\;c", "(a :k \"v\\\"\" )", "\"a\\\\\"\"b\"", "\"\"\"\"\"\"\"b\"", ":k \"\" \"b\"", "a\\\nb"];
impl Prop for C06 {
    fn id(&self) -> &'static str { "C06" }
    fn rule(&self) -> &'static str {
        "Two thirds macro-free random trees (any string and symbol contents, attributes, layout, comments), one third random programs; printed as S-expressions, read back by seam: same kinds, values, keywords, structure and blanks, and the same text again. Non-trivial: at least 4 nodes with a list among them."
    }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 25_000_000 } else { 600_000 } }
    fn run(&self, s: &mut Src, cx: &mut Cx) -> R {
        let plain = s.chance(2, 3);
        let lay = if plain { layout(s) } else { Layout::Lines };
        let g = if plain { let d = s.below(5); forest(s, d) } else { mark::program(s, 0) };
        let (src, _) = render(s, &g, lay, "<stdin>");
        about_to_run(s, cx, &src);
        cx.label(if plain { "tree" } else { "program" });
        if !plain { reference_tree(&src, "<stdin>")?.ok(); }
        round_trip(&src, plain, cx)
    }
    fn finding(&self, input: &str) -> bool {
        let env = Env::default();
        let Ok((tree, Ok(out))) = seam_tree_out(input, Fmt::Sexp, false, &env) else { return true };
        let Ok((tree2, Ok(out2))) = seam_tree_out(&out, Fmt::Sexp, true, &env) else { return true };
        diff_all(&tree2, &tree, LAYOUT).is_some() || out2 != out
    }
    fn examples(&self) -> usize { EX06.len() }
    fn example(&self, i: usize, cx: &mut Cx) -> R { cx.show(EX06[i]); round_trip(EX06[i], true, cx) }
}

pub struct Formats {
    id: &'static str,
    rule: &'static str,
    fmt: Fmt,
    /// 0: fragments, 1: documents, 2: either.
    doc: u8,
    gen: fn(&mut Src) -> Vec<G>,
    judge: fn(&[N], &str, bool, &mut Cx) -> R,
    cases: (u64, u64),
    examples: &'static [&'static str],
}
impl Prop for Formats {
    fn id(&self) -> &'static str { self.id }
    fn rule(&self) -> &'static str { self.rule }
    fn cases(&self, thorough: bool) -> u64 { if thorough { self.cases.1 } else { self.cases.0 } }
    fn run(&self, s: &mut Src, cx: &mut Cx) -> R {
        let doc = match self.doc { 0 => false, 1 => true, _ => s.chance(1, 2) };
        let g = (self.gen)(s);
        let g = if self.id != "C13" || s.chance(1, 8) { stretch(s, g, true) } else { g };
        let lay = layout(s);
        let (src, _) = render(s, &g, lay, "<stdin>");
        about_to_run(s, cx, &src);
        self.check(&src, doc, cx)
    }
    fn examples(&self) -> usize { self.examples.len() * if self.doc == 2 { 2 } else { 1 } }
    fn example(&self, i: usize, cx: &mut Cx) -> R {
        let e = self.examples[i % self.examples.len()];
        cx.show(e);
        self.check(e, self.doc == 1 || i >= self.examples.len(), cx)
    }
}
impl Formats {
    fn check(&self, src: &str, doc: bool, cx: &mut Cx) -> R {
        match check_output(src, self.fmt, doc, cx)? { Some((t, out)) => (self.judge)(&t, &out, doc, cx), None => Ok(()) }
    }
}

fn wild(s: &mut Src) -> u64 { s.choose(&[0, 0, 30]) }

// ---- C07
pub fn gen_text(s: &mut Src) -> Vec<G> { if s.chance(1, 2) { let d = s.below(4); forest(s, d) } else { mark::program(s, 0) } }
fn judge_text(t: &[N], out: &str, _doc: bool, cx: &mut Cx) -> R {
    // Independent of the reference: contents in order, nothing else but blanks, brackets and keywords.
    let mut rest = out;
    fn eat(n: &N, rest: &mut &str) -> bool {
        fn take(rest: &mut &str, t: &str) -> bool {
            let blanks = rest.len() - rest.trim_start_matches([' ', '\t', '\r', '\n']).len();
            // The text itself may start with blanks.
            for k in 0..=blanks { if let Some(r) = rest[k..].strip_prefix(t) { *rest = r; return true; } }
            false
        }
        match n {
            N::List { kids, .. } => take(rest, "(") && kids.iter().all(|k| eat(k, rest)) && take(rest, ")"),
            N::Attr { key, val, .. } => take(rest, &format!(":{key}")) && eat(val, rest),
            n => { let a = n.atom().unwrap(); take(rest, &format!("{}{}", a.ws, a.val)) },
        }
    }
    for n in t { if !eat(n, &mut rest) { return bad(format!("{} is missing from the text at {rest:?}", show(n))); } }
    if !rest.is_empty() { return bad(format!("excess text {rest:?}")); }
    cx.nontrivial = count(t) >= 3;
    Ok(())
}

// ---- C08
pub fn gen_html(s: &mut Src) -> Vec<G> {
    let mut k = Mk::new(true, wild(s), s.choose(&[0, 12]));
    k.sane = s.chance(2, 3);
    k.foreign = 1;
    k.nasty = 0;
    let d = 1 + s.below(4);
    k.nodes(s, d, 5)
}
fn judge_html(t: &[N], out: &str, _doc: bool, cx: &mut Cx) -> R {
    parse_back(t, out, true, cx)?;
    cx.nontrivial = elements(t) >= 2;
    Ok(())
}

// ---- C09
pub fn gen_escape(s: &mut Src) -> Vec<G> {
    let mut k = Mk::new(true, 0, s.choose(&[0, 10]));
    k.sane = true;
    k.foreign = 0;
    k.nasty = 6;
    let d = 1 + s.below(3);
    let v = k.nodes(s, d, 4);
    if s.chance(1, 3) { k.html = false; let mut inner = vec![sym(s.pick(&["svg", "math"]))]; inner.extend(k.attrs(s)); inner.extend(k.nodes(s, 2, 4)); let mut v = v; v.push(ls(inner)); return v; }
    v
}
fn each_text(t: &[N], f: &mut impl FnMut(&str) -> R) -> R {
    for n in t { match n { N::List { kids, .. } => each_text(kids, f)?, N::Attr { val, .. } => each_text(std::slice::from_ref(val), f)?, n => f(&n.atom().unwrap().val)? } }
    Ok(())
}
fn special_chars(t: &[N]) -> usize {
    t.iter().map(|n| match n { N::List { kids, .. } => special_chars(kids), N::Attr { val, .. } => special_chars(std::slice::from_ref(val)),
        n => n.atom().unwrap().val.chars().filter(|c| matches!(c, '<' | '>' | '&' | '"' | '\'')).count() }).sum()
}
pub struct C09;
impl Prop for C09 {
    fn id(&self) -> &'static str { "C09" }
    fn rule(&self) -> &'static str {
        "Random elements whose texts and attribute values (symbols and strings) are made of markup fragments, quotes, entities and arbitrary characters, in html and (within svg/math or on its own) xml. The output must equal the reference and an independent markup parser must read back exactly the source's elements, attributes and characters. Non-trivial: at least 2 special characters, parsed back."
    }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 20_000_000 } else { 500_000 } }
    fn run(&self, s: &mut Src, cx: &mut Cx) -> R {
        let xml = s.chance(1, 3);
        let g = if xml { let mut k = Mk::new(false, 0, s.choose(&[0, 10])); k.sane = true; k.nasty = 6; let d = 1 + s.below(3); k.nodes(s, d, 4) } else { gen_escape(s) };
        let g = stretch(s, g, true);
        let lay = layout(s);
        let (src, _) = render(s, &g, lay, "<stdin>");
        about_to_run(s, cx, &src);
        check_escape(&src, xml, cx)
    }
    fn examples(&self) -> usize { 2 * EX09.len() }
    fn example(&self, i: usize, cx: &mut Cx) -> R { cx.show(EX09[i / 2]); check_escape(EX09[i / 2], i % 2 == 1, cx) }
}
const EX09: &[&str] = &["(a :k \"\\\"<>&'\" \"\\\"<>&'\")", "(p a&amp;b <i>)", "(svg :k a\"b\" \"<\" (g :x \"&\"))", "(a :k (%raw \"&amp;\") (%raw \"<b/>\"))", "\"<\" 5<6"];
fn check_escape(src: &str, xml: bool, cx: &mut Cx) -> R {
    let Some((t, out)) = check_output(src, if xml { Fmt::Xml } else { Fmt::Html }, false, cx)? else { return Ok(()) };
    parse_back(&t, &out, !xml, cx)?;
    each_text(&t, &mut |x| if seam::assemble::escape_xml(x) != m::escape(x) { bad(format!("{x:?} is escaped as {:?}", seam::assemble::escape_xml(x))) } else { Ok(()) })?;
    cx.nontrivial = special_chars(&t) >= 2 && cx.labels.contains_key("parsed back");
    Ok(())
}

// ---- C10
pub fn gen_document(s: &mut Src) -> Vec<G> {
    let mut k = Mk::new(true, if s.chance(1, 10) { 20 } else { 0 }, 0);
    k.sane = true;
    let case = |s: &mut Src, t: &str| match s.below(4) { 0 => t.to_uppercase(), 1 => { let mut c = t.to_owned(); c.replace_range(..1, &t[..1].to_uppercase()); c }, _ => t.to_owned() };
    let mut v = vec![];
    let elem = |s: &mut Src, k: &mut Mk, name: &str, extra: Vec<G>| {
        let mut e = vec![sym(case(s, name))];
        e.extend(k.attrs(s));
        e.extend(extra);
        let n = k.nodes(s, 1, 2);
        e.extend(n);
        ls(e)
    };
    let mut inside = vec![];
    for name in ["head", "body"] {
        match s.below(5) {
            0 => { let e = elem(s, &mut k, name, vec![]); v.push(e); },
            1 => { let e = elem(s, &mut k, name, vec![]); inside.push(e); },
            // Deeper than looked for, or not an element at all.
            2 => { let e = elem(s, &mut k, name, vec![]); let e = ls(vec![sym("div"), ls(vec![sym("div"), e])]); v.push(e); },
            3 => {
                let t = s.pick(&["style", "script", "svg", "pre", "title"]);
                v.push(if t == "style" { ls(vec![sym(case(s, t)), ls(vec![sym(name), at("k", sym("v"))])]) } else { ls(vec![sym(t), ls(vec![sym(name)])]) });
            },
            _ => {},
        }
    }
    let host = s.pick(&["html", "html", "div", "header"]);
    if !inside.is_empty() || s.chance(1, 3) { let e = elem(s, &mut k, host, inside); v.push(e); }
    if s.chance(1, 3) {
        let d = case(s, "!doctype");
        let d = ls(vec![sym(d), sym("html")]);
        let i = s.below(v.len() + 1);
        v.insert(i, if s.chance(1, 8) { ls(vec![sym("div"), d]) } else { d });
    }
    // Words which are no elements.
    if s.chance(1, 8) { let i = s.below(v.len() + 1); let t = s.pick(&["html", "head", "body", "!doctype", "HTML"]); v.insert(i, if s.chance(1, 4) { st(t) } else { sym(t) }); }
    let more = k.nodes(s, 1, 3);
    for m in more { let i = s.below(v.len() + 1); v.insert(i, m); }
    v
}
fn judge_document(t: &[N], out: &str, _doc: bool, cx: &mut Cx) -> R {
    if t.is_empty() { return if out == m::HTML_DEFAULT { Ok(()) } else { bad("the empty document differs".to_string()) }; }
    let low = out.to_lowercase();
    let named = |n: &str| t.iter().any(|x| x.list().and_then(|l| l.first()).and_then(|h| h.atom()).is_some_and(|a| a.val.eq_ignore_ascii_case(n)));
    let (d, h) = (named("!doctype"), named("html"));
    if !d && !low.starts_with("<!doctype html>\n") { return bad("no doctype at the start".to_string()); }
    if !d && !h && !(low.starts_with("<!doctype html>\n<html>\n") && low.ends_with("\n</html>")) { return bad("not wrapped in html".to_string()); }
    cx.label(&format!("doctype {} html {}", d as u8, h as u8));
    cx.nontrivial = elements(t) >= 1;
    Ok(())
}

// ---- C11
pub fn gen_special(s: &mut Src) -> Vec<G> {
    let mut k = Mk::new(true, wild(s), s.choose(&[0, 8]));
    k.sane = true;
    k.foreign = 10;
    let n = 1 + s.below(2);
    (0..n).map(|_| {
        let g = k.special(s, 2);
        match s.below(4) { 0 => ls(vec![sym("div"), sym("x"), g]), 1 => call("do", vec![sym("w"), g]), 2 => call("for", vec![sym("i"), sym("in"), ls(vec![sym("1"), sym("2")]), g]), _ => g }
    }).collect()
}
fn judge_special(t: &[N], out: &str, _doc: bool, cx: &mut Cx) -> R {
    // Source text, CSS and S-expressions found by their own references.
    fn visit(t: &[N], f: &mut dyn FnMut(&str, &N)) {
        for n in t { if let N::List { kids, .. } = n { if let Some(N::Sym(a)) = kids.first() { f(&a.val.to_ascii_lowercase(), n); if ["title", "textarea", "pre", "script", "style"].contains(&&*a.val.to_ascii_lowercase()) { continue; } } visit(kids, f); } }
    }
    let mut seen = vec![];
    visit(t, &mut |tag, _| if m::FOREIGN.contains(&tag) { seen.push(tag.to_owned()) });
    for t in &seen { cx.label(t); if !out.contains(&format!("</{t}>")) { return bad(format!("no {t} in the output")); } }
    cx.nontrivial = !seen.is_empty() && out.len() > 30;
    Ok(())
}

// ---- C12
pub fn gen_xml(s: &mut Src) -> Vec<G> {
    let mut k = Mk::new(false, wild(s), s.choose(&[0, 12]));
    k.sane = s.chance(2, 3);
    let d = 1 + s.below(4);
    let mut v = k.nodes(s, d, 4);
    if s.chance(1, 3) {
        let mut decl = vec![sym(s.pick(&["?xml", "?xml", "?XML", "?xml-model", "!DOCTYPE", "xml"]))];
        if s.chance(1, 2) { decl.push(at("version", st("1.0"))); }
        if s.chance(1, 2) { decl.push(at("encoding", st("UTF-8"))); }
        let i = if s.chance(3, 4) { 0 } else { s.below(v.len() + 1) };
        v.insert(i, ls(decl));
    }
    v
}
fn judge_xml(t: &[N], out: &str, doc: bool, cx: &mut Cx) -> R {
    let body = if doc && !out.is_empty() {
        let own = t.first().and_then(|n| n.list()).and_then(|l| l.first()).and_then(|h| h.sym()).is_some_and(|a| a.val.eq_ignore_ascii_case("?xml"));
        if own { if out.to_lowercase().trim_start().starts_with("<?xml") { out } else { return bad("the declaration does not come first".to_string()) } }
        else { match out.strip_prefix(m::XML_DEFAULT) { Some(o) => o, None => return bad("no default declaration".to_string()) } }
    } else { out };
    parse_back(t, body, false, cx)?;
    cx.nontrivial = elements(t) >= 2;
    Ok(())
}

// ---- C13
pub fn gen_css(s: &mut Src) -> Vec<G> {
    let mut k = Mk::new(false, wild(s), s.choose(&[0, 12]));
    let v = k.sheet(s);
    v
}
fn judge_css(t: &[N], out: &str, _doc: bool, cx: &mut Cx) -> R {
    if let Some(want) = back::expected_css(t) {
        match back::parse_css(out) {
            Ok(got) => if got != want { return bad(format!("the style sheet reads back as {got:?}\n  want: {want:?}\n  output: {out:?}")); },
            Err(e) => return bad(format!("malformed style sheet: {e}\n  output: {out:?}")),
        }
        cx.label("parsed back");
    }
    cx.nontrivial = elements(t) >= 1;
    Ok(())
}

pub fn all() -> Vec<Formats> {
    vec![
        Formats { id: "C07", fmt: Fmt::Text, doc: 2, gen: gen_text, judge: judge_text, cases: (400_000, 15_000_000),
            rule: "Random macro-free trees and random programs; the text must equal the reference text of the reference expansion, and contain each node's blanks and content in order and nothing else. Non-trivial: at least 3 nodes.",
            examples: &["a \"b\\n\"(c :k \"v\" )", "(%raw \"<&>\") \"<&>\"", "(%define x 1 2) a%x %x"] },
        Formats { id: "C08", fmt: Fmt::Html, doc: 0, gen: gen_html, judge: judge_html, cases: (400_000, 15_000_000),
            rule: "Random elements, void elements, declarations, attributes and texts in any case and layout, some broken on purpose, some coming out of macros; the fragment must equal the reference and an independent markup parser must read back the same structure. Non-trivial: at least 2 elements generated.",
            examples: &["(p a)", "(p\n  a)", "(p a )", "(br)", "(BR :k v)", "(br x)", "()", "(\"p\")", "(p :a (b))", "(p x :a b)", ":a b", "(5)", "(!doctype html)", "(!doctype \"x\")", "(p :a 1\n   :b 2 (q))", "(\\ )", "(%symbol \"\")", "((%symbol \"\") x)", "(Div (P x))"] },
        Formats { id: "C10", fmt: Fmt::Html, doc: 1, gen: gen_document, judge: judge_document, cases: (300_000, 12_000_000),
            rule: "Documents with every combination of doctype, html, head and body present at top level, one level down, too deep or as foreign content, in any case, among other elements; the document must be the reference boilerplate around the reference fragment. Non-trivial: at least one element.",
            examples: &["", "; nothing", "x", "(!DOCTYPE html)", "(html)", "(head) (body)", "(Body x)", "(html (head) (body))", "(div (head))", "(div (div (head)))", "(style (body :margin 0)) (p x)", "(pre (body))", "(%define x 1)"] },
        Formats { id: "C11", fmt: Fmt::Html, doc: 0, gen: gen_special, judge: judge_special, cases: (300_000, 12_000_000),
            rule: "pre, textarea, title, style, script, svg and math with generated contents of the right and wrong kind, at top level, nested, and in macros and loops; the fragment must equal the reference (source text, plain text, CSS, S-expressions, XML). Non-trivial: one of them is in an output of more than 30 bytes.",
            examples: &["(pre a  b\n ; c\n (d) )", "(pre )", "(pre)", "(div\n (pre\n  a))", "(style \"a{}\")", "(style \"a\" b)", "(style (p :k v))", "(style)", "(script \"a\" b)", "(svg (br) :k v)", "(svg (g :k \"<\" x))", "(title a < \"b\")", "(TextArea (a :k v))", "(pre :id x y)", "(%define (f x) (pre %x)) (f)", "(style (@import \"x\"))"] },
        Formats { id: "C12", fmt: Fmt::Xml, doc: 2, gen: gen_xml, judge: judge_xml, cases: (400_000, 15_000_000),
            rule: "Random XML elements, declarations, processing instructions, attributes and texts, some broken on purpose; fragment and document must equal the reference and an independent parser must find them well-formed with the same structure. Non-trivial: at least 2 elements generated.",
            examples: &["(?xml :version 1.0) (a)", "(a (?xml))", "(?XML a b)", "(!DOCTYPE x y) (x)", "(a :k \"<\" \"&\")", "(br)", "()", "(a b :k v)", "(a :k (b))", "", "(%raw \"<a/>\")", "((%symbol \"\"))", "(a\n b)", "(style x)"] },
        Formats { id: "C13", fmt: Fmt::Css, doc: 2, gen: gen_css, judge: judge_css, cases: (350_000, 12_000_000),
            rule: "Random style sheets of rules with selectors and nested function values, one-line and block @-rules, nested rules, and broken ones; the output must equal the reference and an independent CSS splitter must find the same rules and declarations. Non-trivial: at least one rule.",
            examples: &["(p a :k v :l (calc (+ 1 (* 2 3))))", "(p :k \"a b\" :l \"\")", "(@media screen :max-width 5px (p :k v) (q :k w))", "(@import \"x y\" :k v)", "(@media)", "(@font-face :src (url x))", "(p)", "()", "((a))", "(:k v)", "x", "(p :k (:a b))", "(p :k v q)", "(p :k (rgba 1 2 3))", "(@media (p :k v) x)", "(@keyframes (@media (p :k v)))", "(p :k ())", "(p (q))", "(@page :k v)", ""] },
    ]
}
