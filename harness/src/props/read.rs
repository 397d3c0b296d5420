//! C04 (positions and layout) and C05 (syntax).

use crate::engine::*;
use crate::gen::{self, *};
use crate::model::{reader, tree::*};
use crate::util::*;

/// Source text plus, when built from a tree, what it must be read as.
fn source(s: &mut Src) -> (String, Option<Vec<N>>, &'static str) {
    match s.weighted(&[5, 2, 2, 1]) {
        0 => {
            let lay = layout(s);
            let d = s.below(5);
            let g = forest(s, d);
            let (t, n) = render(s, &g, lay, "<stdin>");
            (t, Some(n), "rendered")
        },
        1 => {
            let g = forest(s, 3);
            let (t, _) = render(s, &g, Layout::Wild, "<stdin>");
            (mutate(s, &t), None, "mutated")
        },
        2 => (soup(s, &[], 30), None, "soup"),
        _ => (any_text(s, 30), None, "text"),
    }
}

fn check_spans(src: &str, t: &[N], prev_end: &mut usize) -> R {
    for n in t {
        let site = n.site();
        let cut = src.get(site.off..site.off + site.span);
        let Some(cut) = cut else { return bad(format!("site {site:?} of {} is outside of the source", show(n))) };
        // Blank text between the previous token (or comment) and this node.
        let ws = n.ws();
        if site.off < ws.len() || src.get(site.off - ws.len()..site.off) != Some(ws) {
            return bad(format!("the whitespace {ws:?} is not what precedes {}", show(n)));
        }
        let between = &src[*prev_end..site.off - ws.len()];
        if site.off - ws.len() < *prev_end || !(between.is_empty() || between.trim_start_matches([' ', '\t', '\r', '\n']).starts_with(';')) {
            return bad(format!("text {between:?} before {} belongs to nothing", show(n)));
        }
        let line_start = src[..site.off].rfind('\n').map_or(0, |i| i + 1);
        if site.col != site.off - line_start || site.line != 1 + src[..site.off].matches('\n').count() {
            return bad(format!("line {} offset {} of {} is wrong", site.line, site.col, show(n)));
        }
        *prev_end = site.off + site.span;
        match n {
            N::List { kids, end, end_ws, .. } => {
                if cut != "(" { return bad(format!("list site cuts out {cut:?}")); }
                check_spans(src, kids, prev_end)?;
                if src.get(end.off..end.off + end.span) != Some(")") { return bad("closing bracket site does not cut out `)'".to_string()); }
                if &src[end.off - end_ws.len()..end.off] != end_ws { return bad("whitespace before `)' is wrong".to_string()); }
                *prev_end = end.off + end.span;
            },
            N::Attr { key, val, .. } => {
                if cut != format!(":{key}") { return bad(format!("keyword site cuts out {cut:?}, expected :{key}")); }
                check_spans(src, std::slice::from_ref(val), prev_end)?;
            },
            _ => {
                // Its own spelling: reading just the cut gives the same node.
                match reader::read(cut, "x").as_deref() {
                    Ok([one]) if one.kind() == n.kind() && one.atom().unwrap().val == n.atom().unwrap().val => {},
                    other => return bad(format!("the span of {} cuts out {cut:?}, which reads as {other:?}", show(n))),
                }
            },
        }
    }
    Ok(())
}

pub struct C04;
impl Prop for C04 {
    fn id(&self) -> &'static str { "C04" }
    fn rule(&self) -> &'static str {
        "Sources: random trees rendered with random spelling/layout/comments (positions known by construction), mutations of them, token soups and random text. \
         Non-trivial: seam reads it and at least 3 nodes, two of them on different lines or after non-ASCII text, are compared site by site."
    }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 30_000_000 } else { 2_000_000 } }
    fn run(&self, s: &mut Src, cx: &mut Cx) -> R {
        let (src, known, how) = source(s);
        about_to_run(s, cx, &src);
        cx.label(how);
        check_positions(&src, known.as_deref(), cx)
    }
    fn examples(&self) -> usize { EX04.len() }
    fn example(&self, i: usize, cx: &mut Cx) -> R { cx.show(EX04[i]); check_positions(EX04[i], None, cx) }
}
const EX04: &[&str] = &["\"a\nb\" c", "a\\\nb c", "x\ny\n(z\n  :k \"\"\"\n\n\"\"\" w)", ";c\na", "(a ;x\n ;y\n b)", "é字 😀\n\tz", "\r\na"];

fn check_positions(src: &str, known: Option<&[N]>, cx: &mut Cx) -> R {
    let got = match seam_read(src, None) { Ok(t) => t, Err(_) => { cx.label("rejected"); return Ok(()) } };
    check_spans(src, &got, &mut 0)?;
    let reference = reader::read(src, "<stdin>");
    if let Ok(want) = &reference {
        if let Some(d) = diff_all(&got, want, EVERYTHING) { return bad(d); }
    }
    if let Some(want) = known {
        if let Some(d) = diff_all(&got, want, EVERYTHING) { return bad(d); }
    }
    cx.nontrivial = count(&got) >= 3 && (src.contains('\n') || !src.is_ascii());
    Ok(())
}

pub struct C05;
impl Prop for C05 {
    fn id(&self) -> &'static str { "C05" }
    fn rule(&self) -> &'static str {
        "Sources as for C04. Oracle: the tree the source was rendered from, and a reference reader for every text (accept/reject and the tree). \
         Non-trivial: an accepted source of at least 3 nodes, or a source rejected with at least 5 characters."
    }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 40_000_000 } else { 2_500_000 } }
    fn run(&self, s: &mut Src, cx: &mut Cx) -> R {
        let (src, known, how) = source(s);
        about_to_run(s, cx, &src);
        cx.label(how);
        check_syntax(&src, known.as_deref(), cx)
    }
    fn examples(&self) -> usize { EX05.len() }
    fn example(&self, i: usize, cx: &mut Cx) -> R { cx.show(EX05[i]); check_syntax(EX05[i], None, cx) }
}
const EX05: &[&str] = &["a\\\\\\\\b", "a\\", "\\", "(a\\)", "\"\\", "\"\"\"\\\"\"\"\"", "\"\"\"a\"b\"\"\"", "\"\"", "\"\"\"\"\"\"", ":", ":k", "(:k)", ":k :l 1", ")", "(", "\"\\q\"", "\"\\u{110000}\"", "\"\\uD800\"", "\"\\400\"", "a\"b\"c", "a;b", "; only", "", "+;x", "\\5", ":a:b c"];

fn check_syntax(src: &str, known: Option<&[N]>, cx: &mut Cx) -> R {
    let got = seam_read(src, None);
    let want = reader::read(src, "<stdin>");
    if let Some(k) = known {
        match &got {
            Ok(t) => if let Some(d) = diff_all(t, k, CONTENT) { return bad(d); },
            Err(e) => return bad(format!("valid source rejected: {}", e.msg)),
        }
    }
    match (&got, &want) {
        (Ok(t), Ok(w)) => {
            if let Some(d) = diff_all(t, w, CONTENT) { return bad(d); }
            cx.nontrivial = gen_count(t) >= 3;
            Ok(())
        },
        (Err(_), Err(e)) => {
            cx.label(&format!("rejected {:?}", e.kind));
            cx.nontrivial = src.len() >= 5;
            Ok(())
        },
        (Ok(t), Err(e)) => bad(format!("should be rejected ({:?} at {:?}) but was read as {}", e.kind, e.site, show_all(t))),
        (Err(e), Ok(w)) => bad(format!("should be read as {} but was rejected: {}", show_all(w), e.msg)),
    }
}
fn gen_count(t: &[N]) -> usize { count(t) }
#[allow(unused_imports)] use gen as _gen;
