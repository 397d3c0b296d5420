//! C01 (every source ends in output or an error) and C02 (no invalid memory accesses).

use super::mixed;
use crate::engine::*;
use crate::model::tree::*;
use crate::util::*;
use std::fmt::Write;

fn ran(s: &mut Src, cx: &mut Cx, memory: bool) -> R {
    mixed::files();
    let src = mixed::program(s, cx)?;
    let mut env = Env::default();
    if s.chance(1, 6) { env.path = Some(s.pick(&["file.sex", "é dir/x.sex", ""]).to_owned()); }
    if s.chance(1, 6) { env.includes.push("nosuch".into()); env.includes.push(".".into()); }
    let (only, doc_) = mixed::format(s);
    // An error must have something to say.
    let said = |m: &str, at: &str| -> R { if m.trim().is_empty() { bad(format!("{at}: the error says nothing")) } else { Ok(()) } };
    // How the library is used: as it is, a clone in place of the original, or the tree kept over another run of the same expander.
    let how = if memory { s.below(5) } else { 0 };
    let hold = s.below(3);
    let run = |f: &dyn Fn(&seam::parse::parser::ParseTree<'_>, &mut Cx) -> R, cx: &mut Cx| -> Result<R, SeamErr> {
        if how < 2 { return with_tree(&src, &env, |t| f(t, cx)); }
        let mut ex = seam::tree_builder(env.path.as_ref().map(std::path::Path::new), src.clone());
        ex.add_includes(env.includes.iter());
        let ex = if how == 2 { let c = ex.clone(); drop(ex); c } else { ex };
        let other = ex.clone();
        let r = match ex.expand() {
            Ok(t) => {
                let t = if how == 3 { let c = t.clone(); drop(t); c } else { t };
                if how == 4 { let _ = ex.expand(); if let Ok(x) = other.expand() { std::hint::black_box(convert_all(&x)); } }
                Ok(f(&t, cx))
            },
            Err(e) => { if how == 4 { let _ = ex.expand(); } let msg = e.to_string(); Err(SeamErr { stage: if msg.contains("Error Expanding Macro") { Stage::Expand } else { Stage::Read }, msg }) },
        };
        r
    };
    let r = run(&|t, cx| -> R {
        let nodes = convert_all(t);
        if memory {
            // Every text, and what is printed of the tree.
            check_texts(&nodes)?;
            let mut d = String::new();
            let _ = write!(d, "{t:?}");
            for n in t { let _ = write!(d, "{n:?} {:?}", n.site()); }
            std::hint::black_box(&d);
        }
        for f in FMTS {
            if memory && f != only { continue; }
            for doc in [false, true] {
                if memory && doc != doc_ { continue; }
                match generate(t, f, doc) {
                    Ok(o) => { if memory && std::str::from_utf8(o.as_bytes()).is_err() { return bad(format!("as {}: the output is not UTF-8", f.name())); } cx.label(&format!("{} output", f.name())); },
                    Err(e) => said(&e.msg, f.name())?,
                }
            }
        }
        // What the tree says does not change by using it.
        if memory && hold == 0 {
            // A formatter, its clones, and what they give after the original is gone.
            let f = formatter(t.clone(), only);
            let a = f.display().is_ok();
            let g = f.clone();
            let h = g.clone();
            let b = h.document().is_ok() | h.display().is_ok();
            drop(f);
            std::hint::black_box((a, b, g.document().map_err(|e| e.to_string()), h.display().map_err(|e| e.to_string()), format!("{g:?}")));
        }
        if memory { let again = crate::model::tree::convert_all(t); if let Some(d) = diff_all(&again, &nodes, EVERYTHING) { return bad(format!("the tree changed while it was used: {d}")); } }
        Ok(())
    }, cx);
    match r {
        Ok(x) => { cx.label("expanded"); cx.nontrivial = true; x },
        Err(e) => { cx.label(if e.stage == Stage::Read { "not read" } else { "not expanded" }); cx.nontrivial = e.stage == Stage::Expand; said(&e.msg, "seam") },
    }
}
fn check_texts(t: &[N]) -> R {
    for n in t {
        let fine = |x: &str| std::str::from_utf8(x.as_bytes()).is_ok();
        if !fine(n.ws()) { return bad("blanks are not UTF-8"); }
        match n {
            N::List { kids, end_ws, .. } => { if !fine(end_ws) { return bad("blanks are not UTF-8"); } check_texts(kids)? },
            N::Attr { key, val, .. } => { if !fine(key) { return bad("keyword is not UTF-8"); } check_texts(std::slice::from_ref(&**val))? },
            n => if !fine(&n.atom().unwrap().val) { return bad("value is not UTF-8"); },
        }
    }
    Ok(())
}

pub struct C01;
impl Prop for C01 {
    fn id(&self) -> &'static str { "C01" }
    fn rule(&self) -> &'static str {
        "Random sources: macro programs, HTML, XML and CSS, calls of every built-in with any arguments nested in each other, YAML, TOML and Markdown, faulty snippets, token soups and arbitrary text, alone, one after the other, and damaged at random; sources whose recursion, nesting or sizes are not bounded (as told by the reference expander) are left out. Expanded and generated in all five formats as fragment and document: output or a printable error, no panic, abort, overflow or endless loop. Non-trivial: was expanded, or rejected while expanding."
    }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 20_000_000 } else { 400_000 } }
    fn run(&self, s: &mut Src, cx: &mut Cx) -> R { ran(s, cx, false) }
}

pub struct C02;
impl Prop for C02 {
    fn id(&self) -> &'static str { "C02" }
    fn rule(&self) -> &'static str {
        "The same random sources as for C01, with includes that succeed and fail at any depth, run under AddressSanitizer with one random format; every text and position in the tree is read before and after generating output, and printed. Panics are left to C01. Non-trivial: was expanded, or rejected while expanding."
    }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 4_000_000 } else { 60_000 } }
    fn run(&self, s: &mut Src, cx: &mut Cx) -> R {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ran(s, cx, true))) { Ok(r) => r, Err(_) => discard("panicked") }
    }
}
