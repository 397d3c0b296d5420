//! C31: independent parts do not influence each other (relations between runs of seam).

use super::formats::*;
use crate::engine::*;
use crate::gen::*;
use crate::mark;
use crate::model::{expand::*, reader, tree::*};
use crate::util::*;

pub struct C31;

/// Every node in reading order, with what it is below of: is it inside a macro call?
fn gaps(t: &[N], in_call: bool, blanks: &mut Vec<usize>, ends: &mut Vec<usize>, lists: &mut usize) {
    for n in t {
        if n.ws().starts_with('\n') { blanks.push(n.site().off - n.ws().len()); }
        match n {
            N::List { kids, end_ws, end, .. } => {
                let call = in_call || kids.first().and_then(N::sym).is_some_and(|a| a.val.starts_with('%'));
                gaps(kids, call, blanks, ends, lists);
                if end_ws.starts_with('\n') { blanks.push(end.off - end_ws.len()); }
                if !in_call { ends.push(end.off + 1); }
                *lists += 1;
            },
            N::Attr { val, .. } => {
                // Between a keyword and its value there is no place for anything.
                let mut none = vec![];
                gaps(std::slice::from_ref(&**val), in_call, blanks, &mut none, lists);
                let end = end_of(val);
                ends.extend(none.into_iter().filter(|e| *e < end));
                if !in_call { ends.push(end); }
            },
            _ => if !in_call { ends.push(end_of(n)) },
        }
    }
}
fn end_of(n: &N) -> usize {
    match n { N::List { end, .. } => end.off + end.span, N::Attr { val, .. } => end_of(val), n => n.site().off + n.site().span }
}
fn strange(t: &[N]) -> bool {
    t.iter().any(|n| match n { N::List { kids, .. } => strange(kids), N::Attr { val, .. } => strange(std::slice::from_ref(&**val)), N::Sym(a) => a.val.starts_with('%') || a.val.contains("__lambda"), n => n.atom().unwrap().val.contains("__lambda") })
}
pub(super) fn part(s: &mut Src, f: Fmt) -> Vec<G> {
    match f {
        Fmt::Html => match s.below(3) { 0 => gen_special(s), 1 => gen_html(s), _ => { let mut v = mark::program(s, 40); v.extend(gen_html(s)); v } },
        Fmt::Xml => gen_xml(s),
        Fmt::Css => gen_css(s),
        Fmt::Text | Fmt::Sexp => { let w = s.choose(&[0, 0, 40]); if s.chance(3, 4) { mark::program(s, w) } else { gen_text(s) } },
    }
}
fn model(src: &str) -> Result<(Model, bool), Fail> {
    let Ok(t) = reader::read(src, "<stdin>") else { return bad(format!("generated source is not readable: {src}")) };
    let mut m = Model::default();
    match m.program(&t) { Ok(_) => Ok((m, true)), Err(Stop::Err(..)) => Ok((m, false)), Err(Stop::Fuel) => discard("too many steps"), Err(Stop::Unknown(w)) => discard(w) }
}
fn what(r: &Result<String, SeamErr>) -> String { match r { Ok(t) => format!("{t:?}"), Err(e) => format!("error {}", e.msg) } }

impl Prop for C31 {
    fn id(&self) -> &'static str { "C31" }
    fn rule(&self) -> &'static str {
        "Relations between runs, in a random format: (1) two random sources, of which the second looks up no name of the first, one after the other: the fragment is the two fragments one after the other, or an error when either is; (2) comments inserted at line ends anywhere, and (3) unused definitions inserted after any node outside of macro calls, leave the fragment and the document as they are; (4) a run of top-level nodes passed through a macro that returns its arguments (a user macro with a rest parameter, %do, %list with %splat, %map, %apply, %match, %for, a double %reverse) has the same content. Non-trivial: both sources have an output, at least one insertion was made, and a run was wrapped."
    }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 6_000_000 } else { 150_000 } }
    fn run(&self, s: &mut Src, cx: &mut Cx) -> R {
        let f = s.choose(&FMTS);
        let lay = |s: &mut Src| s.choose(&[Layout::Lines, Layout::Plain, Layout::Wild]);
        let (ga, gb) = (part(s, f), part(s, f));
        let (la, lb) = (lay(s), lay(s));
        let a = render_tight(s, &ga, la);
        let b = format!("{}{}", s.pick(&["\n", " ", "\n\n  ", " ; comment\n", "\n; (comment\n\t"]), render_tight(s, &gb, lb));
        about_to_run(s, cx, &a);
        cx.show(&b);
        cx.label(f.name());
        let env = Env::default();
        let doc = s.chance(1, 2);
        let out = |src: &str, doc: bool| seam_out(src, f, doc, &env);

        // (1) One after the other.
        let (ma, _) = model(&a)?;
        let (mb, _) = model(&b)?;
        let (oa, ob) = (out(&a, false), out(&b, false));
        let shared = mb.stats.missing.iter().any(|n| ma.stats.defined.contains(n));
        let ok = oa.is_ok() && ob.is_ok();
        // Strings without blanks between them are spelled so that they stay apart.
        let touching = f == Fmt::Sexp && matches!((&oa, &ob), (Ok(x), Ok(y)) if x.ends_with('"') && y.starts_with('"'));
        if !shared && !touching {
            let both = format!("{a}{b}");
            let got = out(&both, false);
            match (&oa, &ob, &got) {
                (Ok(x), Ok(y), Ok(z)) => {
                    let want = norm_lambda(&format!("{x}{y}"));
                    if norm_lambda(z) != want && !want.contains("__lambda") { return bad(format!("as {}: first {x:?}, second {y:?}, both {z:?}", f.name())); }
                },
                (Ok(_), Ok(_), Err(e)) => return bad(format!("as {}: both are fine, but one after the other rejected: {}", f.name(), e.msg)),
                (_, _, Ok(z)) => return bad(format!("as {}: first {}, second {}, but both {z:?}", f.name(), what(&oa), what(&ob))),
                _ => {},
            }
        } else { cx.label("shared names"); }

        // (2) and (3) Insertions which change nothing.
        let Ok(tree) = reader::read(&a, "<stdin>") else { return bad("not readable") };
        let (mut blanks, mut ends, mut lists) = (vec![], vec![], 0);
        gaps(&tree, false, &mut blanks, &mut ends, &mut lists);
        blanks.push(a.len());
        // Only where the writers do not show the source itself.
        let verbatim = f == Fmt::Html && a.replace('\\', "").to_lowercase().contains("pre");
        let mut inserts: Vec<(usize, String)> = vec![];
        if !verbatim {
            for at in &blanks { if s.chance(1, 3) { inserts.push((*at, format!(" ;{}", s.pick(&["", " note", " (", " \"", ";; x ) :k", " \\"])))); } }
            cx.label("comments");
        }
        let check = |inserts: &mut Vec<(usize, String)>, what_: &str| -> R {
            if inserts.is_empty() { return Ok(()); }
            inserts.sort_by(|x, y| y.0.cmp(&x.0));
            let mut t = a.clone();
            for (at, x) in inserts.iter() { t.insert_str(*at, x); }
            for d in [false, doc] {
                let (x, y) = (if d { out(&a, true) } else { oa.clone() }, out(&t, d));
                let same = match (&x, &y) { (Ok(x), Ok(y)) => x == y || x.contains("__lambda"), (Err(_), Err(_)) => true, _ => false };
                if !same { return bad(format!("as {}: with {what_}\n{t}\ngives {}\ninstead of {}", f.name(), what(&y), what(&x))); }
            }
            Ok(())
        };
        check(&mut inserts, "comments")?;
        let some = !inserts.is_empty();
        let mut inserts: Vec<(usize, String)> = vec![];
        static FILE: std::sync::Once = std::sync::Once::new();
        FILE.call_once(|| std::fs::write("unused.sex", "; nothing but\n(%define unused 1)\n; a definition").unwrap());
        if !verbatim && !ends.is_empty() {
            let n = 1 + s.below(2);
            for i in 0..n {
                let at = s.choose(&ends);
                if !inserts.iter().any(|x| x.0 == at) {
                    let d = s.pick(&["(%define unused-NNN 1)", "(%define (unused-NNN x &r) %nothing (%x))", "(%define unused-NNN (a :k \"b\") c)", "(%namespace unused-NNN (%define x 1) (%define (f) %x))", "(%define unused-NNN)", "(%log)", "(%include unused.sex)"]);
                    inserts.push((at, d.replace("NNN", &i.to_string())));
                }
            }
            check(&mut inserts, "unused definitions")?;
            cx.label("definitions");
        }

        // (4) Through a macro that returns its arguments.
        let mut wrapped = false;
        if !tree.is_empty() {
            let i = s.below(tree.len());
            let j = i + s.below(tree.len() - i);
            let how = s.below(9);
            let (from, to) = (tree[i].site().off, end_of(&tree[j]));
            let p = &a[from..to];
            let w = match how {
                0 => format!("(%do {p})"),
                1 => format!("(%return-all {p})"),
                2 => format!("(%splat (%list {p}))"),
                3 => format!("(%map do {p})"),
                4 => format!("(%apply do {p})"),
                5 => format!("(%match (%list {p}) ((&all) %all))"),
                6 => format!("(%for each in ({p}) %each)"),
                7 => format!("(%splat (%reverse (%reverse (%list {p}))))"),
                _ => format!("(%apply (%lambda (&all) %all) {p})"),
            };
            // The name must be free, and not be an argument's.
            let t = format!("{}{}{w}{}", if how == 1 { "(%define (return-all &all) %all)" } else { "" }, &a[..from], &a[to..]);
            let x = seam_expand(&a, &env);
            if let Ok(x) = &x {
                let attrs = x.iter().any(N::is_attr);
                if strange(x) || how != 0 && attrs { cx.label("not wrapped"); }
                else {
                    match seam_expand(&t, &env) {
                        Ok(y) => if let Some(d) = diff_all(&y, x, CONTENT) { return bad(format!("wrapped\n{t}\n{d}\n   got: {}\n  want: {}", show_all(&y), show_all(x))); },
                        Err(e) => return bad(format!("wrapped\n{t}\nis rejected: {}", e.msg)),
                    }
                    wrapped = true;
                    cx.label(["%do", "user macro", "%list and %splat", "%map", "%apply", "%match", "%for", "%reverse", "%lambda"][how]);
                }
            } else if seam_expand(&t, &env).is_ok() { return bad(format!("wrapped\n{t}\nis accepted, but not without the wrapper")); }
        }
        cx.nontrivial = ok && some && wrapped;
        Ok(())
    }
}
