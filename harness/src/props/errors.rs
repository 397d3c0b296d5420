//! C29: where errors point.

use crate::engine::*;
use crate::gen::*;
use crate::mark::Mk;
use crate::util::*;
use std::path::PathBuf;
use unicode_width::UnicodeWidthStr;

pub struct C29;

/// What the error must point at, found by the unique word FAULT.
#[derive(Clone, Copy, Debug)]
pub(super) enum At {
    /// The token beginning this many bytes before the word (and its length from there).
    Back(usize),
    /// The bracket last opened before the word.
    Open,
    /// This text, the next one after the word.
    Next(&'static str),
    /// Somewhere in the list around the word, from its bracket to the closing one.
    Call,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub(super) enum Kind { Read, Expand, Html, Xml, Css }

fn tok(t: &str) -> G { G::Tok(t.to_owned()) }

const BAD_ESCAPES: [char; 6] = ['q', 'é', 'w', ' ', '日', 'Q'];
/// Does the message name what is at fault?
fn named(what: &str, text: &str, msg: &str) -> bool {
    match what {
        "unknown variable" | "unknown macro" | "no such environment variable" | "unknown keyword argument" | "unknown option" | "unknown function" | "attribute without value" | "keyword without value" => msg.contains("FAULT"),
        "invalid escape" => BAD_ESCAPES.iter().all(|c| !text.contains(&format!("\\{c} x\"")) || msg.contains(&format!("\\{c}"))),
        _ => true,
    }
}

/// A fault, what it is, and whether it must stand at the top level (at the very end).
pub(super) fn fault(s: &mut Src) -> (G, At, Kind, &'static str, u8) {
    use Kind::*;
    let f = || tok("FAULT");
    let n = s.below(67);
    let (g, a, k, w) = match n {
        0 | 1 => (tok("%FAULT"), At::Back(1), Expand, "unknown variable"),
        2 => (ls(vec![tok("%FAULT"), sym("x")]), At::Open, Expand, "unknown macro"),
        3 => (call("join", vec![sym("x"), ls(vec![f()])]), At::Open, Expand, "list for a literal"),
        4 => (call("concat", vec![sym("x"), st("y"), ls(vec![f(), sym("y")])]), At::Open, Expand, "list for a literal"),
        5 => (call("sort", vec![ls(vec![sym("a"), ls(vec![f()])])]), At::Open, Expand, "unsortable item"),
        6 => (call("get", vec![f(), ls(vec![sym("a"), sym("b")])]), At::Call, Expand, "get: no such item"),
        7 => (call("format", vec![tok("\"FAULT {\""), sym("a")]), At::Back(1), Expand, "format string"),
        8 => (call("date", vec![tok("\"%QFAULT\""), sym("1")]), At::Back(3), Expand, "date format"),
        9 => (call("embed", vec![f()]), At::Back(0), Expand, "no such file"),
        10 => (call("include", vec![tok("\"FAULT\"")]), At::Back(1), Expand, "no such file"),
        11 => (call("os/env", vec![f()]), At::Back(0), Expand, "no such environment variable"),
        12 => (call("glob", vec![tok("\"FAULT***\"")]), At::Back(1), Expand, "glob pattern"),
        13 => (call("reverse", vec![f()]), At::Back(0), Expand, "literal for a list"),
        14 => (call("one-arg", if s.chance(1, 2) { vec![sym("1"), f()] } else { vec![sym("1"), sym("2"), st("3"), f()] }), At::Back(0), Expand, "excess argument"),
        15 => (call("one-arg", vec![sym("1"), tok(":FAULT"), sym("2")]), At::Back(1), Expand, "unknown keyword argument"),
        16 => (call("two-args", vec![f()]), At::Open, Expand, "too few arguments"),
        17 => (call("map", vec![f(), sym("a")]), At::Call, Expand, "unknown function"),
        18 => (call("yaml", vec![tok("\"FAULT: b: c\"")]), At::Call, Expand, "YAML"),
        19 => (call("toml", vec![tok("\"FAULT=\"")]), At::Call, Expand, "TOML"),
        20 => (call("for", vec![f(), tok("of"), ls(vec![sym("a")]), sym("b")]), At::Next("of"), Expand, "for without in"),
        21 => (call("define", vec![ls(vec![f(), sym("&a"), tok("&b")]), sym("x")]), At::Next("&b"), Expand, "two rest parameters"),
        22 => (call("match", vec![sym("1"), f()]), At::Back(0), Expand, "match pattern"),
        23 => (call("join", vec![sym("x"), tok(":FAULT"), sym("1")]), At::Back(1), Expand, "unknown option"),
        24 => (call("sort", vec![ls(vec![sym("a")]), tok(":order"), f()]), At::Back(0), Expand, "option value"),
        25 => (call("lambda", vec![ls(vec![f(), sym("&&a"), tok("&&b")]), sym("x")]), At::Next("&&b"), Expand, "two rest parameters"),
        26 => (ls(vec![sym("p"), tok(":FAULT"), call("do", vec![])]), At::Back(1), Expand, "attribute without value"),
        27 => (call("timestamp", vec![st("%s"), f()]), At::Call, Expand, "timestamp"),
        28 => (call("markdown", vec![tok("\"FAULT\""), tok(":only"), tok("frontmatter")]), At::Call, Expand, "no frontmatter"),
        29 => (call("apply", vec![f()]), At::Call, Expand, "unknown function"),
        30 => (call("get", vec![sym("0"), f()]), At::Back(0), Expand, "literal for a list"),
        31 => (call("string", vec![sym("0"), ls(vec![f()])]), At::Open, Expand, "list for a literal"),
        32 => (call("number", vec![ls(vec![f()])]), At::Open, Expand, "list for a literal"),
        33 => (call("one-arg", vec![tok("%FAULT")]), At::Back(1), Expand, "unknown variable"),
        34 => (call("date", vec![st("%Y"), f()]), At::Back(0), Expand, "not a number"),
        35 => (call("nested-arg", vec![f()]), At::Back(0), Expand, "literal for a list"),
        36 => (call("literal-arg", vec![f()]), At::Back(0), Expand, "argument does not match"),
        37 => (call("namespace", vec![ls(vec![f()]), sym("x")]), At::Call, Expand, "namespace name"),
        38 | 39 => (tok("FAULT)"), At::Next(")"), Read, "stray bracket"),
        40 | 41 => (tok("(FAULT"), At::Open, Read, "unclosed bracket"),
        42 => (tok("\"FAULT ( a\nb ) ;"), At::Back(1), Read, "unclosed string"),
        43 => (tok("\"\"\"FAULT \" x\n)"), At::Back(3), Read, "unclosed string"),
        44 => {
            let pre = s.pick(&["", "é", "日本 ", "a\u{301}\\n", "\\u{e9}x"]);
            (tok(&format!("\"{pre}FAULT{}\\{} x\"", s.pick(&["", " é"]), s.choose(&BAD_ESCAPES))), At::Back(1 + pre.len()), Read, "invalid escape")
        },
        45 => (tok("\"a\nFAULT\\u{110000}\n\""), At::Back(3), Read, "invalid escape"),
        46 => (ls(vec![sym("p"), tok(":FAULT")]), At::Back(1), Read, "keyword without value"),
        47 => (tok("(p :x 1 \n:FAULT)"), At::Back(1), Read, "keyword without value"),
        48 => (ls(vec![tok("FAULT"), sym("x"), tok(":key"), sym("v")]), At::Next(":key"), Html, "misplaced attribute"),
        49 => match s.below(3) {
            0 => (ls(vec![sym("br"), f()]), At::Back(0), Html, "void element with children"),
            1 => (ls(vec![sym("IMG"), at("src", sym("x")), ls(vec![f(), sym("y")])]), At::Open, Html, "void element with children"),
            _ => (ls(vec![sym("hr"), tok("\"FAULT\"")]), At::Back(1), Html, "void element with children"),
        },
        50 => (ls(vec![ls(vec![f()]), sym("x")]), At::Open, s.choose(&[Html, Xml]), "tag is a list"),
        51 => (ls(vec![sym("p"), tok(":k"), ls(vec![f()])]), At::Open, s.choose(&[Html, Xml]), "attribute value is a list"),
        52 => (ls(vec![tok("\"FAULT\""), sym("x")]), At::Back(1), s.choose(&[Html, Xml]), "tag is a string"),
        53 => (ls(vec![tok("!doctype"), tok("\"FAULT\"")]), At::Back(1), Html, "declaration with a string"),
        54 => (ls(vec![tok("?xml-x"), sym("a"), ls(vec![f()])]), At::Open, Xml, "list in a declaration"),
        55 => (ls(vec![tok("FAULT"), sym("x"), tok(":key"), sym("v")]), At::Next(":key"), Xml, "misplaced attribute"),
        56 => (f(), At::Back(0), Css, "not a rule"),
        57 => (ls(vec![tok("svg"), ls(vec![sym("p"), tok("FAULT"), tok(":key"), sym("v")])]), At::Next(":key"), Html, "misplaced attribute"),
        58 => { let t = s.pick(&["(%define)", "(%match)", "(%ifdef)", "(%for)", "(%get)", "(%join)", "(%format)", "(%date)", "(%timestamp)", "(%embed)", "(%include)", "(%markdown)", "(%glob)", "(%sort)", "(%reverse)", "(%apply)", "(%lambda)", "(%os/env)", "(%yaml)", "(%json)", "(%toml)", "(%ifdef a)", "(%map)", "(%filter)", "(%namespace)"]); (call("do", vec![f(), tok(t)]), At::Next(t), Expand, "too few arguments") },
        59 => (call("format", vec![st("{a} {}"), tok(":a"), ls(vec![f()]), sym("x")]), At::Open, Expand, "list in a format"),
        60 => (call("format", vec![st("{}{a}"), at("a", sym("1")), ls(vec![f()])]), At::Open, Expand, "list in a format"),
        61 => (call("one-arg", vec![ls(vec![f()]), sym("2")]), At::Next("2"), Expand, "excess argument"),
        62 => (call("toml", vec![tok("\"FAULT = 1\""), tok(":separator"), ls(vec![])]), At::Call, Expand, "option value"),
        63 => (call("join", vec![st(","), sym("x"), tok(":trailing"), f()]), At::Back(0), Expand, "option value"),
        64 => (call("strip", vec![tok("%FAULT")]), At::Back(1), Expand, "unknown variable"),
        65 => match s.below(3) {
            0 => (call("get", vec![sym("7"), ls(vec![f(), sym("b")])]), At::Open, Expand, "get: no such index"),
            1 => (call("get", vec![sym("0/2"), ls(vec![ls(vec![f(), sym("b")]), sym("c"), sym("d")])]), At::Open, Expand, "get: no such index"),
            _ => (call("get", vec![sym("0/0"), ls(vec![f(), sym("b")])]), At::Back(0), Expand, "get from something else than a list"),
        },
        _ => match s.below(3) {
            0 => (ls(vec![sym("p"), tok(":k"), sym("v"), f()]), At::Back(0), Css, "not a property"),
            1 => (ls(vec![sym("p"), tok(":k"), ls(vec![sym("calc"), tok(":FAULT"), sym("x")])]), At::Back(1), Css, "attribute in a value"),
            _ => (ls(vec![ls(vec![f()]), tok(":k"), sym("v")]), At::Call, Css, "no selector"),
        },
    };
    let place = match n { 38..=41 => 1, 42 | 43 => 2, 56 => 1, _ => 0 };
    (g, a, k, w, place)
}

struct Around { kind: Kind, depth: usize, n: usize }
impl Around {
    fn some(&self, s: &mut Src) -> Vec<G> {
        match self.kind {
            Kind::Html | Kind::Xml => { let mut k = Mk::new(self.kind == Kind::Html, 0, 0); k.sane = true; k.foreign = 0; k.nodes(s, 1, 3) },
            Kind::Css => { let mut k = Mk::new(false, 0, 0); k.sane = true; let r = s.below(3); (0..r).map(|_| k.rule(s, 1)).collect() },
            _ => { let n = s.below(3); (0..n).map(|_| tree(s, 2, false)).collect() },
        }
    }
    /// Puts the node into something that needs it, with other things around.
    fn wrap(&mut self, s: &mut Src, g: G) -> Vec<G> {
        let mut v = vec![g];
        for _ in 0..self.depth {
            let g = if v.len() == 1 { v.pop().unwrap() } else { call("do", std::mem::take(&mut v)) };
            self.n += 1;
            let n = self.n;
            let gen = matches!(self.kind, Kind::Html | Kind::Xml | Kind::Css);
            let g = match s.below(if gen { 10 } else { 14 }) {
                0 | 1 => {
                    let mut l = vec![sym(if self.kind == Kind::Css { "@media" } else { "div" })];
                    if self.kind == Kind::Css { l.push(sym("screen")); }
                    l.extend(self.some(s)); l.push(g); l.extend(self.some(s));
                    ls(l)
                },
                2 => { let mut l = self.some(s); l.push(g); l.extend(self.some(s)); call("do", l) },
                3 => call("for", vec![sym("i"), sym("in"), ls(vec![sym("1"), sym("2")]), g]),
                4 => call("match", vec![sym("1"), ls(vec![sym("2"), sym("no")]), ls(vec![sym("1"), g])]),
                5 => call("ifdef", vec![sym("one-arg"), g, sym("%nothing")]),
                6 => { v = vec![call("define", vec![sym(format!("var{n}")), g]), sym(format!("%var{n}"))]; continue },
                7 => { v = vec![call("define", vec![ls(vec![sym(format!("fun{n}")), sym("x")]), g]), call(&format!("fun{n}"), vec![sym("1")])]; continue },
                8 => call("all-args", vec![g]),
                9 => call("apply", vec![call("lambda", vec![sym("x"), g]), sym("1")]),
                10 => call("list", vec![sym("x"), g]),
                11 => ls(vec![sym("p"), at("k", g)]),
                12 => call("concat", vec![sym("x"), g]),
                _ => call("namespace", vec![sym("ns"), g]),
            };
            v.push(g);
        }
        let mut out = self.some(s);
        out.extend(v);
        out
    }
}

impl Prop for C29 {
    fn id(&self) -> &'static str { "C29" }
    fn rule(&self) -> &'static str {
        "One of 65 kinds of faults (in reading, expanding, or generating one of the formats) marked by a unique word is put into a valid source: at the top level or nested in lists, attributes, macro bodies, calls, loops, branches, namespaces and lambdas, with other content before and behind, in any layout, in the main source, an included file, one found through an include directory, or one included by another. The message must name the file, the line and the terminal column of the offending token (or, for faults of a whole call, a place in that call), show that line, and mark that column. Non-trivial: every case."
    }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 15_000_000 } else { 300_000 } }
    fn run(&self, s: &mut Src, cx: &mut Cx) -> R {
        let (g, target, kind, what, place) = fault(s);
        let mut a = Around { kind, depth: s.choose(&[0, 1, 2, 3, 4]), n: 0 };
        if place > 0 { a.depth = 0; }
        let mut v = a.wrap(s, g);
        if place < 2 { let more = a.some(s); v.extend(more); }
        let mut pre = vec![
            call("define", vec![ls(vec![sym("one-arg"), sym("x")]), sym("%x")]),
            call("define", vec![ls(vec![sym("all-args"), sym("&x")]), sym("%x")]),
            call("define", vec![ls(vec![sym("two-args"), sym("x"), sym("y")]), sym("%x")]),
            call("define", vec![ls(vec![sym("nested-arg"), ls(vec![sym("x")])]), sym("%x")]),
            call("define", vec![ls(vec![sym("literal-arg"), st("this")]), sym("1")]),
        ];
        s.shuffle(&mut pre);
        pre.extend(v);
        let lay = layout(s);
        let (mut text, _) = render(s, &pre, lay, "x");
        // (Escaping a digit makes a symbol of a number.)
        if text.as_bytes().windows(2).any(|w| w[0] == b'\\' && matches!(w[1], b'0'..=b'9' | b'+' | b'-')) { text = render(s, &pre, Layout::Lines, "x").0; }
        let other = { let b = Around { kind, depth: 0, n: 0 }; let mut o = b.some(s); if kind == Kind::Css { o.retain(|g| matches!(g, G::List(_))); } o };
        let (mode, name) = s.choose(&[(0, "<stdin>"), (1, "main.sex"), (1, "sub/Main file.sex"), (2, "inc.sex"), (2, "inc.sex"), (3, "lib/é x.sex"), (4, "deep.sex")]);
        let mut env = Env::default();
        let chain = |s: &mut Src, file: &str, other: &[G]| -> String {
            let mut v = other.to_vec();
            let i = s.below(v.len() + 1);
            let inc = call("include", vec![st(file)]);
            let inc = match s.below(4) { 0 => call("do", vec![inc]), 1 if kind != Kind::Css => ls(vec![sym("div"), inc]), _ => inc };
            v.insert(i, inc);
            render(s, &v, Layout::Lines, "y").0
        };
        let main = match mode {
            0 => text.clone(),
            1 => { env.path = Some(name.to_owned()); text.clone() },
            2 => chain(s, "inc", &other),
            3 => { env.includes.push(PathBuf::from("none")); env.includes.push(PathBuf::from("lib")); chain(s, "é x", &other) },
            _ => { let mid = chain(s, "deep.sex", &other); std::fs::write("mid.sex", &mid).unwrap(); chain(s, "mid", &other) },
        };
        if mode >= 2 {
            if mode == 3 { let _ = std::fs::create_dir("lib"); }
            std::fs::write(name, &text).unwrap();
        }
        about_to_run(s, cx, &main);
        if mode >= 2 { cx.show(format!("{name}:\n{text}")); }
        cx.label(what);
        cx.label(["standard input", "file", "included", "included from a directory", "included by an included file"][mode]);

        let fmt = match kind { Kind::Xml => Fmt::Xml, Kind::Css => Fmt::Css, _ => Fmt::Html };
        let run = |src: &str| -> Result<(), SeamErr> {
            match kind { Kind::Read | Kind::Expand => seam_expand(src, &env).map(|_| ()), _ => seam_out(src, fmt, false, &env).map(|_| ()) }
        };
        // Where it is.
        let Some(word) = text.find("FAULT") else { return bad(format!("no fault in {text}")) };
        // Brackets and such in comments do not count.
        let code = [" (unbalanced \"", " ) :x", " 100% %define"].iter().fold(text.clone(), |t, c| t.replace(&format!(";{c}\n"), &format!("{}\n", "_".repeat(c.len() + 1))));
        let open = code[..word].rfind('(');
        let (from, to, exact) = match target {
            At::Back(n) => (word - n, word - n + 1, true),
            At::Open => match open { Some(o) => (o, o + 1, true), None => return bad("no bracket") },
            At::Next(t) => match code[word + 5..].find(t) { Some(i) => (word + 5 + i, word + 6 + i, true), None => return bad("no such text") },
            At::Call => match (if kind == Kind::Css { open.and_then(|o| code[..o].rfind('(')) } else { code[..word].rfind('%').and_then(|p| code[..p].rfind('(')) }, code[word..].find(')')) { (Some(o), Some(c)) => (o, word + c + 1, false), _ => return bad("no call") },
        };
        let at_of = |off: usize| {
            let start = text[..off].rfind('\n').map_or(0, |i| i + 1);
            let end = text[off..].find('\n').map_or(text.len(), |i| off + i);
            (1 + text[..off].matches('\n').count(), UnicodeWidthStr::width(&text[start..off]) + 1, &text[start..end])
        };
        let e = match run(&main) {
            Ok(()) => return bad(format!("{what}: not reported at all")),
            Err(e) => e,
        };
        // The innermost place is named last.
        let tail = &e.msg[e.msg.rfind("[**]").unwrap_or(0)..];
        let mut found = None;
        for off in (from..to).filter(|o| text.is_char_boundary(*o)) {
            let (line, col, shown) = at_of(off);
            for n in [name.to_owned(), format!("./{name}")] {
                if tail.contains(&format!("({n}:{line}:{col})")) { found = Some((line, col, shown)); break; }
            }
            if found.is_some() { break; }
        }
        let (line, col, shown) = at_of(from);
        let Some((l, c, t)) = found else { return bad(format!("{what}: the fault is at {name}:{line}:{col}{}, in {shown:?}, but reported was:\n{}", if exact { "" } else { " (or later in that call)" }, e.msg)) };
        if !e.msg.contains(&format!("{l} | {t}\n")) { return bad(format!("{what}: line {l}, {t:?}, is not shown in:\n{}", e.msg)); }
        let mark = format!("| {}^", "~".repeat(c - 1));
        if !e.msg.contains(&mark) { return bad(format!("{what}: column {c} is not marked in:\n{}", e.msg)); }
        // What follows the place.
        let said = tail.find(&format!("{l}:{c})")).map_or(tail, |i| &tail[i..]);
        if !named(what, &text, said) { return bad(format!("{what}: not named in {said:?}")); }
        cx.nontrivial = true;
        Ok(())
    }
}
