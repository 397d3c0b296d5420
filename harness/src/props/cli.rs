//! C27 (the command line) and C03 (determinism).

use super::{data, files, formats, mixed};
use crate::engine::*;
use crate::gen::*;
use crate::model::tree::*;
use crate::util::*;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Ran { code: Option<i32>, out: Vec<u8>, err: String }

/// Runs the built program in this worker's scratch directory.
fn run_seam(args: &[String], stdin: &[u8]) -> Result<Ran, Fail> {
    let exe = std::env::var("SEAM_BIN").expect("SEAM_BIN");
    fs::write("cli.in", stdin).unwrap();
    let file = |n: &str| fs::File::create(n).unwrap();
    let mut c = Command::new(exe).args(args).stdin(fs::File::open("cli.in").unwrap()).stdout(file("cli.out")).stderr(file("cli.err"))
        .env("NO_COLOR", "1").stdin(Stdio::from(fs::File::open("cli.in").unwrap())).spawn().expect("cannot run seam");
    let t = Instant::now();
    let mut nap = 200;
    let st = loop {
        if let Some(st) = c.try_wait().unwrap() { break st; }
        if t.elapsed() > Duration::from_secs(20) { let _ = c.kill(); let _ = c.wait(); return bad(format!("{args:?}: no end within 20 s")); }
        std::thread::sleep(Duration::from_micros(nap));
        if t.elapsed() > Duration::from_millis(50) { nap = 5000; }
    };
    Ok(Ran { code: st.code(), out: fs::read("cli.out").unwrap(), err: String::from_utf8_lossy(&fs::read("cli.err").unwrap()).into_owned() })
}

fn show_args(a: &[String]) -> String { a.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(" ") }

// ------------------------------------------------------------------- C27

pub struct C27;
const UNKNOWN: &[&str] = &["--pdf", "-x", "--", "--HTML", "--html=1", "-vv", "-h", "--help", "---", "--no-doc", "--nodocs", "-html", "--ht", "-é", "--é", "-i", "-V", "--version", "--sexp ", "-,", "--include"];

#[derive(Clone)]
enum Arg { Fmt(Fmt), NoDoc(&'static str), Inc(String), Stdin, File(String), Unknown(String), Version }
impl Arg {
    fn text(&self) -> String {
        match self {
            Arg::Fmt(f) => format!("--{}", f.name()),
            Arg::NoDoc(t) => t.to_string(),
            Arg::Inc(d) => format!("-I{d}"),
            Arg::Stdin => "-".into(),
            Arg::File(p) => p.clone(),
            Arg::Unknown(t) => t.clone(),
            Arg::Version => "-v".into(),
        }
    }
}

fn input(s: &mut Src, f: Fmt) -> Vec<u8> {
    let t = match s.below(10) {
        0 | 1 => mixed::source(s).0,
        2 => { let w = s.choose(&[0, 20]); let g = crate::mark::program(s, w); render_tight(s, &g, Layout::Lines) },
        3 => match f {
            Fmt::Css => { let g = formats::gen_css(s); render_tight(s, &g, Layout::Lines) },
            Fmt::Xml => { let g = formats::gen_xml(s); render_tight(s, &g, Layout::Lines) },
            _ => { let g = formats::gen_html(s); render_tight(s, &g, Layout::Lines) },
        },
        4 => return s.pick(&["a \u{e9} b", "", " ", "\n"]).as_bytes().to_vec(),
        5 => return match s.below(3) { 0 => b"a \xff b".to_vec(), 1 => b"(p \xc3".to_vec(), _ => "\u{feff}a\r\n b\u{0}".as_bytes().to_vec() },
        6 => format!("(%include {}) (p x)", s.pick(&["one", "two", "three.txt", "one.sex"])),
        7 => s.pick(&["(p a", "%nope", "(p (%join))", "a \"b", ")", "(!doctype html) (html (p x))", "(style x)", "(p :k (a))"]).to_owned(),
        _ => s.pick(&["a", "(p \"x\" (%define y 1) %y)", "(html (head) (body))", "(ul (li 1)\n\n  (li 2))\n", "(p :k 1 \"<&>\")", "(a :color red)", "(%raw \"<b>\")", "\"two\nlines\"\n"]).to_owned(),
    };
    t.into_bytes()
}

/// What the library makes of an input.
fn library(bytes: &[u8], path: Option<&str>, f: Fmt, doc: bool, includes: &[PathBuf]) -> Result<String, Option<String>> {
    let Ok(t) = std::str::from_utf8(bytes) else { return Err(None) };
    let env = Env { path: path.map(str::to_owned), includes: includes.to_vec() };
    seam_out(t, f, doc, &env).map_err(|e| Some(e.msg))
}

impl Prop for C27 {
    fn id(&self) -> &'static str { "C27" }
    fn rule(&self) -> &'static str {
        "Random command lines (formats, none or several; --nodoc and --nodocument; -I in any order; `-`; files, several, repeated, missing, directories, not UTF-8; unknown options; -v) over a random directory tree and standard input; the built program's standard output, standard error and exit status against what the library gives for each input in turn, called directly. Non-trivial: at least one output."
    }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 900_000 } else { 24_000 } }
    fn run(&self, s: &mut Src, cx: &mut Cx) -> R {
        files::clear(files::ROOT);
        let fs_ = if s.chance(1, 2) { files::gen_fs(s) } else { files::Fs { files: vec![("one.sex".into(), b"in one (%define x 1)".to_vec()), ("d1/two".into(), b"(p in d1)".to_vec()), ("d2/two".into(), b"(p in d2)".to_vec())], dirs: vec![], includes: vec!["d2".into(), "d1".into()], main: "(%include one) (%include two) %x".into() } };
        for d in ["d1/s", "d2"] { fs::create_dir_all(d).unwrap(); }
        for d in &fs_.dirs { fs::create_dir_all(d).unwrap(); }
        for (p, b) in &fs_.files { fs::write(p, b).unwrap(); }
        let mut formats: Vec<Fmt> = vec![];
        let n = s.choose(&[1, 1, 1, 1, 1, 1, 2, 3, 0]);
        for _ in 0..n { formats.push(s.choose(&[Fmt::Html, Fmt::Text, Fmt::Sexp, Fmt::Xml, Fmt::Css])); }
        let last = formats.last().copied().unwrap_or(Fmt::Text);
        // The other inputs.
        const MINE: &[&str] = &["in1.sex", "in 2", "ín3.txt", "d1/in4"];
        let mut contents: Vec<(&str, Vec<u8>)> = vec![];
        for m in MINE { if s.chance(1, 2) { contents.push((m, input(s, last))); } }
        for m in MINE { let _ = fs::remove_file(m); }
        for (p, b) in &contents { fs::write(p, b).unwrap(); }
        let stdin = if s.chance(1, 2) { fs_.main.clone().into_bytes() } else { input(s, last) };

        let mut args: Vec<Arg> = formats.iter().map(|f| Arg::Fmt(*f)).collect();
        let mut put = |s: &mut Src, a: Arg, args: &mut Vec<Arg>| { let i = s.below(args.len() + 1); args.insert(i, a); };
        if s.chance(1, 3) { let a = Arg::NoDoc(s.pick(&["--nodoc", "--nodocument"])); put(s, a, &mut args); }
        if s.chance(1, 20) { put(s, Arg::NoDoc("--nodoc"), &mut args); }
        let k = s.choose(&[0, 1, 1, 1, 2, 3]);
        for _ in 0..k {
            let p = match s.below(8) {
                0 => s.pick(&["./in1.sex", "d1/../in 2", "one", "d2/two"]).to_owned(),
                1 if !fs_.files.is_empty() => { let i = s.below(fs_.files.len()); fs_.files[i].0.clone() },
                _ if !contents.is_empty() => { let i = s.below(contents.len()); contents[i].0.to_owned() },
                _ => "in1.sex".into(),
            };
            if Path::new(&p).exists() { put(s, Arg::File(p), &mut args); }
        }
        if s.chance(1, 20) { let p = s.pick(&["missing", "", "d1", "no/such", "in1", "d1/", "."]); put(s, Arg::File(p.to_owned()), &mut args); }
        if s.chance(1, 3) { put(s, Arg::Stdin, &mut args); if s.chance(1, 6) { put(s, Arg::Stdin, &mut args); } }
        if s.chance(1, 20) { let u = if s.chance(1, 4) { format!("--{}", word(s)) } else { s.pick(UNKNOWN).to_owned() }; if !["--text", "--sexp", "--html", "--xml", "--css", "--nodoc", "--nodocument"].contains(&u.as_str()) { put(s, Arg::Unknown(u), &mut args); } }
        // Directories keep their order.
        let mut includes = fs_.includes.clone();
        if s.chance(1, 12) { includes.push("".into()); }
        if s.chance(1, 12) { includes.push("é".into()); }
        let mut from = 0;
        for d in &includes { let i = from + s.below(args.len() - from + 1); args.insert(i, Arg::Inc(d.to_str().unwrap().to_owned())); from = i + 1; }
        let version = s.chance(1, 40);
        if version { put(s, Arg::Version, &mut args); }
        let texts: Vec<String> = args.iter().map(Arg::text).collect();

        let mut shown = format!("seam {}", show_args(&texts));
        for (p, b) in &contents { shown += &format!("\n=== {p}\n{}", String::from_utf8_lossy(b)); }
        for (p, b) in &fs_.files { shown += &format!("\n=== {p}\n{}", String::from_utf8_lossy(b)); }
        shown += &format!("\n=== standard input\n{}", String::from_utf8_lossy(&stdin));
        about_to_run(s, cx, &shown);

        // What must happen.
        let mut wrong: Option<String> = None;
        for a in &args {
            match a {
                Arg::Unknown(t) => { wrong = Some(t.clone()); break; },
                Arg::File(p) if !Path::new(p).exists() => { wrong = Some(p.clone()); break; },
                _ => {},
            }
        }
        let files_: Vec<&String> = args.iter().filter_map(|a| if let Arg::File(p) = a { Some(p) } else { None }).collect();
        if version {
            // Whatever is wrong with the arguments before it comes first.
            let at = args.iter().position(|a| matches!(a, Arg::Version)).unwrap();
            if let Some(i) = args.iter().position(|a| match a { Arg::Unknown(_) => true, Arg::File(p) => !Path::new(p).exists(), _ => false }) {
                if i > at || formats.is_empty() { return discard("version with wrong arguments"); }
                let r = run_seam(&texts, &stdin)?;
                if r.code.is_none() || r.code == Some(0) { return bad(format!("exit status {:?}, but the argument {:?} before -v is wrong; {:?} {:?}", r.code, texts[i], String::from_utf8_lossy(&r.out), r.err)); }
                cx.label("wrong before the version");
                return Ok(());
            }
            if formats.is_empty() { return discard("version with wrong arguments"); }
            let r = run_seam(&texts, &stdin)?;
            let (a, b, c) = seam::VERSION;
            if r.code != Some(0) { return bad(format!("-v exits with {:?}", r.code)); }
            if !format!("{}{}", String::from_utf8_lossy(&r.out), r.err).contains(&format!("{a}.{b}.{c}")) { return bad(format!("-v says {:?} {:?}", String::from_utf8_lossy(&r.out), r.err)); }
            cx.label("version");
            return Ok(());
        }
        let reject = wrong.is_some() || formats.is_empty();
        let doc = !args.iter().any(|a| matches!(a, Arg::NoDoc(_)));
        let mut inputs: Vec<(Option<&str>, Vec<u8>)> = vec![];
        if !reject {
            if files_.is_empty() || args.iter().any(|a| matches!(a, Arg::Stdin)) { inputs.push((None, stdin.clone())); }
            // A directory cannot be read.
            for p in &files_ { inputs.push((Some(p), fs::read(p).unwrap_or(vec![0xff]))); }
        }
        for (_, b) in &inputs { if let Ok(t) = std::str::from_utf8(b) { mixed::bounded(t, &includes)?; } }
        let (mut out, mut err) = (String::new(), None);
        for (p, b) in &inputs {
            match library(b, *p, last, doc, &includes) {
                Ok(t) => { out += &t; out.push('\n'); },
                Err(m) => { err = Some(m); break; },
            }
        }
        let r = run_seam(&texts, &stdin)?;
        let got = String::from_utf8_lossy(&r.out);
        let failing = reject || err.is_some();
        if r.code.is_none() { return bad(format!("killed by a signal; standard error: {}", r.err)); }
        if (r.code != Some(0)) != failing { return bad(format!("exit status {:?}, but {}; standard error: {}", r.code, if failing { "something is wrong" } else { "all is well" }, r.err)); }
        if r.out != out.as_bytes() { return bad(format!("standard output\n{got:?}\nwant\n{out:?}\nstandard error: {}", r.err)); }
        if failing && r.err.trim().is_empty() { return bad("fails without an error message".to_string()); }
        if let Some(Some(m)) = &err { if !r.err.contains(m.as_str()) { return bad(format!("standard error\n{}\ndoes not have the library's error\n{m}", r.err)); } }
        if let Some(w) = &wrong { if !w.is_empty() && !r.err.contains(w.as_str()) { return bad(format!("standard error {:?} does not name {w:?}", r.err)); } }
        cx.label(if reject { "rejected arguments" } else if failing { "fails" } else { "succeeds" });
        cx.label(&format!("{} inputs", inputs.len()));
        if inputs.len() > 1 && inputs[0].0.is_none() { cx.label("standard input and files"); }
        cx.nontrivial = out.trim().len() > 1;
        Ok(())
    }
}

// ------------------------------------------------------------------- C03

pub struct C03;

/// Many keywords, options and definitions at once: whatever is kept in hash maps.
fn keyed(s: &mut Src) -> String {
    let names = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta", "iota", "kappa"];
    let some = |s: &mut Src, f: &mut dyn FnMut(&mut Src, &str) -> String| -> String {
        let mut v: Vec<&str> = names.to_vec();
        s.shuffle(&mut v);
        let n = 2 + s.below(7);
        v[..n].iter().map(|n| f(s, n)).collect::<Vec<_>>().join(" ")
    };
    match s.below(8) {
        // Missing and unknown keywords, with and without defaults.
        0 => {
            let p = some(s, &mut |s, n| if s.chance(1, 2) { format!(":{n} d-{n}") } else { n.to_string() });
            let a = some(s, &mut |s, n| if s.chance(3, 4) { format!(":{n} v-{n}") } else { n.to_string() });
            let body = p.replace(':', "");
            format!("(%define (f {p}{}) ({})) (%f {a})", s.pick(&["", " &r", " &&o"]), if s.chance(1, 2) { String::new() } else { body.split(' ').filter(|w| !w.starts_with("d-")).map(|w| format!("%{w}")).collect::<Vec<_>>().join(" ") })
        },
        // Unknown options of built-ins.
        1 => { let b = s.pick(&["sort", "join", "markdown", "yaml", "glob", "date", "get", "namespace", "toml"]); let o = some(s, &mut |s, n| format!(":{n} {}", s.below(5))); format!("(%{b} {o} (a b) x)") },
        // Namespaces.
        2 => { let d = some(s, &mut |s, n| match s.below(3) { 0 => format!("(%define ({n} x) %x {n})"), 1 => format!("(%define {n} %missing)"), _ => format!("(%define {n} ({n} 1))") }); let u = some(s, &mut |s, n| if s.chance(1, 2) { format!("%ns/{n}") } else { format!("(%ifdef ns/{n} yes no)") }); format!("(%namespace ns {d}) {u}") },
        // Data.
        3 => { let d = data::yaml_data(s, 3, true, false); let (t, _) = data::yaml_document(s, &d, None, true); let c = call("yaml", vec![st(t)]); let u = some(s, &mut |_, n| format!("%{n}")); render_tight(s, &[c], Layout::Plain) + &if s.chance(1, 4) { u } else { String::new() } },
        4 => { let t = data::toml_root(s); let t = data::toml_document(s, &t); render_tight(s, &[call("toml", vec![st(t)])], Layout::Plain) },
        // Attributes of elements.
        5 => { let a = some(s, &mut |_, n| format!(":{n} v-{n}")); format!("({} {a} x)", s.pick(&["p", "!doctype", "?xml", "svg", "script", "@media"])) },
        6 => { let v = some(s, &mut |s, n| if s.chance(1, 2) { format!("({n} {})", s.below(4)) } else { format!("({n} :k {})", s.below(4)) }); format!("(%sort ({v}) :key (%lambda ({}) {}))", s.pick(&["(n :k k)", "(n k)", "(n &r)"]), s.pick(&["%k", "%n"])) },
        _ => { let o = some(s, &mut |s, n| format!(":{n} {}", s.below(5))); format!("(%format \"{{alpha}} {{gamma}} {{nope}}\" {o}) (%match ({o}) ((:alpha a :beta b &&r) %r) ((&&o) %o))") },
    }
}

static NEW: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
type Told = Result<(Vec<N>, Vec<Result<String, String>>), String>;

impl Prop for C03 {
    fn id(&self) -> &'static str { "C03" }
    fn rule(&self) -> &'static str {
        "Random sources as for C01, and ones with many keywords, options, definitions and data at once: the tree (positions included), the outputs in two formats as fragment and document, and the error messages must be the same in a second run, after another source was processed, in another thread, from a clone of the expander, from a formatter used again, a clone of it, and its Display; a file read before and written again must be read as it is then; a fraction is run twice with the built program in new processes. Non-trivial: expanded, or rejected while expanding."
    }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 8_000_000 } else { 150_000 } }
    fn run(&self, s: &mut Src, cx: &mut Cx) -> R {
        mixed::files();
        let src = if s.chance(1, 2) { let t = keyed(s); about_to_run(s, cx, &t); mixed::bounded(&t, &[])?; cx.label("many keys"); t } else { mixed::program(s, cx)? };
        if ["%date", "date", "now", "env"].iter().any(|w| src.contains(w)) && src.contains("date") { return discard("the time may show"); }
        let fs2 = { let a = s.choose(&FMTS); let b = s.choose(&FMTS); [a, b] };
        let env = Env { path: s.choose(&[None, Some("dir/file.sex".to_owned())]), includes: if s.chance(1, 8) { vec!["nosuch".into(), ".".into()] } else { vec![] } };
        let tell = |src: &str, env: &Env, clone: bool| -> Told {
            let mut ex = seam::tree_builder(env.path.as_ref().map(Path::new), src.to_owned());
            ex.add_includes(env.includes.iter());
            let used = if clone { ex.clone() } else { ex };
            let r = match used.expand() {
                Ok(t) => {
                    let mut v = vec![];
                    for f in fs2 { for doc in [false, true] { v.push(generate(&t, f, doc).map_err(|e| e.msg)); } }
                    Ok((convert_all(&t), v))
                },
                Err(e) => Err(e.to_string()),
            };
            r
        };
        let first = tell(&src, &env, false);
        let same = |x: &Told, how: &str| -> R {
            match (&first, x) {
                (Ok((a, o)), Ok((b, p))) => {
                    if let Some(d) = diff_all(b, a, EVERYTHING) { return bad(format!("{how}: the tree differs: {d}")); }
                    for i in 0..o.len() { if o[i] != p[i] { return bad(format!("{how}: the output as {} differs:\n{:?}\n{:?}", fs2[i / 2].name(), o[i], p[i])); } }
                    Ok(())
                },
                (Err(a), Err(b)) => if a == b { Ok(()) } else { bad(format!("{how}: the error differs:\n{a}\n{b}")) },
                (a, b) => bad(format!("{how}: {} the first time, {} the second", if a.is_ok() { "accepted" } else { "rejected" }, if b.is_ok() { "accepted" } else { "rejected" })),
            }
        };
        // Anonymous functions are numbered.
        same(&tell(&src, &env, false), "again")?;
        for _ in 0..s.choose(&[0, 1, 3]) { same(&tell(&src, &env, false), "again")?; }
        match s.below(6) {
            0 => same(&tell(&src, &env, true), "a clone of the expander")?,
            1 => { let other = keyed(s); if mixed::bounded(&other, &[]).is_ok() { let _ = tell(&other, &env, false); } same(&tell(&src, &env, false), "after another source")? },
            2 => {
                let (a, b) = (src.clone(), env.clone());
                let r = std::thread::scope(|sc| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || tell(&a, &b, false)).unwrap().join());
                match r { Ok(r) => same(&r, "in another thread")?, Err(_) => return bad("panicked in another thread".to_string()) }
            },
            3 | 4 => {
                let f = fs2[0];
                let r = with_tree(&src, &env, |t| -> R {
                    let x = formatter(t.clone(), f);
                    let (a, d) = (x.display().map_err(|e| e.to_string()), x.document().map_err(|e| e.to_string()));
                    for _ in 0..2 {
                        let (b, e) = (x.display().map_err(|e| e.to_string()), x.document().map_err(|e| e.to_string()));
                        if a != b { return bad(format!("the fragment as {} differs when made again:\n{a:?}\n{b:?}", f.name())); }
                        if d != e { return bad(format!("the document as {} differs when made again:\n{d:?}\n{e:?}", f.name())); }
                    }
                    let y = x.clone();
                    let (b, e) = (y.document().map_err(|e| e.to_string()), y.display().map_err(|e| e.to_string()));
                    if d != b || a != e { return bad(format!("a clone of the formatter gives something else as {}:\n{a:?}\n{e:?}\n{d:?}\n{b:?}", f.name())); }
                    if let Ok(a) = &a { let mut w = String::new(); if x.generate(&mut w).is_err() || w != *a { return bad(format!("generate gives {w:?}, display {a:?}")); } }
                    Ok(())
                });
                if let Ok(r) = r { r?; cx.label("formatter used again"); }
            },
            _ => {},
        }
        if s.chance(1, 20) {
            // A file is read as it is then.
            let ways = ["(%include c03f)", "(%embed \"c03f.sex\")", "file", "(p (%include \"./c03f\"))", "(%do (%include c03f) (%embed c03f.sex))"];
            let way = s.pick(&ways);
            let mut before = None;
            for _ in 0..2 + s.below(2) {
                let t = match before { None => word(s), Some(_) if s.chance(1, 3) => src.clone(), _ => word(s) };
                fs::write("c03f.sex", &t).unwrap();
                let told = |p: &str, way: &str| -> Result<Vec<N>, String> {
                    match way {
                        "file" => seam::tree_builder_file(Path::new(p)).map_err(|e| e.to_string())?.expand().map(|t| convert_all(&t)).map_err(|e| e.to_string()),
                        w => seam_expand(&w.replace("c03f", p.trim_end_matches(".sex")), &Env::default()).map_err(|e| e.msg),
                    }
                };
                let now = told("c03f.sex", way);
                // Under a name never read before.
                let n = NEW.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let other = format!("c03f{n}.sex");
                fs::write(&other, &t).unwrap();
                let want = told(&other, way);
                fs::remove_file(&other).unwrap();
                let d = match (&now, &want) { (Ok(a), Ok(b)) => diff_all(a, b, LAYOUT), (Err(_), Err(_)) => None, (a, b) => Some(format!("{a:?}, but {b:?}")) };
                if let Some(d) = d { return bad(format!("{way}: the file holds {t:?} now, before {before:?}; compared with reading it elsewhere: {d}")); }
                before = Some(t);
            }
            cx.label("file written again");
        }
        if s.chance(1, 40) {
            // Nor is a variable of the environment what it was.
            for i in 0..2 + s.below(2) {
                let w = if s.chance(1, 4) { String::new() } else { format!("{}{i}{}", word(s), s.pick(&["", "\n", " "])) };
                let var = "SEAM_V9";
                std::env::set_var(var, &w);
                let r = seam_expand(&format!("(%os/env {var})"), &Env::default());
                std::env::remove_var(var);
                match r { Ok(t) if matches!(&t[..], [N::Str(a)] if a.val == w) => {}, r => return bad(format!("{var} is {w:?} now, but gives {r:?}")) }
            }
            cx.label("environment changed");
        }
        if s.chance(1, 60) {
            fs::write("c03.sex", &src).unwrap();
            let mut args = vec!["c03.sex".to_owned(), format!("--{}", fs2[0].name())];
            if s.chance(1, 2) { args.push("--nodoc".into()); }
            let (a, b) = (run_seam(&args, b"")?, run_seam(&args, b"")?);
            if a.code != b.code || a.out != b.out || a.err != b.err { return bad(format!("two processes differ:\n{:?}\n{}\n{}\n--\n{:?}\n{}\n{}", a.code, String::from_utf8_lossy(&a.out), a.err, b.code, String::from_utf8_lossy(&b.out), b.err)); }
            cx.label("new processes");
        }
        cx.label(match &first { Ok(_) => "expanded", Err(e) if e.contains("Error Expanding Macro") => "not expanded", _ => "not read" });
        cx.nontrivial = match &first { Ok(_) => true, Err(e) => e.contains("Error Expanding Macro") };
        Ok(())
    }
}
